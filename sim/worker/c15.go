package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"

	textwire "github.com/textwire/textwire/v2"

	"verifsim/cases"
)

// flaky reports whether op alone, in a fresh process, already depends on map
// order or hash seeds: then its result says nothing about this property.
func (r *runner) flaky(c *cases.Case, op *cases.Op) bool {
	env := c.Env
	var first string
	for i := 0; i < 8; i++ {
		c2 := *c
		c2.Env = env
		c2.Env.IterMode, c2.Env.IterInv, c2.Env.IterSeed = 1, 1, cases.Mix(c.Seed+uint64(i))
		c2.Env.HashMode, c2.Env.HashSeed = 1, cases.Mix(c.Seed+100+uint64(i))
		o := r.alone(&c2, op)
		if i == 0 {
			first = o.key()
		} else if o.key() != first {
			r.probe("op-depends-on-map-order")
			return true
		}
	}
	return false
}

func exec15(r *runner, c *cases.Case) Verdict {
	r.wipe()
	r.materialise(&c.World, 0)
	for _, t := range c.Tasks {
		for i := range t {
			r.prepare(&c.World, &t[i])
		}
	}
	boot := c.Env
	boot.Policy, boot.Events = 0, nil
	var tpl *textwire.Template
	var lo Outcome
	r.sim(&boot, func() {
		setBudget()
		tpl, lo = r.boot(&c.World)
	})
	if lo.Kind != "ok" {
		r.probe("world-not-loaded")
		r.debugf("not loaded: %s", lo.key())
		return Verdict{}
	}
	outs := make([][]Outcome, len(c.Tasks))
	copies := make([][]string, len(c.Tasks))
	data := make([][][2]map[string]any, len(c.Tasks))
	for t := range c.Tasks {
		outs[t] = make([]Outcome, 0, 64)
		copies[t] = make([]string, 0, 64)
		for i := range c.Tasks[t] {
			op := &c.Tasks[t][i]
			data[t] = append(data[t], [2]map[string]any{toData(op.Data), toData(op.Data)})
		}
	}
	var fns []func()
	for t := range c.Tasks {
		fns = append(fns, func() {
			for i := range c.Tasks[t] {
				op := &c.Tasks[t][i]
				n := max(op.Rep, 1)
				for k := 0; k < n; k++ {
					o := r.doWith(&c.World, tpl, op, data[t][i][0], data[t][i][1])
					if o.Kind == "abort" {
						return
					}
					outs[t] = append(outs[t], o)
					copies[t] = append(copies[t], strings.Clone(o.key()))
				}
			}
		})
	}
	races := raceErrors()
	env := c.Env
	r.raceMark()
	res := r.simBudget(&env, 40_000_000, fns...)
	r.dig = cases.Mix(r.dig ^ res.Hash)
	r.fire("preempted-runs")
	rec := c.Env
	r.record(&rec)
	truncated := len(r.last.ev) > 60000 || !r.last.ok
	fail := func(v Verdict) Verdict {
		if !truncated {
			c.Env = rec
		}
		return v
	}
	if raceErrors() > races {
		return fail(Verdict{Viol: "data-race", Detail: r.raceReport()})
	}
	if res.Deadlock {
		return fail(Verdict{Viol: "deadlock", Detail: "every goroutine is blocked for ever"})
	}
	v := Verdict{}
	over := false
	base := map[string]Outcome{}
	for t := range c.Tasks {
		j := 0
		for i := range c.Tasks[t] {
			op := &c.Tasks[t][i]
			k := baseKey(op)
			n := max(op.Rep, 1)
			for q := 0; q < n; q++ {
				if j >= len(outs[t]) {
					over = true
					break
				}
				o := &outs[t][j]
				if k := o.now(r); k != copies[t][j] {
					return fail(Verdict{Viol: "aliased-result", Detail: fmt.Sprintf("the result of goroutine %d, operation %d (%s %s) changed after it was returned:\n was %s\n now %s", t, i, op.K, op.Name, copies[t][j], k)})
				}
				j++
				b, ok := base[k]
				if !ok {
					b = r.alone(c, op)
					base[k] = b
				}
				r.note(o)
				r.st.Ops++
				r.countOp(op, o)
				if b.Kind != "abort" && b.key() != o.key() && !r.flaky(c, op) {
					return fail(Verdict{Viol: "differs-from-alone", Detail: fmt.Sprintf("goroutine %d, operation %d: %s %s (one: alone, another: concurrently)\n%s", t, i, op.K, op.Name, diff(&b, o))})
				}
			}
		}
	}
	if over {
		r.probe("over-budget")
	}
	v.nontrivial = res.Switches > uint64(len(c.Tasks)) && !over
	v.distinct = cases.Mix(res.Hash ^ c.Seed)
	return v
}

func (r *runner) simBudget(e *cases.Env, budget uint64, fns ...func()) runtime.SimResult {
	r.budget = budget
	defer func() { r.budget = 0 }()
	return r.sim(e, fns...)
}

// raceMark remembers where the race log ends; raceReport reads what follows.
func (r *runner) raceMark() {
	r.racePos = 0
	if st, err := os.Stat(r.raceFile()); err == nil {
		r.racePos = st.Size()
	}
}

func (r *runner) raceFile() string { return fmt.Sprintf("%s.%d", r.raceLog, os.Getpid()) }

var raceFrame = regexp.MustCompile(`^  (\S+)\(`)
var raceLine = regexp.MustCompile(`^      (\S+):(\d+)`)

// raceReport condenses the report: kinds of access and the innermost frames.
func (r *runner) raceReport() string {
	b, err := os.ReadFile(r.raceFile())
	if err != nil || int64(len(b)) < r.racePos {
		return "data race (no report)"
	}
	var out []string
	lines := strings.Split(string(b[r.racePos:]), "\n")
	frames := 0
	seen := 0
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "WARNING: DATA RACE"):
			seen++
			if seen > 1 {
				return strings.Join(out, "\n")
			}
			out = append(out, "data race:")
		case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Previous read"):
			out = append(out, " read:")
			frames = 4
		case strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous write"):
			out = append(out, " write:")
			frames = 4
		case strings.HasPrefix(l, "Goroutine"):
			frames = 0
		case frames > 0 && raceFrame.MatchString(l):
			out = append(out, "   "+raceFrame.FindStringSubmatch(l)[1])
			frames--
		case frames >= 0 && raceLine.MatchString(l) && len(out) > 0 && strings.HasPrefix(out[len(out)-1], "   ") && !strings.Contains(out[len(out)-1], " at "):
			m := raceLine.FindStringSubmatch(l)
			p := m[1]
			if i := strings.LastIndex(p, "/"); i >= 0 {
				p = p[i+1:]
			}
			out[len(out)-1] += " at " + p + ":" + m[2]
		}
	}
	return strings.Join(out, "\n")
}

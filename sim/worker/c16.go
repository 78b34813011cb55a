package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"

	textwire "github.com/textwire/textwire/v2"

	"verifsim/cases"
)

// baseKey identifies an operation independent of its place in a history.
func baseKey(op *cases.Op) string {
	o := *op
	o.Rep, o.Shared, o.Exp, o.Note, o.Want = 0, 0, "", "", ""
	b, _ := json.Marshal(&o)
	return string(b)
}

// alone runs op as the first operation of a fresh simulated process.
func (r *runner) alone(c *cases.Case, op *cases.Op) Outcome {
	env := c.Env
	env.Policy = runtime.SimPolicyNone
	env.Events = nil
	var o Outcome
	r.prepare(&c.World, op)
	res := r.sim(&env, func() {
		runtime.SimSetBudget(opBudget)
		tpl, lo := r.boot(&c.World)
		if lo.Kind != "ok" {
			o = Outcome{Kind: "notloaded", Err: lo.Err}
			return
		}
		runtime.SimSetBudget(opBudget)
		x := *op
		x.Shared = 0
		o = r.do(&c.World, tpl, &x)
	})
	if res.Deadlock {
		o = Outcome{Kind: "deadlock"}
	}
	return o
}

func exec16(r *runner, c *cases.Case) Verdict {
	r.wipe()
	r.materialise(&c.World, 0)
	h := c.Tasks[0]
	type slot struct {
		op   int
		rep  int
		x    *cases.Op
		o    Outcome
		copy string
	}
	var got []slot
	cur := -1
	loaded := Outcome{}
	res := r.sim(&c.Env, func() {
		runtime.SimSetBudget(opBudget)
		var tpl *textwire.Template
		tpl, loaded = r.boot(&c.World)
		if loaded.Kind != "ok" {
			return
		}
		for i := range h {
			op := &h[i]
			cur = i
			switch op.K {
			case "clock":
				runtime.SimAdvance(int64(op.Fault.N) * 1_000_000_000)
				r.fire("clock-jump")
				continue
			}
			n := op.Rep
			if n < 1 {
				n = 1
			}
			for k := 0; k < n; k++ {
				x := cases.Varied(op, k)
				r.prepare(&c.World, x)
				runtime.SimSetBudget(opBudget)
				o := r.do(&c.World, tpl, x)
				got = append(got, slot{i, k, x, o, strings.Clone(o.key())})
				if o.Kind == "abort" {
					return
				}
			}
		}
		cur = len(h)
	})
	v := Verdict{}
	if loaded.Kind != "ok" {
		r.probe("world-not-loaded")
		r.debugf("not loaded: %s", loaded.key())
		return v
	}
	for i := range got {
		r.note(&got[i].o)
	}
	r.st.Ops += len(got)
	kinds := map[string]bool{}
	base := map[string]Outcome{}
	for i := range got {
		g := &got[i]
		op := g.x
		if k := g.o.now(r); k != g.copy {
			return Verdict{Viol: "aliased-result", Detail: fmt.Sprintf("the result of operation %d (%s %s) changed after it was returned:\n was %s\n now %s", g.op, op.K, op.Name, g.copy, k)}
		}
		r.countOp(op, &g.o)
		kinds[op.K+g.o.Kind] = true
		k := baseKey(op)
		b, ok := base[k]
		if !ok {
			b = r.alone(c, op)
			base[k] = b
		}
		if strings.HasPrefix(g.o.Kind, "mutated") {
			return Verdict{Viol: "data-mutated", Detail: fmt.Sprintf("operation %d (%s %s): %s", g.op, op.K, op.Name, g.o.Err)}
		}
		if b.key() != g.o.key() && !r.flaky(c, op) {
			return Verdict{Viol: "history-dependent", Detail: fmt.Sprintf("operation %d (repetition %d): %s %s (one: issued first, another: after the history)\n%s", g.op, g.rep, op.K, op.Name, diff(&b, &g.o))}
		}
	}
	if res.Deadlock {
		return Verdict{Viol: "deadlock", Detail: fmt.Sprintf("operation %d of the history blocks forever", cur)}
	}
	v.nontrivial = len(kinds) >= 3 && len(got) >= 4
	v.distinct = r.dig
	return v
}

// countOp counts what an operation reached.
func (r *runner) countOp(op *cases.Op, o *Outcome) {
	r.probe("op:" + op.K + ":" + o.Kind)
	if o.Msg == "writer-fault" {
		r.fire("writer:" + op.Fault.K)
	}
	if op.Fault != nil && op.Fault.K == "slow" {
		r.fire("writer:slow")
	}
	if o.Kind == "panic" && strings.HasPrefix(o.Err, "callback ") {
		r.fire("callback-panic")
	}
	if op.Shared > 0 {
		r.fire("caller-reuses-data")
	}
}

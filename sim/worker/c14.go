package main

import (
	"fmt"
	"os"
	"time"

	"verifsim/cases"
)

// round is what one run of the operations under one environment shows.
func (r *runner) round14(c *cases.Case, env *cases.Env) (outs []Outcome) {
	r.wipe()
	r.materialise(&c.World, env.FileSeed)
	for i := range c.Tasks[0] {
		r.prepare(&c.World, &c.Tasks[0][i])
	}
	setVars(env.Vars)
	defer setVars(0)
	res := r.sim(env, func() {
		setBudget()
		tpl, lo := r.boot(&c.World)
		outs = append(outs, lo)
		for k := 0; k < 2; k++ {
			for i := range c.Tasks[0] {
				op := &c.Tasks[0][i]
				if lo.Kind != "ok" && (op.K == "string" || op.K == "resp") {
					outs = append(outs, Outcome{Kind: "skipped"})
					continue
				}
				setBudget()
				outs = append(outs, r.do(&c.World, tpl, op))
			}
			if k == 0 {
				// the same again, in the same process, from a second load
				setBudget()
				tpl, lo = r.load(&c.World)
				outs = append(outs, lo)
			}
		}
	})
	if res.Deadlock {
		outs = append(outs, Outcome{Kind: "deadlock"})
	}
	return outs
}

func exec14(r *runner, c *cases.Case) Verdict {
	base := r.round14(c, &c.Env)
	r.probe("load:" + base[0].Kind + ":" + c.Kind)
	for i := range base {
		r.note(&base[i])
	}
	n := len(c.Tasks[0]) + 1
	name := func(i int) string {
		if i%n == 0 {
			return "loading"
		}
		op := &c.Tasks[0][i%n-1]
		return fmt.Sprintf("operation %d (%s %s)", i%n-1, op.K, op.Name)
	}
	v := Verdict{}
	kinds := map[string]bool{}
	for i := range base {
		if i >= n && i%n < n && base[i].key() != base[i%n].key() {
			v.Viol, v.Detail = "differs-in-process", fmt.Sprintf("%s gives another result the second time in one process:\n%s", name(i), diff(&base[i%n], &base[i]))
			return v
		}
		if i > 0 && i < n {
			r.probe("op:" + c.Tasks[0][i-1].K + ":" + base[i].Kind)
			kinds[base[i].Kind+base[i].Msg] = true
		}
	}
	r.st.Ops += len(base)
	dev := false
	for k := range c.Envs {
		env := &c.Envs[k]
		got := r.round14(c, env)
		r.st.Ops += len(got)
		if r.last.res.IterDev > 0 {
			dev = true
		}
		r.fireEnv(env)
		for i := range got {
			if i >= len(base) || got[i].key() != base[i].key() {
				var b Outcome
				if i < len(base) {
					b = base[i]
				}
				if r.last.res.Spawned > 0 {
					r.record(env) // the schedule of goroutines the code started matters too
				} else {
					env.Policy = 0
					r.recordIters(env)
				}
				c.Envs = c.Envs[k : k+1]
				v.Viol, v.Detail = "differs-by-environment", fmt.Sprintf("%s gives another result in an identical run that differs only in map order, clock, hash seeds and disk order:\n%s", name(i), diff(&b, &got[i]))
				return v
			}
		}
	}
	v.nontrivial = dev && (base[0].Kind != "ok" || len(kinds) > 1 || kinds["ok"])
	v.distinct = r.dig
	return v
}

func (r *runner) fireEnv(e *cases.Env) {
	if r.last.res.IterDev > 0 {
		r.fire("map-order")
	}
	if e.HashMode > 0 {
		r.fire("hash-seed")
	}
	r.fire("clock-base")
	r.fire("disk-order")
	r.fire("rand-seed")
	r.fire("env-vars")
}

// startVars are the environment variables the worker was started with.
var startVars, startArgs, startZone = os.Environ(), os.Args, time.Local

var locales = []string{"C", "POSIX", "en_US.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "ja_JP.UTF-8", "es_ES", "it_IT.UTF-8", "pt_BR.UTF-8", "ru_RU.KOI8-R", "ar_EG.UTF-8", "az_AZ", "lt_LT", "nl_NL.UTF-8", "sv_SE.UTF-8", ""}

// setVars gives the process what the simulated one inherits.
func setVars(seed uint64) {
	os.Clearenv()
	for _, kv := range startVars {
		for i := 1; i < len(kv); i++ {
			if kv[i] == '=' {
				os.Setenv(kv[:i], kv[i+1:])
				break
			}
		}
	}
	os.Args, time.Local = startArgs, startZone
	if seed == 0 {
		return
	}
	r := cases.NewRng(seed)
	l := locales[r.N(len(locales))]
	for _, n := range []string{"LANG", "LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE"} {
		if r.P(20) {
			os.Unsetenv(n)
		} else {
			os.Setenv(n, l)
		}
	}
	for _, n := range []string{"DEBUG", "TEXTWIRE_DEBUG", "APP_DEBUG", "CI", "NO_COLOR", "VERBOSE", "TESTING"} {
		switch r.N(4) {
		case 0:
			os.Unsetenv(n)
		case 1:
			os.Setenv(n, "")
		default:
			os.Setenv(n, r.Pick("1", "0", "true", "false", "*"))
		}
	}
	for _, n := range []string{"APP_ENV", "GO_ENV", "ENV", "NODE_ENV", "ENVIRONMENT", "TEXTWIRE_ENV"} {
		os.Setenv(n, r.Pick("production", "development", "test", "local", ""))
	}
	os.Setenv("HOME", r.Pick(os.Getenv("HOME"), "/nonexistent/user", "/nonexistent"))
	os.Setenv("USER", r.Pick("root", "www-data", "somebody"))
	os.Setenv("HOSTNAME", r.Pick("localhost", "web-1", "web-2"))
	os.Setenv("TERM", r.Pick("dumb", "xterm-256color", ""))
	os.Setenv("COLUMNS", r.Pick("7", "80", "200"))
	os.Setenv("PWD", r.Pick("/", "/tmp", "/srv/app"))
	os.Args = []string{r.Pick("/usr/bin/server", "server", "./server", "/tmp/go-build1/b001/x.test"), "-v"}[:r.In(1, 2)]
	time.Local = time.FixedZone(r.Pick("UTC", "XST", "PDT"), r.In(-12*60, 14*60)*60)
}

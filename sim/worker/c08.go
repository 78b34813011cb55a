package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/ast"
	"github.com/textwire/textwire/v2/fail"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"github.com/textwire/textwire/v2/token"

	"verifsim/cases"
)

// input08 is one input of a case.
type input08 struct {
	s    string
	must bool
	kind string
	note string
}

// inputs08 derives the inputs of a case.
func inputs08(c *cases.Case) []input08 {
	r := cases.NewRng(c.Env.Seed)
	var out []input08
	add := func(s, kind string, must bool, note string) {
		out = append(out, input08{s, must, kind, note})
	}
	src := cases.Src(c.Tpl)
	switch c.Kind {
	case "input":
		add(string(*c.Input), "input", c.Must, "")
	case "prefix":
		m := cases.Musts(c.Tpl)
		for _, p := range cases.Cuts(r, c.Tpl) {
			add(src[:p], "truncated", m[p] == 1, fmt.Sprintf("the first %d bytes of a valid template of %d bytes", p, len(src)))
		}
		for i, n := range cases.Ends(c.Tpl) {
			z := n.Z
			n.Z = ""
			add(cases.Src(c.Tpl), "end-lost", true, fmt.Sprintf("a valid template without @end number %d (of %s)", i, n.A))
			n.Z = z
		}
	case "tokens":
		lx := cases.Lexemes(src)
		pick := func(n, max int) []int {
			if n <= max {
				return r.Perm(n)
			}
			return r.Perm(n)[:max]
		}
		join := func(parts ...[]string) string {
			var b strings.Builder
			for _, p := range parts {
				for _, s := range p {
					b.WriteString(s)
				}
			}
			return b.String()
		}
		for _, i := range pick(len(lx), 250) {
			add(join(lx[:i], lx[i+1:]), "token-deleted", false, fmt.Sprintf("token %q deleted", lx[i]))
			add(join(lx[:i+1], lx[i:]), "token-repeated", false, fmt.Sprintf("token %q repeated", lx[i]))
		}
		for _, i := range pick(len(lx)-1, 250) {
			add(join(lx[:i], lx[i+1:i+2], lx[i:i+1], lx[i+2:]), "tokens-swapped", false, fmt.Sprintf("tokens %q and %q swapped", lx[i], lx[i+1]))
		}
	case "damage":
		other := ""
		if len(c.World.Files) > 0 {
			other = cases.Src(c.World.Files[0].Body)
		}
		for i := 0; i < 150; i++ {
			s, k := cases.Damage(r, src, other)
			for r.P(25) {
				s, _ = cases.Damage(r, s, other)
			}
			add(s, k, false, "")
		}
	case "illegal":
		sp := cases.CodeSpots(c.Tpl)
		for i := 0; i < 200 && len(sp) > 0; i++ {
			p := sp[r.N(len(sp))]
			x := cases.Illegals[r.N(len(cases.Illegals))]
			if x == "@ " && p < len(src) && src[p] == ' ' && r.P(50) {
				x = "@"
			}
			add(src[:p]+x+src[p:], "illegal-char", true, fmt.Sprintf("a valid template with the illegal character %q inserted at byte %d", x, p))
		}
	case "soup":
		for i := 0; i < 300; i++ {
			add(cases.Soup(r), "soup", false, "")
		}
	case "counts":
		unit, ns := cases.Count(r)
		for _, n := range ns {
			if n*len(unit) <= 400000 {
				add(strings.Repeat(unit, n), "many-faults", false, fmt.Sprintf("%q, %d times", unit, n))
			}
		}
	case "far":
		for i := 0; i < 40; i++ {
			add(cases.Far(r), "far", true, "")
		}
	case "deep":
		s, must := cases.Deep(r)
		add(s, "deep", must, "")
	}
	return out
}

func budget08(n int) uint64 {
	if n <= 1<<16 {
		return 1_000_000 + 2000*uint64(n)
	}
	return 1_000_000 + 2000<<16 + 300*uint64(n-1<<16)
}

// lex08 asks the lexer for all its tokens.
func lex08(s string) {
	l := lexer.New(s)
	for i := 0; i <= 4*len(s)+16; i++ {
		if t := l.NextToken(); t.Type == token.EOF {
			return
		}
	}
}

type parsed08 struct {
	Outcome
	errs []*fail.Error
	prog *ast.Program
}

func (r *runner) parse08(s string) (p parsed08) {
	p.Outcome = r.guard(func() Outcome {
		ps := parser.New(lexer.New(s), "")
		p.prog = ps.ParseProgram()
		p.errs = ps.Errors()
		if len(p.errs) > 0 {
			return Outcome{Kind: "err", Err: p.errs[0].String(), Line: p.errs[0].Line()}
		}
		return Outcome{Kind: "ok"}
	})
	return p
}

func quote08(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q... %q (%d bytes)", s[:200], s[len(s)-100:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// stack08 is the stack a goroutine may use: less than the default (1 GB, 250
// MB on 32-bit machines), because recursion that grows with the input passes
// every limit and recursion that does not stays far below this one.
const stack08 = 1 << 26

func exec08(r *runner, c *cases.Case) Verdict {
	debug.SetMaxStack(stack08)
	ins := inputs08(c)
	runtime.SimResetAll()
	rng := cases.NewRng(c.Env.Seed ^ 0x8)
	v := Verdict{}
	var bad *input08
	isErr := make([]bool, len(ins))
	cur, stage := 0, ""
	fail := func(x *input08, kind, f string, a ...any) {
		if v.Viol == "" {
			d := fmt.Sprintf(f, a...)
			if x.note != "" {
				d += "\n input: " + x.note
			}
			v.Viol, v.Detail, bad = kind, d+"\n input: "+quote08(x.s), x
		}
	}
	r.budget = 0
	res := r.sim(&c.Env, func() {
		for i := range ins {
			x := &ins[i]
			cur, stage = i, "lexing and parsing"
			b := budget08(len(x.s))
			runtime.SimSetBudget(b)
			if c.Kind == "input" || i%3 == 0 {
				o := r.guard(func() Outcome { lex08(x.s); return Outcome{Kind: "ok"} })
				switch {
				case o.Kind == "abort":
					fail(x, "hang", "lexing does not end: over %d simulated steps", b)
					return
				case o.Kind == "panic":
					fail(x, "panic", "the lexer panics: %s", o.Err)
					return
				}
				runtime.SimSetBudget(b)
			}
			p := r.parse08(x.s)
			switch {
			case p.Kind == "abort":
				fail(x, "hang", "parsing does not end: over %d simulated steps", b)
				return
			case p.Kind == "panic":
				fail(x, "panic", "the parser panics: %s", p.Err)
				return
			case p.Kind == "ok" && p.prog == nil:
				fail(x, "neither", "the parser returns neither a program nor an error")
				return
			case p.Kind == "ok" && x.kind == "many-faults" && isErr[0]:
				fail(x, "accepted", "accepted without an error, though a single one of it is rejected")
				return
			case p.Kind == "ok" && x.must:
				fail(x, "accepted", "accepted without an error")
				return
			}
			for _, e := range p.errs {
				if e.Line() < 1 {
					fail(x, "no-line", "the error %q has no line number", e.String())
					return
				}
			}
			isErr[i] = p.Kind == "err"
			r.dig = cases.Mix(r.dig ^ cases.Hash([]byte(p.Err)))
			if p.Kind == "err" && (len(x.s) < 600 || i%4 == 0) {
				stage = "EvaluateString"
				runtime.SimSetBudget(b + opBudget)
				o := r.guard(func() Outcome {
					s, err := textwire.EvaluateString(x.s, nil)
					if err == nil {
						return Outcome{Kind: "ok", Out: s}
					}
					return Outcome{Kind: "err", Err: err.Error(), Out: s}
				})
				r.probe("evaluate-string:" + o.Kind)
				switch {
				case o.Kind == "abort":
					fail(x, "hang", "EvaluateString does not return")
					return
				case o.Kind == "panic":
					fail(x, "panic", "EvaluateString panics: %s", o.Err)
					return
				case o.Kind == "ok":
					fail(x, "accepted", "the parser records the error %q and EvaluateString returns none", p.Err)
					return
				}
			}
		}
	})
	if v.Viol == "" && res.Deadlock {
		fail(&ins[cur], "hang", "%s never returns: deadlock", stage)
	}
	onDisk := false
	if v.Viol == "" && len(ins) > 0 {
		roles := []string{"page", "layout", "component"}
		for k := 0; k < 2; k++ {
			i := rng.N(len(ins))
			role := roles[rng.N(3)]
			if c.Kind == "input" && len(c.Names) > 0 {
				role = c.Names[0]
			}
			if len(ins[i].s) > 200000 {
				continue
			}
			if kind, d := r.disk08(c, &ins[i], isErr[i], role); kind != "" {
				fail(&ins[i], kind, "%s", d)
				c.Names, onDisk = []string{role}, true
				break
			}
		}
	}
	errs := 0
	for i := range ins {
		r.fire(ins[i].kind)
		r.st.Ops++
		if isErr[i] {
			errs++
		}
		r.hs = append(r.hs, cases.Hash([]byte(ins[i].s)))
	}
	r.st.Probes["inputs-rejected"] += errs
	r.st.Probes["inputs-accepted"] += len(ins) - errs
	for i := range ins {
		if ins[i].must {
			r.st.Probes["inputs-that-must-be-rejected"]++
		}
	}
	if v.Viol != "" && c.Kind != "input" && (v.Viol != "accepted" || onDisk) {
		c.Kind, c.Tpl, c.World, c.Must = "input", nil, cases.World{}, false
		c.Input = cases.BytesOf(bad.s)
	}
	v.nontrivial = len(ins) > 0
	if c.Kind == "deep" {
		ins = nil
		runtime.GC()
	}
	return v
}

// disk08 puts the input on the simulated disk, as a file of the given role,
// and loads the template directory.
func (r *runner) disk08(c *cases.Case, x *input08, isErr bool, role string) (string, string) {
	w := cases.World{Dir: "templates", Ext: ".tw.html"}
	put := func(name, s string) {
		w.Files = append(w.Files, cases.File{Path: "templates/" + name + ".tw.html", Raw: cases.BytesOf(s)})
	}
	switch role {
	case "layout":
		put("index", `@use("~base")<p>@insert("a", "b")`)
		put("layouts/base", x.s)
	case "component":
		put("index", `<p>@component("~card")</p>`)
		put("components/card", x.s)
	default:
		put("index", x.s)
		put("layouts/base", `<i>@reserve("a")</i>`)
	}
	r.wipe()
	r.materialise(&w, 0)
	var o Outcome
	res := r.sim(&c.Env, func() {
		runtime.SimSetBudget(budget08(len(x.s)) + opBudget)
		_, o = r.boot(&w)
	})
	r.note(&o)
	r.probe("new-template:" + role + ":" + o.Kind)
	where := "NewTemplate with the input as a " + role + " in use: "
	switch {
	case res.Deadlock:
		return "hang", where + "deadlock"
	case o.Kind == "abort":
		return "hang", where + "does not return within " + fmt.Sprint(budget08(len(x.s))+opBudget) + " simulated steps"
	case o.Kind == "panic":
		return "panic", where + "panics: " + o.Err
	case isErr && o.Kind == "ok":
		return "accepted", where + "the parser records an error and NewTemplate returns none"
	}
	return "", ""
}

package main

import (
	"fmt"
	"html"
	"regexp"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"

	"verifsim/cases"
)

var markerRe = regexp.MustCompile(`Tq[0-9]+q`)
var markerRe18 = regexp.MustCompile(`T[qw][a-z]+q`)

// builtinPage is the built-in page of a fresh process without a custom one.
func (r *runner) builtinPage(c *cases.Case) (o Outcome, ok bool) {
	w := c.World
	w.ErrPage, w.Debug = "", false
	env := c.Env
	r.sim(&env, func() {
		setBudget()
		tpl, lo := r.boot(&w)
		if lo.Kind != "ok" {
			return
		}
		o = r.do(&w, tpl, &cases.Op{K: "resp", Name: "verif-no-such-template"})
		ok = o.Kind == "err"
	})
	return o, ok
}

// hides reports what of a failure the body reveals.
func (r *runner) leaks(c *cases.Case, body string, e *Outcome) string {
	if m := e.Msg; len(m) > 4 && (strings.Contains(body, m) || strings.Contains(body, html.EscapeString(m))) {
		return "the error message " + fmt.Sprintf("%q", m)
	}
	if strings.Contains(body, "/S/") {
		return "an absolute file path"
	}
	for _, f := range c.World.Files {
		if strings.Contains(body, f.Path) {
			return "the file path " + f.Path
		}
	}
	return ""
}

type slot17 struct {
	i       int
	o, ref  Outcome // response; String of the same page
	free    *Outcome
	page    Outcome // String of the error page
	debug   bool
	errPage string
}

// errKind is a coarse class of a failure, for the coverage counts.
func errKind(o *Outcome) string {
	if o.Kind == "panic" {
		return "panic"
	}
	m := regexp.MustCompile(`'[^']*'`).ReplaceAllString(o.Msg, "_")
	if len(m) > 40 {
		m = m[:40]
	}
	return m
}

func exec17(r *runner, c *cases.Case) Verdict {
	r.wipe()
	r.materialise(&c.World, 0)
	h := c.Tasks[0]
	var got []slot17
	loaded := Outcome{}
	cur := 0
	res := r.sim(&c.Env, func() {
		setBudget()
		var tpl *textwire.Template
		tpl, loaded = r.boot(&c.World)
		if loaded.Kind != "ok" {
			return
		}
		w := c.World
		for i := range h {
			op := &h[i]
			cur = i
			setBudget()
			switch op.K {
			case "load":
				w.Debug = op.Debug == 1
				if op.Name != "" {
					w.ErrPage = op.Name
				}
				t, lo := r.load(&w)
				if lo.Kind != "ok" {
					loaded = lo
					return
				}
				tpl = t
				r.fire("reload")
				continue
			case "conf":
				w.Debug = op.Debug == 1
				if op.Name != "" {
					w.ErrPage = op.Name
				}
				textwire.Configure(&config.Config{DebugMode: w.Debug, ErrorPagePath: op.Name})
				r.fire("reconfigure")
				continue
			case "evs":
				r.do(&w, tpl, op)
				continue
			}
			s := slot17{i: i, debug: w.Debug, errPage: w.ErrPage}
			str := *op
			str.K, str.Fault = "string", nil
			ref := func() {
				setBudget()
				s.ref = r.do(&w, tpl, &str)
				if w.ErrPage != "" {
					s.page = r.do(&w, tpl, &cases.Op{K: "string", Name: w.ErrPage})
				}
				if op.Fault != nil {
					x := *op
					x.Fault = nil
					o := r.do(&w, tpl, &x)
					s.free = &o
				}
			}
			if op.Want == "" {
				ref()
			}
			setBudget()
			s.o = r.do(&w, tpl, op)
			if op.Want != "" {
				ref()
			}
			got = append(got, s)
		}
	})
	if loaded.Kind != "ok" {
		r.probe("world-not-loaded")
		r.debugf("not loaded: %s", loaded.key())
		return Verdict{}
	}
	if res.Deadlock {
		return Verdict{Viol: "deadlock", Detail: fmt.Sprintf("operation %d never returns", cur)}
	}
	builtin, bok := r.builtinPage(c)
	if !bok {
		return Verdict{Viol: "unknown-template", Detail: "Response of an unknown template name in a fresh process did not fail: " + builtin.short()}
	}
	v := Verdict{}
	fails := 0
	for k := range got {
		s := &got[k]
		op := &h[s.i]
		r.note(&s.o)
		r.st.Ops++
		where := fmt.Sprintf("operation %d: Response(%q), debug=%v, error page %q", s.i, op.Name, s.debug, s.errPage)
		bad := func(kind, f string, a ...any) Verdict {
			return Verdict{Viol: kind, Detail: where + ": " + fmt.Sprintf(f, a...)}
		}
		if s.ref.Kind == "abort" || s.o.Kind == "abort" {
			r.probe("over-budget")
			continue
		}
		if strings.HasPrefix(s.o.Kind, "mutated") || strings.HasPrefix(s.ref.Kind, "mutated") {
			r.probe("mutated-data") // another property
			continue
		}
		body := s.o.Out
		if op.Fault != nil {
			if s.free == nil || s.free.Kind == "abort" {
				continue
			}
			if s.o.Msg == "writer-fault" {
				r.fire("writer:" + op.Fault.K)
			}
			if op.Fault.K == "wonce" && s.o.Msg == "writer-fault" {
				// whatever comes after the gap has to be of the same page
				k := 0
				for k < len(body) && k < len(s.free.Out) && body[k] == s.free.Out[k] {
					k++
				}
				if rest := body[k:]; strings.Contains(s.free.Out, rest) {
					body = ""
				}
			}
			if !strings.HasPrefix(s.free.Out, body) {
				return bad("not-a-prefix", "the connection failed after %d bytes and received something other than a prefix of the page:\n%s", op.Fault.N, diff(s.free, &s.o))
			}
			if s.o.Kind == "panic" && op.Fault.K != "wpanic" {
				return bad("panic", "panic: %s", s.o.Err)
			}
			// what the fault-free call wrote is judged below
			s.o = *s.free
			body = s.o.Out
		}
		if s.o.Kind == "panic" {
			return bad("panic", "panic instead of an error and an error page: %s", s.o.Err)
		}
		if s.ref.Kind == "ok" {
			r.probe("resp:ok")
			if s.o.Kind != "ok" {
				return bad("error-on-success", "rendering succeeds, Response returned %s", s.o.Err)
			}
			if body != s.ref.Out {
				return bad("incomplete-page", "the body is not the rendered page:\n%s", diff(&Outcome{Out: s.ref.Out}, &Outcome{Out: body}))
			}
			continue
		}
		fails++
		r.probe("resp:fail:" + errKind(&s.ref))
		if s.o.Kind != "err" {
			return bad("nil-error", "rendering fails (%s), Response returned nil", s.ref.Err)
		}
		allowed := map[string]bool{}
		for _, f := range c.World.Files {
			if f.Role == "error" {
				for _, m := range markerRe.FindAllString(f.Text(), -1) {
					allowed[m] = true
				}
			}
		}
		for _, m := range markerRe.FindAllString(body, -1) {
			if !allowed[m] {
				return bad("partial-page", "the body contains %q from the failed page:\n%s", m, (&Outcome{Out: body}).short())
			}
		}
		if s.debug {
			msg := s.ref.Msg
			if msg == "" && s.ref.Kind == "err" {
				continue
			}
			if s.ref.Kind == "err" {
				if !strings.Contains(body, msg) && !strings.Contains(body, html.EscapeString(msg)) {
					return bad("debug-message", "debug page lacks the message %q:\n%s", msg, (&Outcome{Out: body}).short())
				}
				if s.ref.Path != "" && !strings.Contains(body, s.ref.Path) && !strings.Contains(body, html.EscapeString(s.ref.Path)) {
					return bad("debug-path", "debug page lacks the path %q:\n%s", s.ref.Path, (&Outcome{Out: body}).short())
				}
				if !hasLine(body, s.ref.Path, s.ref.Line) {
					return bad("debug-line", "debug page lacks the line %d:\n%s", s.ref.Line, (&Outcome{Out: body}).short())
				}
			}
			continue
		}
		if l := r.leaks(c, body, &s.ref); l != "" {
			return bad("leak", "debug mode is off and the body contains %s:\n%s", l, (&Outcome{Out: body}).short())
		}
		switch {
		case s.errPage != "" && s.page.Kind == "ok":
			if body != s.page.Out {
				return bad("wrong-error-page", "a working custom error page is configured, the body is something else:\n%s", diff(&Outcome{Out: s.page.Out}, &Outcome{Out: body}))
			}
		case s.errPage != "":
			if body != "" && body != builtin.Out {
				return bad("wrong-error-page", "the custom error page fails; the body is neither empty nor the built-in page:\n%s", diff(&Outcome{Out: builtin.Out}, &Outcome{Out: body}))
			}
		default:
			if body != builtin.Out {
				return bad("wrong-error-page", "no custom error page; the body is not the built-in page:\n%s", diff(&Outcome{Out: builtin.Out}, &Outcome{Out: body}))
			}
		}
	}
	v.nontrivial = fails > 0 && len(got) > 2
	v.distinct = r.dig
	return v
}

func hasLine(body, path string, line uint) bool {
	n := fmt.Sprint(line)
	if strings.Contains(body, path+":"+n) {
		return true
	}
	return regexp.MustCompile(`(?i)\bline\D{0,30}` + n + `\b`).MatchString(body)
}

package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"

	"verifsim/cases"
)

// fsFault is the simulated disk's misbehaviour during one call.
type fsFault struct {
	r      *runner
	f      *cases.Fault
	full   string // the victim
	parent string
	fds    map[int]bool
	dirfds map[int]bool
	count  int
	fired  bool
}

func (x *fsFault) abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(x.r.cwd, p)
	}
	return filepath.Clean(p)
}

// hit counts an opportunity and decides whether the fault strikes.
func (x *fsFault) hit(e syscall.Errno) (int, int) {
	x.count++
	if x.f.N == 0 || x.count == x.f.N {
		x.fired = true
		return int(e), 0
	}
	return 0, 0
}

func (x *fsFault) hook(op int, p string, fd int, n int) (int, int) {
	open := op == runtime.SimSysOpen && x.abs(p) == x.full
	read := op == runtime.SimSysRead && x.fds[fd]
	switch x.f.K {
	case "eacces-open":
		if open {
			return x.hit(syscall.EACCES)
		}
	case "eio-open":
		if open {
			return x.hit(syscall.EIO)
		}
	case "emfile-open":
		if open {
			return x.hit(syscall.EMFILE)
		}
	case "enoent-open":
		if open {
			return x.hit(syscall.ENOENT)
		}
	case "vanish":
		if open {
			x.fired = true
			os.Remove(x.full)
		}
	case "eintr-open":
		if open {
			x.count++
			if x.count%2 == 1 && x.count < 8 {
				x.fired = true
				return int(syscall.EINTR), 0
			}
		}
	case "eintr-read":
		if read {
			x.count++
			if x.count%2 == 1 && x.count < 12 {
				x.fired = true
				return int(syscall.EINTR), 0
			}
		}
	case "eio-read":
		if read {
			x.count++
			if x.count > x.f.M {
				x.fired = true
				return int(syscall.EIO), 0
			}
		}
	case "short-read":
		if read {
			x.fired = true
			return 0, x.f.M
		}
	case "eio-lstat":
		if op == runtime.SimSysStat && x.abs(p) == x.full {
			return x.hit(syscall.EIO)
		}
	case "eio-fstat":
		if op == runtime.SimSysFstat && x.fds[fd] {
			x.fired = true
			return int(syscall.EIO), 0
		}
	case "eio-dirent":
		if op == runtime.SimSysDirent && x.dirfds[fd] {
			x.fired = true
			return int(syscall.EIO), 0
		}
	case "eacces-dirent":
		if op == runtime.SimSysOpen && x.abs(p) == x.parent {
			x.fired = true
			return int(syscall.EACCES), 0
		}
	}
	return 0, 0
}

func (x *fsFault) done(p string, fd int) {
	delete(x.fds, fd)
	delete(x.dirfds, fd)
	switch x.abs(p) {
	case x.full:
		x.fds[fd] = true
	case x.parent:
		x.dirfds[fd] = true
	}
}

// content is what reading the file yields, through links.
func (r *runner) content18(w *cases.World, f *cases.File) string {
	if f.Kind == "symlink" {
		tgt := path.Join(path.Dir(f.Path), string(*f.Raw))
		for i := range w.Files {
			if w.Files[i].Path == tgt {
				return r.text18(&w.Files[i])
			}
		}
		return ""
	}
	return r.text18(f)
}

// text18 is what stands in the file now: a rewritten file shows other markers.
func (r *runner) text18(f *cases.File) string {
	if r.alt[f.Path] {
		return strings.ReplaceAll(f.Text(), "Tq", "Tw")
	}
	return f.Text()
}

// marks18 are the markers the file's rendering shows now.
func (r *runner) marks18(w *cases.World, f *cases.File) []string {
	if len(r.alt) == 0 {
		return f.Marks
	}
	out := append([]string{}, f.Marks...)
	for i := range w.Files {
		if o := &w.Files[i]; r.alt[o.Path] {
			t := o.Text()
			for j, m := range out {
				if strings.Contains(t, m) {
					out[j] = "Tw" + m[2:]
				}
			}
		}
	}
	return out
}

// budget18 bounds the steps of one operation: far more than the work there is.
func budget18(w *cases.World) uint64 {
	b := uint64(opBudget)
	for i := range w.Files {
		b += 50000 + 2000*uint64(len(w.Files[i].Text()))
	}
	return b
}

func (r *runner) setBudget18() { runtime.SimSetBudget(r.step18) }

// rewrite18 changes a file's content but neither its size nor its times.
func (r *runner) rewrite18(c *cases.Case, op *cases.Op) {
	for i := range c.World.Files {
		f := &c.World.Files[i]
		if f.Path != op.Name || f.Kind != "" {
			continue
		}
		r.alt[f.Path] = !r.alt[f.Path]
		full := filepath.Join(r.cwd, f.Path)
		st, err := os.Stat(full)
		if err != nil {
			panic(err)
		}
		text := []byte(r.text18(f))
		switch op.Note {
		case "rename":
			if err := os.WriteFile(full+".new~", text, 0o644); err != nil {
				panic(err)
			}
			os.Rename(full+".new~", full)
		case "fresh":
			r.setFile(f, "file", string(text))
		default:
			if err := os.WriteFile(full, text, 0o644); err != nil {
				panic(err)
			}
		}
		os.Chtimes(full, st.ModTime(), st.ModTime())
		r.probe("rewritten")
	}
}

func (r *runner) setFile(f *cases.File, kind, text string) {
	full := filepath.Join(r.cwd, f.Path)
	if !strings.HasPrefix(full, r.root+"/") {
		panic("outside the scratch directory")
	}
	os.RemoveAll(full)
	os.MkdirAll(filepath.Dir(full), 0o755)
	switch kind {
	case "dir":
		os.Mkdir(full, 0o755)
	case "symlink":
		os.Symlink(text, full)
	case "file":
		r.writeFile(f.Path, text)
	}
}

// want18 is the reference model of loading: name to file index.
func want18(w *cases.World, dir, ext string) map[string]int {
	m := map[string]int{}
	pre := dir + "/"
	if dir == "." {
		pre = ""
	}
	for i := range w.Files {
		f := &w.Files[i]
		if f.Role == "other" || f.Kind == "dir" || !strings.HasPrefix(f.Path, pre) || !strings.HasSuffix(f.Path, ext) {
			continue
		}
		m[strings.TrimSuffix(strings.TrimPrefix(f.Path, pre), ext)] = i
	}
	return m
}

// beside18 gives the name under which the tree's templates can use a layout or
// component that stands beside the template directory.
func beside18(dir, ext string, f *cases.File) (string, bool) {
	up := path.Dir(dir) + "/"
	if up == "./" {
		up = ""
	}
	if dir == "." || f.Role != "layout" && f.Role != "component" || strings.HasPrefix(f.Path, dir+"/") || !strings.HasPrefix(f.Path, up) || !strings.HasSuffix(f.Path, ext) {
		return "", false
	}
	return "../" + strings.TrimSuffix(strings.TrimPrefix(f.Path, up), ext), true
}

func marksOf(s string) []string { return markerRe18.FindAllString(s, -1) }

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// parses asks the parser alone whether the text is a template.
func (r *runner) parses(src string) (ok bool, o Outcome) {
	o = r.guard(func() Outcome {
		p := parser.New(lexer.New(src), "")
		p.ParseProgram()
		ok = !p.HasErrors()
		return Outcome{Kind: "ok"}
	})
	return ok && o.Kind == "ok", o
}

func exec18(r *runner, c *cases.Case) Verdict {
	r.wipe()
	r.materialise(&c.World, 0)
	r.alt, r.step18 = map[string]bool{}, budget18(&c.World)
	var v Verdict
	cur := 0
	loads := 0
	kinds := map[string]bool{}
	res := r.sim(&c.Env, func() {
		r.setBudget18()
		runtime.SimResetAll()
		r.shared = map[int]map[string]any{}
		for i := range c.Tasks[0] {
			cur = i
			op := &c.Tasks[0][i]
			r.st.Ops++
			if op.K == "rewrite" {
				r.rewrite18(c, op)
				continue
			}
			if op.K == "evf" {
				v = r.evf18(c, op)
			} else {
				v = r.load18(c, op, kinds)
				loads++
			}
			if v.Viol != "" {
				v.Detail = fmt.Sprintf("operation %d: %s", i, v.Detail)
				return
			}
		}
	})
	runtime.SimSysHook, runtime.SimSysDone = nil, nil
	if res.Deadlock {
		return Verdict{Viol: "deadlock", Detail: fmt.Sprintf("operation %d never returns", cur)}
	}
	v.nontrivial = len(kinds) > 1 || loads > 1
	v.distinct = r.dig
	return v
}

func (r *runner) withFault(x *fsFault, f func() Outcome) Outcome {
	if x != nil {
		runtime.SimSysHook, runtime.SimSysDone = x.hook, x.done
	}
	o := r.guard(f)
	runtime.SimSysHook, runtime.SimSysDone = nil, nil
	return o
}

func (r *runner) newFault(f *cases.Fault) *fsFault {
	full := filepath.Join(r.cwd, f.Path)
	return &fsFault{r: r, f: f, full: full, parent: filepath.Dir(full), fds: map[int]bool{}, dirfds: map[int]bool{}}
}

func (r *runner) load18(c *cases.Case, op *cases.Op, kinds map[string]bool) Verdict {
	w := &c.World
	want := want18(w, op.Want, extOf(w, op))
	ext := extOf(w, op)
	where := fmt.Sprintf("NewTemplate(TemplateDir %q, TemplateExt %q)", op.Name, op.Note)
	bad := func(kind, f string, a ...any) Verdict {
		return Verdict{Viol: kind, Detail: where + ": " + fmt.Sprintf(f, a...)}
	}
	// the fault
	var x *fsFault
	must, absent, either, loose := false, false, false, false
	victim := ""
	var vf *cases.File
	if f := op.Fault; f != nil {
		where += " with fault " + f.K + " on " + f.Path
		x = r.newFault(f)
		for n, i := range want {
			if w.Files[i].Path == f.Path {
				victim, vf = n, &w.Files[i]
			}
		}
		outside := false
		if vf == nil { // a file beside the directory
			for i := range w.Files {
				o := &w.Files[i]
				if n, ok := beside18(op.Want, ext, o); ok && o.Path == f.Path {
					victim, vf, outside = n, o, true
				}
			}
		}
		if vf == nil { // a shrunk case
			return Verdict{}
		}
		unused := outside && !r.referenced(w, want, victim)
		text := r.content18(w, vf)
		applied := true
		switch f.K {
		case "del":
			r.setFile(vf, "", "")
			must, absent = r.referenced(w, want, victim), true
			loose = !must
			delete(want, victim)
		case "dangling":
			r.setFile(vf, "symlink", "nowhere/at-all")
			must, absent = true, true
		case "loop":
			r.setFile(vf, "symlink", filepath.Base(vf.Path))
			must, absent = true, true
		case "dir":
			r.setFile(vf, "dir", "")
			must = r.referenced(w, want, victim)
			either = !must
			absent = true
			delete(want, victim)
		case "garbage":
			if f.M == 1 {
				text = ""
			}
			r.setFile(vf, "file", text+string(f.S))
			must = true
		case "truncate", "zeroes":
			if len(text) == 0 {
				applied = false
				break
			}
			n := f.M % len(text)
			cut := text[:n]
			if f.K == "zeroes" {
				cut += strings.Repeat("\x00", len(text)-n)
			}
			r.setFile(vf, "file", cut)
			r.setBudget18()
			ok, o := r.parses(cut)
			if o.Kind == "abort" || o.Kind == "panic" {
				return bad("parser-"+o.Kind, "the parser does not return on the damaged file %q: %s", cut, o.Err)
			}
			must, loose = !ok, ok
		default:
			applied = false
		}
		if unused { // nothing needs the file
			must, absent, either, loose = false, false, false, false
		}
		if applied {
			r.fire("disk:" + f.K)
		}
	}
	restore := func() {
		if vf == nil {
			return
		}
		if vf.Kind == "symlink" {
			r.setFile(vf, "symlink", string(*vf.Raw))
		} else {
			r.setFile(vf, "file", r.text18(vf))
		}
	}
	tangled := false
	for _, i := range want {
		tangled = tangled || w.Files[i].Role == "tangle"
	}
	r.setBudget18()
	var tpl *textwire.Template
	o := r.withFault(x, func() Outcome {
		opt := &config.Config{TemplateDir: op.Name, TemplateExt: op.Note, DebugMode: w.Debug}
		if op.Rich { // configured before
			textwire.Configure(opt)
			opt = nil
		}
		t, err := textwire.NewTemplate(opt)
		tpl = t
		if err != nil {
			e := r.fromErr(err)
			e.NilTpl = t == nil
			return e
		}
		return Outcome{Kind: "ok", NilTpl: t == nil}
	})
	r.note(&o)
	if x != nil && x.fired {
		r.fire("io:" + x.f.K)
		switch x.f.K {
		case "eacces-open", "eio-open", "emfile-open", "enoent-open", "eio-read", "vanish":
			must = true
			absent = x.f.K == "enoent-open" || x.f.K == "vanish"
		case "eio-lstat", "eio-fstat", "eio-dirent", "eacces-dirent":
			either = true
		}
	}
	kinds[fmt.Sprint(o.Kind, op.Fault != nil)] = true
	r.probe("load:" + o.Kind)
	defer restore()
	switch {
	case o.Kind == "abort":
		return bad("hang", "loading does not return")
	case o.Kind == "panic":
		return bad("panic", "loading panics: %s", o.Err)
	case o.Kind == "err" && !o.NilTpl:
		return bad("template-with-error", "loading returns both a Template and the error %s", o.Err)
	case o.Kind == "ok" && o.NilTpl:
		return bad("nil-without-error", "loading returns neither a Template nor an error")
	}
	if must {
		if o.Kind == "ok" {
			return bad("bad-file-accepted", "loading succeeds although %s cannot be loaded", victim+ext)
		}
		if !tangled && !identifies(o.Hidden, victim, ext, absent) {
			return bad("error-does-not-identify", "the error does not name the faulty file %s: %s", victim+ext, o.Err)
		}
		return Verdict{}
	}
	if o.Kind == "err" {
		if either || loose || tangled {
			return Verdict{}
		}
		return bad("valid-tree-rejected", "%s", o.Err)
	}
	if loose {
		return Verdict{}
	}
	// everything expected is there, nothing else is
	names := make([]string, 0, len(want))
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	render := func(n string) Outcome {
		r.setBudget18()
		o := r.guard(func() Outcome {
			s, e := tpl.String(n, nil)
			if e != nil {
				return r.fromFail(e)
			}
			return Outcome{Kind: "ok", Out: s}
		})
		r.note(&o)
		return o
	}
	for _, n := range names {
		f := &w.Files[want[n]]
		o := render(n)
		if f.Role == "tangle" {
			if o.Kind == "panic" || o.Kind == "abort" {
				return bad("rendering-"+o.Kind, "rendering %q: %s", n, o.Err)
			}
			if o.Kind == "err" && notFound(&o) && !strings.Contains(r.content18(w, f), "@reserve") {
				return bad("not-registered", "the file %s is not available as %q: %s", f.Path, n, o.short())
			}
			r.probe("tangle:" + o.Kind)
			continue
		}
		if f.Role == "layout" {
			if o.Kind != "err" || !notFound(&o) {
				return bad("layout-renderable", "the layout %q is directly renderable or not reported as not found: %s", n, o.short())
			}
			continue
		}
		if o.Kind != "ok" {
			return bad("not-registered", "the file %s is not available as %q: %s", f.Path, n, o.short())
		}
		if m := marksOf(o.Out); !same(m, r.marks18(w, f)) {
			return bad("wrong-content", "rendering %q shows %v, want %v", n, m, r.marks18(w, f))
		}
		r.probe("rendered")
	}
	no := append([]string{}, c.Names...)
	for _, n := range names {
		no = append(no, n+ext, path.Join(op.Want, n), path.Dir(n), path.Base(n), n+"/", strings.ToUpper(n)+"_",
			strings.ToUpper(n), strings.ToLower(n), strings.Title(n), strings.ReplaceAll(n, "/", "\\"), strings.ReplaceAll(n, "/", "."), strings.ReplaceAll(n, "-", "_"))
		if j := strings.Index(n, "/"); j >= 0 {
			no = append(no, n[j+1:])
		}
	}
	if victim != "" {
		no = append(no, victim)
	}
	for _, n := range no {
		if _, ok := want[n]; ok {
			continue
		}
		if _, ok := want[path.Clean(strings.Trim(n, "/"))]; ok { // another spelling of a name
			continue
		}
		o := render(n)
		if o.Kind != "err" || !notFound(&o) {
			return bad("unknown-name", "the unknown name %q is not reported as not found: %s", n, o.short())
		}
		r.probe("unknown-name")
	}
	return Verdict{}
}

func extOf(w *cases.World, op *cases.Op) string {
	if op.Note == "" {
		return ".tw.html"
	}
	return op.Note
}

func notFound(o *Outcome) bool { return strings.Contains(strings.ToLower(o.Msg), "not found") }

// referenced reports whether some page names the file as layout or component.
func (r *runner) referenced(w *cases.World, want map[string]int, name string) bool {
	for _, i := range want {
		t := r.content18(w, &w.Files[i])
		for _, q := range refNames(name) {
			for _, d := range []string{`@use("`, `@use('`, `@component("`, `@component('`} {
				for rest := t; ; {
					_, after, ok := strings.Cut(rest, d+q+d[len(d)-1:])
					if !ok {
						break
					}
					if strings.HasPrefix(after, ")") || strings.HasPrefix(after, ",") {
						return true
					}
					rest = after
				}
			}
		}
	}
	return false
}

func refNames(name string) []string {
	out := []string{name}
	for _, p := range []string{"layouts/", "components/"} {
		if strings.HasPrefix(name, p) {
			out = append(out, "~"+strings.TrimPrefix(name, p))
		}
	}
	return out
}

func identifies(err, victim, ext string, absent bool) bool {
	if strings.Contains(err, strings.TrimPrefix(victim, "../")+ext) {
		return true
	}
	if q := strconv.Quote(strings.TrimPrefix(victim, "../") + ext); strings.Contains(err, q[1:]) { // printed in quotes
		return true
	}
	if absent {
		for _, n := range refNames(victim) {
			if strings.Contains(err, n) {
				return true
			}
		}
	}
	return false
}

func (r *runner) evf18(c *cases.Case, op *cases.Op) Verdict {
	w := &c.World
	text, found := "", false
	for i := range w.Files {
		if f := &w.Files[i]; f.Path == op.Name && f.Kind != "dir" {
			text, found = r.content18(w, f), true
		}
	}
	bad := func(kind, f string, a ...any) Verdict {
		s := fmt.Sprintf("EvaluateFile(%q)", op.Name)
		if op.Fault != nil {
			s += " with fault " + op.Fault.K
		}
		return Verdict{Viol: kind, Detail: s + ": " + fmt.Sprintf(f, a...)}
	}
	p := filepath.Join(r.cwd, op.Name)
	if op.Want == "relative" {
		p = op.Name
	}
	var x *fsFault
	if op.Fault != nil {
		x = r.newFault(op.Fault)
	}
	r.setBudget18()
	got := r.withFault(x, func() Outcome {
		s, err := textwire.EvaluateFile(p, nil)
		if err != nil {
			return r.fromErr(err)
		}
		return Outcome{Kind: "ok", Out: s}
	})
	r.note(&got)
	if got.Kind == "abort" || got.Kind == "panic" {
		return bad("file-"+got.Kind, "%s", got.Err)
	}
	if x != nil && x.fired {
		r.fire("io:" + x.f.K)
		switch x.f.K {
		case "eio-read", "eacces-open", "enoent-open":
			if got.Kind != "err" {
				return bad("unreadable-file-evaluated", "the file cannot be read, the call returns %s", got.short())
			}
			return Verdict{}
		case "eio-fstat":
			if got.Kind == "err" {
				return Verdict{}
			}
		}
	}
	if !found {
		if got.Kind != "err" {
			return bad("no-file-evaluated", "there is no such file, the call returns %s", got.short())
		}
		return Verdict{}
	}
	r.setBudget18()
	want := r.guard(func() Outcome {
		s, err := textwire.EvaluateString(text, nil)
		if err != nil {
			return r.fromErr(err)
		}
		return Outcome{Kind: "ok", Out: s}
	})
	r.probe("evaluated-file:" + got.Kind)
	if want.Kind != got.Kind || want.Out != got.Out {
		return bad("file-differs-from-string", "evaluating the file and its content as a string differ:\n%s", diff(&want, &got))
	}
	return Verdict{}
}

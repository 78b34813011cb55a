package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/fail"

	"verifsim/cases"
)

// Outcome is everything a caller can see of one operation.
type Outcome struct {
	Kind   string `json:"kind"` // ok err panic abort
	Out    string `json:"out,omitempty"`
	Err    string `json:"err,omitempty"`
	Msg    string `json:"msg,omitempty"`
	Line   uint   `json:"line,omitempty"`
	Path   string `json:"path,omitempty"`
	NilTpl bool   `json:"niltpl,omitempty"`
	Hidden string `json:"-"` // un-normalised text of Err
	err    error
	fail   *fail.Error
}

// now is the key the outcome has when its error is read again.
func (o *Outcome) now(r *runner) string {
	x := *o
	if o.fail != nil && o.Kind == "err" {
		y := r.fromFail(o.fail)
		x.Err, x.Msg, x.Line, x.Path = y.Err, y.Msg, y.Line, y.Path
	} else if o.err != nil && o.Kind == "err" {
		x.Err = r.fromErr(o.err).Err
	}
	return x.key()
}

func (o *Outcome) key() string {
	return fmt.Sprintf("%s|%q|%q|%q|%d|%q", o.Kind, o.Out, o.Err, o.Msg, o.Line, o.Path)
}

func (o *Outcome) short() string {
	s := o.key()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// diff shows where two outcomes part.
func diff(a, b *Outcome) string {
	x, y := a.key(), b.key()
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-120, i+260
		pre, post := "...", "..."
		if lo <= 0 {
			lo, pre = 0, ""
		}
		if hi >= len(s) {
			hi, post = len(s), ""
		}
		return pre + s[lo:hi] + post
	}
	return " one:     " + cut(x) + "\n another: " + cut(y)
}

func setBudget() { runtime.SimSetBudget(opBudget) }

// Point mirrors the driver's scheduling-point table.
type Point struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Hot  int    `json:"hot"`
}

// Stats is what a batch reports.
type Stats struct {
	Cases    int            `json:"cases"`
	SimRuns  int            `json:"simruns"`
	Ops      int            `json:"ops"`
	Steps    uint64         `json:"steps"`
	SimNanos int64          `json:"simnanos"`
	Switches uint64         `json:"switches"`
	Preempt  int            `json:"preemptions"`
	IterDev  uint64         `json:"iterdev"`
	Spawned  int            `json:"spawned"`
	Fired    map[string]int `json:"fired"`
	Probes   map[string]int `json:"probes"`
	Nontriv  int            `json:"nontrivial"`
}

// Verdict of one case; Viol == "" means the property held.
type Verdict struct {
	Viol       string `json:"viol,omitempty"`
	Detail     string `json:"detail,omitempty"`
	Sig        string `json:"sig,omitempty"`
	Digest     uint64 `json:"digest"`
	nontrivial bool
	distinct   uint64
}

type runner struct {
	root    string // scratch directory, holds everything
	cwd     string
	points  []Point
	st      Stats
	shared  map[int]map[string]any
	budget  uint64
	step18  uint64
	at20    int
	inner   map[string]int
	counts  []int
	alt     map[string]bool // C18: files rewritten
	last    simRec
	dig     uint64
	rec     []recCall
	recBad  string
	kept    []kept20
	debug   bool
	raceLog string
	racePos int64
	hs      []uint64 // hashes of the inputs of this case
}

type recCall struct {
	Fn   string
	Recv string
	Args string
}

type simRec struct {
	res runtime.SimResult
	ev  []runtime.SimEvent
	it  []runtime.SimIter
	ok  bool
}

func (r *runner) debugf(f string, a ...any) {
	if r.debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (r *runner) fire(k string)  { r.st.Fired[k]++ }
func (r *runner) probe(k string) { r.st.Probes[k]++ }

// norm hides the scratch directory.
func (r *runner) norm(s string) string { return strings.ReplaceAll(s, r.root, "/S") }

func (r *runner) wipe() {
	if err := os.Chdir("/"); err != nil {
		panic(err)
	}
	ents, _ := os.ReadDir(r.root)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(r.root, e.Name()))
	}
	if err := os.MkdirAll(r.cwd, 0o755); err != nil {
		panic(err)
	}
	// what the process may write to besides
	for _, d := range []string{os.Getenv("TMPDIR"), os.Getenv("HOME")} {
		if strings.HasPrefix(d, r.root+"/") {
			os.MkdirAll(d, 0o755)
		}
	}
	if err := os.Chdir(r.cwd); err != nil {
		panic(err)
	}
}

func (r *runner) writeFile(path, text string) {
	full := filepath.Join(r.cwd, path)
	if !strings.HasPrefix(full, r.root+"/") {
		panic("file outside the scratch directory: " + path)
	}
	if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(full, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// materialise writes the world's files; seed decides creation order, mtimes.
func (r *runner) materialise(w *cases.World, seed uint64) {
	rng := cases.NewRng(seed)
	order := make([]int, len(w.Files))
	for i := range order {
		order[i] = i
	}
	if seed != 0 {
		order = rng.Perm(len(order))
	}
	if !strings.HasPrefix(filepath.Join(r.cwd, w.Dir), r.root) {
		panic("template directory outside the scratch directory")
	}
	os.MkdirAll(filepath.Join(r.cwd, w.Dir), 0o755)
	for _, i := range order {
		f := &w.Files[i]
		full := filepath.Join(r.cwd, f.Path)
		switch f.Kind {
		case "dir":
			if err := os.MkdirAll(full, 0o755); err != nil {
				panic(err)
			}
			continue
		case "symlink":
			os.MkdirAll(filepath.Dir(full), 0o755)
			if err := os.Symlink(string(*f.Raw), full); err != nil {
				panic(err)
			}
			continue
		}
		r.writeFile(f.Path, f.Text())
		t := time.Unix(1_600_000_000+int64(rng.N(1<<26)), 0)
		os.Chtimes(full, t, t)
	}
}

func (r *runner) simConfig(e *cases.Env) runtime.SimConfig {
	c := runtime.SimConfig{
		Policy: e.Policy, Seed: e.Seed, PInv: e.PInv, HotInv: e.HotInv, PCT: e.PCT,
		Budget: 1 << 62, RandSeed: e.RandSeed, HashMode: e.HashMode, HashSeed: e.HashSeed,
		IterMode: e.IterMode, IterSeed: e.IterSeed, IterInv: e.IterInv,
		TimeBase: e.TimeBase, TimeStep: e.TimeStep, DirSeed: e.DirSeed,
	}
	c.Procs, c.Pid = e.Procs, 4000+int(e.Vars%9973)
	if c.Procs == 0 {
		c.Procs = 8
	}
	if c.TimeStep == 0 {
		c.TimeStep = 1000
	}
	if c.TimeBase == 0 {
		c.TimeBase = 1_700_000_000_000_000_000
	}
	for _, ev := range e.Events {
		c.Events = append(c.Events, runtime.SimEvent{Task: ev.Task, Next: ev.Next, Kind: ev.Kind, Step: ev.Step})
	}
	for _, it := range e.Iters {
		c.Iters = append(c.Iters, runtime.SimIter{Idx: it.Idx, R: it.R})
	}
	if e.HotMode > 0 {
		c.Hot = make([]uint8, len(r.points))
		rng := cases.NewRng(e.Seed ^ 0x407)
		funcs := map[string]bool{}
		if e.HotMode == 3 {
			for i, n := 0, rng.In(2, 8); i < n; i++ {
				p := r.points[rng.N(len(r.points))]
				funcs[p.File+p.Func] = true
			}
		}
		for i, p := range r.points {
			switch e.HotMode {
			case 1:
				if p.Hot == 2 {
					c.Hot[i] = 1
				}
			case 2:
				if p.Hot >= 1 {
					c.Hot[i] = 1
				}
			case 3:
				if funcs[p.File+p.Func] {
					c.Hot[i] = 1
				}
			}
		}
	}
	return c
}

// sim runs fns as simulated tasks.
func (r *runner) sim(e *cases.Env, fns ...func()) runtime.SimResult {
	cfg := r.simConfig(e)
	if r.budget > 0 {
		cfg.Budget = r.budget
	}
	res := runtime.SimRun(cfg, fns)
	ev, it, ok := runtime.SimLogs()
	r.last = simRec{res, ev, it, ok}
	r.st.SimRuns++
	r.st.Steps += res.Steps
	r.st.SimNanos += int64(res.Steps) * cfg.TimeStep
	r.st.Switches += res.Switches
	r.st.IterDev += uint64(res.IterDev)
	r.st.Spawned += res.Spawned
	for _, x := range ev {
		if x.Kind == runtime.SimAtPoint {
			r.st.Preempt++
		}
	}
	return res
}

// record turns env into one that replays the last simulated run.
func (r *runner) record(e *cases.Env) {
	e.Policy = runtime.SimPolicyReplay
	e.Events, e.Iters = nil, nil
	for _, x := range r.last.ev {
		e.Events = append(e.Events, cases.Ev{Task: x.Task, Next: x.Next, Kind: x.Kind, Step: x.Step})
	}
	e.IterMode = 2
	for _, x := range r.last.it {
		e.Iters = append(e.Iters, cases.It{Idx: x.Idx, R: x.R})
	}
}

// recordIters makes env repeat the map orders of the last simulated run.
func (r *runner) recordIters(e *cases.Env) {
	e.IterMode, e.Iters = 2, nil
	for _, x := range r.last.it {
		e.Iters = append(e.Iters, cases.It{Idx: x.Idx, R: x.R})
	}
}

// guard runs f and turns panics into outcomes.
func (r *runner) guard(f func() Outcome) (o Outcome) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		if _, ok := p.(runtime.SimAbort); ok {
			o = Outcome{Kind: "abort"}
			return
		}
		o = Outcome{Kind: "panic", Err: r.norm(fmt.Sprint(p))}
	}()
	return f()
}

func (r *runner) fromErr(err error) Outcome {
	return Outcome{Kind: "err", Err: r.norm(err.Error()), Hidden: err.Error(), err: err}
}

func (r *runner) fromFail(e *fail.Error) Outcome {
	return Outcome{Kind: "err", Err: r.norm(e.String()), Msg: r.norm(e.Message()), Line: e.Line(), Path: r.norm(e.Filepath()), Hidden: e.String(), fail: e}
}

func spell(w *cases.World) string {
	if w.Spell != "" {
		return w.Spell
	}
	return w.Dir
}

func (r *runner) load(w *cases.World) (tpl *textwire.Template, o Outcome) {
	o = r.guard(func() Outcome {
		t, err := textwire.NewTemplate(&config.Config{TemplateDir: spell(w), TemplateExt: w.Ext, ErrorPagePath: w.ErrPage, DebugMode: w.Debug})
		tpl = t
		if err != nil {
			x := r.fromErr(err)
			x.NilTpl = t == nil
			return x
		}
		return Outcome{Kind: "ok", NilTpl: t == nil}
	})
	return tpl, o
}

// boot is a simulated process start: fresh package state, custom functions,
// configuration and templates.
func (r *runner) boot(w *cases.World) (*textwire.Template, Outcome) {
	runtime.SimResetAll()
	r.shared = map[int]map[string]any{}
	for _, f := range w.Funcs {
		r.register(f)
	}
	return r.load(w)
}

func (r *runner) register(f cases.FuncSpec) error {
	switch f.Type {
	case "str":
		return textwire.RegisterStrFunc(f.Name, func(s string, args ...any) string {
			return behave(r, f, s, args, s).(string)
		})
	case "int":
		return textwire.RegisterIntFunc(f.Name, func(s int, args ...any) int {
			return behave(r, f, s, args, s).(int)
		})
	case "float":
		return textwire.RegisterFloatFunc(f.Name, func(s float64, args ...any) float64 {
			return behave(r, f, s, args, s).(float64)
		})
	case "bool":
		return textwire.RegisterBoolFunc(f.Name, func(s bool, args ...any) bool {
			return behave(r, f, s, args, s).(bool)
		})
	case "arr":
		return textwire.RegisterArrFunc(f.Name, func(s []any, args ...any) []any {
			return behave(r, f, s, args, s).([]any)
		})
	}
	panic("func type " + f.Type)
}

func behave(r *runner, f cases.FuncSpec, recv any, args []any, same any) any {
	switch f.Beh {
	case "id":
		return same
	case "rev": // works in place on everything it was given
		a := recv.([]any)
		for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
			a[i], a[j] = a[j], a[i]
		}
		scribble(args)
		return a
	case "panic":
		panic("callback " + f.Name + " panics")
	}
	return behave20(r, f, recv, args, same)
}

// writer is the simulated connection behind http.ResponseWriter.
type writer struct {
	hdr    http.Header
	buf    []byte
	status int
	f      *cases.Fault
	fired  bool
	wrote  bool  // the header is sent
	length int64 // the length the header declares, or -1
}

// send sends the header as net/http does: what it says then stays.
func (w *writer) send(status int) {
	if w.wrote {
		return
	}
	if status >= 100 && status < 200 && status != 101 {
		return
	}
	w.wrote, w.status, w.length = true, status, -1
	if n, err := strconv.ParseInt(w.hdr.Get("Content-Length"), 10, 64); err == nil && n >= 0 {
		w.length = n
	}
}

func (w *writer) Header() http.Header {
	if w.hdr == nil {
		w.hdr = http.Header{}
	}
	return w.hdr
}
func (w *writer) WriteHeader(s int) { w.send(s) }

var errPeer = errors.New("write tcp: connection reset by peer")

func (w *writer) Write(p []byte) (int, error) {
	w.send(http.StatusOK)
	if w.status < 200 || w.status == http.StatusNoContent || w.status == http.StatusNotModified {
		return 0, http.ErrBodyNotAllowed
	}
	if w.length >= 0 && int64(len(w.buf)+len(p)) > w.length {
		return 0, http.ErrContentLength
	}
	if w.f != nil && strings.HasPrefix(w.f.K, "w") {
		room := w.f.N - len(w.buf)
		if room < 0 {
			room = 0
		}
		if w.f.K == "wonce" && w.fired { // the connection works again
			room = len(p)
			w.buf = append(w.buf, p...)
			return room, nil
		}
		if room < len(p) || w.fired {
			if w.fired {
				room = 0
			}
			w.fired = true
			w.buf = append(w.buf, p[:room]...)
			switch w.f.K {
			case "wpanic":
				panic(http.ErrAbortHandler)
			case "wshort":
				return room, io.ErrShortWrite
			}
			return room, errPeer
		}
	}
	if w.f != nil && w.f.K == "slow" { // the client takes its time; others run
		n := min(w.f.N, len(p))
		w.buf = append(w.buf, p[:n]...)
		w.fired = true
		runtime.Gosched()
		w.buf = append(w.buf, p[n:]...)
		return len(p), nil
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

// richWriter has the optional methods of a server's ResponseWriter.
type richWriter struct{ *writer }

func (w richWriter) Flush()                            {}
func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w richWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w.writer}, r)
}

const opBudget = 8_000_000

// do performs one operation. before() runs right before the call.
func (r *runner) do(w *cases.World, tpl *textwire.Template, op *cases.Op) (o Outcome) {
	var data, ref map[string]any
	if op.Data != nil {
		if op.Shared > 0 {
			m := r.shared[op.Shared]
			if m == nil {
				m = map[string]any{}
			}
			data = refill(m, op.Data).(map[string]any)
			alias(data, op.Data)
			r.shared[op.Shared] = data
		} else {
			data = toData(op.Data)
		}
		ref = toData(op.Data)
	}
	return r.doWith(w, tpl, op, data, ref)
}

func (r *runner) doWith(w *cases.World, tpl *textwire.Template, op *cases.Op, data, ref map[string]any) (o Outcome) {
	o = r.guard(func() Outcome {
		switch op.K {
		case "string":
			s, e := tpl.String(op.Name, data)
			if e != nil {
				x := r.fromFail(e)
				x.Out = r.norm(s)
				return x
			}
			return Outcome{Kind: "ok", Out: r.norm(s)}
		case "resp":
			wr := &writer{f: op.Fault}
			var err error
			x := r.guard(func() Outcome {
				if op.Rich {
					err = tpl.Response(richWriter{wr}, op.Name, data)
				} else {
					err = tpl.Response(wr, op.Name, data)
				}
				if err != nil {
					return r.fromErr(err)
				}
				return Outcome{Kind: "ok"}
			})
			x.Out = r.norm(string(wr.buf))
			if wr.wrote && wr.length > int64(len(wr.buf)) && !wr.fired {
				x.Out += "\x00[the client waits for more: Content-Length " + strconv.FormatInt(wr.length, 10) + "]"
			}
			if wr.fired && op.Fault.K != "slow" {
				x.Msg = "writer-fault"
			}
			return x
		case "evs":
			s, err := textwire.EvaluateString(cases.Src(op.Src), data)
			if err != nil {
				x := r.fromErr(err)
				x.Out = s
				return x
			}
			return Outcome{Kind: "ok", Out: r.norm(s)}
		case "evf":
			s, err := textwire.EvaluateFile(filepath.Join(r.cwd, op.Name), data)
			if err != nil {
				x := r.fromErr(err)
				x.Out = r.norm(s)
				return x
			}
			return Outcome{Kind: "ok", Out: r.norm(s)}
		}
		panic("unknown operation " + op.K)
	})
	if ref != nil && o.Kind != "abort" && goText(data) != goText(ref) {
		o.Kind = "mutated"
		o.Err = "caller data changed: " + fmt.Sprintf("%v -> %v", ref, data) + " " + o.Err
	}
	return o
}

// prepare does the disk side of an operation (before it is issued).
// prepare puts the file that op evaluates on the disk, or makes sure there is
// none, so that the disk an operation meets does not depend on the others.
func (r *runner) prepare(w *cases.World, op *cases.Op) {
	if op.K != "evf" {
		return
	}
	if op.Src != nil {
		r.writeFile(op.Name, cases.Src(op.Src))
		return
	}
	for i := range w.Files {
		if w.Files[i].Path == op.Name {
			return
		}
	}
	full := filepath.Join(r.cwd, op.Name)
	if st, err := os.Lstat(full); err == nil && st.Mode().IsRegular() && strings.HasPrefix(full, r.root) {
		os.Remove(full)
	}
}

func (r *runner) note(o *Outcome) {
	r.dig = cases.Mix(r.dig ^ cases.Hash([]byte(o.key())))
}

// goText writes a Go value with the types of everything in it. Two values
// that hold the same content give the same text (NaN included).
func goText(x any) string {
	var b strings.Builder
	goWrite(&b, reflect.ValueOf(x))
	return b.String()
}

func goWrite(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Kind() != reflect.Interface {
		b.WriteString(v.Type().String())
	}
	switch v.Kind() {
	case reflect.Interface:
		goWrite(b, v.Elem())
	case reflect.Pointer:
		b.WriteByte('*')
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		goWrite(b, v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("[nil]")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			goWrite(b, v.Index(i))
			b.WriteByte(',')
		}
		b.WriteByte(']')
		// the storage behind the end belongs to the caller, too
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			for x, i := v.Slice(0, v.Cap()), v.Len(); i < v.Cap(); i++ {
				if !x.Index(i).IsZero() {
					b.WriteString("+")
					goWrite(b, x.Index(i))
				}
			}
		}
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("{nil}")
			return
		}
		var es []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			goWrite(&e, it.Key())
			e.WriteByte(':')
			goWrite(&e, it.Value())
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("{" + strings.Join(es, ",") + "}")
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			goWrite(b, v.Field(i))
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case reflect.Chan, reflect.Func:
		if v.IsNil() {
			b.WriteString("nil")
		}
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	default:
		fmt.Fprintf(b, "(%v)", v)
	}
}

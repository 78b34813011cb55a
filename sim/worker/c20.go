package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"

	"verifsim/cases"
)

var objType20 = map[string]string{"str": "STRING", "arr": "ARRAY", "int": "INTEGER", "float": "FLOAT", "bool": "BOOLEAN", "nil": "NIL", "obj": "OBJECT"}

// plain brings a Go value into the form callbacks receive values in: int64,
// float64, string, bool, nil, []any and map[string]any.
func plain(x any) any {
	if x == nil {
		return nil
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, plain(v.Index(i).Interface()))
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for it := v.MapRange(); it.Next(); {
			out[fmt.Sprint(it.Key().Interface())] = plain(it.Value().Interface())
		}
		return out
	case reflect.Struct:
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			out[v.Type().Field(i).Name] = plain(v.Field(i).Interface())
		}
		return out
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return plain(v.Elem().Interface())
	}
	return fmt.Sprintf("no plain form of %T", x)
}

// canon writes a value a callback received; anything that is not a plain Go
// value shows its Go type.
func canon(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(v)
	case int:
		return "i" + strconv.Itoa(v)
	case int64:
		return "i" + strconv.FormatInt(v, 10)
	case float64:
		if v == 0 {
			v = 0 // no negative zero
		}
		return "f" + strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		return strconv.Quote(v)
	case []any:
		p := make([]string, len(v))
		for i := range v {
			p[i] = canon(v[i])
		}
		return "[" + strings.Join(p, " ") + "]"
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var p []string
		for _, k := range ks {
			p = append(p, strconv.Quote(k)+":"+canon(v[k]))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("<%T %v>", x, x)
}

func typ20(x any) string {
	switch x.(type) {
	case nil:
		return "nil"
	case bool:
		return "bool"
	case int64, int:
		return "int"
	case float64:
		return "float"
	case string:
		return "str"
	case []any:
		return "arr"
	case map[string]any:
		return "obj"
	}
	return "?"
}

type typed20 struct {
	A int
	B []string
	C *float64
}

var half20 = 0.5

// Values of types that have methods are data like any others.

type money20 struct{ Cents int }

func (m money20) String() string               { return "S!" }
func (m money20) MarshalJSON() ([]byte, error) { return []byte("9"), nil }
func (m money20) Format(s fmt.State, _ rune)   { s.Write([]byte("F!")) }

type note20 struct {
	Text string
	N    int
}

func (n *note20) String() string { return "P!" }
func (n *note20) Type() string   { return "INTEGER" }

type fail20 struct {
	Code int
	Msg  string
}

func (f fail20) Error() string { return "E!" + f.Msg }

type opt20 struct {
	S     string
	Valid bool
}

func (o opt20) Value() (any, error) { return o.S, nil }
func (o opt20) Val() any            { return 1 }
func (o opt20) Dump(int) string     { return "D!" }

type list20 []int

func (l list20) Len() int           { return 0 }
func (l list20) Less(i, j int) bool { return l[i] < l[j] }
func (l list20) Swap(i, j int)      { l[i], l[j] = l[j], l[i] }

type head20 map[string][]string

func (h head20) Get(string) string            { return "G!" }
func (h head20) MarshalText() ([]byte, error) { return []byte("T!"), nil }

type any20 struct{ V any }

type embed20 struct{ Id int }

type up20 struct{ Z any }

type tags20 struct {
	Name   string `json:"other" textwire:"other"`
	secret int
	Skip   string `json:"-"`
	embed20
	Up *up20 `json:",omitempty"`
}

// result20 is what the function f returns; a pure function of its arguments.
func result20(f cases.FuncSpec, recv any, args []any) any {
	beh, ids, _ := strings.Cut(f.Beh, "#")
	id, _ := strconv.Atoi(ids)
	switch f.Type {
	case "str":
		s := recv.(string)
		switch beh {
		case "id":
			return s
		case "const":
			return "<b class=\"x\">&" + ids + "</b>"
		case "empty":
			return ""
		}
		return fmt.Sprintf("S%d(%s)%d%s", id, s, len(args), canon(plain(args)))
	case "int":
		n := recv.(int)
		switch beh {
		case "id":
			return n
		case "max":
			return math.MaxInt64
		case "min":
			return math.MinInt64
		case "zero":
			return 0
		}
		return n*3 + id*1000 + len(args)
	case "float":
		n := recv.(float64)
		switch beh {
		case "id":
			return n
		case "tenth":
			return 0.1
		case "huge":
			return 1e300
		case "whole":
			return 3.0
		}
		return n/2 + float64(id) + float64(len(args))/8
	case "bool":
		n := recv.(bool)
		switch beh {
		case "id":
			return n
		case "true":
			return true
		case "false":
			return false
		}
		return !n
	}
	a := recv.([]any)
	switch beh {
	case "id":
		return a
	case "empty":
		return []any{}
	case "nil":
		return []any(nil)
	case "one":
		return []any{id}
	case "objs":
		return []any{map[string]any{"id": id, "recv": a}, map[string]any{}}
	case "nest":
		return []any{map[string]any{"recv": a, "args": args}, []any{a, []any{}}, nil, true, 1.5, "s<i>"}
	case "typed":
		return []any{[]int{1, 2}, map[string]string{"a": "b"}, typed20{A: id, B: []string{"x"}, C: &half20}, &half20, int8(3), uint16(5), []byte("hi"), uint64(7), []map[string]any{{"k": []any{}}}, map[int]string{1: "x"}, float32(1.5), [][]string{{"p"}, nil}}
	case "meth":
		return []any{money20{id}, &money20{id + 1}, &note20{"n", id}, fail20{id, "f"}, &fail20{Code: id}, opt20{S: "o", Valid: id%2 == 0}, list20{3, 1, 2},
			head20{"A": {"x", "y"}, "b": nil}, time.Time{}, errors.New("plain"), any20{V: money20{7}}, []fail20{{1, "a"}}, map[string]money20{"m": {id}}, []*note20{nil, {"z", 1}}}
	case "ptrs":
		i, s, l, m := id, "s<i>", []any{1, "x"}, map[string]any{"k": id}
		pi, ps := &i, &s
		var np *money20
		var nl *[]int
		return []any{pi, &pi, ps, &l, &m, np, &np, nl, []*int{nil, pi}, map[string]*string{"p": ps, "q": nil}, map[string]*typed20{"t": {A: id}}, any20{V: pi}, &any20{V: &l}}
	case "keys":
		return []any{map[int]any{3: id, -1: nil}, map[float64]string{1.5: "a", 2: "b"}, map[bool]int{true: 1, false: 0}, map[any]any{"x": 1, 2: "y", 2.5: nil},
			map[int8][]int{1: {1}}, map[uint64]bool{1 << 63: true}, map[string]any(nil), map[string]map[string]any{"": {"": ""}, "a b": nil}}
	case "tags":
		return []any{tags20{Name: "n", secret: 5, Skip: "s", embed20: embed20{Id: 1}, Up: &up20{Z: id}}, &tags20{Up: nil}, struct{}{}, struct {
			A    any
			B, C []any
		}{A: struct{ X int }{id}, C: []any{nil, struct{ Y string }{"y"}}}}
	case "wide":
		return []any{uint64(math.MaxUint64), uint64(1 << 63), uint(1<<63 + 1), uint32(math.MaxUint32), int8(-128), int16(-32768), int32(math.MinInt32), int64(math.MinInt64), math.MaxInt64,
			float32(0.1), float32(16777217), 1e21, 1e-7, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, []byte{0, 255}, []rune("é"), []int8{-1}, []uint64{math.MaxUint64}, []float32{0.1}}
	case "chan":
		return []any{1, make(chan int)}
	}
	out := append([]any{id}, a...)
	return append(out, args...)
}

// scribble overwrites what a callback was given.
func scribble(x any) {
	switch v := x.(type) {
	case []any:
		for i := range v {
			scribble(v[i])
			v[i] = "SCRIBBLED"
		}
	case map[string]any:
		for k := range v {
			scribble(v[k])
			v[k] = "SCRIBBLED"
		}
		v["added"] = true
	}
}

// kept20 is what a function was given, and what it looked like then.
type kept20 struct {
	fn               string
	recv             any
	args             []any
	recvWas, argsWas string
}

// changed20 names a kept value that changed after the call it was given to.
func (r *runner) changed20() string {
	for _, k := range r.kept {
		if now := canon(k.recv); now != k.recvWas {
			return fmt.Sprintf("function %s was called on %s, which later became %s", k.fn, k.recvWas, now)
		}
		if now := canon(append([]any{}, k.args...)); now != k.argsWas {
			return fmt.Sprintf("function %s was given %s, which later became %s", k.fn, k.argsWas, now)
		}
	}
	return ""
}

func behave20(r *runner, f cases.FuncSpec, recv any, args []any, same any) any {
	if r.recBad == "" {
		if s := canon(recv) + canon(append([]any{}, args...)); strings.Contains(s, "<") && containsOdd(recv, args) {
			r.recBad = "function " + f.Name + " on " + f.Type + " received a value that is not a plain Go value: " + s
		}
	}
	r.rec = append(r.rec, recCall{Fn: f.Type + "." + f.Name + "=" + f.Beh, Recv: canon(recv), Args: canon(append([]any{}, args...))})
	beh, _, _ := strings.Cut(f.Beh, "#")
	if beh != "mut" && beh != "grow" && len(r.kept) < 2000 {
		// a function may keep what it was given
		k := kept20{fn: f.Type + "." + f.Name, args: args, argsWas: canon(append([]any{}, args...)), recvWas: canon(recv)}
		k.recv = recv
		r.kept = append(r.kept, k)
	}
	switch beh {
	case "count": // another result every time
		r.counts = append(r.counts, len(r.counts)+1)
		return len(r.counts)
	case "panic":
		panic("callback " + f.Name + " panics")
	case "reg": // registers another function, once for good
		r.inner[f.Beh]++
		err := textwire.RegisterStrFunc("inner_"+strings.ReplaceAll(f.Beh, "#", "_"), func(s string, _ ...any) string { return s })
		if (err == nil) != (r.inner[f.Beh] == 1) {
			r.recBad = fmt.Sprintf("attempt %d to register a function inside a function returned %v", r.inner[f.Beh], err)
		}
	case "reent":
		if s, err := textwire.EvaluateString(`{{ [1, 2].len() + 1 }}`, nil); err != nil || s != "3" {
			r.recBad = fmt.Sprintf("evaluating a template inside a function returned %q, %v", s, err)
		}
	}
	if beh == "grow" {
		// appends to what it was given: nothing else may live behind it
		n := len(args)
		more := append(args, "GROWN", "GROWN")
		a, ok := recv.([]any)
		if !ok {
			return result20(f, recv, more[:n])
		}
		l := len(a)
		longer := append(a, "GREW", "GREW")
		return result20(f, longer[:l:l], args)
	}
	if beh == "mut" {
		res := result20(f, plainKeep(recv), plain(append([]any{}, args...)).([]any))
		scribble(recv)
		for _, a := range args {
			scribble(a)
		}
		return res
	}
	return result20(f, recv, args)
}

func plainKeep(recv any) any {
	if a, ok := recv.([]any); ok {
		return plain(a)
	}
	return recv
}

func containsOdd(xs ...any) bool {
	for _, x := range xs {
		switch v := x.(type) {
		case nil, bool, int, int64, float64, string:
		case []any:
			if containsOdd(v...) {
				return true
			}
		case map[string]any:
			for _, e := range v {
				if containsOdd(e) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// model20 is the registry as the property describes it.
type model20 struct {
	reg  map[string]map[string]*cases.FuncSpec
	data map[string]any
}

func newModel20() *model20 {
	m := &model20{reg: map[string]map[string]*cases.FuncSpec{}}
	for _, t := range cases.Types20 {
		m.reg[t] = map[string]*cases.FuncSpec{}
	}
	return m
}

// want20 is what the model expects of one evaluation.
type want20 struct {
	calls  map[string]bool
	order  []string
	missOK []string // "name|TYPE": the error may name any of these
	panics bool
	x      *cases.Expr // the whole expression
	raw    any         // what its function returned
	count  bool        // a function that counts was called
}

var errMiss20 = errors.New("missing")

func (m *model20) eval(x *cases.Expr, w *want20) (any, error) {
	switch x.K {
	case "lit", "known":
		return plain(toGo(x.V)), nil
	case "var":
		return plain(m.data[x.Name]), nil
	case "prop":
		o, err := m.eval(x.E[0], w)
		if err != nil {
			return nil, err
		}
		return o.(map[string]any)[x.Name], nil
	case "idx":
		o, err := m.eval(x.E[0], w)
		if err != nil {
			return nil, err
		}
		return o.([]any)[x.I], nil
	case "cond":
		b, err := m.eval(x.E[0], w)
		if err != nil {
			return nil, err
		}
		if b.(bool) {
			return m.eval(x.E[1], w)
		}
		return m.eval(x.E[2], w)
	case "arr", "obj":
		var first error
		var vs []any
		for _, e := range x.E {
			v, err := m.eval(e, w)
			if err != nil && first == nil {
				first = err
			}
			vs = append(vs, v)
		}
		if first != nil {
			return nil, first
		}
		if x.K == "arr" {
			if vs == nil {
				vs = []any{}
			}
			return vs, nil
		}
		o := map[string]any{}
		for i := range vs {
			o[x.N[i]] = vs[i]
		}
		return o, nil
	case "call":
		recv, err := m.eval(x.E[0], w)
		if err != nil {
			for _, e := range x.E[1:] {
				m.eval(e, w)
			}
			return nil, err
		}
		t := typ20(recv)
		f := m.reg[t][x.Name]
		var args []any
		for _, e := range x.E[1:] {
			a, e2 := m.eval(e, w)
			if e2 != nil && err == nil {
				err = e2
			}
			args = append(args, a)
		}
		if f == nil {
			w.missOK = append(w.missOK, x.Name+"|"+objType20[t])
			return nil, errMiss20
		}
		if err != nil {
			return nil, err
		}
		c := recCall{Fn: f.Type + "." + f.Name + "=" + f.Beh, Recv: canon(recv), Args: canon(append([]any{}, args...))}
		k := c.Fn + " on " + c.Recv + " with " + c.Args
		w.calls[k] = true
		w.order = append(w.order, k)
		beh, _, _ := strings.Cut(f.Beh, "#")
		if beh == "panic" {
			w.panics = true
			return nil, errMiss20
		}
		if beh == "chan" {
			w.missOK = append(w.missOK, "|")
			return nil, errMiss20
		}
		if n, ok := recv.(int64); ok {
			recv = int(n)
		}
		if beh == "count" {
			w.count = true
		}
		res := result20(*f, recv, args)
		if x == w.x {
			w.raw = res
		}
		return plain(res), nil
	}
	panic("expression " + x.K)
}

func exec20(r *runner, c *cases.Case) Verdict {
	r.wipe()
	w := &c.World
	r.materialise(w, 0)
	h := c.Tasks[0]
	for i := range h {
		op := &h[i]
		if op.X == nil {
			continue
		}
		switch op.K {
		case "string", "resp":
			r.writeFile(w.Dir+"/"+op.Name+w.Ext, cases.PageSrc20(op))
		case "evf":
			r.writeFile(op.Name, cases.PageSrc20(op))
		}
	}
	r.writeFile("bad/syntax/a"+w.Ext, "@if(true)open")
	r.writeFile("bad/gone/a"+w.Ext, `@use("nowhere")`)
	r.writeFile("bad/component/a"+w.Ext, `@component("nowhere")`)
	// built-in calls, as a process without registrations answers them
	ref := map[int]Outcome{}
	env := c.Env
	for i := range h {
		if h[i].Note == "builtin" {
			op := h[i]
			op.K, op.Rep, op.Shared = "evs", 0, 0
			o := Outcome{}
			r.sim(&env, func() {
				setBudget()
				runtime.SimResetAll()
				r.shared = map[int]map[string]any{}
				op.Src = []*cases.Node{{K: "raw", A: "{{ " + cases.ExprSrc(op.X) + " }}"}}
				o = r.do(w, nil, &op)
			})
			ref[i] = o
		}
	}
	v := Verdict{}
	kinds := map[string]bool{}
	res := r.sim(&c.Env, func() { v = r.history20(c, ref, kinds) })
	if res.Deadlock {
		return Verdict{Viol: "deadlock", Detail: fmt.Sprintf("operation %d (%s) never returns", r.at20, h[r.at20].K)}
	}
	if v.Viol != "" {
		return v
	}
	v.nontrivial = len(kinds) >= 4
	v.distinct = r.dig
	return v
}

func (r *runner) history20(c *cases.Case, ref map[int]Outcome, kinds map[string]bool) Verdict {
	w, h := &c.World, c.Tasks[0]
	bad := func(kind string, i int, f string, a ...any) Verdict {
		return Verdict{Viol: kind, Detail: fmt.Sprintf("operation %d: ", i) + fmt.Sprintf(f, a...)}
	}
	setBudget()
	runtime.SimResetAll()
	r.shared = map[int]map[string]any{}
	textwire.Configure(&config.Config{TemplateDir: w.Dir, TemplateExt: w.Ext, DebugMode: w.Debug})
	m := newModel20()
	r.inner = map[string]int{}
	var tpl *textwire.Template
	load := func(dir string) Outcome {
		var t *textwire.Template
		o := r.guard(func() Outcome {
			var err error
			t, err = textwire.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: w.Ext, DebugMode: w.Debug})
			if err != nil {
				return r.fromErr(err)
			}
			return Outcome{Kind: "ok"}
		})
		if o.Kind == "ok" {
			tpl = t
		}
		return o
	}
	for i := range h {
		op := &h[i]
		r.at20 = i
		setBudget()
		r.st.Ops++
		switch op.K {
		case "reg":
			f := *op.Func
			var err error
			o := r.guard(func() Outcome {
				err = r.register(f)
				return Outcome{Kind: "ok"}
			})
			if o.Kind != "ok" {
				return bad("register-crashed", i, "registering %q for %s: %s", f.Name, f.Type, o.key())
			}
			first := m.reg[f.Type][f.Name] == nil
			builtin := cases.IsBuiltin20(f.Type, f.Name)
			r.dig = cases.Mix(r.dig ^ cases.Hash([]byte(fmt.Sprint(f, err != nil))))
			switch {
			case first && err != nil && !builtin:
				return bad("registration-refused", i, "the first registration of %q for %s fails: %v", f.Name, f.Type, err)
			case !first && err == nil:
				return bad("registered-twice", i, "another registration of %q for %s succeeds", f.Name, f.Type)
			}
			if first && err == nil {
				m.reg[f.Type][f.Name] = &f
			}
			if err != nil {
				r.probe("register:refused")
				kinds["refused"] = true
			} else {
				r.probe("register:" + f.Type)
			}
		case "load":
			if o := load(w.Dir); o.Kind != "ok" {
				return bad("load-failed", i, "loading the templates: %s", o.key())
			}
			r.probe("load")
			kinds["load"] = true
		case "badload":
			t := tpl
			if o := load("bad/" + op.Note); o.Kind == "ok" {
				r.probe("badload-accepted")
			}
			tpl = t
			textwire.Configure(&config.Config{TemplateDir: w.Dir, TemplateExt: w.Ext, DebugMode: w.Debug})
			r.fire("failed-load")
		case "badrender":
			r.badRender20(w, tpl, op)
			r.fire("failed-render")
		case "restart":
			runtime.SimResetAll()
			r.shared = map[int]map[string]any{}
			textwire.Configure(&config.Config{TemplateDir: w.Dir, TemplateExt: w.Ext, DebugMode: w.Debug})
			m = newModel20()
			r.inner = map[string]int{}
			tpl = nil
			r.fire("restart")
		case "clock":
			runtime.SimAdvance(int64(op.Rep) * 1_000_000_000)
			r.fire("clock-jump")
		default:
			if (op.K == "string" || op.K == "resp") && tpl == nil {
				r.probe("skipped-not-loaded")
				continue
			}
			n := max(op.Rep, 1)
			for k := 0; k < n; k++ {
				if v := r.call20(w, tpl, m, op, i, ref, kinds); v.Viol != "" {
					return v
				}
			}
		}
	}
	return Verdict{}
}

// badRender20 is an evaluation that fails, for whatever it leaves behind.
func (r *runner) badRender20(w *cases.World, tpl *textwire.Template, op *cases.Op) {
	o := Outcome{}
	switch op.Note {
	case "evs":
		x := cases.Op{K: "evs", Src: []*cases.Node{{K: "raw", A: "a {{ 1 / 0 }} b {{ missing }}"}}}
		o = r.do(w, tpl, &x)
	case "resp", "string":
		if tpl == nil {
			return
		}
		x := cases.Op{K: op.Note, Name: "nosuchpage"}
		o = r.do(w, tpl, &x)
	case "writer":
		if tpl == nil {
			return
		}
		x := cases.Op{K: "resp", Name: "plain", Fault: &cases.Fault{K: "werr", N: 1}}
		o = r.do(w, tpl, &x)
	}
	r.note(&o)
}

func (r *runner) call20(w *cases.World, tpl *textwire.Template, m *model20, op *cases.Op, i int, ref map[int]Outcome, kinds map[string]bool) Verdict {
	src := cases.PageSrc20(op)
	bad := func(kind, f string, a ...any) Verdict {
		return Verdict{Viol: kind, Detail: fmt.Sprintf("operation %d, %s of %q: ", i, op.K, src) + fmt.Sprintf(f, a...)}
	}
	want := want20{calls: map[string]bool{}, x: op.X}
	var val any
	var werr error
	m.data = toData(op.Data)
	if op.Note != "builtin" {
		val, werr = m.eval(op.X, &want)
	}
	// the call itself
	r.rec, r.recBad, r.counts, r.kept = nil, "", nil, nil
	x := *op
	if op.K == "evs" {
		x.Src = []*cases.Node{{K: "raw", A: src}}
	}
	setBudget()
	o := r.do(w, tpl, &x)
	r.note(&o)
	got, counts := r.rec, r.counts
	r.rec = nil
	if o.Kind == "abort" && op.Ctx == "many" { // perhaps just too much work
		r.probe("over-budget")
		return Verdict{}
	}
	if o.Kind == "abort" {
		return bad("call-hangs", "it does not return")
	}
	if s := r.changed20(); s != "" {
		return bad("arguments-change", "%s", s)
	}
	if r.recBad != "" {
		return bad("not-plain", "%s", r.recBad)
	}
	if op.Note == "builtin" {
		if len(got) > 0 {
			return bad("builtin-replaced", "the built-in function is replaced by %s", got[0].Fn)
		}
		b := ref[i]
		if b.Kind != "ok" {
			if o.Kind != b.Kind {
				return bad("builtin-changed", "a process without registrations answers %s, this one %s", b.short(), o.short())
			}
			if b.Kind == "err" && op.K == "evs" && op.Ctx == "print" && o.Err != b.Err {
				return bad("builtin-changed", "a process without registrations answers %q, this one %q", b.Err, o.Err)
			}
			r.probe("builtin:" + o.Kind)
			return Verdict{}
		}
		r.probe("builtin:ok")
		kinds["builtin"] = true
		if op.Ctx == "print" && o.Kind == "ok" && o.Out != "a "+b.Out+" b" {
			return bad("builtin-changed", "a process without registrations answers %q, this one %q", "a "+b.Out+" b", o.Out)
		}
		return Verdict{}
	}
	if want.count {
		return r.count20(op, &want, &o, counts, bad)
	}
	for _, g := range got {
		k := g.Fn + " on " + g.Recv + " with " + g.Args
		if !want.calls[k] {
			return bad("wrong-call", "%s was called, expected %s", k, strings.Join(want.order, "; "))
		}
	}
	switch {
	case want.panics:
		r.fire("callback-panic")
		kinds["panic"] = true
		return Verdict{}
	case werr != nil:
		if o.Kind == "ok" || o.Kind == "mutated" {
			return bad("missing-accepted", "no error although %v is not registered; rendered %q", want.missOK, o.Out)
		}
		if o.Kind != "err" {
			return bad("call-crashed", "%s", o.short())
		}
		for _, s := range want.missOK {
			n, t, _ := strings.Cut(s, "|")
			if strings.Contains(o.Err, n) && strings.Contains(strings.ToUpper(o.Err), t) {
				r.probe("missing:" + t)
				kinds["missing"] = true
				return Verdict{}
			}
		}
		return bad("error-unclear", "the error names none of %v: %q", want.missOK, o.Err)
	}
	if o.Kind == "mutated" {
		return bad("data-mutated", "%s", o.Err)
	}
	// every expected call was made
	seen := map[string]bool{}
	for _, g := range got {
		seen[g.Fn+" on "+g.Recv+" with "+g.Args] = true
	}
	for _, k := range want.order {
		if !seen[k] {
			return bad("not-called", "%s was not called: %s", k, o.short())
		}
	}
	// the result shows as if it had been passed as data
	data := toData(op.Data)
	data["rv"] = val
	if want.raw != nil {
		data["rv"] = want.raw
	}
	setBudget()
	y := cases.Op{K: "evs", Src: []*cases.Node{{K: "raw", A: cases.RefSrc20(op)}}}
	e := r.doWith(w, nil, &y, data, nil)
	if e.Kind != o.Kind {
		return bad("result-differs", "the call gives %s, its value %s passed as data %s", o.short(), canon(val), e.short())
	}
	if e.Kind == "ok" && e.Out != o.Out {
		return bad("result-differs", "its value %s passed as data shows otherwise (one: data, another: the call)\n%s", canon(val), diff(&e, &o))
	}
	if e.Kind == "ok" {
		r.probe("call:" + typ20(val) + ":" + op.Ctx)
		kinds["call-"+typ20(val)] = true
	} else {
		r.probe("call:" + e.Kind)
	}
	return Verdict{}
}

// count20 judges an evaluation whose function returns 1, 2, 3 and so on: each
// place that calls it shows a result of its own.
func (r *runner) count20(op *cases.Op, want *want20, o *Outcome, counts []int, bad func(kind, f string, a ...any) Verdict) Verdict {
	if len(want.order) != 1 || len(want.missOK) > 0 || op.X.K != "call" {
		return Verdict{}
	}
	var exp string
	n := 0
	switch op.Ctx {
	case "print":
		n, exp = 1, "a 1 b"
	case "twice":
		n, exp = 2, "1|2"
	case "for":
		n, exp = 2, "<1><2>"
	case "inner":
		n, exp = 2, "<1><2>"
	case "arr":
		n, exp = 1, "1, 1"
	default:
		return Verdict{}
	}
	if o.Kind != "ok" || len(counts) != n || o.Out != exp {
		return bad("result-differs", "the function returns 1, 2, 3 ... and was called %d times, expected %q: %s", len(counts), exp, o.short())
	}
	r.probe("count:" + op.Ctx)
	return Verdict{}
}

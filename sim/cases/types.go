package cases

import (
	"encoding/hex"
	"encoding/json"
	"hash/fnv"
	"strings"
	"unicode/utf8"
)

// Bytes is a string that survives JSON even when it is not valid UTF-8.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) && !strings.ContainsRune(string(b), utf8.RuneError) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(b))})
}

func (b *Bytes) UnmarshalJSON(p []byte) error {
	var s string
	if json.Unmarshal(p, &s) == nil {
		*b = Bytes(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(p, &m); err != nil {
		return err
	}
	x, err := hex.DecodeString(m["hex"])
	*b = Bytes(x)
	return err
}

func BytesOf(s string) *Bytes { b := Bytes(s); return &b }

// V is a Go value in JSON form.
//
// K: n nil, b bool, i int, i8..i64, u..u64, f float64, f32, s string,
// a []any, as []string, ai []int, ab []bool, af []float64, am []map[string]any,
// m map[string]any, ms map[string]string, st struct, p pointer to E[0],
// np nil pointer, u? unsupported (chan).
type V struct {
	K string   `json:"k"`
	I int64    `json:"i,omitempty"`
	S string   `json:"s,omitempty"`
	E []V      `json:"e,omitempty"`
	N []string `json:"n,omitempty"`
}

// enc and dec carry a string that is not valid UTF-8 through JSON.
func enc(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, hexMark) {
		return s
	}
	return hexMark + hex.EncodeToString([]byte(s))
}

func dec(s string) string {
	if !strings.HasPrefix(s, hexMark) {
		return s
	}
	b, err := hex.DecodeString(s[len(hexMark):])
	if err != nil {
		return s
	}
	return string(b)
}

const hexMark = "\x00hex:"

type vJSON V

func (v V) MarshalJSON() ([]byte, error) {
	v.S = enc(v.S)
	return json.Marshal(vJSON(v))
}

func (v *V) UnmarshalJSON(p []byte) error {
	err := json.Unmarshal(p, (*vJSON)(v))
	v.S = dec(v.S)
	return err
}

type nodeJSON Node

func (n Node) MarshalJSON() ([]byte, error) {
	n.A, n.Z = enc(n.A), enc(n.Z)
	return json.Marshal(nodeJSON(n))
}

func (n *Node) UnmarshalJSON(p []byte) error {
	err := json.Unmarshal(p, (*nodeJSON)(n))
	n.A, n.Z = dec(n.A), dec(n.Z)
	return err
}

func VNil() V           { return V{K: "n"} }
func VInt(i int64) V    { return V{K: "i", I: i} }
func VStr(s string) V   { return V{K: "s", S: s} }
func VFloat(s string) V { return V{K: "f", S: s} }
func VBool(b bool) V {
	if b {
		return V{K: "b", I: 1}
	}
	return V{K: "b"}
}
func VArr(e ...V) V { return V{K: "a", E: e} }

// VMap builds a map value from alternating names and values.
func VMap(kv ...any) V {
	v := V{K: "m"}
	for i := 0; i+1 < len(kv); i += 2 {
		v.N = append(v.N, kv[i].(string))
		v.E = append(v.E, kv[i+1].(V))
	}
	return v
}

func (v *V) Set(name string, x V) {
	for i, n := range v.N {
		if n == name {
			v.E[i] = x
			return
		}
	}
	v.N = append(v.N, name)
	v.E = append(v.E, x)
}

func (v V) Get(name string) (V, bool) {
	for i, n := range v.N {
		if n == name {
			return v.E[i], true
		}
	}
	return V{}, false
}

// Expr is an expression whose value the C20 model knows. K: lit (V), var
// (Name), prop (E[0].Name), idx (E[0][I]), arr, obj (N), cond, call
// (E[0].Name(E[1:])).
type Expr struct {
	K    string   `json:"k"`
	Name string   `json:"name,omitempty"`
	V    *V       `json:"v,omitempty"`
	I    int      `json:"i,omitempty"`
	E    []*Expr  `json:"e,omitempty"`
	N    []string `json:"n,omitempty"`
}

// Node is one piece of a template: A, then the children, then Z. Kinds: text
// (plain text), code ({{ }}), comment, stmt (directive without body), block
// (directive with body), sep (@else and friends between children), raw.
type Node struct {
	K string  `json:"k"`
	A string  `json:"a"`
	C []*Node `json:"c,omitempty"`
	Z string  `json:"z,omitempty"`
}

func (n *Node) write(b *strings.Builder) {
	b.WriteString(n.A)
	for _, c := range n.C {
		c.write(b)
	}
	b.WriteString(n.Z)
}

// Src renders nodes to template source.
func Src(ns []*Node) string {
	var b strings.Builder
	for _, n := range ns {
		n.write(&b)
	}
	return b.String()
}

func CopyNodes(ns []*Node) []*Node {
	if ns == nil {
		return nil
	}
	out := make([]*Node, len(ns))
	for i, n := range ns {
		c := *n
		c.C = CopyNodes(n.C)
		out[i] = &c
	}
	return out
}

// File is one file of the simulated disk, relative to the scratch root.
type File struct {
	Path string  `json:"path"`
	Body []*Node `json:"body,omitempty"`
	Raw  *Bytes  `json:"raw,omitempty"`  // instead of Body
	Kind string  `json:"kind,omitempty"` // "", dir, symlink (Raw is the target)
	Role string  `json:"role,omitempty"` // page, layout, component, error, string, other

	Marks []string `json:"marks,omitempty"` // C18: markers its rendering shows, in order
}

func (f *File) Text() string {
	if f.Raw != nil {
		return string(*f.Raw)
	}
	return Src(f.Body)
}

// FuncSpec is one registered custom function.
type FuncSpec struct {
	Type string `json:"type"` // str arr int float bool
	Name string `json:"name"`
	Beh  string `json:"beh"` // behaviour, see the worker
}

// World is everything a simulated process starts from.
type World struct {
	Files   []File     `json:"files"`
	Dir     string     `json:"dir"`
	Ext     string     `json:"ext"`
	Spell   string     `json:"spell,omitempty"` // how the configuration spells Dir
	ErrPage string     `json:"errpage,omitempty"`
	Debug   bool       `json:"debug,omitempty"`
	Funcs   []FuncSpec `json:"funcs,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	K    string `json:"k"`
	Path string `json:"path,omitempty"`
	N    int    `json:"n,omitempty"`
	M    int    `json:"m,omitempty"`
	S    Bytes  `json:"s,omitempty"`
}

// Op is one operation of a history.
type Op struct {
	K      string    `json:"k"` // string resp evs evf load reg clock restart write
	Name   string    `json:"name,omitempty"`
	Src    []*Node   `json:"src,omitempty"`
	Data   *V        `json:"data,omitempty"`
	Shared int       `json:"shared,omitempty"` // reuse the caller's map number N
	Fault  *Fault    `json:"fault,omitempty"`
	Func   *FuncSpec `json:"func,omitempty"`
	Exp    string    `json:"exp,omitempty"` // ok, fail, "" (unknown)
	Want   string    `json:"want,omitempty"`
	Debug  int       `json:"debug,omitempty"` // load: 1 on, 2 off
	Note   string    `json:"note,omitempty"`
	X      *Expr     `json:"x,omitempty"`    // C20: the expression under test
	Ctx    string    `json:"ctx,omitempty"`  // C20: where it stands
	Rich   bool      `json:"rich,omitempty"` // the ResponseWriter also flushes, takes strings and readers
	Rep    int       `json:"rep,omitempty"`  // repeat this many times (0 = once)
}

// Ev and It mirror the simulator's decision records.
type Ev struct {
	Task int32  `json:"t"`
	Next int32  `json:"n"`
	Kind int32  `json:"k,omitempty"`
	Step uint64 `json:"s"`
}

type It struct {
	Idx uint32 `json:"i"`
	R   uint32 `json:"r"`
}

// Env fixes every source of nondeterminism of one simulated run.
type Env struct {
	Policy   int      `json:"policy"` // 0 none 1 random 2 pct 3 replay
	Seed     uint64   `json:"seed"`
	PInv     uint64   `json:"pinv,omitempty"`
	HotInv   uint64   `json:"hotinv,omitempty"`
	HotMode  int      `json:"hotmode,omitempty"` // 0 none, 1 hot, 2 hot+warm, 3 random functions
	PCT      []uint64 `json:"pct,omitempty"`
	Events   []Ev     `json:"events,omitempty"`
	HashMode int      `json:"hashmode,omitempty"`
	HashSeed uint64   `json:"hashseed,omitempty"`
	RandSeed uint64   `json:"randseed,omitempty"`
	IterMode int      `json:"itermode"` // 0 fixed, 1 random, 2 recorded
	IterSeed uint64   `json:"iterseed,omitempty"`
	IterInv  uint64   `json:"iterinv,omitempty"`
	Iters    []It     `json:"iters,omitempty"`
	TimeBase int64    `json:"timebase,omitempty"`
	TimeStep int64    `json:"timestep,omitempty"`
	DirSeed  uint64   `json:"dirseed,omitempty"`
	FileSeed uint64   `json:"fileseed,omitempty"` // creation order and mtimes of the tree
	Procs    int      `json:"procs,omitempty"`    // GOMAXPROCS and NumCPU, 0: 8
	Vars     uint64   `json:"vars,omitempty"`     // environment variables, time zone, arguments of the process
}

// Case is one simulated case: replaying it is a pure function of this record
// and the code under test.
type Case struct {
	Prop   string   `json:"property"`
	Seed   uint64   `json:"seed"` // seed the case was generated from
	Kind   string   `json:"kind,omitempty"`
	World  World    `json:"world"`
	Tasks  [][]Op   `json:"tasks,omitempty"`
	Env    Env      `json:"env"`
	Envs   []Env    `json:"envs,omitempty"`
	Faults []Fault  `json:"faults,omitempty"`
	Input  *Bytes   `json:"input,omitempty"` // C08: exact input
	Must   bool     `json:"must,omitempty"`  // C08: must be rejected
	Tpl    []*Node  `json:"tpl,omitempty"`   // C08: template before the fault
	Names  []string `json:"names,omitempty"` // C18: probes
	Viol   string   `json:"violation,omitempty"`
	Detail string   `json:"detail,omitempty"`
}

func (c *Case) JSON() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func Clone(c *Case) *Case {
	var d Case
	if err := json.Unmarshal(c.JSON(), &d); err != nil {
		panic(err)
	}
	return &d
}

func Hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

package cases

import "strings"

// A Pass lists smaller variants of a case, the boldest first. After one of
// them is adopted the pass is asked again.
type Pass struct {
	Name string
	F    func(c *Case) []*Case
}

// chunks calls f with index ranges to remove from a list of n, halves first.
func chunks(n int, f func(lo, hi int)) {
	if n == 0 {
		return
	}
	for size := n; size > 0; size /= 2 {
		for lo := 0; lo < n; lo += size {
			f(lo, min(lo+size, n))
		}
	}
}

func cut[T any](a []T, lo, hi int) []T {
	return append(append([]T{}, a[:lo]...), a[hi:]...)
}

// Passes are the ways a case of this property may be made smaller without
// making it say something its oracle does not understand.
func Passes(c *Case) []Pass {
	var ps []Pass
	add := func(name string, f func(c *Case) []*Case) { ps = append(ps, Pass{name, f}) }
	mod := func(c *Case, out *[]*Case, f func(d *Case) bool) {
		d := Clone(c)
		if f(d) {
			*out = append(*out, d)
		}
	}
	add("input", func(c *Case) (out []*Case) {
		if c.Input == nil {
			return nil
		}
		s := string(*c.Input)
		least := max(1, len(s)/400)
		for size := len(s); size >= least; size /= 2 {
			for lo := 0; lo < len(s); lo += size {
				hi := min(lo+size, len(s))
				mod(c, &out, func(d *Case) bool { d.Input = BytesOf(s[:lo] + s[hi:]); return true })
			}
		}
		return out
	})
	add("tasks", func(c *Case) (out []*Case) {
		if len(c.Tasks) < 2 {
			return nil
		}
		for t := range c.Tasks {
			mod(c, &out, func(d *Case) bool { d.Tasks = cut(d.Tasks, t, t+1); d.dropTask(t); return true })
		}
		return out
	})
	add("ops", func(c *Case) (out []*Case) {
		for t := range c.Tasks {
			chunks(len(c.Tasks[t]), func(lo, hi int) {
				if hi-lo == len(c.Tasks[t]) && len(c.Tasks) == 1 {
					return
				}
				mod(c, &out, func(d *Case) bool { d.Tasks[t] = cut(d.Tasks[t], lo, hi); return true })
			})
		}
		return out
	})
	add("repetitions", func(c *Case) (out []*Case) {
		for t := range c.Tasks {
			for i := range c.Tasks[t] {
				if o := &c.Tasks[t][i]; o.Rep > 1 && o.K != "clock" {
					for _, n := range []int{0, 2, o.Rep / 2, o.Rep - 1} {
						if n < o.Rep {
							mod(c, &out, func(d *Case) bool { d.Tasks[t][i].Rep = n; return true })
						}
					}
				}
			}
		}
		return out
	})
	add("operation faults", func(c *Case) (out []*Case) {
		for t := range c.Tasks {
			for i := range c.Tasks[t] {
				o := &c.Tasks[t][i]
				if o.Fault != nil && o.K != "clock" {
					mod(c, &out, func(d *Case) bool { d.Tasks[t][i].Fault = nil; return true })
				}
				if o.Shared > 0 {
					mod(c, &out, func(d *Case) bool { d.Tasks[t][i].Shared = 0; return true })
				}
				if o.X != nil && o.X.K == "call" {
					for a := 1; a < len(o.X.E); a++ {
						mod(c, &out, func(d *Case) bool { x := d.Tasks[t][i].X; x.E = cut(x.E, a, a+1); return true })
					}
				}
			}
		}
		return out
	})
	add("environments", func(c *Case) (out []*Case) {
		chunks(len(c.Envs), func(lo, hi int) {
			if hi-lo < len(c.Envs) {
				mod(c, &out, func(d *Case) bool { d.Envs = cut(d.Envs, lo, hi); return true })
			}
		})
		return out
	})
	add("schedule", func(c *Case) (out []*Case) {
		chunks(len(c.Env.Events), func(lo, hi int) {
			mod(c, &out, func(d *Case) bool { d.Env.Events = cut(d.Env.Events, lo, hi); return true })
		})
		return out
	})
	add("map orders", func(c *Case) (out []*Case) {
		envs := func(d *Case) []*Env {
			es := []*Env{&d.Env}
			for i := range d.Envs {
				es = append(es, &d.Envs[i])
			}
			return es
		}
		for k, e := range envs(c) {
			if e.IterMode == 1 {
				mod(c, &out, func(d *Case) bool { envs(d)[k].IterMode = 0; return true })
			}
			if e.HashMode != 0 {
				mod(c, &out, func(d *Case) bool { envs(d)[k].HashMode = 0; return true })
			}
			if e.DirSeed != 0 {
				mod(c, &out, func(d *Case) bool { envs(d)[k].DirSeed = 0; return true })
			}
			if e.IterMode == 2 {
				chunks(len(e.Iters), func(lo, hi int) {
					mod(c, &out, func(d *Case) bool { x := envs(d)[k]; x.Iters = cut(x.Iters, lo, hi); return true })
				})
			}
			if k > 0 { // as the base environment
				b := &c.Env
				if e.FileSeed != b.FileSeed {
					mod(c, &out, func(d *Case) bool { envs(d)[k].FileSeed = d.Env.FileSeed; return true })
				}
				if e.Vars != b.Vars {
					mod(c, &out, func(d *Case) bool { envs(d)[k].Vars = d.Env.Vars; return true })
				}
				if e.Procs != b.Procs {
					mod(c, &out, func(d *Case) bool { envs(d)[k].Procs = d.Env.Procs; return true })
				}
				if e.TimeBase != b.TimeBase {
					mod(c, &out, func(d *Case) bool { envs(d)[k].TimeBase = d.Env.TimeBase; return true })
				}
				if e.TimeStep != b.TimeStep {
					mod(c, &out, func(d *Case) bool { envs(d)[k].TimeStep = d.Env.TimeStep; return true })
				}
				if e.HashSeed != b.HashSeed {
					mod(c, &out, func(d *Case) bool { envs(d)[k].HashSeed = d.Env.HashSeed; return true })
				}
				if e.RandSeed != b.RandSeed {
					mod(c, &out, func(d *Case) bool { envs(d)[k].RandSeed = d.Env.RandSeed; return true })
				}
			}
		}
		return out
	})
	add("files", func(c *Case) (out []*Case) {
		for i := range c.World.Files {
			if c.mayDrop(i) {
				mod(c, &out, func(d *Case) bool { d.World.Files = cut(d.World.Files, i, i+1); return true })
			}
		}
		return out
	})
	add("probes", func(c *Case) (out []*Case) {
		if c.Prop == "C08" {
			return nil
		}
		chunks(len(c.Names), func(lo, hi int) {
			mod(c, &out, func(d *Case) bool { d.Names = cut(d.Names, lo, hi); return true })
		})
		return out
	})
	if c.Prop != "C18" && c.Prop != "C20" {
		add("functions", func(c *Case) (out []*Case) {
			chunks(len(c.World.Funcs), func(lo, hi int) {
				mod(c, &out, func(d *Case) bool { d.World.Funcs = cut(d.World.Funcs, lo, hi); return true })
			})
			return out
		})
		lists := func(d *Case) []*[]*Node {
			var ls []*[]*Node
			var walk func(ns *[]*Node)
			walk = func(ns *[]*Node) {
				if len(*ns) == 0 {
					return
				}
				ls = append(ls, ns)
				for _, n := range *ns {
					walk(&n.C)
				}
			}
			walk(&d.Tpl)
			for i := range d.World.Files {
				walk(&d.World.Files[i].Body)
			}
			for t := range d.Tasks {
				for i := range d.Tasks[t] {
					walk(&d.Tasks[t][i].Src)
				}
			}
			return ls
		}
		add("template nodes", func(c *Case) (out []*Case) {
			for k, l := range lists(c) {
				chunks(len(*l), func(lo, hi int) {
					mod(c, &out, func(d *Case) bool { x := lists(d)[k]; *x = cut(*x, lo, hi); return true })
				})
			}
			return out
		})
		add("template blocks", func(c *Case) (out []*Case) {
			for k, l := range lists(c) {
				for i, n := range *l {
					if len(n.C) > 0 && c.Prop != "C08" { // the content instead of the block
						mod(c, &out, func(d *Case) bool {
							x := lists(d)[k]
							*x = append(append(append([]*Node{}, (*x)[:i]...), (*x)[i].C...), (*x)[i+1:]...)
							return true
						})
					}
					short := ""
					switch {
					case n.K == "text" && c.Prop == "C17":
					case n.K == "text" && len(n.A) > 1:
						short = "x"
					case n.K == "code" && len(n.A) > 7:
						short = "{{ 1 }}"
					case n.K == "block" && strings.HasPrefix(n.A, "@if(") && n.A != "@if(true)":
						short = "@if(true)"
					}
					if short != "" {
						mod(c, &out, func(d *Case) bool { (*lists(d)[k])[i].A = short; return true })
					}
				}
			}
			return out
		})
		add("data", func(c *Case) (out []*Case) {
			var each func(v *V, f func(v *V))
			each = func(v *V, f func(v *V)) {
				f(v)
				for i := range v.E {
					each(&v.E[i], f)
				}
			}
			all := func(d *Case) (vs []*V) {
				for t := range d.Tasks {
					for i := range d.Tasks[t] {
						if x := d.Tasks[t][i].Data; x != nil {
							each(x, func(v *V) { vs = append(vs, v) })
						}
					}
				}
				return vs
			}
			for k, v := range all(c) {
				if v.K == "p" {
					continue
				}
				chunks(len(v.E), func(lo, hi int) {
					mod(c, &out, func(d *Case) bool {
						x := all(d)[k]
						x.E = cut(x.E, lo, hi)
						if len(x.N) > 0 {
							x.N = cut(x.N, lo, hi)
						}
						return true
					})
				})
			}
			return out
		})
	}
	return ps
}

// dropTask renumbers the recorded schedule after task t is gone.
func (c *Case) dropTask(t int) {
	var ev []Ev
	for _, e := range c.Env.Events {
		if int(e.Task) == t || int(e.Next) == t {
			continue
		}
		if int(e.Task) > t && e.Task < 64 {
			e.Task--
		}
		if int(e.Next) > t && e.Next < 64 {
			e.Next--
		}
		ev = append(ev, e)
	}
	c.Env.Events = ev
}

// mayDrop tells whether the world stays meaningful without file i.
func (c *Case) mayDrop(i int) bool {
	f := &c.World.Files[i]
	if c.Prop == "C20" {
		return false
	}
	if c.Prop == "C18" {
		if f.Role != "page" { // pages are named by nobody
			return false
		}
		for _, t := range c.Tasks {
			for _, o := range t {
				if o.Name == f.Path || o.Fault != nil && o.Fault.Path == f.Path {
					return false
				}
			}
		}
	}
	return true
}

// Size is what minimising makes smaller, for the report.
func Size(c *Case) int { return len(c.JSON()) }

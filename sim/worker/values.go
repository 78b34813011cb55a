package main

import (
	"reflect"
	"strconv"
	"strings"

	"verifsim/cases"
)

// toGo builds the Go value v describes; every call builds fresh storage.
func toGo(v *cases.V) any {
	switch v.K {
	case "n", "":
		return nil
	case "b":
		return v.I != 0
	case "i":
		return int(v.I)
	case "i8":
		return int8(v.I)
	case "i16":
		return int16(v.I)
	case "i32":
		return int32(v.I)
	case "i64":
		return int64(v.I)
	case "u":
		return uint(v.I)
	case "u8":
		return uint8(v.I)
	case "u16":
		return uint16(v.I)
	case "u32":
		return uint32(v.I)
	case "u64":
		return uint64(v.I)
	case "f":
		f, _ := strconv.ParseFloat(v.S, 64)
		return f
	case "f32":
		f, _ := strconv.ParseFloat(v.S, 32)
		return float32(f)
	case "s":
		return v.S
	case "a":
		out := make([]any, len(v.E), len(v.E)+spare(v))
		for i := range v.E {
			out[i] = toGo(&v.E[i])
		}
		return out
	case "as":
		out := make([]string, len(v.E), len(v.E)+spare(v))
		for i := range v.E {
			out[i] = v.E[i].S
		}
		return out
	case "ai":
		out := make([]int, len(v.E), len(v.E)+spare(v))
		for i := range v.E {
			out[i] = int(v.E[i].I)
		}
		return out
	case "ab":
		out := make([]bool, len(v.E))
		for i := range v.E {
			out[i] = v.E[i].I != 0
		}
		return out
	case "af":
		out := make([]float64, len(v.E))
		for i := range v.E {
			out[i], _ = strconv.ParseFloat(v.E[i].S, 64)
		}
		return out
	case "m":
		out := make(map[string]any, len(v.E))
		for i := range v.E {
			out[v.N[i]] = toGo(&v.E[i])
		}
		return out
	case "mi":
		out := make(map[int]any, len(v.E))
		for i := range v.E {
			k, _ := strconv.Atoi(v.N[i])
			out[k] = toGo(&v.E[i])
		}
		return out
	case "ma": // keys of several types; some print alike
		out := make(map[any]any, len(v.E))
		for i := range v.E {
			out[goKey(v.N[i])] = toGo(&v.E[i])
		}
		return out
	case "mf": // float keys; every NaN key is an entry of its own
		out := make(map[float64]any, len(v.E))
		for i := range v.E {
			f, _ := strconv.ParseFloat(v.N[i][2:], 64)
			out[f] = toGo(&v.E[i])
		}
		return out
	case "ms":
		out := make(map[string]string, len(v.E))
		for i := range v.E {
			out[v.N[i]] = v.E[i].S
		}
		return out
	case "st":
		anyT := reflect.TypeOf((*any)(nil)).Elem()
		var fs []reflect.StructField
		var vals []reflect.Value
		for i := range v.E {
			x := toGo(&v.E[i])
			t := anyT
			rv := reflect.Zero(anyT)
			if x != nil {
				rv = reflect.ValueOf(x)
				t = rv.Type()
			}
			n := v.N[i]
			fs = append(fs, reflect.StructField{Name: strings.ToUpper(n[:1]) + n[1:], Type: t})
			vals = append(vals, rv)
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		for i := range vals {
			s.Field(i).Set(vals[i])
		}
		return s.Interface()
	case "lt": // local types of one name
		var e [2]any
		for i := range v.E {
			e[i%2] = toGo(&v.E[i])
		}
		return rows[int(v.I)%len(rows)](e[0], e[1])
	case "lu":
		f := map[string]any{}
		for i := range v.E {
			f[v.N[i]] = toGo(&v.E[i])
		}
		name, _ := f["name"].(string)
		age, _ := f["age"].(int)
		score, _ := f["score"].(float64)
		return users[int(v.I)%len(users)](name, age, f["tags"], f["address"], score)
	case "p":
		x := toGo(&v.E[0])
		if x == nil {
			var p *int
			return p
		}
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		return p.Interface()
	case "np":
		var p *int
		return p
	case "na":
		var a []any
		return a
	case "nm":
		var m map[string]any
		return m
	case "=": // set by alias
		return nil
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "u?":
		return [1]byte{1}
	case "cplx":
		return complex(1, 2)
	}
	panic("unknown value kind " + v.K)
}

// rows make values of different types that are all called main.row.
var rows = []func(a, b any) any{
	func(a, b any) any {
		type row struct{ Id, Title any }
		return row{a, b}
	},
	func(a, b any) any {
		type row struct{ Title, Id any }
		return row{a, b}
	},
	func(a, b any) any {
		type row struct {
			Id     any
			hidden any
			Title  any
			More   int
		}
		return row{a, 1, b, 2}
	},
	func(a, b any) any {
		type row struct{ Id any }
		return []row{{a}, {b}}
	},
	func(a, b any) any {
		type row struct {
			secret int
			Id     any
		}
		return &row{7, a}
	},
	func(a, b any) any {
		type row struct{ Id, Title, Tag, Zed, Extra any }
		return []*row{{a, b, a, b, nil}, {Tag: a}}
	},
	func(a, b any) any {
		type row map[string]any
		return row{"Id": a, "Title": b}
	},
	func(a, b any) any {
		type row []any
		return row{a, b}
	},
}

// users make users of different types of one name.
var users = []func(name string, age int, tags, addr any, score float64) any{
	func(name string, age int, tags, addr any, score float64) any {
		type user struct {
			Name          string
			Age           int
			Tags, Address any
			Score         float64
		}
		return user{name, age, tags, addr, score}
	},
	func(name string, age int, tags, addr any, score float64) any {
		type user struct {
			Age     int64
			secret  string
			Name    string
			Score   float64
			Address any
			note    string
			Tags    any
			Extra   int
		}
		return user{int64(age), "s", name, score, addr, "n", tags, 5}
	},
	func(name string, age int, tags, addr any, score float64) any {
		type user struct {
			Name, Nick    string
			Tags, Address any
			Score         float32
			Age           int32
		}
		return &user{name, "nick " + name, tags, addr, float32(score), int32(age)}
	},
}

// goKey builds a map key from "<type>:<text>".
func goKey(k string) any {
	t, s := k[:1], k[2:]
	switch t {
	case "i":
		n, _ := strconv.Atoi(s)
		return n
	case "8":
		n, _ := strconv.Atoi(s)
		return int8(n)
	case "f":
		f, _ := strconv.ParseFloat(s, 64)
		return f
	case "b":
		return s == "true"
	}
	return s
}

// toData builds a data map (nil when v is nil).
func toData(v *cases.V) map[string]any {
	if v == nil {
		return nil
	}
	m := toGo(v).(map[string]any)
	alias(m, v)
	return m
}

// alias makes entries of kind "=" share the storage of another entry.
func alias(m map[string]any, v *cases.V) {
	for i := range v.E {
		if v.E[i].K == "=" {
			m[v.N[i]] = m[v.E[i].S]
		}
	}
}

// spare is the capacity a slice has beyond its length: an append to a
// caller's slice would write there.
func spare(v *cases.V) int { return len(v.E) % 3 }

// refill makes the caller's own storage old hold the value v, reusing maps
// and slices where the shape allows: a caller changing its data in place.
func refill(old any, v *cases.V) any {
	switch v.K {
	case "m":
		m, ok := old.(map[string]any)
		if !ok || m == nil {
			break
		}
		seen := map[string]bool{}
		for i := range v.E {
			m[v.N[i]] = refill(m[v.N[i]], &v.E[i])
			seen[v.N[i]] = true
		}
		for k := range m {
			if !seen[k] {
				delete(m, k)
			}
		}
		return m
	case "a":
		a, ok := old.([]any)
		if !ok || a == nil || len(a) != len(v.E) {
			break
		}
		for i := range v.E {
			a[i] = refill(a[i], &v.E[i])
		}
		return a
	case "ai":
		a, ok := old.([]int)
		if !ok || a == nil || len(a) != len(v.E) {
			break
		}
		for i := range v.E {
			a[i] = int(v.E[i].I)
		}
		return a
	case "as":
		a, ok := old.([]string)
		if !ok || a == nil || len(a) != len(v.E) {
			break
		}
		for i := range v.E {
			a[i] = v.E[i].S
		}
		return a
	}
	return toGo(v)
}

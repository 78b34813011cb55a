// Command worker runs simulated cases against the instrumented textwire.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/cases"
)

type prop struct {
	gen  func(seed uint64) *cases.Case
	exec func(r *runner, c *cases.Case) Verdict
}

var props = map[string]prop{
	"C08": {cases.Gen08, exec08},
	"C14": {cases.Gen14, exec14},
	"C15": {cases.Gen15, exec15},
	"C17": {cases.Gen17, exec17},
	"C18": {cases.Gen18, exec18},
	"C16": {cases.Gen16, exec16},
	"C20": {cases.Gen20, exec20},
}

func caseSeed(base uint64, id string, i int) uint64 {
	return cases.Mix(base ^ cases.Hash([]byte(id)) ^ cases.Mix(uint64(i)+0x51))
}

// runCase executes one case with a fresh digest.
func (r *runner) runCase(p prop, c *cases.Case) Verdict {
	r.dig = cases.Hash([]byte(c.Prop))
	r.shared = map[int]map[string]any{}
	v := p.exec(r, c)
	v.Digest = r.dig
	r.st.Cases++
	if v.nontrivial {
		r.st.Nontriv++
	}
	return v
}

type line struct {
	T       string      `json:"t"` // viol, done
	I       int         `json:"i"`
	Case    *cases.Case `json:"case,omitempty"`
	V       *Verdict    `json:"v,omitempty"`
	Stats   *Stats      `json:"stats,omitempty"`
	Last    int         `json:"last,omitempty"`
	Known   []string    `json:"known,omitempty"`
	Samples []string    `json:"samples,omitempty"`
	WallMS  int64       `json:"wallms,omitempty"`
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	var (
		id       = flag.String("prop", "", "property")
		seed     = flag.Uint64("seed", 1, "base seed")
		from     = flag.Int("from", 0, "first case")
		step     = flag.Int("step", 1, "case stride")
		to       = flag.Int("to", 0, "end case")
		scratch  = flag.String("scratch", "", "scratch directory (created and removed)")
		points   = flag.String("points", "", "points.json")
		state    = flag.String("state", "", "progress file")
		hashes   = flag.String("hashes", "", "file for distinct-case hashes")
		digests  = flag.String("digests", "", "file for per-case digests")
		deadline = flag.Int("deadline", 0, "stop after this many seconds")
		replay   = flag.String("replay", "", "replay this case file")
		known    = flag.String("known", "", "comma-separated signatures of known findings")
		show     = flag.Bool("show", false, "print the generated case of -from and stop")
	)
	dbg := flag.Bool("debug", false, "print diagnostics")
	all := flag.Bool("all", false, "do not stop at violations; print them briefly")
	raceLog := flag.String("racelog", "", "the race detector's log_path")
	flag.Parse()
	p, ok := props[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if *show {
		c := p.gen(caseSeed(*seed, *id, *from))
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		return
	}
	r := &runner{root: *scratch, cwd: filepath.Join(*scratch, "w")}
	r.debug, r.raceLog = *dbg, *raceLog
	r.st.Fired, r.st.Probes = map[string]int{}, map[string]int{}
	if b, err := os.ReadFile(*points); err == nil {
		json.Unmarshal(b, &r.points)
	}
	if r.root == "" || !strings.HasPrefix(r.root, "/") {
		fmt.Fprintln(os.Stderr, "need an absolute -scratch")
		os.Exit(2)
	}
	if err := os.MkdirAll(r.root, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer func() { os.Chdir("/"); os.RemoveAll(r.root) }()
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	emit := func(l line) {
		b, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	r.warm(*id, p)

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var c cases.Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		v := r.runCase(p, &c)
		emit(line{T: "replay", V: &v, Case: &c})
		return
	}

	var stf *os.File
	if *state != "" {
		var err error
		if stf, err = os.Create(*state); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	knownSet := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			knownSet[k] = true
		}
	}
	seenKnown := map[string]bool{}
	var hs []uint64
	var digs []uint64
	var samples []string
	t0 := time.Now()
	last := *from
	found := false
	for i := *from; i < *to; i += *step {
		if *deadline > 0 && time.Since(t0) > time.Duration(*deadline)*time.Second {
			break
		}
		if stf != nil {
			stf.WriteAt([]byte(fmt.Sprintf("%20d\n", i)), 0)
		}
		c := p.gen(caseSeed(*seed, *id, i))
		v := r.runCase(p, c)
		if v.nontrivial && v.distinct != 0 {
			hs = append(hs, v.distinct)
		}
		hs = append(hs, r.hs...)
		r.hs = r.hs[:0]
		digs = append(digs, v.Digest)
		if len(samples) < 2 && v.nontrivial {
			s := string(c.JSON())
			if len(s) > 3000 {
				s = s[:3000] + "..."
			}
			samples = append(samples, s)
		}
		last = i + *step
		if v.Viol != "" {
			if v.Sig != "" && knownSet[v.Sig] {
				seenKnown[v.Sig] = true
				continue
			}
			if *all {
				fmt.Printf("%d %s: %s\n", i, v.Viol, v.Detail)
				continue
			}
			emit(line{T: "viol", I: i, Case: c, V: &v})
			found = true
			break
		}
		if r.st.Cases%16 == 0 {
			runtime.GC()
		}
	}
	if *hashes != "" {
		b := make([]byte, 0, 8*len(hs))
		for _, h := range hs {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(*hashes, b, 0o644)
	}
	if *digests != "" {
		b := make([]byte, 0, 8*len(digs))
		for _, h := range digs {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(*digests, b, 0o644)
	}
	l := line{T: "done", Stats: &r.st, Last: last, Samples: samples, WallMS: time.Since(t0).Milliseconds()}
	for k := range seenKnown {
		l.Known = append(l.Known, k)
	}
	emit(l)
	_ = found
}

// warm takes the process past every first-use path of the standard library.
func (r *runner) warm(id string, p prop) {
	st := r.st
	r.st = Stats{Fired: map[string]int{}, Probes: map[string]int{}}
	for i := 0; i < 4; i++ {
		c := p.gen(caseSeed(0xabcdef, id, i))
		if id == "C15" { // one task only: nothing may race before the real runs
			var all []cases.Op
			for _, t := range c.Tasks {
				all = append(all, t...)
			}
			c.Tasks = [][]cases.Op{all}
		}
		r.runCase(p, c)
	}
	r.st = st
	runtime.GC()
}

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/cases"
)

// Verdict and stats as the worker prints them.
type verdict struct {
	Viol   string `json:"viol"`
	Detail string `json:"detail"`
	Sig    string `json:"sig"`
	Digest uint64 `json:"digest"`
}

type stats struct {
	Cases    int            `json:"cases"`
	SimRuns  int            `json:"simruns"`
	Ops      int            `json:"ops"`
	Steps    uint64         `json:"steps"`
	SimNanos int64          `json:"simnanos"`
	Switches uint64         `json:"switches"`
	Preempt  int            `json:"preemptions"`
	IterDev  uint64         `json:"iterdev"`
	Spawned  int            `json:"spawned"`
	Fired    map[string]int `json:"fired"`
	Probes   map[string]int `json:"probes"`
	Nontriv  int            `json:"nontrivial"`
}

type line struct {
	T       string      `json:"t"`
	I       int         `json:"i"`
	Case    *cases.Case `json:"case"`
	V       *verdict    `json:"v"`
	Stats   *stats      `json:"stats"`
	Last    int         `json:"last"`
	Known   []string    `json:"known"`
	Samples []string    `json:"samples"`
	WallMS  int64       `json:"wallms"`
}

const nWorkers = 8
const stall = 150 * time.Second

// session is one run of the driver.
type session struct {
	id    string
	c     *conf
	b     *build
	work  string // build output, state files
	shm   string // scratch parent
	seed  uint64
	tier  string
	t0    time.Time
	known []finding
	n     int
	mu    sync.Mutex
}

func newSession(id string, seed uint64, wantRace, wantPlain bool) *session {
	s := &session{id: id, c: confs[id], seed: seed, t0: time.Now()}
	s.work = filepath.Join(verifDir, ".work", fmt.Sprintf("run-%s-%d", id, os.Getpid()))
	if err := os.MkdirAll(s.work, 0o755); err != nil {
		fatal("%v", err)
	}
	s.shm = filepath.Join("/dev/shm", fmt.Sprintf("vs-%08x", os.Getpid()))
	if err := os.MkdirAll(s.shm, 0o755); err != nil {
		s.shm = filepath.Join(os.TempDir(), fmt.Sprintf("vs-%08x", os.Getpid()))
		if err := os.MkdirAll(s.shm, 0o755); err != nil {
			fatal("%v", err)
		}
	}
	var err error
	s.b, err = buildWorkers(filepath.Join(verifDir, "sim"), repoDir, s.work, filepath.Join(verifDir, ".work/gocache"), wantRace, wantPlain)
	if err != nil {
		s.close()
		fatal("the simulator does not build from %s:\n%v", repoDir, err)
	}
	return s
}

func (s *session) close() {
	os.RemoveAll(s.work)
	os.RemoveAll(s.shm)
}

// die ends the run without an answer.
func (s *session) die(f string, a ...any) {
	s.close()
	fatal(f, a...)
}

func (s *session) bin() string {
	if s.c.race {
		return s.b.race
	}
	return s.b.norace
}

// proc is one worker process.
type proc struct {
	cmd    *exec.Cmd
	out    bytes.Buffer
	errb   tail
	state  string
	err    error
	lines  []line
	seen   int // case the process was at
	killed bool
	stuck  bool
	done   *line
	viol   *line
	rep    *line
}

// tail keeps the beginning and the end of a stream.
type tail struct {
	head, end []byte
}

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if room := 4000 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.end = append(t.end, p...)
	if len(t.end) > 4000 {
		t.end = append([]byte{}, t.end[len(t.end)-4000:]...)
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.end) }

func (s *session) name() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return fmt.Sprintf("%04x", s.n)
}

// run starts a worker and waits for it. stop, when closed, ends it.
func (s *session) run(bin string, args []string, extra []string, stop chan struct{}) *proc {
	p := &proc{seen: -1}
	nm := s.name()
	p.state = filepath.Join(s.work, "state-"+nm)
	scratch := filepath.Join(s.shm, "w"+nm)
	full := append([]string{"-prop", s.id, "-scratch", scratch, "-points", filepath.Join(s.work, "points.json"), "-state", p.state}, args...)
	var env []string
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "GO") {
			env = append(env, kv)
		}
	}
	rl := filepath.Join(s.work, "race-"+nm)
	if bin == s.b.race {
		full = append(full, "-racelog", rl)
		env = append(env, "GORACE=log_path="+rl+" exitcode=0 halt_on_error=0 history_size=3 atexit_sleep_ms=0")
	}
	env = append(env, "GOTRACEBACK=single")
	p.cmd = exec.Command(bin, full...)
	for _, kv := range extra {
		// directories for temporary files and the like belong to the process
		env = append(env, strings.ReplaceAll(kv, "@scratch@", scratch))
	}
	p.cmd.Env = env
	p.cmd.Stdout = &p.out
	p.cmd.Stderr = &p.errb
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		p.err = err
		return p
	}
	end := make(chan error, 1)
	go func() { end <- p.cmd.Wait() }()
	lastState, lastChange := "", time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case p.err = <-end:
			break loop
		case <-stop:
			stop = nil
			p.killed = true
			syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		case <-tick.C:
			b, _ := os.ReadFile(p.state)
			if x := string(b); x != lastState {
				lastState, lastChange = x, time.Now()
			} else if time.Since(lastChange) > stall {
				p.stuck = true
				syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	if b, err := os.ReadFile(p.state); err == nil {
		if n, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil {
			p.seen = n
		}
	}
	os.Remove(p.state)
	os.RemoveAll(scratch)
	if m, _ := filepath.Glob(rl + ".*"); len(m) > 0 {
		for _, f := range m {
			os.Remove(f)
		}
	}
	sc := bufio.NewScanner(&p.out)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for sc.Scan() {
		var l line
		if json.Unmarshal(sc.Bytes(), &l) != nil {
			continue
		}
		x := l
		switch l.T {
		case "done":
			p.done = &x
		case "viol":
			p.viol = &x
		case "replay":
			p.rep = &x
		}
	}
	return p
}

// crashed tells that the process died by itself, on case p.seen.
func (p *proc) crashed() bool {
	return !p.killed && !p.stuck && p.done == nil && p.rep == nil
}

type finding struct{ prop, sig, text string }

func loadFindings() (out []finding) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{text: l}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				f.prop = v
			}
			if v, ok := strings.CutPrefix(w, "sig="); ok {
				f.sig = v
			}
		}
		out = append(out, f)
	}
	return out
}

func (s *session) knownArg() string {
	var k []string
	for _, f := range s.known {
		if f.prop == s.id {
			k = append(k, f.sig)
		}
	}
	return strings.Join(k, ",")
}

// batch is one spread of cases over processes.
type batch struct {
	procs   []*proc
	hashes  map[uint64]struct{}
	digests map[int]uint64
	st      stats
	samples []string
	known   map[string]bool
	wall    time.Duration
	cases   int
}

func (st *stats) add(o *stats) {
	st.Cases += o.Cases
	st.SimRuns += o.SimRuns
	st.Ops += o.Ops
	st.Steps += o.Steps
	st.SimNanos += o.SimNanos
	st.Switches += o.Switches
	st.Preempt += o.Preempt
	st.IterDev += o.IterDev
	st.Spawned += o.Spawned
	st.Nontriv += o.Nontriv
	for k, v := range o.Fired {
		st.Fired[k] += v
	}
	for k, v := range o.Probes {
		st.Probes[k] += v
	}
}

func readU64s(path string) []uint64 {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	os.Remove(path)
	out := make([]uint64, 0, len(b)/8)
	for ; len(b) >= 8; b = b[8:] {
		out = append(out, binary.LittleEndian.Uint64(b))
	}
	return out
}

// spread runs cases [0,to) on n processes until one violates the property.
func (s *session) spread(to, n, deadline int, extra []string) *batch {
	t0 := time.Now()
	bt := &batch{hashes: map[uint64]struct{}{}, digests: map[int]uint64{}, known: map[string]bool{}}
	bt.st.Fired, bt.st.Probes = map[string]int{}, map[string]int{}
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	bt.procs = make([]*proc, n)
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			hf, df := filepath.Join(s.work, fmt.Sprintf("hashes-%d", w)), filepath.Join(s.work, fmt.Sprintf("digests-%d", w))
			p := s.run(s.bin(), []string{"-seed", fmt.Sprint(s.seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(n), "-to", fmt.Sprint(to),
				"-deadline", fmt.Sprint(deadline), "-hashes", hf, "-digests", df, "-known", s.knownArg()}, extra, stop)
			bt.procs[w] = p
			if p.viol != nil || p.crashed() || p.stuck {
				once.Do(func() { close(stop) })
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			for _, h := range readU64s(hf) {
				bt.hashes[h] = struct{}{}
			}
			for k, d := range readU64s(df) {
				bt.digests[w+k*n] = d
			}
			if p.done != nil {
				bt.st.add(p.done.Stats)
				bt.samples = append(bt.samples, p.done.Samples...)
				for _, k := range p.done.Known {
					bt.known[k] = true
				}
			}
		}()
	}
	wg.Wait()
	bt.wall = time.Since(t0)
	return bt
}

// failure is a violation on its way to a replay file.
type failure struct {
	Case   *cases.Case
	V      verdict
	Index  int
	Proc   int // worker that met it
	NProcs int
}

// replayFileT is what a replay file holds.
type replayFileT struct {
	Property string      `json:"property"`
	Seed     uint64      `json:"verif_seed"`
	Index    int         `json:"case_index"`
	Viol     string      `json:"violation"`
	Detail   string      `json:"detail"`
	Digest   uint64      `json:"digest,string"`
	Mode     string      `json:"mode"` // case, batch, processes
	From     int         `json:"from,omitempty"`
	Step     int         `json:"step,omitempty"`
	Case     *cases.Case `json:"case,omitempty"`
	Note     string      `json:"note,omitempty"`
}

// replayCase runs one case in a fresh process.
func (s *session) replayCase(c *cases.Case, extra []string) (*cases.Case, verdict) {
	f := filepath.Join(s.work, "case-"+s.name()+".json")
	if err := os.WriteFile(f, c.JSON(), 0o644); err != nil {
		s.die("%v", err)
	}
	defer os.Remove(f)
	p := s.run(s.bin(), []string{"-replay", f}, extra, nil)
	switch {
	case p.rep != nil:
		return p.rep.Case, *p.rep.V
	case p.stuck:
		return c, verdict{Viol: "stuck"}
	default:
		return c, verdict{Viol: "crash", Detail: "the process dies: " + crashText(p)}
	}
}

func crashText(p *proc) string {
	for _, l := range strings.Split(p.errb.String(), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "unexpected fault") {
			return l
		}
	}
	return fmt.Sprintf("%v", p.err)
}

// envA and envB differ in what a process inherits.
var envA = []string{"TZ=UTC", "LANG=C", "LC_ALL=C", "HOME=@scratch@/.home", "TMPDIR=@scratch@/.tmp", "VERIF_X=1"}
var envB = []string{"TZ=Pacific/Chatham", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "USER=somebody", "HOSTNAME=elsewhere", "VERIF_X=a-longer-value-here", "COLUMNS=7", "DEBUG=1", "PWD=/", "TMPDIR=@scratch@/.other"}

func check(id string) int {
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := confs[id]
	s := newSession(id, seed, c.race, !c.race)
	defer s.close()
	s.tier = tier
	s.known = loadFindings()
	fmt.Printf("simctl: %s, tier %s, seed %d; built from %s in %.1fs, %d scheduling points\n", id, tier, seed, repoDir, s.b.elapsed.Seconds(), len(s.b.points))
	to, limit := c.quick, c.quickCap
	if tier == "thorough" {
		to, limit = c.thorough, int(envInt("VERIF_THOROUGH_SECONDS", 1500))
	}
	bt := s.spread(to, nWorkers, limit, envA)
	f := s.pick(bt)
	crossed := 0
	if f == nil && c.cross > 0 {
		f, crossed = s.cross(bt)
	}
	fmt.Printf("simctl: %d cases, %d simulated runs, %d operations, %d steps in %.1fs\n", bt.st.Cases, bt.st.SimRuns, bt.st.Ops, bt.st.Steps, bt.wall.Seconds())
	for _, k := range s.known {
		if k.prop == id && bt.known[k.sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		}
	}
	viols := 0
	path := ""
	if f != nil {
		path = s.report(f)
		viols = 1
	} else if bt.st.Cases == 0 {
		s.die("no case was run")
	}
	s.evidence(bt, viols, crossed)
	if f != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Printf("simctl: %s held on everything explored\n", id)
	return 0
}

// pick finds what went wrong in the batch, if anything did.
func (s *session) pick(bt *batch) *failure {
	var best *failure
	for w, p := range bt.procs {
		if p.viol != nil && (best == nil || p.viol.I < best.Index) {
			best = &failure{Case: p.viol.Case, V: *p.viol.V, Index: p.viol.I, Proc: w, NProcs: len(bt.procs)}
		}
	}
	if best != nil {
		return best
	}
	for w, p := range bt.procs {
		if p.crashed() {
			if p.seen < 0 {
				s.die("worker %d ended before its first case: %v\n%s", w, p.err, p.errb.String())
			}
			if p.done == nil && p.cmd.ProcessState != nil && p.cmd.ProcessState.ExitCode() == 0 {
				s.die("worker %d ended without a result", w)
			}
			c := s.generate(p.seen)
			if c == nil {
				s.die("case %d of seed %d cannot be generated", p.seen, s.seed)
			}
			return &failure{Case: c, V: verdict{Viol: "crash", Detail: "the process dies: " + crashText(p) + "\n" + clip(p.errb.String(), 1500)}, Index: p.seen, Proc: w, NProcs: len(bt.procs)}
		}
	}
	for w, p := range bt.procs {
		if p.stuck {
			s.die("worker %d makes no progress on case %d of seed %d", w, p.seen, s.seed)
		}
		if p.killed {
			s.die("worker %d was ended without a reason", w)
		}
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// generate asks a worker for the case of an index.
func (s *session) generate(i int) *cases.Case {
	cmd := exec.Command(s.bin(), "-prop", s.id, "-seed", fmt.Sprint(s.seed), "-from", fmt.Sprint(i), "-show")
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	var c cases.Case
	if json.Unmarshal(out, &c) != nil {
		return nil
	}
	return &c
}

// cross runs cases again in a process that inherits something else.
func (s *session) cross(bt *batch) (*failure, int) {
	o := s.spread(s.c.cross, nWorkers/2, 300, envB)
	if f := s.pick(o); f != nil {
		return f, 0
	}
	n := 0
	for i := 0; i < s.c.cross; i++ {
		a, ok1 := bt.digests[i]
		b, ok2 := o.digests[i]
		if !ok1 || !ok2 {
			continue
		}
		n++
		if a != b {
			return &failure{Case: s.generate(i), V: verdict{Viol: "differs-by-process", Detail: "the same case gives other results in a process with other environment variables"}, Index: i}, n
		}
	}
	bt.st.Fired["process-environment"] += n
	bt.st.SimRuns += o.st.SimRuns
	bt.st.Steps += o.st.Steps
	bt.st.SimNanos += o.st.SimNanos
	return nil, n
}

// report minimises a failure, proves that its file replays, and writes it.
func (s *session) report(f *failure) string {
	rf := replayFileT{Property: s.id, Seed: s.seed, Index: f.Index, Viol: f.V.Viol, Detail: f.V.Detail, Mode: "case", Case: f.Case}
	fmt.Printf("simctl: case %d violates %s (%s); reproducing\n", f.Index, s.id, f.V.Viol)
	if f.V.Viol == "differs-by-process" {
		_, a := s.replayCase(f.Case, envA)
		_, b := s.replayCase(f.Case, envB)
		_, a2 := s.replayCase(f.Case, envA)
		if a.Digest == b.Digest || a.Digest != a2.Digest {
			s.die("the difference between processes on case %d does not reproduce", f.Index)
		}
		rf.Mode = "processes"
		return s.write(&rf)
	}
	c, v := s.replayCase(f.Case, envA)
	if v.Viol != f.V.Viol {
		// Perhaps it takes what the worker did before.
		from, step := f.Proc, f.NProcs
		ok := 0
		for i := 0; i < 2; i++ {
			p := s.run(s.bin(), []string{"-seed", fmt.Sprint(s.seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step), "-to", fmt.Sprint(f.Index + 1)}, envA, nil)
			if p.viol != nil && p.viol.I == f.Index && p.viol.V.Viol == f.V.Viol || f.V.Viol == "crash" && p.crashed() && p.seen == f.Index {
				ok++
			}
		}
		if ok < 2 {
			s.die("the violation of case %d (%s: %s) does not reproduce in a fresh process (%q)", f.Index, f.V.Viol, f.V.Detail, v.Viol)
		}
		rf.Mode, rf.From, rf.Step = "batch", from, step
		rf.Note = "needs the cases the worker ran before it"
		return s.write(&rf)
	}
	small, sv := s.minimise(c, v)
	_, again := s.replayCase(small, envA)
	if again.Viol != sv.Viol || again.Digest != sv.Digest {
		small, sv = c, v
		_, again = s.replayCase(small, envA)
		if again.Viol != sv.Viol {
			s.die("the violation of case %d does not replay", f.Index)
		}
	}
	rf.Case, rf.Viol, rf.Detail, rf.Digest = small, sv.Viol, sv.Detail, sv.Digest
	if rf.Viol == "crash" {
		rf.Detail = f.V.Detail
	}
	return s.write(&rf)
}

func (s *session) write(rf *replayFileT) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", s.id, rf.Seed, rf.Index))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		s.die("%v", err)
	}
	fmt.Printf("simctl: %s\n", strings.ReplaceAll(clip(rf.Viol+": "+rf.Detail, 3000), "\n", "\n  "))
	return path
}

// minimise shrinks a case while the same violation persists.
func (s *session) minimise(c *cases.Case, v verdict) (*cases.Case, verdict) {
	t0 := time.Now()
	limit := 100 * time.Second
	if s.tier == "thorough" {
		limit = 300 * time.Second
	}
	random := c.Env // for C15: schedules to try when the recorded one no longer fits
	tries, taken := 0, 0
	size0 := len(c.JSON())
	type res struct {
		c *cases.Case
		v verdict
	}
	// try runs candidates eight at a time; the first that still fails wins.
	try := func(cs []*cases.Case) (int, *res) {
		for lo := 0; lo < len(cs); lo += nWorkers {
			if time.Since(t0) > limit {
				return -1, nil
			}
			hi := min(lo+nWorkers, len(cs))
			out := make([]*res, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					d, w := s.replayCase(cs[i], envA)
					if w.Viol == v.Viol && d != nil {
						out[i-lo] = &res{d, w}
					}
				}()
			}
			wg.Wait()
			tries += hi - lo
			for k, r := range out {
				if r != nil {
					return lo + k, r
				}
			}
		}
		return -1, nil
	}
	_ = random
	for round := 0; round < 4; round++ {
		progress := false
		for _, p := range cases.Passes(c) {
			skip := 0
			for time.Since(t0) < limit {
				cs := p.F(c)
				if skip >= len(cs) {
					break
				}
				k, r := try(cs[skip:])
				if r == nil {
					break
				}
				if len(r.c.JSON()) > len(c.JSON()) && r.c.Env.Policy != 3 {
					skip += k + 1
					continue
				}
				c, v = r.c, r.v
				skip += k
				taken++
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	fmt.Printf("simctl: minimised from %d to %d bytes in %d steps, %d replays, %.0fs\n", size0, len(c.JSON()), taken, tries, time.Since(t0).Seconds())
	return c, v
}

// replayFile replays a file of an earlier violation against the working tree.
func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFileT
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	cf := confs[rf.Property]
	if cf == nil {
		fatal("unknown property %q", rf.Property)
	}
	s := newSession(rf.Property, rf.Seed, cf.race, !cf.race)
	defer s.close()
	var v verdict
	switch rf.Mode {
	case "processes":
		_, x := s.replayCase(rf.Case, envA)
		_, y := s.replayCase(rf.Case, envB)
		if x.Digest != y.Digest {
			v = verdict{Viol: rf.Viol, Detail: rf.Detail}
		}
	case "batch":
		p := s.run(s.bin(), []string{"-seed", fmt.Sprint(rf.Seed), "-from", fmt.Sprint(rf.From), "-step", fmt.Sprint(rf.Step), "-to", fmt.Sprint(rf.Index + 1)}, envA, nil)
		if p.viol != nil {
			v = *p.viol.V
		} else if p.crashed() {
			v = verdict{Viol: "crash", Detail: crashText(p)}
		}
	default:
		_, v = s.replayCase(rf.Case, envA)
	}
	if v.Viol == "" {
		fmt.Println("simctl: the replay does not violate the property")
		return 0
	}
	fmt.Printf("simctl: %s: %s\n", v.Viol, v.Detail)
	if rf.Digest != 0 && rf.Mode == "case" {
		fmt.Printf("simctl: digest %d, recorded %d: identical=%v\n", v.Digest, rf.Digest, v.Digest == rf.Digest)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func (s *session) evidence(bt *batch, viols, crossed int) {
	wall := time.Since(s.t0).Seconds()
	search := bt.wall.Seconds()
	perHour := func(n float64) float64 {
		if search <= 0 {
			return 0
		}
		return float64(int(n / search * 3600))
	}
	evals, distinct := bt.st.Cases, len(bt.hashes)
	if s.id == "C08" {
		evals = bt.st.Ops
	}
	sort.Slice(bt.samples, func(i, j int) bool { return len(bt.samples[i]) < len(bt.samples[j]) })
	samples := bt.samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	ss := []any{}
	for _, x := range samples {
		ss = append(ss, x)
	}
	var seedsNote = fmt.Sprintf("seeds mix(VERIF_SEED=%d, property, i) for i in [0,%d)", s.seed, bt.st.Cases)
	cov := map[string]any{
		"evaluations":                     evals,
		"distinct_nontrivial":             distinct,
		"rule":                            s.c.rule + " Distinct: " + s.c.measure + ".",
		"samples":                         ss,
		"seeds":                           seedsNote,
		"cases":                           bt.st.Cases,
		"nontrivial_cases":                bt.st.Nontriv,
		"simulated_runs":                  bt.st.SimRuns,
		"operations":                      bt.st.Ops,
		"simulated_runs_per_hour":         perHour(float64(bt.st.SimRuns)),
		"seeds_per_hour":                  perHour(float64(bt.st.Cases)),
		"scheduler_steps":                 bt.st.Steps,
		"simulated_seconds":               float64(bt.st.SimNanos) / 1e9,
		"task_switches":                   bt.st.Switches,
		"preemptions_inside_operations":   bt.st.Preempt,
		"map_iterations_reordered":        bt.st.IterDev,
		"goroutines_spawned_by_textwire":  bt.st.Spawned,
		"faults_fired":                    bt.st.Fired,
		"fault_model":                     s.c.faults,
		"probes":                          bt.st.Probes,
		"distinct_measure":                s.c.measure,
		"distinct_interleavings_or_state": distinct,
		"components_real":                 s.c.real,
		"components_stub":                 s.c.stub,
		"scheduling_points":               len(s.b.points),
		"worker_processes":                nWorkers,
		"build_s":                         s.b.elapsed.Seconds(),
		"search_s":                        search,
	}
	if s.c.cross > 0 {
		cov["cases_compared_across_processes"] = crossed
	}
	ev := map[string]any{
		"property": s.id, "tier": s.tier, "seed": s.seed, "level": "exploration",
		"coverage": cov, "assumptions": append(append([]string{}, assumeAll...), s.c.assume...),
		"wall_s": wall, "violations": viols,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		s.die("%v", err)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, s.id+".json"), append(b, '\n'), 0o644); err != nil {
		s.die("%v", err)
	}
}

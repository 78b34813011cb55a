package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// stdPatch is one textual replacement in a standard-library file. Every
// anchor must occur exactly n times, otherwise the build of the simulator
// stops: a silently missing seam would make runs unrepeatable.
type stdPatch struct {
	file, old, new string
	n              int
}

var stdPatches = []stdPatch{
	{"runtime/proc.go", "func ready(gp *g, traceskip int, next bool) {\n",
		"func ready(gp *g, traceskip int, next bool) {\n\tif simOn && simOnReady(gp) {\n\t\treturn\n\t}\n\tready0(gp, traceskip, next)\n}\n\nfunc ready0(gp *g, traceskip int, next bool) {\n", 1},
	{"runtime/proc.go", "			execute(gp, true) // Schedule it back, never returns.\n		}\n	}\n	schedule()\n}\n\nfunc goschedImpl",
		"			execute(gp, true) // Schedule it back, never returns.\n		}\n	}\n	if simOn && gp == simCurG {\n		simOnPark(gp)\n	}\n	schedule()\n}\n\nfunc goschedImpl", 1},
	{"runtime/proc.go", "func goexit1() {\n", "func goexit1() {\n\tif simOn && getg() == simCurG {\n\t\tsimOnExit()\n\t}\n", 1},
	{"runtime/proc.go", "		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n",
		"		if simOn && gp == simCurG {\n			simOnNew(newproc1(fn, gp, pc, true, waitReasonCoroutine), true)\n			return\n		}\n		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n", 1},
	{"runtime/proc.go", "func Gosched() {\n", "func Gosched() {\n\tif simInTask() {\n\t\tsimYield()\n\t\treturn\n\t}\n\tgosched0()\n}\n\nfunc gosched0() {\n", 1},
	{"runtime/proc.go", "			// Scheduling of this goroutine is disabled.\n			Gosched()\n", "			// Scheduling of this goroutine is disabled.\n			gosched0()\n", 1},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simInTask() {\n\t\treturn simRand()\n\t}\n", 1},
	{"runtime/select.go", "cheaprandn(uint32(norder + 1))", "simSelect(uint32(norder + 1))", 1},
	{"runtime/rand.go", "	return uint32(rand())\n}\n\n// rand returns a random uint64 from the per-m", "	return simHash0()\n}\n\n// rand returns a random uint64 from the per-m", 1},
	{"runtime/rand.go", "	if startupRand != nil {\n", "	if true { // simulation: fixed start-up seed\n\t\tstartupRand = nil\n\t} else if startupRand != nil {\n", 1},
	{"runtime/rand.go", "	globalRand.state.Reseed()\n", "", 1},
	{"runtime/map.go", "uint32(rand())\n", "simHash0()\n", 4},
	{"runtime/map.go", "	r := uintptr(rand())\n	it.startBucket", "	r := simIterStart(h)\n	it.startBucket", 1},
	{"runtime/map.go", "	r := int(rand())\n", "	r := int(simIterStart(h))\n", 2},
	{"runtime/map_fast32.go", "uint32(rand())\n", "simHash0()\n", 1},
	{"runtime/map_fast64.go", "uint32(rand())\n", "simHash0()\n", 1},
	{"runtime/map_faststr.go", "uint32(rand())\n", "simHash0()\n", 1},
	{"runtime/sema.go", "func sync_nanotime() int64 {\n", "func sync_nanotime() int64 {\n\tif simInTask() {\n\t\treturn simClock()\n\t}\n", 1},
	{"runtime/time.go", "	if ns <= 0 {\n		return\n	}\n\n	gp := getg()\n	t := gp.timer\n",
		"	if ns <= 0 {\n		return\n	}\n\tif simInTask() {\n\t\tsimSleep(ns)\n\t\treturn\n\t}\n\n	gp := getg()\n	t := gp.timer\n", 1},
	{"time/time.go", "func Now() Time {\n", "func Now() Time {\n\tif ns, ok := simNowHook(); ok {\n\t\treturn Unix(0, ns)\n\t}\n", 1},
	{"runtime/time.go", "	t := new(timeTimer)\n	t.timer.init(nil, nil)\n", "	if simInTask() {\n\t\treturn simNewTimer(when, period, f, arg, c)\n\t}\n	t := new(timeTimer)\n	t.timer.init(nil, nil)\n", 1},
	{"runtime/time.go", "	return t.stop()\n", "	if simInTask() {\n\t\tif e := simFindTimer(t); e != nil {\n\t\t\treturn e.stop()\n\t\t}\n\t}\n	return t.stop()\n", 1},
	{"runtime/time.go", "	return t.reset(when, period)\n", "	if simInTask() {\n\t\tif e := simFindTimer(t); e != nil {\n\t\t\treturn e.reset(when, period)\n\t\t}\n\t}\n	return t.reset(when, period)\n", 1},
	{"runtime/debug.go", "func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif simInTask() {\n\t\told := simCfg.Procs\n\t\tif n > 0 {\n\t\t\tsimCfg.Procs = n\n\t\t}\n\t\treturn old\n\t}\n", 1},
	{"runtime/debug.go", "	return int(ncpu)\n", "	if simInTask() {\n\t\treturn simCfg.Procs\n\t}\n	return int(ncpu)\n", 1},
	{"syscall/zsyscall_linux_amd64.go", "func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif p := simPid(); p != 0 {\n\t\treturn p\n\t}\n", 1},
	{"internal/syscall/unix/getrandom.go", "	if getrandomUnsupported.Load() {\n", "	if runtime.SimFill(p) {\n\t\treturn len(p), nil\n\t}\n	if getrandomUnsupported.Load() {\n", 1},
	{"internal/syscall/unix/getrandom.go", "import (\n", "import (\n	\"runtime\"\n", 1},
	{"time/sleep.go", "runtimeNano()", "simNano()", 3},
	{"fmt/print.go", "	p := ppFree.Get().(*pp)\n", "	p := new(pp) // simulation: no hidden synchronisation through the printer pool\n", 1},
	{"os/dir_unix.go", "func (f *File) readdir(n int,", "func (f *File) readdir0(n int,", 1},
	{"syscall/syscall_linux.go", "	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n",
		"	return simOpen(path, func() (int, error) { return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm) })\n", 1},
	{"syscall/syscall_linux.go", "	return openat(dirfd, path, flags|O_LARGEFILE, mode)\n",
		"	return simOpen(path, func() (int, error) { return openat(dirfd, path, flags|O_LARGEFILE, mode) })\n", 1},
	{"syscall/syscall_linux.go", "	return Getdents(fd, buf)\n",
		"	if _, e := simFd(runtime.SimSysDirent, fd, len(buf)); e != nil {\n\t\treturn -1, e\n\t}\n\treturn Getdents(fd, buf)\n", 1},
	{"syscall/syscall_linux_amd64.go", "	return fstatat(_AT_FDCWD, path, stat, 0)\n",
		"	if e := simStat(path); e != nil {\n\t\treturn e\n\t}\n\treturn fstatat(_AT_FDCWD, path, stat, 0)\n", 1},
	{"syscall/syscall_linux_amd64.go", "	return fstatat(_AT_FDCWD, path, stat, _AT_SYMLINK_NOFOLLOW)\n",
		"	if e := simStat(path); e != nil {\n\t\treturn e\n\t}\n\treturn fstatat(_AT_FDCWD, path, stat, _AT_SYMLINK_NOFOLLOW)\n", 1},
	{"syscall/syscall_unix.go", "	n, err = read(fd, p)\n",
		"	lim, e0 := simFd(runtime.SimSysRead, fd, len(p))\n\tif e0 != nil {\n\t\treturn -1, e0\n\t}\n\tn, err = read(fd, p[:lim])\n", 1},
	{"syscall/syscall_unix.go", "	n, err = pread(fd, p, offset)\n",
		"	lim, e0 := simFd(runtime.SimSysRead, fd, len(p))\n\tif e0 != nil {\n\t\treturn -1, e0\n\t}\n\tn, err = pread(fd, p[:lim], offset)\n", 1},
	{"syscall/zsyscall_linux_amd64.go", "func Fstat(fd int, stat *Stat_t) (err error) {\n",
		"func Fstat(fd int, stat *Stat_t) (err error) {\n\tif _, e := simFd(4, fd, 0); e != nil {\n\t\treturn e\n\t}\n", 1},
}

var stdAdded = map[string]string{
	"runtime/zz_sim.go": "runtime_zz_sim.go.txt",
	"syscall/zz_sim.go": "syscall_zz_sim.go.txt",
	"os/zz_sim.go":      "os_zz_sim.go.txt",
	"time/zz_sim.go":    "time_zz_sim.go.txt",
}

// writeStdOverlay writes patched copies below dir and adds them to repl.
func writeStdOverlay(goroot, rtDir, dir string, repl map[string]string) error {
	byFile := map[string]string{}
	for _, p := range stdPatches {
		full := filepath.Join(goroot, "src", p.file)
		src, ok := byFile[p.file]
		if !ok {
			b, err := os.ReadFile(full)
			if err != nil {
				return err
			}
			src = string(b)
		}
		if c := strings.Count(src, p.old); c != p.n {
			return fmt.Errorf("simulator seam in %s: anchor found %d times, want %d: %q", p.file, c, p.n, p.old)
		}
		byFile[p.file] = strings.ReplaceAll(src, p.old, p.new)
	}
	put := func(rel, src string) error {
		out := filepath.Join(dir, "std", rel)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		repl[filepath.Join(goroot, "src", rel)] = out
		return os.WriteFile(out, []byte(src), 0o644)
	}
	// syscall_unix.go has to see package runtime
	if s, ok := byFile["syscall/syscall_unix.go"]; ok && !strings.Contains(s, "\t\"runtime\"\n") {
		byFile["syscall/syscall_unix.go"] = strings.Replace(s, "import (\n", "import (\n\t\"runtime\"\n", 1)
	}
	for rel, src := range byFile {
		if err := put(rel, src); err != nil {
			return err
		}
	}
	for rel, name := range stdAdded {
		b, err := os.ReadFile(filepath.Join(rtDir, name))
		if err != nil {
			return err
		}
		if err := put(rel, string(b)); err != nil {
			return err
		}
	}
	return nil
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

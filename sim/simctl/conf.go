package main

// conf is how one property is checked.
type conf struct {
	race     bool // needs the race-detector build
	quick    int  // cases of the quick tier
	quickCap int  // seconds after which the quick tier stops all the same
	thorough int
	cross    int    // C14: cases also run in a differing process environment
	measure  string // what a distinct interleaving or state is
	rule     string
	real     []string
	stub     []string
	faults   string
	assume   []string
}

var realAll = []string{
	"every package of the textwire module, compiled from the working tree with scheduling points inserted by a build overlay",
	"the Go standard library and the Go runtime (memory allocator, maps, channels, locks) apart from the seams named as stubs",
	"the file system (tmpfs scratch directory per simulated world)",
}

var stubAll = []string{
	"goroutine scheduler: one runnable task at a time, chosen by the seeded scheduler",
	"clock (time.Now, timers): simulated, advances with the steps and by injected jumps",
	"map iteration order, map hash seeds, runtime random numbers: seeded",
	"directory listing order, file creation order and modification times: seeded",
}

var assumeAll = []string{
	"scheduling points stand before every statement, loop head and operand-free return of textwire; a standard-library call is one atomic step between them",
	"the package-level variables of textwire are reset between simulated processes by re-running their initialisers",
	"a clean batch of seeds is evidence, not proof: the space is sampled",
}

var confs = map[string]*conf{
	"C08": {quick: 10000, quickCap: 130, thorough: 100000000,
		measure: "distinct input byte strings",
		rule:    "A case is a family of inputs made from one seed: every prefix of a generated valid template (a write torn at each byte), each @end lost, every single token deleted, repeated or swapped, storage damage (zeroed, repeated, lost, swapped sectors, bit flips, torn overwrites, stray bytes), illegal characters in code, one to 65538 repetitions of a fault, faults after or in very long text, lexeme and byte soups, very deep nesting. An input is non-trivial unless it was run before (distinct by content hash).",
		real:    realAll,
		stub:    append([]string{"watchdog: a deterministic step budget per call, about 2000 steps per input byte"}, stubAll[2:]...),
		faults:  "truncation at every byte, lost @end, token loss, repetition and exchange, sector damage, bit flips, torn overwrites, stray bytes, illegal characters"},
	"C14": {quick: 32000, quickCap: 130, thorough: 100000000, cross: 160,
		measure: "distinct digests of everything observed over all operations of a case",
		rule:    "A case is a world (files, custom functions, configuration) and operations; it runs in a base environment, twice in that process, and again under several environments that differ in map iteration order, map hash seeds, random seed, clock base and step, time zone, environment variables, program arguments, directory order, file creation order and mtimes; part of the cases run again in a second operating-system process with other environment variables. Non-trivial: at least one map iteration deviated from the base order and the operations rendered or failed in at least one way.",
		real:    realAll, stub: stubAll,
		faults: "none that break the system; every source of nondeterminism is varied"},
	"C15": {race: true, quick: 20000, quickCap: 200, thorough: 100000000,
		measure: "distinct schedules: hash of the sequence of task switches with their positions",
		rule:    "A case is a loaded world and 2 to 5 simulated goroutines with 1 to 5 calls each; a seeded scheduler (uniform at all points, hot points only, or priorities with change points) decides at every statement of textwire who runs. Each result is compared with the same call alone in a fresh simulated process, results are re-read after the run, and the race detector judges the run with no synchronisation but textwire's own. Non-trivial: more switches than goroutines and all calls completed.",
		real:    realAll, stub: stubAll,
		faults: "failing and short writes of the response, preemption at arbitrary statements"},
	"C16": {quick: 36000, quickCap: 130, thorough: 100000000,
		measure: "distinct digests of the outcomes of a history",
		rule:    "A case is one history of calls on one Template in one simulated process, with failing pages, failing and panicking callbacks, dropped connections, rewritten files, clock jumps and reused data maps between them; every call's result is compared with the same call issued first in a fresh simulated process. Non-trivial: at least four results of at least three kinds.",
		real:    realAll, stub: stubAll,
		faults: "failing renders, panicking callbacks, short and failing and panicking response writers, clock jumps, file rewrites"},
	"C17": {quick: 85000, quickCap: 130, thorough: 100000000,
		measure: "distinct digests of the outcomes of a history",
		rule:    "A case is a history of Response calls (with reloads, reconfigurations and evaluations between them) over pages that fail in one of some forty ways after some output was produced, with custom error pages that work, fail, fail to be found or recurse, in and out of debug mode, against a response writer that may accept only part of the body. The body is judged against what String returns for the same page and error page and against the built-in page of a fresh process. Non-trivial: some response failed and more than two were made.",
		real:    realAll, stub: append([]string{"http.ResponseWriter: records the body, fails, stops short or panics after N bytes"}, stubAll...),
		faults: "failing evaluation at random places, failing error pages, short, failing and panicking response writers, reconfiguration and reload between calls"},
	"C18": {quick: 85000, quickCap: 130, thorough: 100000000,
		measure: "distinct digests of the outcomes of a history",
		rule:    "A case is one or two template trees (names, depths, extensions, spellings of the directory, links, near-miss files) and a history of loads and file evaluations, most of them with one injected disk fault on one file, followed by a load without it. Results are judged against a reference model of which file must be available under which name with which content, and which must be named by the error. Non-trivial: more than one kind of outcome or more than one load.",
		real:    realAll, stub: append([]string{"system calls open, read, lstat, fstat, getdents: pass through to tmpfs unless the simulator makes them fail, stop short or be interrupted"}, stubAll...),
		faults: "EIO, EACCES, EMFILE, ENOENT, EINTR, short reads, failing lstat/fstat/getdents, vanishing files, dangling and looping links, directories in place of files, truncated, zeroed and garbage content"},
	"C20": {quick: 170000, quickCap: 130, thorough: 100000000,
		measure: "distinct digests of the outcomes of a history",
		rule:    "A case is a history of registrations (five types, few names so that they collide), loads, failed loads and renders, restarts and calls in one of the evaluation contexts through one of the four entry points; a reference registry decides which call reaches which callback with which receiver and arguments, and the result is compared with the same value passed as data. Non-trivial: at least three kinds of event.",
		real:    realAll, stub: stubAll,
		faults: "process restarts, failed loads and renders, failing response writers, panicking callbacks, callbacks that mutate what they are given, callbacks that evaluate templates themselves, clock jumps"},
}

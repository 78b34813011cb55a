// Command simctl builds the simulator from a working tree of textwire and
// drives it: it spreads cases over worker processes, minimises what violates
// a property, replays it and writes the evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

// verifDir is where this machinery lives; repoDir is the code under test.
var verifDir, repoDir = "/verif", "/repo"

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+f+"\n", a...)
	os.Exit(2)
}

func envInt(name string, def uint64) uint64 {
	s := os.Getenv(name)
	if s == "" {
		return def
	}
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(n)
	}
	fatal("%s=%q is not a number", name, s)
	return 0
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("REPO"); d != "" {
		repoDir = d
	}
	if len(os.Args) < 2 {
		fatal("usage: simctl check ID | replay FILE | build DIR | selftest [ID...]")
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 3 || confs[os.Args[2]] == nil {
			fatal("check: unknown property")
		}
		os.Exit(check(os.Args[2]))
	case "replay":
		if len(os.Args) != 3 {
			fatal("replay: need a file")
		}
		os.Exit(replayFile(os.Args[2]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "build": // for development
		if len(os.Args) > 3 {
			repoDir = os.Args[3]
		}
		dir, err := filepath.Abs(os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		os.MkdirAll(dir, 0o755)
		b, err := buildWorkers(filepath.Join(verifDir, "sim"), repoDir, dir, filepath.Join(verifDir, ".work/gocache"), os.Getenv("NORACE") == "", true)
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(len(b.points), b.pkgs, b.elapsed)
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	return b
}

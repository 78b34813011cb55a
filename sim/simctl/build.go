package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type build struct {
	dir     string // scratch directory of this build
	repo    string
	gobin   string
	points  []Point
	pkgs    []string
	norace  string
	race    string
	elapsed time.Duration
}

func goEnv(cache string) []string {
	var env []string
	drop := map[string]bool{"GOFLAGS": true, "GOCACHE": true, "GOPROXY": true, "GOSUMDB": true, "GOTOOLCHAIN": true, "GOWORK": true, "GOENV": true, "CGO_ENABLED": true, "GORACE": true, "GODEBUG": true, "GOROOT": true}
	for _, kv := range os.Environ() {
		if i := strings.IndexByte(kv, '='); i > 0 && !drop[kv[:i]] {
			env = append(env, kv)
		}
	}
	return append(env, "GOFLAGS=-mod=mod", "GOCACHE="+cache, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local",
		"GOWORK=off", "GOENV=off", "GOROOT="+goroot)
}

// buildWorkers instruments repo's working tree and builds the simulator
// binaries from it.
func buildWorkers(simDir, repo, dir, cache string, wantRace, wantPlain bool) (*build, error) {
	t0 := time.Now()
	b := &build{dir: dir, repo: repo, gobin: filepath.Join(goroot, "bin", "go")}
	env := goEnv(cache)
	repl := map[string]string{}
	if err := writeStdOverlay(goroot, filepath.Join(simDir, "rt"), dir, repl); err != nil {
		return nil, err
	}
	var err error
	b.points, b.pkgs, err = instrument(b.gobin, repo, dir, env, repl)
	if err != nil {
		return nil, err
	}
	if err := writeJSON(filepath.Join(dir, "points.json"), b.points); err != nil {
		return nil, err
	}
	ov := filepath.Join(dir, "overlay.json")
	if err := writeJSON(ov, map[string]any{"Replace": repl}); err != nil {
		return nil, err
	}
	// A private go.mod: the requirement on textwire is replaced by repo.
	mod := filepath.Join(dir, "go.mod")
	modText := fmt.Sprintf("module verifsim\n\ngo 1.23\n\nrequire %s v2.0.0\n\nreplace %s => %s\n", modPath, modPath, repo)
	if err := os.WriteFile(mod, []byte(modText), 0o644); err != nil {
		return nil, err
	}
	type job struct {
		race bool
		out  string
	}
	var jobs []job
	if wantPlain {
		b.norace = filepath.Join(dir, "worker")
		jobs = append(jobs, job{false, b.norace})
	}
	if wantRace {
		b.race = filepath.Join(dir, "worker-race")
		jobs = append(jobs, job{true, b.race})
	}
	errs := make(chan error, len(jobs))
	for _, j := range jobs {
		go func() {
			args := []string{"build", "-overlay", ov, "-modfile", mod, "-o", j.out}
			e := append([]string{}, env...)
			if j.race {
				args = append(args, "-race")
				e = append(e, "CGO_ENABLED=1")
			} else {
				e = append(e, "CGO_ENABLED=0")
			}
			args = append(args, "./worker")
			cmd := exec.Command(b.gobin, args...)
			cmd.Dir = simDir
			cmd.Env = e
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Run(); err != nil {
				errs <- fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out.String())
				return
			}
			errs <- nil
		}()
	}
	for range jobs {
		if e := <-errs; e != nil && err == nil {
			err = e
		}
	}
	b.elapsed = time.Since(t0)
	return b, err
}

// goroot is the toolchain the seams are written for.
var goroot = "/opt/veriftools/go1.23.12"

package main

import (
	"fmt"
	"time"
)

// selftest runs the same seeds in several processes, under different worker
// counts and process environments, and compares every case's digest.
func selftest(ids []string) int {
	if len(ids) == 0 {
		for id := range confs {
			ids = append(ids, id)
		}
	}
	bad := 0
	for _, id := range ids {
		if confs[id] == nil {
			fatal("unknown property %q", id)
		}
		c := confs[id]
		s := newSession(id, envInt("VERIF_SEED", 1), c.race, !c.race)
		n := int(envInt("SELFTEST_CASES", 200))
		t0 := time.Now()
		a := s.spread(n, 8, 0, envA)
		procs := 8
		for _, m := range []int{3, 5, 1, 7} {
			env := envA
			if m%2 == 1 && m > 3 {
				env = envB
			}
			b := s.spread(n, m, 0, env)
			procs += m
			for i := 0; i < n; i++ {
				x, ok1 := a.digests[i]
				y, ok2 := b.digests[i]
				if !ok1 || !ok2 || x != y {
					fmt.Printf("selftest %s: case %d differs between runs (%v %v %x %x)\n", id, i, ok1, ok2, x, y)
					bad++
				}
			}
		}
		fmt.Printf("selftest %s: %d cases, 5 runs, %d processes, worker counts 8 3 5 1 7: compared in %.0fs\n", id, n, procs, time.Since(t0).Seconds())
		s.close()
	}
	if bad > 0 {
		return 1
	}
	return 0
}

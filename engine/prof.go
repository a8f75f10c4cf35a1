package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// forkProf (debugging): where branches fork and solver time goes.
type forkProfile struct {
	mu sync.Mutex
	m  map[string]*[3]int64
}

var forkProf *forkProfile

func init() {
	if os.Getenv("GOSYM_FORKS") != "" {
		forkProf = &forkProfile{m: map[string]*[3]int64{}}
	}
}

func (f *forkProfile) add(p *Path, r Res, d time.Duration) {
	st := strings.Split(p.stackTrace(), "\n")
	if len(st) > 5 {
		st = st[:5]
	}
	k := strings.Join(st, " < ")
	f.mu.Lock()
	x := f.m[k]
	if x == nil {
		x = &[3]int64{}
		f.m[k] = x
	}
	x[0]++
	if r == Sat {
		x[1]++
	}
	x[2] += int64(d)
	f.mu.Unlock()
}

func (f *forkProfile) dump() {
	ks := sortedKeys(f.m)
	sort.Slice(ks, func(i, j int) bool { return f.m[ks[i]][2] > f.m[ks[j]][2] })
	for i, k := range ks {
		if i > 25 {
			break
		}
		x := f.m[k]
		fmt.Fprintf(os.Stderr, "queries %d sat %d time %.2fs  %s\n", x[0], x[1], float64(x[2])/1e9, k)
	}
}

package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// With ZZFUNCS set, the steps spent in and below each interpreted function are counted.
var (
	funcProf map[string]*[2]int64
	funcMu   sync.Mutex
)

func init() {
	if os.Getenv("ZZFUNCS") != "" {
		funcProf = map[string]*[2]int64{}
	}
}

func countFunc(f *Frame, n int64) {
	funcMu.Lock()
	defer funcMu.Unlock()
	seen := map[string]bool{}
	for g := f; g != nil; g = g.caller {
		name := g.code.fn.String()
		if seen[name] {
			continue
		}
		seen[name] = true
		e := funcProf[name]
		if e == nil {
			e = &[2]int64{}
			funcProf[name] = e
		}
		e[1] += n
		if g == f {
			e[0] += n
		}
	}
}

func printFuncs() {
	if funcProf == nil {
		return
	}
	var names []string
	for n := range funcProf {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return funcProf[names[i]][1] > funcProf[names[j]][1] })
	for i, n := range names {
		if i < 70 {
			fmt.Printf("%12d %12d %s\n", funcProf[n][1], funcProf[n][0], n)
		}
	}
}

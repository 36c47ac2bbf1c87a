// Package sym is the interface between harnesses and the symbolic engine. Under the
// engine every function here is intercepted; compiled natively, it replays the
// concrete inputs of one path (file named by ZZREPLAY) and records what it observes.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Str  []byte `json:"str"`
}

type logEntry struct {
	K string `json:"k"`
	V []byte `json:"v"`
}

var (
	mu     sync.Mutex
	ins    map[string]input
	seq    = map[string]int{}
	params = map[string]int{}
	out    = []logEntry{}
	atExit []func()
)

func load() {
	if ins != nil {
		return
	}
	ins = map[string]input{}
	data, err := os.ReadFile(os.Getenv("ZZREPLAY"))
	if err != nil {
		fmt.Println("ZZ: no replay file:", err)
		os.Exit(4)
	}
	var f struct {
		Inputs []input        `json:"inputs"`
		Params map[string]int `json:"params"`
	}
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Println("ZZ: bad replay file:", err)
		os.Exit(4)
	}
	for _, i := range f.Inputs {
		ins[i.Name] = i
	}
	params = f.Params
}

func uniq(name string) string {
	n := seq[name]
	seq[name] = n + 1
	if n == 0 {
		return name
	}
	return name + "#" + strconv.Itoa(n)
}

func get(name string) (input, bool) {
	mu.Lock()
	defer mu.Unlock()
	load()
	i, ok := ins[uniq(name)]
	return i, ok
}

// Symbolic reports whether the engine is executing the program.
func Symbolic() bool { return false }

// Bool returns a fresh symbolic boolean (not forked until used).
func Bool(name string) bool { i, _ := get(name); return i.Val != 0 }

// Flag is Bool decided at once: both values are explored.
func Flag(name string) bool { return Choice(name, 2) == 1 }

// Byte returns a fresh symbolic byte.
func Byte(name string) byte { i, _ := get(name); return byte(i.Val) }

// Int returns a fresh symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	i, ok := get(name)
	if !ok {
		return lo
	}
	return int(i.Val)
}

// Choice forks over 0..n-1.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	i, _ := get(name)
	return int(i.Val)
}

// StrN returns a string of n symbolic bytes drawn from alphabet ("" = every byte).
func StrN(name string, n int, alphabet string) string {
	i, ok := get(name)
	if !ok {
		b := make([]byte, n)
		for k := range b {
			if alphabet != "" {
				b[k] = alphabet[0]
			}
		}
		return string(b)
	}
	return string(i.Str)
}

// Str forks over the lengths 0..max and returns a string of symbolic bytes.
func Str(name string, max int, alphabet string) string {
	n := Choice(name+".len", max+1)
	return StrN(name, n, alphabet)
}

// Str1 is Str with at least one byte.
func Str1(name string, max int, alphabet string) string {
	n := Choice(name+".len", max) + 1
	return StrN(name, n, alphabet)
}

// ConcStr forks over every value of s.
func ConcStr(s string) string { return s }

// ConcInt forks over every value of n.
func ConcInt(n int) int { return n }

// Param returns a bound of the harness.
func Param(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	load()
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

func Assume(c bool) {
	if !c {
		finish(5, "ASSUME")
	}
}

func Assert(c bool, msg string) {
	if !c {
		finish(3, "ASSERT-FAIL: "+msg)
	}
}

// AssertKnown is Assert for a recorded finding: a failure carries the finding's id.
func AssertKnown(c bool, msg, id string) {
	if !c {
		finish(3, "ASSERT-FAIL: "+msg+" ["+id+"]")
	}
}

func Cover(string) {}

// Log records an observation that is compared between engine and native execution.
func Log(k, v string) {
	mu.Lock()
	defer mu.Unlock()
	out = append(out, logEntry{k, []byte(v)})
}

// MapOrder lets maps be walked in any order; with MapSame, all maps with the same keys in
// one and the same order.
func MapOrder(bool) {}
func MapSame(bool)  {}
func Races(bool)    {}
func Preempt(int)   {}

// Order restricts schedules: where several goroutines can go on, the first of them does (kind 1),
// or the last (kind 2), with at most n deviations. Kind 0 lifts the restriction.
func Order(kind, n int) {}

// Virtual says that the path uses a terminal only the engine has.
func Virtual() {}

// Yield is a scheduling point.
func Yield() {}

// Quiesce runs the other goroutines until all of them are blocked or finished.
func Quiesce() {}

// Goroutines returns the number of unfinished goroutines (0 natively).
func Goroutines() int { return 0 }

// Clock is the engine's virtual time in nanoseconds.
func Clock() int64 { return 0 }

func AtExit(f func()) { atExit = append(atExit, f) }

func finish(code int, msg string) {
	for _, f := range atExit {
		f()
	}
	flush()
	fmt.Println(msg)
	os.Exit(code)
}

func flush() {
	mu.Lock()
	defer mu.Unlock()
	if p := os.Getenv("ZZOUT"); p != "" {
		b, _ := json.Marshal(out)
		_ = os.WriteFile(p, b, 0o644)
	}
}

// Main runs a harness natively.
func Main(f func()) {
	f()
	finish(0, "OK")
}

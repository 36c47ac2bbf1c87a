// Package h06: circular task graphs.
package h06

import (
	"context"
	"errors"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type graph struct {
	n    int
	edge [4][4]int // 0 none, 1 dependency, 2 reference, 3 parallel item
}

// build chooses the edges: independently of each other, or (kinds = 0) all present ones of a
// pattern of kinds.
func build() *graph {
	g := &graph{n: sym.Param("n", 3)}
	base := 0
	if sym.Param("kinds", 0) == 0 && sym.Param("patterns", 3) > 1 {
		base = sym.Choice("kind", 3)
	}
	for i := 0; i < g.n; i++ {
		for j := 0; j < g.n; j++ {
			if i == j && sym.Param("self", 1) == 0 {
				continue
			}
			name := "edge." + strconv.Itoa(i) + strconv.Itoa(j)
			if sym.Param("kinds", 0) > 0 {
				g.edge[i][j] = sym.Choice(name, 4)
			} else if sym.Flag(name) {
				g.edge[i][j] = 1 + (base+i+2*j)%3
			}
		}
	}
	return g
}

func name(i int) string { return "t" + strconv.Itoa(i) }

func (g *graph) file(cmds bool) spec.File {
	var f spec.File
	for i := 0; i < g.n; i++ {
		t := spec.Task{Name: name(i), Desc: "d"}
		if cmds {
			t.Run = append(t.Run, spec.Item{Cmd: "c" + strconv.Itoa(i)})
		}
		for j := 0; j < g.n; j++ {
			switch g.edge[i][j] {
			case 1:
				t.Deps = append(t.Deps, name(j))
			case 2:
				t.Run = append(t.Run, spec.Item{Task: name(j)})
			case 3:
				t.Run = append(t.Run, spec.Item{Parallel: []spec.Item{{Task: name(j)}}})
			}
		}
		f.Tasks = append(f.Tasks, t)
	}
	return f
}

// cyclic decides whether a cycle can be reached from task from (-1: any).
func (g *graph) cyclic(from int) bool {
	var reach [4][4]bool
	for i := 0; i < g.n; i++ {
		for j := 0; j < g.n; j++ {
			reach[i][j] = g.edge[i][j] != 0
		}
	}
	for k := 0; k < g.n; k++ {
		for i := 0; i < g.n; i++ {
			for j := 0; j < g.n; j++ {
				reach[i][j] = reach[i][j] || reach[i][k] && reach[k][j]
			}
		}
	}
	for i := 0; i < g.n; i++ {
		if reach[i][i] && (from < 0 || from == i || reach[from][i]) {
			return true
		}
	}
	return false
}

// chain checks that a reported cycle is one.
func (g *graph) chain(c []string) bool {
	if len(c) < 2 {
		return false
	}
	again := false
	for k, s := range c {
		i := s[len(s)-1] - '0'
		if k+1 < len(c) {
			j := c[k+1][len(c[k+1])-1] - '0'
			if g.edge[i][j] == 0 {
				return false
			}
		}
		if k+1 < len(c) && s == c[len(c)-1] {
			again = true
		}
	}
	return again
}

// Load: the Babfile of a graph is rejected exactly if the graph has a cycle.
func Load() {
	kit.Setup()
	g := build()
	f := g.file(false)
	included := sym.Param("included", 1) > 0 && sym.Flag("included")
	if included {
		lib := f
		f = spec.File{Includes: []spec.Include{{NS: "n", Path: "lib.yml", File: &lib}},
			Tasks: []spec.Task{{Name: "t0", Deps: []string{"n:t0"}}}}
	}
	kit.Load(f)
	sym.MapSame(true)
	sym.MapOrder(true)
	_, err := parser.Parse(kit.Path())
	sym.MapOrder(false)
	sym.Log("rejected", yes(err != nil))
	if !g.cyclic(-1) {
		sym.Assert(err == nil, "an acyclic Babfile is rejected: "+kit.Msg(err))
		return
	}
	sym.Assert(err != nil, "a cyclic Babfile is accepted")
	sym.Assert(errors.Is(err, errs.ErrCircularDep), "a cyclic Babfile is rejected for another reason: "+kit.Msg(err))
	var all *errs.ValidationErrors
	if errors.As(err, &all) {
		for _, e := range all.Errors {
			var c *errs.CircularDepError
			if errors.As(e, &c) {
				chain := c.Chain
				if included && chain[0] == "t0" {
					chain = chain[1:]
				}
				sym.Assert(g.chain(chain), "the cycle reported is none: "+strings.Join(c.Chain, " "))
			}
		}
	}
}

// Chain: a long chain of tasks, in any rotation of their order, that is perhaps closed
// somewhere.
func Chain() {
	kit.Setup()
	k := 1 + sym.Choice("len", sym.Param("len", 12))
	kind := sym.Choice("kind", 3)
	back := sym.Choice("back", k+1) // the last task leads back to this one; k: to none
	first := []int{0, k / 2, k - 1}[sym.Choice("first", 3)]
	var f spec.File
	for n := 0; n < k; n++ {
		i := (first + n) % k
		t := spec.Task{Name: "t" + strconv.Itoa(i), Desc: "d"}
		to := i + 1
		if i == k-1 {
			to = back
		}
		if to < k {
			to := "t" + strconv.Itoa(to)
			switch (kind + i) % 3 {
			case 0:
				t.Deps = []string{to}
			case 1:
				t.Run = []spec.Item{{Cmd: "c"}, {Task: to}}
			case 2:
				t.Run = []spec.Item{{Parallel: []spec.Item{{Cmd: "c"}, {Task: to}}}}
			}
		}
		f.Tasks = append(f.Tasks, t)
	}
	kit.Load(f)
	_, err := parser.Parse(kit.Path())
	if back == k {
		sym.Assert(err == nil, "an acyclic Babfile is rejected: "+kit.Msg(err))
		return
	}
	sym.Assert(errors.Is(err, errs.ErrCircularDep), "a circle of "+strconv.Itoa(k-back)+" tasks is accepted: "+kit.Msg(err))
}

// Run: tasks that were not validated end in an error if a cycle is reached, and run each
// task once if not.
func Run() {
	kit.Setup()
	g := build()
	tasks := babfile.TaskMap{}
	for _, t := range g.file(true).Tasks {
		b := &babfile.Task{Name: t.Name, SourcePath: kit.Path(), Deps: t.Deps}
		for _, it := range t.Run {
			switch {
			case it.Cmd != "":
				b.Run = append(b.Run, babfile.CommandRun{Cmd: it.Cmd})
			case it.Task != "":
				b.Run = append(b.Run, babfile.TaskRun{Task: it.Task})
			default:
				b.Run = append(b.Run, babfile.ParallelRun{Items: []babfile.RunItem{babfile.TaskRun{Task: it.Parallel[0].Task}}, Mode: babfile.ParallelInterleaved})
			}
		}
		tasks[t.Name] = b
	}
	err := runner.New(false, "").RunWithTasks(context.Background(), "t0", tasks)
	if g.cyclic(0) {
		sym.Assert(err != nil, "a cyclic graph runs to its end")
		sym.Assert(errors.Is(err, errs.ErrCircularDep), "a cyclic graph ends in another error: "+kit.Msg(err))
	} else {
		sym.Assert(err == nil, "an acyclic graph fails: "+kit.Msg(err))
	}
	n := map[string]int{}
	for _, c := range modelrun.Started() {
		n[c]++
		sym.Assert(n[c] == 1, "command "+c+" was started twice")
	}
	sym.Quiesce()
	kit.NoneLeft()
}

// Both: two tasks that run side by side and lead to each other, directly or through a third.
func Both() {
	kit.Setup()
	kinds := func(n string) int { return sym.Choice(n, 3) }
	g := &graph{n: 4}
	g.edge[1][2] = 1 + kinds("ab")
	if sym.Flag("direct") {
		g.edge[2][1] = 1 + kinds("ba")
	} else {
		g.edge[2][3] = 1 + kinds("bc")
		g.edge[3][1] = 1 + kinds("ca")
	}
	tasks := babfile.TaskMap{"t0": {Name: "t0", SourcePath: kit.Path(), Run: []babfile.RunItem{
		babfile.ParallelRun{Items: []babfile.RunItem{babfile.TaskRun{Task: "t1"}, babfile.TaskRun{Task: "t2"}}, Mode: babfile.ParallelInterleaved, Limit: sym.Choice("limit", 2)}}}}
	for i := 1; i < 4; i++ {
		b := &babfile.Task{Name: name(i), SourcePath: kit.Path()}
		for j := 1; j < 4; j++ {
			switch g.edge[i][j] {
			case 1:
				b.Deps = append(b.Deps, name(j))
			case 2:
				b.Run = append(b.Run, babfile.TaskRun{Task: name(j)})
			case 3:
				b.Run = append(b.Run, babfile.ParallelRun{Items: []babfile.RunItem{babfile.TaskRun{Task: name(j)}}, Mode: babfile.ParallelInterleaved})
			}
		}
		tasks[b.Name] = b
	}
	err := runner.New(false, "").RunWithTasks(context.Background(), "t0", tasks)
	sym.Assert(err != nil, "a cyclic graph runs to its end")
	sym.Assert(errors.Is(err, errs.ErrCircularDep), "a cyclic graph ends in another error: "+kit.Msg(err))
	sym.Quiesce()
	kit.NoneLeft()
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

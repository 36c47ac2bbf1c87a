// Package h04: order of execution and fail-stop.
package h04

import (
	"context"
	"strconv"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Graph runs task t0 of every acyclic graph of n tasks, each edge a dependency, a task
// reference before the task's last command, or absent, with every pattern of failures.
func Graph() {
	n := sym.Param("n", 3)
	kit.Setup()
	rev := sym.Flag("reversed")
	var f spec.File
	var cmds []string
	for i := 0; i < n; i++ {
		is := strconv.Itoa(i)
		t := spec.Task{Name: "t" + is}
		t.Run = append(t.Run, spec.Item{Cmd: "a" + is})
		for k := i + 1; k < n; k++ {
			j := k
			if rev {
				j = n - (k - i)
			}
			js := strconv.Itoa(j)
			switch sym.Choice("edge."+is+"."+js, 3) {
			case 1:
				t.Deps = append(t.Deps, "t"+js)
			case 2:
				t.Run = append(t.Run, spec.Item{Task: "t" + js})
			}
		}
		t.Run = append(t.Run, spec.Item{Cmd: "b" + is})
		cmds = append(cmds, "a"+is, "b"+is)
		f.Tasks = append(f.Tasks, t)
	}
	f = kit.Deco(f)
	kit.LoadAs(f)
	x := kit.New(f)
	x.Fails = kit.Fails(cmds...)
	err := kit.Run(context.Background(), "t0", false)
	x.Main("t0")
	kit.Order(x, err)
	kit.Headers(x)
	kit.Output(x)
}

// Ends runs commands that end with one of several exit statuses or by a signal.
func Ends() {
	kit.Setup()
	f := spec.File{Tasks: []spec.Task{
		{Name: "m", Deps: []string{"d"}, Run: []spec.Item{{Cmd: "a"}, {Task: "r"}, {Cmd: "b"}}},
		{Name: "d", Run: []spec.Item{{Cmd: "c"}}},
		{Name: "r", Run: []spec.Item{{Cmd: "e"}}},
	}}
	f = kit.Deco(f)
	kit.LoadAs(f)
	x := kit.New(f)
	cmds := []string{"a", "b", "c", "e"}
	at := sym.Choice("at", len(cmds))
	exit := []int{0, 1, 2, 126, 127, 130, 137, 143, 255, -1}[sym.Choice("exit", 10)]
	modelrun.Command(cmds[at], modelrun.Cmd{Echo: true, Exit: exit})
	x.Fails = func(cmd string) bool { return cmd == cmds[at] && exit != 0 }
	err := kit.Run(context.Background(), "m", false)
	x.Main("m")
	kit.Order(x, err)
	kit.Headers(x)
}

package h05

import (
	"context"
	"strconv"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Web: tasks a to d, each of which reaches any of those after it in any way, from a parallel
// block with a limit; the goroutines go on in one of two orders, with a number of deviations.
// Every task runs at most once, what waits for a task goes on when it has ended well, the run
// comes to an end, and its result says whether a command failed.
func Web() {
	kit.Setup()
	sym.Order(1+sym.Choice("order", 2), sym.Param("deviations", 0))
	sym.Races(sym.Param("races", 0) > 0)
	p := &prog{}
	bad := []string{"", "cd", "cc", "ca"}[sym.Choice("bad", sym.Param("bad", 2))]
	p.fails = func(c string) bool { return c == bad }
	for _, c := range all {
		k := modelrun.Cmd{Steps: 1, Echo: true}
		if c == bad {
			k.Exit = 1
		}
		modelrun.Command(c, k)
	}
	mode := ""
	if sym.Param("views", 0) > 0 {
		modelrun.Terminal(false, true, true)
		mode = []string{"", "grouped", "tabs"}[sym.Choice("mode", 3)]
	}
	ts := []*spec.Task{{Name: "a"}, {Name: "b"}, {Name: "c"}, {Name: "d"}}
	limit := sym.Choice("limit", sym.Param("limits", 3))
	for i, t := range ts {
		var block []spec.Item
		for j := i + 1; j < len(ts); j++ {
			to := ts[j].Name
			switch sym.Choice("edge."+t.Name+to, sym.Param("edges", 4)) {
			case 1:
				t.Deps = append(t.Deps, to)
			case 2:
				block = append(block, spec.Item{Task: to})
			case 3:
				t.Run = append(t.Run, spec.Item{Task: to})
			default:
				continue
			}
			p.waits = append(p.waits, [2]string{t.Name, to})
		}
		if len(block) > 0 {
			t.Run = append(t.Run, spec.Item{Parallel: block, Limit: limit, Mode: mode})
		}
		t.Run = append(t.Run, spec.Item{Cmd: "c" + t.Name})
	}
	m := spec.Task{Name: "m", Run: []spec.Item{{Limit: limit, Mode: mode, Parallel: []spec.Item{{Task: "a"}, {Task: "b"}, {Cmd: "cx"}}}}}
	if sym.Param("dep", 0) > 0 && sym.Flag("dep") {
		m.Deps = []string{"d"}
	}
	p.f.Tasks = []spec.Task{m, *ts[0], *ts[1], *ts[2], *ts[3]}
	kit.Load(p.f)
	err := kit.Run(context.Background(), "m", false)
	want := p.reach()
	for _, c := range all {
		n := count(c, "start")
		sym.Assert(n <= 1, "command "+c+" ran "+strconv.Itoa(n)+" times in one invocation")
		sym.Assert(n == 0 || want[c], "command "+c+" ran although nothing reaches it")
	}
	p.outcome(err)
	sym.Assert(modeltea.AtOnce <= 1, "several views are shown at the same time")
	sym.Assert(mode == "" || bad != "" || modeltea.Runs > 0, "the view is not shown")
}

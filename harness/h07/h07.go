// Package h07: what a parallel block does with its items.
package h07

import (
	"context"
	"errors"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type block struct {
	f     spec.File
	n     int
	limit int
	mode  string
	exit  []int
	cmds  []string
}

func has(kind, cmd string) int {
	n := 0
	for _, e := range modelrun.Events() {
		if e.Kind == kind && e.Cmd == cmd {
			n++
		}
	}
	return n
}

// build: task m runs before, a block of n items, after; item i is a command or a task of one.
func build(n, modes int, last int) *block {
	b := &block{n: n}
	b.limit = sym.Choice("limit", n+1)
	switch sym.Choice("mode", modes) {
	case 1:
		b.mode = "grouped"
	case 2:
		b.mode = "tabs"
	}
	modelrun.Terminal(false, true, b.mode != "")
	m := spec.Task{Name: "m"}
	par := spec.Item{Limit: b.limit, Mode: b.mode}
	var tasks []spec.Task
	for i := 0; i < n; i++ {
		c := "c" + strconv.Itoa(i)
		e := sym.Int("exit."+c, 0, 1)
		b.exit = append(b.exit, e)
		b.cmds = append(b.cmds, c)
		modelrun.Command(c, modelrun.Cmd{Echo: true, Exit: e, Steps: sym.Param("steps", 1)})
		if sym.Param("tasks", 0) > 0 && sym.Flag("task."+c) {
			tasks = append(tasks, spec.Task{Name: "t" + strconv.Itoa(i), Run: []spec.Item{{Cmd: c}}})
			par.Parallel = append(par.Parallel, spec.Item{Task: "t" + strconv.Itoa(i)})
		} else {
			par.Parallel = append(par.Parallel, spec.Item{Cmd: c})
		}
	}
	m.Run = []spec.Item{{Cmd: "before"}, par}
	if last == 0 {
		m.Run = append(m.Run, spec.Item{Cmd: "after"})
	}
	b.f.Tasks = append([]spec.Task{m}, tasks...)
	kit.Load(b.f)
	return b
}

// Items: every item runs exactly once, at most limit at a time, whatever the others do; the
// block ends when all have ended; it succeeds exactly if all succeeded.
func Items() {
	kit.Setup()
	sym.Races(true)
	b := build(sym.Param("n", 3), sym.Param("modes", 3), 0)
	err := kit.Run(context.Background(), "m", false)
	failed := false
	for i, c := range b.cmds {
		sym.Assert(has("start", c) == 1, "item "+c+" was started "+strconv.Itoa(has("start", c))+" times")
		sym.Assert(has("end", c) == 1, "item "+c+" had not ended when the block did")
		if b.exit[i] != 0 {
			failed = true
		}
	}
	sym.Assert(b.limit == 0 || modelrun.MaxRunning <= b.limit, "more items ran at a time than the limit of "+strconv.Itoa(b.limit))
	if b.mode != "" {
		sym.Assert(modeltea.Runs == 1, "the view was not shown")
	}
	sym.Assert(has("start", "before") == 1, "before did not run")
	var last string
	for _, e := range modelrun.Events() {
		if e.Kind == "start" {
			last = e.Cmd
		}
	}
	if failed {
		sym.Assert(err != nil, "a block with a failing item succeeded")
		sym.Assert(has("start", "after") == 0, "the task went on after a failing block")
	} else {
		sym.Assert(err == nil, "a block without a failing item failed: "+kit.Msg(err))
		sym.Assert(has("start", "after") == 1 && last == "after", "the task did not go on after the block")
	}
	sym.Assert(strings.HasPrefix(modelrun.Started()[0], "before"), "the block started before the item before it")
	sym.Quiesce()
	kit.NoneLeft()
	// what each item printed is shown once
	if b.mode == "" {
		out := modelui.Plain(model.Stdout())
		for _, c := range b.cmds {
			l := c
			if len(b.f.Tasks) > 1 && b.f.Task("t"+c[1:]) != nil {
				l = "t" + c[1:]
			}
			n := 0
			for _, ln := range strings.Split(out, "\n") {
				if strings.HasPrefix(ln, "["+l+"]") && strings.HasSuffix(ln, " "+c) {
					n++
				}
			}
			sym.Assert(n == 1, "the output of "+c+" is not shown once: "+out)
		}
	}
}

// Cancel: while an item runs, the run is cancelled (by a signal, or by ctrl+c in the view).
func Cancel() {
	kit.Setup()
	sym.Races(true)
	ctx, cancel := context.WithCancel(context.Background())
	b := build(sym.Param("n", 3), sym.Param("modes", 3), sym.Choice("last", 2))
	at := sym.Choice("at", b.n)
	key := b.mode != "" && sym.Flag("key")
	others := 0
	// items may or may not be over when the cancellation reaches them
	for i, c := range b.cmds {
		k := modelrun.Cmd{Echo: true, Steps: sym.Param("steps", 0), Block: sym.Flag("block." + c)}
		if i == at {
			k.OnRun = func() {
				if key {
					modeltea.Press("ctrl+c")
				} else {
					cancel()
				}
			}
		}
		if i != at && k.Block {
			others++
		}
		modelrun.Command(c, k)
	}
	// the item that brings the cancellation about must be able to start
	sym.Assume(b.limit == 0 || others < b.limit)
	err := kit.Run(ctx, "m", false)
	all := true
	for _, c := range b.cmds {
		sym.Assert(has("start", c) <= 1, "item "+c+" was started twice")
		sym.Assert(has("start", c) == has("end", c), "item "+c+" still runs")
		if has("start", c) == 0 {
			all = false
		}
		for _, e := range modelrun.Events() {
			if e.Kind == "end" && e.Cmd == c && e.Kill {
				all = false
			}
		}
	}
	if has("start", b.cmds[at]) == 1 {
		if !all {
			sym.Assert(err != nil, "a cancelled run whose items did not all run to their end is reported as success")
			sym.Assert(errors.Is(err, context.Canceled), "the error of a cancelled run does not say so: "+kit.Msg(err))
		}
		if !key {
			sym.Assert(has("start", "after") == 0, "a command was started after the cancellation")
		}
	}
	sym.Assert(!modelrun.SelfKilled, "bab signalled its own process group")
	sym.Assert(modelrun.Alive() == 0, "processes are left over")
	sym.Quiesce()
	kit.NoneLeft()
	cancel()
}

// Full: items that go on until they are ended run as many at a time as the limit allows, all of
// them without one; the block belongs to the task itself, one of an included file, or one that
// is referred to from a block, a dependency, or within a block.
func Full() {
	kit.Setup()
	sym.Order(1+sym.Choice("order", 2), sym.Param("deviations", 1))
	n := 1 + sym.Choice("n", sym.Param("n", 4))
	limit := sym.Choice("limit", n+2)
	mode := []string{"", "grouped", "tabs"}[sym.Choice("mode", 3)]
	modelrun.Terminal(false, true, mode != "")
	sym.Assume(mode == "" || n <= sym.Param("views", 2))
	par := spec.Item{Limit: limit, Mode: mode}
	skipped := 0
	for i := 0; i < n; i++ {
		c := "c" + strconv.Itoa(i)
		modelrun.Command(c, modelrun.Cmd{Block: true})
		it := spec.Item{Cmd: c}
		if i == 0 && sym.Flag("skip") {
			it.When = "a == 'b'"
			skipped = 1
		}
		par.Parallel = append(par.Parallel, it)
	}
	modelrun.Command("side", modelrun.Cmd{Block: true})
	t := spec.Task{Name: "t", Run: []spec.Item{par}}
	m := spec.Task{Name: "m", Run: []spec.Item{{Task: "t"}}}
	side := 0
	switch sym.Choice("reach", 4) {
	case 1:
		m = spec.Task{Name: "m", Deps: []string{"t"}, Run: []spec.Item{{Cmd: "after"}}}
	case 2:
		side = 1
		m.Run[0] = spec.Item{Mode: mode, Parallel: []spec.Item{{Cmd: "side"}, {Task: "t"}}}
	case 3:
		side = 1
		sym.Assume(mode == "")
		m.Run[0] = spec.Item{Limit: 2, Mode: mode, Parallel: []spec.Item{{Task: "t"}, {Cmd: "side"}}}
	}
	f := spec.File{Tasks: []spec.Task{m, t}}
	name := "m"
	if sym.Flag("included") {
		f = spec.File{Includes: []spec.Include{{NS: "n", Path: "lib/babfile.yml", File: &spec.File{Tasks: f.Tasks}}}, Tasks: []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "x"}}}}}
		name = "n:m"
	}
	kit.Load(f)
	ctx, cancel := context.WithCancel(context.Background())
	over := make(chan error, 1)
	go func() { over <- kit.Run(ctx, name, false) }()
	sym.Quiesce()
	want := n - skipped
	if limit > 0 && limit < want {
		want = limit
	}
	sym.Assert(modelrun.Alive() == want+side, strconv.Itoa(modelrun.Alive()-side)+" items run at a time, not "+strconv.Itoa(want))
	cancel()
	err := <-over
	sym.Assert(n == skipped && side == 0 || err != nil, "a cancelled run is reported as success")
	sym.Assert(modelrun.Alive() == 0, "processes are left over")
	sym.Quiesce()
	kit.NoneLeft()
}

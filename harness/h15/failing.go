package h15

import (
	"context"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Failing: a block of items, one of which may be a task with a block of its own, that print to
// both streams, end their last line or not and fail or not: every line is shown on the stream it
// was printed to, behind the labels of the blocks it comes from.
func Failing() {
	kit.Setup()
	var outs, errs []string
	fails := false
	count, prints, failing := 0, sym.Choice("prints", 3), sym.Choice("failing", 5)
	var block func(name, before string, n, nested int, tasks *[]spec.Task) spec.Item
	block = func(name, before string, n, nested int, tasks *[]spec.Task) spec.Item {
		par := spec.Item{Color: spec.No}
		if name == "" {
			par.Limit = sym.Choice("limit", 2)
		}
		for i := 0; i < n; i++ {
			s := name + strconv.Itoa(i)
			label := before + "[l" + s + "] "
			if i == nested {
				in := block(s, label, 2, -1, tasks)
				*tasks = append(*tasks, spec.Task{Name: "t" + s, Silent: spec.Yes, Run: []spec.Item{in}})
				par.Parallel = append(par.Parallel, spec.Item{Task: "t" + s, Label: "l" + s})
				continue
			}
			c := modelrun.Cmd{}
			count++
			switch (prints + count) % 3 {
			case 0:
				c.Out, c.Err = "out"+s, "err"+s
				outs, errs = append(outs, label+"out"+s), append(errs, label+"err"+s)
			case 1:
				c.Out = "a" + s + "\nb" + s + "\n"
				outs = append(outs, label+"a"+s, label+"b"+s)
			case 2:
				c.Err = "a" + s + "\n\nb" + s
				errs = append(errs, label+"a"+s, label, label+"b"+s)
			}
			if failing == count || failing == 4 {
				c.Exit = 3
				fails = true
			}
			modelrun.Command("c"+s, c)
			it := spec.Item{Cmd: "c" + s, Label: "l" + s}
			par.Parallel = append(par.Parallel, it)
		}
		return par
	}
	f := spec.File{}
	n := sym.Param("items", 2)
	par := block("", "", n, sym.Choice("nested", n+1)-1, &f.Tasks)
	f.Tasks = append(f.Tasks, spec.Task{Name: "m", Silent: spec.Yes, Run: []spec.Item{par}})
	kit.Load(f)
	err := kit.Run(context.Background(), "m", false)
	sym.Assert((err != nil) == fails, "the run does not fail as its commands do: "+kit.Msg(err))
	shown("standard output", modelui.Plain(model.Stdout()), outs)
	shown("standard error", modelui.Plain(model.Stderr()), errs)
}

func shown(stream, text string, want []string) {
	sym.Assert(text == "" || strings.HasSuffix(text, "\n"), "a line on "+stream+" is not ended: "+text)
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		at := -1
		for i, w := range want {
			if strings.TrimRight(w, " ") == strings.TrimRight(l, " ") {
				at = i
				break
			}
		}
		sym.Assert(at >= 0, "a line on "+stream+" does not belong there: "+l)
		// in the order in which the same item printed them
		for i := 0; i < at; i++ {
			sym.Assert(want[i][:strings.LastIndex(want[i], "]")] != want[at][:strings.LastIndex(want[at], "]")], "lines of an item are out of order: "+text)
		}
		want = append(want[:at], want[at+1:]...)
	}
	for _, w := range want {
		sym.Assert(false, "a line is not shown on " + stream + ": " + w + " in " + text)
	}
}

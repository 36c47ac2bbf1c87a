package h15

import (
	"context"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Block: a parallel block of four items of any kinds, with or without labels, of which any of
// the first three are skipped: what each prints appears behind its own label.
func Block() {
	kit.Setup()
	never := []string{"darwin"}
	f := spec.File{}
	par := spec.Item{Limit: sym.Choice("limit", 2)}
	if sym.Flag("plain") {
		par.Color = spec.No
	}
	if sym.Param("modes", 0) > 0 {
		// without a terminal every mode prints lines; the default one does on a terminal, too
		look := sym.Choice("look", 6)
		par.Mode = []string{"", "interleaved", "grouped", "tabs", "", "interleaved"}[look]
		modelrun.Terminal(sym.Flag("in"), look >= 4 || sym.Flag("out"), look >= 4)
	}
	type line struct{ label, text string }
	var want []line
	n := sym.Param("items", 4)
	labelled := sym.Choice("labels", 3)
	kinds := sym.Choice("kinds", 5)
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		it := spec.Item{}
		var label string
		text := []string{"one" + s, "two " + s}
		switch (kinds + i) % 5 {
		case 0:
			it.Cmd = "c" + s
			label = it.Cmd
		case 1:
			it.Task = "t" + s
			label = it.Task
			f.Tasks = append(f.Tasks, spec.Task{Name: it.Task, Run: []spec.Item{{Cmd: "c" + s}}})
		case 2:
			it.Log = "one" + s
			text = []string{"INFO one" + s}
			label = it.Log
		case 3:
			it.Cmd = "c" + s + strings.Repeat("x", 30)
			label = it.Cmd[:20]
		case 4:
			it.Cmd = "first " + s + "\nsecond " + s + "\n"
			label = "first " + s + "*" // on one line, whatever follows
		}
		modelrun.Command(it.Cmd, modelrun.Cmd{Out: "one" + s + "\ntwo " + s})
		if it.Task != "" {
			modelrun.Command("c"+s, modelrun.Cmd{Out: "one" + s + "\ntwo " + s})
		}
		if labelled == 1 || labelled == 2 && i%2 == 1 {
			it.Label = strings.Repeat("L", i) + "l " + s
			label = it.Label
			if i == 3 {
				it.Label += "\n" // as a block of text has it
			}
		}
		skip := 0
		if i < n-1 {
			skip = sym.Choice("skip"+s, 2)
		}
		if skip > 0 {
			if i%2 == 0 {
				it.When = "false"
			} else {
				it.Platforms = never
			}
		} else {
			for _, t := range text {
				want = append(want, line{label, t})
			}
		}
		par.Parallel = append(par.Parallel, it)
	}
	f.Tasks = append(f.Tasks, spec.Task{Name: "m", Run: []spec.Item{par}})
	kit.Load(f)
	err := kit.Run(context.Background(), "m", false)
	sym.Assert(err == nil, "the run failed: "+kit.Msg(err))
	sym.Assert(modeltea.Runs == 0, "a view is opened where lines are to be printed")
	out := modelui.Plain(model.Stdout())
	sym.Log("lines", strconv.Itoa(len(want)))
	var got []line
	for _, l := range strings.SplitAfter(out, "\n") {
		if l == "" {
			continue
		}
		sym.Assert(strings.HasPrefix(l, "[") && strings.HasSuffix(l, "\n") && strings.Contains(l, "] "), "a line is torn: "+l)
		k := strings.Index(l, "] ")
		got = append(got, line{strings.TrimRight(l[1:k], " "), l[k+2 : len(l)-1]})
	}
	// in order for each item, each line once
	for i := range got {
		at := -1
		for j := range want {
			if p, ok := strings.CutSuffix(want[j].label, "*"); want[j].label == got[i].label || ok && strings.HasPrefix(got[i].label, p) {
				at = j
				break
			}
		}
		sym.Assert(at >= 0 && want[at].text == got[i].text, "the line "+got[i].text+" is shown behind "+got[i].label+" where it does not belong")
		want = append(want[:at], want[at+1:]...)
	}
	sym.Assert(len(want) == 0, "a line is not shown: "+out)
}

package h05

import (
	"context"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func lines(out, prefix, suffix string) int {
	n := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, prefix) && strings.HasSuffix(l, suffix) && l != "" {
			rest := strings.TrimSpace(l[len(prefix):])
			if rest == suffix || suffix == "" {
				n++
			}
		}
	}
	return n
}

// Streams: items print to both of their streams at the same time; every line is shown once
// and whole, under its item's label, without a data race.
func Streams() {
	kit.Setup()
	sym.Races(true)
	modelrun.Command("x", modelrun.Cmd{Out: "x1\nx2\n", Err: "e1\ne2"})
	modelrun.Command("y", modelrun.Cmd{Out: "y1\ny2", Err: "f1\n"})
	par := spec.Item{}
	nested := sym.Choice("nested", sym.Param("nested", 2))
	a := spec.Task{Name: "a", Run: []spec.Item{{Cmd: "y"}}}
	if nested > 0 {
		a.Run = []spec.Item{{Parallel: []spec.Item{{Cmd: "y", Label: "y"}, {Log: "hello", Label: "g"}}}}
		if nested == 2 {
			a.Run[0].Parallel = a.Run[0].Parallel[:1]
		}
	}
	if nested == 0 || sym.Param("two", 0) > 0 && sym.Flag("two") {
		par.Parallel = append(par.Parallel, spec.Item{Cmd: "x", Label: "x"})
	}
	par.Parallel = append(par.Parallel, spec.Item{Task: "a"})
	f := spec.File{Tasks: []spec.Task{{Name: "m", Run: []spec.Item{par}}, a}}
	two := len(par.Parallel) == 2
	kit.Load(f)
	err := kit.Run(context.Background(), "m", false)
	sym.Assert(err == nil, "the run failed: "+kit.Msg(err))
	out, er := modelui.Plain(model.Stdout()), modelui.Plain(model.Stderr())
	check := func(text, label, line string) {
		pre := "[" + label + "]"
		if nested > 0 && label == "a" {
			n := 0
			for _, l := range strings.Split(text, "\n") {
				if strings.HasPrefix(l, pre) && strings.Contains(l, "[y]") && strings.HasSuffix(l, " "+line) {
					n++
				}
			}
			sym.Assert(n == 1, "line "+line+" is not shown once and whole: "+text)
			return
		}
		sym.Assert(lines(text, pre, line) == 1, "line "+line+" is not shown once and whole: "+text)
	}
	if two {
		check(out, "x", "x1")
		check(out, "x", "x2")
		check(er, "x", "e1")
		check(er, "x", "e2")
	}
	check(out, "a", "y1")
	check(out, "a", "y2")
	check(er, "a", "f1")
	want := 2
	if two {
		want += 2
	}
	if nested == 1 {
		want++
	}
	sym.Assert(strings.Count(out, "\n") == want, "lines that were not printed are shown: "+out)
}

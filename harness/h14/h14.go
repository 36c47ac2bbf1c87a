// Package h14: silent and output.
package h14

import (
	"context"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

func tri(name string) spec.Tri { return spec.Tri(sym.Choice(name, 3)) }

// Levels: command, task reference, parallel block, task, included file and root file each set
// one of the two settings or leave it out; the command is reached directly, through a task
// reference, or through references in a parallel block, of tasks of an included file or not.
func Levels() {
	kit.Setup()
	output := sym.Flag("output") // which of the two settings varies
	other := tri("other")        // the other one, set everywhere alike
	set := func(l string, silent, out *spec.Tri) {
		v := tri(l)
		if output {
			*out, *silent = v, other
		} else {
			*silent, *out = v, other
		}
	}
	modelrun.Command("c1", modelrun.Cmd{Out: "out1\n", Err: "err1\n"})
	included := sym.Flag("included")
	via := sym.Choice("via", 7)
	cmd := spec.Item{Cmd: "c1"}
	set("cmd", &cmd.Silent, &cmd.Output)
	t := spec.Task{Name: "t", Run: []spec.Item{cmd}}
	set("task", &t.Silent, &t.Output)
	m := spec.Task{Name: "m"}
	ref := spec.Item{Task: "t"}
	block := spec.Item{}
	switch via {
	case 0: // the task itself
	case 1: // a reference
		set("ref", &ref.Silent, &ref.Output)
		m.Run = []spec.Item{ref}
	case 2: // a reference in a block
		set("ref", &ref.Silent, &ref.Output)
		set("block", &block.Silent, &block.Output)
		block.Parallel = []spec.Item{ref}
		m.Run = []spec.Item{block}
	case 3: // a block of the task itself
		set("block", &block.Silent, &block.Output)
		block.Parallel = []spec.Item{cmd}
		t.Run = []spec.Item{block}
	case 4: // a reference to a task with a reference
		set("ref", &ref.Silent, &ref.Output)
		m.Run = []spec.Item{{Task: "u", Silent: ref.Silent, Output: ref.Output}}
	case 5: // a reference to a task with a block
		set("ref", &ref.Silent, &ref.Output)
		set("block", &block.Silent, &block.Output)
		block.Parallel = []spec.Item{cmd}
		t.Run = []spec.Item{block}
		m.Run = []spec.Item{ref}
	case 6: // the same with the reference in a block
		set("ref", &ref.Silent, &ref.Output)
		set("block", &block.Silent, &block.Output)
		block.Parallel = []spec.Item{cmd}
		t.Run = []spec.Item{block}
		m.Run = []spec.Item{{Parallel: []spec.Item{ref}}}
	}
	u := spec.Task{Name: "u", Run: []spec.Item{{Task: "t"}}}
	if via == 4 {
		set("u", &u.Silent, &u.Output)
	}
	name := "m"
	if via == 0 || via == 3 {
		name = "t"
		m.Run = []spec.Item{{Cmd: "x"}}
	}
	f := spec.File{}
	tasks := []spec.Task{m, t, u}
	set("root", &f.Silent, &f.Output)
	if included {
		lib := &spec.File{Tasks: tasks}
		set("lib", &lib.Silent, &lib.Output)
		f.Includes = []spec.Include{{NS: "n", Path: "lib/babfile.yml", File: lib}}
		f.Tasks = []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "x"}}}}
		name = "n:" + name
	} else {
		f.Tasks = tasks
	}
	kit.Load(f)
	x := kit.New(f)
	err := kit.Run(context.Background(), name, false)
	x.Main(name)
	kit.Order(x, err)
	so, se := "\n"+strip(model.Stdout()), "\n"+strip(model.Stderr())
	sym.Log("so", so)
	sym.Log("se", se)
	want := x.Stderr()
	shown := false
	for _, s := range x.Steps {
		if s.Kind == "start" && s.Show {
			shown = true
		}
	}
	sym.Assert(strings.Contains(so, "\nout1\n") == shown, "standard output of the command is shown: "+yes(!shown))
	sym.Assert(strings.Contains(se, "\nerr1\n") == shown, "standard error of the command is shown: "+yes(!shown))
	for _, l := range []string{"$ c1", "▶ t", "▶ u", "● Running m", "● Running t", "▶ n:t", "▶ n:u", "● Running n:m", "● Running n:t"} {
		w := strings.Contains("\n"+want, "\n"+l+"\n")
		sym.Assert(strings.Contains(se, "\n"+l+"\n") == w, "line "+l+" is shown: "+yes(!w))
	}
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// strip removes styling and the labels of parallel items.
func strip(s string) string {
	ls := strings.Split(modelui.Plain(s), "\n")
	for i, l := range ls {
		for strings.HasPrefix(l, "[") {
			if j := strings.Index(l, "] "); j >= 0 {
				l = strings.TrimLeft(l[j+2:], " ")
			} else {
				break
			}
		}
		ls[i] = l
	}
	return strings.Join(ls, "\n")
}

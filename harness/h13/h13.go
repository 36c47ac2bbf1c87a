// Package h13: the directory commands run in.
package h13

import (
	"context"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// dir is what is written at a level, if anything.
func dir(l string) string {
	if sym.Param("undefined", 0) > 0 { // nothing, a directory, or one that cannot be told
		switch sym.Choice("dir."+l, 3) {
		case 1:
			return l
		case 2:
			return "${{ nope }}" + l
		}
		return ""
	}
	switch sym.Choice("dir."+l, sym.Param("forms", 6)) {
	case 1:
		return "~" + l + "$HOME"
	case 2:
		return "./" + l + "/../" + l + "/in"
	case 3:
		return model.P("abs" + l)
	case 4:
		return "${{ v }}" + l
	case 5:
		return "${{ w }}" + l
	}
	return ""
}

// Levels: command, task, included file, root file, each with or without dir.
func Levels() {
	kit.Setup()
	included := sym.Flag("included")
	v := sym.StrN("v", 1, "ab")
	first := spec.Item{Cmd: "c1", Dir: dir("cmd")}
	t := spec.Task{Name: "t", Dir: dir("task"), Deps: []string{"d"}}
	second := spec.Item{Cmd: "c2"}
	t.Run = []spec.Item{first, {Task: "e"}, second}
	if sym.Flag("parallel") {
		t.Run = []spec.Item{{Parallel: []spec.Item{first}}, {Task: "e"}, {Parallel: []spec.Item{second}}}
	}
	d := spec.Task{Name: "d", Dir: "dep", Run: []spec.Item{{Cmd: "cd"}}}
	e := spec.Task{Name: "e", Run: []spec.Item{{Cmd: "ce"}}}
	f := spec.File{Vars: []spec.KV{{K: "v", V: v}, {K: "w", V: model.P("by")}}, Dir: dir("root")}
	name := "t"
	if included {
		lib := &spec.File{Dir: dir("lib"), Tasks: []spec.Task{t, d, e}}
		f.Includes = []spec.Include{{NS: "lib", Path: "libdir/babfile.yml", File: lib}}
		f.Tasks = []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "cx"}}}}
		name = "lib:t"
	} else {
		f.Tasks = []spec.Task{t, d, e}
	}
	kit.Load(f)
	x := kit.New(f)
	x.Main(name)
	// make the directories, except that one of them may be missing or a file
	state := 0
	if sym.Param("undefined", 0) == 0 {
		state = sym.Choice("state", 5) // all there, one missing, a file, a link to a directory, a link to nothing
	}
	var dirs []string
	for _, s := range x.Steps {
		if s.Kind == "start" {
			dirs = append(dirs, s.Dir)
		}
	}
	bad := ""
	if state > 0 {
		bad = dirs[sym.Choice("bad", len(dirs))]
		for _, o := range dirs {
			if o != bad && len(o) > len(bad) && o[:len(bad)] == bad {
				sym.Assume(false)
			}
		}
		sym.Assume(bad != model.Root() && bad != model.P("libdir"))
		if state != 3 {
			x = kit.New(f)
			x.BadDir = bad
			x.Main(name)
		}
	}
	for _, o := range dirs {
		if o != bad {
			model.Mkdir(o)
		}
	}
	switch state {
	case 2:
		model.Write(bad, "a file")
	case 3:
		model.Mkdir(model.P("real"))
		model.Link(bad, model.P("real"))
	case 4:
		model.Link(bad, "nowhere")
	}
	err := kit.Run(context.Background(), name, false)
	kit.Order(x, err)
	kit.Dirs(x)
}

// Package h12: the environment commands see.
package h12

import (
	"context"
	"os"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// value is the text of an environment value written at level l.
func value(l string) string {
	n := 4
	if l == "lib" || l == "task" {
		n = 3
	}
	switch sym.Choice("val."+l, n) {
	case 1:
		return l + "${{ v }}"
	case 2:
		return "" // set to nothing
	case 3:
		return l + sym.StrN("txt."+l, 2, "ab$ =")
	}
	return l
}

func level(l string) []spec.KV {
	var r []spec.KV
	switch sym.Choice("keys."+l, 3) {
	case 1:
		r = append(r, spec.KV{K: "A", V: value(l)})
	case 2:
		r = append(r, spec.KV{K: "B", V: l + "b"}, spec.KV{K: "OUTER", V: l + "o"})
	}
	return r
}

// Levels: root global, included file's global, task's and command's env, each set or not,
// with values that contain placeholders; the variable's value looks like a placeholder.
func Levels() {
	kit.Setup()
	model.SetEnv("OUTER", "outer")
	model.SetEnv("A", "outera")
	for _, n := range []string{"BAB_LEVEL", "bab", "HOME", "EDITOR", "a", "_", "X_1"} {
		model.SetEnv(n, "outer "+n)
	}
	model.SetEnv("EMPTY", "")
	base := os.Environ()
	included := sym.Flag("included")
	piped := sym.Param("parallel", 1) > 0 && sym.Flag("parallel")
	v := []spec.KV{{K: "v", V: "x$${{ w }}" + sym.StrN("v", 1, "a${")}}
	first := spec.Item{Cmd: "c1", Env: level("cmd")}
	t := spec.Task{Name: "t", Env: level("task"), Deps: []string{"d"}}
	second := spec.Item{Cmd: "c2"}
	if piped {
		t.Run = []spec.Item{{Parallel: []spec.Item{first, second}}, {Cmd: "c3"}}
	} else {
		t.Run = []spec.Item{first, second}
	}
	d := spec.Task{Name: "d", Env: []spec.KV{{K: "DEP", V: "1"}}, Run: []spec.Item{{Cmd: "cd"}}}
	var f spec.File
	name := "t"
	if included {
		lib := &spec.File{Env: level("lib"), Tasks: []spec.Task{t, d}}
		f = spec.File{Vars: v, Env: level("root"), Includes: []spec.Include{{NS: "lib", Path: "lib/babfile.yml", File: lib}}, Tasks: []spec.Task{{Name: "x", Run: []spec.Item{{Cmd: "cx"}}}}}
		name = "lib:t"
	} else {
		f = spec.File{Vars: v, Env: level("root"), Tasks: []spec.Task{t, d}}
	}
	kit.Load(f)
	x := kit.New(f)
	err := kit.Run(context.Background(), name, false)
	x.Main(name)
	sym.Assert(err == nil, "the run failed: "+kit.Msg(err))
	kit.Env(x, base, piped)
}

// Colour: whether commands are told to colour their output, in a parallel block and in blocks
// and tasks within, with and without settings of the Babfile's own, and outside of it.
func Colour() {
	kit.Setup()
	base := os.Environ()
	inner := []spec.Item{{Cmd: "in"}, {Cmd: "in2"}}
	outer := sym.Choice("outer", 3)
	second := sym.Choice("inner", 3)
	shape := sym.Choice("shape", 3)
	u := spec.Task{Name: "u", Run: []spec.Item{{Cmd: "cu"}}}
	off := map[string]bool{"c1": outer == 2, "cu": outer == 2}
	if shape == 1 {
		u.Run = append(u.Run, spec.Item{Parallel: inner, Color: spec.Tri(second)})
		sym.Assume(!(outer == 2 && second == 1))
		off["in"] = outer == 2 || second == 2
		off["in2"] = off["in"]
	} else {
		sym.Assume(second == 0)
	}
	first := spec.Item{Cmd: "c1"}
	own := ""
	if sym.Flag("own") {
		k := []string{"NO_COLOR", "FORCE_COLOR", "TERM"}[sym.Choice("key", 3)]
		own = k
		first.Env = []spec.KV{{K: k, V: "mine"}}
	}
	b := spec.Item{Parallel: []spec.Item{first, {Task: "u"}}, Color: spec.Tri(outer), Limit: sym.Choice("limit", 2)}
	if shape == 2 {
		b.Mode = []string{"grouped", "tabs"}[sym.Choice("mode", 2)]
		modelrun.Terminal(false, true, true)
	}
	f := spec.File{Tasks: []spec.Task{{Name: "t", Run: []spec.Item{{Cmd: "before"}, b, {Cmd: "after"}}}, u}}
	kit.Load(f)
	x := kit.New(f)
	err := kit.Run(context.Background(), "t", false)
	x.Main("t")
	sym.Assert(err == nil, "the run failed: "+kit.Msg(err))
	kit.Env(x, base, true)
	for _, e := range modelrun.Events() {
		if e.Kind != "start" {
			continue
		}
		no, _ := e.Getenv("NO_COLOR")
		force, _ := e.Getenv("FORCE_COLOR")
		term, _ := e.Getenv("TERM")
		o, piped := off[e.Cmd]
		sym.Log("colour "+e.Cmd, no+"/"+force+"/"+term)
		mine := own != "" && e.Cmd == "c1"
		is := func(k, got, want string) {
			if mine && k == own {
				want = "mine" // what the Babfile says is what the command sees
			}
			sym.Assert(got == want, "command "+e.Cmd+" sees "+k+"="+got+", not "+want)
		}
		switch {
		case !piped:
			is("NO_COLOR", no, os.Getenv("NO_COLOR"))
			is("FORCE_COLOR", force, os.Getenv("FORCE_COLOR"))
			is("TERM", term, os.Getenv("TERM"))
		case o:
			is("NO_COLOR", no, "1")
			is("TERM", term, "dumb")
			is("FORCE_COLOR", force, os.Getenv("FORCE_COLOR"))
		default:
			is("NO_COLOR", no, os.Getenv("NO_COLOR"))
			is("FORCE_COLOR", force, "1")
			is("TERM", term, os.Getenv("TERM"))
		}
	}
}

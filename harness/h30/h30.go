// Package h30: where variables and prompt values are visible.
package h30

import (
	"context"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// scoped gives a task variables of its own and a prompt, or not, with commands that show v
// before and after the prompt, and what w, which refers to v, stands for.
func scoped(t *spec.Task) {
	n, full := t.Name, sym.Param("full", 0) > 0
	if sym.Flag("var." + n) {
		t.Vars = append(t.Vars, spec.KV{K: "v", V: "own" + n})
	}
	w := (full || n != "d") && sym.Flag("w."+n)
	if w {
		t.Vars = append(t.Vars, spec.KV{K: "w", V: "${{ v }}-" + n})
	}
	show := n + " ${{ v }}"
	if w {
		show += " ${{ w }}"
	}
	switch sym.Choice("prompt."+n, 3) {
	case 1:
		t.Run = append(t.Run, spec.Item{Cmd: "before " + show},
			spec.Item{Prompt: "v", Raw: []string{"type: input", "message: m", "default: answer" + n + "${{ v }}"}})
	case 2:
		t.Run = append(t.Run, spec.Item{Prompt: "q", Raw: []string{"type: confirm", "message: m", "default: " + quote("true")}})
		show += " ${{ q }}"
	}
	t.Run = append(t.Run, spec.Item{Cmd: show})
}

func quote(s string) string { return "\"" + s + "\"" }

func compare(x *spec.Exec, err error) {
	got, want := modelrun.Started(), x.Commands()
	sort.Strings(got)
	sort.Strings(want)
	g, w := strings.Join(got, ", "), strings.Join(want, ", ")
	sym.Log("started", g)
	sym.Log("err", kit.Msg(err))
	sym.Assert(g == w, "the commands started are "+g+", not "+w)
	if x.Error {
		sym.Assert(err != nil, "a variable of another task is visible")
	} else {
		sym.Assert(err == nil, "the run failed: "+kit.Msg(err))
	}
}

// Tasks: a task, one that depends on another, and one it refers to or runs in parallel,
// each with or without variables and prompts of the same names.
func Tasks() {
	kit.Setup()
	sym.Races(true)
	g := sym.StrN("g", 1, "ab")
	f := spec.File{Vars: []spec.KV{{K: "v", V: g}}}
	m := spec.Task{Name: "m"}
	d := spec.Task{Name: "d"}
	r := spec.Task{Name: "r"}
	scoped(&m)
	scoped(&d)
	rest := sym.Choice("rest", 3)
	if rest == 1 {
		// a task that uses a variable only others have
		r.Run = []spec.Item{{Cmd: "r ${{ w }}"}}
	} else if rest == 2 {
		r.Run = []spec.Item{{Cmd: "r ${{ q }}"}}
	} else {
		scoped(&r)
	}
	m.Deps = []string{"d"}
	last := spec.Item{Cmd: "end ${{ v }}"}
	switch sym.Choice("via", 4) {
	case 0:
		m.Deps = append(m.Deps, "r")
	case 1:
		m.Run = append(m.Run, spec.Item{Task: "r"}, last)
	case 2:
		m.Run = append(m.Run, spec.Item{Parallel: []spec.Item{{Task: "r"}, {Cmd: "side ${{ v }}"}}}, last)
	case 3:
		d.Deps = []string{"r"}
	}
	f.Tasks = []spec.Task{m, d, r}
	name := "m"
	if sym.Param("include", 1) > 0 && sym.Flag("included") {
		lib := f
		lib.Vars = nil
		if sym.Param("full", 0) == 0 || sym.Flag("libvar") {
			lib.Vars = []spec.KV{{K: "v", V: "lib${{ u }}"}}
		}
		f = spec.File{Vars: []spec.KV{{K: "v", V: g}, {K: "u", V: "top"}}, Includes: []spec.Include{{NS: "n", Path: "lib/babfile.yml", File: &lib}},
			Tasks: []spec.Task{{Name: "m", Deps: []string{"n:m"}, Run: []spec.Item{{Cmd: "top ${{ v }}"}}}}}
	}
	kit.Load(f)
	x := kit.New(f)
	err := kit.Run(context.Background(), name, false)
	x.Main(name)
	if x.Error {
		// where items run side by side, those that do not fail may or may not run
		sym.Assert(err != nil, "a variable of another task is visible")
		for _, c := range modelrun.Started() {
			sym.Assert(!strings.HasPrefix(c, "r "), "command "+c+" was started with a variable of another task")
		}
		return
	}
	compare(x, err)
}

// Siblings: items of a parallel block whose tasks ask for values of the same variable.
func Siblings() {
	kit.Setup()
	sym.Races(true)
	f := spec.File{Vars: []spec.KV{{K: "v", V: "g"}}}
	m := spec.Task{Name: "m", Vars: []spec.KV{{K: "w", V: "mw"}}}
	a, b := spec.Task{Name: "a"}, spec.Task{Name: "b"}
	scoped(&a)
	scoped(&b)
	par := spec.Item{Parallel: []spec.Item{{Task: "a"}, {Task: "b"}, {Cmd: "side ${{ v }} ${{ w }}"}}}
	m.Run = []spec.Item{{Prompt: "w", Raw: []string{"type: input", "message: m", "default: asked"}}, par, {Cmd: "end ${{ v }} ${{ w }}"}}
	f.Tasks = []spec.Task{m, a, b}
	kit.Load(f)
	x := kit.New(f)
	err := kit.Run(context.Background(), "m", false)
	x.Main("m")
	compare(x, err)
}

// Package h20: aliases and completion.
package h20

import (
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// named pairs what can be typed with the task it means.
type named struct{ typed, task string }

func file() (spec.File, []named) {
	if sym.Param("order", 0) > 0 {
		return spec.File{Tasks: []spec.Task{
				{Name: "b", Alias: "a", Aliases: []string{"ab"}, Run: []spec.Item{{Cmd: "cb"}}},
				{Name: "abx", Desc: "about", Run: []spec.Item{{Cmd: "cabx"}}},
				{Name: "x", Desc: "about", Alias: "b:x", Run: []spec.Item{{Cmd: "cx"}}}}},
			[]named{{"b", "b"}, {"a", "b"}, {"ab", "b"}, {"abx", "abx"}, {"x", "x"}, {"b:x", "x"}}
	}
	sub := &spec.File{Tasks: []spec.Task{{Name: "z", Aliases: []string{"a"}, Run: []spec.Item{{Cmd: "cz"}}}}}
	lib := &spec.File{
		Vars:     []spec.KV{{K: "v", V: "lib"}},
		Includes: []spec.Include{{NS: "m", Path: "sub.yml", File: sub}},
		Tasks: []spec.Task{
			{Name: "x", Alias: "a", Desc: "about x", Deps: []string{"b"}, Run: []spec.Item{{Cmd: "cx ${{ v }}"}}},
			{Name: "b", Run: []spec.Item{{Cmd: "cb"}}}}}
	f := spec.File{
		Vars:     []spec.KV{{K: "v", V: "root"}},
		Includes: []spec.Include{{NS: "n", Path: "lib/lib.yml", File: lib}},
		Tasks: []spec.Task{
			{Name: "b", Desc: "about b", Alias: "a", Aliases: []string{"ab", "n:"}, Deps: []string{"x"}, Run: []spec.Item{{Cmd: "crb ${{ v }}"}}},
			{Name: "x", Run: []spec.Item{{Cmd: "crx"}}},
			{Name: "bx", Aliases: []string{"xb", "m:z"}, Run: []spec.Item{{Task: "b"}, {Cmd: "cbx"}}}}}
	return f, []named{{"b", "b"}, {"x", "x"}, {"bx", "bx"}, {"a", "b"}, {"ab", "b"}, {"n:", "b"}, {"xb", "bx"}, {"m:z", "bx"},
		{"n:x", "n:x"}, {"n:b", "n:b"}, {"n:a", "n:x"}, {"n:m:z", "n:m:z"}, {"n:m:a", "n:m:z"}}
}

const letters = "abmnxz: X"

// Run: any text as the name of the task.
func Run() {
	kit.Setup()
	f, names := file()
	kit.Load(f)
	model.Chdir(model.Root())
	name := sym.Str1("name", sym.Param("len", 5), letters)
	task := ""
	for _, n := range names {
		if name == n.typed {
			task = n.task
		}
	}
	if task == "" {
		code := kit.Bab(name)
		sym.Assert(len(modelrun.Started()) == 0, "an unknown name starts "+strings.Join(modelrun.Started(), ", "))
		sym.Assert(code == 1, "an unknown name is not an error")
		return
	}
	x := kit.New(f)
	x.Main(task)
	sym.MapSame(true)
	sym.MapOrder(sym.Param("order", 0) > 0)
	code := kit.Bab(name)
	sym.MapOrder(false)
	sym.Assert(code == 0, "a task run as "+name+" fails")
	kit.Order(x, nil)
	kit.Headers(x)
}

// Alias: a task with any alias, in any of the files, run by it.
func Alias() {
	kit.Setup()
	f, names := file()
	ns := []string{"", "n:", "n:m:"}[sym.Choice("file", 3)]
	alias := sym.Str1("alias", sym.Param("len", 3), "abx-_Z9")
	sym.Assume(alias[0] != '-')
	for _, n := range names {
		sym.Assume(n.typed != ns+alias)
	}
	var t *spec.Task
	lib := f.Includes[0].File
	task := ""
	switch ns {
	case "":
		t, task = &f.Tasks[1], "x"
	case "n:":
		t, task = &lib.Tasks[1], "n:b"
	case "n:m:":
		t, task = &lib.Includes[0].File.Tasks[0], "n:m:z"
	}
	if sym.Flag("list") {
		t.Aliases = append(t.Aliases, alias)
	} else {
		t.Alias = alias
	}
	kit.Load(f)
	model.Chdir(model.Root())
	x := kit.New(f)
	x.Main(task)
	var args []string
	if sym.Flag("elsewhere") {
		args = kit.Elsewhere()
	}
	code := kit.Bab(append(args, ns+alias)...)
	sym.Assert(code == 0, "a task run by its alias fails")
	kit.Order(x, nil)
	kit.Headers(x)
}

// Complete: any text typed so far.
func Complete() {
	kit.Setup()
	f, names := file()
	var args []string
	if sym.Flag("b") {
		args = kit.Elsewhere()
	}
	kit.Load(f)
	if len(args) == 0 {
		model.Chdir(model.Root())
	}
	typed := sym.Str("typed", sym.Param("len", 4), letters)
	var want []string
	for _, n := range names {
		if strings.HasPrefix(n.typed, typed) {
			want = append(want, n.typed)
		}
	}
	sort.Strings(want)
	sym.MapSame(true)
	sym.MapOrder(sym.Param("order", 0) > 0)
	code := kit.Bab(append(append([]string{"__complete"}, args...), typed)...)
	sym.MapOrder(false)
	sym.Assert(code == 0, "completion fails")
	var got []string
	for _, l := range strings.Split(model.Stdout(), "\n") {
		if l == "" || l[0] == ':' {
			continue
		}
		if i := strings.IndexByte(l, '\t'); i >= 0 {
			l = l[:i]
		}
		got = append(got, l)
	}
	sym.Log("got", strings.Join(got, " "))
	sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "completed are "+strings.Join(got, " ")+", not "+strings.Join(want, " "))
	sym.Assert(len(modelrun.Started()) == 0, "completion runs commands")
}

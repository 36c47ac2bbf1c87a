package h25

import (
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// suggested is what the one error a run of the program reported suggests.
func suggested(what string) (string, bool) {
	msg := strings.Join(kit.Reported("error"), "\n")
	sym.Log("error", msg)
	i := strings.Index(msg, what)
	if i < 0 {
		return "", false
	}
	const mean = " (did you mean \""
	j := strings.Index(msg, mean)
	if j < 0 {
		return "", true
	}
	rest := msg[j+len(mean):]
	k := strings.Index(rest, "\"?)")
	sym.Assert(k >= 0, "the suggestion is not closed")
	sym.Assert(!strings.Contains(rest[k:], mean), "more than one suggestion for one name")
	return rest[:k], true
}

func missing(name string, cands []string) bool {
	m := true
	for _, c := range cands {
		if c == name {
			m = false
		}
	}
	return m
}

// Tasks: a name that no task has, on the command line or referred to from a task of the root
// Babfile or of an included one.
func Tasks() {
	kit.Setup()
	n := sym.Param("len", 3)
	name := sym.StrN("name", n, "abz"[:sym.Param("letters", 3)])
	lib := spec.File{Tasks: []spec.Task{{Name: "bab", Alias: "zaz", Run: []spec.Item{{Cmd: "c"}}}}}
	f := spec.File{Includes: []spec.Include{{NS: "b", Path: "lib/lib.yml", File: &lib}},
		Tasks: []spec.Task{
			{Name: "abc", Run: []spec.Item{{Cmd: "c"}}},
			{Name: "Azz", Alias: "zba", Run: []spec.Item{{Cmd: "c"}}},
			{Name: "BBA2", Aliases: []string{"aaz", "q"}, Run: []spec.Item{{Cmd: "c"}}}}}
	cands := []string{"abc", "Azz", "BBA2", "b:bab"}
	where := &f
	who, arg := name, ""
	site := sym.Choice("site", 7)
	if site >= 4 {
		// from the included file the name is one of that file's
		where, who = &lib, "b:"+name
	}
	bad := spec.Task{Name: "bad"}
	switch site {
	case 0:
		arg = name
		// on the command line an alias is as good as a name
		cands = append(cands, "zba", "aaz", "q", "b:zaz")
	case 1, 4:
		bad.Deps = []string{name}
	case 2, 5:
		bad.Run = []spec.Item{{Task: name}}
	case 3, 6:
		bad.Run = []spec.Item{{Cmd: "c"}, {Parallel: []spec.Item{{Cmd: "c"}, {Task: name}}}}
	}
	if site != 0 {
		where.Tasks = append(where.Tasks, bad)
		cands = append(cands, []string{"bad", "b:bad"}[site/4])
		arg = "abc"
	}
	sym.Assume(missing(who, cands))
	kit.LoadAs(f)
	code := kit.Bab(arg)
	sym.Assert(code != 0, "a name that does not exist is accepted")
	got, ok := suggested("task \"" + who + "\" not found")
	sym.Assert(ok, "the error does not name the task that does not exist")
	verdict(who, cands, got)
}

// Variables: a name that no variable has, in every place a variable can be used.
func Variables() {
	kit.Setup()
	n := sym.Param("len", 3)
	sym.MapOrder(sym.Param("order", 0) > 0)
	name := sym.StrN("name", n, "abz"[:sym.Param("letters", 3)])
	ref := "x${{ " + name + " }}"
	globals := []spec.KV{{K: "abc", V: "1"}}
	own := []spec.KV{{K: "Azz", V: "2"}}
	t := spec.Task{Name: "t", Vars: own}
	f := spec.File{Vars: globals}
	cands := []string{"abc", "Azz"}
	site := sym.Param("first", 0) + sym.Choice("site", sym.Param("sites", 10))
	switch site {
	case 0:
		t.Run = []spec.Item{{Cmd: ref}}
	case 1:
		t.Run = []spec.Item{{Log: ref}}
	case 2:
		t.Run = []spec.Item{{Cmd: "c", When: ref}}
	case 3:
		t.Run = []spec.Item{{Cmd: "c", Env: []spec.KV{{K: "E", V: ref}}}}
	case 4:
		t.Run = []spec.Item{{Cmd: "c", Dir: ref}}
	case 5:
		t.Run = []spec.Item{{Prompt: "bbz", Raw: []string{"type: input", "message: m", "default: d"}}, {Cmd: ref}}
		cands = append(cands, "bbz")
	case 6:
		t.Vars = append(t.Vars, spec.KV{K: "zba", V: ref})
		cands = append(cands, "zba")
		t.Run = []spec.Item{{Cmd: "c"}}
	case 7:
		f.Vars = append(f.Vars, spec.KV{K: "zba", V: ref})
		t.Run = []spec.Item{{Cmd: "c"}}
		cands = []string{"abc", "zba"}
	case 8:
		t.Run = []spec.Item{{Parallel: []spec.Item{{Cmd: ref}}}}
	case 9:
		t.Env = []spec.KV{{K: "E", V: ref}}
		t.Run = []spec.Item{{Cmd: "c"}}
	}
	sym.Assume(missing(name, cands))
	f.Tasks = []spec.Task{t}
	arg := "t"
	if sym.Param("include", 1) > 0 && sym.Flag("included") {
		lib := f
		lib.Vars = append([]spec.KV{}, f.Vars...)
		f = spec.File{Vars: []spec.KV{{K: "zzb", V: "3"}}, Includes: []spec.Include{{NS: "n", Path: "lib/lib.yml", File: &lib}},
			Tasks: []spec.Task{{Name: "u", Run: []spec.Item{{Cmd: "c"}}}}}
		arg = "n:t"
		// an included file sees the variables of the one that includes it
		cands = append(cands, "zzb")
		sym.Assume(missing(name, cands))
	}
	kit.LoadAs(f)
	code := kit.Bab(arg)
	sym.Assert(code != 0, "a variable that does not exist is accepted")
	got, ok := suggested("undefined variable: " + name)
	sym.Assert(ok, "the error does not name the variable that does not exist")
	verdict(name, cands, got)
}

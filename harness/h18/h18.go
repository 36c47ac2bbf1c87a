// Package h18: references and aliases of an accepted Babfile.
package h18

import (
	"errors"
	"strings"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// The tasks: a and b in the root file, x and y in the included one, z in the one it includes;
// or just a, b and x.
var names = []string{"a", "b", "n:x", "n:y", "n:m:z"}

func small() bool { return sym.Param("order", 0) > 0 }

const letters = "abmnxyz:_"

type files struct{ root, lib, sub spec.File }

func base() *files {
	f := &files{}
	f.root.Tasks = []spec.Task{{Name: "a", Desc: "d"}, {Name: "b", Desc: "d"}}
	f.lib.Tasks = []spec.Task{{Name: "x", Desc: "d"}, {Name: "y", Desc: "d"}}
	f.sub.Tasks = []spec.Task{{Name: "z", Desc: "d"}}
	if small() {
		names = names[:3]
		f.lib.Tasks = f.lib.Tasks[:1]
	}
	return f
}

func (f *files) load() {
	if !small() {
		f.lib.Includes = []spec.Include{{NS: "m", Path: "sub.yml", File: &f.sub}}
	}
	f.root.Includes = []spec.Include{{NS: "n", Path: "lib/lib.yml", File: &f.lib}}
	kit.Load(f.root)
}

// task is the task of index i of names, with the prefix its names get.
func (f *files) task(i int) (*spec.Task, string) {
	switch i {
	case 0, 1:
		return &f.root.Tasks[i], ""
	case 2, 3:
		return &f.lib.Tasks[i-2], "n:"
	}
	return &f.sub.Tasks[0], "n:m:"
}

func isTask(s string) bool {
	for _, n := range names {
		if s == n {
			return true
		}
	}
	return false
}

// refer adds a reference to name to the task.
func refer(t *spec.Task, kind int, name string) {
	switch kind {
	case 0:
		t.Deps = append(t.Deps, name)
	case 1:
		t.Run = append(t.Run, spec.Item{Cmd: "c"}, spec.Item{Task: name})
	case 2:
		t.Run = append(t.Run, spec.Item{Parallel: []spec.Item{{Cmd: "c"}, {Task: name}}})
	}
}

// named asserts that the error names what it is about: a short name in its text, any name in
// what it carries.
func named(err error, full string, short bool) {
	if short {
		n := sym.ConcStr(full)
		msg := err.Error()
		sym.Assert(strings.Contains(msg, "\""+n+"\""), "the offender "+n+" is not named: "+msg)
		return
	}
	var all *errs.ValidationErrors
	if !errors.As(err, &all) {
		return
	}
	found := false
	for _, e := range all.Errors {
		var m *errs.TaskNotFoundError
		var c *errs.AliasConflictError
		var d *errs.DuplicateAliasError
		switch {
		case errors.As(e, &m):
			found = found || m.TaskName == full
		case errors.As(e, &c):
			found = found || c.Alias == full
		case errors.As(e, &d):
			found = found || d.Alias == full
		default:
			return
		}
	}
	sym.Assert(found, "the offender is not named")
}

// Refs: a reference with any name, from any task by any kind of edge, next to another one that
// may dangle as well.
func Refs() {
	kit.Setup()
	f := base()
	// an alias is a name for the command line, not for a reference
	f.root.Tasks[1].Alias = "_"
	f.lib.Tasks[0].Aliases = []string{"_a", "_"}
	f.sub.Tasks[0].Alias = "_"
	from, kind := sym.Choice("from", len(names)), sym.Choice("kind", 3)
	t, prefix := f.task(from)
	name := sym.Str1("name", sym.Param("len", 5)-len(prefix), letters)
	refer(t, kind, name)
	full := prefix + name

	other := 0
	if sym.Param("other", 1) > 0 {
		other = sym.Choice("other", 4)
	}
	if other > 0 {
		u, _ := f.task((from + 2) % len(names))
		refer(u, other-1, "gone")
	}
	f.load()
	sym.MapSame(true)
	sym.MapOrder(sym.Param("order", 0) > 0)
	_, err := parser.Parse(kit.Path())
	sym.MapOrder(false)
	if full == names[from] {
		sym.Assert(err != nil, "a task that refers to itself is accepted")
		return
	}
	ok := isTask(full)
	if other == 0 && ok {
		sym.Assert(err == nil, "a reference to an existing task is rejected")
		return
	}
	sym.Assert(err != nil, "a reference to a missing task is accepted")
	if !ok {
		named(err, full, len(name) == 1)
	}
	if other > 0 {
		_, p := f.task((from + 2) % len(names))
		named(err, p+"gone", len(name) == 1)
	}
}

// Aliases: two aliases with any name, of one task or of two, in root and included files.
func Aliases() {
	kit.Setup()
	f := base()
	of := [2]int{sym.Choice("first", len(names)), 0}
	of[1] = of[0] + sym.Choice("second", len(names)-of[0])
	var full, short [2]string
	for i := range of {
		t, p := f.task(of[i])
		s := sym.Str1("alias", sym.Param("len", 3), letters)
		full[i], short[i] = p+s, s
		if t.Alias == "" && (i == 1 || sym.Flag("single")) {
			t.Alias = s
		} else {
			t.Aliases = append(t.Aliases, s)
		}
	}
	f.load()
	sym.MapSame(true)
	sym.MapOrder(sym.Param("order", 0) > 0)
	_, err := parser.Parse(kit.Path())
	sym.MapOrder(false)

	var bad []string
	for i := range full {
		if isTask(full[i]) {
			bad = append(bad, full[i])
		}
	}
	if full[0] == full[1] {
		if of[0] == of[1] {
			return // listed twice
		}
		bad = append(bad, full[0])
	}
	if len(bad) == 0 {
		sym.Assert(err == nil, "unambiguous aliases are rejected")
		return
	}
	sym.Assert(err != nil, "an ambiguous alias is accepted")
	for _, b := range bad {
		named(err, b, len(short[0])+len(short[1]) <= 2)
	}
}

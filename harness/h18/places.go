package h18

import (
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// four are the files of Places: the root file, the two it includes and one more.
func four(deco func(ns string, t *spec.Task)) spec.File {
	tasks := func(ns string) []spec.Task {
		l := []spec.Task{{Name: "ok", Run: []spec.Item{{Cmd: "c"}}}, {Name: "t"}, {Name: "other", Run: []spec.Item{{Cmd: "o"}}}}
		deco(ns, &l[1])
		if len(l[1].Run)+len(l[1].Deps) == 0 {
			l[1].Run = []spec.Item{{Cmd: "t"}}
		}
		return l
	}
	sub := &spec.File{Tasks: tasks("n2:m:")}
	return spec.File{Tasks: tasks(""), Includes: []spec.Include{
		{NS: "n1", Path: "lib/one.yml", File: &spec.File{Tasks: tasks("n1:")}},
		{NS: "n2", Path: "lib/two.yml", File: &spec.File{Tasks: tasks("n2:"), Includes: []spec.Include{{NS: "m", Path: "sub/three.yml", File: sub}}}}}}
}

var spaces = []string{"", "n1:", "n2:", "n2:m:"}

// verdict has the whole program load the file in any way and compares.
func verdict(f spec.File, bad []string) {
	kit.LoadAs(f)
	model.Chdir(model.Root())
	modelrun.Terminal(true, true, true)
	var args []string
	switch sym.Choice("way", 4) {
	case 0:
		args = append(kit.Elsewhere(), "--validate")
	case 1:
		args = []string{"--validate"}
	case 2:
		args = []string{"-n", "ok"}
	case 3:
		args = []string{"n1:ok"}
	}
	code := kit.Bab(args...)
	if len(bad) == 0 {
		sym.Assert(code == 0, "a Babfile without dangling reference or ambiguous alias is rejected: "+strings.Join(kit.Reported("error"), "; "))
		return
	}
	sym.Assert(code == 1, "a Babfile is accepted although of what it names there is no or more than one: "+strings.Join(bad, ", "))
	sym.Assert(len(modelrun.Started()) == 0, "a command of an invalid Babfile is started: "+strings.Join(modelrun.Started(), ", "))
	said := strings.Join(kit.Reported("error"), "\n")
	for _, b := range bad {
		sym.Assert(strings.Contains(said, b), "the offender "+b+" is not named: "+said)
	}
}

// Places: a reference at any place among others, below any conditions, in any of four files, to
// a task that is there or not.
func Places() {
	kit.Setup()
	ns := spaces[sym.Choice("file", len(spaces))]
	kind, at, n := sym.Choice("kind", 3), sym.Choice("at", 3), 3
	cover := sym.Choice("below", 7)
	name := []string{"other", "gone", "n1:other", "m:other"}[sym.Choice("name", 4)]
	same := sym.Flag("same") // what stands around it refers to it, too
	f := four(func(s string, t *spec.Task) {
		if s != ns {
			return
		}
		var items []spec.Item
		for i := 0; i < n; i++ {
			to := "ok"
			if i == at {
				to = name
			}
			if kind == 0 {
				t.Deps = append(t.Deps, to)
				continue
			}
			it := spec.Item{Task: to}
			if i != at && !same {
				it = spec.Item{Cmd: "c"}
				if kind == 1 && i%2 == 0 {
					it = spec.Item{Parallel: []spec.Item{{Cmd: "c1"}, {Task: "ok"}}}
				}
			}
			if i == at {
				switch cover {
				case 1:
					it.When = "false"
				case 2:
					it.Platforms = []string{"windows"}
				case 3:
					it.Silent, it.Output = spec.Yes, spec.No
				}
			}
			items = append(items, it)
		}
		switch cover {
		case 4:
			t.When = "false"
		case 5:
			t.Vars, t.Env, t.Dir = []spec.KV{{K: "v", V: "x"}}, []spec.KV{{K: "E", V: "x"}}, "."
		}
		if kind == 2 {
			b := spec.Item{Parallel: items}
			if cover == 6 {
				b.When, b.Mode, b.Limit = "false", "tabs", 2
			}
			items = []spec.Item{{Log: "l"}, b}
			if !same {
				items = append([]spec.Item{{Parallel: []spec.Item{{Cmd: "c1"}, {Cmd: "c2"}}}}, items...)
			} else {
				items = append(items, spec.Item{Parallel: []spec.Item{{Cmd: "c1"}, {Cmd: "c2"}}})
			}
		}
		t.Run = items
	})
	full := ns + name
	there := name == "other" || full == "n1:other" || full == "n2:m:other"
	var bad []string
	if !there {
		bad = append(bad, full)
	}
	verdict(f, bad)
}

// Owners: aliases of tasks in four files, each alone or at any place of a list.
func Owners() {
	kit.Setup()
	a, b := sym.Choice("first", len(spaces)), sym.Choice("second", len(spaces))
	words := []string{"k", "n1:k", "m:k", "n2:m:k", "t", "n1:t", "n2:m:other", "other"}
	wa, wb := words[sym.Choice("alias", len(words))], words[sym.Choice("alias", len(words))]
	give := func(t *spec.Task, w, id string, kind int) {
		switch kind {
		case 0:
			t.Alias = w
		case 1:
			t.Aliases = []string{w, "x" + id, "y" + id}
		case 2:
			t.Alias, t.Aliases = "z"+id, []string{"x" + id, w}
		case 3:
			t.Alias, t.Aliases = w, []string{"x" + id}
		}
	}
	f := four(func(s string, t *spec.Task) {
		if s == spaces[a] {
			give(t, wa, "1", sym.Choice("kind", 4))
		}
	})
	at := func(ns string) *spec.File {
		switch ns {
		case "n1:":
			return f.Includes[0].File
		case "n2:":
			return f.Includes[1].File
		case "n2:m:":
			return f.Includes[1].File.Includes[0].File
		}
		return &f
	}
	give(&at(spaces[b]).Tasks[2], wb, "2", 1+sym.Choice("kind", 2))
	fa, fb := spaces[a]+wa, spaces[b]+wb
	var bad []string
	for _, w := range []string{fa, fb} {
		for _, ns := range spaces {
			if w == ns+"t" || w == ns+"other" || w == ns+"ok" {
				bad = append(bad, w)
			}
		}
	}
	if fa == fb && len(bad) == 0 {
		bad = append(bad, fa)
	}
	verdict(f, bad)
}

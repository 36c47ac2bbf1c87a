// Package h24: which Babfile is used.
package h24

import (
	"errors"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

var names = []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}

// the directories, the innermost first
var dirs = []string{"a/b", "a", ""}

// entry is what lies at a path: nothing, a file or a directory.
type entry struct {
	dir, name, kind int
}

func rel(d, n int) string {
	if dirs[d] == "" {
		return names[n]
	}
	return dirs[d] + "/" + names[n]
}

func (e entry) make() {
	switch e.kind {
	case 1:
		model.Write(model.P(rel(e.dir, e.name)), "tasks: {t: {run: [{cmd: 'of "+rel(e.dir, e.name)+"'}]}}\n")
	case 2:
		model.Mkdir(model.P(rel(e.dir, e.name)))
	case 3: // a link to a directory
		model.Link(model.P(rel(e.dir, e.name)), model.P("other"))
	case 4: // a link to nothing
		model.Link(model.P(rel(e.dir, e.name)), "nowhere")
	}
}

// first is the file that must be used, searching from a directory on.
func first(es []entry, from int) string {
	for d := from; d < len(dirs); d++ {
		for n := range names {
			for _, e := range es {
				if e.dir == d && e.name == n && e.kind == 1 {
					return rel(d, n)
				}
			}
		}
	}
	return ""
}

// noise is what must not be taken for a Babfile.
func noise() {
	model.Mkdir(model.P("a/b"))
	model.Mkdir(model.P("other"))
	model.Mkdir(model.P("a/b/.git")) // neither a repository nor the home directory ends the search
	model.Mkdir(model.P("a/.git"))
	model.SetEnv("HOME", model.P("a"))
	model.SetEnv("PWD", model.P("other")) // what the variable says is not where bab is
	for _, d := range []string{"", "a/", "a/b/", "other/"} {
		for _, n := range []string{"Babfile.yml.bak", "BABFILE", "babfile", ".babfile.yml", "Babfile.json"} {
			model.Write(model.P(d+n), "tasks: {t: {run: [{cmd: wrong}]}}\n")
		}
	}
	model.Write(model.P("other/Babfile"), "tasks: {t: {run: [{cmd: wrong}]}}\n")
	model.Write(model.P("a/b/c/Babfile"), "tasks: {t: {run: [{cmd: wrong}]}}\n")
}

func check(es []entry, from int) {
	for _, e := range es {
		e.make()
	}
	want := first(es, from)
	model.Chdir(model.P(dirs[from]))
	r, err := runner.LoadTasks("")
	if want == "" {
		sym.Assert(err != nil, "a Babfile is found where there is none")
		sym.Assert(errors.Is(err, errs.ErrBabfileNotFound), "the error does not say that there is no Babfile: "+kit.Msg(err))
		return
	}
	sym.Assert(err == nil, "the Babfile "+want+" is not used: "+kit.Msg(err))
	sym.Log("path", model.Rel(r.Path))
	sym.Assert(r.Path == model.P(want), "the Babfile "+model.Rel(r.Path)+" is used, not "+want)
}

// Names: each of the names at one place or none, as file or directory.
func Names() {
	noise()
	from := sym.Choice("from", len(dirs))
	var es []entry
	for n := range names {
		k := sym.Choice(names[n], 2*len(dirs)+1)
		if k > 0 {
			es = append(es, entry{(k - 1) / 2, n, 1 + (k-1)%2})
		}
	}
	check(es, from)
}

// Deep: a directory many levels below the one with the Babfile, and one above it.
func Deep() {
	kit.Setup()
	n := sym.Param("depth", 24)
	at := sym.Choice("at", n+1)
	above := sym.Flag("above")
	if sym.Flag("pwd") {
		model.SetEnv("PWD", model.Root())
	}
	dir := ""
	for i := 0; i <= n; i++ {
		if i == at || above && i < at {
			model.Write(model.P(dir+names[sym.Choice("name", len(names))]), "tasks: {t: {run: [{cmd: c"+strconv.Itoa(i)+"}]}}\n")
			above = false
		}
		if i < n {
			dir += strings.Repeat("d", 1+i%3) + "/"
			model.Mkdir(model.P(dir[:len(dir)-1]))
		}
	}
	model.Chdir(model.P(strings.TrimSuffix(dir, "/")))
	code := kit.Bab("t")
	got := strings.Join(modelrun.Started(), ", ")
	sym.Assert(code == 0 && got == "c"+strconv.Itoa(at), "the command started is "+got+", not c"+strconv.Itoa(at))
}

// Links: a link to a Babfile is one, a link to a directory or to nothing is none.
func Links() {
	noise()
	from := sym.Choice("from", len(dirs))
	a := sym.Choice("at", len(dirs)*len(names))
	b := sym.Choice("at", len(dirs)*len(names))
	sym.Assume(a != b)
	es := []entry{{a / len(names), a % len(names), 1}, {b / len(names), b % len(names), 3 + sym.Choice("kind", 3)}}
	if es[1].kind == 5 {
		es[1].kind = 1
		model.Write(model.P("other/linked.yml"), "tasks: {t: {run: [{cmd: linked}]}}\n")
		model.Link(model.P(rel(es[1].dir, es[1].name)), model.P("other/linked.yml"))
		want := first(es, from)
		es[0].make()
		model.Chdir(model.P(dirs[from]))
		r, err := runner.LoadTasks("")
		if want == "" {
			sym.Assert(errors.Is(err, errs.ErrBabfileNotFound), "the error does not say that there is no Babfile: "+kit.Msg(err))
			return
		}
		sym.Assert(err == nil, "the Babfile "+want+" is not used: "+kit.Msg(err))
		linked := false
		for _, it := range r.Tasks["t"].Run {
			c, ok := it.(babfile.CommandRun)
			linked = ok && c.Cmd == "linked"
		}
		sym.Assert(linked == (want == rel(es[1].dir, es[1].name)), "another Babfile than "+want+" is used")
		return
	}
	check(es, from)
}

// Same: three entries anywhere, among them the same name in several places.
func Same() {
	noise()
	from := sym.Choice("from", len(dirs))
	var es []entry
	last := -1
	for i := 0; i < 3; i++ {
		at := last + 1 + sym.Choice("at"+string(rune('0'+i)), len(dirs)*len(names)-last-3+i)
		last = at
		es = append(es, entry{at / len(names), at % len(names), 1 + sym.Choice("kind"+string(rune('0'+i)), 2)})
	}
	check(es, from)
}

// Named: a Babfile named on the command line, absolute or relative, there or not; and the
// whole program without.
func Named() {
	kit.Setup()
	noise()
	from := sym.Choice("from", len(dirs))
	var es []entry
	for d := range dirs {
		if k := sym.Choice("in "+dirs[d], len(names)+1); k > 0 {
			es = append(es, entry{d, k - 1, 1})
		}
	}
	for _, e := range es {
		e.make()
	}
	want := "of " + first(es, from)
	model.Chdir(model.P(dirs[from]))
	var args []string
	if sym.Flag("named") {
		p := sym.Choice("path", 4)
		args = []string{"-b", []string{model.P("other/mine.yml"), strings.Repeat("../", 2-from) + "other/mine.yml", model.P("other"), "Babfile.yml"}[p]}
		model.Write(model.P("other/mine.yml"), "tasks: {t: {run: [{cmd: mine}]}}\n")
		switch p {
		case 2:
			want = ""
		case 3:
			want = ""
			for _, e := range es {
				if e.dir == from && e.name == 2 {
					want = "of " + rel(e.dir, e.name)
				}
			}
		default:
			want = "mine"
		}
	}
	code := kit.Bab(append(args, "t")...)
	got := strings.Join(modelrun.Started(), ", ")
	if want == "" || want == "of " {
		sym.Assert(got == "" && code == 1, "a missing Babfile is not an error")
		sym.Assert(len(kit.Reported("error")) == 1, "a missing Babfile is not reported")
		return
	}
	sym.Assert(got == want && code == 0, "the command started is "+got+", not "+want)
}

// Modes: whatever bab is asked for, it uses the same Babfile: the one named or the nearest.
func Modes() {
	kit.Setup()
	noise()
	modelrun.Terminal(true, true, true)
	from := sym.Choice("from", len(dirs))
	at := sym.Choice("at", len(dirs)+1)
	named := sym.Choice("named", 4)
	mode := sym.Choice("mode", 6)
	fault := sym.Choice("fault", 3)
	one := func(name string) string {
		bad := ""
		if fault == 1 && name == "near" || fault == 2 && name == "mine" {
			bad = ", deps: [gone]"
		}
		return "tasks: {" + name + ": {desc: about, alias: a" + name + ", run: [{cmd: 'run " + name + "'}]" + bad + "}}\n"
	}
	if at < len(dirs) {
		model.Write(model.P(rel(at, 2)), one("near"))
	}
	model.Write(model.P("other/mine.yml"), one("mine"))
	model.Chdir(model.P(dirs[from]))
	want := ""
	if at < len(dirs) && at >= from {
		want = "near"
	}
	var args []string
	if named > 0 {
		want = "mine"
		path := model.P("other/mine.yml")
		if named == 2 {
			path = strings.Repeat("../", 2-from) + "other/mine.yml"
		}
		args = []string{"-b", path}
		if named == 3 {
			args = []string{"--babfile=" + path}
		}
	}
	typed := want
	if want == "" {
		typed = "near"
	}
	bad := want == "" || fault == 1 && want == "near" || fault == 2 && want == "mine"
	switch mode {
	case 0:
		args = append(args, typed)
	case 1:
		args = append(args, "--list")
	case 2:
		args = append(args, "--validate")
	case 3:
		args = append(append([]string{"__complete"}, args...), "")
	case 4:
		modeltea.Type("enter")
	case 5:
		args = append(args, "--dry-run", "a"+typed)
	}
	code := kit.Bab(args...)
	out := model.Stdout()
	started := strings.Join(modelrun.Started(), ", ")
	if mode == 3 {
		has := func(n string) bool { return strings.Contains(out, n) }
		sym.Assert(started == "", "completion starts "+started)
		sym.Assert(has("mine") == (!bad && want == "mine") && has("near") == (!bad && want == "near"), "completed is "+strconv.Quote(out)+", not what belongs to "+want)
		return
	}
	if bad {
		sym.Assert(code == 1 && started == "", "a Babfile that is missing or invalid is used: "+started)
		sym.Assert(modeltea.Runs == 0, "the picker is shown for a Babfile that is missing or invalid")
		return
	}
	sym.Assert(code == 0, "the Babfile to use is not used: "+strings.Join(kit.Reported("error"), "; "))
	switch mode {
	case 0, 4:
		sym.Assert(started == "run "+want, "the command started is "+started+", not run "+want)
	default:
		sym.Assert(started == "", "a command is started: "+started)
	}
	if mode == 1 {
		for _, n := range []string{"mine", "near"} {
			sym.Assert(strings.Contains(out, n) == (n == want), "the list is "+strconv.Quote(out)+", not that of "+want)
		}
	}
}

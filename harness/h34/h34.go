// Package h34: the listing.
package h34

import (
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// entry is a line of the listing.
type entry struct {
	depth int
	name  string // the last part of the name
	alias []string
	desc  string
	task  bool
}

// collect lists the tasks of a file and its includes by their full names.
func collect(f *spec.File, ns string, m map[string]entry) {
	for i := range f.Tasks {
		t := &f.Tasks[i]
		e := entry{desc: t.Desc, task: true}
		if t.Alias != "" {
			e.alias = append(e.alias, ns+t.Alias)
		}
		for _, a := range t.Aliases {
			e.alias = append(e.alias, ns+a)
		}
		m[ns+t.Name] = e
	}
	for _, in := range f.Includes {
		collect(in.File, ns+in.NS+":", m)
	}
}

// want is the listing the file is to have: every task below its namespaces, each level in
// alphabetical order.
func want(f *spec.File) []entry {
	tasks := map[string]entry{}
	collect(f, "", tasks)
	below := map[string][]string{}
	seen := map[string]bool{}
	for name := range tasks {
		parts := strings.Split(name, ":")
		for i := range parts {
			full, over := strings.Join(parts[:i+1], ":"), strings.Join(parts[:i], ":")
			if !seen[full] {
				seen[full] = true
				below[over] = append(below[over], parts[i])
			}
		}
	}
	var l []entry
	var walk func(over string, depth int)
	walk = func(over string, depth int) {
		names := below[over]
		sort.Strings(names)
		for _, n := range names {
			full := n
			if over != "" {
				full = over + ":" + n
			}
			e := tasks[full]
			e.depth, e.name = depth, n
			l = append(l, e)
			walk(full, depth+1)
		}
	}
	walk("", 0)
	return l
}

// line takes a line of the listing apart: how deep it stands and its text.
func line(s string) (int, string) {
	width := 0
	for len(s) > 0 {
		switch {
		case s[0] == ' ':
			s = s[1:]
		case strings.HasPrefix(s, "│"), strings.HasPrefix(s, "├"), strings.HasPrefix(s, "└"), strings.HasPrefix(s, "─"), strings.HasPrefix(s, "╰"):
			s = s[len("│"):]
		default:
			return width / 4, s
		}
		width++
	}
	return width / 4, ""
}

// words makes every blank of a text a single space: a description may be set on one line.
func words(s string) string {
	if strings.ContainsAny(s, "\n\r\t ") {
		return strings.Join(strings.Fields(s), " ")
	}
	return s
}

// check runs the listing and compares.
func check(f spec.File, args ...string) {
	kit.LoadAs(f)
	model.Chdir(model.Root())
	if args[0] == "elsewhere" {
		args = append(kit.Elsewhere(), args[1:]...)
	}
	code := kit.Bab(args...)
	sym.MapOrder(false)
	sym.Assert(code == 0, "a listing fails")
	sym.Assert(len(modelrun.Started()) == 0, "a listing starts a command")
	got := strings.Split(strings.TrimSuffix(modelui.Plain(model.Stdout()), "\n"), "\n")
	sym.Log("stdout", strings.Join(got, "\n"))
	l := want(&f)
	sym.Assert(len(got) == len(l), "a listing has another number of lines than there are tasks and namespaces")
	for i, e := range l {
		depth, text := line(got[i])
		sym.Assert(depth == e.depth, "the line "+text+" of a listing does not stand under its namespace")
		rest := strings.TrimPrefix(text, e.name)
		sym.Assert(rest != text && (rest == "" || rest[0] == ' '), "a listing shows "+text+" where "+e.name+" belongs")
		rest = strings.TrimSpace(rest)
		if len(e.alias) > 0 {
			var listed []string
			if strings.HasPrefix(rest, "(") {
				if j := strings.IndexByte(rest, ')'); j > 0 {
					listed = strings.Split(rest[1:j], ", ")
					rest = strings.TrimSpace(rest[j+1:])
				}
			}
			sort.Strings(listed)
			a := append([]string(nil), e.alias...)
			sort.Strings(a)
			sym.Assert(strings.Join(listed, ",") == strings.Join(a, ","), "a listing shows "+text+" for the task with the aliases "+strings.Join(a, ", "))
		}
		sym.Assert(rest == e.desc || words(rest) == words(e.desc), "a listing shows "+text+" for the task described as "+e.desc)
	}
}

// about gives a task any aliases and a description or none.
func about(t *spec.Task, id string) {
	switch sym.Choice("alias of "+t.Name, 4) {
	case 1:
		t.Alias = id
	case 2:
		t.Aliases = []string{id + "2", id}
	case 3:
		t.Alias = id + "3"
		t.Aliases = []string{id + "9", id}
	}
	if sym.Flag("description of " + t.Name) {
		t.Desc = "about (" + id + ")"
	}
	t.Run = []spec.Item{{Cmd: "c"}}
}

var places = []string{"b", "a:b", "b:a", "b:a:c", "a", "n:a", "B", "ab", "a:b:c:d"}

// Tasks: tasks with any names of a few, with any aliases and descriptions.
func Tasks() {
	kit.Setup()
	var f spec.File
	n := sym.Param("tasks", 3)
	last := -1
	for i := 0; i < n; i++ {
		k := sym.Choice("name", len(places))
		sym.Assume(k > last)
		last = k
		f.Tasks = append(f.Tasks, spec.Task{Name: places[k]})
	}
	if sym.Flag("other order") {
		f.Tasks[0], f.Tasks[n-1] = f.Tasks[n-1], f.Tasks[0]
	}
	about(&f.Tasks[0], "x")
	about(&f.Tasks[n-1], "y")
	for i := 1; i < n-1; i++ {
		f.Tasks[i].Run = []spec.Item{{Cmd: "c"}}
	}
	check(f, "--list")
}

// Files: tasks of included files, and a description of any characters.
func Files() {
	kit.Setup()
	sub := &spec.File{Tasks: []spec.Task{{Name: "z"}}}
	lib := &spec.File{
		Includes: []spec.Include{{NS: "m", Path: "sub.yml", File: sub}},
		Tasks:    []spec.Task{{Name: "x"}, {Name: "b:y", Run: []spec.Item{{Cmd: "c"}}}}}
	f := spec.File{
		Includes: []spec.Include{{NS: []string{"n", "b"}[sym.Choice("namespace", 2)], Path: "lib/lib.yml", File: lib}},
		Tasks:    []spec.Task{{Name: "b", Desc: "d" + sym.StrN("description", 2, "")}, {Name: "n:a", Alias: "n", Run: []spec.Item{{Cmd: "c"}}}}}
	for i := 0; i < len(f.Tasks[0].Desc); i++ {
		c := f.Tasks[0].Desc[i]
		sym.Assume(c > ' ' && c < 0x7f && c != '\'' && c != '"' && c != '\\')
	}
	about(&sub.Tasks[0], "s")
	about(&lib.Tasks[0], "l")
	args := []string{"-l"}
	switch sym.Choice("arguments", 4) {
	case 1:
		args = []string{"elsewhere", "--list"}
	case 2:
		args = []string{"b", "-l"}
	case 3:
		args = []string{"-n", "-l"}
	}
	check(f, args...)
}

// Orders: a listing in whatever order the tasks are visited.
func Orders() {
	kit.Setup()
	f := spec.File{Tasks: []spec.Task{{Name: "b", Alias: "k", Run: []spec.Item{{Cmd: "c"}}}, {Name: "b:a", Desc: "d", Run: []spec.Item{{Cmd: "c"}}},
		{Name: "b:c", Aliases: []string{"p", "q"}, Run: []spec.Item{{Cmd: "c"}}}, {Name: "a:c", Run: []spec.Item{{Cmd: "c"}}}}}
	sym.MapSame(true)
	sym.MapOrder(true)
	check(f, "--list")
}

// Many: a long list.
func Many() {
	kit.Setup()
	n := []int{7, 10, 11, 12, 20, 33, 64}[sym.Choice("tasks", 7)]
	var f spec.File
	for i := 0; i < n; i++ {
		name := string([]byte{'a' + byte(i*7%26), 'a' + byte(i/26), 'a' + byte(i*5%26)})
		if i%3 == 1 {
			name = "x:" + name
		}
		t := spec.Task{Name: name, Run: []spec.Item{{Cmd: "c"}}}
		if i%4 == 1 {
			t.Alias = "o" + name
		}
		if i%5 == 2 {
			t.Desc = "about " + name
		}
		f.Tasks = append(f.Tasks, t)
	}
	check(f, "-l")
}

// Empty: no tasks at all.
func Empty() {
	kit.Setup()
	model.Write(model.P("Babfile.yml"), "tasks: {}\n")
	model.Chdir(model.Root())
	code := kit.Bab("--list")
	sym.Assert(code == 0, "a listing of nothing fails")
	sym.Assert(model.Stdout() == "", "a listing of nothing shows "+model.Stdout())
	sym.Cover("empty")
}

// Descriptions: whatever the description looks like, it stands on the line of its task.
func Descriptions() {
	kit.Setup()
	d := []string{"one\n", "one\ntwo", "one\n\n  two\n", "\none", " one two ", "a\tb", "\n", "one\r\ntwo"}[sym.Choice("description", 8)]
	f := spec.File{Tasks: []spec.Task{{Name: "a", Desc: "x", Run: []spec.Item{{Cmd: "c"}}}, {Name: "a:b", Run: []spec.Item{{Cmd: "c"}}}, {Name: "c", Run: []spec.Item{{Cmd: "c"}}}}}
	t := &f.Tasks[sym.Choice("task", 3)]
	t.Desc = d
	about(t, "k")
	check(f, "--list")
}

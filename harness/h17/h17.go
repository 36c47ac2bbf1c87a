// Package h17: included Babfiles.
package h17

import (
	"context"
	"strconv"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/zzverif/gen"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Intact: a task with any settings, or an item of any kind with any settings, in an included
// file, one or two levels down; the including file has tasks of the same names.
func Intact() {
	kit.Setup()
	d := &gen.Doc{Free: true}
	d.Line(0, "tasks:")
	d.Line(2, "a:")
	d.Line(4, "desc: d")
	d.Line(2, "b:")
	d.Line(4, "desc: d")
	deep := sym.Flag("deep")
	kind := sym.Choice("part", 1+gen.Kinds)
	want := &babfile.Task{Name: "t"}
	if kind == 0 {
		want = d.Task("t", true, "b, a")
		d.Begin()
		d.Line(6, "- cmd: c")
		want.Run = []babfile.RunItem{babfile.CommandRun{Cmd: "c"}}
	} else {
		d.Line(2, "t:")
		d.Begin()
		if deep {
			want.Run = d.Several(6, "b")
		}
		want.Run = append(want.Run, d.Item(6, "item", kind-1, "a", sym.Param("child", 0) > 0))
		if deep {
			want.Run = append(want.Run, d.Several(6, "a")...)
		}
	}
	prefix := "n:"
	root := "tasks:\n  a:\n    desc: root's\n  t:\n    desc: root's\nincludes:\n  n:\n    babfile: lib.yml\n"
	if deep {
		prefix = "n:m:"
		model.Write(model.P("lib.yml"), "includes:\n  m:\n    babfile: sub.yml\ntasks:\n  a:\n    desc: lib's\n")
		model.Write(model.P("sub.yml"), d.String())
	} else {
		model.Write(model.P("lib.yml"), d.String())
	}
	model.Write(kit.Path(), root)
	res, err := parser.Parse(kit.Path())
	sym.Assert(err == nil, "a valid Babfile is rejected: "+kit.Msg(err))
	gen.Same("included task", res.Tasks[prefix+"t"], want, prefix)
	sym.Assert(res.Tasks["t"].Desc == "root's" && res.Tasks["a"].Desc == "root's", "a task of the root file is replaced")
	sym.Assert(len(res.Tasks) == 5+len(prefix)/3, "the number of tasks is "+strconv.Itoa(len(res.Tasks)))
}

// Names: namespaces and task names that may collide.
func Names() {
	kit.Setup()
	// root: task r, includes A (tasks x, m:x through its own include m) and B (task x)
	const letters = "nmx:"
	order := sym.Param("order", 0)
	r := sym.Str1("task", 4-order, letters)
	a := sym.Str1("nsA", 2-order, letters)
	b := sym.Str1("nsB", 3, letters)
	if a == b {
		return // the same namespace twice: C19
	}
	model.Write(model.P("a.yml"), "includes:\n  m:\n    babfile: sub.yml\ntasks:\n  x:\n    desc: ax\n")
	model.Write(model.P("sub.yml"), "tasks:\n  x:\n    desc: mx\n")
	model.Write(model.P("b.yml"), "tasks:\n  x:\n    desc: bx\n")
	model.Write(kit.Path(), "tasks:\n  '"+r+"':\n    desc: rr\nincludes:\n  '"+a+"':\n    babfile: a.yml\n  '"+b+"':\n    babfile: b.yml\n")
	sym.MapSame(true)
	sym.MapOrder(order > 0)
	res, err := parser.Parse(kit.Path())
	sym.MapOrder(false)
	all := []struct{ name, desc string }{{r, "rr"}, {a + ":x", "ax"}, {a + ":m:x", "mx"}, {b + ":x", "bx"}}
	for i := range all {
		for j := 0; j < i; j++ {
			if all[i].name == all[j].name {
				sym.Assert(err != nil, "two tasks have the same name")
				return
			}
		}
	}
	sym.Assert(err == nil, "a Babfile without collisions is rejected: "+kit.Msg(err))
	sym.Assert(len(res.Tasks) == len(all), "the number of tasks is "+strconv.Itoa(len(res.Tasks)))
	for _, t := range all {
		got := res.Tasks[t.name]
		sym.Assert(got != nil && got.Desc == t.desc, "task "+t.desc+" is another or missing")
	}
}

// Graph: files that include each other in any way.
func Graph() {
	kit.Setup()
	n := sym.Param("files", 3)
	dirs := []string{"", "d/", "d/e/", "f/"}
	var edge, twice [4][4]bool
	dag := sym.Param("dag", 0) > 0 // more files, with at most one edge to an earlier one
	spell, back := 0, -1
	if dag {
		back = sym.Choice("back", n*n+1) - 1
		if back >= 0 && back%n > back/n {
			return // no edge back
		}
	} else {
		spell = sym.Choice("spelling", 3)
	}
	for i := 0; i < n; i++ {
		text := ""
		for j := 0; j < n; j++ {
			name := "includes." + strconv.Itoa(i) + strconv.Itoa(j)
			twice[i][j] = false
			switch {
			case !dag:
				edge[i][j] = sym.Flag(name)
			case i < j:
				c := sym.Choice(name, 3)
				edge[i][j], twice[i][j] = c > 0, c > 1
			default:
				edge[i][j] = back == i*n+j
			}
			if !edge[i][j] {
				continue
			}
			if text == "" {
				text = "includes:\n"
			}
			up := strings.Repeat("../", strings.Count(dirs[i], "/"))
			path := up + dirs[j] + "f" + strconv.Itoa(j) + ".yml"
			switch {
			case spell == 1:
				path = "./x/../" + path
			case spell == 2 || spell == 0 && i == 1 && !dag:
				path = model.P(dirs[j] + "f" + strconv.Itoa(j) + ".yml")
			}
			text += "  n" + strconv.Itoa(j) + ":\n    babfile: " + path + "\n"
			if twice[i][j] {
				text += "  m" + strconv.Itoa(j) + ":\n    babfile: ./" + path + "\n"
			}
		}
		if dirs[i] != "" {
			model.Mkdir(model.P(dirs[i][:len(dirs[i])-1]))
		}
		model.Write(model.P(dirs[i]+"f"+strconv.Itoa(i)+".yml"), text+"tasks:\n  t:\n    desc: d"+strconv.Itoa(i)+"\n")
	}
	model.Mkdir(model.P("x"))
	res, err := parser.Parse(model.P("f0.yml"))
	// the tasks that must be there, unless a chain of includes comes back
	want := map[string]string{}
	cyclic := false
	var walk func(i int, prefix string, on [4]bool)
	walk = func(i int, prefix string, on [4]bool) {
		if on[i] {
			cyclic = true
			return
		}
		on[i] = true
		want[prefix+"t"] = "d" + strconv.Itoa(i)
		for j := 0; j < n; j++ {
			if edge[i][j] {
				walk(j, prefix+"n"+strconv.Itoa(j)+":", on)
				if twice[i][j] {
					walk(j, prefix+"m"+strconv.Itoa(j)+":", on)
				}
			}
		}
	}
	walk(0, "", [4]bool{})
	if cyclic {
		sym.Assert(err != nil, "a chain of includes that comes back is accepted")
		sym.Assert(strings.Contains(err.Error(), "circular"), "a chain of includes that comes back is not called so: "+err.Error())
		return
	}
	sym.Assert(err == nil, "includes without a cycle are rejected: "+kit.Msg(err))
	sym.Assert(len(res.Tasks) == len(want), "there are "+strconv.Itoa(len(res.Tasks))+" tasks, not "+strconv.Itoa(len(want)))
	for name, desc := range want {
		sym.Assert(res.Tasks[name] != nil && res.Tasks[name].Desc == desc, "task "+name+" is another or missing")
	}
}

// Run: a run of an included task does what a run of the same task in its own file does.
func Run() {
	kit.Setup()
	model.Mkdir(model.P("lib"))
	model.Mkdir(model.P("lib/w"))
	model.Mkdir(model.P("w"))
	var lib spec.File
	if sym.Flag("global") {
		lib.Vars = []spec.KV{{K: "v", V: "libv"}, {K: "u", V: "${{ v }}u"}}
		lib.Env = []spec.KV{{K: "E", V: "lib${{ v }}"}}
		lib.Dir = "w"
		lib.Silent = spec.Yes
		lib.Output = spec.No
	} else {
		lib.Vars = []spec.KV{{K: "v", V: "libv"}, {K: "u", V: "u"}}
	}
	// a main task that leads to others by edges of any kind
	name := func(i int) string { return "t" + strconv.Itoa(i) }
	for i := 0; i < 3; i++ {
		t := spec.Task{Name: name(i), Run: []spec.Item{{Cmd: "c" + strconv.Itoa(i) + " ${{ v }} ${{ u }}"}}}
		for j := i + 1; j < 3; j++ {
			switch sym.Choice("edge."+strconv.Itoa(i)+strconv.Itoa(j), 4) {
			case 1:
				t.Deps = append(t.Deps, name(j))
			case 2:
				t.Run = append(t.Run, spec.Item{Task: name(j), When: "${{ v }} == libv"})
			case 3:
				t.Run = append([]spec.Item{{Parallel: []spec.Item{{Task: name(j)}}}}, t.Run...)
			}
		}
		lib.Tasks = append(lib.Tasks, t)
	}
	m := &lib.Tasks[0]
	switch sym.Choice("setting", 6) {
	case 1:
		m.Vars = []spec.KV{{K: "v", V: "own"}, {K: "x", V: "${{ u }}"}}
	case 2:
		m.Env = []spec.KV{{K: "E", V: "own ${{ u }}"}}
	case 3:
		m.Dir = "w"
	case 4:
		m.Silent, m.Output = spec.No, spec.Yes
	case 5:
		m.When = "${{ v }} != libv"
	}
	m.Aliases = []string{"al"}

	root := spec.File{Includes: []spec.Include{{NS: "n", Path: "lib/lib.yml", File: &lib}}}
	for i := 0; i < 3; i++ {
		root.Tasks = append(root.Tasks, spec.Task{Name: name(i), Run: []spec.Item{{Cmd: "wrong"}}})
	}
	kit.Load(root)
	fails := kit.Fails("c0 libv u", "c1 libv libvu", "c2 libv u")
	_ = fails
	main := "t0"
	if sym.Flag("alias") {
		main = "al"
	}
	modelrun.Others(modelrun.Cmd{Out: "out", Echo: true})
	before := model.Stderr()
	err1 := runner.New(false, model.P("lib/lib.yml")).Run(context.Background(), main)
	ev1 := modelrun.Events()
	out1 := model.Stderr()[len(before):]
	err2 := runner.New(false, kit.Path()).Run(context.Background(), "n:"+main)
	ev2 := modelrun.Events()[len(ev1):]
	out2 := model.Stderr()[len(before)+len(out1):]
	sym.Assert((err1 == nil) == (err2 == nil), "included, the run ends otherwise: "+kit.Msg(err1)+" / "+kit.Msg(err2))
	a, b := starts(ev1), starts(ev2)
	sym.Assert(a == b, "included, the run does "+b+" instead of "+a)
	for _, t := range []string{"t0", "t1", "t2"} {
		out2 = strings.ReplaceAll(out2, "n:"+t, t)
	}
	sym.Assert(out1 == out2, "included, the run prints "+out2+" instead of "+out1)
}

func starts(l []modelrun.Event) string {
	r := ""
	for _, e := range l {
		if e.Kind == "start" {
			v, _ := e.Getenv("E")
			r += "[" + e.Cmd + " in " + model.Rel(e.Dir) + " with " + v + "] "
		}
	}
	return r
}

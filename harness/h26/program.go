package h26

import (
	"errors"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/tui/picker"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Program: bab without arguments, with any keys: the highlighted task is the one that is run.
func Program() {
	kit.Setup()
	sub := &spec.File{Vars: []spec.KV{{K: "v", V: "lib"}}, Tasks: []spec.Task{
		{Name: "x", Alias: "q", Deps: []string{"b"}, Run: []spec.Item{{Cmd: "lx ${{ v }}"}}},
		{Name: "b", Desc: "about", Run: []spec.Item{{Cmd: "lb"}}}}}
	f := spec.File{
		Vars:     []spec.KV{{K: "v", V: "root"}},
		Includes: []spec.Include{{NS: "n", Path: "lib/lib.yml", File: sub}},
		Tasks: []spec.Task{
			{Name: "b", Desc: "the b", Run: []spec.Item{{Cmd: "rb"}}},
			{Name: "x", Deps: []string{"b"}, Run: []spec.Item{{Cmd: "rx ${{ v }}"}}},
			{Name: "n", Alias: "k", Run: []spec.Item{{Task: "n:b"}, {Cmd: "rn"}}},
			{Name: "z", When: "false", Run: []spec.Item{{Cmd: "rz"}}}}}
	kit.LoadAs(f)
	model.Chdir(model.Root())
	var args []string
	if sym.Flag("elsewhere") {
		args = kit.Elsewhere()
	}
	fails := kit.Fails("lb", "rb", "rn")
	names := []task{{name: "b"}, {name: "x"}, {name: "n", alias: "k"}, {name: "z"}, {name: "n:x", alias: "n:q"}, {name: "n:b"}}
	// what the picker highlights after the keys
	var m tea.Model = picker.New(taskMap(names))
	m = update(m, tea.WindowSizeMsg{Width: 80, Height: 24})
	var keys []string
	n := sym.Choice("keys", sym.Param("keys", 2)+1)
	for i := 0; i < n; i++ {
		k := []string{"down", "up", "n", "b", ":", "x", "k", "backspace"}[sym.Choice("key", 8)]
		keys = append(keys, k)
		m = update(m, modeltea.Key(k))
	}
	s := look(m)
	last := []string{"enter", "esc", "ctrl+c"}[sym.Choice("last", 3)]
	modeltea.Type(append(keys, last)...)
	want := ""
	if last == "enter" && s.hi >= 0 {
		want = nameOf(s.lines[s.hi])
	} else if last == "enter" {
		modeltea.Type("esc")
	}
	sym.Log("want", want)
	code := kit.Bab(args...)
	if want == "" {
		sym.Assert(len(modelrun.Started()) == 0, "leaving the picker starts a command")
		sym.Assert(code == 0, "leaving the picker is an error")
		return
	}
	x := kit.New(f)
	x.Fails = fails
	x.Main(want)
	var err error
	if code != 0 {
		err = errors.New("failed")
	}
	kit.Order(x, err)
}

package h27

import (
	"context"
	"strconv"
	"strings"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/model"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// tree is an item of a block that has blocks in it.
type tree struct {
	label, line string
	fails       bool
	kids        []*tree
}

func (t *tree) failed() bool {
	for _, k := range t.kids {
		if k.failed() {
			return true
		}
	}
	return t.fails
}

// Deep: blocks within blocks, several deep; every row stands under the item its block belongs
// to, and shows that item's result.
func Deep() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	sym.Order(1+sym.Choice("order", 2), sym.Param("deviations", 0))
	depth := 1 + sym.Choice("depth", sym.Param("depth", 5))
	second := sym.Flag("second")      // the item that has a block in it is the second one
	bad := sym.Choice("bad", depth+2) // 0 none
	f := spec.File{}
	n := 0
	var block func(level int) (spec.Item, []*tree)
	block = func(level int) (spec.Item, []*tree) {
		it := spec.Item{Mode: "grouped"}
		command := func() *tree {
			n++
			t := &tree{label: "cmd" + strconv.Itoa(n), line: "<" + strconv.Itoa(n) + ">", fails: n == bad}
			k := modelrun.Cmd{Out: t.line + "\n"}
			if t.fails {
				k.Exit = 3
			}
			modelrun.Command(t.label, k)
			it.Parallel = append(it.Parallel, spec.Item{Cmd: t.label})
			return t
		}
		task := func() *tree {
			in, kids := block(level + 1)
			n++
			name := "task" + strconv.Itoa(n)
			f.Tasks = append(f.Tasks, spec.Task{Name: name, Run: []spec.Item{in}})
			it.Parallel = append(it.Parallel, spec.Item{Task: name})
			return &tree{label: name, kids: kids}
		}
		if level == depth {
			a, b := command(), command()
			return it, []*tree{a, b}
		}
		if second {
			a := command()
			b := task()
			return it, []*tree{a, b}
		}
		a := task()
		b := command()
		return it, []*tree{a, b}
	}
	top, roots := block(0)
	f.Tasks = append(f.Tasks, spec.Task{Name: "m", Run: []spec.Item{top}})
	clears := 0
	modeltea.OnMsg = func(m tea.Model, msg tea.Msg) {
		if _, ok := msg.(tui.ItemClearChildrenMsg); ok {
			clears++
			if clears == 1 {
				m, _ = m.Update(tea.WindowSizeMsg{Width: 200, Height: 100})
				outline(roots, modelui.Plain(m.View().Content), depth)
			}
		}
	}
	kit.LoadAs(f)
	err := kit.Run(context.Background(), "m", false)
	fail := false
	for _, r := range roots {
		fail = fail || r.failed()
	}
	sym.Assert((err != nil) == fail, "the run ends as none of its items do: "+kit.Msg(err))
	sym.Assert(clears == depth, "the items of a nested block are not taken from the view")
}

// outline checks the rows of the items: in order, each under the one it belongs to.
func outline(ts []*tree, s string, depth int) {
	var walk func(ts []*tree, level, col int)
	rows := strings.Split(s, "\n")
	at := 0
	walk = func(ts []*tree, level, col int) {
		for _, t := range ts {
			c := -1
			for ; at < len(rows) && c < 0; at++ {
				c = strings.Index(rows[at], t.label)
			}
			sym.Assert(c >= 0, "the item "+t.label+" is not shown under its block: "+s)
			row := rows[at-1]
			sym.Assert(c > col, "the item "+t.label+" is not shown as part of its block: "+s)
			if level == depth {
				done := strings.Contains(row, "✓") || strings.Contains(row, "✗")
				sym.Assert(done, "the item "+t.label+" does not show its result: "+s)
			}
			if strings.Contains(row, "✓") || strings.Contains(row, "✗") {
				sym.Assert(strings.Contains(row, "✗") == t.failed(), "the item "+t.label+" shows the result of another: "+s)
			}
			if level > 0 {
				for _, k := range tokens(row) {
					sym.Assert(k == t.line, "the item "+t.label+" shows "+k)
				}
			}
			walk(t.kids, level+1, c)
		}
	}
	walk(ts, 0, -1)
}

// Stopped: a run in a view is cancelled, by ctrl+c in it or by a signal; what was killed or
// waits for its turn is shown as cancelled, and the rest by its result.
func Stopped() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	sym.Order(1+sym.Choice("order", 2), sym.Param("deviations", 0))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmds := []string{"one", "two", "three"}
	tabs := sym.Flag("tabs")
	par := spec.Item{Mode: "grouped", Limit: sym.Choice("limit", sym.Param("limits", 2))}
	if tabs {
		par.Mode = "tabs"
	}
	nested := sym.Param("nested", 1) > 0 && sym.Flag("nested")
	first := sym.Int("exit", 0, 1)
	at := sym.Choice("at", 3)
	key := sym.Flag("key")
	over := false
	before := map[string]bool{}
	blocks := 0
	for i, c := range cmds {
		k := modelrun.Cmd{Out: "<" + c + ">\n", Exit: first, Block: sym.Flag("block")}
		if k.Block && i != at {
			blocks++
		}
		if i == at {
			k.OnRun = func() {
				for _, e := range modelrun.Events() {
					if e.Kind == "end" {
						before[e.Cmd] = true
					}
				}
				over = true
				if key {
					modeltea.Press("ctrl+c")
				} else {
					cancel()
				}
			}
		}
		modelrun.Command(c, k)
		par.Parallel = append(par.Parallel, spec.Item{Cmd: c})
	}
	sym.Assume(par.Limit == 0 || blocks < par.Limit) // or the one that cancels may never start
	f := spec.File{Tasks: []spec.Task{{Name: "m", Run: []spec.Item{par}}}}
	if nested {
		f.Tasks = []spec.Task{{Name: "m", Run: []spec.Item{{Mode: par.Mode, Parallel: []spec.Item{{Task: "in"}}}}}, {Name: "in", Run: []spec.Item{par}}}
	}
	seen := false
	modeltea.OnMsg = func(m tea.Model, msg tea.Msg) {
		switch msg.(type) {
		case tui.AllDoneMsg:
			if nested {
				return
			}
		case tui.ItemClearChildrenMsg:
			if !nested {
				return
			}
		default:
			return
		}
		seen = true
		m, _ = m.Update(tea.WindowSizeMsg{Width: 100, Height: 50})
		s := modelui.Plain(m.View().Content)
		for _, c := range cmds {
			started, killed, ended, code := false, false, false, 0
			for _, e := range modelrun.Events() {
				if e.Cmd == c {
					started = started || e.Kind == "start"
					if e.Kind == "end" {
						ended, killed, code = true, e.Kill, first
					}
				}
			}
			i := strings.Index(s, c)
			sym.Assert(i >= 0, "the item "+c+" is not shown: "+s)
			j := strings.LastIndexByte(s[:i], '\n') + 1
			row := strings.SplitN(s[j:], "\n", 2)[0]
			if tabs && !nested {
				row = s[max(0, i-len("⊘ ")) : i+len(c)]
			}
			mark := ""
			for _, x := range []string{"⊘", "✗", "✓", "◦", "∙"} {
				if strings.Contains(row, x) {
					mark += x
				}
			}
			switch {
			case !started || killed || !ended:
				sym.Assert(over, "the item "+c+" was not run to its end")
				sym.Assert(mark == "⊘", "the item "+c+", which was cancelled, is marked "+mark+": "+s)
			case over && !before[c] && mark == "⊘":
			case code == 0:
				sym.Assert(mark == "✓", "the item "+c+", which succeeded, is marked "+mark+": "+s)
			default:
				sym.Assert(mark == "✗", "the item "+c+", which failed, is marked "+mark+": "+s)
			}
		}
	}
	kit.LoadAs(f)
	_ = kit.Run(ctx, "m", false)
	sym.Assert(seen, "the view is not shown: "+model.Stderr())
}

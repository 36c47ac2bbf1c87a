package h27

import (
	"context"
	"strconv"
	"strings"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/zzverif/kit"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
	"github.com/bab-sh/bab/internal/zzverif/modeltea"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/spec"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// shown is an item of a block that is run, as the view is to show it at the end.
type shown struct {
	label string
	lines []string
	fails bool
	kids  []shown
}

// Run: a parallel block of two (three) items, run with a view: what each prints and how it ends
// stands under its own title, also for the items of a block nested in one of them.
func Run() {
	kit.Setup()
	modelrun.Terminal(true, true, true)
	f := spec.File{}
	tabs := sym.Flag("tabs")
	par := spec.Item{Mode: "grouped", Limit: 1}
	if sym.Param("together", 0) == 1 {
		par.Limit = 0
	}
	if tabs {
		par.Mode = "tabs"
	}
	var want []shown
	kinds := sym.Choice("kinds", 4)
	labels := sym.Flag("labels")
	items := sym.Param("items", 2)
	failing := sym.Choice("failing", items+1) // 0 none
	skipped := sym.Choice("skipped", 3)
	n := 0
	command := func(name string, fails bool) (spec.Item, []string) {
		a, b := "<"+strconv.Itoa(n)+">", "<"+strconv.Itoa(n+1)+">"
		n += 2
		exit := 0
		if fails {
			exit = 3
		}
		modelrun.Command(name, modelrun.Cmd{Out: a + "\nnone\n" + b, Exit: exit})
		return spec.Item{Cmd: name}, []string{a, b}
	}
	for i := 0; i < items; i++ {
		s := strconv.Itoa(i)
		fails := failing == i+1
		var it spec.Item
		w := shown{fails: fails}
		switch (kinds + i) % 4 {
		case 0:
			it, w.lines = command("cmd"+s, fails)
			w.label = "cmd" + s
		case 1:
			c, l := command("cmd"+s, fails)
			f.Tasks = append(f.Tasks, spec.Task{Name: "task" + s, Run: []spec.Item{c}})
			it, w.lines, w.label = spec.Item{Task: "task" + s}, l, "task"+s
		case 2:
			it, w.label, w.lines, w.fails = spec.Item{Log: "<log" + s + ">"}, "<log"+s+">", []string{"<log" + s + ">"}, false
		case 3:
			x, lx := command("kidx"+s, fails)
			y, ly := command("kidy"+s, false)
			inner := spec.Item{Parallel: []spec.Item{x, y}, Mode: "grouped"}
			w.kids = []shown{{label: "kidx" + s, lines: lx, fails: fails}, {label: "kidy" + s, lines: ly}}
			f.Tasks = append(f.Tasks, spec.Task{Name: "task" + s, Run: []spec.Item{inner}})
			it, w.label = spec.Item{Task: "task" + s}, "task"+s
		}
		if labels && i != 1 {
			it.Label = "item" + strconv.Itoa(9-i)
			w.label = it.Label
		}
		if i < 2 && skipped>>i&1 == 1 {
			if i == 0 {
				it.When = "false"
			} else {
				it.Platforms = []string{"darwin"}
			}
		} else {
			want = append(want, w)
		}
		par.Parallel = append(par.Parallel, it)
	}
	f.Tasks = append(f.Tasks, spec.Task{Name: "m", Run: []spec.Item{par}})
	ended, cleared := false, false
	modeltea.OnMsg = func(m tea.Model, msg tea.Msg) {
		switch x := msg.(type) {
		case tui.AllDoneMsg:
			ended = true
			m, _ = m.Update(tea.WindowSizeMsg{Width: modeltea.Width, Height: modeltea.Height})
			blocks(want, m, tabs)
		case tui.ItemOutputMsg:
			i, err := strconv.Atoi(x.Key)
			if err == nil && i < len(want) && len(want[i].kids) == 0 {
				s := modelui.Plain(m.View().Content)
				running := want[i].label + " ◦"
				if tabs {
					running = "◦ " + want[i].label
				}
				sym.Assert(strings.Contains(s, running), "the item "+want[i].label+" is not shown as running when it prints a line")
			}
		case tui.ItemClearChildrenMsg:
			cleared = true
			i, err := strconv.Atoi(x.Key)
			if err == nil && i < len(want) && len(want[i].kids) > 0 {
				m, _ = m.Update(tea.WindowSizeMsg{Width: modeltea.Width, Height: modeltea.Height})
				rows(want[i].kids, m, tabs, i, len(want))
			}
		}
	}
	kit.LoadAs(f)
	err := kit.Run(context.Background(), "m", false)
	sym.Assert(modeltea.Last != nil, "bab goes on before the view has given the terminal back")
	fail, nested := false, false
	for _, w := range want {
		fail = fail || w.fails
		nested = nested || len(w.kids) > 0
	}
	sym.Assert((err != nil) == fail, "the run ends as none of its items do: "+kit.Msg(err))
	sym.Assert(ended, "the view is not shown")
	sym.Assert(cleared == nested, "the items of a nested block are not taken from the view")
}

func icon(w shown) string {
	if w.fails {
		return "✗"
	}
	return "✓"
}

// blocks checks the titles and lines of the items when all are done.
func blocks(want []shown, m tea.Model, tabs bool) {
	if tabs {
		for i, w := range want {
			s := modelui.Plain(m.View().Content)
			for _, o := range want {
				sym.Assert(strings.Contains(s, icon(o)+" "+o.label), "a tab does not show the name and the result of its item")
			}
			var l []string
			for _, t := range tokens(after(s, want)) {
				l = append(l, t)
			}
			if len(w.kids) == 0 {
				sym.Assert(same(l, w.lines), "tab "+strconv.Itoa(i)+" does not show the lines of its item but "+strings.Join(l, ""))
			}
			m, _ = m.Update(tea.KeyPressMsg{Code: tea.KeyTab})
		}
		return
	}
	rest := modelui.Plain(m.View().Content)
	for i, w := range want {
		at := strings.Index(rest, w.label)
		sym.Assert(at >= 0, "the view does not show the item "+w.label+" in its place")
		rest = rest[at:]
		block := rest
		if i+1 < len(want) {
			j := strings.Index(rest[len(w.label):], want[i+1].label)
			sym.Assert(j >= 0, "the view does not show the item "+want[i+1].label+" in its place")
			block = rest[:len(w.label)+j]
		}
		title := strings.SplitN(block, "\n", 2)[0]
		sym.Assert(strings.Contains(title, icon(w)), "the item "+w.label+" does not show its result")
		if len(w.kids) == 0 {
			sym.Assert(same(tokens(block[len(w.label):]), w.lines), "the lines under "+w.label+" are "+strings.Join(tokens(block[len(w.label):]), ""))
		}
	}
}

// after is what follows the last title in the row of tabs.
func after(s string, want []shown) string {
	for _, w := range want {
		i := strings.Index(s, icon(w)+" "+w.label)
		if i >= 0 {
			s = s[:i] + s[i+len(icon(w)+" "+w.label):]
		}
	}
	return s
}

// rows checks the rows of nested items when all of them are done.
func rows(kids []shown, m tea.Model, tabs bool, at, of int) {
	if tabs {
		for i := 0; i < at; i++ {
			m, _ = m.Update(tea.KeyPressMsg{Code: tea.KeyTab})
		}
	}
	s := modelui.Plain(m.View().Content)
	if tabs {
		for i := at; i < of; i++ { // back to the first
			m, _ = m.Update(tea.KeyPressMsg{Code: tea.KeyTab})
		}
	}
	for _, k := range kids {
		row := ""
		for _, l := range strings.Split(s, "\n") {
			if strings.Contains(l, k.label) {
				row = l
			}
		}
		sym.Assert(row != "", "the nested item "+k.label+" is not shown")
		sym.Assert(strings.Contains(row, icon(k)), "the nested item "+k.label+" does not show its result")
		for _, t := range tokens(row) {
			sym.Assert(t == k.lines[1], "the nested item "+k.label+" shows "+t)
		}
	}
}

// Package h27: the parallel view attributes every line and result to its own item.
package h27

import (
	"context"
	"errors"
	"strconv"
	"strings"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// ref is the reference model of one item.
type ref struct {
	label    string
	lines    []string
	started  bool
	done     bool
	err      error
	children []string
}

type world struct {
	tabs      bool
	items     map[string]*ref
	roots     []string
	cancelled bool
	active    int
	cancels   int
	w         int
	m         tea.Model
	kids      int
	lineNo    int
}

var errItem = errors.New("exit status 3")

func start(n int, tabs bool) *world {
	w := &world{tabs: tabs, items: map[string]*ref{}, w: 80}
	var items []tui.ParallelItem
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		w.items[k] = &ref{label: "item" + k}
		w.roots = append(w.roots, k)
		items = append(items, tui.ParallelItem{Label: "item" + k})
	}
	cancel := func() { w.cancels++ }
	if tabs {
		w.m = tui.NewTabsModel(items, cancel)
	} else {
		w.m = tui.NewGroupedModel(items, cancel)
	}
	w.send(tea.WindowSizeMsg{Width: 80, Height: 60})
	return w
}

func (w *world) send(msg tea.Msg) {
	m, _ := w.m.Update(msg)
	w.m = m
}

func (w *world) remove(k string) {
	if it := w.items[k]; it != nil {
		for _, c := range it.children {
			w.remove(c)
		}
		delete(w.items, k)
	}
}

func (w *world) isKnown(k string) *ref { return w.items[k] }

// step delivers message kind op for item k.
func (w *world) step(op int, k string) {
	it := w.items[k]
	switch op {
	case 0:
		w.lineNo++
		line := "<" + strconv.Itoa(w.lineNo) + ">"
		w.send(tui.ItemOutputMsg{Key: k, Line: line})
		if it != nil {
			it.lines = append(it.lines, line)
		}
	case 1:
		w.send(tui.ItemStartMsg{Key: k})
		if it != nil {
			it.started = true
		}
	case 2, 3, 4:
		err := []error{nil, errItem, context.Canceled}[op-2]
		w.send(tui.ItemDoneMsg{Key: k, Err: err})
		if it != nil {
			it.done, it.err = true, err
		}
	case 5:
		if it == nil {
			return // only running items register children
		}
		ck := k + "." + strconv.Itoa(len(it.children))
		w.kids++
		w.send(tui.ItemRegisterMsg{Key: ck, Parent: k, Label: "kid" + strconv.Itoa(w.kids)})
		w.items[ck] = &ref{label: "kid" + strconv.Itoa(w.kids)}
		it.children = append(it.children, ck)
		it.lines = nil
	case 6:
		w.send(tui.ItemClearChildrenMsg{Key: k})
		if it != nil {
			for _, c := range it.children {
				w.remove(c)
			}
			it.children = nil
		}
	case 7:
		w.send(tea.KeyPressMsg{Code: 'c', Mod: tea.ModCtrl})
		w.cancelled = true
	case 8:
		w.send(tea.KeyPressMsg{Code: tea.KeyTab})
		if len(w.roots) > 0 {
			w.active = (w.active + 1) % len(w.roots)
		}
	case 9:
		w.send(tea.KeyPressMsg{Code: tea.KeyTab, Mod: tea.ModShift})
		if len(w.roots) > 0 {
			w.active = (w.active + len(w.roots) - 1) % len(w.roots)
		}
	}
}

func (w *world) icon(it *ref) string {
	switch {
	case it.done && it.err == context.Canceled:
		return "⊘"
	case it.done && it.err != nil:
		return "✗"
	case it.done:
		return "✓"
	case w.cancelled:
		return "⊘"
	case !it.started:
		return "∙"
	}
	return "◦"
}

func (w *world) text() string { return modelui.Plain(w.m.View().Content) }

// tokens lists the output lines that appear in s, in order.
func tokens(s string) []string {
	var r []string
	for {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			return r
		}
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			return r
		}
		r = append(r, s[i:i+j+1])
		s = s[i+j+1:]
	}
}

func same(a, b []string) bool { return strings.Join(a, "") == strings.Join(b, "") }

func lastOf(it *ref) []string {
	if len(it.lines) == 0 {
		return nil
	}
	return it.lines[len(it.lines)-1:]
}

func (w *world) check() {
	s := w.text()
	if w.cancelled {
		sym.Assert(w.cancels == 1, "Ctrl+C does not cancel exactly once")
	} else {
		sym.Assert(w.cancels == 0, "the run is cancelled although Ctrl+C was not pressed")
	}
	if w.tabs {
		w.checkTabs(s)
		return
	}
	// grouped: one block per item, in order
	rest := s
	for i, k := range w.roots {
		it := w.items[k]
		at := strings.Index(rest, it.label)
		sym.Assert(at >= 0, "an item is missing from the grouped view or out of place")
		rest = rest[at:]
		block := rest
		if i+1 < len(w.roots) {
			j := strings.Index(rest, w.items[w.roots[i+1]].label)
			sym.Assert(j >= 0, "an item is missing from the grouped view or out of place")
			block = rest[:j]
		}
		title := strings.SplitN(block, "\n", 2)[0]
		sym.Assert(strings.Contains(title, w.icon(it)), "the state of an item is not shown at its own title")
		if len(it.children) == 0 {
			want := it.lines
			if len(want) > 5 {
				want = want[len(want)-5:]
			}
			sym.Assert(same(tokens(block), want), "the lines under an item are not its latest ones in order")
			continue
		}
		w.checkKids(block, it)
	}
}

func (w *world) checkKids(block string, it *ref) {
	var want []string
	var walk func(k string)
	pos := 0
	walk = func(k string) {
		c := w.items[k]
		at := strings.Index(block[pos:], c.label)
		sym.Assert(at >= 0, "a nested item is missing or out of place")
		pos += at
		row := block[:pos]
		row = row[strings.LastIndexByte(row, '\n')+1:] + strings.SplitN(block[pos:], "\n", 2)[0]
		sym.Assert(strings.Contains(row, w.icon(c)), "the state of a nested item is not shown in its own row")
		t := tokens(row)
		if !c.done || c.err != nil {
			want = append(want, lastOf(c)...)
			sym.Assert(same(t, lastOf(c)), "a nested item's row does not show its latest line")
		} else {
			sym.Assert(len(t) == 0 || same(t, lastOf(c)), "a nested item's row shows a line of another item")
		}
		for _, ck := range c.children {
			walk(ck)
		}
	}
	for _, ck := range it.children {
		walk(ck)
	}
}

func (w *world) checkTabs(s string) {
	for _, k := range w.roots {
		sym.Assert(strings.Contains(s, w.icon(w.items[k])+" "+w.items[k].label), "a tab does not show its item's name and state")
	}
	if len(w.roots) == 0 {
		return
	}
	it := w.items[w.roots[w.active]]
	if len(it.children) == 0 {
		sym.Assert(same(tokens(s), it.lines), "the active tab does not show exactly its own item's lines in order")
		return
	}
	var want []string
	for _, ck := range it.children {
		c := w.items[ck]
		sym.Assert(strings.Contains(s, w.icon(c)+" "+c.label), "a nested item's row does not show its name and state")
		if !(c.done && c.err != nil) {
			want = append(want, lastOf(c)...)
		}
	}
	sym.Assert(same(tokens(s), want), "nested rows do not show the latest line of their own item")
}

func (w *world) key(tag string, depth int) string {
	k := sym.StrN("key"+tag, 1, "012"[:len(w.roots)+1])
	if depth > 0 && sym.Flag("nested"+tag) {
		return sym.ConcStr(k) + ".0"
	}
	return sym.ConcStr(k)
}

func history(tabs bool, items int, ops []int) {
	w := start(items, tabs)
	n := sym.Param("steps", 3)
	for i := 0; i < n; i++ {
		tag := strconv.Itoa(i)
		op := ops[sym.Choice("op"+tag, len(ops))]
		k := ""
		if op < 7 {
			k = w.key(tag, sym.Param("nested", 0)*i)
			if op >= 5 && strings.Contains(k, ".") && sym.Param("deep", 0) == 0 {
				k = k[:1]
			}
		}
		w.step(op, k)
	}
	w.check()
	sym.Log("view", w.digest())
}

func (w *world) digest() string { return strings.Join(tokens(w.text()), "") }

// Grouped: any short history of starts, lines, results and cancellation.
func Grouped() { history(false, 2, []int{0, 1, 2, 3, 4, 7}) }

// GroupedNested: nested items registered, fed and cleared.
func GroupedNested() { history(false, 2, []int{5, 0, 6, 3, 2}) }

// Tabs: as Grouped, with tab switches.
func Tabs() { history(true, 2, []int{0, 1, 2, 4, 7, 8, 9}) }

// TabsNested: nested items in the tabbed view.
func TabsNested() { history(true, 2, []int{5, 0, 6, 3, 8}) }

// Many: more lines than the grouped view keeps, interleaved over the items; a line belongs to a symbolic item.
func Many() {
	w := start(2, sym.Flag("tabs"))
	n := sym.Param("lines", 7)
	for i := 0; i < n; i++ {
		k := sym.ConcStr(sym.StrN("k"+strconv.Itoa(i), 1, "01"))
		w.step(0, k)
	}
	w.check()
}

// Sizes: any terminal size at any time never crashes the view, and it recovers.
func Sizes() {
	w := start(sym.Choice("items", 3), sym.Flag("tabs"))
	ops := []int{0, 5, 3, 7, 8, 9}
	at := sym.Choice("at", sym.Param("steps", 2))
	for i := 0; i < sym.Param("steps", 2); i++ {
		if i == at {
			w.send(tea.WindowSizeMsg{Width: sym.Int("w", -1, sym.Param("maxw", 20)), Height: sym.Int("h", -1, sym.Param("maxh", 6))})
			w.text()
		}
		op := ops[sym.Choice("op"+strconv.Itoa(i), len(ops))]
		k := "0"
		if op < 7 && len(w.roots) == 0 {
			k = "9"
		}
		w.step(op, k)
		w.text()
	}
	w.send(tea.KeyPressMsg{Code: tea.KeyDown})
	w.send(tea.KeyPressMsg{Code: tea.KeyPgUp})
	w.text()
	w.send(tea.WindowSizeMsg{Width: 80, Height: 60})
	w.check()
	w.send(tui.AllDoneMsg{})
	sym.Assert(strings.TrimSpace(w.text()) == "", "the view is not cleared when everything is done")
}

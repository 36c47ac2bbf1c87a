// Package h26: the task picker runs the highlighted task.
package h26

import (
	"strconv"
	"strings"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/tui/picker"
	"github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type task struct {
	name    string
	alias   string
	aliases []string
}

var sets = [][]task{
	{{name: "a"}, {name: "ab"}, {name: "b:a", alias: "z"}, {name: "c", aliases: []string{"q", "ab2"}}, {name: "d", alias: "d2"}, {name: "e"}},
	{{name: "a"}},
	{{name: "a"}, {name: "b", alias: "a2"}},
}

func taskMap(s []task) babfile.TaskMap {
	m := babfile.TaskMap{}
	for _, t := range s {
		m[t.name] = &babfile.Task{Name: t.name, Alias: t.alias, Aliases: t.aliases}
	}
	return m
}

func key(name string) tea.KeyPressMsg {
	switch name {
	case "up":
		return tea.KeyPressMsg{Code: tea.KeyUp}
	case "down":
		return tea.KeyPressMsg{Code: tea.KeyDown}
	case "enter":
		return tea.KeyPressMsg{Code: tea.KeyEnter}
	case "esc":
		return tea.KeyPressMsg{Code: tea.KeyEscape}
	case "backspace":
		return tea.KeyPressMsg{Code: tea.KeyBackspace}
	}
	if strings.HasPrefix(name, "ctrl+") {
		return tea.KeyPressMsg{Code: rune(name[5]), Mod: tea.ModCtrl}
	}
	return tea.KeyPressMsg{Code: rune(name[0]), Text: name}
}

type screen struct {
	lines []string // task lines, without marker
	hi    int      // index of the highlighted one, -1 none
	shown string   // "n/m"
}

func look(m tea.Model) screen {
	text := modelui.Plain(m.View().Content)
	s := screen{hi: -1}
	parts := strings.Split(text, "\n")
	at := -1
	for i, l := range parts {
		if strings.HasPrefix(l, "> ") && at < 0 {
			at = i + 1
		}
	}
	sym.Assert(at > 0 && at < len(parts), "the picker shows no input line")
	for _, l := range parts[at+1:] {
		if l == "" || strings.HasPrefix(l, "  No matching") {
			continue
		}
		mark := strings.HasPrefix(l, "│ ")
		if mark {
			sym.Assert(s.hi < 0, "two tasks are highlighted")
			s.hi = len(s.lines)
			l = l[len("│ "):]
		} else {
			sym.Assert(strings.HasPrefix(l, "  "), "a line of the list is garbled")
			l = l[2:]
		}
		s.lines = append(s.lines, l)
	}
	return s
}

func nameOf(line string) string {
	if i := strings.IndexByte(line, ' '); i >= 0 {
		return line[:i]
	}
	return line
}

func update(m tea.Model, msg tea.Msg) tea.Model {
	n, _ := m.Update(msg)
	return n
}

func pressEnter(m tea.Model, s screen) {
	e := update(m, key("enter"))
	got := e.(picker.Model).Selected()
	if s.hi < 0 {
		sym.Assert(got == nil, "Enter selects a task although none is highlighted")
		return
	}
	sym.Assert(got != nil, "Enter does not select the highlighted task")
	sym.Assert(got.Name == nameOf(s.lines[s.hi]), "Enter selects another task than the highlighted one")
	sym.Log("selected", got.Name)
}

func quit(m tea.Model) {
	k := []string{"esc", "ctrl+c"}[sym.Choice("quit", 2)]
	q, cmd := m.Update(key(k))
	sym.Assert(q.(picker.Model).Selected() == nil, "leaving the picker selects a task")
	sym.Assert(cmd != nil, "leaving the picker does not end it")
}

func consistent(m tea.Model, height, total int) screen {
	s := look(m)
	visible := height - 4
	if visible < 1 {
		visible = 1
	}
	sym.Assert(len(s.lines) <= visible, "more tasks are shown than the window has lines")
	if total >= 0 {
		sym.Assert(len(s.lines) > 0 || total == 0, "tasks match but none is shown")
		want := total
		if want > visible {
			want = visible
		}
		sym.Assert(len(s.lines) == want, "the window is not filled with the matching tasks")
	}
	if len(s.lines) > 0 {
		sym.Assert(s.hi >= 0, "the highlighted task is outside the visible window")
	}
	return s
}

// Moves: movement and resizes in a list of six, nothing typed: every task is reachable in order.
func Moves() {
	set := sets[0]
	var m tea.Model = picker.New(taskMap(set))
	h := 20
	cursor := 0
	n := sym.Param("steps", 4)
	if sym.Flag("small") {
		h = sym.Int("h0", -1, 12)
		m = update(m, tea.WindowSizeMsg{Width: 40, Height: h})
	}
	for i := 0; i < n; i++ {
		switch sym.Choice("op"+strconv.Itoa(i), 5) {
		case 0:
			m = update(m, key([]string{"down", "ctrl+n"}[i%2]))
			if cursor < len(set)-1 {
				cursor++
			}
		case 1:
			m = update(m, key([]string{"ctrl+p", "up"}[i%2]))
			if cursor > 0 {
				cursor--
			}
		case 2:
			h = sym.Int("h"+strconv.Itoa(i), -1, 12)
			m = update(m, tea.WindowSizeMsg{Width: []int{20, 0, 3}[sym.Choice("w"+strconv.Itoa(i), sym.Param("widths", 1))], Height: h})
		case 3:
			for k := 0; k < 3; k++ {
				m = update(m, key("down"))
				if cursor < len(set)-1 {
					cursor++
				}
			}
		case 4:
			for k := 0; k < 2; k++ {
				m = update(m, key("up"))
				if cursor > 0 {
					cursor--
				}
			}
		}
		s := consistent(m, h, len(set))
		sym.Assert(nameOf(s.lines[s.hi]) == set[cursor].name, "the keys do not move the highlight by one task")
	}
	s := consistent(m, h, len(set))
	pressEnter(m, s)
	quit(m)
}

func typeText(m tea.Model, t string) tea.Model {
	for i := 0; i < len(t); i++ {
		m = update(m, tea.KeyPressMsg{Code: rune(t[i]), Text: t[i : i+1]})
	}
	return m
}

// Typed: any short text; exact names and aliases are listed; the list stays consistent.
func Typed() {
	set := sets[0]
	q := sym.Str("q", sym.Param("len", 2), "abcdzq2:e"[:sym.Param("letters", 7)])
	var m tea.Model = picker.New(taskMap(set))
	m = typeText(m, q)
	s := consistent(m, 20, -1)
	listed := map[string]bool{}
	for _, l := range s.lines {
		sym.Assert(!listed[nameOf(l)], "a task is listed twice")
		listed[nameOf(l)] = true
	}
	for _, t := range set {
		exact := t.name == q || t.alias != "" && t.alias == q
		for _, a := range t.aliases {
			exact = exact || a == q
		}
		if exact || q == "" {
			sym.Assert(listed[t.name], "a task whose name or alias is typed is not listed")
		}
	}
	for l := range listed {
		known := false
		for _, t := range set {
			known = known || t.name == l
		}
		sym.Assert(known, "something is listed that is no task")
	}
	k := sym.Choice("downs", 3)
	for i := 0; i < k; i++ {
		m = update(m, key("down"))
	}
	s = consistent(m, 20, len(s.lines))
	pressEnter(m, s)
	quit(m)
}

// Mixed: typing, deleting, clearing, moving and resizing in any order.
func Mixed() {
	set := sets[sym.Choice("set", sym.Param("sets", 1))]
	var m tea.Model = picker.New(taskMap(set))
	h := 20
	n := sym.Param("steps", 3)
	typed := []byte{}
	for i := 0; i < n; i++ {
		switch sym.Choice("op"+strconv.Itoa(i), 7) {
		case 0:
			c := sym.StrN("c"+strconv.Itoa(i), 1, "abz2")
			typed = append(typed, c[0])
			m = typeText(m, c)
		case 1:
			m = update(m, key("backspace"))
			if len(typed) > 0 {
				typed = typed[:len(typed)-1]
			}
		case 2:
			m = update(m, key("ctrl+u"))
			typed = nil
		case 3:
			m = update(m, key("down"))
		case 4:
			m = update(m, key("up"))
		case 5:
			h = sym.Int("h"+strconv.Itoa(i), -1, 9)
			m = update(m, tea.WindowSizeMsg{Width: []int{20, 0, 3}[sym.Choice("w"+strconv.Itoa(i), sym.Param("widths", 1))], Height: h})
		case 6:
			for k := 0; k < 4; k++ {
				m = update(m, key("down"))
			}
		}
		total := -1
		if len(typed) == 0 {
			total = len(set)
		}
		consistent(m, h, total)
	}
	s := consistent(m, h, -1)
	pressEnter(m, s)
	quit(m)
}

// Sizes: any terminal size, no crash, list intact.
func Sizes() {
	set := sets[0]
	var m tea.Model = picker.New(taskMap(set))
	m = typeText(m, []string{"", "a", "d2", "nope"}[sym.Choice("typed", 4)])
	h := sym.Int("h", -1, 12)
	m = update(m, tea.WindowSizeMsg{Width: sym.Int("w", -1, 70), Height: h})
	s := consistent(m, h, -1)
	pressEnter(m, s)
}

// Described: whatever the description of a task looks like, the task is one line of the list.
func Described() {
	n := sym.Param("tasks", 3)
	d := sym.Str("desc", sym.Param("len", 3), "ab \n\t\r")
	at := sym.Choice("at", n)
	tasks := babfile.TaskMap{}
	for i := 0; i < n; i++ {
		t := &babfile.Task{Name: string(rune('a'+i)) + "task", Desc: "of one line"}
		if i == at {
			t.Desc = d
			t.Alias = "al"
		}
		tasks[t.Name] = t
	}
	var m tea.Model = picker.New(tasks)
	h := sym.Int("h", 5, 8)
	m = update(m, tea.WindowSizeMsg{Width: 40, Height: h})
	moves := sym.Choice("downs", n)
	for i := 0; i < moves; i++ {
		m = update(m, key("down"))
	}
	text := modelui.Plain(m.View().Content)
	sym.Assert(!strings.Contains(text, "\r"), "a description moves the cursor")
	s := consistent(m, h, n)
	sym.Assert(nameOf(s.lines[s.hi]) == string(rune('a'+moves))+"task", "the highlight is on another task")
	for _, l := range s.lines {
		sym.Assert(strings.HasSuffix(nameOf(l), "task"), "a line of the list is no task")
		if nameOf(l) == string(rune('a'+at))+"task" {
			for _, w := range strings.Fields(d) {
				sym.Assert(strings.Contains(l, w), "the description is not shown")
			}
		}
	}
	pressEnter(m, s)
}

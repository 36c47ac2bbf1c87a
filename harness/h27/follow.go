package h27

import (
	"strconv"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// Following: a tab whose output does not fit shows the latest of it, whatever comes in
// between: output elsewhere, another tab, another size. After scrolling up it stays where it
// is, until the user comes back.
func Following() {
	w := start(2, true)
	heights := []int{6, 9}
	h := heights[sym.Choice("height", 2)]
	w.send(tea.WindowSizeMsg{Width: 60, Height: h})
	n := sym.Param("steps", 4)
	away := false // scrolled up
	var stay []string
	for i := 0; i < n; i++ {
		tag := strconv.Itoa(i)
		op := sym.Choice("op"+tag, 6)
		switch op {
		case 0, 1: // output of either
			for range 3 {
				w.step(0, strconv.Itoa(op))
			}
		case 2:
			w.step(8, "")
			away = false
		case 3:
			h = heights[sym.Choice("to"+tag, 2)]
			w.send(tea.WindowSizeMsg{Width: 60, Height: h})
			if away {
				return // what of it stays is not defined
			}
		case 4:
			w.send(tea.KeyPressMsg{Code: tea.KeyUp})
			if len(w.items[w.roots[w.active]].lines) > h-4 {
				away = true
			}
			stay = tokens(w.text())
		case 5:
			w.send(tea.KeyPressMsg{Code: tea.KeyPgDown})
			if away {
				return
			}
		}
	}
	s := w.text()
	got := tokens(s)
	want := w.items[w.roots[w.active]].lines
	if len(want) > h-4 {
		want = want[len(want)-(h-4):]
	}
	if away {
		sym.Assert(same(got, stay), "a tab does not stay where the user has scrolled to")
	} else {
		sym.Assert(same(got, want), "a tab does not show the latest output")
	}
	sym.Log("view", w.digest())
}

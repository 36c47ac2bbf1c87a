// Package modelui replaces terminal styling: styles change the look of a text, never the text.
package modelui

import (
	"strings"

	"charm.land/lipgloss/v2"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

//zz:replace (charm.land/lipgloss/v2.Style).Render
func render(s lipgloss.Style, strs ...string) string {
	t := strings.Join(strs, " ")
	w, before, after := s.GetWidth(), s.GetPaddingLeft(), s.GetPaddingRight()
	if w <= 0 && before <= 0 && after <= 0 {
		return t
	}
	lines := strings.Split(t, "\n")
	for i, l := range lines {
		l = strings.Repeat(" ", before) + l + strings.Repeat(" ", after)
		if n := lipgloss.Width(l); n < w {
			l += strings.Repeat(" ", w-n)
		}
		lines[i] = l
	}
	return strings.Join(lines, "\n")
}

// Plain removes the styling the real library adds; the engine's model adds none.
func Plain(s string) string {
	if sym.Symbolic() {
		return s
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
				j++
			}
			if j < len(s) && s[j] == 'm' {
				i = j
				continue
			}
		}
		b = append(b, s[i])
	}
	return string(b)
}

// Package h16: child output cannot move the cursor or inject terminal commands.
package h16

import (
	"strconv"
	"strings"
	"sync"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/tui"
	_ "github.com/bab-sh/bab/internal/zzverif/modeltea"
	_ "github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

// collect is a program that remembers the lines sent to it.
type collect struct{ lines []string }

func (c *collect) Init() tea.Cmd { return nil }
func (c *collect) Update(m tea.Msg) (tea.Model, tea.Cmd) {
	if l, ok := m.(tui.ItemOutputMsg); ok {
		c.lines = append(c.lines, l.Line)
	}
	return c, nil
}
func (c *collect) View() tea.View { return tea.NewView("") }

// ways a line can reach the screen
const (
	whole    = iota
	open     // without a line end
	pieces2  // in two writes, after another line
	returned // over another line
	keyed    // through the interface
	keyedOpen
	ways
)

func way() int {
	if sym.Param("ways", 0) == 0 {
		return whole
	}
	return sym.Choice("way", ways)
}

// shown is what the line becomes on screen, without label and final line feed.
func shown(line string, strip bool, way int) string {
	pad := strings.Repeat("p", []int{0, 17, 100, 300, 40, 5}[way])
	out := padded(pad, line, strip, way)
	sym.Assert(strings.HasPrefix(out, pad), "the text before is changed")
	return out[len(pad):]
}

func padded(pad, line string, strip bool, way int) string {
	line = pad + line
	parts := []string{line + "\n"}
	switch way {
	case open, keyedOpen:
		parts[0] = line
	case pieces2:
		n := (len(pad) + len(line)) / 2
		parts = []string{"1\n" + line[:n], line[n:] + "\n2"}
	case returned:
		parts[0] = "\x1b[2Jx\r" + line + "\r\n"
	}
	if way == keyed || way == keyedOpen {
		c := &collect{}
		p := tea.NewProgram(c, tea.WithInput(nil), tea.WithoutRenderer(), tea.WithoutSignals())
		done := make(chan error)
		go func() {
			_, err := p.Run()
			done <- err
		}()
		w := runner.NewKeyLineWriter("k", p, strip)
		for _, part := range parts {
			_, err := w.Write([]byte(part))
			sym.Assert(err == nil, "writing a line failed")
		}
		w.Flush()
		p.Send(tea.Quit())
		sym.Assert(<-done == nil, "the program failed")
		sym.Assert(len(c.lines) == 1, "a line is lost or torn")
		return c.lines[0]
	}
	var s sink
	w := runner.NewPrefixWriter("L", 1, nil, &s, &sync.Mutex{}, strip)
	var n int
	for i, part := range parts {
		_, err := w.Write([]byte(part))
		sym.Assert(err == nil, "writing a line failed")
		if i == 0 {
			n = len(s.b)
		}
	}
	if way == pieces2 {
		s.b = s.b[n:]
	}
	if n = len(s.b); way == pieces2 {
		sym.Assert(w.Flush() == nil && strings.HasSuffix(string(s.b), "2\n"), "an unterminated line is lost")
		s.b = s.b[:n]
	} else {
		sym.Assert(w.Flush() == nil, "flushing failed")
	}
	t := string(s.b)
	i := strings.IndexByte(t, ']')
	if !sym.Symbolic() { // the real label is coloured
		i = strings.IndexByte(t, 'L')
		i += strings.Index(t[i:], " ") - 1
	}
	sym.Assert(i > 0 && i+2 <= len(t)-1 && t[len(t)-1] == '\n', "a line is not written behind its label")
	return t[i+2 : len(t)-1]
}

// safe: printable bytes, tabs and complete ESC [ digits ; : m only.
func safe(s string, sgr bool) (bool, string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == 0x1b:
			if !sgr {
				return false, "an escape sequence is shown although colour is off"
			}
			j := i + 1
			if j >= len(s) || s[j] != '[' {
				return false, "an escape sequence other than a style is shown"
			}
			j++
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == ';' || s[j] == ':') {
				j++
			}
			if j >= len(s) || s[j] != 'm' {
				return false, "an escape sequence other than a style is shown"
			}
			i = j + 1
			continue
		case c < 0x20 && c != '\t' || c == 0x7f:
			return false, "a control character is shown"
		case c < 0x80:
			i++
			continue
		case c < 0xa0:
			return false, "a raw C1 control byte is shown"
		}
		// lead byte: skip the continuation bytes of a valid sequence, and refuse U+0080..U+009F
		if c == 0xc2 && i+1 < len(s) && s[i+1] >= 0x80 && s[i+1] < 0xa0 {
			return false, "a C1 control character is shown"
		}
		n := 0
		switch {
		case c >= 0xc2 && c < 0xe0:
			n = 1
		case c >= 0xe0 && c < 0xf0:
			n = 2
		case c >= 0xf0 && c < 0xf5:
			n = 3
		}
		k := 0
		for k < n && i+1+k < len(s) && s[i+1+k] >= 0x80 && s[i+1+k] < 0xc0 {
			k++
		}
		if k == n {
			i += 1 + n
		} else {
			i++
		}
	}
	return true, ""
}

func checkSafe(line string) {
	strip := sym.Flag("strip")
	out := shown(line, strip, way())
	ok, why := safe(out, !strip)
	sym.Assert(ok, why)
	sym.Log("out", out)
}

func noLF(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\n' && s[i] != '\r')
	}
}

// Free: any bytes below 0xc0, after an optional escape introducer.
func Free() {
	s := sym.StrN("s", sym.Param("n", 3), "")
	noLF(s)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0xc0)
	}
	pre := []string{"", "\x1b", "\x1b[", "\x1b[3", "\x1b]"}[sym.Choice("pre", 5)]
	checkSafe(pre + s + "x")
}

// Tricky: letters of the escape languages, incomplete multi-byte characters and C1 codes.
func Tricky() {
	s := sym.StrN("s", sym.Param("n", 4), "\x1b[mJ1;\x07\x9b\xc2\xc3a")
	checkSafe(s + "[2J")
}

// Params: styles with any number of parameters.
func Params() {
	k := sym.Choice("k", sym.Param("max", 40))
	sep := []string{";", ":", "1;", ";;"}[sym.Choice("sep", 4)]
	d := sym.StrN("d", 1, "0123456789")
	seq := "\x1b[" + strings.Repeat(sep, k) + d + "m"
	w := way()
	out := shown("a"+seq+"b", false, w)
	sym.Assert(out == "a"+seq+"b", "a style sequence is not passed through unchanged")
	out = shown("a"+seq+"b", true, w)
	sym.Assert(out == "ab", "with colour off a style sequence is not removed exactly")
}

type piece struct {
	text string
	kind int // 0 text, 1 style, 2 dropped
}

var pieces = []piece{
	{"T", 0}, {"\t", 0}, {"\u00e9", 0}, {"\u4e16", 0}, {"\x1b[31m", 1}, {"\x1b[m", 1}, {"\x1b[38:5:1m", 1}, {"\x1b[1;4m", 1},
	{"\x1b[2J", 2}, {"\x1b[?25l", 2}, {"\x1b]0;t\x07", 2}, {"\x1b]8;;u\x1b\\", 2}, {"\x1bPq\x1b\\", 2}, {"\x1b_a\x1b\\", 2}, {"\x1bc", 2}, {"\x08", 2},
	{"\x07", 2}, {"\x1b[>4;2m", 2}, {"\x1b(0", 2}, {"\x7f", 2}, {"\u0085", 2}, {"\x1b^p\x1b\\", 2}, {"\x1bXp\x1b\\", 2}, {"\x0c", 2},
}

// Pieces: what must stay stays in order, what must go goes, in any combination.
func Pieces() {
	strip := sym.Flag("strip")
	in, want := "<", "<"
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		p := pieces[sym.Choice("p"+strconv.Itoa(i), len(pieces))]
		t := p.text
		if t == "T" {
			t = sym.StrN("t"+strconv.Itoa(i), 1, "")
			sym.Assume(t[0] >= 0x20 && t[0] < 0x7f)
		}
		in += t
		if p.kind == 0 || p.kind == 1 && !strip {
			want += t
		}
	}
	in, want = in+">", want+">"
	out := shown(in, strip, way())
	sym.Log("out", out)
	sym.Assert(out == want, "printable text and styles are not exactly what is shown")
}

// Latin: every two-byte character, and every byte of the C1 range on its own.
func Latin() {
	strip := sym.Flag("strip")
	b := sym.Byte("b")
	sym.Assume(b >= 0x80 && b < 0xc0)
	if sym.Flag("raw") {
		out := shown("<"+string([]byte{b})+">", strip, way())
		ok, why := safe(out, !strip)
		sym.Assert(ok, why)
		// a byte that opens a sequence for some terminals may take what follows with it
		sym.Assert(out[0] == '<' && (b < 0xa0 || out[len(out)-1] == '>'), "text next to a raw byte is lost")
		return
	}
	a := sym.Byte("a")
	sym.Assume(a >= 0xc2 && a < 0xe0)
	out := shown("<"+string([]byte{a, b})+">", strip, way())
	if a == 0xc2 && b < 0xa0 {
		sym.Assert(out == "<>", "a C1 control character is shown")
	} else {
		sym.Assert(out == "<"+string([]byte{a, b})+">", "a printable character is not shown as it is")
	}
}

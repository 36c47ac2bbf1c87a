// Package h15: streamed output keeps every line whole, prefixed and in order.
package h15

import (
	"strings"
	"sync"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/tui"
	_ "github.com/bab-sh/bab/internal/zzverif/modeltea"
	_ "github.com/bab-sh/bab/internal/zzverif/modelui"
	"github.com/bab-sh/bab/internal/zzverif/sym"
)

type sink struct{ writes []string }

func (s *sink) Write(p []byte) (int, error) {
	s.writes = append(s.writes, string(p))
	return len(p), nil
}

func (s *sink) all() string { return strings.Join(s.writes, "") }

func fail(err error) { sym.Assert(err == nil, "a write to the prefix writer failed") }

// prefixOf learns what a writer with this label puts before a line.
func prefixOf(label string, pad int) string {
	var s sink
	w := runner.NewPrefixWriter(label, pad, nil, &s, &sync.Mutex{}, true)
	_, err := w.Write([]byte("q\n"))
	fail(err)
	t := s.all()
	sym.Assert(strings.HasSuffix(t, "q\n") && strings.Contains(t, label), "a line is not written behind its label")
	return t[:len(t)-2]
}

// lines is what must appear: the text split at line feeds, an unterminated rest last, each
// line without its trailing carriage returns and without what an inner one overwrites.
func lines(text string) []string {
	var out []string
	cur := []byte{}
	push := func() {
		n := len(cur)
		for n > 0 && cur[n-1] == '\r' {
			n--
		}
		from := 0
		for i := 0; i < n; i++ {
			if cur[i] == '\r' {
				from = i + 1
			}
		}
		out = append(out, string(cur[from:n]))
		cur = cur[:0]
	}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			push()
		} else {
			cur = append(cur, text[i])
		}
	}
	if len(cur) > 0 {
		push()
	}
	return out
}

// drop removes lines that are empty: a blank unterminated rest may be shown or not.
func expect(prefix, text string) string {
	s := ""
	for _, l := range lines(text) {
		s += prefix + l + "\n"
	}
	return s
}

const alpha = "ab\n\r\t "

// Chunks: any text chopped at any two places.
func Chunks() {
	text := sym.Str("text", sym.Param("len", 5), alpha[:sym.Param("letters", 4)])
	n := len(text)
	i := sym.Choice("cut1", n+1)
	j := i + sym.Choice("cut2", n-i+1)
	var s sink
	w := runner.NewPrefixWriter("ab", 3, nil, &s, &sync.Mutex{}, sym.Flag("strip"))
	for _, part := range []string{text[:i], text[i:j], text[j:]} {
		buf := []byte(part)
		k, err := w.Write(buf)
		fail(err)
		sym.Assert(k == len(buf), "a write consumed a wrong number of bytes")
		for x := range buf {
			buf[x] = '#' // the caller may reuse its buffer
		}
	}
	fail(w.Flush())
	prefix := prefixOf("ab", 3)
	got := s.all()
	sym.Log("got", strings.TrimPrefix(got, prefix))
	for _, wr := range s.writes {
		sym.Assert(strings.HasPrefix(wr, prefix) && strings.HasSuffix(wr, "\n"), "a line is not written in one piece behind its label")
	}
	sym.Assert(got == expect(prefix, text), "the streamed lines are not the printed ones")
	before := len(s.writes)
	fail(w.Flush())
	sym.Assert(len(s.writes) == before, "flushing twice repeats text")
}

// Text whose bytes are unrestricted printable ones survives unchanged.
func Bytes() {
	text := sym.StrN("text", sym.Param("len", 2), "")
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] >= 0x20 && text[i] < 0x7f || text[i] == '\t')
	}
	i := sym.Choice("cut", len(text)+1)
	var s sink
	w := runner.NewPrefixWriter("x", 1, nil, &s, &sync.Mutex{}, false)
	_, err := w.Write([]byte("<" + text[:i]))
	fail(err)
	_, err = w.Write([]byte(text[i:] + ">\n"))
	fail(err)
	sym.Assert(s.all() == prefixOf("x", 1)+"<"+text+">\n", "printable text is not passed through unchanged")
}

// char is any printable character of one to four bytes, except the ones an encoding of which
// holds the byte 0x9b, which stands for a control sequence in other encodings.
func char(name string) string {
	n := 1 + sym.Choice(name+".bytes", sym.Param("bytes", 4))
	lo := []byte{0x20, 0xc3, 0xe1, 0xf1}[n-1]
	hi := []byte{0x7e, 0xdf, 0xec, 0xf3}[n-1]
	s := sym.StrN(name, n, "")
	sym.Assume(s[0] >= lo && s[0] <= hi)
	for i := 1; i < n; i++ {
		sym.Assume(s[i] >= 0x80 && s[i] <= 0xbf && s[i] != 0x9b)
	}
	return s
}

// some characters of several bytes, with 0x9b among them
var some = []string{"\u021b", "\u691b", "\U0001f61b", "\u00e9", "e\u0301", "\U0001f468\u200d\U0001f469"}

func text() string {
	if sym.Flag("fixed") {
		return some[sym.Choice("first", len(some))] + some[sym.Choice("second", len(some))]
	}
	return char("c") + char("d")
}

// collect is a program that remembers the lines sent to it.
type collect struct{ lines []tui.ItemOutputMsg }

func (c *collect) Init() tea.Cmd { return nil }
func (c *collect) Update(m tea.Msg) (tea.Model, tea.Cmd) {
	if l, ok := m.(tui.ItemOutputMsg); ok {
		c.lines = append(c.lines, l)
	}
	return c, nil
}
func (c *collect) View() tea.View { return tea.NewView("") }

// Characters: characters of any length, cut anywhere, through either writer.
func Characters() {
	t := text()
	i := sym.Choice("cut", len(t)+1)
	j := i + sym.Choice("cut2", min(len(t)-i, 1)+1)
	strip := sym.Flag("strip")
	parts := []string{"<" + t[:i], t[i:j], t[j:] + ">\n"}
	if sym.Flag("open") {
		parts[2] = t[j:] + ">"
	}
	if sym.Flag("keyed") {
		c := &collect{}
		p := tea.NewProgram(c, tea.WithInput(nil), tea.WithoutRenderer(), tea.WithoutSignals())
		done := make(chan error)
		go func() {
			_, err := p.Run()
			done <- err
		}()
		w := runner.NewKeyLineWriter("k", p, strip)
		for _, part := range parts {
			n, err := w.Write([]byte(part))
			fail(err)
			sym.Assert(n == len(part), "a write consumed a wrong number of bytes")
		}
		w.Flush()
		w.Flush()
		p.Send(tea.Quit())
		fail(<-done)
		sym.Assert(len(c.lines) == 1 && c.lines[0].Key == "k", "a line is lost or repeated")
		sym.Assert(c.lines[0].Line == "<"+t+">", "a character that arrives in pieces is damaged")
		return
	}
	var s sink
	w := runner.NewPrefixWriter("x", 1, nil, &s, &sync.Mutex{}, strip)
	for _, part := range parts {
		n, err := w.Write([]byte(part))
		fail(err)
		sym.Assert(n == len(part), "a write consumed a wrong number of bytes")
	}
	fail(w.Flush())
	sym.Assert(s.all() == prefixOf("x", 1)+"<"+t+">\n", "a character that arrives in pieces is damaged")
}

var lengths = []int{3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 32768, 65535, 65536, 65537}

// Long: lines of many characters and streams of many lines, in pieces of any size.
func Long() {
	sizes := sym.Param("sizes", 21)
	n := lengths[sym.Choice("size", sizes)]
	u := sym.StrN("unit", 1, "")
	sym.Assume(u[0] > 0x20 && u[0] < 0x7f)
	var want []string
	many := sym.Flag("many")
	if many { // n bytes in short lines
		for k := 0; k < n; k += 8 {
			want = append(want, strings.Repeat(u, k/8%9))
		}
	} else {
		want = []string{"a" + u, strings.Repeat(u, n) + "z", u + "b"}
	}
	text := strings.Join(want, "\n") + "\n"
	if last := len(want) - 1; !many && sym.Flag("open") {
		text = text[:len(text)-1]
	} else if many && want[last] == "" {
		want[last] = "x"
		text = text[:len(text)-1] + "x\n"
	}
	chunk := []int{1, 7, 64, 100, 512, 4096, 32768, 1 << 20}[sym.Choice("chunk", 8)]
	if chunk*300 < len(text) {
		return // too slow
	}
	strip := n%2 == 0
	write := func(w interface{ Write([]byte) (int, error) }) {
		for at := 0; at < len(text); at += chunk {
			part := []byte(text[at:min(at+chunk, len(text))])
			k, err := w.Write(part)
			fail(err)
			sym.Assert(k == len(part), "a write consumed a wrong number of bytes")
		}
	}
	var got []string
	if sym.Flag("keyed") {
		c := &collect{}
		p := tea.NewProgram(c, tea.WithInput(nil), tea.WithoutRenderer(), tea.WithoutSignals())
		done := make(chan error)
		go func() {
			_, err := p.Run()
			done <- err
		}()
		w := runner.NewKeyLineWriter("k", p, strip)
		write(w)
		w.Flush()
		p.Send(tea.Quit())
		fail(<-done)
		for _, l := range c.lines {
			got = append(got, l.Line)
		}
	} else {
		var s sink
		w := runner.NewPrefixWriter("x", 1, nil, &s, &sync.Mutex{}, strip)
		write(w)
		fail(w.Flush())
		prefix := prefixOf("x", 1)
		for _, l := range strings.SplitAfter(s.all(), "\n") {
			if l != "" {
				sym.Assert(strings.HasPrefix(l, prefix) && l[len(l)-1] == '\n', "a line is torn")
				got = append(got, l[len(prefix):len(l)-1])
			}
		}
	}
	sym.Assert(len(got) == len(want), "a line is lost, torn or repeated")
	for i := range got {
		sym.Assert(got[i] == want[i], "a line of a long stream is not the printed one")
	}
}

// Two writers share one destination from two goroutines.
func Interleaved() {
	sym.Races(true)
	sym.Preempt(sym.Param("preempt", 2))
	var s sink
	var mu sync.Mutex
	texts := []string{"1\n2\n3", "4\r\n5\n6\n"}
	labels := []string{"a", "bc"}
	cut := sym.Choice("cut", 4)
	var wg sync.WaitGroup
	for k := range texts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := runner.NewPrefixWriter(labels[k], 2, nil, &s, &mu, true)
			_, err := w.Write([]byte(texts[k][:cut]))
			fail(err)
			_, err = w.Write([]byte(texts[k][cut:]))
			fail(err)
			fail(w.Flush())
		}()
	}
	wg.Wait()
	for k := range texts {
		prefix := prefixOf(labels[k], 2)
		got := ""
		for _, wr := range s.writes {
			for _, l := range strings.SplitAfter(wr, "\n") {
				if strings.HasPrefix(l, prefix) {
					got += l
				}
			}
		}
		sym.Assert(got == expect(prefix, texts[k]), "lines of concurrent items are lost, torn or out of order")
	}
	total := 0
	for _, wr := range s.writes {
		total += strings.Count(wr, "\n")
	}
	sym.Assert(total == 6, "lines of concurrent items are lost or duplicated")
}

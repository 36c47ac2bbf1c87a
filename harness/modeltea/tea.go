// Package modeltea stands in for the event loop of bubbletea: it applies messages to the
// model one after another as the real loop does, without a terminal. Keys come from a script.
// Drawing is left out. Cursors do not blink.
package modeltea

import (
	"context"
	"fmt"
	"sync"
	"time"

	"charm.land/bubbles/v2/cursor"
	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/zzverif/modelrun"
)

type prog struct {
	p         *tea.Program
	model     tea.Model
	ext, ctx  context.Context
	cancel    context.CancelFunc
	mu        sync.Mutex
	ended     error
	started   chan struct{}
	stop      chan struct{}
	stopped   bool
	finished  chan struct{}
	interrupt chan struct{}
}

type seqMsg []tea.Cmd

var (
	progs []*prog
	exts  []struct {
		p   *tea.Program
		ctx context.Context
	}
	// Keys are typed one after another, each once the program has dealt with all before it.
	Keys []tea.Msg
	// Width and Height of the terminal.
	Width, Height = 80, 24
	// OnMsg sees every message before it is dealt with.
	OnMsg func(before tea.Model, m tea.Msg)
	// Fault is what running a program fails with, as without a terminal.
	Fault error
	// Runs counts the programs that were run.
	Runs int
	// AtOnce is how many programs were running at the same time at most.
	AtOnce int
	active int
	// Last is the model of the program that ended last.
	Last tea.Model
)

func of(p *tea.Program) *prog {
	for _, q := range progs {
		if q.p == p {
			return q
		}
	}
	panic("unknown program")
}

// Key makes the message of a key press.
func Key(s string) tea.Msg {
	switch s {
	case "enter":
		return tea.KeyPressMsg{Code: tea.KeyEnter}
	case "esc":
		return tea.KeyPressMsg{Code: tea.KeyEscape}
	case "up":
		return tea.KeyPressMsg{Code: tea.KeyUp}
	case "down":
		return tea.KeyPressMsg{Code: tea.KeyDown}
	case "left":
		return tea.KeyPressMsg{Code: tea.KeyLeft}
	case "right":
		return tea.KeyPressMsg{Code: tea.KeyRight}
	case "tab":
		return tea.KeyPressMsg{Code: tea.KeyTab}
	case "shift+tab":
		return tea.KeyPressMsg{Code: tea.KeyTab, Mod: tea.ModShift}
	case "backspace":
		return tea.KeyPressMsg{Code: tea.KeyBackspace}
	case "space":
		return tea.KeyPressMsg{Code: tea.KeySpace, Text: " "}
	case "ctrl+c":
		return tea.KeyPressMsg{Code: 'c', Mod: tea.ModCtrl}
	}
	r := []rune(s)
	return tea.KeyPressMsg{Code: r[0], Text: s}
}

// Type appends keys to the script.
func Type(keys ...string) {
	for _, k := range keys {
		Keys = append(Keys, Key(k))
	}
}

// Press sends a key to every program that runs now.
func Press(key string) {
	for _, q := range progs {
		q := q
		select {
		case <-q.ctx.Done():
		default:
			go q.send(Key(key))
		}
	}
}

//zz:replace charm.land/bubbletea/v2.WithContext
func withContext(ctx context.Context) tea.ProgramOption {
	return func(p *tea.Program) {
		exts = append(exts, struct {
			p   *tea.Program
			ctx context.Context
		}{p, ctx})
	}
}

//zz:replace charm.land/bubbletea/v2.NewProgram
func newProgram(model tea.Model, opts ...tea.ProgramOption) *tea.Program {
	p := new(tea.Program)
	for _, o := range opts {
		o(p)
	}
	q := &prog{p: p, model: model, started: make(chan struct{}), stop: make(chan struct{}), interrupt: make(chan struct{}, 1)}
	for _, e := range exts {
		if e.p == p {
			q.ext = e.ctx
		}
	}
	if q.ext == nil {
		q.ext = context.Background()
	}
	q.ctx, q.cancel = context.WithCancel(q.ext)
	progs = append(progs, q)
	return p
}

//zz:replace charm.land/bubbletea/v2.Sequence
func sequence(cmds ...tea.Cmd) tea.Cmd { return func() tea.Msg { return seqMsg(cmds) } }

//zz:replace charm.land/bubbletea/v2.Tick charm.land/bubbletea/v2.Every
func tick(d time.Duration, fn func(time.Time) tea.Msg) tea.Cmd { return nil }

//zz:replace (*charm.land/bubbles/v2/cursor.Model).Blink
func blink(m *cursor.Model) tea.Cmd { return nil }

//zz:replace charm.land/bubbles/v2/cursor.Blink
func blinkMsg() tea.Msg { return nil }

// send delivers a message. The real loop receives it from an unbuffered channel and updates
// the model in its own goroutine; here the sender does that under a lock.
func (q *prog) send(m tea.Msg) {
	select {
	case <-q.ctx.Done():
		return
	case <-q.started:
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.ctx.Err() == nil {
		q.apply([]tea.Msg{m})
	}
}

func (q *prog) cmd(c tea.Cmd, queue []tea.Msg) []tea.Msg {
	if c == nil {
		return queue
	}
	m := c()
	switch m := m.(type) {
	case nil:
		return queue
	case tea.BatchMsg:
		for _, d := range m {
			queue = q.cmd(d, queue)
		}
		return queue
	case seqMsg:
		for _, d := range m {
			queue = q.cmd(d, queue)
		}
		return queue
	}
	return append(queue, m)
}

func (q *prog) end(err error) {
	if !q.stopped {
		q.stopped = true
		q.ended = err
		close(q.stop)
	}
}

// apply deals with the messages and those their commands bring about.
func (q *prog) apply(queue []tea.Msg) {
	for len(queue) > 0 && !q.stopped {
		m := queue[0]
		queue = queue[1:]
		switch m.(type) {
		case tea.QuitMsg:
			q.end(nil)
			return
		case tea.InterruptMsg:
			q.end(tea.ErrInterrupted)
			return
		}
		if OnMsg != nil {
			OnMsg(q.model, m)
		}
		var c tea.Cmd
		q.model, c = q.model.Update(m)
		queue = q.cmd(c, queue)
		if q.ctx.Err() != nil {
			return
		}
	}
}

func (q *prog) loop() error {
	q.mu.Lock()
	q.apply(q.cmd(q.model.Init(), []tea.Msg{tea.WindowSizeMsg{Width: Width, Height: Height}}))
	q.mu.Unlock()
	close(q.started)
	for {
		q.mu.Lock()
		for len(Keys) > 0 && !q.stopped && q.ctx.Err() == nil {
			k := Keys[0]
			Keys = Keys[1:]
			q.apply([]tea.Msg{k})
		}
		q.mu.Unlock()
		select {
		case <-q.ctx.Done():
			return nil
		case <-q.stop:
			return q.ended
		case <-q.interrupt:
			q.mu.Lock()
			q.apply([]tea.Msg{tea.InterruptMsg{}})
			q.mu.Unlock()
		}
	}
}

//zz:replace (*charm.land/bubbletea/v2.Program).Run
func run(p *tea.Program) (tea.Model, error) {
	q := of(p)
	if Fault != nil {
		q.cancel()
		return q.model, Fault
	}
	Runs++
	active++
	AtOnce = max(AtOnce, active)
	defer func() { active-- }()
	q.finished = make(chan struct{})
	defer func() { close(q.finished) }()
	defer q.cancel()
	modelrun.OnInterrupt(func() {
		select {
		case q.interrupt <- struct{}{}:
		default:
		}
	})
	err := q.loop()
	if err == nil && q.ext.Err() != nil {
		err = fmt.Errorf("%w: %w", tea.ErrProgramKilled, q.ext.Err())
	} else if err == nil && q.ctx.Err() != nil {
		err = tea.ErrProgramKilled
	} else if err != nil {
		err = fmt.Errorf("%w: %w", tea.ErrProgramKilled, err)
	}
	Last = q.model
	return q.model, err
}

//zz:replace (*charm.land/bubbletea/v2.Program).Send
func send(p *tea.Program, m tea.Msg) { of(p).send(m) }

//zz:replace (*charm.land/bubbletea/v2.Program).Quit
func quit(p *tea.Program) { of(p).send(tea.Quit()) }

//zz:replace (*charm.land/bubbletea/v2.Program).Kill
func killProg(p *tea.Program) { of(p).cancel() }

//zz:replace (*charm.land/bubbletea/v2.Program).Wait
func wait(p *tea.Program) { <-of(p).finished }

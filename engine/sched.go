package main

import (
	"fmt"
	"runtime/debug"
)

// Goroutines of the target run as host goroutines passing a baton; every scheduling
// decision is a symbolic choice variable explored by the engine.

type Gor struct {
	id   int
	wake chan struct{}
	top  *Frame
	cond func() bool
	why  string
	done bool
	host bool // host goroutine has been started
	vc   vclock
	ret  chan struct{}
}

type killSig struct{}

type timer struct {
	at   int64
	fire func()
	dead bool
}

func (w *Worker) newGor() *Gor {
	g := &Gor{id: len(w.gors), wake: make(chan struct{}, 1), ret: make(chan struct{})}
	w.gors = append(w.gors, g)
	n := 0
	for _, o := range w.gors {
		if !o.done {
			n++
		}
	}
	if n > w.maxGor {
		w.maxGor = n
	}
	return g
}

func (w *Worker) classify(r any) pathEnd {
	switch e := r.(type) {
	case pathEnd:
		return e
	case killSig:
		return pathEnd{"killed", ""}
	case Unsupported:
		return pathEnd{"cut", "unsupported: " + e.msg + " @ " + firstLine(w.stack())}
	case targetPanic:
		msg := w.panicText(e.v)
		if w.fixed != nil || w.pos >= len(w.prefix) {
			w.violation("panic", "panic: "+msg, w.model, "")
		}
		return pathEnd{"violation", msg}
	case goexit:
		return pathEnd{"done", "goexit"}
	default:
		return pathEnd{"cut", fmt.Sprintf("engine: %v @ %s\n%s", r, firstLine(w.stack()), trimStack(debug.Stack()))}
	}
}

func firstLine(s string) string {
	n := 0
	for i := range s {
		if s[i] == '\n' {
			n++
			if n == 4 {
				return s[:i]
			}
		}
	}
	return s
}

func trimStack(b []byte) string {
	if !debugEngine {
		return ""
	}
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func (w *Worker) runMain() (end pathEnd) {
	g0 := w.newGor()
	g0.vc = vclock{1}
	w.cur = g0
	w.bodyEnd = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				end = w.classify(r)
			}
		}()
		w.callFn(w.h.fn, nil, nil)
		end = pathEnd{"done", ""}
	}()
	if be, ok := w.bodyEnd.(pathEnd); ok {
		end = be
	}
	w.killing = true
	g0.done = true
	for _, g := range w.gors {
		if g != g0 && !g.done {
			if g.host {
				g.wake <- struct{}{}
				<-g.ret
			}
		}
	}
	return end
}

func (w *Worker) spawn(f func()) *Gor {
	g := w.newGor()
	if w.race != nil {
		w.race.fork(w.cur, g)
	}
	g.host = true
	if len(w.gors) > 64 {
		panic(unsupported("more than 64 goroutines"))
	}
	go func() {
		<-g.wake
		defer close(g.ret)
		if w.killing {
			g.done = true
			return
		}
		var end *pathEnd
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(goexit); ok {
						return
					}
					e := w.classify(r)
					end = &e
				}
			}()
			f()
		}()
		g.done = true
		if w.killing {
			return
		}
		if end != nil {
			w.bodyEnd = *end
			w.killing = true
			w.gors[0].wake <- struct{}{}
			return
		}
		// pick another goroutine
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.bodyEnd = w.classify(r)
					w.killing = true
					w.gors[0].wake <- struct{}{}
				}
			}()
			n := w.pickNext("exit")
			w.cur = n
			n.wake <- struct{}{}
		}()
	}()
	return g
}

func (w *Worker) enabled(except *Gor) []*Gor {
	var r []*Gor
	for _, g := range w.gors {
		if g == except || g.done {
			continue
		}
		if g.cond == nil || g.cond() {
			r = append(r, g)
		}
	}
	return r
}

// pickNext selects an enabled goroutine other than the (blocked or finished) current one.
func (w *Worker) pickNext(why string) *Gor {
	for {
		en := w.enabled(w.cur)
		if len(en) == 0 {
			if w.fireTimer() {
				if w.cur.cond != nil && !w.cur.done && w.cur.cond() {
					return w.cur
				}
				continue
			}
			msg := "deadlock:"
			for _, g := range w.gors {
				if !g.done {
					msg += fmt.Sprintf(" goroutine %d blocked in %s;", g.id, g.why)
				}
			}
			if w.fixed != nil || w.pos >= len(w.prefix) {
				w.violation("deadlock", msg, w.model, "")
			}
			panic(pathEnd{"violation", msg})
		}
		i := 0
		switch {
		case len(en) == 1:
		case w.order == 0:
			i = w.choose("sched", len(en), "sched")
		default:
			// delay-bounded: the first or the last of them, but for a number of deviations
			d := 0
			if w.order == 2 {
				d = len(en) - 1
			}
			i = d
			if w.devs < w.devMax {
				if k := w.choose("sched", len(en), "sched"); k > 0 {
					w.devs++
					i = (d + k) % len(en)
				}
			}
		}
		w.schedTr = append(w.schedTr, en[i].id)
		return en[i]
	}
}

func (w *Worker) fireTimer() bool {
	best := -1
	for i, t := range w.timers {
		if !t.dead && (best < 0 || t.at < w.timers[best].at) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	t := w.timers[best]
	t.dead = true
	if t.at > w.clock {
		w.clock = t.at
	}
	t.fire()
	return true
}

func (w *Worker) switchTo(n *Gor) {
	prev := w.cur
	if n == prev {
		return
	}
	w.cur = n
	n.wake <- struct{}{}
	<-prev.wake
	if w.killing {
		panic(killSig{})
	}
	w.cur = prev
}

// yield is a scheduling point of a runnable goroutine.
func (w *Worker) yield(why string) {
	if w.inInit > 0 || len(w.gors) <= 1 || w.killing {
		return
	}
	if w.preempts >= w.preemptMax {
		return
	}
	en := w.enabled(w.cur)
	if len(en) == 0 {
		return
	}
	w.x.schedPts++
	i := w.choose("sched", len(en)+1, "sched")
	if i == 0 {
		return
	}
	w.preempts++
	w.schedTr = append(w.schedTr, en[i-1].id)
	w.cur.cond = nil
	w.cur.why = why
	w.switchTo(en[i-1])
}

// block suspends the current goroutine until cond holds.
func (w *Worker) block(why string, cond func() bool) {
	for !cond() {
		if w.inInit > 0 {
			panic(unsupported("blocking during init: %s", why))
		}
		w.cur.cond = cond
		w.cur.why = why
		n := w.pickNext(why)
		w.switchTo(n)
		w.cur.cond = nil
	}
}

// yieldBab yields when the code being executed belongs to the module under test.
func (w *Worker) yieldBab(why string) {
	if w.cur != nil && w.cur.top != nil && w.cur.top.code.bab {
		w.yield(why)
	}
}

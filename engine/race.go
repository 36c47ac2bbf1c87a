package main

import "fmt"

// Happens-before race detection (vector clocks), active while more than one goroutine exists.

type vclock []int32

func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

type shadow struct {
	wg   int
	wt   int32
	wPos place
	rd   vclock
	rPos []place
}

// place is a position in the code, made into text only when it is reported.
type place struct {
	code    *fnCode
	blk, pc int
}

func (w *Worker) text(p place) string {
	if p.code == nil {
		return "?"
	}
	f := &Frame{w: w, code: p.code, blk: p.blk, pc: p.pc}
	return p.code.fn.String() + " " + f.position()
}

type raceState struct {
	cells map[*Value]*shadow
	maps  map[*Map]*shadow
	objs  map[any]*vclock
	quiet int
}

func newRace() *raceState {
	return &raceState{cells: map[*Value]*shadow{}, maps: map[*Map]*shadow{}, objs: map[any]*vclock{}}
}

func (r *raceState) fork(p, c *Gor) {
	for len(p.vc) <= p.id {
		p.vc = append(p.vc, 0)
	}
	c.vc = append(vclock(nil), p.vc...)
	for len(c.vc) <= c.id {
		c.vc = append(c.vc, 0)
	}
	c.vc[c.id] = 1
	p.vc[p.id]++
}

func (r *raceState) acquire(g *Gor, o any) {
	if c := r.objs[o]; c != nil {
		g.vc = g.vc.join(*c)
	}
}

func (r *raceState) release(g *Gor, o any) {
	c := r.objs[o]
	if c == nil {
		c = &vclock{}
		r.objs[o] = c
	}
	*c = c.join(g.vc)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (w *Worker) acq(o any) {
	if w.race != nil {
		w.race.acquire(w.cur, o)
	}
}
func (w *Worker) rel(o any) {
	if w.race != nil {
		w.race.release(w.cur, o)
	}
}

func (r *raceState) on(w *Worker) bool {
	if len(w.gors) <= 1 || w.inInit != 0 || r.quiet != 0 {
		return false
	}
	// what a model does stands for the operating system or a library that synchronises itself
	for f := w.cur.top; f != nil && !f.code.bab; f = f.caller {
		if f.code.model {
			return false
		}
	}
	return true
}

func (r *raceState) access(w *Worker, s *shadow, write bool, what string) {
	g := w.cur
	me := g.id
	if s.wt > 0 && s.wg != me && s.wt > g.vc.get(s.wg) {
		r.report(w, what, s.wPos, "write", write)
	}
	if write {
		for i, t := range s.rd {
			if i != me && t > g.vc.get(i) {
				var p place
				if i < len(s.rPos) {
					p = s.rPos[i]
				}
				r.report(w, what, p, "read", write)
			}
		}
		s.wg, s.wt = me, g.vc.get(me)
		s.wPos = w.where()
		s.rd = s.rd[:0]
	} else {
		for len(s.rd) <= me {
			s.rd = append(s.rd, 0)
			s.rPos = append(s.rPos, place{})
		}
		s.rd[me] = g.vc.get(me)
		for len(s.rPos) <= me {
			s.rPos = append(s.rPos, place{})
		}
		s.rPos[me] = w.where()
	}
}

func (r *raceState) report(w *Worker, what string, otherPos place, otherKind string, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	msg := fmt.Sprintf("data race on %s: %s at %s, concurrent with %s at %s", what, k, w.text(w.where()), otherKind, w.text(otherPos))
	if w.fixed != nil || w.pos >= len(w.prefix) {
		w.violation("race", msg, w.model, "")
	}
	panic(pathEnd{"violation", msg})
}

func (w *Worker) where() place {
	if w.cur == nil || w.cur.top == nil {
		return place{}
	}
	for f := w.cur.top; f != nil; f = f.caller {
		if f.code.bab {
			return place{f.code, f.blk, f.pc}
		}
	}
	return place{w.cur.top.code, 0, 0}
}

func (r *raceState) write(w *Worker, p *Value) {
	if !r.on(w) {
		return
	}
	s := r.cells[p]
	if s == nil {
		s = &shadow{}
		r.cells[p] = s
	}
	r.access(w, s, true, "memory")
}

func (r *raceState) read(w *Worker, p *Value) {
	s := r.cells[p]
	if s == nil {
		s = &shadow{}
		r.cells[p] = s
	}
	r.access(w, s, false, "memory")
}

func (r *raceState) readDeep(w *Worker, p *Value) {
	if !r.on(w) {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			r.readDeep(w, &x[i])
		}
	case Array:
		for i := range x {
			r.readDeep(w, &x[i])
		}
	default:
		r.read(w, p)
	}
}

func (r *raceState) mapWrite(w *Worker, m *Map) {
	if !r.on(w) {
		return
	}
	s := r.maps[m]
	if s == nil {
		s = &shadow{}
		r.maps[m] = s
	}
	r.access(w, s, true, "map")
}
func (r *raceState) mapRead(w *Worker, m *Map) {
	if !r.on(w) {
		return
	}
	s := r.maps[m]
	if s == nil {
		s = &shadow{}
		r.maps[m] = s
	}
	r.access(w, s, false, "map")
}

package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const unixToInternal = 62135596800

func initTime(I map[string]intrinsic) {
	now := func(w *Worker) Value {
		ns := uint64(w.clock)
		sec := w.nowSec
		var ext Value
		add := ns/1e9 + unixToInternal
		if s, ok := sec.(uint64); ok {
			ext = s + add
		} else {
			ext = w.fromTerm(w.ts.Bin(OAdd, sec.(*Term), w.ts.Const(add, 64)))
		}
		return Struct{ns % 1e9, ext, (*Value)(nil)}
	}
	I["time.Now"] = func(f *Frame, a []Value) Value { return now(f.w) }
	// Sub of times without a monotonic part, as time.Time.Sub has it: the difference in
	// nanoseconds, or the largest or smallest duration if it does not fit.
	natives["(time.Time).Sub"] = func(w *Worker, a []Value) (Value, bool) {
		t, u := a[0].(Struct), a[1].(Struct)
		_, s1 := t[1].(*Term)
		_, s2 := u[1].(*Term)
		tw, c1 := t[0].(uint64)
		uw, c2 := u[0].(uint64)
		if !s1 && !s2 || !c1 || !c2 || tw>>63 != 0 || uw>>63 != 0 {
			return nil, false
		}
		ts := w.ts
		term := func(v Value) *Term {
			if x, ok := v.(*Term); ok {
				return x
			}
			return ts.Const(v.(uint64), 64)
		}
		d := ts.Bin(OSub, term(t[1]), term(u[1]))
		lim := ts.Const(9000000000, 64)
		if w.branchV(w.fromTerm(ts.Bin(OUlt, ts.Bin(OAdd, d, lim), ts.Const(18000000000, 64)))) {
			return w.fromTerm(ts.Bin(OAdd, ts.Bin(OMul, d, ts.Const(1000000000, 64)), ts.Const(tw-uw, 64))), true
		}
		return nil, false
	}
	I[symPkg+"SetNow"] = func(f *Frame, a []Value) Value { f.w.nowSec = a[0]; return nil }
	I["time.runtimeNano"] = func(f *Frame, a []Value) Value { return uint64(f.w.clock) }
	I["time.Sleep"] = func(f *Frame, a []Value) Value {
		w := f.w
		d := w.concInt(a[0])
		if d <= 0 {
			w.syncPoint(f, "sleep")
			return nil
		}
		done := false
		w.timers = append(w.timers, &timer{at: w.clock + d, fire: func() { done = true }})
		w.block("sleep", func() bool { return done })
		return nil
	}
	timerT := func(w *Worker) types.Type { return w.p.pkgs["time"].Members["Timer"].(*ssa.Type).Type() }
	mk := func(w *Worker, ch Value) *Value {
		p := new(Value)
		*p = w.zero(timerT(w))
		if ch != nil {
			(*p).(Struct)[0] = ch
		}
		return p
	}
	type tk struct{ p *Value }
	I["time.AfterFunc"] = func(f *Frame, a []Value) Value {
		w := f.w
		p := mk(w, nil)
		fn := a[1]
		t := &timer{at: w.clock + max(0, w.concInt(a[0]))}
		t.fire = func() { w.spawnTimer(fn) }
		w.timers = append(w.timers, t)
		w.side[tk{p}] = t
		return p
	}
	newTimer := func(w *Worker, d int64) *Value {
		ch := &Chan{cap: 1}
		p := mk(w, ch)
		t := &timer{at: w.clock + max(0, d)}
		t.fire = func() {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, now(w))
			}
		}
		w.timers = append(w.timers, t)
		w.side[tk{p}] = t
		return p
	}
	I["time.NewTimer"] = func(f *Frame, a []Value) Value { return newTimer(f.w, f.w.concInt(a[0])) }
	I["time.After"] = func(f *Frame, a []Value) Value {
		p := newTimer(f.w, f.w.concInt(a[0]))
		return (*p).(Struct)[0]
	}
	I["(*time.Timer).Stop"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		if t, ok := f.w.side[tk{a[0].(*Value)}].(*timer); ok {
			was := !t.dead
			t.dead = true
			return was
		}
		return false
	}
	I["(*time.Timer).Reset"] = func(f *Frame, a []Value) Value {
		if t, ok := f.w.side[tk{a[0].(*Value)}].(*timer); ok {
			was := !t.dead
			n := &timer{at: f.w.clock + max(0, f.w.concInt(a[1])), fire: t.fire}
			t.dead = true
			f.w.timers = append(f.w.timers, n)
			f.w.side[tk{a[0].(*Value)}] = n
			return was
		}
		return false
	}
}

// spawnTimer runs a timer callback in its own goroutine.
func (w *Worker) spawnTimer(fn Value) {
	w.spawn(func() { w.callValue(nil, fn, nil, nil) })
}

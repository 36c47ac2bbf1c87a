package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) syncPoint(f *Frame, why string) {
	if w.curBab(f) {
		w.yield(why)
	}
}

func cellU(c *Value) uint64 {
	u, ok := (*c).(uint64)
	if !ok {
		panic(unsupported("symbolic synchronisation state"))
	}
	return u
}

func initSync(I map[string]intrinsic) {
	I["context.WithValue"] = func(f *Frame, a []Value) Value {
		w := f.w
		if a[0].(Iface).t == nil || a[1].(Iface).t == nil {
			panic(targetPanic{Iface{w.p.runtimeError, "nil context or key"}})
		}
		if !types.Comparable(a[1].(Iface).t) {
			panic(targetPanic{Iface{w.p.runtimeError, "key is not comparable"}})
		}
		t := w.p.pkgs["context"].Members["valueCtx"].(*ssa.Type).Type()
		p := new(Value)
		*p = Struct{a[0], a[1], a[2]}
		return Iface{types.NewPointer(t), p}
	}
	lock := func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		w := f.w
		w.syncPoint(f, "lock")
		c := leaves(a[0])[0]
		w.block("mutex lock", func() bool { return cellU(c) == 0 })
		w.set(c, uint64(1))
		w.acq(c)
		return nil
	}
	unlock := func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		w := f.w
		c := leaves(a[0])[0]
		if cellU(c) == 0 {
			panic(targetPanic{Iface{w.p.runtimeError, "fatal: unlock of unlocked mutex"}})
		}
		w.rel(c)
		w.set(c, uint64(0))
		w.syncPoint(f, "unlock")
		return nil
	}
	tryLock := func(f *Frame, a []Value) Value {
		w := f.w
		w.syncPoint(f, "trylock")
		c := leaves(a[0])[0]
		if cellU(c) != 0 {
			return false
		}
		w.set(c, uint64(1))
		w.acq(c)
		return true
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.Mutex).TryLock"] = tryLock
	I["(*internal/sync.Mutex).Lock"] = lock
	I["(*internal/sync.Mutex).Unlock"] = unlock
	I["(*internal/sync.Mutex).TryLock"] = tryLock

	// RWMutex: leaves w.state, w.sema, writerSem, readerSem, readerCount, readerWait
	I["(*sync.RWMutex).Lock"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		w := f.w
		w.syncPoint(f, "lock")
		l := leaves(a[0])
		w.block("rwmutex lock", func() bool { return cellU(l[0]) == 0 && cellU(l[4]) == 0 })
		w.set(l[0], uint64(1))
		w.acq(l[0])
		w.acq(l[4])
		return nil
	}
	I["(*sync.RWMutex).Unlock"] = func(f *Frame, a []Value) Value {
		w := f.w
		l := leaves(a[0])
		if cellU(l[0]) == 0 {
			panic(targetPanic{Iface{w.p.runtimeError, "fatal: Unlock of unlocked RWMutex"}})
		}
		w.rel(l[0])
		w.set(l[0], uint64(0))
		w.syncPoint(f, "unlock")
		return nil
	}
	I["(*sync.RWMutex).RLock"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		w := f.w
		w.syncPoint(f, "rlock")
		l := leaves(a[0])
		w.block("rwmutex rlock", func() bool { return cellU(l[0]) == 0 })
		w.set(l[4], cellU(l[4])+1)
		w.acq(l[0])
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(f *Frame, a []Value) Value {
		w := f.w
		l := leaves(a[0])
		if cellU(l[4]) == 0 {
			panic(targetPanic{Iface{w.p.runtimeError, "fatal: RUnlock of unlocked RWMutex"}})
		}
		w.rel(l[4])
		w.set(l[4], cellU(l[4])-1)
		w.syncPoint(f, "runlock")
		return nil
	}

	wgAdd := func(f *Frame, p Value, d int64) {
		nilCheck(f, p)
		w := f.w
		c := leaves(p)[0]
		n := int64(cellU(c)) + d
		if n < 0 {
			panic(targetPanic{Iface{w.p.runtimeError, "sync: negative WaitGroup counter"}})
		}
		w.rel(c)
		w.set(c, uint64(n))
		w.syncPoint(f, "waitgroup")
	}
	I["(*sync.WaitGroup).Add"] = func(f *Frame, a []Value) Value {
		wgAdd(f, a[0], f.w.concInt(a[1]))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(f *Frame, a []Value) Value { wgAdd(f, a[0], -1); return nil }
	I["(*sync.WaitGroup).Wait"] = func(f *Frame, a []Value) Value {
		w := f.w
		c := leaves(a[0])[0]
		w.syncPoint(f, "wait")
		w.block("WaitGroup.Wait", func() bool { return cellU(c) == 0 })
		w.acq(c)
		return nil
	}
	I["(*sync.Cond).Wait"] = func(f *Frame, a []Value) Value {
		w := f.w
		l := leaves(a[0])
		t := cellU(l[1])
		w.set(l[1], t+1)
		lk := (*l[0]).(Iface)
		w.callFn(w.methodByName(lk.t, "Unlock"), []Value{lk.v}, nil)
		w.block("Cond.Wait", func() bool { return cellU(l[2]) > t })
		w.acq(l[1])
		w.callFn(w.methodByName(lk.t, "Lock"), []Value{lk.v}, nil)
		return nil
	}
	I["(*sync.Cond).Signal"] = func(f *Frame, a []Value) Value {
		l := leaves(a[0])
		f.w.rel(l[1])
		if cellU(l[2]) < cellU(l[1]) {
			f.w.set(l[2], cellU(l[2])+1)
		}
		return nil
	}
	I["(*sync.Cond).Broadcast"] = func(f *Frame, a []Value) Value {
		l := leaves(a[0])
		f.w.rel(l[1])
		f.w.set(l[2], cellU(l[1]))
		return nil
	}
	I["(*sync.Pool).Get"] = func(f *Frame, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		nf, _ := st[len(st)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return f.w.callValue(f, nf, nil, nil)
	}
	I["(*sync.Pool).Put"] = func(f *Frame, a []Value) Value { return nil }

	// sync.Map
	smap := func(f *Frame, p Value) (*Map, *Value) {
		nilCheck(f, p)
		f.w.syncPoint(f, "sync.Map")
		c := leaves(p)[0]
		if m, ok := (*c).(*Map); ok {
			return m, c
		}
		m := newMap(f.w.epoch)
		f.w.set(c, m)
		return m, c
	}
	quiet := func(w *Worker, c *Value, fn func()) {
		r := w.race
		w.acq(c)
		w.race = nil
		fn()
		w.race = r
		w.rel(c)
	}
	I["(*sync.Map).Load"] = func(f *Frame, a []Value) Value {
		m, c := smap(f, a[0])
		var r Value = Tuple{Iface{}, false}
		quiet(f.w, c, func() {
			if i := f.w.mapFind(m, a[1]); i >= 0 {
				r = Tuple{m.ents[i].v, true}
			}
		})
		return r
	}
	I["(*sync.Map).Store"] = func(f *Frame, a []Value) Value {
		m, c := smap(f, a[0])
		quiet(f.w, c, func() { f.w.mapSet(m, a[1], a[2]) })
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(f *Frame, a []Value) Value {
		m, c := smap(f, a[0])
		var r Value
		quiet(f.w, c, func() {
			if i := f.w.mapFind(m, a[1]); i >= 0 {
				r = Tuple{m.ents[i].v, true}
				return
			}
			f.w.mapSet(m, a[1], a[2])
			r = Tuple{a[2], false}
		})
		return r
	}
	I["(*sync.Map).LoadAndDelete"] = func(f *Frame, a []Value) Value {
		m, c := smap(f, a[0])
		var r Value = Tuple{Iface{}, false}
		quiet(f.w, c, func() {
			if i := f.w.mapFind(m, a[1]); i >= 0 {
				r = Tuple{m.ents[i].v, true}
				f.w.mapDelete(m, a[1])
			}
		})
		return r
	}
	I["(*sync.Map).Delete"] = func(f *Frame, a []Value) Value {
		m, c := smap(f, a[0])
		quiet(f.w, c, func() { f.w.mapDelete(m, a[1]) })
		return nil
	}
	I["(*sync.Map).Range"] = func(f *Frame, a []Value) Value {
		m, c := smap(f, a[0])
		f.w.acq(c)
		for _, i := range m.liveIdx() {
			if !f.w.branchV(f.w.callValue(f, a[1], []Value{m.ents[i].k, m.ents[i].v}, nil)) {
				break
			}
		}
		return nil
	}

	// atomics
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		k := k
		width := uint8(64)
		if strings.HasSuffix(k, "32") {
			width = 32
		}
		pre := func(f *Frame, p Value) *Value {
			nilCheck(f, p)
			w := f.w
			// the nearest bab frame may be two frames up: (*atomic.Int32).Load -> LoadInt32
			if c := f.caller; c != nil && (c.code.bab || (c.caller != nil && c.caller.code.bab)) {
				w.yield("atomic")
			}
			return p.(*Value)
		}
		I["sync/atomic.Load"+k] = func(f *Frame, a []Value) Value {
			p := pre(f, a[0])
			f.w.acq(p)
			return *p
		}
		I["sync/atomic.Store"+k] = func(f *Frame, a []Value) Value {
			p := pre(f, a[0])
			f.w.rel(p)
			f.w.set(p, a[1])
			return nil
		}
		I["sync/atomic.Add"+k] = func(f *Frame, a []Value) Value {
			p := pre(f, a[0])
			f.w.acq(p)
			f.w.rel(p)
			var r Value
			if x, ok := (*p).(uint64); ok {
				if y, ok := a[1].(uint64); ok {
					r = (x + y) & mask(width)
				}
			}
			if r == nil {
				r = f.w.fromTerm(f.w.ts.Bin(OAdd, f.w.term(*p, width), f.w.term(a[1], width)))
			}
			f.w.set(p, r)
			return r
		}
		I["sync/atomic.Swap"+k] = func(f *Frame, a []Value) Value {
			p := pre(f, a[0])
			f.w.acq(p)
			f.w.rel(p)
			o := *p
			f.w.set(p, a[1])
			return o
		}
		I["sync/atomic.CompareAndSwap"+k] = func(f *Frame, a []Value) Value {
			p := pre(f, a[0])
			f.w.acq(p)
			f.w.rel(p)
			if f.w.branchV(f.w.equal(*p, a[1])) {
				f.w.set(p, a[2])
				return true
			}
			return false
		}
	}
	I["(*sync/atomic.Value).Load"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		c := leaves(a[0])[0]
		f.w.syncPoint(f, "atomic")
		f.w.acq(c)
		return *c
	}
	I["(*sync/atomic.Value).Store"] = func(f *Frame, a []Value) Value {
		nilCheck(f, a[0])
		c := leaves(a[0])[0]
		f.w.syncPoint(f, "atomic")
		n, o := a[1].(Iface), (*c).(Iface)
		if n.t == nil || (o.t != nil && !types.Identical(n.t, o.t)) {
			panic(targetPanic{Iface{f.w.p.runtimeError, "sync/atomic: store of nil or inconsistently typed value into Value"}})
		}
		f.w.rel(c)
		f.w.set(c, n)
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(f *Frame, a []Value) Value {
		c := leaves(a[0])[0]
		f.w.acq(c)
		f.w.rel(c)
		o := *c
		f.w.set(c, a[1])
		return o
	}
	ptr := func(n string, fn func(f *Frame, c *Value, a []Value) Value) {
		I["(*sync/atomic.Pointer[T])."+n] = func(f *Frame, a []Value) Value {
			nilCheck(f, a[0])
			f.w.syncPoint(f, "atomic")
			return fn(f, leaves(a[0])[0], a)
		}
	}
	ptr("Load", func(f *Frame, c *Value, a []Value) Value { f.w.acq(c); return *c })
	ptr("Store", func(f *Frame, c *Value, a []Value) Value { f.w.rel(c); f.w.set(c, a[1]); return nil })
	ptr("Swap", func(f *Frame, c *Value, a []Value) Value {
		f.w.acq(c)
		f.w.rel(c)
		o := *c
		f.w.set(c, a[1])
		return o
	})
	ptr("CompareAndSwap", func(f *Frame, c *Value, a []Value) Value {
		f.w.acq(c)
		f.w.rel(c)
		if f.w.branchV(f.w.equal(*c, a[1])) {
			f.w.set(c, a[2])
			return true
		}
		return false
	})
}

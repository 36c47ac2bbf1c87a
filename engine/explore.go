package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	V uint64
	B bool
}

type Item struct {
	prefix []Dec
	model  Model
	slot   **vnode
}

type Violation struct {
	Msg      string
	Kind     string // assert, panic, deadlock, race, steps
	Model    Model
	Inputs   []Input
	Logs     []LogEntry
	Sched    []int
	Decs     []Dec
	Stack    string
	Known    string
	Confirm  string // how it was replayed
	Harness  string
	Params   map[string]int
	Preempt  int
	Conc     bool
	Virtual  bool // the path uses a terminal the engine provides
	NativeOK bool
	Races    []string
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // byte,int,bool,choice,str,sched
	Val  uint64 `json:"val"`
	Str  []byte `json:"str,omitempty"`
}

type LogEntry struct {
	Key string `json:"k"`
	Val []byte `json:"v"`
}

type Unsupported struct{ msg string }

func unsupported(f string, a ...any) Unsupported { return Unsupported{fmt.Sprintf(f, a...)} }

type pathEnd struct{ kind, msg string } // prune, done, cut, violation

type targetPanic struct{ v Value }
type goexit struct{}

type inputRec struct {
	name, kind string
	t          *Term
	conc       uint64
	str        []Value
}

type logRec struct {
	key string
	val Value
}

// Explorer is shared by the workers.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64

	paths, pruned, cuts int64
	transitions         int64 // decisions taken on new suffixes
	asserts             int64
	assertsSym          int64
	steps               int64
	cutReasons          map[string]int64
	covers              map[string]int64
	violations          []*Violation
	knownHits           map[string]*Violation
	samples             []*Sample
	sampleEvery         int64
	leftover            int
	timedOut            bool
	funcs               map[string]bool
	solverTime          time.Duration
	queries, qsat       int64
	qunsat, qunknown    int64
	maxViol             int
	goMax               int
	schedPts            int64
	native              int64
	audits              int64
	vcRoot              *vnode
	vcNodes             int64
	vc                  *vcResult
}

type Sample struct {
	Inputs []Input
	Logs   []LogEntry
	Conc   bool
	Virt   bool
	Covers []string
}

type Worker struct {
	id   int
	x    *Explorer
	p    *Program
	h    *Harness
	ts   *Terms
	sol  *Solver
	code map[*ssa.Function]*fnCode

	globals    map[*ssa.Global]*Value
	initState  map[*ssa.Package]int
	journal    []undo
	onRollback []func()
	journalOn  bool
	epoch      int64

	// path
	slot     **vnode
	prefix   []Dec
	pos      int
	decs     []Dec
	pc       []*Term
	pcset    map[*Term]bool
	model    Model
	modelGen int32
	vars     []*Term
	varSeq   map[string]int
	inputs   []inputRec
	logs     []logRec
	covers   map[string]bool
	steps    int64
	maxSteps int64
	violated bool

	gors       []*Gor
	cur        *Gor
	killing    bool
	preempts   int
	preemptMax int
	virtual    bool
	order      int // 0: any schedule; 1, 2: the first or last of the runnable goroutines but for devMax deviations
	devs       int
	devMax     int
	nowSec     Value
	schedTr    []int
	race       *raceState
	inInit     int
	mapOrder   bool
	mapSame    bool
	mapPicks   map[string]string
	clock      int64
	timers     []*timer
	killWG     sync.WaitGroup
	side       map[any]any // per-path side tables of intrinsics
	events     []string
	maxGor     int
	bodyEnd    any
	fixed      *Replay
	typeKeys   map[types.Type]string
	dom        map[*Term]bitmap
	multi      map[*Term]bool
	alpha      map[*Term]string
	bmQueries  int64
	audits     int64
	methCache  map[methKey]*ssa.Function
	assertC    map[assertKey]bool
	funcsRun   map[*ssa.Function]bool
}

func (w *Worker) evalT(t *Term) uint64 {
	return w.ts.eval(t, w.model, w.modelGen)
}

func (w *Worker) setModel(m Model) {
	w.model = m
	evGenMu.Lock()
	evCounter++
	w.modelGen = evCounter
	evGenMu.Unlock()
}

var evGenMu sync.Mutex

func (w *Worker) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	if w.pcset[t] {
		return
	}
	w.pcset[t] = true
	w.pc = append(w.pc, t)
	w.domNote(t)
}

func (w *Worker) push(d Dec, m Model, slot **vnode) {
	pre := make([]Dec, len(w.decs)+1)
	copy(pre, w.decs)
	pre[len(w.decs)] = d
	w.x.mu.Lock()
	w.x.queue = append(w.x.queue, Item{pre, m, slot})
	w.x.mu.Unlock()
	w.x.cond.Signal()
}

func (w *Worker) branchV(c Value) bool {
	switch x := c.(type) {
	case bool:
		return x
	case *Term:
		return w.branch(x)
	}
	panic(unsupported("branch on %T", c))
}

func (w *Worker) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if w.inInit > 0 {
		panic(unsupported("symbolic branch during init"))
	}
	if w.pcset[c] {
		return true
	}
	nc := w.ts.Not(c)
	if w.pcset[nc] {
		return false
	}
	switch w.implied(c) {
	case 1:
		w.vcFact(vAssert, c)
		return true
	case -1:
		w.vcFact(vAssert, nc)
		return false
	}
	if w.fixed != nil {
		v := w.evalT(c) != 0
		return v
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		if d.B {
			w.addPC(c)
		} else {
			w.addPC(nc)
		}
		return d.B
	}
	atomic.AddInt64(&w.x.transitions, 1)
	w.checkStop()
	v := w.evalT(c) != 0
	lit, other := c, nc
	if !v {
		lit, other = nc, c
	}
	res, m := w.feasible(other)
	kids := w.vc(vBranch, c, 2)
	switch res {
	case "sat":
		w.push(Dec{B: !v}, m, slotAt(kids, b2i(!v)))
	case "unknown":
		w.cut("solver unknown on branch")
		if kids != nil {
			kids[b2i(!v)] = leafOpen
		}
	}
	w.slot = slotAt(kids, b2i(v))
	w.decs = append(w.decs, Dec{B: v})
	w.pos++
	w.prefix = append(w.prefix, Dec{B: v})
	w.addPC(lit)
	return v
}

func (w *Worker) cut(why string) {
	w.x.mu.Lock()
	w.x.cutReasons[why]++
	w.x.cuts++
	w.x.mu.Unlock()
}

func (w *Worker) checkStop() {
	w.x.mu.Lock()
	st := w.x.stop
	if !st && time.Now().After(w.x.deadline) {
		w.x.stop = true
		w.x.timedOut = true
		st = true
		w.x.cond.Broadcast()
	}
	w.x.mu.Unlock()
	if st {
		panic(pathEnd{"stopped", "time budget"})
	}
}

// concretize picks a value for t, forking over all its values.
func (w *Worker) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if w.fixed != nil {
		return w.evalT(t)
	}
	for {
		v0 := w.evalT(t)
		eq0 := w.ts.Eq(t, w.ts.Const(v0, t.w))
		if w.pcset[eq0] {
			return v0
		}
		if w.implied(eq0) > 0 {
			w.vcFact(vAssert, eq0)
			return v0
		}
		var v uint64
		if w.pos < len(w.prefix) {
			v = w.prefix[w.pos].V
		} else {
			v = w.evalT(t)
		}
		eq := w.ts.Eq(t, w.ts.Const(v, t.w))
		if eq.op == OConst {
			if eq.val != 0 {
				return v
			}
			panic(unsupported("concretize mismatch"))
		}
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			w.pos++
			w.decs = append(w.decs, d)
			if d.B {
				w.addPC(eq)
				return v
			}
			w.addPC(w.ts.Not(eq))
			continue
		}
		atomic.AddInt64(&w.x.transitions, 1)
		w.checkStop()
		res, m := w.feasible(w.ts.Not(eq))
		kids := w.vc(vBranch, eq, 2)
		if res == "sat" {
			w.push(Dec{V: v, B: false}, m, slotAt(kids, 0))
		} else if res == "unknown" {
			w.cut("solver unknown on concretization")
			if kids != nil {
				kids[0] = leafOpen
			}
		}
		w.slot = slotAt(kids, 1)
		d := Dec{V: v, B: true}
		w.decs = append(w.decs, d)
		w.prefix = append(w.prefix, d)
		w.pos++
		w.addPC(eq)
		return v
	}
}

func (w *Worker) newVar(name string, width uint8) *Term {
	t := w.ts.Var(name, width)
	w.vars = append(w.vars, t)
	return t
}

func (w *Worker) uniq(name string) string {
	n := w.varSeq[name]
	w.varSeq[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// choose forks over 0..n-1 (a fresh, otherwise unconstrained variable).
func (w *Worker) choose(name string, n int, kind string) int {
	if n <= 1 {
		return 0
	}
	name = w.uniq(name)
	if w.fixed != nil {
		v, ok := w.fixed.val(name)
		if !ok {
			v = 0
		}
		if int(v) >= n {
			v = uint64(n - 1)
		}
		w.inputs = append(w.inputs, inputRec{name: name, kind: kind, conc: v})
		return int(v)
	}
	t := w.newVar(name, 8)
	w.inputs = append(w.inputs, inputRec{name: name, kind: kind, t: t})
	var v int
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		v = int(d.V)
		w.pos++
		w.decs = append(w.decs, d)
	} else {
		atomic.AddInt64(&w.x.transitions, int64(n-1))
		w.checkStop()
		kids := w.vc(vChoose, t, n)
		for i := n - 1; i >= 1; i-- {
			m := Model{}
			for k, x := range w.model {
				m[k] = x
			}
			m[name] = uint64(i)
			w.push(Dec{V: uint64(i), B: true}, m, slotAt(kids, i))
		}
		w.slot = slotAt(kids, 0)
		v = 0
		w.model[name] = 0
		d := Dec{V: 0, B: true}
		w.decs = append(w.decs, d)
		w.prefix = append(w.prefix, d)
		w.pos++
	}
	w.addPC(w.ts.Eq(t, w.ts.Const(uint64(v), 8)))
	return v
}

func (w *Worker) assume(c Value) {
	switch x := c.(type) {
	case bool:
		if !x {
			panic(pathEnd{"prune", "assumption"})
		}
	case *Term:
		if x.op == OConst {
			w.assume(x.val != 0)
			return
		}
		if w.pcset[x] {
			return
		}
		if w.fixed != nil {
			if w.evalT(x) == 0 {
				panic(pathEnd{"prune", "assumption (replay)"})
			}
			return
		}
		if w.pos < len(w.prefix) {
			w.addPC(x)
			return
		}
		// Note: after the prefix is consumed the model satisfies pc only if it
		// satisfies the assumption as well.
		if w.evalT(x) != 0 {
			w.vcFact(vAssume, x)
			w.addPC(x)
			return
		}
		res, m := w.feasible(x)
		if res != "sat" {
			if res == "unknown" {
				w.cut("solver unknown on assumption")
				panic(pathEnd{"prune", "assumption"})
			}
			w.vcFact(vAssume, x)
			panic(pathEnd{"prune", "infeasible assumption"})
		}
		w.vcFact(vAssume, x)
		w.addPC(x)
		w.setModel(m)
	}
}

func (w *Worker) assert(c Value, msg string, known string) {
	if x, ok := c.(*Term); ok && x.op == OConst {
		c = x.val != 0
	}
	if w.fixed == nil && w.pos < len(w.prefix) {
		if b, ok := c.(bool); ok {
			if !b {
				panic(pathEnd{"done", "already reported"})
			}
			return
		}
		x := c.(*Term)
		if w.pcset[x] || w.implied(x) > 0 {
			return
		}
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		if d.B {
			w.addPC(x)
		}
		return
	}
	atomic.AddInt64(&w.x.asserts, 1)
	switch x := c.(type) {
	case bool:
		if !x {
			w.violation("assert", msg, w.model, known)
			panic(pathEnd{"violation", msg})
		}
	case *Term:
		if x.op == OConst {
			w.assert(x.val != 0, msg, known)
			return
		}
		if w.fixed != nil {
			if w.evalT(x) == 0 {
				w.violation("assert", msg, w.model, known)
				panic(pathEnd{"violation", msg})
			}
			return
		}
		atomic.AddInt64(&w.x.assertsSym, 1)
		if w.pcset[x] {
			return
		}
		if w.implied(x) > 0 {
			w.vcFact(vAssert, x)
			return
		}
		rec := func(b bool) {
			w.decs = append(w.decs, Dec{B: b})
			w.prefix = append(w.prefix, Dec{B: b})
			w.pos++
		}
		if w.evalT(x) == 0 {
			w.violation("assert", msg, w.model, known)
			res, m := w.feasible(x)
			if res != "sat" {
				panic(pathEnd{"violation", msg})
			}
			rec(true)
			w.addPC(x)
			w.setModel(m)
			return
		}
		res, m := w.sol.check(w.pc, w.ts.Not(x), w.vars)
		switch res {
		case "sat":
			w.violation("assert", msg, m, known)
			rec(true)
			w.addPC(x)
		case "unknown":
			w.cut("solver unknown on assertion: " + msg)
			rec(false)
		default:
			w.vcFact(vAssert, x)
			rec(true) // implied by the path condition: harmless to add
			w.addPC(x)
		}
	}
}

func (w *Worker) evalWith(m Model) func(Value) Value {
	evGenMu.Lock()
	evCounter++
	g := evCounter
	evGenMu.Unlock()
	return func(v Value) Value {
		if t, ok := v.(*Term); ok {
			r := w.ts.eval(t, m, g)
			if t.w == 0 {
				return r != 0
			}
			return r
		}
		return v
	}
}

func (w *Worker) strUnder(v Value, ev func(Value) Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.bytes()))
		for i, e := range x.bytes() {
			b[i] = byte(ev(e).(uint64))
		}
		return string(b)
	case *Term, uint64, bool:
		return fmt.Sprint(ev(x))
	}
	return show(v)
}

func (w *Worker) snapshot(m Model) ([]Input, []LogEntry) {
	ev := w.evalWith(m)
	var ins []Input
	for _, r := range w.inputs {
		in := Input{Name: r.name, Kind: r.kind, Val: r.conc}
		if r.t != nil {
			v := ev(r.t)
			switch y := v.(type) {
			case uint64:
				in.Val = y
			case bool:
				in.Val = b2u(y)
			}
		}
		if r.str != nil {
			b := make([]byte, len(r.str))
			for i, e := range r.str {
				b[i] = byte(ev(e).(uint64))
			}
			in.Str = b
		}
		ins = append(ins, in)
	}
	var logs []LogEntry
	for _, l := range w.logs {
		logs = append(logs, LogEntry{l.key, []byte(w.strUnder(l.val, ev))})
	}
	return ins, logs
}

func (w *Worker) violation(kind, msg string, m Model, known string) {
	ins, logs := w.snapshot(m)
	v := &Violation{Msg: msg, Kind: kind, Model: m, Inputs: ins, Logs: logs, Known: known, Harness: w.h.name, Params: w.h.params, Preempt: w.h.preempt,
		Conc: w.maxGor > 1, Virtual: w.virtual, Sched: append([]int(nil), w.schedTr...)}
	v.Stack = w.stack()
	v.Decs = append([]Dec(nil), w.decs...)
	w.violated = true
	x := w.x
	x.mu.Lock()
	defer x.mu.Unlock()
	if known != "" {
		if x.knownHits[known] == nil {
			x.knownHits[known] = v
		}
		return
	}
	n := 0
	for _, o := range x.violations {
		if o.Msg == msg && o.Kind == kind {
			n++
		}
	}
	if n >= 3 {
		return
	}
	x.violations = append(x.violations, v)
	if len(x.violations) >= x.maxViol {
		x.stop = true
		x.cond.Broadcast()
	}
}

func (w *Worker) stack() string {
	var sb strings.Builder
	if w.cur != nil {
		for f := w.cur.top; f != nil && sb.Len() < 4000; f = f.caller {
			fmt.Fprintf(&sb, "%s (%s)\n", f.code.fn.String(), f.position())
		}
	}
	return sb.String()
}

// runPath executes one path.
func (w *Worker) runPath(it Item) (end pathEnd) {
	w.prefix = append([]Dec(nil), it.prefix...)
	w.pos = 0
	w.decs = w.decs[:0]
	w.pc = nil
	w.pcset = map[*Term]bool{}
	w.dom = map[*Term]bitmap{}
	w.multi = map[*Term]bool{}
	w.alpha = map[*Term]string{}
	m := it.model
	if m == nil {
		m = Model{}
	}
	w.setModel(m)
	w.vars = nil
	w.varSeq = map[string]int{}
	w.inputs = nil
	w.logs = nil
	w.covers = map[string]bool{}
	w.steps = 0
	w.violated = false
	w.gors = nil
	w.killing = false
	w.preempts = 0
	w.preemptMax = w.h.preempt
	w.virtual = false
	w.order, w.devs, w.devMax = 0, 0, 0
	w.nowSec = uint64(1767323045)
	w.schedTr = nil
	w.mapOrder = false
	w.mapSame = false
	w.mapPicks = map[string]string{}
	w.clock = 0
	w.timers = nil
	w.side = map[any]any{}
	w.events = nil
	w.maxGor = 1
	w.race = nil
	w.slot = it.slot
	w.epoch++
	w.journalOn = true
	defer func() {
		w.rollback()
		w.journalOn = false
		if w.ts.next > 3_000_000 {
			w.sol.close()
			w.ts = newTerms()
			w.sol = newSolver(w.ts, w.sol.timeout)
		}
	}()
	end = w.runMain()
	w.vcEnd(end)
	return end
}

func (x *Explorer) worker(w *Worker) {
	for {
		x.mu.Lock()
		for len(x.queue) == 0 && x.active > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.queue) == 0 || time.Now().After(x.deadline) {
			if len(x.queue) > 0 && !x.stop {
				x.stop = true
				x.timedOut = true
			}
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		it := x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		x.active++
		x.mu.Unlock()

		end := w.runPath(it)

		x.mu.Lock()
		x.active--
		x.steps += w.steps
		x.finish(w, end)
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}

func (x *Explorer) finish(w *Worker, end pathEnd) {
	switch end.kind {
	case "prune":
		x.pruned++
	case "cut":
		x.cuts++
		x.cutReasons[end.msg]++
	case "stopped":
		x.leftover++
	default:
		x.paths++
		for c := range w.covers {
			x.covers[c]++
		}
		if w.maxGor > x.goMax {
			x.goMax = w.maxGor
		}
		if end.kind == "done" && !w.violated {
			n := x.paths
			newCover := false
			for c := range w.covers {
				if x.covers[c] == 1 {
					newCover = true
				}
			}
			if len(x.samples) < 400 && (newCover || n <= 40 || (n&(n-1)) == 0 || n%x.sampleEvery == 0) {
				ins, logs := w.snapshot(w.model)
				var cs []string
				for c := range w.covers {
					cs = append(cs, c)
				}
				sort.Strings(cs)
				x.samples = append(x.samples, &Sample{Inputs: ins, Logs: logs, Conc: w.maxGor > 1, Virt: w.virtual, Covers: cs})
			}
		}
	}
	if x.maxPaths > 0 && x.paths >= x.maxPaths {
		x.stop = true
		x.timedOut = true
	}
}

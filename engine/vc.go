package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The verification condition of a harness, put to z3 once the exploration is over: the
// decision tree of all paths, in which a branch is (ite condition then else), an assumption an
// implication, an assertion (and every fact the path was continued on without asking) a
// conjunct, a direction that was taken to be impossible is false, a path that ran to its end is
// true. Its negation is satisfiable exactly if some value of the inputs within the bounds
// reaches a failing assertion or a direction that was given up. Large trees are cut into pieces, each of
// which is decided under the conditions that lead to it.

type vkind uint8

const (
	vBranch vkind = iota
	vAssume
	vAssert
	vChoose
	vTrue
	vOpen
)

type vnode struct {
	kind vkind
	t    *Term
	n    int
	kids []*vnode
	size int
}

const vcCap = 2_000_000

var leafTrue, leafOpen = &vnode{kind: vTrue, size: 1}, &vnode{kind: vOpen, size: 1}

func (w *Worker) live() bool { return w.fixed == nil && w.pos >= len(w.prefix) }

// vc appends a node at the place the path has got to; the caller sets w.slot to the direction
// it takes.
func (w *Worker) vc(k vkind, t *Term, n int) []*vnode {
	if w.slot == nil {
		return nil
	}
	if atomic.AddInt64(&w.x.vcNodes, 1) > vcCap {
		w.slot = nil
		return nil
	}
	nd := &vnode{kind: k, t: t, n: n, kids: make([]*vnode, n)}
	*w.slot = nd
	return nd.kids
}

// vcFact records an assumption or an assertion the path goes on under.
func (w *Worker) vcFact(k vkind, t *Term) {
	if w.slot == nil || t.op == OConst && t.val != 0 || !w.live() {
		return
	}
	if kids := w.vc(k, t, 1); kids != nil {
		w.slot = &kids[0]
	}
}

func slotAt(kids []*vnode, i int) **vnode {
	if kids == nil {
		return nil
	}
	return &kids[i]
}

func (w *Worker) vcEnd(end pathEnd) {
	if w.slot == nil || *w.slot != nil {
		return
	}
	switch end.kind {
	case "cut", "stopped":
		*w.slot = leafOpen
	case "violation":
	case "prune":
		if end.msg != "infeasible assumption" {
			*w.slot = leafTrue
		}
	default:
		*w.slot = leafTrue
	}
}

type vcResult struct {
	Nodes    int64   `json:"nodes"`
	Leaves   int64   `json:"paths_ending_in_true"`
	Open     int64   `json:"paths_left_open"`
	Queries  int64   `json:"queries"`
	Unsat    int64   `json:"unsat"`
	Sat      int64   `json:"sat"`
	Unknown  int64   `json:"unknown"`
	Skipped  int64   `json:"not_put_for_time"`
	SolverS  float64 `json:"solver_s"`
	WallS    float64 `json:"wall_s"`
	Why      string  `json:"why_none,omitempty"`
	Verdict  string  `json:"verdict"`
	firstSat string
}

func (r *vcResult) count(n *vnode) int {
	if n == nil {
		return 1
	}
	switch n.kind {
	case vTrue:
		r.Leaves++
		return 1
	case vOpen:
		r.Open++
		return 1
	}
	n.size = 1
	for _, k := range n.kids {
		n.size += r.count(k)
	}
	r.Nodes++
	return n.size
}

type vcStep struct {
	n   *vnode
	dir int
}

type vcChunk struct {
	path []vcStep
	n    *vnode
	top  int // nodes of this size or more below n are pieces of their own
}

const vcChunkSize = 4000

func split(n *vnode, path []vcStep, out *[]vcChunk) {
	*out = append(*out, vcChunk{append([]vcStep(nil), path...), n, vcChunkSize})
	var walk func(n *vnode, path []vcStep, depth int)
	walk = func(m *vnode, path []vcStep, depth int) {
		if m == nil || m.size <= vcChunkSize && depth > 0 {
			return
		}
		for i, k := range m.kids {
			p := append(path[:len(path):len(path)], vcStep{m, i})
			if k != nil && k.size > 1 && k.size <= vcChunkSize && m.size > vcChunkSize {
				*out = append(*out, vcChunk{p, k, 0})
				continue
			}
			walk(k, p, depth+1)
		}
	}
	if n.size > vcChunkSize {
		walk(n, path, 0)
	} else {
		(*out)[len(*out)-1].top = 0
	}
}

type vcWriter struct {
	sb    strings.Builder
	names map[*Term]string
	vars  map[string]uint8
	nn    int
	bad   string
}

func (v *vcWriter) ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if s, ok := v.names[t]; ok {
		return s
	}
	if t.op == OVar {
		s := "|" + t.name + "|"
		if wd, ok := v.vars[t.name]; ok {
			if wd != t.w {
				s = fmt.Sprintf("|%s %d|", t.name, t.w)
				if _, ok := v.vars[s]; !ok {
					v.vars[s] = t.w
					fmt.Fprintf(&v.sb, "(declare-const %s %s)\n", s, sortOf(t.w))
				}
			}
		} else {
			v.vars[t.name] = t.w
			fmt.Fprintf(&v.sb, "(declare-const %s %s)\n", s, sortOf(t.w))
		}
		v.names[t] = s
		return s
	}
	var body string
	switch t.op {
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, v.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, v.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, v.ref(t.a))
	case ONot, OBvnot:
		body = fmt.Sprintf("(%s %s)", opNames[t.op], v.ref(t.a))
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", v.ref(t.a), v.ref(t.b), v.ref(t.c))
	default:
		body = fmt.Sprintf("(%s %s %s)", opNames[t.op], v.ref(t.a), v.ref(t.b))
	}
	s := fmt.Sprintf("d%d", len(v.names))
	v.names[t] = s
	fmt.Fprintf(&v.sb, "(define-fun %s () %s %s)\n", s, sortOf(t.w), body)
	return s
}

// node returns the name of the formula of n.
func (v *vcWriter) node(n *vnode, top int, root bool) string {
	if n == nil {
		return "false"
	}
	if n.kind >= vTrue || !root && top > 0 && n.size <= top {
		return "true"
	}
	var body string
	switch n.kind {
	case vBranch:
		body = fmt.Sprintf("(ite %s %s %s)", v.ref(n.t), v.node(n.kids[1], top, false), v.node(n.kids[0], top, false))
	case vAssume:
		body = fmt.Sprintf("(=> %s %s)", v.ref(n.t), v.node(n.kids[0], top, false))
	case vAssert:
		body = fmt.Sprintf("(and %s %s)", v.ref(n.t), v.node(n.kids[0], top, false))
	case vChoose:
		var sb strings.Builder
		x := v.ref(n.t)
		if n.n < 256 {
			fmt.Fprintf(&sb, "(or (bvuge %s (_ bv%d 8))", x, n.n)
		} else {
			sb.WriteString("(or false")
		}
		for i, k := range n.kids {
			fmt.Fprintf(&sb, " (and (= %s (_ bv%d 8)) %s)", x, i, v.node(k, top, false))
		}
		sb.WriteString(")")
		body = sb.String()
	}
	v.nn++
	s := fmt.Sprintf("n%d", v.nn)
	fmt.Fprintf(&v.sb, "(define-fun %s () Bool %s)\n", s, body)
	return s
}

func (c vcChunk) smt() string {
	v := &vcWriter{names: map[*Term]string{}, vars: map[string]uint8{}}
	v.sb.WriteString("(set-logic QF_BV)\n")
	for _, s := range c.path {
		r := v.ref(s.n.t)
		switch {
		case s.n.kind == vChoose:
			fmt.Fprintf(&v.sb, "(assert (= %s (_ bv%d 8)))\n", r, s.dir)
		case s.n.kind == vBranch && s.dir == 0:
			fmt.Fprintf(&v.sb, "(assert (not %s))\n", r)
		default:
			fmt.Fprintf(&v.sb, "(assert %s)\n", r)
		}
	}
	root := v.node(c.n, c.top, true)
	fmt.Fprintf(&v.sb, "(assert (not %s))\n(check-sat)\n", root)
	return v.sb.String()
}

// certify puts the verification condition to z3.
func (x *Explorer) certify(budget time.Duration, nw int) *vcResult {
	r := &vcResult{}
	t0 := time.Now()
	defer func() {
		r.WallS = round2(time.Since(t0).Seconds())
		switch {
		case r.Why != "":
			r.Verdict = "none"
		case r.Sat > 0:
			r.Verdict = "refuted"
		case r.Unknown > 0 || r.Skipped > 0 || r.Open > 0:
			r.Verdict = "holds on the part that was put to the solver"
		default:
			r.Verdict = "holds for every value within the bounds"
		}
	}()
	if len(x.violations) > 0 || len(x.knownHits) > 0 {
		r.Why = "violations were found"
		return r
	}
	if x.vcNodes > vcCap {
		r.Why = "too many decisions to keep; each was decided on its own"
		return r
	}
	if x.vcRoot == nil {
		return r
	}
	r.count(x.vcRoot)
	if x.vcRoot.kind >= vTrue {
		return r
	}
	var chunks []vcChunk
	split(x.vcRoot, nil, &chunks)
	deadline := t0.Add(budget)
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan vcChunk)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				if time.Now().After(deadline) {
					mu.Lock()
					r.Skipped++
					mu.Unlock()
					continue
				}
				q := c.smt()
				cmd := exec.Command("/usr/bin/z3", "-in", "-smt2", "-T:20")
				cmd.Stdin = strings.NewReader(q)
				ts := time.Now()
				out, _ := cmd.Output()
				d := time.Since(ts)
				mu.Lock()
				r.Queries++
				r.SolverS += d.Seconds()
				switch strings.TrimSpace(string(out)) {
				case "unsat":
					r.Unsat++
				case "sat":
					r.Sat++
					if r.firstSat == "" {
						r.firstSat = q
						if f := os.Getenv("ZZVC"); f != "" {
							_ = os.WriteFile(f, []byte(q), 0o644)
						}
					}
				default:
					r.Unknown++
					if debugEngine {
						fmt.Println("VC:", tail(string(out), 300))
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, c := range chunks {
		ch <- c
	}
	close(ch)
	wg.Wait()
	r.SolverS = round2(r.SolverS)
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// domainPC states the range of a new input.
func (w *Worker) domainPC(t *Term) {
	w.vcFact(vAssume, t)
	w.addPC(t)
}

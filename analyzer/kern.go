package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Kern interprets the SSA form over abstract states: branches on what a state does not
// decide split it, loops are iterated to a fixpoint over canonical (folded, joined, widened)
// states, recursive functions are tabulated as summaries from canonical entry states to
// canonical exit states, also to a fixpoint.
type Kern struct {
	cover map[*ssa.BasicBlock]bool // blocks some state entered
	P     *Prog
	Dom   Domain
	next  int
	nvar  int

	order map[*ssa.Function]map[ssa.Value]int
	lives map[*ssa.Function]*liveness
	rec   map[*ssa.Function]bool
	rpo   map[*ssa.Function]map[*ssa.BasicBlock]int

	sumIdx      map[string]*Summary
	sumCount    map[*ssa.Function]int
	driverDirty bool
	mr          *modref
	dirty       []*Summary
	cur         *Summary
	steps       int
	limit       int
	deadline    time.Time
	late        bool
	partial     bool   // past a limit, follow what was reached to the exits
	cut         string // set when a limit was passed
	foots       map[*ssa.Function]map[fieldKey]bool
	defects     map[string]string // definite misbehaviour met on the way: construct -> text
	stack       []string
	nstates     int
	nsums       int
	constKey    bool // keep states with different constants apart
}

type Domain interface {
	Read(K *Kern, st *State, o ObjID, path string) ([]R, bool)
	Force(K *Kern, st *State, o ObjID, why string) []*State
	NilTest(K *Kern, st *State, o ObjID) []*State
	Fold(K *Kern, st *State, keep, noAbsorb map[ObjID]bool)
	Call(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, f Val, args []Val, at ssa.Instruction) ([]R, bool)
	Hide(typ, field string) bool
	Lazy(K *Kern, st *State, o ObjID, path string) ([]R, bool)
	Deref(K *Kern, st *State, v Val, at ssa.Instruction)
}

type R struct {
	st *State
	v  Val
}

type undecided struct {
	msg string
}

func (u undecided) Error() string { return u.msg }

func (K *Kern) undecided(at ssa.Instruction, f string, a ...interface{}) {
	w := ""
	if at != nil {
		w = " at " + K.P.instrPos(at) + " in " + fnName(at.Parent())
	}
	panic(undecided{fmt.Sprintf(f, a...) + w})
}

func newKern(P *Prog, d Domain) *Kern {
	K := &Kern{P: P, Dom: d, next: 1, nvar: 1000000, order: map[*ssa.Function]map[ssa.Value]int{}, lives: map[*ssa.Function]*liveness{}, rec: map[*ssa.Function]bool{}, rpo: map[*ssa.Function]map[*ssa.BasicBlock]int{}, sumIdx: map[string]*Summary{}, sumCount: map[*ssa.Function]int{}, limit: 2000000, foots: map[*ssa.Function]map[fieldKey]bool{}, defects: map[string]string{}}
	m := P.modref()
	K.mr = m
	K.rec = P.recursive()
	return K
}

// recursive picks, on every cycle of the call graph, the function at which it is cut: the one
// that calls itself or is entered from outside the cycle.  Only these are tabulated; helpers that
// merely take part in the recursion are followed like any other.
func (P *Prog) recursive() map[*ssa.Function]bool {
	P.recOnce.Do(func() { P.recs = P.cutCycles() })
	return P.recs
}

func (P *Prog) cutCycles() map[*ssa.Function]bool {
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		succ[f] = map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					fs, _ := P.callees(c.Common())
					for _, g := range fs {
						succ[f][g] = true
					}
				}
			}
		}
	}
	rec := map[*ssa.Function]bool{}
	for {
		reach := map[*ssa.Function]map[*ssa.Function]bool{}
		for _, f := range P.Funcs {
			r := map[*ssa.Function]bool{}
			work := []*ssa.Function{f}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				for g := range succ[x] {
					if !r[g] && !rec[g] {
						r[g] = true
						work = append(work, g)
					}
				}
			}
			reach[f] = r
		}
		var best *ssa.Function
		score := func(f *ssa.Function) int {
			outside, in := 0, 0
			for _, g := range P.Funcs {
				switch {
				case !succ[g][f]:
				case reach[f][g]:
					in++
				default:
					outside = 1
				}
			}
			n := in
			if succ[f][f] {
				n += 2000
			}
			return n + 1000*outside
		}
		for _, f := range P.Funcs {
			if rec[f] || !reach[f][f] {
				continue
			}
			if best == nil || score(f) > score(best) || score(f) == score(best) && f.String() < best.String() {
				best = f
			}
		}
		if best == nil {
			break
		}
		rec[best] = true
	}
	return rec
}

func (K *Kern) fresh() int  { K.next++; return K.next }
func (K *Kern) newVar() Var { K.nvar++; return Var(K.nvar) }

func (K *Kern) newObj(st *State, o *Obj) ObjID {
	id := ObjID(K.fresh())
	if o.F == nil {
		o.F = map[string]Val{}
	}
	st.Objs[id] = o
	return id
}
func (K *Kern) newAtom(st *State) EID {
	e := EID(K.fresh())
	st.Elems[e] = ElemInfo{}
	return e
}
func (K *Kern) newSeg(st *State) EID {
	e := EID(K.fresh())
	v := K.newVar()
	st.Elems[e] = ElemInfo{Seg: true, N: linV(v)}
	st.Cons.addGE(linV(v))
	return e
}

func (K *Kern) valOrder(f *ssa.Function) map[ssa.Value]int {
	if m, ok := K.order[f]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, p := range f.Params {
		m[p] = len(m)
	}
	for _, p := range f.FreeVars {
		m[p] = len(m)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	K.order[f] = m
	return m
}

func (K *Kern) envOrder(f *Frame) []ssa.Value {
	m := K.valOrder(f.Fn)
	vs := make([]ssa.Value, 0, len(f.Env))
	for v := range f.Env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return m[vs[i]] < m[vs[j]] })
	return vs
}

// --- liveness -------------------------------------------------------------

type liveness struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (K *Kern) live(f *ssa.Function) *liveness {
	if l, ok := K.lives[f]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		l.in[b], l.out[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	// allocs of a function with deferred calls stay live (results are read after the defers)
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					cur[v] = true
				}
				pi := predIndex(s, b)
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if isLocal(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for v := range cur {
				if !l.out[b][v] {
					l.out[b][v] = true
					changed = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isLocal(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	K.lives[f] = l
	return l
}

// pruneEnv keeps the values live before instruction idx of block b.
func (K *Kern) pruneEnv(st *State, b *ssa.BasicBlock, idx int) {
	l := K.live(b.Parent())
	cur := map[ssa.Value]bool{}
	for v := range l.out[b] {
		cur[v] = true
	}
	for j := len(b.Instrs) - 1; j >= idx; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok {
			if _, ph := ins.(*ssa.Phi); !ph {
				delete(cur, v)
			}
		}
		if _, ok := ins.(*ssa.Phi); ok {
			cur[ins.(ssa.Value)] = true
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				cur[*op] = true
			}
		}
	}
	fr := st.top()
	for v := range fr.Env {
		if !cur[v] {
			delete(fr.Env, v)
		}
	}
}

func (K *Kern) rpoOf(f *ssa.Function) map[*ssa.BasicBlock]int {
	if m, ok := K.rpo[f]; ok {
		return m
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i := range post {
		m[post[i]] = len(post) - 1 - i
	}
	K.rpo[f] = m
	return m
}

func isLoopHead(b *ssa.BasicBlock, rpo map[*ssa.BasicBlock]int) bool {
	for _, p := range b.Preds {
		if rpo[p] >= rpo[b] {
			return true
		}
	}
	return false
}

// --- canonical form ---------------------------------------------------------

// gc drops unreachable objects and unused elements.
func (K *Kern) gc(st *State) {
	seen := map[ObjID]bool{}
	els := map[EID]bool{}
	var visit func(v Val)
	var visitObj func(o ObjID)
	visit = func(v Val) {
		eachVal(v, func(w Val) {
			switch x := w.(type) {
			case VPtr:
				visitObj(x.O)
			case VKey:
				els[x.E] = true
			case VVal:
				els[x.E] = true
			}
		})
	}
	word := func(w []WE) {
		for _, x := range w {
			els[x.E] = true
			if x.V != nil {
				visit(x.V)
			}
		}
	}
	visitObj = func(o ObjID) {
		if seen[o] || st.Objs[o] == nil {
			return
		}
		seen[o] = true
		b := st.Objs[o]
		for _, v := range b.F {
			visit(v)
		}
		visit(b.Hole)
		word(b.Word)
		word(b.Wr)
		for _, e := range b.Excl {
			els[e] = true
		}
	}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			visit(v)
		}
		for _, v := range f.Vals {
			visit(v)
		}
		for _, d := range f.Defs {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, g := range st.Ghosts {
		word(g)
	}
	for o := range st.Objs {
		if !seen[o] {
			delete(st.Objs, o)
		}
	}
	var no []EID
	for _, e := range st.Ord {
		if els[e] {
			no = append(no, e)
		}
	}
	st.Ord = no
	for e := range st.Elems {
		if !els[e] {
			delete(st.Elems, e)
		}
	}
}

// mergeElems merges neighbouring elements that every word keeps together.
func (K *Kern) mergeElems(st *State) {
	pinned := map[EID]bool{}
	pin := func(v Val) {
		eachVal(v, func(w Val) {
			switch x := w.(type) {
			case VKey:
				pinned[x.E] = true
			case VVal:
				pinned[x.E] = true
			}
		})
	}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			pin(v)
		}
		for _, v := range f.Vals {
			pin(v)
		}
		for _, d := range f.Defs {
			for _, a := range d.args {
				pin(a)
			}
		}
	}
	for _, o := range st.Objs {
		for _, v := range o.F {
			pin(v)
		}
		for _, e := range o.Excl {
			pinned[e] = true
		}
		for _, w := range [][]WE{o.Word, o.Wr} {
			for _, x := range w {
				if x.V != nil {
					pinned[x.E] = true
					pin(x.V)
				}
			}
		}
	}
	// drop empty segments
	for i := 0; i < len(st.Ord); {
		e := st.Ord[i]
		if st.Elems[e].Seg && !pinned[e] && st.Cons.entailsEQ(st.Elems[e].N) {
			st.subst(e, nil)
			continue
		}
		i++
	}
	for i := 0; i+1 < len(st.Ord); {
		x, y := st.Ord[i], st.Ord[i+1]
		if pinned[x] || pinned[y] || !st.together(x, y) {
			i++
			continue
		}
		z := EID(K.fresh())
		n := st.elen(x).add(st.elen(y))
		st.Elems[z] = ElemInfo{Seg: true, N: n}
		st.replacePair(x, y, z)
	}
}

func (st *State) together(x, y EID) bool {
	ok := func(w []WE) bool {
		for i, a := range w {
			if a.E == x && (i+1 >= len(w) || w[i+1].E != y) {
				return false
			}
			if a.E == y && (i == 0 || w[i-1].E != x) {
				return false
			}
		}
		return true
	}
	for _, o := range st.Objs {
		if !ok(o.Word) || !ok(o.Wr) {
			return false
		}
	}
	for _, g := range st.Ghosts {
		if !ok(g) {
			return false
		}
	}
	return true
}

func (st *State) replacePair(x, y, z EID) {
	rep := func(w []WE) []WE {
		var out []WE
		hit := false
		for _, a := range w {
			if a.E == x {
				out = append(out, WE{E: z})
				hit = true
			} else if a.E != y {
				out = append(out, a)
			}
		}
		if !hit {
			return w
		}
		return out
	}
	for id, o := range st.Objs {
		if has(o.Word, x) || has(o.Wr, x) {
			p := st.wr(id)
			p.Word, p.Wr = rep(o.Word), rep(o.Wr)
		}
	}
	for i := range st.Ghosts {
		st.Ghosts[i] = rep(st.Ghosts[i])
	}
	var no []EID
	for _, e := range st.Ord {
		if e == x {
			no = append(no, z)
		} else if e != y {
			no = append(no, e)
		}
	}
	st.Ord = no
	delete(st.Elems, x)
	delete(st.Elems, y)
}

// canon renames everything in canonical order; numbers become role variables.
func (K *Kern) canon(st *State) (string, *State) {
	k, s, _ := K.canonN(st)
	return k, s
}

// canonN also returns the mapping from old names to canonical ones.
func (K *Kern) canonN(st *State) (string, *State, *namer) {
	K.gc(st)
	n := st.name(false, K)
	key := n.sb.String()
	// numeric: r_i = L_i, projected on the roles
	c := st.Cons.clone()
	for i, l := range n.roles {
		c.addEq(linV(Var(-1 - i)).sub(l))
	}
	c = c.project(func(v Var) bool { return v < 0 })
	c = c.rename(func(v Var) Var { return -1 - v })
	c = c.minimise()
	// rebuild with new names
	out := st.clone()
	out.Cons = c
	role := 0
	nextRole := func() Lin { role++; return linV(Var(role - 1)) }
	objs := map[ObjID]*Obj{}
	els := map[EID]ElemInfo{}
	em := func(e EID) EID { return EID(n.els[e]) }
	var rv func(v Val) Val
	rw := func(w []WE) []WE {
		var o []WE
		for _, x := range w {
			y := WE{E: em(x.E)}
			if x.V != nil {
				y.V = rv(x.V)
			}
			o = append(o, y)
		}
		return o
	}
	// must follow the traversal order of name()
	rv = func(v Val) Val {
		switch x := v.(type) {
		case VPtr:
			return VPtr{ObjID(n.objs[x.O]), x.P}
		case VInt:
			return VInt{nextRole()}
		case VKey:
			return VKey{em(x.E)}
		case VVal:
			return VVal{em(x.E)}
		case VTup:
			o := VTup{}
			for _, w := range x.V {
				o.V = append(o.V, rv(w))
			}
			return o
		case VStruct:
			o := VStruct{F: map[string]Val{}}
			for _, k := range sortedKeys(x.F) {
				o.F[k] = rv(x.F[k])
			}
			return o
		case VFunc:
			o := x
			o.Binds = nil
			for _, w := range x.Binds {
				o.Binds = append(o.Binds, rv(w))
			}
			return o
		}
		return v
	}
	var nord []EID
	for _, e := range st.Ord {
		nord = append(nord, em(e))
		if st.Elems[e].Seg {
			els[em(e)] = ElemInfo{Seg: true, N: nextRole()}
		} else {
			els[em(e)] = ElemInfo{}
		}
	}
	out.Ord = nord
	for i := range st.Ghosts {
		out.Ghosts[i] = rw(st.Ghosts[i])
	}
	out.ownFrames()
	for i, f := range st.Frames {
		g := out.Frames[i]
		if f.Fn != nil {
			for _, v := range K.envOrder(f) {
				g.Env[v] = rv(f.Env[v])
			}
			for j, d := range f.Defs {
				for k := range d.args {
					g.Defs[j].args[k] = rv(d.args[k])
				}
			}
		} else {
			for j, v := range f.Vals {
				g.Vals[j] = rv(v)
			}
		}
	}
	for i := 0; i < len(n.order); i++ {
		o := st.Objs[n.order[i]]
		if o == nil {
			continue
		}
		p := o.clone()
		switch o.Kind {
		case kSub:
			p.Word = rw(o.Word)
			p.BH = nextRole()
		case kCtx:
			p.Word = rw(o.Word)
			p.Hole = rv(o.Hole)
			p.Wr = rw(o.Wr)
			p.BH, p.HBH, p.HN = nextRole(), nextRole(), nextRole()
		default:
			for _, k := range sortedKeys(o.F) {
				p.F[k] = rv(o.F[k])
			}
			for j := range p.Lens {
				_ = j
			}
			p.Lens = nil
			for range o.Lens {
				p.Lens = append(p.Lens, nextRole())
			}
		}
		p.Excl = nil
		for _, e := range o.Excl {
			p.Excl = append(p.Excl, em(e))
		}
		objs[ObjID(i)] = p
	}
	for i, e := range n.elord {
		if st.ordPos(e) < 0 {
			if st.Elems[e].Seg {
				els[EID(i)] = ElemInfo{Seg: true, N: nextRole()}
			} else {
				els[EID(i)] = ElemInfo{}
			}
		}
	}
	if role != len(n.roles) {
		panic(fmt.Sprintf("canon: role mismatch %d %d\n%s", role, len(n.roles), key))
	}
	out.Objs, out.Elems = objs, els
	return key, out, n
}

func (c *Cons) rename(m func(Var) Var) *Cons {
	out := &Cons{bad: c.bad}
	for _, e := range c.eqs {
		out.addEq(e.rename(m))
	}
	for _, g := range c.ges {
		out.addGE(g.rename(m))
	}
	return out
}

// --- pinned objects ---------------------------------------------------------

func (st *State) pinnedObjs() map[ObjID]bool {
	p := map[ObjID]bool{}
	pin := func(v Val) {
		eachVal(v, func(w Val) {
			if x, ok := w.(VPtr); ok {
				p[x.O] = true
			}
		})
	}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			pin(v)
		}
		for _, v := range f.Vals {
			pin(v)
		}
		for _, d := range f.Defs {
			pin(d.fn)
			for _, a := range d.args {
				pin(a)
			}
		}
	}
	// what a local cell points to is pinned too
	for _, o := range st.Objs {
		if o.Kind == kCell {
			for _, v := range o.F {
				pin(v)
			}
		}
	}
	return p
}

// --- running a function -------------------------------------------------------

type exitT struct {
	st  *State
	res []Val
}

type seen struct {
	st     *State
	visits int
}

func (K *Kern) execFn(fn *ssa.Function, args []Val, binds []Val, st *State) []exitT {
	if fn.Blocks == nil {
		K.undecided(nil, "no body for %s", fn)
	}
	if len(K.stack) > 60 {
		K.undecided(nil, "call depth exceeded: %v", K.stack[len(K.stack)-5:])
	}
	K.stack = append(K.stack, fnName(fn))
	defer func() { K.stack = K.stack[:len(K.stack)-1] }()
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		fr.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.Env[p] = binds[i]
	}
	st = st.clone()
	st.Frames = append(st.Frames, fr)
	rpo := K.rpoOf(fn)
	type item struct {
		b  *ssa.BasicBlock
		st *State
	}
	var work []item
	heads := map[*ssa.BasicBlock]map[string]*seen{}
	var exits []exitT
	push := func(b *ssa.BasicBlock, s *State) { work = append(work, item{b, s}) }
	arrive := func(b *ssa.BasicBlock, s *State) {
		K.steps++
		if debugSel == "step" {
			fmt.Fprintf(os.Stderr, "STEP %d work=%d %s#%d objs=%d ord=%d cons=%d\n", K.steps, len(work), fnName(fn), b.Index, len(s.Objs), len(s.Ord), len(s.Cons.ges))
		}
		if K.steps > K.limit {
			if !K.partial || K.steps > K.limit+K.limit/4 {
				K.undecided(nil, "step limit exceeded in %s", fnName(fn))
			}
			// what has been reached is still followed to the exits
			K.cut = "step limit exceeded in " + fnName(fn)
			if len(b.Preds) > 1 && isLoopHead(b, rpo) {
				return
			}
		}
		if K.partial && !K.deadline.IsZero() && K.steps&63 == 0 && K.cut == "" && time.Now().After(K.deadline) {
			K.cut = "time limit exceeded in " + fnName(fn)
			K.limit = K.steps // nothing new at loop heads, and not for long
		}
		if !K.partial && !K.deadline.IsZero() && K.steps&63 == 0 && time.Now().After(K.deadline) {
			K.late = true
			K.undecided(nil, "time limit exceeded in %s", fnName(fn))
		}
		s.Trace = appendTrace(s.Trace, b)
		if len(b.Preds) < 2 {
			push(b, s)
			return
		}
		K.pruneEnv(s, b, 0)
		head := isLoopHead(b, rpo)
		if head {
			pin := s.pinnedObjs()
			K.Dom.Fold(K, s, pin, pin)
			K.gc(s)
			K.mergeElems(s)
		}
		if h, ok := K.Dom.(interface{ Prune(K *Kern, st *State) }); ok {
			h.Prune(K, s)
		}
		key, c := K.canon(s)
		if c.Cons.bad {
			return
		}
		m := heads[b]
		if m == nil {
			m = map[string]*seen{}
			heads[b] = m
		}
		old := m[key]
		if old == nil {
			m[key] = &seen{st: c, visits: 1}
			if debugSel == "head" && head {
				fmt.Fprintf(os.Stderr, "HEAD %d at %s\n%s\n%s\n", len(m), K.P.instrPos(b.Instrs[0]), key, c.Cons.str(vname))
			}
			K.nstates++
			if len(m) > 3000 && K.partial {
				K.cut = "too many distinct abstract states at a join at " + K.P.instrPos(b.Instrs[0]) + " in " + fnName(fn)
				return
			}
			if len(m) > 3000 {
				K.undecided(b.Instrs[0], "too many distinct abstract states at a join")
			}
			push(b, c.clone())
			return
		}
		if c.Cons.entailsAll(old.st.Cons) {
			return
		}
		old.visits++
		if debugSel == "join" {
			fmt.Fprintf(os.Stderr, "JOIN visits=%d at %s\nOLD %s\nNEW %s\n", old.visits, K.P.instrPos(b.Instrs[0]), old.st.Cons.str(vname), c.Cons.str(vname))
		}
		j := joinCons(old.st.Cons, c.Cons, head && old.visits > 4)
		if h, ok := K.Dom.(interface{ Facts(st *State) []Lin }); ok {
			for _, l := range h.Facts(c) {
				if !j.entailsGE(l) && old.st.Cons.entailsGE(l) && c.Cons.entailsGE(l) {
					j.addGE(l)
				}
			}
		}
		j = j.minimise()
		ns := c.clone()
		ns.Cons = j
		old.st = ns
		push(b, ns.clone())
	}
	push(fn.Blocks[0], st)
	for len(work) > 0 {
		// lowest block first
		bi := len(work) - 1
		for i := range work {
			if rpo[work[i].b] < rpo[work[bi].b] {
				bi = i
			}
		}
		it := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		K.runBlock(it.b, it.st, func(to *ssa.BasicBlock, s *State) {
			// phis
			pi := predIndex(to, it.b)
			vals := map[ssa.Value]Val{}
			for _, ins := range to.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				vals[ph] = K.val(s, ph.Edges[pi])
			}
			for v, w := range vals {
				s.top().Env[v] = w
			}
			arrive(to, s)
		}, func(s *State, res []Val) {
			s.Frames = append([]*Frame{}, s.Frames[:len(s.Frames)-1]...)
			if n := len(s.Frames); n > 0 { // frames below the top are shared between states
				f := s.Frames[n-1]
				g := &Frame{Fn: f.Fn, Env: make(map[ssa.Value]Val, len(f.Env)), Defs: append([]deferRec{}, f.Defs...), Vals: append([]Val{}, f.Vals...)}
				for k, v := range f.Env {
					g.Env[k] = v
				}
				s.Frames[n-1] = g
			}
			exits = append(exits, exitT{s, res})
		})
	}
	return K.dedupeExits(exits)
}

func vname(v Var) string { return fmt.Sprintf("v%d", v) }

func appendTrace(t []string, b *ssa.BasicBlock) []string {
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	return append(append([]string{}, t...), fmt.Sprintf("%s#%d", b.Parent().Name(), b.Index))
}

// dedupeExits drops exits subsumed by others.
func (K *Kern) dedupeExits(in []exitT) []exitT {
	if len(in) < 2 {
		return in
	}
	m := map[string][]*Cons{}
	var out []exitT
	for _, x := range in {
		c := x.st.clone()
		c.Frames = append(c.Frames, &Frame{Vals: x.res})
		if h, ok := K.Dom.(interface{ Prune(K *Kern, st *State) }); ok {
			h.Prune(K, c)
		}
		key, c := K.canon(c)
		dup := false
		for _, o := range m[key] {
			if c.Cons.entailsAll(o) {
				dup = true
				break
			}
		}
		if dup {
			continue
		}
		m[key] = append(m[key], c.Cons)
		out = append(out, x)
	}
	return out
}

func (K *Kern) runBlock(b *ssa.BasicBlock, st *State, jump func(*ssa.BasicBlock, *State), ret func(*State, []Val)) {
	K.runFrom(b, 0, st, jump, ret)
}

func (K *Kern) runFrom(b *ssa.BasicBlock, idx int, st *State, jump func(*ssa.BasicBlock, *State), ret func(*State, []Val)) {
	if K.cover == nil {
		K.cover = map[*ssa.BasicBlock]bool{}
	}
	K.cover[b] = true
	for i := idx; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			jump(b.Succs[0], st)
			return
		case *ssa.If:
			for _, c := range K.asBool(st, K.val(st, x.Cond)) {
				t := c.v.(VBool).B
				if h, ok := K.Dom.(interface{ Branched(st *State) }); ok {
					h.Branched(c.st)
				}
				if t {
					jump(b.Succs[0], c.st)
				} else {
					jump(b.Succs[1], c.st)
				}
			}
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, K.val(st, r))
			}
			ret(st, res)
			return
		case *ssa.Panic:
			K.Dom.Deref(K, st, VSym{"panic"}, ins)
			return
		case *ssa.RunDefers:
			fr := st.top()
			if len(fr.Defs) == 0 {
				continue
			}
			d := fr.Defs[len(fr.Defs)-1]
			fr.Defs = fr.Defs[:len(fr.Defs)-1]
			for _, r := range K.call(st, d.com, d.fn, d.args, ins) {
				K.runFrom(b, i, r.st, jump, ret) // again: remaining defers
			}
			return
		}
		rs := K.instr(st, ins)
		if len(rs) == 1 {
			st = rs[0].st
			if v, ok := ins.(ssa.Value); ok && rs[0].v != nil {
				st.top().Env[v] = rs[0].v
			}
			continue
		}
		for _, r := range rs {
			if v, ok := ins.(ssa.Value); ok && r.v != nil {
				r.st.top().Env[v] = r.v
			}
			K.runFrom(b, i+1, r.st, jump, ret)
		}
		return
	}
}

func (K *Kern) asBool(st *State, v Val) []R {
	switch x := v.(type) {
	case VBool:
		return []R{{st, x}}
	}
	return []R{{st.clone(), VBool{true}}, {st, VBool{false}}}
}

func (K *Kern) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Global:
		return VSym{"global " + x.Name()}
	case *ssa.Builtin:
		return VSym{"builtin"}
	}
	if w, ok := st.top().Env[v]; ok {
		return w
	}
	K.undecided(nil, "value %s of %s is not available", v.Name(), fnName(v.Parent()))
	return nil
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{constant.BoolVal(c.Value)}
	case constant.Int:
		if k, ok := constant.Int64Val(c.Value); ok {
			return VInt{linC(k)}
		}
		return VTop{"const"}
	case constant.String:
		return VSym{constant.StringVal(c.Value)}
	}
	return VTop{"const"}
}

func one(st *State, v Val) []R { return []R{{st, v}} }

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (K *Kern) instr(st *State, ins ssa.Instruction) []R {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			o := &Obj{Kind: kCell, Typ: "array", F: map[string]Val{}}
			if a.Len() <= 64 {
				for i := int64(0); i < a.Len(); i++ {
					o.F[fmt.Sprint(i)] = zeroVal(a.Elem())
				}
			}
			return one(st, VPtr{K.newObj(st, o), ""})
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			o := &Obj{Kind: kStruct, Typ: typeName(t), F: map[string]Val{}}
			if !x.Heap {
				o.Kind = kCell
			}
			flattenZero(s, "", o.F)
			return one(st, VPtr{K.newObj(st, o), ""})
		}
		return one(st, VPtr{K.newObj(st, &Obj{Kind: kCell, Typ: "cell", F: map[string]Val{"": zeroVal(t)}}), ""})
	case *ssa.FieldAddr:
		p := K.val(st, x.X)
		_, name := fieldOf(x.X.Type(), x.Field)
		return K.withPtr(st, p, ins, func(s *State, q VPtr) []R {
			np := name
			if q.P != "" {
				np = q.P + "." + name
			}
			return one(s, VPtr{q.O, np})
		})
	case *ssa.Field:
		_, name := fieldOf(x.X.Type(), x.Field)
		switch v := K.val(st, x.X).(type) {
		case VStruct:
			if w, ok := v.F[name]; ok {
				return one(st, w)
			}
			sub := VStruct{F: map[string]Val{}}
			for k, w := range v.F {
				if strings.HasPrefix(k, name+".") {
					sub.F[k[len(name)+1:]] = w
				}
			}
			return one(st, sub)
		}
		return one(st, VTop{"field"})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return K.load(st, K.val(st, x.X), x.Type(), ins)
		case token.NOT:
			var out []R
			for _, r := range K.asBool(st, K.val(st, x.X)) {
				out = append(out, R{r.st, VBool{!r.v.(VBool).B}})
			}
			return out
		case token.SUB:
			if v, ok := K.val(st, x.X).(VInt); ok {
				return one(st, VInt{v.L.neg()})
			}
			if v, ok := K.val(st, x.X).(VSign); ok {
				return one(st, VSign{-v.S})
			}
		}
		return one(st, VTop{"unop"})
	case *ssa.BinOp:
		return K.binop(st, x)
	case *ssa.Store:
		return K.store(st, K.val(st, x.Addr), K.val(st, x.Val), ins)
	case *ssa.Extract:
		if t, ok := K.val(st, x.Tuple).(VTup); ok {
			return one(st, t.V[x.Index])
		}
		return one(st, VTop{"extract"})
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
		return one(st, K.val(st, *ins.Operands(nil)[0]))
	case *ssa.Convert:
		return K.convert(st, K.val(st, x.X), x.X.Type(), x.Type(), ins)
	case *ssa.TypeAssert:
		return K.typeAssert(st, x)
	case *ssa.MakeClosure:
		f := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Binds = append(f.Binds, K.val(st, b))
		}
		return one(st, f)
	case *ssa.Defer:
		fr := st.top()
		d := deferRec{com: x.Common()}
		d.fn, d.args = K.callArgs(st, x.Common())
		fr.Defs = append(fr.Defs, d)
		return one(st, nil)
	case *ssa.Call:
		f, args := K.callArgs(st, x.Common())
		K.pruneForCall(st, x)
		return K.call(st, x.Common(), f, args, ins)
	case *ssa.Go:
		f, args := K.callArgs(st, x.Common())
		if rs, ok := K.Dom.Call(K, st, x.Common(), x.Common().StaticCallee(), f, args, ins); ok {
			return rs
		}
		K.undecided(ins, "goroutine start")
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MapUpdate, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		if h, ok := K.Dom.(interface {
			Instr(K *Kern, st *State, ins ssa.Instruction) ([]R, bool)
		}); ok {
			if rs, ok := h.Instr(K, st, ins); ok {
				return rs
			}
		}
		switch y := ins.(type) {
		case *ssa.IndexAddr:
			// element of a local array (variadic arguments)
			if p, ok := K.val(st, y.X).(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "array" {
				if c, ok := K.val(st, y.Index).(VInt); ok && c.L.isConst() {
					return one(st, VPtr{p.O, fmt.Sprint(c.L.k)})
				}
			}
		case *ssa.Slice:
			return one(st, VTop{"slice"})
		}
		K.undecided(ins, "operation %T is outside the analysed fragment", ins)
	}
	K.undecided(ins, "instruction %T is outside the analysed fragment", ins)
	return nil
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (K *Kern) pruneForCall(st *State, c *ssa.Call) {
	b := c.Block()
	for i, x := range b.Instrs {
		if x == ssa.Instruction(c) {
			K.pruneEnv(st, b, i+1)
			return
		}
	}
}

// withPtr resolves a pointer value for a dereference.
func (K *Kern) withPtr(st *State, p Val, at ssa.Instruction, f func(*State, VPtr) []R) []R {
	switch x := p.(type) {
	case VPtr:
		var out []R
		if x.P == "" {
			ss := K.Dom.NilTest(K, st, x.O)
			if ss != nil {
				for _, s := range ss {
					if s.Objs[x.O] == nil { // turned out nil
						K.Dom.Deref(K, s, VNil{}, at)
						continue
					}
					out = append(out, f(s, x)...)
				}
				return out
			}
		}
		return f(st, x)
	case VSym:
		if strings.HasPrefix(x.S, "global ") {
			return []R{{st, x}}
		}
	}
	K.Dom.Deref(K, st, p, at)
	return nil
}

func (K *Kern) load(st *State, p Val, t types.Type, at ssa.Instruction) []R {
	if s, ok := p.(VSym); ok && strings.HasPrefix(s.S, "global ") {
		if h, ok := K.Dom.(interface {
			Global(name string) (Val, bool)
		}); ok {
			if v, ok := h.Global(strings.TrimPrefix(s.S, "global ")); ok {
				return one(st, v)
			}
		}
		return one(st, VTop{s.S})
	}
	return K.withPtr(st, p, at, func(s *State, q VPtr) []R {
		o := s.Objs[q.O]
		if o == nil {
			K.undecided(at, "dangling object")
		}
		if o.Kind == kSub || o.Kind == kCtx {
			if rs, ok := K.Dom.Read(K, s, q.O, q.P); ok {
				return rs
			}
			var out []R
			for _, n := range K.Dom.Force(K, s, q.O, "read "+q.P) {
				out = append(out, K.load(n, p, t, at)...)
			}
			return out
		}
		if v, ok := o.F[q.P]; ok {
			if _, h := v.(VHidden); h {
				K.undecided(at, "field %s is outside the footprint", q.P)
			}
			if h, ok := K.Dom.(interface {
				Loading(K *Kern, st *State, o ObjID, path string, v Val, at ssa.Instruction)
			}); ok {
				h.Loading(K, s, q.O, q.P, v, at)
			}
			return one(s, v)
		}
		if rs, ok := K.Dom.Lazy(K, s, q.O, q.P); ok {
			if h, ok := K.Dom.(interface {
				Loading(K *Kern, st *State, o ObjID, path string, v Val, at ssa.Instruction)
			}); ok {
				for _, r := range rs {
					h.Loading(K, r.st, q.O, q.P, r.v, at)
				}
			}
			return rs
		}
		if _, isS := t.Underlying().(*types.Struct); isS {
			v := VStruct{F: map[string]Val{}}
			pre := q.P
			if pre != "" {
				pre += "."
			}
			for k, w := range o.F {
				if strings.HasPrefix(k, pre) {
					v.F[k[len(pre):]] = w
				}
			}
			return one(s, v)
		}
		K.undecided(at, "unknown field %s.%s", o.Typ, q.P)
		return nil
	})
}

func (K *Kern) store(st *State, p Val, v Val, at ssa.Instruction) []R {
	return K.withPtr(st, p, at, func(s *State, q VPtr) []R {
		o := s.Objs[q.O]
		if o == nil {
			K.undecided(at, "dangling object")
		}
		if o.Kind == kSub || o.Kind == kCtx {
			var out []R
			for _, n := range K.Dom.Force(K, s, q.O, "write "+q.P) {
				out = append(out, K.store(n, p, v, at)...)
			}
			return out
		}
		w := s.wr(q.O)
		if vs, ok := v.(VStruct); ok {
			pre := q.P
			if pre != "" {
				pre += "."
			}
			for k, x := range vs.F {
				w.F[pre+k] = x
			}
			return one(s, nil)
		}
		if h, ok := K.Dom.(interface {
			Stored(K *Kern, st *State, o ObjID, path string, v Val, at ssa.Instruction)
		}); ok {
			h.Stored(K, s, q.O, q.P, v, at)
			w = s.wr(q.O)
		}
		w.F[q.P] = v
		return one(s, nil)
	})
}

func (K *Kern) binop(st *State, x *ssa.BinOp) []R {
	a, b := K.val(st, x.X), K.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		var out []R
		for _, r := range K.equal(st, a, b, x) {
			if v, ok := r.v.(VBool); ok && x.Op == token.NEQ {
				r.v = VBool{!v.B}
			}
			out = append(out, r)
		}
		return out
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if s, c, flip, ok := signCmp(a, b); ok {
			l, r := s, c
			if flip {
				l, r = c, s
			}
			t := false
			switch x.Op {
			case token.LSS:
				t = l < r
			case token.LEQ:
				t = l <= r
			case token.GTR:
				t = l > r
			case token.GEQ:
				t = l >= r
			}
			return one(st, VBool{t})
		}
		ai, ok1 := a.(VInt)
		bi, ok2 := b.(VInt)
		if ok1 != ok2 && isUnsigned(x.X.Type()) {
			// a negative number taken as unsigned exceeds every count
			if a == Val(VTop{negUnsigned}) {
				return one(st, VBool{x.Op == token.GTR || x.Op == token.GEQ})
			}
			if b == Val(VTop{negUnsigned}) {
				return one(st, VBool{x.Op == token.LSS || x.Op == token.LEQ})
			}
		}
		if !ok1 || !ok2 {
			return one(st, VTop{"cmp"})
		}
		var d Lin // true iff d >= 0
		switch x.Op {
		case token.LSS:
			d = bi.L.sub(ai.L).addC(-1)
		case token.LEQ:
			d = bi.L.sub(ai.L)
		case token.GTR:
			d = ai.L.sub(bi.L).addC(-1)
		case token.GEQ:
			d = ai.L.sub(bi.L)
		}
		return K.forkGE(st, d)
	}
	if s, ok := a.(VSign); ok {
		_ = s
		return one(st, VTop{"arith on comparison"})
	}
	ai, ok1 := a.(VInt)
	bi, ok2 := b.(VInt)
	if !ok1 || !ok2 {
		if p, ok := a.(VBool); ok {
			if q, ok := b.(VBool); ok {
				switch x.Op {
				case token.AND:
					return one(st, VBool{p.B && q.B})
				case token.OR:
					return one(st, VBool{p.B || q.B})
				}
			}
		}
		return one(st, VTop{"arith"})
	}
	switch x.Op {
	case token.ADD:
		return one(st, VInt{ai.L.add(bi.L)})
	case token.SUB:
		d := ai.L.sub(bi.L)
		if isUnsigned(x.Type()) && !st.Cons.entailsGE(d) {
			s2 := st.clone()
			var out []R
			if st.assumeGE(d) {
				out = append(out, R{st, VInt{d}})
			}
			if s2.assumeGE(d.neg().addC(-1)) {
				out = append(out, R{s2, VTop{"unsigned wrap-around"}})
			}
			return out
		}
		return one(st, VInt{d})
	case token.MUL:
		if ai.L.isConst() {
			return one(st, VInt{bi.L.scale(ai.L.k)})
		}
		if bi.L.isConst() {
			return one(st, VInt{ai.L.scale(bi.L.k)})
		}
	case token.QUO, token.SHR, token.REM, token.AND:
		if bi.L.isConst() {
			k := bi.L.k
			if x.Op == token.SHR {
				if k < 0 || k > 40 {
					break
				}
				k = 1 << uint(k)
			}
			mod := x.Op == token.REM
			if x.Op == token.AND {
				mod = true
				k++
				if k&(k-1) != 0 {
					break
				}
			}
			if k > 0 && st.Cons.entailsGE(ai.L) {
				q := linV(K.newVar())
				rem := ai.L.sub(q.scale(k))
				st.Cons.addGE(q)
				st.Cons.addGE(rem)
				st.Cons.addGE(rem.neg().addC(k - 1))
				if mod {
					return one(st, VInt{rem})
				}
				return one(st, VInt{q})
			}
		}
	case token.SHL:
		if bi.L.isConst() && bi.L.k >= 0 && bi.L.k < 40 {
			return one(st, VInt{ai.L.scale(1 << uint(bi.L.k))})
		}
	}
	return one(st, VTop{"arith " + x.Op.String()})
}

// signCmp: a comparison result compared with a constant.
func signCmp(a, b Val) (s, c int64, flip, ok bool) {
	if x, y := a.(VSign); y {
		if i, z := b.(VInt); z && i.L.isConst() && i.L.k == 0 {
			return int64(x.S), 0, false, true
		}
	}
	if x, y := b.(VSign); y {
		if i, z := a.(VInt); z && i.L.isConst() && i.L.k == 0 {
			return int64(x.S), 0, true, true
		}
	}
	return 0, 0, false, false
}

// forkGE decides d >= 0, splitting the state when undetermined.
func (K *Kern) forkGE(st *State, d Lin) []R {
	if st.Cons.entailsGE(d) {
		return one(st, VBool{true})
	}
	if st.Cons.entailsGE(d.neg().addC(-1)) {
		return one(st, VBool{false})
	}
	s2 := st.clone()
	var out []R
	if st.assumeGE(d) {
		out = append(out, R{st, VBool{true}})
	}
	if s2.assumeGE(d.neg().addC(-1)) {
		out = append(out, R{s2, VBool{false}})
	}
	return out
}

func (K *Kern) forkEQ(st *State, d Lin) []R {
	if st.Cons.entailsEQ(d) {
		return one(st, VBool{true})
	}
	var out []R
	s1, s2, s3 := st.clone(), st.clone(), st
	if s1.assumeEQ(d) {
		out = append(out, R{s1, VBool{true}})
	}
	if s2.assumeGE(d.addC(-1)) {
		out = append(out, R{s2, VBool{false}})
	}
	if s3.assumeGE(d.neg().addC(-1)) {
		out = append(out, R{s3, VBool{false}})
	}
	return out
}

func (K *Kern) equal(st *State, a, b Val, at ssa.Instruction) []R {
	if s, c, _, ok := signCmp(a, b); ok {
		return one(st, VBool{s == c})
	}
	if x, ok := a.(VInt); ok {
		if y, ok := b.(VInt); ok {
			return K.forkEQ(st, x.L.sub(y.L))
		}
	}
	if x, ok := a.(VBool); ok {
		if y, ok := b.(VBool); ok {
			return one(st, VBool{x.B == y.B})
		}
	}
	pa, oka := a.(VPtr)
	pb, okb := b.(VPtr)
	_, na := a.(VNil)
	_, nb := b.(VNil)
	if oka && nb {
		return K.nilTest(st, pa)
	}
	if okb && na {
		return K.nilTest(st, pb)
	}
	if na && nb {
		return one(st, VBool{true})
	}
	if oka && okb {
		if h, ok := K.Dom.(interface {
			PtrEq(K *Kern, st *State, a, b VPtr) ([]R, bool)
		}); ok {
			if rs, ok := h.PtrEq(K, st, pa, pb); ok {
				return rs
			}
		}
		if pa == pb {
			return one(st, VBool{true})
		}
		// distinct objects, unless one of them may be nil or is summarised away
		if st.Objs[pa.O] != nil && st.Objs[pb.O] != nil && st.Objs[pa.O].Kind != kCtx && st.Objs[pb.O].Kind != kCtx {
			return one(st, VBool{false})
		}
		return one(st, VTop{"ptr eq"})
	}
	nonNil := func(v Val) bool {
		switch v.(type) {
		case VErr, VFunc, VKey:
			return true
		}
		return false
	}
	if (na && nonNil(b)) || (nb && nonNil(a)) {
		return one(st, VBool{false})
	}
	client := func(v Val) string {
		switch v := v.(type) {
		case VVal:
			return fmt.Sprint(v.E)
		case VSym:
			if v.S == "new value" {
				return v.S
			}
		}
		return ""
	}
	// a client's value may be nil
	if v := client(a) + client(b); v != "" && (na || nb) {
		if f := st.Flags["nil "+v]; f != "" {
			return one(st, VBool{f == "yes"})
		}
		yes, no := st.clone(), st
		if v == "new value" {
			yes.Flags["nil "+v] = "yes"
			no.Flags["nil "+v] = "no"
		}
		return []R{{yes, VBool{true}}, {no, VBool{false}}}
	}
	if x, ok := a.(VSym); ok {
		if nb {
			return one(st, VBool{false})
		}
		if y, ok := b.(VSym); ok && x.S == y.S {
			return one(st, VBool{true})
		}
	}
	if _, ok := b.(VSym); ok && na {
		return one(st, VBool{false})
	}
	if h, ok := K.Dom.(interface {
		Equal(K *Kern, st *State, a, b Val) ([]R, bool)
	}); ok {
		if rs, ok := h.Equal(K, st, a, b); ok {
			return rs
		}
	}
	return one(st, VTop{"eq"})
}

func (K *Kern) nilTest(st *State, p VPtr) []R {
	if p.P != "" {
		return one(st, VBool{false})
	}
	ss := K.Dom.NilTest(K, st, p.O)
	if ss == nil {
		return one(st, VBool{false})
	}
	var out []R
	for _, s := range ss {
		out = append(out, R{s, VBool{s.Objs[p.O] == nil}})
	}
	return out
}

const negUnsigned = "negative to unsigned"

func (K *Kern) convert(st *State, v Val, from, to types.Type, at ssa.Instruction) []R {
	if x, ok := v.(VInt); ok {
		tb, ok1 := to.Underlying().(*types.Basic)
		fb, ok2 := from.Underlying().(*types.Basic)
		if ok1 && ok2 && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			if isUnsigned(to) && !isUnsigned(from) && !st.Cons.entailsGE(x.L) {
				s2 := st.clone()
				var out []R
				if st.assumeGE(x.L) {
					out = append(out, R{st, x})
				}
				if s2.assumeGE(x.L.neg().addC(-1)) {
					out = append(out, R{s2, VTop{negUnsigned}})
				}
				return out
			}
			if narrows(fb, tb) {
				if c, ok := cstOf(st, x); !ok || c < 0 || c > 127 {
					return one(st, VTop{"narrowed"})
				}
			}
			return one(st, x)
		}
		return one(st, VTop{"convert"})
	}
	return one(st, v)
}

// narrows: may converting from f to t lose high bits?  (int and uint have 64)
func narrows(f, t *types.Basic) bool {
	w := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	return w(t) < w(f)
}

func (K *Kern) typeAssert(st *State, x *ssa.TypeAssert) []R {
	v := K.val(st, x.X)
	okr := func(ok bool) Val {
		if !x.CommaOk {
			return v
		}
		if ok {
			return VTup{[]Val{v, VBool{true}}}
		}
		return VTup{[]Val{zeroVal(x.AssertedType), VBool{false}}}
	}
	want := derefNamed(x.AssertedType)
	switch y := v.(type) {
	case VPtr:
		o := st.Objs[y.O]
		match := o != nil && want != nil && (o.Typ == want.Obj().Name())
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = true
		}
		if !match && !x.CommaOk {
			K.Dom.Deref(K, st, VSym{"type assertion"}, x)
			return nil
		}
		return one(st, okr(match))
	case VNil:
		if !x.CommaOk {
			K.Dom.Deref(K, st, VSym{"type assertion on nil"}, x)
			return nil
		}
		return one(st, okr(false))
	case VVal, VKey, VSym:
		if !x.CommaOk {
			K.Dom.Deref(K, st, VSym{"type assertion on a client value"}, x)
			return nil
		}
		return one(st, okr(false))
	}
	if x.CommaOk {
		return one(st, VTup{[]Val{VTop{"assert"}, VTop{"assert"}}})
	}
	return one(st, VTop{"assert"})
}

func (K *Kern) callArgs(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var f Val
	if c.IsInvoke() {
		args = append(args, K.val(st, c.Value))
	} else {
		switch c.Value.(type) {
		case *ssa.Builtin:
		default:
			f = K.val(st, c.Value)
		}
	}
	for _, a := range c.Args {
		args = append(args, K.val(st, a))
	}
	return f, args
}

func (K *Kern) call(st *State, c *ssa.CallCommon, f Val, args []Val, at ssa.Instruction) []R {
	var fn *ssa.Function
	var binds []Val
	if c.IsInvoke() {
		if p, ok := args[0].(VPtr); ok && st.Objs[p.O] != nil {
			if t := K.P.namedByName(st.Objs[p.O].Typ); t != nil {
				fn = K.P.method(t, c.Method.Name())
			}
		}
	} else if v, ok := f.(VFunc); ok && v.Fn != nil {
		fn, binds = v.Fn, v.Binds
		if fn.Synthetic != "" {
			if o, ok := fn.Object().(*types.Func); ok {
				if g := K.P.funcOf(o); g != nil && len(g.Params) == len(args) {
					fn = g
				}
			}
		}
	}
	if rs, ok := K.Dom.Call(K, st, c, fn, f, args, at); ok {
		return rs
	}
	if fn != nil && fn.Package() == K.P.SSA && fn.Blocks != nil {
		h, ok := K.Dom.(interface{ Inline(fn *ssa.Function) bool })
		if K.rec[fn] && !(ok && h.Inline(fn)) {
			return K.callSummary(st, fn, args, at)
		}
		var out []R
		for _, x := range K.execFn(fn, args, binds, st) {
			out = append(out, R{x.st, tupRes(fn.Signature, x.res)})
		}
		return out
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "panic":
			K.Dom.Deref(K, st, VSym{"panic"}, at)
			return nil
		case "print", "println":
			return one(st, nil)
		}
		K.undecided(at, "builtin %s is outside the analysed fragment", b.Name())
	}
	if fn != nil && fn.Package() != K.P.SSA {
		name := fn.String()
		switch {
		case strings.HasSuffix(name, "sync.Mutex).Lock"), strings.HasSuffix(name, "sync.Mutex).Unlock"):
			return one(st, nil)
		}
		return one(st, extResult(fn.Signature, name))
	}
	if c.IsInvoke() {
		return one(st, extResult(c.Signature(), "invoke "+c.Method.Name()))
	}
	K.undecided(at, "call %s cannot be resolved", c)
	return nil
}

// extResult: library calls have no effect on the analysed state.
func extResult(sig *types.Signature, name string) Val {
	n := sig.Results().Len()
	mk := func(t types.Type) Val {
		if isErrorType(t) && (name == "fmt.Errorf" || name == "errors.New") {
			return VErr{"new"}
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return VSym{"string"}
		}
		return VTop{name}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return mk(sig.Results().At(0).Type())
	}
	t := VTup{}
	for i := 0; i < n; i++ {
		t.V = append(t.V, mk(sig.Results().At(i).Type()))
	}
	return t
}

func tupRes(sig *types.Signature, res []Val) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return VTup{res}
}

func (P *Prog) namedByName(n string) *types.Named {
	o := P.Pkg.Types.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	t, _ := o.Type().(*types.Named)
	return t
}

// uncovered: the blocks of the functions entered that no state reached.
func (K *Kern) uncovered() (out []string, blocks int) {
	fs := map[*ssa.Function]bool{}
	for b := range K.cover {
		fs[b.Parent()] = true
	}
	for f := range fs {
		for _, b := range f.Blocks {
			blocks++
			if K.cover[b] || b == f.Recover {
				continue
			}
			p := token.NoPos
			for _, i := range b.Instrs {
				if i.Pos() != token.NoPos {
					p = i.Pos()
					break
				}
			}
			if p != token.NoPos {
				out = append(out, fmt.Sprintf("%s#%d %s", fnName(f), b.Index, K.P.pos(p)))
			}
		}
	}
	sort.Strings(out)
	return out, blocks
}

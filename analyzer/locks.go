package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock-set analysis: an interprocedural, context-sensitive dataflow over the
// abstract lock state. Lock classes: T (a tree's mutex), C (the node cache's
// mutex), L (an LLRB tree's mutex).

const (
	lkT = 0
	lkC = 1
	lkL = 2
)

var lkName = [3]string{"tree lock (T)", "cache lock (C)", "LLRB lock (L)"}

type lkState struct {
	h     [3]int8 // 0 free, 1 read-held, 2 held
	acq   [3]int8 // acquisitions so far since the entry point (capped at 2)
	ctor  bool    // T is held only in the sense that the tree is not yet published
	pub   int8    // 0 unpublished, 1 published once C is released, 2 published
	nc    int8    // knowledge about tree.nodeCache: 0 unknown, 1 nil, 2 non-nil
	fresh uint32  // parameters known to be fresh unpublished nodes
}

type lkPathState struct {
	s      lkState
	defers string // encoded stack of defer indexes
}

type lkKey struct {
	fn *ssa.Function
	s  lkState
}

type lkSummary struct {
	exits   map[lkState]bool
	callers map[lkKey]bool
	via     string
}

type guardRule struct {
	read, write string // "T", "C", "L", "T|C", "T&C", ""
}

type lockAnalysis struct {
	P      *Prog
	mr     *modref
	sum    map[lkKey]*lkSummary
	queue  []lkKey
	inq    map[lkKey]bool
	imm    map[fieldKey]bool
	report func(rule, key, where, detail string)
	good   func(rule, key, where string)
	edges  map[[2]int]string
	dom    map[*ssa.Function]bool
	counts map[string]int
	seenC  map[string]bool
	goRoot map[*ssa.Function]bool
	depth  int
}

func (la *lockAnalysis) lockClass(v ssa.Value) int {
	// receiver of a sync.Mutex method: address of the embedded mutex of one of our structs
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return -1
	}
	switch n := derefNamed(fa.X.Type()); n {
	case la.P.TreeT:
		return lkT
	case la.P.CacheT:
		return lkC
	case la.P.LlrbT:
		return lkL
	}
	return -1
}

// mutexOp classifies a call as an operation on one of the mutexes.
func (la *lockAnalysis) mutexOp(c *ssa.CallCommon) (class int, op string, ok bool) {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil {
		return 0, "", false
	}
	n := derefNamed(f.Signature.Recv().Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return 0, "", false
	}
	if n.Obj().Name() != "Mutex" && n.Obj().Name() != "RWMutex" {
		return 0, "", false
	}
	if len(c.Args) == 0 {
		return 0, "", false
	}
	cl := la.lockClass(c.Args[0])
	return cl, f.Name(), true
}

func (la *lockAnalysis) guard(k fieldKey) *guardRule {
	switch k.Owner {
	case la.P.TreeT.Obj().Name():
		if la.imm[k] || k.Field == "Mutex" {
			return nil
		}
		return &guardRule{"T", "T"}
	case la.P.NodeT.Obj().Name():
		if la.imm[k] || k.Field == la.P.ElemT.Obj().Name() {
			return nil
		}
		return &guardRule{"T", "T"}
	case la.P.ElemT.Obj().Name():
		if k.Field == "btreeNodeCacheTag" {
			return &guardRule{"T|C", "T&C"}
		}
		return &guardRule{"C", "C"}
	case la.P.CacheT.Obj().Name():
		if la.imm[k] || k.Field == "Mutex" {
			return nil
		}
		return &guardRule{"C", "C"}
	case la.P.LlrbT.Obj().Name():
		if la.imm[k] || k.Field == "Mutex" {
			return nil
		}
		return &guardRule{"L", "L"}
	case la.P.LlrbNodeT.Obj().Name():
		return &guardRule{"L", "L"}
	}
	return nil
}

func holds(s lkState, need string, write bool) bool {
	lvl := int8(1)
	if write {
		lvl = 2
	}
	t := s.h[lkT] >= lvl
	c := s.h[lkC] >= lvl
	l := s.h[lkL] >= lvl
	switch need {
	case "T":
		return t
	case "C":
		return c
	case "L":
		return l
	case "T|C":
		return t || c
	case "T&C":
		return t && c
	}
	return true
}

func isAtomicCall(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	if f == nil {
		return false
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
		return true
	}
	o := f.Object()
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic"
}

// immutableFields: fields stored only into objects allocated in the same
// function (construction), hence never changed once shared.
func (la *lockAnalysis) immutableFields() {
	la.imm = map[fieldKey]bool{}
	mutated, atomics, plain := map[fieldKey]bool{}, map[fieldKey]bool{}, map[fieldKey]bool{}
	all := map[fieldKey]bool{}
	for _, t := range []*types.Named{la.P.TreeT, la.P.NodeT, la.P.CacheT, la.P.LlrbT} {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			all[fieldKey{t.Obj().Name(), st.Field(i).Name()}] = true
		}
	}
	for _, f := range la.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if fa, ok := i.(*ssa.FieldAddr); ok {
					// handing out the address lets the field be changed, unless every use of it
					// after construction is an atomic one
					k, fa, ok := addrField(fa)
					if _, isAlloc := baseOf(fa).(*ssa.Alloc); !ok || isAlloc {
						continue
					}
					for _, r := range *i.(*ssa.FieldAddr).Referrers() {
						c, isCall := r.(ssa.CallInstruction)
						switch {
						case isCall && isAtomicCall(c):
							atomics[k] = true
						case isCall:
							mutated[k] = true
							plain[k] = true
						default:
							plain[k] = true
						}
					}
				}
				if st, ok := i.(*ssa.Store); ok {
					if k, fa, ok := addrField(st.Addr); ok {
						base := baseOf(fa)
						if _, isAlloc := base.(*ssa.Alloc); isAlloc {
							continue
						}
						mutated[k] = true
					}
				}
			}
		}
	}
	for k := range all {
		if !mutated[k] && !(atomics[k] && plain[k]) {
			la.imm[k] = true
		}
	}
}

func (la *lockAnalysis) enqueue(k lkKey, via string) *lkSummary {
	s := la.sum[k]
	if s == nil {
		s = &lkSummary{exits: map[lkState]bool{}, callers: map[lkKey]bool{}, via: via}
		la.sum[k] = s
		if !la.inq[k] {
			la.inq[k] = true
			la.queue = append(la.queue, k)
		}
	}
	return s
}

func (la *lockAnalysis) run() {
	for len(la.queue) > 0 {
		k := la.queue[0]
		la.queue = la.queue[1:]
		la.inq[k] = false
		la.analyze(k)
		if len(la.sum) > 20000 {
			panic("lock analysis: too many contexts")
		}
	}
}

func (la *lockAnalysis) chain(k lkKey) string {
	return la.sum[k].via + " > " + fnName(k.fn)
}

func (la *lockAnalysis) analyze(k lkKey) {
	f := k.fn
	la.dom[f] = true
	type node struct {
		b *ssa.BasicBlock
		s lkPathState
	}
	seen := map[node]bool{}
	var work []node
	push := func(b *ssa.BasicBlock, s lkPathState) {
		n := node{b, s}
		if !seen[n] {
			seen[n] = true
			work = append(work, n)
		}
	}
	push(f.Blocks[0], lkPathState{s: k.s})
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		states := []lkPathState{n.s}
		b := n.b
		dead := false
		for _, in := range b.Instrs {
			var next []lkPathState
			for _, st := range states {
				next = append(next, la.step(k, in, st)...)
			}
			states = dedupLk(next)
			if len(states) == 0 {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.If:
			for _, st := range states {
				t, fl := la.branch(x.Cond, st)
				if t != nil {
					push(b.Succs[0], *t)
				}
				if fl != nil {
					push(b.Succs[1], *fl)
				}
			}
		case *ssa.Jump:
			for _, st := range states {
				push(b.Succs[0], st)
			}
		case *ssa.Return:
			for _, st := range states {
				la.exit(k, st, x)
			}
		case *ssa.Panic:
		}
	}
}

func dedupLk(in []lkPathState) []lkPathState {
	if len(in) < 2 {
		return in
	}
	m := map[lkPathState]bool{}
	var out []lkPathState
	for _, s := range in {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	return out
}

// branch refines the knowledge about tree.nodeCache at nil tests.
func (la *lockAnalysis) branch(cond ssa.Value, st lkPathState) (t, f *lkPathState) {
	a, b := st, st
	t, f = &a, &b
	neg := false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			cond = u.X
			continue
		}
		break
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return
	}
	x, y := bo.X, bo.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) {
		return
	}
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return
	}
	k, _, ok := addrField(ld.X)
	if !ok || k.Owner != la.P.TreeT.Obj().Name() || derefNamed(ld.Type()) != la.P.CacheT {
		return
	}
	eqIsTrue := (bo.Op == token.EQL) != neg
	nilSt, nonSt := &a, &b
	if !eqIsTrue {
		nilSt, nonSt = &b, &a
	}
	if st.s.nc == 1 {
		if nonSt == t {
			t = nil
		} else {
			f = nil
		}
	} else if st.s.nc == 2 {
		if nilSt == t {
			t = nil
		} else {
			f = nil
		}
	}
	nilSt.s.nc = 1
	nonSt.s.nc = 2
	return
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && c.IsNil()
}

func (la *lockAnalysis) exit(k lkKey, st lkPathState, at ssa.Instruction) {
	s := st.s
	s.fresh = 0
	sm := la.sum[k]
	if !sm.exits[s] {
		sm.exits[s] = true
		for c := range sm.callers {
			if !la.inq[c] {
				la.inq[c] = true
				la.queue = append(la.queue, c)
			}
		}
	}
}

func (la *lockAnalysis) where(k lkKey, in ssa.Instruction) string {
	return fmt.Sprintf("%s in %s, reached as %s", la.P.instrPos(in), fnName(k.fn), la.chain(k))
}

func (la *lockAnalysis) access(k lkKey, in ssa.Instruction, addr ssa.Value, write bool, st lkPathState) {
	fk, fa, ok := addrField(addr)
	if !ok {
		return
	}
	g := la.guard(fk)
	if g == nil {
		return
	}
	need := g.read
	verb := "read"
	if write {
		need, verb = g.write, "written"
	}
	la.counts["guarded_accesses"]++
	key := fmt.Sprintf("%s.%s %s in %s", fk.Owner, fk.Field, verb, fnName(k.fn))
	base := baseOf(fa)
	if la.isFresh(k, base, in) {
		la.good("guarded-field", key, la.P.instrPos(in))
		return
	}
	if st.s.ctor && st.s.pub == 2 && strings.Contains(need, "T") && fk.Owner == la.P.NodeT.Obj().Name() {
		la.report("no-access-after-publication", key, la.where(k, in), "a tree under construction touches a node after the shared cache can already reach (and evict) it")
		return
	}
	if holds(st.s, need, write) {
		la.good("guarded-field", key, la.P.instrPos(in))
		return
	}
	la.report("guarded-field", key, la.where(k, in), fmt.Sprintf("field %s.%s is %s without the lock that guards it (needs %s; held: %s)", fk.Owner, fk.Field, verb, need, la.held(st.s)))
}

func (la *lockAnalysis) held(s lkState) string {
	var h []string
	for i := range s.h {
		if s.h[i] > 0 {
			h = append(h, lkName[i])
		}
	}
	if len(h) == 0 {
		return "none"
	}
	return strings.Join(h, ", ")
}

// isFresh: the object was allocated by this operation and no other goroutine can
// reach it yet (it has not been put on a cache list).
func (la *lockAnalysis) isFresh(k lkKey, v ssa.Value, at ssa.Instruction) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		if !x.Heap {
			return true
		}
		n := derefNamed(x.Type())
		if n == la.P.NodeT {
			return la.unpublished(k.fn, x, at)
		}
		// other objects: fresh while being initialised in the allocating block
		if x.Block() != at.Block() {
			return la.unescaped(x, at)
		}
		started := false
		for _, in := range x.Block().Instrs {
			if in == ssa.Instruction(x) {
				started = true
				continue
			}
			if in == at {
				return true
			}
			if started {
				if _, isCall := in.(ssa.CallInstruction); isCall {
					return la.unescaped(x, at)
				}
			}
		}
		return false
	case *ssa.Parameter:
		for i, p := range k.fn.Params {
			if p == x {
				return k.s.fresh&(1<<uint(i)) != 0 && la.paramUnpublished(k.fn, x, at)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if lv := la.mr.lastStored(x); lv != nil {
				return la.isFresh(k, lv, at)
			}
			return la.storedFresh(k, x, at)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || !la.isFresh(k, e, at) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return la.resultFresh(x, 0) && la.unpublishedVal(k.fn, x, x.Block(), at)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && la.resultFresh(c, x.Index) && la.unpublishedVal(k.fn, x, x.Block(), at)
	case *ssa.Const:
		return x.IsNil()
	}
	return false
}

// resultFresh: every node the call may return there is new and not yet reachable by others.
func (la *lockAnalysis) resultFresh(c *ssa.Call, i int) bool {
	fs, _ := la.P.callees(c.Common())
	if len(fs) != 1 || fs[0].Package() != la.P.SSA || la.depth > 8 {
		return false
	}
	la.depth++
	defer func() { la.depth-- }()
	any := false
	for _, b := range fs[0].Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		any = true
		if i >= len(r.Results) || derefNamed(r.Results[i].Type()) != la.P.NodeT || !la.isFresh(lkKey{fs[0], lkState{}}, r.Results[i], r) {
			return false
		}
	}
	return any
}

// storedFresh: the field was last set, on every path to the load, by a call to one function that
// stores a new node there, and no call since could have made that node reachable.
func (la *lockAnalysis) storedFresh(k lkKey, load *ssa.UnOp, at ssa.Instruction) bool {
	key, fa, ok := addrField(load.X)
	if !ok || derefNamed(load.Type()) != la.P.NodeT || la.depth > 8 {
		return false
	}
	la.depth++
	defer func() { la.depth-- }()
	var by ssa.CallInstruction
	good := true
	memo := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0 && good; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if k2, _, ok := addrField(x.Addr); ok && k2 == key {
					good = false
				}
			case ssa.CallInstruction:
				if la.mr.callMods(x.Common())[key] {
					if by != nil && by != x {
						good = false
					}
					by = x
					return
				}
				fs, _ := la.P.callees(x.Common())
				for _, g := range fs {
					if !la.publishes(g) {
						continue
					}
					for _, a := range x.Common().Args {
						if ld, ok := a.(*ssa.UnOp); ok {
							if k2, _, ok := addrField(ld.X); ok && k2 == key {
								good = false
							}
						}
					}
				}
			}
		}
		if len(b.Preds) == 0 {
			good = false
		}
		for _, p := range b.Preds {
			if good && !memo[p] {
				memo[p] = true
				scan(p, len(p.Instrs)-1)
			}
		}
	}
	for i, in := range load.Block().Instrs {
		if in == ssa.Instruction(load) {
			scan(load.Block(), i-1)
		}
	}
	if !good || by == nil || at.Block() != load.Block() || !la.unpublishedVal(k.fn, load, load.Block(), at) {
		return false
	}
	fs, _ := la.P.callees(by.Common())
	if len(fs) != 1 || fs[0].Package() != la.P.SSA {
		return false
	}
	g := fs[0]
	for j, a := range by.Common().Args {
		if a != fa.X || j >= len(g.Params) {
			continue
		}
		any := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && la.mr.callMods(c.Common())[key] {
					return false
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k2, fa2, ok := addrField(st.Addr)
				if !ok || k2 != key {
					continue
				}
				al, isAlloc := st.Val.(*ssa.Alloc)
				if fa2.X != ssa.Value(g.Params[j]) || !isAlloc {
					return false
				}
				for _, e := range g.Blocks {
					r, isRet := e.Instrs[len(e.Instrs)-1].(*ssa.Return)
					if !isRet {
						continue
					}
					// set on every way out, and not given away since
					if !b.Dominates(e) || !la.unpublished(g, al, r) {
						return false
					}
				}
				any = true
			}
		}
		return any
	}
	return false
}

// unescaped: nothing but field initialisation has used the object before `at`.
func (la *lockAnalysis) unescaped(a *ssa.Alloc, at ssa.Instruction) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			_ = x
		case *ssa.DebugRef:
		default:
			if canReach(r, at, a.Block()) {
				return false
			}
		}
	}
	return true
}

func (la *lockAnalysis) unpublished(f *ssa.Function, a *ssa.Alloc, at ssa.Instruction) bool {
	return la.unpublishedVal(f, a, a.Block(), at)
}

// canReach: is `at` reachable from `from` without passing through the block of a re-allocation?
func canReach(from, at ssa.Instruction, stop *ssa.BasicBlock) bool {
	fb, ab := from.Block(), at.Block()
	if fb == ab {
		for _, in := range fb.Instrs {
			if in == from {
				return true
			}
			if in == at {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == stop && s != ab {
				continue
			}
			if s == ab {
				if s == stop {
					continue
				}
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(fb)
}

func (la *lockAnalysis) publishes(g *ssa.Function) bool {
	c := la.P.CacheT.Obj().Name()
	for k := range la.mr.trans[g] {
		if k.Owner == c && (strings.HasSuffix(k.Field, "Head") || strings.HasSuffix(k.Field, "Tail")) {
			return true
		}
	}
	return false
}

func (la *lockAnalysis) unpublishedVal(f *ssa.Function, v ssa.Value, stop *ssa.BasicBlock, at ssa.Instruction) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || in == at {
				continue
			}
			uses := false
			for _, a := range c.Common().Args {
				if a == v {
					uses = true
				}
				if ld, ok := a.(*ssa.UnOp); ok {
					if lv := la.mr.lastStored(ld); lv == v {
						uses = true
					}
				}
			}
			if !uses {
				continue
			}
			fs, _ := la.P.callees(c.Common())
			for _, g := range fs {
				if la.publishes(g) && canReach(in, at, stop) {
					return false
				}
			}
		}
	}
	return true
}

func (la *lockAnalysis) paramUnpublished(f *ssa.Function, p *ssa.Parameter, at ssa.Instruction) bool {
	return la.unpublishedVal(f, p, nil, at)
}

func (la *lockAnalysis) step(k lkKey, in ssa.Instruction, st lkPathState) []lkPathState {
	one := []lkPathState{st}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			la.access(k, in, x.X, false, st)
		}
	case *ssa.Store:
		la.access(k, in, x.Addr, true, st)
		if fk, _, ok := addrField(x.Addr); ok {
			if fk.Owner == la.P.TreeT.Obj().Name() && fk.Field == "nodeCache" {
				st.s.nc = 0
				return []lkPathState{st}
			}
			if st.s.ctor && fk.Owner == la.P.CacheT.Obj().Name() && strings.HasPrefix(fk.Field, "cleanLRU") && (strings.HasSuffix(fk.Field, "Head") || strings.HasSuffix(fk.Field, "Tail")) && st.s.pub == 0 {
				st.s.pub = 1
				return []lkPathState{st}
			}
		}
	case *ssa.MapUpdate:
		la.mapAccess(k, in, x.Map, true, st)
	case *ssa.Lookup:
		la.mapAccess(k, in, x.X, false, st)
	case *ssa.Range:
		la.mapAccess(k, in, x.X, false, st)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			la.mapAccess(k, in, r.X, false, st)
		}
	case *ssa.Defer:
		if len(st.defers) > 8 {
			panic("lock analysis: too many pending defers in " + fnName(k.fn))
		}
		st.defers += string(rune(la.deferIndex(k.fn, x)))
		return []lkPathState{st}
	case *ssa.RunDefers:
		cur := []lkPathState{st}
		for {
			var next []lkPathState
			done := true
			for _, s := range cur {
				if s.defers == "" {
					next = append(next, s)
					continue
				}
				done = false
				rs := []rune(s.defers)
				d := la.deferAt(k.fn, int(rs[len(rs)-1]))
				s.defers = string(rs[:len(rs)-1])
				next = append(next, la.call(k, d, d.Common(), s)...)
			}
			cur = next
			if done {
				return cur
			}
		}
	case *ssa.Go:
		fs, _ := la.P.callees(x.Common())
		for _, g := range fs {
			la.goRoot[g] = true
			la.enqueue(lkKey{g, lkState{}}, "go "+fnName(g)+" (started in "+fnName(k.fn)+")")
		}
		return one
	case *ssa.Call:
		return la.call(k, x, x.Common(), st)
	}
	return one
}

func (la *lockAnalysis) mapAccess(k lkKey, in ssa.Instruction, m ssa.Value, write bool, st lkPathState) {
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	n, ok := mt.Key().(*types.Named)
	if !ok || n.Obj().Pkg() != la.P.Pkg.Types || n.Obj().Name() != "staleOnDiskReferenceStruct" {
		return
	}
	la.counts["guarded_accesses"]++
	key := "stale-location map in " + fnName(k.fn)
	if holds(st.s, "T", write) {
		la.good("guarded-field", key, la.P.instrPos(in))
	} else {
		la.report("guarded-field", key, la.where(k, in), "the tree's list of superseded locations is used without the tree lock")
	}
}

func (la *lockAnalysis) defersOf(f *ssa.Function) []*ssa.Defer {
	var out []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				out = append(out, d)
			}
		}
	}
	return out
}
func (la *lockAnalysis) deferIndex(f *ssa.Function, d *ssa.Defer) int {
	for i, e := range la.defersOf(f) {
		if e == d {
			return i + 1
		}
	}
	return 1
}
func (la *lockAnalysis) deferAt(f *ssa.Function, i int) *ssa.Defer { return la.defersOf(f)[i-1] }

func (la *lockAnalysis) call(k lkKey, in ssa.Instruction, c *ssa.CallCommon, st lkPathState) []lkPathState {
	one := []lkPathState{st}
	if cl, op, ok := la.mutexOp(c); ok {
		if cl < 0 {
			return one
		}
		key := fmt.Sprintf("%s %s in %s", op, lkName[cl], fnName(k.fn))
		switch op {
		case "Lock", "RLock":
			if st.s.h[cl] > 0 {
				la.report("no-double-lock", key, la.where(k, in), "the "+lkName[cl]+" may already be held here: a second acquisition blocks forever")
				return nil
			}
			for o := range st.s.h {
				if st.s.h[o] > 0 && !(o == lkT && st.s.ctor) {
					if la.edges[[2]int{o, cl}] == "" {
						la.edges[[2]int{o, cl}] = la.where(k, in)
					}
				}
			}
			la.good("no-double-lock", key, la.P.instrPos(in))
			if op == "Lock" {
				st.s.h[cl] = 2
			} else {
				st.s.h[cl] = 1
			}
			if st.s.acq[cl] < 2 {
				st.s.acq[cl]++
			}
			return []lkPathState{st}
		case "Unlock", "RUnlock":
			want := int8(2)
			if op == "RUnlock" {
				want = 1
			}
			if st.s.h[cl] != want || (cl == lkT && st.s.ctor) {
				la.report("unlock-held", key, la.where(k, in), "the "+lkName[cl]+" is released on a path where it is not held")
				return nil
			}
			la.good("unlock-held", key, la.P.instrPos(in))
			st.s.h[cl] = 0
			if cl == lkC && st.s.pub == 1 {
				st.s.pub = 2
			}
			return []lkPathState{st}
		case "TryLock", "TryRLock":
			panic("TryLock is not modelled")
		}
		return one
	}
	fs, ext := la.P.callees(c)
	if f := c.StaticCallee(); f != nil && f.String() == "runtime.Goexit" {
		// runs pending defers, then ends the goroutine
		end := []lkPathState{st}
		for len(end) > 0 && end[0].defers != "" {
			var next []lkPathState
			for _, s := range end {
				if s.defers == "" {
					next = append(next, s)
					continue
				}
				rs := []rune(s.defers)
				d := la.deferAt(k.fn, int(rs[len(rs)-1]))
				s.defers = string(rs[:len(rs)-1])
				next = append(next, la.call(k, d, d.Common(), s)...)
			}
			end = next
		}
		for _, s := range end {
			if s.s.h != [3]int8{} {
				la.report("released-on-every-exit", "runtime.Goexit in "+fnName(k.fn), la.where(k, in), "the goroutine ends while holding "+la.held(s.s))
			} else {
				la.good("released-on-every-exit", "runtime.Goexit in "+fnName(k.fn), la.P.instrPos(in))
			}
		}
		return nil
	}
	if strings.HasPrefix(ext, "callback:") || ext == "dynamic" {
		la.counts["callback_sites_checked"]++
		key := fmt.Sprintf("%s called in %s", ext, fnName(k.fn))
		if st.s.h[lkC] > 0 {
			la.report("no-callback-under-cache-lock", key, la.where(k, in), "client code is called while the cache lock is held")
		} else {
			la.good("no-callback-under-cache-lock", key, la.P.instrPos(in))
		}
		return one
	}
	if len(fs) == 0 {
		if ext == "builtin:delete" && len(c.Args) > 0 {
			la.mapAccess(k, in, c.Args[0], true, st)
		}
		if ext == "builtin:len" && len(c.Args) > 0 {
			la.mapAccess(k, in, c.Args[0], false, st)
		}
		// addresses of guarded fields handed out
		for _, a := range c.Args {
			if _, ok := a.(*ssa.FieldAddr); ok {
				la.access(k, in, a, true, st)
			}
		}
		return one
	}
	for _, a := range c.Args {
		if _, ok := a.(*ssa.FieldAddr); ok {
			la.access(k, in, a, true, st)
		}
	}
	var out []lkPathState
	for _, g := range fs {
		es := st.s
		es.fresh = 0
		for i, a := range c.Args {
			if i < 32 && derefNamed(a.Type()) == la.P.NodeT && la.isFresh(k, a, in) {
				es.fresh |= 1 << uint(i)
			}
		}
		gk := lkKey{g, es}
		sm := la.enqueue(gk, la.chain(k))
		sm.callers[k] = true
		for e := range sm.exits {
			n := st
			e.fresh = st.s.fresh
			n.s = e
			out = append(out, n)
		}
	}
	return dedupLk(out)
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// runLocks analyses every entry point; atomic selects the C16 rules, discipline the C17 ones.
func runLocks(P *Prog, r *Result, c16 bool) {
	la := &lockAnalysis{P: P, mr: P.modref(), sum: map[lkKey]*lkSummary{}, inq: map[lkKey]bool{}, edges: map[[2]int]string{}, dom: map[*ssa.Function]bool{}, counts: map[string]int{}, seenC: map[string]bool{}, goRoot: map[*ssa.Function]bool{}}
	c16rules := map[string]bool{"guarded-field": true, "no-access-after-publication": true, "one-critical-section": true}
	want := func(rule string) bool { return c16rules[rule] == c16 }
	la.report = func(rule, key, where, detail string) {
		if want(rule) {
			r.fail(rule, key, where, detail)
		}
	}
	la.good = func(rule, key, where string) {
		if want(rule) {
			r.ok(rule, key, where)
		}
	}
	la.immutableFields()
	type root struct {
		fn  *ssa.Function
		s   lkState
		cls int
	}
	var roots []root
	for _, x := range []struct {
		t   *types.Named
		cls int
	}{{P.TreeT, lkT}, {P.CacheT, lkC}, {P.LlrbT, lkL}} {
		for _, f := range P.apiMethods(x.t) {
			roots = append(roots, root{f, lkState{}, x.cls})
		}
	}
	// constructors: the new tree is not shared yet, which counts as holding its lock
	for _, f := range P.Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		s := lkState{}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if n, ok := res.At(i).Type().(*types.Named); ok && n.Obj().Name() == "BPlusTree" {
				s.h[lkT] = 2
				s.ctor = true
			}
		}
		roots = append(roots, root{f, s, -1})
	}
	for _, rt := range roots {
		la.enqueue(lkKey{rt.fn, rt.s}, "entry")
	}
	la.run()
	for _, rt := range roots {
		sm := la.sum[lkKey{rt.fn, rt.s}]
		name := fnName(rt.fn)
		for e := range sm.exits {
			if e.h != rt.s.h {
				la.report("released-on-every-exit", name, P.pos(rt.fn.Pos()), fmt.Sprintf("%s can return with a different set of locks held than it was entered with (held at return: %s)", name, la.held(e)))
			} else {
				la.good("released-on-every-exit", name, P.pos(rt.fn.Pos()))
			}
			if rt.cls >= 0 {
				if e.acq[rt.cls] > 1 {
					la.report("one-critical-section", name, P.pos(rt.fn.Pos()), fmt.Sprintf("%s takes the %s more than once, so it does not take effect as one critical section", name, lkName[rt.cls]))
				} else {
					la.good("one-critical-section", name, P.pos(rt.fn.Pos()))
				}
			}
		}
		if len(sm.exits) == 0 {
			la.good("released-on-every-exit", name+" (never returns)", P.pos(rt.fn.Pos()))
		}
	}
	for g := range la.goRoot {
		for e := range la.sum[lkKey{g, lkState{}}].exits {
			if e.h != [3]int8{} {
				la.report("released-on-every-exit", "goroutine "+fnName(g), P.pos(g.Pos()), "the goroutine can end holding "+la.held(e))
			} else {
				la.good("released-on-every-exit", "goroutine "+fnName(g), P.pos(g.Pos()))
			}
		}
	}
	// lock order: the observed edges plus the declared order T < C must be acyclic
	adj := map[int]map[int]bool{}
	for e := range la.edges {
		if adj[e[0]] == nil {
			adj[e[0]] = map[int]bool{}
		}
		adj[e[0]][e[1]] = true
	}
	var es [][2]int
	for e := range la.edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
	for _, e := range es {
		key := lkName[e[0]] + " before " + lkName[e[1]]
		bad := e[0] == lkC && e[1] == lkT
		// a path back from e[1] to e[0]
		seen := map[int]bool{}
		var dfs func(x int) bool
		dfs = func(x int) bool {
			if x == e[0] {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range adj[x] {
				if dfs(y) {
					return true
				}
			}
			return false
		}
		if dfs(e[1]) {
			bad = true
		}
		if bad {
			la.report("lock-order", key, la.edges[e], "this acquisition closes a cycle in the lock order (declared order: tree before cache)")
		} else {
			la.good("lock-order", key, la.edges[e])
		}
	}
	var unreached []string
	for _, f := range P.Funcs {
		if !la.dom[f] && f.Parent() == nil {
			unreached = append(unreached, fnName(f))
		}
	}
	r.Counts["entry_points"] = len(roots) + len(la.goRoot)
	r.Counts["contexts"] = len(la.sum)
	r.Counts["functions_reached"] = len(la.dom)
	r.Counts["guarded_accesses_checked"] = la.counts["guarded_accesses"]
	r.Counts["callback_sites_checked"] = la.counts["callback_sites_checked"]
	if len(unreached) > 0 {
		r.Notes = append(r.Notes, "functions no entry point reaches: "+strings.Join(unreached, ", "))
	}
	if c16 {
		r.floor("guarded_field_instances", countRule(r, "guarded-field"), 100)
	} else {
		r.floor("lock_operations", countRule(r, "no-double-lock")+countRule(r, "unlock-held"), 40)
		r.floor("callback_instances", countRule(r, "no-callback-under-cache-lock"), 10)
	}
	r.floor("api_entry_points", len(roots), 45)
}

func countRule(r *Result, rule string) int {
	n := 0
	for _, o := range r.Obls {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

func init() {
	checks["C16"] = func(P *Prog, r *Result) {
		r.Explanation = "Interprocedural, context-sensitive lock-set dataflow over the SSA of every function reachable from every API method, constructor and goroutine: each read and write of a field of the tree, node, cache, cache-element and LLRB types is an obligation that the lock guarding that field is held on every path in every calling context (fields never stored after construction and objects not yet reachable by other goroutines are exempt); each API operation takes its own lock at most once (one critical section)."
		r.Assumptions = []string{"a node is only reached through the tree whose lock is held (lock classes, not instances)", "client callbacks do not call back into the same tree"}
		runLocks(P, r, true)
	}
	checks["C17"] = func(P *Prog, r *Result) {
		r.Explanation = "The same lock-set dataflow, used for discipline: no acquisition of a lock class that may be held, no release of one not held, the set held at every return/Goexit equals that at entry, acquisition edges between lock classes are acyclic with tree before cache, and no client callback is reachable while the cache lock is held."
		r.Assumptions = []string{"lock classes, not instances: taking two trees' locks at once counts as a double lock", "deliberate panics on logic errors are not exits"}
		runLocks(P, r, false)
	}
}

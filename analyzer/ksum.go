package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A Summary tabulates a recursive function: one abstract entry state (canonical) and the
// abstract exit states found for it so far. All summaries are iterated to a joint fixpoint.
type Summary struct {
	fn      *ssa.Function
	key     string
	entry   *State // frames: ghost (boundary objects), arguments
	nb      int
	nroles  int
	exits   map[string]*State
	order   []string
	visits  map[string]int
	callers map[*Summary]bool // nil key: the driver
	evisits int
	queued  bool
	id      int
}

// reachable adds the objects reachable from v.
func (st *State) reachable(v Val, seen map[ObjID]bool) {
	eachVal(v, func(w Val) {
		p, ok := w.(VPtr)
		if !ok || seen[p.O] || st.Objs[p.O] == nil {
			return
		}
		seen[p.O] = true
		o := st.Objs[p.O]
		for _, k := range sortedKeys(o.F) {
			st.reachable(o.F[k], seen)
		}
		if o.Hole != nil {
			st.reachable(o.Hole, seen)
		}
		for _, w := range [][]WE{o.Word, o.Wr} {
			for _, x := range w {
				if x.V != nil {
					st.reachable(x.V, seen)
				}
			}
		}
	})
}

func objRefs(o *Obj, f func(ObjID)) {
	g := func(v Val) {
		eachVal(v, func(w Val) {
			if p, ok := w.(VPtr); ok {
				f(p.O)
			}
		})
	}
	for _, k := range sortedKeys(o.F) {
		g(o.F[k])
	}
	if o.Hole != nil {
		g(o.Hole)
	}
}

// footprint: the struct fields the functions reachable from fn mention.
func (K *Kern) footprint(fn *ssa.Function) map[fieldKey]bool {
	if m, ok := K.foots[fn]; ok {
		return m
	}
	m := map[fieldKey]bool{}
	for g := range K.mr.reach[fn] {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					_, n := fieldOf(x.X.Type(), x.Field)
					m[fieldKey{ownerName(x.X.Type()), n}] = true
				case *ssa.Field:
					_, n := fieldOf(x.X.Type(), x.Field)
					m[fieldKey{ownerName(x.X.Type()), n}] = true
				}
			}
		}
	}
	K.foots[fn] = m
	return m
}

func (K *Kern) callSummary(st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
	foot := K.footprint(fn)
	// hide what the callee cannot touch
	type hid struct {
		o ObjID
		f string
		v Val
	}
	var hidden []hid
	argSet := map[ObjID]bool{}
	for _, a := range args {
		eachVal(a, func(w Val) {
			if p, ok := w.(VPtr); ok {
				argSet[p.O] = true
			}
		})
	}
	st = st.clone()
	var hideIDs []ObjID
	for id := range st.Objs {
		hideIDs = append(hideIDs, id)
	}
	sort.Slice(hideIDs, func(i, j int) bool { return hideIDs[i] < hideIDs[j] })
	pre := map[ObjID]bool{}
	for _, a := range args {
		st.reachable(a, pre)
	}
	for _, id := range hideIDs {
		o := st.Objs[id]
		if !pre[id] || o.Kind != kStruct {
			continue
		}
		for _, f := range sortedKeys(o.F) {
			if K.Dom.Hide(o.Typ, f) && !foot[fieldKey{o.Typ, f}] {
				if _, already := o.F[f].(VHidden); already {
					continue
				}
				hidden = append(hidden, hid{id, f, o.F[f]})
				st.wr(id).F[f] = VHidden{}
				o = st.Objs[id]
			}
		}
	}
	// the hidden values stay in the caller's state as a frame of its own
	hf := &Frame{}
	for _, h := range hidden {
		hf.Vals = append(hf.Vals, h.v)
	}
	st.Frames = append([]*Frame{hf}, st.Frames...)

	region := map[ObjID]bool{}
	for _, a := range args {
		st.reachable(a, region)
	}
	var bound []ObjID
	inB := map[ObjID]bool{}
	addB := func(o ObjID) {
		if region[o] && !inB[o] {
			inB[o] = true
			bound = append(bound, o)
		}
	}
	for _, a := range args {
		eachVal(a, func(w Val) {
			if p, ok := w.(VPtr); ok {
				addB(p.O)
			}
		})
	}
	visit := func(v Val) {
		eachVal(v, func(w Val) {
			if p, ok := w.(VPtr); ok {
				addB(p.O)
			}
		})
	}
	for _, f := range st.Frames {
		if f.Fn != nil {
			for _, v := range K.envOrder(f) {
				visit(f.Env[v])
			}
		}
		for _, v := range f.Vals {
			visit(v)
		}
		for _, d := range f.Defs {
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, id := range hideIDs {
		if o := st.Objs[id]; o != nil && !region[id] {
			objRefs(o, addB)
		}
	}
	// fold the region, leaving the rest alone
	keep := map[ObjID]bool{}
	for id := range st.Objs {
		if !region[id] {
			keep[id] = true
		}
	}
	// folding may turn a boundary object into nil: track the boundary through a frame
	bf := &Frame{}
	for _, b := range bound {
		bf.Vals = append(bf.Vals, VPtr{b, ""})
	}
	bf.Vals = append(bf.Vals, args...)
	st.Frames = append([]*Frame{bf}, st.Frames...)
	K.Dom.Fold(K, st, keep, inB)
	K.gc(st)
	K.mergeElems(st)
	args = append([]Val{}, st.Frames[0].Vals[len(bound):]...)
	var nb []ObjID
	for i := range bound {
		if p, ok := st.Frames[0].Vals[i].(VPtr); ok {
			nb = append(nb, p.O)
		}
	}
	bound = nb
	st.Frames = st.Frames[1:]
	if !st.Cons.feasible() {
		return nil
	}

	// the entry state
	e := st.clone()
	gf := &Frame{}
	for _, b := range bound {
		gf.Vals = append(gf.Vals, VPtr{b, ""})
	}
	e.Frames = []*Frame{gf, {Vals: append([]Val{}, args...)}}
	e.Ghosts = nil
	e.Trace = nil
	K.gc(e)
	region = map[ObjID]bool{}
	for id := range e.Objs {
		region[id] = true
	}
	eord := append([]EID{}, e.Ord...)
	for _, x := range eord {
		e.Ghosts = append(e.Ghosts, []WE{{E: x}})
	}
	key, c, nm := K.canonN(e)
	c.Cons = c.Cons.minimise()
	key = fmt.Sprintf("%s|%d|%s", fn.String(), len(bound), key)
	var s *Summary
	if s = K.sumIdx[key]; s == nil {
		s = &Summary{fn: fn, key: key, entry: c, nb: len(bound), nroles: len(nm.roles), exits: map[string]*State{}, visits: map[string]int{}, callers: map[*Summary]bool{}}
		K.sumIdx[key] = s
		K.nsums++
		s.id = K.nsums
		K.sumCount[fn]++
		if K.sumCount[fn] > 400 {
			panic(diverged{fmt.Sprintf("the abstract entry states of %s do not converge", fnName(fn))})
		}
		if debugSel == "sum" {
			fmt.Fprintf(os.Stderr, "ENTRY %s %d\n%s cons %s\n", fnName(fn), K.nsums, key, c.Cons.str(vname))
		}
		K.enqueue(s)
	} else if !c.Cons.entailsAll(s.entry.Cons) {
		s.evisits++
		j := joinCons(s.entry.Cons, c.Cons, s.evisits > 4).minimise()
		n := s.entry.clone()
		n.Cons = j
		s.entry = n
		K.enqueue(s)
	}
	s.callers[K.cur] = true
	var out []R
	for _, xk := range s.order {
		if ns, res, ok := K.instantiate(st, s, s.exits[xk], bound, region, eord, nm, hf, len(hidden)); ok {
			for i, h := range hidden {
				// the object may have been renamed: find it through the boundary mapping
				_ = i
				_ = h
			}
			out = append(out, R{ns, tupRes(fn.Signature, res)})
		}
	}
	// restore hidden fields
	for i := range out {
		ns := out[i].st
		vals := ns.Frames[0].Vals
		ns.Frames = ns.Frames[1:]
		ids := ns.remap
		for j, h := range hidden {
			v := vals[j]
			var id ObjID
			if p, ok := ids[h.o].(VPtr); ok {
				id = p.O
			} else {
				K.undecided(at, "hidden field of a vanished object")
			}
			ns.wr(id).F[h.f] = v
		}
		ns.remap = nil
	}
	return out
}

type diverged struct{ msg string }

func (d diverged) Error() string { return d.msg }

func (K *Kern) enqueue(s *Summary) {
	if s == nil {
		K.driverDirty = true
		return
	}
	if !s.queued {
		s.queued = true
		K.dirty = append(K.dirty, s)
	}
}

// instantiate continues the caller's state with one exit of the summary.
func (K *Kern) instantiate(st *State, s *Summary, x *State, bound []ObjID, region map[ObjID]bool, eord []EID, nm *namer, hf *Frame, nh int) (*State, []Val, bool) {
	ns := st.clone()
	ns.Flags = map[string]string{}
	for k, v := range x.Flags {
		ns.Flags[k] = v
	}
	om := map[ObjID]ObjID{}
	for o := range x.Objs {
		om[o] = 0
	}
	var oids []ObjID
	for o := range om {
		oids = append(oids, o)
	}
	sort.Slice(oids, func(i, j int) bool { return oids[i] < oids[j] })
	for _, o := range oids {
		om[o] = ObjID(K.fresh())
	}
	vmap := map[Var]Var{}
	vm := func(v Var) Var {
		if w, ok := vmap[v]; ok {
			return w
		}
		w := K.newVar()
		vmap[v] = w
		return w
	}
	eids := map[EID]EID{}
	var xe []EID
	for e := range x.Elems {
		xe = append(xe, e)
	}
	sort.Slice(xe, func(i, j int) bool { return xe[i] < xe[j] })
	for _, e := range xe {
		eids[e] = EID(K.fresh())
	}
	// roles
	roles := x.Frames[0].Vals[s.nb : s.nb+s.nroles]
	callerRoles := append([]Lin{}, nm.roles...)
	xc := x.Cons.rename(vm)
	for _, e := range xc.eqs {
		ns.Cons.addEq(e)
	}
	for _, g := range xc.ges {
		ns.Cons.addGE(g)
	}
	for i, l := range callerRoles {
		r := roles[i].(VInt).L.rename(vm)
		ns.Cons.addEq(r.sub(l))
	}
	if ns.Cons.bad || !ns.Cons.feasible() {
		return nil, nil, false
	}
	// elements
	for _, e := range xe {
		i := x.Elems[e]
		if i.Seg {
			i.N = i.N.rename(vm)
		}
		ns.Elems[eids[e]] = i
	}
	amap := map[EID]EID{}
	for j, ce := range eord {
		var w []EID
		for _, y := range x.Ghosts[j] {
			w = append(w, eids[y.E])
		}
		if !ns.Elems[ce].Seg {
			if len(w) != 1 {
				panic(fmt.Sprintf("atom expanded to %d elements", len(w)))
			}
			amap[ce] = w[0]
		}
		// (the region is replaced below, so substitute outside it only)
		ns.subst(ce, w)
	}
	for o := range region {
		delete(ns.Objs, o)
	}
	bmap := map[ObjID]Val{}
	var cv func(v Val) Val
	cv = func(v Val) Val {
		return mapVal(v, func(w Val) Val {
			switch y := w.(type) {
			case VPtr:
				return VPtr{om[y.O], y.P}
			case VInt:
				return VInt{y.L.rename(vm)}
			case VKey:
				return VKey{eids[y.E]}
			case VVal:
				return VVal{eids[y.E]}
			}
			return w
		})
	}
	for i, b := range bound {
		bmap[b] = cv(x.Frames[0].Vals[i])
	}
	ns.mapVals(func(v Val) Val {
		switch y := v.(type) {
		case VPtr:
			if t, ok := bmap[y.O]; ok {
				if p, ok := t.(VPtr); ok {
					return VPtr{p.O, y.P}
				}
				return t
			}
		case VKey:
			if n, ok := amap[y.E]; ok {
				return VKey{n}
			}
		case VVal:
			if n, ok := amap[y.E]; ok {
				return VVal{n}
			}
		}
		return v
	})
	for id, o := range ns.Objs {
		if len(o.Excl) > 0 {
			p := ns.wr(id)
			p.Excl = nil
			for _, e := range o.Excl {
				if n, ok := amap[e]; ok {
					e = n
				}
				p.Excl = append(p.Excl, e)
			}
		}
	}
	cw := func(w []WE) []WE {
		var o []WE
		for _, y := range w {
			z := WE{E: eids[y.E]}
			if y.V != nil {
				z.V = cv(y.V)
			}
			o = append(o, z)
		}
		return o
	}
	for _, id := range oids {
		o := x.Objs[id]
		p := o.clone()
		for k, v := range o.F {
			p.F[k] = cv(v)
		}
		if o.Hole != nil {
			p.Hole = cv(o.Hole)
		}
		p.Word, p.Wr = cw(o.Word), cw(o.Wr)
		p.BH, p.HBH, p.HN = o.BH.rename(vm), o.HBH.rename(vm), o.HN.rename(vm)
		p.Excl = nil
		for _, e := range o.Excl {
			p.Excl = append(p.Excl, eids[e])
		}
		p.Lens = nil
		for _, l := range o.Lens {
			p.Lens = append(p.Lens, l.rename(vm))
		}
		ns.Objs[om[id]] = p
	}
	ns.remap = bmap
	var res []Val
	for _, v := range x.Frames[0].Vals[s.nb+s.nroles:] {
		res = append(res, cv(v))
	}
	return ns, res, true
}

// runSummary recomputes the exits of a summary from its entry.
func (K *Kern) runSummary(s *Summary) {
	st := s.entry.clone()
	st.ownFrames()
	args := st.Frames[1].Vals
	st.Frames = st.Frames[:1]
	g := st.Frames[0]
	for i := 0; i < s.nroles; i++ {
		g.Vals = append(g.Vals, VInt{linV(Var(i))})
	}
	K.cur = s
	exits := K.execFn(s.fn, args, nil, st)
	changed := false
	for _, x := range exits {
		e := x.st.clone()
		e.Trace = nil
		e.ownFrames()
		f := e.Frames[0]
		// boundary objects that have become part of a result's structure are no longer
		// separately nameable
		var inner = map[ObjID]bool{}
		roots := map[ObjID]bool{}
		for _, r := range x.res {
			eachVal(r, func(w Val) {
				if p, ok := w.(VPtr); ok {
					roots[p.O] = true
				}
			})
		}
		for r := range roots {
			m := map[ObjID]bool{}
			objRefs(e.Objs[r], func(o ObjID) { e.reachable(VPtr{o, ""}, m) })
			for o := range m {
				if !roots[o] {
					inner[o] = true
				}
			}
		}
		for i := 0; i < s.nb; i++ {
			if p, ok := f.Vals[i].(VPtr); ok && inner[p.O] {
				f.Vals[i] = VDangling{}
			}
		}
		f.Vals = append(f.Vals, x.res...)
		pin := e.pinnedObjs()
		// a query that returns a node says which node it found: leave that node as it is
		keep := map[ObjID]bool{}
		for r := range roots {
			if o := e.Objs[r]; o != nil && !K.storesInto(s.fn, o.Typ) {
				keep[r] = true
			}
		}
		K.Dom.Fold(K, e, keep, pin)
		if !e.Cons.feasible() {
			continue
		}
		K.gc(e)
		K.mergeElems(e)
		key, c := K.canon(e)
		if c.Cons.bad {
			continue
		}
		old := s.exits[key]
		if old == nil {
			s.exits[key] = c
			s.order = append(s.order, key)
			if len(s.order) > 400 {
				panic(diverged{fmt.Sprintf("the abstract exit states of %s do not converge", fnName(s.fn))})
			}
			changed = true
			if debugSel == "exits" {
				fmt.Fprintf(os.Stderr, "EXIT of %s entry %d: %s\n%s cons %s\n", fnName(s.fn), s.id, s.key, key, c.Cons.str(vname))
			}
			continue
		}
		if c.Cons.entailsAll(old.Cons) {
			continue
		}
		s.visits[key]++
		n := c.clone()
		n.Cons = joinCons(old.Cons, c.Cons, s.visits[key] > 4).minimise()
		s.exits[key] = n
		changed = true
	}
	if debugSel == "sum" {
		fmt.Fprintf(os.Stderr, "RAN %s: %d exits changed=%v\n", fnName(s.fn), len(s.order), changed)
	}
	if changed {
		for c := range s.callers {
			K.enqueue(c)
		}
	}
}

// solve runs the driver until the summaries it depends on are stable.
func (K *Kern) solve(driver func()) {
	for {
		K.driverDirty = false
		K.cur = nil
		driver()
		for len(K.dirty) > 0 {
			sort.SliceStable(K.dirty, func(i, j int) bool { return K.dirty[i].key < K.dirty[j].key })
			s := K.dirty[0]
			K.dirty = K.dirty[1:]
			s.queued = false
			K.runSummary(s)
		}
		if !K.driverDirty || K.cut != "" {
			return
		}
	}
}

func ptrElemName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return typeName(p.Elem())
	}
	return ""
}

// storesInto: may fn (or what it calls) store into objects of the type?
func (K *Kern) storesInto(fn *ssa.Function, typ string) bool {
	for k := range K.mr.trans[fn] {
		if k.Owner == typ {
			return true
		}
	}
	return false
}

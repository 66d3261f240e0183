package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The B+Tree domain of the abstract interpreter.
//
// Nodes are objects whose fields are materialised when read, from the invariant every reachable
// node satisfies (resident or not, changed or not, leaf or not; see lazyNode).  The in-memory
// tree a node keeps its entries in is an abstract sequence of pieces: single entries and segments
// of any number of entries.  The order of all pieces and of all separator keys in sight is kept
// in one ghost sequence, so a redistribution is judged by comparing sequences.

type btNames struct {
	*lruNames
	root, leaf, items, parent, kv, left, rootPS     string
	psItems, psIdx, psParent, psLeft, psRight       string
	num, off, length                                string
	tRoot, tMin, tMax, tStale, tCompare, tCallbacks string
	hits, misses                                    string
	kvType                                          string
	staleType                                       string
	staleF                                          []string
	treeT, nodeT, cacheT                            *types.Named
	wOrders, rOrders                                map[string]bool
}

func btRoles(P *Prog) (*btNames, string) {
	l, miss := lruRoles(P)
	if l == nil {
		return nil, miss
	}
	n := &btNames{lruNames: l}
	n.treeT, n.nodeT, n.cacheT = P.namedByName(l.tree), P.namedByName(l.node), P.namedByName(l.cache)
	get := func(t *types.Named, x string) string {
		p := leafPath(t, x)
		if p == "" {
			miss += " " + x
		}
		return p
	}
	N, T := n.nodeT, n.treeT
	n.root, n.leaf, n.items, n.parent = get(N, "root"), get(N, "leaf"), get(N, "items"), get(N, "parentNode")
	n.kv, n.left, n.rootPS = get(N, "kvLLRB"), get(N, "nonLeafLeftChild"), get(N, "rootPrefixSumChild")
	n.psItems, n.psIdx, n.psParent = get(N, "prefixSumItems"), get(N, "prefixSumKVIndex"), get(N, "prefixSumParent")
	n.psLeft, n.psRight = get(N, "prefixSumLeftChild"), get(N, "prefixSumRightChild")
	n.num, n.off, n.length = get(N, "objectNumber"), get(N, "objectOffset"), get(N, "objectLength")
	n.tRoot, n.tMin, n.tMax = get(T, "root"), get(T, "minKeysPerNode"), get(T, "maxKeysPerNode")
	n.tStale = get(T, "staleOnDiskReferencesList")
	n.tCompare, n.tCallbacks = get(T, "Compare"), get(T, "BPlusTreeCallbacks")
	n.hits, n.misses = get(n.cacheT, "cacheHits"), get(n.cacheT, "cacheMisses")
	if miss != "" {
		return nil, "fields not found:" + miss
	}
	return n, ""
}

const ( // ghost frame
	bTree    = iota
	bOrd     // every piece and separator key in sight, in key order
	bKey     // the key searched for
	bIdx     // the index searched for
	bChanged // nodes whose stored image no longer matches
	bA       // run specific
	bB
	bC
	bD
	bE
	bVis // the node being visited, until it is counted
	bF
	bLst // nodes whose list does not match their state
	bCount
)

type bt struct {
	codec    *codec
	noLists  bool // list membership is not followed
	base     bool // a helper is judged by itself: whom it is called with is not at stake
	counting bool // hits and misses are judged
	P        *Prog
	n        *btNames
	fn       *ssa.Function
	bad      map[string]string // prop|rule -> text

	strict    bool // losing a piece of the contents is a violation
	cached    int  // 0 both, 1 cached only, 2 uncached only
	contracts map[string]func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R
	atCall    func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction)
	onVisit   func(st *State, node ObjID)
	hook      func(K *Kern, st *State, ev string, a ...Val) // events of interest to a run
	fails     bool                                          // storage callbacks may fail
	resident  bool                                          // every node is in memory
	trav      bool                                          // a whole-tree visit is judged
	noRoot    bool                                          // nodes of unknown rank are not the root
	free      bool                                          // no search is under way
	self      func(K *Kern, st *State, args []Val, at ssa.Instruction) []R
	callback  func(K *Kern, st *State, m string, args []Val, at ssa.Instruction) ([]R, bool)
	keepPS    func(st *State, id ObjID, field string) bool
	lossy     func(st *State, child ObjID) bool
}

func (d *bt) fail(prop, rule, f string, a ...interface{}) {
	k := prop + "|" + rule
	if d.bad[k] == "" {
		d.bad[k] = fmt.Sprintf(f, a...)
	}
}

func trOf(st *State) string { return " (path " + strings.Join(st.Trace, " ") + ")" }

func (d *bt) ghost(st *State) *Frame {
	f := st.Frames[0]
	g := &Frame{Vals: append([]Val{}, f.Vals...)}
	st.Frames = append([]*Frame{}, st.Frames...)
	st.Frames[0] = g
	return g
}

func (d *bt) gv(st *State, i int) Val { return st.Frames[0].Vals[i] }

func (d *bt) tree(st *State) *Obj { return st.Objs[st.Frames[0].Vals[bTree].(VPtr).O] }

func (d *bt) event(K *Kern, st *State, ev string, a ...Val) {
	if d.hook != nil {
		d.hook(K, st, ev, a...)
	}
}

func (d *bt) Hide(typ, field string) bool                            { return false }
func (d *bt) NilTest(K *Kern, st *State, o ObjID) []*State           { return nil }
func (d *bt) Read(K *Kern, st *State, o ObjID, p string) ([]R, bool) { return nil, false }
func (d *bt) Force(K *Kern, st *State, o ObjID, why string) []*State { return nil }

func (d *bt) Global(name string) (Val, bool) {
	if d.codec != nil && (name == "OnDiskByteOrder" || strings.HasSuffix(name, "Endian")) {
		return VSym{orderSym(d.P, name)}, true
	}
	if name == "OnDiskByteOrder" {
		return VSym{"byteorder"}, true
	}
	return nil, false
}

// cst: the constant a number certainly is.
func cstOf(st *State, v Val) (int64, bool) {
	i, ok := v.(VInt)
	if !ok {
		return 0, false
	}
	l := st.Cons.reduce(i.L)
	return l.k, l.isConst()
}

func isNode(st *State, v Val, typ string) (ObjID, bool) {
	p, ok := v.(VPtr)
	if !ok || p.P != "" || st.Objs[p.O] == nil || st.Objs[p.O].Typ != typ {
		return 0, false
	}
	return p.O, true
}

func gbool(o *Obj, k string) bool { b, _ := o.F[k].(VBool); return b.B }

func gint(o *Obj, k string) Lin {
	if v, ok := o.F[k].(VInt); ok {
		return v.L
	}
	return linC(0)
}

func (d *bt) Deref(K *Kern, st *State, v Val, at ssa.Instruction) {
	if !st.Cons.feasible() {
		return
	}
	if d.base {
		if s, ok := v.(VSym); !ok || s.S == "panic" {
			return
		}
	}
	switch x := v.(type) {
	case VNil:
		if debugSel == "deref" {
			c := st.clone()
			key, _ := K.canon(c)
			println(key, c.Cons.str(vname))
		}
		d.fail("*", "no nil dereference", "a nil pointer is followed at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		return
	case VSym:
		switch x.S {
		case "panic":
			if st.Flags["sect"] != "" || st.Flags["logic"] != "" {
				d.fail("*", "no panic", "a panic is reached at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
				return
			}
			d.fail("*", "no panic", "a panic is reached at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
			return
		case "type assertion", "type assertion on nil", "type assertion on a client value":
			d.fail("*", "no failing type assertion", "a %s fails at %s in %s%s", x.S, K.P.instrPos(at), fnName(at.Parent()), trOf(st))
			return
		}
		K.undecided(at, "dereference of %s", x.S)
	default:
		K.undecided(at, "unknown pointer %v", v)
	}
}

// --- ghost order ------------------------------------------------------------

func (d *bt) ord(st *State) []Val { t, _ := d.gv(st, bOrd).(VTup); return t.V }

func (d *bt) setOrd(st *State, w []Val) { d.ghost(st).Vals[bOrd] = VTup{w} }

func posIn(w []Val, v Val) int {
	for i, x := range w {
		if x == v {
			return i
		}
	}
	return -1
}

func replIn(w []Val, v Val, by ...Val) []Val {
	i := posIn(w, v)
	if i < 0 {
		return w
	}
	o := append([]Val{}, w[:i]...)
	o = append(o, by...)
	return append(o, w[i+1:]...)
}

// --- pieces -----------------------------------------------------------------

func (d *bt) newSeg(K *Kern, st *State, kind string, n, t Lin, own Val, at string) ObjID {
	return K.newObj(st, &Obj{Kind: kStruct, Typ: "seg", F: map[string]Val{"n": VInt{n}, "t": VInt{t}, "kind": VSym{kind}, "own": own, "at": VSym{at}}})
}

func (d *bt) newKey(K *Kern, st *State, content bool) VPtr {
	return VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "key", F: map[string]Val{"c": VBool{content}}}), ""}
}

func (d *bt) newEnt(K *Kern, st *State, k, v Val) VPtr {
	return VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "ent", F: map[string]Val{"k": k, "v": v}}), ""}
}

func (d *bt) word(st *State, kv ObjID) []Val { t, _ := st.Objs[kv].F["w"].(VTup); return t.V }

func (d *bt) pieceLen(st *State, v Val) Lin {
	o := st.Objs[v.(VPtr).O]
	if o.Typ == "seg" {
		return gint(o, "n")
	}
	return linC(1)
}

func (d *bt) kvLen(st *State, kv ObjID) Lin {
	l := linC(0)
	for _, v := range d.word(st, kv) {
		l = l.add(d.pieceLen(st, v))
	}
	return l
}

// newChild makes a node that is a child of own.
func (d *bt) newChild(K *Kern, st *State, own Val, at string, items Lin) ObjID {
	n := d.n
	o := &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.root: VBool{false}, n.parent: own, n.treeF: d.gv(st, bTree), n.items: VInt{items}, "$at": VSym{at}}}
	if p, ok := own.(VPtr); ok {
		if po := st.Objs[p.O]; po != nil {
			for _, k := range []string{"$cl", "$out"} {
				if gbool(po, k) || (k == "$cl" && gbool(po, "$wc")) || (k == "$out" && gbool(po, "$kidsout")) {
					o.F[k] = VBool{true}
				}
			}
			if v, ok := po.F["$kleaf"]; ok {
				o.F["$kl"] = v
			}
		}
	}
	return K.newObj(st, o)
}

// splitAt makes the entry at distance i (0 <= i < n already assumed) into segment seg of kv
// a single entry.
func (d *bt) splitAt(K *Kern, st *State, kv, seg ObjID, i Lin) []entR {
	so := st.Objs[seg]
	kind, own, at := so.F["kind"].(VSym).S, so.F["own"], so.F["at"].(VSym).S
	n, t := gint(so, "n"), gint(so, "t")
	n2 := n.sub(i).addC(-1)
	var out []entR
	for _, c := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
		s := st.clone()
		part := func(l Lin, some bool) bool {
			if some {
				return s.assumeGE(l.addC(-1))
			}
			return s.assumeEQ(l)
		}
		if !part(i, c[0]) || !part(n2, c[1]) {
			continue
		}
		var ent VPtr
		var mid []Val
		t1, t2 := i, n2
		var k VPtr
		if kind == "p" {
			k = d.newKey(K, s, true)
			v := VPtr{K.newObj(s, &Obj{Kind: kStruct, Typ: "val", F: map[string]Val{"k": k}}), ""}
			ent = d.newEnt(K, s, k, v)
			mid = []Val{k}
		} else {
			it := linV(K.newVar())
			t1 = linV(K.newVar())
			t2 = t.sub(t1).sub(it)
			s.Cons.addGE(it)
			s.Cons.addGE(t1)
			s.Cons.addGE(t2)
			if !c[0] {
				s.Cons.addEq(t1)
			}
			if !c[1] {
				s.Cons.addEq(t2)
			}
			k = d.newKey(K, s, false)
			ch := VPtr{d.newChild(K, s, own, at, it), ""}
			ent = d.newEnt(K, s, k, ch)
			mid = []Val{k, ch}
		}
		var w, g []Val
		if c[0] {
			s1 := VPtr{d.newSeg(K, s, kind, i, t1, own, at), ""}
			w, g = append(w, s1), append(g, s1)
		}
		w, g = append(w, ent), append(g, mid...)
		if c[1] {
			s2 := VPtr{d.newSeg(K, s, kind, n2, t2, own, at), ""}
			w, g = append(w, s2), append(g, s2)
		}
		if gbool(so, "$em") {
			for _, x := range w {
				s.Objs[x.(VPtr).O].F["$em"] = VBool{true}
			}
		}
		s.wr(kv).F["w"] = VTup{replIn(d.word(s, kv), VPtr{seg, ""}, w...)}
		d.setOrd(s, replIn(d.ord(s), VPtr{seg, ""}, g...))
		out = append(out, entR{s, ent.O, posIn(d.word(s, kv), ent)})
	}
	return out
}

type entR struct {
	st  *State
	ent ObjID // 0: no entry there
	pos int   // index of the piece in the word
}

// at makes the entry at index i of kv a single one, splitting the state as needed.
func (d *bt) at(K *Kern, st *State, kv ObjID, i Lin) []entR {
	var out []entR
	if !st.Cons.entailsGE(i) {
		s := st.clone()
		if s.assumeGE(i.neg().addC(-1)) {
			out = append(out, entR{s, 0, 0})
		}
		if !st.assumeGE(i) {
			return out
		}
	}
	off := linC(0)
	for pi, v := range d.word(st, kv) {
		p := v.(VPtr)
		n := d.pieceLen(st, v)
		in := off.add(n).sub(i).addC(-1) // >= 0: in this piece
		if !st.Cons.entailsGE(in.neg().addC(-1)) {
			s := st.clone()
			if s.assumeGE(in) {
				if s.Objs[p.O].Typ == "seg" {
					out = append(out, d.splitAt(K, s, kv, p.O, i.sub(off))...)
				} else {
					out = append(out, entR{s, p.O, pi})
				}
			}
			if !st.assumeGE(in.neg().addC(-1)) {
				return out
			}
		}
		off = off.add(n)
	}
	return append(out, entR{st, 0, 0})
}

type aroundR struct {
	st   *State
	n    int // pieces of the word before the key
	same ObjID
}

// around splits the word of kv so that no segment straddles key k; how many pieces lie before
// it, and whether an entry has exactly that key.  nil: not decided.
func (d *bt) around(K *Kern, st *State, kv ObjID, k VPtr) []aroundR {
	g := d.ord(st)
	kp := posIn(g, k)
	if kp < 0 {
		return d.locate(K, st, kv, k)
	}
	n := 0
	for _, v := range d.word(st, kv) {
		p := v.(VPtr)
		o := st.Objs[p.O]
		x := Val(p)
		if o.Typ == "ent" {
			x = o.F["k"]
			if x == Val(k) || st.Objs[k.O].F["same"] == x {
				return []aroundR{{st, n, p.O}}
			}
		}
		xp := posIn(g, x)
		if xp < 0 {
			return nil
		}
		if xp < kp {
			n++
		}
	}
	return []aroundR{{st, n, 0}}
}

// locate places a key not yet in the order, in every way the word of kv allows.
func (d *bt) locate(K *Kern, st *State, kv ObjID, k VPtr) []aroundR {
	rs := d.locate1(K, st, kv, k)
	var out []aroundR
	for _, r := range rs {
		if !r.st.Cons.feasible() {
			continue
		}
		w := d.word(r.st, kv)
		if r.same == 0 && r.n > 0 {
			// what lies behind a separator key is inside the child that key leads to
			p := w[r.n-1].(VPtr)
			o := r.st.Objs[p.O]
			inside := func(s *State, ent ObjID) {
				if c, ok := isNode(s, s.Objs[ent].F["v"], d.n.node); ok {
					g := replIn(d.ord(s), k)
					if i := posIn(g, VPtr{c, ""}); i >= 0 {
						d.setOrd(s, replIn(g, VPtr{c, ""}, k, VPtr{c, ""}))
					} else if kv, ok := s.Objs[c].F[d.n.kv].(VPtr); ok && kv.O != 0 {
						// opened before: the place inside is not known yet
						d.setOrd(s, g)
						s.wr(k.O).F["in"] = VPtr{c, ""}
					}
				}
			}
			if o.Typ == "seg" && o.F["kind"] == Val(VSym{"k"}) {
				for _, e := range d.splitAt(K, r.st, kv, p.O, gint(o, "n").addC(-1)) {
					if e.ent != 0 && e.st.Cons.feasible() {
						inside(e.st, e.ent)
						out = append(out, aroundR{e.st, e.pos + 1, 0})
					}
				}
				continue
			}
			if o.Typ == "ent" {
				inside(r.st, p.O)
			}
		}
		out = append(out, r)
	}
	return out
}

func (d *bt) locate1(K *Kern, st *State, kv ObjID, k VPtr) []aroundR {
	w := d.word(st, kv)
	var out []aroundR
	gpos := func(s *State, v Val) int {
		o := s.Objs[v.(VPtr).O]
		if o.Typ == "ent" {
			return posIn(d.ord(s), o.F["k"])
		}
		return posIn(d.ord(s), v)
	}
	for _, v := range w {
		if gpos(st, v) < 0 {
			return nil
		}
	}
	search := d.gv(st, bKey) == Val(k)
	insert := func(s *State, at int) {
		g := d.ord(s)
		ng := append([]Val{}, g[:at]...)
		ng = append(ng, k)
		d.setOrd(s, append(ng, g[at:]...))
	}
	for i := 0; i <= len(w); i++ {
		s := st.clone()
		at := len(d.ord(s))
		switch {
		case i > 0:
			at = gpos(s, w[i-1]) + 1
		case len(w) > 0:
			at = gpos(s, w[0])
		}
		if i == 0 {
			for _, o := range s.Objs {
				if o.Typ == d.n.node && o.F[d.n.kv] == Val(VPtr{kv, ""}) {
					if l, ok := o.F[d.n.left].(VPtr); ok {
						if lp := posIn(d.ord(s), l); lp >= 0 {
							at = lp
						}
					}
				}
			}
		}
		insert(s, at)
		out = append(out, aroundR{s, i, 0})
		if i == len(w) {
			break
		}
		p := w[i].(VPtr)
		o := st.Objs[p.O]
		if o.Typ == "ent" {
			if search {
				s := st.clone()
				d.alias(s, k, o.F["k"].(VPtr))
				out = append(out, aroundR{s, i, p.O})
			}
			continue
		}
		n := gint(o, "n")
		s = st.clone()
		a := linV(K.newVar())
		b := n.sub(a)
		s.Cons.addGE(a.addC(-1))
		if s.assumeGE(b.addC(-1)) {
			kind, own, at := o.F["kind"].(VSym).S, o.F["own"], o.F["at"].(VSym).S
			ta, tb := a, b
			if kind == "k" {
				ta = linV(K.newVar())
				tb = gint(o, "t").sub(ta)
				s.Cons.addGE(ta)
				s.Cons.addGE(tb)
			}
			s1 := VPtr{d.newSeg(K, s, kind, a, ta, own, at), ""}
			s2 := VPtr{d.newSeg(K, s, kind, b, tb, own, at), ""}
			s.wr(kv).F["w"] = VTup{replIn(d.word(s, kv), p, s1, s2)}
			d.setOrd(s, replIn(d.ord(s), p, s1, k, s2))
			out = append(out, aroundR{s, i + 1, 0})
		}
		if search { // equal to a key of the segment
			s := st.clone()
			i1 := linV(K.newVar())
			s.Cons.addGE(i1)
			if s.assumeGE(n.sub(i1).addC(-1)) {
				for _, e := range d.splitAt(K, s, kv, p.O, i1) {
					d.alias(e.st, k, e.st.Objs[e.ent].F["k"].(VPtr))
					out = append(out, aroundR{e.st, e.pos, e.ent})
				}
			}
		}
	}
	return out
}

// alias: the searched key is the key b of an entry.
func (d *bt) alias(s *State, k, b VPtr) {
	s.wr(k.O).F["same"] = b
	d.setOrd(s, replIn(d.ord(s), b, b, k))
}

// covers: does node c hold the place of the searched key?
func (d *bt) covers(st *State, c ObjID) bool {
	g := d.ord(st)
	p := posIn(g, VPtr{c, ""})
	return p > 0 && g[p-1] == d.gv(st, bKey)
}

package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Lazy materialisation: what a field of an object not looked at before may hold.

func (d *bt) forkBool(st *State, id ObjID, path string) []R {
	t := st.clone()
	t.wr(id).F[path] = VBool{true}
	st.wr(id).F[path] = VBool{false}
	return []R{{t, VBool{true}}, {st, VBool{false}}}
}

// known forces a boolean field.
func (d *bt) known(K *Kern, st *State, id ObjID, path string) []R {
	if v, ok := st.Objs[id].F[path]; ok {
		return one(st, v)
	}
	rs, ok := d.Lazy(K, st, id, path)
	if !ok {
		K.undecided(nil, "field %s", path)
	}
	return rs
}

func (d *bt) freshInt(K *Kern, st *State, min int64) VInt {
	v := linV(K.newVar())
	st.Cons.addGE(v.addC(-min))
	return VInt{v}
}

func (d *bt) Lazy(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	o := st.Objs[id]
	switch o.Typ {
	case n.cache:
		switch {
		case path == n.active:
			return d.forkBoolTmp(st), true
		case path == n.head[1], path == n.head[2], path == n.tail[1], path == n.tail[2]:
			t := st.clone()
			return []R{{t, d.dummy(K, t)}, {st, VNil{}}}, true
		}
		if t := pathType(n.cacheT, path); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return one(st, d.freshInt(K, st, 0)), true
			}
		}
		return nil, false
	case n.tree:
		return d.lazyTree(K, st, id, path)
	case n.node:
		if gbool(o, "$dummy") {
			return d.lazyCacheElem(K, st, id, path)
		}
		return d.lazyNode(K, st, id, path)
	}
	return nil, false
}

func (d *bt) forkBoolTmp(st *State) []R {
	t := st.clone()
	return []R{{t, VBool{true}}, {st, VBool{false}}}
}

func (d *bt) dummy(K *Kern, st *State) Val {
	for id, o := range st.Objs {
		if o.Typ == d.n.node && gbool(o, "$dummy") {
			return VPtr{id, ""}
		}
	}
	return VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: d.n.node, F: map[string]Val{"$dummy": VBool{true}}}), ""}
}

// lazyCacheElem: the list links and the list tag of a node are the business of C13; here any
// value is possible whenever they are read.
func (d *bt) lazyCacheElem(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	switch path {
	case n.tag:
		v := linV(K.newVar())
		st.Cons.addGE(v)
		st.Cons.addGE(v.neg().addC(2))
		return one(st, VInt{v}), true
	case n.next, n.prev:
		t := st.clone()
		return []R{{t, d.dummy(K, t)}, {st, VNil{}}}, true
	}
	return nil, false
}

func (d *bt) lazyTree(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	switch path {
	case n.tRoot:
		r := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.root: VBool{true}, n.parent: VNil{}, n.treeF: d.gv(st, bTree), "$at": VSym{""}, "$off": VInt{linC(0)}, "$depth": VInt{linC(1)}}})
		st.wr(id).F[path] = VPtr{r, ""}
		return one(st, VPtr{r, ""}), true
	case n.nodeCache:
		c := st.clone()
		cid := K.newObj(c, &Obj{Kind: kStruct, Typ: n.cache})
		c.wr(id).F[path] = VPtr{cid, ""}
		st.wr(id).F[path] = VNil{}
		return []R{{c, VPtr{cid, ""}}, {st, VNil{}}}, true
	case n.tCompare:
		return one(st, VFunc{S: "compare"}), true
	case n.tCallbacks:
		return one(st, VSym{"callbacks"}), true
	case n.tStale:
		t := st.clone()
		m := VPtr{K.newObj(t, &Obj{Kind: kStruct, Typ: "stale"}), ""}
		t.wr(id).F[path] = m
		if d.trav {
			t.wr(id).F["$orig"] = m
		}
		st.wr(id).F[path] = VNil{}
		return []R{{t, m}, {st, VNil{}}}, true
	}
	return nil, false
}

// lazyNode: the invariant of a node.  A node that is not resident is clean and has no contents;
// a changed node is resident and has no stored image, and neither have those above it; a clean
// node has a stored image.
func (d *bt) lazyNode(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	o := st.Objs[id]
	set := func(s *State, v Val) []R {
		s.wr(id).F[path] = v
		return one(s, v)
	}
	chain := func(field string, f func(s *State, v Val) []R) ([]R, bool) {
		var out []R
		for _, r := range d.known(K, st, id, field) {
			out = append(out, f(r.st, r.v)...)
		}
		return out, true
	}
	switch path {
	case n.loaded:
		if d.resident {
			return set(st, VBool{true}), true
		}
		if gbool(o, "$out") {
			s := st.wr(id)
			s.F[path], s.F[n.dirty] = VBool{false}, VBool{false}
			return one(st, VBool{false}), true
		}
		t := st.clone()
		t.wr(id).F[path] = VBool{true}
		w := st.wr(id)
		w.F[path], w.F[n.dirty] = VBool{false}, VBool{false}
		return []R{{t, VBool{true}}, {st, VBool{false}}}, true
	case n.dirty:
		return chain(n.loaded, func(s *State, v Val) []R {
			b, ok := v.(VBool)
			if !ok || !b.B {
				return set(s, VBool{false})
			}
			if gbool(s.Objs[id], "$cl") {
				w := s.wr(id)
				w.F[path], w.F["$wc"] = VBool{false}, VBool{true}
				return one(s, VBool{false})
			}
			t := s.clone()
			tw := t.wr(id)
			tw.F[path], tw.F["$ad"] = VBool{true}, VBool{true}
			w := s.wr(id)
			w.F[path], w.F["$wc"] = VBool{false}, VBool{true}
			return []R{{t, VBool{true}}, {s, VBool{false}}}
		})
	case n.num, n.off, n.length:
		return chain(n.dirty, func(s *State, v Val) []R {
			w := s.wr(id)
			if b, ok := v.(VBool); ok && b.B {
				w.F[n.num], w.F[n.off], w.F[n.length] = VInt{linC(0)}, VInt{linC(0)}, VInt{linC(0)}
			} else {
				w.F[n.num], w.F[n.off], w.F[n.length] = d.freshInt(K, s, 1), d.freshInt(K, s, 0), d.freshInt(K, s, 1)
			}
			return one(s, w.F[path])
		})
	case n.leaf:
		return chain(n.loaded, func(s *State, v Val) []R {
			if b, ok := v.(VBool); !ok || !b.B {
				return d.forkBoolTmp(s) // not known before the node is loaded
			}
			if p, ok := s.Objs[id].F[n.parent].(VPtr); ok && s.Objs[p.O] != nil {
				if kl, ok := s.Objs[p.O].F["$kleaf"].(VBool); ok {
					return set(s, kl)
				}
				t := s.clone()
				t.wr(id).F[path], t.wr(p.O).F["$kleaf"] = VBool{true}, VBool{true}
				s.wr(id).F[path], s.wr(p.O).F["$kleaf"] = VBool{false}, VBool{false}
				return []R{{t, VBool{true}}, {s, VBool{false}}}
			}
			return d.forkBool(s, id, path)
		})
	case n.root:
		if d.noRoot {
			return set(st, VBool{false}), true
		}
		return d.forkBool(st, id, path), true
	case n.items:
		min := int64(1)
		if r, ok := o.F[n.root].(VBool); !ok || r.B {
			min = 0
		}
		return set(st, d.freshInt(K, st, min)), true
	case n.parent:
		return chain(n.root, func(s *State, v Val) []R {
			if v.(VBool).B {
				return set(s, VNil{})
			}
			return d.mkParent(K, s, id)
		})
	case n.kv, n.left, n.rootPS:
		if gbool(o, "$shut") {
			K.undecided(nil, "field %s of a node left behind", path)
		}
		return chain(n.loaded, func(s *State, v Val) []R {
			if b, ok := v.(VBool); !ok || !b.B {
				w := s.wr(id)
				w.F[path] = VNil{}
				return one(s, VNil{})
			}
			var out []R
			for _, r := range d.open(K, s, id) {
				if x, ok := r.Objs[id].F[path]; ok {
					out = append(out, R{r, x})
				} else {
					out = append(out, d.mkRootPS(K, r, id)...)
				}
			}
			return out
		})
	case n.psItems, n.psIdx, n.psParent, n.psLeft, n.psRight:
		return d.lazyPS(K, st, id, path)
	case n.tag, n.next, n.prev:
		return d.lazyCacheElem(K, st, id, path)
	}
	return nil, false
}

func isTrue(o *Obj, k string) bool { return gbool(o, k) }

// open materialises the contents of a resident node.
func (d *bt) open(K *Kern, st *State, id ObjID) []*State {
	n := d.n
	if _, ok := st.Objs[id].F[n.kv]; ok {
		return []*State{st}
	}
	var out []*State
	for _, r := range d.known(K, st, id, n.leaf) {
		for _, r2 := range d.known(K, r.st, id, n.root) {
			for _, r3 := range d.known(K, r2.st, id, n.items) {
				s := r3.st
				items, ok := r3.v.(VInt)
				if !ok {
					K.undecided(nil, "item total of a node is unknown")
				}
				leaf, root := r.v.(VBool).B, r2.v.(VBool).B
				own := VPtr{id, ""}
				mx, mn := gint(d.tree(s), n.tMax), gint(d.tree(s), n.tMin)
				at := ""
				if v, ok := s.Objs[id].F["$kat"].(VSym); ok {
					at = v.S
				}
				fin := func(s *State, left Val, w []Val) {
					kv := K.newObj(s, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"w": VTup{w}, "own": own}})
					o := s.wr(id)
					o.F[n.kv], o.F[n.left] = VPtr{kv, ""}, left
					if d.trav && d.gv(s, bA) == Val(own) {
						o.F["$kv"], o.F["$lf"] = VPtr{kv, ""}, left
					}
					if leaf {
						o.F[n.rootPS] = VNil{}
					} else {
						o.F["$ps"] = VBool{true}
					}
					var ps []Val
					if _, ok := left.(VPtr); ok {
						ps = append(ps, left)
					}
					ps = append(ps, w...)
					d.place(s, id, ps)
					out = append(out, s)
				}
				if leaf {
					if root {
						e := s.clone()
						if e.assumeEQ(items.L) {
							fin(e, VNil{}, nil)
						}
					}
					s.Cons.addGE(items.L.addC(-1))
					s.Cons.addGE(mx.sub(items.L))
					if !root && d.full(s, id) {
						s.Cons.addGE(items.L.sub(mn))
					}
					if s.Cons.feasible() {
						fin(s, VNil{}, []Val{VPtr{d.newSeg(K, s, "p", items.L, items.L, own, at), ""}})
					}
					continue
				}
				l, m := linV(K.newVar()), linV(K.newVar())
				t := items.L.sub(l)
				s.Cons.addGE(l.addC(-1))
				s.Cons.addGE(m.addC(-1))
				s.Cons.addGE(mx.sub(m))
				if !root && d.full(s, id) {
					s.Cons.addGE(m.sub(mn))
				}
				s.Cons.addGE(t.sub(m))
				if !s.Cons.feasible() {
					continue
				}
				lc := VPtr{d.newChild(K, s, own, at, l), ""}
				s.wr(lc.O).F["$idx"] = VInt{linC(-1)}
				if off, ok := s.Objs[id].F["$off"]; ok {
					s.wr(lc.O).F["$off"] = off
				}
				if dp, ok := s.Objs[id].F["$depth"].(VInt); ok {
					s.wr(lc.O).F["$depth"] = VInt{dp.L.addC(1)}
				}
				fin(s, lc, []Val{VPtr{d.newSeg(K, s, "k", m, t, own, at), ""}})
			}
		}
	}
	return out
}

// full: does the lower bound on the number of keys apply to this node?
func (d *bt) full(st *State, id ObjID) bool { return !gbool(st.Objs[id], "$short") }

// place puts the contents of a node where the node stood in the key order.
func (d *bt) place(s *State, id ObjID, ps []Val) {
	self := VPtr{id, ""}
	g := d.ord(s)
	key := d.gv(s, bKey)
	kp, hasKey := key.(VPtr)
	switch {
	case hasKey && d.covers(s, id):
		// what is searched for is inside: nothing else matters from here on
		s.wr(kp.O).F["in"] = self
		if d.strict {
			d.setOrd(s, replIn(replIn(g, key), self, ps...))
		} else {
			d.setOrd(s, ps)
		}
	case posIn(g, self) >= 0:
		d.setOrd(s, replIn(g, self, ps...))
	case len(g) == 0:
		d.setOrd(s, ps)
	case hasKey && gbool(s.Objs[id], d.n.root) && posIn(g, key) < 0:
		d.setOrd(s, ps)
	}
}

// mkParent materialises the parent of a node that has one.
func (d *bt) mkParent(K *Kern, st *State, id ObjID) []R {
	n := d.n
	o := st.Objs[id]
	P := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.loaded: VBool{true}, n.leaf: VBool{false}, n.treeF: d.gv(st, bTree), "$at": VSym{""}}})
	pp := VPtr{P, ""}
	po := st.Objs[P]
	if gbool(o, n.dirty) && gbool(o, "$ad") {
		po.F[n.dirty], po.F["$ad"] = VBool{true}, VBool{true}
	}
	if v, ok := o.F[n.leaf]; ok && gbool(o, n.loaded) {
		po.F["$kleaf"] = v
	}
	st.wr(id).F[n.parent] = pp
	var out []R
	if !d.strict {
		for _, r := range d.known(K, st, P, n.root) {
			if r.v.(VBool).B {
				r.st.wr(P).F[n.parent] = VNil{}
			}
			out = append(out, R{r.st, pp})
		}
		return out
	}
	for _, r := range d.known(K, st, P, n.root) {
		for _, r1 := range d.known(K, r.st, P, n.items) {
			for _, r2 := range d.known(K, r1.st, id, n.items) {
				s := r2.st
				items, mine := r1.v.(VInt).L, r2.v.(VInt).L
				if r.v.(VBool).B {
					if v, ok := d.tree(s).F[n.tRoot]; ok && v != Val(pp) {
						continue // the tree's root is another node, already met
					}
					s.wr(d.gv(s, bTree).(VPtr).O).F[n.tRoot] = pp
					s.wr(P).F[n.parent] = VNil{}
				}
				mx, mn := gint(d.tree(s), n.tMax), gint(d.tree(s), n.tMin)
				idx, hasIdx := s.Objs[id].F["$idx"].(VInt)
				// as the left child, or as the value of a key with any number of keys around it
				for c := 0; c < 5; c++ {
					t := s.clone()
					self := VPtr{id, ""}
					var w, g []Val
					seg := func(n Lin, tt Lin) {
						x := VPtr{d.newSeg(K, t, "k", n, tt, pp, ""), ""}
						w, g = append(w, x), append(g, x)
					}
					var left Val
					rest := items.sub(mine)
					var m Lin
					if c == 0 {
						if hasIdx && !t.assumeEQ(idx.L.addC(1)) {
							continue
						}
						left = self
						g = append(g, self)
						m = linV(K.newVar())
						t.Cons.addGE(m.addC(-1))
						t.Cons.addGE(rest.sub(m))
						seg(m, rest)
						if !hasIdx {
							t.wr(id).F["$idx"] = VInt{linC(-1)}
						}
					} else {
						l := linV(K.newVar())
						t.Cons.addGE(l.addC(-1))
						rest = rest.sub(l)
						lc := VPtr{d.newChild(K, t, pp, "", l), ""}
						t.wr(lc.O).F["$idx"] = VInt{linC(-1)}
						left = lc
						g = append(g, lc)
						before, after := (c-1)&1 != 0, (c-1)&2 != 0
						m = linC(1)
						pos := linC(0)
						if before {
							a := linV(K.newVar())
							t.Cons.addGE(a.addC(-1))
							at := rest
							if after {
								at = linV(K.newVar())
							}
							t.Cons.addGE(at.sub(a))
							rest = rest.sub(at)
							seg(a, at)
							m, pos = m.add(a), a
						}
						if hasIdx {
							if !t.assumeEQ(idx.L.sub(pos)) {
								continue
							}
						} else {
							t.wr(id).F["$idx"] = VInt{pos}
						}
						k := d.newKey(K, t, false)
						e := d.newEnt(K, t, k, self)
						w, g = append(w, e), append(g, k, self)
						if after {
							b := linV(K.newVar())
							t.Cons.addGE(b.addC(-1))
							t.Cons.addGE(rest.sub(b))
							m = m.add(b)
							seg(b, rest)
							rest = linC(0)
						}
						if !t.assumeEQ(rest) {
							continue
						}
					}
					t.Cons.addGE(mx.sub(m))
					if !r.v.(VBool).B {
						t.Cons.addGE(m.sub(mn))
					}
					if !t.Cons.feasible() {
						continue
					}
					kv := K.newObj(t, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"w": VTup{w}, "own": pp}})
					po := t.wr(P)
					po.F[n.kv], po.F[n.left], po.F["$ps"] = VPtr{kv, ""}, left, VBool{true}
					// around what is known of the node itself in the key order
					d.surround(t, id, g)
					out = append(out, R{t, pp})
				}
			}
		}
	}
	return out
}

// contentsOf: the pieces a node contributes to the key order.
func (d *bt) contentsOf(st *State, id ObjID) []Val {
	if posIn(d.ord(st), VPtr{id, ""}) >= 0 {
		return []Val{VPtr{id, ""}}
	}
	o := st.Objs[id]
	kv, ok := o.F[d.n.kv].(VPtr)
	if !ok {
		return []Val{VPtr{id, ""}}
	}
	var out []Val
	if l, ok := o.F[d.n.left].(VPtr); ok {
		out = append(out, d.contentsOf(st, l.O)...)
	}
	for _, v := range d.word(st, kv.O) {
		e := st.Objs[v.(VPtr).O]
		if e.Typ == "seg" {
			out = append(out, v)
			continue
		}
		out = append(out, e.F["k"])
		if c, ok := isNode(st, e.F["v"], d.n.node); ok {
			out = append(out, d.contentsOf(st, c)...)
		}
	}
	return out
}

// surround extends the key order, in which the contents of node id are, by those of its parent.
func (d *bt) surround(st *State, id ObjID, g []Val) {
	ord := d.ord(st)
	in := d.contentsOf(st, id)
	if len(in) == 1 && in[0] == Val(VPtr{id, ""}) && posIn(ord, in[0]) < 0 {
		if len(ord) == 0 {
			d.setOrd(st, g)
		}
		return
	}
	if len(ord) == 0 {
		return
	}
	i := posIn(g, VPtr{id, ""})
	nw := append([]Val{}, g[:i]...)
	nw = append(nw, ord...)
	d.setOrd(st, append(nw, g[i+1:]...))
}

// --- prefix sum navigation ----------------------------------------------------

// mkRootPS: the root of the search tree over a node's children is one of them.
func (d *bt) mkRootPS(K *Kern, st *State, id ObjID) []R {
	n := d.n
	o := st.Objs[id]
	items, _ := o.F[n.items].(VInt)
	f := d.floating(K, st, id, linC(0), items.L)
	st.wr(f).F[n.psParent] = VNil{}
	st.wr(id).F[n.rootPS] = VPtr{f, ""}
	return one(st, VPtr{f, ""})
}

// floating makes a child of node own whose place among the children is known only by the items
// before it: base items, then the subtree it heads, of the given total.
func (d *bt) floating(K *Kern, st *State, own ObjID, base, total Lin) ObjID {
	n := d.n
	it, sl, sr := linV(K.newVar()), linV(K.newVar()), linV(K.newVar())
	st.Cons.addGE(it.addC(-1))
	st.Cons.addGE(sl)
	st.Cons.addGE(sr)
	st.Cons.addEq(it.add(sl).add(sr).sub(total))
	f := d.newChild(K, st, VPtr{own, ""}, "", it)
	o := st.wr(f)
	o.F["$float"] = VBool{true}
	o.F["$base"], o.F["$sl"], o.F["$sr"] = VInt{base}, VInt{sl}, VInt{sr}
	ix := linV(K.newVar())
	st.Cons.addGE(ix.addC(1))
	o.F["$idx"] = VInt{ix}
	o.F[n.psIdx] = VInt{ix}
	if po := st.Objs[own]; po != nil {
		if off, ok := po.F["$off"].(VInt); ok {
			o.F["$off"] = VInt{off.L.add(base).add(sl)}
		}
	}
	return f
}

// sibling: a node of the same search tree as id.
func (d *bt) sibling(K *Kern, st *State, id ObjID, base, total Lin) ObjID {
	n := d.n
	o := st.Objs[id]
	if pp, ok := o.F[n.parent].(VPtr); ok {
		return d.floating(K, st, pp.O, base, total)
	}
	f := d.floating(K, st, -1, base, total)
	w := st.wr(f)
	delete(w.F, n.parent)
	for _, k := range []string{"$cl", "$out", "$kl"} {
		if v, ok := o.F[k]; ok {
			w.F[k] = v
		}
	}
	if off, ok := o.F["$off"].(VInt); ok {
		w.F["$off"] = VInt{off.L.sub(gint(o, "$base")).sub(gint(o, "$sl")).add(base).add(gint(w, "$sl"))}
	}
	return f
}

func (d *bt) lazyPS(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	o := st.Objs[id]
	if _, ok := o.F["$sl"]; !ok {
		if path != n.psIdx && d.span(K, st, id) {
			return d.lazyPS(K, st, id, path)
		}
		if path == n.psIdx {
			if ix, ok := o.F["$idx"].(VInt); ok {
				st.wr(id).F[path] = ix
				return one(st, ix), true
			}
			v := d.freshInt(K, st, -1)
			w := st.wr(id)
			w.F[path], w.F["$idx"] = v, v
			return one(st, v), true
		}
		if d.trav && d.gv(st, bA) == Val(VPtr{id, ""}) {
			var v Val = d.dummy(K, st)
			if path == n.psItems {
				v = d.freshInt(K, st, 0)
			}
			st.wr(id).F[path] = v
			return one(st, v), true
		}
		return nil, false
	}
	sl, sr, base, it := gint(o, "$sl"), gint(o, "$sr"), gint(o, "$base"), gint(o, n.items)
	pp, hasP := o.F[n.parent].(VPtr)
	switch path {
	case n.psParent:
		if !hasP {
			return nil, false
		}
		return d.climb(K, st, id, pp.O), true
	case n.psItems:
		v := VInt{sl.add(sr).add(it)}
		return one(st, v), true
	case n.psLeft, n.psRight:
		b, t := base, sl
		if path == n.psRight {
			b, t = base.add(sl).add(it), sr
		}
		var out []R
		below := false
		if tg, ok := o.F["$path"].(VPtr); ok && st.Objs[tg.O] != nil {
			dir, ok := o.F["$next"].(VBool)
			below = ok && dir.B == (path == n.psRight)
		}
		if s := st.clone(); !below && s.assumeEQ(t) {
			s.wr(id).F[path] = VNil{}
			out = append(out, R{s, VNil{}})
		}
		if !st.assumeGE(t.addC(-1)) {
			return out, true
		}
		if tg, ok := o.F["$path"].(VPtr); ok && st.Objs[tg.O] != nil {
			if dir, ok := o.F["$next"].(VBool); ok && dir.B == (path == n.psRight) {
				h := gint(o, "$ph")
				s := st.clone()
				to := s.Objs[tg.O]
				if s.assumeEQ(h.addC(-1)) && s.assumeEQ(gint(to, "$base").sub(b)) && s.assumeEQ(gint(to, "$sl").add(gint(to, n.items)).add(gint(to, "$sr")).sub(t)) {
					s.wr(id).F[path] = tg
					s.wr(tg.O).F[n.psParent] = VPtr{id, ""}
					out = append(out, R{s, tg})
				}
				if !st.assumeGE(h.addC(-2)) {
					return out, true
				}
				f := d.sibling(K, st, id, b, t)
				w := st.wr(f)
				w.F[n.psParent], w.F["$path"], w.F["$ph"] = VPtr{id, ""}, tg, VInt{h.addC(-1)}
				st.wr(id).F[path] = VPtr{f, ""}
				if st.Cons.feasible() {
					out = append(out, R{st, VPtr{f, ""}})
				}
				return out, true
			}
		}
		f := d.sibling(K, st, id, b, t)
		st.wr(f).F[n.psParent] = VPtr{id, ""}
		st.wr(id).F[path] = VPtr{f, ""}
		return append(out, R{st, VPtr{f, ""}}), true
	}
	return nil, false
}

// span gives a child whose offset is known its (unknown) extent in the search tree over the
// children of its parent.
func (d *bt) span(K *Kern, st *State, id ObjID) bool {
	n := d.n
	o := st.Objs[id]
	p, ok := o.F[n.parent].(VPtr)
	if !ok || st.Objs[p.O] == nil {
		return false
	}
	po := st.Objs[p.O]
	off, ok1 := o.F["$off"].(VInt)
	poff, ok2 := po.F["$off"].(VInt)
	it, ok3 := o.F[n.items].(VInt)
	pit, ok4 := po.F[n.items].(VInt)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return false
	}
	sl, sr := linV(K.newVar()), linV(K.newVar())
	base := off.L.sub(poff.L).sub(sl)
	st.Cons.addGE(sl)
	st.Cons.addGE(sr)
	st.Cons.addGE(base)
	st.Cons.addGE(pit.L.sub(base).sub(sl).sub(it.L).sub(sr))
	w := st.wr(id)
	w.F["$sl"], w.F["$sr"], w.F["$base"] = VInt{sl}, VInt{sr}, VInt{base}
	return true
}

// climb: the parent of a child in the search tree over the children of node own.
func (d *bt) climb(K *Kern, st *State, id, own ObjID) []R {
	n := d.n
	o := st.Objs[id]
	sl, sr, base, it := gint(o, "$sl"), gint(o, "$sr"), gint(o, "$base"), gint(o, n.items)
	total := sl.add(sr).add(it)
	pit, _ := st.Objs[own].F[n.items].(VInt)
	var out []R
	rp, known := st.Objs[own].F[n.rootPS].(VPtr)
	if !gbool(o, "$nr") {
		s := st.clone()
		if s.assumeEQ(base) && s.assumeEQ(pit.L.sub(total)) && (!known || rp.O == id || gbool(s.Objs[rp.O], "$float")) {
			s.wr(id).F[n.psParent] = VNil{}
			s.wr(own).F[n.rootPS] = VPtr{id, ""}
			out = append(out, R{s, VNil{}})
		}
	}
	for _, right := range []bool{false, true} {
		s := st.clone()
		it2, o2 := linV(K.newVar()), linV(K.newVar())
		s.Cons.addGE(it2.addC(-1))
		s.Cons.addGE(o2)
		f := d.newChild(K, s, VPtr{own, ""}, "", it2)
		w := s.Objs[f]
		w.F["$float"] = VBool{true}
		ix := linV(K.newVar())
		s.Cons.addGE(ix.addC(1))
		w.F["$idx"], w.F[n.psIdx] = VInt{ix}, VInt{ix}
		b := base
		if right {
			b = base.sub(it2).sub(o2)
			w.F["$base"], w.F["$sl"], w.F["$sr"] = VInt{b}, VInt{o2}, VInt{total}
			w.F[n.psRight] = VPtr{id, ""}
		} else {
			w.F["$base"], w.F["$sl"], w.F["$sr"] = VInt{b}, VInt{total}, VInt{o2}
			w.F[n.psLeft] = VPtr{id, ""}
		}
		w.F["$dir"] = VBool{right}
		if poff, ok := s.Objs[own].F["$off"].(VInt); ok {
			l := gint(w, "$sl")
			w.F["$off"] = VInt{poff.L.add(b).add(l)}
		}
		if tg, ok := o.F["$path"]; ok {
			w.F["$path"], w.F["$ph"] = tg, VInt{gint(o, "$ph").addC(1)}
		} else {
			w.F["$path"], w.F["$ph"] = VPtr{id, ""}, VInt{linC(1)}
		}
		s.wr(id).F[n.psParent] = VPtr{f, ""}
		s.Cons.addGE(b)
		s.Cons.addGE(pit.L.sub(b).sub(total).sub(it2).sub(o2))
		if s.Cons.feasible() {
			out = append(out, R{s, VPtr{f, ""}})
		}
	}
	return out
}

// PtrEq: two children of a node, found in different ways, may be the same one.
func (d *bt) PtrEq(K *Kern, st *State, a, b VPtr) ([]R, bool) {
	n := d.n
	ao, bo := st.Objs[a.O], st.Objs[b.O]
	if a == b || ao == nil || bo == nil || ao.Typ != n.node || bo.Typ != n.node {
		return nil, false
	}
	if gbool(ao, "$dummy") || gbool(bo, "$dummy") {
		return d.forkBoolTmp(st), true
	}
	if ao.F[n.parent] == nil || ao.F[n.parent] != bo.F[n.parent] {
		return nil, false
	}
	if gbool(ao, "$float") {
		a, b, ao, bo = b, a, bo, ao
	}
	p, ok := ao.F[n.parent].(VPtr)
	if gbool(ao, "$float") || !gbool(bo, "$float") || !ok {
		return nil, false
	}
	if st.Objs[p.O].F[n.rootPS] != Val(b) {
		return nil, false
	}
	if _, ok := ao.F["$sl"]; !ok && !d.span(K, st, a.O) {
		return nil, false
	}
	s := st.clone()
	st.wr(a.O).F["$nr"] = VBool{true}
	out := []R{{st, VBool{false}}}
	o := s.Objs[a.O]
	total := gint(o, "$sl").add(gint(o, "$sr")).add(gint(o, n.items))
	if s.assumeEQ(gint(o, "$base")) && s.assumeEQ(gint(s.Objs[p.O], n.items).sub(total)) {
		s.wr(p.O).F[n.rootPS] = a
		s.wr(a.O).F[n.psParent] = VNil{}
		out = append(out, R{s, VBool{true}})
	}
	return out, true
}

// --- writes -------------------------------------------------------------------

func (d *bt) changed(st *State, v Val) {
	c, _ := d.gv(st, bChanged).(VTup)
	if posIn(c.V, v) < 0 {
		d.ghost(st).Vals[bChanged] = VTup{append(append([]Val{}, c.V...), v)}
	}
}

func (d *bt) Stored(K *Kern, st *State, id ObjID, path string, v Val, at ssa.Instruction) {
	n := d.n
	o := st.Objs[id]
	switch o.Typ {
	case n.cache:
		if path == n.hits || path == n.misses {
			ev := "hit"
			if path == n.misses {
				ev = "miss"
			}
			d.event(K, st, ev, VPtr{id, ""}, v)
		}
		return
	case n.tree:
		if path == n.tStale {
			d.staleStored(K, st, o.F[path], v, at)
		}
		return
	case n.node:
	default:
		return
	}
	if gbool(o, "$dummy") {
		return
	}
	if d.strict {
		d.restrStored(st, id, path, v)
		o = st.Objs[id]
	}
	switch path {
	case n.kv:
		if p, ok := v.(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "kv" {
			st.wr(p.O).F["own"] = VPtr{id, ""}
		}
	case n.dirty:
		d.lruStored(st, id, path, v)
		if b, ok := v.(VBool); ok {
			if b.B {
				d.event(K, st, "dirty", VPtr{id, ""})
			} else {
				d.event(K, st, "clean", VPtr{id, ""})
			}
		}
	case n.loaded:
		d.lruStored(st, id, path, v)
		if b, ok := v.(VBool); ok && !b.B {
			d.event(K, st, "unload", VPtr{id, ""})
		}
	case n.parent:
		if !sameStored(st, o.F[n.parent], v) {
			delete(o.F, "$ad")
		}
	case n.num, n.off, n.length:
		if !sameInt(st, o.F[path], v) {
			d.event(K, st, "location", VPtr{id, ""}, VSym{path}, v)
		}
	}
	switch path {
	case n.items, n.root, n.treeF, n.parent, n.psItems, n.psIdx, n.psParent, n.psLeft, n.psRight:
		if !sameStored(st, o.F[path], v) {
			d.event(K, st, "field", VPtr{id, ""}, VSym{path})
		}
	}
}

// sameStored: storing b where a was changes nothing.
func sameStored(st *State, a, b Val) bool {
	switch x := a.(type) {
	case VNil, VPtr, VBool, VSym, VKey:
		switch b.(type) {
		case VNil, VPtr, VBool, VSym, VKey:
			return x == b
		}
		return false
	}
	return sameInt(st, a, b)
}

// --- what code outside the analysed fragment does ------------------------------

func (d *bt) Instr(K *Kern, st *State, ins ssa.Instruction) ([]R, bool) {
	if d.codec != nil {
		if rs, ok := d.codecInstr(K, st, ins); ok {
			return rs, true
		}
	}
	switch x := ins.(type) {
	case *ssa.MakeMap:
		if mt, ok := x.Type().Underlying().(*types.Map); ok {
			if b, ok := mt.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return one(st, VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "report", F: map[string]Val{}}), ""}), true
			}
		}
		return one(st, VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "stale", F: map[string]Val{"$made": VBool{true}}}), ""}), true
	case *ssa.Range:
		return d.staleRange(K, st, x)
	case *ssa.Next:
		return d.staleNext(K, st, x)
	case *ssa.MapUpdate:
		d.event(K, st, "mapset", K.val(st, x.Map), K.val(st, x.Key), K.val(st, x.Value))
		return one(st, nil), true
	case *ssa.Lookup:
		if p, ok := K.val(st, x.X).(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "report" {
			t := st.clone()
			v := d.freshInt(K, t, 0)
			t.wr(p.O).F["prev"] = v
			st.wr(p.O).F["prev"] = VInt{linC(0)}
			if x.CommaOk {
				return []R{{t, VTup{[]Val{v, VBool{true}}}}, {st, VTup{[]Val{VInt{linC(0)}, VBool{false}}}}}, true
			}
			return []R{{t, v}, {st, VInt{linC(0)}}}, true
		}
		if x.CommaOk {
			return one(st, VTup{[]Val{VTop{"map"}, VTop{"map"}}}), true
		}
		v := VTop{"map"}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return one(st, d.freshInt(K, st, 0)), true
		}
		return one(st, v), true
	case *ssa.MakeSlice:
		if et, ok := x.Type().Underlying().(*types.Slice); ok {
			_ = et
			return one(st, VPtr{K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": K.val(st, x.Len)}}), ""}), true
		}
	case *ssa.Slice:
		return d.slice(K, st, x)
	case *ssa.IndexAddr:
		p, ok := K.val(st, x.X).(VPtr)
		if !ok || st.Objs[p.O] == nil {
			return nil, false
		}
		o := st.Objs[p.O]
		i, ok := K.val(st, x.Index).(VInt)
		if !ok {
			return nil, false
		}
		switch o.Typ {
		case "array":
			if c, ok := cstOf(st, i); ok {
				if _, ok := o.F[fmt.Sprint(c)]; ok {
					return one(st, VPtr{p.O, fmt.Sprint(c)}), true
				}
				d.Deref(K, st, VSym{"panic"}, ins)
				return []R{}, true
			}
			var out []R
			for c := int64(0); ; c++ {
				if _, ok := o.F[fmt.Sprint(c)]; !ok {
					break
				}
				s := st.clone()
				if s.assumeEQ(i.L.addC(-c)) {
					out = append(out, R{s, VPtr{p.O, fmt.Sprint(c)}})
				}
			}
			return out, true
		case "slice":
			return d.indexSlice(K, st, p.O, i, ins)
		}
	}
	return nil, false
}

// slice of a whole array literal, or a prefix of a path.
func (d *bt) slice(K *Kern, st *State, x *ssa.Slice) ([]R, bool) {
	p, ok := K.val(st, x.X).(VPtr)
	if !ok || st.Objs[p.O] == nil {
		return nil, false
	}
	o := st.Objs[p.O]
	if o.Typ == "array" && x.Low == nil && x.High == nil {
		n := int64(0)
		for {
			if _, ok := o.F[fmt.Sprint(n)]; !ok {
				break
			}
			n++
		}
		if n == 0 {
			return one(st, VPtr{K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": VInt{linC(0)}, "tgt": VSym{"root"}}}), ""}), true
		}
		return one(st, p), true
	}
	if o.Typ == "slice" && x.Low == nil && x.High != nil {
		if h, ok := K.val(st, x.High).(VInt); ok {
			ln := gint(o, "len")
			if st.Cons.entailsEQ(h.L.sub(ln).addC(1)) {
				// all but the last
				f := map[string]Val{"len": h}
				if v, ok := o.F["pre"]; ok {
					f["tgt"] = v
				} else if t, ok := o.F["tgt"].(VPtr); ok && st.Objs[t.O] != nil {
					var out []R
					for _, r := range d.known(K, st, t.O, d.n.parent) {
						g := map[string]Val{"len": h, "tgt": r.v}
						out = append(out, R{r.st, VPtr{K.newObj(r.st, &Obj{Kind: kSlice, Typ: "slice", F: g}), ""}})
					}
					return out, true
				}
				return one(st, VPtr{K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: f}), ""}), true
			}
		}
	}
	return nil, false
}

// pathOf: does the path lead to node id?
func (d *bt) pathTo(st *State, s, id ObjID) bool {
	o := st.Objs[s]
	n := st.Objs[id]
	if o == nil || o.Typ != "slice" {
		return false
	}
	if v, ok := o.F["tgt"]; ok {
		if v == Val(VSym{"root"}) {
			return gbool(n, d.n.root)
		}
		return v == Val(VPtr{id, ""})
	}
	last, ok1 := o.F["last"].(VInt)
	idx, ok2 := n.F["$idx"].(VInt)
	par, ok3 := n.F[d.n.parent].(VPtr)
	if !ok1 || !ok2 || !ok3 || !st.Cons.entailsEQ(last.L.sub(idx.L)) {
		return false
	}
	pre := o.F["pre"]
	if pre == Val(VSym{"root"}) {
		return gbool(st.Objs[par.O], d.n.root)
	}
	return pre == Val(par)
}

// settlePaths lets a path name the node it leads to.
func (d *bt) settlePaths(st *State, nodes map[ObjID]bool) {
	if tp, ok := d.gv(st, bTree).(VPtr); ok {
		if r, ok := st.Objs[tp.O].F[d.n.tRoot].(VPtr); ok {
			for id, o := range st.Objs {
				if o.Typ != "slice" {
					continue
				}
				for _, k := range []string{"tgt", "pre"} {
					if o.F[k] == Val(VSym{"root"}) {
						o = st.wr(id)
						o.F[k] = r
					}
				}
			}
		}
	}
	for id, o := range st.Objs {
		if o.Typ != "slice" {
			continue
		}
		if _, ok := o.F["last"]; !ok {
			continue
		}
		for nd := range nodes {
			if x := st.Objs[nd]; x != nil && x.Typ == d.n.node && d.pathTo(st, id, nd) {
				w := st.wr(id)
				delete(w.F, "last")
				delete(w.F, "pre")
				w.F["tgt"] = VPtr{nd, ""}
				break
			}
		}
	}
}

func (d *bt) indexSlice(K *Kern, st *State, s ObjID, i VInt, at ssa.Instruction) ([]R, bool) {
	o := st.Objs[s]
	ln := gint(o, "len")
	if !st.Cons.entailsGE(i.L) || !st.Cons.entailsGE(ln.sub(i.L).addC(-1)) {
		t := st.clone()
		if t.assumeGE(i.L.neg().addC(-1)) || func() bool { u := st.clone(); return u.assumeGE(i.L.sub(ln)) }() {
			d.fail("*", "indices stay in range", "a slice is indexed outside its length at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		}
		return []R{}, true
	}
	if gbool(o, "bools") {
		cell := func(s *State, b bool) R {
			return R{s, VPtr{K.newObj(s, &Obj{Kind: kCell, Typ: "cell", F: map[string]Val{"": VBool{b}}}), ""}}
		}
		for _, id := range sortedObjs(st) {
			x := st.Objs[id]
			if x.Typ != d.n.node || x.F["$path"] == nil || x.F["$path"] != o.F["tgt"] || !st.Cons.entailsEQ(gint(x, "$ph").sub(i.L).addC(-1)) {
				continue
			}
			tg := o.F["tgt"].(VPtr)
			to := st.Objs[tg.O]
			if to == nil {
				break
			}
			inv := gbool(o, "inv")
			r := st.clone()
			r.wr(id).F["$next"] = VBool{true}
			delete(r.Objs[id].F, d.n.psRight)
			st.wr(id).F["$next"] = VBool{false}
			delete(st.Objs[id].F, d.n.psLeft)
			return []R{cell(r, !inv), cell(st, inv)}, true
		}
		return []R{cell(st.clone(), true), cell(st, false)}, true
	}
	if st.Cons.entailsEQ(i.L.sub(ln).addC(1)) {
		if v, ok := o.F["last"]; ok {
			return one(st, VPtr{K.newObj(st, &Obj{Kind: kCell, Typ: "cell", F: map[string]Val{"": v}}), ""}), true
		}
		if t, ok := o.F["tgt"].(VPtr); ok && st.Objs[t.O] != nil {
			if ix, ok := st.Objs[t.O].F["$idx"]; ok {
				return one(st, VPtr{K.newObj(st, &Obj{Kind: kCell, Typ: "cell", F: map[string]Val{"": ix}}), ""}), true
			}
		}
	}
	return nil, false
}

func sortedObjs(st *State) []ObjID {
	var ids []ObjID
	for id := range st.Objs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (d *bt) appendTo(K *Kern, st *State, s Val, v Val) ([]R, bool) {
	p, ok := s.(VPtr)
	if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "slice" {
		return nil, false
	}
	d.settlePaths(st, st.pinnedObjs())
	o := st.Objs[p.O]
	f := map[string]Val{"len": VInt{gint(o, "len").addC(1)}}
	if b, ok := v.(VBool); ok {
		for _, id := range sortedObjs(st) {
			x := st.Objs[id]
			dir, ok := x.F["$dir"].(VBool)
			if !ok || x.Typ != d.n.node || !st.Cons.entailsEQ(gint(x, "$ph").sub(gint(o, "len")).addC(-1)) {
				continue
			}
			f["tgt"], f["bools"], f["inv"] = x.F["$path"], VBool{true}, VBool{dir.B != b.B}
			if old, ok := o.F["inv"]; ok && old != f["inv"] || o.F["tgt"] != nil && o.F["tgt"] != f["tgt"] {
				f["tgt"] = VNil{}
			}
		}
		return one(st, VPtr{K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: f}), ""}), true
	}
	if t, ok := o.F["tgt"]; ok {
		f["pre"] = t
		f["last"] = v
	}
	return one(st, VPtr{K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: f}), ""}), true
}

// --- calls --------------------------------------------------------------------

func (d *bt) Call(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, f Val, args []Val, at ssa.Instruction) ([]R, bool) {
	if _, isGo := at.(*ssa.Go); isGo {
		return one(st, nil), true
	}
	if d.codec != nil {
		if rs, ok := d.codecCall(K, st, com, fn, args, at); ok {
			return rs, true
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		switch b.Name() {
		case "len", "cap":
			if p, ok := args[0].(VPtr); ok && st.Objs[p.O] != nil {
				switch o := st.Objs[p.O]; o.Typ {
				case "slice":
					if v, ok := o.F["len"]; ok {
						return one(st, v), true
					}
				case "array":
					c := int64(0)
					for {
						if _, ok := o.F[fmt.Sprint(c)]; !ok {
							break
						}
						c++
					}
					return one(st, VInt{linC(c)}), true
				}
			}
			return one(st, d.freshInt(K, st, 0)), true
		case "append":
			if len(args) == 2 {
				if a, ok := args[1].(VPtr); ok && st.Objs[a.O] != nil && st.Objs[a.O].Typ == "array" && len(st.Objs[a.O].F) == 1 {
					if rs, ok := d.appendTo(K, st, args[0], st.Objs[a.O].F["0"]); ok {
						return rs, true
					}
				}
			}
			return one(st, VTop{"append"}), true
		case "delete":
			d.event(K, st, "mapdel", args[0], args[1])
			if p, ok := args[0].(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "stale" {
				d.staleDelete(K, st, p.O, args[1], at)
			}
			return one(st, nil), true
		}
		return nil, false
	}
	if v, ok := f.(VFunc); ok && v.S == "compare" {
		return d.compare(K, st, args, at), true
	}
	if com.IsInvoke() {
		if p, ok := args[0].(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "kv" {
			if d.codec != nil && d.codec.read {
				return d.readerKV(K, st, p.O, com.Method.Name(), args[1:], at), true
			}
			return d.kvCall(K, st, p.O, com.Method.Name(), args[1:], at), true
		}
		if _, ok := args[0].(VNil); ok {
			d.Deref(K, st, VNil{}, at)
			return []R{}, true
		}
		if s, ok := args[0].(VSym); ok && s.S == "callbacks" {
			if h := d.callback; h != nil {
				if rs, ok := h(K, st, com.Method.Name(), args[1:], at); ok {
					return rs, true
				}
			}
			return nil, false
		}
	}
	if fn == nil {
		return nil, false
	}
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		if _, isNil := args[0].(VNil); isNil {
			d.Deref(K, st, VNil{}, at)
			return []R{}, true
		}
		return one(st, nil), true
	}
	if c := d.contracts[fn.Name()]; c != nil && fn.Package() == d.P.SSA && fn != d.fn {
		if rs := c(K, st, fn, args, at); rs != nil {
			return rs, true
		}
	}
	if fn.Package() == d.P.SSA && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 && typeName(fn.Signature.Results().At(0).Type()) == "LLRBTree" {
		kv := K.newObj(st, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"w": VTup{}, "own": VNil{}}})
		return one(st, VPtr{kv, ""}), true
	}
	if d.self != nil && fn == d.fn && len(K.stack) > 0 {
		if rs := d.self(K, st, args, at); rs != nil {
			return rs, true
		}
	}
	if K.rec[fn] && fn.Package() == d.P.SSA && !d.Inline(fn) {
		K.undecided(at, "recursive function %s has no contract here", fnName(fn))
	}
	return nil, false
}

// Inline: the calls fn makes lead back to it only through a function that is taken at its contract
// in this run, so its body can be followed.
func (d *bt) Inline(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var back func(f *ssa.Function) bool
	back = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				gs, _ := d.P.callees(c.Common())
				for _, g := range gs {
					if g == fn {
						return true
					}
					if seen[g] || g.Package() != d.P.SSA || d.contracts[g.Name()] != nil || d.self != nil && g == d.fn {
						continue
					}
					seen[g] = true
					if back(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return !back(fn)
}

func (d *bt) asKey(st *State, v Val) (VPtr, bool) {
	p, ok := v.(VPtr)
	if ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "key" {
		return p, true
	}
	return p, false
}

// failing: the client's comparison of the searched key may fail, the first time it is made.
func (d *bt) failing(st *State, k VPtr) *State {
	if Val(k) != d.gv(st, bKey) || st.Flags["keyok"] != "" {
		return nil
	}
	e := st.clone()
	e.Flags["failed"] = "key"
	st.Flags["keyok"] = "1"
	return e
}

func (d *bt) kvOf(st *State, k VPtr) (kv, ent ObjID) {
	for id, o := range st.Objs {
		if o.Typ != "kv" {
			continue
		}
		for _, v := range d.word(st, id) {
			e := v.(VPtr)
			if eo := st.Objs[e.O]; eo.Typ == "ent" && eo.F["k"] == Val(k) {
				return id, e.O
			}
		}
	}
	return 0, 0
}

func (d *bt) compare(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
	a, ok1 := d.asKey(st, args[0])
	b, ok2 := d.asKey(st, args[1])
	if !ok1 || !ok2 {
		K.undecided(at, "comparison of unknown keys")
	}
	if a == b {
		return one(st, VTup{[]Val{VSign{0}, VNil{}}})
	}
	flip := 1
	if Val(b) == d.gv(st, bKey) {
		a, b = b, a
		flip = -1
	}
	var out []R
	if e := d.failing(st, a); e != nil {
		out = append(out, R{e, VTup{[]Val{VSign{0}, VErr{"comparison"}}}})
	}
	kv, ent := d.kvOf(st, b)
	if kv == 0 {
		g := d.ord(st)
		i, j := posIn(g, a), posIn(g, b)
		if i < 0 || j < 0 {
			K.undecided(at, "comparison with a key of unknown place")
		}
		s := 1
		if i < j {
			s = -1
		}
		return append(out, R{st, VTup{[]Val{VSign{s * flip}, VNil{}}}})
	}
	d.inScope(K, st, kv, a, at)
	rs := d.around(K, st, kv, a)
	if rs == nil {
		K.undecided(at, "comparison in a node of unknown place")
	}
	for _, r := range rs {
		s := 1
		if r.same == ent {
			s = 0
		} else if i := posIn(d.word(r.st, kv), VPtr{ent, ""}); i >= r.n {
			s = -1
		}
		out = append(out, R{r.st, VTup{[]Val{VSign{s * flip}, VNil{}}}})
	}
	return out
}

// inScope: a key may be looked for only in nodes that cover its place.
func (d *bt) inScope(K *Kern, st *State, kv ObjID, k VPtr, at ssa.Instruction) {
	if Val(k) != d.gv(st, bKey) {
		return
	}
	own, ok := st.Objs[kv].F["own"].(VPtr)
	if !ok || st.Objs[own.O] == nil {
		return
	}
	if d.free || gbool(st.Objs[own.O], d.n.root) || st.Objs[k.O].F["in"] == Val(own) {
		return
	}
	if st.Objs[k.O].F["in"] == nil && posIn(d.ord(st), k) < 0 {
		K.undecided(at, "key of unknown place looked up in a node below the root")
	}
	d.fail("C05", "a key is looked for in the child whose range covers it", "the key of the operation is looked for in a node that need not cover it at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
}

func kvRes(vs ...Val) Val { return VTup{vs} }

func (d *bt) mutated(K *Kern, st *State, kv ObjID, what string, at ssa.Instruction) {
	st.Flags["mut"] = "1"
	if own, ok := st.Objs[kv].F["own"].(VPtr); ok && st.Objs[own.O] != nil && st.Objs[own.O].Typ == d.n.node {
		w := st.wr(own.O)
		if v, ok := w.F["$ps"]; ok && v == Val(VBool{true}) {
			w.F["$ps"] = VBool{false}
		}
		d.changed(st, own)
		d.event(K, st, what, own)
	}
}

// kvCall: the in-memory tree of a node behaves as an exact sorted map (C02, C03).
func (d *bt) kvCall(K *Kern, st *State, kv ObjID, m string, args []Val, at ssa.Instruction) []R {
	n := d.n
	nilE := VNil{}
	key := func(i int) VPtr {
		k, ok := d.asKey(st, args[i])
		if !ok {
			K.undecided(at, "unknown key")
		}
		return k
	}
	byKey := func(k VPtr, errRes Val, f func(s *State, pos int, ent ObjID) []R) []R {
		var out []R
		if e := d.failing(st, k); e != nil {
			out = append(out, R{e, errRes})
		}
		d.inScope(K, st, kv, k, at)
		rs := d.around(K, st, kv, k)
		if rs == nil {
			K.undecided(at, "key of unknown place")
		}
		for _, r := range rs {
			if !r.st.Cons.feasible() {
				continue
			}
			out = append(out, f(r.st, r.n, r.same)...)
		}
		return out
	}
	byIdx := func(v Val, f func(s *State, ent ObjID, pos int) []R) []R {
		i, ok := v.(VInt)
		if !ok {
			K.undecided(at, "unknown index")
		}
		d.indexed(K, st, kv, i.L, at)
		var out []R
		for _, r := range d.at(K, st, kv, i.L) {
			if r.st.Cons.feasible() {
				out = append(out, f(r.st, r.ent, r.pos)...)
			}
		}
		return out
	}
	del := func(s *State, ent ObjID) {
		s.wr(kv).F["w"] = VTup{replIn(d.word(s, kv), VPtr{ent, ""})}
		d.mutated(K, s, kv, "delete", at)
	}
	patch := func(s *State, ent ObjID, v Val) {
		s.wr(ent).F["v"] = v
		d.mutated(K, s, kv, "patch", at)
	}
	err := VErr{"comparison"}
	switch m {
	case "Len":
		return one(st, kvRes(VInt{d.kvLen(st, kv)}, nilE))
	case "GetByIndex":
		i := args[0]
		return byIdx(i, func(s *State, ent ObjID, pos int) []R {
			if ent == 0 {
				return one(s, kvRes(nilE, nilE, VBool{false}, nilE))
			}
			e := s.Objs[ent]
			if c, ok := isNode(s, e.F["v"], n.node); ok {
				if _, ok := s.Objs[c].F["$idx"]; !ok {
					s.wr(c).F["$idx"] = i
				}
				d.offset(s, kv, pos, c)
			}
			return one(s, kvRes(e.F["k"], e.F["v"], VBool{true}, nilE))
		})
	case "DeleteByIndex":
		return byIdx(args[0], func(s *State, ent ObjID, pos int) []R {
			if ent == 0 {
				return one(s, kvRes(VBool{false}, nilE))
			}
			d.event(K, s, "target", s.Objs[ent].F["k"], VSym{"delete"})
			del(s, ent)
			return one(s, kvRes(VBool{true}, nilE))
		})
	case "PatchByIndex":
		return byIdx(args[0], func(s *State, ent ObjID, pos int) []R {
			if ent == 0 {
				return one(s, kvRes(VBool{false}, nilE))
			}
			d.event(K, s, "target", s.Objs[ent].F["k"], VSym{"patch"})
			patch(s, ent, args[1])
			return one(s, kvRes(VBool{true}, nilE))
		})
	case "GetByKey":
		return byKey(key(0), kvRes(nilE, VBool{false}, err), func(s *State, pos int, ent ObjID) []R {
			if ent == 0 {
				return one(s, kvRes(nilE, VBool{false}, nilE))
			}
			return one(s, kvRes(s.Objs[ent].F["v"], VBool{true}, nilE))
		})
	case "DeleteByKey":
		return byKey(key(0), kvRes(VBool{false}, err), func(s *State, pos int, ent ObjID) []R {
			if ent == 0 {
				return one(s, kvRes(VBool{false}, nilE))
			}
			d.event(K, s, "target", s.Objs[ent].F["k"], VSym{"delete"})
			del(s, ent)
			return one(s, kvRes(VBool{true}, nilE))
		})
	case "PatchByKey":
		return byKey(key(0), kvRes(VBool{false}, err), func(s *State, pos int, ent ObjID) []R {
			if ent == 0 {
				return one(s, kvRes(VBool{false}, nilE))
			}
			d.event(K, s, "target", s.Objs[ent].F["k"], VSym{"patch"})
			patch(s, ent, args[1])
			return one(s, kvRes(VBool{true}, nilE))
		})
	case "Put":
		k := key(0)
		return byKey(k, kvRes(VBool{false}, err), func(s *State, pos int, ent ObjID) []R {
			if ent != 0 {
				return one(s, kvRes(VBool{false}, nilE))
			}
			e := d.newEnt(K, s, k, args[1])
			w := d.word(s, kv)
			nw := append([]Val{}, w[:pos]...)
			nw = append(nw, e)
			s.wr(kv).F["w"] = VTup{append(nw, w[pos:]...)}
			d.mutated(K, s, kv, "put", at)
			return one(s, kvRes(VBool{true}, nilE))
		})
	case "BisectLeft", "BisectRight":
		return byKey(key(0), kvRes(VInt{linC(0)}, VBool{false}, err), func(s *State, pos int, ent ObjID) []R {
			l := linC(0)
			for i, v := range d.word(s, kv) {
				if ent != 0 && v == Val(VPtr{ent, ""}) {
					return one(s, kvRes(VInt{l}, VBool{true}, nilE))
				}
				if i >= pos && ent == 0 {
					break
				}
				l = l.add(d.pieceLen(s, v))
			}
			if m == "BisectLeft" {
				l = l.addC(-1)
			}
			return one(s, kvRes(VInt{l}, VBool{false}, nilE))
		})
	case "Validate":
		return []R{{st, nilE}}
	case "Dump":
		e := st.clone()
		e.Flags["failed"] = "dump"
		return []R{{st, nilE}, {e, VErr{"dump"}}}
	}
	K.undecided(at, "call of %s on a node's in-memory tree", m)
	return nil
}

// offset: how many items of the tree precede those of a child.
func (d *bt) offset(st *State, kv ObjID, pos int, c ObjID) {
	own, ok := st.Objs[kv].F["own"].(VPtr)
	if !ok || st.Objs[own.O] == nil {
		return
	}
	po := st.Objs[own.O]
	if dp, ok := po.F["$depth"].(VInt); ok {
		st.wr(c).F["$depth"] = VInt{dp.L.addC(1)}
	}
	off, ok := po.F["$off"].(VInt)
	l, ok2 := po.F[d.n.left].(VPtr)
	if !ok || !ok2 || st.Objs[c].F["$off"] != nil {
		return
	}
	sum := off.L.add(gint(st.Objs[l.O], d.n.items))
	for i, v := range d.word(st, kv) {
		if i >= pos {
			break
		}
		o := st.Objs[v.(VPtr).O]
		if o.Typ == "seg" {
			sum = sum.add(gint(o, "t"))
		} else if x, ok := isNode(st, o.F["v"], d.n.node); ok {
			sum = sum.add(gint(st.Objs[x], d.n.items))
		} else {
			return
		}
	}
	st.wr(c).F["$off"] = VInt{sum}
}

// indexed: in a leaf, the index used must be the one asked for, less the items before the leaf.
func (d *bt) indexed(K *Kern, st *State, kv ObjID, i Lin, at ssa.Instruction) {
	want, ok := d.gv(st, bIdx).(VInt)
	if !ok || st.Flags["mut"] != "" {
		return
	}
	own, ok := st.Objs[kv].F["own"].(VPtr)
	if !ok || st.Objs[own.O] == nil {
		return
	}
	o := st.Objs[own.O]
	if !gbool(o, d.n.leaf) || d.free {
		return
	}
	off, ok := o.F["$off"].(VInt)
	if !ok {
		K.undecided(at, "leaf of unknown offset")
	}
	if !st.Cons.entailsEQ(off.L.add(i).sub(want.L)) {
		d.fail("C06", "an index is found in the leaf and at the place the item totals give", "position %s is looked up in the leaf that begins at another position than assumed, at %s in %s%s", "asked for", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
	}
}

// --- folding ------------------------------------------------------------------

func (d *bt) Fold(K *Kern, st *State, keep, noAbsorb map[ObjID]bool) {
	if d.strict {
		d.settle(st)
		d.foldStrict(K, st)
		return
	}
	n := d.n
	d.settle(st)
	pin := map[ObjID]bool{}
	add := func(v Val) {
		eachVal(v, func(w Val) {
			if p, ok := w.(VPtr); ok {
				pin[p.O] = true
			}
		})
	}
	for i, f := range st.Frames {
		for _, v := range f.Env {
			add(v)
		}
		for j, v := range f.Vals {
			if i == 0 && j == bOrd {
				continue
			}
			add(v)
		}
		for _, df := range f.Defs {
			add(df.fn)
			for _, a := range df.args {
				add(a)
			}
		}
	}
	for _, o := range st.Objs {
		if o.Kind == kCell {
			for _, v := range o.F {
				add(v)
			}
		}
	}
	d.settlePaths(st, pin)
	// the place among the children of a node that a path leads to must stay known
	parents := map[ObjID]bool{}
	for id := range pin {
		if o := st.Objs[id]; o != nil && o.Typ == n.node {
			if p, ok := o.F[n.parent].(VPtr); ok {
				parents[p.O] = true
			}
		}
	}
	for id, o := range st.Objs {
		if o.Typ == "slice" && pin[id] {
			for _, k := range []string{"tgt", "pre"} {
				if p, ok := o.F[k].(VPtr); ok && (parents[p.O] || gbool(o, "bools")) {
					pin[p.O] = true
				}
			}
		}
	}
	for id, o := range st.Objs {
		if o.Typ == "slice" && pin[id] {
			for _, k := range []string{"tgt", "pre"} {
				if p, ok := o.F[k].(VPtr); ok && !pin[p.O] {
					delete(st.wr(id).F, k)
					delete(st.Objs[id].F, "last")
				}
			}
		}
	}
	if tp, ok := d.gv(st, bTree).(VPtr); ok {
		if r, ok := st.Objs[tp.O].F[n.tRoot].(VPtr); ok && !pin[r.O] {
			delete(st.wr(tp.O).F, n.tRoot)
		}
	}
	if kp, ok := d.gv(st, bKey).(VPtr); ok {
		if in, ok := st.Objs[kp.O].F["in"].(VPtr); ok && !pin[in.O] {
			delete(st.wr(kp.O).F, "in")
		}
		if sm, ok := st.Objs[kp.O].F["same"].(VPtr); ok && !pin[sm.O] {
			delete(st.wr(kp.O).F, "same")
		}
	}
	bools := false
	for id := range pin {
		if o := st.Objs[id]; o != nil && o.Typ == "slice" && (gbool(o, "bools") || o.F["tgt"] == nil) {
			bools = true
		}
	}
	hold := map[ObjID]bool{}
	for id := range pin {
		o := st.Objs[id]
		if o == nil || o.Typ != n.node || !(gbool(o, "$nr") || o.F["$path"] != nil) {
			continue
		}
		if p, ok := o.F[n.parent].(VPtr); ok && bools {
			hold[p.O] = true
			if p, ok := o.F["$path"].(VPtr); ok {
				hold[p.O] = true
			}
		} else {
			w := st.wr(id)
			for _, k := range []string{"$nr", "$path", "$ph", "$dir", "$next"} {
				delete(w.F, k)
			}
		}
	}
	for id := range hold {
		if o := st.Objs[id]; !pin[id] && o != nil && o.Typ == n.node && !gbool(o, n.leaf) && o.F[n.leaf] != nil {
			// its contents no longer matter
			w := st.wr(id)
			for _, k := range []string{n.kv, n.left, n.rootPS, "$kidsout", n.parent, "$adp", n.root, "$depth", "$idx", "$base", "$sl", "$sr", "$float", n.psIdx} {
				delete(w.F, k)
			}
			w.F["$shut"] = VBool{true}
			if !gbool(w, n.dirty) {
				delete(w.F, n.dirty)
				delete(w.F, "$wc")
				delete(w.F, "$cl")
			}
		}
		pin[id] = true
	}
	for id := range pin {
		o := st.Objs[id]
		if o == nil || o.Typ != n.node {
			continue
		}
		if p, ok := o.F["$path"].(VPtr); ok && !pin[p.O] {
			w := st.wr(id)
			for _, k := range []string{"$path", "$ph", "$dir", "$next"} {
				delete(w.F, k)
			}
			o = w
		}
		for _, k := range []string{n.parent, n.rootPS, n.psLeft, n.psRight, n.psParent, "$adp"} {
			if p, ok := o.F[k].(VPtr); ok && !pin[p.O] && (d.keepPS == nil || !d.keepPS(st, id, k)) {
				o = st.wr(id)
				delete(o.F, k)
				if k == n.psParent && bools {
					o.F["$nr"] = VBool{true}
				}
			}
		}
		if kv, ok := o.F[n.kv].(VPtr); ok {
			d.foldWord(K, st, kv.O, pin)
		}
	}
	d.prune(K, st)
}

// foldWord turns entries nothing refers to into segments and merges neighbours.
func (d *bt) foldWord(K *Kern, st *State, kv ObjID, pin map[ObjID]bool) {
	n := d.n
	w := d.word(st, kv)
	g := d.ord(st)
	type piece struct {
		v    Val
		kind string
		at   string
		own  Val
		n, t Lin
		ord  []Val // what stands for it in the order (nil: absent)
		seg  bool
		em   bool // stored already
	}
	var ps []piece
	changed := false
	for _, v := range w {
		p := v.(VPtr)
		o := st.Objs[p.O]
		if o.Typ == "seg" {
			x := piece{v, o.F["kind"].(VSym).S, o.F["at"].(VSym).S, o.F["own"], gint(o, "n"), gint(o, "t"), nil, !pin[p.O], gbool(o, "$em")}
			if posIn(g, v) >= 0 {
				x.ord = []Val{v}
			}
			ps = append(ps, x)
			continue
		}
		k, _ := o.F["k"].(VPtr)
		x := piece{v: v, em: gbool(o, "$em")}
		ok := !pin[p.O] && !pin[k.O]
		if c, isN := isNode(st, o.F["v"], n.node); isN {
			ok = ok && !pin[c]
			co := st.Objs[c]
			x.kind, x.at, x.own, x.n = "k", co.F["$at"].(VSym).S, co.F[n.parent], linC(1)
			it, hasI := co.F[n.items].(VInt)
			ok = ok && hasI
			x.t = it.L
			gc := d.contentsOf(st, c)
			x.ord = append([]Val{k}, gc...)
			if d.lossy != nil && !d.lossy(st, c) {
				ok = false
			}
		} else {
			x.kind, x.own, x.n, x.t, x.ord = "p", st.Objs[kv].F["own"], linC(1), linC(1), []Val{k}
			if vp, isP := o.F["v"].(VPtr); isP {
				ok = ok && !pin[vp.O]
			}
		}
		// all of its contents must stand together in the order
		for i, y := range x.ord {
			pi := posIn(g, y)
			if pi < 0 {
				if i == 0 {
					x.ord = nil
				} else {
					ok = false
				}
				break
			}
			if i > 0 && g[pi-1] != x.ord[i-1] {
				ok = false
			}
		}
		x.seg = ok
		if ok {
			s := VPtr{d.newSeg(K, st, x.kind, x.n, x.t, x.own, x.at), ""}
			if x.em {
				st.Objs[s.O].F["$em"] = VBool{true}
			}
			if x.ord != nil {
				for i, y := range x.ord {
					if i == 0 {
						g = replIn(g, y, s)
					} else {
						g = replIn(g, y)
					}
				}
				x.ord = []Val{s}
			}
			x.v = s
			changed = true
		}
		ps = append(ps, x)
	}
	var out []piece
	for _, x := range ps {
		if len(out) > 0 && x.seg {
			y := &out[len(out)-1]
			adj := (x.ord == nil) == (y.ord == nil)
			if adj && x.ord != nil && y.seg {
				adj = posIn(g, x.v) == posIn(g, y.v)+1
			}
			if y.seg && y.kind == x.kind && y.at == x.at && y.own == x.own && y.em == x.em && adj {
				s := VPtr{d.newSeg(K, st, x.kind, x.n.add(y.n), x.t.add(y.t), x.own, x.at), ""}
				if x.em {
					st.Objs[s.O].F["$em"] = VBool{true}
				}
				if x.ord != nil {
					g = replIn(replIn(g, y.v, s), x.v)
				}
				y.v, y.n, y.t = s, x.n.add(y.n), x.t.add(y.t)
				if y.ord != nil {
					y.ord = []Val{s}
				}
				changed = true
				continue
			}
		}
		out = append(out, x)
	}
	if !changed {
		return
	}
	var nw []Val
	for _, x := range out {
		nw = append(nw, x.v)
	}
	st.wr(kv).F["w"] = VTup{nw}
	d.setOrd(st, g)
}

// prune drops from the order what is no longer reachable.
func (d *bt) prune(K *Kern, st *State) {
	seen := map[ObjID]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		eachVal(v, func(w Val) {
			if p, ok := w.(VPtr); ok && !seen[p.O] && st.Objs[p.O] != nil {
				seen[p.O] = true
				for _, x := range st.Objs[p.O].F {
					visit(x)
				}
			}
		})
	}
	for i, f := range st.Frames {
		for _, v := range f.Env {
			visit(v)
		}
		for j, v := range f.Vals {
			if i == 0 && j == bOrd {
				continue
			}
			visit(v)
		}
		for _, df := range f.Defs {
			visit(df.fn)
			for _, a := range df.args {
				visit(a)
			}
		}
	}
	g := d.ord(st)
	var ng []Val
	for _, v := range g {
		if seen[v.(VPtr).O] {
			ng = append(ng, v)
		}
	}
	if len(ng) != len(g) {
		d.setOrd(st, ng)
	}
}

// Prune is called at every join.
func (d *bt) Prune(K *Kern, st *State) {
	d.settle(st)
	if !d.strict {
		d.prune(K, st)
	}
}

// settle advances what is known of changed nodes: once everything above a node is known to be
// marked changed, the node needs no further attention.
func (d *bt) settle(st *State) {
	n := d.n
	for again := true; again; {
		again = false
		for id, o := range st.Objs {
			if o.Typ != n.node || !gbool(o, n.dirty) || gbool(o, "$ad") {
				continue
			}
			if gbool(o, n.root) {
				if r, ok := o.F[n.root]; ok && r == Val(VBool{true}) {
					st.wr(id).F["$ad"] = VBool{true}
					again = true
				}
				continue
			}
			up, ok := o.F["$adp"].(VPtr)
			if !ok {
				up, ok = o.F[n.parent].(VPtr)
			}
			if !ok || st.Objs[up.O] == nil {
				continue
			}
			u := st.Objs[up.O]
			if !gbool(u, n.dirty) {
				continue
			}
			if gbool(u, "$ad") {
				w := st.wr(id)
				w.F["$ad"] = VBool{true}
				delete(w.F, "$adp")
				again = true
				continue
			}
			if r, ok := u.F[n.root].(VBool); ok && r.B {
				continue // next round
			}
			if x, ok := u.F["$adp"].(VPtr); ok {
				st.wr(id).F["$adp"] = x
				again = true
			} else if x, ok := u.F[n.parent].(VPtr); ok {
				st.wr(id).F["$adp"] = x
				again = true
			}
		}
	}
	c, _ := d.gv(st, bChanged).(VTup)
	var left []Val
	for _, v := range c.V {
		o := st.Objs[v.(VPtr).O]
		if gbool(o, n.dirty) && gbool(o, "$ad") {
			continue
		}
		left = append(left, v)
	}
	if len(left) != len(c.V) {
		d.ghost(st).Vals[bChanged] = VTup{left}
	}
}

// Facts worth keeping at a join if they hold on both sides: no segment is empty.
func (d *bt) Facts(st *State) []Lin {
	var out []Lin
	for _, id := range sortedObjs(st) {
		if o := st.Objs[id]; o.Typ == "seg" {
			out = append(out, gint(o, "n").addC(-1))
		}
	}
	if d.strict {
		mn, mx := gint(d.tree(st), d.n.tMin), gint(d.tree(st), d.n.tMax)
		for _, id := range sortedObjs(st) {
			if o := st.Objs[id]; o.Typ == "kv" {
				l := d.kvLen(st, id)
				out = append(out, l.sub(mn).addC(-1), l.sub(mn), mx.sub(l), mn.sub(l), mn.sub(l).addC(-1))
			}
		}
	}
	if e, ok := d.gv(st, bE).(VTup); ok && d.codec != nil && len(e.V) > 4 {
		left := e.V[3].(VInt).L.sub(e.V[4].(VInt).L)
		out = append(out, left, left.addC(-1))
	}
	return out
}

package main

import (
	"golang.org/x/tools/go/ssa"
)

// Restructuring: splitting a node that has become too full, and borrowing from or merging with a
// neighbour when it has become too empty.  Each function is judged by itself, one level of the
// tree at a time: the node, its parent and its neighbours are laid out with any contents, the
// recursive call for the level above is taken by contract, and its conditions are demanded of the
// caller.  What must come out is compared with what went in as sequences in key order.

const (
	gX   = bA // the node restructured
	gP   = bB // its parent
	gL   = bC // its left neighbour
	gR   = bD // its right neighbour
	gSep = bE // the separator handed to the level above
	gNew = bF // the node handed to the level above
)

func (d *bt) fails_(props []string, rule, f string, a ...interface{}) {
	for _, p := range props {
		d.fail(p, rule, f, a...)
	}
}

// sumOf: the item total a node ought to have.
func (d *bt) sumOf(st *State, id ObjID) (Lin, bool) {
	n := d.n
	o := st.Objs[id]
	kv, ok := o.F[n.kv].(VPtr)
	if !ok {
		return linC(0), false
	}
	sum := linC(0)
	child := func(v Val) bool {
		c, ok := isNode(st, v, n.node)
		if !ok {
			return false
		}
		i, ok := st.Objs[c].F[n.items].(VInt)
		sum = sum.add(i.L)
		return ok
	}
	if l, ok := o.F[n.left].(VPtr); ok && !child(l) {
		return sum, false
	}
	for _, v := range d.word(st, kv.O) {
		e := st.Objs[v.(VPtr).O]
		switch {
		case e.Typ == "seg":
			sum = sum.add(gint(e, "t"))
		case gbool(o, n.leaf):
			sum = sum.addC(1)
		case !child(e.F["v"]):
			return sum, false
		}
	}
	return sum, true
}

// stalePS: the running sums over the children of a node no longer match.
func (d *bt) stalePS(st *State, v Val) {
	if p, ok := v.(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].F["$ps"] != nil {
		st.wr(p.O).F["$ps"] = VBool{false}
	}
}

// arranged: what arranging the running sums of a node means.
func (d *bt) arranged(K *Kern, st *State, id ObjID, at ssa.Instruction) bool {
	n := d.n
	o := st.Objs[id]
	if gbool(o, "$shut") {
		st.wr(id).F["$ps"] = VBool{true}
		return true
	}
	if _, ok := o.F[n.kv].(VPtr); !ok {
		K.undecided(at, "running sums of a node of unknown contents")
	}
	if _, ok := o.F[n.left].(VPtr); !ok {
		d.Deref(K, st, VNil{}, at)
		return false
	}
	sum, ok := d.sumOf(st, id)
	if !ok {
		K.undecided(at, "running sums of a node of unknown contents")
	}
	if it, ok := o.F[n.items].(VInt); !ok || !st.Cons.entailsEQ(it.L.sub(sum)) {
		d.stalePS(st, o.F[n.parent])
	}
	w := st.wr(id)
	delete(w.F, n.rootPS)
	w.F[n.items], w.F["$ps"] = VInt{sum}, VBool{true}
	return true
}

func (d *bt) restrContracts() {
	n := d.n
	node := func(f func(K *Kern, st *State, id ObjID, at ssa.Instruction) bool) contract {
		return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
			id, ok := d.nodeArg(K, st, args, at)
			if !ok || !f(K, st, id, at) {
				return []R{}
			}
			var res Val
			if fn.Signature.Results().Len() > 0 {
				res = VNil{}
			}
			return one(st, res)
		}
	}
	dirtyUp := func(st *State, v Val) {
		for i := 0; i < 20; i++ {
			p, ok := v.(VPtr)
			if !ok || st.Objs[p.O] == nil {
				return
			}
			w := st.wr(p.O)
			w.F[n.dirty], w.F["$ad"] = VBool{true}, VBool{true}
			v = w.F[n.parent]
		}
	}
	d.contracts["arrangePrefixSumTree"] = node(d.arranged)
	d.contracts["rearrangePrefixSumTreeToRoot"] = node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) bool {
		for {
			if !d.arranged(K, st, id, at) {
				return false
			}
			p, ok := st.Objs[id].F[n.parent].(VPtr)
			if !ok || st.Objs[p.O] == nil || gbool(st.Objs[id], n.root) {
				break
			}
			id = p.O
		}
		dirtyUp(st, VPtr{id, ""})
		return true
	})
	d.contracts["updatePrefixSumTreeLeafToRoot"] = node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) bool {
		kv, ok := st.Objs[id].F[n.kv].(VPtr)
		if it, isInt := st.Objs[id].F[n.items].(VInt); ok && isInt && st.Cons.entailsEQ(it.L.sub(d.kvLen(st, kv.O))) {
			return true // no difference: nothing is marked
		}
		if !ok {
			K.undecided(at, "totals updated from a node of unknown contents")
		}
		if !gbool(st.Objs[id], n.leaf) {
			return true // refused
		}
		w := st.wr(id)
		w.F[n.items] = VInt{d.kvLen(st, kv.O)}
		dirtyUp(st, VPtr{id, ""})
		return true
	})
}

// restrStored: writes that make stored images or running sums out of date.
func (d *bt) restrStored(st *State, id ObjID, path string, v Val) {
	n := d.n
	o := st.Objs[id]
	switch path {
	case n.items:
		d.stalePS(st, o.F[n.parent])
	case n.left:
		if gbool(o, "$old") {
			d.stalePS(st, VPtr{id, ""})
			d.changed(st, VPtr{id, ""})
			st.Flags["mut"] = "1"
		} else if _, ok := v.(VPtr); ok {
			st.wr(id).F["$ps"] = VBool{false}
		}
	case n.kv:
		if _, ok := o.F["$ps"]; !ok && o.F[n.leaf] == Val(VBool{false}) {
			st.wr(id).F["$ps"] = VBool{false}
		}
	case n.root, n.leaf:
		if gbool(o, "$old") && o.F[path] != v {
			d.changed(st, VPtr{id, ""})
		}
	}
}

type flatIt struct {
	v   Val
	sep bool
}

// flat: everything below a node in order.
func (d *bt) flat(K *Kern, st *State, id ObjID, seen map[ObjID]bool, bad func(props []string, rule, f string)) []flatIt {
	n := d.n
	o := st.Objs[id]
	self := VPtr{id, ""}
	if seen[id] {
		bad([]string{"C05", "C06"}, "a node has one place in the tree", "%s may leave a node in two places of the tree")
		return nil
	}
	seen[id] = true
	kv, ok := o.F[n.kv].(VPtr)
	if !ok {
		return []flatIt{{self, false}}
	}
	if st.Objs[kv.O] == nil || st.Objs[kv.O].Typ != "kv" {
		K.undecided(nil, "contents of a node are unknown")
	}
	leaf, known := o.F[n.leaf].(VBool)
	if !known {
		K.undecided(nil, "kind of a node is unknown")
	}
	if o.F[n.loaded] != Val(VBool{true}) {
		bad([]string{"C08", "C05"}, "a new node is resident", "%s may leave a node with contents marked as not resident")
	}
	if o.F[n.treeF] != d.gv(st, bTree) {
		bad([]string{"C13", "C17"}, "a node belongs to its tree", "%s may leave a node that does not refer to its tree")
	}
	var out []flatIt
	child := func(v Val) {
		c, ok := isNode(st, v, n.node)
		if !ok {
			bad([]string{"C05", "C07"}, "levels are kept apart", "%s may put a pair where a node belongs, or a node where a pair belongs")
			return
		}
		co := st.Objs[c]
		if co.F[n.parent] != Val(self) {
			bad([]string{"C06", "C09", "C22"}, "a child refers to its parent", "%s may leave a child that refers to another node than its parent")
		}
		if gbool(co, n.root) {
			bad([]string{"C05", "C09"}, "only the root is the root", "%s may leave a node below the root marked as the root")
		}
		out = append(out, d.flat(K, st, c, seen, bad)...)
	}
	if !leaf.B {
		if l, ok := o.F[n.left].(VPtr); ok {
			child(l)
		} else {
			bad([]string{"C05", "C07"}, "an inner node has a leftmost child", "%s may leave an inner node without a leftmost child")
		}
	} else if _, ok := o.F[n.left].(VPtr); ok {
		bad([]string{"C05", "C07"}, "levels are kept apart", "%s may leave a leaf with a child")
	}
	for _, v := range d.word(st, kv.O) {
		p := v.(VPtr)
		e := st.Objs[p.O]
		if e.Typ == "seg" {
			if (e.F["kind"] == Val(VSym{"p"})) != leaf.B {
				bad([]string{"C05", "C07"}, "levels are kept apart", "%s may put a pair where a node belongs, or a node where a pair belongs")
			} else if !leaf.B && e.F["own"] != Val(self) {
				bad([]string{"C06", "C09", "C22"}, "a child refers to its parent", "%s may leave a child that refers to another node than its parent")
			}
			out = append(out, flatIt{v, false})
			continue
		}
		if leaf.B {
			k, _ := d.asKey(st, e.F["k"])
			okv := false
			if Val(k) == d.gv(st, bKey) {
				okv = e.F["v"] == Val(VSym{"new value"})
			} else if vp, ok := e.F["v"].(VPtr); ok && st.Objs[vp.O] != nil && st.Objs[vp.O].Typ == "val" {
				okv = st.Objs[vp.O].F["k"] == Val(k)
			}
			if !okv {
				bad([]string{"C05"}, "a pair keeps its value", "%s may leave a key with another value than it had")
			}
			out = append(out, flatIt{e.F["k"], false})
			continue
		}
		out = append(out, flatIt{e.F["k"], true})
		child(e.F["v"])
	}
	return out
}

// content: does a piece of the key order stand for contents?
func (d *bt) content(st *State, v Val) bool {
	o := st.Objs[v.(VPtr).O]
	return o == nil || o.Typ != "key" || gbool(o, "c")
}

// judge compares the structure under the given nodes (separated as told) with the key order.
func (d *bt) judge(K *Kern, st *State, name, when string, tops []ObjID, sep Val, extra func(id ObjID) bool) map[ObjID]bool {
	n := d.n
	seen := map[ObjID]bool{}
	said := false
	bad := func(props []string, rule, f string) {
		said = true
		d.fails_(props, rule, f+"%s%s", name, when, trOf(st))
	}
	var fl []flatIt
	for i, t := range tops {
		if i > 0 {
			fl = append(fl, flatIt{sep, true})
		}
		fl = append(fl, d.flat(K, st, t, seen, bad)...)
	}
	if said {
		return seen
	}
	var want []Val
	for _, v := range d.ord(st) {
		if d.content(st, v) {
			want = append(want, v)
		}
	}
	var have []Val
	for _, f := range fl {
		if !f.sep {
			have = append(have, f.v)
		}
	}
	same := len(want) == len(have)
	for i := range want {
		same = same && want[i] == have[i]
	}
	if !same {
		bad([]string{"C05", "C06"}, "nothing is lost, added, moved or repeated", "%s may lose, repeat or reorder part of the contents")
		return seen
	}
	last := -1
	for i, f := range fl {
		p := posIn(d.ord(st), f.v)
		if !f.sep {
			last = p
			continue
		}
		next := len(d.ord(st))
		for _, g := range fl[i+1:] {
			if !g.sep {
				next = posIn(d.ord(st), g.v)
				break
			}
		}
		if p < 0 || p <= last || p > next {
			bad([]string{"C05"}, "separators separate", "%s may leave a separator that does not separate the keys on its two sides")
			return seen
		}
	}
	root, _ := d.tree(st).F[n.tRoot].(VPtr)
	mx, mn := gint(d.tree(st), n.tMax), gint(d.tree(st), n.tMin)
	for _, id := range sortedObjs(st) {
		o := st.Objs[id]
		if !seen[id] {
			continue
		}
		kv, ok := o.F[n.kv].(VPtr)
		if !ok {
			continue
		}
		leaf, isRoot := gbool(o, n.leaf), gbool(o, n.root)
		if _, ok := d.tree(st).F[n.tRoot]; ok && (root.O == id) != isRoot {
			bad([]string{"C05", "C09"}, "only the root is the root", "%s may leave the root unmarked or another node marked as the root")
		}
		if isRoot {
			if _, ok := o.F[n.parent].(VPtr); ok {
				bad([]string{"C06", "C22"}, "the root has no parent", "%s may leave a root that refers to a parent")
			}
		}
		if extra == nil || extra(id) {
			ln := d.kvLen(st, kv.O)
			if !st.Cons.entailsGE(mx.sub(ln)) {
				bad([]string{"C07", "C22"}, "no node is too full", "%s may leave a node with more than the maximum number of keys")
			}
			low := mn
			if isRoot {
				low = linC(1)
				if leaf {
					low = linC(0)
				}
			}
			if !st.Cons.entailsGE(ln.sub(low)) {
				bad([]string{"C07", "C22"}, "no node is too empty", "%s may leave a node with less than the minimum number of keys")
			}
			if sum, ok := d.sumOf(st, id); !ok {
				K.undecided(nil, "item total unknown")
			} else if it, ok := o.F[n.items].(VInt); !ok || !st.Cons.entailsEQ(it.L.sub(sum)) {
				bad([]string{"C06", "C22"}, "item totals are exact", "%s may leave a node with a wrong item total")
			}
			if !leaf && !gbool(o, "$ps") {
				bad([]string{"C06", "C22"}, "running sums follow every change below a node", "%s may leave the running sums over the children of a changed node as they were")
			}
		}
	}
	return seen
}

// shutNode: a node nothing is known about but its place.
func (d *bt) shutNode(K *Kern, st *State, adirty bool) ObjID {
	n := d.n
	f := map[string]Val{n.loaded: VBool{true}, n.leaf: VBool{false}, n.treeF: d.gv(st, bTree), "$at": VSym{""}, "$shut": VBool{true}, "$ps": VBool{true}, "$old": VBool{true}}
	if adirty {
		f[n.dirty], f["$ad"] = VBool{true}, VBool{true}
	}
	return K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: f})
}

// fill gives a node contents: count keys, of which those in the gap below (if any) are laid out by
// the caller.
func (d *bt) mkNode(K *Kern, st *State, leaf bool, parent Val) ObjID {
	n := d.n
	f := map[string]Val{n.loaded: VBool{true}, n.leaf: VBool{leaf}, n.root: VBool{false}, n.parent: parent, n.treeF: d.gv(st, bTree), "$at": VSym{""}, n.rootPS: VNil{}, n.left: VNil{}, "$old": VBool{true}}
	if !leaf {
		f["$ps"] = VBool{true}
	}
	id := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: f})
	kv := K.newObj(st, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"w": VTup{}, "own": VPtr{id, ""}}})
	st.Objs[id].F[n.kv] = VPtr{kv, ""}
	return id
}

// setWord fills a node and returns what it contributes to the key order.
func (d *bt) setWord(st *State, id ObjID, left Val, w []Val) []Val {
	n := d.n
	o := st.wr(id)
	o.F[n.left] = left
	kv := o.F[n.kv].(VPtr)
	st.wr(kv.O).F["w"] = VTup{w}
	sum, _ := d.sumOf(st, id)
	o.F[n.items] = VInt{sum}
	return d.contentsOf(st, id)
}

func (d *bt) segOf(K *Kern, st *State, leaf bool, own ObjID) (VPtr, Lin) {
	c := linV(K.newVar())
	st.Cons.addGE(c.addC(-1))
	if leaf {
		return VPtr{d.newSeg(K, st, "p", c, c, VNil{}, ""), ""}, c
	}
	t := linV(K.newVar())
	st.Cons.addGE(t.sub(c))
	return VPtr{d.newSeg(K, st, "k", c, t, VPtr{own, ""}, ""), ""}, c
}

func (d *bt) childOf(K *Kern, st *State, own ObjID) VPtr {
	it := linV(K.newVar())
	st.Cons.addGE(it.addC(-1))
	return VPtr{d.newChild(K, st, VPtr{own, ""}, "", it), ""}
}

// plain fills a node with one run of entries and returns its length.
func (d *bt) plain(K *Kern, st *State, id ObjID, leaf bool) ([]Val, Lin) {
	var left Val = VNil{}
	if !leaf {
		left = d.childOf(K, st, id)
	}
	s, c := d.segOf(K, st, leaf, id)
	return d.setWord(st, id, left, []Val{s}), c
}

func (d *bt) restrHook(name string) {
	d.hook = func(K *Kern, st *State, ev string, a ...Val) {
		switch ev {
		case "hit", "miss":
			d.counted(K, st, ev)
		case "discard":
			p := a[0].(VPtr)
			if gbool(st.Objs[p.O], "$disc") {
				d.fails_([]string{"C12", "C13"}, "a dropped node is given up once", "%s may give up a node twice%s", name, trOf(st))
			}
			st.wr(p.O).F["$disc"] = VBool{true}
		case "dirty":
			p := a[0].(VPtr)
			if gbool(st.Objs[p.O], "$disc") {
				d.fails_([]string{"C12", "C13"}, "a node given up is not taken up again", "%s may mark a node as changed after giving it up%s", name, trOf(st))
			}
		case "loadfail":
			if st.Flags["mut"] != "" || st.Flags["pre"] != "" {
				d.fail("C19", "what rebalancing needs is loaded before the first change", "%s may have to load a node although contents were already changed%s", name, trOf(st))
			}
		case "unload", "post":
			d.fail("C15", "restructuring releases nothing", "%s may release or store a node%s", name, trOf(st))
		}
	}
}

// given up exactly when no longer part of the tree
func (d *bt) judgeDropped(st *State, name string, seen map[ObjID]bool, ids ...Val) {
	for _, v := range ids {
		p, ok := v.(VPtr)
		if !ok || st.Objs[p.O] == nil || gbool(st.Objs[p.O], "$gone") {
			continue
		}
		disc := gbool(st.Objs[p.O], "$disc")
		if seen[p.O] && disc {
			d.fails_([]string{"C11", "C12", "C13"}, "a node in use is not given up", "%s may give up a node that is still part of the tree%s", name, trOf(st))
		}
		if !seen[p.O] && !disc {
			d.fails_([]string{"C12", "C13"}, "a node dropped from the tree is given up", "%s may drop a node from the tree without giving it up%s", name, trOf(st))
		}
	}
}

// bogus: a changed node made up with the location of a copy that was never written.
func (d *bt) bogus(st *State, id ObjID) {
	n := d.n
	o := st.Objs[id]
	if !gbool(o, n.dirty) || gbool(o, "$old") {
		return
	}
	for _, f := range []string{n.num, n.off, n.length} {
		if c, ok := cstOf(st, o.F[f]); ok && c != 0 {
			d.fails_([]string{"C11", "C12"}, "a new node has no stored copy", "%s may make a node with the location of a stored copy it does not have%s", fnName(d.fn), trOf(st))
			return
		}
	}
}

func (d *bt) judgeDirty(st *State, name string) {
	n := d.n
	for _, id := range sortedObjs(st) {
		if st.Objs[id].Typ == n.node {
			d.bogus(st, id)
		}
	}
	d.settle(st)
	c, _ := d.gv(st, bChanged).(VTup)
	for _, v := range c.V {
		o := st.Objs[v.(VPtr).O]
		if gbool(o, "$disc") || gbool(o, "$gone") {
			continue
		}
		if !gbool(o, n.dirty) {
			d.fail("C09", "a changed node is marked changed", "%s may leave a changed node not marked as changed%s", name, trOf(st))
		} else {
			d.fail("C09", "everything above a changed node is marked changed", "%s may leave a node above a changed one not marked as changed%s", name, trOf(st))
		}
	}
}

// errKind: 0 success, 1 failure, -1 unknown.
func errKind(v Val) int {
	switch v.(type) {
	case VErr, VSym:
		return 1
	case VNil:
		return 0
	}
	return -1
}

func (d *bt) failedExit(st *State, name string) {
	if st.Flags["failed"] != "" {
		if st.Flags["mut"] != "" || st.Flags["pre"] != "" {
			d.fail("C19", "a failed operation changes nothing", "%s may fail after contents were changed (%s)%s", name, st.Flags["failed"], trOf(st))
		}
		return
	}
	d.fails_([]string{"C05", "C19"}, "no failure without cause", "%s may fail although no callback did%s", name, trOf(st))
}

func (n *btNames) newRestr(P *Prog, fn *ssa.Function) *bt {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, strict: true, free: true, counting: true}
	d.contracts = d.baseContracts()
	d.restrContracts()
	d.restrHook(fnName(fn))
	return d
}

// --- rebalancing ----------------------------------------------------------------

func (n *btNames) runRebalance(P *Prog, fn *ssa.Function) btRun {
	d := n.newRestr(P, fn)
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 60000
	exits := 0
	d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
		id, ok := d.nodeArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		if d.gv(st, gP) != Val(VPtr{id, ""}) {
			d.fail("C07", "the level above is rebalanced", "%s may go on with another node than the parent%s", name, trOf(st))
			return []R{}
		}
		if st.Flags["up"] != "" {
			K.undecided(at, "the level above is rebalanced twice")
		}
		st.Flags["up"] = "1"
		p, ok := args[len(args)-1].(VPtr)
		if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "slice" || st.Objs[p.O].F["tgt"] == nil {
			K.undecided(at, "unknown path")
		}
		if !d.pathTo(st, p.O, id) {
			d.fail("C05", "the path passed on leads to the parent", "%s may go on with another path than that of the parent%s", name, trOf(st))
			return []R{}
		}
		mn := gint(d.tree(st), n.tMin)
		d.judge(K, st, name, " before the level above is rebalanced", []ObjID{id}, nil, func(x ObjID) bool { return x != id })
		o := st.Objs[id]
		kv := o.F[n.kv].(VPtr)
		ln := d.kvLen(st, kv.O)
		low := mn.addC(-1)
		if gbool(o, n.root) {
			low = linC(1)
		}
		if !st.Cons.entailsGE(ln.sub(low)) {
			d.fail("C07", "no node is too empty", "%s may leave the parent with too few keys for one step of rebalancing%s", name, trOf(st))
		}
		if sum, ok := d.sumOf(st, id); ok {
			if it, ok := o.F[n.items].(VInt); !ok || !st.Cons.entailsEQ(it.L.sub(sum)) || !gbool(o, "$ps") {
				d.fails_([]string{"C06", "C22"}, "totals are exact before the level above is rebalanced", "%s may go on with the level above before the parent's totals were brought up to date%s", name, trOf(st))
			}
		}
		out := one(st, VNil{})
		t := st.clone()
		if !gbool(o, n.root) && t.assumeGE(mn.sub(ln).addC(-1)) {
			// the parent's children have moved to a neighbour of it
			q := d.mkNode(K, t, false, t.Objs[id].F[n.parent])
			qv := VPtr{q, ""}
			l := t.Objs[id].F[n.left]
			w := d.word(t, kv.O)
			for _, x := range sortedObjs(t) {
				xo := t.Objs[x]
				if xo.Typ == n.node && xo.F[n.parent] == Val(VPtr{id, ""}) {
					t.wr(x).F[n.parent] = qv
				}
				if xo.Typ == "seg" && xo.F["own"] == Val(VPtr{id, ""}) {
					t.wr(x).F["own"] = qv
				}
			}
			d.setWord(t, q, l, w)
			qo := t.wr(q)
			qo.F[n.dirty], qo.F["$ad"], qo.F["$any"] = VBool{true}, VBool{true}, VBool{true}
			po := t.wr(id)
			for _, k := range []string{n.kv, n.left, n.rootPS, n.items, "$ps"} {
				delete(po.F, k)
			}
			po.F["$shut"], po.F["$gone"] = VBool{true}, VBool{true}
			d.ghost(t).Vals[gNew] = qv
			out = append(out, R{t, VNil{}})
		}
		st.wr(id).F["$any"] = VBool{true}
		return out
	}
	und := d.execute(K, func() {
		exits = 0
		run := func(st *State, args []Val) {
			if !st.Cons.feasible() {
				return
			}
			st.Flags["pre"] = "1"
			for _, x := range K.execFn(fn, args, nil, st) {
				s := x.st
				if !s.Cons.feasible() {
					continue
				}
				exits++
				switch errKind(x.res[0]) {
				case 1:
					d.failedExit(s, name)
					continue
				case -1:
					K.undecided(nil, "unknown result of %s", name)
				}
				var top Val = d.gv(s, gP)
				if q, ok := d.gv(s, gNew).(VPtr); ok {
					top = q
				}
				p, isP := top.(VPtr)
				if r, ok := d.tree(s).F[n.tRoot].(VPtr); ok {
					p, isP = r, true
				}
				if !isP {
					p = d.gv(s, gX).(VPtr)
				}
				seen := d.judge(K, s, name, "", []ObjID{p.O}, nil, func(id ObjID) bool { return !gbool(s.Objs[id], "$any") })
				d.visitEnd(s, name)
				d.lruEnd(s, name)
				d.judgeDropped(s, name, seen, d.gv(s, gX), d.gv(s, gL), d.gv(s, gR), d.gv(s, gP))
				d.judgeDirty(s, name)
			}
		}
		for _, leaf := range []bool{true, false} {
			// the root is left alone
			st, t := d.start(K, true)
			x := d.mkNode(K, st, leaf, VNil{})
			st.Objs[x].F[n.root] = VBool{true}
			st.Objs[t].F[n.tRoot] = VPtr{x, ""}
			ord, ln := d.plain(K, st, x, leaf)
			st.Cons.addGE(gint(d.tree(st), n.tMax).sub(ln))
			d.setOrd(st, ord)
			st.Frames[0].Vals[gX] = VPtr{x, ""}
			sl := K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": VInt{linC(0)}, "tgt": VSym{"root"}}})
			run(st, []Val{VPtr{t, ""}, VPtr{x, ""}, VPtr{sl, ""}})
			for c := 0; c < 4*3*2*5; c++ {
				left, right, proot, size := c%4, c/4%3, c/12%2 == 1, c/24
				if left == 0 && right == 0 {
					continue
				}
				if size > 0 && left == 0 && size != 3 && size != 4 || size > 0 && left > 0 && right == 0 && size > 2 {
					continue
				}
				d.rebalanceCase(K, leaf, proot, left, right, size, run)
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// rebalanceCase lays out a node, its parent and neighbours.
// left: 0 the node is the leftmost child, 1 its neighbour is, 2 it is the second entry, 3 a later one.
// right: 0 none, 1 last, 2 more follow.  size: 0 the node is full enough; otherwise it lacks a key and
// 1 the left neighbour can spare one, 2 it cannot and there is no right one, 3 the right one can, 4 neither.
func (d *bt) rebalanceCase(K *Kern, leaf, proot bool, left, right, size int, run func(*State, []Val)) {
	n := d.n
	st, t := d.start(K, true)
	g := st.Frames[0]
	mx, mn := gint(st.Objs[t], n.tMax), gint(st.Objs[t], n.tMin)
	var pp Val = VNil{}
	if !proot {
		pp = VPtr{d.shutNode(K, st, true), ""}
	}
	p := d.mkNode(K, st, false, pp)
	st.Objs[p].F[n.root] = VBool{proot}
	st.Objs[p].F[n.dirty], st.Objs[p].F["$ad"] = VBool{true}, VBool{true}
	if proot {
		st.Objs[t].F[n.tRoot] = VPtr{p, ""}
	}
	x := d.mkNode(K, st, leaf, VPtr{p, ""})
	st.Objs[x].F[n.dirty], st.Objs[x].F["$ad"] = VBool{true}, VBool{true}
	_, xl := d.plain(K, st, x, leaf)
	var w []Val
	var lc Val = VPtr{x, ""}
	idx := linC(-1)
	entry := func(v Val) { w = append(w, d.newEnt(K, st, d.newKey(K, st, false), v)) }
	if left > 0 {
		l := d.mkNode(K, st, leaf, VPtr{p, ""})
		g.Vals[gL] = VPtr{l, ""}
		_, ll := d.plain(K, st, l, leaf)
		st.Cons.addGE(mx.sub(ll))
		switch size {
		case 0:
			st.Cons.addGE(ll.sub(mn))
		case 1:
			st.Cons.addGE(ll.sub(mn).addC(-1))
		default:
			st.Cons.addEq(ll.sub(mn))
		}
		idx = linC(0)
		lc = VPtr{l, ""}
		if left > 1 {
			lc = d.childOf(K, st, p)
			if left > 2 {
				s, c := d.segOf(K, st, false, p)
				w = append(w, s)
				idx = idx.add(c)
			}
			idx = idx.addC(1)
			entry(VPtr{l, ""})
		}
		entry(VPtr{x, ""})
	}
	st.Objs[x].F["$idx"] = VInt{idx}
	if right > 0 {
		r := d.mkNode(K, st, leaf, VPtr{p, ""})
		g.Vals[gR] = VPtr{r, ""}
		_, rl := d.plain(K, st, r, leaf)
		st.Cons.addGE(mx.sub(rl))
		st.Cons.addGE(rl.sub(mn))
		switch size {
		case 3:
			st.Cons.addGE(rl.sub(mn).addC(-1))
		case 2, 4:
			st.Cons.addEq(rl.sub(mn))
		case 0, 1:
			// not needed, so it may be absent
			o := st.Objs[r]
			for _, k := range []string{n.loaded, n.leaf, n.kv, n.left, n.rootPS, "$ps"} {
				delete(o.F, k)
			}
			it := linV(K.newVar())
			st.Cons.addGE(it.addC(-1))
			o.F[n.items] = VInt{it}
		}
		entry(VPtr{r, ""})
		if right > 1 {
			s, _ := d.segOf(K, st, false, p)
			w = append(w, s)
		}
	}
	if size == 0 {
		st.Cons.addGE(mx.sub(xl))
		st.Cons.addGE(xl.sub(mn))
	} else {
		st.Cons.addEq(xl.sub(mn).addC(1))
	}
	st.Frames[0].Vals[gX], st.Frames[0].Vals[gP] = VPtr{x, ""}, VPtr{p, ""}
	ord := d.setWord(st, p, lc, w)
	d.setOrd(st, ord)
	pl := d.kvLen(st, st.Objs[p].F[n.kv].(VPtr).O)
	st.Cons.addGE(mx.sub(pl))
	if !proot {
		st.Cons.addGE(pl.sub(mn))
	}
	sl := linV(K.newVar())
	st.Cons.addGE(sl.addC(-1))
	path := K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": VInt{sl}, "tgt": VPtr{x, ""}}})
	run(st, []Val{VPtr{t, ""}, VPtr{x, ""}, VPtr{path, ""}})
}

// --- insertion and splitting --------------------------------------------------------

func (n *btNames) runInsert(P *Prog, fn *ssa.Function) btRun {
	d := n.newRestr(P, fn)
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 60000
	exits, given := 0, ""
	d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
		id, ok := d.nodeArg(K, st, args[:2], at)
		if !ok {
			return []R{}
		}
		x := d.gv(st, gX).(VPtr)
		if st.Objs[x.O].F[n.parent] != Val(VPtr{id, ""}) || d.gv(st, gP) != Val(VPtr{id, ""}) {
			d.fails_([]string{"C05", "C07"}, "the new node is put beside the one split", "%s may put the new node under another node than the parent of the one split%s", name, trOf(st))
			return []R{}
		}
		k, isK := d.asKey(st, args[2])
		r, isN := isNode(st, args[3], n.node)
		if !isK || !isN {
			K.undecided(at, "an unknown pair is put in the parent")
		}
		if st.Flags["up"] != "" {
			d.fails_([]string{"C05", "C07"}, "the new node is put in the tree once", "%s may put the new node in the tree twice%s", name, trOf(st))
			return []R{}
		}
		st.Flags["up"] = "1"
		if st.Objs[r].F[n.parent] != Val(VPtr{id, ""}) {
			d.fails_([]string{"C06", "C09", "C22"}, "a child refers to its parent", "%s may leave a new node that refers to another node than its parent%s", name, trOf(st))
			return []R{}
		}
		if !gbool(st.Objs[id], n.dirty) || !gbool(st.Objs[id], "$ad") {
			given = "the parent need not be marked at " + K.P.instrPos(at)
		}
		g := d.ghost(st)
		g.Vals[gSep], g.Vals[gNew] = k, VPtr{r, ""}
		d.judge(K, st, name, " when the new node is put in the parent", []ObjID{x.O, r}, k, nil)
		st.Flags["mut"] = "1"
		var out []R
		// the parent has room
		a := st.clone()
		a.wr(id).F["$ps"] = VBool{false}
		out = append(out, R{a, VNil{}})
		// the parent was split
		for c := 0; c < 3; c++ {
			b := st.clone()
			q := VPtr{d.shutNode(K, b, true), ""}
			if c < 2 {
				b.wr(r).F[n.parent] = q
			}
			if c > 0 {
				b.wr(x.O).F[n.parent] = q
			}
			if c == 2 {
				b.wr(r).F[n.parent] = q
			}
			out = append(out, R{b, VNil{}})
		}
		return out
	}
	und := d.execute(K, func() {
		exits, given = 0, ""
		run := func(st *State, args []Val) {
			if !st.Cons.feasible() {
				return
			}
			for _, x := range K.execFn(fn, args, nil, st) {
				s := x.st
				if !s.Cons.feasible() {
					continue
				}
				exits++
				switch errKind(x.res[0]) {
				case 1:
					d.failedExit(s, name)
					continue
				case -1:
					K.undecided(nil, "unknown result of %s", name)
				}
				tops := []ObjID{d.gv(s, gX).(VPtr).O}
				if r, ok := d.tree(s).F[n.tRoot].(VPtr); ok {
					tops[0] = r.O
				} else if r, ok := d.gv(s, gNew).(VPtr); ok {
					tops = append(tops, r.O)
				}
				// an inner node that took the new entry without being split is arranged by the caller
				if x0 := d.gv(s, gX).(VPtr); d.gv(s, gSep) == Val(VNil{}) && tops[0] == x0.O && !gbool(s.Objs[x0.O], n.leaf) {
					s.wr(x0.O).F["$ps"] = VBool{true}
				}
				seen := d.judge(K, s, name, "", tops, d.gv(s, gSep), nil)
				xo := s.Objs[d.gv(s, gX).(VPtr).O]
				if up, ok := xo.F[n.parent].(VPtr); ok && gbool(s.Objs[up.O], "$shut") && s.Objs[up.O].F["$ps"] == Val(VBool{false}) {
					d.fails_([]string{"C06", "C22"}, "running sums follow every change below a node", "%s may leave the running sums over the children of a changed node as they were%s", name, trOf(s))
				}
				d.visitEnd(s, name)
				d.lruEnd(s, name)
				d.judgeDropped(s, name, seen, d.gv(s, gX), d.gv(s, gNew))
				d.judgeDirty(s, name)
			}
		}
		for c := 0; c < 4*2; c++ { // leaf
			d.insertLeaf(K, c&1 != 0, c&2 != 0, c&4 != 0, run)
		}
		for c := 0; c < 4*2; c++ {
			before, after, root := c&3, c&4 != 0, false
			for r := 0; r < 2; r++ {
				root = r == 1
				d.insertInner(K, before, after, root, run)
			}
		}
		if given != "" && len(d.bad) == 0 {
			K.undecided(nil, "%s", given)
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

func (d *bt) insertTop(K *Kern, leaf, root bool) (*State, ObjID, ObjID) {
	n := d.n
	st, t := d.start(K, true)
	var pp Val = VNil{}
	if !root {
		pp = VPtr{d.shutNode(K, st, !leaf), ""}
	}
	x := d.mkNode(K, st, leaf, pp)
	st.Objs[x].F[n.root] = VBool{root}
	if root {
		st.Objs[t].F[n.tRoot] = VPtr{x, ""}
	}
	if !leaf {
		st.Objs[x].F[n.dirty], st.Objs[x].F["$ad"] = VBool{true}, VBool{true}
	}
	g := st.Frames[0]
	g.Vals[gX], g.Vals[gP] = VPtr{x, ""}, pp
	return st, t, x
}

func (d *bt) insertLeaf(K *Kern, before, after, root bool, run func(*State, []Val)) {
	n := d.n
	st, t, x := d.insertTop(K, true, root)
	k := d.newKey(K, st, true)
	st.Frames[0].Vals[bKey] = k
	var w, ord []Val
	ln := linC(0)
	if before {
		s, c := d.segOf(K, st, true, x)
		w, ord, ln = append(w, s), append(ord, s), ln.add(c)
	}
	ord = append(ord, k)
	if after {
		s, c := d.segOf(K, st, true, x)
		w, ord, ln = append(w, s), append(ord, s), ln.add(c)
	}
	d.setWord(st, x, VNil{}, w)
	d.setOrd(st, ord)
	st.Cons.addGE(gint(d.tree(st), n.tMax).sub(ln))
	if !root {
		st.Cons.addGE(ln.sub(gint(d.tree(st), n.tMin)))
	}
	run(st, []Val{VPtr{t, ""}, VPtr{x, ""}, k, VSym{"new value"}})
}

// insertInner: a child of the node was split; the new one and its separator come in.
// before: 0 the child split is the leftmost, 1 the first entry, 2 a later one.
func (d *bt) insertInner(K *Kern, before int, after, root bool, run func(*State, []Val)) {
	if before == 3 {
		return
	}
	n := d.n
	st, t, x := d.insertTop(K, false, root)
	lc := d.childOf(K, st, x)
	ord := []Val{lc}
	var w []Val
	ln := linC(0)
	if before > 1 {
		s, c := d.segOf(K, st, false, x)
		w, ord, ln = append(w, s), append(ord, s), ln.add(c)
	}
	if before > 0 {
		k, c := d.newKey(K, st, false), d.childOf(K, st, x)
		w, ord, ln = append(w, d.newEnt(K, st, k, c)), append(ord, k, c), ln.addC(1)
	}
	sep, nw := d.newKey(K, st, false), d.childOf(K, st, x)
	ord = append(ord, sep, nw)
	if after {
		s, c := d.segOf(K, st, false, x)
		w, ord, ln = append(w, s), append(ord, s), ln.add(c)
	}
	if len(w) == 0 {
		return
	}
	d.setWord(st, x, lc, w)
	o := st.wr(x)
	o.F[n.items] = VInt{o.F[n.items].(VInt).L.add(gint(st.Objs[nw.O], n.items))}
	o.F["$ps"] = VBool{false}
	d.setOrd(st, ord)
	st.Cons.addGE(gint(d.tree(st), n.tMax).sub(ln))
	if !root {
		st.Cons.addGE(ln.sub(gint(d.tree(st), n.tMin)))
	}
	st.Flags["pre"] = "1"
	run(st, []Val{VPtr{t, ""}, VPtr{x, ""}, sep, nw})
}

// foldStrict turns entries nothing refers to into segments and merges neighbours.  A piece may
// stand in several nodes at once while entries are copied from one to another.
func (d *bt) foldStrict(K *Kern, st *State) {
	n := d.n
	pin := map[ObjID]bool{}
	add := func(v Val) {
		eachVal(v, func(w Val) {
			if p, ok := w.(VPtr); ok {
				pin[p.O] = true
			}
		})
	}
	for i, f := range st.Frames {
		for _, v := range f.Env {
			add(v)
		}
		for j, v := range f.Vals {
			if i == 0 && j == bOrd {
				continue
			}
			add(v)
		}
		for _, df := range f.Defs {
			add(df.fn)
			for _, a := range df.args {
				add(a)
			}
		}
	}
	var kvs []ObjID
	uses := map[Val]int{} // of a key, as the key of an entry
	for _, id := range sortedObjs(st) {
		o := st.Objs[id]
		if o.Kind == kCell {
			for _, v := range o.F {
				add(v)
			}
		}
		if o.Typ == n.node {
			add(o.F[n.left])
		}
		if o.Typ == "kv" {
			kvs = append(kvs, id)
			for _, v := range d.word(st, id) {
				if e := st.Objs[v.(VPtr).O]; e.Typ == "ent" {
					uses[e.F["k"]]++
				}
			}
		}
	}
	type place struct {
		kv  ObjID
		pos int
	}
	// entries with the same key and value, wherever they stand
	group := map[[2]Val][]ObjID{}
	var order [][2]Val
	for _, kv := range kvs {
		for _, v := range d.word(st, kv) {
			e := st.Objs[v.(VPtr).O]
			if e.Typ != "ent" {
				continue
			}
			k := [2]Val{e.F["k"], e.F["v"]}
			if group[k] == nil {
				order = append(order, k)
			}
			group[k] = append(group[k], v.(VPtr).O)
		}
	}
	for _, g := range order {
		ents := group[g]
		k, ok := g[0].(VPtr)
		if !ok || pin[k.O] || uses[g[0]] != len(ents) {
			continue
		}
		for _, e := range ents {
			ok = ok && !pin[e]
		}
		v, isP := g[1].(VPtr)
		if !ok || !isP || pin[v.O] || st.Objs[v.O] == nil {
			continue
		}
		w := d.ord(st)
		i := posIn(w, k)
		var s VPtr
		if c, isN := isNode(st, v, n.node); isN {
			co := st.Objs[c]
			it, hasI := co.F[n.items].(VInt)
			_, open := co.F[n.kv]
			if !hasI || open || co.F[n.parent] == nil || i < 0 || i+1 >= len(w) || w[i+1] != Val(v) || posIn(d.changedSet(st), v) >= 0 || co.F[n.dirty] != nil || gbool(st.Objs[k.O], "c") || gbool(co, n.root) {
				continue
			}
			s = VPtr{d.newSeg(K, st, "k", linC(1), it.L, co.F[n.parent], ""), ""}
			w = replIn(w, v)
		} else {
			if i < 0 || st.Objs[v.O].Typ != "val" || st.Objs[v.O].F["k"] != Val(k) {
				continue
			}
			s = VPtr{d.newSeg(K, st, "p", linC(1), linC(1), VNil{}, ""), ""}
		}
		d.setOrd(st, replIn(w, k, s))
		for _, kv := range kvs {
			for _, e := range ents {
				if posIn(d.word(st, kv), VPtr{e, ""}) >= 0 {
					st.wr(kv).F["w"] = VTup{replIn(d.word(st, kv), VPtr{e, ""}, s)}
				}
			}
		}
	}
	where := func(v Val) []place {
		var out []place
		for _, kv := range kvs {
			if p := posIn(d.word(st, kv), v); p >= 0 {
				out = append(out, place{kv, p})
			}
		}
		return out
	}
	for again := true; again; {
		again = false
		w := d.ord(st)
		for i := 0; i+1 < len(w); i++ {
			a, b := w[i].(VPtr), w[i+1].(VPtr)
			ao, bo := st.Objs[a.O], st.Objs[b.O]
			if ao == nil || bo == nil || ao.Typ != "seg" || bo.Typ != "seg" || ao.F["kind"] != bo.F["kind"] || ao.F["own"] != bo.F["own"] || pin[a.O] || pin[b.O] {
				continue
			}
			pa, pb := where(a), where(b)
			ok := len(pa) == len(pb)
			for j := range pa {
				ok = ok && j < len(pb) && pa[j].kv == pb[j].kv && pa[j].pos+1 == pb[j].pos
			}
			if !ok {
				continue
			}
			s := VPtr{d.newSeg(K, st, ao.F["kind"].(VSym).S, gint(ao, "n").add(gint(bo, "n")), gint(ao, "t").add(gint(bo, "t")), ao.F["own"], ""), ""}
			for _, p := range pa {
				st.wr(p.kv).F["w"] = VTup{replIn(replIn(d.word(st, p.kv), a, s), b)}
			}
			d.setOrd(st, replIn(replIn(w, a, s), b))
			again = true
			break
		}
	}
	// separators no longer used anywhere mean nothing
	var ng []Val
	for _, v := range d.ord(st) {
		p := v.(VPtr)
		if o := st.Objs[p.O]; o != nil && o.Typ == "key" && !gbool(o, "c") && !pin[p.O] && uses[v] == 0 {
			continue
		}
		ng = append(ng, v)
	}
	if len(ng) != len(d.ord(st)) {
		d.setOrd(st, ng)
	}
}

func (d *bt) changedSet(st *State) []Val { c, _ := d.gv(st, bChanged).(VTup); return c.V }

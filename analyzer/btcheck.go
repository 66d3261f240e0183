package main

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// markDirty: what marking a node changed means.
func (d *bt) setDirty(K *Kern, st *State, id ObjID) []*State {
	n := d.n
	var out []*State
	for _, r := range d.known(K, st, id, n.dirty) {
		s := r.st
		b, ok := r.v.(VBool)
		if !ok {
			K.undecided(nil, "dirty mark of a node is unknown")
		}
		if !b.B {
			d.event(K, s, "stale", VPtr{id, ""})
		}
		if d.strict {
			d.bogus(s, id)
		}
		w := s.wr(id)
		w.F[n.dirty] = VBool{true}
		w.F[n.num], w.F[n.off], w.F[n.length] = VInt{linC(0)}, VInt{linC(0)}, VInt{linC(0)}
		d.onList(s, id, "dirty")
		d.event(K, s, "dirty", VPtr{id, ""})
		out = append(out, s)
	}
	return out
}

type contract = func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R

func (d *bt) nodeArg(K *Kern, st *State, args []Val, at ssa.Instruction) (ObjID, bool) {
	for _, a := range args {
		if id, ok := isNode(st, a, d.n.node); ok {
			return id, true
		}
	}
	for _, a := range args[1:] {
		if _, ok := a.(VNil); ok {
			d.Deref(K, st, VNil{}, at)
			return 0, false
		}
	}
	K.undecided(at, "node argument unknown")
	return 0, false
}

// baseContracts: functions judged by a check of their own (see verifyBase).
func (d *bt) baseContracts() map[string]contract {
	n := d.n
	node := func(f func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R) contract {
		return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
			if _, isNil := args[0].(VNil); isNil {
				d.Deref(K, st, VNil{}, at)
				return []R{}
			}
			id, ok := d.nodeArg(K, st, args, at)
			if !ok {
				return []R{}
			}
			return f(K, st, id, at)
		}
	}
	return map[string]contract{
		"incCacheHits": func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
			d.event(K, st, "hit", VSym{K.P.instrPos(at)})
			return one(st, nil)
		},
		"incCacheMisses": func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
			d.event(K, st, "miss", VSym{K.P.instrPos(at)})
			return one(st, nil)
		},
		"markNodeUsed": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			d.mustBeListed(K, st, id, "use", at)
			return one(st, nil)
		}),
		"markNodeEvicted": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			d.mustBeListed(K, st, id, "release", at)
			d.onList(st, id, "none")
			d.event(K, st, "evict", VPtr{id, ""})
			return one(st, nil)
		}),
		"initNodeAsEvicted": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			if on, known := d.listed(st, id); known && on {
				d.fail("C13", "a node on a list is not reset", "the list links of a node still on a list are cleared at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
			}
			return one(st, nil)
		}),
		"markNodeDirty": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			var out []R
			for _, s := range d.setDirty(K, st, id) {
				out = append(out, R{s, nil})
			}
			return out
		}),
		"markNodeClean": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			st.wr(id).F[n.dirty] = VBool{false}
			d.onList(st, id, "clean")
			d.event(K, st, "clean", VPtr{id, ""})
			return one(st, nil)
		}),
		"markNodeToBeDiscarded": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			d.mustBeListed(K, st, id, "give up", at)
			d.onList(st, id, "gone")
			d.event(K, st, "discard", VPtr{id, ""})
			return one(st, nil)
		}),
		"loadNode": node(func(K *Kern, st *State, id ObjID, at ssa.Instruction) []R {
			var out []R
			for _, r := range d.known(K, st, id, n.loaded) {
				b, ok := r.v.(VBool)
				if !ok {
					K.undecided(at, "residency of a node is unknown")
				}
				s := r.st
				if b.B {
					d.fail("C15", "only absent nodes are loaded", "a resident node is loaded again at %s in %s, losing changes not yet flushed%s", K.P.instrPos(at), fnName(at.Parent()), trOf(s))
					d.fail("C08", "only absent nodes are loaded", "a resident node is loaded again at %s in %s, losing changes not yet flushed%s", K.P.instrPos(at), fnName(at.Parent()), trOf(s))
					continue
				}
				e := s.clone()
				e.Flags["failed"] = "load"
				d.event(K, e, "loadfail", VPtr{id, ""}, VSym{K.P.instrPos(at)})
				for _, p := range []string{n.kv, n.left, n.rootPS, n.leaf} {
					delete(e.wr(id).F, p)
				}
				out = append(out, R{e, VErr{"load"}})
				w := s.wr(id)
				d.onList(s, id, "")
				w = s.wr(id)
				w.F[n.loaded], w.F[n.dirty], w.F["$wc"], w.F["$kidsout"] = VBool{true}, VBool{false}, VBool{true}, VBool{true}
				for _, p := range []string{n.kv, n.left, n.rootPS, n.leaf, "$out"} {
					delete(w.F, p)
				}
				d.event(K, s, "load", VPtr{id, ""}, VSym{K.P.instrPos(at)})
				if d.gv(s, bVis) == Val(VPtr{id, ""}) {
					d.ghost(s).Vals[bVis] = VPtr{id, "$used"}
				}
				out = append(out, R{s, VNil{}})
			}
			return out
		}),
	}
}

// Loading: reading the residency of a node begins a visit of it.
func (d *bt) Loading(K *Kern, st *State, id ObjID, path string, v Val, at ssa.Instruction) {
	if !d.counting {
		return
	}
	cur, _ := d.gv(st, bVis).(VPtr)
	switch path {
	case d.n.kv, d.n.left, d.n.rootPS, d.n.leaf:
		if cur == (VPtr{id, ""}) {
			d.ghost(st).Vals[bVis] = VPtr{id, "$used"}
		}
		return
	case d.n.loaded:
	default:
		return
	}
	o := st.Objs[id]
	if o == nil || o.Typ != d.n.node || gbool(o, "$cnt") || cur.O == id && cur != (VPtr{}) {
		return
	}
	d.visitEnd(st, fnName(d.fn))
	d.ghost(st).Vals[bVis] = VPtr{id, ""}
	st.wr(id).F["$lv"] = v
}

// visitEnd: a visit, once the contents of the node were used, must have been counted before the next one begins.
func (d *bt) visitEnd(st *State, name string) {
	p, ok := d.gv(st, bVis).(VPtr)
	if !ok {
		return
	}
	d.ghost(st).Vals[bVis] = VNil{}
	if p.P == "" {
		if st.Objs[p.O] != nil {
			delete(st.wr(p.O).F, "$lv")
		}
		return
	}
	if _, isNil := d.tree(st).F[d.n.nodeCache].(VNil); isNil {
		return
	}
	kind := "hit"
	if o := st.Objs[p.O]; o != nil && !gbool(o, "$lv") {
		kind = "miss"
	}
	d.fail("C23", "each visit counts as one hit or miss", "%s may visit a node without counting a cache %s%s", name, kind, trOf(st))
}

// counted: a hit or miss is counted.
func (d *bt) counted(K *Kern, st *State, ev string) {
	if !d.counting {
		return
	}
	p, ok := d.gv(st, bVis).(VPtr)
	if !ok {
		d.fail("C23", "each visit counts as one hit or miss", "%s may count a cache %s without visiting a node, or twice for one visit%s", fnName(d.fn), ev, trOf(st))
		return
	}
	if o := st.Objs[p.O]; o != nil {
		w := st.wr(p.O)
		if gbool(o, "$lv") != (ev == "hit") {
			d.fail("C23", "each visit counts as one hit or miss", "%s may count a cache %s for a node whose residency says otherwise%s", fnName(d.fn), ev, trOf(st))
		}
		w.F["$cnt"] = VBool{true}
		delete(w.F, "$lv")
	}
	d.ghost(st).Vals[bVis] = VNil{}
}

// Lists: a node is on the list that fits its state unless "$lru" says otherwise.

func (d *bt) listed(st *State, id ObjID) (on, known bool) {
	o := st.Objs[id]
	if s, ok := o.F["$lru"].(VSym); ok {
		return s.S == "clean" || s.S == "dirty", true
	}
	b, ok := o.F[d.n.loaded].(VBool)
	return b.B, ok
}

func (d *bt) mustBeListed(K *Kern, st *State, id ObjID, what string, at ssa.Instruction) {
	if on, known := d.listed(st, id); known && !on && !gbool(st.Objs[id], "$shut") {
		d.fail("C13", "only a node on a list is used or taken off", "%s may %s a node that is on no list, at %s%s", fnName(at.Parent()), what, K.P.instrPos(at), trOf(st))
	}
}

// fits: the list the state of a node calls for, if known.
func (d *bt) fits(loaded, dirty Val) string {
	l, ok := loaded.(VBool)
	if !ok {
		return ""
	}
	if !l.B {
		return "none"
	}
	b, ok := dirty.(VBool)
	switch {
	case !ok:
		return ""
	case b.B:
		return "dirty"
	}
	return "clean"
}

func (d *bt) onList(st *State, id ObjID, s string) {
	o := st.wr(id)
	o.F["$lru"] = VSym{s}
	want := d.fits(o.F[d.n.loaded], o.F[d.n.dirty])
	c, _ := d.gv(st, bLst).(VTup)
	self := VPtr{id, ""}
	if s == "" || s == want || want == "" || s == "gone" {
		if s != "gone" {
			delete(o.F, "$lru")
		}
		if posIn(c.V, self) >= 0 {
			d.ghost(st).Vals[bLst] = VTup{replIn(c.V, self)}
		}
		return
	}
	if posIn(c.V, self) < 0 {
		if len(c.V) > 3 { // more than any one step may leave to the next
			d.lruEnd(st, fnName(d.fn))
			c = VTup{}
		}
		d.ghost(st).Vals[bLst] = VTup{append(append([]Val{}, c.V...), self)}
	}
}

// lruStored: the state of a node is about to change.
func (d *bt) lruStored(st *State, id ObjID, path string, v Val) {
	n := d.n
	if d.noLists {
		return
	}
	o := st.Objs[id]
	was := ""
	if s, ok := o.F["$lru"].(VSym); ok {
		was = s.S
	} else if was = d.fits(o.F[n.loaded], o.F[n.dirty]); was == "" {
		if _, known := o.F[path]; known || gbool(o, "$shut") {
			return
		}
		was = "other" // whichever list fitted before
	}
	old := o.F[path]
	st.wr(id).F[path] = v
	d.onList(st, id, was)
	st.wr(id).F[path] = old
}

func (d *bt) lruEnd(st *State, name string) {
	c, _ := d.gv(st, bLst).(VTup)
	for _, v := range c.V {
		o := st.Objs[v.(VPtr).O]
		if o == nil {
			continue
		}
		d.fail("C13", "every node is on the list its state calls for", "%s may leave a node that is on %s although its state calls for %s%s", name, listName(o.F["$lru"].(VSym).S), listName(d.fits(o.F[d.n.loaded], o.F[d.n.dirty])), trOf(st))
	}
}

func listName(s string) string {
	switch s {
	case "none", "gone":
		return "no list"
	case "other", "":
		return "another list"
	}
	return "the " + s + " list"
}

type btRun struct {
	bad    map[string]string
	und    string
	exits  int
	states int
	steps  int
	miss   []string
	blocks int
}

// start makes the state every run begins in.
func (d *bt) start(K *Kern, cached bool) (*State, ObjID) {
	n := d.n
	st := newState()
	g := &Frame{Vals: make([]Val, bCount)}
	for i := range g.Vals {
		g.Vals[i] = VNil{}
	}
	g.Vals[bOrd], g.Vals[bChanged], g.Vals[bLst] = VTup{}, VTup{}, VTup{}
	st.Frames = []*Frame{g}
	mn := linV(K.newVar())
	st.Cons.addGE(mn.addC(-2))
	t := K.newObj(st, &Obj{Kind: kStruct, Typ: n.tree, F: map[string]Val{n.tMin: VInt{mn}, n.tMax: VInt{mn.add(mn)}, n.nodeCache: VNil{}}})
	if cached {
		st.Objs[t].F[n.nodeCache] = VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: n.cache}), ""}
	}
	g.Vals[bTree] = VPtr{t, ""}
	return st, t
}

func (d *bt) execute(K *Kern, f func()) (und string) {
	K.partial, K.deadline = true, d.P.started.Add(450*time.Second)
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case undecided:
				und = e.msg
			case diverged:
				und = e.msg
			default:
				panic(x)
			}
		}
	}()
	K.solve(func() {
		d.bad = map[string]string{}
		f()
	})
	return K.cut
}

// --- operations of the map interface -------------------------------------------

var btOps = []string{"GetByKey", "GetByIndex", "PatchByKey", "PatchByIndex", "Put", "DeleteByKey", "DeleteByIndex", "BisectLeft", "BisectRight", "Len", "TouchItem", "FetchDimensionsReport"}

type opSpec struct {
	query   bool // no effects
	indexed bool
	counted bool // every visit is one hit or one miss
}

// opContracts: the restructuring functions, each judged by a run of its own.
func (d *bt) opContracts() {
	n := d.n
	leafArg := func(K *Kern, st *State, args []Val, at ssa.Instruction) (ObjID, bool) {
		return d.nodeArg(K, st, args, at)
	}
	d.contracts["insertHere"] = func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := leafArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		var out []R
		for _, r := range d.known(K, st, id, n.kv) {
			s := r.st
			kv, ok := r.v.(VPtr)
			k, isK := d.asKey(s, args[2])
			if !ok || !isK || Val(k) != d.gv(s, bKey) {
				K.undecided(at, "insertion of an unknown key")
			}
			if !gbool(s.Objs[id], n.leaf) {
				d.fail("C05", "pairs are added to leaves", "a pair is added to a node that need not be a leaf at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(s))
				continue
			}
			if e := d.failing(s, k); e != nil {
				out = append(out, R{e, VErr{"comparison"}})
			}
			d.inScope(K, s, kv.O, k, at)
			for _, a := range d.around(K, s, kv.O, k) {
				t := a.st
				if a.same != 0 {
					d.fail("C05", "a key present is not added again", "a key already in the leaf is added again at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(t))
					continue
				}
				if t.Flags["put"] != "" {
					d.fail("C05", "a pair is added once", "the pair is added twice by %s%s", fnName(at.Parent()), trOf(t))
				}
				if args[3] != Val(VSym{"new value"}) {
					d.fail("C05", "the value given is stored", "another value than the one given is stored at %s in %s", K.P.instrPos(at), fnName(at.Parent()))
				}
				t.Flags["put"], t.Flags["mut"] = "1", "1"
				w := t.wr(id)
				w.F[n.dirty], w.F["$ad"] = VBool{true}, VBool{true}
				d.event(K, t, "dirty", VPtr{id, ""})
				out = append(out, R{t, VNil{}})
			}
		}
		return out
	}
	d.contracts["updatePrefixSumTreeLeafToRoot"] = func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := leafArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		kv, ok := st.Objs[id].F[n.kv].(VPtr)
		if !ok || !gbool(st.Objs[id], n.leaf) {
			K.undecided(at, "totals updated from a node that need not be a leaf")
		}
		if it, ok := st.Objs[id].F[n.items].(VInt); ok && st.Cons.entailsEQ(it.L.sub(d.kvLen(st, kv.O))) {
			st.wr(id).F["$prop"] = VBool{true}
			return one(st, VNil{}) // no difference: nothing is marked
		}
		var out []R
		for _, s := range d.setDirty(K, st, id) {
			w := s.wr(id)
			w.F[n.items], w.F["$ad"] = VInt{d.kvLen(s, kv.O)}, VBool{true}
			w.F["$prop"] = VBool{true}
			out = append(out, R{s, VNil{}})
		}
		return out
	}
	path := func(K *Kern, st *State, args []Val, id ObjID, what string, at ssa.Instruction) bool {
		d.settlePaths(st, map[ObjID]bool{id: true})
		p, ok := args[len(args)-1].(VPtr)
		if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "slice" {
			K.undecided(at, "unknown path")
		}
		if d.pathTo(st, p.O, id) {
			return true
		}
		o := st.Objs[p.O]
		if o.F["tgt"] == nil && o.F["last"] == nil {
			K.undecided(at, "path of unknown contents")
		}
		d.fail("C05", "the path recorded leads to the leaf", "the path passed to %s at %s in %s need not be that of the node%s", what, K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		return false
	}
	d.contracts["loadSiblingsForRebalance"] = func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := leafArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		path(K, st, args, id, fn.Name(), at)
		if !gbool(st.Objs[id], n.loaded) {
			K.undecided(at, "siblings loaded for a node not visited")
		}
		e := st.clone()
		e.Flags["failed"] = "load"
		d.event(K, e, "loadfail", VPtr{id, ""}, VSym{K.P.instrPos(at)})
		if st.Flags["mut"] == "" {
			st.wr(id).F["$pref"] = VBool{true}
		}
		return []R{{st, VNil{}}, {e, VErr{"load"}}}
	}
	d.contracts["rebalanceHere"] = func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := leafArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		path(K, st, args, id, fn.Name(), at)
		o := st.Objs[id]
		if !gbool(o, "$prop") && st.Flags["mut"] != "" {
			d.fail("C06", "totals are brought up to date before rebalancing", "the leaf is rebalanced at %s in %s before its item total and those above it were updated%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		}
		if !gbool(o, "$pref") {
			d.fail("C19", "what rebalancing needs is loaded before the first change", "rebalancing at %s in %s may have to load nodes although contents were already changed%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
		}
		st.Flags["rebal"] = "1"
		return one(st, VNil{})
	}
}

// stray: something of a node is changed that the operation has no business with.
func (d *bt) stray(st *State, name string, a []Val) {
	n := d.n
	props := []string{"C08", "C20"}
	switch a[1].(VSym).S {
	case n.items, n.psItems, n.psIdx, n.psParent, n.psLeft, n.psRight:
		props = append(props, "C06")
	case n.parent, n.root:
		props = append(props, "C09")
	}
	d.fails_(props, "totals and links of nodes are left alone", "%s may change %s of a node%s", name, a[1].(VSym).S, trOf(st))
}

func (n *btNames) runOp(P *Prog, op string, fn *ssa.Function, resident bool) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, resident: resident}
	d.contracts = d.baseContracts()
	d.opContracts()
	d.counting = !resident && op != "FetchLayoutReport"
	query := op == "GetByKey" || op == "GetByIndex" || op == "Len" || strings.HasPrefix(op, "Bisect") || strings.HasPrefix(op, "Fetch")
	name := fnName(fn)
	d.hook = func(K *Kern, st *State, ev string, a ...Val) {
		switch ev {
		case "dirty", "stale", "post", "discard", "unload", "delete", "patch", "put", "mapset", "mapdel", "location":
			if query && !(ev == "mapset" && op == "FetchLayoutReport") {
				d.fail("C20", "queries change nothing", "%s may change the tree or what is stored (%s)%s", name, ev, trOf(st))
			}
			st.Flags["eff"] = "1"
		case "field":
			if query || op == "TouchItem" || strings.HasPrefix(op, "Patch") {
				d.stray(st, name, a)
			}
		case "loadfail":
			if st.Flags["mut"] != "" {
				d.fail("C19", "loads precede the first change", "a load at %s in %s may fail after contents were changed%s", a[1].(VSym).S, name, trOf(st))
			}
		case "hit", "miss":
			d.counted(K, st, ev)
		case "target":
			if st.Flags["target"] != "" {
				d.fail("C05", "one pair is changed", "%s may change more than one pair%s", name, trOf(st))
			}
			st.Flags["target"] = "1"
			d.ghost(st).Vals[bC] = a[0]
		}
	}
	K := newKern(P, d)
	K.limit = 40000
	exits := 0
	und := d.execute(K, func() {
		exits = 0
		st, t := d.start(K, true)
		g := st.Frames[0]
		args := []Val{VPtr{t, ""}}
		for _, p := range fn.Params[1:] {
			switch typeName(p.Type()) {
			case "Key":
				k := d.newKey(K, st, true)
				g.Vals[bKey] = k
				args = append(args, k)
			case "Value":
				args = append(args, VSym{"new value"})
			case "int":
				v := VInt{linV(K.newVar())}
				g.Vals[bIdx] = v
				args = append(args, v)
			case "uint64":
				v := d.freshInt(K, st, 0)
				g.Vals[bIdx] = v
				args = append(args, v)
			default:
				args = append(args, VTop{"argument"})
			}
		}
		rs, _ := d.lazyTree(K, st, t, n.tRoot)
		for _, r := range d.known(K, rs[0].st, rs[0].v.(VPtr).O, n.items) {
			g.Vals[bB] = r.v
			iv, hasIdx := d.gv(r.st, bIdx).(VInt)
			for rng := 0; rng < 3; rng++ {
				s := r.st.clone()
				if !hasIdx && rng > 0 {
					break
				}
				if hasIdx {
					t := r.v.(VInt).L
					switch rng {
					case 0:
						s.Cons.addGE(iv.L.neg().addC(-1))
					case 1:
						s.Cons.addGE(iv.L)
						s.Cons.addGE(t.sub(iv.L).addC(-1))
					case 2:
						s.Cons.addGE(iv.L)
						s.Cons.addGE(iv.L.sub(t))
					}
					if !s.Cons.feasible() {
						continue
					}
					s.Flags["rng"] = fmt.Sprint(rng)
				}
				for _, x := range K.execFn(fn, args, nil, s) {
					if !x.st.Cons.feasible() {
						continue
					}
					exits++
					d.settle(x.st)
					if debugSel == "exits" {
						fmt.Printf("--- exit %v\n%s\n", x.res, x.st.String(K))
					}
					d.opExit(K, op, name, x)
				}
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// leafOf: the node the key searched for belongs in.
func (d *bt) leafOf(st *State, k VPtr) (ObjID, bool) {
	if in, ok := st.Objs[k.O].F["in"].(VPtr); ok && st.Objs[in.O] != nil {
		return in.O, true
	}
	if r, ok := d.tree(st).F[d.n.tRoot].(VPtr); ok {
		return r.O, true
	}
	return 0, false
}

func (d *bt) opExit(K *Kern, op, name string, x exitT) {
	d.lruEnd(x.st, name)
	n := d.n
	st := x.st
	at := trOf(st)
	d.visitEnd(st, name)
	if c, _ := d.gv(st, bChanged).(VTup); len(c.V) > 0 {
		for _, v := range c.V {
			if !gbool(st.Objs[v.(VPtr).O], n.dirty) {
				d.fail("C09", "a changed node is marked changed", "%s may return with a changed node not marked as changed%s", name, at)
			} else {
				d.fail("C09", "everything above a changed node is marked changed", "%s may return with a node above a changed one not marked as changed%s", name, at)
			}
		}
	}
	if len(x.res) == 0 {
		return
	}
	err := x.res[len(x.res)-1]
	isErr := false
	switch err.(type) {
	case VErr, VSym:
		isErr = true
	case VNil:
	default:
		return
	}
	if st.Flags["failed"] != "" {
		if !isErr {
			return // the business of C18
		}
		if st.Flags["mut"] != "" {
			d.fail("C19", "a failed operation changes nothing", "%s may fail after contents were changed (%s)%s", name, st.Flags["failed"], at)
		}
		return
	}
	prop := "C05"
	_, isIdx := d.gv(st, bIdx).(VInt)
	if isIdx || strings.HasPrefix(op, "Bisect") {
		prop = "C06"
	}
	if isErr {
		d.fail(prop, "no failure without cause", "%s may fail although no callback did%s", name, at)
		return
	}
	bad := func(rule, f string, a ...interface{}) {
		d.fail(prop, rule, "%s", fmt.Sprintf(f, a...)+at)
	}
	okv := func(i int) (bool, bool) {
		b, ok := x.res[i].(VBool)
		return b.B, ok
	}
	total := d.gv(st, bB).(VInt).L
	if k, ok := d.gv(st, bKey).(VPtr); ok {
		leaf, ok := d.leafOf(st, k)
		if !ok {
			K.undecided(nil, "leaf of the key lost in %s", name)
		}
		same, hasSame := st.Objs[k.O].F["same"].(VPtr)
		if !gbool(st.Objs[leaf], n.leaf) || (posIn(d.ord(st), k) < 0) {
			bad("a key is searched for down to its leaf", "%s may return without having looked in the leaf of the key", name)
			return
		}
		kv := st.Objs[leaf].F[n.kv].(VPtr).O
		switch op {
		case "GetByKey":
			b, ok := okv(1)
			if !ok {
				K.undecided(nil, "unknown result of %s", name)
			}
			if b != hasSame {
				bad("presence is reported", "%s reports presence wrongly", name)
			}
			if hasSame {
				var ent ObjID
				_, ent = d.kvOf(st, same)
				if ent == 0 || x.res[0] != st.Objs[ent].F["v"] {
					bad("the value of the key is returned", "%s returns another value than that of the key", name)
				}
			}
		case "PatchByKey", "DeleteByKey":
			b, ok := okv(0)
			if !ok {
				K.undecided(nil, "unknown result of %s", name)
			}
			if b != hasSame {
				bad("presence is reported", "%s reports presence wrongly", name)
			}
			tg := d.gv(st, bC)
			if hasSame && tg != Val(same) || !hasSame && tg != Val(VNil{}) {
				bad("the pair named is the one changed", "%s does not change exactly the pair of the key", name)
			}
			d.opChange(K, st, op, name, leaf, hasSame, same, bad)
		case "Put":
			b, ok := okv(0)
			if !ok {
				K.undecided(nil, "unknown result of %s", name)
			}
			if b == hasSame {
				bad("presence is reported", "%s reports presence wrongly", name)
			}
			if (st.Flags["put"] != "") == hasSame {
				bad("an absent key is added, a present one is not", "%s adds the pair wrongly", name)
			}
		case "BisectLeft", "BisectRight":
			iv, ok := x.res[0].(VInt)
			b, ok2 := okv(1)
			if !ok || !ok2 {
				K.undecided(nil, "unknown result of %s", name)
			}
			if b != hasSame {
				bad("presence is reported", "%s reports presence wrongly", name)
			}
			off, ok := st.Objs[leaf].F["$off"].(VInt)
			if !ok {
				K.undecided(nil, "position of the leaf unknown in %s", name)
			}
			want := off.L
			kp := posIn(d.ord(st), k)
			for _, v := range d.word(st, kv) {
				p := v.(VPtr)
				o := st.Objs[p.O]
				if o.Typ == "ent" {
					if hasSame && o.F["k"] == Val(same) {
						break
					}
					if posIn(d.ord(st), o.F["k"]) > kp {
						break
					}
				} else if posIn(d.ord(st), v) > kp {
					break
				}
				want = want.add(d.pieceLen(st, v))
			}
			if !hasSame && op == "BisectLeft" {
				want = want.addC(-1)
			}
			if !st.Cons.entailsEQ(iv.L.sub(want)) {
				bad("a bisect returns the position in key order", "%s may return another position than the key's place in the order of all keys", name)
			}
		}
	}
	if iv, ok := d.gv(st, bIdx).(VInt); ok {
		in := st.Flags["rng"] == "1"
		switch op {
		case "GetByIndex":
			b, ok := okv(2)
			if !ok {
				K.undecided(nil, "unknown result of %s", name)
			}
			if b != in {
				bad("indices in range are served, others are not", "%s reports an index wrongly", name)
			}
			if in {
				k, ok := d.asKey(st, x.res[0])
				v, ok2 := x.res[1].(VPtr)
				if !ok || !ok2 || st.Objs[v.O] == nil || st.Objs[v.O].F["k"] != Val(k) {
					bad("key and value of the position are returned", "%s does not return the key and value found", name)
				}
			}
		case "PatchByIndex", "DeleteByIndex":
			b, ok := okv(0)
			if !ok {
				K.undecided(nil, "unknown result of %s", name)
			}
			if b != in {
				bad("indices in range are served, others are not", "%s reports an index wrongly", name)
			}
			tg, isT := d.gv(st, bC).(VPtr)
			if isT != in {
				bad("the pair at the index is the one changed", "%s does not change exactly the pair at the index", name)
			}
			var leaf ObjID
			for _, id := range sortedObjs(st) {
				if o := st.Objs[id]; o.Typ == n.node && gbool(o, n.leaf) && gbool(o, n.dirty) {
					if _, ok := o.F[n.kv]; ok {
						leaf = id
					}
				}
			}
			d.opChange(K, st, op, name, leaf, in, tg, bad)
		case "TouchItem":
			prop = "C24"
			next, ok := x.res[0].(VInt)
			if !ok {
				K.undecided(nil, "unknown result of %s", name)
			}
			if !in {
				if !st.Cons.entailsEQ(next.L) {
					bad("an index past the end returns zero", "%s may return another index than zero for one past the end", name)
				}
				if st.Flags["eff"] != "" {
					bad("an index past the end marks nothing", "%s may mark nodes for an index past the end", name)
				}
				return
			}
			done := false
			for _, id := range sortedObjs(st) {
				o := st.Objs[id]
				off, ok := o.F["$off"].(VInt)
				if o.Typ != n.node || !gbool(o, n.leaf) || !ok || o.F[n.kv] == nil {
					continue
				}
				ln := d.kvLen(st, o.F[n.kv].(VPtr).O)
				if !st.Cons.entailsGE(iv.L.sub(off.L)) || !st.Cons.entailsGE(off.L.add(ln).sub(iv.L).addC(-1)) {
					continue
				}
				done = true
				if !gbool(o, n.dirty) {
					bad("the leaf of the item is marked", "%s may leave the leaf of the item unmarked", name)
				} else if !gbool(o, "$ad") {
					bad("everything above the leaf is marked", "%s may leave a node above the leaf of the item unmarked", name)
				}
				if !st.Cons.entailsEQ(next.L.sub(off.L).sub(ln)) {
					bad("the index returned is that of the next leaf", "%s may return another index than that of the first item of the next leaf", name)
				}
			}
			if !done {
				bad("the leaf of the item is visited", "%s may return without visiting the leaf of the item", name)
			}
		}
	}
	switch op {
	case "Len":
		prop = "C06"
		if v, ok := x.res[0].(VInt); !ok || !st.Cons.entailsEQ(v.L.sub(total)) {
			bad("the length is the item count", "%s may return another number than the item count", name)
		}
	case "FetchDimensionsReport":
		prop = "C23"
		rep, ok := x.res[0].(VStruct)
		if !ok {
			K.undecided(nil, "unknown result of %s", name)
		}
		is := func(f string, l Lin) {
			if v, ok := rep.F[f].(VInt); !ok || !st.Cons.entailsEQ(v.L.sub(l)) {
				bad("dimensions are the actual ones", "%s may report a wrong %s", name, f)
			}
		}
		is("MinKeysPerNode", gint(d.tree(st), n.tMin))
		is("MaxKeysPerNode", gint(d.tree(st), n.tMax))
		is("Items", total)
		done := false
		for _, id := range sortedObjs(st) {
			o := st.Objs[id]
			if dp, ok := o.F["$depth"].(VInt); ok && o.Typ == n.node && gbool(o, n.leaf) && gbool(o, n.loaded) {
				done = true
				is("Height", dp.L)
			}
		}
		if !done {
			bad("the height is counted down to a leaf", "%s may report a height without reaching a leaf", name)
		}
	}
}

// opChange: what a patch or deletion must leave behind in the leaf.
func (d *bt) opChange(K *Kern, st *State, op, name string, leaf ObjID, did bool, key VPtr, bad func(string, string, ...interface{})) {
	n := d.n
	o := st.Objs[leaf]
	switch {
	case !did:
		if st.Flags["mut"] != "" {
			bad("nothing is changed when there is nothing to change", "%s changes contents although the item is not there", name)
		}
	case strings.HasPrefix(op, "Patch"):
		if _, ent := d.kvOf(st, key); ent == 0 || st.Objs[ent].F["v"] != Val(VSym{"new value"}) {
			bad("the value given is stored", "%s does not leave the given value with the key", name)
		}
	default:
		if st.Flags["rebal"] == "" && !(o != nil && gbool(o, n.root)) {
			d.fail("C07", "a leaf that lost a pair is rebalanced", "%s may return without rebalancing the leaf%s", name, trOf(st))
		}
		if o != nil && !gbool(o, "$prop") {
			d.fail("C06", "totals follow a deletion", "%s may return with item totals not updated%s", name, trOf(st))
		}
	}
}

func init() {
	for _, p := range []string{"BT", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C19", "C20", "C21", "C22", "C23", "C24"} {
		p := p
		checks[p] = func(P *Prog, r *Result) { checkBT(P, r, p) }
	}
}

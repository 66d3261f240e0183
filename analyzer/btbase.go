package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The helpers taken at their word elsewhere are judged here: what each may and must do to a node,
// to the remembered locations and to the counters.

type baseSpec struct {
	fn     string
	dirty  string // "", "true", "false": unchanged or the value afterwards
	record bool   // the stored copy is superseded
	hit    int64
	miss   int64
}

var baseSpecs = []baseSpec{
	{fn: "markNodeDirty", dirty: "true", record: true},
	{fn: "markNodeClean", dirty: "false"},
	{fn: "markNodeUsed"},
	{fn: "markNodeEvicted"},
	{fn: "initNodeAsEvicted"},
	{fn: "markNodeToBeDiscarded", record: true},
	{fn: "incCacheHits", hit: 1},
	{fn: "incCacheMisses", miss: 1},
}

// staleFields: the fields of a remembered location that take number, offset and length.
func (n *btNames) staleFields(P *Prog) []string {
	if n.staleF != nil {
		return n.staleF
	}
	def := []string{"objectNumber", "objectOffset", "objectLength"}
	mt, ok := pathType(n.treeT, n.tStale).Underlying().(*types.Map)
	if !ok {
		return def
	}
	kt := mt.Key()
	if _, ok := kt.Underlying().(*types.Struct); !ok {
		return def
	}
	found := map[string]map[string]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), kt) {
					continue
				}
				u, ok := s.Val.(*ssa.UnOp)
				if !ok {
					continue
				}
				src, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				_, from := fieldOf(src.X.Type(), src.Field)
				_, to := fieldOf(fa.X.Type(), fa.Field)
				if found[from] == nil {
					found[from] = map[string]bool{}
				}
				found[from][to] = true
			}
		}
	}
	var out []string
	for _, f := range []string{n.num, n.off, n.length} {
		if len(found[f]) != 1 {
			n.staleF = def
			return def
		}
		for t := range found[f] {
			out = append(out, t)
		}
	}
	if out[0] == out[1] || out[1] == out[2] || out[0] == out[2] {
		out = def
	}
	n.staleF = out
	return out
}

func (n *btNames) runBase(P *Prog, sp baseSpec, fn *ssa.Function) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, base: true, noLists: true, contracts: map[string]contract{}}
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 60000
	exits := 0
	d.hook = func(K *Kern, st *State, ev string, a ...Val) {
		if ev != "mapset" {
			return
		}
		m, ok := a[0].(VPtr)
		if !ok || st.Objs[m.O] == nil || st.Objs[m.O].Typ != "stale" {
			return
		}
		k, ok := a[1].(VStruct)
		if !ok {
			K.undecided(nil, "%s remembers something unknown", name)
		}
		l0 := d.gv(st, bB).(VTup)
		good := true
		for i, f := range n.staleFields(P) {
			v, ok := k.F[f].(VInt)
			if !ok || !st.Cons.entailsEQ(v.L.sub(l0.V[i].(VInt).L)) {
				good = false
			}
		}
		if !good {
			d.fail("C12", "the exact location is remembered", "%s may remember another location than number, offset and length of the superseded copy%s", name, trOf(st))
			d.fail("C11", "the exact location is remembered", "%s may remember another location than number, offset and length of the superseded copy%s", name, trOf(st))
			return
		}
		d.ghost(st).Vals[bC] = m
	}
	und := d.execute(K, func() {
		exits = 0
		for mode := 0; mode < 16; mode++ {
			cached, stored, list, dirty := mode&1 == 0, mode&2 == 0, mode&4 == 0, mode&8 == 0
			st, tr := d.start(K, cached)
			g := st.Frames[0]
			w := st.Objs[tr]
			w.F[n.tStale] = VNil{}
			if list {
				w.F[n.tStale] = VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "stale", F: map[string]Val{}}), ""}
			}
			var h, m VInt
			if cached {
				c := st.Objs[w.F[n.nodeCache].(VPtr).O]
				h, m = d.freshInt(K, st, 0), d.freshInt(K, st, 0)
				c.F[n.hits], c.F[n.misses] = h, m
			}
			N := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.treeF: VPtr{tr, ""}, n.dirty: VBool{dirty}, n.loaded: VBool{true}}})
			o := st.Objs[N]
			z := VInt{linC(0)}
			o.F[n.num], o.F[n.off], o.F[n.length] = z, z, z
			if stored {
				o.F[n.num], o.F[n.off], o.F[n.length] = d.freshInt(K, st, 1), d.freshInt(K, st, 0), d.freshInt(K, st, 1)
			}
			it := d.freshInt(K, st, 0)
			o.F[n.items] = it
			g.Vals[bA], g.Vals[bB] = VPtr{N, ""}, VTup{[]Val{o.F[n.num], o.F[n.off], o.F[n.length], h, m, it}}
			var args []Val
			for _, p := range fn.Params {
				if pt, ok := p.Type().(*types.Pointer); ok && typeName(pt.Elem()) == n.node {
					args = append(args, VPtr{N, ""})
				} else if ok && typeName(pt.Elem()) == n.tree {
					args = append(args, VPtr{tr, ""})
				} else {
					args = append(args, VTop{"argument"})
				}
			}
			for _, x := range K.execFn(fn, args, nil, st) {
				if !x.st.Cons.feasible() {
					continue
				}
				exits++
				if debugSel == "exits" {
					fmt.Printf("--- exit %v\n%s\n", x.res, x.st.String(K))
				}
				s := x.st
				p0 := d.gv(s, bB).(VTup).V
				o := s.Objs[d.gv(s, bA).(VPtr).O]
				same := func(a, b Val) bool {
					x, ok1 := a.(VInt)
					y, ok2 := b.(VInt)
					return ok1 && ok2 && s.Cons.entailsEQ(x.L.sub(y.L))
				}
				want := dirty
				if sp.dirty != "" {
					want = sp.dirty == "true"
				}
				if o.F[n.dirty] != Val(VBool{want}) && !(sp.fn == "markNodeToBeDiscarded") {
					prop := "C09"
					if sp.dirty == "" {
						prop = "C15"
					}
					d.fail(prop, "the change mark is as it should be", "%s may leave a node with the wrong change mark%s", name, trOf(s))
				}
				if o.F[n.loaded] != Val(VBool{true}) || !same(o.F[n.items], p0[5]) {
					d.fail("C08", "marking a node changes nothing else", "%s may change the residency or item total of a node%s", name, trOf(s))
				}
				rec := s.Objs != nil && d.gv(s, bC) != Val(VNil{})
				if rec {
					if d.tree(s).F[n.tStale] != d.gv(s, bC) {
						d.fail("C12", "what is remembered is kept", "%s may remember a location in a list that is not the tree's%s", name, trOf(s))
					}
				}
				kept := same(o.F[n.num], p0[0]) && same(o.F[n.off], p0[1]) && same(o.F[n.length], p0[2])
				zero := same(o.F[n.num], z) && same(o.F[n.off], z) && same(o.F[n.length], z)
				switch {
				case sp.record && stored && !rec:
					d.fail("C12", "a superseded location is remembered", "%s may not remember the location of a superseded copy%s", name, trOf(s))
				case (!sp.record || !stored) && rec:
					d.fail("C12", "only superseded locations are remembered", "%s may remember a location that is not superseded%s", name, trOf(s))
					d.fail("C11", "only superseded locations are remembered", "%s may remember a location that is not superseded%s", name, trOf(s))
				}
				if sp.record && !zero {
					d.fail("C12", "a superseded location is remembered once", "%s may leave a node with the location of a superseded copy%s", name, trOf(s))
					d.fail("C11", "a superseded location is no longer referred to", "%s may leave a node with the location of a superseded copy%s", name, trOf(s))
				}
				if !sp.record && !kept {
					d.fail("C12", "a location in use is kept", "%s may lose or change the location of a node%s", name, trOf(s))
					d.fail("C09", "a location in use is kept", "%s may lose or change the location of a node%s", name, trOf(s))
				}
				if list && !rec && d.tree(s).F[n.tStale] == Val(VNil{}) {
					d.fail("C12", "what is remembered is kept", "%s may drop the remembered locations%s", name, trOf(s))
				}
				if list {
					if q, ok := d.tree(s).F[n.tStale].(VPtr); ok && gbool(s.Objs[q.O], "$made") {
						d.fail("C12", "what is remembered is kept", "%s may drop the remembered locations%s", name, trOf(s))
					}
				}
				if cached {
					c := s.Objs[d.tree(s).F[n.nodeCache].(VPtr).O]
					hv, ok1 := c.F[n.hits].(VInt)
					mv, ok2 := c.F[n.misses].(VInt)
					if !ok1 || !ok2 || !s.Cons.entailsEQ(hv.L.sub(p0[3].(VInt).L).addC(-sp.hit)) || !s.Cons.entailsEQ(mv.L.sub(p0[4].(VInt).L).addC(-sp.miss)) {
						d.fail("C23", "hits and misses are counted", "%s may count cache hits or misses wrongly%s", name, trOf(s))
					}
				}
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// --- reports -------------------------------------------------------------------

func (n *btNames) runReport(P *Prog, what string, fn *ssa.Function) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, base: true, contracts: map[string]contract{}}
	d.contracts = d.baseContracts()
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 20000
	exits := 0
	d.hook = func(K *Kern, st *State, ev string, a ...Val) {
		switch ev {
		case "dirty", "stale", "post", "discard", "unload", "delete", "patch", "put", "location", "clean":
			d.fail("C20", "queries change nothing", "%s may change the tree or what is stored (%s)%s", name, ev, trOf(st))
		}
	}
	und := d.execute(K, func() {
		exits = 0
		st, tr := d.start(K, true)
		c := st.Objs[st.Objs[tr].F[n.nodeCache].(VPtr).O]
		cid := st.Objs[tr].F[n.nodeCache].(VPtr).O
		paths := []string{n.low, n.high, n.items2(1), n.items2(2), n.hits, n.misses}
		names := []string{"EvictLowLimit", "EvictHighLimit", "CleanLRUItems", "DirtyLRUItems", "CacheHits", "CacheMisses"}
		for _, p := range paths {
			c.F[p] = d.freshInt(K, st, 0)
		}
		before := map[string]Val{}
		for _, p := range paths {
			before[p] = c.F[p]
		}
		var a []Val
		for _, p := range paths {
			a = append(a, c.F[p])
		}
		st.Frames[0].Vals[bB] = VTup{a}
		var args []Val
		if pt, ok := fn.Params[0].Type().(*types.Pointer); ok && typeName(pt.Elem()) == n.cache {
			args = append(args, VPtr{cid, ""})
		} else {
			args = append(args, VPtr{tr, ""})
		}
		for range fn.Params[1:] {
			args = append(args, d.freshInt(K, st, 0))
		}
		st.Frames[0].Vals[bE] = VTup{args}
		if what != "Stats" && what != "UpdateLimits" {
			rs, _ := d.lazyTree(K, st, tr, n.tRoot)
			st = rs[0].st
		}
		for _, x := range K.execFn(fn, args, nil, st) {
			if !x.st.Cons.feasible() {
				continue
			}
			exits++
			s := x.st
			p0 := d.gv(s, bB).(VTup).V
			same := func(a, b Val) bool {
				x, ok1 := a.(VInt)
				y, ok2 := b.(VInt)
				return ok1 && ok2 && s.Cons.entailsEQ(x.L.sub(y.L))
			}
			cache := s.Objs[d.tree(s).F[n.nodeCache].(VPtr).O]
			switch what {
			case "Stats":
				p, ok := x.res[0].(VPtr)
				if !ok || s.Objs[p.O] == nil {
					K.undecided(nil, "unknown result of %s", name)
				}
				for i, f := range names {
					v, ok := s.Objs[p.O].F[f]
					if !ok {
						K.undecided(nil, "the report has no field %s", f)
					}
					if !same(v, p0[i]) {
						d.fail("C23", "each figure is reported under its own name", "%s may report another figure than the current one as %s%s", name, f, trOf(s))
					}
				}
				for i, q := range paths {
					if !same(cache.F[q], p0[i]) {
						d.fail("C20", "queries change nothing", "%s may change what it reports%s", name, trOf(s))
						d.fail("C23", "reporting changes nothing", "%s may change what it reports%s", name, trOf(s))
					}
				}
			case "UpdateLimits":
				in := d.gv(s, bE).(VTup).V
				if len(in) == 3 && (!same(cache.F[n.low], in[1]) || !same(cache.F[n.high], in[2])) {
					d.fail("C23", "the limits given become the current ones", "%s may leave other limits in force than those given%s", name, trOf(s))
				}
			case "FetchLocation":
				root, ok := d.tree(s).F[n.tRoot].(VPtr)
				if !ok || len(x.res) != 3 {
					K.undecided(nil, "unknown result of %s", name)
				}
				for i, f := range []string{n.num, n.off, n.length} {
					if !same(x.res[i], s.Objs[root.O].F[f]) {
						d.fail("C23", "the location reported is that of the root", "%s may report another number, offset or length than that of the root%s", name, trOf(s))
					}
				}
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

func (n *btNames) items2(i int) string { return n.lruNames.items[i] }

// --- constructors ----------------------------------------------------------------

func (n *btNames) runNew(P *Prog, fn *ssa.Function) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, base: true, contracts: map[string]contract{}}
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 20000
	exits := 0
	d.contracts = d.baseContracts()
	und := d.execute(K, func() {
		exits = 0
		for mode := 0; mode < 4; mode++ {
			st, tr := d.start(K, true)
			// the node cache, handed over as an interface
			cache := st.Objs[tr].F[n.nodeCache]
			k := d.freshInt(K, st, 0)
			var max Lin
			legal := false
			switch mode {
			case 0:
				max = linC(0)
			case 1:
				max = k.L.scale(2).addC(1)
			case 2:
				max = linC(2)
			case 3:
				st.Cons.addGE(k.L.addC(-2))
				max, legal = k.L.scale(2), true
			}
			var args []Val
			for _, p := range fn.Params {
				switch {
				case typeName(p.Type()) == "uint64":
					args = append(args, VInt{max})
				case typeName(p.Type()) == "Compare":
					args = append(args, VFunc{S: "compare"})
				case typeName(p.Type()) == "BPlusTreeCallbacks":
					args = append(args, VSym{"callbacks"})
				default:
					args = append(args, cache)
				}
			}
			st.Frames[0].Vals[bB] = VTup{[]Val{k, cache}}
			ok := 0
			for _, x := range K.execFn(fn, args, nil, st) {
				s := x.st
				if !s.Cons.feasible() {
					continue
				}
				exits++
				d.lruEnd(s, name)
				p, isT := x.res[0].(VPtr)
				if len(x.res) > 1 {
					if _, isNil := x.res[1].(VNil); !isNil {
						continue
					}
				}
				if !isT {
					if _, isNil := x.res[0].(VNil); isNil {
						continue
					}
					K.undecided(nil, "unknown result of %s", name)
				}
				if !legal {
					d.fail("C07", "an odd or too small capacity is refused", "%s may create a tree with an odd capacity or one below four%s", name, trOf(s))
					continue
				}
				ok++
				t := s.Objs[p.O]
				g := d.gv(s, bB).(VTup).V
				bad := func(rule, f string) { d.fail("C07", rule, f+"%s", name, trOf(s)) }
				is := func(v Val, l Lin) bool {
					x, ok := v.(VInt)
					return ok && s.Cons.entailsEQ(x.L.sub(l))
				}
				kl := g[0].(VInt).L
				if !is(t.F[n.tMax], kl.scale(2)) || !is(t.F[n.tMin], kl) {
					bad("a tree has the capacity asked for", "%s may create a tree with other limits than the capacity asked for and half of it")
				}
				r, isR := t.F[n.tRoot].(VPtr)
				if !isR {
					K.undecided(nil, "%s creates a tree without a root", name)
				}
				o := s.Objs[r.O]
				for _, f := range []string{n.loaded, n.root, n.leaf} {
					if o.F[f] != Val(VBool{true}) {
						d.fail("C05", "a new tree is an empty leaf", "%s may create a root that is not a resident leaf%s", name, trOf(s))
					}
				}
				if o.F[n.dirty] != Val(VBool{true}) {
					d.fail("C09", "a new tree is unwritten", "%s may create a tree that is not marked as changed%s", name, trOf(s))
				}
				if !is(o.F[n.items], linC(0)) {
					d.fail("C06", "a new tree is empty", "%s may create a tree whose item count is not zero%s", name, trOf(s))
				}
				for _, f := range []string{n.num, n.off, n.length} {
					if !is(o.F[f], linC(0)) {
						d.fail("C12", "a new tree has no stored copy", "%s may create a root with a location%s", name, trOf(s))
					}
				}
				if o.F[n.treeF] != Val(p) {
					d.fail("C13", "a node belongs to its tree", "%s may create a root that does not refer to its tree%s", name, trOf(s))
				}
				if kv, isKV := o.F[n.kv].(VPtr); !isKV || s.Objs[kv.O] == nil || s.Objs[kv.O].Typ != "kv" {
					d.fail("C05", "a new tree is an empty leaf", "%s may create a root without contents%s", name, trOf(s))
				}
				if t.F[n.nodeCache] != g[1] {
					d.fail("C13", "the cache given is used", "%s may create a tree with another cache than the one given%s", name, trOf(s))
				}
			}
			if legal && ok == 0 {
				d.fail("C07", "a legal capacity is accepted", "%s refuses every capacity", name)
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

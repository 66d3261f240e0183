package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-tree operations: a recursive function visits a node and, through itself, its children.
// The function is judged on any one node, with its own recursion taken at its word; the
// operation then is judged by what it does with the function at the root.

type travFn struct {
	fn   *ssa.Function
	kind string
	op   string // the operation it belongs to
}

func selfCalls(P *Prog, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				fs, _ := P.callees(c.Common())
				for _, g := range fs {
					if g == f {
						return true
					}
				}
			}
		}
	}
	return false
}

// inCycle: f leads back to itself, and not by way of a visiting function already found.
func inCycle(P *Prog, f *ssa.Function, known map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var back func(x *ssa.Function) bool
	back = func(x *ssa.Function) bool {
		for _, b := range x.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				g := c.Common().StaticCallee()
				if g == f {
					return true
				}
				if g == nil || seen[g] || known[g] || g.Package() != P.SSA {
					continue
				}
				seen[g] = true
				if back(g) {
					return true
				}
			}
		}
		return false
	}
	return back(f)
}

var travOps = [][2]string{{"Flush", "flush"}, {"Purge", "purge"}, {"Touch", "touch"}, {"Discard", "discard"}, {"FetchLayoutReport", "layout"}, {"Validate", "validate"}, {"Dump", "dump"}, {"Prune", "prune"}}

// travRoles finds the visiting functions from the operations that use them.
func (n *btNames) travRoles(P *Prog) []travFn {
	base := (&bt{P: P, n: n}).baseContracts()
	var out []travFn
	known := map[*ssa.Function]bool{}
	for _, k := range travOps {
		op := P.method(n.treeT, k[0])
		if op == nil {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || f.Package() != P.SSA || known[f] {
				return
			}
			seen[f] = true
			if base[f.Name()] != nil {
				return
			}
			isNode := false
			for _, p := range f.Params {
				if pt, ok := p.Type().(*types.Pointer); ok && typeName(pt.Elem()) == n.node {
					isNode = true
				}
			}
			if isNode && (selfCalls(P, f) || inCycle(P, f, known)) {
				kind := k[1]
				if f.Signature.Results().Len() == 0 || len(out) > 0 && out[len(out)-1].op == k[0] {
					kind = ""
				}
				out = append(out, travFn{f, kind, k[0]})
				known[f] = true
				if kind == "" {
					return
				}
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					if c, ok := i.(ssa.CallInstruction); ok {
						fs, _ := P.callees(c.Common())
						for _, g := range fs {
							walk(g)
						}
					}
				}
			}
		}
		walk(op)
	}
	return out
}

// Branched: a run of children found to be empty holds no items.
func (d *bt) Branched(st *State) {
	if !d.trav {
		return
	}
	for _, id := range sortedObjs(st) {
		o := st.Objs[id]
		if o.Typ == "seg" && len(gint(o, "n").t) > 0 && !st.Cons.entailsGE(gint(o, "n").addC(-1)) && st.Cons.entailsGE(gint(o, "n").neg()) {
			st.assumeEQ(gint(o, "n"))
			st.assumeEQ(gint(o, "t"))
		}
	}
}

func (d *bt) atOf(st *State, v Val) string {
	p, ok := v.(VPtr)
	if !ok || st.Objs[p.O] == nil {
		return ""
	}
	s, _ := st.Objs[p.O].F["$at"].(VSym)
	return s.S
}

// covered: was every child of node id visited?  The second result names what may be missed.
func (d *bt) covered(st *State, id ObjID) (bool, string) {
	n := d.n
	o := st.Objs[id]
	l, hasL := o.F[n.leaf].(VBool)
	if hasL && l.B {
		return true, ""
	}
	kv, ok := o.F["$kv"].(VPtr)
	if !ok || !hasL {
		return false, "any child"
	}
	if d.atOf(st, o.F["$lf"]) != "done" {
		return false, "the leftmost child"
	}
	for _, v := range d.word(st, kv.O) {
		e := st.Objs[v.(VPtr).O]
		if e.Typ == "seg" {
			if e.F["at"] == Val(VSym{"done"}) || st.Cons.entailsGE(gint(e, "n").neg()) {
				continue
			}
			return false, "some children"
		}
		if d.atOf(st, e.F["v"]) != "done" {
			return false, "a child"
		}
	}
	return true, ""
}

// travContract: what a visit of node id does, to be used where a child, or the root, is visited.
func (d *bt) travContract(t travFn, formal map[int]Val) contract {
	n := d.n
	return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		var id ObjID
		found := false
		flag := map[int]bool{}
		for i, p := range t.fn.Params {
			pt, isP := p.Type().(*types.Pointer)
			switch {
			case isP && typeName(pt.Elem()) == n.node:
				if _, isNil := args[i].(VNil); isNil {
					d.Deref(K, st, VNil{}, at)
					return []R{}
				}
				x, ok := isNode(st, args[i], n.node)
				if !ok {
					K.undecided(at, "visit of an unknown node")
				}
				id, found = x, true
			case isP && typeName(pt.Elem()) == n.tree:
				if _, isNil := args[i].(VNil); isNil {
					d.Deref(K, st, VNil{}, at)
					return []R{}
				}
			default:
				if b, ok := args[i].(VBool); ok {
					flag[i] = b.B
					if f, ok := formal[i]; ok && f != Val(b) {
						d.fail("C21", "children are visited in the same way", "a child is visited with another %s than its parent at %s in %s%s", p.Name(), K.P.instrPos(at), fnName(at.Parent()), trOf(st))
						return []R{}
					}
				} else if _, isB := p.Type().Underlying().(*types.Basic); isB && typeName(p.Type()) != "string" {
					if b := p.Type().Underlying().(*types.Basic); b.Kind() == types.Bool {
						K.undecided(at, "visit in an unknown way")
					}
				}
			}
		}
		if !found {
			K.undecided(at, "visit of an unknown node")
		}
		self := VPtr{id, ""}
		if formal != nil && d.gv(st, bA) == Val(self) {
			d.fail("C21", "a visit descends", "the node visited is visited again from within its own visit at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
			return []R{}
		}
		if formal != nil && st.Objs[id].F[n.parent] != d.gv(st, bA) {
			K.undecided(at, "visit of a node that is not a child")
		}
		if d.atOf(st, self) != "" {
			d.fail("C21", "each node is visited once", "a node may be visited twice at %s in %s%s", K.P.instrPos(at), fnName(at.Parent()), trOf(st))
			return []R{}
		}
		var out []R
		e := st.clone()
		e.Flags["failed"] = "below"
		e.wr(id).F["$at"] = VSym{"bad"}
		out = append(out, R{e, VErr{"below"}})
		drop := func(w *Obj, fs ...string) {
			for _, f := range fs {
				delete(w.F, f)
			}
		}
		done := func(s *State) {
			s.wr(id).F["$at"] = VSym{"done"}
			out = append(out, R{s, VNil{}})
		}
		gone := func(s *State) {
			w := s.wr(id)
			drop(w, n.num, n.off, n.length, n.kv, n.left, n.rootPS, "$ad", "$adp")
			w.F[n.loaded], w.F[n.dirty] = VBool{false}, VBool{false}
			done(s)
		}
		any := false
		for _, b := range flag {
			any = any || b
		}
		switch t.kind {
		case "flush":
			for _, r := range d.known(K, st, id, n.loaded) {
				s := r.st
				switch {
				case r.v != Val(VBool{true}):
					done(s)
				case any:
					gone(s)
				default:
					w := s.wr(id)
					drop(w, n.num, n.off, n.length, "$ad", "$adp")
					w.F[n.dirty], w.F["$wc"] = VBool{false}, VBool{true}
					done(s)
				}
			}
		case "purge":
			for _, r := range d.known(K, st, id, n.loaded) {
				if r.v != Val(VBool{true}) {
					done(r.st)
					continue
				}
				for _, r2 := range d.known(K, r.st, id, n.dirty) {
					switch {
					case r2.v == Val(VBool{false}):
						gone(r2.st)
					case !any:
						done(r2.st)
					}
				}
			}
		case "touch":
			for _, r := range d.known(K, st, id, n.loaded) {
				w := r.st.wr(id)
				if r.v != Val(VBool{true}) {
					w.F[n.loaded] = VBool{true}
					drop(w, n.leaf, n.kv, n.left, n.rootPS, "$out", "$cl")
				}
				w.F[n.dirty] = VBool{true}
				w.F[n.num], w.F[n.off], w.F[n.length] = VInt{linC(0)}, VInt{linC(0)}, VInt{linC(0)}
				done(r.st)
			}
		case "discard", "validate", "dump":
			for _, r := range d.known(K, st, id, n.loaded) {
				if r.v != Val(VBool{true}) {
					w := r.st.wr(id)
					drop(w, n.leaf, n.kv, n.left, n.rootPS, "$out")
					w.F[n.loaded] = VBool{true}
				}
				done(r.st)
			}
		default:
			done(st)
		}
		return out
	}
}

func (d *bt) postContract() contract {
	n := d.n
	return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := d.nodeArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		var out []R
		for _, r := range d.known(K, st, id, n.dirty) {
			s := r.st
			if r.v != Val(VBool{true}) {
				out = append(out, R{s, VNil{}})
				continue
			}
			e := s.clone()
			e.Flags["failed"] = "post"
			out = append(out, R{e, VErr{"post"}})
			d.event(K, s, "post", VPtr{id, ""})
			w := s.wr(id)
			w.F[n.dirty], w.F["$wc"] = VBool{false}, VBool{true}
			w.F[n.num], w.F[n.off], w.F[n.length] = d.freshInt(K, s, 1), d.freshInt(K, s, 0), d.freshInt(K, s, 1)
			out = append(out, R{s, VNil{}})
		}
		return out
	}
}

// runTrav judges one visiting function on any one node.
func (n *btNames) runTrav(P *Prog, t travFn, all []travFn) btRun {
	d := &bt{P: P, n: n, fn: t.fn, bad: map[string]string{}, trav: true}
	d.counting = t.kind == "touch" || t.kind == "discard"
	name := fnName(t.fn)
	K := newKern(P, d)
	K.limit = 60000
	exits := 0
	node := func(st *State) ObjID { p, _ := d.gv(st, bA).(VPtr); return p.O }
	once := func(st *State, ev, rule string) {
		if st.Flags[ev] != "" {
			d.fail("C21", rule, "%s may do so twice to one node%s", name, trOf(st))
		}
		st.Flags[ev] = "1"
	}
	d.hook = func(K *Kern, st *State, ev string, a ...Val) {
		var id ObjID
		if len(a) > 0 {
			if p, ok := a[0].(VPtr); ok {
				id = p.O
			}
		}
		o := st.Objs[id]
		switch ev {
		case "field":
			if t.kind != "discard" && id == node(st) {
				d.stray(st, name, a)
			}
		case "location", "stale", "discard":
			if t.kind == "flush" || t.kind == "purge" {
				d.fails_([]string{"C11", "C12"}, "a node in use keeps its location", "%s may give up the location of a node%s", name, trOf(st))
			}
		}
		switch ev {
		case "dirty", "stale", "post", "discard", "unload", "delete", "patch", "put", "location", "clean":
			if t.kind == "layout" || t.kind == "validate" || t.kind == "dump" {
				if !(ev == "unload" && o != nil && (gbool(o, "$fresh") || t.kind == "layout")) {
					d.fail("C20", "queries change nothing", "%s may change the tree or what is stored (%s)%s", name, ev, trOf(st))
				}
			}
			if (ev == "delete" || ev == "patch" || ev == "put") && (t.kind == "flush" || t.kind == "purge" || t.kind == "touch") {
				d.fail("C20", "no contents are changed", "%s may change contents%s", name, trOf(st))
			}
		}
		switch ev {
		case "post":
			if id != node(st) {
				K.undecided(nil, "%s writes another node than the one visited", name)
			}
			if t.kind == "purge" {
				d.fail("C20", "a purge writes nothing", "%s may write a node%s", name, trOf(st))
			}
			if ok, what := d.covered(st, id); !ok {
				d.fail("C09", "a node is written after all below it", "%s may write a node before %s was visited%s", name, what, trOf(st))
			}
			once(st, "post", "a node is written once")
		case "clean":
			if id == node(st) && st.Flags["post"] == "" {
				d.fail("C09", "only what was written becomes clean", "%s may mark a node as written without writing it%s", name, trOf(st))
			}
		case "discard":
			if id == node(st) {
				once(st, "discard", "a node is discarded once")
			}
		case "unload":
			if id != node(st) {
				K.undecided(nil, "%s releases another node than the one visited", name)
			}
			if !gbool(o, n.loaded) && st.Flags["unload"] != "" {
				return
			}
			st.Flags["unload"] = "1"
			b, ok := o.F[n.dirty].(VBool)
			if !ok || b.B {
				d.fail("C15", "a node with unwritten changes is not released", "%s may release a node whose changes were not written%s", name, trOf(st))
			}
			if ok, what := d.covered(st, id); !ok {
				d.fail("C15", "a node is released after all below it", "%s may release a node before %s was visited%s", name, what, trOf(st))
			}
		case "mapset":
			if t.kind == "layout" {
				d.layoutSet(K, st, node(st), name, a)
			}
		case "hit", "miss":
			d.counted(K, st, ev)
		}
	}
	d.callback = func(K *Kern, st *State, m string, args []Val, at ssa.Instruction) ([]R, bool) {
		if m == "DumpKey" || m == "DumpValue" {
			e := st.clone()
			e.Flags["failed"] = "dump"
			return []R{{e, VTup{[]Val{VSym{"text"}, VErr{"dump"}}}}, {st, VTup{[]Val{VSym{"text"}, VNil{}}}}}, true
		}
		return nil, false
	}
	mapped := func() map[string]contract {
		m := d.baseContracts()
		m["postNode"] = d.postContract()
		return m
	}
	und := d.execute(K, func() {
		exits = 0
		d.contracts = mapped()
		var bools []int
		for i, p := range t.fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bools = append(bools, i)
			}
		}
		if len(bools) > 2 {
			K.undecided(nil, "%s has too many modes", name)
		}
		for mode := 0; mode < 1<<len(bools); mode++ {
			formal := map[int]Val{}
			any := false
			for j, i := range bools {
				formal[i] = VBool{mode>>j&1 == 1}
				any = any || mode>>j&1 == 1
			}
			for _, u := range all {
				if u.fn == t.fn {
					continue
				}
				if u.kind == "" {
					d.contracts[u.fn.Name()] = d.subContract()
					continue
				}
				d.contracts[u.fn.Name()] = d.otherTrav(u)
			}
			d.self = nil
			sc := d.travContract(t, formal)
			d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R { return sc(K, st, t.fn, args, at) }
			st, tr := d.start(K, true)
			g := st.Frames[0]
			N := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.treeF: VPtr{tr, ""}, "$at": VSym{""}}})
			g.Vals[bA] = VPtr{N, ""}
			args := make([]Val, len(t.fn.Params))
			for i, p := range t.fn.Params {
				if pt, ok := p.Type().(*types.Pointer); ok && typeName(pt.Elem()) == n.node {
					args[i] = VPtr{N, ""}
				} else if ok && typeName(pt.Elem()) == n.tree {
					args[i] = VPtr{tr, ""}
				} else if v, ok := formal[i]; ok {
					args[i] = v
				} else if _, ok := p.Type().Underlying().(*types.Map); ok {
					args[i] = VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "report", F: map[string]Val{}}), ""}
				} else {
					args[i] = VSym{"argument"}
				}
			}
			for _, r := range d.known(K, st, N, n.loaded) {
				for _, r2 := range d.known(K, r.st, N, n.dirty) {
					for _, r3 := range d.known(K, r2.st, N, n.num) {
						s := r3.st
						w := s.wr(N)
						delete(w.F, "$cnt")
						w.F["$l0"], w.F["$d0"], w.F["$num0"], w.F["$len0"] = r.v, r2.v, w.F[n.num], w.F[n.length]
						if d.resident && r.v != Val(VBool{true}) {
							continue
						}
						for _, x := range K.execFn(t.fn, args, nil, s.clone()) {
							if !x.st.Cons.feasible() {
								continue
							}
							exits++
							d.settle(x.st)
							if debugSel == "exits" {
								fmt.Printf("--- exit %v\n%s\n", x.res, x.st.String(K))
							}
							d.travExit(K, t, name, node(x.st), any, x)
						}
					}
				}
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// subContract: a helper that walks the search tree over the children of one node.
func (d *bt) subContract() contract {
	return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		for _, a := range args {
			if _, isNil := a.(VNil); isNil {
				d.Deref(K, st, VNil{}, at)
				return []R{}
			}
		}
		if fn.Signature.Results().Len() == 0 {
			return one(st, nil)
		}
		if fn.Signature.Results().Len() != 1 || !isErrorType(fn.Signature.Results().At(0).Type()) {
			K.undecided(at, "recursive function %s has no contract here", fnName(fn))
		}
		e := st.clone()
		e.Flags["failed"] = "below"
		return []R{{st, VNil{}}, {e, VErr{"below"}}}
	}
}

// otherTrav: one whole-tree visit started within another, on the node itself.
func (d *bt) otherTrav(u travFn) contract {
	n := d.n
	inner := d.travContract(u, nil)
	return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := d.nodeArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		if d.gv(st, bA) != Val(VPtr{id, ""}) || u.kind != "purge" {
			K.undecided(at, "%s is used on another node", fnName(u.fn))
		}
		old := st.Objs[id].F["$at"]
		keep := map[string]Val{}
		for _, k := range []string{n.leaf, "$kv", "$lf"} {
			keep[k] = st.Objs[id].F[k]
		}
		was := gbool(st.Objs[id], n.loaded)
		fresh := st.Flags["loadedhere"] != ""
		rs := inner(K, st, u.fn, args, at)
		var out []R
		for _, r := range rs {
			w := r.st.wr(id)
			w.F["$at"] = old
			for k, v := range keep {
				if v != nil {
					w.F[k] = v
				}
			}
			if _, isErr := r.v.(VErr); isErr && fresh {
				continue // nothing changed was found below a node just read
			}
			if was && !gbool(w, n.loaded) {
				d.event(K, r.st, "unload", VPtr{id, ""})
			}
			out = append(out, r)
		}
		return out
	}
}

// layoutSet: the length of a node is added, once, to the total of its object.
func (d *bt) layoutSet(K *Kern, st *State, N ObjID, name string, a []Val) {
	bad := func(rule, f string) { d.fail("C23", rule, f+"%s", name, trOf(st)) }
	o := st.Objs[N]
	num, ok1 := a[1].(VInt)
	v, ok2 := a[2].(VInt)
	m, _ := a[0].(VPtr)
	if !ok1 || !ok2 || st.Objs[m.O] == nil || st.Objs[m.O].Typ != "report" {
		K.undecided(nil, "%s records something unknown", name)
	}
	if st.Flags["mapset"] != "" {
		bad("each node is counted once", "%s may count a node twice")
		return
	}
	st.Flags["mapset"] = "1"
	if !st.Cons.entailsEQ(num.L.sub(gint(o, "$num0"))) {
		bad("a length is counted for the object it is stored in", "%s may count a node for another object than its own")
		return
	}
	prev, ok := st.Objs[m.O].F["prev"].(VInt)
	if !ok {
		bad("lengths are added up", "%s may not add to what was counted before")
		return
	}
	if !st.Cons.entailsEQ(v.L.sub(prev.L).sub(gint(o, "$len0"))) {
		bad("lengths are added up", "%s may record another sum than the previous one and the node's length")
	}
}

func (d *bt) travExit(K *Kern, t travFn, name string, N ObjID, any bool, x exitT) {
	d.lruEnd(x.st, name)
	n := d.n
	st := x.st
	o := st.Objs[N]
	at := trOf(st)
	d.visitEnd(st, name)
	if len(x.res) == 0 {
		K.undecided(nil, "%s returns nothing", name)
	}
	var isErr bool
	switch x.res[len(x.res)-1].(type) {
	case VErr, VSym:
		isErr = true
	case VNil:
	default:
		K.undecided(nil, "unknown result of %s", name)
	}
	l0, d0 := gbool(o, "$l0"), gbool(o, "$d0")
	if isErr {
		if st.Flags["failed"] == "" && !(t.kind == "purge" && any && d0) {
			p := "C21"
			if t.kind == "validate" {
				p = "C22"
			}
			d.fail(p, "no failure without cause", "%s may fail on a consistent node although nothing below it did%s", name, at)
		}
		return
	}
	if st.Flags["failed"] != "" {
		return // the business of C18
	}
	cov, what := d.covered(st, N)
	need := func(prop, rule string) {
		if !cov {
			d.fail(prop, rule, "%s may return without having visited %s%s", name, what, at)
		}
	}
	ld, dirty := gbool(o, n.loaded), gbool(o, n.dirty)
	if ld {
		if _, ok := o.F[n.kv].(VNil); ok {
			d.fail("C08", "a resident node keeps its contents", "%s may leave a resident node without contents%s", name, at)
		}
		if lf, known := o.F[n.leaf].(VBool); known && !lf.B && l0 {
			for _, f := range []string{n.left, n.rootPS} {
				if _, ok := o.F[f].(VNil); ok {
					d.fail("C08", "a resident node keeps its contents", "%s may leave a resident node without its leftmost child or its running sums%s", name, at)
				}
			}
		}
	}
	switch t.kind {
	case "flush":
		if !l0 {
			if ld {
				d.fail("C20", "a flush loads nothing", "%s may load a node%s", name, at)
			}
			return
		}
		if d0 {
			need("C09", "every changed node is written")
			if st.Flags["post"] == "" {
				d.fail("C09", "every changed node is written", "%s may return with a changed node not written%s", name, at)
			}
		}
		if any {
			need("C21", "every child is visited")
			if ld {
				d.fail("C21", "a purge releases every node it can", "%s may return with a node not released%s", name, at)
			}
		} else if d0 {
			need("C21", "every child is visited")
		}
		if ld && !any && dirty {
			d.fail("C09", "what was written is clean", "%s may leave a written node marked as changed%s", name, at)
		}
	case "purge":
		if !l0 {
			return
		}
		if any && d0 {
			d.fail("C15", "a full purge refuses a changed node", "%s may succeed although a node has unwritten changes%s", name, at)
		}
		need("C21", "every child is visited")
		if !d0 && ld {
			d.fail("C21", "a purge releases every node it can", "%s may return with a clean node not released%s", name, at)
		}
		if d0 && !ld {
			d.fail("C15", "a node with unwritten changes is not released", "%s may release a node whose changes were not written%s", name, at)
		}
	case "touch":
		need("C21", "every child is visited")
		if !ld || !dirty {
			d.fail("C21", "every node is marked", "%s may leave a node not marked as changed%s", name, at)
		}
	case "discard":
		need("C21", "every child is visited")
		if st.Flags["discard"] == "" {
			d.fail("C12", "every node of a discarded tree is released", "%s may leave the location of a node behind%s", name, at)
		}
	case "layout":
		need("C21", "every child is visited")
		if st.Flags["mapset"] == "" && !st.Cons.entailsEQ(gint(o, "$num0")) {
			d.fail("C23", "each node is counted once", "%s may not count a node that is stored%s", name, at)
		}
		if ld != l0 {
			d.fail("C23", "the layout report leaves residency as it was", "%s may leave a node resident that was not, or the reverse%s", name, at)
		}
	case "validate", "dump":
		need("C21", "every child is visited")
	}
}

// runTravOp judges a whole-tree operation by what it does at the root.
func (n *btNames) runTravOp(P *Prog, op, kind string, fn *ssa.Function, all []travFn) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, trav: true}
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 60000
	exits := 0
	d.hook = func(K *Kern, st *State, ev string, a ...Val) {
		switch ev {
		case "dirty", "stale", "post", "discard", "unload", "delete", "patch", "put", "location", "clean", "mapdel":
			if kind == "layout" || kind == "validate" || kind == "dump" {
				d.fail("C20", "queries change nothing", "%s may change the tree or what is stored (%s)%s", name, ev, trOf(st))
			}
			if kind == "prune" && ev != "mapdel" && ev != "discard" {
				d.fail("C20", "no contents are changed", "%s may change the tree (%s)%s", name, ev, trOf(st))
			}
		}
		switch ev {
		case "field":
			if kind != "discard" {
				d.stray(st, name, a)
			}
		case "location", "stale", "discard":
			if kind == "flush" || kind == "purge" || kind == "prune" {
				d.fails_([]string{"C11", "C12"}, "a node in use keeps its location", "%s may give up the location of a node%s", name, trOf(st))
			}
		}
	}
	und := d.execute(K, func() {
		exits = 0
		d.contracts = d.baseContracts()
		d.contracts["postNode"] = d.postContract()
		d.callback = func(K *Kern, st *State, m string, args []Val, at ssa.Instruction) ([]R, bool) {
			switch m {
			case "DiscardNode":
				if kind != "discard" && kind != "prune" {
					d.fail("C11", "only prune and discard release stored nodes", "%s releases a stored node at %s%s", name, K.P.instrPos(at), trOf(st))
				}
				return d.discardCall(K, st, args, at), true
			}
			return nil, false
		}
		for _, u := range all {
			u := u
			if u.kind == "" {
				d.contracts[u.fn.Name()] = d.subContract()
				continue
			}
			c := d.travContract(u, nil)
			d.contracts[u.fn.Name()] = func(K *Kern, st *State, f *ssa.Function, args []Val, at ssa.Instruction) []R {
				id, ok := d.nodeArg(K, st, args, at)
				if !ok {
					return []R{}
				}
				if !gbool(st.Objs[id], n.root) {
					d.fail("C21", "the visit starts at the root", "%s starts at another node than the root at %s%s", fnName(f), K.P.instrPos(at), trOf(st))
					return []R{}
				}
				for i, p := range f.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						// the mode asked for is the mode used
						for j, q := range fn.Params {
							if qb, ok := q.Type().Underlying().(*types.Basic); ok && qb.Kind() == types.Bool && u.kind == kind {
								if d.gv(st, bE).(VTup).V[j] != args[i] {
									d.fail("C21", "the mode asked for is used", "%s may visit in another mode than asked for at %s%s", name, K.P.instrPos(at), trOf(st))
								}
							}
						}
					}
					if _, ok := p.Type().Underlying().(*types.Map); ok {
						if m, ok := args[i].(VPtr); ok {
							d.ghost(st).Vals[bD] = m
						}
					}
				}
				st.wr(id).F["$at"] = VSym{""}
				var out []R
				for _, r := range c(K, st, f, args, at) {
					if u.kind == "touch" || u.kind == "discard" && r.st.Flags["touch"] == "" {
						// locations are remembered
						tr := d.gv(r.st, bTree).(VPtr).O
						if q, ok := r.st.Objs[tr].F["$orig"]; ok && r.st.Objs[tr].F[n.tStale] != nil && q != r.st.Objs[tr].F[n.tStale] {
							if _, o := d.staleOf(r.st); o == nil || symOf(o, "$iter") != "done" || gbool(o, "$skip") || gbool(o, "$dup") || symOf(o, "$curst") != "" {
								K.undecided(at, "locations remembered while the list is elsewhere")
							}
						}
						delete(r.st.wr(tr).F, "$emptied")
						delete(r.st.wr(tr).F, "$orig")
						delete(r.st.wr(tr).F, n.tStale)
					}
					if _, isErr := r.v.(VErr); !isErr {
						r.st.Flags[u.kind] = "1"
					}
					out = append(out, r)
				}
				return out
			}
		}
		nb := 0
		for _, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				nb++
			}
		}
		for mode := 0; mode < 1<<nb; mode++ {
			st, tr := d.start(K, true)
			g := st.Frames[0]
			args := []Val{VPtr{tr, ""}}
			j := 0
			for _, p := range fn.Params[1:] {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					args = append(args, VBool{mode>>j&1 == 1})
					j++
				} else {
					args = append(args, VSym{"argument"})
				}
			}
			g.Vals[bE] = VTup{args}
			rs, _ := d.lazyTree(K, st, tr, n.tRoot)
			g.Vals[bA] = rs[0].v
			for _, x := range K.execFn(fn, args, nil, rs[0].st) {
				if !x.st.Cons.feasible() || len(x.res) == 0 {
					continue
				}
				exits++
				if debugSel == "exits" {
					fmt.Printf("--- exit %v\n%s\n", x.res, x.st.String(K))
				}
				s := x.st
				root := d.gv(s, bA).(VPtr).O
				_, good := x.res[len(x.res)-1].(VNil)
				if kind == "discard" || kind == "prune" {
					d.staleExit(K, s, name, !good || s.Flags["failed"] != "" || s.Flags["cbfailed"] != "", kind == "discard")
				}
				switch x.res[len(x.res)-1].(type) {
				case VErr, VSym:
					if s.Flags["failed"] == "" && s.Flags["cbfailed"] == "" {
						d.fail("C21", "no failure without cause", "%s may fail although nothing it did failed%s", name, trOf(s))
					}
					continue
				case VNil:
				default:
					K.undecided(nil, "unknown result of %s", name)
				}
				if s.Flags["failed"] != "" || s.Flags["cbfailed"] != "" {
					continue // C18
				}
				if s.Flags[kind] == "" && kind != "prune" {
					d.fail("C21", "the whole tree is visited", "%s may succeed without having visited the tree from its root%s", name, trOf(s))
				}
				if op == "Flush" {
					o := s.Objs[root]
					for i, f := range []string{n.num, n.off, n.length} {
						for _, r := range d.known(K, s, root, f) {
							v, ok := x.res[i].(VInt)
							w, ok2 := r.v.(VInt)
							if !ok || !ok2 || !r.st.Cons.entailsEQ(v.L.sub(w.L)) {
								d.fail("C09", "the location returned is that of the root just written", "%s may return another location than that of the root%s", name, trOf(s))
							}
						}
						if len(x.res) < 3 {
							break
						}
					}
					_ = o
				}
				if op == "FetchLayoutReport" {
					if x.res[0] != d.gv(s, bD) {
						d.fail("C23", "the report built is returned", "%s may return another report than the one built%s", name, trOf(s))
					}
				}
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

func travProps(kind string) []string {
	switch kind {
	case "flush":
		return []string{"C08", "C09", "C11", "C12", "C13", "C15", "C20", "C21", "C06"}
	case "purge":
		return []string{"C08", "C09", "C11", "C12", "C13", "C15", "C20", "C21", "C06"}
	case "touch":
		return []string{"C21", "C20", "C13", "C09", "C23", "C06", "C08"}
	case "discard":
		return []string{"C12", "C21", "C13", "C11", "C23"}
	case "prune":
		return []string{"C12", "C11", "C20"}
	case "layout":
		return []string{"C20", "C21", "C13", "C23"}
	case "validate":
		return []string{"C20", "C21", "C22"}
	case "dump":
		return []string{"C20", "C21"}
	}
	return nil
}

var _ = strings.Join

func (d *bt) coverage(K *Kern, name string) ([]string, int) {
	miss, all := K.uncovered()
	if debugSel == "cover" {
		fmt.Printf("%s: %d blocks, not reached: %v\n", name, all, miss)
	}
	return miss, all
}

package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Validation judged from the other side: nothing is assumed about the node looked at. Its totals,
// its running sums, its links and its size are arbitrary, and so are those of its children. On a
// path that reports no error everything that ought to hold must follow from what was compared.

type valid struct{ *sums }

func (n *btNames) newValid(P *Prog, fn *ssa.Function, mode string) (*valid, *Kern) {
	d := &valid{&sums{&bt{P: P, n: n, fn: fn, bad: map[string]string{}, noLists: true}, mode, ""}}
	K := newKern(P, d)
	K.limit = 20000
	return d, K
}

func (d *valid) Lazy(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	o := st.Objs[id]
	k, _ := o.F["$k"].(VSym)
	set := func(s *State, v Val) R {
		s.wr(id).F[path] = v
		return R{s, v}
	}
	other := func(s *State, kind string) Val {
		return VPtr{K.newObj(s, &Obj{Kind: kStruct, Typ: o.Typ, F: map[string]Val{"$k": VSym{kind}}}), ""}
	}
	either := func(f func(s *State) Val) ([]R, bool) {
		t := st.clone()
		return []R{set(t, f(t)), set(st, VNil{})}, true
	}
	if o.Typ == "llrb" || o.Typ == d.mode { // in-memory tree
		switch path {
		case "left", "right":
			return either(func(s *State) Val { return other(s, "below") })
		case "len":
			return []R{set(st, d.freshInt(K, st, -1))}, true
		case "root":
			t := st.clone()
			r := VPtr{K.newObj(t, &Obj{Kind: kStruct, Typ: d.mode, F: map[string]Val{"$k": VSym{"below"}}}), ""}
			return []R{set(t, r), set(st, VNil{})}, true
		}
		return []R{set(st, VTop{path})}, true
	}
	if o.Typ != n.node {
		return nil, false
	}
	switch path {
	case n.items, n.psItems:
		return []R{set(st, d.freshInt(K, st, 0))}, true
	case n.parent:
		if k.S == "kid" {
			t := st.clone()
			return []R{set(t, d.gv(t, bA)), set(st, other(st, "stray"))}, true
		}
		if k.S == "top" || k.S == "above" {
			return either(func(s *State) Val { return other(s, "above") })
		}
	case n.left, n.rootPS:
		if k.S == "above" {
			t := st.clone()
			return []R{set(t, d.gv(t, bA)), set(st, other(st, "stray"))}, true
		}
	case n.leaf, n.dirty, n.root, n.loaded:
		if k.S == "above" {
			return []R{set(st.clone(), VBool{true}), set(st, VBool{false})}, true
		}
	case n.psParent:
		if k.S == "psroot" {
			return either(func(s *State) Val { return other(s, "stray") })
		}
		if k.S == "pskid" {
			t, u := st.clone(), st.clone()
			return []R{set(t, d.gv(t, bA)), set(u, VNil{}), set(st, other(st, "stray"))}, true
		}
	}
	if k.S != "top" {
		return nil, false
	}
	switch path {
	case n.loaded, n.root:
		return []R{set(st.clone(), VBool{true}), set(st, VBool{false})}, true
	case n.psLeft, n.psRight:
		return either(func(s *State) Val { return other(s, "pskid") })
	}
	if d.mode == "psum" {
		return nil, false
	}
	if l, ok := o.F[n.loaded].(VBool); !ok {
		return nil, false
	} else if !l.B && path != n.leaf {
		return []R{set(st, VNil{})}, true
	}
	switch path {
	case n.leaf:
		return []R{set(st.clone(), VBool{true}), set(st, VBool{false})}, true
	case n.left:
		var out []R
		for _, r := range d.knownL(K, st, id, n.leaf) {
			if r.v == Val(VBool{true}) {
				out = append(out, R{r.st, VNil{}})
				r.st.wr(id).F[path] = VNil{}
				continue
			}
			t := r.st.clone()
			l := d.newKid(K, t, d.freshInt(K, t, 0).L, "", "kid")
			d.ghost(t).Vals[bE] = l
			out = append(out, set(t, l), set(r.st, VNil{}))
		}
		return out, true
	case n.rootPS:
		return either(func(s *State) Val { return other(s, "psroot") })
	}
	return nil, false
}

func (d *valid) Facts(st *State) []Lin {
	out := d.sums.Facts(st)
	if d.mode == "node" {
		ln, _ := d.total(st, d.kidWord(st))
		t := d.tree(st)
		out = append(out, gint(t, d.n.tMax).sub(ln), ln.sub(gint(t, d.n.tMin)))
	}
	return out
}

func (d *valid) knownL(K *Kern, st *State, id ObjID, path string) []R {
	if v, ok := st.Objs[id].F[path]; ok {
		return one(st, v)
	}
	rs, ok := d.Lazy(K, st, id, path)
	if !ok {
		K.undecided(nil, "unknown %s", path)
	}
	return rs
}

func (d *valid) Fold(K *Kern, st *State, keep, noAbsorb map[ObjID]bool) {
	if d.mode == "node" {
		d.foldChildren(K, st)
	}
}

// Prune: what was found wrong is remembered before the two ways a number can be wrong come together.
func (d *valid) Prune(K *Kern, st *State) {
	if d.mode == "node" || st.Flags["wrong"] != "" {
		return
	}
	p, ok := d.gv(st, bA).(VPtr)
	if !ok || st.Objs[p.O] == nil {
		return
	}
	if d.mode == "psum" && !d.consistent(st) || d.mode != "psum" && st.Objs[p.O].Typ == d.mode && !lengthRight(st, p.O) {
		st.Flags["wrong"] = "1"
	}
}

// lengthRight: nothing read of the lengths at a node of the in-memory tree rules out that they are
// right.
func lengthRight(st *State, id ObjID) bool {
	o := st.Objs[id]
	sum := linC(1)
	for _, k := range []string{"left", "right"} {
		c, isNode := o.F[k].(VPtr)
		if !isNode {
			if o.F[k] == nil {
				return true
			}
			continue
		}
		l, ok := st.Objs[c.O].F["len"].(VInt)
		if !ok {
			return true
		}
		sum = sum.add(l.L)
	}
	l, ok := o.F["len"].(VInt)
	if !ok {
		return true
	}
	t := st.clone()
	t.Cons.addEq(l.L.sub(sum))
	return t.Cons.feasible()
}

// verdict: the outcome of a check made by another function.
func (d *valid) verdict(K *Kern, st *State, id ObjID) []R {
	e := st.clone()
	e.Flags["failed"] = "below"
	st.wr(id).F["$v"] = VBool{true}
	return []R{{st, VNil{}}, {e, VErr{"below"}}}
}

func (d *valid) Call(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, f Val, args []Val, at ssa.Instruction) ([]R, bool) {
	if com.IsInvoke() {
		if p, ok := args[0].(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "kv" {
			if com.Method.Name() == "Validate" {
				return d.verdict(K, st, p.O), true
			}
			return d.kids(K, st, p.O, com.Method.Name(), args[1:], at), true
		}
	}
	return d.bt.Call(K, st, com, fn, f, args, at)
}

// visitOf: what a recursive check of another node amounts to.
func (d *valid) visitOf(kinds ...string) contract {
	return func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		if fn.Signature.Results().Len() != 1 || !isErrorType(fn.Signature.Results().At(0).Type()) {
			K.undecided(at, "recursive function %s has no contract here", fnName(fn))
		}
		for _, a := range args {
			p, ok := a.(VPtr)
			if !ok || st.Objs[p.O] == nil {
				continue
			}
			k, _ := st.Objs[p.O].F["$k"].(VSym)
			for _, want := range kinds {
				if k.S == want {
					return d.verdict(K, st, p.O)
				}
			}
		}
		for _, a := range args {
			if _, isNil := a.(VNil); isNil {
				if d.mode != "node" && d.mode != "psum" {
					return one(st, VNil{})
				}
				d.Deref(K, st, VNil{}, at)
				return []R{}
			}
		}
		K.undecided(at, "check of an unknown node")
		return nil
	}
}

type validFn struct {
	fn   *ssa.Function
	mode string
}

// validFns: the recursive functions behind Validate.
func (n *btNames) validFns(P *Prog, all []travFn) []validFn {
	var out []validFn
	m := P.modref()
	for _, t := range all {
		if t.kind != "validate" {
			continue
		}
		out = append(out, validFn{t.fn, "node"})
		for _, u := range all {
			if u.kind == "" && m.reach[t.fn][u.fn] {
				out = append(out, validFn{u.fn, "psum"})
			}
		}
	}
	return out
}

func (n *btNames) runValid(P *Prog, v validFn, fns []validFn) btRun {
	d, K := n.newValid(P, v.fn, v.mode)
	name := fnName(v.fn)
	exits := 0
	const rule = "every inconsistency is reported"
	und := d.execute(K, func() {
		exits = 0
		for _, entries := range []bool{true, false} {
			if v.mode != "node" && entries {
				continue
			}
			st, tr := d.start(K, true)
			N := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{"$k": VSym{"top"}, n.treeF: VPtr{tr, ""}}})
			kv := K.newObj(st, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"own": VPtr{N, ""}}})
			g := st.Frames[0]
			g.Vals[bA], g.Vals[bC] = VPtr{N, ""}, VTup{}
			d.contracts = map[string]contract{}
			d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
				return d.visitOf(map[string]string{"node": "kid", "psum": "pskid"}[v.mode])(K, st, v.fn, args, at)
			}
			for _, u := range fns {
				if u.fn != v.fn {
					d.contracts[u.fn.Name()] = d.visitOf("psroot")
				}
			}
			if v.mode == "node" {
				if entries {
					cn, ct := d.freshInt(K, st, 1), d.freshInt(K, st, 0)
					g.Vals[bC] = VTup{[]Val{d.newRun(K, st, cn.L, ct.L, "")}}
				}
				d.contracts["loadNode"] = func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
					id, ok := d.nodeArg(K, st, args, at)
					if !ok {
						return []R{}
					}
					e := st.clone()
					e.Flags["failed"] = "load"
					w := st.wr(id)
					w.F[n.loaded] = VBool{true}
					for _, k := range []string{n.kv, n.left, n.rootPS, n.leaf, n.items} {
						delete(w.F, k)
					}
					w.F[n.kv] = VPtr{kv, ""}
					return []R{{st, VNil{}}, {e, VErr{"load"}}}
				}
				st.Objs[N].F[n.kv] = VPtr{kv, ""}
			}
			for _, x := range K.execFn(v.fn, d.nodeArgs(v.fn, tr, N), nil, st) {
				s := x.st
				if !s.Cons.feasible() {
					continue
				}
				exits++
				if len(x.res) == 0 {
					K.undecided(nil, "%s returns nothing", name)
				}
				switch errKind(x.res[len(x.res)-1]) {
				case 1:
					if v.mode == "psum" && s.Flags["failed"] == "" && s.Flags["wrong"] == "" && d.consistent(s) {
						d.fail("C22", "no failure without cause", "%s may fail on a consistent node although nothing below it did%s", name, trOf(s))
					}
					continue
				case -1:
					K.undecided(nil, "unknown result of %s", name)
				}
				if s.Flags["failed"] != "" {
					d.fail("C22", "an inconsistency found is reported", "%s may return no error although a check it made failed%s", name, trOf(s))
					continue
				}
				bad := func(f string) { d.fail("C22", rule+": "+f, "%s may accept a node %s%s", name, f, trOf(s)) }
				o := s.Objs[d.gv(s, bA).(VPtr).O]
				eq := func(a Val, l Lin) bool { i, ok := a.(VInt); return ok && s.Cons.entailsEQ(i.L.sub(l)) }
				if v.mode == "psum" {
					sum, ok := linC(0), true
					if it, isInt := o.F[n.items].(VInt); isInt {
						sum = it.L
					} else {
						ok = false
					}
					for _, k := range []string{n.psLeft, n.psRight} {
						c, isNode := o.F[k].(VPtr)
						if !isNode {
							if o.F[k] == nil {
								bad("whose running sums were not looked at")
							}
							continue
						}
						co := s.Objs[c.O]
						if ps, isInt := co.F[n.psItems].(VInt); isInt {
							sum = sum.add(ps.L)
						} else {
							ok = false
						}
						if co.F[n.psParent] != d.gv(s, bA) {
							bad("with a running sum below it that does not refer back")
						}
						if !gbool(co, "$v") {
							bad("with running sums below it not checked")
						}
					}
					if !ok || !eq(o.F[n.psItems], sum) {
						bad("with a wrong running sum")
					}
					continue
				}
				if o.F[n.loaded] != Val(VBool{true}) {
					bad("that was not looked at")
					continue
				}
				leaf, ok := o.F[n.leaf].(VBool)
				if !ok {
					bad("that was not looked at")
					continue
				}
				kvp, ok := o.F[n.kv].(VPtr)
				if !ok || !gbool(s.Objs[kvp.O], "$v") {
					bad("whose entries were not checked")
				}
				ln, t := d.total(s, d.kidWord(s))
				tro := d.tree(s)
				if !s.Cons.entailsGE(gint(tro, n.tMax).sub(ln)) {
					bad("with too many keys")
				}
				if o.F[n.root] != Val(VBool{true}) && !s.Cons.entailsGE(ln.sub(gint(tro, n.tMin))) {
					bad("other than the root with too few keys")
				}
				if leaf.B {
					if !eq(o.F[n.items], ln) {
						bad("with a wrong item total")
					}
					continue
				}
				word := d.kidWord(s)
				if l, isNode := o.F[n.left].(VPtr); isNode {
					word = append([]Val{l}, word...)
					t = t.add(gint(s.Objs[l.O], n.items))
				} else if o.F[n.left] == nil {
					bad("whose leftmost child was not looked at")
				}
				for _, c := range word {
					co := s.Objs[c.(VPtr).O]
					m := ""
					if co.Typ == "cs" {
						if s.Cons.entailsEQ(gint(co, "n")) {
							continue
						}
						m = co.F["m"].(VSym).S
					} else {
						m = d.mask(s, c.(VPtr).O, linC(0))
					}
					if !hasRune(m, 'q') {
						bad("with a child that need not refer to it")
					}
					if !hasRune(m, 'v') {
						bad("with a child not checked")
					}
				}
				if !eq(o.F[n.items], t) {
					bad("with a wrong item total")
				}
				r, isNode := o.F[n.rootPS].(VPtr)
				if !isNode {
					bad("without running sums")
					continue
				}
				ro := s.Objs[r.O]
				if ro.F[n.psParent] != Val(VNil{}) {
					bad("whose running sums need not start at their top")
				}
				if !gbool(ro, "$v") {
					bad("whose running sums were not checked")
				}
				if !eq(ro.F[n.psItems], t) {
					bad("whose running sums need not add up to its item total")
				}
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// consistent: nothing read of the running sums at a node rules out that they are right.
func (d *valid) consistent(st *State) bool {
	n := d.n
	o := st.Objs[d.gv(st, bA).(VPtr).O]
	sum, ok := o.F[n.items].(VInt)
	for _, k := range []string{n.psLeft, n.psRight} {
		c, isNode := o.F[k].(VPtr)
		if !isNode {
			continue
		}
		co := st.Objs[c.O]
		if p := co.F[n.psParent]; p != nil && p != d.gv(st, bA) {
			return false
		}
		if ps, isInt := co.F[n.psItems].(VInt); isInt {
			sum.L = sum.L.add(ps.L)
		} else {
			ok = false
		}
	}
	t := st.clone()
	if ps, isInt := o.F[n.psItems].(VInt); ok && isInt {
		t.Cons.addEq(ps.L.sub(sum.L))
	}
	return t.Cons.feasible()
}

func hasRune(s string, r rune) bool {
	for _, c := range s {
		if c == r {
			return true
		}
	}
	return false
}

// llrbValid: the validation of the in-memory tree, from nodes with arbitrary lengths.
func (n *btNames) llrbValid(P *Prog) []btTask {
	tree, node := llrbTypes(P)
	if tree == nil {
		return nil
	}
	op := P.method(tree, "Validate")
	if op == nil {
		return nil
	}
	var rec *ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Package() != P.SSA || rec != nil {
			return
		}
		seen[f] = true
		if f != op && selfCalls(P, f) {
			rec = f
			return
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
					}
				}
			}
		}
	}
	walk(op)
	var out []btTask
	for _, fn := range []*ssa.Function{op, rec} {
		fn := fn
		if fn == nil {
			continue
		}
		out = append(out, btTask{name: "llrb." + fn.Name(), what: "validation: " + fnName(fn), props: []string{"C22"}, fn: fn, run: func(bool) btRun {
			return n.runLLRBValid(P, fn, rec, tree.Obj().Name(), node.Obj().Name())
		}})
	}
	return out
}

func llrbTypes(P *Prog) (tree, node *types.Named) {
	for _, t := range P.implementors(P.iface("SortedMap")) {
		if typeHas(t, "root", "Compare") {
			if s := fieldType(t, "root"); s != nil {
				if n := derefNamed(s); n != nil && typeHas(n, "left", "right", "color", "len") {
					return t, n
				}
			}
		}
	}
	return nil, nil
}

func (n *btNames) runLLRBValid(P *Prog, fn, rec *ssa.Function, tree, node string) btRun {
	d, K := n.newValid(P, fn, node)
	name := fnName(fn)
	exits := 0
	und := d.execute(K, func() {
		exits = 0
		st, _ := d.start(K, true)
		d.contracts = map[string]contract{}
		var top VPtr
		if fn == rec {
			top = VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: node, F: map[string]Val{"$k": VSym{"top"}}}), ""}
			d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
				return d.visitOf("below")(K, st, fn, args, at)
			}
		} else {
			top = VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "llrb", F: map[string]Val{}}), ""}
			if rec != nil {
				d.contracts[rec.Name()] = d.visitOf("below")
			}
		}
		st.Frames[0].Vals[bA] = top
		args := make([]Val, len(fn.Params))
		for i := range args {
			args[i] = VTop{"argument"}
		}
		args[0] = top
		for _, x := range K.execFn(fn, args, nil, st) {
			s := x.st
			if !s.Cons.feasible() {
				continue
			}
			exits++
			if len(x.res) == 0 {
				K.undecided(nil, "%s returns nothing", name)
			}
			switch errKind(x.res[len(x.res)-1]) {
			case 1:
				if s.Flags["failed"] != "" || fn != rec {
					continue
				}
			case -1:
				K.undecided(nil, "unknown result of %s", name)
			default:
				if s.Flags["failed"] != "" {
					d.fail("C22", "an inconsistency found is reported", "%s may return no error although a check it made failed%s", name, trOf(s))
					continue
				}
			}
			isErr := errKind(x.res[len(x.res)-1]) == 1
			bad := func(f string) {
				d.fail("C22", "every inconsistency is reported: "+f, "%s may accept a node %s%s", name, f, trOf(s))
			}
			o := s.Objs[d.gv(s, bA).(VPtr).O]
			fields, sum := []string{"root"}, linC(1)
			if fn == rec {
				fields = []string{"left", "right"}
			}
			full := true
			for _, k := range fields {
				c, isNode := o.F[k].(VPtr)
				if !isNode {
					if o.F[k] == nil {
						full = false
						if !isErr {
							bad("without having looked at what is below it")
						}
					}
					continue
				}
				if rec == nil {
					K.undecided(nil, "the items are checked in an unknown way")
				}
				if !gbool(s.Objs[c.O], "$v") && !isErr {
					bad("with a sub-tree not checked")
				}
				if l, ok := s.Objs[c.O].F["len"].(VInt); ok {
					sum = sum.add(l.L)
				} else {
					full = false
				}
			}
			if fn != rec {
				continue
			}
			l, ok := o.F["len"].(VInt)
			same := ok && full && s.Cons.entailsEQ(l.L.sub(sum))
			if !isErr && !same {
				bad("with a wrong length")
			}
			if isErr && s.Flags["wrong"] == "" && lengthRight(s, d.gv(s, bA).(VPtr).O) {
				d.fail("C22", "no failure without cause", "%s may fail on a node whose length is right%s", name, trOf(s))
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The stored image of a node.
//
// The writer is interpreted with byte strings as sequences of pieces (a number, a flag, a packed
// key or value, and "everything marked as emitted so far"), the reader with byte strings as
// positions in an image of the same layout:
//
//	items root leaf [capacity if root] count
//	leaf:     count times (key value)
//	non-leaf: location of the leftmost child (number offset length items), count-1 times (key location)
//
// Entries are emitted (decoded) one by one in loops of unknown length: the pieces of the node's
// contents carry a mark, and whatever is marked is summarised.  If neither side follows the layout
// the format is another one and nothing is decided.

type codec struct {
	read   bool
	orders map[string]bool
}

func mkBytes(p ...Val) Val { return VTup{append([]Val{VSym{"bytes"}}, p...)} }

func bytesOf(v Val) ([]Val, bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VTup:
		if len(x.V) > 0 && x.V[0] == Val(VSym{"bytes"}) {
			return x.V[1:], true
		}
	}
	return nil, false
}

func piece(tag string, v Val) Val { return VTup{[]Val{VSym{tag}, v}} }

func pieceOf(v Val) (string, Val) {
	t := v.(VTup)
	return t.V[0].(VSym).S, t.V[1]
}

func restOf(v Val) (string, bool) {
	if x, ok := v.(VTup); ok && len(x.V) == 2 && x.V[0] == Val(VSym{"rest"}) {
		return x.V[1].(VSym).S, true
	}
	return "", false
}

func mkRest(phase string) Val { return VTup{[]Val{VSym{"rest"}, VSym{phase}}} }

// orderSym: the byte order the package's global stands for.
func orderSym(P *Prog, name string) string {
	g, _ := P.SSA.Members[name].(*ssa.Global)
	if g == nil {
		return "order " + name
	}
	src, n := "", 0
	for _, m := range P.SSA.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					n++
					if u, ok := s.Val.(*ssa.UnOp); ok {
						if h, ok := u.X.(*ssa.Global); ok {
							src = h.Name()
						}
					}
				}
			}
		}
	}
	if n == 1 && src != "" {
		return "order " + src
	}
	return "order " + name
}

// flatFields lists the basic fields of a structure in order of declaration.
func flatFields(t types.Type, pre string) (names, kinds []string, ok bool) {
	s, isS := t.Underlying().(*types.Struct)
	if !isS {
		return nil, nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Kind() == types.Uint64:
				kinds = append(kinds, "u")
			case u.Kind() == types.Bool:
				kinds = append(kinds, "b")
			default:
				kinds = append(kinds, u.Name())
			}
			names = append(names, pre+f.Name())
		case *types.Slice:
			kinds = append(kinds, "rest")
			names = append(names, pre+f.Name())
		case *types.Struct:
			n, k, ok := flatFields(u, pre+f.Name()+".")
			if !ok {
				return nil, nil, false
			}
			names, kinds = append(names, n...), append(kinds, k...)
		default:
			return nil, nil, false
		}
	}
	return names, kinds, true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		if p, isP := t.Underlying().(*types.Pointer); isP {
			if a, isA := p.Elem().Underlying().(*types.Array); isA {
				b, ok := a.Elem().Underlying().(*types.Basic)
				return ok && b.Kind() == types.Byte
			}
		}
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (d *bt) codecInstr(K *Kern, st *State, ins ssa.Instruction) ([]R, bool) {
	switch x := ins.(type) {
	case *ssa.MakeSlice:
		if isByteSlice(x.Type()) {
			if c, ok := cstOf(st, K.val(st, x.Len)); ok && c == 0 {
				return one(st, mkBytes()), true
			}
			return one(st, VTop{"byte slice"}), true
		}
	case *ssa.IndexAddr:
		if isByteSlice(x.X.Type()) {
			K.undecided(ins, "single bytes of an image are handled")
		}
	case *ssa.Slice:
		if !isByteSlice(x.X.Type()) {
			return nil, false
		}
		v := K.val(st, x.X)
		if p, ok := v.(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "array" {
			if len(st.Objs[p.O].F) == 0 {
				return one(st, mkBytes()), true
			}
			if c, ok := x.High.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 && x.Low == nil {
				return one(st, mkBytes()), true
			}
			return one(st, VTop{"byte slice"}), true
		}
		if _, ok := bytesOf(v); ok {
			if x.High == nil && (x.Low == nil || isZero(st, K.val(st, x.Low))) {
				return one(st, v), true
			}
			if x.High != nil && isZero(st, K.val(st, x.High)) {
				return one(st, mkBytes()), true
			}
			return one(st, VTop{"byte slice"}), true
		}
		if ph, ok := restOf(v); ok {
			if x.High != nil {
				return one(st, VTop{"byte slice"}), true
			}
			if x.Low == nil || isZero(st, K.val(st, x.Low)) {
				return one(st, v), true
			}
			return d.advance(K, st, ph, K.val(st, x.Low), ins), true
		}
		return one(st, VTop{"byte slice"}), true
	}
	return nil, false
}

func isZero(st *State, v Val) bool {
	c, ok := cstOf(st, v)
	return ok && c == 0
}

// codecCall: the packing library and byte strings.
func (d *bt) codecCall(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, args []Val, at ssa.Instruction) ([]R, bool) {
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		switch b.Name() {
		case "len":
			if !isByteSlice(com.Args[0].Type()) {
				return nil, false
			}
			if _, ok := restOf(args[0]); ok {
				return one(st, d.ph(st, phLeft)), true
			}
			if p, ok := bytesOf(args[0]); ok {
				if len(p) == 0 {
					return one(st, VInt{linC(0)}), true
				}
				return one(st, d.lenOf(K, st, args[0])), true
			}
			return one(st, d.freshInt(K, st, 0)), true
		case "append":
			if !isByteSlice(com.Args[0].Type()) || len(args) != 2 {
				return nil, false
			}
			a, ok1 := bytesOf(args[0])
			c, ok2 := bytesOf(args[1])
			if !ok1 || !ok2 {
				return one(st, VTop{"append"}), true
			}
			return one(st, d.concat(K, st, a, c, at)), true
		}
		return nil, false
	}
	if fn == nil || fn.Package() == nil || !strings.HasSuffix(fn.Package().Pkg.Path(), "cstruct") {
		return nil, false
	}
	argT := func(i int) types.Type {
		if m, ok := com.Args[i].(*ssa.MakeInterface); ok {
			return m.X.Type()
		}
		return nil
	}
	order := func(i int) {
		s, _ := args[i].(VSym)
		if !strings.HasPrefix(s.S, "order ") {
			K.undecided(at, "unknown byte order")
		}
		d.codec.orders[s.S] = true
	}
	switch fn.Name() {
	case "Pack":
		v, ok := args[0].(VStruct)
		t := argT(0)
		if !ok {
			if p, isP := args[0].(VPtr); isP && st.Objs[p.O] != nil && t != nil {
				if pt, isPt := t.Underlying().(*types.Pointer); isPt {
					t = pt.Elem()
					v = VStruct{F: map[string]Val{}}
					pre := p.P
					if pre != "" {
						pre += "."
					}
					for k, w := range st.Objs[p.O].F {
						if strings.HasPrefix(k, pre) {
							v.F[k[len(pre):]] = w
						}
					}
					ok = true
				}
			}
		}
		if !ok || t == nil {
			K.undecided(at, "something unknown is packed")
		}
		order(1)
		names, kinds, ok := flatFields(t, "")
		if !ok {
			K.undecided(at, "a structure of unknown layout is packed")
		}
		e := st.clone()
		e.Flags["failed"] = "pack"
		var ps []Val
		for i, f := range names {
			w, ok := v.F[f]
			if !ok {
				K.undecided(at, "field %s of a packed structure is unknown", f)
			}
			if kinds[i] == "rest" {
				in, ok := bytesOf(w)
				if t, isTop := w.(VTop); isTop && t.Why == "image" {
					return []R{}, true // reported
				}
				if !ok {
					K.undecided(at, "an unknown byte string is packed")
				}
				ps = append(ps, in...)
				continue
			}
			ps = append(ps, piece(kinds[i], w))
		}
		return []R{{e, VTup{[]Val{VNil{}, VErr{"pack"}}}}, {st, VTup{[]Val{mkBytes(ps...), VNil{}}}}}, true
	case "Unpack":
		t := argT(1)
		p, ok := args[1].(VPtr)
		if t == nil || !ok {
			K.undecided(at, "decoding into something unknown")
		}
		pt, isP := t.Underlying().(*types.Pointer)
		if !isP {
			K.undecided(at, "decoding into something unknown")
		}
		order(2)
		ph, ok := restOf(args[0])
		if !ok {
			K.undecided(at, "an unknown byte string is decoded")
		}
		return d.decode(K, st, ph, p, pt.Elem(), at), true
	}
	return nil, false
}

// --- writer -------------------------------------------------------------------

// lenOf: the length of a byte string, the same for the same string.
func (d *bt) lenOf(K *Kern, st *State, b Val) Val {
	m, _ := d.gv(st, bD).(VTup)
	for i := 0; i+1 < len(m.V); i += 2 {
		if reflect.DeepEqual(m.V[i], b) {
			return m.V[i+1]
		}
	}
	v := d.freshInt(K, st, 1)
	d.ghost(st).Vals[bD] = VTup{append(append([]Val{}, m.V...), b, v)}
	return v
}

func (d *bt) codecFail(rule, f string, a ...interface{}) {
	d.fail("C10", rule, f, a...)
}

// concat appends, and summarises entries emitted in full.
func (d *bt) concat(K *Kern, st *State, a, b []Val, at ssa.Instruction) Val {
	ps := append(append([]Val{}, a...), b...)
	var out []Val
	for i := 0; i < len(ps); i++ {
		tag, v := pieceOf(ps[i])
		if tag != "key" {
			if tag == "val" {
				d.codecFail("each key is stored with its own value", "%s may store a value that does not follow its key (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
				return VTop{"image"}
			}
			out = append(out, ps[i])
			continue
		}
		k, ok := v.(VPtr)
		if !ok {
			K.undecided(at, "an unknown key is stored")
		}
		kv, ent := d.kvOf(st, k)
		if ent == 0 {
			K.undecided(at, "a key of unknown origin is stored")
		}
		w := d.word(st, kv)
		next := -1
		for j, e := range w {
			if !gbool(st.Objs[e.(VPtr).O], "$em") {
				next = j
				break
			}
		}
		run := len(out) > 0
		if run {
			t, _ := pieceOf(out[len(out)-1])
			run = t == "run"
		}
		if next < 0 || w[next] != Val(VPtr{ent, ""}) || (next > 0) != run {
			d.codecFail("the entries of a node are stored in order, each once", "%s may store the entries of a node out of order, twice, or not from the first one on (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
			return VTop{"image"}
		}
		val := st.Objs[ent].F["v"]
		need := 1
		c, isN := isNode(st, val, d.n.node)
		if isN {
			need = 4
		}
		if i+need >= len(ps) {
			out = append(out, ps[i:]...)
			break
		}
		if isN {
			if !d.isRef(st, ps[i+1:i+5], c) {
				d.codecFail("each key is stored with its child's location", "%s may store a key with something else than number, offset, length and item total of its child (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
				return VTop{"image"}
			}
		} else if t, x := pieceOf(ps[i+1]); t != "val" || x != val {
			d.codecFail("each key is stored with its own value", "%s may store a key without its own value behind it (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
			return VTop{"image"}
		}
		// every other byte string with the entries emitted so far is out of date
		st.mapVals(func(v Val) Val {
			if x, ok := v.(VTup); ok {
				if q, ok := bytesOf(x); ok {
					for _, y := range q {
						if t, _ := pieceOf(y); t == "run" {
							return VTop{"earlier byte string"}
						}
					}
				}
			}
			return v
		})
		st.wr(ent).F["$em"] = VBool{true}
		if !run {
			out = append(out, piece("run", VPtr{kv, ""}))
		}
		i += need
	}
	if len(out) > 24 {
		d.codecFail("the entries of a node are stored in order, each once", "%s may store something else than keys, each with its value or child (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
		return VTop{"image"}
	}
	return mkBytes(out...)
}

func (d *bt) isRef(st *State, ps []Val, c ObjID) bool {
	for i, f := range []string{d.n.num, d.n.off, d.n.length, d.n.items} {
		t, v := pieceOf(ps[i])
		if t != "u" || !sameInt(st, v, st.Objs[c].F[f]) {
			return false
		}
	}
	return true
}

func sameInt(st *State, a, b Val) bool {
	x, ok1 := a.(VInt)
	y, ok2 := b.(VInt)
	return ok1 && ok2 && st.Cons.entailsEQ(x.L.sub(y.L))
}

// judgeImage: is the image handed to the storage complete?
func (d *bt) judgeImage(K *Kern, st *State, id ObjID, img []Val) {
	n := d.n
	o := st.Objs[id]
	bad := func(what string) {
		d.codecFail("the image of a node is complete", "%s may store an image in which %s not as it should be%s", fnName(d.fn), what, trOf(st))
	}
	pos := 0
	num := func(what string, l Lin) bool {
		if pos >= len(img) {
			bad(what)
			return false
		}
		t, v := pieceOf(img[pos])
		pos++
		x, ok := v.(VInt)
		if t != "u" || !ok || !st.Cons.entailsEQ(x.L.sub(l)) {
			bad(what)
			return false
		}
		return true
	}
	flag := func(what, f string) bool {
		if pos >= len(img) {
			bad(what)
			return false
		}
		t, v := pieceOf(img[pos])
		pos++
		if t != "b" || v != o.F[f] {
			bad(what)
			return false
		}
		return true
	}
	if !num("the item total is", gint(o, n.items)) || !flag("the root mark is", n.root) || !flag("the leaf mark is", n.leaf) {
		return
	}
	if gbool(o, n.root) && !num("the capacity of the tree is", gint(d.tree(st), n.tMax)) {
		return
	}
	kv, ok := o.F[n.kv].(VPtr)
	if !ok {
		bad("the contents are")
		return
	}
	ln := d.kvLen(st, kv.O)
	if gbool(o, n.leaf) {
		if !num("the number of pairs is", ln) {
			return
		}
	} else {
		if !num("the number of children is", ln.addC(1)) {
			return
		}
		l, ok := o.F[n.left].(VPtr)
		if !ok || pos+4 > len(img) || !d.isRef(st, img[pos:pos+4], l.O) {
			bad("the location of the leftmost child is")
			return
		}
		pos += 4
	}
	for _, e := range d.word(st, kv.O) {
		if !gbool(st.Objs[e.(VPtr).O], "$em") {
			if st.Cons.entailsEQ(d.pieceLen(st, e)) {
				continue
			}
			bad("an entry is missing or an earlier one is")
			return
		}
	}
	if len(d.word(st, kv.O)) > 0 {
		if pos >= len(img) {
			bad("the entries are")
			return
		}
		if t, v := pieceOf(img[pos]); t != "run" || v != Val(kv) {
			bad("the entries are")
			return
		}
		pos++
	}
	if pos != len(img) {
		bad("the end is")
	}
}

func (n *btNames) runWriter(P *Prog, fn *ssa.Function) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, base: true, noRoot: true, free: true, codec: &codec{orders: map[string]bool{}}}
	d.contracts = d.baseContracts()
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 60000
	exits := 0
	d.callback = func(K *Kern, st *State, m string, args []Val, at ssa.Instruction) ([]R, bool) {
		e := st.clone()
		e.Flags["failed"] = m
		switch m {
		case "PackKey", "PackValue":
			tag := map[string]string{"PackKey": "key", "PackValue": "val"}[m]
			p, ok := args[0].(VPtr)
			if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != tag {
				if ok && st.Objs[p.O] != nil {
					d.codecFail("keys are packed as keys, values as values", "%s may hand something else to %s (%s)%s", name, m, K.P.instrPos(at), trOf(st))
					return []R{}, true
				}
				K.undecided(at, "%s of something unknown", m)
			}
			return []R{{e, VTup{[]Val{VNil{}, VErr{m}}}}, {st, VTup{[]Val{mkBytes(piece(tag, p)), VNil{}}}}}, true
		case "PutNode":
			img, ok := bytesOf(args[0])
			if !ok {
				if t, isTop := args[0].(VTop); isTop && t.Why == "image" {
					return []R{}, true // reported
				}
				K.undecided(at, "an unknown byte string is stored")
			}
			N := d.gv(st, bA).(VPtr).O
			if st.Flags["put"] != "" {
				d.codecFail("a node is stored once", "%s may store a node twice (%s)%s", name, K.P.instrPos(at), trOf(st))
			}
			d.judgeImage(K, st, N, img)
			ln := d.lenOf(K, st, args[0])
			num, off := d.freshInt(K, st, 1), d.freshInt(K, st, 0)
			d.ghost(st).Vals[bC] = VTup{[]Val{num, off, ln}}
			st.Flags["put"] = "1"
			return []R{{e, VTup{[]Val{VInt{linC(0)}, VInt{linC(0)}, VErr{m}}}}, {st, VTup{[]Val{num, off, VNil{}}}}}, true
		}
		return nil, false
	}
	und := d.execute(K, func() {
		exits = 0
		for mode := 0; mode < 8; mode++ {
			root, leaf, dirty := mode&1 == 0, mode&2 == 0, mode&4 == 0
			st, tr := d.start(K, true)
			N := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.treeF: VPtr{tr, ""}, n.dirty: VBool{dirty}, n.loaded: VBool{true}, n.root: VBool{root}, n.leaf: VBool{leaf}, "$at": VSym{""}}})
			o := st.Objs[N]
			z := VInt{linC(0)}
			o.F[n.num], o.F[n.off], o.F[n.length] = z, z, z
			if !dirty {
				o.F[n.num], o.F[n.off], o.F[n.length] = d.freshInt(K, st, 1), d.freshInt(K, st, 0), d.freshInt(K, st, 1)
			}
			if root {
				st.Objs[tr].F[n.tRoot] = VPtr{N, ""}
			}
			g := st.Frames[0]
			g.Vals[bA], g.Vals[bB] = VPtr{N, ""}, VTup{[]Val{o.F[n.num], o.F[n.off], o.F[n.length]}}
			ok := 0
			for _, s := range d.open(K, st, N) {
				s.Frames[0].Vals[bE] = s.Objs[N].F[n.items]
				for _, x := range K.execFn(fn, d.nodeArgs(fn, tr, N), nil, s) {
					if !x.st.Cons.feasible() {
						continue
					}
					exits++
					d.lruEnd(x.st, name)
					d.writerExit(K, x, name, dirty)
					if _, isNil := x.res[len(x.res)-1].(VNil); isNil {
						ok++
					}
				}
			}
			if ok == 0 && len(d.bad) == 0 {
				d.fail("C09", "every changed node can be stored", "%s fails for every node of some kind (root %v, leaf %v, changed %v)", name, root, leaf, dirty)
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	r := btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
	n.wOrders = d.codec.orders
	return r
}

func (d *bt) nodeArgs(fn *ssa.Function, tr, N ObjID) []Val {
	var args []Val
	for _, p := range fn.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && typeName(pt.Elem()) == d.n.node {
			args = append(args, VPtr{N, ""})
		} else if ok && typeName(pt.Elem()) == d.n.tree {
			args = append(args, VPtr{tr, ""})
		} else {
			args = append(args, VTop{"argument"})
		}
	}
	return args
}

func (d *bt) writerExit(K *Kern, x exitT, name string, dirty bool) {
	n := d.n
	s := x.st
	if debugSel == "exits" {
		fmt.Printf("--- exit %v\n%s\n", x.res, s.String(K))
	}
	N := d.gv(s, bA).(VPtr).O
	o := s.Objs[N]
	p0 := d.gv(s, bB).(VTup).V
	_, okRes := x.res[len(x.res)-1].(VNil)
	if _, isErr := x.res[len(x.res)-1].(VErr); !okRes && !isErr {
		K.undecided(nil, "unknown result of %s", name)
	}
	put := s.Flags["put"] != ""
	kept := sameInt(s, o.F[n.num], p0[0]) && sameInt(s, o.F[n.off], p0[1]) && sameInt(s, o.F[n.length], p0[2])
	if !sameInt(s, o.F[n.items], d.gv(s, bE)) {
		d.fail("C20", "storing a node changes nothing in it", "%s may change the item total of the node it stores%s", name, trOf(s))
	}
	if !dirty {
		if put {
			d.fail("C12", "only changed nodes are stored", "%s may store a node that has a stored copy already, losing the location of that copy%s", name, trOf(s))
		} else if !kept {
			d.fail("C09", "a location in use is kept", "%s may lose the location of an unchanged node%s", name, trOf(s))
		}
		return
	}
	switch {
	case okRes && !put:
		d.fail("C09", "success means the node is stored", "%s may report success without storing a changed node%s", name, trOf(s))
	case okRes && s.Flags["failed"] != "":
		d.fail("C09", "success means the node is stored", "%s may report success although %s failed%s", name, s.Flags["failed"], trOf(s))
	case okRes:
		w := d.gv(s, bC).(VTup).V
		if !sameInt(s, o.F[n.num], w[0]) || !sameInt(s, o.F[n.off], w[1]) || !sameInt(s, o.F[n.length], w[2]) {
			d.codecFail("the location of the image is recorded exactly", "%s may record another location than that of the image: number and offset returned, length of the image%s", name, trOf(s))
			d.fail("C09", "the location of the image is recorded exactly", "%s may record another location than that of the image: number and offset returned, length of the image%s", name, trOf(s))
		}
		if o.F[n.dirty] != Val(VBool{false}) {
			d.fail("C09", "a stored node is no longer marked as changed", "%s may leave a stored node marked as changed%s", name, trOf(s))
		}
	default:
		if o.F[n.dirty] != Val(VBool{true}) || !kept {
			d.fail("C09", "a node that could not be stored stays changed", "%s may fail and yet leave the node marked as stored, or with a location%s", name, trOf(s))
			d.fail("C15", "a node that could not be stored stays changed", "%s may fail and yet leave the node marked as stored, or with a location%s", name, trOf(s))
		}
	}
}

// --- reader -------------------------------------------------------------------

const ( // bC: where in the image the reader is
	phName = iota
	phNext // decoded but not yet passed over; "" otherwise
	phCons // how many bytes that takes
	phLeft // how many bytes are left
	phLen
)

func (d *bt) ph(st *State, i int) Val { return d.gv(st, bC).(VTup).V[i] }

func (d *bt) setPh(st *State, i int, v Val) {
	t := append([]Val{}, d.gv(st, bC).(VTup).V...)
	t[i] = v
	d.ghost(st).Vals[bC] = VTup{t}
}

func (d *bt) enter(K *Kern, st *State, phase string) Val {
	d.ghost(st).Vals[bC] = VTup{[]Val{VSym{phase}, VSym{""}, VInt{linC(0)}, d.freshInt(K, st, 0)}}
	return mkRest(phase)
}

// decoded: the item at this place has been decoded; next: what lies behind it.
func (d *bt) decoded(K *Kern, st *State, next string) Val {
	c := d.freshInt(K, st, 1)
	d.setPh(st, phNext, VSym{next})
	d.setPh(st, phCons, c)
	return c
}

// advance: the reader passes over what it decoded.
func (d *bt) advance(K *Kern, st *State, ph string, low Val, at ssa.Instruction) []R {
	next := d.ph(st, phNext).(VSym).S
	if d.ph(st, phName) != Val(VSym{ph}) {
		return one(st, VTop{"byte slice"})
	}
	if next == "" {
		K.undecided(at, "part of an image is passed over undecoded")
	}
	if !sameInt(st, low, d.ph(st, phCons)) {
		if _, ok := low.(VInt); !ok {
			K.undecided(at, "an unknown number of bytes is passed over")
		}
		d.codecFail("exactly what was decoded is passed over", "%s may pass over another number of bytes than were decoded (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
		return []R{}
	}
	st.mapVals(func(v Val) Val {
		if _, ok := restOf(v); ok {
			return VTop{"passed part of an image"}
		}
		return v
	})
	return one(st, d.enter(K, st, next))
}

func (d *bt) deviates(K *Kern, st *State, at ssa.Instruction, what string) []R {
	d.codecFail("an image is decoded in the order written", "%s may decode %s (%s)%s", fnName(d.fn), what, K.P.instrPos(at), trOf(st))
	return []R{}
}

// place checks that the reader is at this part of the image and has not decoded it before.
func (d *bt) fresh(K *Kern, st *State, ph string, at ssa.Instruction) bool {
	if d.ph(st, phName) != Val(VSym{ph}) {
		K.undecided(at, "an earlier part of an image is decoded again")
	}
	if d.ph(st, phNext) != Val(VSym{""}) {
		d.codecFail("exactly what was decoded is passed over", "%s may decode the same part of an image twice (%s)%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
		return false
	}
	return true
}

func (d *bt) decode(K *Kern, st *State, ph string, to VPtr, t types.Type, at ssa.Instruction) []R {
	n := d.n
	names, kinds, ok := flatFields(t, "")
	if !ok || st.Objs[to.O] == nil {
		K.undecided(at, "decoding into something unknown")
	}
	if !d.fresh(K, st, ph, at) {
		return []R{}
	}
	pre := to.P
	if pre != "" {
		pre += "."
	}
	e := st.clone()
	e.Flags["failed"] = "decode"
	fail := R{e, VTup{[]Val{VInt{linC(0)}, VErr{"decode"}}}}
	want := map[string]string{"raw": "u b b rest", "max": "u", "count": "u", "left": "u u u u", "ref": "u u u u"}[ph]
	got := strings.Join(kinds, " ")
	if want != got {
		return d.deviates(K, st, at, map[string]string{"raw": "the head", "max": "the capacity", "count": "the count", "left": "the location of the leftmost child", "ref": "the location of a child", "key": "a key", "val": "a value"}[ph]+" as something else")
	}
	N := d.gv(st, bA).(VPtr).O
	g := func(s *State) *Frame { return d.ghost(s) }
	switch ph {
	case "raw":
		var out []R
		root := d.gv(st, bB).(VTup).V[1]
		for _, leaf := range []bool{true, false} {
			s := st.clone()
			it := d.freshInt(K, s, 0)
			var rest Val
			if gbool(s.Objs[N], n.root) {
				rest = d.enter(K, s, "max")
			} else {
				rest = d.enter(K, s, "count")
			}
			w := s.wr(to.O)
			w.F[pre+names[0]], w.F[pre+names[1]], w.F[pre+names[2]], w.F[pre+names[3]] = it, root, VBool{leaf}, rest
			g(s).Vals[bE] = VTup{[]Val{it, VBool{leaf}, VInt{linC(0)}, VInt{linC(0)}, VInt{linC(0)}}}
			c := d.freshInt(K, s, 1)
			out = append(out, R{s, VTup{[]Val{c, VNil{}}}})
		}
		return append(out, fail)
	case "max", "count":
		v := d.freshInt(K, st, 0)
		st.wr(to.O).F[pre+names[0]] = v
		i, next := 2, "count"
		if ph == "count" {
			i, next = 3, "left"
			if d.gv(st, bE).(VTup).V[1] == Val(VBool{true}) {
				next = "key"
			}
		} else {
			st.Cons.addGE(v.L.addC(-4))
		}
		d.setE(st, i, v)
		return []R{fail, {st, VTup{[]Val{d.decoded(K, st, next), VNil{}}}}}
	}
	var vs []Val
	for i, f := range names {
		min := int64(0)
		if i != 1 {
			min = 1
		}
		v := d.freshInt(K, st, min)
		vs = append(vs, v)
		st.wr(to.O).F[pre+f] = v
	}
	switch ph {
	case "left":
		d.setE(st, 5, VTup{vs})
	case "ref":
		done := d.gv(st, bE).(VTup).V[4].(VInt)
		d.setE(st, 4, VInt{done.L.addC(1)})
		bd := d.gv(st, bF).(VTup)
		g(st).Vals[bF] = VTup{append([]Val{bd.V[0]}, vs...)}
		st.Flags["unput"] = "1"
	}
	return []R{fail, {st, VTup{[]Val{d.decoded(K, st, "key"), VNil{}}}}}
}

// setE: what was decoded so far (bE: item total, leaf, capacity, count, pairs, leftmost child).
func (d *bt) setE(st *State, i int, v Val) {
	t := append([]Val{}, d.gv(st, bE).(VTup).V...)
	for len(t) <= i {
		t = append(t, VNil{})
	}
	t[i] = v
	d.ghost(st).Vals[bE] = VTup{t}
}

// kept: has the last decoded entry been kept, with the child as decoded?
func (d *bt) kept(K *Kern, st *State) {
	if st.Flags["unput"] != "" {
		d.codecFail("each decoded entry is kept", "%s may drop an entry it decoded%s", fnName(d.fn), trOf(st))
		delete(st.Flags, "unput")
	}
	t, _ := d.gv(st, bF).(VTup)
	if len(t.V) == 6 {
		if c, ok := t.V[5].(VPtr); ok {
			d.judgeChild(st, c, t.V[1:5])
		}
	}
}

func (d *bt) judgeChild(st *State, v Val, ref []Val) {
	n := d.n
	bad := func(what string) {
		d.codecFail("a decoded child is as it was stored", "%s may give a child it decoded %s%s", fnName(d.fn), what, trOf(st))
	}
	c, ok := isNode(st, v, n.node)
	if !ok {
		bad("no node")
		return
	}
	o := st.Objs[c]
	for i, f := range []string{n.num, n.off, n.length, n.items} {
		if !sameInt(st, o.F[f], ref[i]) {
			bad("another number, offset, length or item total than stored")
			return
		}
	}
	for _, f := range []string{n.loaded, n.dirty, n.root} {
		if o.F[f] != Val(VBool{false}) {
			bad("a wrong state: resident, changed or root")
			return
		}
	}
	if o.F[n.parent] != d.gv(st, bA) || o.F[n.treeF] != d.gv(st, bTree) {
		bad("another parent or tree than its own")
	}
}

func (d *bt) readerCallback(K *Kern, st *State, m string, args []Val, at ssa.Instruction) ([]R, bool) {
	n := d.n
	e := st.clone()
	e.Flags["failed"] = m
	name := fnName(d.fn)
	switch m {
	case "GetNode":
		o := st.Objs[d.gv(st, bA).(VPtr).O]
		if len(args) != 3 {
			return nil, false
		}
		for i, f := range []string{n.num, n.off, n.length} {
			if !sameInt(st, args[i], o.F[f]) {
				d.codecFail("a node is read from where it was stored", "%s may read a node from another number, offset or length than its own (%s)%s", name, K.P.instrPos(at), trOf(st))
				return []R{}, true
			}
		}
		return []R{{e, VTup{[]Val{VNil{}, VErr{m}}}}, {st, VTup{[]Val{d.enter(K, st, "raw"), VNil{}}}}}, true
	case "UnpackKey", "UnpackValue":
		ph, ok := restOf(args[0])
		if !ok {
			K.undecided(at, "an unknown byte string is decoded")
		}
		if !d.fresh(K, st, ph, at) {
			return []R{}, true
		}
		if (m == "UnpackKey") != (ph == "key") || (m == "UnpackValue") != (ph == "val") {
			return d.deviates(K, st, at, "another kind of item than was written there"), true
		}
		fail := R{e, VTup{[]Val{VNil{}, VInt{linC(0)}, VErr{m}}}}
		if m == "UnpackKey" {
			d.kept(K, st)
			k := d.newKey(K, st, true)
			d.ghost(st).Vals[bF] = VTup{[]Val{k}}
			next := "ref"
			if d.gv(st, bE).(VTup).V[1] == Val(VBool{true}) {
				next = "val"
			}
			return []R{fail, {st, VTup{[]Val{k, d.decoded(K, st, next), VNil{}}}}}, true
		}
		k := d.gv(st, bF).(VTup).V[0]
		v := VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "val", F: map[string]Val{"k": k}}), ""}
		d.ghost(st).Vals[bF] = VTup{[]Val{k, v}}
		st.Flags["unput"] = "1"
		done := d.gv(st, bE).(VTup).V[4].(VInt)
		d.setE(st, 4, VInt{done.L.addC(1)})
		return []R{fail, {st, VTup{[]Val{v, d.decoded(K, st, "key"), VNil{}}}}}, true
	}
	return nil, false
}

// readerKV: the in-memory tree being filled.
func (d *bt) readerKV(K *Kern, st *State, kv ObjID, m string, args []Val, at ssa.Instruction) []R {
	switch m {
	case "Len":
		return one(st, kvRes(gv0(d.gv(st, bE), 4), VNil{}))
	case "Put":
		t, _ := d.gv(st, bF).(VTup)
		if len(t.V) == 0 || args[0] != t.V[0] {
			K.undecided(at, "a key of unknown origin is put into a node being loaded")
		}
		leaf := d.gv(st, bE).(VTup).V[1] == Val(VBool{true})
		name := fnName(d.fn)
		if st.Flags["unput"] == "" {
			d.codecFail("each decoded entry is kept", "%s may keep an entry twice or before it is decoded in full (%s)%s", name, K.P.instrPos(at), trOf(st))
			return []R{}
		}
		if leaf && args[1] != t.V[1] {
			d.codecFail("each decoded entry is kept", "%s may keep a key with another value than was decoded (%s)%s", name, K.P.instrPos(at), trOf(st))
		}
		if !leaf {
			if _, ok := isNode(st, args[1], d.n.node); !ok {
				d.codecFail("each decoded entry is kept", "%s may keep a key without its child (%s)%s", name, K.P.instrPos(at), trOf(st))
			} else {
				d.ghost(st).Vals[bF] = VTup{append(append([]Val{}, t.V...), args[1])}
			}
		}
		e, f := st.clone(), st.clone()
		e.Flags["failed"], f.Flags["failed"] = "comparison", "a duplicate key"
		delete(st.Flags, "unput")
		return []R{{e, kvRes(VBool{false}, VErr{"comparison"})}, {f, kvRes(VBool{false}, VNil{})}, {st, kvRes(VBool{true}, VNil{})}}
	}
	K.undecided(at, "call of %s on a node being loaded", m)
	return nil
}

func gv0(v Val, i int) Val { return v.(VTup).V[i] }

func (n *btNames) runReader(P *Prog, fn *ssa.Function) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, base: true, noRoot: true, free: true, codec: &codec{read: true, orders: map[string]bool{}}}
	d.contracts = d.baseContracts()
	arrange := func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := d.nodeArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		if _, isNil := st.Objs[id].F[n.left].(VNil); isNil {
			d.Deref(K, st, VNil{}, at)
			return []R{}
		}
		st.wr(id).F["$arr"] = gv0(d.gv(st, bE), 4)
		return one(st, VNil{})
	}
	d.contracts["arrangePrefixSumTree"] = arrange
	delete(d.contracts, "loadNode")
	d.callback = d.readerCallback
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 60000
	exits := 0
	und := d.execute(K, func() {
		exits = 0
		for mode := 0; mode < 2; mode++ {
			st, tr := d.start(K, true)
			root := mode == 0
			mx := d.freshInt(K, st, 0)
			mn := d.freshInt(K, st, 0)
			st.Objs[tr].F[n.tMax], st.Objs[tr].F[n.tMin] = mx, mn
			f := map[string]Val{n.treeF: VPtr{tr, ""}, n.dirty: VBool{false}, n.loaded: VBool{false}, n.root: VBool{root}, "$at": VSym{""}, n.kv: VNil{}, n.left: VNil{}, n.rootPS: VNil{}, n.leaf: VBool{true}}
			f[n.num], f[n.off], f[n.length], f[n.items] = d.freshInt(K, st, 1), d.freshInt(K, st, 0), d.freshInt(K, st, 1), d.freshInt(K, st, 0)
			N := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: f})
			if root {
				st.Objs[tr].F[n.tRoot] = VPtr{N, ""}
			}
			g := st.Frames[0]
			g.Vals[bA], g.Vals[bB] = VPtr{N, ""}, VTup{[]Val{f[n.items], VBool{root}, mx, mn, f[n.num], f[n.off], f[n.length]}}
			g.Vals[bC] = VTup{[]Val{VSym{""}, VSym{""}, VInt{linC(0)}, VInt{linC(0)}}}
			ok := map[Val]bool{}
			for _, x := range K.execFn(fn, d.nodeArgs(fn, tr, N), nil, st) {
				if !x.st.Cons.feasible() {
					continue
				}
				exits++
				d.lruEnd(x.st, name)
				d.readerExit(K, x, name)
				if _, isNil := x.res[len(x.res)-1].(VNil); isNil {
					if e, isT := d.gv(x.st, bE).(VTup); isT && len(e.V) > 4 {
						ok[e.V[1]] = true
					}
				}
			}
			if len(ok) < 2 && len(d.bad) == 0 {
				d.codecFail("every stored node can be loaded", "%s fails for every image of some kind (root %v)", name, root)
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	n.rOrders = d.codec.orders
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

func (d *bt) readerExit(K *Kern, x exitT, name string) {
	n := d.n
	s := x.st
	if debugSel == "exits" {
		fmt.Printf("--- exit %v\n%s\n", x.res, s.String(K))
	}
	o := s.Objs[d.gv(s, bA).(VPtr).O]
	t := d.tree(s)
	p0 := d.gv(s, bB).(VTup).V
	same := func(a, b Val) bool { return sameInt(s, a, b) }
	_, ok := x.res[len(x.res)-1].(VNil)
	if _, isErr := x.res[len(x.res)-1].(VErr); !ok && !isErr {
		K.undecided(nil, "unknown result of %s", name)
	}
	if !same(o.F[n.num], p0[4]) || !same(o.F[n.off], p0[5]) || !same(o.F[n.length], p0[6]) {
		d.fail("C12", "a location in use is kept", "%s may lose the location of the node it loads%s", name, trOf(s))
		d.fail("C09", "a location in use is kept", "%s may lose the location of the node it loads%s", name, trOf(s))
	}
	if !ok {
		if o.F[n.loaded] != Val(VBool{false}) || !same(o.F[n.items], p0[0]) || o.F[n.root] != p0[1] || !same(t.F[n.tMax], p0[2]) || !same(t.F[n.tMin], p0[3]) {
			d.fail("C19", "a failed load changes nothing", "%s may fail after marking the node resident or changing its item total or the capacity of the tree%s", name, trOf(s))
		}
		return
	}
	if f := s.Flags["failed"]; f != "" {
		d.codecFail("anything undecodable is an error", "%s may succeed although it met a failure of %s%s", name, f, trOf(s))
		return
	}
	e, _ := d.gv(s, bE).(VTup)
	if len(e.V) < 5 {
		d.codecFail("a loaded node has the stored contents", "%s may succeed without decoding an image%s", name, trOf(s))
		return
	}
	d.kept(K, s)
	leaf := e.V[1] == Val(VBool{true})
	cnt, done := e.V[3].(VInt).L, e.V[4].(VInt).L
	ph := d.ph(s, phName).(VSym).S
	left := o.F[n.left]
	switch {
	case ph == "left" && d.ph(s, phNext) == Val(VSym{""}):
		if !s.Cons.entailsEQ(cnt) {
			d.codecFail("every stored entry is decoded", "%s may succeed without decoding the leftmost child%s", name, trOf(s))
			return
		}
	case ph != "key" || d.ph(s, phNext) != Val(VSym{""}):
		d.codecFail("every stored entry is decoded", "%s may succeed in the middle of an image%s", name, trOf(s))
		return
	case leaf && !s.Cons.entailsEQ(cnt.sub(done)), !leaf && !s.Cons.entailsEQ(cnt.sub(done).addC(-1)):
		d.codecFail("every stored entry is decoded", "%s may succeed with another number of entries decoded than stored%s", name, trOf(s))
		return
	}
	if l, ok := d.ph(s, phLeft).(VInt); !ok || !s.Cons.entailsEQ(l.L) {
		d.codecFail("an image is decoded exactly", "%s may succeed with part of an image left over%s", name, trOf(s))
	}
	if !same(o.F[n.items], e.V[0]) || o.F[n.root] != p0[1] || o.F[n.leaf] != e.V[1] {
		d.codecFail("a loaded node has the stored contents", "%s may leave a node with another item total or kind than stored%s", name, trOf(s))
	}
	if o.F[n.root] == Val(VBool{true}) {
		mx := e.V[2].(VInt).L
		if !same(t.F[n.tMax], e.V[2]) {
			d.codecFail("a loaded root restores the capacity", "%s may leave the tree with another capacity than stored%s", name, trOf(s))
		}
		if m, ok := t.F[n.tMin].(VInt); ok && !(s.Cons.entailsGE(mx.sub(m.L.scale(2))) && s.Cons.entailsGE(m.L.scale(2).sub(mx).addC(1))) {
			d.codecFail("a loaded root restores the capacity", "%s may leave the tree with another minimum than half the capacity stored%s", name, trOf(s))
		}
	} else if !same(t.F[n.tMax], p0[2]) || !same(t.F[n.tMin], p0[3]) {
		d.codecFail("a loaded root restores the capacity", "%s may change the capacity of the tree when it loads another node than the root%s", name, trOf(s))
	}
	kv, isKV := o.F[n.kv].(VPtr)
	if !isKV || s.Objs[kv.O] == nil || s.Objs[kv.O].Typ != "kv" {
		d.codecFail("a loaded node has the stored contents", "%s may leave a loaded node without contents%s", name, trOf(s))
	}
	if o.F[n.loaded] != Val(VBool{true}) || o.F[n.dirty] != Val(VBool{false}) {
		d.fail("C08", "a loaded node is resident and clean", "%s may leave a node it loaded absent or marked as changed%s", name, trOf(s))
	}
	if leaf {
		if _, isNil := o.F[n.rootPS].(VNil); !isNil {
			d.fail("C08", "a loaded leaf has no running sums", "%s may leave a leaf with running sums of children%s", name, trOf(s))
		}
		return
	}
	if ph == "left" {
		if _, isNil := left.(VNil); !isNil {
			d.codecFail("a decoded child is as it was stored", "%s may give a node without children a leftmost child%s", name, trOf(s))
		}
		return
	}
	if len(e.V) < 6 {
		d.codecFail("every stored entry is decoded", "%s may succeed without decoding the leftmost child%s", name, trOf(s))
		return
	}
	d.judgeChild(s, left, e.V[5].(VTup).V)
	if a, ok := o.F["$arr"]; !ok || !same(a, e.V[4]) {
		d.fail("C08", "a loaded node has its running sums", "%s may leave a loaded node without running sums over all of its children%s", name, trOf(s))
		d.fail("C06", "a loaded node has its running sums", "%s may leave a loaded node without running sums over all of its children%s", name, trOf(s))
	}
}

// runCodec judges writer and reader together.
func (n *btNames) runCodec(P *Prog, wr, rd *ssa.Function) btRun {
	w, r := n.runWriter(P, wr), n.runReader(P, rd)
	out := btRun{map[string]string{}, "", w.exits + r.exits, w.states + r.states, w.steps + r.steps, append(w.miss, r.miss...), w.blocks + r.blocks}
	layout := func(x btRun) bool {
		for k := range x.bad {
			if strings.HasPrefix(k, "C10|") {
				return true
			}
		}
		return false
	}
	if debugSel == "codec" {
		fmt.Println(w.bad, w.und, "\n", r.bad, r.und)
	}
	other := layout(w) && layout(r)
	for _, x := range []btRun{w, r} {
		for k, v := range x.bad {
			if !(other && strings.HasPrefix(k, "C10|")) {
				out.bad[k] = v
			}
		}
		if x.und != "" {
			out.und = x.und
		}
	}
	if other {
		out.und = "the stored image follows another layout than the one known here"
	}
	if out.und == "" && !reflect.DeepEqual(n.wOrders, n.rOrders) || len(n.wOrders) > 1 || len(n.rOrders) > 1 {
		out.bad["C10|one byte order throughout"] = fmt.Sprintf("%s and %s use different byte orders (%v, %v)", fnName(wr), fnName(rd), n.wOrders, n.rOrders)
	}
	return out
}

// runOld judges the constructor that opens a stored tree.
func (n *btNames) runOld(P *Prog, fn *ssa.Function) btRun {
	d := &bt{P: P, n: n, fn: fn, bad: map[string]string{}, base: true, noRoot: true, contracts: map[string]contract{}}
	name := fnName(fn)
	K := newKern(P, d)
	K.limit = 20000
	exits := 0
	d.contracts = d.baseContracts()
	d.contracts["loadNode"] = func(K *Kern, st *State, _ *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := d.nodeArg(K, st, args, at)
		if !ok {
			return []R{}
		}
		o := st.Objs[id]
		loc := d.gv(st, bB).(VTup).V
		for i, f := range []string{n.num, n.off, n.length} {
			if !sameInt(st, o.F[f], loc[i]) {
				d.codecFail("a tree is opened from the location given", "%s may load the root from another number, offset or length than given (%s)%s", name, K.P.instrPos(at), trOf(st))
			}
		}
		if o.F[n.root] != Val(VBool{true}) || o.F[n.loaded] != Val(VBool{false}) || o.F[n.dirty] != Val(VBool{false}) {
			d.codecFail("a tree is opened from the location given", "%s may load a root that is not marked as an absent, unchanged root (%s)%s", name, K.P.instrPos(at), trOf(st))
		}
		if t, ok := o.F[n.treeF].(VPtr); !ok || st.Objs[t.O].F[n.tCompare] == Val(VNil{}) || st.Objs[t.O].F[n.tCallbacks] == Val(VNil{}) {
			d.codecFail("a tree is opened from the location given", "%s may load the root before its tree knows the client's functions (%s)%s", name, K.P.instrPos(at), trOf(st))
		}
		e := st.clone()
		e.Flags["failed"] = "load"
		w := st.wr(id)
		w.F[n.loaded] = VBool{true}
		d.ghost(st).Vals[bA] = VPtr{id, ""}
		return []R{{e, VErr{"load"}}, {st, VNil{}}}
	}
	und := d.execute(K, func() {
		exits = 0
		for mode := 0; mode < 2; mode++ {
			st, tr := d.start(K, true)
			cache := st.Objs[tr].F[n.nodeCache]
			if mode == 1 {
				cache = VNil{}
			}
			var args, loc []Val
			for _, p := range fn.Params {
				switch {
				case typeName(p.Type()) == "uint64":
					v := d.freshInt(K, st, 0)
					args, loc = append(args, v), append(loc, v)
				case typeName(p.Type()) == "Compare":
					args = append(args, VFunc{S: "compare"})
				case typeName(p.Type()) == "BPlusTreeCallbacks":
					args = append(args, VSym{"callbacks"})
				default:
					args = append(args, cache)
				}
			}
			if len(loc) != 3 {
				K.undecided(nil, "%s takes something else than a location", name)
			}
			st.Frames[0].Vals[bB] = VTup{append(loc, cache)}
			ok := 0
			for _, x := range K.execFn(fn, args, nil, st) {
				s := x.st
				if !s.Cons.feasible() {
					continue
				}
				exits++
				_, good := x.res[len(x.res)-1].(VNil)
				if !good {
					continue
				}
				d.lruEnd(s, name)
				if s.Flags["failed"] != "" {
					d.codecFail("a tree that cannot be loaded is not opened", "%s may succeed although loading the root failed%s", name, trOf(s))
					continue
				}
				ok++
				p, isT := x.res[0].(VPtr)
				if !isT || s.Objs[p.O] == nil {
					d.codecFail("a tree is opened from the location given", "%s may succeed without a tree%s", name, trOf(s))
					continue
				}
				t := s.Objs[p.O]
				r, isR := t.F[n.tRoot].(VPtr)
				if !isR || d.gv(s, bA) != Val(r) || s.Objs[r.O].F[n.treeF] != Val(p) {
					d.codecFail("a tree is opened from the location given", "%s may open a tree whose root is not the node loaded%s", name, trOf(s))
					continue
				}
				if _, isNil := t.F[n.tStale].(VNil); !isNil {
					d.fail("C12", "nothing is superseded yet", "%s may open a tree that remembers locations as superseded%s", name, trOf(s))
				}
				if t.F[n.nodeCache] != d.gv(s, bB).(VTup).V[3] {
					d.fail("C08", "the cache given is used", "%s may open a tree with another cache than the one given%s", name, trOf(s))
				}
			}
			if ok == 0 && len(d.bad) == 0 {
				d.codecFail("a stored tree can be opened", "%s refuses every tree", name)
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract domain of the in-memory tree: a sub-tree is summarised by the sequence of its
// items, the possible kinds of its root (nil, red, black without / with a red left child), its
// black height, and the fact that every node in it counts the items below it (leaving out the
// items of excl). Nodes are materialised when the code looks into them and folded back when the
// invariants hold again.

const (
	mN = 1 << iota
	mR
	mB2
	mB3
)

const mBlackish = mN | mB2 | mB3

type llrb struct {
	P     *Prog
	node  string
	tree  string
	why   map[string]int // reasons nodes could not be folded (diagnostics)
	keyed bool
}

func (d *llrb) isNode(o *Obj) bool { return o.Typ == d.node }

func (d *llrb) Hide(typ, field string) bool { return typ == d.tree && field == "root" }

// makeNil: the sub-tree is empty.
func (d *llrb) makeNil(st *State, id ObjID) bool {
	o := st.Objs[id]
	for _, x := range o.Word {
		if !st.Elems[x.E].Seg {
			return false
		}
		st.Cons.addEq(st.Elems[x.E].N)
	}
	st.Cons.addEq(o.BH)
	if !st.Cons.feasible() {
		return false
	}
	delete(st.Objs, id)
	st.mapVals(func(v Val) Val {
		if p, ok := v.(VPtr); ok && p.O == id {
			return VNil{}
		}
		return v
	})
	return true
}

// bits restricts the mask to what the numbers allow.
func (d *llrb) bits(st *State, o *Obj) uint8 {
	m := o.Mask
	n := st.wlen(o.Word, nil)
	if m&mN != 0 {
		c := st.Cons.clone()
		c.addEq(n)
		c.addEq(o.BH)
		if !c.feasible() {
			m &^= mN
		}
	}
	if m&(mR|mB2|mB3) != 0 {
		c := st.Cons.clone()
		c.addGE(n.addC(-1))
		if !c.feasible() {
			m &^= mR | mB2 | mB3
		}
		if m&mB3 != 0 {
			c := st.Cons.clone()
			c.addGE(n.addC(-2))
			if !c.feasible() {
				m &^= mB3
			}
		}
		if m&(mB2|mB3) != 0 {
			c.addGE(o.BH.addC(-1))
			if !c.feasible() {
				m &^= mB2 | mB3
			}
		}
	}
	return m
}

func (d *llrb) NilTest(K *Kern, st *State, id ObjID) []*State {
	o := st.Objs[id]
	if o == nil {
		K.undecided(nil, "dangling object")
	}
	if o.Kind != kSub || o.Mask&mN == 0 {
		return nil
	}
	m := d.bits(st, o)
	if m&mN == 0 {
		st.wr(id).Mask = m
		return nil
	}
	var out []*State
	if m&^mN != 0 {
		s := st.clone()
		p := s.wr(id)
		p.Mask = m &^ mN
		s.Cons.addGE(s.wlen(p.Word, nil).addC(-1))
		if p.Mask&mR == 0 {
			s.Cons.addGE(p.BH.addC(-1))
		}
		if s.Cons.feasible() {
			out = append(out, s)
		}
	}
	if d.makeNil(st, id) {
		out = append(out, st)
	}
	if out == nil {
		return []*State{}
	}
	return out
}

func (d *llrb) Read(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	o := st.Objs[id]
	switch path {
	case "len":
		l := st.wlen(o.Word, o.Excl)
		if o.Kind == kCtx {
			l = l.add(st.wlen(o.Wr, nil)).add(o.HN)
		}
		return one(st, VInt{l}), true
	case "color":
		red, black := o.Mask&mR != 0, o.Mask&(mB2|mB3) != 0
		if red && !black {
			return one(st, VBool{true}), true
		}
		if black && !red {
			return one(st, VBool{false}), true
		}
		if o.Kind != kSub {
			return nil, false
		}
		var out []R
		for _, bl := range []bool{false, true} {
			s := st.clone()
			p := s.wr(id)
			if bl {
				p.Mask &= mB2 | mB3
				s.Cons.addGE(p.BH.addC(-1))
			} else {
				p.Mask &= mR
			}
			s.Cons.addGE(s.wlen(p.Word, nil).addC(-1))
			if s.Cons.feasible() {
				out = append(out, R{s, VBool{!bl}})
			}
		}
		return out, true
	}
	return nil, false
}

// Force materialises the root node of a summarised sub-tree in every possible way.
func (d *llrb) Force(K *Kern, st *State, id ObjID, why string) []*State {
	o := st.Objs[id]
	if o.Kind == kCtx {
		K.undecided(nil, "the path above a loop's cursor is looked into again (%s)", why)
	}
	var out []*State
	for _, bit := range []uint8{mR, mB2, mB3} {
		if d.bits(st, o)&bit == 0 {
			continue
		}
		for i := range o.Word {
			s := st.clone()
			var root EID
			var l, r []WE
			we := o.Word[i]
			if s.Elems[we.E].Seg {
				s1, a, s2 := K.newSeg(s), K.newAtom(s), K.newSeg(s)
				s.Cons.addEq(s.Elems[we.E].N.sub(s.Elems[s1].N).sub(s.Elems[s2].N).addC(-1))
				if !s.Cons.feasible() {
					continue
				}
				s.subst(we.E, []EID{s1, a, s2})
				root = a
				w := s.Objs[id].Word
				l, r = w[:i+1], w[i+2:]
				we = w[i+1]
			} else {
				root = we.E
				l, r = o.Word[:i], o.Word[i+1:]
			}
			n := s.wr(id)
			bh := n.BH
			if bit != mR {
				bh = bh.addC(-1)
				s.Cons.addGE(bh)
			} else {
				s.Cons.addGE(bh)
			}
			child := func(w []WE, mask uint8) Val {
				c := &Obj{Kind: kSub, Typ: d.node, Mask: mask, Word: append([]WE{}, w...), BH: bh}
				for _, e := range n.Excl {
					if has(w, e) {
						c.Excl = append(c.Excl, e)
					}
				}
				return VPtr{K.newObj(s, c), ""}
			}
			lm := uint8(mBlackish)
			if bit == mB3 {
				lm = mR
			}
			var val Val = VVal{root}
			if we.V != nil {
				val = we.V
			}
			lenL := s.wlen(n.Word, n.Excl)
			n.F = map[string]Val{"Key": VKey{root}, "Value": val, "color": VBool{bit == mR}, "len": VInt{lenL}}
			n.F["left"] = child(l, lm)
			n.F["right"] = child(r, mBlackish)
			n.Kind, n.Word, n.Excl, n.Mask, n.BH = kStruct, nil, nil, 0, Lin{}
			ok := s.Cons.feasible()
			if ok {
				for _, f := range []string{"left", "right"} {
					p, isP := n.F[f].(VPtr)
					if !isP {
						continue
					}
					c := s.Objs[p.O]
					m := d.bits(s, c)
					if m == 0 {
						ok = false
						break
					}
					if m == mN {
						if !d.makeNil(s, p.O) {
							ok = false
							break
						}
						n = s.Objs[id]
						continue
					}
					s.wr(p.O).Mask = m
				}
			}
			if ok && s.Cons.feasible() {
				out = append(out, s)
			}
		}
	}
	return out
}

func (d *llrb) Lazy(K *Kern, st *State, o ObjID, path string) ([]R, bool) { return nil, false }

func (d *llrb) Deref(K *Kern, st *State, v Val, at ssa.Instruction) {
	w := "nil pointer dereference"
	switch x := v.(type) {
	case VSym:
		w = x.S
	case VDangling:
		K.undecided(at, "a node is used through a pointer taken before it was moved")
	case VTop, VHidden:
		K.undecided(at, "unknown pointer")
	}
	if !st.Cons.feasible() {
		return
	}
	K.defects[fmt.Sprintf("%s in %s", w, fnName(at.Parent()))] = K.P.instrPos(at) + " path " + strings.Join(st.Trace, " ")
}

func (d *llrb) Call(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, f Val, args []Val, at ssa.Instruction) ([]R, bool) {
	if v, ok := f.(VFunc); ok && v.S == "compare" {
		return d.compare(K, st, args[0], args[1], at), true
	}
	if com.IsInvoke() {
		if p, ok := args[0].(VSym); ok && p.S == "callbacks" {
			return one(st, VTup{[]Val{VSym{"string"}, VNil{}}}), true
		}
	}
	return nil, false
}

func (d *llrb) compare(K *Kern, st *State, a, b Val, at ssa.Instruction) []R {
	x, ok1 := a.(VKey)
	y, ok2 := b.(VKey)
	if !ok1 || !ok2 {
		K.defects["comparison of something that is not a key in "+fnName(at.Parent())] = K.P.instrPos(at)
		return nil
	}
	var out []R
	if st.Flags["cmp"] == "" {
		s := st.clone()
		s.Flags["cmp"] = "refused"
		out = append(out, R{s, VTup{[]Val{VTop{"refused comparison"}, VErr{"compare"}}}})
		st.Flags["cmp"] = "ok"
	} else if st.Flags["cmp"] == "refused" {
		return one(st, VTup{[]Val{VTop{"refused comparison"}, VErr{"compare"}}})
	}
	px, py := st.ordPos(x.E), st.ordPos(y.E)
	if px < 0 || py < 0 {
		K.undecided(at, "key outside the order")
	}
	s := 0
	if px < py {
		s = -1
	} else if px > py {
		s = 1
	}
	return append(out, R{st, VTup{[]Val{VSign{s}, VNil{}}}})
}

// --- folding ----------------------------------------------------------------

func (d *llrb) Fold(K *Kern, st *State, keep, noAbsorb map[ObjID]bool) {
	d.normalise(K, st, keep)
	for !st.Cons.bad {
		refs := map[ObjID]int{}
		for _, o := range st.Objs {
			objRefs(o, func(x ObjID) { refs[x]++ })
		}
		var ids []ObjID
		for id, o := range st.Objs {
			if d.isNode(o) && !keep[id] {
				ids = append(ids, id)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		done := true
		for _, id := range ids {
			o := st.Objs[id]
			if o == nil {
				continue
			}
			switch o.Kind {
			case kStruct:
				if d.foldNode(K, st, id, noAbsorb, refs) == "" {
					done = false
				} else if d.ctxNode(K, st, id, noAbsorb, refs) {
					done = false
				}
			case kCtx:
				if d.ctxStep(K, st, id, noAbsorb, refs) {
					done = false
				}
			}
			if !done {
				break
			}
		}
		if done {
			return
		}
	}
}

func (d *llrb) normalise(K *Kern, st *State, keep map[ObjID]bool) {
	var ids []ObjID
	for id, o := range st.Objs {
		if o.Kind == kSub && d.isNode(o) && !keep[id] {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := st.Objs[id]
		m := d.bits(st, o)
		if m == 0 {
			st.Cons.bad = true // impossible
			return
		}
		if m == mN {
			if !d.makeNil(st, id) {
				st.Cons.bad = true
				return
			}
			continue
		}
		if m != o.Mask {
			st.wr(id).Mask = m
		}
	}
}

type subInfo struct {
	word []WE
	mask uint8
	bh   Lin
	excl []EID
	id   ObjID
}

func (d *llrb) sub(st *State, v Val, noAbsorb map[ObjID]bool, refs map[ObjID]int) (*subInfo, string) {
	switch x := v.(type) {
	case VNil:
		return &subInfo{mask: mN}, ""
	case VPtr:
		o := st.Objs[x.O]
		if o == nil || x.P != "" {
			return nil, "pointer"
		}
		if noAbsorb[x.O] {
			return nil, "pinned"
		}
		if refs[x.O] != 1 {
			return nil, "shape: a node is reached from two places"
		}
		if o.Kind == kCtx {
			return nil, "pinned"
		}
		if o.Kind != kSub {
			return nil, "child"
		}
		return &subInfo{o.Word, o.Mask, o.BH, o.Excl, x.O}, ""
	}
	return nil, "unknown child pointer"
}

type nodeInfo struct {
	key  EID
	val  Val // nil: original
	red  bool
	len  Lin
	l, r Val
}

func (d *llrb) nodeInfo(o *Obj) (*nodeInfo, string) {
	k, ok := o.F["Key"].(VKey)
	if !ok {
		return nil, "order: the key of a node is unknown"
	}
	c, ok := o.F["color"].(VBool)
	if !ok {
		return nil, "colour: the colour of a node is unknown"
	}
	l, ok := o.F["len"].(VInt)
	if !ok {
		return nil, "len: the length of a node is unknown"
	}
	n := &nodeInfo{key: k.E, red: c.B, len: l.L, l: o.F["left"], r: o.F["right"]}
	if v, ok := o.F["Value"].(VVal); !ok || v.E != k.E {
		n.val = o.F["Value"]
	}
	return n, ""
}

func (d *llrb) foldNode(K *Kern, st *State, id ObjID, noAbsorb map[ObjID]bool, refs map[ObjID]int) string {
	o := st.Objs[id]
	n, why := d.nodeInfo(o)
	if why != "" {
		return why
	}
	l, why := d.sub(st, n.l, noAbsorb, refs)
	if why != "" {
		return why
	}
	r, why := d.sub(st, n.r, noAbsorb, refs)
	if why != "" {
		return why
	}
	if r.mask&mR != 0 {
		return "colour: a red link leans right"
	}
	mask := uint8(0)
	if n.red {
		if l.mask&mR != 0 {
			return "colour: a red node has a red child"
		}
		mask = mR
	} else {
		if l.mask&mR != 0 {
			mask |= mB3
		}
		if l.mask&mBlackish != 0 {
			mask |= mB2
		}
	}
	if !st.Cons.entailsEQ(l.bh.sub(r.bh)) {
		return "bh: the black heights of two siblings differ"
	}
	bh := l.bh
	if !n.red {
		bh = bh.addC(1)
	}
	word := append([]WE{}, l.word...)
	word = append(word, WE{E: n.key, V: n.val})
	word = append(word, r.word...)
	if !st.sortedWord(word) {
		return "order: the items below a node are not in key order"
	}
	excl := append(append([]EID{}, l.excl...), r.excl...)
	if !st.Cons.entailsEQ(n.len.sub(st.wlen(word, excl))) {
		excl = append(excl, n.key)
		if !st.Cons.entailsEQ(n.len.sub(st.wlen(word, excl))) {
			return "len: a node's length is not the number of items below it"
		}
	}
	sort.Slice(excl, func(i, j int) bool { return st.ordPos(excl[i]) < st.ordPos(excl[j]) })
	p := st.wr(id)
	p.Kind, p.F, p.Word, p.Mask, p.BH, p.Excl = kSub, map[string]Val{}, word, mask, bh, excl
	for _, c := range []*subInfo{l, r} {
		if c.mask != mN || c.id != 0 {
			delete(st.Objs, c.id)
		}
	}
	return ""
}

// ctxNode turns a node on the way to a loop's cursor into a context with a hole.
func (d *llrb) ctxNode(K *Kern, st *State, id ObjID, noAbsorb map[ObjID]bool, refs map[ObjID]int) bool {
	if noAbsorb[id] && !d.ctxRoot(st, id) {
		return false
	}
	o := st.Objs[id]
	n, why := d.nodeInfo(o)
	if why != "" {
		return false
	}
	l, wl := d.sub(st, n.l, noAbsorb, refs)
	r, wr := d.sub(st, n.r, noAbsorb, refs)
	var s *subInfo
	var hole VPtr
	var ok bool
	left := false
	switch {
	case wl == "pinned" && wr == "":
		s, left = r, true
		hole, ok = n.l.(VPtr)
	case wr == "pinned" && wl == "":
		s = l
		hole, ok = n.r.(VPtr)
	}
	if s == nil || !ok || len(s.excl) > 0 || hole.P != "" {
		return false
	}
	h := st.Objs[hole.O]
	hm := uint8(mBlackish)
	if h.Kind == kStruct {
		if c, ok := h.F["color"].(VBool); ok && c.B {
			hm = mR
		}
	} else if h.Mask == mR {
		hm = mR
	} else if h.Mask&mR != 0 {
		hm |= mR
	}
	mask := uint8(0)
	if left {
		if s.mask&mR != 0 || (n.red && hm&mR != 0) {
			return false
		}
		if n.red {
			mask = mR
		} else {
			if hm&mR != 0 {
				mask |= mB3
			}
			if hm&mBlackish != 0 {
				mask |= mB2
			}
		}
	} else {
		if hm&mR != 0 || (n.red && s.mask&mR != 0) {
			return false
		}
		if n.red {
			mask = mR
		} else {
			if s.mask&mR != 0 {
				mask |= mB3
			}
			if s.mask&mBlackish != 0 {
				mask |= mB2
			}
		}
	}
	bh := s.bh
	if !n.red {
		bh = bh.addC(1)
	}
	var word, wrd []WE
	me := WE{E: n.key, V: n.val}
	if left {
		wrd = append([]WE{me}, s.word...)
	} else {
		word = append(append([]WE{}, s.word...), me)
	}
	if !st.sortedWord(word) || !st.sortedWord(wrd) {
		return false
	}
	p := st.wr(id)
	p.Kind, p.F = kCtx, map[string]Val{}
	p.Word, p.Wr, p.Mask, p.BH = word, wrd, mask, bh
	p.Hole, p.HMask, p.HBH = hole, hm, s.bh
	p.HN = n.len.sub(st.wlen(word, nil)).sub(st.wlen(wrd, nil))
	if s.id != 0 {
		delete(st.Objs, s.id)
	}
	return true
}

// ctxRoot: may a pinned node head a context? Only when nothing but ghosts refers to it.
func (d *llrb) ctxRoot(st *State, id ObjID) bool {
	for i, f := range st.Frames {
		if f.Fn == nil && i == 0 {
			continue
		}
		hit := false
		chk := func(v Val) {
			eachVal(v, func(w Val) {
				if p, ok := w.(VPtr); ok && p.O == id {
					hit = true
				}
			})
		}
		for _, v := range f.Env {
			chk(v)
		}
		for _, v := range f.Vals {
			chk(v)
		}
		for _, df := range f.Defs {
			for _, a := range df.args {
				chk(a)
			}
		}
		if hit {
			return false
		}
	}
	for _, o := range st.Objs {
		if o.Kind == kCell {
			for _, v := range o.F {
				if p, ok := v.(VPtr); ok && p.O == id {
					return false
				}
			}
		}
	}
	return true
}

func (d *llrb) ctxStep(K *Kern, st *State, id ObjID, noAbsorb map[ObjID]bool, refs map[ObjID]int) bool {
	o := st.Objs[id]
	switch h := o.Hole.(type) {
	case VPtr:
		c := st.Objs[h.O]
		if c == nil {
			return false
		}
		if c.Kind == kCtx && !noAbsorb[h.O] && refs[h.O] == 1 {
			if c.Mask&^o.HMask != 0 || !st.Cons.entailsEQ(c.BH.sub(o.HBH)) {
				return false
			}
			n := st.wlen(c.Word, nil).add(st.wlen(c.Wr, nil)).add(c.HN)
			if !st.Cons.entailsEQ(n.sub(o.HN)) {
				return false
			}
			w := append(append([]WE{}, o.Word...), c.Word...)
			w2 := append(append([]WE{}, c.Wr...), o.Wr...)
			if !st.sortedWord(append(append([]WE{}, w...), w2...)) {
				return false
			}
			p := st.wr(id)
			p.Word, p.Wr, p.Hole, p.HMask, p.HBH, p.HN = w, w2, c.Hole, c.HMask, c.HBH, c.HN
			delete(st.Objs, h.O)
			return true
		}
	}
	s, why := d.sub(st, o.Hole, noAbsorb, refs)
	if why != "" {
		return false
	}
	if s.mask&^o.HMask != 0 || !st.Cons.entailsEQ(s.bh.sub(o.HBH)) || !st.Cons.entailsEQ(st.wlen(s.word, s.excl).sub(o.HN)) {
		return false
	}
	w := append(append(append([]WE{}, o.Word...), s.word...), o.Wr...)
	if !st.sortedWord(w) {
		return false
	}
	p := st.wr(id)
	p.Kind, p.Word, p.Wr, p.Excl, p.Hole = kSub, w, nil, s.excl, nil
	p.HMask, p.HBH, p.HN = 0, Lin{}, Lin{}
	if s.id != 0 {
		delete(st.Objs, s.id)
	}
	return true
}

// unfolded: why does something below v not fold? ("" if it all folds)
func (d *llrb) unfolded(K *Kern, st *State, root Val) string {
	p, ok := root.(VPtr)
	if !ok {
		return ""
	}
	refs := map[ObjID]int{}
	for _, o := range st.Objs {
		objRefs(o, func(x ObjID) { refs[x]++ })
	}
	o := st.Objs[p.O]
	if o == nil {
		return "pointer"
	}
	if o.Kind == kStruct {
		why := d.foldNode(K, st.clone(), p.O, nil, refs)
		if why == "child" {
			for _, f := range []string{"left", "right"} {
				if c, ok := o.F[f].(VPtr); ok && st.Objs[c.O] != nil && st.Objs[c.O].Kind != kSub {
					return d.unfolded(K, st, c)
				}
			}
		}
		return why
	}
	if o.Kind == kCtx {
		return "ctx"
	}
	return ""
}

func typeHas(t *types.Named, names ...string) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	have := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		have[s.Field(i).Name()] = true
	}
	for _, n := range names {
		if !have[n] {
			return false
		}
	}
	return true
}

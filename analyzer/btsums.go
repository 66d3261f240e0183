package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The running sums over the children of a node are kept in a search tree made of the children
// themselves.  The functions that build it, rebuild it up to the root and add a difference to it
// are taken at their word elsewhere; here their bodies are judged.

type sums struct {
	*bt
	mode  string
	given string // paths not followed
}

func (n *btNames) newSums(P *Prog, fn *ssa.Function, mode string) (*sums, *Kern) {
	d := &sums{&bt{P: P, n: n, fn: fn, bad: map[string]string{}, noLists: true}, mode, ""}
	K := newKern(P, d)
	K.limit = 20000
	return d, K
}

func (d *sums) PtrEq(K *Kern, st *State, a, b VPtr) ([]R, bool) { return nil, false }
func (d *sums) Loading(K *Kern, st *State, id ObjID, path string, v Val, at ssa.Instruction) {
}
func (d *sums) Stored(K *Kern, st *State, id ObjID, path string, v Val, at ssa.Instruction) {
	o := st.Objs[id]
	if o.Typ == "slice" && path == "el" {
		d.put(K, st, id, gint(o, "$i"), v, at)
	}
}

func (d *sums) Facts(st *State) []Lin {
	var out []Lin
	for _, id := range sortedObjs(st) {
		if o := st.Objs[id]; o.Typ == "cs" {
			out = append(out, gint(o, "n").addC(-1))
		}
	}
	return out
}

// --- a difference added up to the root --------------------------------------------

// upNode: a node on the way to the root (kind "node") or in the search tree above it (kind "ps").
func (d *sums) upNode(K *Kern, st *State, kind string) VPtr {
	n := d.n
	i0, s0 := d.freshInt(K, st, 0), d.freshInt(K, st, 0)
	f := map[string]Val{"$k": VSym{kind}, n.items: i0, "$i0": i0, n.psItems: s0, "$s0": s0, n.loaded: VBool{true}, n.treeF: d.gv(st, bTree)}
	if dl, ok := d.gv(st, bD).(VInt); ok {
		st.Cons.addGE(i0.L.add(dl.L))
		st.Cons.addGE(s0.L.add(dl.L))
	}
	if kind == "ps" {
		f[n.root] = VBool{false}
	}
	p := VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: f}), ""}
	c, _ := d.gv(st, bB).(VTup)
	d.ghost(st).Vals[bB] = VTup{append(append([]Val{}, c.V...), p)}
	return p
}

func (d *sums) Lazy(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	n := d.n
	o := st.Objs[id]
	if o.Typ != n.node {
		return nil, false
	}
	set := func(s *State, v Val) R {
		s.wr(id).F[path] = v
		return R{s, v}
	}
	k, _ := o.F["$k"].(VSym)
	switch k.S {
	case "node", "ps":
		switch path {
		case n.root, n.leaf:
			return []R{set(st.clone(), VBool{true}), set(st, VBool{false})}, true
		case n.dirty:
			return []R{set(st.clone(), VBool{true}), set(st, VBool{false})}, true
		case n.parent:
			if k.S == "ps" {
				return nil, false
			}
			var out []R
			for _, r := range d.known(K, st, id, n.root) {
				if r.v == Val(VBool{true}) {
					out = append(out, set(r.st, VNil{}))
					continue
				}
				p := d.upNode(K, r.st, "node")
				r.st.wr(p.O).F["$below"] = VPtr{id, ""}
				out = append(out, set(r.st, p))
			}
			return out, true
		case n.psParent:
			if k.S == "node" {
				var out []R
				for _, r := range d.knownD(K, st, id, n.root) {
					if r.v == Val(VBool{true}) {
						K.undecided(nil, "the search tree above the root is asked for")
					}
					t := r.st.clone()
					out = append(out, set(t, d.upNode(K, t, "ps")), set(r.st, VNil{}))
				}
				return out, true
			}
			t := st.clone()
			return []R{set(t, d.upNode(K, t, "ps")), set(st, VNil{})}, true
		}
	case "child", "el":
		switch path {
		case n.psItems, n.psIdx:
			return []R{set(st, d.freshInt(K, st, -1))}, true
		case n.psParent, n.psLeft, n.psRight:
			K.undecided(nil, "running sums of before are read")
		}
	case "top":
		switch path {
		case n.root, n.dirty:
			return []R{set(st.clone(), VBool{true}), set(st, VBool{false})}, true
		case n.leaf:
			return []R{set(st, VBool{false})}, true
		}
	}
	return nil, false
}

func (d *sums) knownD(K *Kern, st *State, id ObjID, path string) []R {
	if v, ok := st.Objs[id].F[path]; ok {
		return one(st, v)
	}
	rs, ok := d.Lazy(K, st, id, path)
	if !ok {
		K.undecided(nil, "unknown %s", path)
	}
	return rs
}

func (d *sums) known(K *Kern, st *State, id ObjID, path string) []R { return d.knownD(K, st, id, path) }

// met: what is still owed to a node, or "".
func (d *sums) met(st *State, id ObjID) (string, string) {
	n := d.n
	o := st.Objs[id]
	if gbool(o, "$done") {
		return "", ""
	}
	k := o.F["$k"].(VSym).S
	dl, isU := d.gv(st, bD).(VInt)
	same := func(f, was string) bool {
		v, ok := o.F[f].(VInt)
		return ok && st.Cons.entailsEQ(v.L.sub(gint(o, was)).sub(dl.L))
	}
	if k == "ps" {
		if !same(n.psItems, "$s0") {
			return "C06", "may leave a running sum above a changed child as it was or wrong"
		}
		if v, ok := o.F[n.items].(VInt); !ok || !st.Cons.entailsEQ(v.L.sub(gint(o, "$i0"))) {
			return "C06", "may change the item total of a child that did not change"
		}
		if _, ok := o.F[n.psParent]; !ok {
			return "C06", "may stop before the last running sum above a changed child"
		}
		return "", ""
	}
	root, ok := o.F[n.root].(VBool)
	if isU && !same(n.items, "$i0") {
		return "C06", "may leave a node on the way to the root with a wrong item total"
	}
	if !isU && !gbool(o, "$arr") {
		return "C06", "may leave the running sums of a node on the way to the root as they were"
	}
	if !gbool(o, n.dirty) {
		return "C09", "may leave a node on the way to the root not marked as changed"
	}
	if !ok {
		return "C06", "may stop before the root"
	}
	if root.B {
		return "", ""
	}
	if isU {
		if !same(n.psItems, "$s0") {
			return "C06", "may leave the running sum of a changed child as it was or wrong"
		}
		if _, ok := o.F[n.psParent]; !ok {
			return "C06", "may stop before the last running sum above a changed child"
		}
	}
	if _, ok := o.F[n.parent]; !ok {
		return "C06", "may stop before the root"
	}
	return "", ""
}

func (d *sums) judgeUp(K *Kern, st *State, name string) {
	dl, isU := d.gv(st, bD).(VInt)
	if isU && st.Cons.entailsEQ(dl.L) {
		return // no difference
	}
	c, _ := d.gv(st, bB).(VTup)
	for _, v := range c.V {
		if prop, what := d.met(st, v.(VPtr).O); what != "" {
			rule := "totals follow every change up to the root"
			if prop == "C09" {
				rule = "everything above a changed node is marked changed"
			}
			d.fail(prop, rule, "%s %s%s", name, what, trOf(st))
			if prop == "C06" {
				d.fail("C22", rule, "%s %s%s", name, what, trOf(st))
			}
		}
	}
}

func (d *sums) pinned(st *State, skip int) map[ObjID]bool {
	pin := map[ObjID]bool{}
	add := func(v Val) {
		eachVal(v, func(w Val) {
			if p, ok := w.(VPtr); ok {
				pin[p.O] = true
			}
		})
	}
	for i, f := range st.Frames {
		for _, v := range f.Env {
			add(v)
		}
		for j, v := range f.Vals {
			if i == 0 && j == skip {
				continue
			}
			add(v)
		}
		for _, df := range f.Defs {
			add(df.fn)
			for _, a := range df.args {
				add(a)
			}
		}
	}
	for _, o := range st.Objs {
		if o.Kind == kCell {
			for _, v := range o.F {
				add(v)
			}
		}
	}
	return pin
}

func (d *sums) Fold(K *Kern, st *State, keep, noAbsorb map[ObjID]bool) {
	for _, id := range sortedObjs(st) {
		if o := st.Objs[id]; o.Typ == "slice" && o.F["el"] != nil {
			w := st.wr(id)
			delete(w.F, "el")
			delete(w.F, "$i")
		}
	}
	if d.mode == "arrange" {
		d.foldChildren(K, st)
		return
	}
	n := d.n
	pin := d.pinned(st, bB)
	c, _ := d.gv(st, bB).(VTup)
	var left []Val
	for _, v := range c.V {
		id := v.(VPtr).O
		if _, what := d.met(st, id); what == "" && !pin[id] {
			continue
		}
		pin[id] = true
		left = append(left, v)
	}
	if len(left) != len(c.V) {
		d.ghost(st).Vals[bB] = VTup{left}
	}
	if len(left) > 8 {
		d.given = "goes on past nodes that are still owed the difference"
		st.Cons.bad = true // not followed further
	}
	for id := range pin {
		o := st.Objs[id]
		if o == nil || o.Typ != n.node {
			continue
		}
		for _, k := range []string{n.parent, n.psParent, "$below"} {
			if p, ok := o.F[k].(VPtr); ok && !pin[p.O] {
				st.wr(id).F[k] = VSym{"followed"}
				o = st.Objs[id]
			}
		}
	}
}

func (d *sums) Prune(K *Kern, st *State) {}

// --- calls --------------------------------------------------------------------------

func (d *sums) Call(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, f Val, args []Val, at ssa.Instruction) ([]R, bool) {
	if com.IsInvoke() {
		if p, ok := args[0].(VPtr); ok && st.Objs[p.O] != nil && st.Objs[p.O].Typ == "kv" {
			return d.kids(K, st, p.O, com.Method.Name(), args[1:], at), true
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() && b.Name() == "append" && len(args) == 2 {
		s, ok1 := args[0].(VPtr)
		a, ok2 := args[1].(VPtr)
		if ok1 && ok2 && st.Objs[s.O] != nil && st.Objs[a.O] != nil && st.Objs[s.O].Typ == "slice" && st.Objs[a.O].Typ == "array" && len(st.Objs[a.O].F) == 1 && st.Objs[s.O].F["w"] == nil {
			el := st.Objs[a.O].F["0"]
			ln := gint(st.Objs[s.O], "len")
			q := K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": VInt{ln.addC(1)}, "fill": st.Objs[s.O].F["fill"]}})
			d.put(K, st, q, ln, el, at)
			return one(st, VPtr{q, ""}), true
		}
	}
	return d.bt.Call(K, st, com, fn, f, args, at)
}

// --- laying out the search tree over the children of a node ------------------------------

// cs: a run of children, all in the same state; mask: i running sum set, k place set, p l r links
// cleared, s listed in the slice.
func (d *sums) newRun(K *Kern, st *State, n, t Lin, mask string) VPtr {
	return VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: "cs", F: map[string]Val{"n": VInt{n}, "t": VInt{t}, "m": VSym{mask}}}), ""}
}

func (d *sums) size(st *State, v Val) Lin {
	if o := st.Objs[v.(VPtr).O]; o.Typ == "cs" {
		return gint(o, "n")
	}
	return linC(1)
}

func (d *sums) worth(st *State, v Val) Lin {
	o := st.Objs[v.(VPtr).O]
	if o.Typ == "cs" {
		return gint(o, "t")
	}
	return gint(o, d.n.items)
}

func (d *sums) total(st *State, w []Val) (n, t Lin) {
	for _, v := range w {
		n, t = n.add(d.size(st, v)), t.add(d.worth(st, v))
	}
	return
}

// child: the element at a place of a sequence; the sequence afterwards.
type placed struct {
	st *State
	w  []Val
	p  VPtr
}

func (d *sums) split(K *Kern, st *State, w []Val, i Lin, kind string) []placed {
	var out []placed
	off := linC(0)
	for j, v := range w {
		o := st.Objs[v.(VPtr).O]
		sz := d.size(st, v)
		here := st.clone()
		rel := i.sub(off)
		if here.assumeGE(rel) && here.assumeGE(sz.sub(rel).addC(-1)) && here.Cons.feasible() {
			if o.Typ != "cs" {
				out = append(out, placed{here, w, v.(VPtr)})
			} else {
				m := o.F["m"].(VSym).S
				rest := sz.sub(rel).addC(-1)
				for c := 0; c < 4; c++ {
					s := here.clone()
					before, after := c&1 != 0, c&2 != 0
					lim := func(l Lin, some bool) {
						if some {
							s.Cons.addGE(l.addC(-1))
						} else {
							s.Cons.addEq(l)
						}
					}
					lim(rel, before)
					lim(rest, after)
					if !s.Cons.feasible() {
						continue
					}
					it, t1, t2 := linV(K.newVar()), linC(0), linC(0)
					s.Cons.addGE(it)
					nw := append([]Val{}, w[:j]...)
					if before {
						t1 = linV(K.newVar())
						s.Cons.addGE(t1)
						nw = append(nw, d.newRun(K, s, rel, t1, m))
					}
					k := d.newKid(K, s, it, m, kind)
					nw = append(nw, k)
					if after {
						t2 = linV(K.newVar())
						s.Cons.addGE(t2)
						nw = append(nw, d.newRun(K, s, rest, t2, m))
					}
					s.Cons.addEq(gint(o, "t").sub(it).sub(t1).sub(t2))
					out = append(out, placed{s, append(nw, w[j+1:]...), k})
				}
			}
		}
		off = off.add(sz)
	}
	return out
}

func (d *sums) newKid(K *Kern, st *State, items Lin, mask, kind string) VPtr {
	n := d.n
	f := map[string]Val{"$k": VSym{kind}, n.items: VInt{items}, "$i0": VInt{items}, n.loaded: VBool{true}}
	if strings.Contains(mask, "i") {
		f[n.psItems] = VInt{items}
	}
	for i, k := range []string{n.psParent, n.psLeft, n.psRight} {
		if strings.Contains(mask, "plr"[i:i+1]) {
			f[k] = VNil{}
		}
	}
	if strings.Contains(mask, "k") {
		f["$kok"] = VBool{true}
	}
	if strings.Contains(mask, "s") {
		f["$in"] = VBool{true}
	}
	if strings.Contains(mask, "q") {
		f[n.parent] = d.gv(st, bA)
	}
	if strings.Contains(mask, "v") {
		f["$v"] = VBool{true}
	}
	return VPtr{K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: f}), ""}
}

func (d *sums) mask(st *State, id ObjID, pos Lin) string {
	n := d.n
	o := st.Objs[id]
	m := ""
	if d.mode == "node" {
		if o.F[n.parent] == d.gv(st, bA) {
			m += "q"
		}
		if gbool(o, "$v") {
			m += "v"
		}
		return m
	}
	if v, ok := o.F[n.psItems].(VInt); ok && st.Cons.entailsEQ(v.L.sub(gint(o, n.items))) {
		m += "i"
	}
	if v, ok := o.F[n.psIdx].(VInt); ok && st.Cons.entailsEQ(v.L.sub(pos)) || !ok && gbool(o, "$kok") {
		m += "k"
	}
	for i, k := range []string{n.psParent, n.psLeft, n.psRight} {
		if o.F[k] == Val(VNil{}) {
			m += "plr"[i : i+1]
		}
	}
	if gbool(o, "$in") {
		m += "s"
	}
	if v, ok := o.F[n.items].(VInt); !ok || !st.Cons.entailsEQ(v.L.sub(gint(o, "$i0"))) {
		m += "x"
	}
	return m
}

func (d *sums) kidWord(st *State) []Val { t, _ := d.gv(st, bC).(VTup); return t.V }

// kids: the children of the node judged, as entries.
func (d *sums) kids(K *Kern, st *State, kv ObjID, m string, args []Val, at ssa.Instruction) []R {
	if d.mode == "update" {
		if m == "Len" {
			return one(st, VTup{[]Val{st.Objs[kv].F["n"], VNil{}}})
		}
		K.undecided(at, "%s of the entries", m)
	}
	if d.mode != "arrange" && d.mode != "node" {
		K.undecided(at, "%s of the entries", m)
	}
	w := d.kidWord(st)
	ln, _ := d.total(st, w)
	switch m {
	case "Len":
		return one(st, VTup{[]Val{VInt{ln}, VNil{}}})
	case "GetByIndex":
		i, ok := args[0].(VInt)
		if !ok {
			break
		}
		var out []R
		for _, f := range []Lin{i.L.neg().addC(-1), i.L.sub(ln)} {
			t := st.clone()
			if t.assumeGE(f) && t.Cons.feasible() {
				out = append(out, R{t, VTup{[]Val{VNil{}, VNil{}, VBool{false}, VNil{}}}})
			}
		}
		kind := "child"
		if d.mode == "node" {
			kind = "kid"
		}
		for _, p := range d.split(K, st, w, i.L, kind) {
			d.ghost(p.st).Vals[bC] = VTup{p.w}
			out = append(out, R{p.st, VTup{[]Val{VSym{"separator"}, p.p, VBool{true}, VNil{}}}})
		}
		return out
	}
	K.undecided(at, "%s of the entries", m)
	return nil
}

// pos: the place of a child, -1 for the leftmost.
func (d *sums) pos(st *State, id ObjID) (Lin, bool) {
	if d.gv(st, bE) == Val(VPtr{id, ""}) {
		return linC(-1), true
	}
	off := linC(0)
	for _, v := range d.kidWord(st) {
		if v == Val(VPtr{id, ""}) {
			return off, true
		}
		off = off.add(d.size(st, v))
	}
	return off, false
}

func (d *sums) put(K *Kern, st *State, s ObjID, i Lin, v Val, at ssa.Instruction) {
	if d.mode != "arrange" {
		K.undecided(at, "a list of nodes is changed")
	}
	c, ok := isNode(st, v, d.n.node)
	if !ok {
		K.undecided(at, "something unknown is put in a list")
	}
	fill := gint(st.Objs[s], "fill")
	pos, ok := d.pos(st, c)
	if !ok || !st.Cons.entailsEQ(i.sub(fill)) || !st.Cons.entailsEQ(pos.addC(1).sub(i)) {
		d.fails_([]string{"C06", "C22"}, "running sums are laid out over the children in order", "%s may list the children of a node in another order than theirs, at %s%s", fnName(d.fn), K.P.instrPos(at), trOf(st))
	}
	st.wr(s).F["fill"] = VInt{fill.addC(1)}
	st.wr(c).F["$in"] = VBool{true}
}

func (d *sums) foldChildren(K *Kern, st *State) {
	pin := d.pinned(st, bC)
	for again := true; again; {
		again = false
		w := d.kidWord(st)
		off := linC(0)
		for i, v := range w {
			p := v.(VPtr)
			o := st.Objs[p.O]
			if o.Typ == d.n.node && !pin[p.O] {
				r := d.newRun(K, st, linC(1), gint(o, d.n.items), d.mask(st, p.O, off))
				d.ghost(st).Vals[bC] = VTup{replIn(w, v, r)}
				again = true
				break
			}
			off = off.add(d.size(st, v))
			if o.Typ == "cs" && st.Cons.entailsEQ(gint(o, "n")) {
				d.ghost(st).Vals[bC] = VTup{replIn(w, v)}
				again = true
				break
			}
			if i > 0 {
				q := st.Objs[w[i-1].(VPtr).O]
				if q.Typ == "cs" && o.Typ == "cs" && q.F["m"] == o.F["m"] {
					r := d.newRun(K, st, gint(q, "n").add(gint(o, "n")), gint(q, "t").add(gint(o, "t")), o.F["m"].(VSym).S)
					nw := append(append([]Val{}, w[:i-1]...), r)
					d.ghost(st).Vals[bC] = VTup{append(nw, w[i+1:]...)}
					again = true
					break
				}
			}
		}
	}
}

// short: what is missing in the marks of the children.
func (d *sums) short(st *State, need string) string {
	say := map[string]string{"i": "its running sum", "k": "its place", "p": "its links", "l": "its links", "r": "its links", "s": "a place in the list"}
	off := linC(-1)
	for _, v := range append([]Val{d.gv(st, bE)}, d.kidWord(st)...) {
		p := v.(VPtr)
		o := st.Objs[p.O]
		m := ""
		if o.Typ == "cs" {
			m = o.F["m"].(VSym).S
		} else {
			m = d.mask(st, p.O, off)
		}
		if o.Typ == "cs" && st.Cons.entailsEQ(gint(o, "n")) {
			continue
		}
		off = off.add(d.size(st, v))
		for _, c := range need {
			if !strings.ContainsRune(m, c) {
				return say[string(c)]
			}
		}
		if strings.Contains(m, "x") {
			return "its own total kept"
		}
	}
	return ""
}

func (d *sums) Instr(K *Kern, st *State, ins ssa.Instruction) ([]R, bool) {
	switch x := ins.(type) {
	case *ssa.MakeSlice:
		return one(st, VPtr{K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": K.val(st, x.Len), "fill": VInt{linC(0)}}}), ""}), true
	case *ssa.Slice:
		p, ok := K.val(st, x.X).(VPtr)
		if !ok || st.Objs[p.O] == nil {
			return nil, false
		}
		o := st.Objs[p.O]
		if o.Typ == "array" {
			return d.bt.Instr(K, st, ins)
		}
		if o.Typ != "slice" || o.F["w"] == nil {
			return nil, false
		}
		w := o.F["w"].(VTup).V
		n, _ := d.total(st, w)
		lo, hi := linC(0), n
		if x.Low != nil {
			v, ok := K.val(st, x.Low).(VInt)
			if !ok {
				return nil, false
			}
			lo = v.L
		}
		if x.High != nil {
			v, ok := K.val(st, x.High).(VInt)
			if !ok {
				return nil, false
			}
			hi = v.L
		}
		if !st.Cons.entailsGE(lo) || !st.Cons.entailsGE(hi.sub(lo)) || !st.Cons.entailsGE(n.sub(hi)) {
			d.fail("C06", "indices stay in range", "a slice may be taken outside its length at %s%s", K.P.instrPos(x), trOf(st))
			return []R{}, true
		}
		// cut
		var nw []Val
		off := linC(0)
		in := false
		for _, v := range w {
			if st.Cons.entailsEQ(off.sub(lo)) {
				in = true
			}
			if st.Cons.entailsEQ(off.sub(hi)) {
				in = false
				if !st.Cons.entailsEQ(lo.sub(hi)) {
					break
				}
			}
			sz := d.size(st, v)
			end := off.add(sz)
			if !in && !st.Cons.entailsGE(lo.sub(end)) || in && !st.Cons.entailsGE(hi.sub(end)) {
				K.undecided(x, "part of a list at an unknown place")
			}
			if in {
				nw = append(nw, v)
			}
			off = end
		}
		q := K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": VInt{hi.sub(lo)}, "w": VTup{nw}}})
		return one(st, VPtr{q, ""}), true
	case *ssa.IndexAddr:
		p, ok := K.val(st, x.X).(VPtr)
		if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "slice" {
			break
		}
		i, ok := K.val(st, x.Index).(VInt)
		if !ok {
			return nil, false
		}
		o := st.Objs[p.O]
		ln := gint(o, "len")
		if !st.Cons.entailsGE(i.L) || !st.Cons.entailsGE(ln.sub(i.L).addC(-1)) {
			d.fail("C06", "indices stay in range", "a list may be indexed outside its length at %s%s", K.P.instrPos(x), trOf(st))
			return []R{}, true
		}
		if o.F["w"] == nil {
			w := st.wr(p.O)
			w.F["$i"] = i
			delete(w.F, "el")
			return one(st, VPtr{p.O, "el"}), true
		}
		var out []R
		for _, q := range d.split(K, st, o.F["w"].(VTup).V, i.L, "el") {
			// every list sees the element
			s := q.st
			old := st.Objs[p.O].F["w"].(VTup).V
			d.reword(s, old, q.w)
			cell := K.newObj(s, &Obj{Kind: kCell, Typ: "cell", F: map[string]Val{"": q.p}})
			out = append(out, R{s, VPtr{cell, ""}})
		}
		return out, true
	}
	return d.bt.Instr(K, st, ins)
}

// reword: one piece of a sequence was cut up; all sequences follow.
func (d *sums) reword(st *State, old, nw []Val) {
	var cut Val
	for _, v := range old {
		if posIn(nw, v) < 0 {
			cut = v
		}
	}
	if cut == nil {
		return
	}
	var by []Val
	for _, v := range nw {
		if posIn(old, v) < 0 {
			by = append(by, v)
		}
	}
	for _, id := range sortedObjs(st) {
		for _, k := range []string{"w", "$w"} {
			if t, ok := st.Objs[id].F[k].(VTup); ok && posIn(t.V, cut) >= 0 {
				st.wr(id).F[k] = VTup{replIn(t.V, cut, by...)}
			}
		}
	}
	if t, ok := d.gv(st, bC).(VTup); ok && posIn(t.V, cut) >= 0 {
		d.ghost(st).Vals[bC] = VTup{replIn(t.V, cut, by...)}
	}
}

// --- runs ----------------------------------------------------------------------------

const (
	fnLayout   = "arrangePrefixSumTreeRecursively"
	fnArrange  = "arrangePrefixSumTree"
	fnRearr    = "rearrangePrefixSumTreeToRoot"
	fnUpdateUp = "updatePrefixSumTreeLeafToRootRecursively"
	fnUpdate   = "updatePrefixSumTreeLeafToRoot"
)

var sumFns = []string{fnLayout, fnArrange, fnRearr, fnUpdateUp, fnUpdate}

func (n *btNames) runSums(P *Prog, fn *ssa.Function) btRun {
	switch fn.Name() {
	case fnLayout:
		return n.runLayout(P, fn)
	case fnArrange:
		return n.runArrange(P, fn)
	}
	return n.runUp(P, fn)
}

// runUp: the totals of everything up to the root follow.
func (n *btNames) runUp(P *Prog, fn *ssa.Function) btRun {
	mode := "update"
	if fn.Name() == fnRearr {
		mode = "rearrange"
	}
	d, K := n.newSums(P, fn, mode)
	name := fnName(fn)
	exits := 0
	nodeOf := func(K *Kern, st *State, args []Val, at ssa.Instruction) (ObjID, bool) {
		id, ok := d.nodeArg(K, st, args, at)
		if ok && st.Objs[id].F["$k"] != Val(VSym{"node"}) {
			K.undecided(at, "called with a node that is not on the way to the root")
		}
		return id, ok
	}
	taken := func(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
		id, ok := nodeOf(K, st, args, at)
		if !ok {
			return []R{}
		}
		o := st.wr(id)
		if gbool(o, "$done") {
			d.fail("C06", "totals follow a change once", "%s may go on from a node twice%s", name, trOf(st))
		}
		o.F["$done"] = VBool{true}
		if mode == "update" {
			dl, ok := args[len(args)-1].(VInt)
			want := d.gv(st, bD).(VInt).L
			if fn.Signature.Params().Len() > 1 {
				if !ok || !st.Cons.entailsEQ(dl.L.sub(want)) {
					d.fails_([]string{"C06", "C22"}, "totals follow every change up to the root", "%s may add another difference to the totals than that of the leaf, at %s%s", name, K.P.instrPos(at), trOf(st))
				}
			}
			if v, ok := o.F[n.items].(VInt); !ok || !st.Cons.entailsEQ(v.L.sub(gint(o, "$i0"))) {
				d.fails_([]string{"C06", "C22"}, "totals follow a change once", "%s may add the difference to a node twice%s", name, trOf(st))
			}
			o.F[n.items] = VInt{gint(o, "$i0").add(want)}
		} else {
			d.lower(K, st, id, name)
			it := d.freshInt(K, st, 0)
			st.wr(id).F[n.items] = it
		}
		st.wr(id).F[n.dirty] = VBool{true}
		if fn.Signature.Results().Len() == 0 {
			return one(st, nil)
		}
		if fn.Signature.Results().Len() != 1 {
			K.undecided(at, "unknown results")
		}
		out := one(st, VNil{})
		if mode == "rearrange" {
			e := st.clone()
			e.Flags["failed"] = "1"
			out = append(out, R{e, VErr{"rearrange"}})
		}
		return out
	}
	d.contracts = map[string]contract{
		"markNodeDirty": func(K *Kern, st *State, _ *ssa.Function, args []Val, at ssa.Instruction) []R {
			id, ok := d.nodeArg(K, st, args, at)
			if !ok {
				return []R{}
			}
			st.wr(id).F[n.dirty] = VBool{true}
			return one(st, nil)
		},
		"markNodeClean": func(K *Kern, st *State, _ *ssa.Function, args []Val, at ssa.Instruction) []R {
			id, ok := d.nodeArg(K, st, args, at)
			if !ok {
				return []R{}
			}
			st.wr(id).F[n.dirty] = VBool{false}
			return one(st, nil)
		},
	}
	if mode == "rearrange" {
		d.contracts[fnArrange] = func(K *Kern, st *State, f *ssa.Function, args []Val, at ssa.Instruction) []R {
			id, ok := nodeOf(K, st, args, at)
			if !ok {
				return []R{}
			}
			d.lower(K, st, id, name)
			w := st.wr(id)
			w.F["$arr"] = VBool{true}
			w.F[n.items] = d.freshInt(K, st, 0)
			if f.Signature.Results().Len() == 0 {
				return one(st, nil)
			}
			e := st.clone()
			e.Flags["failed"] = "1"
			return []R{{st, VNil{}}, {e, VErr{"arrange"}}}
		}
	} else if fn.Name() != fnUpdateUp && P.method(n.treeT, fnUpdateUp) != nil {
		d.contracts[fnUpdateUp] = taken
	}
	d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R { return taken(K, st, fn, args, at) }
	und := d.execute(K, func() {
		exits, d.given = 0, ""
		st, tr := d.start(K, true)
		g := st.Frames[0]
		g.Vals[bB] = VTup{}
		dv := linV(K.newVar())
		if mode == "update" {
			g.Vals[bD] = VInt{dv}
		}
		N := d.upNode(K, st, "node")
		st.Frames[0].Vals[bA] = N
		o := st.Objs[N.O]
		if fn.Name() == fnUpdate {
			o.F[n.leaf] = VBool{true}
			ln := d.freshInt(K, st, 0)
			kv := K.newObj(st, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"n": ln, "own": N}})
			o.F[n.kv] = VPtr{kv, ""}
			st.Cons.addEq(ln.L.sub(gint(o, "$i0")).sub(dv))
		} else if mode == "rearrange" {
			o.F[n.leaf] = VBool{false}
		}
		args := make([]Val, len(fn.Params))
		for i, p := range fn.Params {
			switch t := p.Type().Underlying().(type) {
			case *types.Pointer:
				args[i] = N
				if typeName(t.Elem()) == n.tree {
					args[i] = VPtr{tr, ""}
				}
			case *types.Basic:
				args[i] = VInt{dv}
			default:
				args[i] = VSym{"argument"}
			}
		}
		for _, x := range K.execFn(fn, args, nil, st) {
			s := x.st
			if !s.Cons.feasible() {
				continue
			}
			exits++
			if len(x.res) > 0 {
				switch errKind(x.res[len(x.res)-1]) {
				case 1:
					if s.Flags["failed"] == "" {
						d.fail("C06", "no failure without cause", "%s may fail although nothing did%s", name, trOf(s))
					}
					continue
				case -1:
					K.undecided(nil, "unknown result of %s", name)
				}
			}
			d.judgeUp(K, s, name)
		}
		if d.given != "" && len(d.bad) == 0 {
			K.undecided(nil, "%s %s", name, d.given)
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// lower: a node is summed up after the node below it.
func (d *sums) lower(K *Kern, st *State, id ObjID, name string) {
	b, ok := st.Objs[id].F["$below"].(VPtr)
	if !ok {
		return
	}
	if o := st.Objs[b.O]; o != nil && !gbool(o, "$arr") && !gbool(o, "$done") {
		d.fails_([]string{"C06", "C22"}, "a node is summed up after what is below it", "%s may sum up a node before the one below it%s", name, trOf(st))
	}
}

// runArrange: the running sums of one node are laid out anew.
func (n *btNames) runArrange(P *Prog, fn *ssa.Function) btRun {
	d, K := n.newSums(P, fn, "arrange")
	name := fnName(fn)
	exits := 0
	both := []string{"C06", "C22"}
	if P.method(n.treeT, fnLayout) != nil || P.fn(fnLayout) != nil {
		d.contracts = map[string]contract{fnLayout: func(K *Kern, st *State, f *ssa.Function, args []Val, at ssa.Instruction) []R {
			p, ok := args[len(args)-1].(VPtr)
			if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "slice" || f.Signature.Results().Len() != 1 {
				K.undecided(at, "unknown list of children")
			}
			o := st.Objs[p.O]
			ln, t := d.total(st, d.kidWord(st))
			t = t.add(gint(st.Objs[d.gv(st, bE).(VPtr).O], n.items))
			if st.Flags["laid"] != "" {
				K.undecided(at, "laid out twice")
			}
			st.Flags["laid"] = "1"
			if !st.Cons.entailsEQ(gint(o, "len").sub(ln).addC(-1)) || !st.Cons.entailsEQ(gint(o, "fill").sub(ln).addC(-1)) {
				d.fails_(both, "running sums cover every child", "%s may lay out the running sums over other than all children of the node%s", name, trOf(st))
			}
			if m := d.short(st, "iplrs"); m != "" {
				d.fails_(both, "running sums start afresh", "%s may lay out the running sums with a child that has not %s set%s", name, m, trOf(st))
			}
			r := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{"$k": VSym{"psroot"}, n.psItems: VInt{t}}})
			d.ghost(st).Vals[bF] = VPtr{r, ""}
			return one(st, VPtr{r, ""})
		}}
	}
	und := d.execute(K, func() {
		exits = 0
		st, tr := d.start(K, true)
		N := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{"$k": VSym{"top"}, n.items: d.freshInt(K, st, 0), n.loaded: VBool{true}, n.leaf: VBool{false}}})
		kv := K.newObj(st, &Obj{Kind: kStruct, Typ: "kv", F: map[string]Val{"own": VPtr{N, ""}}})
		it, cn, ct := d.freshInt(K, st, 0), d.freshInt(K, st, 1), d.freshInt(K, st, 0)
		lc := d.newKid(K, st, it.L, "", "child")
		o := st.Objs[N]
		o.F[n.kv], o.F[n.left] = VPtr{kv, ""}, lc
		run := d.newRun(K, st, cn.L, ct.L, "")
		g := st.Frames[0]
		g.Vals[bA], g.Vals[bE], g.Vals[bC] = VPtr{N, ""}, lc, VTup{[]Val{run}}
		args := make([]Val, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = VPtr{N, ""}
			if pt, ok := p.Type().(*types.Pointer); ok && typeName(pt.Elem()) == n.tree {
				args[i] = VPtr{tr, ""}
			}
		}
		for _, x := range K.execFn(fn, args, nil, st) {
			s := x.st
			if !s.Cons.feasible() {
				continue
			}
			exits++
			if len(x.res) > 0 {
				switch errKind(x.res[len(x.res)-1]) {
				case 1:
					d.fail("C06", "no failure without cause", "%s may fail although nothing did%s", name, trOf(s))
					continue
				case -1:
					K.undecided(nil, "unknown result of %s", name)
				}
			}
			o := s.Objs[d.gv(s, bA).(VPtr).O]
			_, t := d.total(s, d.kidWord(s))
			t = t.add(gint(s.Objs[d.gv(s, bE).(VPtr).O], n.items))
			r, ok := d.gv(s, bF).(VPtr)
			if !ok || o.F[n.rootPS] != Val(r) {
				d.fails_(both, "running sums follow every change below a node", "%s may return without new running sums%s", name, trOf(s))
				continue
			}
			if v, ok := o.F[n.items].(VInt); !ok || !s.Cons.entailsEQ(v.L.sub(t)) {
				d.fails_(both, "item totals are exact", "%s may leave another item total than that of the children%s", name, trOf(s))
			}
			if v, ok := s.Objs[r.O].F[n.psItems].(VInt); !ok || !s.Cons.entailsEQ(v.L.sub(t)) || len(s.Objs[r.O].F) != 2 {
				d.fails_(both, "running sums are exact", "%s may change running sums after laying them out%s", name, trOf(s))
			}
			if m := d.short(s, "iplrks"); m != "" {
				d.fails_(both, "running sums start afresh", "%s may return with a child that has not %s set%s", name, m, trOf(s))
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

// runLayout: a balanced search tree over a list of children, judged against its own contract.
func (n *btNames) runLayout(P *Prog, fn *ssa.Function) btRun {
	d, K := n.newSums(P, fn, "layout")
	name := fnName(fn)
	exits := 0
	both := []string{"C06", "C22"}
	d.self = func(K *Kern, st *State, args []Val, at ssa.Instruction) []R {
		p, ok := args[len(args)-1].(VPtr)
		if !ok || st.Objs[p.O] == nil || st.Objs[p.O].Typ != "slice" || st.Objs[p.O].F["w"] == nil {
			K.undecided(at, "unknown list of children")
		}
		w := st.Objs[p.O].F["w"].(VTup).V
		ln, t := d.total(st, w)
		all, _ := d.total(st, d.kidWord(st))
		if !st.Cons.entailsGE(ln.addC(-1)) {
			d.fails_(both, "no list of children laid out is empty", "%s may go on with an empty list at %s%s", name, K.P.instrPos(at), trOf(st))
			return []R{}
		}
		if !st.Cons.entailsGE(all.sub(ln).addC(-1)) {
			d.fails_(both, "laying out the running sums ends", "%s may go on with a list not shorter than its own at %s%s", name, K.P.instrPos(at), trOf(st))
			return []R{}
		}
		for _, v := range w {
			if o := st.Objs[v.(VPtr).O]; o.Typ != "cs" && !d.pristine(st, v.(VPtr).O) {
				d.fails_(both, "running sums start afresh", "%s may go on with a list that holds a child already laid out, at %s%s", name, K.P.instrPos(at), trOf(st))
				return []R{}
			}
		}
		r := K.newObj(st, &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{"$k": VSym{"sub"}, "$w": VTup{append([]Val{}, w...)}, n.psItems: VInt{t}, n.psParent: VNil{}, "$t": VInt{t}}})
		it := d.freshInt(K, st, 0)
		st.Cons.addGE(t.sub(it.L))
		st.wr(r).F[n.items] = it
		return one(st, VPtr{r, ""})
	}
	und := d.execute(K, func() {
		exits = 0
		st, tr := d.start(K, true)
		cn, ct := d.freshInt(K, st, 1), d.freshInt(K, st, 0)
		run := d.newRun(K, st, cn.L, ct.L, "iplr")
		sl := K.newObj(st, &Obj{Kind: kSlice, Typ: "slice", F: map[string]Val{"len": cn, "w": VTup{[]Val{run}}}})
		g := st.Frames[0]
		g.Vals[bC], g.Vals[bD] = VTup{[]Val{run}}, ct
		args := make([]Val, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = VPtr{sl, ""}
			if _, ok := p.Type().(*types.Pointer); ok {
				args[i] = VPtr{tr, ""}
			}
		}
		for _, x := range K.execFn(fn, args, nil, st) {
			s := x.st
			if !s.Cons.feasible() {
				continue
			}
			exits++
			if debugSel == "exits" {
				println(s.String(K))
			}
			bad := func(rule, f string) { d.fails_(both, rule, f+"%s", name, trOf(s)) }
			id, ok := isNode(s, x.res[0], n.node)
			if !ok {
				if _, isNil := x.res[0].(VNil); !isNil {
					K.undecided(nil, "unknown result of %s", name)
				}
				bad("running sums cover every child", "%s may return no child at all")
				continue
			}
			o := s.Objs[id]
			if o.F[n.psParent] != Val(VNil{}) {
				bad("running sums are linked both ways", "%s may return a child that is not the top of its running sums")
			}
			if v, ok := o.F[n.psItems].(VInt); !ok || !s.Cons.entailsEQ(v.L.sub(d.gv(s, bD).(VInt).L)) {
				bad("running sums are exact", "%s may return a child whose running sum is not the total of the list")
			}
			var w []Val
			linked := true
			var walk func(id ObjID, depth int)
			walk = func(id ObjID, depth int) {
				o := s.Objs[id]
				if depth > 6 {
					K.undecided(nil, "running sums too deep")
				}
				if t, ok := o.F["$w"].(VTup); ok {
					w = append(w, t.V...)
					if v, ok := o.F[n.psItems].(VInt); !ok || !s.Cons.entailsEQ(v.L.sub(gint(o, "$t"))) {
						bad("running sums are exact", "%s may change a running sum already exact")
					}
					return
				}
				_, t0 := linC(0), gint(o, n.items)
				for i, k := range []string{n.psLeft, n.psRight} {
					if i == 1 {
						w = append(w, VPtr{id, ""})
					}
					switch c := o.F[k].(type) {
					case VNil:
					case VPtr:
						co := s.Objs[c.O]
						if co.F[n.psParent] != Val(VPtr{id, ""}) {
							linked = false
						}
						t0 = t0.add(gint(co, n.psItems))
						walk(c.O, depth+1)
					default:
						K.undecided(nil, "unknown running sums")
					}
				}
				if v, ok := o.F[n.psItems].(VInt); !ok || !s.Cons.entailsEQ(v.L.sub(t0)) {
					bad("running sums are exact", "%s may leave a child whose running sum is not the total of what it covers")
				}
				if v, ok := o.F[n.items].(VInt); !ok || !s.Cons.entailsEQ(v.L.sub(gint(o, "$i0"))) || o.F[n.psIdx] != nil {
					bad("running sums change nothing else", "%s may change the total or place of a child")
				}
			}
			walk(id, 0)
			if !linked {
				bad("running sums are linked both ways", "%s may leave a child that does not refer back to the one above it")
			}
			trim := func(w []Val) []Val {
				var out []Val
				for _, v := range w {
					if !s.Cons.entailsEQ(d.size(s, v)) {
						out = append(out, v)
					}
				}
				return out
			}
			have, want := trim(w), trim(d.kidWord(s))
			same := len(have) == len(want)
			for i := range want {
				same = same && have[i] == want[i]
			}
			if !same {
				bad("running sums cover every child", "%s may lay out the running sums over other than all children in order")
			}
		}
	})
	miss, blocks := d.coverage(K, name)
	return btRun{d.bad, und, exits, K.nstates, K.steps, miss, blocks}
}

func (d *sums) pristine(st *State, id ObjID) bool {
	n := d.n
	o := st.Objs[id]
	if o.F["$k"] != Val(VSym{"el"}) {
		return false
	}
	v, ok := o.F[n.psItems].(VInt)
	return ok && st.Cons.entailsEQ(v.L.sub(gint(o, n.items))) && o.F[n.psParent] == Val(VNil{}) && o.F[n.psLeft] == Val(VNil{}) && o.F[n.psRight] == Val(VNil{})
}

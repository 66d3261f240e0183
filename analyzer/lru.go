package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The shared cache: its two recency lists, their counters and its background eviction.
//
// Every critical section of the cache's lock is interpreted from every well-formed pair of lists
// (each list: empty, one node, or two ends with any number of nodes between) and every place the
// operation's node may have in them; at the release of the lock the lists are walked again.

func init() {
	checks["C13"] = func(P *Prog, r *Result) { checkLRU(P, r, "C13") }
	checks["C14"] = func(P *Prog, r *Result) { checkLRU(P, r, "C14") }
}

type lruNames struct {
	cache, node, tree                  string
	tag, next, prev                    string // paths in a node
	dirty, loaded, treeF               string
	head, tail, items                  [3]string // by list: 1 clean, 2 dirty
	low, high, active                  string
	nodeCache                          string
	vNo, vClean, vDirty                int64
	ops                                map[string]*ssa.Function
	drainers, locking, purges, markers map[*ssa.Function]bool
	setLimits                          *ssa.Function
}

// leafPath finds the path of the field called name in struct type t, looking into nested structs.
func leafPath(t types.Type, name string) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return name
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isMutex(f.Type()) {
			continue
		}
		if _, isS := f.Type().Underlying().(*types.Struct); isS {
			if p := leafPath(f.Type(), name); p != "" {
				return f.Name() + "." + p
			}
		}
	}
	return ""
}

func lruRoles(P *Prog) (*lruNames, string) {
	n := &lruNames{drainers: map[*ssa.Function]bool{}, locking: map[*ssa.Function]bool{}, purges: map[*ssa.Function]bool{}, markers: map[*ssa.Function]bool{}}
	ci := P.iface("BPlusTreeCache")
	ti := P.iface("BPlusTree")
	if ci == nil || ti == nil {
		return nil, "cache or tree interface not found"
	}
	var ct, tt, nt *types.Named
	for _, t := range P.implementors(ci) {
		ct = t
	}
	for _, t := range P.implementors(ti) {
		tt = t
	}
	if ct == nil || tt == nil {
		return nil, "cache or tree type not found"
	}
	if f := fieldType(tt, "root"); f != nil {
		nt = derefNamed(f)
	}
	if nt == nil {
		return nil, "node type not found"
	}
	n.cache, n.tree, n.node = ct.Obj().Name(), tt.Obj().Name(), nt.Obj().Name()
	miss := ""
	get := func(t *types.Named, names ...string) string {
		for _, x := range names {
			if p := leafPath(t, x); p != "" {
				return p
			}
		}
		miss += " " + names[0]
		return ""
	}
	n.tag = get(nt, "btreeNodeCacheTag")
	n.next, n.prev = get(nt, "nextBTreeNode"), get(nt, "prevBTreeNode")
	n.dirty, n.loaded, n.treeF = get(nt, "dirty"), get(nt, "loaded"), get(nt, "tree")
	n.head[1], n.tail[1], n.items[1] = get(ct, "cleanLRUHead"), get(ct, "cleanLRUTail"), get(ct, "cleanLRUItems")
	n.head[2], n.tail[2], n.items[2] = get(ct, "dirtyLRUHead"), get(ct, "dirtyLRUTail"), get(ct, "dirtyLRUItems")
	n.low, n.high, n.active = get(ct, "evictLowLimit"), get(ct, "evictHighLimit"), get(ct, "drainerActive")
	n.nodeCache = get(tt, "nodeCache")
	if miss != "" {
		return nil, "fields not found:" + miss
	}
	for i, c := range []string{"noLRU", "cleanLRU", "dirtyLRU"} {
		o, ok := P.Pkg.Types.Scope().Lookup(c).(*types.Const)
		if !ok {
			return nil, "constant " + c + " not found"
		}
		v, _ := constant.Int64Val(o.Val())
		*[]*int64{&n.vNo, &n.vClean, &n.vDirty}[i] = v
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if op, own := mutexCall(c.Common()); op == "Lock" && own == n.cache {
					n.locking[f] = true
				}
				if g, ok := i.(*ssa.Go); ok {
					fs, _ := P.callees(g.Common())
					for _, x := range fs {
						n.drainers[x] = true
					}
				}
			}
		}
	}
	n.setLimits = P.method(ct, "UpdateLimits")
	m := P.modref()
	if p := P.method(tt, "Purge"); p != nil {
		for g := range m.reach[p] {
			if m.reach[g][g] && m.trans[g][fieldKey{n.node, "loaded"}] {
				self := false
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if c, ok := i.(ssa.CallInstruction); ok {
							fs, _ := P.callees(c.Common())
							for _, h := range fs {
								self = self || m.reach[h][g]
							}
						}
					}
				}
				if self {
					n.purges[g] = true
				}
			}
		}
	}
	return n, ""
}

// mutexCall recognises x.Lock() / x.Unlock() on a mutex inside a struct: the method and the
// struct's type.
func mutexCall(c *ssa.CallCommon) (op, owner string) {
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return "", ""
	}
	switch f.String() {
	case "(*sync.Mutex).Lock":
		op = "Lock"
	case "(*sync.Mutex).Unlock":
		op = "Unlock"
	default:
		return "", ""
	}
	if k, _, ok := addrField(c.Args[0]); ok {
		return op, k.Owner
	}
	return op, "?"
}

type lru struct {
	P   *Prog
	n   *lruNames
	fn  *ssa.Function
	bad map[string]string // prop|rule -> text
	dr  bool              // interpreting a drainer
}

const ( // ghost frame
	gCache = iota
	gNode
	gW1 // clean list at the lock
	gW2
	gHead // clean head at the last release (drainer)
	gTree // tree locked last
	gLow0
	gHigh0
	gLow1 // limits at the last release
	gHigh1
	gArg1
	gArg2
	gCount
)

// cst: the constant a value certainly is.
func (d *lru) cst(st *State, v Val) (int64, bool) {
	i, ok := v.(VInt)
	if !ok {
		return 0, false
	}
	l := st.Cons.reduce(i.L)
	return l.k, l.isConst()
}

func (d *lru) ghost(st *State) *Frame {
	f := st.Frames[0]
	g := &Frame{Vals: append([]Val{}, f.Vals...)}
	st.Frames = append([]*Frame{}, st.Frames...)
	st.Frames[0] = g
	return g
}

func (d *lru) fail(prop, rule, f string, a ...interface{}) {
	k := prop + "|" + rule
	if d.bad[k] == "" {
		d.bad[k] = fmt.Sprintf(f, a...)
	}
}

func (d *lru) Hide(typ, field string) bool                            { return false }
func (d *lru) Fold(K *Kern, st *State, keep, noAbsorb map[ObjID]bool) {}
func (d *lru) NilTest(K *Kern, st *State, o ObjID) []*State           { return nil }
func (d *lru) Read(K *Kern, st *State, o ObjID, p string) ([]R, bool) { return nil, false }
func (d *lru) Force(K *Kern, st *State, o ObjID, why string) []*State { return nil }
func (d *lru) Global(name string) (Val, bool)                         { return nil, false }

func (d *lru) Deref(K *Kern, st *State, v Val, at ssa.Instruction) {
	switch x := v.(type) {
	case VNil:
		if st.Cons.feasible() {
			d.fail("C13", "no nil dereference", "a nil list link is followed at %s (path %s)", K.P.instrPos(at), strings.Join(st.Trace, " "))
		}
	case VSym:
		if x.S == "panic" {
			return // a logic error that stops the program: reached only from states excluded elsewhere
		}
		K.undecided(at, "%s", x.S)
	default:
		K.undecided(at, "unknown pointer")
	}
}

func (d *lru) newNode(K *Kern, st *State, tag int64) ObjID {
	return K.newObj(st, &Obj{Kind: kStruct, Typ: d.n.node, F: map[string]Val{d.n.tag: VInt{linC(tag)}, d.n.dirty: VBool{tag == d.n.vDirty}, d.n.loaded: VBool{true}}})
}

// gaps lists the gap objects.
func (d *lru) gaps(st *State) []ObjID {
	var out []ObjID
	for id, o := range st.Objs {
		if o.Typ == "gap" {
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (d *lru) Lazy(K *Kern, st *State, id ObjID, path string) ([]R, bool) {
	o := st.Objs[id]
	n := d.n
	switch o.Typ {
	case n.node:
		switch path {
		case n.next, n.prev:
			for _, g := range d.gaps(st) {
				l, r := st.Objs[g].F["l"].(VPtr).O, st.Objs[g].F["r"].(VPtr).O
				if (path == n.next && l == id) || (path == n.prev && r == id) {
					return d.split(K, st, g, id, path), true
				}
			}
			return nil, false
		case n.tag, n.dirty, n.loaded:
			// a node looked at without knowing the state of its list: any consistent combination
			var out []R
			for _, t := range []int64{n.vNo, n.vClean, n.vDirty} {
				s := st.clone()
				w := s.wr(id)
				w.F[n.tag] = VInt{linC(t)}
				w.F[n.dirty] = VBool{t == n.vDirty}
				w.F[n.loaded] = VBool{t != n.vNo}
				out = append(out, R{s, w.F[path]})
			}
			return out, true
		case n.treeF:
			t := K.newObj(st, &Obj{Kind: kStruct, Typ: n.tree, F: map[string]Val{n.nodeCache: st.Frames[0].Vals[gCache]}})
			st.wr(id).F[path] = VPtr{t, ""}
			return one(st, VPtr{t, ""}), true
		}
	}
	t := d.P.namedByName(o.Typ)
	if t == nil {
		return nil, false
	}
	ft := pathType(t, path)
	if ft == nil {
		return nil, false
	}
	if b, ok := ft.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			v := linV(K.newVar())
			if b.Info()&types.IsUnsigned != 0 {
				st.Cons.addGE(v)
			}
			st.wr(id).F[path] = VInt{v}
			return one(st, VInt{v}), true
		}
		if b.Info()&types.IsBoolean != 0 {
			s := st.clone()
			s.wr(id).F[path] = VBool{true}
			st.wr(id).F[path] = VBool{false}
			return []R{{s, VBool{true}}, {st, VBool{false}}}, true
		}
	}
	if _, ok := ft.Underlying().(*types.Struct); ok {
		return nil, false
	}
	return one(st, VTop{path}), true
}

func pathType(t types.Type, path string) types.Type {
	for _, p := range strings.Split(path, ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			return nil
		}
		t = ft
	}
	return t
}

// split resolves the link of node id into a gap: nothing between, or a further node.
func (d *lru) split(K *Kern, st *State, g, id ObjID, path string) []R {
	n := d.n
	var out []R
	go1 := st.Objs[g]
	l, r := go1.F["l"].(VPtr).O, go1.F["r"].(VPtr).O
	cnt := go1.F["n"].(VInt).L
	// empty
	s := st.clone()
	if s.assumeEQ(cnt) {
		if _, ok := s.Objs[l].F[n.next]; !ok {
			s.wr(l).F[n.next] = VPtr{r, ""}
		}
		if _, ok := s.Objs[r].F[n.prev]; !ok {
			s.wr(r).F[n.prev] = VPtr{l, ""}
		}
		d.replaceInGhost(s, g, nil)
		delete(s.Objs, g)
		if v, ok := s.Objs[id].F[path]; ok {
			out = append(out, R{s, v})
		}
	}
	if st.assumeGE(cnt.addC(-1)) {
		// the new node has the tag of its neighbour
		tag, _ := d.cst(st, st.Objs[g].F["tag"])
		c := d.newNode(K, st, tag)
		w := st.wr(g)
		w.F["n"] = VInt{cnt.addC(-1)}
		if path == n.next {
			w.F["l"] = VPtr{c, ""}
			st.wr(id).F[n.next] = VPtr{c, ""}
			st.wr(c).F[n.prev] = VPtr{id, ""}
			d.replaceInGhost(st, g, []Val{VPtr{c, ""}, VPtr{g, ""}})
		} else {
			w.F["r"] = VPtr{c, ""}
			st.wr(id).F[n.prev] = VPtr{c, ""}
			st.wr(c).F[n.next] = VPtr{id, ""}
			d.replaceInGhost(st, g, []Val{VPtr{g, ""}, VPtr{c, ""}})
		}
		out = append(out, R{st, VPtr{c, ""}})
	}
	return out
}

func (d *lru) replaceInGhost(st *State, g ObjID, by []Val) {
	f := d.ghost(st)
	for _, k := range []int{gW1, gW2} {
		t, ok := f.Vals[k].(VTup)
		if !ok {
			continue
		}
		var o []Val
		for _, v := range t.V {
			if v == (VPtr{g, ""}) {
				o = append(o, by...)
			} else {
				o = append(o, v)
			}
		}
		f.Vals[k] = VTup{o}
	}
}

func (d *lru) Instr(K *Kern, st *State, ins ssa.Instruction) ([]R, bool) {
	switch ins.(type) {
	case *ssa.MakeMap:
		return one(st, VSym{"map"}), true
	case *ssa.MapUpdate:
		return one(st, nil), true
	}
	return nil, false
}

func (d *lru) Call(K *Kern, st *State, com *ssa.CallCommon, fn *ssa.Function, f Val, args []Val, at ssa.Instruction) ([]R, bool) {
	n := d.n
	if _, isGo := at.(*ssa.Go); isGo {
		if fn != nil && n.drainers[fn] && d.locksCache(fn) {
			k := "go1"
			if st.Flags["go"] != "" {
				k = "go2"
			}
			st.Flags["go"] = k
		}
		return one(st, nil), true
	}
	if fn == nil {
		return nil, false
	}
	switch fn.String() {
	case "runtime.Goexit":
		if len(st.top().Defs) > 0 {
			K.undecided(at, "Goexit with deferred calls")
		}
		d.atExit(K, st, at)
		return []R{}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		p, ok := args[0].(VPtr)
		if !ok || st.Objs[p.O] == nil {
			if _, isNil := args[0].(VNil); isNil {
				d.Deref(K, st, VNil{}, at)
				return []R{}, true
			}
			K.undecided(at, "unknown mutex")
		}
		lock := strings.HasSuffix(fn.String(), ").Lock")
		switch st.Objs[p.O].Typ {
		case n.cache:
			if lock {
				return d.lock(K, st, at), true
			}
			return d.unlock(K, st, at), true
		case n.tree:
			g := d.ghost(st)
			if lock {
				g.Vals[gTree] = VPtr{p.O, ""}
			} else {
				if st.Flags["evict"] == "may" && g.Vals[gTree] == Val(VPtr{p.O, ""}) {
					if h, ok := g.Vals[gHead].(VPtr); ok {
						if t, known := d.cst(st, st.Objs[h.O].F[n.tag]); known && t != n.vClean {
							delete(st.Flags, "evict")
						}
					}
				}
				g.Vals[gTree] = VNil{}
			}
			d.forget(st, nil)
			return one(st, nil), true
		}
		return nil, false
	}
	if n.purges[fn] {
		return d.purge(K, st, fn, args, at), true
	}
	if K.rec[fn] {
		K.undecided(at, "recursive function %s called in a cache operation", fnName(fn))
	}
	return nil, false
}

func (d *lru) locksCache(fn *ssa.Function) bool {
	if d.n.locking[fn] {
		return true
	}
	for g := range d.P.modref().reach[fn] {
		if d.n.locking[g] {
			return true
		}
	}
	return false
}

// forget drops what is known of nodes other than the operation's own.
func (d *lru) forget(st *State, keep map[ObjID]bool) {
	own, _ := st.Frames[0].Vals[gNode].(VPtr)
	for id, o := range st.Objs {
		if o.Typ == d.n.node && id != own.O && !keep[id] {
			w := st.wr(id)
			t := w.F[d.n.treeF]
			w.F = map[string]Val{}
			if t != nil {
				w.F[d.n.treeF] = t
			}
			w.F[d.n.next], w.F[d.n.prev] = VTop{"link"}, VTop{"link"}
		}
	}
}

func (d *lru) purge(K *Kern, st *State, fn *ssa.Function, args []Val, at ssa.Instruction) []R {
	n := d.n
	var victim, tree *VPtr
	for i := range args {
		if p, ok := args[i].(VPtr); ok && st.Objs[p.O] != nil {
			q := p
			switch st.Objs[p.O].Typ {
			case n.node:
				victim = &q
			case n.tree:
				tree = &q
			}
		}
	}
	if victim == nil {
		K.undecided(at, "purge of an unknown node")
	}
	v := st.Objs[victim.O]
	g := st.Frames[0]
	pos := K.P.instrPos(at)
	if d.dr {
		if g.Vals[gHead] != Val(VPtr{victim.O, ""}) {
			d.fail("C14", "victim is the least recently used clean node", "the node evicted at %s is not the one that headed the clean list when the cache was last locked", pos)
		}
		t, _ := v.F[n.treeF].(VPtr)
		if g.Vals[gTree] != Val(VPtr{t.O, ""}) || t.O == 0 || (tree != nil && tree.O != t.O) {
			d.fail("C14", "victim's tree is locked", "the node is evicted at %s without holding the lock of its own tree", pos)
		}
		if tg, ok := d.cst(st, v.F[n.tag]); !ok || tg != n.vClean {
			d.fail("C14", "victim is checked again under its tree's lock", "the node evicted at %s may meanwhile have been changed, evicted or dropped: its state is not checked (as clean) after its tree's lock was taken", pos)
		}
	}
	if d.dr && st.Flags["evict"] != "may" {
		d.fail("C14", "eviction runs down to the low limit", "a node is evicted at %s although the total may already be within the low limit", pos)
	}
	delete(st.Flags, "evict")
	d.forget(st, nil)
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return one(st, nil)
	}
	s2 := st.clone()
	return []R{{st, VNil{}}, {s2, VErr{"purge"}}}
}

// --- sections ---------------------------------------------------------------

func (d *lru) list(K *Kern, st *State, li int, own ObjID, left, right int) []Val {
	n := d.n
	tag := []int64{0, n.vClean, n.vDirty}[li]
	var w []Val
	part := func(k int) (first, last ObjID) {
		switch k {
		case 0:
			return 0, 0
		case 1:
			a := d.newNode(K, st, tag)
			w = append(w, VPtr{a, ""})
			return a, a
		}
		a, b := d.newNode(K, st, tag), d.newNode(K, st, tag)
		c := linV(K.newVar())
		st.Cons.addGE(c)
		g := K.newObj(st, &Obj{Kind: kStruct, Typ: "gap", F: map[string]Val{"l": VPtr{a, ""}, "r": VPtr{b, ""}, "n": VInt{c}, "tag": VInt{linC(tag)}}})
		w = append(w, VPtr{a, ""}, VPtr{g, ""}, VPtr{b, ""})
		return a, b
	}
	lf, ll := part(left)
	if own != 0 {
		w = append(w, VPtr{own, ""})
	}
	rf, rl := part(right)
	link := func(a, b ObjID) {
		if a != 0 {
			if b == 0 {
				st.wr(a).F[n.next] = VNil{}
			} else {
				st.wr(a).F[n.next] = VPtr{b, ""}
			}
		}
		if b != 0 {
			if a == 0 {
				st.wr(b).F[n.prev] = VNil{}
			} else {
				st.wr(b).F[n.prev] = VPtr{a, ""}
			}
		}
	}
	first, last := lf, rl
	if own != 0 {
		link(ll, own)
		link(own, rf)
		if first == 0 {
			first = own
		}
		if last == 0 {
			last = own
		}
	} else {
		if left != 0 && right != 0 {
			panic("two parts without a node")
		}
		if first == 0 {
			first = rf
		}
		if last == 0 {
			last = ll
		}
	}
	link(0, first)
	link(last, 0)
	c := st.wr(st.Frames[0].Vals[gCache].(VPtr).O)
	if first == 0 {
		c.F[n.head[li]], c.F[n.tail[li]] = VNil{}, VNil{}
	} else {
		c.F[n.head[li]], c.F[n.tail[li]] = VPtr{first, ""}, VPtr{last, ""}
	}
	c.F[n.items[li]] = VInt{d.wordLen(st, w)}
	return w
}

func (d *lru) wordLen(st *State, w []Val) Lin {
	l := linC(0)
	for _, v := range w {
		p := v.(VPtr)
		if st.Objs[p.O].Typ == "gap" {
			l = l.add(st.Objs[p.O].F["n"].(VInt).L)
		} else {
			l = l.addC(1)
		}
	}
	return l
}

func (d *lru) lock(K *Kern, st0 *State, at ssa.Instruction) []R {
	n := d.n
	if st0.Flags["held"] != "" {
		K.undecided(at, "cache locked twice")
	}
	if st0.Flags["stopped"] != "" {
		d.fail("C14", "the drainer stops once it has recorded so", "after recording that it stopped, the eviction locks the cache again at %s", K.P.instrPos(at))
		return []R{}
	}
	if st0.Flags["evict"] == "may" {
		d.fail("C14", "eviction runs down to the low limit", "the eviction comes back to %s without having evicted the node it picked, although nothing shows it unfit (path %s)", K.P.instrPos(at), strings.Join(st0.Trace, " "))
		delete(st0.Flags, "evict")
	}
	st0.Flags["held"] = "1"
	d.forget(st0, nil)
	for _, g := range d.gaps(st0) {
		delete(st0.Objs, g)
	}
	c := st0.Frames[0].Vals[gCache].(VPtr).O
	own, hasOwn := st0.Frames[0].Vals[gNode].(VPtr)
	w := st0.wr(c)
	w.F = map[string]Val{}
	lo, hi := linV(K.newVar()), linV(K.newVar())
	st0.Cons.addGE(lo)
	st0.Cons.addGE(hi)
	w.F[n.low], w.F[n.high] = VInt{lo}, VInt{hi}
	tag := n.vNo
	if hasOwn {
		tag, _ = d.cst(st0, st0.Objs[own.O].F[n.tag])
		o := st0.wr(own.O)
		delete(o.F, n.next)
		delete(o.F, n.prev)
	}
	var out []R
	for _, act := range []bool{true, false} {
		if d.dr && !act {
			continue
		}
		type sh struct {
			own         ObjID
			left, right int
		}
		shapes := func(mine bool) []sh {
			var o []sh
			for l := 0; l < 3; l++ {
				if !mine {
					o = append(o, sh{0, l, 0})
					continue
				}
				for r := 0; r < 3; r++ {
					o = append(o, sh{own.O, l, r})
				}
			}
			return o
		}
		for _, a := range shapes(hasOwn && tag == n.vClean) {
			for _, b := range shapes(hasOwn && tag == n.vDirty) {
				s := st0.clone()
				s.wr(c).F[n.active] = VBool{act}
				if hasOwn && tag == n.vNo {
					w := s.wr(own.O)
					w.F[n.next], w.F[n.prev] = VNil{}, VNil{}
				}
				w1 := d.list(K, s, 1, a.own, a.left, a.right)
				w2 := d.list(K, s, 2, b.own, b.left, b.right)
				g := d.ghost(s)
				g.Vals[gW1], g.Vals[gW2] = VTup{w1}, VTup{w2}
				g.Vals[gLow0], g.Vals[gHigh0] = VInt{lo}, VInt{hi}
				s.Flags["act0"] = fmt.Sprint(act)
				out = append(out, R{s, nil})
			}
		}
	}
	return out
}

// walk follows the list from its head; "" or what is wrong with it.
func (d *lru) walk(st *State, li int) ([]Val, string) {
	n := d.n
	c := st.Objs[st.Frames[0].Vals[gCache].(VPtr).O]
	name := []string{"", "clean", "dirty"}[li]
	tag := []int64{0, n.vClean, n.vDirty}[li]
	var w []Val
	cur := c.F[n.head[li]]
	var prev Val = VNil{}
	seen := map[ObjID]bool{}
	for {
		p, ok := cur.(VPtr)
		if !ok {
			if _, isNil := cur.(VNil); !isNil {
				return nil, "the " + name + " list leads to an unknown link"
			}
			break
		}
		if seen[p.O] {
			return nil, "the " + name + " list runs in a circle"
		}
		seen[p.O] = true
		o := st.Objs[p.O]
		if o == nil || o.Typ != n.node {
			return nil, "the " + name + " list leads to something that is not a node"
		}
		if v, ok := o.F[n.prev]; !ok || v != prev {
			return nil, "a node of the " + name + " list does not link back to its predecessor"
		}
		if t, ok := d.cst(st, o.F[n.tag]); !ok || t != tag {
			return nil, "a node on the " + name + " list is not tagged so"
		}
		w = append(w, p)
		if v, ok := o.F[n.next]; ok {
			prev, cur = p, v
			continue
		}
		found := false
		for _, g := range d.gaps(st) {
			if st.Objs[g].F["l"].(VPtr).O == p.O {
				found = true
				w = append(w, VPtr{g, ""})
				r := st.Objs[g].F["r"].(VPtr)
				if _, set := st.Objs[r.O].F[n.prev]; set {
					return nil, "a node of the " + name + " list does not link back to its predecessor"
				}
				if seen[r.O] {
					return nil, "the " + name + " list runs in a circle"
				}
				seen[r.O] = true
				ro := st.Objs[r.O]
				if t, ok := d.cst(st, ro.F[n.tag]); !ok || t != tag {
					return nil, "a node on the " + name + " list is not tagged so"
				}
				w = append(w, r)
				v, ok := ro.F[n.next]
				if !ok {
					// directly followed by another gap
					prev = nil
					for _, h := range d.gaps(st) {
						if st.Objs[h].F["l"].(VPtr).O == r.O {
							return nil, "(gap chain)"
						}
					}
					return nil, "the " + name + " list is broken"
				}
				prev, cur = r, v
				break
			}
		}
		if !found {
			return nil, "the " + name + " list is broken"
		}
	}
	var last Val = VNil{}
	if len(w) > 0 {
		last = w[len(w)-1]
	}
	if c.F[n.tail[li]] != last {
		return nil, "the tail of the " + name + " list is not its last node"
	}
	if k, ok := c.F[n.items[li]].(VTop); ok && k.Why != "unsigned wrap-around" {
		return nil, "(unknown total)"
	}
	if k, ok := c.F[n.items[li]].(VInt); !ok || !st.Cons.entailsEQ(k.L.sub(d.wordLen(st, w))) {
		return nil, "the " + name + " total is not the length of the " + name + " list"
	}
	return w, ""
}

// a chain of two gaps cannot be walked above: materialise the node between first
func (d *lru) unlock(K *Kern, st *State, at ssa.Instruction) []R {
	n := d.n
	if st.Flags["held"] == "" {
		K.undecided(at, "cache released without holding it")
	}
	if !st.Cons.feasible() {
		return []R{}
	}
	pos := K.P.instrPos(at)
	tr := fmt.Sprintf(" (released at %s, path %s)", pos, strings.Join(st.Trace, " "))
	g := st.Frames[0]
	own, hasOwn := g.Vals[gNode].(VPtr)
	c := st.Objs[g.Vals[gCache].(VPtr).O]
	var ws [3][]Val
	okLists := true
	for li := 1; li <= 2; li++ {
		w, e := d.walk(st, li)
		if e == "(gap chain)" {
			K.undecided(at, "two gaps in a row")
		}
		if e == "(unknown total)" {
			K.undecided(at, "cache totals unknown")
		}
		if e != "" {
			if debugSel == "x" {
				fmt.Println(e, tr, st.String(K))
			}
			d.fail("C13", "lists are well formed", "%s%s", e, tr)
			okLists = false
			continue
		}
		ws[li] = w
	}
	if okLists {
		// every node that was on a list still is, in the same order; the operation's node moved to the end
		where := 0
		for li := 1; li <= 2; li++ {
			was := g.Vals[[]int{0, gW1, gW2}[li]].(VTup).V
			a, b := d.without(was, own, hasOwn), d.without(ws[li], own, hasOwn)
			if !sameVals(a, b) {
				d.fail("C13", "other nodes keep their place", "nodes other than the one concerned are lost, added or reordered on a list%s", tr)
			}
			for i, v := range ws[li] {
				if hasOwn && v == Val(VPtr{own.O, ""}) {
					if where != 0 {
						d.fail("C13", "a node is on one list only", "the node is on both lists%s", tr)
					}
					where = li
					if i != len(ws[li])-1 && d.moves(K) {
						d.fail("C13", "a used node becomes the most recently used", "the node just used is not at the recent end of its list%s", tr)
					}
				}
			}
		}
		if hasOwn {
			o := st.Objs[own.O]
			if t, ok := d.cst(st, o.F[n.tag]); ok && t == n.vNo {
				if where != 0 {
					d.fail("C13", "a node is on the list its tag names", "a node tagged as on no list is still on one%s", tr)
				}
				if o.F[n.next] != Val(VNil{}) || o.F[n.prev] != Val(VNil{}) {
					d.fail("C13", "a node off the lists has no links", "a node taken off the lists keeps a link into them, so it corrupts them when it is put back%s", tr)
				}
			} else if where == 0 {
				d.fail("C13", "a node is on the list its tag names", "a node tagged as on a list is on none%s", tr)
			}
		}
	}
	// background eviction
	act0 := st.Flags["act0"] == "true"
	av, _ := c.F[n.active].(VBool)
	act1 := av.B
	if _, ok := c.F[n.active].(VBool); !ok {
		K.undecided(at, "drainerActive unknown")
	}
	i1, ok1 := c.F[n.items[1]].(VInt)
	i2, ok2 := c.F[n.items[2]].(VInt)
	hi, ok3 := c.F[n.high].(VInt)
	lo, ok4 := c.F[n.low].(VInt)
	if !(ok1 && ok2 && ok3 && ok4) {
		if !okLists {
			return []R{} // already reported
		}
		K.undecided(at, "cache totals unknown")
	}
	total := i1.L.add(i2.L)
	possible := func(ge ...Lin) bool {
		c := st.Cons.clone()
		for _, l := range ge {
			c.addGE(l)
		}
		return c.feasible()
	}
	switch {
	case !act0 && act1:
		st.Flags["trans"] = "1"
		if possible(hi.L.sub(total)) {
			d.fail("C14", "eviction starts above the high limit", "a background eviction is started although the total may be within the high limit%s", tr)
		}
	case act0 && !act1:
		if !d.dr {
			d.fail("C14", "only the eviction records that it stopped", "the running eviction is recorded as stopped by something else%s", tr)
		}
		if possible(total.sub(lo.L).addC(-1), i1.L.addC(-1)) {
			d.fail("C14", "eviction runs down to the low limit", "the eviction stops although the total may still exceed the low limit with clean nodes left%s", tr)
		}
		st.Flags["stopped"] = "1"
	}
	if okLists && !act1 && !d.dr {
		grew := !st.Cons.entailsGE(d.wordLen(st, g.Vals[gW1].(VTup).V).sub(i1.L))
		lim := !st.Cons.entailsGE(hi.L.sub(g.Vals[gHigh0].(VInt).L))
		if (grew || lim) && possible(total.sub(hi.L).addC(-1), i1.L.addC(-1)) {
			d.fail("C14", "eviction is under way above the high limit", "clean nodes became resident, or the limits changed, so that the total may exceed the high limit, but no eviction is under way or started%s", tr)
		}
	}
	gh := d.ghost(st)
	if d.dr && act1 {
		// the section that picks a victim
		st.Flags["evict"] = "may"
		if possible(lo.L.sub(total)) {
			st.Flags["evict"] = "low"
		}
		gh.Vals[gHead] = c.F[n.head[1]]
	}
	gh.Vals[gW1], gh.Vals[gW2] = VNil{}, VNil{}
	gh.Vals[gLow0], gh.Vals[gHigh0] = VNil{}, VNil{}
	gh.Vals[gLow1], gh.Vals[gHigh1] = lo, hi
	delete(st.Flags, "held")
	delete(st.Flags, "act0")
	d.forget(st, nil)
	for _, x := range d.gaps(st) {
		delete(st.Objs, x)
	}
	w := st.wr(g.Vals[gCache].(VPtr).O)
	w.F = map[string]Val{}
	return one(st, nil)
}

// moves: may the function under analysis relink nodes at all?
func (d *lru) moves(K *Kern) bool {
	for k := range K.mr.trans[d.fn] {
		if k.Field == lastPart(d.n.next) || k.Field == lastPart(d.n.prev) {
			return true
		}
	}
	return false
}

func lastPart(p string) string { return p[strings.LastIndex(p, ".")+1:] }

func (d *lru) without(w []Val, own VPtr, has bool) []Val {
	var o []Val
	for _, v := range w {
		if has && v == Val(VPtr{own.O, ""}) {
			continue
		}
		o = append(o, v)
	}
	return o
}

func sameVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (d *lru) atExit(K *Kern, st *State, at ssa.Instruction) {
	if !st.Cons.feasible() {
		return
	}
	tr := " (path " + strings.Join(st.Trace, " ") + ")"
	if st.Flags["held"] != "" {
		st.Flags["escapes"] = "1"
	}
	if d.dr && st.Flags["stopped"] == "" {
		d.fail("C14", "the eviction records that it stopped", "the eviction ends without recording it, so none can be started again%s", tr)
	}
	switch {
	case st.Flags["trans"] != "" && st.Flags["go"] == "":
		d.fail("C14", "a recorded eviction is started", "the eviction is recorded as active but never started%s", tr)
	case st.Flags["trans"] == "" && st.Flags["go"] != "":
		d.fail("C14", "one eviction at a time", "an eviction is started although none was recorded as newly active%s", tr)
	case st.Flags["go"] == "go2":
		d.fail("C14", "one eviction at a time", "two evictions are started%s", tr)
	}
	if own, ok := st.Frames[0].Vals[gNode].(VPtr); ok {
		o := st.Objs[own.O]
		t, ok1 := d.cst(st, o.F[d.n.tag])
		b, ok2 := o.F[d.n.dirty].(VBool)
		if !ok1 || !ok2 {
			K.undecided(at, "node state unknown")
		}
		if t != d.n.vNo && (t == d.n.vDirty) != b.B {
			d.fail("C13", "a node is on the list its state names", "the node's state (changed or not) and the list it is on disagree%s", tr)
		}
	}
}

// --- driver -----------------------------------------------------------------

// runLRU interprets fn from every state; the problems found, or why it could not.
func (n *lruNames) run(P *Prog, fn *ssa.Function) (bad map[string]string, und string, exits, states int) {
	d := &lru{P: P, n: n, fn: fn, bad: map[string]string{}, dr: n.drainers[fn]}
	K := newKern(P, d)
	K.limit = 60000
	K.constKey = true
	type start struct {
		cached bool
		tag    int64
		dirty  bool
	}
	hasTree, nNode := false, 0
	for _, p := range fn.Params {
		switch ptrElemName(p.Type()) {
		case n.tree:
			hasTree = true
		case n.node:
			nNode++
		}
	}
	if nNode > 1 || len(fn.FreeVars) > 0 {
		return nil, "parameters outside the analysed fragment", 0, 0
	}
	var starts []start
	for _, cached := range []bool{true, false} {
		if !cached && !hasTree {
			continue
		}
		starts = append(starts, start{cached, n.vNo, false})
		if nNode == 1 {
			starts = append(starts, start{cached, n.vNo, true})
			if cached {
				starts = append(starts, start{cached, n.vClean, false}, start{cached, n.vDirty, true})
			}
		}
	}
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case undecided:
				und = e.msg
			case diverged:
				und = e.msg
			default:
				panic(x)
			}
		}
	}()
	K.solve(func() {
		d.bad = map[string]string{}
		for _, b := range starts {
			st := newState()
			cid := K.newObj(st, &Obj{Kind: kStruct, Typ: n.cache})
			g := &Frame{Vals: make([]Val, gCount)}
			for i := range g.Vals {
				g.Vals[i] = VNil{}
			}
			g.Vals[gCache] = VPtr{cid, ""}
			tid := K.newObj(st, &Obj{Kind: kStruct, Typ: n.tree, F: map[string]Val{n.nodeCache: VPtr{cid, ""}}})
			if !b.cached {
				st.Objs[tid].F[n.nodeCache] = VNil{}
			}
			g.Vals[gTree] = VPtr{tid, ""}
			if nNode == 1 {
				o := &Obj{Kind: kStruct, Typ: n.node, F: map[string]Val{n.tag: VInt{linC(b.tag)}, n.dirty: VBool{b.dirty}, n.treeF: VPtr{tid, ""}, n.next: VNil{}, n.prev: VNil{}}}
				if b.tag != n.vNo {
					o.F[n.loaded] = VBool{true}
				} else {
					o.F[n.loaded] = VTop{"loaded"}
				}
				g.Vals[gNode] = VPtr{K.newObj(st, o), ""}
			}
			st.Frames = []*Frame{g}
			var args []Val
			for _, p := range fn.Params {
				switch ptrElemName(p.Type()) {
				case n.tree:
					args = append(args, VPtr{tid, ""})
				case n.node:
					args = append(args, g.Vals[gNode])
				case n.cache:
					args = append(args, VPtr{cid, ""})
				default:
					if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						v := linV(K.newVar())
						if bt.Info()&types.IsUnsigned != 0 {
							st.Cons.addGE(v)
						}
						args = append(args, VInt{v})
					} else {
						args = append(args, VTop{"argument"})
					}
				}
			}
			if fn == n.setLimits && len(args) == 3 {
				g.Vals[gArg1], g.Vals[gArg2] = args[1], args[2]
			}
			for _, x := range K.execFn(fn, args, nil, st) {
				exits++
				d.atExit(K, x.st, fn.Blocks[0].Instrs[0])
				if x.st.Flags["held"] != "" {
					und = "returns holding the cache's lock"
				}
				if fn == n.setLimits && len(args) == 3 && x.st.Cons.feasible() {
					g := x.st.Frames[0]
					for i, k := range []int{gLow1, gHigh1} {
						v, ok := g.Vals[k].(VInt)
						if !ok || !x.st.Cons.entailsEQ(v.L.sub(g.Vals[gArg1+i].(VInt).L)) {
							d.fail("C14", "the limits set are the limits in force", "after %s the %s limit is not the one passed", fnName(fn), []string{"low", "high"}[i])
						}
					}
				}
			}
		}
	})
	return d.bad, und, exits, K.nstates
}

// fresh judges the cache as constructed.
func (n *lruNames) fresh(P *Prog, f *ssa.Function, r *Result, prop string) {
	d := &lru{P: P, n: n, fn: f, bad: map[string]string{}}
	K := newKern(P, d)
	K.limit = 20000
	und := ""
	bad := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case undecided:
					und = e.msg
				case diverged:
					und = e.msg
				default:
					panic(x)
				}
			}
		}()
		K.solve(func() {
			bad = ""
			st := newState()
			st.Frames = []*Frame{{Vals: make([]Val, gCount)}}
			for i := range st.Frames[0].Vals {
				st.Frames[0].Vals[i] = VNil{}
			}
			a, b := linV(K.newVar()), linV(K.newVar())
			st.Cons.addGE(a)
			st.Cons.addGE(b)
			for _, x := range K.execFn(f, []Val{VInt{a}, VInt{b}}, nil, st) {
				var v Val
				if len(x.res) == 1 {
					v = x.res[0]
				}
				p, ok := v.(VPtr)
				if !ok || x.st.Objs[p.O] == nil || x.st.Objs[p.O].Typ != n.cache {
					und = "the constructed cache is unknown"
					continue
				}
				o := x.st.Objs[p.O]
				intIs := func(path string, l Lin) bool {
					v, ok := o.F[path].(VInt)
					return ok && x.st.Cons.entailsEQ(v.L.sub(l))
				}
				if prop == "C14" {
					if !intIs(n.low, a) || !intIs(n.high, b) {
						bad = "the limits in force are not those passed"
					}
					if v, ok := o.F[n.active].(VBool); !ok || v.B {
						bad = "an eviction is recorded as running in a new cache"
					}
					continue
				}
				for li := 1; li <= 2; li++ {
					if !intIs(n.items[li], linC(0)) || o.F[n.head[li]] != Val(VNil{}) || o.F[n.tail[li]] != Val(VNil{}) {
						bad = "a list of a new cache is not empty"
					}
				}
			}
		})
	}()
	switch {
	case und != "":
		r.Notes = append(r.Notes, "undecided: "+fnName(f)+": "+und)
	case bad != "":
		r.fail("a new cache", fnName(f), P.pos(f.Pos()), bad)
	default:
		r.ok("a new cache", fnName(f), P.pos(f.Pos()))
	}
}

func checkLRU(P *Prog, r *Result, prop string) {
	n, miss := lruRoles(P)
	if n == nil {
		r.Notes = append(r.Notes, "undecided: "+miss)
		return
	}
	m := P.modref()
	var fns []*ssa.Function
	for f := range n.locking {
		fns = append(fns, f)
	}
	for f := range n.drainers {
		if !n.locking[f] && len(m.reach[f]) > 0 && f.Package() == P.SSA {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	callers := func(f *ssa.Function) []*ssa.Function {
		var o []*ssa.Function
		for _, g := range P.Funcs {
			hit := false
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						fs, _ := P.callees(c.Common())
						for _, h := range fs {
							hit = hit || h == f
						}
					}
				}
			}
			if hit && g != f {
				o = append(o, g)
			}
		}
		return o
	}
	done := 0
	states := 0
	for _, f := range fns {
		bad, und, exits, ns := n.run(P, f)
		states += ns
		where := P.pos(f.Pos())
		name := fnName(f)
		if debugSel != "" {
			fmt.Printf("%s: exits %d states %d und=%q bad=%v\n", name, exits, ns, und, bad)
		}
		if und != "" || len(bad) > 0 {
			// a helper may rely on what its callers established: then judge it in all of them
			cs := callers(f)
			good := len(cs) > 0 && !n.drainers[f]
			for _, c := range cs {
				b2, u2, _, n2 := n.run(P, c)
				states += n2
				if u2 != "" || len(b2) > 0 {
					good = false
				}
			}
			if good {
				r.ok("sections of "+name, "judged inside its callers", where)
				done++
				continue
			}
		}
		if und != "" {
			writes := false
			for k := range m.direct[f] {
				for _, p := range []string{n.tag, n.next, n.prev, n.head[1], n.tail[1], n.items[1], n.head[2], n.tail[2], n.items[2], n.low, n.high, n.active} {
					writes = writes || ((k.Owner != n.tree) && k.Field == lastPart(p))
				}
			}
			if !writes {
				r.ok("sections that only read", name, where)
				done++
				continue
			}
			r.Notes = append(r.Notes, "undecided: "+name+": "+und)
		}
		done++
		hit := false
		for k, v := range bad {
			p := strings.SplitN(k, "|", 2)
			if p[0] == prop {
				hit = true
				r.fail(p[1], name, where, v)
			}
		}
		if !hit && und == "" {
			r.ok("sections", name, where)
		}
	}
	if f := P.fn("NewBPlusTreeCache"); f != nil && len(f.Params) == 2 {
		n.fresh(P, f, r, prop)
	} else {
		r.Notes = append(r.Notes, "undecided: constructor of the cache not found")
	}
	r.floor("functions with cache sections", done, 6)
	if prop == "C14" {
		nd := 0
		for f := range n.drainers {
			if f.Package() == P.SSA {
				nd++
			}
		}
		r.floor("background eviction functions", nd, 1)
	}
	r.Counts["abstract states at joins"] = states
	r.Explanation = "Every function with a critical section of the cache's lock is interpreted over abstract list shapes (each recency list empty, a single node, or two ends with any number of nodes between; the operation's node anywhere in them). "
	if prop == "C13" {
		r.Explanation += "At each release of the lock both lists are walked: links in both directions, head, tail, totals, tags, order of use, and that no other node was lost or moved; at the end the node's state matches its list."
	} else {
		r.Explanation += "At each release of the lock: an eviction is started exactly on the transition to active, only above the high limit, always when clean nodes appeared or the limits changed above it; the eviction takes the head of the clean list, checks it again under its own tree's lock, and stops, recording it, only at the low limit or without clean nodes."
	}
	if prop == "C13" {
		e, c := r.Explanation, r.Counts["abstract states at joins"]
		checkBT(P, r, prop)
		r.Explanation = e + " Outside the critical sections every operation, whole-tree visit, load, store and restructuring is interpreted with the list of each node as a typestate: whenever one returns, each node it made, loaded, changed or released is on the list its state calls for, and only listed nodes are used, released or given up."
		r.Counts["abstract states at joins"] = c
	}
	r.Assumptions = append(r.Assumptions, "sections of different goroutines do not overlap (C16)", "counters do not overflow")
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract states of the shape / sequence / numeric abstract interpreter.
// ---------------------------------------------------------------------------

// An EID names an element of the key order: an atom (one key with the value it had when the
// operation began) or a segment (any number of consecutive keys, its length a linear variable).
type EID int
type ObjID int

type Val interface{}

type VNil struct{}
type VPtr struct {
	O ObjID
	P string // field path inside the object ("" = the object)
}
type VInt struct{ L Lin }
type VBool struct{ B bool }
type VKey struct{ E EID }    // the key of atom E
type VVal struct{ E EID }    // the original value of atom E
type VSym struct{ S string } // another opaque value
type VSign struct{ S int }   // the result of a comparison: only its sign is known
type VErr struct{ S string } // a non-nil error
type VTup struct{ V []Val }
type VStruct struct{ F map[string]Val }
type VFunc struct {
	Fn    *ssa.Function
	Binds []Val
	S     string // client function
}
type VTop struct{ Why string }
type VHidden struct{}
type VDangling struct{}

type WE struct {
	E EID
	V Val // nil: the original value of the atom (or of every atom of the segment)
}

type ElemInfo struct {
	Seg bool
	N   Lin
}

const (
	kStruct = iota
	kSub
	kCtx
	kSlice
	kCell
)

type Obj struct {
	Kind int
	Typ  string
	F    map[string]Val
	// summaries
	Word, Wr []WE
	Mask     uint8
	BH       Lin
	Excl     []EID
	Hole     Val
	HMask    uint8
	HBH, HN  Lin
	// slices: F["0"].. for concrete content
	Lens []Lin
}

func (o *Obj) clone() *Obj {
	n := *o
	n.F = make(map[string]Val, len(o.F))
	for k, v := range o.F {
		n.F[k] = v
	}
	return &n
}

type Frame struct {
	Fn   *ssa.Function // nil for the ghost frame
	Env  map[ssa.Value]Val
	Defs []deferRec
	Vals []Val // ghost frame values
}

type deferRec struct {
	com  *ssa.CallCommon
	args []Val
	fn   Val
}

type State struct {
	Objs   map[ObjID]*Obj
	Elems  map[EID]ElemInfo
	Ord    []EID
	Ghosts [][]WE
	Cons   *Cons
	Frames []*Frame
	Flags  map[string]string
	Trace  []string
	remap  map[ObjID]Val // scratch: set while a summary is instantiated
}

func newState() *State {
	return &State{Objs: map[ObjID]*Obj{}, Elems: map[EID]ElemInfo{}, Cons: &Cons{}, Flags: map[string]string{}}
}

func (s *State) clone() *State {
	n := &State{Objs: make(map[ObjID]*Obj, len(s.Objs)), Elems: make(map[EID]ElemInfo, len(s.Elems)), Ord: append([]EID{}, s.Ord...), Cons: s.Cons.clone(), Flags: make(map[string]string, len(s.Flags))}
	for k, v := range s.Objs {
		n.Objs[k] = v
	}
	for k, v := range s.Elems {
		n.Elems[k] = v
	}
	for k, v := range s.Flags {
		n.Flags[k] = v
	}
	n.Ghosts = append([][]WE{}, s.Ghosts...)
	n.Trace = append([]string{}, s.Trace...)
	for i, f := range s.Frames {
		if i == len(s.Frames)-1 {
			g := &Frame{Fn: f.Fn, Env: make(map[ssa.Value]Val, len(f.Env)), Defs: append([]deferRec{}, f.Defs...), Vals: append([]Val{}, f.Vals...)}
			for k, v := range f.Env {
				g.Env[k] = v
			}
			n.Frames = append(n.Frames, g)
		} else {
			n.Frames = append(n.Frames, f) // lower frames are copied on write
		}
	}
	return n
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

func (s *State) wr(id ObjID) *Obj {
	o := s.Objs[id].clone()
	s.Objs[id] = o
	return o
}

// unshare lower frames before rewriting them all
func (s *State) ownFrames() {
	for i, f := range s.Frames {
		g := &Frame{Fn: f.Fn, Env: make(map[ssa.Value]Val, len(f.Env)), Vals: append([]Val{}, f.Vals...)}
		for k, v := range f.Env {
			g.Env[k] = v
		}
		for _, d := range f.Defs {
			g.Defs = append(g.Defs, deferRec{d.com, append([]Val{}, d.args...), d.fn})
		}
		s.Frames[i] = g
	}
}

// mapVals rewrites every value in the state.
func (s *State) mapVals(f func(Val) Val) {
	s.ownFrames()
	for _, fr := range s.Frames {
		for k, v := range fr.Env {
			fr.Env[k] = mapVal(v, f)
		}
		for i := range fr.Vals {
			fr.Vals[i] = mapVal(fr.Vals[i], f)
		}
		for i := range fr.Defs {
			for j := range fr.Defs[i].args {
				fr.Defs[i].args[j] = mapVal(fr.Defs[i].args[j], f)
			}
			fr.Defs[i].fn = mapVal(fr.Defs[i].fn, f)
		}
	}
	for id := range s.Objs {
		o := s.wr(id)
		for k, v := range o.F {
			o.F[k] = mapVal(v, f)
		}
		if o.Hole != nil {
			o.Hole = mapVal(o.Hole, f)
		}
		o.Word = mapWord(o.Word, f)
		o.Wr = mapWord(o.Wr, f)
	}
}

func mapWord(w []WE, f func(Val) Val) []WE {
	for i := range w {
		if w[i].V != nil {
			n := append([]WE{}, w...)
			for j := range n {
				if n[j].V != nil {
					n[j].V = mapVal(n[j].V, f)
				}
			}
			return n
		}
	}
	return w
}

func mapVal(v Val, f func(Val) Val) Val {
	switch x := v.(type) {
	case VTup:
		n := VTup{V: make([]Val, len(x.V))}
		for i := range x.V {
			n.V[i] = mapVal(x.V[i], f)
		}
		return n
	case VStruct:
		n := VStruct{F: map[string]Val{}}
		for k, w := range x.F {
			n.F[k] = mapVal(w, f)
		}
		return n
	case VFunc:
		if len(x.Binds) > 0 {
			n := x
			n.Binds = make([]Val, len(x.Binds))
			for i := range x.Binds {
				n.Binds[i] = mapVal(x.Binds[i], f)
			}
			return n
		}
		return f(v)
	case nil:
		return nil
	}
	return f(v)
}

// eachVal visits the values of a (possibly composite) value.
func eachVal(v Val, f func(Val)) {
	switch x := v.(type) {
	case VTup:
		for _, w := range x.V {
			eachVal(w, f)
		}
	case VStruct:
		for _, k := range sortedKeys(x.F) {
			eachVal(x.F[k], f)
		}
	case VFunc:
		for _, w := range x.Binds {
			eachVal(w, f)
		}
		f(v)
	case nil:
	default:
		f(v)
	}
}

func sortedKeys(m map[string]Val) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// substitute element e by word w in every word of the state.
func (s *State) subst(e EID, w []EID) {
	sub := func(in []WE) []WE {
		hit := false
		for _, x := range in {
			if x.E == e {
				hit = true
			}
		}
		if !hit {
			return in
		}
		var out []WE
		for _, x := range in {
			if x.E == e {
				for _, y := range w {
					out = append(out, WE{E: y, V: x.V})
				}
			} else {
				out = append(out, x)
			}
		}
		return out
	}
	for id, o := range s.Objs {
		n1, n2 := sub(o.Word), sub(o.Wr)
		if len(n1) != len(o.Word) || len(n2) != len(o.Wr) || has(o.Word, e) || has(o.Wr, e) {
			p := s.wr(id)
			p.Word, p.Wr = n1, n2
		}
	}
	for i := range s.Ghosts {
		s.Ghosts[i] = sub(s.Ghosts[i])
	}
	var no []EID
	for _, x := range s.Ord {
		if x == e {
			no = append(no, w...)
		} else {
			no = append(no, x)
		}
	}
	s.Ord = no
	delete(s.Elems, e)
}

func has(w []WE, e EID) bool {
	for _, x := range w {
		if x.E == e {
			return true
		}
	}
	return false
}

func (s *State) elen(e EID) Lin {
	i := s.Elems[e]
	if i.Seg {
		return i.N
	}
	return linC(1)
}

// wlen is the number of items of a word, leaving out the atoms in excl.
func (s *State) wlen(w []WE, excl []EID) Lin {
	l := Lin{}
	for _, x := range w {
		if !hasE(excl, x.E) {
			l = l.add(s.elen(x.E))
		}
	}
	return l
}

func hasE(l []EID, e EID) bool {
	for _, x := range l {
		if x == e {
			return true
		}
	}
	return false
}

func (s *State) ordPos(e EID) int {
	for i, x := range s.Ord {
		if x == e {
			return i
		}
	}
	return -1
}

// sortedWord: is w a strictly increasing subsequence of the order?
func (s *State) sortedWord(w []WE) bool {
	last := -1
	for _, x := range w {
		p := s.ordPos(x.E)
		if p <= last {
			return false
		}
		last = p
	}
	return true
}

func (s *State) assumeGE(l Lin) bool {
	s.Cons.addGE(l)
	return s.Cons.feasible()
}
func (s *State) assumeEQ(l Lin) bool {
	s.Cons.addEq(l)
	return s.Cons.feasible()
}

// ---------------------------------------------------------------------------
// Naming: canonical keys and printing.
// ---------------------------------------------------------------------------

type namer struct {
	s     *State
	objs  map[ObjID]int
	order []ObjID
	els   map[EID]int
	elord []EID
	roles []Lin
	sb    strings.Builder
	print bool
	pins  map[EID]bool
	cst   bool // constants are part of the key
}

func (n *namer) obj(o ObjID) int {
	if i, ok := n.objs[o]; ok {
		return i
	}
	i := len(n.order)
	n.objs[o] = i
	n.order = append(n.order, o)
	return i
}
func (n *namer) el(e EID) int {
	if i, ok := n.els[e]; ok {
		return i
	}
	i := len(n.elord)
	n.els[e] = i
	n.elord = append(n.elord, e)
	return i
}
func (n *namer) lin(l Lin) string {
	if n.print {
		return n.s.Cons.reduce(l).String()
	}
	n.roles = append(n.roles, l)
	if n.cst {
		if r := n.s.Cons.reduce(l); r.isConst() {
			return fmt.Sprintf("#%d", r.k)
		}
	}
	return "#"
}
func (n *namer) word(w []WE) string {
	var s []string
	for _, x := range w {
		t := fmt.Sprintf("e%d", n.el(x.E))
		if x.V != nil {
			t += ":=" + n.val(x.V)
		}
		s = append(s, t)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (n *namer) val(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case VNil:
		return "nil"
	case VPtr:
		if x.P == "" {
			return fmt.Sprintf("&%d", n.obj(x.O))
		}
		return fmt.Sprintf("&%d.%s", n.obj(x.O), x.P)
	case VInt:
		return n.lin(x.L)
	case VBool:
		return fmt.Sprint(x.B)
	case VKey:
		return fmt.Sprintf("key(e%d)", n.el(x.E))
	case VVal:
		return fmt.Sprintf("val(e%d)", n.el(x.E))
	case VSym:
		return "sym:" + x.S
	case VSign:
		return fmt.Sprintf("sign%+d", x.S)
	case VErr:
		return "err:" + x.S
	case VTup:
		var s []string
		for _, w := range x.V {
			s = append(s, n.val(w))
		}
		return "(" + strings.Join(s, ",") + ")"
	case VStruct:
		var s []string
		for _, k := range sortedKeys(x.F) {
			s = append(s, k+"="+n.val(x.F[k]))
		}
		return "{" + strings.Join(s, ",") + "}"
	case VFunc:
		t := "func:" + x.S
		if x.Fn != nil {
			t += x.Fn.String()
		}
		for _, w := range x.Binds {
			t += "," + n.val(w)
		}
		return t
	case VTop:
		return "top"
	case VHidden:
		return "hidden"
	case VDangling:
		return "dangling"
	}
	return fmt.Sprintf("?%T", v)
}

func (n *namer) object(o *Obj) string {
	var sb strings.Builder
	switch o.Kind {
	case kSub:
		fmt.Fprintf(&sb, "%s sub mask=%s %s bh=%s", o.Typ, maskStr(o.Mask), n.word(o.Word), n.lin(o.BH))
		for _, e := range o.Excl {
			fmt.Fprintf(&sb, " -e%d", n.el(e))
		}
	case kCtx:
		fmt.Fprintf(&sb, "%s ctx mask=%s %s hole=%s/%s %s bh=%s hbh=%s hn=%s", o.Typ, maskStr(o.Mask), n.word(o.Word), n.val(o.Hole), maskStr(o.HMask), n.word(o.Wr), n.lin(o.BH), n.lin(o.HBH), n.lin(o.HN))
		for _, e := range o.Excl {
			fmt.Fprintf(&sb, " -e%d", n.el(e))
		}
	default:
		fmt.Fprintf(&sb, "%s{", o.Typ)
		for _, k := range sortedKeys(o.F) {
			fmt.Fprintf(&sb, "%s=%s ", k, n.val(o.F[k]))
		}
		sb.WriteString("}")
		for _, l := range o.Lens {
			sb.WriteString(n.lin(l))
		}
	}
	return sb.String()
}

// name traverses the state in canonical order.
func (s *State) name(print bool, K *Kern) *namer {
	n := &namer{s: s, objs: map[ObjID]int{}, els: map[EID]int{}, print: print, cst: K.constKey}
	// elements in key order first
	n.sb.WriteString("ord:")
	for _, e := range s.Ord {
		i := n.el(e)
		if s.Elems[e].Seg {
			fmt.Fprintf(&n.sb, " e%d:%s", i, n.lin(s.Elems[e].N))
		} else {
			fmt.Fprintf(&n.sb, " e%d", i)
		}
	}
	n.sb.WriteString("\n")
	for _, g := range s.Ghosts {
		n.sb.WriteString("ghost " + n.word(g) + "\n")
	}
	for _, k := range sortedFlagKeys(s.Flags) {
		n.sb.WriteString("flag " + k + "=" + s.Flags[k] + "\n")
	}
	for i, f := range s.Frames {
		if f.Fn != nil {
			fmt.Fprintf(&n.sb, "frame %d %s:", i, fnName(f.Fn))
			for _, v := range K.envOrder(f) {
				fmt.Fprintf(&n.sb, " %s=%s", v.Name(), n.val(f.Env[v]))
			}
			for _, d := range f.Defs {
				fmt.Fprintf(&n.sb, " defer %p(", d.com)
				for _, a := range d.args {
					n.sb.WriteString(n.val(a) + ",")
				}
				n.sb.WriteString(")")
			}
		} else {
			fmt.Fprintf(&n.sb, "frame %d:", i)
			for _, v := range f.Vals {
				n.sb.WriteString(" " + n.val(v))
			}
		}
		n.sb.WriteString("\n")
	}
	for i := 0; i < len(n.order); i++ {
		o := s.Objs[n.order[i]]
		if o == nil {
			fmt.Fprintf(&n.sb, "obj %d MISSING\n", i)
			continue
		}
		fmt.Fprintf(&n.sb, "obj %d %s\n", i, n.object(o))
	}
	// remaining elements (not in the order)
	for i := 0; i < len(n.elord); i++ {
		e := n.elord[i]
		if s.ordPos(e) < 0 {
			if s.Elems[e].Seg {
				fmt.Fprintf(&n.sb, "el e%d:%s\n", i, n.lin(s.Elems[e].N))
			} else {
				fmt.Fprintf(&n.sb, "el e%d\n", i)
			}
		}
	}
	return n
}

func sortedFlagKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *State) String(K *Kern) string {
	n := s.name(true, K)
	return n.sb.String() + "cons " + s.Cons.str(func(v Var) string { return fmt.Sprintf("v%d", v) }) + "\n"
}

func maskStr(m uint8) string {
	t := ""
	for i, c := range []string{"N", "R", "B", "b"} {
		if m&(1<<i) != 0 {
			t += c
		}
	}
	return t
}

// zero value of a type
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{linC(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{false}
		case u.Info()&types.IsString != 0:
			return VSym{`""`}
		}
		return VTop{"zero " + t.String()}
	case *types.Struct:
		v := VStruct{F: map[string]Val{}}
		flattenZero(u, "", v.F)
		return v
	case *types.Array:
		return VTop{"array"}
	}
	return VNil{}
}

func flattenZero(u *types.Struct, prefix string, out map[string]Val) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if isMutex(f.Type()) {
			continue
		}
		if st, ok := f.Type().Underlying().(*types.Struct); ok {
			flattenZero(st, prefix+f.Name()+".", out)
			continue
		}
		out[prefix+f.Name()] = zeroVal(f.Type())
	}
}

func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

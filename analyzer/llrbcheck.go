package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = func(P *Prog, r *Result) { checkLLRB(P, r, "C02") }
	checks["C03"] = func(P *Prog, r *Result) { checkLLRB(P, r, "C03") }
	checks["C04"] = func(P *Prog, r *Result) { checkLLRB(P, r, "C04") }
}

// a scenario: what is known of the tree and the arguments before the call.
type llrbCase struct {
	name  string
	given string // key: "present", "absent"; index: "in", "neg", "end"; "": no argument
	// the words, over A (before), k (the item), B (after)
	check func(c *llrbCtx, st *State, res []Val)
}

type llrbCtx struct {
	d     *llrb
	K     *Kern
	r     *Result
	prop  string
	op    string
	cs    string
	fn    *ssa.Function
	tree  ObjID
	key   bool // a key argument
	lenA  Lin
	lenB  Lin
	bad   map[string]string // reported: class -> text
	exits int
}

func (c *llrbCtx) fail(class, rule, f string, a ...interface{}) {
	c.bad[class+"|"+rule] = fmt.Sprintf(f, a...)
}

// expected word: ghosts with value overrides; nil ghost index list = empty
type expItem struct {
	g int
	v Val
}

func checkLLRB(P *Prog, r *Result, prop string) {
	var tree, node string
	for _, t := range P.implementors(P.iface("SortedMap")) {
		if typeHas(t, "root", "Compare") {
			if s := fieldType(t, "root"); s != nil {
				if n := derefNamed(s); n != nil && typeHas(n, "left", "right", "color", "len") {
					tree, node = t.Obj().Name(), n.Obj().Name()
				}
			}
		}
	}
	if tree == "" {
		r.fail("instance-floor", "in-memory tree type", "-", "the type of the in-memory tree was not found")
		return
	}
	ops := []string{"Len", "GetByKey", "GetByIndex", "BisectLeft", "BisectRight", "PatchByKey", "PatchByIndex", "Put", "DeleteByKey", "DeleteByIndex", "Reset", "Validate"}
	named := P.namedByName(tree)
	total := 0
	entries, states := 0, 0
	for _, op := range ops {
		if onlyOp != "" && op != onlyOp {
			continue
		}
		fn := P.method(named, op)
		if fn == nil {
			r.fail("operation", op, "-", "operation not found")
			continue
		}
		n, e, s := runLLRBOp(P, r, prop, tree, node, op, fn)
		total += n
		entries += e
		states += s
	}
	r.floor("operation scenarios decided", total, 24)
	r.Counts["recursive function entry states tabulated"] = entries
	r.Counts["abstract states at joins"] = states
	r.Explanation = "Abstract interpretation of every in-memory tree operation, from an arbitrary well-formed tree (any items, any size, any shape and colouring satisfying the invariants) for every position of the key or index relative to the items. Sub-trees are summarised by item sequence, root kind, black height and length; recursive functions are tabulated to a fixpoint. "
	switch prop {
	case "C02":
		r.Explanation += "Decided here: the resulting item sequence and the results by key, for each scenario."
	case "C03":
		r.Explanation += "Decided here: index results and that every node's length is again the number of items below it."
	case "C04":
		r.Explanation += "Decided here: colour and black-height invariants hold again after each operation."
	}
	r.Assumptions = append(r.Assumptions,
		"the comparison callback is a total order on the keys in the tree and the given key (C01 for the supplied ones); refusing the given key is consistent within a call",
		"integers do not overflow: item counts stay below the range of int",
		"one operation at a time (C16)")
}

// scenario names and what each op must do
func runLLRBOp(P *Prog, r *Result, prop, tree, node, op string, fn *ssa.Function) (n, entries, states int) {
	var cases []string
	sig := fn.Signature
	arg := ""
	if sig.Params().Len() > 0 {
		t := sig.Params().At(0).Type()
		if ownerName(t) == "Key" {
			arg = "key"
			cases = []string{"present", "absent"}
		} else {
			arg = "index"
			cases = []string{"in range", "negative", "past the end"}
		}
	} else {
		cases = []string{"any tree"}
	}
	for _, cs := range cases {
		t0 := time.Now()
		d := &llrb{P: P, node: node, tree: tree}
		K := newKern(P, d)
		c := &llrbCtx{d: d, K: K, r: r, prop: prop, op: op, cs: cs, fn: fn, key: arg == "key"}
		var und string
		div := ""
		K.deadline = time.Now().Add(180 * time.Second)
		try := func(f func()) {
			defer func() {
				if x := recover(); x != nil {
					switch e := x.(type) {
					case undecided:
						und = e.msg
					case diverged:
						div = e.msg
					default:
						panic(x)
					}
				}
			}()
			f()
		}
		try(func() {
			K.solve(func() {
				c.bad = map[string]string{}
				c.exits = 0
				c.run(arg)
			})
		})
		if und != "" && K.late {
			// what the fixpoint has found so far is reachable: judge that
			K.deadline = time.Now().Add(30 * time.Second)
			c.bad, c.exits = map[string]string{}, 0
			was := und
			try(func() { c.run(arg) })
			if und = was; len(c.bad) > 0 {
				und = ""
			}
		}
		entries += K.nsums
		states += K.nstates
		if debugSel != "" {
			fmt.Printf("%s/%s: exits %d sums %d states %d steps %d %v und=%q div=%q\n", op, cs, c.exits, K.nsums, K.nstates, K.steps, time.Since(t0), und, div)
		}
		where := P.pos(fn.Pos())
		name := op + ", " + cs
		rule := map[string]string{"C02": "contents", "C03": "positions", "C04": "balance"}[prop]
		if und != "" {
			r.Notes = append(r.Notes, "undecided: "+name+": "+und)
			if debugSel != "" {
				fmt.Println("UNDECIDED", name, und)
			}
			n++
			continue
		}
		n++
		var ks []string
		for k := range K.defects {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.fail(rule, name+": "+k, where, "reachable from a well-formed tree; at "+K.defects[k])
		}
		if div != "" {
			r.fail(rule, name, where, "the tree invariants are not re-established: "+div)
			continue
		}
		if c.exits == 0 && len(K.defects) == 0 {
			r.fail(rule, name, where, "the operation never returns")
		}
		hit := false
		for k, v := range c.bad {
			cl := strings.SplitN(k, "|", 2)[0]
			if cl == prop || cl == "all" {
				hit = true
				r.fail(rule, name+": "+strings.SplitN(k, "|", 2)[1], where, v)
			}
		}
		if !hit {
			r.ok(rule, name, where)
		}
	}
	return
}

func (c *llrbCtx) run(arg string) {
	K, d := c.K, c.d
	st := newState()
	word := []WE{}
	var A, k, B EID
	seg := func() EID { e := K.newSeg(st); return e }
	sub := &Obj{Kind: kSub, Typ: d.node, Mask: mN | mB2 | mB3, BH: linV(K.newVar())}
	st.Cons.addGE(sub.BH)
	var args []Val
	root := K.newObj(st, sub)
	t := &Obj{Kind: kStruct, Typ: d.tree, F: map[string]Val{"Compare": VFunc{S: "compare"}, "LLRBTreeCallbacks": VSym{"callbacks"}, "root": VPtr{root, ""}}}
	tid := K.newObj(st, t)
	args = append(args, VPtr{tid, ""})
	if arg == "key" {
		st.Flags["cmp"] = ""
	} else {
		st.Flags["cmp"] = "ok" // only keys of the tree are compared
	}
	switch arg {
	case "key":
		A, k, B = seg(), K.newAtom(st), seg()
		st.Ord = []EID{A, k, B}
		st.Ghosts = [][]WE{{{E: A}}, {{E: k}}, {{E: B}}}
		if c.cs == "present" {
			word = []WE{{E: A}, {E: k}, {E: B}}
		} else {
			word = []WE{{E: A}, {E: B}}
		}
		c.lenA, c.lenB = st.Elems[A].N, st.Elems[B].N
		args = append(args, VKey{k})
	case "index":
		var ix Lin
		if c.cs == "in range" {
			A, k, B = seg(), K.newAtom(st), seg()
			st.Ord = []EID{A, k, B}
			st.Ghosts = [][]WE{{{E: A}}, {{E: k}}, {{E: B}}}
			word = []WE{{E: A}, {E: k}, {E: B}}
			c.lenA, c.lenB = st.Elems[A].N, st.Elems[B].N
			ix = c.lenA
		} else {
			A = seg()
			st.Ord = []EID{A}
			st.Ghosts = [][]WE{{{E: A}}}
			word = []WE{{E: A}}
			c.lenA = st.Elems[A].N
			ix = linV(K.newVar())
			if c.cs == "negative" {
				st.Cons.addGE(ix.neg().addC(-1))
			} else {
				st.Cons.addGE(ix.sub(c.lenA))
			}
		}
		args = append(args, VInt{ix})
	default:
		A = seg()
		st.Ord = []EID{A}
		st.Ghosts = [][]WE{{{E: A}}}
		word = []WE{{E: A}}
		c.lenA = st.Elems[A].N
	}
	for i := 1; i < c.fn.Signature.Params().Len(); i++ {
		args = append(args, VSym{"new value"})
	}
	st.Objs[root].Word = word
	la, lb := c.lenA, c.lenB
	gf := &Frame{Vals: []Val{VPtr{tid, ""}, VInt{la}, VInt{lb}}}
	if k != 0 {
		gf.Vals = append(gf.Vals, VKey{k})
	}
	st.Frames = []*Frame{gf}
	for _, x := range K.execFn(c.fn, args, nil, st) {
		s := x.st
		if !s.Cons.feasible() {
			continue
		}
		c.exits++
		c.final(s, x.res)
	}
}

func (c *llrbCtx) final(st *State, res []Val) {
	K, d := c.K, c.d
	g := st.Frames[0]
	tp, _ := g.Vals[0].(VPtr)
	c.lenA, c.lenB = g.Vals[1].(VInt).L, g.Vals[2].(VInt).L
	var k EID
	if len(g.Vals) > 3 {
		k = g.Vals[3].(VKey).E
	}
	st.Flags["done"] = "1"
	d.Fold(K, st, nil, map[ObjID]bool{tp.O: true})
	if !st.Cons.feasible() {
		c.exits--
		return
	}
	refused := st.Flags["cmp"] == "refused"
	root := st.Objs[tp.O].F["root"]
	tr := " (path " + strings.Join(st.Trace, " ") + ")"
	if debugSel == "exit" {
		fmt.Printf("EXIT %s/%s refused=%v res=%v\n%s\n", c.op, c.cs, refused, res, st.String(K))
	}
	// expected contents
	var exp []expItem
	switch {
	case c.op == "Reset":
		exp = nil
	case len(st.Ghosts) == 1:
		exp = []expItem{{0, nil}}
	default:
		present := c.cs != "absent"
		a, i, b := expItem{0, nil}, expItem{1, nil}, expItem{2, nil}
		put := c.op == "Put" && !present && !refused
		del := (c.op == "DeleteByKey" || c.op == "DeleteByIndex") && present && !refused
		patch := (c.op == "PatchByKey" || c.op == "PatchByIndex") && present && !refused
		if put || patch {
			i.v = VSym{"new value"}
		}
		switch {
		case del || (!present && !put):
			exp = []expItem{a, b}
		default:
			exp = []expItem{a, i, b}
		}
	}
	var want []WE
	for _, e := range exp {
		for _, w := range st.Ghosts[e.g] {
			want = append(want, WE{E: w.E, V: e.v})
		}
	}
	switch p := root.(type) {
	case VNil:
		if !c.emptyWord(st, want) {
			c.fail("C02", "contents", "the tree ends up empty although items should remain%s", tr)
		}
	case VPtr:
		o := st.Objs[p.O]
		if o.Kind != kSub {
			why := d.unfolded(K, st, root)
			cl := "all"
			switch {
			case strings.HasPrefix(why, "order"):
				cl = "C02"
			case strings.HasPrefix(why, "len"):
				cl = "C03"
			case strings.HasPrefix(why, "colour"), strings.HasPrefix(why, "bh"):
				cl = "C04"
			}
			c.fail(cl, why, "after the operation: %s%s", why, tr)
			break
		}
		if len(o.Excl) > 0 {
			c.fail("C03", "len: not restored", "some node's length does not count an item below it%s", tr)
		}
		if o.Mask&mR != 0 {
			c.fail("C04", "colour: the root may be red", "the root may be left red%s", tr)
		}
		if !sameWord(st, o.Word, want) {
			c.fail("C02", "contents", "the items afterwards are %s, expected %s%s", wordStr(o.Word), wordStr(want), tr)
		}
	default:
		c.fail("all", "root", "the root is unknown%s", tr)
	}
	// expected results
	sig := c.fn.Signature
	get := func(name string) Val {
		for i := 0; i < sig.Results().Len(); i++ {
			if sig.Results().At(i).Name() == name {
				return res[i]
			}
		}
		return nil
	}
	resAt := func(i int) Val { return res[i] }
	_ = get
	nres := sig.Results().Len()
	if nres == 0 {
		return
	}
	err := resAt(nres - 1)
	_, isNil := err.(VNil)
	if refused {
		if isNil {
			c.fail("C02", "refused key", "a refused comparison is reported as success%s", tr)
		}
		return
	}
	if !isNil {
		c.fail("C02", "error", "an error is returned without a cause%s", tr)
		return
	}
	wantBool := func(i int, b bool, what string) {
		if v, ok := res[i].(VBool); !ok || v.B != b {
			c.fail("C02", what, "%s is %s, expected %v%s", what, valStr(res[i]), b, tr)
		}
	}
	wantInt := func(i int, l Lin, what string) {
		if v, ok := res[i].(VInt); !ok || !st.Cons.entailsEQ(v.L.sub(l)) {
			got := valStr(res[i])
			if ok {
				got = st.Cons.reduce(v.L).String() + " against " + st.Cons.reduce(l).String()
			}
			c.fail("C03", what, "%s is not the position required: %s%s", what, got, tr)
		}
	}
	found := c.cs == "present" || c.cs == "in range"
	switch c.op {
	case "Len":
		n := Lin{}
		for _, w := range want {
			n = n.add(st.elen(w.E))
		}
		wantInt(0, n, "the item count")
	case "BisectLeft":
		wantBool(1, found, "found")
		if found {
			wantInt(0, c.lenA, "the index")
		} else {
			wantInt(0, c.lenA.addC(-1), "the index")
		}
	case "BisectRight":
		wantBool(1, found, "found")
		wantInt(0, c.lenA, "the index")
	case "GetByKey":
		wantBool(1, found, "ok")
		if found {
			if v, ok := res[0].(VVal); !ok || v.E != k {
				c.fail("C02", "value", "the value returned (%s) is not the one stored with the key (e%d)%s", valStr(res[0]), k, tr)
			}
		}
	case "GetByIndex":
		wantBool(2, found, "ok")
		if found {
			if v, ok := res[0].(VKey); !ok || v.E != k {
				c.fail("C03", "key at index", "the key returned is not the one at the index%s", tr)
			}
			if v, ok := res[1].(VVal); !ok || v.E != k {
				c.fail("C02", "value", "the value returned is not the one at the index%s", tr)
			}
		}
	case "Put":
		wantBool(0, !found, "ok")
	case "PatchByKey", "PatchByIndex", "DeleteByKey", "DeleteByIndex":
		wantBool(0, found, "ok")
	}
}

func (c *llrbCtx) emptyWord(st *State, w []WE) bool {
	for _, x := range w {
		if !st.Elems[x.E].Seg || !st.Cons.entailsEQ(st.Elems[x.E].N) {
			return false
		}
	}
	return true
}

// sameWord: equal after dropping segments known to be empty.
func sameWord(st *State, a, b []WE) bool {
	norm := func(w []WE) []WE {
		var o []WE
		for _, x := range w {
			if st.Elems[x.E].Seg && st.Cons.entailsEQ(st.Elems[x.E].N) {
				continue
			}
			if v, ok := x.V.(VVal); ok && v.E == x.E {
				x.V = nil
			}
			o = append(o, x)
		}
		return o
	}
	x, y := norm(a), norm(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].E != y[i].E || !sameVal(x[i].V, y[i].V) {
			return false
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case VSym:
		y, ok := b.(VSym)
		return ok && x.S == y.S
	case VVal:
		y, ok := b.(VVal)
		return ok && x.E == y.E
	}
	return false
}

func wordStr(w []WE) string {
	var s []string
	for _, x := range w {
		t := fmt.Sprintf("e%d", x.E)
		if x.V != nil {
			t += "=" + valStr(x.V)
		}
		s = append(s, t)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func valStr(v Val) string {
	switch x := v.(type) {
	case VBool:
		return fmt.Sprint(x.B)
	case VInt:
		return x.L.String()
	case VSym:
		return x.S
	case VNil:
		return "nil"
	case nil:
		return "-"
	}
	return fmt.Sprintf("%T%v", v, v)
}

var onlyOp string

package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A task is one run of the B+Tree analysis; it serves one or more properties.
type btTask struct {
	name  string
	what  string
	props []string
	fn    *ssa.Function
	kind  string // of a traversal
	both  bool   // residency of the nodes is a parameter of the run
	run   func(resident bool) btRun
}

// btHelpers: further functions known by name.
var btHelpers = []string{"insertHere", "updatePrefixSumTreeLeafToRoot", "loadSiblingsForRebalance", "rebalanceHere", "postNode", "markNodeClean"}

func contractNames(m map[string]contract) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var btExplain = map[string]string{
	"C05": "Every operation that finds or changes a pair by key is interpreted abstractly to a fixpoint from any well-formed tree: the place of the key in the order of all keys is followed from node to node; a key may be looked for only in a node whose range covers it, the result must agree with presence in the leaf, exactly the one pair named is changed. Splits, borrowing and merging are judged by comparing the key order of the affected neighbourhood before and after.",
	"C06": "Every operation by index, bisect and length is interpreted abstractly to a fixpoint with linear arithmetic over item totals: navigation by running sums must reach the leaf and the place in it that the totals give, results must equal the position in the order of all keys.",
	"C08": "Every operation is interpreted twice: with all nodes resident, and with residency of every node unknown. Whatever holds in the first and not in the second depends on what is resident.",
	"C09": "Every mutation must leave the changed node and all nodes above it marked as changed; a flush must write every changed node after all below it and record the location returned.",
	"C07": "Splits, borrowing and merging are interpreted from nodes of every possible fill with linear arithmetic over key counts: every node they leave holds at most the capacity and, but for the root, at least half of it; leaves and inner nodes are never mixed in one node; the constructor accepts exactly even capacities from four up.",
	"C10": "The writer of a node's image is interpreted with byte strings as sequences of typed pieces (loops over the entries summarised), the reader with byte strings as positions in an image of the same layout: the writer must emit head, capacity, count and every entry once in order, each with its own value or child location; the reader must decode exactly these, pass over exactly what it decoded, keep each entry once with fields as decoded, and end with nothing left.",
	"C11": "Abstract interpretation of every operation and visiting function with an effect monitor on the storage callbacks and the list of remembered locations: only prune and discard hand a location to the discard callback, the location comes from the list of superseded ones (or, for discard, from a node of the tree being given up), and a location is remembered only when the node stops referring to it.",
	"C12": "Abstract interpretation of every change to a node and of prune and discard with a typestate on locations (in use, remembered, discarded): a changed or dropped node's exact location is remembered once and forgotten by the node; prune discards each remembered location and forgets exactly those it discarded, on failure paths too; discard visits every node.",
	"C15": "Abstract interpretation of flush, purge, the eviction helpers and every load: a node is released only when it is clean and nothing below it is resident, a full purge refuses a changed node, a resident node is never loaded over.",
	"C21": "Each recursive visiting function is analysed once against its own contract (every child of every node visited exactly once, in the mode asked for, error propagated) with children summarised by segments, each whole-tree operation must start the visit at the root.",
	"C22": "Validation is interpreted twice: from a consistent node (no error may result unless a check below fails) and from a node about which nothing is assumed (on a path without error the totals, running sums, links, sizes and the visit of every child must follow from what was compared); the same for the checks of running sums and of the in-memory tree.",
	"C19": "On every path of every updating operation, no load or other step that can fail comes after the first change of contents.",
	"C20": "Abstract interpretation of each query with an effect monitor: no path marks a node as changed, changes contents, posts or discards a stored node.",
	"C23": "The dimension report is compared with the tree's actual limits, totals and depth on every path; each visit of a node counts as exactly one hit or one miss as its residency says.",
	"C24": "The incremental touch is interpreted from any tree and any index: the leaf holding the item and everything above it is marked, the index returned is that of the first item of the next leaf, an index past the end returns zero and marks nothing.",
}

// widen: the further properties broken by a violation of a rule.
func widen(task, prop, rule string) []string {
	type k struct{ prop, rule string }
	switch task {
	case "codec", "OldBPlusTree":
		if prop == "C10" {
			out := []string{"C08", "C09"}
			if rule == "a loaded root restores the capacity" {
				out = append(out, "C07")
			}
			return out
		}
	case "BisectLeft", "BisectRight", "Len", "GetByIndex":
		if prop == "C05" {
			return []string{"C06"}
		}
	case "DeleteByIndex", "PatchByIndex":
		if prop == "C06" && rule == "an index is found in the leaf and at the place the item totals give" {
			return []string{"C05"}
		}
	case "TouchItem":
		if prop == "C06" {
			return []string{"C24"}
		}
	}
	return map[k][]string{
		{"C06", "a child refers to its parent"}:                      {"C05"},
		{"C05", "separators separate"}:                               {"C06"},
		{"C09", "a changed node is marked changed"}:                  {"C08", "C15"},
		{"C09", "everything above a changed node is marked changed"}: {"C08", "C15"},
		{"C15", "a node with unwritten changes is not released"}:     {"C08", "C09"},
		{"C15", "a node is released after all below it"}:             {"C08", "C13"},
		{"C09", "every changed node is written"}:                     {"C21"},
		{"C09", "the location of the image is recorded exactly"}:     {"C12"},
		{"C11", "only remembered locations are discarded"}:           {"C12"},
		{"C06", "totals follow a deletion"}:                          {"C22"},
	}[k{prop, rule}]
}

// widened: what a run found, under all the properties broken.
func widened(t btTask, bad map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range bad {
		out[k] = v
	}
	for k, v := range bad {
		i := strings.Index(k, "|")
		p, rule := k[:i], k[i+1:]
		more := widen(t.name, p, rule)
		if p == "C21" {
			switch t.kind {
			case "flush":
				more = append(more, "C09")
			case "discard":
				more = append(more, "C12")
			case "layout":
				more = append(more, "C23")
			case "validate":
				more = append(more, "C22")
			}
		}
		for _, m := range more {
			if out[m+"|"+rule] == "" {
				out[m+"|"+rule] = v
			}
		}
	}
	return out
}

func (n *btNames) tasks(P *Prog) []btTask {
	var ts []btTask
	for _, op := range btOps {
		fn := P.method(n.treeT, op)
		if fn == nil {
			continue
		}
		op := op
		props := []string{"C08", "C11", "C13", "C15"}
		add := func(p ...string) { props = append(props, p...) }
		switch op {
		case "GetByKey":
			add("C05", "C20", "C23")
		case "Put":
			add("C05", "C09", "C12", "C19", "C23")
		case "PatchByKey":
			add("C05", "C09", "C19", "C23")
		case "DeleteByKey":
			add("C05", "C06", "C07", "C09", "C19", "C22", "C23")
		case "PatchByIndex":
			add("C06", "C05", "C09", "C19", "C23")
		case "DeleteByIndex":
			add("C06", "C05", "C07", "C09", "C19", "C22", "C23")
		case "GetByIndex", "BisectLeft", "BisectRight", "Len":
			add("C06", "C20", "C23")
		case "TouchItem":
			add("C24", "C06", "C09", "C23")
		case "FetchDimensionsReport":
			add("C20", "C23")
		}
		ts = append(ts, btTask{name: op, what: "operation " + op, props: props, fn: fn, both: true, run: func(res bool) btRun { return n.runOp(P, op, fn, res) }})
	}
	all := n.travRoles(P)
	for _, t := range all {
		t := t
		if t.kind == "" {
			continue
		}
		ts = append(ts, btTask{name: t.fn.Name(), what: "visiting function " + fnName(t.fn), kind: t.kind, props: travProps(t.kind), fn: t.fn, run: func(res bool) btRun { return n.runTrav(P, t, all) }})
	}
	for _, k := range travOps {
		op := P.method(n.treeT, k[0])
		if op == nil {
			continue
		}
		k := k
		ts = append(ts, btTask{name: k[0], what: "operation " + k[0], kind: k[1], props: travProps(k[1]), fn: op, run: func(res bool) btRun { return n.runTravOp(P, k[0], k[1], op, all) }})
	}
	for _, sp := range baseSpecs {
		fn := P.method(n.treeT, sp.fn)
		if fn == nil {
			continue
		}
		sp := sp
		props := []string{"C08", "C09", "C12", "C15", "C11"}
		if sp.hit+sp.miss > 0 {
			props = []string{"C23"}
		}
		ts = append(ts, btTask{name: sp.fn, what: "helper " + sp.fn, props: props, fn: fn, run: func(res bool) btRun { return n.runBase(P, sp, fn) }})
	}
	for _, w := range []string{"Stats", "UpdateLimits", "FetchLocation"} {
		t := n.cacheT
		if w == "FetchLocation" {
			t = n.treeT
		}
		fn := P.method(t, w)
		if fn == nil {
			continue
		}
		w := w
		props := []string{"C23", "C20"}
		if w == "UpdateLimits" {
			props = []string{"C23"}
		}
		ts = append(ts, btTask{name: w, what: "operation " + w, props: props, fn: fn, run: func(res bool) btRun { return n.runReport(P, w, fn) }})
	}
	if w, r := P.method(n.treeT, "postNode"), P.method(n.treeT, "loadNode"); w != nil && r != nil {
		ts = append(ts, btTask{name: "codec", what: "stored image: " + fnName(w) + ", " + fnName(r), props: []string{"C10", "C09", "C12", "C13", "C15", "C20", "C19", "C08", "C06", "C07"}, fn: w, run: func(res bool) btRun { return n.runCodec(P, w, r) }})
	}
	if fn := P.fn("OldBPlusTree"); fn != nil {
		ts = append(ts, btTask{name: "OldBPlusTree", what: "constructor OldBPlusTree", props: []string{"C10", "C08", "C09", "C12", "C13"}, fn: fn, run: func(res bool) btRun { return n.runOld(P, fn) }})
	}
	restr := []string{"C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C15", "C17", "C19", "C22", "C23"}
	if fn := P.method(n.treeT, "insertHere"); fn != nil {
		ts = append(ts, btTask{name: "insertHere", what: "restructuring " + fnName(fn), props: restr, fn: fn, run: func(res bool) btRun { return n.runInsert(P, fn) }})
	}
	if fn := P.method(n.treeT, "rebalanceHere"); fn != nil {
		ts = append(ts, btTask{name: "rebalanceHere", what: "restructuring " + fnName(fn), props: restr, fn: fn, run: func(res bool) btRun { return n.runRebalance(P, fn) }})
	}
	for _, name := range sumFns {
		fn := P.method(n.treeT, name)
		if fn == nil {
			continue
		}
		ts = append(ts, btTask{name: name, what: "running sums: " + fnName(fn), props: []string{"C06", "C09", "C22"}, fn: fn, run: func(res bool) btRun { return n.runSums(P, fn) }})
	}
	vfs := n.validFns(P, all)
	for _, v := range vfs {
		v := v
		ts = append(ts, btTask{name: "accept." + v.fn.Name(), what: "validation: " + fnName(v.fn), props: []string{"C22"}, fn: v.fn, run: func(bool) btRun { return n.runValid(P, v, vfs) }})
	}
	ts = append(ts, n.llrbValid(P)...)
	if fn := P.fn("NewBPlusTree"); fn != nil {
		ts = append(ts, btTask{name: "NewBPlusTree", what: "constructor NewBPlusTree", props: []string{"C05", "C06", "C07", "C09", "C12", "C13"}, fn: fn, run: func(res bool) btRun { return n.runNew(P, fn) }})
	}
	return ts
}

// reaches: for each function, how it leads to an instruction of interest.
func reaches(P *Prog, hit func(i ssa.Instruction) string) map[*ssa.Function]string {
	via := map[*ssa.Function]string{}
	for change := true; change; {
		change = false
		for _, fn := range P.Funcs {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if via[fn] != "" {
						break
					}
					if h := hit(i); h != "" {
						via[fn] = h + " at " + P.instrPos(i)
					} else if c, ok := i.(ssa.CallInstruction); ok {
						if _, isGo := i.(*ssa.Go); isGo {
							continue
						}
						fs, _ := P.callees(c.Common())
						for _, g := range fs {
							if via[g] != "" {
								via[fn] = "calls " + fnName(g) + " at " + P.instrPos(i) + ", which " + via[g]
								break
							}
						}
					}
					change = change || via[fn] != ""
				}
			}
			for _, g := range fn.AnonFuncs {
				if via[g] != "" && via[fn] == "" {
					via[fn], change = "contains a function which "+via[g], true
				}
			}
		}
	}
	return via
}

func callsBack(P *Prog, names ...string) func(i ssa.Instruction) string {
	return func(i ssa.Instruction) string {
		if c, ok := i.(ssa.CallInstruction); ok {
			_, ext := P.callees(c.Common())
			for _, n := range names {
				if ext == "callback:"+n {
					return "calls " + n
				}
			}
		}
		return ""
	}
}

// queryReach: no query leads to the callbacks that write or release stored nodes, or marks a
// node as changed.
func (n *btNames) queryReach(P *Prog, r *Result) {
	cb := callsBack(P, "PutNode", "DiscardNode")
	via := reaches(P, func(i ssa.Instruction) string {
		if s, ok := i.(*ssa.Store); ok {
			if f, ok := s.Addr.(*ssa.FieldAddr); ok {
				if pt, ok := f.X.Type().Underlying().(*types.Pointer); ok && typeName(pt.Elem()) == n.node {
					if st, ok := pt.Elem().Underlying().(*types.Struct); ok && st.Field(f.Field).Name() == n.dirty {
						if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) {
							return "marks a node as changed"
						}
					}
				}
			}
		}
		return cb(i)
	})
	for _, w := range []string{"BisectLeft", "BisectRight", "GetByIndex", "GetByKey", "Len", "Validate", "Dump", "FetchLocation", "FetchLayoutReport", "FetchDimensionsReport"} {
		n.judgeReach(P, r, P.method(n.treeT, w), via, "queries write, release and mark nothing")
	}
	for _, fn := range P.Funcs {
		if fn.Name() == "Stats" && fn.Object() != nil {
			n.judgeReach(P, r, fn, via, "queries write, release and mark nothing")
		}
	}
}

func (n *btNames) judgeReach(P *Prog, r *Result, fn *ssa.Function, via map[*ssa.Function]string, rule string) {
	if fn == nil {
		return
	}
	if via[fn] != "" {
		r.fail(rule, fnName(fn), P.pos(fn.Pos()), fmt.Sprintf("%s %s", fnName(fn), via[fn]))
	} else {
		r.ok(rule, fnName(fn), P.pos(fn.Pos()))
	}
}

// discardReach: only prune and discard lead to the callback that releases stored nodes.
func (n *btNames) discardReach(P *Prog, r *Result) {
	via := reaches(P, callsBack(P, "DiscardNode"))
	done := map[*ssa.Function]bool{}
	entry := func(fn *ssa.Function) {
		if !done[fn] {
			done[fn] = true
			n.judgeReach(P, r, fn, via, "only prune and discard release stored nodes")
		}
	}
	for _, fn := range P.Funcs {
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
			if recvNamed(fn) != n.treeT || fn.Name() != "Prune" && fn.Name() != "Discard" {
				entry(fn)
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Go); ok {
					fs, _ := P.callees(c.Common())
					for _, g := range fs {
						entry(g)
					}
				}
			}
		}
	}
}

func checkBT(P *Prog, r *Result, prop string) {
	n, miss := btRoles(P)
	if n == nil {
		r.Notes = append(r.Notes, "undecided: "+miss)
		return
	}
	var gone []string
	for _, name := range append(contractNames((&bt{P: P, n: n}).baseContracts()), btHelpers...) {
		if P.method(n.treeT, name) == nil {
			gone = append(gone, name)
		}
	}
	if len(gone) > 0 {
		r.Notes = append(r.Notes, "undecided: no function by the name of "+strings.Join(gone, ", "))
		return
	}
	r.Explanation = btExplain[prop]
	if prop == "C11" || prop == "BT" {
		n.discardReach(P, r)
	}
	if prop == "C20" || prop == "BT" {
		n.queryReach(P, r)
	}
	type job struct {
		t   btTask
		a   btRun
		res btRun // all nodes resident
	}
	var jobs []*job
	for _, t := range n.tasks(P) {
		if onlyOp != "" && t.name != onlyOp {
			continue
		}
		use := prop == "BT"
		for _, p := range t.props {
			use = use || p == prop
		}
		if use {
			jobs = append(jobs, &job{t: t})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	start := func(f func()) {
		wg.Add(1)
		go func() {
			sem <- true
			defer func() { <-sem; wg.Done() }()
			f()
		}()
	}
	for _, j := range jobs {
		j := j
		start(func() { j.a = j.t.run(false) })
		if prop == "C08" && j.t.both {
			start(func() { j.res = j.t.run(true) })
		}
	}
	wg.Wait()
	for _, j := range jobs {
		j.a.bad, j.res.bad = widened(j.t, j.a.bad), widened(j.t, j.res.bad)
	}
	states, exits, steps, done, blocks, missed := 0, 0, 0, 0, 0, 0
	for _, j := range jobs {
		x := j.a
		where := P.pos(j.t.fn.Pos())
		states, exits, steps = states+x.states, exits+x.exits, steps+x.steps
		blocks, missed = blocks+x.blocks, missed+len(x.miss)
		if prop == "BT" {
			fmt.Printf("%s: exits %d states %d steps %d und=%q\n", j.t.name, x.exits, x.states, x.steps, x.und)
		}
		var ks []string
		for k := range x.bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		bad := 0
		for _, k := range ks {
			p, rule := k[:strings.Index(k, "|")], k[strings.Index(k, "|")+1:]
			if prop == "BT" {
				fmt.Println("  ", k, x.bad[k])
			}
			switch {
			case prop == "C08" && j.t.both && p != "C08":
				if _, also := j.res.bad[k]; p != "*" && (also || j.res.und != "") {
					continue
				} else if p == "*" && (also || j.res.und != "") {
					continue
				}
			case p != prop && p != "*" && prop != "BT":
				continue
			}
			bad++
			r.fail(rule, j.t.name+": "+rule, where, x.bad[k])
		}
		if x.und != "" {
			r.Notes = append(r.Notes, fmt.Sprintf("undecided: %s: %s", j.t.what, x.und))
			continue
		}
		if bad == 0 {
			r.ok("analysed to a fixpoint, every exit judged", j.t.what, where)
			done++
		}
	}
	r.Counts["blocks_analysed"], r.Counts["blocks_found_unreachable"] = blocks, missed
	r.Counts["tasks"], r.Counts["abstract_states"], r.Counts["exits"], r.Counts["steps"], r.Counts["tasks_decided"] = len(jobs), states, exits, steps, done
}

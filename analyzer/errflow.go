package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: for every call site from which an error of client code (a callback) or of the node
// decoder may arrive, every path on which that error is non-nil must leave the function by
// returning an error that is certainly non-nil (or by panicking). The obligations of all call
// sites together give, by induction over the call depth, that the error reaches the API caller.

func init() { checks["C18"] = checkErrFlow }

// originNames: external calls whose error the property is about.
func isErrorOrigin(ext string) bool {
	if strings.HasPrefix(ext, "callback:") {
		return true
	}
	return strings.HasPrefix(ext, "ext:github.com/NVIDIA/cstruct.")
}

func errResultIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// fallible computes the in-package functions whose error result may stem from an origin.
func (P *Prog) fallible() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if out[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					fns, ext := P.callees(c.Common())
					hit := errResultIndex(c.Common().Signature()) >= 0 && isErrorOrigin(ext)
					for _, g := range fns {
						if out[g] {
							hit = true
						}
					}
					if hit && !out[f] {
						out[f] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

type tri int8

const (
	triU tri = iota // unknown
	triN            // nil / false
	triY            // non-nil / true
)

type efEnv map[string]tri // key: value name or cell name

func (e efEnv) clone() efEnv {
	n := make(efEnv, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (e efEnv) key() string {
	ks := make([]string, 0, len(e))
	for k, v := range e {
		if v != triU {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func tracked(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool || ok && b.Kind() == types.UntypedBool
}

type efWalker struct {
	P      *Prog
	live   map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	budget int
	depth  int
	glob   map[*ssa.Global]bool
}

// liveness of tracked values at block entry.
func (w *efWalker) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := w.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				idx := predIndex(s, b)
				for v := range in[s] {
					cur[v] = true
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, p)
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					cur[p.Edges[idx]] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for _, ins := range b.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					cur[p] = true // kept until redefined; harmless
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	w.live[f] = in
	return in
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

func vkey(v ssa.Value) string { return fmt.Sprintf("%p", v) }

func cellKey(v ssa.Value, bind map[ssa.Value]string) (string, bool) {
	if k, ok := bind[v]; ok {
		return k, true
	}
	switch a := v.(type) {
	case *ssa.Alloc:
		return "cell:" + vkey(a), true
	case *ssa.FieldAddr:
		k, ok := cellKey(a.X, bind)
		if ok {
			return fmt.Sprintf("%s.%d", k, a.Field), true
		}
	}
	return "", false
}

func (w *efWalker) eval(v ssa.Value, env efEnv, bind map[ssa.Value]string) tri {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return triN
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return triY
			}
			return triN
		}
		return triY
	}
	if t, ok := env[vkey(v)]; ok {
		return t
	}
	return triU
}

// compute the tri value of a freshly executed value instruction.
func (w *efWalker) compute(ins ssa.Value, env efEnv, bind map[ssa.Value]string) tri {
	switch x := ins.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if isErrorType(x.X.Type()) || isErrorType(x.Y.Type()) || tracked(x.X.Type()) {
				a, b := w.eval(x.X, env, bind), w.eval(x.Y, env, bind)
				if a == triU || b == triU {
					return triU
				}
				if isErrorType(x.X.Type()) && a == triY && b == triY {
					return triU
				}
				if (a == b) == (x.Op == token.EQL) {
					return triY
				}
				return triN
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch w.eval(x.X, env, bind) {
			case triY:
				return triN
			case triN:
				return triY
			}
			return triU
		}
		if x.Op == token.MUL {
			if k, ok := cellKey(x.X, bind); ok {
				return env[k]
			}
			if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) && w.globalNonNil(g) {
				return triY
			}
		}
	case *ssa.MakeInterface:
		return triY
	case *ssa.ChangeInterface:
		return w.eval(x.X, env, bind)
	case *ssa.ChangeType:
		return w.eval(x.X, env, bind)
	}
	return triU
}

// globalNonNil: a package error variable only ever assigned non-nil errors (in its initialiser).
func (w *efWalker) globalNonNil(g *ssa.Global) bool {
	if r, ok := w.glob[g]; ok {
		return r
	}
	w.glob[g] = false
	n := 0
	good := true
	fns := append([]*ssa.Function{}, w.P.Funcs...)
	if f := w.P.SSA.Func("init"); f != nil {
		fns = append(fns, f)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					c, ok := s.Val.(*ssa.Call)
					if !ok || !nonNilErrCall(w.P, &c.Call) || f.Name() != "init" {
						good = false
					}
				}
			}
		}
	}
	w.glob[g] = good && n > 0
	return w.glob[g]
}

func nonNilErrCall(P *Prog, c *ssa.CallCommon) bool {
	_, ext := P.callees(c)
	return ext == "ext:fmt.Errorf" || ext == "ext:errors.New"
}

type efOutcome struct {
	ret    []tri
	panics bool
	trace  string
	env    efEnv
}

// refine assumes the condition has the given truth value.
func (w *efWalker) refine(cond ssa.Value, truth bool, env efEnv, bind map[ssa.Value]string) {
	if truth {
		env[vkey(cond)] = triY
	} else {
		env[vkey(cond)] = triN
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			w.refine(x.X, !truth, env, bind)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		eq := (x.Op == token.EQL) == truth
		set := func(v ssa.Value, other tri) {
			if _, isC := v.(*ssa.Const); isC || other == triU {
				return
			}
			if w.eval(v, env, bind) != triU {
				return
			}
			nv := triU
			if eq {
				nv = other
			} else if other == triN {
				nv = triY
			} else if !isErrorType(v.Type()) {
				nv = triN
			}
			if nv != triU {
				env[vkey(v)] = nv
				// a load of a cell tells about the cell too (no write in between is ensured by
				// the cell being updated at each store: only refine when still equal)
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if k, ok := cellKey(u.X, bind); ok && env[k] == triU && env["ver:"+k] == env["verOf:"+vkey(v)] {
						env[k] = nv
					}
				}
			}
		}
		if tracked(x.X.Type()) {
			set(x.X, w.eval(x.Y, env, bind))
			set(x.Y, w.eval(x.X, env, bind))
		}
	}
}

// walk explores all paths from instruction index i of block b with env, returning distinct outcomes.
func (w *efWalker) walk(f *ssa.Function, b *ssa.BasicBlock, i int, env efEnv, bind map[ssa.Value]string, defers []*ssa.Defer) []efOutcome {
	type item struct {
		b      *ssa.BasicBlock
		i      int
		env    efEnv
		defers []*ssa.Defer
		trace  string
	}
	live := w.liveIn(f)
	var outs []efOutcome
	outSeen := map[string]bool{}
	seen := map[string]bool{}
	work := []item{{b, i, env, defers, ""}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		w.budget--
		if w.budget < 0 {
			panic("error-flow exploration exceeded its budget in " + fnName(f))
		}
		env := it.env
		dead := false
		b := it.b
	instrs:
		for j := it.i; j < len(b.Instrs); j++ {
			switch x := b.Instrs[j].(type) {
			case *ssa.Phi:
				// handled at edges
			case *ssa.Store:
				if k, ok := cellKey(x.Addr, bind); ok {
					if tracked(x.Val.Type()) {
						env[k] = w.eval(x.Val, env, bind)
					} else {
						for kk := range env {
							if strings.HasPrefix(kk, k+".") {
								delete(env, kk)
							}
						}
					}
				}
			case *ssa.Defer:
				it.defers = append(append([]*ssa.Defer{}, it.defers...), x)
			case *ssa.RunDefers:
				for d := len(it.defers) - 1; d >= 0; d-- {
					mc, ok := it.defers[d].Call.Value.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					g := mc.Fn.(*ssa.Function)
					nb := map[ssa.Value]string{}
					for q, fv := range g.FreeVars {
						if k, ok := cellKey(mc.Bindings[q], bind); ok {
							nb[fv] = k
						}
					}
					if len(nb) == 0 {
						continue
					}
					res := w.walk(g, g.Blocks[0], 0, env.clone(), nb, nil)
					// join the outcomes' cells
					var joined efEnv
					for _, o := range res {
						if o.panics {
							continue
						}
						if joined == nil {
							joined = o.env.clone()
							continue
						}
						for k, v := range joined {
							if o.env[k] != v {
								joined[k] = triU
							}
						}
					}
					for _, k := range nb {
						env[k] = joined[k]
					}
				}
			case *ssa.Panic:
				dead = true
				if !outSeen["panic"] {
					outSeen["panic"] = true
					outs = append(outs, efOutcome{panics: true, env: env})
				}
				break instrs
			case *ssa.Return:
				o := efOutcome{trace: fmt.Sprintf("return at %s%s", w.P.instrPos(x), it.trace), env: env}
				k := ""
				for _, rv := range x.Results {
					t := w.eval(rv, env, bind)
					o.ret = append(o.ret, t)
					k += fmt.Sprint(t)
				}
				k += "|" + o.trace[:strings.IndexByte(o.trace+" via", ' ')] + "|" + w.P.instrPos(x) + "|" + cellsKey(env)
				if !outSeen[k] {
					outSeen[k] = true
					outs = append(outs, o)
				}
				dead = true
				break instrs
			case ssa.Value:
				if c, ok := x.(*ssa.Call); ok {
					w.call(f, c, env, bind)
				} else if e, ok := x.(*ssa.Extract); ok {
					if t, ok := env[vkey(e.Tuple)+fmt.Sprintf("#%d", e.Index)]; ok {
						env[vkey(x)] = t
					} else {
						delete(env, vkey(x))
					}
				} else if tracked(x.Type()) {
					env[vkey(x)] = w.compute(x, env, bind)
				}
			}
		}
		if dead {
			continue
		}
		push := func(s *ssa.BasicBlock, e efEnv, tr string) {
			idx := predIndex(s, b)
			// for If blocks with both edges to the same successor, idx of the first is used; fine
			newv := map[string]tri{}
			for _, ins := range s.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if tracked(p.Type()) {
					newv[vkey(p)] = w.eval(p.Edges[idx], e, bind)
				}
			}
			keep := efEnv{}
			for v := range live[s] {
				k := vkey(v)
				if t, ok := e[k]; ok && t != triU {
					keep[k] = t
				}
				for q := 0; q < 6; q++ {
					kk := k + fmt.Sprintf("#%d", q)
					if t, ok := e[kk]; ok && t != triU {
						keep[kk] = t
					}
				}
			}
			for k, v := range e {
				if strings.HasPrefix(k, "cell:") && v != triU {
					keep[k] = v
				}
			}
			for k, v := range newv {
				if v == triU {
					delete(keep, k)
				} else {
					keep[k] = v
				}
			}
			key := fmt.Sprintf("%d|%s|%d", s.Index, keep.key(), len(it.defers))
			if seen[key] {
				return
			}
			seen[key] = true
			work = append(work, item{s, 0, keep, it.defers, tr})
		}
		last := b.Instrs[len(b.Instrs)-1]
		if iff, ok := last.(*ssa.If); ok {
			c := w.eval(iff.Cond, env, bind)
			if c != triN {
				e := env.clone()
				w.refine(iff.Cond, true, e, bind)
				push(b.Succs[0], e, it.trace)
			}
			if c != triY {
				e := env.clone()
				w.refine(iff.Cond, false, e, bind)
				push(b.Succs[1], e, it.trace)
			}
		} else {
			for _, s := range b.Succs {
				push(s, env.clone(), it.trace)
			}
		}
	}
	return outs
}

func cellsKey(e efEnv) string {
	var ks []string
	for k, v := range e {
		if strings.HasPrefix(k, "cell:") && v != triU {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// call models an ordinary call: results become unknown, except for calls that can be decided.
func (w *efWalker) call(f *ssa.Function, c *ssa.Call, env efEnv, bind map[ssa.Value]string) {
	delete(env, vkey(c))
	for q := 0; q < 6; q++ {
		delete(env, vkey(c)+fmt.Sprintf("#%d", q))
	}
	common := c.Common()
	if nonNilErrCall(w.P, common) {
		env[vkey(c)] = triY
		return
	}
	fns, ext := w.P.callees(common)
	if ext == "ext:errors.Join" {
		return
	}
	// a closure or helper handed error state: evaluate its body
	var fn *ssa.Function
	nb := map[ssa.Value]string{}
	if mc, ok := common.Value.(*ssa.MakeClosure); ok {
		fn = mc.Fn.(*ssa.Function)
		for q, fv := range fn.FreeVars {
			if k, ok := cellKey(mc.Bindings[q], bind); ok {
				nb[fv] = k
			}
		}
	} else if len(fns) == 1 && !common.IsInvoke() {
		fn = fns[0]
	}
	if fn == nil || len(fn.Blocks) == 0 || w.depth > 3 {
		return
	}
	want := len(nb) > 0
	ne := efEnv{}
	for q, a := range common.Args {
		if q < len(fn.Params) {
			if tracked(a.Type()) {
				if t := w.eval(a, env, bind); t != triU && isErrorType(a.Type()) {
					ne[vkey(fn.Params[q])] = t
					want = true
				}
			}
			if k, ok := cellKey(a, bind); ok {
				if p, ok := a.Type().Underlying().(*types.Pointer); ok && (isErrorType(p.Elem()) || isStruct(p.Elem())) {
					nb[fn.Params[q]] = k
					want = true
				}
			}
		}
	}
	if !want {
		return
	}
	for k, v := range env {
		if strings.HasPrefix(k, "cell:") {
			ne[k] = v
		}
	}
	w.depth++
	res := w.walk(fn, fn.Blocks[0], 0, ne, nb, nil)
	w.depth--
	first := true
	var joined []tri
	var cells efEnv
	for _, o := range res {
		if o.panics {
			continue
		}
		if first {
			joined = append([]tri{}, o.ret...)
			cells = o.env.clone()
			first = false
			continue
		}
		for q := range joined {
			if o.ret[q] != joined[q] {
				joined[q] = triU
			}
		}
		for k, v := range cells {
			if o.env[k] != v {
				cells[k] = triU
			}
		}
	}
	for _, k := range nb {
		for ek := range env {
			if ek == k || strings.HasPrefix(ek, k+".") {
				env[ek] = cells[ek]
			}
		}
		for ek, v := range cells {
			if ek == k || strings.HasPrefix(ek, k+".") {
				env[ek] = v
			}
		}
	}
	if len(joined) == 1 {
		env[vkey(c)] = joined[0]
	} else {
		for q, t := range joined {
			env[vkey(c)+fmt.Sprintf("#%d", q)] = t
		}
	}
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func checkErrFlow(P *Prog, r *Result) {
	r.Explanation = "Inter-procedural error-flow analysis on SSA. Origins are all calls whose error result can stem from a client callback (Compare, GetNode, PutNode, DiscardNode, Pack*/Unpack*, Dump*) or from cstruct.Pack/Unpack, directly or through functions of the package. For each, the error is assumed non-nil and every path from the call is explored (path-sensitive nilness of error and boolean values, named results, wrappers, closures and defers evaluated); each path must end in a return of a certainly non-nil error or in a panic. By induction over call depth the error reaches the API caller."
	r.Assumptions = []string{
		"panics raised by client callbacks are not errors",
		"functions of package fmt that only print are not client callbacks; their own I/O errors are outside the property",
	}
	fall := P.fallible()
	sites, direct := 0, map[string]int{}
	for _, f := range P.Funcs {
		ord := map[string]int{}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				ei := errResultIndex(c.Common().Signature())
				fns, ext := P.callees(c.Common())
				org := ""
				if ei >= 0 && isErrorOrigin(ext) {
					org = ext
					direct[ext]++
				}
				for _, g := range fns {
					if fall[g] && org == "" {
						org = fnName(g)
					}
				}
				if org == "" {
					continue
				}
				if ei < 0 {
					// the callee swallows or panics: its own obligations decide
					continue
				}
				sites++
				ord[org]++
				key := fmt.Sprintf("%s calls %s #%d", fnName(f), org, ord[org])
				if _, isCall := in.(*ssa.Call); !isCall {
					r.fail("error-reaches-caller", key, P.instrPos(in), "the error of a deferred or spawned call is lost")
					continue
				}
				call := in.(*ssa.Call)
				w := &efWalker{P: P, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, budget: 400000, glob: map[*ssa.Global]bool{}}
				env := efEnv{}
				if call.Call.Signature().Results().Len() == 1 {
					env[vkey(call)] = triY
				} else {
					env[vkey(call)+fmt.Sprintf("#%d", ei)] = triY
				}
				var defs []*ssa.Defer
				for _, bb := range f.Blocks {
					for _, dn := range bb.Instrs {
						if d, ok := dn.(*ssa.Defer); ok && bb.Dominates(b) {
							defs = append(defs, d)
						}
					}
				}
				// values dominating the call keep their facts unknown
				outs := w.walk(f, b, i+1, env, map[ssa.Value]string{}, defs)
				fe := errResultIndex(f.Signature)
				bad := ""
				for _, o := range outs {
					if o.panics {
						continue
					}
					if fe < 0 {
						bad = "the enclosing function has no error result to report it: " + o.trace
						break
					}
					if o.ret[fe] != triY {
						st := "possibly nil"
						if o.ret[fe] == triN {
							st = "nil"
						}
						bad = fmt.Sprintf("with this call failing, the error returned is %s: %s", st, o.trace)
						break
					}
				}
				if bad != "" {
					r.fail("error-reaches-caller", key, P.instrPos(in), bad)
				} else {
					r.ok("error-reaches-caller", key, P.instrPos(in))
				}
			}
		}
	}
	r.floor("call sites an external error can arrive at", sites, 40)
	for _, n := range []string{"Compare", "GetNode", "PutNode", "DiscardNode", "PackKey", "UnpackKey", "PackValue", "UnpackValue", "DumpKey", "DumpValue"} {
		r.floor("direct calls of callback "+n, direct["callback:"+n], 1)
	}
	for _, n := range []string{"Pack", "Unpack"} {
		r.floor("direct calls of cstruct."+n, direct["ext:github.com/NVIDIA/cstruct."+n], 1)
	}
	r.Counts["fallible functions"] = len(fall)
}

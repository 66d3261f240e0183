package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fieldKey names a struct field by owner type and name.
type fieldKey struct {
	Owner string
	Field string
}

// modref: which fields each function stores (transitively through package calls).
type modref struct {
	P      *Prog
	direct map[*ssa.Function]map[fieldKey]bool
	trans  map[*ssa.Function]map[fieldKey]bool
	reach  map[*ssa.Function]map[*ssa.Function]bool
	ext    map[*ssa.Function]map[string]bool // transitive externals
}

func ownerName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

// addrField resolves an address value to the field it denotes.
func addrField(v ssa.Value) (fieldKey, *ssa.FieldAddr, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return fieldKey{}, nil, false
	}
	_, name := fieldOf(fa.X.Type(), fa.Field)
	return fieldKey{ownerName(fa.X.Type()), name}, fa, true
}

// baseOf strips field selections to the object pointer they start from.
func baseOf(v ssa.Value) ssa.Value {
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = fa.X
	}
}

func (P *Prog) modref() *modref {
	m := &modref{P: P, direct: map[*ssa.Function]map[fieldKey]bool{}, trans: map[*ssa.Function]map[fieldKey]bool{}, reach: map[*ssa.Function]map[*ssa.Function]bool{}, ext: map[*ssa.Function]map[string]bool{}}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	dext := map[*ssa.Function]map[string]bool{}
	for _, f := range P.Funcs {
		d := map[fieldKey]bool{}
		cs := map[*ssa.Function]bool{}
		ex := map[string]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if k, _, ok := addrField(x.Addr); ok {
						d[k] = true
					}
				case ssa.CallInstruction:
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					fs, e := P.callees(x.Common())
					for _, g := range fs {
						cs[g] = true
					}
					if e != "" {
						ex[e] = true
					}
				}
			}
		}
		m.direct[f], calls[f], dext[f] = d, cs, ex
	}
	for _, f := range P.Funcs {
		seen := map[*ssa.Function]bool{}
		var dfs func(g *ssa.Function)
		dfs = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			for h := range calls[g] {
				dfs(h)
			}
		}
		dfs(f)
		m.reach[f] = seen
		t := map[fieldKey]bool{}
		e := map[string]bool{}
		for g := range seen {
			for k := range m.direct[g] {
				t[k] = true
			}
			for k := range dext[g] {
				e[k] = true
			}
		}
		m.trans[f], m.ext[f] = t, e
	}
	return m
}

// callMods reports the fields a call may store.
func (m *modref) callMods(c *ssa.CallCommon) map[fieldKey]bool {
	fs, _ := m.P.callees(c)
	out := map[fieldKey]bool{}
	for _, f := range fs {
		for k := range m.trans[f] {
			out[k] = true
		}
	}
	return out
}

// lastStored resolves a load of base.f to the one value stored there last on every
// path to the load, when nothing in between can overwrite it (nil: not determined).
func (m *modref) lastStored(load *ssa.UnOp) ssa.Value {
	if load.Op != token.MUL {
		return nil
	}
	k, fa, ok := addrField(load.X)
	if !ok {
		return nil
	}
	memo := map[*ssa.BasicBlock]bool{}
	var val ssa.Value
	good := true
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				k2, fa2, ok2 := addrField(x.Addr)
				if ok2 && k2 == k {
					if fa2.X != fa.X || (val != nil && val != x.Val) {
						good = false
					}
					val = x.Val
					return
				}
			case ssa.CallInstruction:
				if m.callMods(x.Common())[k] {
					good = false
					return
				}
			}
		}
		if len(b.Preds) == 0 {
			good = false
		}
		for _, p := range b.Preds {
			if good && !memo[p] {
				memo[p] = true
				scan(p, len(p.Instrs)-1)
			}
		}
	}
	b := load.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(load) {
			scan(b, i-1)
		}
	}
	if !good {
		return nil
	}
	return val
}

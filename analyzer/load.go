package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis: the one package of /repo (its
// build's files, no tests), type-checked with the real build's settings, in SSA.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	Pkg   *packages.Package
	SSA   *ssa.Package
	Funcs []*ssa.Function // every source function of the package, incl. methods and closures

	TreeT, NodeT, CacheT, LlrbT, LlrbNodeT *types.Named // main types
	ElemT                                  *types.Named // btreeNodeCacheElement

	started time.Time
	recOnce sync.Once
	recs    map[*ssa.Function]bool
}

func loadEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOENV", "GOTOOLCHAIN", "GOWORK", "GOSUMDB", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOENV=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
	return env
}

func loadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:   repo,
		Env:   loadEnv(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	var target *packages.Package
	for _, p := range pkgs {
		if p.Name == "sortedmap" {
			target = p
		}
	}
	if target == nil {
		return nil, fmt.Errorf("package sortedmap not found under %s", repo)
	}
	if len(pkgs) != 1 {
		var names []string
		for _, p := range pkgs {
			names = append(names, p.PkgPath)
		}
		return nil, fmt.Errorf("expected one package, found %v: the analysis covers exactly package sortedmap", names)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	_ = spkgs
	sp := prog.Package(target.Types)
	if sp == nil {
		return nil, fmt.Errorf("no SSA for %s", target.PkgPath)
	}
	sp.Build()
	P := &Prog{Repo: repo, Fset: prog.Fset, Pkg: target, SSA: sp, started: time.Now()}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		if fn.Package() != sp {
			continue
		}
		P.Funcs = append(P.Funcs, fn)
	}
	sort.Slice(P.Funcs, func(i, j int) bool { return P.Funcs[i].Pos() < P.Funcs[j].Pos() })
	named := func(n string) *types.Named {
		o := target.Types.Scope().Lookup(n)
		if o == nil {
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	P.TreeT, P.NodeT, P.CacheT = named("btreeTreeStruct"), named("btreeNodeStruct"), named("btreeNodeCacheStruct")
	P.LlrbT, P.LlrbNodeT = named("llrbTreeStruct"), named("llrbNodeStruct")
	P.ElemT = named("btreeNodeCacheElement")
	for n, t := range map[string]*types.Named{"btreeTreeStruct": P.TreeT, "btreeNodeStruct": P.NodeT, "btreeNodeCacheStruct": P.CacheT, "llrbTreeStruct": P.LlrbT, "llrbNodeStruct": P.LlrbNodeT, "btreeNodeCacheElement": P.ElemT} {
		if t == nil {
			return nil, fmt.Errorf("unresolved anchor: type %s", n)
		}
	}
	return P, nil
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (P *Prog) instrPos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		// nearest positioned instruction in the block
		b := i.Block()
		if b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
				}
				if x == i && p.IsValid() {
					break
				}
			}
		}
	}
	return P.pos(p)
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + fn.Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

// method finds a declared method of a named type (pointer or value receiver).
func (P *Prog) method(t *types.Named, name string) *ssa.Function {
	for _, fn := range P.Funcs {
		if fn.Name() != name || fn.Signature.Recv() == nil {
			continue
		}
		if recvNamed(fn) == t {
			return fn
		}
	}
	return nil
}

func (P *Prog) fn(name string) *ssa.Function { return P.SSA.Func(name) }

func recvNamed(fn *ssa.Function) *types.Named {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return derefNamed(fn.Signature.Recv().Type())
}

func derefNamed(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	} else if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// implementors returns the package's named types T such that *T implements the interface.
func (P *Prog) implementors(it *types.Interface) []*types.Named {
	var out []*types.Named
	sc := P.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) || types.Implements(nt, it) {
			out = append(out, nt)
		}
	}
	return out
}

// callees resolves a call to package functions. external describes what else it may reach:
// "callback:<name>" for client-supplied code, "ext:<name>" for library code, "" for none.
func (P *Prog) callees(c *ssa.CallCommon) (fns []*ssa.Function, external string) {
	if c.IsInvoke() {
		it := c.Value.Type().Underlying().(*types.Interface)
		impl := P.implementors(it)
		if isErrorType(c.Value.Type()) {
			return nil, "ext:error." + c.Method.Name()
		}
		for _, nt := range impl {
			if f := P.method(nt, c.Method.Name()); f != nil {
				fns = append(fns, f)
			}
		}
		if len(fns) == 0 {
			if c.Method.Pkg() != nil && c.Method.Pkg() == P.Pkg.Types {
				return nil, "callback:" + c.Method.Name()
			}
			return nil, "ext:" + c.Method.FullName()
		}
		return fns, ""
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return nil, "builtin:" + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Package() == P.SSA && f.Blocks != nil {
			return []*ssa.Function{f}, ""
		}
		if f.Package() == nil && f.Synthetic != "" {
			// wrapper / bound method: resolve to the object
			if o, ok := f.Object().(*types.Func); ok {
				if t := P.funcOf(o); t != nil {
					return []*ssa.Function{t}, ""
				}
			}
		}
		return nil, "ext:" + f.String()
	}
	// dynamic call of a function value
	if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() == P.Pkg.Types {
		return nil, "callback:" + n.Obj().Name()
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}, ""
	}
	return nil, "dynamic"
}

func (P *Prog) funcOf(o *types.Func) *ssa.Function {
	for _, f := range P.Funcs {
		if f.Object() == o {
			return f
		}
	}
	return nil
}

// fieldOf names the struct type and field a FieldAddr/Field selects.
func fieldOf(x types.Type, idx int) (owner *types.Named, name string) {
	t := x
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	owner, _ = t.(*types.Named)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return owner, "?"
	}
	return owner, st.Field(idx).Name()
}

// apiMethods lists the exported methods of t that its public interfaces promise.
func (P *Prog) apiMethods(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Signature.Recv() == nil || recvNamed(fn) != t || fn.Parent() != nil {
			continue
		}
		if token.IsExported(fn.Name()) {
			out = append(out, fn)
		}
	}
	return out
}

// iface finds an interface type of the package by name.
func (P *Prog) iface(name string) *types.Interface {
	if o := P.Pkg.Types.Scope().Lookup(name); o != nil {
		if i, ok := o.Type().Underlying().(*types.Interface); ok {
			return i
		}
	}
	return types.NewInterfaceType(nil, nil)
}

func fieldType(t *types.Named, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

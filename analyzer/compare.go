package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C01: abstract evaluation of every comparator over the finite domain
// {first key of the right type or not} x {second likewise} x {<, =, >}.
// Key values are only ever abstract: what matters is that the code touches them
// through order comparisons alone, so that three orderings cover all pairs.

type cv struct {
	kind string // "key1","key2" (interfaces), "x","y" (asserted values), "const","sign","bool","err","tuple","diff","unk"
	c    constant.Value
	sign int  // for sign
	b    bool // for bool / err non-nil
	t    types.Type
	bits int // significant bits of x / y before conversions
	sgn  bool
	tup  []cv
}

type cmpCase struct {
	ok1, ok2 bool
	ord      int
	want     types.Type
}

type cmpEval struct {
	P     *Prog
	cs    cmpCase
	steps int
	depth int
}

type cmpFail struct{ msg string }

func (e *cmpEval) die(f string, a ...any) { panic(cmpFail{fmt.Sprintf(f, a...)}) }

func intWidth(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

// keyVal builds the abstract asserted value of one key.
func (e *cmpEval) keyVal(which string, t types.Type) cv {
	v := cv{kind: which, t: t}
	if b, s, ok := intWidth(t); ok {
		v.bits, v.sgn = b, s
	}
	return v
}

func (e *cmpEval) run(fn *ssa.Function, args []cv, fv []cv) []cv {
	if e.depth++; e.depth > 20 {
		e.die("recursion too deep in %s", fnName(fn))
	}
	defer func() { e.depth-- }()
	env := map[ssa.Value]cv{}
	mem := map[ssa.Value]cv{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(fv) {
			env[f] = fv[i]
		}
	}
	var get func(v ssa.Value) cv
	get = func(v ssa.Value) cv {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				if isErrorType(x.Type()) {
					return cv{kind: "err", b: false}
				}
				return cv{kind: "unk"}
			}
			if x.Value.Kind() == constant.Bool {
				return cv{kind: "bool", b: constant.BoolVal(x.Value)}
			}
			return cv{kind: "const", c: x.Value}
		}
		if r, ok := env[v]; ok {
			return r
		}
		return cv{kind: "unk"}
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		if e.steps++; e.steps > 5000 {
			e.die("%s does not settle: a loop over key contents is not an order comparison", fnName(fn))
		}
		var next *ssa.BasicBlock
		phis := map[ssa.Value]cv{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == prev {
						phis[ph] = get(ph.Edges[i])
					}
				}
			}
		}
		for k, v := range phis {
			env[k] = v
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
			case *ssa.Alloc:
				z := cv{kind: "unk"}
				if isErrorType(x.Type().Underlying().(*types.Pointer).Elem()) {
					z = cv{kind: "err"}
				} else if _, _, ok := intWidth(x.Type().Underlying().(*types.Pointer).Elem()); ok {
					z = cv{kind: "const", c: constant.MakeInt64(0)}
				}
				mem[x] = z
			case *ssa.Store:
				mem[x.Addr] = get(x.Val)
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					if v, ok := mem[x.X]; ok {
						env[x] = v
					} else {
						env[x] = cv{kind: "unk"}
					}
				case token.NOT:
					v := get(x.X)
					if v.kind == "bool" {
						env[x] = cv{kind: "bool", b: !v.b}
					} else {
						env[x] = cv{kind: "unk"}
					}
				case token.SUB:
					v := get(x.X)
					switch v.kind {
					case "sign":
						env[x] = cv{kind: "sign", sign: -v.sign}
					case "const":
						env[x] = cv{kind: "const", c: constant.UnaryOp(token.SUB, v.c, 0)}
					default:
						env[x] = cv{kind: "unk"}
					}
				default:
					env[x] = cv{kind: "unk"}
				}
			case *ssa.TypeAssert:
				env[x] = e.assert(x, get(x.X))
			case *ssa.Extract:
				t := get(x.Tuple)
				if t.kind == "tuple" && x.Index < len(t.tup) {
					env[x] = t.tup[x.Index]
				} else {
					env[x] = cv{kind: "unk"}
				}
			case *ssa.Convert:
				env[x] = convKey(get(x.X), x.Type())
			case *ssa.ChangeType:
				env[x] = get(x.X)
			case *ssa.MakeInterface, *ssa.ChangeInterface:
				ops := in.Operands(nil)
				v := get(*ops[0])
				if isErrorType(in.(ssa.Value).Type()) && v.kind != "err" {
					v = cv{kind: "err", b: true}
				}
				env[in.(ssa.Value)] = v
			case *ssa.BinOp:
				env[x] = e.binop(x, get(x.X), get(x.Y))
			case *ssa.Call:
				env[x] = e.call(x, get)
			case *ssa.Slice:
				if _, isArr := x.X.(*ssa.Alloc); isArr {
					env[x] = cv{kind: "unk"}
				} else {
					env[x] = cv{kind: "unk"}
				}
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.Lookup:
				env[in.(ssa.Value)] = cv{kind: "unk"}
			case *ssa.If:
				c := get(x.Cond)
				if c.kind != "bool" {
					e.die("branch at %s does not depend on the keys' order or types alone", e.P.instrPos(in))
				}
				if c.b {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var out []cv
				for _, r := range x.Results {
					out = append(out, get(r))
				}
				return out
			case *ssa.Panic:
				e.die("panics at %s", e.P.instrPos(in))
			default:
				if v, ok := in.(ssa.Value); ok {
					env[v] = cv{kind: "unk"}
				}
			}
		}
		prev, b = b, next
	}
}

func (e *cmpEval) assert(x *ssa.TypeAssert, v cv) cv {
	if v.kind != "key1" && v.kind != "key2" {
		return cv{kind: "unk"}
	}
	if types.IsInterface(x.AssertedType) {
		e.die("type test against an interface at %s is not modelled", e.P.instrPos(x))
	}
	ok := e.cs.ok1
	w := "x"
	if v.kind == "key2" {
		ok, w = e.cs.ok2, "y"
	}
	same := types.Identical(x.AssertedType, e.cs.want)
	if !same {
		// a key of the right type is not of this one; a foreign key may or may not be
		if ok {
			if !x.CommaOk {
				e.die("unchecked type assertion to %s at %s panics", x.AssertedType, e.P.instrPos(x))
			}
			return cv{kind: "tuple", tup: []cv{{kind: "unk"}, {kind: "bool", b: false}}}
		}
		e.die("asserts type %s at %s, not the %s it is documented for: keys of a foreign type would be accepted", x.AssertedType, e.P.instrPos(x), e.cs.want)
	}
	if !x.CommaOk {
		if !ok {
			e.die("unchecked type assertion at %s panics on a key of another type", e.P.instrPos(x))
		}
		return e.keyVal(w, x.AssertedType)
	}
	if ok {
		return cv{kind: "tuple", tup: []cv{e.keyVal(w, x.AssertedType), {kind: "bool", b: true}}}
	}
	return cv{kind: "tuple", tup: []cv{{kind: "unk"}, {kind: "bool", b: false}}}
}

func convKey(v cv, t types.Type) cv {
	if v.kind != "x" && v.kind != "y" {
		if v.kind == "const" {
			return v
		}
		if v.kind == "sign" {
			if b, s, ok := intWidth(t); ok && s && b >= 8 {
				return v
			}
		}
		return cv{kind: "unk"}
	}
	if v.bits > 0 {
		b, s, ok := intWidth(t)
		if ok {
			// value-preserving (hence order-preserving) conversions only
			if s == v.sgn && b >= v.bits || s && !v.sgn && b > v.bits {
				v.t = t
				return v
			}
		}
		return cv{kind: "unk"}
	}
	// string <-> []byte keep content and order
	if isStr(v.t) && isStr(t) {
		v.t = t
		return v
	}
	return cv{kind: "unk"}
}

func isStr(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.String
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func cmpSign(op token.Token, sgn int) bool {
	switch op {
	case token.LSS:
		return sgn < 0
	case token.LEQ:
		return sgn <= 0
	case token.GTR:
		return sgn > 0
	case token.GEQ:
		return sgn >= 0
	case token.EQL:
		return sgn == 0
	}
	return sgn != 0
}

// order of two abstract key values in this case: (sign, known)
func (e *cmpEval) order(a, b cv) (int, bool) {
	if !(a.kind == "x" || a.kind == "y") || !(b.kind == "x" || b.kind == "y") {
		return 0, false
	}
	switch {
	case a.kind == b.kind:
		return 0, true
	case a.kind == "x":
		return e.cs.ord, true
	}
	return -e.cs.ord, true
}

func (e *cmpEval) binop(x *ssa.BinOp, a, b cv) cv {
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		if s, ok := e.order(a, b); ok {
			bt, isBasic := a.t.Underlying().(*types.Basic)
			if !isBasic || bt.Info()&types.IsOrdered == 0 || bt.Info()&types.IsFloat != 0 {
				e.die("%s on %s at %s is not the keys' order", x.Op, a.t, e.P.instrPos(x))
			}
			return cv{kind: "bool", b: cmpSign(x.Op, s)}
		}
		if a.kind == "sign" && b.kind == "const" {
			z, _ := constant.Int64Val(b.c)
			if z == 0 {
				return cv{kind: "bool", b: cmpSign(x.Op, a.sign)}
			}
		}
		if b.kind == "sign" && a.kind == "const" {
			z, _ := constant.Int64Val(a.c)
			if z == 0 {
				return cv{kind: "bool", b: cmpSign(x.Op, -b.sign)}
			}
		}
		if a.kind == "const" && b.kind == "const" {
			return cv{kind: "bool", b: constant.Compare(a.c, x.Op, b.c)}
		}
		if a.kind == "bool" && b.kind == "bool" {
			return cv{kind: "bool", b: (a.b == b.b) == (x.Op == token.EQL)}
		}
		if a.kind == "err" && b.kind == "err" && !(a.b && b.b) {
			return cv{kind: "bool", b: (a.b == b.b) == (x.Op == token.EQL)}
		}
	case token.SUB:
		if s, ok := e.order(a, b); ok && a.bits > 0 {
			rb, rs, _ := intWidth(x.Type())
			if rs && rb > a.bits && rb > b.bits {
				return cv{kind: "sign", sign: s} // the difference cannot overflow
			}
			return cv{kind: "diff"}
		}
	case token.MUL:
		if a.kind == "sign" && b.kind == "const" {
			z, _ := constant.Int64Val(b.c)
			if z == 1 || z == -1 {
				return cv{kind: "sign", sign: a.sign * int(z)}
			}
		}
		if b.kind == "sign" && a.kind == "const" {
			return e.binop(x, b, a)
		}
	}
	return cv{kind: "unk"}
}

func (e *cmpEval) call(x *ssa.Call, get func(ssa.Value) cv) cv {
	c := x.Common()
	var args []cv
	if c.IsInvoke() {
		return cv{kind: "unk"}
	}
	for _, a := range c.Args {
		args = append(args, get(a))
	}
	f := c.StaticCallee()
	if f == nil {
		return cv{kind: "unk"}
	}
	if f.Blocks != nil && (f.Package() == e.P.SSA || f.Origin() != nil && f.Origin().Package() == e.P.SSA) {
		out := e.run(f, args, nil)
		if len(out) == 1 {
			return out[0]
		}
		return cv{kind: "tuple", tup: out}
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	sgn := func(i, j int) (int, bool) { return e.order(args[i], args[j]) }
	switch name {
	case "strings.Compare", "bytes.Compare", "cmp.Compare", "(time.Time).Compare":
		if s, ok := sgn(0, 1); ok {
			if name != "bytes.Compare" && isStr(args[0].t) {
				if _, sl := args[0].t.Underlying().(*types.Slice); sl {
					break
				}
			}
			return cv{kind: "sign", sign: s}
		}
	case "cmp.Less", "(time.Time).Before":
		if s, ok := sgn(0, 1); ok {
			return cv{kind: "bool", b: s < 0}
		}
	case "(time.Time).After":
		if s, ok := sgn(0, 1); ok {
			return cv{kind: "bool", b: s > 0}
		}
	case "(time.Time).Equal", "bytes.Equal":
		if s, ok := sgn(0, 1); ok {
			return cv{kind: "bool", b: s == 0}
		}
	case "fmt.Errorf", "errors.New":
		return cv{kind: "err", b: true}
	}
	return cv{kind: "unk"}
}

func init() {
	checks["C01"] = func(P *Prog, r *Result) {
		r.Explanation = "Abstract evaluation of each supplied comparator over the complete finite domain {key1 right/wrong type} x {key2 right/wrong type} x {key1 <, =, > key2}: keys are abstract, so the verdict covers every pair; any construct that does not reduce to the keys' types or order (an overflowing subtraction, a truncating conversion, struct equality of times, an unchecked assertion) leaves the case undecided, which fails."
		r.Assumptions = []string{"strings.Compare, bytes.Compare and time.Time's Before/After/Equal/Compare are the documented orders"}
		cmpT, _ := P.Pkg.Types.Scope().Lookup("Compare").Type().Underlying().(*types.Signature)
		if cmpT == nil {
			r.fail("anchor", "type Compare", "-", "unresolved")
			return
		}
		timeT := types.Type(nil)
		for _, im := range P.Pkg.Types.Imports() {
			if im.Path() == "time" {
				timeT = im.Scope().Lookup("Time").Type()
			}
		}
		table := map[string]types.Type{
			"CompareInt":       types.Typ[types.Int],
			"CompareUint16":    types.Typ[types.Uint16],
			"CompareUint32":    types.Typ[types.Uint32],
			"CompareUint64":    types.Typ[types.Uint64],
			"CompareString":    types.Typ[types.String],
			"CompareByteSlice": types.NewSlice(types.Typ[types.Byte]),
			"CompareTime":      timeT,
		}
		for name := range table {
			if P.fn(name) == nil || table[name] == nil {
				r.fail("anchor", name, "-", "supplied comparator not found")
			}
		}
		cases := 0
		for _, fn := range P.Funcs {
			if fn.Signature.Recv() != nil || fn.Parent() != nil || !token.IsExported(fn.Name()) || !types.Identical(fn.Signature, cmpT) {
				continue
			}
			want := table[fn.Name()]
			if want == nil {
				// an additional comparator: its key type is the one it asserts
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if ta, ok := in.(*ssa.TypeAssert); ok && want == nil {
							want = ta.AssertedType
						}
					}
				}
				if want == nil {
					r.fail("decided", fn.Name(), P.pos(fn.Pos()), "cannot tell the key type of this comparator")
					continue
				}
			}
			for _, ok1 := range []bool{true, false} {
				for _, ok2 := range []bool{true, false} {
					for _, ord := range []int{-1, 0, 1} {
						if !(ok1 && ok2) && ord != 0 {
							continue
						}
						cases++
						e := &cmpEval{P: P, cs: cmpCase{ok1, ok2, ord, want}}
						desc := fmt.Sprintf("%s(%s,%s)", fn.Name(), map[bool]string{true: "right type", false: "other type"}[ok1], map[bool]string{true: "right type", false: "other type"}[ok2])
						if ok1 && ok2 {
							desc += " with key1 " + map[int]string{-1: "<", 0: "==", 1: ">"}[ord] + " key2"
						}
						func() {
							defer func() {
								if x := recover(); x != nil {
									f, isF := x.(cmpFail)
									if !isF {
										panic(x)
									}
									r.fail("comparator-case", desc, P.pos(fn.Pos()), f.msg)
								}
							}()
							out := e.run(fn, []cv{{kind: "key1"}, {kind: "key2"}}, nil)
							if len(out) != 2 || out[1].kind != "err" {
								r.fail("comparator-case", desc, P.pos(fn.Pos()), "the error result is not decided by the keys' types")
								return
							}
							if ok1 && ok2 {
								if out[1].b {
									r.fail("comparator-case", desc, P.pos(fn.Pos()), "returns an error for keys of its own type")
									return
								}
								s, known := 0, false
								switch out[0].kind {
								case "sign":
									s, known = out[0].sign, true
								case "const":
									s, known = constant.Sign(out[0].c), true
								}
								if !known {
									why := "is not decided by the keys' order"
									if out[0].kind == "diff" {
										why = "is a difference of the keys, which overflows for extreme values and then has the wrong sign"
									}
									r.fail("comparator-case", desc, P.pos(fn.Pos()), "the result "+why)
								} else if s != ord {
									r.fail("comparator-case", desc, P.pos(fn.Pos()), fmt.Sprintf("the result's sign is %d, must be %d", s, ord))
								} else {
									r.ok("comparator-case", desc, P.pos(fn.Pos()))
								}
							} else if !out[1].b {
								r.fail("comparator-case", desc, P.pos(fn.Pos()), "returns no error for a key of another type")
							} else {
								r.ok("comparator-case", desc, P.pos(fn.Pos()))
							}
						}()
					}
				}
			}
		}
		r.floor("cases", cases, 42)
	}
}

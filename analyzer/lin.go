package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Linear integer expressions and conjunctions of linear constraints: the numeric domain of
// the abstract interpreter (affine equalities by Gaussian elimination, inequalities by
// Fourier-Motzkin elimination; joins are affine hull plus commonly entailed inequalities).

type Var int

type term struct {
	v Var
	c int64
}

type Lin struct {
	t []term // sorted by var, no zero coefficient
	k int64
}

func linC(k int64) Lin { return Lin{k: k} }
func linV(v Var) Lin   { return Lin{t: []term{{v, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) addScaled(b Lin, s int64) Lin {
	out := Lin{k: a.k + s*b.k, t: make([]term, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].v < b.t[j].v):
			out.t = append(out.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].v < a.t[i].v:
			if c := s * b.t[j].c; c != 0 {
				out.t = append(out.t, term{b.t[j].v, c})
			}
			j++
		default:
			if c := a.t[i].c + s*b.t[j].c; c != 0 {
				out.t = append(out.t, term{a.t[i].v, c})
			}
			i++
			j++
		}
	}
	return out
}

func (a Lin) add(b Lin) Lin { return a.addScaled(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.addScaled(b, -1) }
func (a Lin) addC(k int64) Lin {
	return Lin{t: a.t, k: a.k + k}
}
func (a Lin) scale(s int64) Lin {
	if s == 0 {
		return Lin{}
	}
	out := Lin{k: a.k * s, t: make([]term, len(a.t))}
	for i, t := range a.t {
		out.t[i] = term{t.v, t.c * s}
	}
	return out
}
func (a Lin) neg() Lin { return a.scale(-1) }
func (a Lin) coef(v Var) int64 {
	for _, t := range a.t {
		if t.v == v {
			return t.c
		}
	}
	return 0
}
func (a Lin) eq(b Lin) bool {
	if a.k != b.k || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (a Lin) gcdCoefs() int64 {
	g := int64(0)
	for _, t := range a.t {
		g = gcd(g, t.c)
	}
	return g
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normGE normalises a>=0 over the integers.
func (a Lin) normGE() Lin {
	g := a.gcdCoefs()
	if g <= 1 {
		return a
	}
	out := Lin{k: floorDiv(a.k, g), t: make([]term, len(a.t))}
	for i, t := range a.t {
		out.t[i] = term{t.v, t.c / g}
	}
	return out
}

// normEQ normalises a==0; ok=false when it has no integer solution.
func (a Lin) normEQ() (Lin, bool) {
	g := a.gcdCoefs()
	if g == 0 {
		return a, a.k == 0
	}
	if a.k%g != 0 {
		return a, false
	}
	if a.t[0].c < 0 {
		g = -g
	}
	if g == 1 {
		return a, true
	}
	out := Lin{k: a.k / g, t: make([]term, len(a.t))}
	for i, t := range a.t {
		out.t[i] = term{t.v, t.c / g}
	}
	return out, true
}

func (a Lin) String() string { return a.str(func(v Var) string { return fmt.Sprintf("v%d", v) }) }
func (a Lin) str(name func(Var) string) string {
	var sb strings.Builder
	for _, t := range a.t {
		if t.c >= 0 {
			sb.WriteByte('+')
		}
		if t.c == -1 {
			sb.WriteByte('-')
		} else if t.c != 1 {
			fmt.Fprintf(&sb, "%d*", t.c)
		}
		sb.WriteString(name(t.v))
	}
	if a.k != 0 || len(a.t) == 0 {
		fmt.Fprintf(&sb, "%+d", a.k)
	}
	return sb.String()
}

// rename maps variables.
func (a Lin) rename(m func(Var) Var) Lin {
	out := Lin{k: a.k}
	for _, t := range a.t {
		out = out.add(Lin{t: []term{{m(t.v), t.c}}})
	}
	return out
}

// substEq eliminates v from a using e==0 (coefficient of v in e non-zero). The result is a
// positive multiple of a modulo e.
func (a Lin) substEq(v Var, e Lin) Lin {
	c := a.coef(v)
	if c == 0 {
		return a
	}
	ec := e.coef(v)
	if ec == 1 {
		return a.addScaled(e, -c)
	}
	if ec == -1 {
		return a.addScaled(e, c)
	}
	s := int64(1)
	if ec < 0 {
		s = -1
	}
	return a.scale(ec*s).addScaled(e, -c*s)
}

// Cons is a conjunction; eqs is kept in solved form: eqs[i] has pivot piv[i], which occurs in
// no other equation and in no inequality.
type Cons struct {
	eqs []Lin
	piv []Var
	ges []Lin
	bad bool
}

func (c *Cons) clone() *Cons {
	return &Cons{eqs: append([]Lin{}, c.eqs...), piv: append([]Var{}, c.piv...), ges: append([]Lin{}, c.ges...), bad: c.bad}
}

func (c *Cons) reduce(a Lin) Lin {
	for i, p := range c.piv {
		if a.coef(p) != 0 {
			a = a.substEq(p, c.eqs[i])
		}
	}
	return a
}

func (c *Cons) addEq(a Lin) {
	if c.bad {
		return
	}
	a = c.reduce(a)
	a, ok := a.normEQ()
	if !ok {
		c.bad = true
		return
	}
	if a.isConst() {
		if a.k != 0 {
			c.bad = true
		}
		return
	}
	// pivot: prefer a unit coefficient, newest variable
	best := -1
	for i, t := range a.t {
		if t.c == 1 || t.c == -1 {
			best = i
		}
	}
	if best < 0 {
		best = len(a.t) - 1
	}
	v := a.t[best].v
	for i := range c.eqs {
		if c.eqs[i].coef(v) != 0 {
			c.eqs[i], _ = c.eqs[i].substEq(v, a).normEQ()
		}
	}
	c.eqs = append(c.eqs, a)
	c.piv = append(c.piv, v)
	old := c.ges
	c.ges = nil
	for _, g := range old {
		c.addGE(g)
	}
}

func (c *Cons) addGE(a Lin) {
	if c.bad {
		return
	}
	a = c.reduce(a).normGE()
	if a.isConst() {
		if a.k < 0 {
			c.bad = true
		}
		return
	}
	for i, g := range c.ges {
		if sameTerms(g, a) {
			if a.k < g.k {
				ng := append([]Lin{}, c.ges...)
				ng[i] = a
				c.ges = ng
			}
			return
		}
	}
	// opposite inequality: maybe an equality
	for _, g := range c.ges {
		if oppTerms(g, a) {
			if g.k+a.k < 0 {
				c.bad = true
				return
			}
			if g.k+a.k == 0 {
				c.addEq(a)
				return
			}
		}
	}
	c.ges = append(append([]Lin{}, c.ges...), a)
}

func sameTerms(a, b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}
func oppTerms(a, b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].v != b.t[i].v || a.t[i].c != -b.t[i].c {
			return false
		}
	}
	return true
}

type fmRow struct {
	l    Lin
	hist []bool
	n    int
}

// infeasible decides by Fourier-Motzkin whether rows (all >=0) have no rational solution
// (with integer tightening).
func infeasible(rows []Lin) bool {
	n := len(rows)
	cur := make([]fmRow, 0, n)
	for i, r := range rows {
		r = r.normGE()
		if r.isConst() {
			if r.k < 0 {
				return true
			}
			continue
		}
		h := make([]bool, n)
		h[i] = true
		cur = append(cur, fmRow{r, h, 1})
	}
	elim := 0
	for len(cur) > 0 {
		// choose variable minimising products
		pos, negc := map[Var]int{}, map[Var]int{}
		for _, r := range cur {
			for _, t := range r.l.t {
				if t.c > 0 {
					pos[t.v]++
				} else {
					negc[t.v]++
				}
			}
		}
		var bv Var
		best := 1 << 30
		for v := range pos {
			p := pos[v]*negc[v] - pos[v] - negc[v]
			if p < best || (p == best && v < bv) {
				best, bv = p, v
			}
		}
		for v := range negc {
			p := pos[v]*negc[v] - pos[v] - negc[v]
			if p < best || (p == best && v < bv) {
				best, bv = p, v
			}
		}
		elim++
		var ps, ns, next []fmRow
		for _, r := range cur {
			switch c := r.l.coef(bv); {
			case c > 0:
				ps = append(ps, r)
			case c < 0:
				ns = append(ns, r)
			default:
				next = append(next, r)
			}
		}
		seen := map[string]int{}
		for i, r := range next {
			seen[termKey(r.l)] = i
		}
		for _, p := range ps {
			for _, q := range ns {
				h := make([]bool, n)
				cnt := 0
				for i := range h {
					h[i] = p.hist[i] || q.hist[i]
					if h[i] {
						cnt++
					}
				}
				if cnt > elim+1 {
					continue // Imbert: redundant
				}
				l := p.l.scale(-q.l.coef(bv)).addScaled(q.l, p.l.coef(bv)).normGE()
				if l.isConst() {
					if l.k < 0 {
						return true
					}
					continue
				}
				k := termKey(l)
				if j, ok := seen[k]; ok {
					if l.k < next[j].l.k {
						next[j] = fmRow{l, h, cnt}
					}
					continue
				}
				seen[k] = len(next)
				next = append(next, fmRow{l, h, cnt})
			}
		}
		if len(next) > 400 {
			return false // give up: sound (not proven)
		}
		cur = next
	}
	return false
}

func termKey(l Lin) string {
	var sb strings.Builder
	for _, t := range l.t {
		fmt.Fprintf(&sb, "%d:%d,", t.v, t.c)
	}
	return sb.String()
}

// relevant selects the inequalities connected with the variables of goal.
func relevant(ges []Lin, goal Lin) []Lin {
	vars := map[Var]bool{}
	for _, t := range goal.t {
		vars[t.v] = true
	}
	used := make([]bool, len(ges))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, g := range ges {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range g.t {
				if vars[t.v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, g)
				for _, t := range g.t {
					vars[t.v] = true
				}
			}
		}
	}
	return out
}

// entailsGE: does the conjunction imply a>=0 ?
func (c *Cons) entailsGE(a Lin) bool {
	if c.bad {
		return true
	}
	a = c.reduce(a)
	a = a.normGE()
	if a.isConst() {
		return a.k >= 0
	}
	for _, g := range c.ges {
		if sameTerms(g, a) && g.k <= a.k {
			return true
		}
	}
	rows := append(relevant(c.ges, a), a.neg().addC(-1))
	return infeasible(rows)
}

func (c *Cons) entailsEQ(a Lin) bool {
	if c.bad {
		return true
	}
	r := c.reduce(a)
	if r.isConst() {
		return r.k == 0
	}
	return c.entailsGE(r) && c.entailsGE(r.neg())
}

func (c *Cons) feasible() bool {
	if c.bad {
		return false
	}
	return !infeasible(c.ges)
}

// project keeps only the variables for which keep is true.
func (c *Cons) project(keep func(Var) bool) *Cons {
	if c.bad {
		return c
	}
	eqs := append([]Lin{}, c.eqs...)
	ges := append([]Lin{}, c.ges...)
	// eliminate with equalities first
	for {
		hit := -1
		var hv Var
		for i, e := range eqs {
			for _, t := range e.t {
				if !keep(t.v) && (hit < 0 || (t.c == 1 || t.c == -1)) {
					hit, hv = i, t.v
					if t.c == 1 || t.c == -1 {
						break
					}
				}
			}
			if hit >= 0 {
				break
			}
		}
		if hit < 0 {
			break
		}
		e := eqs[hit]
		var ne []Lin
		for i, x := range eqs {
			if i == hit {
				continue
			}
			y, _ := x.substEq(hv, e).normEQ()
			if !y.isConst() {
				ne = append(ne, y)
			}
		}
		eqs = ne
		for i := range ges {
			ges[i] = ges[i].substEq(hv, e).normGE()
		}
	}
	// then Fourier-Motzkin on the inequalities
	for {
		cnt := map[Var][2]int{}
		for _, g := range ges {
			for _, t := range g.t {
				if !keep(t.v) {
					x := cnt[t.v]
					if t.c > 0 {
						x[0]++
					} else {
						x[1]++
					}
					cnt[t.v] = x
				}
			}
		}
		if len(cnt) == 0 {
			break
		}
		var bv Var
		best := 1 << 30
		for v, x := range cnt {
			p := x[0]*x[1] - x[0] - x[1]
			if p < best || (p == best && v < bv) {
				best, bv = p, v
			}
		}
		var ps, ns, next []Lin
		for _, g := range ges {
			switch co := g.coef(bv); {
			case co > 0:
				ps = append(ps, g)
			case co < 0:
				ns = append(ns, g)
			default:
				next = append(next, g)
			}
		}
		if len(ps)*len(ns) < 200 {
			for _, p := range ps {
				for _, q := range ns {
					l := p.scale(-q.coef(bv)).addScaled(q, p.coef(bv)).normGE()
					if !l.isConst() {
						next = append(next, l)
					}
				}
			}
			next = pruneGE(next)
		}
		ges = next
	}
	out := &Cons{}
	for _, e := range eqs {
		out.addEq(e)
	}
	for _, g := range ges {
		out.addGE(g)
	}
	return out
}

// pruneGE drops duplicates and inequalities entailed by the others when there are many.
func pruneGE(in []Lin) []Lin {
	m := map[string]int{}
	var out []Lin
	for _, l := range in {
		if l.isConst() {
			continue
		}
		k := termKey(l)
		if i, ok := m[k]; ok {
			if l.k < out[i].k {
				out[i] = l
			}
			continue
		}
		m[k] = len(out)
		out = append(out, l)
	}
	if len(out) > 6 {
		for i := 0; i < len(out); {
			rest := append(append([]Lin{}, out[:i]...), out[i+1:]...)
			rows := append(relevant(rest, out[i]), out[i].neg().addC(-1))
			if infeasible(rows) {
				out = rest
			} else {
				i++
			}
		}
	}
	return out
}

// minimise removes redundant inequalities and promotes implied equalities.
func (c *Cons) minimise() *Cons {
	if c.bad {
		return c
	}
	out := c.clone()
	for changed := true; changed && !out.bad; {
		changed = false
		for _, g := range out.ges {
			if out.entailsGE(g.neg()) {
				out.addEq(g)
				changed = true
				break
			}
		}
	}
	if out.bad {
		return out
	}
	ges := out.ges
	for i := 0; i < len(ges); {
		rest := append(append([]Lin{}, ges[:i]...), ges[i+1:]...)
		rows := append(relevant(rest, ges[i]), ges[i].neg().addC(-1))
		if infeasible(rows) {
			ges = rest
		} else {
			i++
		}
	}
	out.ges = ges
	return out
}

// entailsAll: does c imply every constraint of d?
func (c *Cons) entailsAll(d *Cons) bool {
	if c.bad {
		return true
	}
	if d.bad {
		return false
	}
	for _, e := range d.eqs {
		if !c.entailsEQ(e) {
			return false
		}
	}
	for _, g := range d.ges {
		if !c.entailsGE(g) {
			return false
		}
	}
	return true
}

// join: affine hull of the equalities, inequalities entailed by both. With widen, only
// inequalities already in a are candidates.
func joinCons(a, b *Cons, widen bool) *Cons {
	if a.bad {
		return b
	}
	if b.bad {
		return a
	}
	out := &Cons{}
	for _, e := range affineJoin(a.eqs, b.eqs) {
		out.addEq(e)
	}
	var cand []Lin
	addCand := func(c *Cons) {
		cand = append(cand, c.ges...)
		for _, e := range c.eqs {
			cand = append(cand, e, e.neg())
		}
	}
	addCand(a)
	if !widen {
		addCand(b)
	}
	for _, g := range cand {
		if a.entailsGE(g) && b.entailsGE(g) && !out.entailsGE(g) {
			out.addGE(g)
		}
	}
	return out
}

// affineJoin: the equalities implied by both systems = intersection of their row spaces.
func affineJoin(e1, e2 []Lin) []Lin {
	if len(e1) == 0 || len(e2) == 0 {
		return nil
	}
	idx := map[Var]int{}
	var vars []Var
	for _, s := range [][]Lin{e1, e2} {
		for _, l := range s {
			for _, t := range l.t {
				if _, ok := idx[t.v]; !ok {
					idx[t.v] = 0
					vars = append(vars, t.v)
				}
			}
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	for i, v := range vars {
		idx[v] = i
	}
	nv := len(vars) + 1
	row := func(l Lin) []*big.Rat {
		r := make([]*big.Rat, nv)
		for i := range r {
			r[i] = new(big.Rat)
		}
		for _, t := range l.t {
			r[idx[t.v]].SetInt64(t.c)
		}
		r[nv-1].SetInt64(l.k)
		return r
	}
	n1, n2 := len(e1), len(e2)
	// unknowns: x (n1), y (n2); equations: for each column c: sum x_i M1[i][c] - sum y_j M2[j][c] = 0
	m1, m2 := make([][]*big.Rat, n1), make([][]*big.Rat, n2)
	for i, l := range e1 {
		m1[i] = row(l)
	}
	for i, l := range e2 {
		m2[i] = row(l)
	}
	A := make([][]*big.Rat, nv)
	for c := 0; c < nv; c++ {
		A[c] = make([]*big.Rat, n1+n2)
		for i := 0; i < n1; i++ {
			A[c][i] = new(big.Rat).Set(m1[i][c])
		}
		for j := 0; j < n2; j++ {
			A[c][n1+j] = new(big.Rat).Neg(m2[j][c])
		}
	}
	ncol := n1 + n2
	pivRow := make([]int, ncol)
	for i := range pivRow {
		pivRow[i] = -1
	}
	r := 0
	for c := 0; c < ncol && r < nv; c++ {
		p := -1
		for i := r; i < nv; i++ {
			if A[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		A[r], A[p] = A[p], A[r]
		inv := new(big.Rat).Inv(A[r][c])
		for k := c; k < ncol; k++ {
			A[r][k].Mul(A[r][k], inv)
		}
		for i := 0; i < nv; i++ {
			if i != r && A[i][c].Sign() != 0 {
				f := new(big.Rat).Set(A[i][c])
				for k := c; k < ncol; k++ {
					A[i][k].Sub(A[i][k], new(big.Rat).Mul(f, A[r][k]))
				}
			}
		}
		pivRow[c] = r
		r++
	}
	var out []Lin
	for c := 0; c < ncol; c++ {
		if pivRow[c] >= 0 {
			continue
		}
		// free variable c = 1
		x := make([]*big.Rat, ncol)
		for i := range x {
			x[i] = new(big.Rat)
		}
		x[c].SetInt64(1)
		for p := 0; p < ncol; p++ {
			if pivRow[p] >= 0 {
				x[p].Neg(A[pivRow[p]][c])
			}
		}
		vec := make([]*big.Rat, nv)
		for k := range vec {
			vec[k] = new(big.Rat)
			for i := 0; i < n1; i++ {
				vec[k].Add(vec[k], new(big.Rat).Mul(x[i], m1[i][k]))
			}
		}
		// to integers
		den := big.NewInt(1)
		for _, q := range vec {
			g := new(big.Int).GCD(nil, nil, den, q.Denom())
			den.Mul(den, new(big.Int).Div(q.Denom(), g))
		}
		l := Lin{}
		okk := true
		get := func(q *big.Rat) int64 {
			z := new(big.Int).Div(new(big.Int).Mul(q.Num(), den), q.Denom())
			if !z.IsInt64() {
				okk = false
				return 0
			}
			return z.Int64()
		}
		for i, v := range vars {
			if k := get(vec[i]); k != 0 {
				l.t = append(l.t, term{v, k})
			}
		}
		l.k = get(vec[nv-1])
		if okk && len(l.t) > 0 {
			out = append(out, l)
		}
	}
	return out
}

func (c *Cons) str(name func(Var) string) string {
	var s []string
	for _, e := range c.eqs {
		s = append(s, e.str(name)+"=0")
	}
	for _, g := range c.ges {
		s = append(s, g.str(name)+">=0")
	}
	sort.Strings(s)
	if c.bad {
		s = append(s, "FALSE")
	}
	return strings.Join(s, " & ")
}

package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Numeric domain: linear combinations of hash-consed atoms. Values are mathematical integers; machine
// arithmetic is expressed with div/mod atoms (floor division and Euclidean remainder by a positive constant).

type Atom struct {
	id           int
	key          string
	op           string // sym | div | mod | fn
	name         string
	args         []Lin
	c            int64 // divisor of div/mod
	lo, hi       int64
	hasLo, hasHi bool
	ax           []Lin // facts (>= 0) that hold whenever the atom exists
}

type Term struct {
	a *Atom
	k int64
}

type Lin struct {
	c int64
	t []Term // sorted by atom id, no zero coefficients
}

var (
	atomTab  = map[string]*Atom{}
	atomList []*Atom
	symCount int
)

func K(c int64) Lin { return Lin{c: c} }

func atomLin(a *Atom) Lin { return Lin{t: []Term{{a, 1}}} }

func newAtom(key, op, name string) (*Atom, bool) {
	if a := atomTab[key]; a != nil {
		return a, false
	}
	a := &Atom{id: len(atomList), key: key, op: op, name: name}
	atomList = append(atomList, a)
	atomTab[key] = a
	return a, true
}

// sym returns the atom with this exact name, creating it with the given range.
func sym(name string, lo, hi *int64) *Atom {
	a, isNew := newAtom("s:"+name, "sym", name)
	if isNew {
		if lo != nil {
			a.lo, a.hasLo = *lo, true
		}
		if hi != nil {
			a.hi, a.hasHi = *hi, true
		}
	}
	return a
}

func p64(x int64) *int64 { return &x }

func freshName(hint string) string {
	symCount++
	return fmt.Sprintf("%s#%d", hint, symCount)
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	h, l := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if h != 0 || l > math.MaxInt64 {
		return 0, false
	}
	r := int64(l)
	if (a < 0) != (b < 0) {
		r = -r
	}
	return r, true
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func add64(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c <= 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func (l Lin) isConst() bool { return len(l.t) == 0 }

func (l Lin) key() string {
	b := make([]byte, 0, 8+12*len(l.t))
	for _, t := range l.t {
		b = strconv.AppendInt(b, t.k, 10)
		b = append(b, "*a"...)
		b = strconv.AppendInt(b, int64(t.a.id), 10)
		b = append(b, '+')
	}
	b = strconv.AppendInt(b, l.c, 10)
	return string(b)
}

func (l Lin) String() string {
	var b strings.Builder
	for i, t := range l.t {
		if i > 0 {
			b.WriteString(" + ")
		}
		if t.k != 1 {
			fmt.Fprintf(&b, "%d*", t.k)
		}
		b.WriteString(t.a.String())
	}
	if l.c != 0 || len(l.t) == 0 {
		if len(l.t) > 0 {
			b.WriteString(" + ")
		}
		fmt.Fprintf(&b, "%d", l.c)
	}
	return b.String()
}

func (a *Atom) String() string {
	switch a.op {
	case "sym":
		return a.name
	case "div":
		return fmt.Sprintf("(%s)/%d", a.args[0], a.c)
	case "mod":
		return fmt.Sprintf("(%s)%%%d", a.args[0], a.c)
	}
	var s []string
	for _, x := range a.args {
		s = append(s, x.String())
	}
	return a.name + "(" + strings.Join(s, ",") + ")"
}

func eqLin(a, b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// addScaled returns x + k*y; ok is false on coefficient overflow.
func addScaled(x Lin, k int64, y Lin) (Lin, bool) {
	p, ok := mul64(k, y.c)
	if !ok {
		return Lin{}, false
	}
	c, ok := add64(x.c, p)
	if !ok {
		return Lin{}, false
	}
	r := Lin{c: c, t: make([]Term, 0, len(x.t)+len(y.t))}
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j >= len(y.t) || (i < len(x.t) && x.t[i].a.id < y.t[j].a.id):
			r.t = append(r.t, x.t[i])
			i++
		case i >= len(x.t) || y.t[j].a.id < x.t[i].a.id:
			p, ok := mul64(k, y.t[j].k)
			if !ok {
				return Lin{}, false
			}
			if p != 0 {
				r.t = append(r.t, Term{y.t[j].a, p})
			}
			j++
		default:
			p, ok := mul64(k, y.t[j].k)
			if !ok {
				return Lin{}, false
			}
			s, ok := add64(x.t[i].k, p)
			if !ok {
				return Lin{}, false
			}
			if s != 0 {
				r.t = append(r.t, Term{x.t[i].a, s})
			}
			i++
			j++
		}
	}
	return r, true
}

// fnAtom is an uninterpreted function of its arguments.
func fnAtom(name string, lo, hi *int64, args ...Lin) Lin {
	key := "f:" + name
	for _, a := range args {
		key += "|" + a.key()
	}
	a, isNew := newAtom(key, "fn", name)
	if isNew {
		a.args = args
		if lo != nil {
			a.lo, a.hasLo = *lo, true
		}
		if hi != nil {
			a.hi, a.hasHi = *hi, true
		}
	}
	return atomLin(a)
}

func opaque(name string, args ...Lin) Lin { return fnAtom(name, nil, nil, args...) }

func add(x, y Lin) Lin {
	r, ok := addScaled(x, 1, y)
	if !ok {
		return opaque("ovfadd", x, y)
	}
	return r
}

func sub(x, y Lin) Lin {
	r, ok := addScaled(x, -1, y)
	if !ok {
		return opaque("ovfsub", x, y)
	}
	return r
}

func addc(x Lin, c int64) Lin { return add(x, K(c)) }

func scale(x Lin, k int64) Lin {
	r, ok := addScaled(K(0), k, x)
	if !ok {
		return opaque("ovfmul", x, K(k))
	}
	return r
}

func neg(x Lin) Lin { return scale(x, -1) }

// rng is the interval of a Lin from intrinsic atom ranges only.
func rng(l Lin) (lo, hi int64, hasLo, hasHi bool) {
	lo, hi, hasLo, hasHi = l.c, l.c, true, true
	for _, t := range l.t {
		var tl, th int64
		var okl, okh bool
		a := t.a
		if t.k > 0 {
			if a.hasLo {
				tl, okl = mul64(a.lo, t.k)
			}
			if a.hasHi {
				th, okh = mul64(a.hi, t.k)
			}
		} else {
			if a.hasHi {
				tl, okl = mul64(a.hi, t.k)
			}
			if a.hasLo {
				th, okh = mul64(a.lo, t.k)
			}
		}
		if hasLo {
			if okl {
				lo, hasLo = add64(lo, tl)
			} else {
				hasLo = false
			}
		}
		if hasHi {
			if okh {
				hi, hasHi = add64(hi, th)
			} else {
				hasHi = false
			}
		}
	}
	return
}

func inRange(l Lin, min, max int64) bool {
	lo, hi, a, b := rng(l)
	return a && b && lo >= min && hi <= max
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func floorMod(a, b int64) int64 { return a - b*floorDiv(a, b) }

// splitMul splits l = c*A + B, moving every term with a coefficient divisible by c to A.
func splitMul(l Lin, c int64) (A, B Lin) {
	A.c = floorDiv(l.c, c)
	B.c = floorMod(l.c, c)
	for _, t := range l.t {
		q := floorDiv(t.k, c)
		r := floorMod(t.k, c)
		if r*2 > c && r != 0 && t.a.hasLo && t.a.lo >= 0 && q < 0 {
			// keep negative coefficients whole rather than splitting -1 into c-1 and -1
			q, r = q+1, r-c
		}
		if q != 0 {
			A.t = append(A.t, Term{t.a, q})
		}
		if r != 0 {
			B.t = append(B.t, Term{t.a, r})
		}
	}
	return
}

func mkDiv(l Lin, c int64) Lin {
	if c == 1 {
		return l
	}
	if l.isConst() {
		return K(floorDiv(l.c, c))
	}
	A, B := splitMul(l, c)
	if lo, hi, ok1, ok2 := rng(B); ok1 && ok2 && floorDiv(lo, c) == floorDiv(hi, c) {
		return addc(A, floorDiv(lo, c))
	}
	// div(mod(x,m),c), c | m  ==> mod(div(x,c), m/c)
	if len(B.t) == 1 && B.t[0].k == 1 && B.c == 0 && B.t[0].a.op == "mod" && B.t[0].a.c%c == 0 {
		return add(A, mkMod(mkDiv(B.t[0].a.args[0], c), B.t[0].a.c/c))
	}
	// div(div(x,d),c) ==> div(x,c*d)
	if len(B.t) == 1 && B.t[0].k == 1 && B.c == 0 && B.t[0].a.op == "div" {
		if m, ok := mul64(c, B.t[0].a.c); ok {
			return add(A, mkDiv(B.t[0].a.args[0], m))
		}
	}
	a, isNew := newAtom(fmt.Sprintf("div:%d|%s", c, B.key()), "div", "")
	if isNew {
		a.args, a.c = []Lin{B}, c
		lo, hi, ok1, ok2 := rng(B)
		if ok1 {
			a.lo, a.hasLo = floorDiv(lo, c), true
		}
		if ok2 {
			a.hi, a.hasHi = floorDiv(hi, c), true
		}
		if f, ok := addScaled(B, -c, atomLin(a)); ok {
			a.ax = append(a.ax, f) // B - c*a >= 0
			if g, ok := addScaled(K(c-1), -1, f); ok {
				a.ax = append(a.ax, g) // c-1 - (B - c*a) >= 0
			}
		}
	}
	return add(A, atomLin(a))
}

func mkMod(l Lin, c int64) Lin {
	if c == 1 {
		return K(0)
	}
	if l.isConst() {
		return K(floorMod(l.c, c))
	}
	if inRange(l, 0, c-1) {
		return l
	}
	_, B := splitMul(l, c)
	if B.isConst() {
		return K(floorMod(B.c, c))
	}
	if lo, hi, ok1, ok2 := rng(B); ok1 && ok2 && floorDiv(lo, c) == floorDiv(hi, c) {
		return addc(B, -c*floorDiv(lo, c))
	}
	// strip inner mod with a multiple modulus: mod(k*mod(x,m)+y, c) with c | k*m
	changed := false
	r := K(B.c)
	for _, t := range B.t {
		if t.a.op == "mod" {
			if m, ok := mul64(t.k, t.a.c); ok && m%c == 0 {
				r = add(r, scale(t.a.args[0], t.k))
				changed = true
				continue
			}
		}
		r = add(r, Lin{t: []Term{t}})
	}
	if changed {
		return mkMod(r, c)
	}
	a, isNew := newAtom(fmt.Sprintf("mod:%d|%s", c, B.key()), "mod", "")
	if isNew {
		a.args, a.c = []Lin{B}, c
		a.lo, a.hasLo = 0, true
		a.hi, a.hasHi = c-1, true
		lo, hi, ok1, ok2 := rng(B)
		if ok1 && lo >= 0 && ok2 && hi < a.hi {
			a.hi = hi
		}
		// B - c*div(B,c) == a
		q := mkDiv(B, c)
		if e, ok := addScaled(sub(B, atomLin(a)), -c, q); ok {
			a.ax = append(a.ax, e, neg(e))
		}
	}
	return atomLin(a)
}

// subst replaces atoms by linear terms, rebuilding composite atoms.
func subst(l Lin, m map[*Atom]Lin) Lin {
	if len(m) == 0 {
		return l
	}
	r := K(l.c)
	for _, t := range l.t {
		r = add(r, scale(substAtom(t.a, m), t.k))
	}
	return r
}

func substAtom(a *Atom, m map[*Atom]Lin) Lin {
	if x, ok := m[a]; ok {
		return x
	}
	if len(a.args) == 0 || !dependsOn(a, m) {
		return atomLin(a)
	}
	args := make([]Lin, len(a.args))
	for i, x := range a.args {
		args[i] = subst(x, m)
	}
	switch a.op {
	case "div":
		return mkDiv(args[0], a.c)
	case "mod":
		return mkMod(args[0], a.c)
	}
	var lo, hi *int64
	if a.hasLo {
		lo = p64(a.lo)
	}
	if a.hasHi {
		hi = p64(a.hi)
	}
	r := fnAtom(a.name, lo, hi, args...)
	ra := r.t[0].a
	if len(a.ax) > 0 && len(ra.ax) == 0 {
		mm := map[*Atom]Lin{}
		for k, v := range m {
			mm[k] = v
		}
		mm[a] = r
		for _, f := range a.ax {
			ra.ax = append(ra.ax, subst(f, mm))
		}
	}
	return r
}

func dependsOn(a *Atom, m map[*Atom]Lin) bool {
	if _, ok := m[a]; ok {
		return true
	}
	for _, l := range a.args {
		for _, t := range l.t {
			if dependsOn(t.a, m) {
				return true
			}
		}
	}
	return false
}

func linDepends(l Lin, m map[*Atom]Lin) bool {
	for _, t := range l.t {
		if dependsOn(t.a, m) {
			return true
		}
	}
	return false
}

// ---- entailment ----

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides by the gcd of the coefficients, rounding the constant towards the stronger side.
func tighten(l Lin) Lin {
	var g int64
	for _, t := range l.t {
		g = gcd(g, abs64(t.k))
		if g == 1 {
			return l
		}
	}
	if g <= 1 {
		return l
	}
	r := Lin{c: floorDiv(l.c, g), t: make([]Term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = Term{t.a, t.k / g}
	}
	return r
}

const fmMaxConstraints = 400

var statFM int

// unsat reports whether the conjunction cs (each >= 0) has no integer solution, as far as
// Fourier-Motzkin elimination with integer tightening can tell.
func unsat(cs []Lin) bool {
	statFM++
	idx := make(map[uint64]int, 2*len(cs))
	var work []Lin
	push := func(l Lin) bool {
		l = tighten(l)
		if l.isConst() {
			return l.c < 0
		}
		if len(l.t) > 1 {
			// implied by the ranges of its symbols
			if lo, _, ok, _ := rng(l); ok && lo >= 0 {
				return false
			}
		}
		h := l.lhash()
		if i, ok := idx[h]; ok {
			// keep only the strongest constant for identical linear parts
			if l.c < work[i].c {
				work[i] = l
			}
			return false
		}
		idx[h] = len(work)
		work = append(work, l)
		return false
	}
	for _, l := range cs {
		if push(l) {
			return true
		}
	}
	// equalities first: substituting an atom with a unit coefficient is exact, so that divisibility survives
	for round := 0; round < 64; round++ {
		var eq Lin
		var v *Atom
		var kv int64
		for _, l := range work {
			if len(l.t) < 2 {
				continue
			}
			j, ok := idx[neg(l).lhash()]
			if !ok || work[j].c != -l.c || !eqLin(work[j], neg(l)) {
				continue
			}
			for _, t := range l.t {
				if t.k != 1 && t.k != -1 || t.a.op != "mod" {
					continue
				}
				if v == nil || t.a.op == "mod" && v.op != "mod" || (t.a.op == "mod") == (v.op == "mod") && t.a.id > v.id {
					v, kv, eq = t.a, t.k, l
				}
			}
		}
		if v == nil {
			break
		}
		old := work
		clear(idx)
		work = work[:0:0]
		failed := false
		for _, l := range old {
			k := coef(l, v)
			if k != 0 {
				m, ok := addScaled(l, -k*kv, eq)
				if !ok {
					failed = true
					continue
				}
				l = m
			}
			if push(l) {
				return true
			}
		}
		if failed {
			break
		}
	}
	type cnt struct{ p, n int }
	for {
		count := make(map[*Atom]cnt, 32)
		for _, l := range work {
			for _, t := range l.t {
				c := count[t.a]
				if t.k > 0 {
					c.p++
				} else {
					c.n++
				}
				count[t.a] = c
			}
		}
		if len(count) == 0 {
			return false
		}
		var v *Atom
		bestCost := math.MaxInt
		for a, c := range count {
			cost := c.p*c.n - c.p - c.n
			if cost < bestCost || cost == bestCost && a.id < v.id {
				bestCost, v = cost, a
			}
		}
		if bestCost+len(work) > fmMaxConstraints {
			return false
		}
		var pos, ngs, rest []Lin
		for _, l := range work {
			k := coef(l, v)
			switch {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				ngs = append(ngs, l)
			default:
				rest = append(rest, l)
			}
		}
		clear(idx)
		work = work[:0:0]
		for _, l := range rest {
			if push(l) {
				return true
			}
		}
		for _, p := range pos {
			kp := coef(p, v)
			for _, n := range ngs {
				kn := -coef(n, v)
				g := gcd(kp, kn)
				s, ok := combine(kn/g, p, kp/g, n)
				if !ok {
					continue
				}
				if push(s) {
					return true
				}
			}
		}
		if len(work) > fmMaxConstraints {
			return false
		}
		if len(work) == 0 {
			return false
		}
	}
}

// lhash identifies the linear part of l.
func (l Lin) lhash() uint64 {
	h := uint64(14695981039346656037)
	for _, t := range l.t {
		h ^= uint64(t.a.id)
		h *= 1099511628211
		h ^= uint64(t.k) + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h *= 1099511628211
	}
	return h
}

func combine(kx int64, x Lin, ky int64, y Lin) (Lin, bool) {
	if kx == 1 {
		return addScaled(x, ky, y)
	}
	if ky == 1 {
		return addScaled(y, kx, x)
	}
	s, ok := addScaled(K(0), kx, x)
	if !ok {
		return s, false
	}
	return addScaled(s, ky, y)
}

func coef(l Lin, a *Atom) int64 {
	i := sort.Search(len(l.t), func(i int) bool { return l.t[i].a.id >= a.id })
	if i < len(l.t) && l.t[i].a == a {
		return l.t[i].k
	}
	return 0
}

// collect gathers the facts relevant to goal: those reachable through shared atoms, the atoms' axioms and ranges.
func collect(facts []Lin, goal Lin) []Lin {
	in := map[*Atom]bool{}
	var queue []*Atom
	addAtoms := func(l Lin) {
		for _, t := range l.t {
			if !in[t.a] {
				in[t.a] = true
				queue = append(queue, t.a)
			}
		}
	}
	var out []Lin
	used := make([]bool, len(facts))
	addAtoms(goal)
	for depth := 0; depth < 5 && len(queue) > 0 && len(out) < 120; depth++ {
		cur := queue
		queue = nil
		for _, a := range cur {
			if a.hasLo {
				out = append(out, addc(atomLin(a), -a.lo))
			}
			if a.hasHi {
				out = append(out, addc(neg(atomLin(a)), a.hi))
			}
			for _, x := range a.ax {
				out = append(out, x)
				addAtoms(x)
			}
		}
		for i, f := range facts {
			if used[i] {
				continue
			}
			for _, t := range f.t {
				if in[t.a] {
					used[i] = true
					out = append(out, f)
					addAtoms(f)
					break
				}
			}
		}
	}
	for _, a := range queue {
		if a.hasLo {
			out = append(out, addc(atomLin(a), -a.lo))
		}
		if a.hasHi {
			out = append(out, addc(neg(atomLin(a)), a.hi))
		}
	}
	return out
}

func resetAtoms() {
	atomTab, atomList, symCount = map[string]*Atom{}, nil, 0
}

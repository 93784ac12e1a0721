package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed terms. Machine integers are bit-vectors of their exact width,
// floats are reals with explicit rounding facts, opaque values are of sort Ref.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KRef
	KReal
)

type Sort struct {
	K Kind
	W int
}

var (
	SBool = Sort{KBool, 0}
	SRef  = Sort{KRef, 0}
	SSeq  = Sort{KRef, 1} // byte sequences
	SLst  = Sort{KRef, 2} // lists of structured values
	SReal = Sort{KReal, 0}
)

func BV(w int) Sort { return Sort{KBV, w} }

func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KRef:
		return [...]string{"Ref", "BSeq", "Lst"}[s.W]
	}
	return "Real"
}

func (s Sort) short() string {
	switch s.K {
	case KBool:
		return "b"
	case KBV:
		return "v" + strconv.Itoa(s.W)
	case KRef:
		return [...]string{"r", "q", "l"}[s.W]
	}
	return "f"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd // n-ary: args are monomials (OMulC or plain) and optional trailing const
	OMulC
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OShl // symbolic shift amounts
	OLshr
	OAshr
	OConcat // n-ary, MSB first
	OExtract
	OSext
	ORadd
	ORmul
	ORdiv
	ORle
	ORlt
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	val  uint64   // OConst bool/bv, OExtract lo, OMulC coefficient
	rat  *big.Rat // OConst real
	name string
	ub   uint64 // cached unsigned upper bound for BV
	ubok bool
}

type TermTable struct {
	m    map[string]*Term
	list []*Term
}

var tt = &TermTable{m: map[string]*Term{}}

var True, False *Term

func init() {
	True = mk(OConst, SBool, nil, 1, "")
	False = mk(OConst, SBool, nil, 0, "")
}

func mk(op Op, s Sort, args []*Term, val uint64, name string) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op))
	sb.WriteByte(byte(s.K))
	sb.WriteByte(byte(s.W))
	var tmp [10]byte
	b := strconv.AppendUint(tmp[:0], val, 36)
	sb.Write(b)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		b := strconv.AppendInt(tmp[:0], int64(a.id), 36)
		sb.Write(b)
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{id: len(tt.list), op: op, sort: s, args: args, val: val, name: name}
	tt.m[k] = t
	tt.list = append(tt.list, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func Const(w int, v uint64) *Term { return mk(OConst, BV(w), nil, v&mask(w), "") }
func I64(v int64) *Term           { return Const(64, uint64(v)) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Rat(r *big.Rat) *Term {
	t := mk(OConst, SReal, nil, 0, r.RatString())
	t.rat = r
	return t
}
func RatI(v int64) *Term { return Rat(new(big.Rat).SetInt64(v)) }

func Var(name string, s Sort) *Term { return mk(OVar, s, nil, 0, name) }

var freshN = map[string]int{}

func Fresh(name string, s Sort) *Term {
	freshN[name]++
	return Var(fmt.Sprintf("%s!%d", name, freshN[name]), s)
}

func App(name string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	sb.WriteByte(':')
	for _, a := range args {
		sb.WriteString(a.sort.short())
	}
	sb.WriteByte('>')
	sb.WriteString(s.short())
	return mk(OApp, s, append([]*Term(nil), args...), 0, sb.String())
}

// appBase returns the name given to App, without the signature suffix.
func (t *Term) appBase() string {
	if t.op != OApp {
		return ""
	}
	return t.name[:strings.LastIndexByte(t.name, ':')]
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }
func (t *Term) sval() int64 {
	w := t.sort.W
	v := t.val
	if w < 64 && v>>(uint(w)-1)&1 == 1 {
		v |= ^mask(w)
	}
	return int64(v)
}

// ---------- booleans

func Not(t *Term) *Term {
	switch t.op {
	case OConst:
		return BoolC(t.val == 0)
	case ONot:
		return t.args[0]
	}
	return mk(ONot, SBool, []*Term{t}, 0, "")
}

func andor(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		// not(or ..) inside and: distribute (De Morgan) so that conjuncts are visible
		if t.op == ONot && ((op == OAnd && t.args[0].op == OOr) || (op == OOr && t.args[0].op == OAnd)) {
			for _, a := range t.args[0].args {
				if !add(Not(a)) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	if op == OAnd {
		var cst map[*Term]uint64
		for _, t := range out {
			if t.op == OEq && t.args[0].sort.K == KBV {
				x, k := t.args[0], t.args[1]
				if x.isConst() {
					x, k = k, x
				}
				if !k.isConst() {
					continue
				}
				if cst == nil {
					cst = map[*Term]uint64{}
				}
				if v, ok := cst[x]; ok && v != k.val {
					return False
				}
				cst[x] = k.val
			}
		}
		if cst != nil {
			for i, t := range out {
				if t.op == ONot && t.args[0].op == OEq && t.args[0].args[0].sort.K == KBV {
					x, k := t.args[0].args[0], t.args[0].args[1]
					if x.isConst() {
						x, k = k, x
					}
					if v, ok := cst[x]; ok && k.isConst() && v != k.val {
						out[i] = True
					}
				} else if t.op == OUlt {
					a, b := t.args[0], t.args[1]
					va, oka := cst[a]
					if a.isConst() {
						va, oka = a.val, true
					}
					vb, okb := cst[b]
					if b.isConst() {
						vb, okb = b.val, true
					}
					if oka && okb {
						if va >= vb {
							return False
						}
						out[i] = True
					}
				}
			}
			n := out[:0]
			for _, t := range out {
				if t != True {
					n = append(n, t)
				}
			}
			out = n
		}
	}
	// unit propagation one level: and(a, or(not a, b)) -> and(a, b); or dual; and absorption
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	for i, t := range out {
		if t.op != dual {
			continue
		}
		var keep []*Term
		drop, hit := false, false
		for _, a := range t.args {
			if seen[a] {
				drop = true
				break
			}
			if seen[Not(a)] {
				hit = true
				continue
			}
			keep = append(keep, a)
		}
		if drop {
			out[i] = unit
			changed = true
		} else if hit {
			out[i] = andor(dual, keep)
			changed = true
		}
	}
	if changed {
		return andor(op, out)
	}
	// or(and(S,c), and(S,not c)) -> and(S)
	if op == OOr && len(out) == 2 {
		a, b := conjuncts(out[0]), conjuncts(out[1])
		sb := map[*Term]bool{}
		for _, t := range b {
			sb[t] = true
		}
		var common, ra []*Term
		for _, t := range a {
			if sb[t] {
				common = append(common, t)
				delete(sb, t)
			} else {
				ra = append(ra, t)
			}
		}
		if len(common) > 0 {
			var rb []*Term
			for _, t := range b {
				if sb[t] {
					rb = append(rb, t)
				}
			}
			return And(append(common, Or(And(ra...), And(rb...)))...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, SBool, out, 0, "")
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t.op == ONot && t.args[0].op == OOr {
		var r []*Term
		for _, a := range t.args[0].args {
			r = append(r, Not(a))
		}
		return r
	}
	return []*Term{t}
}

func And(ts ...*Term) *Term    { return andor(OAnd, ts) }
func Or(ts ...*Term) *Term     { return andor(OOr, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %v %v", a.sort, b.sort))
	}
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	a = underTerm(a, c, true)
	b = underTerm(b, c, false)
	if a == b {
		return a
	}
	if a.sort == SSeq {
		// a common beginning is moved out
		ps := func(t *Term) []*Term {
			if t.appBase() == "cat" {
				return t.args
			}
			return []*Term{t}
		}
		p, q := ps(a), ps(b)
		n := 0
		for n < len(p) && n < len(q) && p[n] == q[n] && !isVec(p[n]) {
			n++
		}
		if n > 0 {
			return SCat(append(append([]*Term(nil), p[:n]...), Ite(c, SCat(p[n:]...), SCat(q[n:]...)))...)
		}
	}
	if a.sort.K == KBV && a.sort.W == 64 {
		la, lb := linOf(a), linOf(b)
		common := lin{w: 64, m: map[*Term]uint64{}}
		any := false
		for t, ca := range la.m {
			if cb, ok := lb.m[t]; ok && cb == ca {
				common.m[t] = ca
				any = true
			}
		}
		if !any && lb.k != 0 && len(la.m) == 0 && len(lb.m) == 0 {
			// both constants: base + ite(c, diff, 0)
			return Add(b, mk(OIte, a.sort, []*Term{c, Const(64, la.k-lb.k), I64(0)}, 0, ""))
		}
		if any {
			common.k = lb.k
			base := common.term()
			return Add(base, Ite(c, Sub(a, base), Sub(b, base)))
		}
	}
	if a.op == OIte && a.args[2] == b { // ite(c, ite(d,x,b), b)
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if b.op == OIte && b.args[1] == a { // ite(c, a, ite(d,a,y))
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	return mk(OIte, a.sort, []*Term{c, a, b}, 0, "")
}

// underTerm simplifies a top-level ite whose condition is decided by c=v.
func underTerm(t, c *Term, v bool) *Term {
	for t.op == OIte {
		d := t.args[0]
		if d == c {
			if v {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
			continue
		}
		if v && c.op == OAnd {
			hit := 0
			for _, x := range c.args {
				if x == d {
					hit = 1
				}
				if x == Not(d) {
					hit = 2
				}
			}
			if hit == 1 {
				t = t.args[1]
				continue
			}
			if hit == 2 {
				t = t.args[2]
				continue
			}
		}
		if !v && c.op == OOr {
			hit := 0
			for _, x := range c.args {
				if x == d {
					hit = 2
				}
				if x == Not(d) {
					hit = 1
				}
			}
			if hit == 1 {
				t = t.args[1]
				continue
			}
			if hit == 2 {
				t = t.args[2]
				continue
			}
		}
		break
	}
	return t
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %v %v: %s / %s", a.sort, b.sort, a, b))
	}
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		if a.sort.K == KReal {
			return BoolC(a.rat.Cmp(b.rat) == 0)
		}
		return BoolC(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	switch a.sort.K {
	case KBool:
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		if a.op == ONot && b.op == ONot {
			return Eq(a.args[0], b.args[0])
		}
		if a.op == ONot {
			return Not(Eq(a.args[0], b))
		}
		if b.op == ONot {
			return Not(Eq(a, b.args[0]))
		}
	case KBV:
		if b.isConst() {
			if a.op == OIte {
				x, y := a.args[1], a.args[2]
				if x.isConst() || y.isConst() {
					return Or(And(a.args[0], Eq(x, b)), And(Not(a.args[0]), Eq(y, b)))
				}
			}
			if a.op == OConcat {
				var cs []*Term
				off := a.sort.W
				for _, s := range a.args {
					off -= s.sort.W
					cs = append(cs, Eq(s, Const(s.sort.W, b.val>>uint(off))))
				}
				return And(cs...)
			}
			if ub(a) < b.val {
				return False
			}
			if a.op == OSext {
				w := a.args[0].sort.W
				lo := Const(w, b.val)
				if SignExt(lo, a.sort.W) != b {
					return False
				}
				return Eq(a.args[0], lo)
			}
			if a.sort.W == 1 && b.val == 0 {
				return Not(Eq(a, Const(1, 1)))
			}
		}
		if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
			same := true
			for i := range a.args {
				if a.args[i].sort != b.args[i].sort {
					same = false
				}
			}
			if same {
				var cs []*Term
				for i := range a.args {
					cs = append(cs, Eq(a.args[i], b.args[i]))
				}
				return And(cs...)
			}
		}
		if a.op == OAdd || b.op == OAdd || a.op == OMulC || b.op == OMulC {
			if p, n, ok := splitLin(a, b); ok {
				// sums of naturals: compare the bounds
				lp, ln := linOf(p), linOf(n)
				if len(lp.m) == 0 && lp.k < ln.k || len(ln.m) == 0 && ln.k < lp.k || ub(p) < ln.k || ub(n) < lp.k {
					return False
				}
			}
			la, lb := linOf(a), linOf(b)
			// cancel
			for t, cb := range lb.m {
				if ca, ok := la.m[t]; ok {
					if ca == cb {
						delete(la.m, t)
						delete(lb.m, t)
					}
				}
			}
			if la.k != 0 && lb.k != 0 || (len(la.m) == 0 && la.k != 0) || (len(lb.m) > 0 && lb.k == 0 && la.k != 0 && len(la.m) > 0) {
				lb.k = (lb.k - la.k) & mask(a.sort.W)
				la.k = 0
			}
			if len(la.m) == 0 && len(lb.m) == 0 {
				return BoolC(la.k&mask(a.sort.W) == lb.k&mask(a.sort.W))
			}
			na, nb := la.term(), lb.term()
			if len(lb.m) == 0 && len(la.m) == 1 {
				if na.op != OMulC && na.op != OAdd {
					return Eq(na, nb)
				}
			}
			if len(la.m) == 0 && len(lb.m) == 1 {
				// k == x + k'
				v := (la.k - lb.k) & mask(a.sort.W)
				lb.k = 0
				nb = lb.term()
				if nb.op != OMulC && nb.op != OAdd {
					return Eq(nb, Const(a.sort.W, v))
				}
				na = Const(a.sort.W, v)
			}
			a, b = na, nb
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, []*Term{a, b}, 0, "")
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------- ranges

const lenMax = uint64(1) << 40

func ub(t *Term) uint64 {
	if t.ubok {
		return t.ub
	}
	r := ub1(t)
	if m := mask(t.sort.W); r > m {
		r = m
	}
	t.ub, t.ubok = r, true
	return r
}

func ub1(t *Term) uint64 {
	m := mask(t.sort.W)
	switch t.op {
	case OConst:
		return t.val
	case OApp:
		b := t.appBase()
		if b == "len" || b == "llen" {
			return lenMax
		}
	case OIte:
		a, b := ub(t.args[1]), ub(t.args[2])
		if a > b {
			return a
		}
		return b
	case OConcat:
		var r uint64
		off := t.sort.W
		for _, a := range t.args {
			off -= a.sort.W
			r |= ub(a) << uint(off)
		}
		// conservative: sum of segment bounds is exact because segments are disjoint
		return r
	case OAdd:
		var s uint64
		for _, a := range t.args {
			u := ub(a)
			if s+u < s || s+u > m {
				return m
			}
			s += u
		}
		return s
	case OMulC:
		hi, lo := bits.Mul64(t.val, ub(t.args[0]))
		if hi != 0 || lo > m {
			return m
		}
		return lo
	case OBand:
		a, b := ub(t.args[0]), ub(t.args[1])
		if a < b {
			return a
		}
		return b
	case OBor, OBxor:
		a := ub(t.args[0]) | ub(t.args[1])
		return (uint64(1) << uint(bits.Len64(a))) - 1
	case OUdiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			return ub(t.args[0]) / t.args[1].val
		}
		return ub(t.args[0])
	case OUrem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			a := ub(t.args[0])
			if a < t.args[1].val-1 {
				return a
			}
			return t.args[1].val - 1
		}
	case OLshr:
		return ub(t.args[0])
	}
	return m
}

func nonneg(t *Term) bool { return ub(t) <= mask(t.sort.W)>>1 }

// ---------- linear arithmetic normal form

type lin struct {
	w int
	m map[*Term]uint64
	k uint64
}

func linOf(t *Term) lin {
	l := lin{w: t.sort.W, m: map[*Term]uint64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, c uint64) {
	c &= mask(l.w)
	if c == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.k = (l.k + c*t.val) & mask(l.w)
		return
	case OAdd:
		for _, a := range t.args {
			l.add(a, c)
		}
		return
	case OMulC:
		l.add(t.args[0], c*t.val)
		return
	}
	n := (l.m[t] + c) & mask(l.w)
	if n == 0 {
		delete(l.m, t)
	} else {
		l.m[t] = n
	}
}

func (l lin) term() *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		c := l.m[t] & mask(l.w)
		if c == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk(OMulC, BV(l.w), []*Term{t}, c, ""))
		}
	}
	if l.k&mask(l.w) != 0 || len(args) == 0 {
		args = append(args, Const(l.w, l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(OAdd, BV(l.w), args, 0, "")
}

func Add(a, b *Term) *Term {
	chk2(a, b)
	if a.isConst() && b.isConst() {
		return Const(a.sort.W, a.val+b.val)
	}
	// disjoint bits: treat as or
	if a.sort.W != 64 || a.op == OConcat || b.op == OConcat {
		if r := disjointOr(a, b); r != nil && (a.op == OConcat && b.op == OConcat) {
			return r
		}
	}
	l := linOf(a)
	l.add(b, 1)
	return l.term()
}

func Sub(a, b *Term) *Term {
	chk2(a, b)
	l := linOf(a)
	l.add(b, ^uint64(0))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Const(a.sort.W, 0), a) }

func chk2(a, b *Term) {
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch %v %v", a.sort, b.sort))
	}
}

func Mul(a, b *Term) *Term {
	chk2(a, b)
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return Const(a.sort.W, a.val*b.val)
		}
		l := lin{w: a.sort.W, m: map[*Term]uint64{}}
		l.add(a, b.val)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.sort, []*Term{a, b}, 0, "")
}

func divConst(a *Term, c uint64) (q, r *Term, ok bool) {
	// a = sum coef_i * t_i + k without overflow, split off multiples of c
	w := a.sort.W
	l := linOf(a)
	var tot uint64
	lim := mask(w)
	for t, co := range l.m {
		hi, lo := bits.Mul64(co, ub(t))
		if hi != 0 || lo > lim || tot+lo < tot || tot+lo > lim {
			return nil, nil, false
		}
		tot += lo
	}
	if tot+l.k < tot || tot+l.k > lim {
		return nil, nil, false
	}
	ql := lin{w: w, m: map[*Term]uint64{}}
	var rem uint64
	for t, co := range l.m {
		if co%c != 0 {
			return nil, nil, false
		}
		ql.m[t] = co / c
		_ = rem
	}
	ql.k = l.k / c
	return ql.term(), Const(w, l.k%c), true
}

func Udiv(a, b *Term) *Term {
	chk2(a, b)
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return Const(a.sort.W, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if ub(a) < b.val {
			return Const(a.sort.W, 0)
		}
		if q, _, ok := divConst(a, b.val); ok {
			return q
		}
		// narrow
		if w := bits.Len64(ub(a)); w < a.sort.W && w > 0 && a.sort.W > 16 {
			nw := (w + 7) / 8 * 8
			if nw < a.sort.W && b.val <= mask(nw) {
				return ZeroExt(mk(OUdiv, BV(nw), []*Term{Extract(a, nw-1, 0), Const(nw, b.val)}, 0, ""), a.sort.W)
			}
		}
	}
	return mk(OUdiv, a.sort, []*Term{a, b}, 0, "")
}

func Urem(a, b *Term) *Term {
	chk2(a, b)
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return Const(a.sort.W, a.val%b.val)
		}
		if ub(a) < b.val {
			return a
		}
		if _, r, ok := divConst(a, b.val); ok {
			return r
		}
	}
	return mk(OUrem, a.sort, []*Term{a, b}, 0, "")
}

func Sdiv(a, b *Term) *Term {
	chk2(a, b)
	if a.isConst() && b.isConst() && b.val != 0 {
		return Const(a.sort.W, uint64(a.sval()/b.sval()))
	}
	if nonneg(a) && nonneg(b) {
		return Udiv(a, b)
	}
	return mk(OSdiv, a.sort, []*Term{a, b}, 0, "")
}
func Srem(a, b *Term) *Term {
	chk2(a, b)
	if a.isConst() && b.isConst() && b.val != 0 {
		return Const(a.sort.W, uint64(a.sval()%b.sval()))
	}
	if nonneg(a) && nonneg(b) {
		return Urem(a, b)
	}
	return mk(OSrem, a.sort, []*Term{a, b}, 0, "")
}

// ---------- comparisons

func Ult(a, b *Term) *Term {
	chk2(a, b)
	if a == b {
		return False
	}
	if a.isConst() && b.isConst() {
		return BoolC(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return False
		}
		if ub(a) < b.val {
			return True
		}
		if b.val == 1 {
			return Eq(a, Const(a.sort.W, 0))
		}
	}
	if a.isConst() && a.val == 0 {
		return Ne(b, a)
	}
	if a.isConst() && ub(b) <= a.val {
		return False
	}
	// both without overflow: cancel common parts
	if noovf(a) && noovf(b) {
		la, lb := linOf(a), linOf(b)
		ch := false
		for t, cb := range lb.m {
			if ca, ok := la.m[t]; ok {
				mn := ca
				if cb < mn {
					mn = cb
				}
				if ca == mn {
					delete(la.m, t)
				} else {
					la.m[t] = ca - mn
				}
				if cb == mn {
					delete(lb.m, t)
				} else {
					lb.m[t] = cb - mn
				}
				ch = true
			}
		}
		mn := la.k
		if lb.k < mn {
			mn = lb.k
		}
		if mn > 0 {
			la.k -= mn
			lb.k -= mn
			ch = true
		}
		if ch {
			return Ult(la.term(), lb.term())
		}
		// the constant goes to the left
		if lb.k > 0 && len(lb.m) > 0 && la.k == 0 && len(la.m) > 0 {
			lb.k--
			return Not(Ult(lb.term(), a))
		}
	}
	// strip common zero prefix
	if a.op == OConcat || b.op == OConcat {
		w := bits.Len64(ub(a) | ub(b))
		if w < a.sort.W && w > 0 {
			return Ult(Extract(a, w-1, 0), Extract(b, w-1, 0))
		}
	}
	if a.op == OIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
		return Ite(a.args[0], Ult(a.args[1], b), Ult(a.args[2], b))
	}
	if b.op == OIte && a.isConst() && b.args[1].isConst() && b.args[2].isConst() {
		return Ite(b.args[0], Ult(a, b.args[1]), Ult(a, b.args[2]))
	}
	return mk(OUlt, SBool, []*Term{a, b}, 0, "")
}

// noovf: the linear form has only non-negative small coefficients and its
// bound does not overflow, so it can be treated as a natural number.
func noovf(t *Term) bool {
	if t.op == OAdd {
		var s uint64
		for _, a := range t.args {
			u := ub(a)
			if a.op == OMulC {
				hi, lo := bits.Mul64(a.val, ub(a.args[0]))
				if hi != 0 {
					return false
				}
				u = lo
			}
			if s+u < s || s+u > mask(t.sort.W) {
				return false
			}
			s += u
		}
		return true
	}
	if t.op == OMulC {
		hi, lo := bits.Mul64(t.val, ub(t.args[0]))
		return hi == 0 && lo <= mask(t.sort.W)
	}
	return true
}

func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }

func Slt(a, b *Term) *Term {
	chk2(a, b)
	if a == b {
		return False
	}
	if a.isConst() && b.isConst() {
		return BoolC(a.sval() < b.sval())
	}
	if nonneg(a) && nonneg(b) {
		return Ult(a, b)
	}
	if nonneg(a) && b.isConst() && b.sval() < 0 {
		return False
	}
	if nonneg(b) && a.isConst() && a.sval() < 0 {
		return True
	}
	if p, n, ok := splitLin(a, b); ok {
		return Ult(p, n)
	}
	return mk(OSlt, SBool, []*Term{a, b}, 0, "")
}

// splitLin writes a < b, read as signed numbers, as p < n over natural numbers
// when no operation in a and b can overflow.
func splitLin(a, b *Term) (*Term, *Term, bool) {
	w := a.sort.W
	half := uint64(1) << uint(w-2)
	small := func(l lin) bool {
		var s uint64
		lim := func(c, u uint64) bool {
			if int64(c<<uint(64-w)) < 0 {
				c = -c & mask(w)
			}
			hi, lo := bits.Mul64(c, u)
			if hi != 0 || lo > half || s+lo > half {
				return false
			}
			s += lo
			return true
		}
		for t, c := range l.m {
			if !lim(c, ub(t)) {
				return false
			}
		}
		return lim(l.k, 1)
	}
	la, lb := linOf(a), linOf(b)
	if !small(la) || !small(lb) {
		return nil, nil, false
	}
	p, n := lin{w: w, m: map[*Term]uint64{}}, lin{w: w, m: map[*Term]uint64{}}
	put := func(t *Term, c uint64, pos, neg *lin) {
		if int64(c<<uint(64-w)) < 0 {
			pos, neg = neg, pos
			c = -c & mask(w)
		}
		if t == nil {
			pos.k += c
		} else {
			pos.m[t] += c
		}
	}
	for t, c := range la.m {
		put(t, c, &p, &n)
	}
	put(nil, la.k, &p, &n)
	for t, c := range lb.m {
		put(t, c, &n, &p)
	}
	put(nil, lb.k, &n, &p)
	x, y := p.term(), n.term()
	if !noovf(x) || !noovf(y) || !nonneg(x) || !nonneg(y) {
		return nil, nil, false
	}
	return x, y, true
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

// ---------- bits

type seg struct {
	t *Term // nil: zeros
	w int
}

// segments splits t into MSB-first segments, exposing zero runs.
func segments(t *Term) []seg {
	switch t.op {
	case OConst:
		// split into zero runs and the rest
		var out []seg
		i := t.sort.W
		for i > 0 {
			b := t.val >> uint(i-1) & 1
			j := i
			for j > 0 && t.val>>uint(j-1)&1 == b {
				j--
			}
			if b == 0 {
				out = append(out, seg{nil, i - j})
			} else {
				out = append(out, seg{Const(i-j, mask(i-j)), i - j})
			}
			i = j
		}
		return out
	case OConcat:
		var out []seg
		for _, a := range t.args {
			out = append(out, segments(a)...)
		}
		return out
	case OIte:
		// ite of values with zero high bits
		w := bits.Len64(ub(t))
		if w < t.sort.W {
			if w == 0 {
				return []seg{{nil, t.sort.W}}
			}
			return []seg{{nil, t.sort.W - w}, {Extract(t, w-1, 0), w}}
		}
	}
	if w := bits.Len64(ub(t)); w < t.sort.W && t.op != OExtract {
		if w == 0 {
			return []seg{{nil, t.sort.W}}
		}
		return []seg{{nil, t.sort.W - w}, {Extract(t, w-1, 0), w}}
	}
	return []seg{{t, t.sort.W}}
}

func disjointOr(a, b *Term) *Term {
	sa, sb := segments(a), segments(b)
	i, j := 0, 0
	var parts []*Term
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		w := x.w
		if y.w < w {
			w = y.w
		}
		hx, rx := splitSeg(x, w)
		hy, ry := splitSeg(y, w)
		switch {
		case hx.t == nil && hy.t == nil:
			parts = append(parts, Const(w, 0))
		case hx.t == nil:
			parts = append(parts, hy.t)
		case hy.t == nil:
			parts = append(parts, hx.t)
		default:
			return nil
		}
		if rx.w == 0 {
			i++
		} else {
			sa[i] = rx
		}
		if ry.w == 0 {
			j++
		} else {
			sb[j] = ry
		}
	}
	return Concat(parts...)
}

func splitSeg(s seg, w int) (seg, seg) {
	if w == s.w {
		return s, seg{}
	}
	if s.t == nil {
		return seg{nil, w}, seg{nil, s.w - w}
	}
	return seg{Extract(s.t, s.w-1, s.w-w), w}, seg{Extract(s.t, s.w-w-1, 0), s.w - w}
}

func Concat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OConcat {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	// merge neighbours
	res := out[:0:0]
	for _, p := range out {
		if n := len(res); n > 0 {
			q := res[n-1]
			if q.isConst() && p.isConst() {
				res[n-1] = Const(q.sort.W+p.sort.W, q.val<<uint(p.sort.W)|p.val)
				continue
			}
			qt, qlo := q, 0
			if q.op == OExtract {
				qt, qlo = q.args[0], int(q.val)
			}
			pt, plo, pw := p, 0, p.sort.W
			if p.op == OExtract {
				pt, plo = p.args[0], int(p.val)
			}
			if qt == pt && qlo == plo+pw && (q.op == OExtract) {
				res[n-1] = Extract(qt, qlo+q.sort.W-1, plo)
				continue
			}
		}
		res = append(res, p)
	}
	if len(res) == 1 {
		return res[0]
	}
	// concat of ites on one condition with constants elsewhere is left alone
	w := 0
	for _, p := range res {
		w += p.sort.W
	}
	return mk(OConcat, BV(w), res, 0, "")
}

func ZeroExt(t *Term, w int) *Term {
	if w == t.sort.W {
		return t
	}
	if t.isConst() {
		return Const(w, t.val)
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return Ite(t.args[0], ZeroExt(t.args[1], w), ZeroExt(t.args[2], w))
	}
	return Concat(Const(w-t.sort.W, 0), t)
}

func SignExt(t *Term, w int) *Term {
	if w == t.sort.W {
		return t
	}
	if t.isConst() {
		return Const(w, uint64(t.sval()))
	}
	if nonneg(t) {
		return ZeroExt(t, w)
	}
	return mk(OSext, BV(w), []*Term{t}, 0, "")
}

func Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= t.sort.W {
		panic(fmt.Sprintf("extract %d %d of %v", hi, lo, t.sort))
	}
	if w == t.sort.W {
		return t
	}
	switch t.op {
	case OConst:
		return Const(w, t.val>>uint(lo))
	case OExtract:
		return Extract(t.args[0], hi+int(t.val), lo+int(t.val))
	case OConcat:
		off := t.sort.W
		var parts []*Term
		for _, a := range t.args {
			off -= a.sort.W
			// a covers [off, off+w)
			h, l := hi, lo
			if h > off+a.sort.W-1 {
				h = off + a.sort.W - 1
			}
			if l < off {
				l = off
			}
			if h >= l {
				parts = append(parts, Extract(a, h-off, l-off))
			}
		}
		return Concat(parts...)
	case OIte:
		return Ite(t.args[0], Extract(t.args[1], hi, lo), Extract(t.args[2], hi, lo))
	case OBand, OBor, OBxor:
		a, b := Extract(t.args[0], hi, lo), Extract(t.args[1], hi, lo)
		switch t.op {
		case OBand:
			return Band(a, b)
		case OBor:
			return Bor(a, b)
		}
		return Bxor(a, b)
	case OAdd:
		if lo == 0 {
			l := lin{w: w, m: map[*Term]uint64{}}
			for _, a := range t.args {
				l.add(Extract(a, hi, 0), 1)
			}
			return l.term()
		}
	case OMulC:
		if lo == 0 {
			return Mul(Extract(t.args[0], hi, 0), Const(w, t.val))
		}
	case OSext:
		in := t.args[0]
		if hi < in.sort.W {
			return Extract(in, hi, lo)
		}
		if lo == 0 {
			return SignExt(in, w)
		}
	}
	if u := ub(t); lo >= bits.Len64(u) {
		return Const(w, 0)
	} else if n := bits.Len64(u); hi >= n && n > lo {
		return ZeroExt(mk(OExtract, BV(n-lo), []*Term{t}, uint64(lo), ""), w)
	}
	return mk(OExtract, BV(w), []*Term{t}, uint64(lo), "")
}

func Band(a, b *Term) *Term {
	chk2(a, b)
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return Const(a.sort.W, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.sort.W) {
			return a
		}
		// mask as segments
		var parts []*Term
		hi := a.sort.W
		for hi > 0 {
			bit := b.val >> uint(hi-1) & 1
			lo := hi
			for lo > 0 && b.val>>uint(lo-1)&1 == bit {
				lo--
			}
			if bit == 1 {
				parts = append(parts, Extract(a, hi-1, lo))
			} else {
				parts = append(parts, Const(hi-lo, 0))
			}
			hi = lo
		}
		return Concat(parts...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBand, a.sort, []*Term{a, b}, 0, "")
}

func Bor(a, b *Term) *Term {
	chk2(a, b)
	if a == b {
		return a
	}
	if a.isConst() && b.isConst() {
		return Const(a.sort.W, a.val|b.val)
	}
	if a.isConst() && a.val == 0 {
		return b
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if r := disjointOr(a, b); r != nil {
		return r
	}
	if r := segwise(a, b, bor0); r != nil {
		return r
	}
	return bor0(a, b)
}

func bor0(a, b *Term) *Term {
	if a == b {
		return a
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.val == 0 {
			return b
		}
		if a.val == mask(a.sort.W) {
			return a
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBor, a.sort, []*Term{a, b}, 0, "")
}

// segwise applies a bitwise operation segment by segment when either side is a concatenation.
func segwise(a, b *Term, f func(x, y *Term) *Term) *Term {
	if a.op != OConcat && b.op != OConcat && !(a.isConst() || b.isConst()) {
		return nil
	}
	sa, sb := segments(a), segments(b)
	if len(sa) == 1 && len(sb) == 1 {
		return nil
	}
	i, j := 0, 0
	var parts []*Term
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		w := x.w
		if y.w < w {
			w = y.w
		}
		hx, rx := splitSeg(x, w)
		hy, ry := splitSeg(y, w)
		if hx.t == nil {
			hx.t = Const(w, 0)
		}
		if hy.t == nil {
			hy.t = Const(w, 0)
		}
		parts = append(parts, f(hx.t, hy.t))
		if rx.w == 0 {
			i++
		} else {
			sa[i] = rx
		}
		if ry.w == 0 {
			j++
		} else {
			sb[j] = ry
		}
	}
	return Concat(parts...)
}

func Bxor(a, b *Term) *Term {
	chk2(a, b)
	if a == b {
		return Const(a.sort.W, 0)
	}
	if a.isConst() && b.isConst() {
		return Const(a.sort.W, a.val^b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if r := disjointOr(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBxor, a.sort, []*Term{a, b}, 0, "")
}

func Bnot(a *Term) *Term {
	if a.isConst() {
		return Const(a.sort.W, ^a.val)
	}
	return Bxor(a, Const(a.sort.W, mask(a.sort.W)))
}

// shifts: the amount has been brought to the width of a; Go semantics (>=w gives 0 / sign)
func Shl(a, n *Term) *Term {
	w := a.sort.W
	if n.isConst() {
		k := n.val
		if k >= uint64(w) {
			return Const(w, 0)
		}
		if k == 0 {
			return a
		}
		return Concat(Extract(a, w-1-int(k), 0), Const(int(k), 0))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return mk(OShl, a.sort, []*Term{a, n}, 0, "")
}
func Lshr(a, n *Term) *Term {
	w := a.sort.W
	if n.isConst() {
		k := n.val
		if k >= uint64(w) {
			return Const(w, 0)
		}
		if k == 0 {
			return a
		}
		return ZeroExt(Extract(a, w-1, int(k)), w)
	}
	return mk(OLshr, a.sort, []*Term{a, n}, 0, "")
}
func Ashr(a, n *Term) *Term {
	w := a.sort.W
	if n.isConst() {
		k := n.val
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if k == 0 {
			return a
		}
		return SignExt(Extract(a, w-1, int(k)), w)
	}
	return mk(OAshr, a.sort, []*Term{a, n}, 0, "")
}

// ---------- reals

func Radd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return Rat(new(big.Rat).Add(a.rat, b.rat))
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return b
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(ORadd, SReal, []*Term{a, b}, 0, "")
}
func Rneg(a *Term) *Term    { return Rmul(RatI(-1), a) }
func Rsub(a, b *Term) *Term { return Radd(a, Rneg(b)) }
func Rmul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if b.isConst() {
			return Rat(new(big.Rat).Mul(a.rat, b.rat))
		}
		if a.rat.Sign() == 0 {
			return a
		}
		if a.rat.Cmp(new(big.Rat).SetInt64(1)) == 0 {
			return b
		}
		if b.op == ORmul && b.args[0].isConst() {
			return Rmul(Rmul(a, b.args[0]), b.args[1])
		}
		return mk(ORmul, SReal, []*Term{a, b}, 0, "")
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(ORmul, SReal, []*Term{a, b}, 0, "")
}
func Rle(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		return BoolC(a.rat.Cmp(b.rat) <= 0)
	}
	return mk(ORle, SBool, []*Term{a, b}, 0, "")
}
func Rlt(a, b *Term) *Term { return Not(Rle(b, a)) }

// ---------- rebuilding under a substitution

type Subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func NewSubst(m map[*Term]*Term) *Subst { return &Subst{m: m, memo: map[*Term]*Term{}} }

func (s *Subst) T(t *Term) *Term {
	if t == nil || len(s.m) == 0 {
		return t
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = s.T(a)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	if q, ok := s.m[r]; ok {
		r = q
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return rebuildApp(t, a)
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		if a[0].sort == SSeq {
			return SEq(a[0], a[1])
		}
		return Eq(a[0], a[1])
	case OUlt:
		return Ult(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OAdd:
		l := lin{w: t.sort.W, m: map[*Term]uint64{}}
		for _, x := range a {
			l.add(x, 1)
		}
		return l.term()
	case OMulC:
		return Mul(a[0], Const(t.sort.W, t.val))
	case OMul:
		return Mul(a[0], a[1])
	case OUdiv:
		return Udiv(a[0], a[1])
	case OUrem:
		return Urem(a[0], a[1])
	case OSdiv:
		return Sdiv(a[0], a[1])
	case OSrem:
		return Srem(a[0], a[1])
	case OBand:
		return Band(a[0], a[1])
	case OBor:
		return Bor(a[0], a[1])
	case OBxor:
		return Bxor(a[0], a[1])
	case OShl:
		return Shl(a[0], a[1])
	case OLshr:
		return Lshr(a[0], a[1])
	case OAshr:
		return Ashr(a[0], a[1])
	case OConcat:
		return Concat(a...)
	case OExtract:
		return Extract(a[0], int(t.val)+t.sort.W-1, int(t.val))
	case OSext:
		return SignExt(a[0], t.sort.W)
	case ORadd:
		return Radd(a[0], a[1])
	case ORmul:
		return Rmul(a[0], a[1])
	case ORle:
		return Rle(a[0], a[1])
	}
	panic("rebuild")
}

// ---------- printing

func (t *Term) String() string {
	var sb strings.Builder
	t.pp(&sb, 0)
	return sb.String()
}

func (t *Term) pp(sb *strings.Builder, d int) {
	if sb.Len() > ppLen {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OConst:
		if t.sort.K == KBool {
			fmt.Fprintf(sb, "%v", t.val == 1)
		} else if t.sort.K == KReal {
			sb.WriteString(t.rat.RatString())
		} else if t.sort.W == 64 {
			fmt.Fprintf(sb, "%d", int64(t.val))
		} else {
			fmt.Fprintf(sb, "%d:%d", t.val, t.sort.W)
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if d > ppDepth {
		sb.WriteString("…")
		return
	}
	names := map[Op]string{ONot: "!", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "<u", OSlt: "<s", OAdd: "+", OMul: "*", OUdiv: "/u", OUrem: "%u", OSdiv: "/s", OSrem: "%s", OBand: "&", OBor: "|", OBxor: "^", OShl: "<<", OLshr: ">>u", OAshr: ">>s", OConcat: "++", OSext: "sext", ORadd: "+r", ORmul: "*r", ORle: "<=r"}
	sb.WriteByte('(')
	switch t.op {
	case OApp:
		sb.WriteString(t.appBase())
	case OMulC:
		fmt.Fprintf(sb, "*%d", int64(t.val))
	case OExtract:
		fmt.Fprintf(sb, "ex[%d:%d]", int(t.val)+t.sort.W-1, t.val)
	default:
		sb.WriteString(names[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.pp(sb, d+1)
	}
	sb.WriteByte(')')
}

// varsOf collects OVar and OApp leaves names of t (for cone of influence).
func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		collect(a, seen, f)
	}
}

var ppLen, ppDepth = 4000, 14

func init() {
	if os.Getenv("VLONG") != "" {
		ppLen, ppDepth = 1000000, 200
	}
}

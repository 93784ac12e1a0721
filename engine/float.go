package main

import "math/big"

// Floats are real numbers; every operation that may round is an application
// with a rounding fact (smt.go). Products and sums that are exact integers
// below 2^53 are folded to exact reals.

var two53 = new(big.Int).Lsh(big.NewInt(1), 53)

// exactInt reports a bound on |t| when t is certainly integer valued.
func exactInt(t *Term) (*big.Int, bool) {
	switch t.op {
	case OConst:
		if t.rat != nil && t.rat.IsInt() {
			return new(big.Int).Abs(t.rat.Num()), true
		}
	case OApp:
		switch t.appBase() {
		case "u2r":
			return new(big.Int).SetUint64(ub(t.args[0])), true
		case "s2r":
			return new(big.Int).Lsh(big.NewInt(1), uint(t.args[0].sort.W-1)), true
		}
	case ORmul:
		a, ok := exactInt(t.args[0])
		b, ok2 := exactInt(t.args[1])
		if ok && ok2 {
			return new(big.Int).Mul(a, b), true
		}
	case ORadd:
		a, ok := exactInt(t.args[0])
		b, ok2 := exactInt(t.args[1])
		if ok && ok2 {
			return new(big.Int).Add(a, b), true
		}
	}
	return nil, false
}

func exactFold(t *Term) bool {
	b, ok := exactInt(t)
	return ok && b.Cmp(two53) <= 0
}

func roundRat(r *big.Rat) *Term {
	f, _ := r.Float64()
	return Rat(new(big.Rat).SetFloat64(f))
}

func FMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return roundRat(new(big.Rat).Mul(a.rat, b.rat))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && (a.rat.Cmp(big.NewRat(1, 1)) == 0 || a.rat.Cmp(big.NewRat(-1, 1)) == 0) {
		return Rmul(a, b)
	}
	p := Rmul(a, b)
	if exactFold(p) {
		return p
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	return App("fmul", SReal, a, b)
}

func FAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return roundRat(new(big.Rat).Add(a.rat, b.rat))
	}
	s := Radd(a, b)
	if exactFold(s) {
		return s
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return b
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("fadd", SReal, a, b)
}

func FDiv(a, b *Term) *Term {
	if b.isConst() && b.rat.Sign() != 0 {
		if a.isConst() {
			return roundRat(new(big.Rat).Quo(a.rat, b.rat))
		}
		if b.rat.Cmp(big.NewRat(1, 1)) == 0 {
			return a
		}
		return App("fdivc", SReal, a, b)
	}
	return App("fdiv", SReal, a, b)
}

func U2R(a *Term) *Term {
	if a.isConst() {
		return Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(a.val)))
	}
	if a.op == OConcat && a.args[0].isConst() && a.args[0].val == 0 {
		return U2R(Extract(a, a.sort.W-a.args[0].sort.W-1, 0))
	}
	if a.op == OIte {
		return Ite(a.args[0], U2R(a.args[1]), U2R(a.args[2]))
	}
	return App("u2r", SReal, a)
}

func S2R(a *Term) *Term {
	if a.isConst() {
		return RatI(a.sval())
	}
	if nonneg(a) {
		return U2R(a)
	}
	return App("s2r", SReal, a)
}

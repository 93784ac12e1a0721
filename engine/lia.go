package main

import (
	"fmt"
	"math/big"
	"strings"
)

// A second rendering of a query: 64-bit machine integers become mathematical integers.
// Wrap-around is kept exactly where a linear form may leave the 64-bit range, and every
// operation without an integer reading becomes an uninterpreted function of its arguments,
// so the rendering has at least the models of the original: only "unsat" counts.

type liaPrinter struct {
	sb    strings.Builder
	decl  map[string]bool
	names map[*Term]string
	facts []string
	fresh int
}

var (
	two63 = new(big.Int).Lsh(big.NewInt(1), 63)
	two64 = new(big.Int).Lsh(big.NewInt(1), 64)
)

func is64(t *Term) bool { return t.sort.K == KBV && t.sort.W == 64 }

func intLit(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func sgn(v uint64) *big.Int { return big.NewInt(int64(v)) }

// rng is a signed range that holds for every value of t.
func (p *liaPrinter) rng(t *Term) (*big.Int, *big.Int) {
	if t.op == OApp && t.appBase() == "idx" {
		return big.NewInt(-1), big.NewInt(int64(lenMax))
	}
	if t.op == OConst {
		return sgn(t.val), sgn(t.val)
	}
	if t.op == OIte {
		a, b := p.rng(t.args[1])
		c, d := p.rng(t.args[2])
		if c.Cmp(a) < 0 {
			a = c
		}
		if d.Cmp(b) > 0 {
			b = d
		}
		return a, b
	}
	if t.op == OAdd || t.op == OMulC {
		lo, hi := p.linRange(linOf(t))
		if lo.Cmp(new(big.Int).Neg(two63)) >= 0 && hi.Cmp(two63) < 0 {
			return lo, hi
		}
	} else if u := ub(t); u < 1<<62 {
		return big.NewInt(0), big.NewInt(int64(u))
	}
	return new(big.Int).Neg(two63), new(big.Int).Sub(two63, big.NewInt(1))
}

func (p *liaPrinter) linRange(l lin) (*big.Int, *big.Int) {
	lo, hi := sgn(l.k), sgn(l.k)
	for t, c := range l.m {
		a, b := p.rng(t)
		x, y := new(big.Int).Mul(sgn(c), a), new(big.Int).Mul(sgn(c), b)
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo = new(big.Int).Add(lo, x)
		hi = new(big.Int).Add(hi, y)
	}
	return lo, hi
}

func (p *liaPrinter) sort(s Sort) string {
	if s.K == KBV && s.W == 64 {
		return "Int"
	}
	return s.String()
}

func (p *liaPrinter) apply(name string, res string, args []*Term) string {
	n := symName(name)
	var as, ss []string
	for _, a := range args {
		as = append(as, p.term(a))
		ss = append(ss, p.sort(a.sort))
	}
	if !p.decl[n] {
		p.decl[n] = true
		fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), res)
	}
	if len(as) == 0 {
		return n
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// uns is the unsigned reading of a 64-bit term.
func (p *liaPrinter) uns(t *Term) string {
	if t.op == OConst {
		return new(big.Int).SetUint64(t.val).String()
	}
	s := p.term(t)
	if lo, _ := p.rng(t); lo.Sign() >= 0 {
		return s
	}
	return "(ite (< " + s + " 0) (+ " + s + " " + two64.String() + ") " + s + ")"
}

func (p *liaPrinter) sum(l lin) string {
	var vs []*Term
	for t := range l.m {
		vs = append(vs, t)
	}
	sortTerms(vs)
	parts := []string{intLit(sgn(l.k))}
	for _, v := range vs {
		c := sgn(l.m[v])
		if c.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, p.term(v))
		} else {
			parts = append(parts, "(* "+intLit(c)+" "+p.term(v)+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (p *liaPrinter) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	def := func(s string) string {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), s)
		p.names[t] = n
		return n
	}
	switch t.op {
	case OConst:
		switch t.sort.K {
		case KBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case KReal:
			return ratLit(t.rat)
		}
		if is64(t) {
			return intLit(sgn(t.val))
		}
		return bvLit(t.sort.W, t.val)
	case OVar:
		n := symName(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, p.sort(t.sort))
			if is64(t) {
				p.bound(n, t)
			}
		}
		p.names[t] = n
		return n
	}
	if is64(t) {
		switch t.op {
		case OAdd, OMulC:
			l := linOf(t)
			lo, hi := p.linRange(l)
			s := p.sum(l)
			if lo.Cmp(new(big.Int).Neg(two63)) < 0 || hi.Cmp(two63) >= 0 {
				p.fresh++
				k := fmt.Sprintf("wrap%d", p.fresh)
				fmt.Fprintf(&p.sb, "(declare-const %s Int)\n", k)
				n := def("(- " + s + " (* " + two64.String() + " " + k + "))")
				p.facts = append(p.facts, "(<= "+intLit(new(big.Int).Neg(two63))+" "+n+")", "(< "+n+" "+two63.String()+")")
				return n
			}
			return def(s)
		case OIte:
			return def("(ite " + p.term(t.args[0]) + " " + p.term(t.args[1]) + " " + p.term(t.args[2]) + ")")
		case OUdiv, OUrem:
			if c := t.args[1]; c.isConst() && c.val > 0 && c.val < 1<<62 {
				o := "div"
				if t.op == OUrem {
					o = "mod"
				}
				return def("(" + o + " " + p.uns(t.args[0]) + " " + intLit(sgn(c.val)) + ")")
			}
		case OConcat:
			// zero high part
			if a := t.args[0]; a.isConst() && a.val == 0 {
				var low *Term
				if len(t.args) == 2 {
					low = t.args[1]
				} else {
					low = Concat(t.args[1], t.args[2])
					for _, b := range t.args[3:] {
						low = Concat(low, b)
					}
				}
				n := def(p.apply(fmt.Sprintf("u2i:%d", low.sort.W), "Int", []*Term{low}))
				p.bound(n, t)
				return n
			}
		case OSext:
			n := def(p.apply(fmt.Sprintf("s2i:%d", t.args[0].sort.W), "Int", t.args))
			w := new(big.Int).Lsh(big.NewInt(1), uint(t.args[0].sort.W-1))
			p.facts = append(p.facts, "(<= "+intLit(new(big.Int).Neg(w))+" "+n+")", "(< "+n+" "+w.String()+")")
			return n
		case OApp:
			n := def(p.apply(t.name, "Int", t.args))
			p.bound(n, t)
			return n
		}
		n := def(p.apply(fmt.Sprintf("op%d:%d", t.op, t.val), "Int", t.args))
		p.bound(n, t)
		return n
	}
	has64 := false
	for _, a := range t.args {
		has64 = has64 || is64(a)
	}
	if t.op == OApp {
		return def(p.apply(t.name, p.sort(t.sort), t.args))
	}
	if has64 {
		switch t.op {
		case OEq:
			return def("(= " + p.term(t.args[0]) + " " + p.term(t.args[1]) + ")")
		case OUlt:
			return def("(< " + p.uns(t.args[0]) + " " + p.uns(t.args[1]) + ")")
		case OSlt:
			return def("(< " + p.term(t.args[0]) + " " + p.term(t.args[1]) + ")")
		}
		return def(p.apply(fmt.Sprintf("op%d:%d:%s", t.op, t.val, t.sort), p.sort(t.sort), t.args))
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = p.term(a)
	}
	return def(opText(t, args))
}

func (p *liaPrinter) bound(n string, t *Term) {
	lo, hi := p.rng(t)
	p.facts = append(p.facts, "(<= "+intLit(lo)+" "+n+")", "(<= "+n+" "+intLit(hi)+")")
}

func liaScript(asserts []*Term) string {
	p := &liaPrinter{decl: map[string]bool{}, names: map[*Term]string{}}
	p.sb.WriteString("(set-logic ALL)\n(declare-sort Ref 0)\n(declare-sort BSeq 0)\n(declare-sort Lst 0)\n")
	var lines []string
	for _, a := range asserts {
		lines = append(lines, p.term(a))
	}
	for _, l := range append(lines, p.facts...) {
		p.sb.WriteString("(assert " + l + ")\n")
	}
	return p.sb.String()
}

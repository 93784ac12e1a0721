package main

import "strings"

// Byte sequences are terms of sort Seq. bvec, sub, cat, fill and upd are
// interpreted by the smart constructors below; everything else is opaque with
// its own len and at.

var SEmpty = App("bvec", SSeq)

const vecMax = 300

func SVec(bs ...*Term) *Term { return App("bvec", SSeq, bs...) }

func SConst(s string) *Term {
	bs := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		bs[i] = Const(8, uint64(s[i]))
	}
	return SVec(bs...)
}

func isVec(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "bvec:") }

// constant contents of t, if it is one
func seqConst(t *Term) (string, bool) {
	if !isVec(t) {
		return "", false
	}
	b := make([]byte, len(t.args))
	for i, a := range t.args {
		if !a.isConst() {
			return "", false
		}
		b[i] = byte(a.val)
	}
	return string(b), true
}

func SLen(t *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], SLen(t.args[1]), SLen(t.args[2]))
	}
	switch t.appBase() {
	case "bvec":
		return I64(int64(len(t.args)))
	case "sub":
		return t.args[2]
	case "fill":
		return t.args[1]
	case "upd":
		return SLen(t.args[0])
	case "cat":
		r := I64(0)
		for _, a := range t.args {
			r = Add(r, SLen(a))
		}
		return r
	}
	return App("len", BV(64), t)
}

func SAt(t, i *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], SAt(t.args[1], i), SAt(t.args[2], i))
	}
	switch t.appBase() {
	case "bvec":
		n := len(t.args)
		if i.isConst() {
			if i.val < uint64(n) {
				return t.args[i.val]
			}
			return Const(8, 0)
		}
		r := Const(8, 0)
		for k := n - 1; k >= 0; k-- {
			r = Ite(Eq(i, I64(int64(k))), t.args[k], r)
		}
		return r
	case "sub":
		return SAt(t.args[0], Add(t.args[1], i))
	case "fill":
		return t.args[0]
	case "upd":
		return Ite(Eq(i, t.args[1]), t.args[2], SAt(t.args[0], i))
	case "cat":
		off := I64(0)
		return catAt(t.args, i, off)
	}
	return App("at", BV(8), t, i)
}

func catAt(parts []*Term, i, off *Term) *Term {
	if len(parts) == 1 {
		return SAt(parts[0], Sub(i, off))
	}
	end := Add(off, SLen(parts[0]))
	c := Ult(i, end)
	if c == True {
		return SAt(parts[0], Sub(i, off))
	}
	rest := catAt(parts[1:], i, end)
	if c == False {
		return rest
	}
	return Ite(c, SAt(parts[0], Sub(i, off)), rest)
}

func SSub(t, lo, n *Term) *Term {
	if n.isConst() && n.val == 0 {
		return SEmpty
	}
	if lo.isConst() && lo.val == 0 && n == SLen(t) {
		return t
	}
	if t.op == OIte {
		return Ite(t.args[0], SSub(t.args[1], lo, n), SSub(t.args[2], lo, n))
	}
	if n.isConst() && n.val <= vecMax {
		bs := make([]*Term, n.val)
		for i := range bs {
			bs[i] = SAt(t, Add(lo, I64(int64(i))))
		}
		return SVec(bs...)
	}
	switch t.appBase() {
	case "sub":
		return SSub(t.args[0], Add(t.args[1], lo), n)
	case "fill":
		return SFill(t.args[0], n)
	case "cat":
		parts := t.args
		var out []*Term
		for len(parts) > 0 {
			l := SLen(parts[0])
			if len(out) == 0 {
				if Ule(l, lo) == True {
					lo = Sub(lo, l)
					parts = parts[1:]
					continue
				}
				if Ule(Add(lo, n), l) == True {
					return SSub(parts[0], lo, n)
				}
				if lo.isConst() && Ule(lo, l) == True && Ule(Sub(l, lo), n) == True {
					m := Sub(l, lo)
					out = append(out, SSub(parts[0], lo, m))
					n = Sub(n, m)
					lo = I64(0)
					parts = parts[1:]
					continue
				}
				break
			}
			if n.isConst() && n.val == 0 {
				return SCat(out...)
			}
			if len(out) > 0 {
				rest := I64(0)
				for _, p := range parts {
					rest = Add(rest, SLen(p))
				}
				if rest == n {
					return SCat(append(out, parts...)...)
				}
			}
			if Ule(l, n) == True {
				out = append(out, parts[0])
				n = Sub(n, l)
				parts = parts[1:]
				continue
			}
			if len(parts) == 1 || Ule(n, l) == True {
				out = append(out, SSub(parts[0], I64(0), n))
				return SCat(out...)
			}
			out = append(out, App("sub", SSeq, SCat(parts...), I64(0), n))
			return SCat(out...)
		}
		if len(parts) == 0 && len(out) > 0 {
			return SCat(out...)
		}
		if len(parts) == 0 {
			return SEmpty
		}
		r := SCat(parts...)
		if r.appBase() == "cat" || r.op == OIte {
			if lo.isConst() && lo.val == 0 && n == SLen(r) {
				return r
			}
			return App("sub", SSeq, r, lo, n)
		}
		return SSub(r, lo, n)
	}
	if isVec(t) && lo.isConst() && lo.val <= uint64(len(t.args)) && lo.val > 0 {
		return SSub(SVec(t.args[lo.val:]...), I64(0), n)
	}
	return App("sub", SSeq, t, lo, n)
}

func SCat(parts ...*Term) *Term {
	var flat []*Term
	for _, p := range parts {
		if p.appBase() == "cat" {
			flat = append(flat, p.args...)
		} else {
			flat = append(flat, p)
		}
	}
	var out []*Term
	for _, p := range flat {
		if p == SEmpty {
			continue
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if isVec(q) && isVec(p) {
				out[n-1] = SVec(append(append([]*Term(nil), q.args...), p.args...)...)
				continue
			}
			if p.appBase() == "sub" {
				if q.appBase() == "sub" && q.args[0] == p.args[0] && Add(q.args[1], q.args[2]) == p.args[1] {
					out[n-1] = SSub(q.args[0], q.args[1], Add(q.args[2], p.args[2]))
					continue
				}
				if isVec(q) {
					k := len(q.args)
					lo, m := p.args[1], p.args[2]
					for k > 0 && q.args[k-1] == SAt(p.args[0], Sub(lo, I64(1))) {
						k--
						lo = Sub(lo, I64(1))
						m = Add(m, I64(1))
					}
					if k < len(q.args) {
						np := SSub(p.args[0], lo, m)
						if k > 0 {
							out[n-1] = SVec(q.args[:k]...)
							out = append(out, np)
						} else {
							out[n-1] = np
						}
						continue
					}
				}
			}
			if isVec(p) && q.appBase() == "sub" {
				k := 0
				m := q.args[2]
				for k < len(p.args) && p.args[k] == SAt(q.args[0], Add(q.args[1], m)) {
					k++
					m = Add(m, I64(1))
				}
				if k > 0 {
					out[n-1] = SSub(q.args[0], q.args[1], m)
					if k < len(p.args) {
						out = append(out, SVec(p.args[k:]...))
					}
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return SEmpty
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("cat", SSeq, out...)
}

func SFill(b, n *Term) *Term {
	if n.isConst() && n.val <= 2048 {
		bs := make([]*Term, n.val)
		for i := range bs {
			bs[i] = b
		}
		return SVec(bs...)
	}
	return App("fill", SSeq, b, n)
}

func SUpd(t, i, b *Term) *Term {
	if isVec(t) && i.isConst() && i.val < uint64(len(t.args)) {
		bs := append([]*Term(nil), t.args...)
		bs[i.val] = b
		return SVec(bs...)
	}
	if t.appBase() == "cat" {
		l := SLen(t.args[0])
		if Ult(i, l) == True {
			return SCat(append([]*Term{SUpd(t.args[0], i, b)}, t.args[1:]...)...)
		}
		if Ule(l, i) == True {
			return SCat(t.args[0], SUpd(SCat(t.args[1:]...), Sub(i, l), b))
		}
	}
	return App("upd", SSeq, t, i, b)
}

// SEq is equality of byte sequences.
func SEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if isVec(b) && !isVec(a) {
		a, b = b, a
	}
	if b.op == OIte && isVec(a) {
		return Or(And(b.args[0], SEq(a, b.args[1])), And(Not(b.args[0]), SEq(a, b.args[2])))
	}
	if isVec(a) {
		n := len(a.args)
		cs := []*Term{Eq(SLen(b), I64(int64(n)))}
		if cs[0] == False {
			return False
		}
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], SAt(b, I64(int64(i)))))
		}
		return And(cs...)
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return And(Implies(a.args[0], SEq(a.args[1], b.args[1])), Implies(Not(a.args[0]), SEq(a.args[2], b.args[2])))
	}
	if a.op == OIte {
		return And(Implies(a.args[0], SEq(a.args[1], b)), Implies(Not(a.args[0]), SEq(a.args[2], b)))
	}
	if b.op == OIte {
		return SEq(b, a)
	}
	if a.appBase() == "cat" && b.appBase() == "cat" {
		x, y := a.args, b.args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		var cs []*Term
		for len(x) > 1 && len(y) > 1 && SLen(x[0]) == SLen(y[0]) {
			cs = append(cs, SEq(x[0], y[0]))
			x, y = x[1:], y[1:]
		}
		if len(x) < len(a.args) || len(y) < len(b.args) {
			cs = append(cs, SEq(SCat(x...), SCat(y...)))
			return And(cs...)
		}
	}
	return Eq(a, b)
}

// SIdx: index of the first byte b in t[off:off+n), or -1.
func SIdx(t, off, n, b *Term) *Term {
	for t.appBase() == "sub" {
		off = Add(off, t.args[1])
		t = t.args[0]
	}
	if n.isConst() && n.val == 0 {
		return I64(-1)
	}
	return App("idx", BV(64), t, off, n, b)
}

func LLen(t *Term) *Term {
	if t.op == OApp {
		if strings.HasPrefix(t.name, "lnil:") {
			return I64(0)
		}
		if strings.HasPrefix(t.name, "snoc:") {
			return Add(LLen(t.args[0]), I64(1))
		}
	}
	if t.op == OIte {
		return Ite(t.args[0], LLen(t.args[1]), LLen(t.args[2]))
	}
	return App("llen", BV(64), t)
}

func rebuildApp(t *Term, a []*Term) *Term {
	switch t.appBase() {
	case "bvec":
		return SVec(a...)
	case "len":
		return SLen(a[0])
	case "at":
		return SAt(a[0], a[1])
	case "sub":
		return SSub(a[0], a[1], a[2])
	case "cat":
		return SCat(a...)
	case "fill":
		return SFill(a[0], a[1])
	case "upd":
		return SUpd(a[0], a[1], a[2])
	case "idx":
		return SIdx(a[0], a[1], a[2], a[3])
	case "llen":
		return LLen(a[0])
	case "fmul":
		return FMul(a[0], a[1])
	case "fadd":
		return FAdd(a[0], a[1])
	case "fdivc":
		return FDiv(a[0], a[1])
	case "u2r":
		return U2R(a[0])
	case "s2r":
		return S2R(a[0])
	}
	return mk(OApp, t.sort, a, 0, t.name)
}

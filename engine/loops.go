package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop whose exit is decided in every iteration is executed. Any other
// loop is cut at its header: the locations the body changes are made arbitrary,
// constrained by invariants that are checked on entry and preserved by the body.
// Invariants are candidates filtered until inductive. A loop of the code is also
// related to the loop of the specification that runs in step with it.

type LoopRec struct {
	fn       *ssa.Function
	header   *ssa.BasicBlock
	spec     bool
	children []*LoopRec
	pair     *LoopRec
	nPaired  int
	vars     []*Term
	isVar    map[*Term]bool
	entry    map[*Term]*Term
	entryPC  []*Term
	headPC   []*Term
	inv      []*Term
	hasBack  bool
	backPC   []*Term
	backCond *Term
	back     map[*Term]*Term
	ctx      *loopCtx
}

type loopSlice struct {
	seq, isnil *Term
	byteT      bool
	et         types.Type
}

type loopCtx struct {
	x      *Exec
	id     string
	slices map[int]*loopSlice // object id -> made arbitrary by this loop
	byName map[string]int
	vars   map[*Term]bool
	order  []*Term
	defs   map[*Term][2]*Term // candidate -> the variable it determines and its value
}

func (c *loopCtx) def(g, v, r *Term) {
	if c.defs == nil {
		c.defs = map[*Term][2]*Term{}
	}
	if _, ok := c.defs[g]; !ok {
		c.defs[g] = [2]*Term{v, r}
	}
}

func (c *loopCtx) v(name string, s Sort) *Term {
	t := Var(c.id+name, s)
	if !c.vars[t] {
		c.vars[t] = true
		c.order = append(c.order, t)
	}
	return t
}

func (c *loopCtx) widenT(name string, a, b *Term) *Term {
	if a == b || c.vars[a] {
		return a
	}
	return c.v(name, a.sort)
}

func (c *loopCtx) freshSlice(name string, head *State, et types.Type) VSlice {
	if id, ok := c.byName[name]; ok {
		s := c.slices[id]
		n := SLen(s.seq)
		if !s.byteT {
			n = LLen(s.seq)
		}
		return VSlice{id, I64(0), n, n, And(Eq(n, I64(0)), s.isnil)}
	}
	o := c.x.newObj(et, true, "loop "+name)
	ls := &loopSlice{byteT: isByteT(et), et: et, isnil: c.v(name+".nil", SBool)}
	var n *Term
	if ls.byteT {
		ls.seq = c.v(name, SSeq)
		head.heap[o.id] = ls.seq
		n = SLen(ls.seq)
	} else {
		ls.seq = c.v(name, SLst)
		head.heap[o.id] = VList{base: ls.seq}
		n = LLen(ls.seq)
	}
	c.slices[o.id] = ls
	c.byName[name] = o.id
	return VSlice{o.id, I64(0), n, n, And(Eq(n, I64(0)), ls.isnil)}
}

// widen generalises the head value a so that it also covers b.
func (c *loopCtx) widen(name string, head *State, a, b Value) Value {
	if sameVal(a, b) {
		return a
	}
	if _, ok := a.(VPoison); ok {
		return a
	}
	if _, ok := b.(VPoison); ok {
		return b
	}
	switch v := a.(type) {
	case *Term:
		if w, ok := b.(*Term); ok && w.sort == v.sort {
			return c.widenT(name, v, w)
		}
	case VTime:
		if w, ok := b.(VTime); ok {
			return VTime{c.widenT(name+".sec", v.sec, w.sec), c.widenT(name+".nsec", v.nsec, w.nsec)}
		}
	case VStruct:
		if w, ok := b.(VStruct); ok && len(w.f) == len(v.f) {
			f := make([]Value, len(v.f))
			for i := range f {
				f[i] = c.widen(fmt.Sprintf("%s.%d", name, i), head, v.f[i], w.f[i])
			}
			return VStruct{f}
		}
	case VTuple:
		if w, ok := b.(VTuple); ok && len(w) == len(v) {
			f := make(VTuple, len(v))
			for i := range f {
				f[i] = c.widen(fmt.Sprintf("%s.%d", name, i), head, v[i], w[i])
			}
			return f
		}
	case VSlice:
		if w, ok := b.(VSlice); ok {
			if w.obj == v.obj {
				if c.slices[v.obj] != nil {
					// a suffix of the arbitrary slice is again arbitrary
					return v
				}
				return VSlice{v.obj, c.widenT(name+".off", v.off, w.off), c.widenT(name+".len", v.len, w.len), c.widenT(name+".cap", v.cap, w.cap), c.widenT(name+".isnil", v.isnil, w.isnil)}
			}
			if c.slices[v.obj] != nil && c.byName[name] == v.obj {
				return v
			}
			var et types.Type
			if v.obj != 0 {
				et = c.elemOf(v.obj)
			} else {
				et = c.elemOf(w.obj)
			}
			return c.freshSlice(name, head, et)
		}
		if u, ok := b.(VUnion); ok {
			if c.slices[v.obj] != nil && c.byName[name] == v.obj {
				return v
			}
			if et := c.unionElem(u); et != nil {
				return c.freshSlice(name, head, et)
			}
		}
	case VList:
		if w, ok := b.(VList); ok {
			if v.base == w.base && len(v.tail) == len(w.tail) {
				l := VList{base: v.base}
				for i := range v.tail {
					l.tail = append(l.tail, c.widen(fmt.Sprintf("%s[%d]", name, i), head, v.tail[i], w.tail[i]))
				}
				return l
			}
			if v.base != nil && c.vars[v.base] && len(v.tail) == 0 {
				return v
			}
			return VList{base: c.v(name, SLst)}
		}
	case VSymIface:
		if w, ok := b.(VSymIface); ok {
			return VSymIface{c.widenT(name, v.ref, w.ref)}
		}
	case VOpaque:
		if w, ok := b.(VOpaque); ok {
			return VOpaque{c.widenT(name, v.ref, w.ref)}
		}
	case VMap:
		if w, ok := b.(VMap); ok {
			return VMap{c.widenT(name, v.ref, w.ref), c.widenT(name+".nil", v.isnil, w.isnil)}
		}
	case VIface:
		if w, ok := b.(VIface); ok && v.t != nil && w.t != nil && types.Identical(v.t, w.t) {
			if _, isp := v.v.(VPtr); !isp {
				return VIface{v.t, c.widen(name, head, v.v, w.v)}
			}
		}
	case VUnion:
		if et := c.unionElem(v); et != nil {
			return c.freshSlice(name, head, et)
		}
	}
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "poison %s%s: %s / %s\n", c.id, name, c.x.valString(a), c.x.valString(b))
	}
	return VPoison{"changed by a loop: " + name}
}

// elemOf is the element type of the array or backing store an object is.
func (c *loopCtx) elemOf(id int) types.Type {
	o := c.x.objs[id]
	if !o.backing {
		if a, ok := o.typ.Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return o.typ
}

func (c *loopCtx) unionElem(u VUnion) types.Type {
	var et types.Type
	for _, a := range u.alts {
		s, ok := a.v.(VSlice)
		if !ok {
			return nil
		}
		if s.obj != 0 {
			et = c.elemOf(s.obj)
		}
	}
	return et
}

// match finds, for every arbitrary variable of the head value, its value in other.
func (c *loopCtx) match(hs *State, h Value, os *State, o Value, sub map[*Term]*Term, t types.Type) {
	switch v := h.(type) {
	case *Term:
		if c.vars[v] {
			if w, ok := o.(*Term); ok {
				sub[v] = w
			} else if u, ok := o.(VUnion); ok {
				sub[v] = c.x.asTerm(u)
			}
		}
	case VTime:
		if w, ok := o.(VTime); ok {
			c.match(hs, v.sec, os, w.sec, sub, nil)
			c.match(hs, v.nsec, os, w.nsec, sub, nil)
		}
	case VStruct:
		if w, ok := o.(VStruct); ok {
			for i := range v.f {
				c.match(hs, v.f[i], os, w.f[i], sub, nil)
			}
		}
	case VTuple:
		if w, ok := o.(VTuple); ok {
			for i := range v {
				c.match(hs, v[i], os, w[i], sub, nil)
			}
		}
	case VSlice:
		if ls := c.slices[v.obj]; ls != nil {
			if ls.byteT {
				sub[ls.seq] = c.x.bytesOf(os, o)
			} else {
				sub[ls.seq] = c.x.listTermOf(os, o, ls.et)
			}
			sub[ls.isnil] = c.x.isNil(o)
			return
		}
		if w, ok := o.(VSlice); ok {
			c.match(hs, v.off, os, w.off, sub, nil)
			c.match(hs, v.len, os, w.len, sub, nil)
			c.match(hs, v.cap, os, w.cap, sub, nil)
			c.match(hs, v.isnil, os, w.isnil, sub, nil)
		}
	case VList:
		if w, ok := o.(VList); ok {
			if v.base != nil && c.vars[v.base] {
				sub[v.base] = c.x.listTerm(os, w, t)
				return
			}
			for i := range v.tail {
				c.match(hs, v.tail[i], os, w.tail[i], sub, nil)
			}
		}
	case VSymIface:
		if w, ok := o.(VSymIface); ok {
			c.match(hs, v.ref, os, w.ref, sub, nil)
		}
	case VOpaque:
		if w, ok := o.(VOpaque); ok {
			c.match(hs, v.ref, os, w.ref, sub, nil)
		}
	case VMap:
		if w, ok := o.(VMap); ok {
			c.match(hs, v.ref, os, w.ref, sub, nil)
			c.match(hs, v.isnil, os, w.isnil, sub, nil)
		}
	case VIface:
		if w, ok := o.(VIface); ok {
			c.match(hs, v.v, os, w.v, sub, nil)
		}
	}
}

func (x *Exec) listTermOf(s *State, v Value, et types.Type) *Term {
	switch w := v.(type) {
	case VSlice:
		return x.listTerm(s, x.sliceList(s, w), et)
	case VUnion:
		r := x.listTermOf(s, w.alts[len(w.alts)-1].v, et)
		for k := len(w.alts) - 2; k >= 0; k-- {
			r = Ite(w.alts[k].c, x.listTermOf(s, w.alts[k].v, et), r)
		}
		return r
	}
	unsup("list of %T", v)
	return nil
}

func (x *Exec) isNil(v Value) *Term {
	switch w := v.(type) {
	case VSlice:
		return w.isnil
	case VUnion:
		r := x.isNil(w.alts[len(w.alts)-1].v)
		for k := len(w.alts) - 2; k >= 0; k-- {
			r = Ite(w.alts[k].c, x.isNil(w.alts[k].v), r)
		}
		return r
	}
	unsup("nil test of %T", v)
	return nil
}

type loopSnap struct {
	obls, rets, ctr int
}

func (x *Exec) snap(fr *frame) loopSnap { return loopSnap{len(x.obls), len(fr.rets), x.loopCtr} }
func (x *Exec) restore(fr *frame, s loopSnap) {
	x.obls = x.obls[:s.obls]
	fr.rets = fr.rets[:s.rets]
	x.loopCtr = s.ctr
}

func headerExits(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, s := range b.Succs {
		if !body[s] {
			return true
		}
	}
	return false
}

const unrollMax = 1200

func (x *Exec) execLoop(fr *frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cur *State) []edgeState {
	myCtr := x.loopCtr
	x.loopCtr++
	sn := x.snap(fr)
	hx := headerExits(b, body)
	if len(cur.pc) > 0 && x.discover == 0 && x.hold(cur.pc, False, 2*time.Second) {
		cur.dead = true // never reached
		return nil
	}

	// look whether the first iteration is decided before executing it in full
	if x.discover == 0 {
		x.discover++
		x.quiet++
		exits, backs := x.execBlocks(fr, b, cur.fork(), body, b)
		x.discover--
		x.quiet--
		x.restore(fr, sn)
		x.loopCtr = myCtr + 1
		sym := false
		for _, e := range exits {
			sym = sym || !hx || e.pred == b
		}
		if len(backs) > 0 && sym {
			return x.cutLoop(fr, b, body, cur, fmt.Sprintf("L%d:", myCtr))
		}
	}
	// execution, as long as every iteration is decided
	var out []edgeState
	st := cur.fork()
	for it := 0; ; it++ {
		if it > unrollMax {
			unsup("loop in %s does not end", fr.fn)
		}
		nr := len(fr.rets)
		exits, backs := x.execBlocks(fr, b, st, body, b)
		if len(backs) == 0 {
			return append(out, exits...)
		}
		sym := !hx && len(fr.rets) > nr
		for _, e := range exits {
			if (hx && e.pred == b) || !hx {
				sym = true
			}
		}
		if sym {
			break
		}
		out = append(out, exits...)
		st = backs[0]
		for _, s := range backs[1:] {
			st = x.mergeStates(st, s)
		}
	}
	x.restore(fr, sn)
	x.loopCtr = myCtr + 1
	return x.cutLoop(fr, b, body, cur, fmt.Sprintf("L%d:", myCtr))
}

func phisOf(b *ssa.BasicBlock) []ssa.Value {
	var r []ssa.Value
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

func (x *Exec) cutLoop(fr *frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cur *State, id string) []edgeState {
	c := &loopCtx{x: x, id: id, slices: map[int]*loopSlice{}, byName: map[string]int{}, vars: map[*Term]bool{}}
	sn := x.snap(fr)
	nobj := len(x.objs)
	head := cur.fork()
	phis := phisOf(b)
	rec := &LoopRec{fn: fr.fn, header: b, spec: fr.spec, ctx: c}
	var exits []edgeState
	var backs []*State

	run := func(h *State, discover, quiet bool) {
		rec.children = nil
		rec.nPaired = 0
		x.restore(fr, sn)
		if discover {
			x.discover++
		}
		if quiet {
			x.quiet++
		}
		x.loopStk = append(x.loopStk, rec)
		defer func() {
			x.loopStk = x.loopStk[:len(x.loopStk)-1]
			if discover {
				x.discover--
			}
			if quiet {
				x.quiet--
			}
		}()
		exits, backs = x.execBlocks(fr, b, h, body, b)
	}

	// locations changed by the body
	for round := 0; ; round++ {
		if round > 25 {
			unsup("loop in %s does not stabilise", fr.fn)
		}
		run(head.fork(), true, true)
		changed := false
		for _, bk := range backs {
			for i, p := range phis {
				nv := c.widen(fmt.Sprintf("%s.phi%d", fr.fn.Name(), i), head, head.regs[p], bk.regs[p])
				if !sameVal(nv, head.regs[p]) {
					head.regs[p] = nv
					changed = true
				}
			}
			var ks []int
			for k := range bk.heap {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				hv, ok := head.heap[k]
				if !ok {
					if k < nobj && x.objs[k].lazy != nil {
						hv = x.objs[k].lazy
					} else {
						continue
					}
				}
				if c.slices[k] != nil {
					// content changed in place: still arbitrary
					continue
				}
				nv := c.widen(fmt.Sprintf("o%d %s", k, x.objs[k].name), head, hv, bk.heap[k])
				if !sameVal(nv, hv) {
					head.heap[k] = nv
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	sub := func(other *State) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, p := range phis {
			c.match(head, head.regs[p], other, other.regs[p], m, nil)
		}
		var ks []int
		for k := range head.heap {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			if c.slices[k] != nil {
				continue
			}
			ov, ok := other.heap[k]
			if !ok {
				ov = x.objs[k].lazy
			}
			if ov != nil {
				var et types.Type
				if x.objs[k].backing {
					et = x.objs[k].typ
				}
				c.match(head, head.heap[k], other, ov, m, et)
			}
		}
		return m
	}
	if x.discover > 0 {
		return exits
	}

	rec.entryPC = cur.pc
	rec.vars = c.order
	rec.isVar = c.vars
	rec.entry = sub(cur)
	unary := append(x.clockCands(rec, head, cur), x.unaryCands(rec, exits, backs)...)
	// what a sequence that starts out empty is set to
	var inner func(t *Term) bool
	inner = func(t *Term) bool {
		if t.op == OVar {
			ok := !loopVar(t.name)
			for _, r := range x.loopStk {
				ok = ok || r.isVar[t]
			}
			return !ok
		}
		for _, a := range t.args {
			if inner(a) {
				return true
			}
		}
		return false
	}
	// what is noted together with a truth value
	for _, b1 := range backs {
		m := sub(b1)
		for _, f := range rec.vars {
			if f.sort != SBool || rec.entry[f] != False {
				continue
			}
			for _, v := range rec.vars {
				if e := rec.entry[v]; v.sort.K == KBV && e != nil {
					for _, l := range iteLeaves(m[v], 8) {
						if g := Or(Not(f), Eq(v, l)); l != e && !l.isConst() && !mentions(l, c.vars) && !inner(l) && !inTerms(unary, g) {
							unary = append(unary, g)
						}
					}
				}
			}
		}
	}
	for _, b1 := range backs {
		m := sub(b1)
		for _, v := range rec.vars {
			if e := rec.entry[v]; v.sort == SSeq && e != nil && SLen(e) == I64(0) {
				for _, l := range iteLeaves(m[v], 8) {
					if g := Or(Eq(SLen(v), I64(0)), Eq(v, l)); l != SEmpty && !mentions(l, c.vars) && !inner(l) && !inTerms(unary, g) {
						unary = append(unary, g)
					}
				}
			}
		}
	}
	entrySub := NewSubst(rec.entry)

	filterEntry := func(pc []*Term, cs []*Term, s *Subst) []*Term {
		var goals []*Term
		for _, g := range cs {
			goals = append(goals, s.T(g))
		}
		ok := x.holdAll(pc, goals)
		var r []*Term
		for i := range cs {
			if ok[i] {
				r = append(r, cs[i])
			} else if d := os.Getenv("VWHY"); d != "" && strings.Contains(cs[i].String(), d) {
				x.dbg("WHY %v\n  goal %v", cs[i], goals[i])
				for _, t := range pc {
					x.dbg("     pc %v", t)
				}
			}
		}
		return r
	}

	// mergedBack runs the body under the candidates and joins the back edges.
	mergedBack := func(pc []*Term, cands []*Term) (h *State, bk *State) {
		h = head.fork()
		h.pc = append([]*Term(nil), pc...)
		c.define(h, cands)
		run(h.fork(), false, true)
		for _, s := range backs {
			if s.dead {
				continue
			}
			if bk == nil {
				bk = s
			} else {
				bk = x.mergeStates(bk, s)
			}
		}
		return
	}

	t0 := time.Now()
	houdini := func(pc []*Term, cands []*Term, S *LoopRec) (res []*Term, h, bk *State) {
		for {
			h, bk = mergedBack(pc, cands)
			if bk == nil || len(cands) == 0 {
				return cands, h, bk
			}
			bs := sub(bk)
			if S != nil {
				for k, v := range S.back {
					bs[k] = v
				}
			}
			s := NewSubst(bs)
			ctx := bk.pc
			if S != nil {
				ctx = append(append([]*Term(nil), ctx...), S.backPC...)
				ctx = append(ctx, S.inv...)
			}
			var n []*Term
			if len(backs) == 1 {
				n = filterEntry(ctx, cands, s)
			} else if len(cands) <= 60 {
				// all of them at once, or each back edge for itself
				var all []*Term
				for _, g := range cands {
					all = append(all, s.T(g))
				}
				if x.hold(ctx, And(all...), 4*time.Second) {
					n = cands
				}
			}
			if len(n) < len(cands) && len(backs) > 1 {
				// the join may only be too much for the solver: look at each back edge
				in := map[*Term]bool{}
				for _, t := range n {
					in[t] = true
				}
				var rest []*Term
				for _, t := range cands {
					if !in[t] {
						rest = append(rest, t)
					}
				}
				for _, b1 := range backs {
					if b1.dead || len(rest) == 0 {
						continue
					}
					b1s := sub(b1)
					c1 := b1.pc
					if S != nil {
						for k, v := range S.back {
							b1s[k] = v
						}
						c1 = append(append([]*Term(nil), c1...), S.backPC...)
						c1 = append(c1, S.inv...)
					}
					rest = filterEntry(c1, rest, NewSubst(b1s))
				}
				for _, t := range rest {
					in[t] = true
				}
				n = nil
				for _, t := range cands {
					if in[t] {
						n = append(n, t)
					}
				}
			}
			if os.Getenv("VDEBUG") != "" {
				x.dbg("houdini %s %s: %d -> %d of %d backs  %.1fs", id, fr.fn.Name(), len(cands), len(n), len(backs), time.Since(t0).Seconds())
			}
			if len(n) == len(cands) {
				return n, h, bk
			}
			if S != nil && os.Getenv("VDROP") != "" {
				in := map[*Term]bool{}
				for _, t := range n {
					in[t] = true
				}
				for _, t := range cands {
					if !in[t] {
						x.dbg("   dropped %v\n      now %v", t, s.T(t))
					}
				}
			}
			cands = n
		}
	}

	var inv []*Term
	var dropped []*Term
	pc := cur.pc
	var h, bk *State
	paired := false
	if !fr.spec {
		todo := x.pairCandidates()
		for len(todo) > 0 {
			S := todo[0]
			todo = todo[1:]
			var keep, drop []*Term
			svars := map[*Term]bool{}
			S.allVars(svars)
			for _, t := range cur.pc {
				if mentions(t, svars) {
					drop = append(drop, t)
				} else {
					keep = append(keep, t)
				}
			}
			if !x.holdOne(keep, And(S.entryPC...)) {
				x.dbg("pair %s with %s block %d part %d: entry not in step", id, S.fn.Name(), S.header.Index, cur.part)
				if os.Getenv("VDEBUG") != "" {
					for _, t := range S.entryPC {
						if !x.holdOne(keep, t) {
							x.dbg("   not in step: %v", t)
						}
					}
				}
				continue
			}
			es := map[*Term]*Term{}
			for k, v := range rec.entry {
				es[k] = v
			}
			for k, v := range S.entry {
				es[k] = v
			}
			ctx := append(append([]*Term(nil), keep...), S.entryPC...)
			all := append(append([]*Term(nil), unary...), x.relCands(rec, S)...)
			key := fmt.Sprint(fr.fn, b.Index, S.fn, S.header.Index, len(rec.vars), len(S.vars), len(all))
			known, warm := x.loopMemo[key]
			pick := all
			if warm {
				pick = nil
				for _, i := range known {
					pick = append(pick, all[i])
				}
			}
			cands := filterEntry(ctx, pick, NewSubst(es))
			base := append(append([]*Term(nil), keep...), S.inv...)
			rec.pair = S // loops inside pair with its inner loops
			r, hh, bb := houdini(base, cands, S)
			// both sides must agree on going on
			x.dbg("pair %s with %s block %d part %d", id, S.fn.Name(), S.header.Index, cur.part)
			okSync := false
			hpc := hh.pc
			var sb *Term = False
			if S.hasBack {
				sb = S.backCond
			}
			if bb == nil {
				okSync = x.holdOne(hpc, Not(sb))
			} else {
				// every iteration of the code that goes on is one of the specification that goes on,
				// and every one that ends is not
				g1, g2 := true, true
				for _, s1 := range backs {
					g1 = g1 && (s1.dead || x.holdOne(s1.pc, sb))
				}
				for _, e := range exits {
					g2 = g2 && (e.st.dead || x.holdOne(append(append([]*Term(nil), e.st.pc...), sb), False))
				}
				for i := sn.rets; i < len(fr.rets); i++ {
					if o := fr.rets[i]; g2 && !o.st.dead {
						g2 = x.holdOne(append(append([]*Term(nil), o.st.pc...), sb), False)
					}
				}
				okSync = g1 && g2
				if !okSync {
					x.dbg("pair %s with %s block %d part %d: sync %v %v", id, S.fn.Name(), S.header.Index, cur.part, g1, g2)
					if os.Getenv("VDEBUG") != "" && bb != nil {
						sc := []*Term{sb}
						if sb.op == OAnd {
							sc = sb.args
						}
						for i, s1 := range backs {
							for _, t := range sc {
								if !s1.dead && !x.holdOne(s1.pc, t) {
									x.dbg("   back %d does not have: %v", i, t)
								}
							}
						}
						ic := iterCond(hpc, bb.pc)
						cs := []*Term{ic}
						if ic.op == OAnd {
							cs = ic.args
						}
						for _, t := range cs {
							if !x.holdOne(append(append([]*Term(nil), hpc...), sb), t) {
								x.dbg("   not implied: %v", t)
							}
						}
						x.dbg("   spec goes on: %v", sb)
					}
				}
			}
			if !okSync {
				for _, t := range r {
					x.dbg("   kept %v", t)
				}
				rec.pair = nil
				if warm {
					delete(x.loopMemo, key)
					todo = append(todo, S)
				}
				continue
			}
			idx := map[*Term]int{}
			for i, t := range all {
				idx[t] = i
			}
			known = nil
			for _, t := range r {
				known = append(known, idx[t])
			}
			x.loopMemo[key] = known
			inv, h, bk, dropped, pc, paired = r, hh, bb, drop, base, true
			rec.pair = S
			break
		}
	}
	if !paired {
		cands := filterEntry(cur.pc, unary, entrySub)
		inv, h, bk = houdini(cur.pc, cands, nil)
	}
	if os.Getenv("VDEBUG") != "" {
		x.dbg("loop %s in %s: part %d vars %d, invariants:", id, fr.fn, cur.part, len(c.order))
		for _, t := range inv {
			x.dbg("    %v", t)
		}
	}
	rec.inv = inv
	rec.headPC = h.pc
	if bk != nil {
		rec.hasBack = true
		rec.backPC = bk.pc
		rec.backCond = iterCond(h.pc, bk.pc)
		rec.back = sub(bk)
	}
	if !fr.spec && bk != nil && x.termination && x.quiet == 0 && x.discover == 0 {
		x.terminates(fr, b, rec, h, bk)
		sn = loopSnap{len(x.obls), sn.rets, sn.ctr}
	}
	// the counted run
	nr := len(fr.rets)
	final := head.fork()
	final.pc = append([]*Term(nil), pc...)
	c.define(final, inv)
	fpc := append([]*Term(nil), final.pc...)
	run(final, false, false)
	if fr.spec && bk != nil {
		// what is recorded speaks of the inner loops of this run
		var fb *State
		for _, s := range backs {
			if s.dead {
				continue
			}
			if fb == nil {
				fb = s
			} else {
				fb = x.mergeStates(fb, s)
			}
		}
		if fb != nil {
			rec.headPC = fpc
			rec.backPC = fb.pc
			rec.backCond = iterCond(fpc, fb.pc)
			rec.back = sub(fb)
		}
	}
	for i := range exits {
		for _, t := range dropped {
			exits[i].st.assume(t)
		}
	}
	for i := nr; i < len(fr.rets); i++ {
		for _, t := range dropped {
			fr.rets[i].st.assume(t)
		}
	}
	x.recordLoop(rec)
	x.loopsDone++
	return exits
}

func (x *Exec) dbg(f string, a ...interface{}) {
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// substV replaces variables in a value.
func substV(v Value, f func(*Term) *Term) Value {
	switch a := v.(type) {
	case nil:
		return nil
	case *Term:
		return f(a)
	case VSlice:
		return VSlice{a.obj, f(a.off), f(a.len), f(a.cap), f(a.isnil)}
	case VPtr:
		var ps []PE
		for _, e := range a.path {
			ps = append(ps, PE{e.fld, f(e.idx)})
		}
		return VPtr{a.obj, ps}
	case VStruct:
		fs := make([]Value, len(a.f))
		for i := range fs {
			fs[i] = substV(a.f[i], f)
		}
		return VStruct{fs}
	case VList:
		var t []Value
		for _, e := range a.tail {
			t = append(t, substV(e, f))
		}
		return VList{f(a.base), t}
	case VIface:
		return VIface{a.t, substV(a.v, f)}
	case VSymIface:
		return VSymIface{f(a.ref)}
	case VOpaque:
		return VOpaque{f(a.ref)}
	case VFunc:
		var b []Value
		for _, e := range a.bind {
			b = append(b, substV(e, f))
		}
		return VFunc{a.fn, b, a.nilf}
	case VMap:
		return VMap{f(a.ref), f(a.isnil)}
	case VTime:
		return VTime{f(a.sec), f(a.nsec)}
	case VUnion:
		var as []Alt
		for _, e := range a.alts {
			if c := f(e.c); c != False {
				as = append(as, Alt{c, substV(e.v, f)})
			}
		}
		return mkUnion(as)
	case VTuple:
		var t VTuple
		for _, e := range a {
			t = append(t, substV(e, f))
		}
		return t
	}
	return v
}

// define assumes the candidates; a variable one of them determines is replaced by what it equals.
func (c *loopCtx) define(h *State, cands []*Term) {
	m := map[*Term]*Term{}
	for _, g := range cands {
		h.assume(g)
		d, ok := c.defs[g]
		if !ok || m[d[0]] != nil {
			continue
		}
		r := NewSubst(m).T(d[1])
		if mentions(r, map[*Term]bool{d[0]: true}) {
			continue
		}
		one := NewSubst(map[*Term]*Term{d[0]: r})
		for k, v := range m {
			m[k] = one.T(v)
		}
		m[d[0]] = r
	}
	if len(m) == 0 {
		return
	}
	s := NewSubst(m)
	for k, v := range h.regs {
		h.regs[k] = substV(v, s.T)
	}
	for k, v := range h.heap {
		h.heap[k] = substV(v, s.T)
	}
}

// conjuncts of the back edge that the head does not already have
func iterCond(head, back []*Term) *Term {
	in := map[*Term]bool{}
	for _, t := range head {
		in[t] = true
	}
	var r []*Term
	for _, t := range back {
		if !in[t] {
			r = append(r, t)
		}
	}
	return And(r...)
}

func (r *LoopRec) allVars(m map[*Term]bool) {
	for _, v := range r.vars {
		m[v] = true
	}
	for _, c := range r.children {
		c.allVars(m)
	}
}

var mentionMemo = map[*Term]map[*Term]bool{}

func mentions(t *Term, vs map[*Term]bool) bool {
	hit := false
	collect(t, map[*Term]bool{}, func(u *Term) {
		if u.op == OVar && vs[u] {
			hit = true
		}
	})
	return hit
}

func (x *Exec) recordLoop(rec *LoopRec) {
	if rec.spec && !x.sp.monitor[rec.fn] {
		for _, f := range x.stack {
			if !x.isSpecFn(f) {
				return
			}
		}
	}
	var parent *LoopRec
	if n := len(x.loopStk); n > 0 {
		parent = x.loopStk[n-1]
	}
	if !rec.spec {
		if rec.pair != nil {
			if parent != nil {
				parent.nPaired++
			} else {
				x.topPaired++
			}
		}
		return
	}
	if parent != nil {
		parent.children = append(parent.children, rec)
	} else {
		x.loopTop = append(x.loopTop, rec)
	}
}

// specification loops a code loop may run in step with, likeliest first
func (x *Exec) pairCandidates() []*LoopRec {
	list := x.loopTop
	k := x.topPaired
	if n := len(x.loopStk); n > 0 {
		p := x.loopStk[n-1]
		if p.pair == nil {
			list = p.children
			k = len(list)
		} else {
			list = p.pair.children
			k = p.nPaired
		}
	}
	var r []*LoopRec
	for i := range list {
		r = append(r, list[(i+k)%len(list)])
	}
	return r
}

// loopVar says whether a name is one that a cut loop introduces.
func loopVar(n string) bool {
	i := 1
	for i < len(n) && n[i] >= '0' && n[i] <= '9' {
		i++
	}
	return len(n) > i && n[0] == 'L' && i > 1 && n[i] == ':'
}

func inTerms(ts []*Term, t *Term) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}

func iteLeaves(t *Term, n int) []*Term {
	if t == nil || n == 0 {
		return nil
	}
	if t.op != OIte {
		return []*Term{t}
	}
	return append(iteLeaves(t.args[1], n-1), iteLeaves(t.args[2], n-1)...)
}

// clockCands: the clock does not run backwards; instants that are noted are not ahead of it.
func (x *Exec) clockCands(rec *LoopRec, head, cur *State) []*Term {
	c, _ := head.heap[x.clockObj].(*Term)
	e, _ := cur.heap[x.clockObj].(*Term)
	if c == nil || e == nil || c == e {
		return nil
	}
	at := clockAt(c)
	out := []*Term{notAfter(clockAt(e), at), And(Sle(I64(0), at.sec), Slt(at.sec, I64(1<<36)), Sle(I64(0), at.nsec), Slt(at.nsec, I64(1000000000)))}
	by := map[string]*Term{}
	for _, v := range rec.vars {
		by[v.name] = v
	}
	for _, v := range rec.vars {
		if n := strings.TrimSuffix(v.name, ".sec"); n != v.name && by[n+".nsec"] != nil {
			t := VTime{v, by[n+".nsec"]}
			out = append(out, notAfter(t, at), And(Sle(I64(0), t.nsec), Slt(t.nsec, I64(1000000000))))
		}
	}
	return out
}

func (x *Exec) unaryCands(rec *LoopRec, exits []edgeState, backs []*State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != True && t != False && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, v := range rec.vars {
		e := rec.entry[v]
		if e == nil {
			continue
		}
		if e.isConst() {
			rec.ctx.def(Eq(v, e), v, e)
		}
		switch v.sort.K {
		case KBool:
			if e.isConst() {
				add(Eq(v, e))
			}
		case KBV:
			if e.isConst() || v.sort.W != 64 {
				add(Eq(v, e))
			}
			if v.sort.W == 64 {
				add(Sle(e, v))
				add(Sle(v, e))
				add(Ule(e, v))
			}
		default:
			add(Eq(v, e))
		}
	}
	var bounded []*Term
	atoms := map[*Term]bool{}
	visit := func(pc []*Term) {
		for _, t := range pc {
			collect(t, atoms, func(u *Term) {
				if (u.op == OSlt || u.op == OUlt) && u.args[0].sort.W == 64 && mentions(u, rec.isVar) {
					bounded = append(bounded, u)
				}
			})
		}
	}
	for _, e := range exits {
		visit(e.st.pc)
	}
	for _, b := range backs {
		visit(b.pc)
	}
	for i, u := range bounded {
		if i > 24 {
			break
		}
		a, b := u.args[0], u.args[1]
		add(Sle(a, b))
		add(Sle(b, a))
		add(Slt(a, b))
		if u.op == OUlt {
			add(Ule(a, b))
			add(Ule(b, a))
		}
		add(Sle(I64(0), a))
		add(Sle(I64(0), b))
	}
	// text scanned byte by byte: copied so far, and free of the bytes tested for
	refs := map[*Term]bool{}
	tested := map[*Term]bool{}
	var refL, testL []*Term
	look := map[*Term]bool{}
	scanPC := func(pc []*Term) {
		for _, t := range pc {
			collect(t, look, func(u *Term) {
				if u.op == OEq && u.args[0].sort == BV(8) {
					for k := 0; k < 2; k++ {
						a, c := u.args[k], u.args[1-k]
						if c.isConst() && a.op == OApp && a.appBase() == "at" && mentions(a.args[1], rec.isVar) {
							if !refs[a.args[0]] {
								refs[a.args[0]] = true
								refL = append(refL, a.args[0])
							}
							if !tested[c] {
								tested[c] = true
								testL = append(testL, c)
							}
						}
					}
				}
			})
		}
	}
	for _, e := range exits {
		scanPC(e.st.pc)
	}
	for _, b := range backs {
		scanPC(b.pc)
	}
	for _, ref := range refL {
		if mentions(ref, rec.isVar) {
			continue
		}
		for _, i := range rec.vars {
			if i.sort != BV(64) || rec.entry[i] == nil {
				continue
			}
			e := rec.entry[i]
			for _, c := range testL {
				add(Eq(SIdx(ref, e, Sub(i, e), c), I64(-1)))
			}
			for _, v := range rec.vars {
				if v.sort == SSeq && rec.entry[v] != nil {
					add(Eq(v, SCat(rec.entry[v], SSub(ref, e, Sub(i, e)))))
				}
			}
		}
	}
	// counters in step with each other
	var ctr []*Term
	for _, v := range rec.vars {
		if v.sort == BV(64) && rec.entry[v] != nil && len(ctr) < 10 {
			ctr = append(ctr, v)
		}
	}
	for i, v := range ctr {
		for _, w := range ctr[:i] {
			add(Eq(Sub(v, w), Sub(rec.entry[v], rec.entry[w])))
			add(Eq(Add(v, w), Add(rec.entry[v], rec.entry[w])))
		}
	}
	// variables that start out equal
	for i, v := range rec.vars {
		if e := rec.entry[v]; e != nil && !(e.isConst() && e.val > 3) {
			for _, w := range rec.vars[:i] {
				if w.sort == v.sort && v.sort != BV(64) && rec.entry[w] == e {
					rec.ctx.def(Eq(v, w), v, w)
					add(Eq(v, w))
				}
			}
		}
	}
	// a truth value that says whether a sequence is filled
	for _, v := range rec.vars {
		if v.sort != SBool || rec.entry[v] == nil {
			continue
		}
		for _, w := range rec.vars {
			if own := v.name == w.name+".nil"; own && w.sort == SSeq {
				add(Eq(v, Eq(SLen(w), I64(0))))
			} else if own && w.sort == SLst {
				add(Eq(v, Eq(LLen(w), I64(0))))
			}
			if e := rec.entry[w]; e != nil && (w.sort == SSeq || w.sort == SLst) && !strings.HasSuffix(v.name, ".nil") {
				if w.sort == SSeq {
					add(Eq(v, Not(Eq(SLen(w), I64(0)))))
				} else {
					add(Eq(v, Not(Eq(LLen(w), I64(0)))))
				}
			}
		}
	}
	// lengths in step with counters
	for _, v := range rec.vars {
		if v.sort != SSeq && v.sort != SLst {
			continue
		}
		if e := rec.entry[v]; e != nil && v.sort == SSeq && SLen(e).isConst() {
			add(Eq(SLen(v), SLen(e)))
		}
		for _, i := range rec.vars {
			if i.sort == BV(64) && rec.entry[v] != nil && rec.entry[i] != nil {
				ln, l0 := SLen(v), SLen(rec.entry[v])
				if v.sort == SLst {
					ln, l0 = LLen(v), LLen(rec.entry[v])
				}
				add(Eq(Sub(ln, i), Sub(l0, rec.entry[i])))
			}
		}
	}
	return out
}

func (x *Exec) relCands(c, s *LoopRec) []*Term {
	var out []*Term
	for _, v := range c.vars {
		for _, w := range s.vars {
			if v.sort != w.sort || c.entry[v] == nil || s.entry[w] == nil {
				continue
			}
			e, f := c.entry[v], s.entry[w]
			if v.sort.K == KBV {
				out = append(out, Eq(Sub(v, w), Sub(e, f)))
				c.ctx.def(out[len(out)-1], v, Add(w, Sub(e, f)))
				if v.sort.W == 64 {
					out = append(out, Eq(Add(v, w), Add(e, f)))
				} else if e != f && !e.isConst() && !f.isConst() {
					out = append(out, Eq(v, w))
					c.ctx.def(out[len(out)-1], v, w)
				}
			} else {
				out = append(out, Eq(v, w))
				c.ctx.def(out[len(out)-1], v, w)
				if v.sort == SSeq {
					out = append(out, Eq(SLen(v), SLen(w)))
				}
			}
		}
	}
	return out
}

// terminates obliges that some measure decreases on every back edge.
func (x *Exec) terminates(fr *frame, b *ssa.BasicBlock, rec *LoopRec, h, bk *State) {
	s := NewSubst(rec.back)
	atoms := map[*Term]bool{}
	var ms []*Term
	for _, t := range bk.pc {
		collect(t, atoms, func(u *Term) {
			if (u.op == OSlt || u.op == OUlt) && u.args[0].sort.W == 64 && mentions(u, rec.isVar) {
				ms = append(ms, Sub(u.args[1], u.args[0]), Sub(u.args[0], u.args[1]))
			}
		})
	}
	for _, v := range rec.vars {
		if v.sort == BV(64) {
			ms = append(ms, v)
		}
	}
	for i, m := range ms {
		if i > 40 {
			break
		}
		if x.holdOne(bk.pc, And(Sle(I64(0), m), Slt(s.T(m), m))) {
			st := bk.fork()
			x.oblige(st, "termination", "loop measure decreases", x.safetyProps(), b.Instrs[0].Pos(), And(Sle(I64(0), m), Slt(s.T(m), m)))
			return
		}
	}
	st := bk.fork()
	x.oblige(st, "termination", "loop has a decreasing measure", x.safetyProps(), b.Instrs[0].Pos(), False)
}

// ---------- candidate queries

func (x *Exec) holdOne(pc []*Term, g *Term) bool { return x.hold(pc, g, 6*time.Second) }

func (x *Exec) hold(pc []*Term, g *Term, to time.Duration) bool {
	if g == True {
		return true
	}
	k := qkey(pc, g)
	if r, ok := x.qcache[k]; ok {
		return r
	}
	r := ProveGoal(pc, g, to, false)
	x.houdiniQ++
	ok := r.Status == "unsat"
	if r.Status == "unknown" && to >= 6*time.Second {
		ok = proveSplit(pc, g, 4, to)
	}
	x.qcache[k] = ok
	return ok
}

func qkey(pc []*Term, g *Term) string {
	ids := make([]int, len(pc))
	for i, t := range pc {
		ids[i] = t.id
	}
	sort.Ints(ids)
	return fmt.Sprint(ids, g.id)
}

func (x *Exec) holdAll(pc []*Term, goals []*Term) []bool {
	res := make([]bool, len(goals))
	var open []int
	for i, g := range goals {
		if g == True {
			res[i] = true
			continue
		}
		if r, ok := x.qcache[qkey(pc, g)]; ok {
			res[i] = r
			continue
		}
		open = append(open, i)
	}
	if len(open) == 0 {
		return res
	}
	if len(open) > 1 {
		var all []*Term
		for _, i := range open {
			all = append(all, goals[i])
		}
		tb := time.Now()
		okAll := x.hold(pc, And(all...), 5*time.Second)
		if d := time.Since(tb); d > time.Second {
			x.dbg("TIME batch of %d %v %.1fs", len(open), okAll, d.Seconds())
		}
		if okAll {
			for _, i := range open {
				res[i] = true
				x.qcache[qkey(pc, goals[i])] = true
			}
			return res
		}
	}
	done := make(chan int, len(open))
	type prep struct {
		as []*Term
		st string
	}
	ps := make([]prep, len(open))
	ts := time.Now()
	for k, i := range open {
		as, triv := prepGoal(pc, goals[i], false)
		if triv {
			ps[k].st = "unsat"
		}
		ps[k].as = as
	}
	n := 0
	for k := range open {
		if ps[k].st != "" {
			continue
		}
		n++
		sc := mkScript(ps[k].as)
		go func(k int) {
			ps[k].st = runScript("z3-new", sc, 3*time.Second)
			done <- k
		}(k)
	}
	for ; n > 0; n-- {
		<-done
	}
	if d := time.Since(ts); d > time.Second {
		x.dbg("TIME each of %d %.1fs", len(open), d.Seconds())
	}
	ts = time.Now()
	defer func() {
		if d := time.Since(ts); d > time.Second {
			x.dbg("TIME splits %.1fs", d.Seconds())
		}
	}()
	for k, i := range open {
		res[i] = ps[k].st == "unsat"
		if g := goals[i]; !res[i] && g.op == OEq && g.args[0].sort == SSeq && (hasIte(g.args[0]) || hasIte(g.args[1])) {
			res[i] = proveSplit(pc, g, 5, 3*time.Second)
		}
		x.qcache[qkey(pc, goals[i])] = res[i]
	}
	x.houdiniQ += len(open)
	return res
}

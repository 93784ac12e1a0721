package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The specification language: functions of zz_verif_rt.go with a symbolic meaning.

var intrinsicNames = map[string]bool{}

func init() {
	for _, n := range strings.Fields("vBytes vU8 vU16 vU32 vU64 vInt vI64 vBool vFlag vStr vStrN vTime vF64 vAssume vRequire vEnsure vSame vEq vCover vErr vHavoc vSafety vTrace vTraceReset vRun vNote vTerminates vSym vSymGen vEach vOwn vPart vFrozen") {
		intrinsicNames[n] = true
	}
}

var isIntrMemo = map[*ssa.Function]bool{}

func isIntrinsic(fn *ssa.Function) bool {
	if r, ok := isIntrMemo[fn]; ok {
		return r
	}
	r := false
	if intrinsicNames[fn.Name()] && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Prog != nil && fn.Pos().IsValid() {
		r = filepath.Base(fn.Prog.Fset.Position(fn.Pos()).Filename) == "zz_verif_rt.go"
	}
	isIntrMemo[fn] = r
	return r
}

func propList(v Value) []string {
	s, ok := seqConst(v.(*Term))
	if !ok {
		unsup("property list must be constant")
	}
	var r []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			r = append(r, p)
		}
	}
	return r
}

func (x *Exec) input(name string, s Sort) *Term {
	if n := x.inputN[name]; n > 0 {
		x.inputN[name]++
		name = fmt.Sprintf("%s#%d", name, n)
	} else {
		x.inputN[name] = 1
	}
	t := Var("in:"+name, s)
	x.inputs = append(x.inputs, inputVar{name, t})
	return t
}

func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Outcome, bool) {
	if !isIntrinsic(fn) {
		return nil, false
	}
	str := func(i int) string {
		s, ok := seqConst(args[i].(*Term))
		if !ok {
			unsup("%s: constant text expected", fn.Name())
		}
		return s
	}
	switch fn.Name() {
	case "vBytes":
		t := x.input(str(0), SSeq)
		o := x.newObj(types.Typ[types.Uint8], true, str(0))
		o.readonly = "the input " + str(0)
		st.heap[o.id] = t
		return one(st, VSlice{o.id, I64(0), SLen(t), SLen(t), False}), true
	case "vFrozen":
		if p, ok := args[0].(VIface); ok {
			if q, ok := p.v.(VPtr); ok && q.obj != 0 {
				x.objs[q.obj].readonly = str(1)
				return one(st), true
			}
		}
		unsup("vFrozen of %T", args[0])
	case "vOwn":
		// a private, writable copy
		t := x.bytesOf(st, args[0])
		return one(st, x.newBytes(st, t, "own")), true
	case "vU8":
		return one(st, x.input(str(0), BV(8))), true
	case "vU16":
		return one(st, x.input(str(0), BV(16))), true
	case "vU32":
		return one(st, x.input(str(0), BV(32))), true
	case "vU64", "vInt", "vI64":
		return one(st, x.input(str(0), BV(64))), true
	case "vBool":
		return one(st, x.input(str(0), SBool)), true
	case "vFlag":
		n := x.asTerm(args[1])
		bs := make([]*Term, n.val)
		for i := range bs {
			bs[i] = Concat(Const(7, '0'>>1), x.input(fmt.Sprintf("%s[%d]", str(0), i), BV(1)))
		}
		return one(st, SVec(bs...)), true
	case "vStr":
		return one(st, x.input(str(0), SSeq)), true
	case "vStrN":
		n := x.asTerm(args[1])
		bs := make([]*Term, n.val)
		for i := range bs {
			bs[i] = x.input(fmt.Sprintf("%s[%d]", str(0), i), BV(8))
		}
		return one(st, SVec(bs...)), true
	case "vTime":
		return one(st, VTime{Add(I64(1262304000), ZeroExt(x.input(str(0), BV(32)), 64)), I64(0)}), true
	case "vF64":
		t := x.input(str(0), SReal)
		st.assume(Rle(x.asTerm(args[1]), t))
		st.assume(Rle(t, x.asTerm(args[2])))
		return one(st, t), true
	case "vEach":
		l := args[0].(VIface)
		pr := args[1].(VIface).v.(VFunc)
		sl := x.sliceList(st, l.v.(VSlice)).(VList)
		if sl.base == nil || len(sl.tail) > 0 {
			unsup("vEach: arbitrary list expected")
		}
		if x.elemFacts == nil {
			x.elemFacts = map[*Term]VFunc{}
		}
		x.elemFacts[sl.base] = pr
		return one(st), true
	case "vSym", "vSymGen":
		// an arbitrary value of the pointee's type
		p := args[1].(VIface)
		pt := p.t.Underlying().(*types.Pointer)
		ptr := x.ptr(st, p.v, pos)
		x.inputN[str(0)]++
		st.heap[ptr.obj] = x.setPath(st, x.load(st, ptr.obj), ptr.path, x.expand(pt.Elem(), fmt.Sprintf("in:%s#%d", str(0), x.inputN[str(0)]), nil))
		return one(st), true
	case "vAssume":
		st.assume(x.asTerm(args[0]))
		return one(st), true
	case "vRequire":
		c := st.simp(x.asTerm(args[2]))
		if c != True {
			x.oblige(st, "requires", str(1), propList(args[0]), pos, c)
			st.assume(c)
		}
		return one(st), true
	case "vEnsure":
		c := x.asTerm(args[2])
		x.oblige(st, "ensures", str(1), propList(args[0]), pos, c)
		st.assume(c)
		return one(st), true
	case "vSame":
		x.same(st, propList(args[0]), str(1), args[2], args[3], nil, pos)
		return one(st), true
	case "vEq":
		return one(st, x.eqAny(st, args[0], args[1])), true
	case "vCover":
		if x.discover == 0 && x.quiet == 0 && !st.dead {
			x.obls = append(x.obls, &Oblig{kind: "cover", name: str(0), pos: x.posStr(pos), pc: st.pc[:len(st.pc):len(st.pc)], cover: true, goal: True})
		}
		return one(st), true
	case "vErr":
		x.errCtr++
		e := Var(fmt.Sprintf("err!%d", x.errCtr), BV(32))
		st.assume(Ne(e, Const(32, 0)))
		return one(st, e), true
	case "vHavoc":
		p := args[0].(VIface)
		pt := p.t.Underlying().(*types.Pointer)
		ptr := x.ptr(st, p.v, pos)
		x.errCtr++
		st.heap[ptr.obj] = x.setPath(st, x.load(st, ptr.obj), ptr.path, x.expand(pt.Elem(), fmt.Sprintf("havoc!%d", x.errCtr), nil))
		return one(st), true
	case "vPart":
		t := x.asTerm(args[0])
		if t.isConst() {
			st.part = t.sval()
		}
		return one(st), true
	case "vSafety":
		x.safeProp = propList(args[0])
		return one(st), true
	case "vTerminates":
		x.termination = x.asTerm(args[0]) == True
		return one(st), true
	case "vTrace":
		return one(st, VSymIface{App("pair", SRef, st.heap[x.traceObj].(*Term), st.heap[x.clockObj].(*Term))}), true
	case "vTraceReset":
		st.heap[x.traceObj] = App("trace0", SRef)
		st.heap[x.clockObj] = App("clock0", SRef)
		st.heap[x.flagObj] = VList{}
		return one(st), true
	case "vRun":
		f := args[0].(VFunc)
		outs := x.callFn(st, f.fn, nil, f.bind, pos)
		var res []Outcome
		regs := st.regs
		for _, o := range outs {
			if o.exit != nil {
				o.st.regs = copyRegs(regs)
				res = append(res, Outcome{st: o.st, ret: []Value{True, o.exit}})
			} else {
				res = append(res, Outcome{st: o.st, ret: []Value{False, I64(0)}})
			}
		}
		return x.groupOutcomes(res, true), true
	case "vNote":
		return one(st), true
	}
	unsup("intrinsic %s", fn.Name())
	return nil, true
}

func unwrap(v Value) (Value, types.Type) {
	if i, ok := v.(VIface); ok && i.t != nil {
		return i.v, i.t
	}
	return v, nil
}

func (x *Exec) eqAny(st *State, a, b Value) *Term {
	av, at := unwrap(a)
	bv, bt := unwrap(b)
	if at != nil && bt != nil {
		if !types.Identical(at, bt) {
			return False
		}
		return x.deepEq(st, av, st, bv, at)
	}
	return x.deepEq(st, a, st, b, nil)
}

// same obliges equality field by field.
func (x *Exec) same(st *State, props []string, name string, a, b Value, t types.Type, pos token.Pos) {
	if t == nil {
		av, at := unwrap(a)
		bv, bt := unwrap(b)
		if at != nil && bt != nil && types.Identical(at, bt) {
			a, b, t = av, bv, at
		} else {
			x.oblige(st, "ensures", name, props, pos, x.eqAny(st, a, b))
			return
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pa, ok1 := a.(VPtr)
		pb, ok2 := b.(VPtr)
		if ok1 && ok2 && pa.obj != 0 && pb.obj != 0 {
			x.same(st, props, name, x.getPath(st, x.load(st, pa.obj), pa.path, x.objs[pa.obj].typ), x.getPath(st, x.load(st, pb.obj), pb.path, x.objs[pb.obj].typ), p.Elem(), pos)
			return
		}
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		va, ok1 := a.(VStruct)
		vb, ok2 := b.(VStruct)
		if ok1 && ok2 {
			for i := range va.f {
				if u.Field(i).Name() == "_" {
					continue
				}
				x.same(st, props, name+"."+u.Field(i).Name(), va.f[i], vb.f[i], u.Field(i).Type(), pos)
			}
			return
		}
	}
	x.oblige(st, "ensures", name, props, pos, x.deepEq(st, a, st, b, t))
}

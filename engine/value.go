package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Value is *Term (integers, bools, floats, strings, errors) or one of the V types.
type Value interface{}

type VSlice struct {
	obj           int // 0: no backing array
	off, len, cap *Term
	isnil         *Term
}
type PE struct {
	fld int
	idx *Term // element access when not nil
}
type VPtr struct {
	obj  int
	path []PE
}
type VStruct struct{ f []Value }

// VList is the content of a non-byte array or slice: a symbolic prefix and known elements.
type VList struct {
	base *Term // nil: empty prefix
	tail []Value
}
type VIface struct {
	t types.Type
	v Value
}
type VSymIface struct{ ref *Term }
type VOpaque struct{ ref *Term }
type VFunc struct {
	fn   *ssa.Function
	bind []Value
	nilf bool
}
type VMap struct {
	ref   *Term
	isnil *Term
}
type VTime struct{ sec, nsec *Term }
type Alt struct {
	c *Term
	v Value
}
type VUnion struct{ alts []Alt }
type VTuple []Value
type VPoison struct{ why string }

type Obj struct {
	id       int
	typ      types.Type // element type for backing arrays, else the pointee type
	backing  bool
	name     string
	readonly string // non-empty: writing breaks the frame
	global   bool
	lazy     Value
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// width and signedness of an integer type
func intW(t types.Type) (w int, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, k := t.Underlying().(*types.Basic)
	return k && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, k := t.Underlying().(*types.Basic)
	return k && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, k := t.Underlying().(*types.Basic)
	return k && b.Info()&types.IsBoolean != 0
}

const zeroTimeSec = -62135596800

func repoPath(p string) bool {
	return strings.HasPrefix(p, "github.com/kuznetsovin/egts-protocol")
}

// external struct types are opaque
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if repoPath(p) {
		return protoMessage(n)
	}
	switch p {
	case "bytes":
		return n.Obj().Name() != "Reader" && n.Obj().Name() != "Buffer"
	case "encoding/binary", "strings":
		return n.Obj().Name() == "Builder"
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return false // plain data such as options structs
		}
	}
	return true
}

func (x *Exec) zero(t types.Type) Value {
	if isTime(t) {
		return VTime{I64(zeroTimeSec), I64(0)}
	}
	if isBuffer(t) {
		return mkBuf(SEmpty, I64(0), 0, I64(0))
	}
	if isErr(t) {
		return Const(32, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intW(t); ok {
			return Const(w, 0)
		}
		switch {
		case isBool(t):
			return False
		case isString(t):
			return SEmpty
		case isFloat(t):
			return RatI(0)
		}
		if u.Kind() == types.UnsafePointer {
			return VPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return VIface{}
		}
	case *types.Struct:
		if opaqueStruct(t) {
			return VOpaque{App("zero:"+t.String(), SRef)}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Pointer:
		if opaquePtr(t) {
			return VOpaque{nilRef}
		}
		return VPtr{}
	case *types.Slice:
		return VSlice{0, I64(0), I64(0), I64(0), True}
	case *types.Array:
		if isByteT(u.Elem()) {
			return SFill(Const(8, 0), I64(u.Len()))
		}
		l := VList{}
		if u.Len() > 4096 {
			unsup("array too large")
		}
		for i := int64(0); i < u.Len(); i++ {
			l.tail = append(l.tail, x.zero(u.Elem()))
		}
		return l
	case *types.Interface:
		return VIface{}
	case *types.Map:
		return VMap{App("nilmap", SRef), True}
	case *types.Signature:
		return VFunc{nilf: true}
	case *types.Chan:
		return VOpaque{nilRef}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.zero(u.At(i).Type()))
		}
		return r
	}
	unsup("zero of %v", t)
	return nil
}

var nilRef = App("nilref", SRef)

// pointers to external struct types are opaque handles, except a few plain ones
func opaquePtr(t types.Type) bool {
	if n, ok := types.Unalias(t.Underlying().(*types.Pointer).Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && repoPath(n.Obj().Pkg().Path()) {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if isTime(p.Elem()) || isBuffer(p.Elem()) {
		return false
	}
	return opaqueStruct(p.Elem())
}

func sortFor(t types.Type) (Sort, bool) {
	if isErr(t) {
		return BV(32), true
	}
	if w, _, ok := intW(t); ok {
		return BV(w), true
	}
	switch {
	case isBool(t):
		return SBool, true
	case isString(t):
		return SSeq, true
	case isFloat(t):
		return SReal, true
	}
	return Sort{}, false
}

// expand gives the value of type t denoted by the function symbol name applied to args.
func (x *Exec) expand(t types.Type, name string, args []*Term) Value {
	if s, ok := sortFor(t); ok {
		return x.symApp(name, s, args)
	}
	if isTime(t) {
		return VTime{x.symApp(name+".sec", BV(64), args), x.symApp(name+".nsec", BV(64), args)}
	}
	if isBuffer(t) {
		return mkBuf(x.symApp(name+".buf", SSeq, args), I64(0), 0, I64(0))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			return VOpaque{x.symApp(name, SRef, args)}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = x.expand(u.Field(i).Type(), name+"."+u.Field(i).Name(), args)
		}
		return VStruct{f}
	case *types.Slice:
		key := "slice|" + name + "|" + u.Elem().String() + "|" + argKey(args)
		o, ok := x.lazyObj[key]
		var ln, nl *Term
		if isByteT(u.Elem()) {
			seq := x.symApp(name, SSeq, args)
			ln = SLen(seq)
			nl = x.symApp(name+".nil", SBool, args)
			if !ok {
				o = x.newObj(u.Elem(), true, name)
				o.lazy = seq
			}
		} else {
			b := x.symApp(name, SLst, args)
			ln = LLen(b)
			nl = x.symApp(name+".nil", SBool, args)
			if !ok {
				o = x.newObj(u.Elem(), true, name)
				o.lazy = VList{base: b}
			}
		}
		x.lazyObj[key] = o
		return VSlice{o.id, I64(0), ln, ln, And(Eq(ln, I64(0)), nl)}
	case *types.Array:
		if isByteT(u.Elem()) {
			bs := make([]*Term, u.Len())
			for i := range bs {
				bs[i] = x.symApp(fmt.Sprintf("%s[%d]", name, i), BV(8), args)
			}
			return SVec(bs...)
		}
		l := VList{}
		for i := int64(0); i < u.Len(); i++ {
			l.tail = append(l.tail, x.expand(u.Elem(), fmt.Sprintf("%s[%d]", name, i), args))
		}
		return l
	case *types.Pointer:
		if opaquePtr(t) {
			return VOpaque{x.symApp(name, SRef, args)}
		}
		key := "ptr|" + name + "|" + t.String() + "|" + argKey(args)
		o, ok := x.lazyObj[key]
		if !ok {
			o = x.newObj(u.Elem(), false, name)
			o.lazy = x.expand(u.Elem(), name+"*", args)
			x.lazyObj[key] = o
		}
		return VPtr{obj: o.id}
	case *types.Interface:
		return VSymIface{x.symApp(name, SRef, args)}
	case *types.Map:
		r := x.symApp(name, SRef, args)
		return VMap{r, App("mapnil", SBool, r)}
	case *types.Signature, *types.Chan:
		return VOpaque{x.symApp(name, SRef, args)}
	}
	unsup("expand %v", t)
	return nil
}

func (x *Exec) symApp(name string, s Sort, args []*Term) *Term {
	if len(args) == 0 {
		return Var(name, s)
	}
	return App(name, s, args...)
}

func argKey(args []*Term) string {
	var sb strings.Builder
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	return sb.String()
}

func (x *Exec) newObj(t types.Type, backing bool, name string) *Obj {
	o := &Obj{id: len(x.objs), typ: t, backing: backing, name: name}
	x.objs = append(x.objs, o)
	return o
}

func (x *Exec) tagOf(t types.Type) *Term {
	k := t.String()
	if n, ok := x.tags[k]; ok {
		return Const(32, uint64(n))
	}
	n := len(x.tags) + 1
	x.tags[k] = n
	x.tagTypes = append(x.tagTypes, t)
	return Const(32, uint64(n))
}

func symTag(ref *Term) *Term {
	if ref.op == OIte {
		return Ite(ref.args[0], symTag(ref.args[1]), symTag(ref.args[2]))
	}
	if ref == nilRef {
		return Const(32, 0)
	}
	return App("tag", BV(32), ref)
}

// payload of a symbolic interface value under dynamic type t
func (x *Exec) symPayload(ref *Term, t types.Type) Value {
	return x.expand(t, "pl", []*Term{ref})
}

// ---------- state

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type State struct {
	pc     []*Term
	heap   map[int]Value
	regs   map[ssa.Value]Value
	defers []deferred
	dead   bool
	loop   *LoopRec // innermost enclosing loop being analysed
	part   int64    // states of different parts are not joined
}

func (s *State) fork() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[int]Value, len(s.heap)+8), regs: make(map[ssa.Value]Value, len(s.regs)+8), defers: s.defers[:len(s.defers):len(s.defers)], loop: s.loop, part: s.part}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}

func (s *State) assume(c *Term) bool {
	for _, a := range conjuncts(c) {
		a = s.simp(a)
		if a == True {
			continue
		}
		if a == False {
			s.dead = true
			return false
		}
		if a.op == OAnd {
			if !s.assume(a) {
				return false
			}
			continue
		}
		s.pc = append(s.pc, a)
	}
	return true
}

// simp decides or simplifies a condition syntactically from the path condition.
func (s *State) simp(c *Term) *Term {
	if c.isConst() {
		return c
	}
	n := Not(c)
	for _, p := range s.pc {
		if p == c {
			return True
		}
		if p == n {
			return False
		}
	}
	switch c.op {
	case OAnd, OOr:
		ch := false
		args := make([]*Term, len(c.args))
		for i, a := range c.args {
			args[i] = s.simp(a)
			ch = ch || args[i] != a
		}
		if ch {
			return rebuild(c, args)
		}
	case ONot:
		if c.args[0].op == OAnd || c.args[0].op == OOr {
			r := s.simp(c.args[0])
			if r != c.args[0] {
				return Not(r)
			}
		}
	case OEq:
		// x == k against recorded equalities
		x, k := c.args[0], c.args[1]
		if x.isConst() {
			x, k = k, x
		}
		if k.isConst() && x.sort.K == KBV {
			for _, p := range s.pc {
				if p.op == OEq {
					y, j := p.args[0], p.args[1]
					if y.isConst() {
						y, j = j, y
					}
					if y == x && j.isConst() {
						return BoolC(j == k)
					}
				}
			}
		}
	}
	return c
}

func (x *Exec) load(s *State, obj int) Value {
	if v, ok := s.heap[obj]; ok {
		return v
	}
	if o := x.objs[obj]; o.lazy != nil {
		return o.lazy
	}
	unsup("unallocated object %s", x.objs[obj].name)
	return nil
}

// ---------- paths

func (x *Exec) getPath(s *State, v Value, path []PE, t types.Type) Value {
	if len(path) == 0 {
		return v
	}
	switch w := v.(type) {
	case VUnion:
		var alts []Alt
		for _, a := range w.alts {
			alts = append(alts, Alt{a.c, x.getPath(s, a.v, path, t)})
		}
		return mkUnion(alts)
	case VPoison:
		return w
	}
	p := path[0]
	if p.idx == nil {
		st, ok := v.(VStruct)
		if !ok {
			unsup("field of %T", v)
		}
		return x.getPath(s, st.f[p.fld], path[1:], fieldType(t, p.fld))
	}
	switch w := v.(type) {
	case *Term: // byte sequence
		return SAt(w, p.idx)
	case VList:
		et := elemType(t)
		return x.getPath(s, x.listAt(s, w, p.idx, et), path[1:], et)
	}
	unsup("element of %T", v)
	return nil
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(i).Type()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return t
}

// elemFact assumes what is known of every element of an arbitrary list.
func (x *Exec) elemFact(s *State, pr VFunc, e Value, in *Term) {
	n := s.fork()
	n.pc = nil
	outs := x.callValue(n, pr, nil, []Value{e}, token.NoPos)
	fact := False
	for _, o := range outs {
		if o.exit != nil || len(o.ret) != 1 {
			continue
		}
		fact = Or(fact, And(append(append([]*Term(nil), o.st.pc...), x.asTerm(o.ret[0]))...))
	}
	if in != True && x.hold(s.pc, in, 2*time.Second) {
		in = True
	}
	s.assume(Or(Not(in), fact))
}

func (x *Exec) listAt(s *State, l VList, i *Term, et types.Type) Value {
	if l.base == nil {
		if i.isConst() {
			if i.val < uint64(len(l.tail)) {
				return l.tail[i.val]
			}
			unsup("list index")
		}
		if len(l.tail) == 0 {
			return x.zero(et)
		}
		v := l.tail[len(l.tail)-1]
		for k := len(l.tail) - 2; k >= 0; k-- {
			v = x.merge(s, Eq(i, I64(int64(k))), l.tail[k], v)
		}
		return v
	}
	n := LLen(l.base)
	inBase := Ult(i, n)
	if s != nil {
		inBase = s.simp(inBase)
	}
	if et == nil {
		unsup("list element type")
	}
	if pr, ok := x.elemFacts[l.base]; ok && s != nil && inBase != False {
		x.elemFact(s, pr, x.expand(et, "el:"+et.String(), []*Term{l.base, i}), inBase)
	}
	if inBase == True || len(l.tail) == 0 {
		return x.expand(et, "el:"+et.String(), []*Term{l.base, i})
	}
	v := x.listAt(s, VList{tail: l.tail}, Sub(i, n), et)
	if inBase == False {
		return v
	}
	return x.merge(s, inBase, x.expand(et, "el:"+et.String(), []*Term{l.base, i}), v)
}

func (x *Exec) setPath(s *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	if u, ok := v.(VUnion); ok {
		var alts []Alt
		for _, a := range u.alts {
			alts = append(alts, Alt{a.c, x.setPath(s, a.v, path, nv)})
		}
		return mkUnion(alts)
	}
	p := path[0]
	if p.idx == nil {
		st, ok := v.(VStruct)
		if !ok {
			unsup("store to field of %T", v)
		}
		f := append([]Value(nil), st.f...)
		f[p.fld] = x.setPath(s, f[p.fld], path[1:], nv)
		return VStruct{f}
	}
	switch w := v.(type) {
	case *Term:
		return SUpd(w, p.idx, nv.(*Term))
	case VList:
		i := p.idx
		tail := append([]Value(nil), w.tail...)
		if w.base != nil {
			i = Sub(i, LLen(w.base))
		}
		if i.isConst() && i.val < uint64(len(tail)) {
			tail[i.val] = x.setPath(s, tail[i.val], path[1:], nv)
			return VList{w.base, tail}
		}
		if w.base == nil && len(tail) <= 64 {
			for k := range tail {
				tail[k] = x.merge(s, Eq(i, I64(int64(k))), x.setPath(s, tail[k], path[1:], nv), tail[k])
			}
			return VList{nil, tail}
		}
	}
	unsup("store to element of %T", v)
	return nil
}

// ---------- unions and merging

func mkUnion(alts []Alt) Value {
	var out []Alt
	for _, a := range alts {
		if a.c == False {
			continue
		}
		if u, ok := a.v.(VUnion); ok {
			for _, b := range u.alts {
				if c := And(a.c, b.c); c != False {
					out = append(out, Alt{c, b.v})
				}
			}
			continue
		}
		out = append(out, a)
	}
	// join equal values, and plain terms of one sort
	var res []Alt
next:
	for _, a := range out {
		for i := range res {
			if sameVal(res[i].v, a.v) {
				res[i].c = Or(res[i].c, a.c)
				continue next
			}
			t1, ok1 := res[i].v.(*Term)
			t2, ok2 := a.v.(*Term)
			if ok1 && ok2 && t1.sort == t2.sort {
				res[i].v = Ite(a.c, t2, t1)
				res[i].c = Or(res[i].c, a.c)
				continue next
			}
		}
		res = append(res, a)
	}
	if len(res) == 1 {
		return res[0].v
	}
	return VUnion{res}
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x == y
	case VPtr:
		y, ok := b.(VPtr)
		return ok && samePtr(x, y)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case VList:
		y, ok := b.(VList)
		if !ok || x.base != y.base || len(x.tail) != len(y.tail) {
			return false
		}
		for i := range x.tail {
			if !sameVal(x.tail[i], y.tail[i]) {
				return false
			}
		}
		return true
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case VSymIface:
		y, ok := b.(VSymIface)
		return ok && x == y
	case VOpaque:
		y, ok := b.(VOpaque)
		return ok && x == y
	case VMap:
		y, ok := b.(VMap)
		return ok && x == y
	case VTime:
		y, ok := b.(VTime)
		return ok && x == y
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.fn != y.fn || x.nilf != y.nilf || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case VUnion:
		y, ok := b.(VUnion)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].c != y.alts[i].c || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case VPoison:
		_, ok := b.(VPoison)
		return ok
	case nil:
		return b == nil
	}
	return false
}

func samePtr(x, y VPtr) bool {
	if x.obj != y.obj || len(x.path) != len(y.path) {
		return false
	}
	for i := range x.path {
		if x.path[i] != y.path[i] {
			return false
		}
	}
	return true
}

func (x *Exec) mergeIn(st *State, c *Term, a, b Value) Value { return x.merge(st, c, a, b) }

// mergeListSlices joins two non-byte slices over different arrays by content.
func (x *Exec) mergeListSlices(st *State, c *Term, a, b VSlice) (r Value, ok bool) {
	if st == nil {
		return nil, false
	}
	var et types.Type
	for _, o := range []int{a.obj, b.obj} {
		if o != 0 {
			et = x.objs[o].typ
		}
	}
	if et == nil || isByteT(et) {
		return nil, false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(Unsupported); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	ta := x.listTerm(st, x.sliceList(st, a), et)
	tb := x.listTerm(st, x.sliceList(st, b), et)
	o := x.newObj(et, true, "joined list")
	st.heap[o.id] = VList{base: Ite(c, ta, tb)}
	n := LLen(Ite(c, ta, tb))
	return VSlice{o.id, I64(0), n, n, Ite(c, a.isnil, b.isnil)}, true
}

// mergeSpecBytes joins two byte slices of a specification, which never writes through them.
func (x *Exec) mergeSpecBytes(st *State, c *Term, a, b VSlice) (r Value, ok bool) {
	if st == nil || len(x.stack) == 0 || !x.isSpecFn(x.stack[len(x.stack)-1]) {
		return nil, false
	}
	for _, o := range []int{a.obj, b.obj} {
		if o != 0 && !isByteT(x.objs[o].typ) {
			return nil, false
		}
	}
	ta, ok1 := x.sliceSeq(st, a).(*Term)
	tb, ok2 := x.sliceSeq(st, b).(*Term)
	if !ok1 || !ok2 {
		return nil, false
	}
	pre, ra, rb := commonPrefix(ta, tb)
	t := Ite(c, ra, rb)
	if len(pre) > 0 {
		t = SCat(append(pre, t)...)
	}
	v := x.newBytes(st, t, "joined")
	v.isnil = Ite(c, a.isnil, b.isnil)
	return v, true
}

func (x *Exec) merge(st *State, c *Term, a, b Value) Value {
	if c == True || sameVal(a, b) {
		return a
	}
	if c == False {
		return b
	}
	switch v := a.(type) {
	case *Term:
		if w, ok := b.(*Term); ok && w.sort == v.sort {
			return Ite(c, v, w)
		}
	case VStruct:
		if w, ok := b.(VStruct); ok && len(w.f) == len(v.f) {
			f := make([]Value, len(v.f))
			for i := range f {
				f[i] = x.merge(st, c, v.f[i], w.f[i])
			}
			return VStruct{f}
		}
	case VTime:
		if w, ok := b.(VTime); ok {
			return VTime{Ite(c, v.sec, w.sec), Ite(c, v.nsec, w.nsec)}
		}
	case VSlice:
		if w, ok := b.(VSlice); ok && (w.obj == v.obj) {
			return VSlice{v.obj, Ite(c, v.off, w.off), Ite(c, v.len, w.len), Ite(c, v.cap, w.cap), Ite(c, v.isnil, w.isnil)}
		} else if ok {
			if r, ok := x.mergeListSlices(st, c, v, w); ok {
				return r
			}
			if r, ok := x.mergeSpecBytes(st, c, v, w); ok {
				return r
			}
		}
	case VList:
		if w, ok := b.(VList); ok && v.base == w.base && len(v.tail) == len(w.tail) {
			l := VList{base: v.base}
			for i := range v.tail {
				l.tail = append(l.tail, x.merge(st, c, v.tail[i], w.tail[i]))
			}
			return l
		}
	case VIface:
		if w, ok := b.(VIface); ok && v.t != nil && w.t != nil && types.Identical(v.t, w.t) {
			if _, isp := v.v.(VPtr); !isp {
				return VIface{v.t, x.merge(st, c, v.v, w.v)}
			}
		}
	case VSymIface:
		if w, ok := b.(VSymIface); ok {
			return VSymIface{Ite(c, v.ref, w.ref)}
		}
	case VOpaque:
		if w, ok := b.(VOpaque); ok {
			return VOpaque{Ite(c, v.ref, w.ref)}
		}
	case VMap:
		if w, ok := b.(VMap); ok {
			return VMap{Ite(c, v.ref, w.ref), Ite(c, v.isnil, w.isnil)}
		}
	case VTuple:
		if w, ok := b.(VTuple); ok && len(v) == len(w) {
			r := make(VTuple, len(v))
			for i := range v {
				r[i] = x.merge(st, c, v[i], w[i])
			}
			return r
		}
	}
	return mkUnion([]Alt{{c, a}, {Not(c), b}})
}

// joinConds gives the condition that selects a, the shared path condition and the two rests.
func (x *Exec) joinConds(a, b *State) (cond *Term, common []*Term, ca, cb *Term) {
	inB := map[*Term]bool{}
	for _, t := range b.pc {
		inB[t] = true
	}
	var ra, rb []*Term
	isC := map[*Term]bool{}
	for _, t := range a.pc {
		if inB[t] {
			common = append(common, t)
			isC[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !isC[t] {
			rb = append(rb, t)
		}
	}
	rbs := map[*Term]bool{}
	for _, t := range rb {
		rbs[t] = true
	}
	for _, t := range ra {
		if rbs[Not(t)] {
			cond = t
			break
		}
	}
	ca, cb = And(ra...), And(rb...)
	if cond == nil {
		// the side with the simpler condition names the choice
		if len(conjuncts(cb)) < len(conjuncts(ca)) {
			cond = Not(cb)
		} else {
			cond = ca
		}
	}
	return
}

func (x *Exec) joinCond(a, b *State) *Term {
	c, _, _, _ := x.joinConds(a, b)
	return c
}

// mergeStates joins two disjoint states of one frame.
func (x *Exec) mergeStates(a, b *State) *State {
	if a.dead {
		return b
	}
	if b.dead {
		return a
	}
	cond, common, ca, cb := x.joinConds(a, b)
	n := &State{loop: a.loop, part: a.part, heap: map[int]Value{}, regs: map[ssa.Value]Value{}, defers: a.defers}
	n.pc = common
	n.assume(Or(ca, cb))
	var both []int
	other := map[int]Value{}
	for k, v := range a.heap {
		n.heap[k] = v
		if w, ok := b.heap[k]; ok {
			if !sameVal(v, w) {
				both = append(both, k)
				other[k] = w
			}
		} else if o := x.objs[k]; o.lazy != nil {
			both = append(both, k)
			other[k] = o.lazy
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok {
			n.heap[k] = w
			if o := x.objs[k]; o.lazy != nil {
				n.heap[k] = o.lazy
				both = append(both, k)
				other[k] = w
			}
		}
	}
	sort.Slice(both, func(i, j int) bool {
		bi, bj := x.objs[both[i]].backing, x.objs[both[j]].backing
		if bi != bj {
			return bi
		}
		return both[i] < both[j]
	})
	for _, k := range both {
		n.heap[k] = x.merge(n, cond, n.heap[k], other[k])
	}
	var rk []ssa.Value
	for k := range a.regs {
		if _, ok := b.regs[k]; ok {
			rk = append(rk, k)
		}
	}
	sort.Slice(rk, func(i, j int) bool { return rk[i].Name() < rk[j].Name() })
	for _, k := range rk {
		n.regs[k] = x.merge(n, cond, a.regs[k], b.regs[k])
	}
	for k, v := range a.regs {
		if _, ok := b.regs[k]; ok {
		} else {
			n.regs[k] = v
		}
	}
	for k, w := range b.regs {
		if _, ok := a.regs[k]; !ok {
			n.regs[k] = w
		}
	}
	if len(a.defers) != len(b.defers) {
		unsup("conditional defer")
	}
	return n
}

// ---------- deep comparison and flattening

// content of a byte slice as a sequence
func (x *Exec) sliceSeq(s *State, v VSlice) Value {
	if v.obj == 0 {
		return SEmpty
	}
	return mapUnion(x.load(s, v.obj), func(w Value) Value {
		t, ok := w.(*Term)
		if !ok || t.sort != SSeq {
			unsup("byte slice over %T", w)
		}
		return SSub(t, v.off, v.len)
	})
}

func mapUnion(v Value, f func(Value) Value) Value {
	if u, ok := v.(VUnion); ok {
		var alts []Alt
		for _, a := range u.alts {
			alts = append(alts, Alt{a.c, mapUnion(a.v, f)})
		}
		return mkUnion(alts)
	}
	return f(v)
}

func (x *Exec) listLen(l VList) *Term {
	n := I64(int64(len(l.tail)))
	if l.base != nil {
		n = Add(LLen(l.base), n)
	}
	return n
}

// sliceList is the visible part of a non-byte slice as a list
func (x *Exec) sliceList(s *State, v VSlice) Value {
	if v.obj == 0 {
		return VList{}
	}
	return mapUnion(x.load(s, v.obj), func(w Value) Value {
		l, ok := w.(VList)
		if !ok {
			unsup("slice over %T", w)
		}
		if v.off.isConst() && v.off.val == 0 && v.len == x.listLen(l) {
			return l
		}
		if l.base == nil && v.off.isConst() && v.len.isConst() && v.off.val+v.len.val <= uint64(len(l.tail)) {
			return VList{tail: l.tail[v.off.val : v.off.val+v.len.val]}
		}
		if l.base != nil {
			// prefix of known elements dropped from the end
			for k := 0; k <= len(l.tail); k++ {
				if v.off.isConst() && v.off.val == 0 && v.len == Add(LLen(l.base), I64(int64(k))) {
					return VList{l.base, l.tail[:k]}
				}
			}
		}
		unsup("partial list slice")
		return nil
	})
}

func (x *Exec) structural(t types.Type) bool { return true }

// deepEq is semantic equality of two values of type t in their states.
func (x *Exec) deepEq(sa *State, a Value, sb *State, b Value, t types.Type) *Term {
	if u, ok := a.(VUnion); ok {
		var cs []*Term
		for _, al := range u.alts {
			cs = append(cs, Implies(al.c, x.deepEq(sa, al.v, sb, b, t)))
		}
		return And(cs...)
	}
	if u, ok := b.(VUnion); ok {
		var cs []*Term
		for _, al := range u.alts {
			cs = append(cs, Implies(al.c, x.deepEq(sa, a, sb, al.v, t)))
		}
		return And(cs...)
	}
	switch v := a.(type) {
	case *Term:
		w, ok := b.(*Term)
		if !ok {
			return False
		}
		if v.sort == SSeq {
			return SEq(v, w)
		}
		return Eq(v, w)
	case VTime:
		w := b.(VTime)
		return And(Eq(v.sec, w.sec), Eq(v.nsec, w.nsec))
	case VStruct:
		w, ok := b.(VStruct)
		if !ok {
			return False
		}
		var cs []*Term
		for i := range v.f {
			if st, ok := t.Underlying().(*types.Struct); ok && st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, x.deepEq(sa, v.f[i], sb, w.f[i], fieldType(t, i)))
		}
		return And(cs...)
	case VSlice:
		w, ok := b.(VSlice)
		if !ok {
			return False
		}
		et := t.Underlying().(*types.Slice).Elem()
		if isByteT(et) {
			return x.deepEq(sa, x.sliceSeq(sa, v), sb, x.sliceSeq(sb, w), types.Typ[types.String])
		}
		return x.deepEqList(sa, x.sliceList(sa, v), sb, x.sliceList(sb, w), et)
	case VList:
		w, ok := b.(VList)
		if !ok {
			return False
		}
		return x.deepEqList(sa, v, sb, w, elemType(t))
	case VPtr:
		w, ok := b.(VPtr)
		if !ok {
			return False
		}
		if v.obj == 0 || w.obj == 0 {
			return BoolC(v.obj == w.obj)
		}
		if samePtr(v, w) && sa == sb {
			return True
		}
		et := t.Underlying().(*types.Pointer).Elem()
		return x.deepEq(sa, x.getPath(sa, x.load(sa, v.obj), v.path, x.objs[v.obj].typ), sb, x.getPath(sb, x.load(sb, w.obj), w.path, x.objs[w.obj].typ), et)
	case VIface:
		switch w := b.(type) {
		case VIface:
			if v.t == nil || w.t == nil {
				return BoolC(v.t == nil && w.t == nil)
			}
			if !types.Identical(v.t, w.t) {
				return False
			}
			return x.deepEq(sa, v.v, sb, w.v, v.t)
		case VSymIface:
			if v.t == nil {
				return Eq(symTag(w.ref), Const(32, 0))
			}
			return And(Eq(symTag(w.ref), x.tagOf(v.t)), x.deepEq(sa, v.v, sb, x.symPayload(w.ref, v.t), v.t))
		}
		return False
	case VSymIface:
		switch w := b.(type) {
		case VSymIface:
			return Eq(v.ref, w.ref)
		case VIface:
			return x.deepEq(sb, b, sa, a, t)
		}
		return False
	case VOpaque:
		w, ok := b.(VOpaque)
		if !ok {
			return False
		}
		return Eq(v.ref, w.ref)
	case VMap:
		w, ok := b.(VMap)
		if !ok {
			return False
		}
		return Eq(v.ref, w.ref)
	case VFunc:
		return BoolC(sameVal(a, b))
	case VPoison:
		unsup("comparison of undetermined value (%s)", v.why)
	}
	unsup("compare %T", a)
	return nil
}

func (x *Exec) deepEqList(sa *State, a Value, sb *State, b Value, et types.Type) *Term {
	if u, ok := a.(VUnion); ok {
		var cs []*Term
		for _, al := range u.alts {
			cs = append(cs, Implies(al.c, x.deepEqList(sa, al.v, sb, b, et)))
		}
		return And(cs...)
	}
	if u, ok := b.(VUnion); ok {
		var cs []*Term
		for _, al := range u.alts {
			cs = append(cs, Implies(al.c, x.deepEqList(sa, a, sb, al.v, et)))
		}
		return And(cs...)
	}
	v, w := a.(VList), b.(VList)
	var cs []*Term
	if v.base == nil && w.base == nil {
		if len(v.tail) != len(w.tail) {
			return False
		}
	} else if v.base == nil || w.base == nil {
		// a list of unknown length against a known one
		if v.base == nil {
			return x.deepEqList(sb, b, sa, a, et)
		}
		cs = append(cs, Eq(x.listLen(v), x.listLen(w)))
		for i := range w.tail {
			cs = append(cs, x.deepEq(sa, x.listAt(sa, v, I64(int64(i)), et), sb, w.tail[i], et))
		}
		return And(cs...)
	} else {
		if len(v.tail) != len(w.tail) {
			if v.base == w.base {
				return False
			}
			return Eq(x.listTerm(sa, v, et), x.listTerm(sb, w, et))
		}
		if v.base != w.base && (strings.HasPrefix(v.base.name, "snoc:") || strings.HasPrefix(w.base.name, "snoc:") || v.base.op == OIte || w.base.op == OIte) {
			return Eq(x.listTerm(sa, v, et), x.listTerm(sb, w, et))
		}
		cs = append(cs, Eq(v.base, w.base))
	}
	for i := range v.tail {
		cs = append(cs, x.deepEq(sa, v.tail[i], sb, w.tail[i], et))
	}
	return And(cs...)
}

// flatten turns a value into terms, by content, for use as arguments of opaque functions.
func (x *Exec) flatten(s *State, v Value, t types.Type) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case VTime:
		return []*Term{w.sec, w.nsec}
	case VStruct:
		var r []*Term
		for i := range w.f {
			if st, ok := t.Underlying().(*types.Struct); ok && st.Field(i).Name() == "_" {
				continue
			}
			r = append(r, x.flatten(s, w.f[i], fieldType(t, i))...)
		}
		return r
	case VUnion:
		// flatten the alternatives and choose position by position
		var parts [][]*Term
		for _, a := range w.alts {
			parts = append(parts, x.flatten(s, a.v, t))
		}
		r := append([]*Term(nil), parts[len(parts)-1]...)
		for k := len(parts) - 2; k >= 0; k-- {
			if len(parts[k]) != len(r) {
				unsup("flatten union")
			}
			for i := range r {
				if r[i].sort != parts[k][i].sort {
					unsup("flatten union")
				}
				r[i] = Ite(w.alts[k].c, parts[k][i], r[i])
			}
		}
		return r
	case VSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if isByteT(et) {
			return x.flatten(s, x.sliceSeq(s, w), nil)
		}
		return []*Term{x.listTerm(s, x.sliceList(s, w), et)}
	case VList:
		return []*Term{x.listTerm(s, w, elemType(t))}
	case VPtr:
		if w.obj == 0 {
			return []*Term{nilRef}
		}
		et := t.Underlying().(*types.Pointer).Elem()
		fs := x.flatten(s, x.getPath(s, x.load(s, w.obj), w.path, x.objs[w.obj].typ), et)
		return []*Term{App("ref:"+et.String(), SRef, fs...)}
	case VIface:
		if w.t == nil {
			return []*Term{nilRef}
		}
		fs := x.flatten(s, w.v, w.t)
		return []*Term{App("ifc:"+w.t.String(), SRef, fs...)}
	case VSymIface:
		return []*Term{w.ref}
	case VOpaque:
		return []*Term{w.ref}
	case VMap:
		return []*Term{w.ref}
	case VFunc:
		if w.nilf {
			return []*Term{nilRef}
		}
		var fs []*Term
		for i, b := range w.bind {
			fs = append(fs, x.flatten(s, b, w.fn.FreeVars[i].Type())...)
		}
		return []*Term{App("fn:"+w.fn.String(), SRef, fs...)}
	case VPoison:
		unsup("use of undetermined value (%s)", w.why)
	}
	unsup("flatten %T", v)
	return nil
}

func (x *Exec) listTerm(s *State, v Value, et types.Type) *Term {
	if u, ok := v.(VUnion); ok {
		r := x.listTerm(s, u.alts[len(u.alts)-1].v, et)
		for k := len(u.alts) - 2; k >= 0; k-- {
			r = Ite(u.alts[k].c, x.listTerm(s, u.alts[k].v, et), r)
		}
		return r
	}
	l := v.(VList)
	b := l.base
	if b == nil {
		b = App("lnil", SLst)
	}
	for _, e := range l.tail {
		b = App("snoc:"+et.String(), SLst, append([]*Term{b}, x.flatten(s, e, et)...)...)
	}
	return b
}

func (x *Exec) valString(v Value) string {
	switch w := v.(type) {
	case *Term:
		return w.String()
	case VStruct:
		var p []string
		for _, f := range w.f {
			p = append(p, x.valString(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case VUnion:
		var p []string
		for _, a := range w.alts {
			p = append(p, a.c.String()+"→"+x.valString(a.v))
		}
		sort.Strings(p)
		return "U<" + strings.Join(p, " | ") + ">"
	case VList:
		var p []string
		if w.base != nil {
			p = append(p, w.base.String()+"…")
		}
		for _, f := range w.tail {
			p = append(p, x.valString(f))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case VSlice:
		return fmt.Sprintf("slice(o%d,%v,%v)", w.obj, w.off, w.len)
	case VPtr:
		return fmt.Sprintf("&o%d%v", w.obj, w.path)
	case VIface:
		if w.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", w.t, x.valString(w.v))
	}
	return fmt.Sprintf("%T%v", v, v)
}

// commonPrefix takes equal leading parts off two byte sequences.
func commonPrefix(a, b *Term) (pre []*Term, ra, rb *Term) {
	if a.appBase() != "cat" && b.appBase() != "cat" {
		return nil, a, b
	}
	parts := func(t *Term) []*Term {
		if t.appBase() == "cat" {
			return t.args
		}
		return []*Term{t}
	}
	pa, pb := parts(a), parts(b)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pre = append(pre, pa[0])
		pa, pb = pa[1:], pb[1:]
	}
	long := false
	for _, t := range pre {
		if t.op == OIte {
			return nil, a, b
		}
		long = long || !SLen(t).isConst()
	}
	if long {
		return pre, SCat(pa...), SCat(pb...)
	}
	return nil, a, b
}

// generated protobuf messages are opaque: only the protobuf library looks inside
func protoMessage(n *types.Named) bool {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "ProtoMessage" {
			return true
		}
	}
	return false
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library functions the code under proof calls. Every
// model used is listed as an assumption in the evidence.

// a bytes.Buffer is its content, the read position and, while it only wraps
// a caller's slice, the array it wraps
func mkBuf(seq, off *Term, obj int, base *Term) Value {
	return VStruct{[]Value{seq, off, I64(int64(obj)), base}}
}

func nilErr() *Term { return Const(32, 0) }

func one(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, ret: vs}} }

func (x *Exec) varargs(st *State, v Value) []Value {
	sl, ok := v.(VSlice)
	if !ok {
		unsup("variadic argument %T", v)
	}
	if sl.obj == 0 {
		return nil
	}
	l, ok := x.sliceList(st, sl).(VList)
	if !ok || l.base != nil {
		unsup("symbolic variadic arguments")
	}
	return l.tail
}

func (x *Exec) loadPtr(st *State, v Value, pos token.Pos) (VPtr, Value) {
	p := x.ptr(st, v, pos)
	if st.dead {
		return p, nil
	}
	return p, x.getPath(st, x.load(st, p.obj), p.path, x.objs[p.obj].typ)
}

// reader abstracts the sources io.ReadFull and friends understand.
type rdr struct {
	seq   *Term // remaining bytes
	n     *Term // how many
	slice func(lo, n *Term) VSlice
	skip  func(st *State, n *Term)
}

func (x *Exec) reader(st *State, v Value, pos token.Pos) (rdr, bool) {
	i, ok := v.(VIface)
	if !ok || i.t == nil {
		return rdr{}, false
	}
	switch i.t.String() {
	case "*bytes.Buffer":
		p, bv := x.loadPtr(st, i.v, pos)
		return x.bufRdr(st, p, bv), true
	case "*bytes.Reader":
		p, bv := x.loadPtr(st, i.v, pos)
		b := bv.(VStruct)
		s := b.f[0].(VSlice)
		off := b.f[1].(*Term)
		all := x.bytesOf(st, s)
		// position past the end reads as empty
		n := Sub(s.len, off)
		over := x.decide(st, Slt(s.len, off))
		if over != False {
			n = Ite(over, I64(0), n)
		}
		return rdr{seq: SSub(all, off, n), n: n,
			slice: func(lo, m *Term) VSlice { return x.newBytes(st, SSub(all, Add(off, lo), m), "read") },
			skip: func(st *State, m *Term) {
				_, bv := x.loadPtr(st, i.v, pos)
				b := bv.(VStruct)
				x.store(st, p, VStruct{[]Value{b.f[0], Add(off, m), I64(-1)}}, pos)
			}}, true
	}
	return rdr{}, false
}

func (x *Exec) bufRdr(st *State, p VPtr, bv Value) rdr {
	b, ok := bv.(VStruct)
	if !ok {
		unsup("buffer %T", bv)
	}
	seq, off := x.asTerm(b.f[0]), x.asTerm(b.f[1])
	id, base := x.asTerm(b.f[2]), x.asTerm(b.f[3])
	n := Sub(SLen(seq), off)
	return rdr{seq: SSub(seq, off, n), n: n,
		slice: func(lo, m *Term) VSlice {
			if id.isConst() && id.val != 0 {
				return VSlice{int(id.val), Add(base, Add(off, lo)), m, m, False}
			}
			return x.newBytes(st, SSub(seq, Add(off, lo), m), "buffer bytes")
		},
		skip: func(st *State, m *Term) {
			x.store(st, p, VStruct{[]Value{seq, Add(off, m), id, base}}, token.NoPos)
		}}
}

func (x *Exec) bufWrite(st *State, v Value, src *Term, pos token.Pos) {
	p, bv := x.loadPtr(st, v, pos)
	if st.dead {
		return
	}
	b, ok := bv.(VStruct)
	if !ok {
		unsup("buffer %T", bv)
	}
	x.store(st, p, mkBuf(SCat(x.asTerm(b.f[0]), src), x.asTerm(b.f[1]), 0, I64(0)), pos)
}

// fork2 splits on c; either side may be nil when impossible.
func (x *Exec) fork2(st *State, c *Term) (yes, no *State) {
	c = x.decide(st, c)
	if c == True {
		return st, nil
	}
	if c == False {
		return nil, st
	}
	y := st.fork()
	if !y.assume(c) {
		y = nil
	}
	if !st.assume(Not(c)) {
		return y, nil
	}
	return y, st
}

// readFull reads exactly m bytes into dst (a slice), with io.ReadFull's errors.
func (x *Exec) readFull(st *State, rv Value, m *Term, pos token.Pos, full func(st *State, seq *Term), part func(st *State, seq *Term)) []Outcome {
	r, ok := x.reader(st, rv, pos)
	if !ok {
		return nil
	}
	var outs []Outcome
	y, n := x.fork2(st, Sle(m, r.n))
	if y != nil {
		ry, _ := x.reader(y, rv, pos)
		full(y, SSub(ry.seq, I64(0), m))
		ry.skip(y, m)
		outs = append(outs, Outcome{st: y, ret: []Value{m, nilErr()}})
	}
	if n != nil {
		rn, _ := x.reader(n, rv, pos)
		part(n, rn.seq)
		rn.skip(n, rn.n)
		e := Ite(Eq(rn.n, I64(0)), Const(32, 1), Const(32, 2))
		outs = append(outs, Outcome{st: n, ret: []Value{rn.n, e}})
	}
	return outs
}

func byteSize(t types.Type) (int, bool) {
	if w, _, ok := intW(t); ok {
		b := t.Underlying().(*types.Basic)
		if b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
			return 0, false
		}
		return w / 8, true
	}
	if isBool(t) {
		return 1, true
	}
	return 0, false
}

func bytesLE(t *Term) []*Term {
	var r []*Term
	for i := 0; i < t.sort.W; i += 8 {
		r = append(r, Extract(t, i+7, i))
	}
	return r
}

func rev(b []*Term) []*Term {
	r := make([]*Term, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func isBig(order Value) bool {
	i, ok := order.(VIface)
	if !ok || i.t == nil {
		unsup("byte order")
	}
	switch i.t.String() {
	case "encoding/binary.littleEndian":
		return false
	case "encoding/binary.bigEndian":
		return true
	}
	unsup("byte order %v", i.t)
	return false
}

// binEnc is binary.Write's encoding of v.
func (x *Exec) binEnc(st *State, v Value, t types.Type, big bool) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_, pv := x.loadPtr(st, v, token.NoPos)
		return x.binEnc(st, pv, p.Elem(), big)
	}
	if _, ok := byteSize(t); ok {
		tm := x.asTerm(v)
		if tm.sort == SBool {
			tm = Ite(tm, Const(8, 1), Const(8, 0))
		}
		b := bytesLE(tm)
		if big {
			b = rev(b)
		}
		return SVec(b...)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByteT(u.Elem()) {
			return x.bytesOf(st, v)
		}
		l, ok := x.sliceList(st, v.(VSlice)).(VList)
		if !ok || l.base != nil {
			unsup("binary.Write of a symbolic list")
		}
		r := SEmpty
		for _, e := range l.tail {
			r = SCat(r, x.binEnc(st, e, u.Elem(), big))
		}
		return r
	case *types.Array:
		if isByteT(u.Elem()) {
			return x.asTerm(v)
		}
		r := SEmpty
		for _, e := range v.(VList).tail {
			r = SCat(r, x.binEnc(st, e, u.Elem(), big))
		}
		return r
	case *types.Struct:
		r := SEmpty
		for i, e := range v.(VStruct).f {
			r = SCat(r, x.binEnc(st, e, u.Field(i).Type(), big))
		}
		return r
	}
	return nil
}

func (x *Exec) model(st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Outcome, bool) {
	name := fn.String()
	pkg := pkgPathOf(fn)
	if repoPath(pkg) {
		return nil, false
	}
	if fn.Synthetic != "" && pkg == "" {
		return nil, false
	}
	r, ok := x.model1(st, fn, name, pkg, args, pos)
	if ok {
		x.trusted["model "+name] = true
	}
	return r, ok
}

func (x *Exec) model1(st *State, fn *ssa.Function, name, pkg string, args []Value, pos token.Pos) ([]Outcome, bool) {
	switch pkg {
	case "bytes":
		return x.bytesModel(st, name, args, pos)
	case "github.com/sirupsen/logrus", "log":
		return x.logModel(st, fn, name, args)
	case "time":
		return x.timeModel(st, name, args)
	case "fmt":
		return x.fmtModel(st, name, args)
	case "flag":
		return x.flagModel(st, name, args, pos)
	}
	switch name {
	case "io.ReadFull":
		d := args[1].(VSlice)
		if i, ok := args[0].(VIface); ok && i.t != nil {
			if m := x.method(i.t, "VReadFull"); m != nil {
				return x.callFn(st, m, []Value{i.v, args[1]}, nil, pos), true
			}
		}
		o := x.readFull(st, args[0], d.len, pos, func(s *State, q *Term) {
			if d.obj != 0 {
				x.writeBytes(s, d.obj, x.splice(x.asTerm(x.load(s, d.obj)), d.off, q), pos)
			}
		}, func(s *State, q *Term) {
			x.writeBytes(s, d.obj, x.splice(x.asTerm(x.load(s, d.obj)), d.off, q), pos)
		})
		if o == nil {
			unsup("io.ReadFull from %s", x.valString(args[0]))
		}
		return o, true
	case "io.ReadAll", "io/ioutil.ReadAll":
		r, ok := x.reader(st, args[0], pos)
		if !ok {
			unsup("io.ReadAll")
		}
		s := x.newBytes(st, r.seq, "ReadAll")
		r.skip(st, r.n)
		return one(st, s, nilErr()), true
	case "encoding/binary.Write":
		big := isBig(args[1])
		d, ok := args[2].(VIface)
		if !ok || d.t == nil {
			unsup("binary.Write data")
		}
		q := x.binEnc(st, d.v, d.t, big)
		if q == nil {
			return one(st, Const(32, errFresh)), true // not a fixed-size value
		}
		w, ok := args[0].(VIface)
		if !ok || w.t == nil || w.t.String() != "*bytes.Buffer" {
			unsup("binary.Write to %s", x.valString(args[0]))
		}
		x.bufWrite(st, w.v, q, pos)
		return one(st, nilErr()), true
	case "encoding/binary.Read":
		big := isBig(args[1])
		d, ok := args[2].(VIface)
		if !ok || d.t == nil {
			unsup("binary.Read data")
		}
		if sl, ok := d.v.(VSlice); ok {
			o := x.readFull(st, args[0], sl.len, pos, func(s *State, q *Term) {
				x.writeBytes(s, sl.obj, x.splice(x.asTerm(x.load(s, sl.obj)), sl.off, q), pos)
			}, func(s *State, q *Term) {})
			if o == nil {
				unsup("binary.Read")
			}
			for i := range o {
				o[i].ret = o[i].ret[1:]
			}
			return o, true
		}
		pt, ok := d.t.Underlying().(*types.Pointer)
		if !ok {
			unsup("binary.Read into %v", d.t)
		}
		n, ok := byteSize(pt.Elem())
		if !ok {
			unsup("binary.Read into %v", d.t)
		}
		o := x.readFull(st, args[0], I64(int64(n)), pos, func(s *State, q *Term) {
			var bs []*Term
			for i := 0; i < n; i++ {
				bs = append(bs, SAt(q, I64(int64(i))))
			}
			if !big {
				bs = rev(bs)
			}
			v := Concat(bs...)
			if isBool(pt.Elem()) {
				v = Ne(v, Const(8, 0))
			}
			x.store(s, x.ptr(s, d.v, pos), v, pos)
		}, func(s *State, q *Term) {})
		if o == nil {
			unsup("binary.Read")
		}
		for i := range o {
			o[i].ret = o[i].ret[1:]
		}
		return o, true
	case "encoding/binary.Size":
		d := args[0].(VIface)
		if n, ok := byteSize(d.t); ok {
			return one(st, I64(int64(n))), true
		}
		unsup("binary.Size")
	case "errors.New":
		return one(st, Const(32, errFresh)), true
	case "errors.Is":
		a, b := x.asTerm(args[0]), x.asTerm(args[1])
		return one(st, Eq(a, b)), true
	case "strconv.ParseUint":
		return x.parseUint(st, args, pos), true
	case "strconv.FormatUint", "strconv.FormatInt":
		b := x.asTerm(args[1])
		if name == "strconv.FormatUint" && b.isConst() && b.val == 2 {
			return one(st, x.binDigits(st, x.asTerm(args[0]), 1)), true
		}
		return one(st, App("fmtint:"+name, SSeq, x.asTerm(args[0]), b)), true
	case "strconv.Itoa":
		return one(st, App("dec", SSeq, x.asTerm(args[0]))), true
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.ParseBool":
		var fl []*Term
		for _, a := range args {
			fl = append(fl, x.asTerm(a))
		}
		s, _ := sortFor(fn.Signature.Results().At(0).Type())
		if t := fl[0]; name == "strconv.Atoi" && t.appBase() == "dec" {
			return one(st, t.args[0], nilErr()), true
		}
		if c, ok := seqConst(fl[0]); ok && name == "strconv.Atoi" {
			v, err := strconv.Atoi(c)
			if err == nil {
				return one(st, I64(int64(v)), nilErr()), true
			}
			return one(st, I64(int64(v)), Const(32, errFresh)), true
		}
		return one(st, App(name, s, fl...), App(name+".err", BV(32), fl...)), true
	case "strings.TrimSuffix", "strings.HasSuffix", "strings.HasPrefix", "strings.TrimPrefix":
		s, suf := x.asTerm(args[0]), x.asTerm(args[1])
		n, m := SLen(s), SLen(suf)
		at := Sub(n, m)
		if strings.Contains(name, "Prefix") {
			at = I64(0)
		}
		if m.isConst() && m.val <= 64 {
			cs := []*Term{Ule(m, n)}
			for i := uint64(0); i < m.val; i++ {
				cs = append(cs, Eq(SAt(s, Add(at, I64(int64(i)))), SAt(suf, I64(int64(i)))))
			}
			has := And(cs...)
			switch name {
			case "strings.HasSuffix", "strings.HasPrefix":
				return one(st, has), true
			case "strings.TrimSuffix":
				return one(st, Ite(has, SSub(s, I64(0), Sub(n, m)), s)), true
			}
			return one(st, Ite(has, SSub(s, m, Sub(n, m)), s)), true
		}
		unsup("%s", name)
	case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.Repeat", "strings.Replace", "strings.ReplaceAll":
		if s, ok := seqConst(x.asTerm(args[0])); ok && len(args) == 1 {
			switch name {
			case "strings.ToUpper":
				s = strings.ToUpper(s)
			case "strings.ToLower":
				s = strings.ToLower(s)
			default:
				s = strings.TrimSpace(s)
			}
			return one(st, SConst(s)), true
		}
		var fl []*Term
		for i, a := range args {
			fl = append(fl, x.flatten(st, a, fn.Params[i].Type())...)
		}
		if name == "strings.Repeat" {
			if n := fl[1]; n.isConst() && n.val < 1024 {
				r := SEmpty
				for i := uint64(0); i < n.val; i++ {
					r = SCat(r, fl[0])
				}
				return one(st, r), true
			}
		}
		return one(st, App(name, SSeq, fl...)), true
	case "strings.Join":
		sep := x.asTerm(args[1])
		r := SEmpty
		for i, a := range x.varargs(st, args[0]) {
			if i > 0 {
				r = SCat(r, sep)
			}
			r = SCat(r, x.asTerm(a))
		}
		return one(st, r), true
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		i, ok := args[0].(VIface)
		if !ok || i.t == nil {
			unsup("json of %s", x.valString(args[0]))
		}
		t, v := i.t, i.v
		sfx := ""
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			pv, ok := v.(VPtr)
			if !ok {
				unsup("json of %T", v)
			}
			if pv.obj == 0 {
				return one(st, x.newBytes(st, SConst("null"), "json"), nilErr()), true
			}
			t = p.Elem()
			v = x.getPath(st, x.load(st, pv.obj), pv.path, x.objs[pv.obj].typ)
		}
		fl, schema := x.jsonFlat(st, v, t)
		if strings.HasSuffix(name, "Indent") {
			for _, a := range args[1:] {
				fl = append(fl, x.asTerm(a))
			}
			sfx = ":indent"
		}
		nm := "json" + sfx + ":" + schema
		return one(st, x.newBytes(st, App(nm, SSeq, fl...), "json"), App("err:"+nm, BV(32), fl...)), true
	case "os.Exit":
		return []Outcome{{st: st, exit: x.asTerm(args[0])}}, true
	case "os.ReadFile", "io/ioutil.ReadFile":
		f := x.asTerm(args[0])
		e := App("readfile.err", BV(32), f)
		b := x.newBytes(st, App("readfile", SSeq, f), "file")
		b.isnil = Ne(e, Const(32, 0))
		return one(st, b, e), true
	case "math.Round", "math.Floor", "math.Ceil", "math.Trunc", "math.Abs", "math.Mod", "math.Pow":
		var fl []*Term
		for _, a := range args {
			fl = append(fl, x.asTerm(a))
		}
		if name == "math.Abs" {
			return one(st, Ite(Rle(RatI(0), fl[0]), fl[0], Rneg(fl[0]))), true
		}
		return one(st, App(name, SReal, fl...)), true
	}
	if strings.HasSuffix(name, "yaml.v2.Unmarshal") || strings.HasSuffix(name, "yaml.v3.Unmarshal") || strings.HasSuffix(name, "yaml.Unmarshal") {
		data := x.bytesOf(st, args[0])
		i := args[1].(VIface)
		p := x.ptr(st, i.v, pos)
		old := x.getPath(st, x.load(st, p.obj), p.path, x.objs[p.obj].typ)
		x.store(st, p, x.yamlVal(st, old, i.t.Underlying().(*types.Pointer).Elem(), "", data), pos)
		return one(st, App("yaml.err", BV(32), data)), true
	}
	return nil, false
}

func (x *Exec) pkgOfType(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (x *Exec) yamlVal(st *State, old Value, t types.Type, path string, data *Term) Value {
	if u, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
		f := make([]Value, u.NumFields())
		o := old.(VStruct)
		for i := range f {
			f[i] = o.f[i]
			fl := u.Field(i)
			if !fl.Exported() {
				continue
			}
			tag := reflect.StructTag(u.Tag(i)).Get("yaml")
			parts := strings.Split(tag, ",")
			nm := parts[0]
			if nm == "-" {
				continue
			}
			if nm == "" {
				nm = strings.ToLower(fl.Name())
			}
			f[i] = x.yamlVal(st, o.f[i], fl.Type(), path+"/"+nm, data)
		}
		return VStruct{f}
	}
	v := x.expand(t, "yaml:"+path+":"+t.Underlying().String(), []*Term{data})
	return x.merge(st, App("yamlhas:"+path, SBool, data), v, old)
}

// jsonFlat lists the values in the order of the JSON text and the shape of it.
func (x *Exec) jsonFlat(st *State, v Value, t types.Type) ([]*Term, string) {
	if m := types.NewMethodSet(t); m.Lookup(nil, "MarshalJSON") != nil && !isTime(t) {
		return x.flatten(st, v, t), "custom(" + t.String() + ")"
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isTime(t) || opaqueStruct(t) {
			return x.flatten(st, v, t), t.String()
		}
		s, ok := v.(VStruct)
		if !ok {
			unsup("json of %T", v)
		}
		var fl []*Term
		var sb strings.Builder
		sb.WriteString("{")
		for i := range s.f {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			nm := strings.Split(tag, ",")
			if nm[0] == "" {
				nm[0] = f.Name()
			}
			a, sc := x.jsonFlat(st, s.f[i], f.Type())
			fl = append(fl, a...)
			sb.WriteString(strings.Join(nm, ",") + "=" + sc + ";")
		}
		sb.WriteString("}")
		return fl, sb.String()
	case *types.Slice:
		if isByteT(u.Elem()) {
			return x.flatten(st, v, t), "bytes"
		}
		// the list as a whole, with the shape of its elements; nil and empty differ
		_, sc := x.jsonFlat(st, x.expand(u.Elem(), "json shape", nil), u.Elem())
		sl, ok := v.(VSlice)
		if !ok {
			unsup("json of %T", v)
		}
		return append(x.flatJSONList(st, sl, u.Elem()), sl.isnil), "[" + sc + "]"
	}
	return x.flatten(st, v, t), t.Underlying().String()
}

// lists are flattened without element type names
func (x *Exec) flatJSONList(st *State, sl VSlice, et types.Type) []*Term {
	l, ok := x.sliceList(st, sl).(VList)
	if !ok {
		return x.flatten(st, sl, types.NewSlice(et))
	}
	b := l.base
	if b == nil {
		b = App("lnil", SLst)
	}
	for _, e := range l.tail {
		fl, _ := x.jsonFlat(st, e, et)
		b = App("jsnoc", SLst, append([]*Term{b}, fl...)...)
	}
	return []*Term{b}
}

func (x *Exec) bytesModel(st *State, name string, args []Value, pos token.Pos) ([]Outcome, bool) {
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		seq := x.bytesOf(st, args[0])
		id, base := 0, I64(0)
		if s, ok := args[0].(VSlice); ok {
			id, base = s.obj, s.off
		}
		t := x.namedType("bytes", "Buffer")
		o := x.newObj(t, false, "buffer")
		st.heap[o.id] = mkBuf(seq, I64(0), id, base)
		return one(st, VPtr{obj: o.id}), true
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		q := x.bytesOf(st, args[1])
		x.bufWrite(st, args[0], q, pos)
		return one(st, SLen(q), nilErr()), true
	case "(*bytes.Buffer).WriteByte":
		x.bufWrite(st, args[0], SVec(x.asTerm(args[1])), pos)
		return one(st, nilErr()), true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Len", "(*bytes.Buffer).Next", "(*bytes.Buffer).ReadByte", "(*bytes.Buffer).Read", "(*bytes.Buffer).ReadBytes", "(*bytes.Buffer).ReadString", "(*bytes.Buffer).Truncate", "(*bytes.Buffer).UnreadByte":
		p, bv := x.loadPtr(st, args[0], pos)
		if st.dead {
			return []Outcome{}, true
		}
		r := x.bufRdr(st, p, bv)
		switch name[len("(*bytes.Buffer)."):] {
		case "Bytes":
			s := r.slice(I64(0), r.n)
			if c := bv.(VStruct).f[2].(*Term); c.isConst() && c.val == 0 {
				// the zero buffer yields a nil slice
				s.isnil = BoolC(x.asTerm(bv.(VStruct).f[0]) == SEmpty)
			}
			return one(st, s), true
		case "String":
			return one(st, r.seq), true
		case "Len":
			return one(st, r.n), true
		case "Next":
			n := x.asTerm(args[1])
			x.safety(st, "slice", pos, Sle(I64(0), n))
			m := x.minLen(st, n, r.n)
			s := r.slice(I64(0), m)
			r.skip(st, m)
			return one(st, s), true
		case "ReadByte":
			var outs []Outcome
			y, n := x.fork2(st, Slt(I64(0), r.n))
			if y != nil {
				r.skip(y, I64(1))
				outs = append(outs, Outcome{st: y, ret: []Value{SAt(r.seq, I64(0)), nilErr()}})
			}
			if n != nil {
				outs = append(outs, Outcome{st: n, ret: []Value{Const(8, 0), Const(32, 1)}})
			}
			return outs, true
		case "Read":
			d := args[1].(VSlice)
			var outs []Outcome
			y, n := x.fork2(st, Or(Slt(I64(0), r.n), Eq(d.len, I64(0))))
			if y != nil {
				m := x.minLen(y, d.len, r.n)
				if d.obj != 0 {
					x.writeBytes(y, d.obj, x.splice(x.asTerm(x.load(y, d.obj)), d.off, SSub(r.seq, I64(0), m)), pos)
				}
				r.skip(y, m)
				outs = append(outs, Outcome{st: y, ret: []Value{m, nilErr()}})
			}
			if n != nil {
				outs = append(outs, Outcome{st: n, ret: []Value{I64(0), Const(32, 1)}})
			}
			return outs, true
		case "ReadBytes", "ReadString":
			b := x.asTerm(args[1])
			ix := SIdx(r.seq, I64(0), r.n, b)
			if len(r.seq.args) > 0 && (isVec(r.seq) || r.seq.appBase() == "cat" || r.seq.op == OIte) {
				ix = x.idxOf(st, r.seq, r.n, b)
			}
			found := Ne(ix, I64(-1))
			var outs []Outcome
			mk := func(s *State, n *Term, e *Term) {
				var v Value
				if strings.HasSuffix(name, "String") {
					v = SSub(r.seq, I64(0), n)
				} else {
					v = x.newBytes(s, SSub(r.seq, I64(0), n), "ReadBytes")
				}
				r.skip(s, n)
				outs = append(outs, Outcome{st: s, ret: []Value{v, e}})
			}
			y, n := x.fork2(st, found)
			if y != nil {
				mk(y, Add(ix, I64(1)), nilErr())
			}
			if n != nil {
				mk(n, r.n, Const(32, 1))
			}
			return outs, true
		}
		unsup("%s", name)
	case "(*bytes.Buffer).Reset":
		p, _ := x.loadPtr(st, args[0], pos)
		x.store(st, p, mkBuf(SEmpty, I64(0), 0, I64(0)), pos)
		return one(st), true
	case "(*bytes.Buffer).Grow":
		x.safety(st, "grow", pos, Sle(I64(0), x.asTerm(args[1])))
		return one(st), true
	case "bytes.Equal":
		return one(st, SEq(x.bytesOf(st, args[0]), x.bytesOf(st, args[1]))), true
	case "bytes.IndexByte":
		s := args[0].(VSlice)
		q := x.bytesOf(st, s)
		return one(st, x.idxOf(st, q, SLen(q), x.asTerm(args[1]))), true
	case "bytes.Contains", "bytes.Index", "bytes.Split", "bytes.TrimRight", "bytes.Trim":
		unsup("%s", name)
	}
	if strings.HasPrefix(name, "(*bytes.Buffer).") {
		unsup("%s", name)
	}
	return nil, false
}

// idxOf is the first index of b among the n bytes of q, or -1.
func (x *Exec) idxOf(st *State, q, n, b *Term) *Term {
	if isVec(q) {
		r := I64(-1)
		for i := len(q.args) - 1; i >= 0; i-- {
			r = Ite(Eq(q.args[i], b), I64(int64(i)), r)
		}
		return r
	}
	if q.op == OIte && n == SLen(q) {
		return Ite(q.args[0], x.idxOf(st, q.args[1], SLen(q.args[1]), b), x.idxOf(st, q.args[2], SLen(q.args[2]), b))
	}
	if q.appBase() == "cat" && n == SLen(q) {
		r := I64(-1)
		for i := len(q.args) - 1; i >= 0; i-- {
			l := SLen(q.args[i])
			p := x.idxOf(st, q.args[i], l, b)
			none := st.simp(Slt(p, I64(0)))
			if none == False {
				r = p
				continue
			}
			after := Ite(st.simp(Slt(r, I64(0))), I64(-1), Add(l, r))
			if r.isConst() && int64(r.val) >= 0 {
				after = Add(l, r)
			}
			r = Ite(none, after, p)
		}
		return r
	}
	return SIdx(q, I64(0), n, b)
}

func (x *Exec) namedType(pkg, name string) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Pkg.Scope().Lookup(name).Type()
		}
	}
	unsup("type %s.%s not loaded", pkg, name)
	return nil
}

func (x *Exec) logModel(st *State, fn *ssa.Function, name string, args []Value) ([]Outcome, bool) {
	base := fn.Name()
	switch {
	case strings.HasPrefix(base, "Fatal"), strings.HasPrefix(base, "Exit"):
		return []Outcome{{st: st, exit: I64(1)}}, true
	case strings.HasPrefix(base, "Panic"):
		x.safety(st, "panic", token.NoPos, False)
		st.dead = true
		return []Outcome{}, true
	case base == "SetLevel":
		return nil, false
	}
	var out []Value
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if _, ok := res.At(i).Type().Underlying().(*types.Pointer); ok {
			out = append(out, VOpaque{x.symApp("log:"+name, SRef, nil)})
			continue
		}
		out = append(out, x.expand(res.At(i).Type(), "log:"+name, nil))
	}
	return one(st, out...), true
}

func constI(ts ...Value) ([]int64, bool) {
	var r []int64
	for _, v := range ts {
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		r = append(r, t.sval())
	}
	return r, true
}

// timeAdd moves t by d nanoseconds. The whole seconds and the rest of a variable d are functions of
// it of which only sign and range are known.
func timeAdd(st *State, t VTime, d *Term) VTime {
	g := I64(1000000000)
	q, r := Sdiv(d, g), Srem(d, g)
	if d.op == OVar || d.op == OApp {
		q, r = App("dur.sec", BV(64), d), App("dur.nsec", BV(64), d)
		in := func(lo int64, v *Term, hi int64) *Term { return And(Sle(I64(lo), v), Sle(v, I64(hi))) }
		st.assume(Ite(Sle(I64(0), d), And(in(0, q, 9223372036), in(0, r, 999999999)), And(in(-9223372036, q, 0), in(-999999999, r, 0))))
	}
	s := Add(t.sec, q)
	n := Add(t.nsec, r)
	if n == t.nsec {
		return VTime{s, n}
	}
	over := Sle(g, n)
	under := Slt(n, I64(0))
	return VTime{Ite(over, Add(s, I64(1)), Ite(under, Sub(s, I64(1)), s)), Ite(over, Sub(n, g), Ite(under, Add(n, g), n))}
}

func (x *Exec) tick(st *State) VTime {
	c := st.heap[x.clockObj].(*Term)
	p := c
	c = App("tick", SRef, c)
	st.heap[x.clockObj] = c
	at := clockAt
	// the clock does not run backwards and shows a sensible year
	for _, t := range []VTime{at(p), at(c)} {
		st.assume(And(Sle(I64(0), t.sec), Slt(t.sec, I64(1<<36)), Sle(I64(0), t.nsec), Slt(t.nsec, I64(1000000000))))
	}
	a, b := at(p), at(c)
	st.assume(notAfter(a, b))
	return b
}

func clockAt(c *Term) VTime { return VTime{App("now.sec", BV(64), c), App("now.nsec", BV(64), c)} }

func notAfter(a, b VTime) *Term {
	return Or(Slt(a.sec, b.sec), And(Eq(a.sec, b.sec), Sle(a.nsec, b.nsec)))
}

func (x *Exec) timeModel(st *State, name string, args []Value) ([]Outcome, bool) {
	vt := func(i int) VTime {
		t, ok := args[i].(VTime)
		if !ok {
			unsup("time value %T", args[i])
		}
		return t
	}
	g := I64(1000000000)
	switch name {
	case "time.Date":
		if c, ok := constI(args[:7]...); ok {
			t := time.Date(int(c[0]), time.Month(c[1]), int(c[2]), int(c[3]), int(c[4]), int(c[5]), int(c[6]), time.UTC)
			// only the UTC zone
			if p, ok := args[7].(VOpaque); ok && !strings.Contains(p.ref.String(), "UTC") {
				unsup("time.Date in another zone")
			}
			return one(st, VTime{I64(t.Unix()), I64(int64(t.Nanosecond()))}), true
		}
		unsup("time.Date")
	case "time.Unix":
		n := x.asTerm(args[1])
		return one(st, timeAdd(st, VTime{x.asTerm(args[0]), I64(0)}, n)), true
	case "(time.Time).Add":
		return one(st, timeAdd(st, vt(0), x.asTerm(args[1]))), true
	case "(time.Time).Sub":
		a, b := vt(0), vt(1)
		return one(st, Add(Mul(Sub(a.sec, b.sec), g), Sub(a.nsec, b.nsec))), true
	case "(time.Time).Unix":
		return one(st, vt(0).sec), true
	case "(time.Time).UnixNano":
		return one(st, Add(Mul(vt(0).sec, g), vt(0).nsec)), true
	case "(time.Time).Nanosecond":
		return one(st, vt(0).nsec), true
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return one(st, args[0]), true
	case "(time.Time).IsZero":
		return one(st, And(Eq(vt(0).sec, I64(zeroTimeSec)), Eq(vt(0).nsec, I64(0)))), true
	case "(time.Time).Equal":
		return one(st, And(Eq(vt(0).sec, vt(1).sec), Eq(vt(0).nsec, vt(1).nsec))), true
	case "(time.Time).Before", "(time.Time).After":
		a, b := vt(0), vt(1)
		if name == "(time.Time).After" {
			a, b = b, a
		}
		return one(st, Or(Slt(a.sec, b.sec), And(Eq(a.sec, b.sec), Slt(a.nsec, b.nsec)))), true
	case "time.Now":
		return one(st, x.tick(st)), true
	case "time.Since":
		n := x.tick(st)
		b := vt(0)
		return one(st, Add(Mul(Sub(n.sec, b.sec), g), Sub(n.nsec, b.nsec))), true
	case "(time.Duration).Seconds":
		d := x.asTerm(args[0])
		q, r, ok := x.splitSec(d)
		if !ok {
			q, r = Sdiv(d, g), Srem(d, g)
		}
		f := S2R(q)
		if r.isConst() && r.val == 0 {
			return one(st, f), true
		}
		return one(st, FAdd(f, FDiv(S2R(r), RatI(1000000000)))), true
	case "(time.Duration).Nanoseconds":
		return one(st, args[0]), true
	case "(time.Duration).Milliseconds":
		return one(st, Sdiv(x.asTerm(args[0]), I64(1000000))), true
	case "time.Parse":
		l, v := x.asTerm(args[0]), x.asTerm(args[1])
		return one(st, VTime{App("parsetime.sec", BV(64), l, v), App("parsetime.nsec", BV(64), l, v)}, App("parsetime.err", BV(32), l, v)), true
	case "(time.Time).Format", "(time.Time).String":
		fl := []*Term{vt(0).sec, vt(0).nsec}
		if len(args) > 1 {
			fl = append(fl, x.asTerm(args[1]))
		}
		return one(st, App(name, SSeq, fl...)), true
	case "time.ParseDuration":
		v := x.asTerm(args[0])
		return one(st, App("parsedur", BV(64), v), App("parsedur.err", BV(32), v)), true
	}
	return nil, false
}

func (x *Exec) splitSec(d *Term) (q, r *Term, ok bool) { return nil, nil, false }

func (x *Exec) fmtModel(st *State, name string, args []Value) ([]Outcome, bool) {
	switch name {
	case "fmt.Errorf":
		return one(st, Const(32, errFresh)), true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return one(st, App("printed", BV(64)), nilErr()), true
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint":
		return nil, false
	case "fmt.Sprint", "fmt.Sprintln":
		r := SEmpty
		for _, a := range x.varargs(st, args[0]) {
			r = SCat(r, x.fmtArg(st, 'v', "", a))
		}
		if len(x.varargs(st, args[0])) > 1 || name == "fmt.Sprintln" {
			r = App(name, SSeq, r)
		}
		return one(st, r), true
	case "fmt.Sprintf":
		f, ok := seqConst(x.asTerm(args[0]))
		va := x.varargs(st, args[1])
		if !ok {
			unsup("symbolic format")
		}
		r := SEmpty
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				r = SCat(r, SConst(f[i:i+1]))
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				unsup("format %q", f)
			}
			flags := f[i+1 : j]
			verb := f[j]
			i = j
			if verb == '%' {
				r = SCat(r, SConst("%"))
				continue
			}
			if len(va) == 0 {
				r = SCat(r, SConst("%!"+string(verb)+"(MISSING)"))
				continue
			}
			a := va[0]
			va = va[1:]
			r = SCat(r, x.fmtArg(st, verb, flags, a))
		}
		return one(st, r), true
	}
	return nil, false
}

func (x *Exec) fmtArg(st *State, verb byte, flags string, a Value) *Term {
	if t, ok := a.(*Term); ok { // error
		return App("fmterr", SSeq, t)
	}
	i, ok := a.(VIface)
	if !ok {
		return App("fmt:"+string(verb)+flags, SSeq, x.flatten(st, a, nil)...)
	}
	if i.t == nil {
		return SConst("<nil>")
	}
	w, signed, isI := intW(i.t)
	switch verb {
	case 'b':
		if isI && !signed {
			n := 1
			if flags != "" {
				if flags[0] != '0' {
					break
				}
				n, _ = strconv.Atoi(flags)
				if n == 0 {
					break
				}
			}
			return x.binDigits(st, x.asTerm(i.v), n)
		}
	case 's', 'v':
		if flags == "" && isString(i.t) {
			return x.asTerm(i.v)
		}
		if flags == "" && verb == 's' {
			if s, ok := i.v.(VSlice); ok && isByteT(i.t.Underlying().(*types.Slice).Elem()) {
				return x.bytesOf(st, s)
			}
		}
		if isI && verb == 'v' && flags == "" {
			return x.decStr(x.asTerm(i.v), w, signed)
		}
	case 'd':
		if isI && flags == "" {
			return x.decStr(x.asTerm(i.v), w, signed)
		}
	}
	return App(fmt.Sprintf("fmt:%s%c:%s", flags, verb, i.t), SSeq, x.flatten(st, i.v, i.t)...)
}

func (x *Exec) decStr(t *Term, w int, signed bool) *Term {
	if t.isConst() {
		if signed {
			return SConst(fmt.Sprint(t.sval()))
		}
		return SConst(fmt.Sprint(t.val))
	}
	if signed {
		t = SignExt(t, 64)
	} else {
		t = ZeroExt(t, 64)
	}
	return App("dec", SSeq, t)
}

// binDigits is the base-2 text of t padded with zeros to n digits.
func (x *Exec) binDigits(st *State, t *Term, n int) *Term {
	w := t.sort.W
	dig := func(k int) *Term {
		bs := make([]*Term, k)
		for i := 0; i < k; i++ {
			pos := k - 1 - i
			if pos >= w {
				bs[i] = Const(8, '0')
			} else {
				bs[i] = Concat(Const(7, '0'>>1), Extract(t, pos, pos))
			}
		}
		return SVec(bs...)
	}
	if n >= w {
		return dig(n)
	}
	r := dig(w)
	for k := w - 1; k >= n; k-- {
		c := x.decide(st, Ult(t, Const(w, 1<<uint(k))))
		r = Ite(c, dig(k), r)
	}
	return r
}

func (x *Exec) parseUint(st *State, args []Value, pos token.Pos) []Outcome {
	s := x.asTerm(args[0])
	base, bits := x.asTerm(args[1]), x.asTerm(args[2])
	if !base.isConst() || !bits.isConst() {
		unsup("ParseUint with symbolic base")
	}
	s = st.fixSeq(s)
	var conv func(s *Term) (ok, v *Term)
	conv = func(s *Term) (*Term, *Term) {
		if s.op == OIte {
			o1, v1 := conv(s.args[1])
			o2, v2 := conv(s.args[2])
			return Ite(s.args[0], o1, o2), Ite(s.args[0], v1, v2)
		}
		if base.val == 2 && isVec(s) && len(s.args) <= 64 {
			if len(s.args) == 0 {
				return False, Const(64, 0)
			}
			nb := int(bits.val)
			if nb == 0 {
				nb = 64
			}
			var oks []*Term
			v := []*Term{}
			for i, c := range s.args {
				oks = append(oks, Or(Eq(c, Const(8, '0')), Eq(c, Const(8, '1'))))
				if len(s.args)-i > nb {
					oks = append(oks, Eq(c, Const(8, '0')))
				}
				v = append(v, Extract(c, 0, 0))
			}
			return And(oks...), ZeroExt(Concat(v...), 64)
		}
		nm := fmt.Sprintf("parseuint:%d:%d", base.val, bits.val)
		return App(nm+".ok", SBool, s), App(nm, BV(64), s)
	}
	ok, v := conv(s)
	var outs []Outcome
	y, n := x.fork2(st, ok)
	if y != nil {
		outs = append(outs, Outcome{st: y, ret: []Value{v, nilErr()}})
	}
	if n != nil {
		outs = append(outs, Outcome{st: n, ret: []Value{App("parseuint.bad", BV(64), s), Const(32, errFresh)}})
	}
	return outs
}

func (x *Exec) flagModel(st *State, name string, args []Value, pos token.Pos) ([]Outcome, bool) {
	switch name {
	case "flag.IntVar", "flag.StringVar", "flag.Float64Var", "flag.BoolVar", "flag.UintVar", "flag.Int64Var", "flag.Uint64Var", "flag.DurationVar":
		p := x.ptr(st, args[0], pos)
		nm, ok := seqConst(x.asTerm(args[1]))
		if !ok {
			unsup("symbolic flag name")
		}
		x.flagSet(st, p, args[2])
		l, _ := st.heap[x.flagObj].(VList)
		l.tail = append(l.tail[:len(l.tail):len(l.tail)], VTuple{p, SConst(nm), args[2]})
		st.heap[x.flagObj] = l
		return one(st), true
	case "flag.Int", "flag.String", "flag.Float64", "flag.Bool", "flag.Uint", "flag.Duration":
		var t types.Type
		d := args[1].(*Term)
		switch d.sort {
		case SSeq:
			t = types.Typ[types.String]
		case SReal:
			t = types.Typ[types.Float64]
		case SBool:
			t = types.Typ[types.Bool]
		default:
			t = types.Typ[types.Int]
		}
		o := x.newObj(t, false, "flag")
		st.heap[o.id] = d
		o2, _ := x.flagModel(st, "flag.IntVar", []Value{VPtr{obj: o.id}, args[0], args[1], args[2]}, pos)
		return one(o2[0].st, VPtr{obj: o.id}), true
	case "flag.Parse":
		l, _ := st.heap[x.flagObj].(VList)
		for _, e := range l.tail {
			t := e.(VTuple)
			nm, _ := seqConst(t[1].(*Term))
			d := t[2].(*Term)
			x.flagSet(st, t[0].(VPtr), Ite(App("flagset:"+nm, SBool), App("flagval:"+nm, d.sort), d))
		}
		return one(st), true
	case "flag.Usage", "flag.PrintDefaults":
		return one(st), true
	}
	return nil, false
}

func (x *Exec) flagSet(st *State, p VPtr, v Value) {
	st.heap[p.obj] = x.setPath(st, x.load(st, p.obj), p.path, v)
}

var _ = big.NewInt

func (x *Exec) method(t types.Type, name string) *ssa.Function {
	sel := x.prog.MethodSets.MethodSet(t).Lookup(x.pkgOfType(t), name)
	if sel == nil {
		return nil
	}
	return x.prog.MethodValue(sel)
}

// fixSeq spells out the parts of a text whose length is known to be a small constant.
func (s *State) fixSeq(t *Term) *Term {
	parts := []*Term{t}
	if t.appBase() == "cat" {
		parts = t.args
	}
	out := make([]*Term, len(parts))
	for i, p := range parts {
		out[i] = p
		if isVec(p) || p.op == OIte {
			continue
		}
		n := SLen(p)
		for _, f := range s.pc {
			if n.isConst() {
				break
			}
			if f.op == OEq && f.args[0] == n {
				n = f.args[1]
			} else if f.op == OEq && f.args[1] == n {
				n = f.args[0]
			}
		}
		if n.isConst() && n.val <= 16 {
			bs := make([]*Term, n.val)
			for k := range bs {
				bs[k] = SAt(p, I64(int64(k)))
			}
			out[i] = SVec(bs...)
		}
	}
	return SCat(out...)
}

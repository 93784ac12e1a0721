package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation.
type Oblig struct {
	kind  string
	name  string
	props []string
	pos   string
	fn    string
	pc    []*Term
	goal  *Term
	cover bool // satisfiability wanted instead of validity
	res   SolverResult
	ok    bool
	note  string
	model map[string]uint64
}

type Outcome struct {
	st   *State
	ret  []Value
	exit *Term // program exit code, nil for a normal return
}

type Exec struct {
	prog      *ssa.Program
	elemFacts map[*Term]VFunc // what is assumed of every element of an arbitrary list
	fset      *token.FileSet
	objs      []*Obj
	lazyObj   map[string]*Obj
	tags      map[string]int
	tagTypes  []types.Type
	globals   map[*ssa.Global]int
	fns       map[*ssa.Function]*fnInfo
	sp        *Specs

	obls     []*Oblig
	oblSeen  map[string]bool
	props    []string // properties of the harness
	safeProp []string // property of safety obligations, by innermost vSafety
	reveal   map[*ssa.Function]bool
	loopMemo map[string][]int       // candidates that survived when the loop was last related
	inline   map[*ssa.Function]bool // contract not used for the first activation
	unroll   map[*ssa.Function]bool
	stack    []*ssa.Function
	harness  *ssa.Function

	loopTop                       []*LoopRec
	loopStk                       []*LoopRec
	discover                      int // >0: only looking for modified locations
	quiet                         int // >0: obligations are not recorded
	loopCtr, topPaired, loopsDone int
	flagObj                       int
	inputN                        map[string]int
	errCtr                        int
	errIDs                        map[*ssa.Global]uint64
	traceObj                      int
	clockObj                      int
	noteSet                       map[string]bool
	notes                         []string
	trusted                       map[string]bool
	used                          map[string]bool // repo functions executed symbolically
	usedCon                       map[string]bool // contracts applied at call sites
	inputs                        []inputVar
	initDone                      map[string]bool
	steps                         int
	termination                   bool
	factsDone                     map[string]bool
	qcache                        map[string]bool
	frozen                        []int
	strict                        bool
	initMode                      bool
	curPos                        token.Pos
	houdiniQ                      int
}

type inputVar struct {
	name string
	t    *Term
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
}

const (
	trObj = "ghost trace"
	ckObj = "ghost clock"
)

func NewExec(prog *ssa.Program, sp *Specs) *Exec {
	x := &Exec{prog: prog, fset: prog.Fset, lazyObj: map[string]*Obj{}, tags: map[string]int{}, globals: map[*ssa.Global]int{}, fns: map[*ssa.Function]*fnInfo{}, sp: sp,
		oblSeen: map[string]bool{}, reveal: map[*ssa.Function]bool{}, inline: map[*ssa.Function]bool{}, errIDs: map[*ssa.Global]uint64{}, noteSet: map[string]bool{}, trusted: map[string]bool{}, used: map[string]bool{}, usedCon: map[string]bool{}, initDone: map[string]bool{}, qcache: map[string]bool{}, inputN: map[string]int{}, loopMemo: map[string][]int{}}
	x.objs = append(x.objs, nil)
	x.traceObj = x.newObj(nil, false, trObj).id
	x.clockObj = x.newObj(nil, false, ckObj).id
	x.flagObj = x.newObj(nil, false, "flags").id
	return x
}

func (x *Exec) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if !x.noteSet[s] {
		x.noteSet[s] = true
		x.notes = append(x.notes, s)
	}
}

func (x *Exec) newState() *State {
	s := &State{heap: map[int]Value{}, regs: map[ssa.Value]Value{}}
	s.heap[x.traceObj] = App("trace0", SRef)
	s.heap[x.clockObj] = App("clock0", SRef)
	s.heap[x.flagObj] = VList{}
	return s
}

// ---------- obligations

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		p = x.curPos
	}
	if !p.IsValid() {
		return ""
	}
	ps := x.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblige(st *State, kind, name string, props []string, pos token.Pos, goal *Term) {
	if x.discover > 0 || x.quiet > 0 || st.dead {
		return
	}
	fn := ""
	if n := len(x.stack); n > 0 {
		fn = x.stack[n-1].String()
	}
	o := &Oblig{kind: kind, name: name, props: props, pos: x.posStr(pos), fn: fn, pc: st.pc[:len(st.pc):len(st.pc)], goal: goal}
	x.obls = append(x.obls, o)
}

// safety emits a panic-freedom obligation and assumes it afterwards.
func (x *Exec) safety(st *State, kind string, pos token.Pos, c *Term) {
	if x.initMode {
		return
	}
	c = st.simp(c)
	if c == True {
		return
	}
	x.oblige(st, "safety:"+kind, kind, x.safetyProps(), pos, c)
	st.assume(c)
}

func (x *Exec) safetyProps() []string {
	return x.safeProp
}

// ---------- functions

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.fns[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	x.fns[fn] = fi
	var post []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if body[c] {
						continue
					}
					body[c] = true
					for _, p := range c.Preds {
						if _, ok := fi.rpo[p]; ok {
							work = append(work, p)
						}
					}
				}
			} else if fi.rpo[s] <= fi.rpo[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		fi.livein[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.livein[s] {
					live[v] = true
				}
				for i, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						live[ph.Edges[i]] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					live[in.(ssa.Value)] = true // kept across the header join
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !fi.livein[b][v] {
					fi.livein[b][v] = true
					ch = true
				}
			}
		}
	}
	return fi
}

type frame struct {
	fn      *ssa.Function
	fi      *fnInfo
	params  map[ssa.Value]Value
	rets    []Outcome
	harness bool
	spec    bool
}

type pend struct {
	st   *State
	pred *ssa.BasicBlock
}

type edgeState struct {
	st   *State
	pred *ssa.BasicBlock
	to   *ssa.BasicBlock
}

func (x *Exec) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pos().IsValid() {
		return strings.Contains(x.fset.Position(fn.Pos()).Filename, "zz_verif_")
	}
	return false
}

// callBody executes the body of fn symbolically.
func (x *Exec) callBody(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 3 || len(x.stack) > 60 {
		unsup("recursion through %s without a contract", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if !x.isSpecFn(fn) {
		x.used[fn.String()] = true
	}
	fr := &frame{fn: fn, fi: x.info(fn), spec: x.isSpecFn(fn), harness: fn == x.harness}
	callerRegs, callerDefers := st.regs, st.defers
	st.regs = map[ssa.Value]Value{}
	st.defers = nil
	for i, p := range fn.Params {
		if i >= len(args) {
			unsup("argument count of %s", fn)
		}
		st.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.regs[p] = bind[i]
	}
	exits, _ := x.execBlocks(fr, fn.Blocks[0], st, nil, nil)
	if len(exits) > 0 {
		unsup("stray exits in %s", fn)
	}
	outs := fr.rets
	res := fn.Signature.Results()
	all := x.mergeAll(fr)
	if n := res.Len(); n == 0 || !isErr(res.At(n-1).Type()) && !isBool(res.At(n-1).Type()) {
		all = true
	}
	if !x.sp.monitor[fn] {
		outs = x.groupOutcomes(outs, all)
	}
	for i := range outs {
		if outs[i].exit == nil {
			outs[i].st.regs = copyRegs(callerRegs)
			outs[i].st.defers = callerDefers
		}
	}
	return outs
}

// results of calls made by a harness are joined into one state
func (x *Exec) mergeAll(fr *frame) bool {
	n := len(x.stack)
	return n >= 2 && x.stack[n-2] == x.harness
}

func copyRegs(m map[ssa.Value]Value) map[ssa.Value]Value {
	n := make(map[ssa.Value]Value, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// outcomes with the same kind of last result are joined
func (x *Exec) groupOutcomes(outs []Outcome, all bool) []Outcome {
	var keys []string
	groups := map[string]Outcome{}
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		k := "n"
		if o.exit != nil {
			k = "exit"
		} else if len(o.ret) > 0 && !all {
			if t, ok := o.ret[len(o.ret)-1].(*Term); ok && t.isConst() {
				if t.sort == BV(32) || t.sort == SBool {
					k = fmt.Sprint("c", t.val != 0, t.sort.K)
				}
			}
		}
		k = fmt.Sprint(k, " ", o.st.part)
		if g, ok := groups[k]; ok {
			groups[k] = x.joinOutcomes(g, o)
		} else {
			groups[k] = o
			keys = append(keys, k)
		}
	}
	var res []Outcome
	for _, k := range keys {
		res = append(res, groups[k])
	}
	return res
}

type retKey int

func (x *Exec) joinOutcomes(a, b Outcome) Outcome {
	// put results in pseudo registers so that they are joined with the state
	c := x.joinCond(a.st, b.st)
	a.st.regs = map[ssa.Value]Value{}
	b.st.regs = map[ssa.Value]Value{}
	a.st.defers, b.st.defers = nil, nil
	n := x.mergeStates(a.st, b.st)
	r := Outcome{st: n}
	for i := range a.ret {
		r.ret = append(r.ret, x.mergeV(n, c, a.ret[i], b.ret[i]))
	}
	if a.exit != nil {
		r.exit = Ite(c, a.exit, b.exit)
	}
	return r
}

// callFn applies fn with contract, model or body.
func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []Value, pos token.Pos) []Outcome {
	if pos.IsValid() {
		x.curPos = pos
	}
	if r, ok := x.intrinsic(st, fn, args, pos); ok {
		return r
	}
	if sf := x.sp.funcs[fn]; sf != nil && sf.opaque && !x.reveal[fn] {
		if !(sf.ifSym && x.allConcrete(st, fn, args)) {
			return []Outcome{{st: st, ret: x.opaqueCall(st, fn, args)}}
		}
	}
	if c := x.sp.contracts[fn]; c != nil && !x.isInlineNow(fn) {
		x.usedCon[fn.String()] = true
		return x.callContract(st, c, args, pos)
	}
	if r, ok := x.model(st, fn, args, pos); ok {
		return r
	}
	if x.canInline(fn) {
		return x.callBody(st, fn, args, bind)
	}
	return x.externEvent(st, externName(fn), fn.Signature, args)
}

// the contract of the function under proof is not used for its first activation
func (x *Exec) isInlineNow(fn *ssa.Function) bool {
	if !x.inline[fn] {
		return false
	}
	for _, f := range x.stack {
		if f == fn {
			return false
		}
	}
	return true
}

func (x *Exec) callContract(st *State, c *ssa.Function, args []Value, pos token.Pos) []Outcome {
	return x.callBody(st, c, args, nil)
}

func externName(fn *ssa.Function) string { return fn.String() }

func pkgPathOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (x *Exec) canInline(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	if len(fn.Blocks) == 0 {
		return false
	}
	if repoPath(p) {
		return !strings.HasSuffix(x.fset.Position(fn.Pos()).Filename, "egts_sr_egtsplus_data.go")
	}
	switch p {
	case "bytes", "encoding/binary", "strings", "io", "math/bits", "sort", "math":
		return true
	}
	if p == "" && fn.Synthetic != "" {
		return true
	}
	return false
}

// opaqueCall yields the results of an uninterpreted specification function.
func (x *Exec) opaqueCall(st *State, fn *ssa.Function, args []Value) []Value {
	var fl []*Term
	for i, a := range args {
		fl = append(fl, x.flatten(st, a, fn.Params[i].Type())...)
	}
	res := fn.Signature.Results()
	var out []Value
	for i := 0; i < res.Len(); i++ {
		nm := fn.Name()
		if res.Len() > 1 {
			nm = fmt.Sprintf("%s#%d", nm, i)
		}
		out = append(out, x.expand(res.At(i).Type(), nm, fl))
	}
	return out
}

func (x *Exec) allConcrete(st *State, fn *ssa.Function, args []Value) bool {
	ok := true
	var visit func(v Value, t types.Type)
	visit = func(v Value, t types.Type) {
		switch w := v.(type) {
		case VSymIface:
			ok = false
		case VUnion:
			for _, a := range w.alts {
				visit(a.v, t)
			}
		case VSlice:
			if !isByteT(t.Underlying().(*types.Slice).Elem()) {
				if w.obj == 0 {
					return
				}
				l, k := x.load(st, w.obj).(VList)
				if !k || l.base != nil {
					ok = false
				}
			}
		case VIface:
			if w.t != nil {
				visit(w.v, w.t)
			}
		case VPtr:
			if w.obj != 0 {
				visit(x.getPath(st, x.load(st, w.obj), w.path, x.objs[w.obj].typ), t.Underlying().(*types.Pointer).Elem())
			}
		}
	}
	for i, a := range args {
		visit(a, fn.Params[i].Type())
	}
	return ok
}

// externEvent records a call to code outside the verified packages.
func (x *Exec) externEvent(st *State, name string, sig *types.Signature, args []Value) []Outcome {
	x.trusted["external "+name] = true
	var fl []*Term
	fl = append(fl, st.heap[x.traceObj].(*Term))
	var ts []types.Type
	if r := sig.Recv(); r != nil && len(args) == sig.Params().Len()+1 {
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i, a := range args {
		fl = append(fl, x.flatten(st, a, ts[i])...)
	}
	tr := App("ev:"+name, SRef, fl...)
	st.heap[x.traceObj] = tr
	var out []Value
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		out = append(out, x.expand(res.At(i).Type(), fmt.Sprintf("ret%d:%s", i, name), []*Term{tr}))
	}
	return []Outcome{{st: st, ret: out}}
}

// ---------- blocks

func (x *Exec) mergeV(st *State, c *Term, a, b Value) Value {
	return x.mergeIn(st, c, a, b)
}

func (x *Exec) prune(fr *frame, b *ssa.BasicBlock, st *State) {
	live := fr.fi.livein[b]
	for v := range st.regs {
		if !live[v] {
			delete(st.regs, v)
		}
	}
}

func (x *Exec) enter(fr *frame, st *State, pred, b *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		st.regs[ph] = vals[i]
	}
	x.prune(fr, b, st)
}

func (x *Exec) execBlocks(fr *frame, entry *ssa.BasicBlock, st *State, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (exits []edgeState, backs []*State) {
	pending := map[*ssa.BasicBlock][]*State{entry: {st}}
	first := true
	route := func(s *State, pred, to *ssa.BasicBlock) {
		if s.dead {
			return
		}
		if header != nil && to == header {
			x.enter(fr, s, pred, to)
			backs = append(backs, s)
			return
		}
		if region != nil && !region[to] {
			exits = append(exits, edgeState{s, pred, to})
			return
		}
		x.enter(fr, s, pred, to)
		pending[to] = append(pending[to], s)
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || fr.fi.rpo[c] < fr.fi.rpo[b] {
				b = c
			}
		}
		sts := pending[b]
		delete(pending, b)
		inner := fr.fi.loops[b] != nil && !(first && b == header)
		first = false
		for len(sts) > 0 {
			cur := sts[0]
			var rest []*State
			for _, s := range sts[1:] {
				if s.part == cur.part {
					cur = x.mergeStates(cur, s)
				} else {
					rest = append(rest, s)
				}
			}
			sts = rest
			if cur.dead {
				continue
			}
			if inner {
				for _, e := range x.execLoop(fr, b, fr.fi.loops[b], cur) {
					route(e.st, e.pred, e.to)
				}
				continue
			}
			x.runBlock(fr, b, cur, route)
		}
	}
	return
}

func (x *Exec) runBlock(fr *frame, b *ssa.BasicBlock, st *State, route func(*State, *ssa.BasicBlock, *ssa.BasicBlock)) {
	type item struct {
		st *State
		i  int
	}
	work := []item{{st, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.st
		i := it.i
	loop:
		for !s.dead && i < len(b.Instrs) {
			x.steps++
			if x.steps > 3000000 {
				unsup("step limit")
			}
			in := b.Instrs[i]
			if p := in.Pos(); p.IsValid() {
				x.curPos = p
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				i++
				continue
			case *ssa.Jump:
				route(s, b, b.Succs[0])
				break loop
			case *ssa.If:
				cv := x.val(s, in.Cond)
				c := x.asTerm(cv)
				c = x.decide(s, c)
				if c == True {
					route(s, b, b.Succs[0])
				} else if c == False {
					route(s, b, b.Succs[1])
				} else {
					t := s.fork()
					if t.assume(c) {
						route(t, b, b.Succs[0])
					}
					if s.assume(Not(c)) {
						route(s, b, b.Succs[1])
					}
				}
				break loop
			case *ssa.Return:
				var rs []Value
				for _, r := range in.Results {
					rs = append(rs, x.val(s, r))
				}
				fr.rets = append(fr.rets, Outcome{st: s, ret: rs})
				break loop
			case *ssa.Panic:
				if !x.initMode {
					x.oblige(s, "safety:panic", "panic", x.safetyProps(), in.Pos(), False)
				}
				s.dead = true
				break loop
			}
			sts := x.concretize(s, in)
			if len(sts) != 1 || sts[0] != s {
				for k := len(sts) - 1; k >= 0; k-- {
					work = append(work, item{sts[k], i})
				}
				break loop
			}
			outs := x.step(fr, s, in)
			if outs == nil {
				i++
				continue
			}
			for k := len(outs) - 1; k >= 0; k-- {
				if outs[k].exit != nil {
					fr.rets = append(fr.rets, outs[k])
					continue
				}
				if !outs[k].st.dead {
					work = append(work, item{outs[k].st, i + 1})
				}
			}
			break loop
		}
	}
}

// decide simplifies a branch condition under the path condition.
func (x *Exec) decide(s *State, c *Term) *Term {
	c = s.simp(c)
	if c.isConst() || len(s.pc) == 0 {
		return c
	}
	m := map[*Term]*Term{}
	for _, p := range s.pc {
		if p.op == ONot {
			m[p.args[0]] = False
		} else {
			m[p] = True
			if p.op == OEq {
				a, b := p.args[0], p.args[1]
				if a.isConst() {
					a, b = b, a
				}
				if b.isConst() && a.sort.K == KBV {
					m[a] = b
				}
			}
		}
	}
	r := NewSubst(m).T(c)
	if r.isConst() {
		return r
	}
	return c
}

func (x *Exec) asTerm(v Value) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case VUnion:
		var r *Term
		for i := len(w.alts) - 1; i >= 0; i-- {
			t := x.asTerm(w.alts[i].v)
			if r == nil {
				r = t
			} else {
				r = Ite(w.alts[i].c, t, r)
			}
		}
		return r
	case VPoison:
		unsup("use of undetermined value (%s)", w.why)
	}
	unsup("expected a scalar, got %T", v)
	return nil
}

// concretize forks the state over union operands of instructions that need a shape.
func (x *Exec) concretize(s *State, in ssa.Instruction) []*State {
	var ops []ssa.Value
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ops = append(ops, in.X)
		}
	case *ssa.FieldAddr:
		ops = append(ops, in.X)
	case *ssa.IndexAddr:
		ops = append(ops, in.X)
	case *ssa.Index:
		ops = append(ops, in.X)
	case *ssa.Slice:
		ops = append(ops, in.X)
	case *ssa.TypeAssert:
		ops = append(ops, in.X)
	case *ssa.Store:
		ops = append(ops, in.Addr)
	case *ssa.Range:
		ops = append(ops, in.X)
	case *ssa.Next:
	case *ssa.Convert:
		ops = append(ops, in.X)
	case *ssa.Lookup:
		ops = append(ops, in.X, in.Index)
	case *ssa.Call:
		if fn := in.Call.StaticCallee(); fn != nil && x.takesUnions(fn) {
			return []*State{s}
		}
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
			return []*State{s}
		}
		for _, a := range in.Call.Args {
			ops = append(ops, a)
		}
		if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			ops = append(ops, in.Call.Value)
		}
	case *ssa.Defer:
		if in.Call.IsInvoke() {
			ops = append(ops, in.Call.Value)
		}
	}
	for _, o := range ops {
		v, ok := s.regs[o]
		if !ok {
			continue
		}
		u, ok := v.(VUnion)
		if !ok {
			continue
		}
		if _, scalar := sortFor(o.Type()); scalar {
			continue
		}
		var out []*State
		for _, a := range u.alts {
			c := x.decide(s, a.c)
			if c == False {
				continue
			}
			n := s.fork()
			if !n.assume(c) {
				continue
			}
			n.regs[o] = a.v
			out = append(out, n)
		}
		return out
	}
	return []*State{s}
}

// specification intrinsics and external events accept undetermined shapes
func (x *Exec) takesUnions(fn *ssa.Function) bool {
	return isIntrinsic(fn)
}

func (x *Exec) val(s *State, v ssa.Value) Value {
	switch w := v.(type) {
	case *ssa.Const:
		return x.constVal(w)
	case *ssa.Global:
		return VPtr{obj: x.global(w)}
	case *ssa.Function:
		return VFunc{fn: w}
	case *ssa.Builtin:
		return VFunc{}
	}
	r, ok := s.regs[v]
	if !ok {
		unsup("register %s of %s has no value", v.Name(), v.Parent())
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if w, _, ok := intW(t); ok {
		i := constant.ToInt(c.Value)
		if v, ok := constant.Int64Val(i); ok {
			return Const(w, uint64(v))
		}
		v, _ := constant.Uint64Val(i)
		return Const(w, v)
	}
	switch {
	case isBool(t):
		return BoolC(constant.BoolVal(c.Value))
	case isString(t):
		return SConst(constant.StringVal(c.Value))
	case isFloat(t):
		f, _ := constant.Float64Val(c.Value)
		return Rat(new(big.Rat).SetFloat64(f))
	}
	unsup("constant %v", c)
	return nil
}

func (x *Exec) global(g *ssa.Global) int {
	if o, ok := x.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := x.newObj(t, false, g.String())
	o.global = true
	x.globals[g] = o.id
	if isErr(t) {
		o.lazy = Const(32, x.errID(g))
		return o.id
	}
	if v, ok := x.sp.globalInit(x, g); ok {
		o.lazy = v
		return o.id
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Unsupported); ok {
					o.lazy = VPoison{"global " + g.String()}
					return
				}
				panic(r)
			}
		}()
		o.lazy = x.expand(t, "glob:"+g.String(), nil)
	}()
	return o.id
}

func (x *Exec) errID(g *ssa.Global) uint64 {
	switch g.String() {
	case "io.EOF":
		return 1
	case "io.ErrUnexpectedEOF":
		return 2
	}
	if id, ok := x.errIDs[g]; ok {
		return id
	}
	id := uint64(100 + len(x.errIDs))
	x.errIDs[g] = id
	return id
}

const errFresh = 7

// ---------- instructions

func (x *Exec) step(fr *frame, s *State, in ssa.Instruction) []Outcome {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := x.newObj(t, false, in.Comment)
		s.heap[o.id] = x.zero(t)
		s.regs[in] = VPtr{obj: o.id}
	case *ssa.BinOp:
		s.regs[in] = x.binop(s, in.Op, x.val(s, in.X), x.val(s, in.Y), in.X.Type(), in.Y.Type(), in.Pos())
	case *ssa.UnOp:
		s.regs[in] = x.unop(s, in)
	case *ssa.ChangeType:
		s.regs[in] = x.val(s, in.X)
	case *ssa.ChangeInterface:
		s.regs[in] = x.val(s, in.X)
	case *ssa.Convert:
		s.regs[in] = x.convert(s, x.val(s, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		v := x.val(s, in.X)
		if isErr(in.Type()) {
			s.regs[in] = Const(32, errFresh)
		} else {
			s.regs[in] = VIface{in.X.Type(), v}
		}
	case *ssa.MakeSlice:
		ln := x.conv64(x.asTerm(x.val(s, in.Len)), in.Len.Type())
		cp := x.conv64(x.asTerm(x.val(s, in.Cap)), in.Cap.Type())
		x.safety(s, "make", in.Pos(), And(Sle(I64(0), ln), Sle(ln, cp)))
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := x.newObj(et, true, "make")
		if isByteT(et) {
			s.heap[o.id] = SFill(Const(8, 0), cp)
		} else {
			if !cp.isConst() || cp.val > 4096 {
				unsup("make of symbolic length")
			}
			l := VList{}
			for i := uint64(0); i < cp.val; i++ {
				l.tail = append(l.tail, x.zero(et))
			}
			s.heap[o.id] = l
		}
		s.regs[in] = VSlice{o.id, I64(0), ln, cp, False}
	case *ssa.MakeClosure:
		f := VFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, x.val(s, b))
		}
		s.regs[in] = f
	case *ssa.MakeMap:
		s.regs[in] = VMap{App("emptymap", SRef), False}
	case *ssa.MakeChan:
		unsup("channels")
	case *ssa.FieldAddr:
		p := x.ptr(s, x.val(s, in.X), in.Pos())
		s.regs[in] = VPtr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{fld: in.Field})}
	case *ssa.Field:
		s.regs[in] = x.getPath(s, x.val(s, in.X), []PE{{fld: in.Field}}, in.X.Type())
	case *ssa.IndexAddr:
		i := x.conv64(x.asTerm(x.val(s, in.Index)), in.Index.Type())
		switch v := x.val(s, in.X).(type) {
		case VSlice:
			x.safety(s, "index", in.Pos(), And(Sle(I64(0), i), Slt(i, v.len)))
			if v.obj == 0 {
				s.dead = true
				return []Outcome{}
			}
			s.regs[in] = VPtr{v.obj, []PE{{idx: Add(v.off, i)}}}
		case VPtr:
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.safety(s, "index", in.Pos(), And(Sle(I64(0), i), Slt(i, I64(n))))
			s.regs[in] = VPtr{v.obj, append(v.path[:len(v.path):len(v.path)], PE{idx: i})}
		default:
			unsup("index of %T", v)
		}
		if s.dead {
			return []Outcome{}
		}
	case *ssa.Index:
		i := x.conv64(x.asTerm(x.val(s, in.Index)), in.Index.Type())
		switch v := x.val(s, in.X).(type) {
		case *Term:
			x.safety(s, "index", in.Pos(), And(Sle(I64(0), i), Slt(i, SLen(v))))
			s.regs[in] = SAt(v, i)
		case VList:
			x.safety(s, "index", in.Pos(), And(Sle(I64(0), i), Slt(i, x.listLen(v))))
			s.regs[in] = x.listAt(s, v, i, elemType(in.X.Type()))
		default:
			unsup("index of %T", v)
		}
	case *ssa.Lookup:
		x.lookup(s, in)
	case *ssa.Store:
		p := x.ptr(s, x.val(s, in.Addr), in.Pos())
		if s.dead {
			return []Outcome{}
		}
		x.store(s, p, x.val(s, in.Val), in.Pos())
	case *ssa.Slice:
		s.regs[in] = x.slice(s, in)
		if s.dead {
			return []Outcome{}
		}
	case *ssa.Extract:
		switch t := x.val(s, in.Tuple).(type) {
		case VTuple:
			s.regs[in] = t[in.Index]
		default:
			unsup("extract of %T", t)
		}
	case *ssa.TypeAssert:
		return x.typeAssert(s, in)
	case *ssa.Range:
		v := x.val(s, in.X)
		o := x.newObj(nil, false, "range")
		s.heap[o.id] = VStruct{[]Value{v, I64(0)}}
		s.regs[in] = VPtr{obj: o.id}
	case *ssa.Next:
		return x.next(s, in)
	case *ssa.Call:
		return x.callInstr(s, in, &in.Call, in.Pos())
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		if in.Call.IsInvoke() {
			d.fn = x.val(s, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(s, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(s, a))
		}
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
	case *ssa.RunDefers:
		outs := []Outcome{{st: s}}
		ds := s.defers
		for k := len(ds) - 1; k >= 0; k-- {
			var nx []Outcome
			for _, o := range outs {
				if o.exit != nil {
					nx = append(nx, o)
					continue
				}
				o.st.defers = nil
				nx = append(nx, x.dispatch(o.st, ds[k].call, ds[k].fn, ds[k].args, in.Pos())...)
			}
			outs = nx
		}
		return outs
	case *ssa.Go:
		var args []Value
		for _, a := range in.Call.Args {
			args = append(args, x.val(s, a))
		}
		if fn := in.Call.StaticCallee(); fn != nil && !in.Call.IsInvoke() {
			if t := x.sp.goTarget[fn]; t != nil {
				// a started handler is recorded, not executed
				return dropRet(x.callFn(s, t, args, nil, in.Pos()))
			}
			x.externEvent(s, "go:"+fn.String(), fn.Signature, args)
		} else {
			unsup("go statement")
		}
	case *ssa.MapUpdate:
		unsup("map update")
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.Select, *ssa.Send:
		unsup("%T", in)
	default:
		unsup("instruction %T", in)
	}
	return nil
}

func dropRet(o []Outcome) []Outcome { return o }

func (x *Exec) ptr(s *State, v Value, pos token.Pos) VPtr {
	switch p := v.(type) {
	case VPtr:
		if p.obj == 0 {
			x.safety(s, "nil", pos, False)
			s.dead = true
			return p
		}
		return p
	case VPoison:
		unsup("dereference of undetermined pointer (%s)", p.why)
	case VOpaque:
		unsup("dereference of external object")
	}
	unsup("dereference of %T", v)
	return VPtr{}
}

func (x *Exec) store(s *State, p VPtr, v Value, pos token.Pos) {
	o := x.objs[p.obj]
	if !x.initMode && x.discover == 0 {
		if o.global && len(x.stack) > 0 && x.isSpecFn(x.stack[len(x.stack)-1]) {
			// ghost state
		} else if o.global {
			x.oblige(s, "frame:global", "writes package state "+o.name, []string{"C20"}, pos, False)
		} else if o.readonly != "" {
			x.oblige(s, "frame:"+o.readonly, "writes "+o.readonly, []string{"C20"}, pos, False)
		}
	}
	s.heap[p.obj] = x.setPath(s, x.load(s, p.obj), p.path, v)
}

func (x *Exec) unop(s *State, in *ssa.UnOp) Value {
	v := x.val(s, in.X)
	switch in.Op {
	case token.MUL:
		if _, ok := v.(VOpaque); ok {
			unsup("load of external object")
		}
		p := x.ptr(s, v, in.Pos())
		if s.dead {
			return x.zero(in.Type())
		}
		return x.getPath(s, x.load(s, p.obj), p.path, x.objs[p.obj].typ)
	case token.NOT:
		return Not(x.asTerm(v))
	case token.SUB:
		t := x.asTerm(v)
		if t.sort == SReal {
			return FMul(RatI(-1), t)
		}
		return Sub(Const(t.sort.W, 0), t)
	case token.XOR:
		return Bnot(x.asTerm(v))
	}
	unsup("unary %v", in.Op)
	return nil
}

func (x *Exec) conv64(t *Term, ty types.Type) *Term {
	if t.sort.W == 64 {
		return t
	}
	_, signed, _ := intW(ty)
	if signed {
		return SignExt(t, 64)
	}
	return ZeroExt(t, 64)
}

func (x *Exec) convert(s *State, v Value, from, to types.Type) Value {
	if _, ok := v.(VPoison); ok {
		return v
	}
	fw, fs, fi := intW(from)
	tw, ts, ti := intW(to)
	switch {
	case fi && ti:
		t := x.asTerm(v)
		if tw <= fw {
			return Extract(t, tw-1, 0)
		}
		if fs {
			return SignExt(t, tw)
		}
		return ZeroExt(t, tw)
	case fi && isFloat(to):
		t := x.asTerm(v)
		var r *Term
		if fs {
			r = S2R(t)
		} else {
			r = U2R(t)
		}
		if fw == 64 && !exactFold(r) && !r.isConst() {
			r = App("rnd", SReal, r)
		}
		return r
	case isFloat(from) && ti:
		t := x.asTerm(v)
		if t.isConst() && t.rat.IsInt() {
			return Const(tw, t.rat.Num().Uint64())
		}
		if t.op == OApp && t.appBase() == "u2r" && t.args[0].sort.W <= tw && !ts {
			return ZeroExt(t.args[0], tw)
		}
		if ts {
			return App(fmt.Sprintf("f2s%d", tw), BV(tw), t)
		}
		return App(fmt.Sprintf("f2u%d", tw), BV(tw), t)
	case isFloat(from) && isFloat(to):
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			return App("f32", SReal, x.asTerm(v))
		}
		return v
	case isString(from) && isString(to):
		return v
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok && isByteT(sl.Elem()) {
			t := x.asTerm(v)
			o := x.newObj(sl.Elem(), true, "[]byte(string)")
			s.heap[o.id] = t
			return VSlice{o.id, I64(0), SLen(t), SLen(t), False}
		}
	}
	if isString(to) {
		if sl, ok := v.(VSlice); ok {
			return x.asTerm(x.sliceSeq(s, sl))
		}
		if fi {
			t := x.asTerm(v)
			if u := ub(t); u < 128 {
				return SVec(Extract(ZeroExt(t, 64), 7, 0))
			}
			return App("runestr", SSeq, x.conv64(t, from))
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if _, ok := v.(VPtr); ok {
		if _, ok := to.Underlying().(*types.Pointer); ok {
			return v
		}
	}
	unsup("conversion %v to %v", from, to)
	return nil
}

func (x *Exec) binop(s *State, op token.Token, a, b Value, ta, tb types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return x.eqVal(s, a, b, ta, tb)
	case token.NEQ:
		return Not(x.eqVal(s, a, b, ta, tb))
	}
	l, r := x.asTerm(a), x.asTerm(b)
	if l.sort == SSeq {
		switch op {
		case token.ADD:
			return SCat(l, r)
		case token.LSS:
			return App("strlt", SBool, l, r)
		case token.GTR:
			return App("strlt", SBool, r, l)
		case token.LEQ:
			return Not(App("strlt", SBool, r, l))
		case token.GEQ:
			return Not(App("strlt", SBool, l, r))
		}
		unsup("string operator %v", op)
	}
	if l.sort == SReal {
		switch op {
		case token.ADD:
			return FAdd(l, r)
		case token.SUB:
			return FAdd(l, FMul(RatI(-1), r))
		case token.MUL:
			return FMul(l, r)
		case token.QUO:
			return FDiv(l, r)
		case token.LSS:
			return Rlt(l, r)
		case token.LEQ:
			return Rle(l, r)
		case token.GTR:
			return Rlt(r, l)
		case token.GEQ:
			return Rle(r, l)
		}
		unsup("float operator %v", op)
	}
	if l.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(l, r)
		case token.OR, token.LOR:
			return Or(l, r)
		case token.XOR:
			return Not(Eq(l, r))
		}
	}
	w, signed, ok := intW(ta)
	if !ok {
		unsup("operator %v on %v", op, ta)
	}
	switch op {
	case token.SHL, token.SHR:
		rw, rs, _ := intW(tb)
		if rs {
			x.safety(s, "shift", pos, Sle(Const(rw, 0), r))
		}
		n := r
		if rw > w {
			// amounts beyond the width saturate
			big := Not(Ult(r, Const(rw, uint64(w))))
			n = Ite(big, Const(w, uint64(w)&mask(w)), Extract(r, w-1, 0))
			if uint64(w) > mask(w) {
				unsup("shift width")
			}
		} else if rw < w {
			n = ZeroExt(r, w)
		}
		if op == token.SHL {
			return Shl(l, n)
		}
		if signed {
			return Ashr(l, n)
		}
		return Lshr(l, n)
	}
	switch op {
	case token.ADD:
		return Add(l, r)
	case token.SUB:
		return Sub(l, r)
	case token.MUL:
		return Mul(l, r)
	case token.QUO, token.REM:
		x.safety(s, "div", pos, Ne(r, Const(w, 0)))
		if signed {
			if op == token.QUO {
				return Sdiv(l, r)
			}
			return Srem(l, r)
		}
		if op == token.QUO {
			return Udiv(l, r)
		}
		return Urem(l, r)
	case token.AND:
		return Band(l, r)
	case token.OR:
		return Bor(l, r)
	case token.XOR:
		return Bxor(l, r)
	case token.AND_NOT:
		return Band(l, Bnot(r))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			l, r = r, l
		}
		strict := op == token.LSS || op == token.GTR
		if signed {
			if strict {
				return Slt(l, r)
			}
			return Sle(l, r)
		}
		if strict {
			return Ult(l, r)
		}
		return Ule(l, r)
	}
	unsup("operator %v", op)
	return nil
}

// eqVal is Go's == (identity for pointers).
func (x *Exec) eqVal(s *State, a, b Value, ta, tb types.Type) *Term {
	if u, ok := a.(VUnion); ok {
		var cs []*Term
		for _, al := range u.alts {
			cs = append(cs, And(al.c, x.eqVal(s, al.v, b, ta, tb)))
		}
		return Or(cs...)
	}
	if u, ok := b.(VUnion); ok {
		var cs []*Term
		for _, al := range u.alts {
			cs = append(cs, And(al.c, x.eqVal(s, a, al.v, ta, tb)))
		}
		return Or(cs...)
	}
	switch v := a.(type) {
	case *Term:
		w, ok := b.(*Term)
		if !ok {
			// error against a nil interface constant
			if i, k := b.(VIface); k && i.t == nil && v.sort == BV(32) {
				return Eq(v, Const(32, 0))
			}
			break
		}
		if v.sort == SSeq {
			return SEq(v, w)
		}
		return Eq(v, w)
	case VPtr:
		switch w := b.(type) {
		case VPtr:
			if v.obj == 0 || w.obj == 0 {
				return BoolC(v.obj == w.obj)
			}
			if samePtr(v, w) {
				return True
			}
			if v.obj != w.obj {
				return False
			}
		}
	case VSlice:
		if w, ok := b.(VSlice); ok {
			if w.isnil == True {
				return v.isnil
			}
			if v.isnil == True {
				return w.isnil
			}
		}
	case VIface:
		switch w := b.(type) {
		case VIface:
			if v.t == nil || w.t == nil {
				return BoolC(v.t == nil && w.t == nil)
			}
			if !types.Identical(v.t, w.t) {
				return False
			}
			return x.eqVal(s, v.v, w.v, v.t, w.t)
		case VSymIface:
			if v.t == nil {
				return Eq(symTag(w.ref), Const(32, 0))
			}
		case *Term:
			return x.eqVal(s, b, a, tb, ta)
		}
	case VSymIface:
		switch w := b.(type) {
		case VIface:
			return x.eqVal(s, b, a, tb, ta)
		case VSymIface:
			return Eq(v.ref, w.ref)
		}
	case VOpaque:
		switch w := b.(type) {
		case VOpaque:
			return Eq(v.ref, w.ref)
		}
	case VMap:
		if w, ok := b.(VMap); ok {
			if w.isnil == True {
				return v.isnil
			}
			if v.isnil == True {
				return w.isnil
			}
		}
	case VFunc:
		if w, ok := b.(VFunc); ok && (v.nilf || w.nilf) {
			return BoolC(v.nilf && w.nilf)
		}
	case VStruct:
		if w, ok := b.(VStruct); ok {
			var cs []*Term
			for i := range v.f {
				cs = append(cs, x.eqVal(s, v.f[i], w.f[i], fieldType(ta, i), fieldType(tb, i)))
			}
			return And(cs...)
		}
	case VTime:
		if w, ok := b.(VTime); ok {
			return And(Eq(v.sec, w.sec), Eq(v.nsec, w.nsec))
		}
	case VPoison:
		unsup("comparison of undetermined value (%s)", v.why)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) slice(s *State, in *ssa.Slice) Value {
	v := x.val(s, in.X)
	get := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.conv64(x.asTerm(x.val(s, o)), o.Type())
	}
	lo, hi, max := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = I64(0)
	}
	switch w := v.(type) {
	case *Term: // string
		n := SLen(w)
		if hi == nil {
			hi = n
		}
		x.safety(s, "slice", in.Pos(), And(Sle(I64(0), lo), Sle(lo, hi), Sle(hi, n)))
		return SSub(w, lo, Sub(hi, lo))
	case VSlice:
		if hi == nil {
			hi = w.len
		}
		mx := w.cap
		if max != nil {
			x.safety(s, "slice", in.Pos(), And(Sle(hi, max), Sle(max, w.cap)))
			mx = max
		}
		x.safety(s, "slice", in.Pos(), And(Sle(I64(0), lo), Sle(lo, hi), Sle(hi, w.cap)))
		return VSlice{w.obj, Add(w.off, lo), Sub(hi, lo), Sub(mx, lo), w.isnil}
	case VPtr:
		if w.obj == 0 {
			x.safety(s, "nil", in.Pos(), False)
			s.dead = true
			return w
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := I64(at.Len())
		if hi == nil {
			hi = n
		}
		x.safety(s, "slice", in.Pos(), And(Sle(I64(0), lo), Sle(lo, hi), Sle(hi, n)))
		if len(w.path) != 0 {
			unsup("slice of nested array")
		}
		return VSlice{w.obj, lo, Sub(hi, lo), Sub(n, lo), False}
	}
	unsup("slice of %T", v)
	return nil
}

func (x *Exec) lookup(s *State, in *ssa.Lookup) {
	v := x.val(s, in.X)
	switch m := v.(type) {
	case *Term:
		i := x.conv64(x.asTerm(x.val(s, in.Index)), in.Index.Type())
		x.safety(s, "index", in.Pos(), And(Sle(I64(0), i), Slt(i, SLen(m))))
		s.regs[in] = SAt(m, i)
		return
	case VMap:
		mt := in.X.Type().Underlying().(*types.Map)
		k := x.flatten(s, x.val(s, in.Index), mt.Key())
		args := append([]*Term{m.ref}, k...)
		has := And(Not(m.isnil), App("maphas", SBool, args...))
		if m.ref.appBase() == "emptymap" {
			has = False
		}
		if m.isnil == True {
			has = False
		}
		var val Value
		if has == False {
			val = x.zero(mt.Elem())
		} else {
			val = x.mergeIn(s, has, x.expand(mt.Elem(), "mapget:"+mt.Elem().String(), args), x.zero(mt.Elem()))
		}
		if in.CommaOk {
			s.regs[in] = VTuple{val, has}
		} else {
			s.regs[in] = val
		}
		return
	}
	unsup("lookup in %T", v)
}

func (x *Exec) next(s *State, in *ssa.Next) []Outcome {
	p := x.val(s, in.Iter).(VPtr)
	it := s.heap[p.obj].(VStruct)
	i := it.f[1].(*Term)
	switch m := it.f[0].(type) {
	case VMap:
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		n := Ite(m.isnil, I64(0), App("len", BV(64), App("mapkeys", SSeq, m.ref)))
		more := x.decide(s, Slt(i, n))
		key := x.expand(mt.Key(), "mapkey", []*Term{m.ref, i})
		k := x.flatten(s, key, mt.Key())
		val := x.expand(mt.Elem(), "mapget:"+mt.Elem().String(), append([]*Term{m.ref}, k...))
		var outs []Outcome
		t := s.fork()
		if t.assume(more) {
			t.heap[p.obj] = VStruct{[]Value{m, Add(i, I64(1))}}
			t.regs[in] = VTuple{True, key, val}
			outs = append(outs, Outcome{st: t})
		}
		if s.assume(Not(more)) {
			s.regs[in] = VTuple{False, x.zeroOr(mt.Key()), x.zeroOr(mt.Elem())}
			outs = append(outs, Outcome{st: s})
		}
		return outs
	case *Term: // string: only ASCII-known contents
		if c, ok := seqConst(m); ok && i.isConst() {
			for _, r := range c {
				if r >= 128 {
					unsup("range over non-ASCII string")
				}
			}
			if int(i.val) < len(c) {
				s.heap[p.obj] = VStruct{[]Value{m, Add(i, I64(1))}}
				s.regs[in] = VTuple{True, i, Const(32, uint64(c[i.val]))}
			} else {
				s.regs[in] = VTuple{False, I64(0), Const(32, 0)}
			}
			return nil
		}
	}
	unsup("range over %T", it.f[0])
	return nil
}

func (x *Exec) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VPoison{"unused"}
	}
	return x.zero(t)
}

func (x *Exec) typeAssert(s *State, in *ssa.TypeAssert) []Outcome {
	v := x.val(s, in.X)
	to := in.AssertedType
	fin := func(st *State, r Value, ok bool) {
		if in.CommaOk {
			st.regs[in] = VTuple{r, BoolC(ok)}
		} else {
			st.regs[in] = r
		}
	}
	switch w := v.(type) {
	case VIface:
		match := false
		if w.t != nil {
			if it, ok := to.Underlying().(*types.Interface); ok {
				match = types.Implements(w.t, it)
			} else {
				match = types.Identical(w.t, to)
			}
		}
		if match {
			if types.IsInterface(to) {
				fin(s, v, true)
			} else {
				fin(s, w.v, true)
			}
			return nil
		}
		if !in.CommaOk {
			x.safety(s, "typeassert", in.Pos(), False)
			s.dead = true
			return []Outcome{}
		}
		fin(s, x.zero(to), false)
		return nil
	case VSymIface:
		if types.IsInterface(to) {
			if types.AssignableTo(in.X.Type(), to) {
				c := Ne(symTag(w.ref), Const(32, 0))
				if !in.CommaOk {
					x.safety(s, "typeassert", in.Pos(), c)
					fin(s, v, true)
					return nil
				}
			}
			unsup("interface assertion on a symbolic value")
		}
		c := x.decide(s, Eq(symTag(w.ref), x.tagOf(to)))
		if !in.CommaOk {
			x.safety(s, "typeassert", in.Pos(), c)
			fin(s, x.symPayload(w.ref, to), true)
			return nil
		}
		var outs []Outcome
		t := s.fork()
		if t.assume(c) {
			fin(t, x.symPayload(w.ref, to), true)
			outs = append(outs, Outcome{st: t})
		}
		if s.assume(Not(c)) {
			fin(s, x.zero(to), false)
			outs = append(outs, Outcome{st: s})
		}
		return outs
	case *Term:
		unsup("type assertion on error")
	}
	unsup("type assertion on %T", v)
	return nil
}

// ---------- calls

func (x *Exec) callInstr(s *State, in *ssa.Call, c *ssa.CallCommon, pos token.Pos) []Outcome {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		s.regs[in] = x.builtin(s, b.Name(), c, args, pos)
		if s.dead {
			return []Outcome{}
		}
		return nil
	}
	fv := x.val(s, c.Value)
	outs := x.dispatch(s, c, fv, args, pos)
	for i := range outs {
		if outs[i].exit != nil {
			continue
		}
		switch len(outs[i].ret) {
		case 0:
		case 1:
			outs[i].st.regs[in] = outs[i].ret[0]
		default:
			outs[i].st.regs[in] = VTuple(outs[i].ret)
		}
		outs[i].ret = nil
	}
	if len(outs) == 0 {
		return []Outcome{}
	}
	return outs
}

func (x *Exec) dispatch(s *State, c *ssa.CallCommon, fv Value, args []Value, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		return x.invoke(s, fv, c.Method, c.Value.Type(), args, pos)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(s, c.Value.Name(), c, args, pos)
		return []Outcome{{st: s}}
	}
	return x.callValue(s, fv, c.Signature(), args, pos)
}

func (x *Exec) callValue(s *State, fv Value, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	switch f := fv.(type) {
	case VFunc:
		if f.nilf {
			x.safety(s, "nil", pos, False)
			return []Outcome{}
		}
		return x.callFn(s, f.fn, args, f.bind, pos)
	case VUnion:
		var outs []Outcome
		for _, a := range f.alts {
			n := s.fork()
			if n.assume(a.c) {
				outs = append(outs, x.callValue(n, a.v, sig, args, pos)...)
			}
		}
		return outs
	case VOpaque:
		return x.externEvent(s, "call:"+f.ref.String(), sig, args)
	}
	unsup("call of %T", fv)
	return nil
}

func (x *Exec) invoke(s *State, recv Value, m *types.Func, it types.Type, args []Value, pos token.Pos) []Outcome {
	switch r := recv.(type) {
	case VUnion:
		var outs []Outcome
		for _, a := range r.alts {
			n := s.fork()
			if n.assume(a.c) {
				outs = append(outs, x.invoke(n, a.v, m, it, args, pos)...)
			}
		}
		return outs
	case *Term: // error
		if m.Name() == "Error" {
			return []Outcome{{st: s, ret: []Value{App("errtext", SSeq, r)}}}
		}
	case VIface:
		if r.t == nil {
			x.safety(s, "nil", pos, False)
			s.dead = true
			return []Outcome{}
		}
		fn := x.prog.LookupMethod(r.t, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s of %v", m.Name(), r.t)
		}
		if c := x.sp.ifaceCon[ifaceKey(it, m.Name())]; c != nil && x.sp.ifaceAlways[ifaceKey(it, m.Name())] {
			return x.callContract(s, c, append([]Value{recv}, args...), pos)
		}
		return x.callFn(s, fn, append([]Value{r.v}, args...), nil, pos)
	case VSymIface:
		x.safety(s, "nil", pos, Ne(symTag(r.ref), Const(32, 0)))
		if c := x.sp.ifaceCon[ifaceKey(it, m.Name())]; c != nil {
			x.usedCon[ifaceKey(it, m.Name())] = true
			return x.callContract(s, c, append([]Value{recv}, args...), pos)
		}
		return x.ifaceEvent(s, ifaceKey(it, m.Name()), m.Type().(*types.Signature), r, args)
	case VOpaque:
		return x.ifaceEvent(s, ifaceKey(it, m.Name()), m.Type().(*types.Signature), VSymIface{r.ref}, args)
	}
	unsup("method call %s on %T", m.Name(), recv)
	return nil
}

func ifaceKey(it types.Type, m string) string {
	if n, ok := types.Unalias(it).(*types.Named); ok {
		return n.Obj().Name() + "." + m
	}
	return "interface." + m
}

func (x *Exec) ifaceEvent(s *State, name string, sig *types.Signature, r VSymIface, args []Value) []Outcome {
	x.trusted["external "+name] = true
	fl := []*Term{s.heap[x.traceObj].(*Term), r.ref}
	for i, a := range args {
		fl = append(fl, x.flatten(s, a, sig.Params().At(i).Type())...)
	}
	tr := App("ev:"+name, SRef, fl...)
	s.heap[x.traceObj] = tr
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.expand(sig.Results().At(i).Type(), fmt.Sprintf("ret%d:%s", i, name), []*Term{tr}))
	}
	return []Outcome{{st: s, ret: out}}
}

func (x *Exec) builtin(s *State, name string, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	switch name {
	case "len", "cap":
		return x.lenOf(s, args[0], c.Args[0].Type(), name == "cap")
	case "append":
		return x.appendV(s, args[0], args[1], c.Args[0].Type(), c.Args[1].Type(), pos)
	case "copy":
		return x.copyV(s, args[0], args[1], c.Args[1].Type(), pos)
	case "print", "println":
		return VTuple{}
	case "min", "max":
		r := x.asTerm(args[0])
		_, signed, ok := intW(c.Args[0].Type())
		if !ok {
			unsup("min/max on floats")
		}
		for _, a := range args[1:] {
			t := x.asTerm(a)
			lt := Ult(t, r)
			if signed {
				lt = Slt(t, r)
			}
			if name == "max" {
				lt = Not(lt)
			}
			r = Ite(lt, t, r)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(VPtr); ok && p.obj == 0 {
			x.safety(s, "nil", pos, False)
			s.dead = true
		}
		return args[0]
	case "recover":
		return VIface{}
	case "close", "delete":
		unsup("builtin %s", name)
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) lenOf(s *State, v Value, t types.Type, cp bool) Value {
	switch w := v.(type) {
	case VUnion:
		var alts []Alt
		for _, a := range w.alts {
			alts = append(alts, Alt{a.c, x.lenOf(s, a.v, t, cp)})
		}
		return mkUnion(alts)
	case VSlice:
		if cp {
			return w.cap
		}
		return w.len
	case *Term:
		return SLen(w)
	case VMap:
		if w.ref.appBase() == "emptymap" {
			return I64(0)
		}
		return Ite(w.isnil, I64(0), App("len", BV(64), App("mapkeys", SSeq, w.ref)))
	case VList:
		return x.listLen(w)
	case VPtr:
		if a, ok := t.Underlying().(*types.Pointer); ok {
			return I64(a.Elem().Underlying().(*types.Array).Len())
		}
	case VPoison:
		unsup("length of undetermined value (%s)", w.why)
	}
	unsup("len of %T", v)
	return nil
}

func (x *Exec) bytesOf(s *State, v Value) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case VSlice:
		return x.asTerm(x.sliceSeq(s, w))
	case VUnion:
		var r *Term
		for i := len(w.alts) - 1; i >= 0; i-- {
			t := x.bytesOf(s, w.alts[i].v)
			if r == nil {
				r = t
			} else {
				r = Ite(w.alts[i].c, t, r)
			}
		}
		return r
	}
	unsup("bytes of %T", v)
	return nil
}

func (x *Exec) newBytes(s *State, t *Term, name string) VSlice {
	o := x.newObj(types.Typ[types.Uint8], true, name)
	s.heap[o.id] = t
	return VSlice{o.id, I64(0), SLen(t), SLen(t), False}
}

func (x *Exec) appendV(s *State, a, b Value, ta, tb types.Type, pos token.Pos) Value {
	et := ta.Underlying().(*types.Slice).Elem()
	d, ok := a.(VSlice)
	if !ok {
		unsup("append to %T", a)
	}
	if isByteT(et) {
		src := x.bytesOf(s, b)
		n := SLen(src)
		end := Add(d.len, n)
		if d.obj != 0 && Ule(end, d.cap) == True && d.off.isConst() {
			// grows in place
			if w, ok := x.load(s, d.obj).(*Term); ok {
				r := x.splice(w, Add(d.off, d.len), src)
				x.writeBytes(s, d.obj, r, pos)
				return VSlice{d.obj, d.off, end, d.cap, False}
			}
		}
		cur := x.bytesOf(s, d)
		r := SCat(cur, src)
		if n.isConst() && n.val == 0 {
			return d
		}
		ns := x.newBytes(s, r, "append")
		// a result shorter than the spare capacity may share memory with the operand; content is the same
		return ns
	}
	cur, ok := x.sliceList(s, d).(VList)
	if !ok {
		unsup("append to undetermined list")
	}
	bs, ok := b.(VSlice)
	if !ok {
		unsup("append of %T", b)
	}
	add, ok := x.sliceList(s, bs).(VList)
	if ok && add.base != nil && cur.base == nil && len(cur.tail) == 0 {
		o := x.newObj(et, true, "append")
		s.heap[o.id] = add
		n := x.listLen(add)
		return VSlice{o.id, I64(0), n, n, And(d.isnil, Eq(n, I64(0)))}
	}
	if !ok || add.base != nil {
		unsup("append of a symbolic list")
	}
	if len(add.tail) == 0 {
		return d
	}
	o := x.newObj(et, true, "append")
	l := VList{cur.base, append(append([]Value(nil), cur.tail...), add.tail...)}
	s.heap[o.id] = l
	n := x.listLen(l)
	return VSlice{o.id, I64(0), n, n, False}
}

// splice overwrites t at off with src (which fits).
func (x *Exec) splice(t, off, src *Term) *Term {
	n := SLen(t)
	m := SLen(src)
	end := Add(off, m)
	return SCat(SSub(t, I64(0), off), src, SSub(t, end, Sub(n, end)))
}

func (x *Exec) writeBytes(s *State, obj int, t *Term, pos token.Pos) {
	o := x.objs[obj]
	if !x.initMode && x.discover == 0 {
		if o.global && len(x.stack) > 0 && x.isSpecFn(x.stack[len(x.stack)-1]) {
			// ghost state
		} else if o.global {
			x.oblige(s, "frame:global", "writes package state "+o.name, []string{"C20"}, pos, False)
		} else if o.readonly != "" {
			x.oblige(s, "frame:"+o.readonly, "writes "+o.readonly, []string{"C20"}, pos, False)
		}
	}
	s.heap[obj] = t
}

func (x *Exec) copyV(s *State, a, b Value, tb types.Type, pos token.Pos) Value {
	d, ok := a.(VSlice)
	if !ok {
		unsup("copy to %T", a)
	}
	if w, ok := b.(VSlice); ok {
		if et := tb.Underlying().(*types.Slice).Elem(); !isByteT(et) {
			unsup("copy of lists")
		}
		_ = w
	}
	src := x.bytesOf(s, b)
	n := x.minLen(s, d.len, SLen(src))
	if d.obj == 0 {
		return I64(0)
	}
	t, ok := x.load(s, d.obj).(*Term)
	if !ok {
		unsup("copy into undetermined slice")
	}
	x.writeBytes(s, d.obj, x.splice(t, d.off, SSub(src, I64(0), n)), pos)
	return n
}

func (x *Exec) minLen(s *State, a, b *Term) *Term {
	c := x.decide(s, Ule(a, b))
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if x.decide(s, Ule(b, a)) == True {
		return b
	}
	return Ite(c, a, b)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

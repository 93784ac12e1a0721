package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- SMT-LIB output

type smtPrinter struct {
	sb    strings.Builder
	decl  map[string]bool
	names map[*Term]string
	sorts bool
}

func symName(n string) string { return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|" }

func bvLit(w int, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func ratLit(r *big.Rat) string {
	n := r.Num()
	neg := n.Sign() < 0
	a := new(big.Int).Abs(n)
	s := fmt.Sprintf("%s.0", a)
	if !r.IsInt() {
		s = fmt.Sprintf("(/ %s.0 %s.0)", a, r.Denom())
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func (p *smtPrinter) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case OConst:
		switch t.sort.K {
		case KBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case KReal:
			return ratLit(t.rat)
		default:
			return bvLit(t.sort.W, t.val)
		}
	case OVar:
		n := symName(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, t.sort)
		}
		p.names[t] = n
		return n
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = p.term(a)
	}
	j := strings.Join(args, " ")
	switch t.op {
	case OApp:
		n := symName(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, a.sort.String())
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), t.sort)
		}
		if len(args) == 0 {
			s = n
		} else {
			s = "(" + n + " " + j + ")"
		}
	default:
		s = opText(t, args)
	}
	n := "t" + strconv.Itoa(t.id)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, t.sort, s)
	p.names[t] = n
	return n
}

func script(asserts []*Term) string {
	p := &smtPrinter{decl: map[string]bool{}, names: map[*Term]string{}}
	p.sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n(declare-sort Ref 0)\n(declare-sort BSeq 0)\n(declare-sort Lst 0)\n")
	var lines []string
	for _, a := range asserts {
		lines = append(lines, "(assert "+p.term(a)+")\n")
	}
	for _, l := range lines {
		p.sb.WriteString(l)
	}
	return p.sb.String()
}

// ---------- facts about function symbols, instantiated at the terms of a query

var factMu sync.Mutex

func ratPow2(e int) *big.Rat {
	r := new(big.Int).Lsh(big.NewInt(1), uint(abs(e)))
	if e >= 0 {
		return new(big.Rat).SetInt(r)
	}
	return new(big.Rat).SetFrac(big.NewInt(1), r)
}
func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// roundFact: r is exact rounded to nearest float64 (no overflow).
func roundFact(r, exact *Term) *Term {
	u := Rat(ratPow2(-53))
	eta := Rat(ratPow2(-1074))
	up := func(e *Term) *Term { return Radd(Radd(e, Rmul(u, e)), eta) }
	dn := func(e *Term) *Term { return Rsub(Rsub(e, Rmul(u, e)), eta) }
	z := RatI(0)
	return And(
		Implies(Rle(z, exact), And(Rle(dn(exact), r), Rle(r, up(exact)), Rle(z, r))),
		Implies(Rle(exact, z), And(Rle(up(exact), Radd(r, Rmul(RatI(2), eta))), Rle(r, Radd(dn(exact), Rmul(RatI(2), eta))), Rle(r, z))))
}

func factsOf(t *Term) []*Term {
	if t.op != OApp {
		return nil
	}
	switch t.appBase() {
	case "len", "llen":
		return []*Term{Ule(t, Const(64, lenMax)), mk(OUlt, SBool, []*Term{t, Const(64, lenMax+1)}, 0, "")}
	case "rnd":
		return []*Term{roundFact(t, t.args[0])}
	case "fmul":
		return []*Term{roundFact(t, Rmul(t.args[0], t.args[1]))}
	case "fadd":
		return []*Term{roundFact(t, Radd(t.args[0], t.args[1]))}
	case "fdivc": // division by a constant
		return []*Term{roundFact(t, Rmul(Rat(new(big.Rat).Inv(t.args[1].rat)), t.args[0]))}
	case "u2r":
		return []*Term{Rle(RatI(0), t), Rle(t, Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(ub(t.args[0])))))}
	case "s2r":
		w := t.args[0].sort.W
		return []*Term{Rle(Rneg(Rat(ratPow2(w-1))), t), Rle(t, Rat(ratPow2(w-1)))}
	case "f2u8", "f2u16", "f2u32", "f2u64":
		f := t.args[0]
		r := U2R(t)
		return []*Term{Implies(And(Rle(RatI(0), f), Rlt(f, Rat(ratPow2(t.sort.W)))), And(Rle(r, f), Rlt(f, Radd(r, RatI(1)))))}
	case "f2s8", "f2s16", "f2s32", "f2s64":
		f := t.args[0]
		r := S2R(t)
		return []*Term{Implies(And(Rle(RatI(0), f), Rlt(f, Rat(ratPow2(t.sort.W-1)))), And(Rle(r, f), Rlt(f, Radd(r, RatI(1)))))}
	case "idx": // first index of byte b in seq ref[off..off+len), -1 if none
		ref, off, n, b := t.args[0], t.args[1], t.args[2], t.args[3]
		return []*Term{Or(Eq(t, I64(-1)), And(Ult(t, n), Eq(SAt(ref, Add(off, t)), b))), Implies(Eq(n, I64(0)), Eq(t, I64(-1)))}
	}
	return nil
}

// quantified facts instantiated at all matching pairs
func pairFacts(apps map[string][]*Term, eqs []*Term) []*Term {
	var out []*Term
	out = append(out, seqFacts(apps, eqs)...)
	for _, ix := range apps["idx"] {
		ref, off, n, b := ix.args[0], ix.args[1], ix.args[2], ix.args[3]
		for _, iy := range apps["idx"] {
			if ix == iy || iy.args[0] != ref || iy.args[1] != off || iy.args[3] != b {
				continue
			}
			// the first match in a prefix
			out = append(out, Implies(Ule(n, iy.args[2]), Eq(ix, Ite(Ult(iy, n), iy, I64(-1)))))
		}
		for _, at := range apps["at"] {
			if at.args[0] != ref {
				continue
			}
			k := Sub(at.args[1], off)
			out = append(out, Implies(And(Ult(k, n), Ult(k, ix)), Ne(at, b)))
		}
	}
	return out
}

func closeFacts(asserts []*Term) []*Term {
	factMu.Lock()
	defer factMu.Unlock()
	seen := map[*Term]bool{}
	apps := map[string][]*Term{}
	have := map[*Term]bool{}
	var out, eqs []*Term
	work := append([]*Term(nil), asserts...)
	addFact := func(f *Term) {
		if f == True || have[f] {
			return
		}
		have[f] = true
		out = append(out, f)
		work = append(work, f)
	}
	for round := 0; round < 6; round++ {
		for len(work) > 0 {
			t := work[0]
			work = work[1:]
			collect(t, seen, func(u *Term) {
				if u.op == OEq && u.args[0].sort == SSeq {
					eqs = append(eqs, u)
				}
				if u.op == OApp {
					apps[u.appBase()] = append(apps[u.appBase()], u)
					for _, f := range factsOf(u) {
						addFact(f)
					}
				}
			})
		}
		for _, f := range pairFacts(apps, eqs) {
			addFact(f)
		}
		if len(work) == 0 {
			break
		}
	}
	return out
}

// ---------- solvers

type SolverResult struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   time.Duration
	Model  map[*Term]string
	Out    string
}

var solverSem = make(chan struct{}, 8)
var solverTime int64 // nanoseconds, total
var solverQueries int64

type solverSpec struct {
	name string
	argv []string
}

func solverCmd(name string, timeout time.Duration) []string {
	ms := int(timeout / time.Millisecond)
	switch name {
	case "z3-new":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:6000"}
	case "z3":
		return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:6000"}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--incremental"}
	}
	panic(name)
}

type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func startSession(ctx context.Context, name string, timeout time.Duration) (*session, error) {
	argv := solverCmd(name, timeout)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	eb := &bytes.Buffer{}
	cmd.Stderr = eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &session{cmd, in, bufio.NewReaderSize(o, 1<<20), eb}, nil
}

func (s *session) close() {
	s.in.Close()
	if s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
	s.cmd.Wait()
}

func (s *session) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		if b == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// Solve checks satisfiability of the conjunction of asserts. wants is called
// with a value getter when sat, to extract a model.
func Solve(name string, asserts []*Term, timeout time.Duration, wants func(get func(ts []*Term) map[*Term]uint64)) SolverResult {
	facts := closeFacts(asserts)
	sc := script(append(append([]*Term(nil), asserts...), facts...))
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+5*time.Second)
	defer cancel()
	atomic.AddInt64(&solverQueries, 1)
	defer func() { atomic.AddInt64(&solverTime, int64(time.Since(t0))) }()
	s, err := startSession(ctx, name, timeout)
	if err != nil {
		return SolverResult{Status: "unknown", Out: err.Error()}
	}
	defer s.close()
	go func() {
		io.WriteString(s.in, sc)
		io.WriteString(s.in, "(check-sat)\n")
		if wants == nil {
			s.in.Close()
		}
	}()
	line, _ := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	r := SolverResult{Solver: name, Out: line}
	switch line {
	case "unsat", "sat":
		r.Status = line
	default:
		r.Status = "unknown"
		r.Out = line + " " + s.err.String()
	}
	if line == "sat" && wants != nil {
		p := &smtPrinter{decl: map[string]bool{}, names: map[*Term]string{}}
		// names must be consistent with what was declared; undeclared symbols are declared now
		for _, a := range append(append([]*Term(nil), asserts...), facts...) {
			p.term(a)
		}
		p.sb.Reset()
		get := func(ts []*Term) map[*Term]uint64 {
			res := map[*Term]uint64{}
			if len(ts) == 0 {
				return res
			}
			for _, t := range ts {
				n := p.term(t)
				defs := p.sb.String()
				p.sb.Reset()
				if defs != "" {
					// new definitions after check-sat invalidate the model in some solvers: skip them
					if strings.Contains(defs, "declare") || name != "z3-new" {
						continue
					}
					continue
				}
				fmt.Fprintf(s.in, "(get-value (%s))\n", n)
				o, err := s.readSexp()
				if err != nil {
					return res
				}
				o = strings.TrimSpace(o)
				o = strings.TrimSuffix(strings.TrimSpace(o), "))")
				i := strings.LastIndexByte(strings.TrimSpace(o), ' ')
				if i < 0 {
					continue
				}
				v := o[i+1:]
				switch {
				case v == "true":
					res[t] = 1
				case v == "false":
					res[t] = 0
				case strings.HasPrefix(v, "#x"):
					u, _ := strconv.ParseUint(v[2:], 16, 64)
					res[t] = u
				case strings.HasPrefix(v, "#b"):
					u, _ := strconv.ParseUint(v[2:], 2, 64)
					res[t] = u
				}
			}
			return res
		}
		wants(get)
	}
	r.Time = time.Since(t0)
	return r
}

// Prove tries to show that asserts imply goal, with several solvers.
func Prove(asserts []*Term, goal *Term, timeout time.Duration) SolverResult {
	if goal == True {
		return SolverResult{Status: "unsat", Solver: "simplifier"}
	}
	for _, a := range asserts {
		if a == False {
			return SolverResult{Status: "unsat", Solver: "simplifier"}
		}
	}
	all := append(append([]*Term(nil), asserts...), Not(goal))
	c := And(all...)
	if c == False {
		return SolverResult{Status: "unsat", Solver: "simplifier"}
	}
	as := conjuncts(c)
	first := timeout
	if first > 8*time.Second {
		first = 8 * time.Second
	}
	r := Solve("z3-new", as, first, nil)
	if r.Status != "unknown" {
		return r
	}
	for _, n := range []string{"cvc5", "z3", "z3-new"} {
		q := Solve(n, as, timeout, nil)
		if q.Status != "unknown" {
			q.Time += r.Time
			return q
		}
	}
	return r
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// seqFacts: equal sequences agree in length and at every index read; sequences that
// are arguments of one function symbol are equal when no index tells them apart.
func seqFacts(apps map[string][]*Term, eqs []*Term) []*Term {
	var out []*Term
	type pr struct{ a, b *Term }
	done := map[pr]bool{}
	rel := func(a, b *Term) {
		if a == b || done[pr{a, b}] || done[pr{b, a}] {
			return
		}
		done[pr{a, b}] = true
		eq := SEq(a, b)
		if eq == True {
			eq = True
		} else if eq == False {
			out = append(out, Not(rawEq(a, b)))
			return
		}
		raw := rawEq(a, b)
		n := SLen(a)
		k := App("diff", BV(64), a, b)
		if eq != raw {
			out = append(out, Implies(eq, raw), Implies(raw, eq))
		} else {
			out = append(out, Or(raw, Ne(n, SLen(b)), And(Ult(k, n), Ne(SAt(a, k), SAt(b, k)))))
		}
		out = append(out, Implies(raw, Eq(n, SLen(b))))
		for _, at := range apps["at"] {
			if at.args[0] == a && SAt(b, at.args[1]) != at {
				out = append(out, Implies(raw, Eq(at, SAt(b, at.args[1]))))
			}
			if at.args[0] == b && SAt(a, at.args[1]) != at {
				out = append(out, Implies(raw, Eq(at, SAt(a, at.args[1]))))
			}
		}
	}
	for _, e := range eqs {
		rel(e.args[0], e.args[1])
	}
	n := 0
	var names []string
	for name := range apps {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		list := apps[name]
		switch name {
		case "bvec", "sub", "cat", "fill", "upd", "len", "at", "diff", "idx":
			continue
		}
		for i := range list {
			for j := i + 1; j < len(list); j++ {
				s, t := list[i], list[j]
				if s.name != t.name {
					continue
				}
				for p := range s.args {
					if s.args[p].sort == SSeq && s.args[p] != t.args[p] {
						n++
						if n < 400 {
							rel(s.args[p], t.args[p])
						}
					}
				}
			}
		}
	}
	return out
}

func rawEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, []*Term{a, b}, 0, "")
}

// opText renders an interpreted operation.
func opText(t *Term, args []string) string {
	var s string
	j := strings.Join(args, " ")
	switch t.op {
	case ONot:
		s = "(not " + j + ")"
	case OAnd:
		s = "(and " + j + ")"
	case OOr:
		s = "(or " + j + ")"
	case OIte:
		s = "(ite " + j + ")"
	case OEq:
		s = "(= " + j + ")"
	case OUlt:
		s = "(bvult " + j + ")"
	case OSlt:
		s = "(bvslt " + j + ")"
	case OAdd:
		s = args[0]
		for _, a := range args[1:] {
			s = "(bvadd " + s + " " + a + ")"
		}
	case OMulC:
		if t.val == mask(t.sort.W) {
			s = "(bvneg " + args[0] + ")"
		} else {
			s = "(bvmul " + bvLit(t.sort.W, t.val) + " " + args[0] + ")"
		}
	case OMul:
		s = "(bvmul " + j + ")"
	case OUdiv:
		s = "(bvudiv " + j + ")"
	case OUrem:
		s = "(bvurem " + j + ")"
	case OSdiv:
		s = "(bvsdiv " + j + ")"
	case OSrem:
		s = "(bvsrem " + j + ")"
	case OBand:
		s = "(bvand " + j + ")"
	case OBor:
		s = "(bvor " + j + ")"
	case OBxor:
		s = "(bvxor " + j + ")"
	case OShl:
		s = "(bvshl " + j + ")"
	case OLshr:
		s = "(bvlshr " + j + ")"
	case OAshr:
		s = "(bvashr " + j + ")"
	case OConcat:
		s = args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			s = "(concat " + args[i] + " " + s + ")"
		}
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.sort.W-1, t.val, args[0])
	case OSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, args[0])
	case ORadd:
		s = "(+ " + j + ")"
	case ORmul:
		s = "(* " + j + ")"
	case ORle:
		s = "(<= " + j + ")"
	default:
		panic("smt op")
	}
	return s
}

package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// prepGoal turns pc ⇒ goal into a set of assertions to refute.
func prepGoal(pc []*Term, goal *Term, keepVars bool) (as []*Term, trivial bool) {
	if goal == True {
		return nil, true
	}
	as = append(append([]*Term(nil), pc...), Not(goal))
	as, dead := flattenConj(as)
	if dead {
		return nil, true
	}
	if keepVars {
		return as, false
	}
	return substEqs(as)
}

func flattenConj(ts []*Term) ([]*Term, bool) {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		for _, c := range conjuncts(t) {
			if c == True || seen[c] {
				continue
			}
			if c == False || seen[Not(c)] {
				return nil, true
			}
			seen[c] = true
			out = append(out, c)
		}
	}
	return out, false
}

// substEqs eliminates variables that an assertion defines and propagates literals.
func substEqs(as []*Term) ([]*Term, bool) {
	for round := 0; round < 40; round++ {
		m := map[*Term]*Term{}
		var from *Term
		for _, t := range as {
			v, d := solveVar(t)
			if v == nil {
				continue
			}
			m[v] = d
			from = t
			break
		}
		if from == nil {
			break
		}
		s := NewSubst(m)
		var n []*Term
		for _, t := range as {
			if t != from {
				n = append(n, s.T(t))
			}
		}
		var dead bool
		as, dead = flattenConj(n)
		if dead {
			return nil, true
		}
	}
	// literal propagation into the other assertions
	for round := 0; round < 3; round++ {
		changed := false
		lits := map[*Term]*Term{}
		for _, t := range as {
			if t.op == ONot {
				if t.args[0].op != OAnd && t.args[0].op != OOr {
					lits[t.args[0]] = False
				}
			} else if t.op != OAnd && t.op != OOr {
				lits[t] = True
				if t.op == OEq && t.args[0].sort.K == KBV {
					a, b := t.args[0], t.args[1]
					if a.isConst() {
						a, b = b, a
					}
					if b.isConst() {
						lits[a] = b
					}
				}
			}
		}
		var n []*Term
		s := NewSubst(lits)
		for _, t := range as {
			if t.op == OOr || (t.op == ONot && (t.args[0].op == OAnd)) || t.op == OAnd {
				r := s.T(t)
				if r != t {
					changed = true
				}
				n = append(n, r)
			} else if len(t.args) > 0 && t.op != ONot && (t.op == OEq || t.op == OUlt || t.op == OSlt) {
				// the literal itself must survive: rewrite inside its arguments only
				args := make([]*Term, len(t.args))
				ch := false
				for i, a := range t.args {
					if lits[a] != nil && t.op == OEq {
						args[i] = a
						continue
					}
					args[i] = s.T(a)
					ch = ch || args[i] != a
				}
				if ch {
					changed = true
					n = append(n, rebuild(t, args))
				} else {
					n = append(n, t)
				}
			} else if t.op == ONot && len(t.args[0].args) > 0 {
				u := t.args[0]
				args := make([]*Term, len(u.args))
				ch := false
				for i, a := range u.args {
					args[i] = s.T(a)
					ch = ch || args[i] != a
				}
				if ch {
					changed = true
					n = append(n, Not(rebuild(u, args)))
				} else {
					n = append(n, t)
				}
			} else {
				n = append(n, t)
			}
		}
		var dead bool
		as, dead = flattenConj(n)
		if dead {
			return nil, true
		}
		if !changed {
			break
		}
	}
	return as, false
}

func solveVar(t *Term) (*Term, *Term) {
	if t.op != OEq {
		return nil, nil
	}
	a, b := t.args[0], t.args[1]
	occ := func(v, u *Term) bool { return mentions(u, map[*Term]bool{v: true}) }
	if a.op == OVar && b.op == OVar {
		// the younger name goes
		if a.id < b.id {
			a, b = b, a
		}
		return a, b
	}
	if a.op == OVar && !occ(a, b) {
		return a, b
	}
	if b.op == OVar && !occ(b, a) {
		return b, a
	}
	if a.sort.K == KBV {
		l := linOf(Sub(a, b))
		w := a.sort.W
		var vs []*Term
		for v := range l.m {
			vs = append(vs, v)
		}
		sortTerms(vs)
		for i := len(vs) - 1; i >= 0; i-- {
			v := vs[i]
			c := l.m[v]
			if v.op != OVar || (c != 1 && c != mask(w)) {
				continue
			}
			var rest *Term
			if c == 1 {
				rest = Neg(Sub(Sub(a, b), v))
			} else {
				rest = Add(Sub(a, b), v)
			}
			if !occ(v, rest) {
				return v, rest
			}
		}
	}
	return nil, nil
}

func mkScript(as []*Term) string {
	facts := closeFacts(as)
	all := append(append([]*Term(nil), as...), facts...)
	return script(all) + liaMark + liaScript(all)
}

// liaMark separates the two renderings of a query.
const liaMark = "; integers\n"

var dumpN int64

func runScript(solver, sc string, to time.Duration) string {
	lia := strings.HasSuffix(solver, "-int")
	if i := strings.Index(sc, liaMark); i >= 0 {
		if lia {
			sc = sc[i+len(liaMark):]
		} else {
			sc = sc[:i]
		}
	} else if lia {
		return "unknown"
	}
	if lia {
		if st := runScript(strings.TrimSuffix(solver, "-int"), sc, to); st == "unsat" {
			return st
		}
		return "unknown"
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	atomic.AddInt64(&solverQueries, 1)
	defer func() { atomic.AddInt64(&solverTime, int64(time.Since(t0))) }()
	ctx, cancel := context.WithTimeout(context.Background(), to+3*time.Second)
	defer cancel()
	argv := solverCmd(solver, to)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(sc + "(check-sat)\n")
	out, _ := cmd.Output()
	line := strings.TrimSpace(string(out))
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	if strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", line)
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("/tmp/bad%d.smt2", n), []byte(sc), 0644)
	}
	if d := os.Getenv("VDUMP"); d != "" && (time.Since(t0) > 2*time.Second || os.Getenv("VDUMPALL") != "") {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/slow%d-%s.smt2", d, n, line), []byte(sc+"(check-sat)\n"), 0644)
	}
	return line
}

// ProveGoal decides pc ⇒ goal.
func ProveGoal(pc []*Term, goal *Term, to time.Duration, all bool) SolverResult {
	as, triv := prepGoal(pc, goal, false)
	if triv {
		return SolverResult{Status: "unsat", Solver: "simplifier"}
	}
	sc := mkScript(as)
	t0 := time.Now()
	order := []string{"z3-new", "z3-new-int"}
	if all {
		order = []string{"z3-new", "cvc5", "z3"}
	}
	last := SolverResult{Status: "unknown"}
	for i, s := range order {
		d := to
		if all && i == 0 && d > 20*time.Second {
			d = 20 * time.Second
		}
		st := runScript(s, sc, d)
		last = SolverResult{Status: st, Solver: s, Time: time.Since(t0), Out: st}
		if st == "unsat" || st == "sat" {
			return last
		}
		last.Status = "unknown"
	}
	return last
}

var _ = io.EOF

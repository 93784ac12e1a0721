package main

import (
	"sort"
	"time"
)

// splitConds picks conditions that select between values inside the query; fixing them turns an
// arithmetic query over conditional values into a few plain ones.
func splitConds(pc []*Term, goal *Term, max int) []*Term {
	n := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OIte {
			c := t.args[0]
			if c.op == ONot {
				c = c.args[0]
			}
			if n[c] == 0 {
				order = append(order, c)
			}
			n[c]++
			if t.args[1].isConst() && t.args[2].isConst() {
				n[c] += 1000
			}
		}
	}
	for _, t := range pc {
		walk(t)
	}
	walk(goal)
	sort.SliceStable(order, func(i, j int) bool { return n[order[i]]/1000 > n[order[j]]/1000 })
	if len(order) > max {
		order = order[:max]
	}
	return order
}

type splitCase struct {
	pc   []*Term
	goal *Term
}

func splitCases(pc []*Term, goal *Term, max int) []splitCase {
	conds := splitConds(pc, goal, max)
	cases := []splitCase{{pc, goal}}
	for _, c := range conds {
		var next []splitCase
		for _, k := range cases {
			for _, v := range []*Term{True, False} {
				s := NewSubst(map[*Term]*Term{c: v})
				lit := c
				if v == False {
					lit = Not(c)
				}
				q := splitCase{goal: s.T(k.goal)}
				dead := false
				for _, t := range k.pc {
					u := s.T(t)
					if u == False {
						dead = true
						break
					}
					q.pc = append(q.pc, u)
				}
				if dead {
					continue
				}
				q.pc = append(q.pc, lit)
				next = append(next, q)
			}
		}
		cases = next
	}
	return cases
}

// proveSplit proves the goal case by case; it answers true only if every case is proved.
func proveSplit(pc []*Term, goal *Term, max int, to time.Duration) bool {
	cases := splitCases(pc, goal, max)
	if len(cases) == 1 && len(cases[0].pc) == len(pc) {
		return false
	}
	var scs []string
	for i, k := range cases {
		as, triv := prepGoal(k.pc, k.goal, false)
		if triv {
			continue
		}
		sc := mkScript(as)
		if i == 0 {
			// most wrong guesses fail in the first case
			if st := runScript("z3-new", sc, to/2); st == "sat" {
				return false
			} else if st == "unsat" {
				continue
			}
		}
		scs = append(scs, sc)
	}
	res := make(chan bool, len(scs))
	for _, sc := range scs {
		go func(sc string) {
			ok := runScript("z3-new", sc, to) == "unsat"
			if !ok {
				ok = runScript("z3-new-int", sc, to) == "unsat"
			}
			res <- ok
		}(sc)
	}
	all := true
	for range scs {
		if !<-res {
			all = false
		}
	}
	return all
}

func hasIte(t *Term) bool {
	if t.op == OIte {
		return true
	}
	for _, a := range t.args {
		if hasIte(a) {
			return true
		}
	}
	return false
}

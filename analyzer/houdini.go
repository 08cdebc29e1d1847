package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// invariants is what a rule knows about the loops of the code it analyses: statements that may hold at a loop's
// head. Those that hold on entry and are kept by every way through the body do hold.
type invariants struct {
	// cands proposes statements over the numbers that change in the loop, those that do not, and the contents
	// of maps that change; first gives the value on entry
	cands func(st *State, first func(*Term) *Term, changing, fixed, contents []*Term) []*Term
	// prove decides a statement the state alone does not
	prove func(x *Exec, st *State, p *Term) bool
}

func (iv *invariants) holds(x *Exec, st *State, p *Term) bool {
	switch st.eval(p) {
	case True:
		return true
	case False:
		return false
	}
	return iv.prove(x, st, p)
}

// inductive analyses a loop by finding the proposed statements that hold at its head every time. Everything
// else about what the loop changes is forgotten.
func (x *Exec) inductive(fr *frame, entry *pstate, l *loop, uid int, old map[*Term]bool) []arrival {
	iv := x.mon.inv
	pfx := fmt.Sprintf("%s~%d", l.name(), uid)
	changed := map[*Term]*Term{} // locations the body changes
	for round := 0; ; round++ {
		if round > 12 {
			x.undecided("loop %s does not stabilise", l.name())
		}
		head := entry.clone()
		var ph []*ssa.Phi
		contentOf := map[*ssa.Phi]bool{}
		isInt := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		}
		var ints, fixed, contents []*Term
		for _, in := range l.head.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ph = append(ph, p)
			s := mk("sym", pfx+"."+p.Name(), 0, nil)
			head.env[p] = s
			if isInt(p.Type()) {
				ints = append(ints, s)
			}
			if _, ok := p.Type().Underlying().(*types.Map); ok {
				contents = append(contents, App("mc", s))
				contentOf[p] = true
			}
		}
		for i, loc := range sortedLocs(changed) {
			s := mk("sym", fmt.Sprintf("%s.m%d", pfx, i), 0, nil)
			head.st.mem[loc] = s
			if loc.is("content") {
				contents = append(contents, s)
			} else if v := entry.st.mem[loc]; v != nil && !v.isStr() && v != Nil && v.op != "bool" && v.op != "struct" {
				ints = append(ints, s)
			}
		}
		for _, v := range x.liveVals(fr, l) {
			if t := entry.env[v]; t != nil && isInt(v.Type()) {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
					continue
				}
				fixed = append(fixed, entry.st.norm(t))
			}
		}
		// the other fields of what the body changes
		roots := map[*Term]bool{}
		for loc := range changed {
			roots[rootOf(loc)] = true
		}
		siblings := map[*Term]*Term{}
		for loc := range entry.st.mem {
			if loc.op == "fa" && roots[rootOf(loc)] && changed[loc] == nil {
				siblings[loc] = loc
			}
		}
		for _, loc := range sortedLocs(siblings) {
			if v := entry.st.norm(entry.st.mem[loc]); !v.isStr() && v != Nil && v.op != "bool" && v.op != "struct" && !isObj(v) {
				fixed = append(fixed, v)
			}
		}
		isHead := map[*Term]bool{}
		for _, q := range ph {
			isHead[head.env[q]] = true
		}
		// distinct: the maps the loop carries are not each other, nor one that changes under another name
		distinct := func(ps *pstate) {
			seen := map[*Term]bool{}
			for _, q := range ph {
				if m := ps.env[q]; contentOf[q] {
					if seen[m] || changed[contentLoc(m)] != nil {
						x.undecided("loop %s carries one map under two names", l.name())
					}
					seen[m] = true
				}
			}
		}
		distinct(entry)
		// the statement at another state: what the loop changes, replaced by its value there
		at := func(ps *pstate, p *Term) *Term {
			sub := map[*Term]*Term{}
			for _, q := range ph {
				sub[head.env[q]] = ps.env[q]
				if contentOf[q] {
					sub[App("mc", head.env[q])] = x.mapContent(ps.st, ps.env[q])
				}
			}
			for i, loc := range sortedLocs(changed) {
				v := ps.st.mem[loc]
				if v == nil && loc.is("content") {
					v = App("mc", loc.args[0])
				}
				if v != nil {
					sub[mk("sym", fmt.Sprintf("%s.m%d", pfx, i), 0, nil)] = v
				}
			}
			return ps.st.norm(subst(p, sub))
		}
		var inv []*Term
		for _, c := range iv.cands(entry.st, func(p *Term) *Term { return at(entry, p) }, ints, fixed, contents) {
			if iv.holds(x, entry.st, at(entry, c)) {
				inv = append(inv, c)
			}
		}
		for {
			h := head.clone()
			dead := false
			for _, p := range inv {
				ss := h.st.assume(p, true)
				if len(ss) == 0 {
					dead = true
					break
				}
				h.st = ss[0]
			}
			if dead {
				x.undecided("loop %s: contradiction at the head", l.name())
			}
			arr := x.explore(fr, h, l.head, l)
			more := false
			var out []arrival
			keep := make([]bool, len(inv))
			for i := range keep {
				keep[i] = true
			}
			lost := 0
			for _, a := range arr {
				if a.kind != aBack {
					out = append(out, a)
					continue
				}
				for loc, v := range a.ps.st.mem {
					w, ok := head.st.mem[loc]
					if !ok && loc.is("content") {
						w = App("mc", loc.args[0])
					}
					if root := rootOf(loc); !ok && (isObj(root) && !old[root] || isHead[root]) || changed[loc] != nil {
						continue // made by the body, or carried by the loop
					}
					if w == nil || a.ps.st.norm(w) != a.ps.st.norm(v) {
						changed[loc] = loc
						more = true
					}
				}
				if more {
					break
				}
				x.phis(a.ps, l.head)
				distinct(a.ps)
				for i, p := range inv {
					if keep[i] && !iv.holds(x, a.ps.st, at(a.ps, p)) {
						keep[i] = false
						if DebugLoops {
							fmt.Println("    lost", p, "as", at(a.ps, p))
						}
						lost++
					}
				}
			}
			if more {
				break
			}
			if DebugLoops {
				fmt.Printf("  loop %s: %d statements, %d lost\n", pfx, len(inv), lost)
			}
			if lost == 0 {
				if DebugLoops {
					fmt.Println("   ", inv)
				}
				return x.mergeArrivals(fr, out)
			}
			var next []*Term
			for i, p := range inv {
				if keep[i] {
					next = append(next, p)
				}
			}
			inv = next
		}
	}
}

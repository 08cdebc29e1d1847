package main

import (
	"fmt"
	"go/token"
	"sort"
)

// The escaping of the line that ends an entry. A call stores F of every line of its value and compares G of
// every line of the entry with B of every line of its value. For every line l
//   F(l) is not the terminator and has no newline,
//   B(l) tells lines apart, and G(F(l)) = B(l) for the F of every entry point of that kind.
// Then the sides are equal iff the values are.

type lineView struct {
	x    *Exec
	st   *State
	fn   string
	pos  token.Pos
	f, g *Term // stored: f; compared: g (stored side), f (received side)
	// what no line of the value (of the stored text) satisfies where the view applies
	not, notStored []*Term
}

var lineSym = Sym("line")

// perLine returns what t does to every line of inner
func perLine(st *State, t, inner *Term) *Term {
	if same(st, t, inner) {
		return Elem
	}
	nl := Str("\n")
	if t.is("replaceall") {
		return nil
	}
	if t.is("join") && t.args[1] == nl && t.args[0].is("coll") {
		src := t.args[0].args[0]
		if same(st, src, splitT(inner, nl)) {
			return t.args[0].args[1]
		}
		if src.is("split") && src.args[1] == nl {
			if f := perLine(st, src.args[0], inner); f != nil {
				return subst(t.args[0].args[1], map[*Term]*Term{Elem: f})
			}
		}
	}
	return nil
}

// lacking returns what the path knows that no line of inner satisfies: a text without a string has no line with it
func lacking(st *State, inner *Term) []*Term {
	var out []*Term
	for t, v := range st.facts {
		if v || !t.is("contains") || !t.args[1].isStr() || containsT(t.args[1], Str("\n")) != False {
			continue
		}
		if f := perLine(st, t.args[0], inner); f != nil {
			out = append(out, containsT(f, t.args[1]))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// byCase splits on the conditions of t and hands every case to leaf
func byCase(st *State, t *Term, depth int, leaf func(st *State, t *Term)) {
	t = st.simp(t)
	var cond *Term
	anyTerm(t, func(t *Term) bool {
		if cond == nil && t.op == "ite" && !anyTerm(t.args[0], func(t *Term) bool { return t.op == "ite" }) {
			cond = t.args[0]
		}
		return cond != nil
	})
	if cond == nil || depth == 0 {
		leaf(st, t)
		return
	}
	for _, v := range []bool{true, false} {
		for _, s := range st.clone().assume(cond, v) {
			byCase(s, t, depth-1, leaf)
		}
	}
}

func ofLine(f *Term) *Term { return subst(f, map[*Term]*Term{Elem: lineSym}) }

func lineState() *State {
	st := newState()
	return st.assume(containsT(lineSym, Str("\n")), false)[0]
}

// where: the lines that satisfy none of not
func where(not ...*Term) []*State {
	states := []*State{lineState()}
	for _, n := range not {
		var next []*State
		for _, st := range states {
			byCase(st, ofLine(n), 12, func(st *State, t *Term) { next = append(next, st.assume(t, false)...) })
		}
		states = next
	}
	return states
}

// forLines: the formula p is v for every line of states
func forLines(states []*State, p *Term, v *Term) (bad *State) {
	for _, st := range states {
		byCase(st, p, 12, func(st *State, t *Term) {
			if bad == nil && st.eval(t) != v {
				bad = st
			}
		})
	}
	return
}

func after(ts []*Term, f *Term) []*Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, subst(t, map[*Term]*Term{Elem: f}))
	}
	return out
}

func and(a, b []*Term) []*Term { return append(append([]*Term{}, a...), b...) }

// checkViews: what is stored by any call is told apart by the comparison of any call
func (d *Driver) checkViews(stored, compared []lineView) {
	done := map[string]bool{}
	var from []lineView
	for _, s := range stored {
		key := fmt.Sprint(s.f, s.not)
		if done[key] {
			continue
		}
		done[key] = true
		from = append(from, s)
		d.view(s, forLines(where(s.not...), Eq(ofLine(s.f), End), False), "no line stored ends the entry early", s.f)
		nl := false
		anyTerm(s.f, func(t *Term) bool {
			nl = nl || t.isStr() && containsT(t, Str("\n")) != False
			return false
		})
		d.rep.check(!nl, s.x, s.st, s.pos, "no line stored becomes two", []string{"C01", "C02"}, "%s", s.f)
	}
	for _, c := range compared {
		key := fmt.Sprint(c.f, c.g, c.not, c.notStored)
		if done[key] {
			continue
		}
		done[key] = true
		for _, s := range from {
			gf := ofLine(subst(c.g, map[*Term]*Term{Elem: s.f}))
			lines := where(and(and(s.not, c.not), after(c.notStored, s.f))...)
			d.view(c, forLines(lines, Eq(gf, ofLine(c.f)), True), "what was stored for a line compares equal to that line", App("views", c.g, s.f, c.f))
		}
		d.view(c, d.conflated(c, from, compared), "different lines do not compare equal", c.f)
	}
}

// conflated: no case under which one function gets the line back from both what is compared for it and from
// what is compared for what any call stored for it
func (d *Driver) conflated(c lineView, stored, compared []lineView) *State {
	inverse := []*Term{Elem, Ite(Eq(Elem, Esc), End, Ite(App("hasprefix", Elem, Esc), trimSuffixT(Elem, Str("/")), Elem))}
	for _, c := range compared {
		inverse = append(inverse, c.g)
	}
	var first *State
	for _, g := range inverse {
		bad := forLines(where(c.not...), Eq(ofLine(subst(g, map[*Term]*Term{Elem: c.f})), lineSym), True)
		for _, s := range stored {
			if bad == nil {
				gf := subst(g, map[*Term]*Term{Elem: subst(c.g, map[*Term]*Term{Elem: s.f})})
				bad = forLines(where(and(s.not, after(c.notStored, s.f))...), Eq(ofLine(gf), lineSym), True)
			}
		}
		if bad == nil {
			return nil
		}
		if first == nil {
			first = bad
		}
	}
	return first
}

func (d *Driver) view(v lineView, bad *State, what string, t *Term) {
	d.rep.fn = v.fn
	if bad == nil {
		d.rep.check(true, v.x, v.st, v.pos, what, []string{"C01", "C02", "C18"}, "")
		return
	}
	d.rep.check(false, v.x, bad, v.pos, what, []string{"C01", "C02", "C18"}, "%s", t)
}

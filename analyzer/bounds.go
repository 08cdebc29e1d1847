package main

import "go/token"

const inRange = "indexes stay in range (the code does not panic)"

// bounds: element i of b exists
func (x *Exec) bounds(st *State, b, i *Term, pos token.Pos) {
	if x.rep.quiet || b.op == "alloc" || x.mon.name == "init" {
		return
	}
	n := lenT(x.value(st, b))
	ok := st.holds(Le(Int(0), i)) && st.holds(Lt(i, n))
	x.rep.check(ok, x, st, pos, inRange, nil, "element %s of %s", i, n)
}

// cutBounds: lo..hi is a part of v
func (x *Exec) cutBounds(st *State, v, lo, hi *Term, pos token.Pos) {
	if x.rep.quiet || x.mon.name == "init" {
		return
	}
	n := lenT(v)
	ok := st.holds(Le(Int(0), lo)) && st.holds(Le(lo, hi)) && st.holds(Le(hi, n))
	x.rep.check(ok, x, st, pos, inRange, nil, "%s up to %s of %s", lo, hi, n)
}

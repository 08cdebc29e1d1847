package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Frame conditions: where one rule relies on what another rule shows of a function, the function must not do
// more than that. It stores only into memory it made itself.

// rules that say themselves what their functions store into
var storing = map[string]bool{"CONFIG": true, "OPTIONS": true, "ENTRY": true, "REGISTRY": true, "SKIP": true, "MATCHER": true, "YAMLUPDATE": true, "CLEAN": true}

// rules that say themselves which files their functions modify
var writing = map[string]bool{"APPEND": true, "UPDATE": true, "EXFILES": true, "EXSNAPS": true, "ENTRY": true, "CLEAN": true, "REGISTRY": true, "READ": true, "FILESKIP": true, "HASSKIP": true, "SKIP": true}

func (d *Driver) frame(mon *Mon, args []*Term) {
	if mon == nil {
		return
	}
	mon.args = args
	if mon.framed {
		return
	}
	mon.framed = true
	if !writing[d.rep.rule] {
		call := mon.call
		mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			if e := fsEffect(x, st, c); e != "" && e != "write" {
				d.rep.bad(x, st, c.pos, "the file system is left alone: "+e, []string{"C05"}, "only recording and updating a snapshot and Clean modify files")
			}
			if call != nil {
				return call(x, st, c)
			}
			return nil, false
		}
	}
	if storing[d.rep.rule] {
		return
	}
	store, mapset := mon.store, mon.mapset
	mon.store = func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
		d.outside(x, st, mon, loc, v, pos)
		if store != nil {
			store(x, st, loc, v, pos)
		}
	}
	mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
		d.outside(x, st, mon, m, nil, pos)
		if mapset != nil {
			mapset(x, st, m, k, v, pos)
		}
	}
}

// outside judges a store into loc (of v, when it is known)
func (d *Driver) outside(x *Exec, st *State, mon *Mon, loc, v *Term, pos token.Pos) {
	root := rootOf(loc)
	if isObj(root) {
		return
	}
	props := append([]string{"C06", "C12"}, d.rep.cur...)
	if g := globalOf(root); g != nil {
		if d.private(g, x.stack) {
			return // nobody else looks at it
		}
		d.rep.bad(x, st, pos, "nothing but its own memory is modified", props, loc.String())
		return
	}
	for _, a := range mon.args {
		if a == nil || isObj(a) || a.isInt() || a.isStr() || a == Nil {
			continue
		}
		if partOf(root, a) {
			if v != nil && st.mem[loc] == v {
				return
			}
			d.rep.bad(x, st, pos, "nothing but its own memory is modified", props, loc.String())
			return
		}
	}
}

// partOf reports whether t is memory that a gives access to
func partOf(t, a *Term) bool {
	for {
		if t == a {
			return true
		}
		switch {
		case t.op == "fa", t.op == "ia", t.op == "field", t.op == "sel", t.op == "slice", t.op == "iface",
			t.is("ld"), t.is("nonnil"), t.is("content"), t.is("mc"), t.is("mapval"), t.is("mapget"), t.is("sel"), t.is("slice"):
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		default:
			return false
		}
	}
}

// globalOf is the package variable the memory hangs off
func globalOf(t *Term) *Term {
	var g *Term
	anyTerm(t, func(u *Term) bool {
		if u.op == "global" {
			g = u
		}
		return g != nil
	})
	return g
}

// private reports whether only the functions of the stack use the package variable
func (d *Driver) private(g *Term, stack []*ssa.Function) bool {
	in := map[*ssa.Function]bool{}
	for _, f := range stack {
		in[f] = true
	}
	for _, f := range d.p.srcFns {
		if in[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if v, ok := (*op).(*ssa.Global); ok && Global(v.String()) == g {
						return false
					}
				}
			}
		}
	}
	return true
}

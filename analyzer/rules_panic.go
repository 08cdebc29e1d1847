package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A comparison that stops half-way must not end as one that passed: a function that recovers from a panic
// panics again, or reports the failure to the test.

func (d *Driver) rulePanic() {
	d.rep.begin("PANIC", "repository", "C20", "C17", "C02")
	for _, f := range d.p.srcFns {
		d.rep.fn = short(f.String())
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g, ok := c.Common().Value.(*ssa.Builtin); !ok || g.Name() != "recover" {
					continue
				}
				if reraises(f, map[*ssa.Function]bool{}) {
					d.rep.ok("a panic that is recovered is reported")
				} else {
					d.rep.bad(nil, nil, i.Pos(), "a panic is swallowed", nil, "the comparison that panicked neither passes nor fails")
				}
			}
		}
		d.rep.ok("no panic is swallowed")
	}
}

// reraises: does the function, or one it calls, panic or fail the test?
func reraises(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Panic); ok {
				return true
			}
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if m := c.Common().Method; m != nil {
				if n := m.Name(); strings.HasPrefix(n, "Error") || strings.HasPrefix(n, "Fail") || strings.HasPrefix(n, "Fatal") {
					return true
				}
			}
			if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && reraises(g, seen) {
				return true
			}
		}
	}
	return false
}

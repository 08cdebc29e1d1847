package main

import (
	"fmt"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Driver runs the rules over one loaded program.
type Driver struct {
	p        *Prog
	rep      *Reporter
	visited  map[*ssa.Function]bool
	steps    int
	calls    int
	loops    int
	rulefns  map[string]map[string]bool // rule -> functions analysed
	verbose  bool
	thorough bool
	current  string
	configs  []string
	limit    int
	guards   map[string]map[string]bool
	highest  map[bool]map[string]bool
	shared   map[string][]access
	stored   []lineView
	compared []lineView
	skipped  map[int64]bool // frames snapshotPath skips, counted from itself
}

func newDriver(p *Prog, rep *Reporter) *Driver {
	return &Driver{p: p, rep: rep, visited: map[*ssa.Function]bool{}, rulefns: map[string]map[string]bool{}, limit: 3000000}
}

// begin opens a rule on a function; nil when the function is gone
func (d *Driver) begin(rule, pkg, name string, props ...string) *ssa.Function {
	d.rep.begin(rule, pkg+"."+name, props...)
	fn := d.p.fn(pkg, name)
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the rule analyses "+pkg+"."+name)
	}
	return fn
}

// run analyses fn under mon; every path that ends in a return is reported to ret
func (d *Driver) run(fn *ssa.Function, mon *Mon, args []*Term, st *State, ret func(x *Exec, o Out)) {
	x := d.newExec(fn, mon)
	d.runOn(x, fn, args, st, ret)
}

func (d *Driver) newExec(fn *ssa.Function, mon *Mon) *Exec {
	return &Exec{p: d.p, mon: mon, rep: d.rep, root: fn.String(), limit: d.limit, visited: map[*ssa.Function]bool{}, seed: d.p.seed}
}

func (d *Driver) runOn(x *Exec, fn *ssa.Function, args []*Term, st *State, ret func(x *Exec, o Out)) {
	d.watch(x.mon)
	d.frame(x.mon, args)
	outs := x.Run(fn, args, st)
	if x.fail != "" {
		d.rep.bad(x, nil, x.lastPos, "undecided: "+x.fail, nil, "the analysis cannot follow this code")
	} else {
		n := 0
		for _, o := range outs {
			if !o.panic {
				n++
				if ret != nil {
					x.lastPos = fn.Pos()
					ret(x, o)
				}
			}
		}
		if n == 0 {
			d.rep.bad(x, nil, fn.Pos(), "no path returns", nil, "")
		}
	}
	d.account(x)
}

func (d *Driver) account(x *Exec) {
	m := d.rulefns[d.rep.rule]
	if m == nil {
		m = map[string]bool{}
		d.rulefns[d.rep.rule] = m
	}
	for f := range x.visited {
		d.visited[f] = true
		m[short(f.String())] = true
	}
	d.steps += x.steps
	d.calls += x.calls
	d.loops += x.nloops
}

func keys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// chainCall tries hooks in order
func chainCall(hs ...func(x *Exec, st *State, c *CallInfo) ([]Out, bool)) func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	return func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		for _, h := range hs {
			if o, ok := h(x, st, c); ok {
				return o, true
			}
		}
		return nil, false
	}
}

var _ = fmt.Sprint

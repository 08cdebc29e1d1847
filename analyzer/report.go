package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Violation is one broken obligation.
type Violation struct {
	Rule  string   // rule id
	Fn    string   // function analysed
	What  string   // construct (no line numbers: stable key)
	Where string   // file:line
	Props []string // properties the obligation is a necessary condition of
	Chain string
	Facts []string
	Log   []string
}

func (v *Violation) key() string { return v.Rule + "|" + v.Fn + "|" + v.What }

type Reporter struct {
	p     *Prog
	quiet bool
	viol  map[string]*Violation
	obl   map[string]map[string]int // rule -> construct -> discharged count
	oblP  map[string][]string       // rule|construct -> properties
	rules map[string][]string       // rule -> properties
	notes []string
	cur   []string // properties of the rule being run
	rule  string
	fn    string
}

func newReporter(p *Prog) *Reporter {
	return &Reporter{p: p, viol: map[string]*Violation{}, obl: map[string]map[string]int{}, oblP: map[string][]string{}, rules: map[string][]string{}}
}

func (r *Reporter) note(f string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

// begin declares the rule whose obligations follow
func (r *Reporter) begin(rule, fn string, props ...string) {
	r.rule, r.fn, r.cur = rule, fn, props
	r.rules[rule] = props
	if r.obl != nil && r.obl[rule] == nil {
		r.obl[rule] = map[string]int{}
	}
}

// ok counts a discharged obligation
func (r *Reporter) ok(what string) {
	if r.quiet {
		return
	}
	r.okFor(what, nil)
}

func (r *Reporter) okFor(what string, props []string) {
	if r.quiet {
		return
	}
	if props == nil {
		props = r.cur
	}
	r.obl[r.rule][what]++
	k := r.rule + "|" + what
	for _, p := range props {
		if !has(r.oblP[k], p) {
			r.oblP[k] = append(r.oblP[k], p)
		}
	}
}

// must demands that the named obligations were discharged or violated at least once: a rule
// whose subject has vanished has decided nothing.
func (r *Reporter) must(whats ...string) {
	for _, w := range whats {
		if r.obl[r.rule][w] > 0 {
			continue
		}
		seen := false
		for _, v := range r.viol {
			if v.Rule == r.rule && (v.What == w || strings.HasPrefix(v.What, "undecided") || strings.HasPrefix(v.What, "anchor")) {
				seen = true
			}
		}
		if !seen {
			r.bad(nil, nil, token.NoPos, "never happens: "+w, nil, "no path of the functions analysed reaches the behaviour this rule decides")
		}
	}
}

func (r *Reporter) bad(x *Exec, st *State, pos token.Pos, what string, props []string, detail string) {
	if r.quiet {
		return
	}
	v := &Violation{Rule: r.rule, Fn: r.fn, What: what, Props: props}
	if props == nil {
		v.Props = r.cur
	}
	if x != nil {
		v.Where = x.where(pos)
		v.Chain = x.chain()
	} else {
		v.Where = r.p.line(pos)
	}
	if detail != "" {
		v.Log = append(v.Log, detail)
	}
	if st != nil {
		v.Facts = st.factList()
		v.Log = append(v.Log, st.log...)
	}
	if old, ok := r.viol[v.key()]; ok {
		// keep every property tag
		for _, p := range v.Props {
			if !has(old.Props, p) {
				old.Props = append(old.Props, p)
			}
		}
		return
	}
	r.viol[v.key()] = v
}

func has(s []string, e string) bool {
	for _, x := range s {
		if x == e {
			return true
		}
	}
	return false
}

// check discharges or reports
func (r *Reporter) check(ok bool, x *Exec, st *State, pos token.Pos, what string, props []string, detail string, a ...any) {
	if ok {
		r.okFor(what, props)
		return
	}
	r.bad(x, st, pos, what, props, fmt.Sprintf(detail, a...))
}

func (r *Reporter) sorted() []*Violation {
	var vs []*Violation
	for _, v := range r.viol {
		sort.Strings(v.Props)
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].key() < vs[j].key() })
	return vs
}

func (v *Violation) String() string {
	s := fmt.Sprintf("%s: [%s] %s: %s (%s)", v.Where, v.Rule, v.Fn, v.What, strings.Join(v.Props, ","))
	if v.Chain != "" {
		s += "\n    call path: " + v.Chain
	}
	for _, l := range v.Log {
		s += "\n    " + l
	}
	if len(v.Facts) > 0 {
		f := v.Facts
		if len(f) > 14 {
			f = f[:14]
		}
		s += "\n    facts: " + strings.Join(f, "; ")
	}
	return s
}

package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head   *ssa.BasicBlock
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
}

func (l *loop) name() string { return fmt.Sprintf("%s.%d", l.fn.Name(), l.head.Index) }

const maxRounds = 40

// runLoop computes the fixpoint of the loop from one entry state and returns the arrivals that leave it.
func (x *Exec) runLoop(fr *frame, entry *pstate, l *loop) []arrival {
	x.nloops++
	x.loopSeq++
	uid := x.loopSeq
	x.loopStk = append(x.loopStk, l)
	defer func(n int) { x.loopStk = x.loopStk[:n] }(len(x.loopStk) - 1)
	x.phis(entry, l.head)
	pos := x.lastPos
	old := map[*Term]bool{} // objects that exist before the loop
	note := func(t *Term) {
		if t != nil {
			collect(t, isObj, old)
		}
	}
	for k, v := range entry.st.mem {
		note(k)
		note(v)
	}
	for _, v := range entry.env {
		note(v)
	}
	for _, v := range entry.st.ghost {
		note(v)
	}
	if x.fixedTrips(entry, l) {
		return x.unroll(fr, entry, l)
	}
	if x.mon.inv != nil {
		x.prepare(fr, entry, l, old)
		return x.inductive(fr, entry, l, uid, old)
	}
	// objects of the callers are kept: everything named so far
	if out, ok := x.summarise(fr, entry, l, uid); ok {
		return out
	}
	heads := map[string]*pstate{}
	results := map[string][]arrival{}
	var order []string
	work := []*pstate{entry}
	rounds := 0
	for len(work) > 0 {
		if rounds > maxRounds*4 {
			x.undecided("loop %s at %s does not stabilise", l.name(), x.p.line(pos))
		}
		in := work[0]
		work = work[1:]
		x.prepare(fr, in, l, old)
		k := x.headKey(fr, in, l)
		cur := heads[k]
		if cur == nil {
			order = append(order, k)
			heads[k] = in
		} else {
			j, changed := x.join(fr, cur, in, l, fmt.Sprintf("%s~%d", l.name(), uid))
			if !changed {
				continue
			}
			heads[k] = j
		}
		rounds++
		if len(order) > 60 {
			x.undecided("loop %s: too many head partitions", l.name())
		}
		h := heads[k].clone()
		if DebugLoops {
			fmt.Printf("  loop %s round %d key %q ghosts %v env %v\n", l.name(), rounds, k, h.st.ghost, x.envStr(fr, h, l))
		}
		arr := x.explore(fr, h, l.head, l)
		results[k] = nil
		for _, a := range arr {
			if a.kind == aBack {
				if x.mon.back != nil {
					x.mon.back(x, a.ps.st, l, pos)
				}
				x.phis(a.ps, l.head)
				work = append(work, a.ps)
			} else {
				results[k] = append(results[k], a)
			}
		}
	}
	var out []arrival
	for _, k := range order {
		for _, a := range results[k] {
			if a.kind == aExit && x.mon.exit != nil {
				x.mon.exit(x, a.ps.st, l, pos)
			}
			out = append(out, a)
		}
	}
	return x.mergeArrivals(fr, out)
}

// fixedTrips reports whether the loop counts between two known numbers that are close to each other
func (x *Exec) fixedTrips(entry *pstate, l *loop) bool {
	in, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	phi := false
	// get reads a variable or field at the loop's entry; whether the loop changes it shows when it is unrolled
	var get func(v ssa.Value) *Term
	get = func(v ssa.Value) *Term {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() != l.head {
			return entry.env[v]
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			if b := get(v.X); b != nil {
				return fa(b, v.Field, structOf(deref(v.X.Type())).Field(v.Field).Name())
			}
		case *ssa.Field:
			if b := get(v.X); b != nil {
				return fieldOf(b, v.Field, structOf(v.X.Type()).Field(v.Field).Name())
			}
		case *ssa.UnOp:
			if b := get(v.X); b != nil && v.Op == token.MUL {
				return x.load(entry.st, b, v.Type())
			}
		}
		return nil
	}
	var num func(v ssa.Value) *Term
	num = func(v ssa.Value) *Term {
		if k, ok := v.(*ssa.Const); ok {
			return constTerm(k)
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
			phi = true
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == l.head {
			// computed afresh below
		} else if t := entry.env[v]; t != nil {
			return entry.st.norm(t)
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head && entry.env[p] != nil {
			return entry.st.norm(entry.env[p])
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == l.head {
			if a, c := num(b.X), num(b.Y); a != nil && c != nil {
				return entry.st.norm(Add(a, c))
			}
		}
		if c, ok := v.(*ssa.Call); ok && c.Block() == l.head {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if t := get(c.Call.Args[0]); t != nil {
					return entry.st.norm(lenT(x.content(entry.st, t)))
				}
			}
		}
		return nil
	}
	a, b := num(cmp.X), num(cmp.Y)
	if !phi || a == nil || b == nil || !a.isInt() || !b.isInt() {
		return false
	}
	n := b.c - a.c
	return (cmp.Op == token.LSS || cmp.Op == token.LEQ || cmp.Op == token.NEQ) && n >= 0 && n <= 8
}

func (x *Exec) unroll(fr *frame, entry *pstate, l *loop) (out []arrival) {
	pos := x.lastPos
	work := []*pstate{entry}
	for n := 0; len(work) > 0; n++ {
		if n > 400 {
			x.undecided("loop %s does not end", l.name())
		}
		ps := work[0]
		work = work[1:]
		for _, a := range x.explore(fr, ps.clone(), l.head, l) {
			if a.kind == aBack {
				if x.mon.back != nil {
					x.mon.back(x, a.ps.st, l, pos)
				}
				x.phis(a.ps, l.head)
				work = append(work, a.ps)
				continue
			}
			if a.kind == aExit && x.mon.exit != nil {
				x.mon.exit(x, a.ps.st, l, pos)
			}
			out = append(out, a)
		}
	}
	return x.mergeArrivals(fr, out)
}

var DebugLoops = false

func (x *Exec) envStr(fr *frame, ps *pstate, l *loop) string {
	var s []string
	for _, v := range x.liveVals(fr, l) {
		if t, ok := ps.env[v]; ok {
			s = append(s, v.Name()+"="+t.String())
		}
	}
	for _, k := range sortedLocs(ps.st.mem) {
		s = append(s, k.String()+":="+ps.st.mem[k].String())
	}
	s = append(s, ps.st.factList()...)
	return strings.Join(s, " ; ")
}

// mergeArrivals joins loop exits that differ in branch facts only
func (x *Exec) mergeArrivals(fr *frame, in []arrival) []arrival {
	if x.mon.noMerge {
		return in
	}
	var res []arrival
next:
	for _, a := range in {
		if a.kind != aExit {
			res = append(res, a)
			continue
		}
		for i, r := range res {
			if r.kind != aExit || r.to != a.to || r.ps.prev != a.ps.prev && !x.samePhis(r.ps, a.ps, a.to) || len(r.ps.defers) != len(a.ps.defers) || !sameEffect(r.ps.st, a.ps.st) {
				continue
			}
			same := true
			for v, t := range a.ps.env {
				if r.ps.env[v] != t && (fr.live[a.to][v] || isPhiEdge(a.to, v)) {
					same = false
					break
				}
			}
			for v := range r.ps.env {
				if _, ok := a.ps.env[v]; !ok && (fr.live[a.to][v] || isPhiEdge(a.to, v)) {
					same = false
				}
			}
			if !same {
				continue
			}
			res[i].ps.st = joinFacts(r.ps.st, a.ps.st)
			continue next
		}
		res = append(res, a)
	}
	return res
}

// samePhis reports whether b is entered with the same values from both states, although from other blocks
func (x *Exec) samePhis(r, a *pstate, b *ssa.BasicBlock) bool {
	ir, ia := -1, -1
	for i, p := range b.Preds {
		if p == r.prev {
			ir = i
		}
		if p == a.prev {
			ia = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if x.val(r, p.Edges[ir]) != x.val(a, p.Edges[ia]) {
			return false
		}
	}
	return true
}

func isPhiEdge(b *ssa.BasicBlock, v ssa.Value) bool {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range p.Edges {
			if e == v {
				return true
			}
		}
	}
	return false
}

func joinFacts(a, b *State) *State {
	m := a.clone()
	m.facts = map[*Term]bool{}
	for f, v := range a.facts {
		if w, ok := b.facts[f]; ok && w == v {
			m.facts[f] = v
		} else if b.eval(f) == Bool(v) {
			m.facts[f] = v
		}
	}
	for f, v := range b.facts {
		if _, ok := m.facts[f]; !ok && a.eval(f) == Bool(v) {
			m.facts[f] = v
		}
	}
	m.rep = map[*Term]*Term{}
	for f, v := range a.rep {
		if b.rep[f] == v {
			m.rep[f] = v
		}
	}
	for k, v := range b.nsym {
		if v > m.nsym[k] {
			m.nsym[k] = v
		}
	}
	return m
}

func (x *Exec) liveVals(fr *frame, l *loop) []ssa.Value {
	var vs []ssa.Value
	for v := range fr.live[l.head] {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

func sortedLocs(m map[*Term]*Term) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// prepare normalises a state that reaches the head: equalities applied, dead registers and objects dropped
func (x *Exec) prepare(fr *frame, ps *pstate, l *loop, old map[*Term]bool) {
	live := fr.live[l.head]
	st := ps.st
	for v := range ps.env {
		if !live[v] {
			delete(ps.env, v)
			continue
		}
		ps.env[v] = st.norm(ps.env[v])
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
			ps.env[v] = decided(st, ps.env[v])
		}
	}
	for g, v := range st.ghost {
		st.ghost[g] = st.norm(v)
	}
	nm := make(map[*Term]*Term, len(st.mem))
	for _, k := range sortedLocs(st.mem) {
		nm[st.norm(k)] = st.norm(st.mem[k])
	}
	st.mem = nm
	// reachability of objects made inside the loop
	reach := map[*Term]bool{}
	for a := range old {
		reach[a] = true
	}
	isAl := isObj
	for _, v := range ps.env {
		collect(v, isAl, reach)
	}
	for _, v := range st.ghost {
		collect(v, isAl, reach)
	}
	for _, d := range ps.defers {
		for _, a := range d.args {
			collect(a, isAl, reach)
		}
		for _, a := range d.bind {
			collect(a, isAl, reach)
		}
	}
	for n := -1; n != len(reach); {
		n = len(reach)
		for k, v := range st.mem {
			if !unreachable(k, reach) {
				collect(v, isAl, reach)
			}
		}
	}
	for k := range st.mem {
		if unreachable(k, reach) {
			delete(st.mem, k)
		}
	}
	if len(st.log) > 24 {
		st.log = append(st.log[:8:8], append([]string{"…"}, st.log[len(st.log)-12:]...)...)
	}
}

// decided replaces a condition whose truth the path has decided by that truth
func decided(st *State, t *Term) *Term {
	if t == nil {
		return t
	}
	a, neg := t, false
	for a.op == "not" {
		a, neg = a.args[0], !neg
	}
	if v, ok := st.facts[a]; ok {
		return Bool(v != neg)
	}
	return t
}

// isObj: identities that only the code under analysis can name
func isObj(u *Term) bool { return u.op == "alloc" || u.op == "phi" }

// unreachable: a location of an object made since, which nothing live refers to
func unreachable(k *Term, reach map[*Term]bool) bool {
	r := rootOf(k)
	if isObj(r) {
		return !reach[r]
	}
	if k.is("content") && k.args[0] == r || r.op == "app" {
		return anyTerm(r, func(u *Term) bool { return isObj(u) && !reach[u] })
	}
	return false
}

// headKey partitions head states: typestate mode, boolean constants and nil-ness
func (x *Exec) headKey(fr *frame, ps *pstate, l *loop) string {
	var b strings.Builder
	b.WriteString(ps.st.mode)
	for _, v := range x.liveVals(fr, l) {
		t := ps.env[v]
		if x.flagsJoin && (t == True || t == False) {
			continue
		}
		switch {
		case t == True || t == False:
			fmt.Fprintf(&b, "|%s=%s", v.Name(), t.val)
		case t == Nil && refLike(v):
			fmt.Fprintf(&b, "|%s=nil", v.Name())
		}
	}
	for _, k := range sortedLocs(ps.st.mem) {
		t := ps.st.mem[k]
		if (t == True || t == False) && rootOf(k).op == "alloc" && !x.flagsJoin {
			fmt.Fprintf(&b, "|%s=%s", k.String(), t.val)
		}
	}
	var gs []string
	for g, t := range ps.st.ghost {
		if t == True || t == False {
			gs = append(gs, g+"="+t.val)
		}
		if strings.HasPrefix(g, "key:") {
			gs = append(gs, g+"="+t.String())
		}
	}
	sort.Strings(gs)
	fmt.Fprintf(&b, "|%s|d%d", strings.Join(gs, ","), len(ps.defers))
	return b.String()
}

func refLike(v ssa.Value) bool {
	switch zeroOf(v.Type()) {
	case Nil:
		n := typeName(v.Type())
		return !strings.HasPrefix(n, "[]")
	}
	return false
}

// ---------------------------------------------------------------- anti-unification

type gen struct {
	x     *Exec
	pfx   string
	sigma map[*Term]*Term // φ of the old head -> value in the new state
	table map[[2]*Term]*Term
	left  map[*Term]*Term // φ -> old value
	right map[*Term]*Term // φ -> new value
	pairs [][2]*Term
	made  int
	next  int
	old   *State
	nw    *State
}

func (g *gen) isPhi(t *Term) bool { return t.op == "phi" && strings.HasPrefix(t.val, g.pfx+".") }

func (g *gen) hasPhi(t *Term) bool { return t.hasVar && anyTerm(t, g.isPhi) }

func (g *gen) record(p, a, b *Term) {
	g.left[p], g.right[p] = a, b
	if _, ok := g.table[[2]*Term{a, b}]; !ok {
		g.table[[2]*Term{a, b}] = p
		g.pairs = append(g.pairs, [2]*Term{a, b})
	}
}

func intLike(t *Term) bool { return t.op == "int" || t.op == "lin" || nonneg(t) }

func (g *gen) gen(a, b *Term) *Term {
	if !g.hasPhi(a) {
		if a == b {
			return a
		}
	} else if g.isPhi(a) {
		if s, ok := g.sigma[a]; !ok {
			g.sigma[a] = b
			g.record(a, a, b)
			return a
		} else if s == b {
			return a
		}
	} else {
		// instance under the bindings so far?
		all := true
		seen := map[*Term]bool{}
		collect(a, g.isPhi, seen)
		for p := range seen {
			if _, ok := g.sigma[p]; !ok {
				all = false
			}
		}
		if all && subst(a, g.sigma) == b {
			return a
		}
	}
	if p, ok := g.table[[2]*Term{a, b}]; ok {
		return p
	}
	// nil and empty slices have the same elements
	if a2, b2 := otherEmpty(a), otherEmpty(b); a2 != a || b2 != b {
		for _, k := range [][2]*Term{{a2, b}, {a, b2}, {a2, b2}} {
			if p, ok := g.table[k]; ok && k[0] != k[1] {
				return p
			}
		}
	}
	if intLike(a) || intLike(b) {
		// constant offset from a known pair
		for _, pr := range g.pairs {
			if !intLike(pr[0]) && !intLike(pr[1]) {
				continue
			}
			d1, d2 := Sub(a, pr[0]), Sub(b, pr[1])
			if d1 == d2 && d1.isInt() {
				return AddC(g.table[pr], d1.c)
			}
		}
	} else if a.op == b.op && a.val == b.val && a.c == b.c && len(a.args) == len(b.args) && len(a.args) > 0 && structural(a) {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = g.gen(a.args[i], b.args[i])
		}
		return rebuild(a, args)
	}
	if (a.op == "alloc") != (b.op == "alloc") {
		// a slice object on one side, a pure value on the other: keep the contents
		ca, cb := a, b
		if v, ok := g.old.mem[contentLoc(a)]; ok && a.op == "alloc" {
			ca = v
		}
		if v, ok := g.nw.mem[contentLoc(b)]; ok && b.op == "alloc" {
			cb = v
		}
		if (ca != a || cb != b) && ca != Nil && cb != Nil {
			return g.gen(ca, cb)
		}
	}
	g.next++
	g.made++
	p := mk("phi", fmt.Sprintf("%s.%d", g.pfx, g.next), 0, nil)
	for contains(a, p) || contains(b, p) || g.left[p] != nil {
		g.next++
		p = mk("phi", fmt.Sprintf("%s.%d", g.pfx, g.next), 0, nil)
	}
	g.record(p, a, b)
	return p
}

var emptySeq = mk("seq", "", 0, nil)

func otherEmpty(t *Term) *Term {
	switch t {
	case Nil:
		return emptySeq
	case emptySeq:
		return Nil
	}
	return t
}

func structural(a *Term) bool {
	switch a.op {
	case "struct", "iface", "tuple", "closure", "field", "fa", "ia":
		return true
	case "app":
		switch a.val {
		case "seqcat", "mapupd", "upd", "mapdel":
			return false
		}
		return true
	case "seq":
		return true
	}
	return false
}

func missing(st *State, x *Exec, k, other *Term) *Term {
	if v, ok := x.seed[k]; ok {
		return v
	}
	if k.is("content") {
		p := k.args[0]
		o := other
		for o.is("mapupd") || o.is("mapdel") {
			o = o.args[0]
		}
		if o.is("emptymap") || o.is("mc") {
			return App("mc", p)
		}
		if p.op == "alloc" {
			return Nil
		}
		return p
	}
	if rootOf(k).op == "alloc" {
		switch {
		case intLike(other):
			return Int(0)
		case other.op == "str" || other.op == "concat":
			return Empty
		case other == True || other == False:
			return False
		}
		return Nil
	}
	return App("ld", k)
}

// join generalises the head state old with the new arrival
func (x *Exec) join(fr *frame, old, nw *pstate, l *loop, pfx string) (*pstate, bool) {
	g := &gen{x: x, pfx: pfx, sigma: map[*Term]*Term{}, table: map[[2]*Term]*Term{}, left: map[*Term]*Term{}, right: map[*Term]*Term{}, old: old.st, nw: nw.st}
	// number above existing φ's
	scan := func(t *Term) {
		anyTerm(t, func(u *Term) bool {
			if g.isPhi(u) {
				var n int
				fmt.Sscanf(u.val[len(pfx)+1:], "%d", &n)
				if n > g.next {
					g.next = n
				}
			}
			return false
		})
	}
	for _, t := range old.env {
		scan(t)
	}
	for _, t := range old.st.mem {
		scan(t)
	}
	for _, t := range old.st.ghost {
		scan(t)
	}
	for _, t := range nw.env {
		scan(t)
	}
	for _, t := range nw.st.mem {
		scan(t)
	}
	for _, t := range nw.st.ghost {
		scan(t)
	}
	res := old.clone()
	st := res.st
	changed := false
	// composite values and what they became
	wholeL, wholeR := map[*Term]*Term{}, map[*Term]*Term{}
	set := func(a, b *Term) *Term {
		r := g.gen(a, b)
		if r != a {
			changed = true
		}
		if r.op == "app" && len(r.args) > 0 {
			wholeL[a], wholeR[b] = r, r
		}
		return r
	}
	// order: bare φ's of the old state first so that they bind to the right values
	type slot struct {
		a, b *Term
		put  func(*Term)
	}
	var slots []slot
	var gs []string
	for n := range st.ghost {
		gs = append(gs, n)
	}
	for n := range nw.st.ghost {
		if _, ok := st.ghost[n]; !ok {
			gs = append(gs, n)
			changed = true
		}
	}
	sort.Strings(gs)
	for _, n := range gs {
		n := n
		slots = append(slots, slot{old.st.g(n), nw.st.g(n), func(t *Term) { st.ghost[n] = t }})
	}
	for _, v := range x.liveVals(fr, l) {
		v := v
		a, b := old.env[v], nw.env[v]
		if a == nil || b == nil {
			if a == nil && b == nil {
				continue
			}
			delete(res.env, v)
			continue
		}
		if a != b {
			// a slice that append made fresh is its content
			plain := func(st *State, t *Term) *Term {
				if t.op == "alloc" && strings.HasPrefix(t.val, "appended") {
					return x.content(st, t)
				}
				return t
			}
			if pa, pb := plain(old.st, a), plain(nw.st, b); pa != a || pb != b {
				if pa == Nil && pb != Nil {
					pa = emptySeq
				}
				if pb == Nil && pa != Nil {
					pb = emptySeq
				}
				changed = changed || pa != a
				a, b = pa, pb
			}
		}
		slots = append(slots, slot{a, b, func(t *Term) { res.env[v] = t }})
	}
	keys := map[*Term]*Term{}
	for k, v := range st.mem {
		keys[k] = v
	}
	for k, v := range nw.st.mem {
		if _, ok := keys[k]; !ok {
			keys[k] = v
		}
	}
	for _, k := range sortedLocs(keys) {
		k := k
		a, ok1 := old.st.mem[k]
		b, ok2 := nw.st.mem[k]
		if !ok1 {
			a = missing(old.st, x, k, b)
			changed = true
		}
		if !ok2 {
			b = missing(nw.st, x, k, a)
		}
		slots = append(slots, slot{a, b, func(t *Term) { st.mem[k] = t }})
	}
	done := make([]bool, len(slots))
	for i, s := range slots {
		if g.isPhi(s.a) {
			s.put(set(s.a, s.b))
			done[i] = true
		}
	}
	for i, s := range slots {
		if !done[i] && !(s.a.op == "concat" || s.a.is("seqcat") || s.a.op == "lin") {
			s.put(set(s.a, s.b))
			done[i] = true
		}
	}
	for i, s := range slots {
		if !done[i] {
			s.put(set(s.a, s.b))
		}
	}
	if nw.st.mode != st.mode {
		x.undecided("join of different modes")
	}
	// facts: candidates over the joined vocabulary that hold on both sides
	backL, backR := map[*Term]*Term{}, map[*Term]*Term{}
	toL, toR := map[*Term]*Term{}, map[*Term]*Term{}
	var phis []*Term
	for p := range g.left {
		phis = append(phis, p)
	}
	sort.Slice(phis, func(i, j int) bool { return phis[i].id < phis[j].id })
	rev := func(back map[*Term]*Term, p, v *Term) {
		if v == p || v.isConst() {
			return
		}
		if v.op == "lin" {
			for i, a := range v.args {
				if v.k[i] == 1 && (a.op == "phi" || a.op == "fresh") {
					if _, ok := back[a]; !ok {
						rest := Sub(v, a)
						back[a] = Sub(p, rest)
					}
					return
				}
			}
			return
		}
		if _, ok := back[v]; !ok {
			back[v] = p
		}
	}
	for _, p := range phis {
		toL[p], toR[p] = g.left[p], g.right[p]
		rev(backL, p, g.left[p])
		rev(backR, p, g.right[p])
	}
	cand := map[*Term]bool{}
	addCand := func(f *Term, v bool) {
		for f.op == "not" {
			f, v = f.args[0], !v
		}
		if f == True || f == False {
			return
		}
		if v {
			cand[f] = true
		} else {
			cand[Not(f)] = true
		}
	}
	type fv struct {
		f *Term
		v bool
	}
	listF := func(s *State) []fv {
		var fs []fv
		for f, v := range s.facts {
			fs = append(fs, fv{f, v})
		}
		for a, b := range s.rep {
			e := Eq(a, b)
			if e != True && e != False {
				fs = append(fs, fv{e, true})
			}
		}
		return fs
	}
	oldF := map[*Term]bool{}
	for _, c := range listF(old.st) {
		f, v := c.f, c.v
		if v {
			oldF[f] = true
		} else {
			oldF[Not(f)] = true
		}
		addCand(f, v)
		if g.made > 0 {
			addCand(subst(f, backL), v)
			if w := subst(f, wholeL); w != f {
				addCand(w, v)
			}
		}
	}
	if g.made > 0 {
		for _, c := range listF(nw.st) {
			addCand(subst(c.f, backR), c.v)
			addCand(c.f, c.v)
			if w := subst(c.f, wholeR); w != c.f {
				addCand(w, c.v)
			}
		}
		// lengths the loop conditions speak of
		var lens []*Term
		seenLen := map[*Term]bool{}
		for _, s := range []*State{old.st, nw.st} {
			for _, c := range listF(s) {
				switch {
				case c.f.op == "le0":
					collect(c.f, nonneg, seenLen)
				case c.f.op == "eq" && c.f.args[0] == Empty:
					seenLen[App("len", c.f.args[1])] = true
				case c.f.op == "eq" && c.f.args[1] == Empty:
					seenLen[App("len", c.f.args[0])] = true
				}
			}
		}
		for t := range seenLen {
			if !g.hasPhi(t) {
				lens = append(lens, t)
			}
		}
		sort.Slice(lens, func(i, j int) bool { return lens[i].id < lens[j].id })
		var ints []*Term
		for _, p := range phis {
			if a, b := g.left[p], g.right[p]; intLike(a) || intLike(b) {
				ints = append(ints, p)
			}
		}
		if len(ints) <= 5 {
			for _, p := range ints {
				for _, q := range ints {
					if p != q {
						cand[Le(p, q)] = true
					}
				}
			}
		}
		for _, p := range phis {
			a, b := g.left[p], g.right[p]
			if intLike(a) || intLike(b) {
				for _, t := range []*Term{a, b} {
					if t.isInt() {
						cand[le0(AddC(AddK(Int(0), 1, p, -1), t.c))] = true
						cand[Le(p, Int(t.c))] = true
					}
				}
				cand[Le(Int(0), p)] = true
				for _, t := range lens {
					cand[Le(p, t)] = true
					cand[Lt(p, t)] = true
				}
			}
		}
	}
	st.facts = map[*Term]bool{}
	st.rep = map[*Term]*Term{}
	var kept []*Term
	for f := range cand {
		kept = append(kept, f)
	}
	sort.Slice(kept, func(i, j int) bool { return kept[i].id < kept[j].id })
	nKept := 0
	for _, f := range kept {
		lf, rf := subst(f, toL), subst(f, toR)
		if old.st.eval(lf) == True && nw.st.eval(rf) == True {
			a, v := f, true
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			if a == True || a == False {
				continue
			}
			st.facts[a] = v
			if v && a.op == "eq" {
				st.learnEq(a.args[0], a.args[1])
			}
			if oldF[f] {
				nKept++
			}
		}
	}
	if nKept != len(oldF) {
		changed = true
	}
	if len(st.rep) > 0 && !st.renorm() {
		st.rep = map[*Term]*Term{}
	}
	for k, v := range nw.st.nsym {
		if v > st.nsym[k] {
			st.nsym[k] = v
		}
	}
	res.prev = nw.prev
	return res, changed
}

// ---------------------------------------------------------------- element-wise loops

// summarise recognises a counted loop over a sequence whose only effect is element-wise:
// appending a function of the element, or replacing the element in place. The accumulator
// becomes a comprehension term coll(S, body over •).
func (x *Exec) summarise(fr *frame, entry *pstate, l *loop, uid int) (res []arrival, ok bool) {
	if x.mon.noSummary {
		return nil, false
	}
	x.keyDiffers = false
	res, ok = x.summarise1(fr, entry, l, uid)
	if !ok && x.keyDiffers {
		// a flag that changes on the way does not keep iterations apart
		old := x.flagsJoin
		x.flagsJoin = true
		res, ok = x.summarise1(fr, entry, l, uid)
		x.flagsJoin = old
	}
	return res, ok
}

func (x *Exec) summarise1(fr *frame, entry *pstate, l *loop, uid int) (res []arrival, ok bool) {
	// cheap syntactic filter: no calls that could be events are a matter of the trial below
	steps, viol := x.steps, x.rep
	x.rep = &Reporter{quiet: true, p: x.p}
	defer func() {
		x.rep = viol
		if r := recover(); r != nil {
			if _, is := r.(giveUp); is {
				x.steps = steps
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	oldAll := map[*Term]bool{}
	for k, v := range entry.st.mem {
		collect(k, isObj, oldAll)
		collect(v, isObj, oldAll)
	}
	for _, v := range entry.env {
		collect(v, isObj, oldAll)
	}
	h0 := entry.clone()
	x.prepare(fr, h0, l, oldAll)
	saveBack, saveExit := x.mon.back, x.mon.exit
	_ = saveBack
	_ = saveExit
	run := func(h *pstate) (backs, rest []arrival) {
		for _, a := range x.explore(fr, h.clone(), l.head, l) {
			if a.kind == aBack {
				x.phis(a.ps, l.head)
				x.prepare(fr, a.ps, l, oldAll)
				backs = append(backs, a)
			} else {
				rest = append(rest, a)
			}
		}
		return
	}
	backs, _ := run(h0)
	if len(backs) == 0 {
		return nil, false
	}
	h := h0
	pfx := fmt.Sprintf("%s~s%d", l.name(), uid)
	key := x.headKey(fr, h0, l)
	for _, b := range backs {
		if x.headKey(fr, b.ps, l) != key || len(b.ps.defers) != len(h0.defers) {
			x.keyDiffers = true
			return nil, false
		}
		for g, v := range b.ps.st.ghost {
			if h0.st.ghost[g] != v {
				return nil, false
			}
		}
		h, _ = x.join(fr, h, b.ps, l, pfx)
	}
	// second round to stabilise the vocabulary
	backs, rest := run(h)
	for _, b := range backs {
		j, ch := x.join(fr, h, b.ps, l, pfx)
		if ch {
			h = j
		}
	}
	backs, rest = run(h)
	if len(rest) != 1 || rest[0].kind != aExit || len(backs) == 0 {
		return nil, false
	}
	exit := rest[0]
	for _, b := range backs {
		if x.headKey(fr, b.ps, l) != key {
			x.keyDiffers = true
			return nil, false
		}
		for g, v := range b.ps.st.ghost {
			if h.st.ghost[g] != v {
				return nil, false
			}
		}
	}
	// changing slots
	type slot struct {
		name string
		phi  *Term
		init *Term
		nxt  []*Term
	}
	var slots []slot
	bad := false
	var derived []slot
	add := func(name string, hv, iv *Term, get func(*pstate) *Term) {
		var nx []*Term
		same := true
		for _, b := range backs {
			v := get(b.ps)
			nx = append(nx, v)
			if v != hv {
				same = false
			}
		}
		if same && hv == iv {
			return
		}
		if hv == nil || hv.op != "phi" {
			// derived from a φ: accepted when consistent with the slot of that φ
			if hv != nil && hv.op == "lin" && iv != nil {
				derived = append(derived, slot{name, hv, iv, nx})
				return
			}
			bad = true
			return
		}
		for _, s := range slots {
			if s.phi == hv {
				return
			}
		}
		slots = append(slots, slot{name, hv, iv, nx})
	}
	for _, v := range x.liveVals(fr, l) {
		v := v
		if h.env[v] == nil || h0.env[v] == nil {
			continue
		}
		add(v.Name(), h.env[v], h0.env[v], func(p *pstate) *Term { return p.env[v] })
	}
	for _, k := range sortedLocs(h.st.mem) {
		k := k
		iv, has := h0.st.mem[k]
		if !has {
			iv = missing(h0.st, x, k, h.st.mem[k])
		}
		add(k.String(), h.st.mem[k], iv, func(p *pstate) *Term {
			if v, ok := p.st.mem[k]; ok {
				return v
			}
			return nil
		})
	}
	if bad || len(slots) == 0 {
		return nil, false
	}
	// what the loop does not change after all
	inv := map[*Term]*Term{}
	for _, s := range slots {
		fixed := true
		for _, n := range s.nxt {
			fixed = fixed && n == s.phi
		}
		if fixed && s.init != nil && s.init.op != "phi" {
			inv[s.phi] = s.init
		}
	}
	if len(inv) > 0 {
		var keep []slot
		for _, s := range slots {
			if inv[s.phi] != nil {
				continue
			}
			for j, n := range s.nxt {
				if n != nil {
					s.nxt[j] = subst(n, inv)
				}
			}
			keep = append(keep, s)
		}
		slots = keep
		within := func(st *State) {
			nf, nr := map[*Term]bool{}, map[*Term]*Term{}
			for f, v := range st.facts {
				f = subst(f, inv)
				for f.op == "not" {
					f, v = f.args[0], !v
				}
				if f != True && f != False {
					nf[f] = v
				}
			}
			for a, b := range st.rep {
				if a, b = subst(a, inv), subst(b, inv); a != b {
					nr[a] = b
				}
			}
			st.facts, st.rep = nf, nr
		}
		for _, b := range backs {
			within(b.ps.st)
		}
		within(exit.ps.st)
	}
	for _, dv := range derived {
		m := map[*Term]*Term{}
		for _, s := range slots {
			m[s.phi] = s.init
		}
		if subst(dv.phi, m) != dv.init {
			return nil, false
		}
		for i, n := range dv.nxt {
			for _, s := range slots {
				if s.nxt[i] == nil {
					return nil, false
				}
				m[s.phi] = s.nxt[i]
			}
			if n == nil || subst(dv.phi, m) != n {
				return nil, false
			}
		}
	}
	// the index: +1 on every path, from 0 (or -1 pre-increment)
	var idx *slot
	for i := range slots {
		s := &slots[i]
		all := s.init.isInt()
		for bi, n := range s.nxt {
			if n == nil || n != AddC(s.phi, 1) && backs[bi].ps.st.norm(AddC(s.phi, 1)) != n {
				all = false
			}
		}
		if all {
			idx = s
		}
	}
	if idx == nil {
		// a count between two variable bounds
		for i := range slots {
			s := &slots[i]
			all := true
			for _, n := range s.nxt {
				if n == nil || n != AddC(s.phi, 1) {
					all = false
				}
			}
			for _, b := range backs {
				reads := false
				for _, t := range slots {
					for _, n := range t.nxt {
						reads = reads || n != nil && anyTerm(n, func(u *Term) bool { return u.is("sel") && u.args[1] == s.phi })
					}
				}
				for f := range b.ps.st.facts {
					reads = reads || anyTerm(f, func(u *Term) bool { return u.is("sel") && u.args[1] == s.phi })
				}
				all = all && reads
			}
			if all {
				idx = s
			}
		}
		if idx == nil {
			return nil, false
		}
	} else if !(idx.init.c == 0 || idx.init.c == -1) {
		return nil, false
	}
	cur := Sub(idx.phi, idx.init) // position of the element this iteration works on
	// which sequence: exit must be cur >= len(S)
	var seq *Term
	// what holds at the head in any case is not what ends the loop
	always := func(f *Term, v bool) bool {
		hv, ok := h.st.facts[f]
		return ok && hv == v
	}
	for f, v := range exit.ps.st.facts {
		if f.op != "le0" || always(f, v) {
			continue
		}
		t := f.args[0]
		if !v {
			t = AddK(Int(1), 1, t, -1)
		}
		// t <= 0 : len(S) - cur <= 0
		d := Add(t, cur)
		if d.is("len") {
			seq = d.args[0]
		}
	}
	if seq == nil {
		// equality form: rep[...]
		for _, b := range backs {
			for f, v := range b.ps.st.facts {
				if f.op == "le0" && v && !always(f, v) {
					d := AddK(AddC(cur, 1), 1, f.args[0], -1)
					if d.is("len") {
						seq = d.args[0]
					}
				}
			}
		}
	}
	if seq == nil {
		// part of a sequence: elements off+cur for cur < n
		var n *Term
		for f, v := range exit.ps.st.facts {
			if f.op != "le0" || always(f, v) {
				continue
			}
			t := f.args[0]
			if !v {
				t = AddK(Int(1), 1, t, -1)
			}
			d := Add(t, cur)
			if intLike(d) && !contains(d, idx.phi) && entry.st.holds(Le(Int(0), d)) {
				all := true
				for _, b := range backs {
					all = all && b.ps.st.holds(Lt(cur, d))
				}
				if all {
					n = d
				}
			}
		}
		type part struct{ base, off *Term }
		seen := map[part]bool{}
		look := func(t *Term) {
			anyTerm(t, func(u *Term) bool {
				if u.is("sel") && contains(u.args[1], idx.phi) {
					seen[part{u.args[0], Sub(u.args[1], cur)}] = true
				}
				return false
			})
		}
		for _, s := range slots {
			for _, t := range s.nxt {
				look(t)
			}
		}
		for _, b := range backs {
			for f := range b.ps.st.facts {
				look(f)
			}
		}
		if n == nil || len(seen) != 1 {
			return nil, false
		}
		for p := range seen {
			if contains(p.off, idx.phi) || anyTerm(p.base, func(u *Term) bool { return u.op == "phi" && strings.HasPrefix(u.val, pfx) }) {
				return nil, false
			}
			seq = sliceTerm(p.base, p.off, Add(p.off, n))
			cur = Add(p.off, cur)
			p := p
			base := p.base
			fromSlice := func(t *Term) *Term {
				return mapTerm(t, func(u *Term) *Term {
					if u.is("sel") && u.args[0] == base && u.args[1] == cur {
						return App("sel", seq, cur)
					}
					return nil
				}, map[*Term]*Term{})
			}
			for i := range slots {
				for j, t := range slots[i].nxt {
					if t != nil && slots[i].phi != idx.phi {
						slots[i].nxt[j] = fromSlice(t)
					}
				}
			}
			for _, b := range backs {
				nf := map[*Term]bool{}
				for f, v := range b.ps.st.facts {
					nf[fromSlice(f)] = v
				}
				b.ps.st.facts = nf
			}
		}
	}
	// a flag that tells the first element apart: one value before it, another one behind it
	flags := map[*Term]*Term{}
	for i := range slots {
		s := &slots[i]
		ok := s != idx && len(s.nxt) > 0 && isConst(s.init)
		for _, n := range s.nxt {
			ok = ok && n != nil && n == s.nxt[0] && isConst(n)
		}
		if ok {
			flags[s.phi] = Ite(Le(cur, Int(0)), s.init, s.nxt[0])
		}
	}
	if len(flags) > 0 {
		for i := range slots {
			for j, t := range slots[i].nxt {
				if t != nil && &slots[i] != idx {
					slots[i].nxt[j] = subst(t, flags)
				}
			}
		}
		for _, b := range backs {
			nf := map[*Term]bool{}
			for f, v := range b.ps.st.facts {
				f = subst(f, flags)
				for f.op == "not" {
					f, v = f.args[0], !v
				}
				if f != True && f != False {
					nf[f] = v
				}
			}
			b.ps.st.facts = nf
		}
	}
	// the sequence actually read may be one of the same length (a sorted or mapped copy)
	bases := map[*Term]bool{}
	note := func(t *Term) {
		anyTerm(t, func(u *Term) bool {
			if u.is("sel") && u.args[1] == cur {
				bases[u.args[0]] = true
			}
			return false
		})
	}
	for _, s := range slots {
		for _, n := range s.nxt {
			if n != nil {
				note(n)
			}
		}
	}
	for _, b := range backs {
		for f := range b.ps.st.facts {
			note(f)
		}
	}
	if len(bases) == 1 {
		for b := range bases {
			if b != seq && lenT(b) == App("len", seq) {
				seq = b
			}
		}
	}
	// an in-place update keeps the length: len(φ) counts as len(S0)
	// on a path that knows its position, the element may have been read at that constant
	var at *Term
	toElem := func(t *Term, self *slot) *Term {
		var known *Term
		if at != nil {
			if known = selT(seq, at); known.isInt() || known.isStr() {
				known = nil
			}
		}
		return mapTerm(t, func(u *Term) *Term {
			if known != nil && u == known {
				return Elem
			}
			if u.is("sel") && u.args[1] == cur {
				b := u.args[0]
				if b == seq {
					return Elem
				}
				if self != nil && b == self.phi {
					return Elem
				}
			}
			return nil
		}, map[*Term]*Term{})
	}
	final := map[*Term]*Term{}
	for p, i := range inv {
		final[p] = i
	}
	baseSeq := seq
	for i := range slots {
		s := &slots[i]
		if s == idx {
			continue
		}
		if f := flags[s.phi]; f != nil {
			final[s.phi] = Ite(Le(lenT(seq), Int(0)), s.init, s.nxt[0])
			continue
		}
		kind := ""
		// a counter: the same step on every path
		step := false
		for bi, n := range s.nxt {
			if n == nil {
				return nil, false
			}
			d := Sub(n, s.phi)
			step = d.isInt() && d == Sub(s.nxt[0], s.phi) && (step || bi == 0)
		}
		if step {
			final[s.phi] = AddK(s.init, 1, lenT(seq), Sub(s.nxt[0], s.phi).c)
			continue
		}
		var outs []Out
		for bi, n := range s.nxt {
			if n == nil {
				return nil, false
			}
			var body *Term
			at = nil
			if k := backs[bi].ps.st.norm(cur); k != cur {
				at = k
			}
			switch {
			case n == s.phi:
				body = Nil
			case n.is("seqcat") && n.args[0] == s.phi && (kind == "" || kind == "app"):
				kind = "app"
				body = seqcatT(n.args[1:]...)
			case n.is("upd") && n.args[0] == s.phi && (n.args[1] == cur || n.args[1] == at) && (kind == "" || kind == "upd"):
				kind = "upd"
				body = mk("seq", "", 0, nil, n.args[2])
			case n.op == "concat" && n.args[0] == s.phi && (kind == "" || kind == "cat"):
				kind = "cat"
				body = Concat(n.args[1:]...)
			default:
				return nil, false
			}
			bst := backs[bi].ps.st.clone()
			nf := map[*Term]bool{}
			for f, v := range bst.facts {
				if hv, ok := h.st.facts[f]; ok && hv == v {
					continue
				}
				nf[toElem(f, s)] = v
			}
			for a, b := range bst.rep {
				if e := Eq(toElem(a, s), toElem(b, s)); e != True && e != False && h.st.rep[a] != b {
					nf[e] = true
				}
			}
			if at != nil {
				nf[Eq(cur, at)] = true
			}
			bst.facts = nf
			outs = append(outs, Out{st: bst, vals: []*Term{toElem(body, s)}})
		}
		if kind == "" {
			return nil, false
		}
		for i := range outs {
			if outs[i].vals[0] == Nil && kind == "upd" {
				outs[i].vals[0] = mk("seq", "", 0, nil, Elem)
			}
			if outs[i].vals[0] == Nil && kind == "cat" {
				outs[i].vals[0] = Empty
			}
		}
		f := combineOuts(outs, func(o Out) *Term { return o.vals[0] })
		if kind == "cat" && f != nil {
			if e, sep := separated(f, cur, seq); e != nil && !anyTerm(e, func(u *Term) bool { return u == cur || u.op == "phi" && strings.HasPrefix(u.val, pfx) }) {
				final[s.phi] = Concat(s.init, joinT(collT(seq, mk("seq", "", 0, nil, e)), sep))
				continue
			}
		}
		if f == nil || anyTerm(f, func(u *Term) bool { return u == cur || u.op == "phi" && strings.HasPrefix(u.val, pfx) }) {
			return nil, false
		}
		switch kind {
		case "upd":
			// in place over its own initial content, or over a fresh slice of the same length
			if s.phi == seq || seq == s.init {
				baseSeq = s.init
			} else if lenT(s.init) != App("len", seq) && lenT(s.init) != lenT(seq) {
				return nil, false
			}
			final[s.phi] = collT(baseSeq, f)
		case "app":
			final[s.phi] = seqcatT(s.init, collT(seq, f))
		case "cat":
			final[s.phi] = Concat(s.init, App("catmap", seq, f))
		}
		if anyTerm(final[s.phi], func(u *Term) bool { return u.op == "phi" && strings.HasPrefix(u.val, pfx) }) {
			if seq == s.phi {
				final[s.phi] = collT(s.init, f)
			} else {
				return nil, false
			}
		}
	}
	if len(final) == 0 {
		return nil, false
	}
	if DebugLoops {
		fmt.Println("SUMM", l.name(), "seq", seq, "base", baseSeq)
		for _, s := range slots {
			fmt.Println("  slot", s.name, s.phi, "init", s.init, "nxt", s.nxt, "=>", final[s.phi])
		}
	}
	final[idx.phi] = Add(lenT(subst(seq, final)), idx.init)
	// apply to the exit
	ps := exit.ps
	for v, t := range ps.env {
		ps.env[v] = subst(t, final)
	}
	st := ps.st
	nm := map[*Term]*Term{}
	for k, v := range st.mem {
		nm[k] = subst(v, final)
	}
	st.mem = nm
	st.facts = map[*Term]bool{}
	for f, v := range entry.st.facts {
		st.facts[f] = v
	}
	st.rep = map[*Term]*Term{}
	for f, v := range entry.st.rep {
		st.rep[f] = v
	}
	st.log = append(entry.st.log[:len(entry.st.log):len(entry.st.log)], "loop "+l.name())
	return []arrival{exit}, true
}

func isConst(t *Term) bool { return t.isInt() || t.isStr() || t == True || t == False }

// separated recognises text put together with a separator between the elements: f is an element's
// text, with the separator before every element but the first or behind every element but the last.
func separated(f, cur, seq *Term) (elem, sep *Term) {
	_, pos := unlin(cur)
	if !anyTerm(f, func(u *Term) bool { return u == cur || pos[u] != 0 }) {
		return nil, nil
	}
	under := func(c *Term, v bool) *Term {
		ss := newState().assume(Le(Int(0), cur), true)[0].assume(Lt(cur, lenT(seq)), true)[0].assume(c, v)
		if len(ss) != 1 {
			return f
		}
		return ss[0].simp(f)
	}
	for _, edge := range []*Term{Le(cur, Int(0)), Le(lenT(seq), AddC(cur, 1))} {
		e, o := under(edge, true), under(edge, false)
		if e == f || o == f {
			continue
		}
		// the separator is a constant at one end of the other elements' text
		first := edge == Le(cur, Int(0))
		leaf := o
		for leaf.op == "ite" {
			leaf = leaf.args[1]
		}
		op := parts(leaf)
		if len(op) == 0 {
			continue
		}
		l := op[len(op)-1]
		if first {
			l = op[0]
		}
		for n := 1; l.isStr() && n <= len(l.val); n++ {
			sep := l.val[len(l.val)-n:]
			if first {
				sep = l.val[:n]
			}
			if stripSep(o, sep, first) == e {
				return e, Str(sep)
			}
		}
	}
	return nil, nil
}

// stripSep takes the separator off one end of the text in every case; nil when it is not there
func stripSep(t *Term, sep string, first bool) *Term {
	if t.op == "ite" {
		a, b := stripSep(t.args[1], sep, first), stripSep(t.args[2], sep, first)
		if a == nil || b == nil {
			return nil
		}
		return Ite(t.args[0], a, b)
	}
	ps := parts(t)
	if len(ps) == 0 {
		return nil
	}
	if first {
		if l := ps[0]; l.isStr() && strings.HasPrefix(l.val, sep) {
			return Concat(append([]*Term{Str(l.val[len(sep):])}, ps[1:]...)...)
		}
		return nil
	}
	if l := ps[len(ps)-1]; l.isStr() && strings.HasSuffix(l.val, sep) {
		return Concat(append(append([]*Term{}, ps[:len(ps)-1]...), Str(l.val[:len(l.val)-len(sep)]))...)
	}
	return nil
}

// collT is the sequence of body's elements over s: "coll" when every element of s yields
// exactly one (body is then that element), "flatcoll" when it yields a sequence.
func collT(s, body *Term) *Term {
	if s == Nil || s.op == "seq" && len(s.args) == 0 {
		return Nil
	}
	if e := single(body); e != nil {
		if e == Elem {
			return s
		}
		return App("coll", s, e)
	}
	return App("flatcoll", s, body)
}

func single(t *Term) *Term {
	if t.op == "seq" && len(t.args) == 1 {
		return t.args[0]
	}
	if t.op == "ite" {
		a, b := single(t.args[1]), single(t.args[2])
		if a != nil && b != nil {
			return Ite(t.args[0], a, b)
		}
	}
	return nil
}

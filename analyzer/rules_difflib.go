package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// difflibRule knows the functions of the diff library by what they do: the edit script and the groups by the
// names its tests use, the matching blocks and the longest match by their results.
type difflibRule struct {
	d                       *Driver
	newM, codes, groups     *ssa.Function
	blocks, longest         *ssa.Function
	op, match               types.Type
	equal, ins, del, change *Term
	made                    []madeOut
}

// threeInts reports whether t is a struct of three integers
func threeInts(t types.Type) bool {
	s := structOf(t)
	if s == nil || s.NumFields() != 3 {
		return false
	}
	for i := 0; i < 3; i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	return true
}

// difflibAnchors finds the functions the rules speak about; nil when one is missing
func (d *Driver) difflibAnchors(rule string) *difflibRule {
	d.rep.begin(rule, difflib, "C13")
	pk := d.p.pkgs[difflib]
	if pk == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor package is missing", nil, difflib)
		return nil
	}
	r := &difflibRule{d: d, newM: d.p.fn(difflib, "NewMatcher")}
	if op := pk.Type("OpCode"); op != nil {
		r.op = op.Type()
	}
	for n, t := range map[string]**Term{"OpEqual": &r.equal, "OpInsert": &r.ins, "OpDelete": &r.del, "OpReplace": &r.change} {
		*t = d.constTerm(difflib, n)
	}
	if r.newM != nil {
		res := r.newM.Signature.Results().At(0).Type()
		r.codes, r.groups = d.methodOf(res, "getOpCodes"), d.methodOf(res, "GetGroupedOpCodes")
		r.blocks, r.longest = d.methodOf(res, "getMatchingBlocks"), d.methodOf(res, "findLongestMatch")
	}
	if r.longest != nil && r.longest.Signature.Results().Len() == 1 {
		r.match = r.longest.Signature.Results().At(0).Type()
	}
	if r.blocks == nil && r.codes != nil && r.match != nil { // by signature: what the edit script is made from
		for _, b := range r.codes.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.Pkg == pk && types.Identical(c.Type(), types.NewSlice(r.match)) {
						r.blocks = f
					}
				}
			}
		}
	}
	for n, ok := range map[string]bool{"NewMatcher": r.newM != nil, "OpCode": r.op != nil, "OpEqual": r.equal != nil, "OpInsert": r.ins != nil, "OpDelete": r.del != nil, "OpReplace": r.change != nil,
		"getOpCodes": r.codes != nil, "GetGroupedOpCodes": r.groups != nil, "findLongestMatch": r.match != nil && threeInts(r.match), "getMatchingBlocks": r.blocks != nil} {
		if !ok {
			d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, difflib+"."+n)
			return nil
		}
	}
	return r
}

// opOf reads an operation of the edit script
func (r *difflibRule) opOf(x *Exec, st *State, v *Term) opT {
	v = st.norm(x.value(st, v))
	get := func(n string) *Term {
		i, _ := fieldByName(r.op, n)
		return st.norm(fieldOf(v, i, n))
	}
	return opT{get("Tag"), get("I1"), get("I2"), get("J1"), get("J2")}
}

func (r *difflibRule) mkOp(o opT) *Term {
	var args []*Term
	s := structOf(r.op)
	fs := map[string]*Term{"Tag": o.tag, "I1": o.i1, "I2": o.i2, "J1": o.j1, "J2": o.j2}
	for i := 0; i < s.NumFields(); i++ {
		args = append(args, fs[s.Field(i).Name()])
	}
	return mkStruct(r.op, args)
}

// items are the elements of a sequence whose length is known
func items(x *Exec, st *State, t *Term) ([]*Term, bool) {
	t = st.norm(x.content(st, t))
	if t.op == "seq" {
		return t.args, true
	}
	return x.seqArgs(st, t)
}

// ruleOpcodes: the edit script made from any list of up to three matching blocks tiles both texts, says equal
// for the blocks only and names every other range for what it is.
func (d *Driver) ruleOpcodes() {
	r := d.difflibAnchors("OPCODES")
	if r == nil {
		return
	}
	a, b := Sym("a"), Sym("b")
	for n := 0; n <= 3; n++ {
		m, st, ok := r.fresh(a, b)
		if !ok {
			return
		}
		pi, pj := Int(0), Int(0)
		type block struct{ a, b, n *Term }
		var bs []block
		var list []*Term
		for k := 0; k < n; k++ {
			bl := block{Sym(fmt.Sprintf("A%d", k)), Sym(fmt.Sprintf("B%d", k)), Sym(fmt.Sprintf("S%d", k))}
			for _, f := range []*Term{Le(pi, bl.a), Le(pj, bl.b), Le(Int(1), bl.n)} {
				st = st.assume(f, true)[0]
			}
			pi, pj = Add(bl.a, bl.n), Add(bl.b, bl.n)
			bs = append(bs, bl)
			list = append(list, mkStruct(r.match, []*Term{bl.a, bl.b, bl.n}))
		}
		st = st.assume(Le(pi, lenT(a)), true)[0]
		st = st.assume(Le(pj, lenT(b)), true)[0]
		list = append(list, mkStruct(r.match, []*Term{lenT(a), lenT(b), Int(0)}))
		mon := &Mon{name: "OPCODES", noMerge: true}
		mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			if c.fn == r.blocks {
				return one(st, mk("seq", "", 0, nil, list...)), true
			}
			return nil, false
		}
		d.run(r.codes, mon, []*Term{m}, st, func(x *Exec, o Out) {
			st := o.st
			ops, ok := items(x, st, o.vals[0])
			d.rep.check(ok, x, st, token.NoPos, "the edit script is a list of operations", nil, "%s", o.vals[0])
			i, j := Int(0), Int(0)
			for _, t := range ops {
				o := r.opOf(x, st, t)
				d.rep.check(sameInt(st, o.i1, i) && sameInt(st, o.j1, j), x, st, token.NoPos, "the edit script tiles both texts", []string{"C13", "C02"}, "%s begins where %s, %s ended", t, i, j)
				i, j = o.i2, o.j2
				le := st.holds(Le(o.i1, o.i2)) && st.holds(Le(o.j1, o.j2))
				switch o.tag {
				case r.equal:
					ok := false
					for _, bl := range bs {
						ok = ok || sameInt(st, Sub(o.i1, o.j1), Sub(bl.a, bl.b)) && st.holds(Le(bl.a, o.i1)) && st.holds(Le(o.i2, Add(bl.a, bl.n)))
					}
					d.rep.check(ok && le && sameInt(st, Sub(o.i2, o.i1), Sub(o.j2, o.j1)), x, st, token.NoPos, "only matching lines are equal", []string{"C13", "C02"}, "%s", t)
				case r.ins:
					d.rep.check(sameInt(st, o.i1, o.i2) && le, x, st, token.NoPos, "an insertion takes no line of the first text", nil, "%s", t)
				case r.del:
					d.rep.check(sameInt(st, o.j1, o.j2) && le, x, st, token.NoPos, "a deletion takes no line of the second text", nil, "%s", t)
				default:
					d.rep.check(o.tag == r.change && le, x, st, token.NoPos, "every operation has one of the four tags", nil, "%s", t)
				}
			}
			d.rep.check(sameInt(st, i, lenT(a)) && sameInt(st, j, lenT(b)), x, st, token.NoPos, "the edit script tiles both texts", []string{"C13", "C02"}, "ends at %s, %s", i, j)
		})
	}
	d.rep.must("the edit script tiles both texts", "only matching lines are equal", "every operation has one of the four tags")
}

// sameInt reports whether two numbers are equal
func sameInt(st *State, a, b *Term) bool {
	return same(st, a, b) || st.holds(Le(a, b)) && st.holds(Le(b, a))
}

// fresh is the matcher NewMatcher makes of a and b: it holds both sequences and no results yet. The index of
// the lines is unknown here.
func (r *difflibRule) fresh(a, b *Term) (*Term, *State, bool) {
	d := r.d
	mt := deref(r.newM.Signature.Results().At(0).Type())
	s := structOf(mt)
	obj := mk("alloc", "matcher", 0, nil)
	args := make([]*Term, s.NumFields())
	ok := s.NumFields() > 0
	if r.made == nil {
		d.run(r.newM, &Mon{name: d.rep.rule}, []*Term{a, b}, newState(), func(x *Exec, o Out) { r.made = append(r.made, madeOut{x, o}) })
	}
	for _, m := range r.made {
		x, st := m.x, m.o.st
		for i := range args {
			f := s.Field(i)
			v := st.norm(x.value(st, x.load(st, fa(m.o.vals[0], i, f.Name()), f.Type())))
			known := v == a || v == b || v == Nil || v == True || v == False || v.isInt()
			if _, slice := f.Type().Underlying().(*types.Slice); slice && !known {
				d.rep.bad(x, st, r.newM.Pos(), "a new matcher holds the two texts and no results", nil, f.Name()+" is "+v.String())
				ok = false
			}
			if !known {
				v = Sym("matcher." + f.Name())
			}
			if args[i] != nil && args[i] != v {
				v = Sym("matcher." + f.Name())
			}
			args[i] = v
		}
	}
	if len(r.made) == 0 || !ok {
		return nil, nil, false
	}
	has := func(t *Term) bool {
		for _, v := range args {
			if v == t {
				return true
			}
		}
		return false
	}
	d.rep.check(has(a) && has(b), nil, nil, r.newM.Pos(), "a new matcher holds the two texts and no results", nil, "%v", args)
	st := newState()
	x := d.newExec(r.newM, &Mon{name: "matcher"})
	for i := range args {
		x.rawStore(st, fa(obj, i, s.Field(i).Name()), args[i], s.Field(i).Type())
	}
	return obj, st, true
}

type madeOut struct {
	x *Exec
	o Out
}

// ruleGroups: whatever the edit script is, its groups show every changed range, once and in order, and
// otherwise parts of equal ranges; within a group the operations follow each other.
func (d *Driver) ruleGroups() {
	r := d.difflibAnchors("GROUPS")
	if r == nil {
		return
	}
	tags := map[byte]*Term{'E': r.equal, 'I': r.ins, 'D': r.del, 'R': r.change}
	for _, shape := range []string{"", "E", "I", "D", "R", "ED", "IE", "ERE", "EIEDE", "RED", "DEIER"} {
		for _, neg := range []bool{false, true} {
			a, b, n := Sym("a"), Sym("b"), Sym("n")
			m, st, ok := r.fresh(a, b)
			if !ok {
				return
			}
			st = st.assume(Lt(n, Int(0)), neg)[0]
			var ops []opT
			var list []*Term
			i, j := Int(0), Int(0)
			for k := range shape {
				o := opT{tags[shape[k]], i, i, j, j}
				if shape[k] != 'I' {
					o.i2 = Sym(fmt.Sprintf("i%d", k+1))
					st = st.assume(Lt(o.i1, o.i2), true)[0]
				}
				if shape[k] == 'E' {
					o.j2 = Add(j, Sub(o.i2, o.i1))
				} else if shape[k] != 'D' {
					o.j2 = Sym(fmt.Sprintf("j%d", k+1))
					st = st.assume(Lt(o.j1, o.j2), true)[0]
				}
				i, j = o.i2, o.j2
				ops = append(ops, o)
				list = append(list, r.mkOp(o))
			}
			mon := &Mon{name: "GROUPS", noMerge: true}
			mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
				if c.fn == r.codes {
					return one(st, x.newObj(st, "codes", mk("seq", "", 0, nil, list...))), true
				}
				return nil, false
			}
			d.run(r.groups, mon, []*Term{m, n}, st, func(x *Exec, o Out) { r.checkGroups(x, o, ops) })
		}
	}
	d.rep.must("every changed range is in a group, once and in order", "a group shows parts of equal ranges only as equal", "the operations of a group follow each other")
}

func (r *difflibRule) checkGroups(x *Exec, o Out, ops []opT) {
	d, st := r.d, o.st
	gs, ok := items(x, st, o.vals[0])
	d.rep.check(ok, x, st, token.NoPos, "the groups are lists of operations", nil, "%s", o.vals[0])
	var want, got []opT
	for _, o := range ops {
		if o.tag != r.equal {
			want = append(want, o)
		}
	}
	var shown []string
	for _, g := range gs {
		var last *opT
		ts, ok := items(x, st, g)
		d.rep.check(ok, x, st, token.NoPos, "the groups are lists of operations", nil, "%s", g)
		for _, t := range ts {
			o := r.opOf(x, st, t)
			shown = append(shown, t.String())
			if last != nil {
				d.rep.check(sameInt(st, o.i1, last.i2) && sameInt(st, o.j1, last.j2), x, st, token.NoPos, "the operations of a group follow each other", nil, "%s", t)
			}
			last = &o
			if o.tag != r.equal {
				got = append(got, o)
				continue
			}
			ok := false
			for _, e := range ops {
				ok = ok || e.tag == r.equal && sameInt(st, Sub(o.i1, o.j1), Sub(e.i1, e.j1)) && st.holds(Le(e.i1, o.i1)) && st.holds(Le(o.i2, e.i2))
			}
			d.rep.check(ok && st.holds(Le(o.i1, o.i2)) && sameInt(st, Sub(o.i2, o.i1), Sub(o.j2, o.j1)), x, st, token.NoPos, "a group shows parts of equal ranges only as equal", nil, "%s", t)
		}
	}
	ok = len(want) == len(got)
	for k := 0; ok && k < len(want); k++ {
		w, g := want[k], got[k]
		ok = w.tag == g.tag && sameInt(st, w.i1, g.i1) && sameInt(st, w.i2, g.i2) && sameInt(st, w.j1, g.j1) && sameInt(st, w.j2, g.j2)
	}
	d.rep.check(ok, x, st, token.NoPos, "every changed range is in a group, once and in order", []string{"C13", "C02"}, "%d changed ranges, groups: %s", len(want), strings.Join(shown, " "))
}

// mblock is one matching block, a[a:a+n] and b[b:b+n]
type mblock struct{ a, b, n *Term }

func (r *difflibRule) blockOf(x *Exec, st *State, t *Term) mblock {
	t = st.norm(x.value(st, t))
	s := structOf(r.match)
	f := func(i int) *Term { return st.norm(fieldOf(t, i, s.Field(i).Name())) }
	return mblock{f(0), f(1), f(2)}
}

func (r *difflibRule) mkBlock(b mblock) *Term { return mkStruct(r.match, []*Term{b.a, b.b, b.n}) }

func assumeAll(st *State, fs ...*Term) *State {
	for _, f := range fs {
		st = st.assume(f, true)[0]
	}
	return st
}

// ruleBlocks: the search for matching blocks. One step of the recursion, over any box of the two texts, puts
// the blocks of smaller boxes and the longest match of the box in order of both texts; joining adjacent blocks
// keeps the lines they match, and the list ends with an empty block behind both texts.
func (d *Driver) ruleBlocks() {
	r := d.difflibAnchors("BLOCKS")
	if r == nil {
		return
	}
	a, b := Sym("a"), Sym("b")
	list := types.NewSlice(r.match)
	for n := 0; n <= 3; n++ {
		m, st, ok := r.fresh(a, b)
		if !ok {
			return
		}
		var bs []mblock
		var ts []*Term
		pi, pj := Int(0), Int(0)
		for k := 0; k < n; k++ {
			bl := mblock{Sym(fmt.Sprintf("A%d", k)), Sym(fmt.Sprintf("B%d", k)), Sym(fmt.Sprintf("S%d", k))}
			st = assumeAll(st, Le(pi, bl.a), Le(pj, bl.b), Le(Int(1), bl.n))
			pi, pj = Add(bl.a, bl.n), Add(bl.b, bl.n)
			bs, ts = append(bs, bl), append(ts, r.mkBlock(bl))
		}
		st = assumeAll(st, Le(pi, lenT(a)), Le(pj, lenT(b)))
		found := mk("seq", "", 0, nil, ts...)
		first := n == 0
		mon := &Mon{name: "BLOCKS", noMerge: true}
		step := &recStep{r: r}
		mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			if c.fn == nil || !r.searches(c.fn) {
				return nil, false
			}
			if c.fn == r.longest {
				if step.fn == nil {
					d.rep.bad(x, st, c.pos, "undecided: the search is not a recursive function", nil, "")
				}
				return step.longest(x, st, c), true
			}
			if step.fn == nil {
				step.open(c.fn, list)
			}
			if c.fn != step.fn {
				return nil, false
			}
			if st.g("key:step") == Int(1) {
				return step.nested(x, st, c), true
			}
			step.outer(x, st, c, a, b, first)
			first = false
			return step.result(x, st, c, found), true
		}
		d.run(r.blocks, mon, []*Term{m}, st, func(x *Exec, o Out) {
			st := o.st
			got, ok := items(x, st, o.vals[0])
			d.rep.check(ok && len(got) > 0, x, st, token.NoPos, "the matching blocks are a list", nil, "%s", o.vals[0])
			i, j := Int(0), Int(0)
			for k, t := range got {
				bl := r.blockOf(x, st, t)
				if k == len(got)-1 {
					d.rep.check(sameInt(st, bl.a, lenT(a)) && sameInt(st, bl.b, lenT(b)) && sameInt(st, bl.n, Int(0)), x, st, token.NoPos, "the last block is empty and behind both texts", nil, "%s", t)
					break
				}
				ok := false
				for lo := range bs {
					for hi := lo; hi < len(bs); hi++ {
						if hi > lo && !(sameInt(st, Add(bs[hi-1].a, bs[hi-1].n), bs[hi].a) && sameInt(st, Add(bs[hi-1].b, bs[hi-1].n), bs[hi].b)) {
							break
						}
						ok = ok || sameInt(st, bl.a, bs[lo].a) && sameInt(st, bl.b, bs[lo].b) && sameInt(st, Add(bl.a, bl.n), Add(bs[hi].a, bs[hi].n))
					}
				}
				d.rep.check(ok, x, st, token.NoPos, "a block is one that was found, or adjacent ones joined", nil, "%s of %s", t, found)
				d.rep.check(st.holds(Le(i, bl.a)) && st.holds(Le(j, bl.b)) && st.holds(Le(Int(1), bl.n)), x, st, token.NoPos, "the blocks are in order of both texts", nil, "%s", t)
				i, j = Add(bl.a, bl.n), Add(bl.b, bl.n)
			}
		})
	}
	d.rep.must("the last block is empty and behind both texts", "a block is one that was found, or adjacent ones joined", "the blocks are in order of both texts",
		"a step of the search finds blocks of its box only, in order")
}

// searches reports whether fn is the longest match, or a function that calls it and is not the one that
// collects the blocks
func (r *difflibRule) searches(fn *ssa.Function) bool {
	if fn == r.longest {
		return true
	}
	if fn == r.blocks {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == r.longest {
				return true
			}
		}
	}
	return false
}

// recStep is the recursive search: which parameter is which side of the box, and where its blocks go
type recStep struct {
	r     *difflibRule
	fn    *ssa.Function
	ints  []int // positions of the parameters that are numbers
	role  []int // what each of them is: 0 alo, 1 ahi, 2 blo, 3 bhi
	param int   // position of the list, or -1
	cell  int   // the captured list, or -1
	n     int
	box   [4]*Term
	found mblock
	in    *Term
}

func (s *recStep) open(fn *ssa.Function, list types.Type) {
	s.fn, s.param, s.cell = fn, -1, -1
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			s.ints = append(s.ints, i)
		}
		if types.Identical(p.Type().Underlying(), list) {
			s.param = i
		}
	}
	for i, f := range fn.FreeVars {
		if p, ok := f.Type().(*types.Pointer); ok && types.Identical(p.Elem(), list) {
			s.cell = i
		}
	}
}

// lists reads the list a call is given and writes the one it leaves
func (s *recStep) result(x *Exec, st *State, c *CallInfo, add *Term) []Out {
	in := emptySeq
	if s.param >= 0 {
		in = x.content(st, c.args[s.param])
	}
	if s.fn.Signature.Results().Len() == 1 {
		return one(st, seqcatT(st.norm(in), add))
	}
	if s.cell >= 0 {
		t := s.fn.FreeVars[s.cell].Type().(*types.Pointer).Elem()
		x.rawStore(st, c.bind[s.cell], seqcatT(st.norm(x.content(st, x.load(st, c.bind[s.cell], t))), add), t)
		return one(st)
	}
	x.undecided("the search keeps its blocks neither in a list it is given nor in one it captures")
	return nil
}

func (s *recStep) longest(x *Exec, st *State, c *CallInfo) []Out {
	args := c.args[len(c.args)-4:]
	s.n++
	bl := mblock{Sym("match.A"), Sym("match.B"), Sym("match.Size")}
	if s.role == nil {
		for _, i := range s.ints {
			for k, t := range args {
				if st.norm(t) == Sym(fmt.Sprintf("box%d", i)) {
					s.role = append(s.role, k)
				}
			}
		}
		if len(s.role) != 4 {
			x.undecided("the search does not look for the longest match of the box it is given")
		}
		for k, t := range args {
			s.box[k] = st.norm(t)
		}
	}
	s.r.d.rep.check(st.norm(args[0]) == s.box[0] && st.norm(args[1]) == s.box[1] && st.norm(args[2]) == s.box[2] && st.norm(args[3]) == s.box[3] && s.n == 1, x, st, c.pos, "the longest match of the box is looked for", nil, "%v", args)
	s.found = bl
	st = assumeAll(st, Le(s.box[0], bl.a), Le(s.box[2], bl.b), Le(Int(0), bl.n), Le(Add(bl.a, bl.n), s.box[1]), Le(Add(bl.b, bl.n), s.box[3]))
	return one(st, s.r.mkBlock(bl))
}

func (s *recStep) boxOf(st *State, c *CallInfo) (box [4]*Term) {
	if len(s.role) != 4 {
		return
	}
	for k, i := range s.ints {
		box[s.role[k]] = st.norm(c.args[i])
	}
	return
}

func (s *recStep) nested(x *Exec, st *State, c *CallInfo) []Out {
	box := s.boxOf(st, c)
	if box[0] == nil {
		x.undecided("the search goes on before the longest match is known")
	}
	s.r.d.rep.check(st.holds(Le(box[0], box[1])) && st.holds(Le(box[2], box[3])), x, st, c.pos, "a smaller box has no negative side", nil, "%v", box)
	return s.result(x, st, c, App("blocks", box[:]...))
}

// outer analyses one step over any box, and the box the search begins with
func (s *recStep) outer(x *Exec, st *State, c *CallInfo, a, b *Term, first bool) {
	if !first {
		return
	}
	d := s.r.d
	in := st.clone()
	args := append([]*Term{}, c.args...)
	if len(s.ints) != 4 {
		x.undecided("the search is not given a box of both texts")
	}
	for _, i := range s.ints {
		args[i] = Sym(fmt.Sprintf("box%d", i))
	}
	before := App("before")
	if s.param >= 0 {
		args[s.param] = before
	} else if s.cell >= 0 {
		t := s.fn.FreeVars[s.cell].Type().(*types.Pointer).Elem()
		x.rawStore(in, c.bind[s.cell], before, t)
	} else {
		before = emptySeq
	}
	in.setg("key:step", Int(1))
	// which sides the parameters are is known only once the longest match is looked for: find out first
	s.probe(x, in.clone(), c, args)
	in = assumeAll(in, Le(Int(0), s.box[0]), Le(s.box[0], s.box[1]), Le(s.box[1], lenT(a)), Le(Int(0), s.box[2]), Le(s.box[2], s.box[3]), Le(s.box[3], lenT(b)))
	s.n = 0
	for _, o := range x.call(s.fn, args, c.bind, in) {
		if o.panic {
			continue
		}
		var v *Term
		if len(o.vals) == 1 {
			v = o.st.norm(x.content(o.st, o.vals[0]))
		} else {
			v = o.st.norm(x.content(o.st, x.load(o.st, c.bind[s.cell], s.fn.FreeVars[s.cell].Type().(*types.Pointer).Elem())))
		}
		s.n = 0
		s.check(x, o.st, v, before)
	}
	box := s.boxOf(st, c)
	d.rep.check(sameInt(st, box[0], Int(0)) && sameInt(st, box[1], lenT(a)) && sameInt(st, box[2], Int(0)) && sameInt(st, box[3], lenT(b)), x, st, c.pos, "the search begins with both texts", nil, "%v", box)
}

func (s *recStep) probe(x *Exec, st *State, c *CallInfo, args []*Term) {
	mon := x.mon
	rep := x.rep
	defer func() {
		x.mon, x.rep = mon, rep
		if r := recover(); r != nil && r != "probed" {
			panic(r)
		}
	}()
	x.mon = &Mon{name: "probe", noMerge: true, call: func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if c.fn == s.r.longest {
			s.longest(x, st, c)
			panic("probed")
		}
		return nil, false
	}}
	x.call(s.fn, args, c.bind, st)
}

// check looks at the blocks one step has put behind those found before
func (s *recStep) check(x *Exec, st *State, v, before *Term) {
	ps := []*Term{v}
	if v.is("seqcat") {
		ps = v.args
	} else if v == Nil || v == Empty || v == emptySeq {
		ps = nil
	}
	ok := before == emptySeq || len(ps) > 0 && ps[0] == before
	if before != emptySeq {
		if !ok && v == before {
			ok, ps = true, nil
		} else if len(ps) > 0 {
			ps = ps[1:]
		}
	}
	i, j := s.box[0], s.box[2]
	within := func(a0, a1, b0, b1 *Term) {
		ok = ok && st.holds(Le(i, a0)) && st.holds(Le(a0, a1)) && st.holds(Le(j, b0)) && st.holds(Le(b0, b1))
		i, j = a1, b1
	}
	for _, p := range ps {
		switch {
		case p.is("blocks"):
			within(p.args[0], p.args[1], p.args[2], p.args[3])
		case p.op == "seq":
			for _, e := range p.args {
				bl := s.r.blockOf(x, st, e)
				ok = ok && bl == s.found && st.holds(Le(Int(1), bl.n))
				within(bl.a, Add(bl.a, bl.n), bl.b, Add(bl.b, bl.n))
			}
		default:
			ok = false
		}
	}
	ok = ok && st.holds(Le(i, s.box[1])) && st.holds(Le(j, s.box[3]))
	s.r.d.rep.check(ok, x, st, s.fn.Pos(), "a step of the search finds blocks of its box only, in order", nil, "%s", v)
}

// ruleIndex: the index of the second text names, for a line, places where that line is.
func (d *Driver) ruleIndex() {
	r := d.difflibAnchors("INDEX")
	if r == nil {
		return
	}
	a, b := Sym("a"), Sym("b")
	mon := &Mon{name: "INDEX"}
	mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
		if !isIndex(x.mapType) {
			return
		}
		k, v = st.norm(k), st.norm(x.content(st, v))
		ok := true
		ps := []*Term{v}
		if v.is("seqcat") {
			ps = v.args
		}
		for _, p := range ps {
			switch {
			case p.op == "seq":
				for _, i := range p.args {
					ok = ok && st.eval(Eq(k, selT(b, i))) == True
				}
			case p.is("mapget") || p.is("mapval"):
				ok = ok && same(st, p.args[1], k)
			default:
				ok = ok && (p == Nil || p == Empty)
			}
		}
		d.rep.check(ok, x, st, pos, "the index names places where the line is", []string{"C13", "C02"}, "%s: %s", k, v)
	}
	d.run(r.newM, mon, []*Term{a, b}, newState(), nil)
	d.rep.must("the index names places where the line is")
}

// ruleLongest: a match the search reports lies inside the box it looked at and joins equal lines. That it is
// the longest one is not needed for the report to be true.
func (d *Driver) ruleLongest() {
	r := d.difflibAnchors("LONGEST")
	if r == nil {
		return
	}
	a, b := Sym("a"), Sym("b")
	m, st, ok := r.fresh(a, b)
	if !ok {
		return
	}
	x0 := d.newExec(r.newM, &Mon{name: "LONGEST"})
	lr := &longestRule{r: r, a: a, b: b, alo: Sym("alo"), ahi: Sym("ahi"), blo: Sym("blo"), bhi: Sym("bhi")}
	mt := deref(r.newM.Signature.Results().At(0).Type())
	for i := 0; i < structOf(mt).NumFields(); i++ {
		if f := structOf(mt).Field(i); isIndex(f.Type()) {
			lr.index = append(lr.index, App("mc", st.norm(x0.load(st, fa(m, i, f.Name()), f.Type()))))
		}
	}
	st = assumeAll(st, Le(Int(0), lr.alo), Le(lr.alo, lr.ahi), Le(lr.ahi, lenT(a)), Le(Int(0), lr.blo), Le(lr.blo, lr.bhi), Le(lr.bhi, lenT(b)))
	mon := &Mon{name: "LONGEST", inv: &invariants{cands: lr.cands, prove: lr.prove}, mapval: lr.mapval}
	d.run(r.longest, mon, []*Term{m, lr.alo, lr.ahi, lr.blo, lr.bhi}, st, func(x *Exec, o Out) {
		st := o.st
		bl := r.blockOf(x, st, o.vals[0])
		d.rep.check(st.holds(Le(lr.alo, bl.a)) && st.holds(Le(Add(bl.a, bl.n), lr.ahi)) && st.holds(Le(lr.blo, bl.b)) && st.holds(Le(Add(bl.b, bl.n), lr.bhi)) && st.holds(Le(Int(0), bl.n)), x, st, token.NoPos, "the match lies inside the box", nil, "%s", o.vals[0])
		d.rep.check(lr.prove(x, st, App("match", bl.a, bl.b, bl.n)), x, st, token.NoPos, "matched lines are equal", []string{"C13", "C02"}, "%s", o.vals[0])
	})
	d.rep.must("the match lies inside the box", "matched lines are equal")
}

// isIndex reports whether t maps lines to where they are
func isIndex(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !types.Identical(m.Key().Underlying(), types.Typ[types.String]) {
		return false
	}
	return types.Identical(m.Elem().Underlying(), types.NewSlice(types.Typ[types.Int]))
}

// longestRule states what the loops of the search keep: App("match",p,q,n), the n lines of a from p are those
// of b from q; App("row",c,e), for every j the map c has a number for, that many lines of a up to e are those
// of b up to j, inside the box.
type longestRule struct {
	r                  *difflibRule
	a, b               *Term
	alo, ahi, blo, bhi *Term
	index              []*Term
}

func (r *longestRule) cands(st *State, first func(*Term) *Term, ch, fixed, contents []*Term) (ps []*Term) {
	bounds := []*Term{Int(0), r.alo, r.ahi, r.blo, r.bhi}
	seen := map[*Term]bool{}
	add := func(p *Term) {
		if p != True && p != False && !seen[p] {
			seen[p] = true
			ps = append(ps, p)
		}
	}
	isb := func(t *Term) bool {
		for _, b := range bounds {
			if t == b {
				return true
			}
		}
		return false
	}
	all := append([]*Term{}, ch...)
	for _, f := range fixed {
		if !isb(f) && !f.isInt() {
			all = append(all, f)
		}
	}
	for i, p := range ch {
		if first(p).isInt() && first(p).c < 0 { // the index of a range loop before its first step
			add(Le(first(p), p))
		}
		for _, b := range bounds {
			add(Le(b, p))
			add(Le(p, b))
		}
		for _, q := range all[i+1:] {
			for _, b := range []*Term{r.ahi, r.bhi} {
				add(Le(Add(p, q), b))
			}
		}
	}
	every := append(append([]*Term{}, all...), bounds[1:]...)
	for i, p := range every {
		for j, q := range every {
			for k, n := range every {
				if i != j && i != k && j != k && (i < len(ch) || j < len(ch) || k < len(ch)) && !isb(n) {
					add(App("match", p, q, n))
				}
			}
		}
	}
	ends := append([]*Term{}, every...)
	for _, p := range ch { // counted from the start of the box
		if first(p).isInt() {
			ends = append(ends, Add(r.alo, p))
		}
	}
	for _, c := range contents {
		for _, e := range ends {
			for _, o := range []int64{-1, 0, 1} {
				add(App("row", c, AddC(e, o)))
			}
		}
	}
	return
}

// line reports whether line i of a is known to be line j of b
func (r *longestRule) line(st *State, i, j *Term) bool {
	i, j = st.norm(i), st.norm(j)
	if st.eval(Eq(selT(r.a, i), selT(r.b, j))) == True {
		return true
	}
	// j was looked up in the index under line i
	if !j.is("sel") || !j.args[0].is("mapval") && !j.args[0].is("mapget") {
		return false
	}
	in := false
	for _, c := range r.index {
		in = in || c == j.args[0].args[0]
	}
	k := j.args[0].args[1]
	return in && (k == selT(r.a, i) || st.eval(Eq(k, selT(r.a, i))) == True)
}

func (r *longestRule) prove(x *Exec, st *State, p *Term) bool {
	switch {
	case p.is("match"):
		return r.match(st, st.norm(p.args[0]), st.norm(p.args[1]), st.norm(p.args[2]))
	case p.is("row"):
		return r.row(st, st.norm(p.args[0]), st.norm(p.args[1]))
	}
	return false
}

func (r *longestRule) row(st *State, c, e *Term) bool {
	switch {
	case c.is("emptymap"):
		return true
	case c.is("mapdel"):
		return r.row(st, c.args[0], e)
	case c.is("mapupd"):
		if !r.row(st, c.args[0], e) {
			return false
		}
		j, k := c.args[1], c.args[2]
		if st.holds(Le(k, Int(0))) {
			return true
		}
		from, to := AddC(Sub(e, k), 1), AddC(Sub(j, k), 1)
		return st.holds(Le(r.alo, from)) && st.holds(Le(AddC(e, 1), r.ahi)) && st.holds(Le(r.blo, to)) && st.holds(Le(AddC(j, 1), r.bhi)) && r.match(st, from, to, k)
	}
	for f, v := range st.facts {
		if v && f.is("row") && f.args[0] == c && sameInt(st, f.args[1], e) {
			return true
		}
	}
	return false
}

func (r *longestRule) match(st *State, p, q, n *Term) bool {
	lines := func(from, to *Term) bool { // the lines of a in [from, to), next to p and q
		w := st.norm(Sub(to, from))
		if !w.isInt() || w.c > 3 {
			return false
		}
		for t := int64(0); t < w.c; t++ {
			i := AddC(from, t)
			if !r.line(st, i, Add(q, Sub(i, p))) {
				return false
			}
		}
		return true
	}
	if lines(p, Add(p, n)) {
		return true
	}
	known := func(kp, kq, kn *Term) bool {
		if st.norm(Sub(Sub(p, q), Sub(kp, kq))) != Int(0) {
			return false
		}
		return lines(p, kp) && lines(Add(kp, kn), Add(p, n))
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		if f.is("match") && known(f.args[0], f.args[1], f.args[2]) && st.holds(Le(Int(0), f.args[2])) {
			return true
		}
	}
	return st.holds(Le(n, Int(0)))
}

// mapval reads a map of lengths: there is none, or the lines it counts are inside the box
func (r *longestRule) mapval(x *Exec, st *State, c, k *Term) []mapRes {
	has := App("maphas", c, k)
	v := App("mapval", c, k)
	for _, ix := range r.index {
		if c == ix {
			return nil
		}
	}
	var rows []*Term
	for f, t := range st.facts {
		if t && f.is("row") && f.args[0] == c {
			rows = append(rows, f.args[1])
		}
	}
	if len(rows) == 0 {
		return nil
	}
	var out []mapRes
	out = append(out, mapRes{st.clone(), Int(0), has})
	ss := st.assume(Le(Int(1), v), true)
	for _, e := range rows {
		for _, f := range []*Term{Le(r.alo, AddC(Sub(e, v), 1)), Le(r.blo, AddC(Sub(k, v), 1)), Le(AddC(k, 1), r.bhi), Le(AddC(e, 1), r.ahi), App("match", AddC(Sub(e, v), 1), AddC(Sub(k, v), 1), v)} {
			var next []*State
			for _, s := range ss {
				next = append(next, s.assume(f, true)...)
			}
			ss = next
		}
	}
	for _, s := range ss {
		out = append(out, mapRes{s, v, True})
	}
	return out
}

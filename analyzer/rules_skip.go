package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// role finds a package function by name or, when it was renamed, as the only function with the
// given signature that parent calls (directly or through other functions of the repository).
func (d *Driver) role(name, parent, sig string) *ssa.Function {
	if f := d.p.fn(snaps, name); f != nil {
		return f
	}
	root := d.p.fn(snaps, parent)
	var found []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f != root && sigString(f.Signature) == sig {
			found = append(found, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && d.p.inRepo(g) {
						walk(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			walk(g)
		}
	}
	walk(root)
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

func sigString(s *types.Signature) string {
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, s.Params().At(i).Type().String())
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, s.Results().At(i).Type().String())
	}
	return "(" + strings.Join(ps, ",") + ")" + strings.Join(rs, ",")
}

// ---------------------------------------------------------------- getTestID([]byte)

func (d *Driver) ruleID() {
	fn := d.begin("ID", snaps, "getTestID", "C07", "C09", "C10", "C03", "C01", "C08")
	if fn == nil {
		return
	}
	name, k := Sym("nospace:testName"), Sym("ordinal")
	id := Concat(name, Str(" - "), itoaT(k))
	st := newState()
	st = st.assume(Le(Int(1), k), true)[0]
	mon := &Mon{name: "ID"}
	d.run(fn, mon, []*Term{Concat(Str("["), id, Str("]"))}, st, func(x *Exec, o Out) {
		ok := o.st.eval(o.vals[1]) == True && same(o.st, x.value(o.st, o.vals[0]), id)
		d.rep.check(ok, x, o.st, token.NoPos, "the header line of every slot is recognised, whatever the test's name", nil, "returns (%s, %s)", o.vals[0], o.vals[1])
	})
	for _, l := range []string{"", "---", "/-/-/-/"} {
		d.run(fn, mon, []*Term{Str(l)}, newState(), func(x *Exec, o Out) {
			d.rep.check(o.st.eval(o.vals[1]) == False, x, o.st, token.NoPos, "blank lines, terminators and escapes are not headers", nil, "%q gives (%s, %s)", l, o.vals[0], o.vals[1])
		})
	}
	d.rep.must("the header line of every slot is recognised, whatever the test's name")
}

// ---------------------------------------------------------------- testSkipped

func (d *Driver) ruleTestSkipped() {
	fn := d.begin("TESTSKIP", snaps, "testSkipped", "C08", "C09")
	if fn == nil {
		return
	}
	match := d.role("matchesRun", "testSkipped", "(string,string)bool")
	if match == nil {
		d.rep.bad(nil, nil, fn.Pos(), "anchor function is missing", nil, "no function decides whether the -run flag selects a test")
		return
	}
	name, k, run := Sym("nospace:testName"), Sym("ordinal"), Sym("runOnly")
	id := Concat(name, Str(" - "), itoaT(k))
	list := App("ld", fa(d.gval("skippedTests"), d.fieldIndex("syncSlice", "values"), "values"))
	st := newState()
	st.setg("n", Int(0))
	st.setg("e", Nil)
	st.setg("key:all", False)
	protects := func(e *Term) *Term {
		return Or(Eq(name, e), hasPrefixT(name, Concat(e, Str("/"))))
	}
	mon := &Mon{name: "TESTSKIP", noSummary: true, noMerge: true}
	// the element looked at last must be known not to protect before the next one is looked at
	settle := func(x *Exec, st *State, pos token.Pos) {
		if e := st.g("e"); e != Nil {
			d.rep.check(st.eval(st.simp(protects(e))) == False, x, st, pos, "a skipped test that protects the entry is not passed over", []string{"C08"}, "undecided for %s", e)
			st.setg("e", Nil)
		}
	}
	mon.index = func(x *Exec, st *State, s, i *Term, pos token.Pos) {
		if st.norm(s) != list {
			return
		}
		e := st.norm(selT(s, i))
		if e == st.g("e") {
			return
		}
		settle(x, st, pos)
		if !strings.HasPrefix(i.String(), "pos@") {
			if st.holds(Eq(i, st.g("n"))) {
				st.setg("n", AddC(i, 1))
			}
		}
		st.setg("e", e)
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) { settle(x, st, pos) }
	mon.exhaust = func(x *Exec, st *State, s *Term, pos token.Pos) {
		if st.norm(s) == list {
			st.setg("key:all", True)
		}
	}
	mon.call = chainCall(lockHook, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if c.fn == match {
			a, b := st.norm(x.value(st, c.args[0])), st.norm(x.value(st, c.args[1]))
			d.rep.check(a == name && b == run, x, st, c.pos, "the -run filter is applied to the test's name", []string{"C08", "C09"}, "(%s, %s)", a, b)
			return one(st, App("selected", a, b)), true
		}
		if c.name == "slices.Contains" && st.norm(c.args[0]) == list {
			// exact matches only
			e := st.norm(x.value(st, c.args[1]))
			return one(st, App("in", list, e)), true
		}
		return nil, false
	})
	d.run(fn, mon, []*Term{id, run}, st, func(x *Exec, o Out) {
		unlocked(x, o.st)
		for _, v := range []bool{true, false} {
			for _, st := range o.st.clone().assume(o.vals[0], v) {
				sel := st.eval(App("selected", name, run))
				e := st.g("e")
				prot := e != Nil && st.eval(st.simp(protects(e))) == True || st.eval(App("in", list, name)) == True
				if v {
					d.rep.check(prot || sel == False, x, st, token.NoPos, "only skipped tests, their descendants and tests not selected are protected", []string{"C08", "C09"}, "protected although: selected %s, last skipped test looked at %s", sel, e)
					continue
				}
				settle(x, st, token.NoPos)
				all := st.g("key:all") == True || st.holds(Le(lenT(list), st.g("n")))
				d.rep.check(sel == True, x, st, token.NoPos, "a test the -run flag does not select is protected", []string{"C08"}, "selected: %s", sel)
				d.rep.check(all, x, st, token.NoPos, "every skipped test is considered", []string{"C08"}, "considered %s", st.g("n"))
			}
		}
	})
	d.rep.must("only skipped tests, their descendants and tests not selected are protected", "a test the -run flag does not select is protected", "every skipped test is considered", "a skipped test that protects the entry is not passed over")
}

// ---------------------------------------------------------------- the -run flag

func (d *Driver) ruleMatchesRun() {
	d.rep.begin("MATCHRUN", "snaps.matchesRun", "C08", "C09")
	fn := d.role("matchesRun", "testSkipped", "(string,string)bool")
	split := d.role("splitRun", "testSkipped", "(string,uint8)[]string")
	if split == nil {
		split = d.role("splitRun", "testSkipped", "(string,byte)[]string")
	}
	if fn == nil || split == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the -run filter")
		return
	}
	name, run := Sym("testName"), Sym("runOnly")
	names := splitT(name, Str("/"))
	alts := App("splitrun", run, Int('|'))
	lv := func(a *Term) *Term { return App("splitrun", a, Int('/')) }
	st := newState()
	for g, v := range map[string]*Term{"alt": Nil, "a": Int(0), "l": Int(0), "key:fail": False} {
		st.setg(g, v)
	}
	mon := &Mon{name: "MATCHRUN", noSummary: true, noMerge: true}
	start := func(st *State, i, alt *Term) {
		st.setg("alt", alt)
		st.setg("a", AddC(i, 1))
		st.setg("l", Int(0))
		st.setg("key:fail", False)
	}
	left := func(x *Exec, st *State, pos token.Pos) {
		if st.g("alt") == Nil {
			return
		}
		d.rep.check(st.g("key:fail") == True, x, st, pos, "an alternative is given up only when a level does not match", []string{"C08", "C09"}, "")
		st.setg("alt", Nil)
		st.setg("key:fail", False)
		st.setg("l", Int(0))
	}
	mon.index = func(x *Exec, st *State, s, i *Term, pos token.Pos) {
		c := st.norm(x.content(st, s))
		if c != alts {
			return
		}
		e := st.norm(selT(c, i))
		if e == st.g("alt") {
			return
		}
		left(x, st, pos)
		d.rep.check(st.holds(Eq(i, st.g("a"))), x, st, pos, "alternatives are tried in order, each once", nil, "%s, next is %s", i, st.g("a"))
		start(st, i, e)
	}
	var outer *loop
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) {
		if outer != nil && l != nil && l.head == outer.head {
			left(x, st, pos)
		}
	}
	event := func(x *Exec, st *State, p, s *Term, pos token.Pos) []Out {
		alt, l := st.g("alt"), st.g("l")
		ok := alt != Nil && p == st.norm(selT(lv(alt), l)) && s == st.norm(selT(names, l))
		d.rep.check(ok, x, st, pos, "each level's pattern is matched against the same level of the name", []string{"C08", "C09"}, "matches %s against %s", p, s)
		d.rep.check(st.holds(Lt(l, lenT(names))), x, st, pos, "levels deeper than the name are not looked up (index out of range)", []string{"C08", "C09", "C07"}, "level %s of %s", l, lenT(names))
		d.rep.check(st.g("key:fail") == False, x, st, pos, "an alternative with a level that does not match is given up", nil, "")
		a, b := st.clone(), st.clone()
		a.setg("l", AddC(l, 1))
		b.setg("key:fail", True)
		m := App("rematch", p, s)
		var outs []Out
		for _, s := range a.assume(m, true) {
			outs = append(outs, one(s, True, Nil)...)
		}
		for _, s := range b.assume(m, false) {
			e := s.clone()
			outs = append(outs, one(s, False, Nil)...)
			outs = append(outs, one(e, False, x.errVal(e, "regexp"))...)
		}
		return outs
	}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
		switch {
		case c.fn == split:
			if n := len(x.loopStk); val(1) == Int('/') && n > 0 {
				outer = x.loopStk[n-1]
			}
			return one(st, x.newObj(st, "splitrun", App("splitrun", val(0), val(1)))), true
		case c.name == "regexp.MatchString":
			return event(x, st, val(0), val(1), c.pos), true
		case c.name == "regexp.Match":
			return event(x, st, val(0), val(1), c.pos), true
		case c.name == "(*regexp.Regexp).MatchString":
			if r := c.args[0]; r.is("nonnil") && r.args[0].is("regexp") {
				var outs []Out
				for _, o := range event(x, st, r.args[0].args[0], val(1), c.pos) {
					if o.vals[1] == Nil {
						outs = append(outs, Out{st: o.st, vals: o.vals[:1]})
					}
				}
				return outs, true
			}
		}
		return nil, false
	}
	d.run(fn, mon, []*Term{name, run}, st, func(x *Exec, o Out) {
		for _, v := range []bool{true, false} {
			for _, st := range o.st.clone().assume(o.vals[0], v) {
				alt, l := st.g("alt"), st.g("l")
				if v {
					ok := alt != Nil && st.g("key:fail") == False && (st.holds(Le(lenT(lv(alt)), l)) || st.holds(Le(lenT(names), l)))
					if st.eval(Eq(run, Empty)) == True {
						ok = true
					}
					d.rep.check(ok, x, st, token.NoPos, "a test is selected only when every level of an alternative matches", []string{"C08"}, "alternative %s, levels matched %s, failed %s", alt, l, st.g("key:fail"))
					continue
				}
				left(x, st, token.NoPos)
				d.rep.check(st.holds(Le(lenT(alts), st.g("a"))), x, st, token.NoPos, "a test is filtered out only when no alternative selects it", []string{"C09"}, "tried %s", st.g("a"))
			}
		}
	})
	d.rep.must("a test is selected only when every level of an alternative matches", "a test is filtered out only when no alternative selects it", "each level's pattern is matched against the same level of the name")
}

// ruleSplitRun checks that the flag is cut exactly at separators outside brackets and parentheses.
// The monitor keeps its own nesting depth; the loop relates it to whatever the code keeps.
func (d *Driver) ruleSplitRun() {
	d.rep.begin("SPLITRUN", "snaps.splitRun", "C08", "C09")
	fn := d.role("splitRun", "testSkipped", "(string,uint8)[]string")
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the -run filter")
		return
	}
	for _, sep := range []byte{'|', '/'} {
		d.splitRun(fn, sep)
	}
	d.rep.must("the flag is cut exactly at separators outside brackets", "the pieces are what lies between the cuts")
}

func (d *Driver) splitRun(fn *ssa.Function, sep byte) {
	s := Sym("flag")
	st := newState()
	for g, v := range map[string]*Term{"p": Int(0), "cur": Nil, "br": Int(0), "pa": Int(0), "start": Int(0), "parts": emptySeq} {
		st.setg(g, v)
	}
	is := func(st *State, c *Term, b byte) tri { return st.tri(Eq(c, Int(int64(b)))) }
	mon := &Mon{name: "SPLITRUN", noSummary: true, noMerge: true}
	mon.index = func(x *Exec, st *State, b, i *Term, pos token.Pos) {
		if st.norm(b) != s {
			return
		}
		if st.g("cur") == Nil {
			d.rep.check(st.holds(Eq(i, st.g("p"))), x, st, pos, "every character of the flag is looked at", nil, "looks at %s, next is %s", i, st.g("p"))
			st.setg("cur", i)
		}
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) {
		i := st.g("cur")
		if i == Nil {
			return
		}
		st.setg("cur", Nil)
		c := st.norm(selT(s, i))
		next := AddC(i, 1)
		br, pa := st.g("br"), st.g("pa")
		inBr := st.tri(Eq(br, Int(0))).not()
		depthOK := true
		set := func(t tri, f func()) {
			switch t {
			case yes:
				f()
			case maybe:
				depthOK = false
			}
		}
		cut := no
		switch {
		case is(st, c, '\\') == yes:
			next = AddC(i, 2)
		case is(st, c, '[') == yes:
			st.setg("br", AddC(br, 1))
		case is(st, c, ']') == yes:
			set(inBr, func() { st.setg("br", AddC(br, -1)) })
		case is(st, c, '(') == yes:
			set(inBr.not(), func() { st.setg("pa", AddC(pa, 1)) })
		case is(st, c, ')') == yes:
			set(inBr.not(), func() { st.setg("pa", AddC(pa, -1)) })
		case is(st, c, sep) == yes:
			cut = and3(inBr.not(), st.tri(Eq(pa, Int(0))))
		default:
			for _, b := range []byte{'\\', '[', ']', '(', ')', sep} {
				if is(st, c, b) != no {
					// nothing happened on this path: fine only where the character has no effect
					switch b {
					case sep:
						cut = and3(is(st, c, b), inBr.not(), st.tri(Eq(pa, Int(0))))
						if inBr == yes {
							cut = no
						}
					case '(', ')':
						depthOK = depthOK && inBr == yes
					case ']':
						depthOK = depthOK && inBr == no
					default:
						depthOK = false
					}
				}
			}
		}
		d.rep.check(depthOK && cut != maybe, x, st, pos, "the nesting of brackets and parentheses is tracked", nil, "character %s, brackets %s, parentheses %s", c, br, pa)
		if cut == yes {
			st.setg("parts", seqcatT(st.g("parts"), mk("seq", "", 0, nil, sliceTerm(s, st.g("start"), i))))
			st.setg("start", AddC(i, 1))
		}
		st.setg("p", next)
	}
	d.run(fn, mon, []*Term{s, Int(int64(sep))}, st, func(x *Exec, o Out) {
		st := o.st
		want := seqcatT(st.g("parts"), mk("seq", "", 0, nil, sliceTerm(s, st.g("start"), lenT(s))))
		got := x.value(st, x.content(st, o.vals[0]))
		d.rep.check(st.holds(Le(lenT(s), st.g("p"))), x, st, token.NoPos, "the flag is cut exactly at separators outside brackets", nil, "stops at %s", st.g("p"))
		d.rep.check(same(st, got, want), x, st, token.NoPos, "the pieces are what lies between the cuts", nil, "returns %s\n    expected %s", st.simp(got), st.simp(want))
	})
}

// ---------------------------------------------------------------- files

func (d *Driver) ruleFileSkipped() {
	fn := d.begin("FILESKIP", snaps, "isFileSkipped", "C08", "C09")
	if fn == nil {
		return
	}
	dir, file, run := Sym("dir"), Sym("filename"), Sym("runOnly")
	want := joinPath([]*Term{dir, Str(".."), Concat(trimSuffixT(file, Str(".snap")), Str(".go"))})
	st := newState()
	mon := &Mon{name: "FILESKIP", noSummary: true, noMerge: true}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
		match := func(p, s *Term) []Out {
			m := App("rematch", p, s)
			var outs []Out
			for _, a := range st.clone().assume(m, true) {
				if p == run && anyTerm(s, func(t *Term) bool {
					return t.op == "app" && strings.HasSuffix(t.val, "Name") || t.op == "fa" && t.val == "Name" || t.op == "field" && t.val == "Name"
				}) {
					a.setg("key:selected", True)
				}
				outs = append(outs, one(a, True, Nil)...)
			}
			for _, a := range st.clone().assume(m, false) {
				b := a.clone()
				outs = append(outs, one(a, False, Nil)...)
				outs = append(outs, one(b, False, x.errVal(b, "regexp"))...)
			}
			return outs
		}
		switch c.name {
		case "go/parser.ParseFile":
			d.rep.check(val(1) == want, x, st, c.pos, "the file looked for is the test file the snapshots are named after", nil, "parses %s, expected %s", val(1), want)
			a, b := st.clone(), st.clone()
			a.setg("key:parsed", True)
			b.setg("key:parsed", False)
			return []Out{{st: a, vals: []*Term{App("nonnil", Sym("syntax")), Nil}}, {st: b, vals: []*Term{Nil, x.errVal(b, "parse")}}}, true
		case "regexp.MatchString":
			return match(val(0), val(1)), true
		case "(*regexp.Regexp).MatchString":
			if r := c.args[0]; r.is("nonnil") && r.args[0].is("regexp") {
				var outs []Out
				for _, o := range match(r.args[0].args[0], val(1)) {
					if o.vals[1] == Nil {
						outs = append(outs, Out{st: o.st, vals: o.vals[:1]})
					}
				}
				return outs, true
			}
		}
		if e := fsEffect(x, st, c); e != "" {
			d.rep.bad(x, st, c.pos, "modifies the file system: "+e, []string{"C05", "C09", "C07"}, "")
		}
		return nil, false
	}
	d.run(fn, mon, []*Term{dir, file, run}, st, func(x *Exec, o Out) {
		for _, v := range []bool{true, false} {
			for _, st := range o.st.clone().assume(o.vals[0], v) {
				none := st.eval(Eq(run, Empty))
				if v {
					d.rep.check(none == False, x, st, token.NoPos, "without -run no file counts as filtered out", []string{"C09"}, "")
					continue
				}
				ok := none == True || st.g("key:parsed") == True && st.g("key:selected") == True
				d.rep.check(ok, x, st, token.NoPos, "with -run only files with a selected test are examined", []string{"C08"}, "parsed %s, selected %s", st.g("key:parsed"), st.g("key:selected"))
			}
		}
	})
	d.rep.must("without -run no file counts as filtered out", "with -run only files with a selected test are examined")
}

func (d *Driver) ruleHasSkipped() {
	d.rep.begin("HASSKIP", "snaps.hasSkippedTests", "C08", "C09")
	fn := d.role("hasSkippedTests", "examineFiles", "(string,string)bool")
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "no function tells whether an unused file holds snapshots of tests that did not run")
		return
	}
	path, run := Sym("snapPath"), Sym("runOnly")
	list := App("ld", fa(d.gval("skippedTests"), d.fieldIndex("syncSlice", "values"), "values"))
	st := newState()
	st.setg(gMode, Str("none"))
	st.setg("n", Int(0))
	st.setg("e", Nil)
	st.setg("pend", Nil)
	st.setg("key:all", False)
	st.setg("key:unread", False)
	base := App("filepath.Base", path)
	protects := func(e *Term) *Term {
		return hasPrefixT(base, Concat(replaceAllT(e, Str("/"), Str("_")), Str("_")))
	}
	mon := &Mon{name: "HASSKIP", noSummary: true, noMerge: true}
	settle := func(x *Exec, st *State, pos token.Pos) {
		if e := st.g("e"); e != Nil {
			d.rep.check(st.eval(st.simp(protects(e))) == False, x, st, pos, "the standalone files of a skipped test are protected", []string{"C08"}, "undecided for %s", e)
			st.setg("e", Nil)
		}
	}
	settleID := func(x *Exec, st *State, pos token.Pos) {
		if p := st.g("pend"); p != Nil {
			d.rep.bad(x, st, pos, "an entry of a test that did not run protects its file", []string{"C08"}, "undecided for "+p.String())
			st.setg("pend", Nil)
		}
		d.rep.check(st.g("key:skipped") != True, x, st, pos, "an entry of a test that did not run protects its file", []string{"C08"}, "goes on")
	}
	mon.index = func(x *Exec, st *State, s, i *Term, pos token.Pos) {
		if st.norm(s) != list {
			return
		}
		e := st.norm(selT(s, i))
		if e == st.g("e") {
			return
		}
		settle(x, st, pos)
		if st.holds(Eq(i, st.g("n"))) {
			st.setg("n", AddC(i, 1))
		}
		st.setg("e", e)
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) { settle(x, st, pos) }
	mon.exhaust = func(x *Exec, st *State, s *Term, pos token.Pos) {
		if st.norm(s) == list {
			st.setg("key:all", True)
		}
	}
	mon.scan = func(x *Exec, st *State, sc, l *Term, pos token.Pos) []*State {
		d.scanSource(x, st, sc, path, pos, nil)
		if l == nil {
			settleID(x, st, pos)
			st.setg(gMode, Str("eof"))
			return []*State{st}
		}
		var res []*State
		put := func(m string) func(*State) {
			return func(s *State) {
				s.setg(gMode, Str(m))
				res = append(res, s)
			}
		}
		switch st.g(gMode).val {
		case "none", "out":
			fork(st, isID(l), func(s *State) {
				s.setg("pend", s.norm(idName(l)))
				put("in")(s)
			}, put("out"))
		case "in":
			settleID(x, st, pos)
			fork(st, Eq(l, End), put("out"), put("in"))
		default:
			put("eof")(st)
		}
		return res
	}
	mon.call = chainCall(idHook, lockHook, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		switch c.name {
		case "snaps.testSkipped":
			a, b := st.norm(x.value(st, c.args[0])), st.norm(x.value(st, c.args[1]))
			d.rep.check(a == st.g("pend") && b == run, x, st, c.pos, "the tests asked about are those of the file's entries", []string{"C08", "C09"}, "(%s, %s)", a, b)
			var outs []Out
			fork(st, App("skipped", a, b), func(s *State) {
				s.setg("key:skipped", True)
				outs = append(outs, one(s, True)...)
			}, func(s *State) {
				s.setg("pend", Nil)
				outs = append(outs, one(s, False)...)
			})
			return outs, true
		case "os.Open", "os.ReadFile", "os.OpenFile":
			outs := models[c.name](x, st, c)
			for _, o := range outs {
				if isErr(o.st, o.vals[1]) == -1 {
					o.st.setg("key:unread", True)
				}
			}
			return outs, true
		}
		if e := fsEffect(x, st, c); e != "" {
			d.rep.bad(x, st, c.pos, "modifies the file system: "+e, []string{"C05", "C09", "C07"}, "")
		}
		return nil, false
	})
	d.run(fn, mon, []*Term{path, run}, st, func(x *Exec, o Out) {
		unlocked(x, o.st)
		for _, v := range []bool{true, false} {
			for _, st := range o.st.clone().assume(o.vals[0], v) {
				if v {
					e, p := st.g("e"), st.g("pend")
					ok := e != Nil && st.eval(st.simp(protects(e))) == True || st.g("key:skipped") == True
					d.rep.check(ok, x, st, token.NoPos, "only files of tests that did not run are protected", []string{"C09"}, "skipped test %s, entry %s", e, p)
					continue
				}
				settle(x, st, token.NoPos)
				settleID(x, st, token.NoPos)
				all := st.g("key:all") == True || st.holds(Le(lenT(list), st.g("n")))
				d.rep.check(all, x, st, token.NoPos, "every skipped test is considered", []string{"C08"}, "considered %s", st.g("n"))
				d.rep.check(st.g(gMode).val == "eof" || st.g("key:unread") == True, x, st, token.NoPos, "every entry of the file is considered", []string{"C08"}, "stops in state %s", st.g(gMode))
			}
		}
	})
	d.rep.must("only files of tests that did not run are protected", "every entry of the file is considered", "an entry of a test that did not run protects its file", "the standalone files of a skipped test are protected")
}

// ---------------------------------------------------------------- Skip, Skipf, SkipNow

func (d *Driver) ruleSkipWrappers() {
	for _, n := range []string{"Skip", "Skipf", "SkipNow"} {
		fn := d.begin("SKIP", snaps, n, "C08", "C20", "C06")
		if fn == nil {
			continue
		}
		t := Sym("t")
		args := []*Term{t}
		var rest []*Term
		for i := 1; i < len(fn.Params); i++ {
			a := Sym(fn.Params[i].Name())
			args = append(args, a)
			rest = append(rest, a)
		}
		list := fa(d.gval("skippedTests"), d.fieldIndex("syncSlice", "values"), "values")
		st := newState()
		for _, g := range []string{"skips", "tracked"} {
			st.setg(g, Int(0))
		}
		mon := &Mon{name: "SKIP"}
		mon.store = func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
			if loc != list {
				if rootOf(loc).op == "global" || rootOf(loc).is("ld") {
					d.rep.bad(x, st, pos, "a skip changes other package state", nil, loc.String())
				}
				return
			}
			d.guard(x, st, "list of skipped tests", true, pos)
			d.rep.check(atomicSince(st, "rd:list"), x, st, pos, "the list of skipped tests is read and updated in one critical section", []string{"C06", "C20", "C08"}, "")
			want := seqcatT(App("ld", list), mk("seq", "", 0, nil, Sym("testname")))
			got := st.norm(x.value(st, v))
			d.rep.check(got == st.norm(want), x, st, pos, "the test's name is added to the skipped tests", []string{"C08", "C20"}, "stores %s", got)
			d.rep.check(st.g("skips") == Int(0), x, st, pos, "the test is tracked before it stops", []string{"C08", "C20"}, "")
			inc(st, "tracked")
		}
		mon.load = func(x *Exec, st *State, loc *Term, pos token.Pos) {
			if loc == list {
				sawShared(st, "rd:list")
			}
		}
		mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
			d.rep.bad(x, st, pos, "a skip counts as another outcome", []string{"C20"}, m.String())
		}
		mon.call = chainCall(lockHook, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			switch c.name {
			case "(snaps.testingT).Helper", "(snaps.testingT).Log":
				return one(st), true
			case "(snaps.testingT).Name":
				return one(st, Sym("testname")), true
			case "(snaps.testingT).Error":
				d.rep.bad(x, st, c.pos, "a skip fails the test", []string{"C20"}, "")
				return one(st), true
			case "(snaps.testingT).Skip", "(snaps.testingT).Skipf", "(snaps.testingT).SkipNow":
				inc(st, "skips")
				unlocked(x, st)
				ok := len(c.args) == len(rest)+1
				for i := range rest {
					ok = ok && i+1 < len(c.args) && c.args[i+1] == rest[i]
				}
				d.rep.check(ok && strings.HasSuffix(c.name, "."+n), x, st, c.pos, "the test is skipped the way the caller asked", []string{"C20", "C08"}, "%s", c.name)
				return one(st), true
			}
			if e := fsEffect(x, st, c); e != "" {
				d.rep.bad(x, st, c.pos, "modifies the file system: "+e, []string{"C05", "C08"}, "")
			}
			return nil, false
		})
		d.run(fn, mon, args, st, func(x *Exec, o Out) {
			d.rep.check(o.st.g("skips") == Int(1) && o.st.g("tracked") == Int(1), x, o.st, token.NoPos, "every skip is tracked exactly once", []string{"C08", "C20"}, "skips %s, tracked %s", o.st.g("skips"), o.st.g("tracked"))
		})
		d.rep.must("every skip is tracked exactly once", "the list of skipped tests is read and updated in one critical section")
	}
}

package main

import (
	"go/token"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- naturalSort

// ruleSortCmp checks that the comparison used for sorting is the natural order: zero for equal ids only,
// otherwise the sign says which id is naturally smaller.
func (d *Driver) ruleSortCmp() {
	fn := d.begin("SORTCMP", snaps, "naturalSort", "C10")
	if fn == nil {
		return
	}
	a, b := Sym("a"), Sym("b")
	less := func(x, y *Term) *Term { return App("natural.Less", x, y) }
	mon := &Mon{name: "SORTCMP"}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if strings.HasSuffix(c.name, "natural.Less") {
			return one(st, less(st.norm(x.value(st, c.args[0])), st.norm(x.value(st, c.args[1])))), true
		}
		if strings.HasSuffix(c.name, "natural.Compare") {
			return one(st, App("natural.Compare", c.args...)), true
		}
		return nil, false
	}
	for _, c := range []struct {
		what   string
		facts  map[*Term]bool
		expect func(r *Term) *Term
	}{
		{"equal ids compare equal", map[*Term]bool{Eq(a, b): true, less(a, b): false, less(b, a): false, less(a, a): false, less(b, b): false}, func(r *Term) *Term { return Eq(r, Int(0)) }},
		{"the naturally smaller id comes first", map[*Term]bool{Eq(a, b): false, less(a, b): true, less(b, a): false}, func(r *Term) *Term { return Lt(r, Int(0)) }},
		{"the naturally greater id comes last", map[*Term]bool{Eq(a, b): false, less(a, b): false, less(b, a): true}, func(r *Term) *Term { return Lt(Int(0), r) }},
	} {
		st := newState()
		for f, v := range c.facts {
			if n := st.assume(f, v); len(n) > 0 {
				st = n[0]
			}
		}
		d.run(fn, mon, []*Term{a, b}, st, func(x *Exec, o Out) {
			d.rep.check(o.st.holds(c.expect(o.st.simp(o.vals[0]))), x, o.st, token.NoPos, c.what, nil, "result %s", o.vals[0])
		})
		d.rep.must(c.what)
	}
}

// ---------------------------------------------------------------- summary

var escapeRe = regexp.MustCompile("\x1b\\[[0-9;]*m")

// textLines cuts a text term into lines of parts, escape sequences removed
func textLines(t *Term) [][]*Term {
	var lines [][]*Term
	var cur []*Term
	for _, p := range parts(t) {
		if p.isStr() {
			ss := strings.Split(escapeRe.ReplaceAllString(p.val, ""), "\n")
			for i, s := range ss {
				if i > 0 {
					lines = append(lines, cur)
					cur = nil
				}
				if s != "" {
					cur = append(cur, Str(s))
				}
			}
			continue
		}
		if p.is("catmap") {
			// whole lines for every element
			if len(cur) == 0 {
				lines = append(lines, []*Term{p})
				continue
			}
		}
		cur = append(cur, p)
	}
	if len(cur) > 0 {
		lines = append(lines, cur)
	}
	return lines
}

func lineHas(l []*Term, w string) bool {
	for _, p := range l {
		if p.isStr() && strings.Contains(p.val, w) {
			return true
		}
	}
	return false
}

func (d *Driver) constTerm(pkg, name string) *Term {
	if m, ok := d.p.pkgs[pkg].Members[name].(*ssa.NamedConst); ok {
		return constTerm(m.Value)
	}
	return nil
}

// ruleSummary checks what the summary shows. Counters and lists are independent of each other, so they
// are analysed in groups: each group has unknown values in one part and fixed ones in the others.
func (d *Driver) ruleSummary() {
	fn := d.begin("SUMMARY", snaps, "summary", "C20")
	if fn == nil {
		return
	}
	files, tests, skips, events, upd := Sym("files"), Sym("tests"), Sym("skips"), Sym("events"), Sym("update")
	f0, t0 := Sym("file0"), Sym("test0")
	seq := func(ts ...*Term) *Term { return mk("seq", "", 0, nil, ts...) }
	kinds := []struct{ konst, word string }{{"passed", "passed"}, {"erred", "failed"}, {"added", "added"}, {"updated", "updated"}}
	count := map[string]*Term{"skipped": skips}
	for _, k := range kinds {
		c := d.constTerm(snaps, k.konst)
		if c == nil {
			d.rep.bad(nil, nil, fn.Pos(), "anchor constant is missing", nil, k.konst)
			return
		}
		count[k.word] = App("mapget", App("mc", events), c)
	}
	words := []string{"passed", "failed", "added", "updated", "skipped"}
	const free = -1
	type group struct {
		ev, skips    int // free: any value
		files, tests *Term
		color        bool
	}
	groups := []group{
		{free, 0, Empty, Empty, false}, {2, free, Empty, Empty, false}, {1, 1, Empty, Empty, true}, {0, 0, Empty, Empty, false}, {0, free, Empty, Empty, true},
		{0, 0, files, Empty, false}, {0, 0, Empty, tests, false}, {2, 2, files, tests, false}, {2, 2, files, tests, true},
		{1, 0, seq(f0), Empty, false}, {0, 0, Empty, seq(t0), true}, {0, 1, seq(f0), seq(t0), false}, {2, 2, seq(f0, t0), seq(t0, f0), true},
	}
	mon := &Mon{name: "SUMMARY", noMerge: true}
	for _, g := range groups {
		st := newState()
		set := func(t *Term, n int) {
			switch n {
			case free:
				st = st.assume(Le(Int(0), t), true)[0]
			case 2:
				st = st.assume(Le(Int(2), t), true)[0]
			default:
				st = st.assume(Eq(t, Int(int64(n))), true)[0]
			}
		}
		for _, k := range kinds {
			set(count[k.word], g.ev)
		}
		set(skips, g.skips)
		st = st.assume(Le(Int(0), App("maplen", App("mc", events))), true)[0]
		if g.ev > 0 {
			st = st.assume(Eq(App("maplen", App("mc", events)), Int(0)), false)[0]
		}
		for _, l := range []*Term{g.files, g.tests} {
			if l.op == "sym" {
				st = st.assume(Le(Int(2), lenT(l)), true)[0]
			}
		}
		st = st.assume(App("envset", Str("NO_COLOR")), !g.color)[0]
		d.run(fn, mon, []*Term{g.files, g.tests, st.norm(skips), events, upd}, st, func(x *Exec, o Out) {
			st, out := o.st, o.st.norm(x.value(o.st, o.vals[0]))
			empty := g.files == Empty && g.tests == Empty
			for _, w := range words {
				empty = empty && st.holds(Eq(count[w], Int(0)))
			}
			if empty && out == Empty {
				d.rep.ok("nothing is printed when there is nothing to report")
				return
			}
			if st.eval(Eq(App("maplen", App("mc", events)), Int(0))) == True && out == Empty {
				// an empty map has no outcomes
				for _, w := range words[:4] {
					for _, s := range st.clone().assume(Eq(count[w], Int(0)), true) {
						st = s
					}
				}
				if g.files == Empty && g.tests == Empty && st.holds(Eq(skips, Int(0))) {
					d.rep.ok("nothing is printed when there is nothing to report")
					return
				}
			}
			lines := textLines(out)
			numbers := numbersIn
			_ = func(l []*Term) (ns []*Term) {
				for _, p := range l {
					if p.is("itoa") {
						ns = append(ns, p.args[0])
					}
					if p.isStr() {
						for _, f := range strings.Fields(p.val) {
							if strings.Trim(f, "0123456789") == "" {
								var n int64
								for _, c := range f {
									n = n*10 + int64(c-'0')
								}
								ns = append(ns, Int(n))
							}
						}
					}
				}
				return
			}
			for _, w := range words {
				c := st.norm(count[w])
				zero := st.eval(Eq(c, Int(0)))
				var hits [][]*Term
				for _, l := range lines {
					if lineHas(l, w) {
						hits = append(hits, l)
					}
				}
				ok := len(hits) == 0
				if zero != True {
					ok = len(hits) == 1 && len(numbers(hits[0])) == 1 && st.norm(numbers(hits[0])[0]) == c
				}
				if zero != True && zero != False {
					// the count is shown whatever it is: zero counts may be shown too
					ok = ok || len(hits) == 1 && len(numbers(hits[0])) == 1 && numbers(hits[0])[0] == c
				}
				d.rep.check(ok, x, st, token.NoPos, "every total is shown once, with the number of its outcomes", nil, "%s is %s, lines %v", w, c, hits)
			}
			word := "obsolete"
			if st.holds(upd) {
				word = "removed"
			}
			// the header of a list, then its items
			used := map[int]bool{}
			for _, l := range []struct {
				s    *Term
				name string
			}{{g.files, "file"}, {g.tests, "test"}} {
				if l.s == Empty {
					continue
				}
				head := -1
				for i, ln := range lines {
					if lineHas(ln, l.name) && lineHas(ln, word) && len(numbers(ln)) == 1 && st.norm(numbers(ln)[0]) == st.norm(lenT(l.s)) {
						head = i
					}
				}
				d.rep.check(head >= 0, x, st, token.NoPos, "an obsolete list is headed by its length and says whether the items are removed", nil, "no line with %s, %s and %s in %v", l.name, word, lenT(l.s), out)
				if head < 0 {
					continue
				}
				used[head] = true
				ok := true
				if l.s.op == "seq" {
					for i, e := range l.s.args {
						j := head + 1 + i
						ok = ok && j < len(lines)
						if ok {
							n := 0
							for _, p := range lines[j] {
								if p == e {
									n++
								} else if !p.isStr() {
									n = 9
								}
							}
							ok = n == 1
							used[j] = true
						}
					}
				} else {
					ok = head+1 < len(lines) && len(lines[head+1]) == 1 && lines[head+1][0].is("catmap") && st.norm(lines[head+1][0].args[0]) == l.s
					if ok {
						body := parts(lines[head+1][0].args[1])
						n := 0
						for _, p := range body {
							if p == Elem {
								n++
							} else if !p.isStr() {
								n = 9
							}
						}
						last := body[len(body)-1]
						ok = n == 1 && last.isStr() && strings.HasSuffix(escapeRe.ReplaceAllString(last.val, ""), "\n")
					}
					used[head+1] = true
				}
				d.rep.check(ok, x, st, token.NoPos, "every obsolete item is listed once, on its own line", nil, "%s in %v", l.name, out)
			}
			for i, l := range lines {
				stray := false
				for _, p := range l {
					stray = stray || anyTerm(p, func(t *Term) bool { return t == files || t == tests || t == f0 || t == t0 || t.is("catmap") })
				}
				d.rep.check(!stray || used[i], x, st, token.NoPos, "nothing else is listed", nil, "%v", l)
			}
			if g.color {
				return
			}
			esc := anyTerm(out, func(t *Term) bool { return t.isStr() && strings.Contains(t.val, "\x1b") })
			d.rep.check(!esc, x, st, token.NoPos, "NO_COLOR output has no escape sequences", nil, "%s", out)
		})
	}
	d.rep.must("nothing is printed when there is nothing to report", "every total is shown once, with the number of its outcomes", "every obsolete item is listed once, on its own line", "an obsolete list is headed by its length and says whether the items are removed")
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

const (
	difflib = "internal/difflib"
	colors  = "internal/colors"
)

// opT is one operation of the edit script, with unknown bounds
type opT struct{ tag, i1, i2, j1, j2 *Term }

type diffRule struct {
	d                    *Driver
	op                   types.Type
	tags                 map[string]*Term
	exp, rec, name, line *Term
}

// rawLines is the sequence of the lines of a text without their terminators
func rawLines(t *Term) *Term { return App("rawlines", t) }

// ruleDiff checks prettyDiff: nothing for equal texts; otherwise the header counts, and the lines of both
// texts the edit script names, each behind its sign. The rules over the difflib package speak about the
// edit script itself; here it is unknown but for its shape.
func (d *Driver) ruleDiff() {
	fn := d.begin("DIFF", snaps, "prettyDiff", "C13")
	if fn == nil {
		return
	}
	r := &diffRule{d: d, tags: map[string]*Term{}, exp: Sym("expected"), rec: Sym("received"), name: Sym("name"), line: Sym("line")}
	for _, n := range []string{"Equal", "Insert", "Delete", "Replace"} {
		c := d.constTerm(difflib, "Op"+n)
		if c == nil {
			d.rep.bad(nil, nil, fn.Pos(), "anchor constant is missing", nil, n)
			return
		}
		r.tags[n] = c
	}
	op := d.p.pkgs[difflib].Type("OpCode")
	if op == nil {
		d.rep.bad(nil, nil, fn.Pos(), "anchor type is missing", nil, "OpCode")
		return
	}
	r.op = op.Type()
	all := []string{"Equal", "Insert", "Delete", "Replace"}
	for _, a := range all {
		for _, b := range all {
			if a != b && b != "Equal" {
				r.run([][]string{{a, b}, {"Replace"}}, false)
			}
		}
	}
	r.run([][]string{{"Equal", "Replace", "Equal"}, {"Equal", "Insert", "Equal", "Delete", "Equal"}}, false)
	for _, a := range all[1:] {
		r.run([][]string{{a}}, false)
		r.run([][]string{{a}}, true)
	}
	r.run([][]string{{"Equal", "Delete", "Equal", "Insert"}}, true)
	d.rep.must("equal texts yield no report", "different texts yield a report", "the edit script turns the lines of the stored text into those of the received text",
		"every line of a changed range is shown behind its sign, and no other", "the header counts the lines shown")
}

func (r *diffRule) run(shape [][]string, color bool) {
	d, exp, rec := r.d, r.exp, r.rec
	fn := d.p.fn(snaps, "prettyDiff")
	lines := func(t *Term) *Term { return App("coll", rawLines(t), Concat(Elem, Str("\n"))) }
	st := newState()
	st = st.assume(App("envset", Str("NO_COLOR")), !color)[0]
	if color {
		c := Global(d.p.pkgs[colors].Pkg.Path() + ".NOCOLOR")
		if v := d.p.seed[c]; v != nil {
			st = st.assume(v, false)[0]
		}
	}
	var groups []*Term
	var ops []opT
	for gi, g := range shape {
		var gs []*Term
		for k, tag := range g {
			s := func(f string) *Term { return Sym(fmt.Sprintf("%s.%d.%d", f, gi, k)) }
			o := opT{r.tags[tag], s("i1"), s("i2"), s("j1"), s("j2")}
			lt := map[string][2]bool{"Equal": {true, true}, "Insert": {false, true}, "Delete": {true, false}, "Replace": {true, true}}[tag]
			if !lt[0] {
				o.i2 = o.i1
			}
			if !lt[1] {
				o.j2 = o.j1
			}
			if tag == "Equal" {
				o.j2 = Add(o.j1, Sub(o.i2, o.i1))
			}
			ops = append(ops, o)
			fs := map[string]*Term{"Tag": o.tag, "I1": o.i1, "I2": o.i2, "J1": o.j1, "J2": o.j2}
			var args []*Term
			t := structOf(r.op)
			for i := 0; i < t.NumFields(); i++ {
				args = append(args, fs[t.Field(i).Name()])
			}
			gs = append(gs, mkStruct(r.op, args))
			for _, f := range []*Term{Le(Int(0), o.i1), Le(Int(0), o.j1), Le(o.i2, lenT(rawLines(exp))), Le(o.j2, lenT(rawLines(rec)))} {
				st = st.assume(f, true)[0]
			}
			if lt[0] {
				st = st.assume(Lt(o.i1, o.i2), true)[0]
			}
			if lt[1] {
				st = st.assume(Lt(o.j1, o.j2), true)[0]
			}
		}
		groups = append(groups, mk("seq", "", 0, nil, gs...))
	}
	st = st.assume(Le(Int(1), lenT(rawLines(exp))), true)[0]
	st = st.assume(Le(Int(1), lenT(rawLines(rec))), true)[0]
	script := mk("seq", "", 0, nil, groups...)
	mon := &Mon{name: "DIFF"}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		switch {
		case strings.HasSuffix(c.name, snaps+".splitNewlines"):
			return one(st, lines(st.norm(c.args[0]))), true
		case strings.HasSuffix(c.name, difflib+".NewMatcher"):
			return one(st, App("matcher", st.norm(c.args[0]), st.norm(c.args[1]))), true
		case strings.HasSuffix(c.name, difflib+".FormatRangeUnified"):
			return one(st, App("range", st.norm(c.args[0]), st.norm(c.args[1]))), true
		case strings.HasSuffix(c.name, ".GetGroupedOpCodes"):
			m := st.norm(c.args[0])
			d.rep.check(m == st.norm(App("matcher", lines(exp), lines(rec))), x, st, c.pos, "the edit script turns the lines of the stored text into those of the received text", []string{"C13", "C02"}, "computed by %s", m)
			d.rep.check(st.eval(Eq(exp, rec)) == False, x, st, c.pos, "only different texts have an edit script", nil, "")
			return one(st, script), true
		case strings.HasSuffix(c.name, snaps+".singlelineDiff"):
			a, b := st.norm(x.value(st, c.args[0])), st.norm(x.value(st, c.args[1]))
			from := func(t, s *Term) bool { return t == st.norm(s) || contains(t, st.norm(rawLines(s))) }
			d.rep.check(from(a, exp) && !from(a, rec) && from(b, rec) && !from(b, exp), x, st, c.pos, "inline differences are from the stored to the received text", nil, "%s to %s", a, b)
			valid := func(t *Term) bool { return st.eval(App("unicode/utf8.ValidString", t)) == True }
			d.rep.check(valid(a) && valid(b), x, st, c.pos, "inline differences are shown for valid UTF-8 only (different bytes would look the same)", []string{"C13", "C02"}, "%s and %s", a, b)
			d.rep.check(st.eval(Global(d.p.pkgs[colors].Pkg.Path()+".NOCOLOR")) != True, x, st, c.pos, "inline differences need colours", nil, "")
			h := App("inline", x.fresh(st, "inline"))
			st = st.assume(Eq(h, Empty), false)[0]
			i, dl := x.fresh(st, "ins"), x.fresh(st, "del")
			st = st.assume(Le(Int(0), i), true)[0]
			st = st.assume(Le(Int(0), dl), true)[0]
			return []Out{{st: st, vals: []*Term{h, i, dl}}}, true
		}
		return nil, false
	}
	d.run(fn, mon, []*Term{exp, rec, r.name, r.line}, st, func(x *Exec, o Out) {
		st, out := o.st, o.st.norm(x.value(o.st, o.vals[0]))
		if st.eval(Eq(exp, rec)) == True {
			d.rep.check(out == Empty, x, st, token.NoPos, "equal texts yield no report", []string{"C13", "C01", "C04"}, "returns %s", out)
			return
		}
		d.rep.check(st.eval(Eq(out, Empty)) == False, x, st, token.NoPos, "different texts yield a report", []string{"C13", "C02"}, "returns %s", out)
		if anyTerm(out, func(t *Term) bool { return t.is("inline") }) {
			return
		}
		r.lines(x, st, out, ops, color)
	})
}

// signed is one line, or one line for every element of a sequence, of the report
type signed struct {
	sign byte
	seq  *Term
	alts [][]*Term // the forms the line can take
}

// lines checks the signs and counts of the report
func (r *diffRule) lines(x *Exec, st *State, out *Term, ops []opT, color bool) {
	d := r.d
	if !color {
		esc := anyTerm(out, func(t *Term) bool { return t.isStr() && strings.Contains(t.val, "\x1b") })
		d.rep.check(!esc, x, st, token.NoPos, "NO_COLOR adds no escape sequences", nil, "%s", out)
	}
	var recs []signed
	for _, l := range textLines(out) {
		if len(l) == 0 {
			continue
		}
		s := signed{alts: [][]*Term{l}}
		if len(l) == 1 && l[0].is("catmap") {
			s.seq = l[0].args[0]
			var ok bool
			s.alts, ok = wholeLine(l[0].args[1])
			d.rep.check(ok, x, st, token.NoPos, "every line shown ends with one newline", nil, "%s", l[0])
		} else if anyTerm(mk("seq", "", 0, nil, l...), func(t *Term) bool { return t.is("catmap") }) {
			d.rep.bad(x, st, token.NoPos, "every line shown ends with one newline", nil, fmt.Sprint(l))
			continue
		}
		for i, body := range s.alts {
			var c byte
			if len(body) > 0 && body[0].isStr() && body[0].val != "" {
				c = body[0].val[0]
			}
			d.rep.check(c != 0 && (i == 0 || c == s.sign), x, st, token.NoPos, "every line of the report starts with its sign", nil, "%s", fmt.Sprint(l))
			s.sign = c
		}
		if len(s.alts) > 0 && s.sign != 0 {
			recs = append(recs, s)
		}
	}
	for _, s := range recs {
		if s.sign == '-' || s.sign == '+' {
			continue
		}
		// context: lines of an equal range
		for _, text := range s.alts {
			for _, t := range text {
				var q *Term
				if t == Elem {
					q = s.seq
				} else if t.is("sel") {
					q = sliceTerm(t.args[0], t.args[1], AddC(t.args[1], 1))
				}
				if q == nil {
					continue
				}
				ok := false
				for _, o := range ops {
					if o.tag == r.tags["Equal"] {
						ok = ok || st.norm(q) == st.norm(sliceTerm(rawLines(r.exp), o.i1, o.i2)) || st.norm(q) == st.norm(sliceTerm(rawLines(r.rec), o.j1, o.j2))
					}
				}
				d.rep.check(ok, x, st, token.NoPos, "lines shown without a sign are lines of an equal range", nil, "%s", q)
			}
		}
	}
	for _, side := range []struct {
		sign byte
		what string
		raw  *Term
		rng  func(o opT) (lo, hi *Term, shown bool)
	}{
		{'-', "stored", rawLines(r.exp), func(o opT) (*Term, *Term, bool) {
			return o.i1, o.i2, o.tag == r.tags["Delete"] || o.tag == r.tags["Replace"]
		}},
		{'+', "received", rawLines(r.rec), func(o opT) (*Term, *Term, bool) {
			return o.j1, o.j2, o.tag == r.tags["Insert"] || o.tag == r.tags["Replace"]
		}},
	} {
		var shown []*Term
		var head []*Term
		bad := ""
		for _, s := range recs {
			if s.sign != side.sign {
				continue
			}
			if head == nil && s.seq == nil {
				head = s.alts[0]
				continue
			}
			var show *Term
			for _, text := range s.alts {
				payload := text[1:]
				var this *Term
				switch {
				case text[0].val != string(side.sign)+" ":
				case s.seq != nil && len(payload) == 1 && payload[0] == Elem:
					this = st.norm(s.seq)
				case s.seq == nil && len(payload) == 1 && payload[0].is("sel"):
					this = sliceTerm(payload[0].args[0], payload[0].args[1], AddC(payload[0].args[1], 1))
				case s.seq == nil && len(payload) == 0:
					this = Empty // an empty line: whichever it is, the facts decide
				}
				if this == nil || show != nil && this != show {
					bad = fmt.Sprint(text)
				}
				show = this
			}
			if show != nil {
				shown = append(shown, show)
			}
		}
		var want []*Term
		total := Int(0)
		for _, o := range ops {
			if lo, hi, ok := side.rng(o); ok {
				want = append(want, st.norm(sliceTerm(side.raw, lo, hi)))
				total = Add(total, Sub(hi, lo))
			}
		}
		ok := bad == "" && len(want) == len(shown)
		for i := 0; ok && i < len(want); i++ {
			ok = want[i] == shown[i] || st.eval(Eq(want[i], shown[i])) == True || shown[i] == Empty && st.eval(Eq(selT(want[i], Int(0)), Empty)) == True && st.holds(Eq(lenT(want[i]), Int(1)))
		}
		d.rep.check(ok, x, st, token.NoPos, "every line of a changed range is shown behind its sign, and no other", []string{"C13", "C02"}, "%s lines %v, shown %v %s", side.what, want, shown, bad)
		got := numbersIn(head)
		ok = len(got) == 1 && st.norm(Sub(got[0], total)) == Int(0)
		d.rep.check(ok, x, st, token.NoPos, "the header counts the lines shown", nil, "%s: header %v for %s lines", side.what, head, total)
	}
}

// numbersIn are the numbers a line shows
func numbersIn(l []*Term) (ns []*Term) {
	for _, p := range l {
		if p.is("itoa") {
			ns = append(ns, p.args[0])
		}
		if p.isStr() {
			for _, f := range strings.Fields(p.val) {
				if strings.Trim(f, "0123456789") == "" {
					var n int64
					for _, c := range f {
						n = n*10 + int64(c-'0')
					}
					ns = append(ns, Int(n))
				}
			}
		}
	}
	return
}

// wholeLine takes the terminator off the text of one element; escape sequences are dropped. An element whose
// text depends on a condition has several forms.
func wholeLine(t *Term) ([][]*Term, bool) {
	forms := [][]*Term{nil}
	for _, p := range parts(t) {
		alts := [][]*Term{{p}}
		if p.isStr() {
			alts = [][]*Term{{Str(escapeRe.ReplaceAllString(p.val, ""))}}
		}
		if p.op == "ite" {
			alts = nil
			for _, b := range p.args[1:] {
				alts = append(alts, parts(b))
			}
		}
		var next [][]*Term
		for _, f := range forms {
			for _, a := range alts {
				var ps []*Term
				for _, q := range append(f[:len(f):len(f)], a...) {
					if q.isStr() {
						q = Str(escapeRe.ReplaceAllString(q.val, ""))
						if n := len(ps); n > 0 && ps[n-1].isStr() {
							ps[n-1] = Str(ps[n-1].val + q.val)
							continue
						}
						if q == Empty {
							continue
						}
					}
					ps = append(ps, q)
				}
				next = append(next, ps)
			}
		}
		forms = next
	}
	ok := true
	for i, ps := range forms {
		n := len(ps) - 1
		if n < 0 || !ps[n].isStr() || !strings.HasSuffix(ps[n].val, "\n") {
			ok = false
			continue
		}
		if s := strings.TrimSuffix(ps[n].val, "\n"); s == "" {
			forms[i] = ps[:n]
		} else {
			forms[i] = append(ps[:n:n], Str(s))
		}
		for _, p := range forms[i] {
			ok = ok && !(p.isStr() && strings.Contains(p.val, "\n")) && p.op != "ite"
		}
	}
	return forms, ok
}

// ruleInline checks the inline form of the report: nothing only when the diff library found no difference,
// otherwise the pieces of the stored text behind "-" and those of the received text behind "+".
func (d *Driver) ruleInline() {
	fn := d.begin("INLINE", snaps, "singlelineDiff", "C13")
	if fn == nil {
		return
	}
	const lib = "github.com/gkampitakis/go-diff/diffmatchpatch"
	pk := d.p.prog.ImportedPackage(lib)
	if pk == nil || pk.Type("Diff") == nil {
		d.rep.bad(nil, nil, fn.Pos(), "anchor type is missing", nil, lib+".Diff")
		return
	}
	dt := pk.Type("Diff").Type()
	kinds := map[byte]*Term{}
	for k, n := range map[byte]string{'=': "DiffEqual", '-': "DiffDelete", '+': "DiffInsert"} {
		kinds[k] = constTerm(pk.Const(n).Value)
	}
	exp, rec := Sym("expected"), Sym("received")
	for _, shape := range []string{"=", "-", "+", "-+", "=-+=", "=+=-", "-=+"} {
		var ds []*Term
		var group [2][]*Term // texts of the stored and of the received side
		st := newState()
		st = st.assume(Eq(exp, rec), shape == "=")[0]
		for i := range shape {
			t := Sym(fmt.Sprintf("text.%d", i))
			st = st.assume(Eq(t, Empty), false)[0]
			var args []*Term
			for j := 0; j < structOf(dt).NumFields(); j++ {
				switch structOf(dt).Field(j).Name() {
				case "Type":
					args = append(args, kinds[shape[i]])
				case "Text":
					args = append(args, t)
				}
			}
			ds = append(ds, mkStruct(dt, args))
			if shape[i] != '+' {
				group[0] = append(group[0], t)
			}
			if shape[i] != '-' {
				group[1] = append(group[1], t)
			}
		}
		for _, color := range []bool{true, false} {
			st := st.clone()
			st = st.assume(App("envset", Str("NO_COLOR")), !color)[0]
			mon := &Mon{name: "INLINE"}
			mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
				if !strings.HasPrefix(c.name, "(*"+lib+".") {
					return nil, false
				}
				switch m := c.name[strings.LastIndexByte(c.name, '.')+1:]; m {
				case "DiffMain":
					if len(c.args) > 2 {
						a, b := x.value(st, c.args[1]), x.value(st, c.args[2])
						d.rep.check(a == exp && b == rec || st.eval(Eq(exp, rec)) == True, x, st, c.pos, "the differences are from the stored to the received text", nil, "%s to %s", a, b)
						return one(st, mk("seq", "", 0, nil, ds...)), true
					}
				case "DiffCleanupSemantic", "DiffCleanupSemanticLossless", "DiffCleanupEfficiency", "DiffCleanupMerge":
					return one(st, c.args[1]), true
				}
				return nil, false
			}
			d.run(fn, mon, []*Term{exp, rec}, st, func(x *Exec, o Out) {
				st, out := o.st, o.st.norm(x.value(o.st, o.vals[0]))
				if shape == "=" {
					d.rep.ok("texts without a difference") // whatever is returned: prettyDiff does not ask
					return
				}
				d.rep.check(st.eval(Eq(out, Empty)) == False, x, st, token.NoPos, "a difference is shown", []string{"C13", "C02"}, "returns %s", out)
				var seen []*Term
				text := "" // what is between the pieces
				var between []string
				for _, p := range parts(out) {
					for _, q := range parts(deChop(p)) {
						if q.isStr() {
							text += escapeRe.ReplaceAllString(q.val, "")
							continue
						}
						seen = append(seen, q)
						between = append(between, text)
						text = ""
					}
				}
				n := len(group[0])
				want := append(append([]*Term{}, group[0]...), group[1]...)
				ok := len(seen) == len(want)
				for i := 0; ok && i < len(want); i++ {
					ok = seen[i] == want[i]
				}
				between = append(between, text)
				if ok {
					ok = strings.HasPrefix(strings.Join(between[:1], ""), "- ")
					plus := 0
					for i, b := range between {
						if k := strings.Count(b, "+ "); k > 0 {
							plus += k
							ok = ok && (i == n && strings.HasSuffix(b, "+ ") || i == len(between)-1 && n == len(want))
						}
					}
					ok = ok && plus == 1
				}
				d.rep.check(ok, x, st, token.NoPos, "the pieces of the stored text are behind the minus sign, those of the received text behind the plus sign", nil, "%s: want %v, got %s", shape, want, out)
			})
		}
	}
	d.rep.must("the differences are from the stored to the received text", "a difference is shown", "the pieces of the stored text are behind the minus sign, those of the received text behind the plus sign")
}

// deChop names the text a piece without its last byte was cut from
func deChop(t *Term) *Term {
	if t.is("chop") || t.is("trimsuffix") && t.args[1] == Str("\n") {
		return t.args[0]
	}
	return t
}

// ruleSplit checks that cutting a text into lines loses nothing: the lines of the text with a newline put
// after it, each with its terminator.
func (d *Driver) ruleSplit() {
	fn := d.begin("SPLIT", snaps, "splitNewlines", "C13")
	if fn == nil {
		return
	}
	s := Sym("s")
	d.run(fn, &Mon{name: "SPLIT"}, []*Term{s}, newState(), func(x *Exec, o Out) {
		v := o.st.norm(x.content(o.st, o.vals[0]))
		nl := Str("\n")
		after, cut := App("splitafter", s, nl), App("split", s, nl)
		last := func(l *Term) *Term { return AddC(lenT(l), -1) }
		ok := v == App("upd", after, last(after), Concat(selT(after, last(after)), nl)) ||
			v == App("coll", cut, Concat(Elem, nl))
		if b := App("splitafter", Concat(s, nl), nl); v == sliceTerm(b, Int(0), last(b)) {
			ok = true
		}
		d.rep.check(ok, x, o.st, token.NoPos, "the lines of a text are the text, cut behind every newline, with a newline put after it", []string{"C13", "C02"}, "%s", v)
	})
	d.rep.must("the lines of a text are the text, cut behind every newline, with a newline put after it")
}

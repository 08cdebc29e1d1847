package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// fnTerm is the function value of a package function
func (d *Driver) fnTerm(pkg, name string) *Term {
	if f := d.p.fn(pkg, name); f != nil {
		return d.p.funcTerm(f)
	}
	return Sym("missing:" + name)
}

func fnIs(t, f *Term) bool { return t == f || t.op == "closure" && t.val == f.val || t.val == f.val }

// fork runs yes/no on the two refinements of st by t
func fork(st *State, t *Term, yes, no func(*State)) {
	switch st.eval(t) {
	case True:
		yes(st)
		return
	case False:
		no(st)
		return
	}
	for _, a := range st.clone().assume(t, true) {
		yes(a)
	}
	for _, b := range st.clone().assume(t, false) {
		no(b)
	}
}

// ---------------------------------------------------------------- examineSnaps

func (d *Driver) ruleExamineSnaps() {
	fn := d.begin("EXSNAPS", snaps, "examineSnaps", "C07", "C08", "C09", "C10")
	if fn == nil {
		return
	}
	// first as code that decides about an entry when it reads its header; then as code that reads the whole
	// file into a list and decides about its elements
	if d.attempt(func() { d.examineSnaps(fn, nil) }) {
		return
	}
	for i, f := range d.snapForms(fn) {
		if os.Getenv("AZ_FORM") == strconv.Itoa(i) { // debugging
			d.examineSnaps(fn, f)
			return
		}
		if d.attempt(func() { d.examineSnaps(fn, f) }) {
			return
		}
	}
	d.examineSnaps(fn, nil)
}

// attempt runs a rule; what it did is forgotten when it finds a violation
func (d *Driver) attempt(run func()) bool {
	r := d.rep
	viol, obl, oblP, shared := r.viol, r.obl, r.oblP, d.shared
	r.viol = map[string]*Violation{}
	r.obl = map[string]map[string]int{r.rule: {}}
	r.oblP = map[string][]string{}
	d.shared = nil
	run()
	good := len(r.viol) == 0
	nobl, noblP, nshared := r.obl[r.rule], r.oblP, d.shared
	r.viol, r.obl, r.oblP, d.shared = viol, obl, oblP, shared
	if !good {
		return false
	}
	if d.shared == nil {
		d.shared = nshared
	} else {
		for k, v := range nshared {
			d.shared[k] = append(d.shared[k], v...)
		}
	}
	for k, n := range nobl {
		r.obl[r.rule][k] += n
	}
	for k, ps := range noblP {
		for _, p := range ps {
			if !has(r.oblP[k], p) {
				r.oblP[k] = append(r.oblP[k], p)
			}
		}
	}
	return true
}

// snapForm is how the entries of a file are kept: as records, or as ids with a map of texts
type snapForm struct {
	rec      types.Type // nil: ids and a map
	id, body int
	names    [2]string
	kind     string // how the text is kept: "text", without its last newline ("joined") or as "lines"
	late     bool   // an id is noted when its entry ends
}

// snapForms lists the forms the code may use
func (d *Driver) snapForms(fn *ssa.Function) []*snapForm {
	res := []*snapForm{{}, {late: true}}
	seen := map[*ssa.Function]bool{}
	types_ := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil || f.Pkg != fn.Pkg && f.Parent() == nil {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					if sl, ok := v.Type().Underlying().(*types.Slice); ok && !types_[typeName(sl.Elem())] {
						if rec := structOf(sl.Elem()); rec != nil {
							types_[typeName(sl.Elem())] = true
							res = append(res, recForms(sl.Elem(), rec)...)
						}
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return res
}

// recForms lists the ways a record may hold an entry
func recForms(t types.Type, rec *types.Struct) []*snapForm {
	var res []*snapForm
	for i := 0; i < rec.NumFields(); i++ {
		if !isText(rec.Field(i).Type()) {
			continue
		}
		for j := 0; j < rec.NumFields(); j++ {
			n := [2]string{rec.Field(i).Name(), rec.Field(j).Name()}
			sl, lines := rec.Field(j).Type().Underlying().(*types.Slice)
			switch {
			case i == j:
			case isText(rec.Field(j).Type()):
				for _, k := range []string{"text", "joined"} {
					res = append(res, &snapForm{rec: t, id: i, body: j, names: n, kind: k})
				}
			case lines && isText(sl.Elem()):
				res = append(res, &snapForm{rec: t, id: i, body: j, names: n, kind: "lines"})
			}
		}
	}
	return res
}

// isText: a string or a list of bytes
func isText(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		b, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// elem is the element of the list for an entry
func (f *snapForm) elem(id, body *Term) *Term {
	if f.rec == nil {
		return id
	}
	rec := structOf(f.rec)
	fs := make([]*Term, rec.NumFields())
	for i := range fs {
		fs[i] = zeroOf(rec.Field(i).Type())
	}
	fs[f.id], fs[f.body] = id, body
	return mkStruct(f.rec, fs)
}

func (f *snapForm) idOf(e *Term) *Term {
	if f.rec == nil {
		return e
	}
	return fieldOf(e, f.id, f.names[0])
}

func (f *snapForm) bodyOf(e *Term) *Term { return fieldOf(e, f.body, f.names[1]) }

func (d *Driver) examineSnaps(fn *ssa.Function, form *snapForm) {
	reg, used, run, count, update, srt := Sym("registry"), Sym("used"), Sym("runOnly"), Sym("count"), Sym("update"), Sym("sort")
	frm := d.fnTerm(snaps, "snapshotOccurrenceFMT")
	st := newState()
	st.setg(gMode, Str("none"))
	st.setg("n", Int(0))
	st.setg("obs", mk("seq", "", 0, nil))
	reset := func(st *State) {
		st.setg("ids", mk("seq", "", 0, nil))
		st.setg("kids", mk("seq", "", 0, nil))
		st.setg("bodies", App("emptymap"))
		st.setg("acc", Empty)
		st.setg("cur", Empty)
		st.setg("diff", False)
		st.setg("fobs", emptySeq)
		st.setg("obs0", st.g("obs"))
		if form != nil {
			st.setg("el", Nil)
			st.setg("pos", Int(0))
			st.setg("lines", emptySeq)
		}
	}
	reset(st)
	st.setg("path", Nil)
	st.setg("scanner", Nil)
	st.setg("file", Nil)
	var outer *loop
	var cmp *Term
	getCmp := func(x *Exec, st *State) *Term {
		if cmp == nil {
			cmp = x.cmpTerm(newState(), d.fnTerm(snaps, "naturalSort"), symA, symB)
			if form != nil {
				cmp = subst(cmp, map[*Term]*Term{symA: form.idOf(symA), symB: form.idOf(symB)})
			}
		}
		return cmp
	}
	// the registered ids of a file
	occOf := func(st *State, path *Term) *Term {
		mc := App("mc", reg)
		if st.eval(App("maphas", mc, path)) == False {
			return App("occ", Nil, count)
		}
		return App("occ", App("mapval", mc, path), count)
	}
	// judge decides about an element of the list of entries (form only)
	judge := func(x *Exec, st *State, pos token.Pos) {
		if form == nil || st.g("el") == Nil {
			return
		}
		e := st.g("el")
		st.setg("el", Nil)
		id := st.norm(form.idOf(e))
		stale := and3(st.tri(App("maphas", occOf(st, st.g("path")), id)).not(), st.tri(App("skipped", id, run)).not())
		rm := and3(stale, st.tri(update))
		d.rep.check(rm != maybe && stale != maybe, x, st, pos, "an entry is stale iff it is neither live nor protected", nil, "%s", stale)
		one := mk("seq", "", 0, nil, e)
		if stale == yes {
			st.setg("obs", seqcatT(st.g("obs"), mk("seq", "", 0, nil, id)))
			st.setg("fobs", seqcatT(st.g("fobs"), mk("seq", "", 0, nil, id)))
			st.setg("diff", True)
		}
		if rm == no {
			st.setg("kids", seqcatT(st.g("kids"), one))
		}
	}
	// counts notes what holds by construction of the ghosts: what is stale in all files is what was stale
	// before and what is stale in this one, and every entry judged is either kept or removed
	counts := func(st *State) {
		sameParts(st, "obs", "obs0", "fobs")
		ids, kids, pos, fobs := lenT(st.g("ids")), lenT(st.g("kids")), st.g("pos"), lenT(st.g("fobs"))
		st.known(Le(pos, ids))
		if st.holds(Le(ids, pos)) {
			pos = ids
		}
		st.known(Le(kids, pos))
		if st.g("diff") == True {
			st.known(Le(Int(1), fobs))
		}
		switch {
		case st.g("diff") == False || st.holds(Not(update)):
			st.known(Le(pos, kids))
		case st.holds(update):
			st.known(Le(Add(kids, fobs), pos))
			st.known(Le(pos, Add(kids, fobs)))
			if st.g("diff") == True {
				st.known(Lt(kids, pos))
			}
		}
	}
	// verdict: called when the work on a file is over
	quiet := false // only ask whether the verdict is good
	good := true
	verdict := func(x *Exec, st *State, pos token.Pos) {
		if st.g("file") == Nil {
			return
		}
		check := func(ok bool, what string, props []string, f string, args ...any) {
			if quiet {
				good = good && ok
				return
			}
			d.rep.check(ok, x, st, pos, what, props, f, args...)
		}
		if m := st.g(gMode).val; m != "eof" {
			check(false, "a file is left before it was read to its end", nil, "in state %s", m)
			return
		}
		if form != nil {
			judge(x, st, pos)
			counts(st)
			check(st.holds(Le(lenT(st.g("ids")), st.g("pos"))), "every entry of the file is judged", nil, "%s of %s", st.g("pos"), st.g("ids"))
		}
		f := st.g("file")
		c := getCmp(x, st)
		wrote := fattr(st, f, "trunc") == True || fattr(st, f, "text") != Empty
		must := st.holds(update) && st.g("diff") == True
		need, known := must, must || st.holds(Not(update)) || st.g("diff") == False
		if !need {
			sorted := false
			unsorted := false
			for _, ids := range []*Term{st.g("ids"), st.g("kids")} {
				t := App("issorted", ids, c)
				sorted = sorted || st.holds(t)
				unsorted = unsorted || st.holds(Not(t))
			}
			switch {
			case st.holds(srt) && unsorted:
				need = true
			case st.holds(Not(srt)), sorted:
			default:
				known = false
			}
		}
		if wrote {
			check(need, "a file is rewritten only when pruning or sorting requires it", []string{"C05", "C07", "C09", "C10"}, "update %s, stale found %s", update, st.g("diff"))
			check(fattr(st, f, "trunc") == True && fattr(st, f, "pos0") == True, "a rewritten file is truncated and rewound", nil, "")
			text := st.simp(fattr(st, f, "text"))
			ok := false
			var first *Term
			for _, order := range []string{"sorted", "plain"} {
				if order == "plain" && st.holds(srt) && !must {
					continue // sorting is why the file is rewritten
				}
				if order == "plain" && st.holds(srt) {
					is := false
					for _, ids := range []*Term{st.g("ids"), st.g("kids")} {
						is = is || st.holds(App("issorted", ids, c))
					}
					if !is {
						continue
					}
				}
				if order == "sorted" && !st.holds(srt) {
					continue
				}
				for _, w := range d.rewritten(st, c, order, form) {
					if first == nil {
						first = w
					}
					ok = ok || text == st.simp(w)
				}
			}
			check(ok, "a rewritten file holds exactly the surviving entries, in natural order when sorted", nil, "writes %s\n    expected e.g. %s", text, first)
		} else {
			check(known && !need, "a file that needs pruning or sorting is rewritten", []string{"C09", "C10"}, "left alone although stale=%s", st.g("diff"))
		}
	}
	leave := func(st *State) {
		st.setg("file", Nil)
		st.setg("path", Nil)
		st.setg("scanner", Nil)
		st.setg(gMode, Str("none"))
		reset(st)
	}
	checked := map[*Term]bool{}
	mon := &Mon{name: "EXSNAPS"}
	mon.scan = func(x *Exec, st *State, sc, l *Term, pos token.Pos) []*State {
		path := st.g("path")
		if !checked[sc] {
			d.scanSource(x, st, sc, path, pos, nil)
		}
		if l == nil {
			st.setg(gMode, Str("eof"))
			st.setg("acc", Empty)
			st.setg("cur", Empty)
			return []*State{st}
		}
		if form != nil {
			return form.read(d, x, st, l, pos)
		}
		var res []*State
		put := func(s *State) { res = append(res, s) }
		app := func(s *State, g string, e *Term) { s.setg(g, seqcatT(s.g(g), mk("seq", "", 0, nil, e))) }
		switch st.g(gMode).val {
		case "none", "eof":
			d.rep.bad(x, st, pos, "reads past the end of the file", nil, "")
			put(st)
		case "out":
			fork(st, isID(l), func(s *State) {
				id := s.norm(idName(l))
				app(s, "ids", id)
				keep := func(s *State) {
					app(s, "kids", id)
					s.setg(gMode, Str("keep"))
					s.setg("acc", Empty)
					s.setg("cur", id)
					put(s)
				}
				stale := func(s *State) {
					app(s, "obs", id)
					app(s, "fobs", id)
					s.setg("diff", True)
					fork(s, update, func(s *State) {
						s.setg(gMode, Str("drop"))
						put(s)
					}, keep)
				}
				fork(s, App("maphas", App("mc", reg), path), func(s *State) {
					fork(s, App("maphas", occOf(s, path), id), keep, func(s *State) {
						fork(s, App("skipped", id, run), keep, stale)
					})
				}, func(s *State) {
					fork(s, App("maphas", occOf(s, path), id), keep, func(s *State) {
						fork(s, App("skipped", id, run), keep, stale)
					})
				})
			}, put)
		case "keep":
			fork(st, Eq(l, End), func(s *State) {
				s.setg("bodies", App("mapupd", s.g("bodies"), s.g("cur"), s.g("acc")))
				s.setg(gMode, Str("out"))
				s.setg("acc", Empty)
				s.setg("cur", Empty)
				put(s)
			}, func(s *State) {
				s.setg("acc", Concat(s.g("acc"), l, Str("\n")))
				put(s)
			})
		case "drop":
			fork(st, Eq(l, End), func(s *State) {
				s.setg(gMode, Str("out"))
				put(s)
			}, put)
		}
		return res
	}
	if form != nil {
		mon.index = func(x *Exec, st *State, s, i *Term, pos token.Pos) {
			if st.g(gMode).val != "eof" {
				return
			}
			if st.norm(x.content(st, s)) != st.norm(st.g("ids")) {
				return
			}
			e := st.norm(selT(st.g("ids"), i))
			if e == st.g("el") {
				return
			}
			judge(x, st, pos)
			if st.norm(selT(st.g("ids"), st.g("pos"))) == e {
				st.setg("el", e)
				st.setg("pos", AddC(st.g("pos"), 1))
			}
		}
		mon.exit = func(x *Exec, st *State, l *loop, pos token.Pos) {
			if st.g(gMode).val == "eof" {
				judge(x, st, pos)
				counts(st)
			}
		}
	}
	mon.scanEnd = func(x *Exec, st *State) []*State {
		if form != nil {
			return []*State{st}
		}
		// by construction of the ghosts: what is stale in all files is what was stale before and
		// what is stale in this one
		sameParts(st, "obs", "obs0", "fobs")
		if st.g("diff") == True {
			return st.assume(Eq(st.g("fobs"), Empty), false)
		}
		return []*State{st}
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) {
		if outer == nil || l.head != outer.head {
			judge(x, st, pos)
			return
		}
		verdict(x, st, pos)
		leave(st)
	}
	mon.call = chainCall(noteScanner, idHook, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		switch c.name {
		case "snaps.occurrences":
			path := st.g("path")
			m := st.norm(c.args[0])
			okm := m == App("mapval", App("mc", reg), path) || (m == Nil || x.mapContent(st, m).is("emptymap")) && st.holds(Not(App("maphas", App("mc", reg), path)))
			d.rep.check(okm, x, st, c.pos, "live ids come from the registry of the file examined", nil, "occurrences(%s) for %s", m, path)
			d.rep.check(c.args[1] == count && fnIs(c.args[2], frm), x, st, c.pos, "live ids are formatted like the ids written", nil, "%s, %s", c.args[1], c.args[2])
			if m != App("mapval", App("mc", reg), path) {
				m = Nil
			}
			return one(st, x.newObj(st, "occ", App("occ", m, count))), true
		case "snaps.testSkipped":
			d.rep.check(st.norm(c.args[1]) == run, x, st, c.pos, "skip protection uses the -run filter", []string{"C08", "C09"}, "%s", c.args[1])
			return one(st, App("skipped", st.norm(c.args[0]), st.norm(c.args[1]))), true
		case "write": // writes to an open file succeed (assumption)
			f := c.args[0]
			if f != st.g("file") {
				d.rep.bad(x, st, c.pos, "writes to something other than the file examined", nil, f.String())
			}
			setFattr(st, f, "text", Concat(fattr(st, f, "text"), st.norm(c.args[1])))
			return one(st, lenT(c.args[1]), Nil), true
		case "(*os.File).Close":
			// the facts that decide the verdict may be gone when the file's turn is over
			if f := st.norm(c.args[0]); f == st.g("file") && st.g(gMode).val == "eof" {
				quiet, good = true, true
				verdict(x, st, c.pos)
				quiet = false
				if good {
					verdict(x, st, c.pos)
					leave(st)
				}
			}
		case "os.OpenFile", "os.Open", "os.ReadFile":
			outer = nil
			if n := len(x.loopStk); n > 0 {
				outer = x.loopStk[n-1]
			}
		}
		return nil, false
	}, d.fileHook(func(x *Exec, st *State, c *CallInfo, what string, p, f *Term) {
		if c.name == "os.WriteFile" && p == st.g("path") && st.g("file") == App("file", p) {
			st.setg("file", f) // the file read at once is written at once
			if what == "create" {
				return
			}
		}
		switch what {
		case "truncate", "write":
			d.rep.check(p == st.g("path") && f == st.g("file"), x, st, c.pos, "the file rewritten is the one examined", nil, "%s", p)
			d.rep.check(st.g(gMode).val == "eof", x, st, c.pos, "the file is read completely before it is rewritten", nil, "")
			d.readWhole(x, st, c.pos)
			d.rep.check(st.holds(update) || st.holds(srt), x, st, c.pos, "a file is modified only when updating or sorting is allowed", []string{"C05", "C09"}, "")
		default:
			d.rep.bad(x, st, c.pos, "modifies the file system: "+what, []string{"C05", "C09", "C07"}, "")
		}
	}))
	inner := mon.call
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		outs, ok := inner(x, st, c)
		if c.name == "os.ReadFile" {
			outs, ok = models[c.name](x, st, c), true
		}
		if c.name == "os.OpenFile" || c.name == "os.Open" || c.name == "os.ReadFile" {
			for i, o := range outs {
				path := o.st.norm(x.value(o.st, c.args[0]))
				okp := path == o.st.norm(selT(used, o.st.g("n"))) && o.st.g("file") == Nil
				d.rep.check(okp, x, o.st, c.pos, "every used file is examined once, in order", nil, "opens %s as number %s", path, o.st.g("n"))
				if i > 0 {
					continue
				}
				s := o.st
				s.setg("path", path)
				s.setg("file", o.vals[0])
				if c.name == "os.ReadFile" {
					f := App("file", path)
					s.setg("file", f)
					setFattr(s, f, "text", Empty)
				}
				s.setg("n", AddC(s.g("n"), 1))
				s.setg(gMode, Str("out"))
				reset(s)
			}
		}
		return outs, ok
	}
	end := func(x *Exec, o Out) {
		st := o.st
		switch isErr(st, o.vals[1]) {
		case 1:
			verdict(x, st, token.NoPos)
			d.rep.check(!anyErrAtom(st, "scanerr"), x, st, token.NoPos, "a read error is not ignored", []string{"C10"}, "")
			d.rep.check(st.holds(Le(lenT(used), st.g("n"))), x, st, token.NoPos, "every used file is examined", []string{"C09", "C10"}, "examined %s", st.g("n"))
			got := x.value(st, x.content(st, o.vals[0]))
			d.rep.check(sameSeq(st, got, st.g("obs")), x, st, token.NoPos, "exactly the stale ids are reported", []string{"C07", "C08", "C09", "C20"}, "returns %s, stale are %s", got, st.g("obs"))
		case -1:
			d.rep.ok("failure is reported")
		default:
			d.rep.bad(x, st, token.NoPos, "success or failure is not reported", nil, o.vals[1].String())
		}
	}
	starts := []*State{st}
	if form != nil { // whether to remove is settled first
		starts = append(st.clone().assume(update, true), st.clone().assume(update, false)...)
	}
	for _, st := range starts {
		d.run(fn, mon, []*Term{reg, used, run, count, update, srt}, st, end)
	}
	d.rep.must("a rewritten file holds exactly the surviving entries, in natural order when sorted", "a file that needs pruning or sorting is rewritten", "exactly the stale ids are reported")
}

// read follows the lines of a file into the list of its entries
func (f *snapForm) read(d *Driver, x *Exec, st *State, l *Term, pos token.Pos) []*State {
	var res []*State
	put := func(s *State) { res = append(res, s) }
	app := func(s *State, g string, e *Term) { s.setg(g, seqcatT(s.g(g), mk("seq", "", 0, nil, e))) }
	switch st.g(gMode).val {
	case "none", "eof":
		d.rep.bad(x, st, pos, "reads past the end of the file", nil, "")
		put(st)
	case "out":
		fork(st, isID(l), func(s *State) {
			id := s.norm(idName(l))
			if f.rec == nil && !f.late {
				app(s, "ids", id)
			}
			s.setg(gMode, Str("keep"))
			s.setg("acc", Empty)
			s.setg("lines", emptySeq)
			s.setg("cur", id)
			put(s)
		}, put)
	case "keep":
		fork(st, Eq(l, End), func(s *State) {
			body := s.g("acc")
			switch f.kind {
			case "joined":
				body = joinT(s.g("lines"), Str("\n"))
			case "lines":
				body = s.g("lines")
			}
			if f.rec == nil {
				s.setg("bodies", App("mapupd", s.g("bodies"), s.g("cur"), body))
			}
			if f.rec != nil || f.late {
				app(s, "ids", f.elem(s.g("cur"), body))
			}
			s.setg(gMode, Str("out"))
			s.setg("acc", Empty)
			s.setg("lines", emptySeq)
			s.setg("cur", Empty)
			put(s)
		}, func(s *State) {
			s.setg("acc", Concat(s.g("acc"), l, Str("\n")))
			app(s, "lines", l)
			put(s)
		})
	}
	return res
}

// known notes a fact that holds by construction
func (st *State) known(t *Term) {

	// also when it follows from the other facts: those may be lost where paths merge
	n, v := st.norm(t), true
	if n.op == "not" {
		n, v = n.args[0], false
	}
	if e := st.eval(n); n.op == "le0" && e != Bool(!v) {
		st.facts[n] = v
	}
}

// sameParts: the ghost sequence all is known to be first followed by last
func sameParts(st *State, all, first, last string) {
	split := func(t *Term) []*Term {
		if t.is("seqcat") {
			return t.args
		}
		return []*Term{t}
	}
	a, b := split(st.norm(st.g(all))), split(st.norm(st.g(last)))
	for len(a) > 1 && len(b) > 1 && a[len(a)-1] == b[len(b)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	want := seqcatT(append([]*Term{st.norm(st.g(first))}, b...)...)
	if len(a) == 1 && a[0].op == "phi" && !contains(want, a[0]) {
		st.rep[a[0]] = want
		st.renorm()
	}
}

// sameSeq compares sequences, nil and empty being the same
func sameSeq(st *State, a, b *Term) bool {
	e := func(t *Term) *Term {
		t = st.simp(t)
		if t.op == "seq" && len(t.args) == 0 || t.is("zeroseq") && t.args[0] == Int(0) {
			return Nil
		}
		return t
	}
	return e(a) == e(b) || st.holds(Eq(e(a), e(b)))
}

// rewritten lists the forms the text of a rewritten file may take
func (d *Driver) rewritten(st *State, cmp *Term, order string, form *snapForm) []*Term {
	var res []*Term
	b := st.g("bodies")
	if form != nil && form.rec != nil {
		bodies := []*Term{Concat(form.bodyOf(Elem), Str("---\n"))}
		switch form.kind {
		case "joined":
			bodies = []*Term{Concat(form.bodyOf(Elem), Str("\n---\n"))}
		case "lines":
			bodies = []*Term{Concat(joinT(form.bodyOf(Elem), Str("\n")), Str("\n---\n"))}
		}
		for _, g := range []string{"ids", "kids"} {
			s := st.g(g)
			if g == "ids" && st.g("diff") != False && !st.holds(Not(Sym("update"))) {
				continue
			}
			if order == "sorted" {
				s = App("sorted", s, cmp)
			}
			for _, body := range bodies {
				res = append(res, App("catmap", s, Concat(Str("\n["), form.idOf(Elem), Str("]\n"), body)))
			}
		}
		return res
	}
	for _, g := range []string{"ids", "kids"} {
		ids := st.g(g)
		if form != nil && g == "ids" && st.g("diff") != False && !st.holds(Not(Sym("update"))) {
			continue // the texts of stale entries are there as well
		}
		for _, v := range []*Term{App("mapval", b, Elem), App("mapget", b, Elem)} {
			e := Concat(Str("\n["), Elem, Str("]\n"), v, Str("---\n"))
			s := ids
			if order == "sorted" {
				s = App("sorted", ids, cmp)
			}
			if g == "ids" {
				e = Ite(App("maphas", b, Elem), e, Empty)
			}
			res = append(res, App("catmap", s, e))
			if g == "kids" {
				res = append(res, App("catmap", s, Ite(App("maphas", b, Elem), e, Empty)))
			}
		}
	}
	return res
}

// ---------------------------------------------------------------- examineFiles

// tri is a three-valued formula over the facts of a path
type tri int

const (
	no tri = iota - 1
	maybe
	yes
)

func (st *State) tri(t *Term) tri {
	switch st.eval(t) {
	case True:
		return yes
	case False:
		return no
	}
	return maybe
}

func (a tri) not() tri { return -a }
func and3(ts ...tri) tri {
	r := yes
	for _, t := range ts {
		if t < r {
			r = t
		}
	}
	return r
}

func or3(ts ...tri) tri {
	r := no
	for _, t := range ts {
		if t > r {
			r = t
		}
	}
	return r
}

func (t tri) String() string { return map[tri]string{no: "no", maybe: "undetermined", yes: "yes"}[t] }

func (d *Driver) ruleExamineFiles() {
	fn := d.begin("EXFILES", snaps, "examineFiles", "C07", "C08", "C09")
	if fn == nil {
		return
	}
	for _, update := range []bool{true, false} {
		d.examineFiles(fn, update)
	}
	d.rep.must("exactly the obsolete files are reported", "exactly the obsolete files are removed, and only when updating", "every file of a visited directory is examined", "the directory of every addressed file is visited", "files are removed only when updating")
}

// examineFiles judges every directory entry. The ghost lists: what is obsolete and what is used,
// so far (obs, used), in the current directory (dobs, dused) and before it (obs0, used0); what
// is obsolete and still to be removed, in the current directory (pend) and before it (pall),
// with the number of those removed so far (dn, an).
func (d *Driver) examineFiles(fn *ssa.Function, update bool) {
	reg, sta, run, upd := Sym("registry"), Sym("standalone"), Sym("runOnly"), Sym("shouldUpdate")
	mreg, msta := App("mc", reg), App("mc", sta)
	st := newState()
	for g, v := range map[string]*Term{"dpend": Nil, "dirs": Nil, "dir": Nil, "ents": Nil, "ent": Nil, "removed": False, "doneR": False, "doneS": False, "n": Int(0),
		"dlist": emptySeq,
		"used":  emptySeq, "used0": emptySeq, "dused": emptySeq, "obs": emptySeq, "obs0": emptySeq, "dobs": emptySeq,
		"pend": emptySeq, "pall": emptySeq, "dn": Int(0), "an": Int(0)} {
		st.setg(g, v)
	}
	ss := st.assume(upd, update)
	if len(ss) == 0 {
		return
	}
	st = ss[0]
	dirOf := func(k *Term) *Term { return App("filepath.Dir", k) }
	name := func(e *Term) *Term { return App("entname", e) }
	app := func(s *State, g string, e *Term) { s.setg(g, seqcatT(s.g(g), mk("seq", "", 0, nil, e))) }
	// verdict on the directory entry handled last
	verdict := func(x *Exec, st *State, pos token.Pos) {
		e := st.g("ent")
		if e == Nil {
			return
		}
		dir := st.g("dir")
		path := joinPath([]*Term{dir, name(e)})
		item := and3(st.tri(App("isdir", e)).not(), st.tri(containsT(name(e), Str(".snap"))))
		inReg, inSta := st.tri(App("maphas", mreg, path)), st.tri(App("maphas", msta, path))
		prot := or3(st.tri(App("fileskipped", dir, name(e), run)), st.tri(App("hasskipped", path, run)))
		used := and3(item, inReg)
		obs := and3(item, inReg.not(), inSta.not(), prot.not())
		rm := and3(obs, st.tri(upd))
		d.rep.check(used != maybe, x, st, pos, "whether a file was addressed is decided by the registry", []string{"C07", "C09"}, "directory entry: is a .snap file: %s, registered: %s", item, inReg)
		d.rep.check(obs != maybe, x, st, pos, "a file is obsolete iff it is an unaddressed, unprotected .snap file", nil, "is a .snap file: %s, registered: %s, standalone: %s, protected: %s", item, inReg, inSta, prot)
		if obs != maybe {
			d.rep.check((rm == yes || st.g("removed") != True) && rm != maybe, x, st, pos, "exactly the obsolete files are removed, and only when updating", []string{"C05", "C07", "C08", "C09"}, "obsolete: %s, update: %s, removed: %s", obs, st.tri(upd), st.g("removed"))
			if rm == yes && st.g("removed") != True {
				app(st, "pend", path)
			}
		}
		if used == yes {
			app(st, "used", path)
			app(st, "dused", path)
		}
		if obs == yes {
			app(st, "obs", path)
			app(st, "dobs", path)
		}
		st.setg("ent", Nil)
		st.setg("removed", False)
	}
	touch := func(x *Exec, st *State, e *Term, pos token.Pos) {
		if e == st.g("ent") {
			return
		}
		verdict(x, st, pos)
		if st.g("ents") != Nil && e == st.norm(selT(st.g("ents"), st.g("n"))) {
			st.setg("n", AddC(st.g("n"), 1))
			st.setg("ent", e)
			return
		}
		d.rep.bad(x, st, pos, "directory entries are examined in order, each once", []string{"C09"}, e.String()+" as number "+st.g("n").String())
	}
	leaveDir := func(x *Exec, st *State, pos token.Pos) {
		verdict(x, st, pos)
		if e := st.g("ents"); e != Nil {
			d.rep.check(st.holds(Le(lenT(e), st.g("n"))), x, st, pos, "every file of a visited directory is examined", []string{"C09"}, "examined %s", st.g("n"))
		}
		sameParts(st, "obs", "obs0", "dobs")
		sameParts(st, "used", "used0", "dused")
		st.setg("obs0", st.g("obs"))
		st.setg("used0", st.g("used"))
		if st.g("pend") != emptySeq && !st.holds(Le(lenT(st.g("pend")), st.g("dn"))) {
			st.setg("pall", seqcatT(st.g("pall"), st.g("pend")))
			if st.g("dn") != Int(0) {
				d.rep.bad(x, st, pos, "exactly the obsolete files are removed, and only when updating", []string{"C05", "C07", "C08", "C09"}, fmt.Sprintf("removed %s of %s", st.g("dn"), st.g("pend")))
			}
		}
		for _, g := range []string{"dobs", "dused", "pend"} {
			st.setg(g, emptySeq)
		}
		st.setg("dn", Int(0))
		st.setg("ents", Nil)
		st.setg("dir", Nil)
		st.setg("n", Int(0))
	}
	mon := &Mon{name: "EXFILES"}
	mon.next = func(x *Exec, st *State, m, k *Term, pos token.Pos) {
		switch m {
		case reg, sta:
			st.setg("dpend", k)
		default:
			st.setg("dirs", m)
			st.setg("dir", k)
			app(st, "dlist", k)
		}
	}
	mon.exhaust = func(x *Exec, st *State, s *Term, pos token.Pos) {
		switch s {
		case reg:
			st.setg("doneR", True)
		case sta:
			st.setg("doneS", True)
		}
	}
	var dloop *loop
	mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
		if m == reg || m == sta {
			d.rep.bad(x, st, pos, "the registry is modified", nil, "")
			return
		}
		if p := st.g("dpend"); p != Nil && k == dirOf(p) {
			st.setg("dpend", Nil)
			st.setg("dirs", m)
			d.rep.ok("the directory of every addressed file is visited")
			return
		}
		d.rep.bad(x, st, pos, "only directories of addressed files are visited", []string{"C09"}, "adds "+k.String())
	}
	mon.index = func(x *Exec, st *State, s, i *Term, pos token.Pos) {
		s = st.norm(x.content(st, s))
		l := st.g("dlist")
		keysOf := s
		if s.is("sorted") {
			keysOf = s.args[0]
		}
		if s != emptySeq && (keysOf == l || keysOf.is("mapkeys")) {
			st.setg("dirs", s)
			st.setg("dir", st.norm(selT(s, i)))
		}
		if s == st.g("ents") {
			touch(x, st, st.norm(selT(s, i)), pos)
		}
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) {
		if st.g("dpend") != Nil {
			d.rep.bad(x, st, pos, "the directory of every addressed file is visited", []string{"C09"}, "none for "+st.g("dpend").String())
			st.setg("dpend", Nil)
		}
		if dloop != nil && l != nil && l.head == dloop.head {
			leaveDir(x, st, pos)
		} else {
			verdict(x, st, pos)
		}
	}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
		switch c.name {
		case "os.ReadDir":
			if n := len(x.loopStk); n > 0 {
				dloop = x.loopStk[n-1]
			}
			dir := val(0)
			d.rep.check(dir == st.g("dir") && st.g("dirs") != Nil, x, st, c.pos, "only directories of addressed files are visited", []string{"C09"}, "%s", dir)
			d.rep.check(st.g("doneR") == True && st.g("doneS") == True, x, st, c.pos, "directories of multi-entry and of standalone files are collected first", []string{"C09"}, "")
			outs := models["os.ReadDir"](x, st, c)
			for _, o := range outs {
				o.st.setg("ents", o.vals[0])
				o.st.setg("n", Int(0))
			}
			return outs, true
		case "(io/fs.DirEntry).IsDir", "(os.DirEntry).IsDir":
			touch(x, st, val(0), c.pos)
			return one(st, App("isdir", val(0))), true
		case "(io/fs.DirEntry).Name", "(os.DirEntry).Name":
			touch(x, st, val(0), c.pos)
			return one(st, name(val(0))), true
		case "(io/fs.DirEntry).Type", "(os.DirEntry).Type":
			return one(st, App("enttype", val(0))), true
		case "(io/fs.FileMode).IsDir":
			if val(0).is("enttype") {
				return one(st, App("isdir", val(0).args[0])), true
			}
		case "snaps.isFileSkipped":
			return one(st, App("fileskipped", val(0), val(1), val(2))), true
		case "snaps.hasSkippedTests":
			return one(st, App("hasskipped", val(0), val(1))), true
		case "os.Remove":
			e := st.g("ent")
			path := val(0)
			d.rep.check(st.holds(upd), x, st, c.pos, "files are removed only when updating", []string{"C05", "C09"}, "")
			if e != Nil && path == joinPath([]*Term{st.g("dir"), name(e)}) {
				st.setg("removed", True)
			} else {
				verdict(x, st, c.pos)
				switch path {
				case st.norm(selT(st.g("pend"), st.g("dn"))):
					st.setg("dn", AddC(st.g("dn"), 1))
				case st.norm(selT(st.g("pall"), st.g("an"))):
					st.setg("an", AddC(st.g("an"), 1))
				default:
					d.rep.bad(x, st, c.pos, "the file removed is the one judged", []string{"C05", "C07", "C08", "C09"}, "removes "+path.String())
				}
			}
			return models["os.Remove"](x, st, c), true
		case "stdout":
			return one(st), true
		}
		if e := fsEffect(x, st, c); e != "" {
			d.rep.bad(x, st, c.pos, "modifies the file system: "+e, []string{"C05", "C09", "C07"}, "")
		}
		return nil, false
	}
	d.run(fn, mon, []*Term{reg, sta, run, upd}, st, func(x *Exec, o Out) {
		st := o.st
		leaveDir(x, st, token.NoPos)
		d.rep.check(st.g("pall") == emptySeq || st.holds(Le(lenT(st.g("pall")), st.g("an"))), x, st, token.NoPos, "exactly the obsolete files are removed, and only when updating", []string{"C05", "C07", "C08", "C09"}, "removed %s of %s", st.g("an"), st.g("pall"))
		ob, us := x.value(st, x.content(st, o.vals[0])), x.value(st, x.content(st, o.vals[1]))
		d.rep.check(sameSeq(st, ob, st.g("obs")), x, st, token.NoPos, "exactly the obsolete files are reported", []string{"C07", "C08", "C09", "C20"}, "returns %s, obsolete are %s", ob, st.g("obs"))
		d.rep.check(sameSeq(st, us, st.g("used")), x, st, token.NoPos, "exactly the addressed files are examined further", []string{"C07", "C09", "C10"}, "returns %s, used are %s", us, st.g("used"))
	})
}

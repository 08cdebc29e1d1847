package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- the ordinal registries

type regKind struct {
	typ        string
	standalone bool
}

var regKinds = []regKind{{"syncRegistry", false}, {"syncStandaloneRegistry", true}}

// mapFields lists the map fields of a struct type of package snaps
func (d *Driver) mapFields(typ string) (idx []int, names []string) {
	tn, ok := d.p.pkgs[snaps].Members[typ].(*ssa.Type)
	if !ok {
		return
	}
	s := structOf(tn.Type())
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			idx = append(idx, i)
			names = append(names, s.Field(i).Name())
		}
	}
	return
}

// ruleRegistry analyses getTestID and reset of both registries. A field plays the role of the
// running ordinal (R) when every call returns R's new value, one more than before, and reset zeroes
// exactly it; it plays the role of the highest ordinal (H) when every call raises it to the ordinal
// handed out and nothing lowers it.
func (d *Driver) ruleRegistry() {
	d.highest = map[bool]map[string]bool{}
	for _, k := range regKinds {
		d.registry(k)
	}
}

func (d *Driver) registry(k regKind) {
	get := d.begin("REGISTRY", snaps, k.typ+".getTestID", "C03", "C07", "C01", "C04")
	if get == nil {
		return
	}
	idx, names := d.mapFields(k.typ)
	if k.standalone {
		d.rep.rules["REGISTRY"] = append(d.rep.rules["REGISTRY"], "C19")
	}
	reg, path, name, rel := Sym("registry"), Sym("snapPath"), Sym("testName"), Sym("snapPathRel")
	key := name
	if k.standalone {
		key = path
	}
	isR, isH := map[string]bool{}, map[string]bool{}
	for _, n := range names {
		isR[n], isH[n] = true, true
	}
	tn := d.p.pkgs[snaps].Members[k.typ].(*ssa.Type)
	sty := structOf(tn.Type())
	// one prepares the initial state
	type before struct {
		m, inner, old *Term
	}
	prep := func(have bool) (*State, map[string]before) {
		x := d.newExec(get, &Mon{name: "prep"})
		st := newState()
		bs := map[string]before{}
		for j, i := range idx {
			m := x.load(st, fa(reg, i, names[j]), sty.Field(i).Type())
			b := before{m: m}
			if k.standalone {
				st = st.assume(App("maphas", App("mc", m), key), have)[0]
				b.old = Int(0)
				if have {
					b.old = App("mapval", App("mc", m), key)
				}
			} else {
				st = st.assume(App("maphas", App("mc", m), path), have)[0]
				b.old = Int(0)
				if have {
					b.inner = App("mapval", App("mc", m), path)
					// a registered path has its map of ordinals
					st = st.assume(Eq(b.inner, Nil), false)[0]
					b.old = App("mapget", App("mc", b.inner), key)
				}
			}
			st = st.assume(Le(Int(0), b.old), true)[0]
			bs[names[j]] = b
		}
		return st, bs
	}
	// after reads the value of a field for the key
	after := func(x *Exec, st *State, j int, b before) (v, inner, m *Term) {
		m = x.load(st, fa(reg, idx[j], names[j]), sty.Field(idx[j]).Type())
		v, inner = Nil, m
		one := func(c, k *Term, zero *Term) *Term {
			for (c.is("mapupd") || c.is("mapdel")) && st.eval(Eq(strip(k), strip(c.args[1]))) == False {
				c = c.args[0]
			}
			switch {
			case c.is("mapdel") && st.eval(Eq(strip(k), strip(c.args[1]))) == True:
				return zero
			case c.is("emptymap"):
				return zero
			case c.is("mapupd") && st.eval(Eq(strip(k), strip(c.args[1]))) == True:
				return c.args[2]
			case c.is("mc"):
				switch st.eval(App("maphas", c, k)) {
				case False:
					return zero
				case True:
					return App("mapval", c, k)
				}
				return App("mapget", c, k)
			}
			return App("?", c, k)
		}
		if !k.standalone {
			inner = one(x.mapContent(st, m), path, Nil)
		}
		v = st.norm(one(x.mapContent(st, inner), key, Int(0)))
		return
	}
	// others: the ordinals of another test and of another file after the call
	name2, path2 := Sym("testName2"), Sym("snapPath2")
	touched := map[string]string{}
	others := func(x *Exec, st *State, j int, n string, b before) {
		st = st.clone()
		for _, p := range [][2]*Term{{name2, name}, {path2, path}} {
			st = st.assume(Eq(p[0], p[1]), false)[0]
		}
		content := func(m *Term) *Term { return x.mapContent(st, m) }
		m := x.load(st, fa(reg, idx[j], names[j]), sty.Field(idx[j]).Type())
		get := func(c, k *Term, base *Term) {
			for (c.is("mapupd") || c.is("mapdel")) && st.eval(Eq(strip(k), strip(c.args[1]))) == False {
				c = c.args[0]
			}
			if c != base {
				touched[n] = fmt.Sprintf("%s of %s", k, c)
			}
		}
		if m != b.m {
			touched[n] = "the whole map"
			return
		}
		get(content(m), path2, App("mc", b.m))
		if k.standalone {
			return
		}
		c, inner := content(m), b.inner
		for c.is("mapupd") {
			if st.eval(Eq(strip(path), strip(c.args[1]))) == True {
				inner = c.args[2]
				break
			}
			c = c.args[0]
		}
		if inner == nil || b.inner == nil {
			return // the file is new
		}
		if inner != b.inner {
			touched[n] = "every test of the file"
			return
		}
		get(content(inner), name2, App("mc", b.inner))
	}
	oldEq := func(st *State, v, old *Term) bool {
		if v == old || st.holds(Eq(v, old)) {
			return true
		}
		// comma-ok reads leave the absent and the present value apart
		return old.is("mapget") && (v == Int(0) && st.eval(App("maphas", old.args...)) == False || v == App("mapval", old.args...) && st.eval(App("maphas", old.args...)) == True)
	}
	base := func(st *State, old *Term) *Term {
		if old.is("mapget") {
			switch st.eval(App("maphas", old.args...)) {
			case False:
				return Int(0)
			case True:
				return App("mapval", old.args...)
			}
		}
		return old
	}
	mon := &Mon{name: "REGISTRY"}
	var common map[string]bool
	locked := func(x *Exec, st *State, m *Term, pos token.Pos) {
		h := heldLocks(st)
		if common == nil {
			common = h
		} else {
			for l := range common {
				if !h[l] {
					delete(common, l)
				}
			}
		}
		d.rep.check(len(h) > 0 && len(common) > 0, x, st, pos, "every use of the registry holds the same lock", []string{"C06", "C03", "C07"}, "%s", m)
	}
	mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
		locked(x, st, m, pos)
		g := "rd:" + rootField(m).String() + "|" + strip(k).String()
		d.rep.check(atomicSince(st, g), x, st, pos, "an ordinal is read and advanced in one critical section", []string{"C06", "C03", "C07"}, "%s", m)
		if strip(k) == key {
			sawShared(st, "wr:"+rootField(m).String())
		}
	}
	mon.mapget = func(x *Exec, st *State, m, k *Term, pos token.Pos) {
		locked(x, st, m, pos)
		if strip(k) == key {
			d.rep.check(atomicSince(st, "wr:"+rootField(m).String()), x, st, pos, "the ordinal a call took is read in the critical section that advanced it", []string{"C06", "C03", "C19"}, "%s", m)
		}
		sawShared(st, "rd:"+rootField(m).String()+"|"+strip(k).String())
	}
	mon.call = chainCall(lockHook, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if e := fsEffect(x, st, c); e != "" {
			d.rep.bad(x, st, c.pos, "modifies the file system: "+e, []string{"C05"}, "")
		}
		return nil, false
	})
	ffn := "snapshotOccurrenceFMT"
	if k.standalone {
		ffn = "standaloneOccurrenceFMT"
	}
	format := func(s, i *Term) *Term {
		f := d.p.fn(snaps, ffn)
		if f == nil {
			return Sym("missing")
		}
		x := d.newExec(f, &Mon{name: "fmt"})
		outs := x.Run(f, []*Term{s, i}, newState())
		d.account(x)
		if x.fail != "" || len(outs) != 1 {
			return Sym("undecided")
		}
		return outs[0].vals[0]
	}
	for _, have := range []bool{true, false} {
		st, bs := prep(have)
		args := []*Term{reg, path, name}
		if k.standalone {
			args = []*Term{reg, path, rel}
		}
		d.run(get, mon, args, st, func(x *Exec, o Out) {
			unlocked(x, o.st)
			inners := map[*Term]bool{}
			var c *Term
			found := false
			for j, n := range names {
				b := bs[n]
				others(x, o.st, j, n, b)
				v, inner, m := after(x, o.st, j, b)
				if m != b.m || b.inner != nil && inner != b.inner {
					d.rep.bad(x, o.st, token.NoPos, "the registry's maps are replaced", nil, n)
				}
				if inners[inner] {
					d.rep.bad(x, o.st, token.NoPos, "two registry fields share one map", nil, n)
				}
				inners[inner] = true
				old := base(o.st, b.old)
				if o.st.norm(Sub(v, old)) != Int(1) {
					isR[n] = false
					continue
				}
				var id *Term
				if k.standalone {
					id = format(path, v)
				} else {
					id = Concat(Str("["), format(name, v), Str("]"))
				}
				if o.st.norm(x.value(o.st, o.vals[0])) != o.st.norm(id) {
					isR[n] = false
					continue
				}
				if k.standalone {
					d.rep.check(o.st.norm(o.vals[1]) == o.st.norm(format(rel, v)), x, o.st, token.NoPos, "the relative path names the same file", []string{"C11", "C19"}, "%s", o.vals[1])
				}
				found = true
				c = v
			}
			d.rep.check(found, x, o.st, token.NoPos, "the ordinal handed out is one more than the last one, formatted the way Clean formats it", []string{"C03", "C07", "C01", "C19"}, "returns %s", o.vals[0])
			for j, n := range names {
				if c == nil {
					break
				}
				v, _, _ := after(x, o.st, j, bs[n])
				old := base(o.st, bs[n].old)
				if !(o.st.holds(Le(c, v)) && o.st.holds(Le(old, v)) && (v == c || oldEq(o.st, v, old) || v.is("max"))) {
					isH[n] = false
				}
			}
		})
	}
	reset := d.p.fn(snaps, k.typ+".reset")
	if reset == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, k.typ+".reset")
		return
	}
	st, bs := prep(true)
	args := []*Term{reg, path, name}
	if k.standalone {
		args = args[:2]
	}
	d.run(reset, mon, args, st, func(x *Exec, o Out) {
		unlocked(x, o.st)
		for j, n := range names {
			others(x, o.st, j, n, bs[n])
			v, _, m := after(x, o.st, j, bs[n])
			if m != bs[n].m {
				d.rep.bad(x, o.st, token.NoPos, "the registry's maps are replaced", nil, n)
			}
			if v != Int(0) {
				isR[n] = false
			}
			if !oldEq(o.st, v, bs[n].old) {
				isH[n] = false
			}
		}
	})
	r, h := trueKeys(isR), trueKeys(isH)
	for _, n := range append(append([]string{}, r...), h...) {
		d.rep.check(touched[n] == "", nil, nil, get.Pos(), "the ordinals of the other tests and files are left alone", []string{"C03", "C07", "C06", "C19"}, "%s.%s: %s", k.typ, n, touched[n])
	}
	d.rep.check(len(r) > 0, nil, nil, get.Pos(), "the ordinal restarts at one when the test ended", []string{"C03", "C01", "C04", "C19"}, "no field of %s both counts the calls and is zeroed by reset", k.typ)
	d.rep.check(len(h) > 0, nil, nil, get.Pos(), "the highest ordinal ever handed out is remembered", []string{"C07", "C09"}, "no field of %s does", k.typ)
	d.highest[k.standalone] = map[string]bool{}
	for _, n := range h {
		d.highest[k.standalone][n] = true
	}
	// nothing else touches the maps
	okFns := d.rulefns["REGISTRY"]
	for _, f := range d.p.srcFns {
		if okFns[short(f.String())] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch in := in.(type) {
				case *ssa.MapUpdate:
					m = in.Map
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = in.Call.Args[0]
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), k.typ) {
						if _, local := fa.X.(*ssa.Alloc); !local {
							d.rep.bad(nil, nil, in.Pos(), "the registry is modified outside getTestID and reset", []string{"C03", "C07", "C06"}, short(f.String()))
						}
					}
				}
				if m != nil && fromField(m, k.typ, 8) {
					d.rep.bad(nil, nil, in.Pos(), "the registry is modified outside getTestID and reset", []string{"C03", "C07", "C06"}, short(f.String()))
				}
			}
		}
	}
	d.rep.ok("nothing else modifies the registry")
	d.rep.must("every use of the registry holds the same lock")
}

func trueKeys(m map[string]bool) []string {
	var s []string
	for k, v := range m {
		if v {
			s = append(s, k)
		}
	}
	sort.Strings(s)
	return s
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPrefix+"snaps"
}

// fromField: is v read out of a field of the named struct type?
func fromField(v ssa.Value, typ string, depth int) bool {
	if depth == 0 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return fromField(v.X, typ, depth-1)
	case *ssa.FieldAddr:
		if isNamed(deref(v.X.Type()), typ) {
			return true
		}
		return fromField(v.X, typ, depth-1)
	case *ssa.Field:
		return isNamed(v.X.Type(), typ)
	case *ssa.Lookup:
		return fromField(v.X, typ, depth-1)
	case *ssa.Extract:
		return fromField(v.Tuple, typ, depth-1)
	case *ssa.Next:
		return fromField(v.Iter, typ, depth-1)
	case *ssa.Range:
		return fromField(v.X, typ, depth-1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if fromField(e, typ, depth-1) {
				return true
			}
		}
	}
	return false
}

// rootField is the registry field a map hangs on
func rootField(m *Term) *Term {
	r := m
	anyTerm(m, func(t *Term) bool {
		if t.is("ld") {
			r = t
			return true
		}
		return false
	})
	return r
}

// heldLocks lists the locks held exclusively
func heldLocks(st *State) map[string]bool {
	m := map[string]bool{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "lock:") && v == Str("W") {
			m[k] = true
		}
	}
	return m
}

// ---------------------------------------------------------------- occurrences

func (d *Driver) ruleOccurrences() {
	fn := d.begin("OCC", snaps, "occurrences", "C07", "C09")
	if fn == nil {
		return
	}
	tests, count, f := Sym("tests"), Sym("count"), Sym("formatter")
	st := newState()
	for g, v := range map[string]*Term{"id": Nil, "n": Int(0), "m": Int(1), "d": Int(0), "key:last": False, "key:res": Nil} {
		st.setg(g, v)
	}
	var outer *loop
	mon := &Mon{name: "OCC", noSummary: true}
	verdict := func(x *Exec, st *State, pos token.Pos) {
		if st.g("id") == Nil {
			return
		}
		n, m := st.g("n"), st.g("m")
		last := st.g("key:last") == True
		ok := last && (st.holds(Le(n, m)) || st.holds(Le(n, Int(1)))) || st.holds(Lt(n, m)) || last && st.holds(Lt(st.g("d"), Int(1)))
		ok = ok || st.holds(Lt(st.g("d"), Int(1))) && st.holds(Le(Int(1), n))
		d.rep.check(ok, x, st, pos, "every ordinal up to the highest is live", nil, "highest %s, live below %s, highest itself live: %v", n, m, last)
		for g, v := range map[string]*Term{"id": Nil, "n": Int(0), "m": Int(1), "d": Int(0), "key:last": False} {
			st.setg(g, v)
		}
	}
	mon.next = func(x *Exec, st *State, m, k *Term, pos token.Pos) {
		if m != tests {
			return
		}
		if k := len(x.loopStk); k > 0 {
			outer = x.loopStk[k-1]
		}
		n := x.binop(st, token.QUO, App("mapval", App("mc", tests), k), count, types.Typ[types.Int])
		st.setg("id", k)
		st.setg("n", n)
		st.setg("m", Int(1))
		st.setg("d", n)
	}
	mon.exhaust = func(x *Exec, st *State, m *Term, pos token.Pos) {
		if m == tests {
			st.setg("alltests", True)
		}
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) {
		if outer != nil && l != nil && l.head == outer.head {
			verdict(x, st, pos)
		}
	}
	mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
		id := st.g("id")
		k = strip(k)
		okk := id != Nil && k.is("formatted") && k.args[0] == id
		if okk {
			j := k.args[1]
			ok := false
			if st.holds(Eq(j, st.g("n"))) {
				ok = true
				st.setg("key:last", True)
			}
			if st.holds(Eq(j, st.g("m"))) {
				ok = ok || st.holds(Le(j, st.g("n")))
				st.setg("m", AddC(j, 1))
			}
			if st.holds(Eq(j, st.g("d"))) {
				ok = ok || st.holds(Le(Int(1), j))
				st.setg("d", AddC(j, -1))
			}
			okk = ok
		}
		d.rep.check(okk, x, st, pos, "only ordinals up to the highest are live", []string{"C09"}, "adds %s, highest of %s is %s", k, id, st.g("n"))
		if st.g("key:res") == Nil {
			st.setg("key:res", m)
		}
		d.rep.check(st.g("key:res") == m, x, st, pos, "all live ids are collected in one set", nil, "%s", m)
	}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if c.recv == f || c.name == "dyn" && c.recv != nil && c.recv == f {
			return one(st, App("formatted", st.norm(c.args[0]), st.norm(c.args[1]))), true
		}
		return nil, false
	}
	d.run(fn, mon, []*Term{tests, count, f}, st, func(x *Exec, o Out) {
		d.rep.check(o.st.g("alltests") == True, x, o.st, token.NoPos, "every test is considered", nil, "")
		r := o.vals[0]
		d.rep.check(r.op == "alloc" && (o.st.g("key:res") == Nil || o.st.g("key:res") == r || o.st.g("key:res").op == "phi"), x, o.st, token.NoPos, "the set built is the one returned", nil, "%s, built %s", r, o.st.g("key:res"))
	})
	d.rep.must("every ordinal up to the highest is live", "only ordinals up to the highest are live")
}

// ---------------------------------------------------------------- the environment

// ruleInit: the mode is what the environment says when the tests start
func (d *Driver) ruleInit() {
	d.rep.begin("INIT", "mode of the process", "C05")
	for _, v := range []struct {
		name string
		want *Term
	}{
		{"updateVAR", App("os.Getenv", Str("UPDATE_SNAPS"))},
		{"isCI", App("ld", Global("github.com/gkampitakis/ciinfo.IsCI"))},
	} {
		got := d.gval(v.name)
		d.rep.fn = "snaps." + v.name
		pos := token.NoPos
		if m := d.p.pkgs[snaps].Members[v.name]; m != nil {
			pos = m.Pos()
		}
		d.rep.check(got == v.want, nil, nil, pos, "the mode is decided by UPDATE_SNAPS and by the CI detection", nil, "%s is %s, expected %s", v.name, got, v.want)
	}
}

// ---------------------------------------------------------------- Clean

func (d *Driver) ruleClean() {
	fn := d.begin("CLEAN", snaps, "Clean", "C05", "C07", "C08", "C09", "C10", "C20")
	if fn == nil {
		return
	}
	env := d.gval("updateVAR")
	ci := d.gval("isCI")
	mayClean := And(Or(Eq(env, Str("true")), Eq(env, Str("clean"))), Not(ci))
	opts := Sym("opts")
	run := Sym("runOnly")
	for _, withOpt := range []bool{true, false} {
		st := newState()
		oseq := mk("seq", "", 0, nil)
		var opt *Term
		wantSort := False
		if withOpt {
			tn, _ := d.p.pkgs[snaps].Members["CleanOpts"].(*ssa.Type)
			if tn == nil {
				d.rep.bad(nil, nil, token.NoPos, "anchor type CleanOpts is missing", nil, "")
				return
			}
			opt = Sym("opt")
			s := structOf(tn.Type())
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Sort" {
					wantSort = And(fieldOf(opt, i, "Sort"), Not(ci))
				}
			}
			oseq = mk("seq", "", 0, nil, opt)
		}
		_ = opts
		same := func(st *State, got, want *Term) bool {
			return boolEquiv(st, got, want)
		}
		for _, g := range []string{"nocc", "nfiles", "nsnaps", "nsum", "nprint"} {
			st.setg(g, Int(0))
		}
		regOf := func(x *Exec, st *State, t *Term, standalone bool) bool {
			g, typ := "testsRegistry", "syncRegistry"
			if standalone {
				g, typ = "standaloneTestsRegistry", "syncStandaloneRegistry"
			}
			idx, names := d.mapFields(typ)
			for j, n := range names {
				if d.highest[standalone][n] && t == x.load(st, fa(d.gval(g), idx[j], n), types.Typ[types.Invalid]) {
					return true
				}
			}
			return false
		}
		mon := &Mon{name: "CLEAN"}
		mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
			chk := func(ok bool, what string, props []string, f string, a ...any) {
				d.rep.check(ok, x, st, c.pos, what, props, f, a...)
			}
			switch c.name {
			case "flag.Lookup":
				return one(st, App("flagvar", val(0))), true
			case "(flag.Value).String":
				if anyTerm(val(0), func(t *Term) bool { return t.is("flagvar") && t.args[0] == Str("test.run") }) {
					return one(st, run), true
				}
				return one(st, App("flagtext", val(0))), true
			case "snaps.occurrences":
				inc(st, "nocc")
				if !regOf(x, st, val(0), true) {
					chk(false, "addressed standalone files come from the highest ordinals of the standalone registry", []string{"C07", "C09", "C19"}, "%s", val(0))
				}
				chk(val(1) == Int(1), "the highest ordinals are not divided by -count", []string{"C07"}, "count is %s", val(1))
				chk(fnIs(c.args[2], d.fnTerm(snaps, "standaloneOccurrenceFMT")), "standalone files are named the way they are created", []string{"C07", "C09", "C19"}, "%s", c.args[2])
				return one(st, Sym("standaloneFiles")), true
			case "snaps.examineFiles":
				inc(st, "nfiles")
				chk(regOf(x, st, val(0), false), "addressed files come from the registry", []string{"C07", "C09"}, "%s", val(0))
				chk(val(1) == Sym("standaloneFiles"), "addressed standalone files are passed on", []string{"C07", "C09"}, "%s", val(1))
				chk(val(2) == run, "filtered tests are recognised by the -run flag", []string{"C08", "C09"}, "%s", val(2))
				chk(same(st, c.args[3], mayClean), "files are removed iff UPDATE_SNAPS is true or clean, and not on CI", []string{"C05", "C09", "C07"}, "passes %s\n    the mode table says %s", st.eval(c.args[3]), st.eval(mayClean))
				return one(st, Sym("obsoleteFiles"), Sym("usedFiles")), true
			case "snaps.examineSnaps":
				inc(st, "nsnaps")
				chk(st.g("nfiles") == Int(1), "files are examined first", nil, "")
				chk(regOf(x, st, val(0), false), "live entries come from the highest ordinals of the registry", []string{"C07", "C09"}, "%s", val(0))
				chk(val(1) == Sym("usedFiles"), "exactly the addressed files are examined", []string{"C07", "C09", "C10"}, "%s", val(1))
				chk(val(2) == run, "filtered tests are recognised by the -run flag", []string{"C08", "C09"}, "%s", val(2))
				chk(val(3) == Int(1), "the highest ordinals are not divided by -count", []string{"C07"}, "count is %s", val(3))
				chk(same(st, c.args[4], mayClean), "entries are pruned iff UPDATE_SNAPS is true or clean, and not on CI", []string{"C05", "C09", "C07"}, "passes %s\n    the mode table says %s", st.eval(c.args[4]), st.eval(mayClean))
				chk(same(st, c.args[5], wantSort), "files are sorted iff asked for, and not on CI", []string{"C05", "C10"}, "passes %s\n    expected %s", st.eval(c.args[5]), st.eval(wantSort))
				b := st.clone()
				b.setg("failed", True)
				return []Out{{st: st, vals: []*Term{Sym("obsoleteTests"), Nil}}, {st: b, vals: []*Term{Nil, x.errVal(b, "examineSnaps")}}}, true
			case "snaps.summary":
				inc(st, "nsum")
				chk(val(0) == Sym("obsoleteFiles") && val(1) == Sym("obsoleteTests"), "the summary lists exactly the obsolete items", []string{"C20", "C09"}, "(%s, %s)", val(0), val(1))
				sk := x.load(st, fa(d.gval("skippedTests"), d.fieldIndex("syncSlice", "values"), "values"), types.Typ[types.Invalid])
				chk(st.norm(c.args[2]) == st.norm(lenT(sk)) || st.norm(c.args[2]) == st.norm(lenT(x.value(st, sk))), "the summary counts the Skip calls", []string{"C20"}, "%s", c.args[2])
				ev := x.load(st, fa(d.gval("testEvents"), d.fieldIndex("events", "items"), "items"), types.Typ[types.Invalid])
				chk(val(3) == ev, "the summary counts the outcomes", []string{"C20"}, "%s", val(3))
				chk(same(st, c.args[4], mayClean), "the summary says removed iff items are removed", []string{"C20", "C09"}, "passes %s", st.eval(c.args[4]))
				return one(st, Sym("summaryText")), true
			case "stdout":
				if anyTerm(c.args[0], func(t *Term) bool { return t == Sym("summaryText") }) {
					inc(st, "nprint")
				}
				return one(st), true
			case "os.Exit", "(*testing.M).Run":
				chk(false, "Clean only examines and reports", nil, c.name)
			}
			if e := fsEffect(x, st, c); e != "" {
				d.rep.bad(x, st, c.pos, "modifies the file system: "+e, []string{"C05", "C09", "C07"}, "")
			}
			return nil, false
		}
		noStore := func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
			if rootOf(loc).op == "global" {
				d.rep.bad(x, st, pos, "Clean changes package state", []string{"C07", "C09", "C20"}, loc.String())
			}
		}
		mon.store = noStore
		d.run(fn, mon, []*Term{Sym("m"), oseq}, st, func(x *Exec, o Out) {
			st := o.st
			one := Int(1)
			d.rep.check(st.g("nocc") == one && st.g("nfiles") == one && st.g("nsnaps") == one, x, st, token.NoPos, "files and entries are examined exactly once", []string{"C09", "C07", "C08", "C10"}, "occurrences %s, files %s, entries %s", st.g("nocc"), st.g("nfiles"), st.g("nsnaps"))
			if st.g("failed") == True {
				return
			}
			empty := st.eval(Eq(Sym("summaryText"), Empty))
			d.rep.check(st.g("nsum") == one && (st.g("nprint") == one || st.g("nprint") == Int(0) && empty == True), x, st, token.NoPos, "the summary is printed once", []string{"C20", "C09"}, "%s summaries, %s prints", st.g("nsum"), st.g("nprint"))
		})
	}
	d.rep.must("files are sorted iff asked for, and not on CI", "the summary counts the outcomes", "the summary is printed once")
}

// boolEquiv: have two conditions the same truth value whenever the facts hold?
func boolEquiv(st *State, a, b *Term) bool {
	for _, v := range []bool{true, false} {
		for _, s := range st.clone().assume(a, v) {
			if s.eval(s.simp(b)) != Bool(v) {
				return false
			}
		}
	}
	return true
}

func (d *Driver) fieldIndex(typ, name string) int {
	if tn, ok := d.p.pkgs[snaps].Members[typ].(*ssa.Type); ok {
		if s := structOf(tn.Type()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return i
				}
			}
		}
	}
	return 99
}

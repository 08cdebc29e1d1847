package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instances is analysed along with package match, so that its generic matcher has instances: one whose
// values have the expected type itself, one whose values implement it.
const instances = `package match

func verifInstances() (any, any) { return Type[string](), Type[error]() }
`

const (
	gjsonPkg = "github.com/tidwall/gjson."
	sjsonPkg = "github.com/tidwall/sjson."
	yamlPkg  = "github.com/goccy/go-yaml"
)

// matcherKind is one constructor of package match
type matcherKind struct {
	name   string // reported in MatcherError.Matcher
	ctor   *ssa.Function
	custom bool
	typed  bool
}

func (d *Driver) matcherKinds() []matcherKind {
	ks := []matcherKind{{name: "Any", ctor: d.p.fn("match", "Any")}, {name: "Custom", ctor: d.p.fn("match", "Custom"), custom: true}}
	for _, t := range []string{"string", "error"} {
		ks = append(ks, matcherKind{name: "Type", ctor: d.p.funcs[modPrefix+"match.Type["+t+"]"], typed: true})
	}
	return ks
}

// methodOf finds a method of t, promoted ones included
func (d *Driver) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return d.p.prog.MethodValue(s)
		}
	}
	return nil
}

// ruleMatchers checks every matcher, for JSON and for YAML, on lists of up to three unknown paths: the
// document handed out is the document handed in with exactly the existing paths replaced, in order, and
// every path that failed is reported under the matcher's name.
func (d *Driver) ruleMatchers() {
	for _, k := range d.matcherKinds() {
		for _, format := range []string{"JSON", "YAML"} {
			d.rep.begin("MATCHER", "match."+k.name+"."+format, "C15", "C16", "C17")
			if k.ctor == nil {
				d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "match."+k.name)
				continue
			}
			max := 3
			if k.custom {
				max = 1
			}
			for n := 0; n <= max; n++ {
				if k.custom && n == 0 {
					continue
				}
				for _, set := range []string{"", "missing"} {
					(&matcherRule{d: d, k: k, format: format, n: n, setter: set}).run()
				}
			}
			if k.name == "Any" {
				(&matcherRule{d: d, k: k, format: format, n: 1, setter: "placeholder"}).run()
			}
			d.rep.must("the document handed out is the one handed in with the existing paths replaced", "every failing path is reported, once and in order", "a path is looked up in the document the ones before it left")
			if !k.custom || format == "JSON" {
				d.rep.must("the value is replaced in the document the ones before it left")
			}
		}
	}
}

type matcherRule struct {
	d      *Driver
	k      matcherKind
	format string
	n      int
	setter string

	paths    []*Term
	cb       *Term
	doc      *Term
	strict   *Term // errors on missing paths
	helper   map[*ssa.Function]string
	callback *types.Signature
}

func (r *matcherRule) run() {
	d := r.d
	st := newState()
	for i := 0; i < r.n; i++ {
		r.paths = append(r.paths, Sym("path."+string(rune('1'+i))))
	}
	r.doc, r.cb, r.strict = Sym("document"), Sym("callback"), True
	r.helper = map[*ssa.Function]string{}
	for _, h := range yamlHelpers {
		if f := d.yamlHelper(h.name, h.sig); f != nil {
			r.helper[f] = h.name
		}
	}
	mon := &Mon{name: "MATCHER", noMerge: true}
	mon.call = r.call
	mon.store = func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
		if rootOf(loc) == r.doc || anyTerm(loc, func(t *Term) bool { return t == r.doc }) {
			d.rep.bad(x, st, pos, "the bytes handed in are not edited", []string{"C15"}, loc.String())
		}
	}
	x := d.newExec(r.k.ctor, mon)
	type made struct {
		st *State
		m  *Term
	}
	step := func(fn *ssa.Function, in []made, args func(m *Term) []*Term) (out []made) {
		for _, o := range in {
			d.runOn(x, fn, args(o.m), o.st, func(x *Exec, o Out) {
				if len(o.vals) == 1 {
					out = append(out, made{o.st, o.vals[0]})
				}
			})
		}
		if len(out) == 0 {
			d.rep.bad(x, nil, fn.Pos(), "undecided: "+fn.Name()+" returns no matcher", nil, "")
		}
		return out
	}
	args := []*Term{mk("seq", "", 0, nil, r.paths...)}
	if r.k.custom {
		args = []*Term{r.paths[0], r.cb}
		r.callback, _ = r.k.ctor.Signature.Params().At(1).Type().Underlying().(*types.Signature)
		st = st.assume(Eq(r.cb, Nil), false)[0]
	}
	for g, v := range map[string]*Term{"cur": r.doc, "i": Int(0), "phase": Str("none"), "value": Nil, "errs": emptySeq, "sets": Int(0)} {
		st.setg("key:"+g, v)
	}
	ms := step(r.k.ctor, []made{{st, nil}}, func(*Term) []*Term { return args })
	mt := r.k.ctor.Signature.Results().At(0).Type()
	for _, s := range []struct{ set, method string }{{"missing", "ErrOnMissingPath"}, {"placeholder", "Placeholder"}} {
		if r.setter != s.set {
			continue
		}
		fn := d.methodOf(mt, s.method)
		if fn == nil {
			d.rep.bad(nil, nil, r.k.ctor.Pos(), "anchor function is missing", nil, s.method)
			return
		}
		a := Sym(s.set)
		ms = step(fn, ms, func(m *Term) []*Term { return []*Term{m, a} })
		if s.set == "missing" {
			r.strict = a
		}
	}
	fn := d.methodOf(mt, r.format)
	if fn == nil {
		d.rep.bad(nil, nil, r.k.ctor.Pos(), "anchor function is missing", nil, r.format)
		return
	}
	for _, o := range ms {
		d.runOn(x, fn, []*Term{o.m, r.doc}, o.st, r.ret)
	}
}

// at is the path the matcher works on
func (r *matcherRule) at(st *State) *Term {
	i := int(st.g("key:i").c)
	if i < len(r.paths) {
		return r.paths[i]
	}
	return Nil
}

func (r *matcherRule) phase(st *State) string { return st.g("key:phase").val }

// fail records the failure of the current path and moves on
func (r *matcherRule) fail(st *State) {
	st.setg("key:errs", seqcatT(st.g("key:errs"), mk("seq", "", 0, nil, r.at(st))))
	r.done(st)
}

func (r *matcherRule) done(st *State) {
	st.setg("key:i", AddC(st.g("key:i"), 1))
	st.setg("key:phase", Str("none"))
	st.setg("key:value", Nil)
}

// typed settles the type check of the current value, when there was one
func (r *matcherRule) typed(x *Exec, st *State, pos token.Pos) (ok, known bool) {
	v := st.g("key:value")
	for f, b := range st.facts {
		if f.is("typeis") && f.args[0] == v {
			return b, true
		}
	}
	return false, false
}

// settle is called when the matcher turns to the next path or returns
func (r *matcherRule) settle(x *Exec, st *State, pos token.Pos) {
	d := r.d
	if r.phase(st) != "found" {
		return
	}
	if ok, known := r.typed(x, st, pos); r.k.typed && known && !ok {
		r.fail(st)
		return
	}
	d.rep.bad(x, st, pos, "every existing path is replaced", nil, r.at(st).String()+" is left as it is")
	r.done(st)
}

// lookup checks that the next path is looked up and forks on what it finds
func (r *matcherRule) lookup(x *Exec, st *State, doc, path *Term, pos token.Pos) bool {
	d := r.d
	r.settle(x, st, pos)
	ok := path == r.at(st) && path != Nil
	d.rep.check(ok, x, st, pos, "paths are looked up in order, each once", nil, "looks up %s, next is %s", path, r.at(st))
	d.rep.check(same(st, doc, st.g("key:cur")), x, st, pos, "a path is looked up in the document the ones before it left", []string{"C15", "C16", "C17"}, "looked up in %s", doc)
	return ok
}

func (r *matcherRule) missing(st *State) {
	switch {
	case st.eval(r.strict) == True:
		r.fail(st)
	case st.eval(r.strict) == False:
		r.done(st)
	default:
		st.setg("key:errs", seqcatT(st.g("key:errs"), mk("seq", "", 0, nil, App("if", r.strict, r.at(st)))))
		r.done(st)
	}
}

// set checks the replacement of the current path's value
func (r *matcherRule) set(x *Exec, st *State, doc, path, v *Term, pos token.Pos, what string) []*State {
	d := r.d
	d.rep.check(r.phase(st) == "found" && path == r.at(st), x, st, pos, "a value is replaced at the path looked up, when it exists", []string{"C15", "C17"}, "replaces %s, looked up %s", path, r.at(st))
	d.rep.check(same(st, doc, st.g("key:cur")), x, st, pos, "the value is replaced in the document the ones before it left", []string{"C15", "C16"}, "replaced in %s", doc)
	if r.k.typed {
		ok, known := r.typed(x, st, pos)
		d.rep.check(ok && known, x, st, pos, "a value is replaced only after it was found to have the expected type", []string{"C17", "C16"}, "")
	}
	switch {
	case r.k.custom:
		val := st.g("key:value")
		d.rep.check(v == App("cbresult", val), x, st, pos, "the value is replaced by the callback's result", []string{"C15", "C17"}, "%s", v)
	case r.setter == "placeholder":
		d.rep.check(v == Sym("placeholder"), x, st, pos, "the value is replaced by the placeholder asked for", []string{"C15"}, "%s", v)
	default:
		dep := anyTerm(v, func(t *Term) bool {
			return t == r.doc || t == r.at(st) || t.is("jget") || t.is("jvalue") || t.is("yvalue") || t.is("ynode") || t.op == "fresh"
		})
		d.rep.check(!dep, x, st, pos, "the placeholder does not depend on the value it replaces", []string{"C16", "C15"}, "%s", v)
	}
	bad := st.clone()
	st.setg("key:cur", App(what, doc, path, v))
	st.setg("key:sets", AddC(st.g("key:sets"), 1))
	r.done(st)
	r.fail(bad)
	return []*State{st, bad}
}

func fieldByName(t types.Type, name string) (int, types.Type) {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

func (r *matcherRule) call(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	d := r.d
	val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
	n := c.name
	switch {
	case strings.HasPrefix(n, gjsonPkg):
		switch n[len(gjsonPkg):] {
		case "Get", "GetBytes":
			doc, path := val(0), val(1)
			if !r.lookup(x, st, doc, path, c.pos) {
				x.undecided("a look up out of order")
			}
			res := App("jget", doc, path)
			return one(st, res), true
		}
	case n == "("+gjsonPkg+"Result).Exists" && val(0).is("jget"):
		g := val(0)
		if v := st.eval(App("jexists", g.args...)); v == True || v == False {
			return one(st, v), true
		}
		var outs []Out
		for _, v := range []bool{true, false} {
			for _, s := range st.clone().assume(App("jexists", g.args...), v) {
				if g.args[1] == r.at(s) {
					if v {
						s.setg("key:phase", Str("found"))
						s.setg("key:value", App("jvalue", g.args...))
					} else {
						r.missing(s)
					}
				}
				outs = append(outs, one(s, Bool(v))...)
			}
		}
		return outs, true
	case n == "("+gjsonPkg+"Result).Value" && val(0).is("jget"):
		return one(st, App("jvalue", val(0).args...)), true
	case strings.HasPrefix(n, sjsonPkg):
		fn := n[len(sjsonPkg):]
		if !strings.HasPrefix(fn, "Set") || strings.HasPrefix(fn, "SetRaw") || len(c.args) < 3 {
			x.undecided("%s", n)
		}
		if len(c.args) > 3 && strings.HasSuffix(fn, "Options") && c.args[3] != Nil {
			opt := c.sig.Params().At(3).Type()
			if i, t := fieldByName(deref(opt), "ReplaceInPlace"); i >= 0 && strings.Contains(fn, "Bytes") {
				v := st.norm(x.load(st, fa(c.args[3], i, "ReplaceInPlace"), t))
				own := rootOf(strip(c.args[0])).op == "alloc"
				d.rep.check(own || st.eval(v) == False, x, st, c.pos, "the bytes handed in are not edited", []string{"C15"}, "sjson may replace in place: %s", v)
			}
		}
		doc, path := val(0), val(1)
		v := st.norm(unwrap(x, st, c.args[2]))
		ss := r.set(x, st, doc, path, v, c.pos, "jset")
		return []Out{{st: ss[0], vals: []*Term{ss[0].g("key:cur"), Nil}}, {st: ss[1], vals: []*Term{App("jbad", doc, path), x.errVal(ss[1], "sjson")}}}, true
	case n == "dyn" && st.norm(c.recv) == r.cb:
		v := st.norm(unwrap(x, st, c.args[0]))
		d.rep.check(r.phase(st) == "found" && v == st.g("key:value"), x, st, c.pos, "the callback is asked about the value at the path", []string{"C15", "C17"}, "%s", v)
		d.rep.check(st.g("key:asked") != True, x, st, c.pos, "the callback is asked once", []string{"C17"}, "")
		st.setg("key:asked", True)
		bad := st.clone()
		r.fail(bad)
		return []Out{{st: st, vals: []*Term{App("cbresult", v), Nil}}, {st: bad, vals: []*Term{App("cbignored", v), x.errVal(bad, "callback")}}}, true
	}
	if r.format == "YAML" {
		return r.yamlCall(x, st, c)
	}
	return nil, false
}

// unwrap is the value inside an interface
func unwrap(x *Exec, st *State, t *Term) *Term {
	t = st.norm(t)
	if t.op == "iface" {
		return x.value(st, t.args[0])
	}
	return x.value(st, t)
}

func (r *matcherRule) ret(x *Exec, o Out) {
	d, st := r.d, o.st
	r.settle(x, st, token.NoPos)
	want := st.g("key:errs")
	if r.phase(st) == "invalid" {
		want = mk("seq", "", 0, nil, Nil)
	} else {
		d.rep.check(st.g("key:i") == Int(int64(r.n)), x, st, token.NoPos, "every path is looked up", nil, "looked up %s of %d", st.g("key:i"), r.n)
	}
	got := x.content(st, o.vals[1])
	if got == Nil {
		got = emptySeq
	}
	for _, s := range r.settled(st) {
		r.final(x, s, o, got, want)
	}
}

// settled splits on the switch for missing paths while the list of errors depends on it
func (r *matcherRule) settled(st *State) (ss []*State) {
	if r.strict.op != "sym" || st.eval(r.strict) == True || st.eval(r.strict) == False {
		return []*State{st}
	}
	for _, v := range []bool{true, false} {
		ss = append(ss, st.clone().assume(r.strict, v)...)
	}
	return ss
}

func (r *matcherRule) final(x *Exec, st *State, o Out, got, want *Term) {
	d := r.d
	var ps []*Term
	for _, e := range want.args {
		if e.is("if") {
			if st.eval(e.args[0]) != True {
				continue
			}
			e = e.args[1]
		}
		ps = append(ps, e)
	}
	got = st.norm(got)
	ok := got.op == "seq" && len(got.args) == len(ps)
	for i := 0; ok && i < len(ps); i++ {
		e := st.norm(got.args[i])
		if e.op != "struct" {
			ok = false
			break
		}
		name, path, reason := structField(d, e, "Matcher"), structField(d, e, "Path"), structField(d, e, "Reason")
		ok = name != nil && path != nil && reason != nil && name == Str(r.k.name) && (ps[i] == Nil || path == ps[i]) && st.eval(Eq(reason, Nil)) == False
	}
	d.rep.check(ok, x, st, token.NoPos, "every failing path is reported, once and in order", []string{"C17"}, "reported %s, failed %v", got, ps)
	if len(ps) > 0 || len(got.args) > 0 {
		return // the document is not used
	}
	doc := st.norm(x.value(st, o.vals[0]))
	cur := st.g("key:cur")
	good := same(st, doc, cur)
	if r.format == "YAML" {
		good = r.yamlText(st, doc, cur)
	}
	d.rep.check(good, x, st, token.NoPos, "the document handed out is the one handed in with the existing paths replaced", []string{"C15", "C16"}, "%s, expected %s", doc, cur)
}

// structField is the named field of a struct term of package match
func structField(d *Driver, e *Term, name string) *Term {
	t, ok := d.p.pkgs["match"].Members["MatcherError"].(*ssa.Type)
	if !ok {
		return nil
	}
	i, _ := fieldByName(t.Type(), name)
	if i < 0 || i >= len(e.args) {
		return nil
	}
	return e.args[i]
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The five Match* entry points, as method and as package function.
type entry struct {
	name       string
	standalone bool
	kind       string // "values", "json", "yaml", "value"
}

var entries = []entry{
	{"MatchSnapshot", false, "values"},
	{"MatchJSON", false, "json"},
	{"MatchYAML", false, "yaml"},
	{"MatchStandaloneSnapshot", true, "value"},
	{"MatchStandaloneJSON", true, "json"},
}

const modPrefix = "github.com/gkampitakis/go-snaps/"

func gl(n string) *Term { return Global(modPrefix + "snaps." + n) }

func (d *Driver) gval(n string) *Term {
	if v, ok := d.p.seed[gl(n)]; ok {
		return v
	}
	return App("ld", gl(n))
}

var kSprint = "github.com/kr/pretty.Sprint"

type entryRun struct {
	d       *Driver
	e       entry
	method  bool
	cfg     *Term // receiver (or &defaultConfig)
	t       *Term
	input   *Term // value(s)
	inkind  string
	doc0    *Term // canonical bytes of the input
	match   *Term // matchers slice
	fn      *ssa.Function
	options map[string]*Term // the options of the call
	escape  *Term
	mapname string
}

func (d *Driver) ruleEntries() {
	for _, e := range entries {
		for _, method := range []bool{true, false} {
			kinds := []string{""}
			if e.kind == "json" || e.kind == "yaml" {
				kinds = []string{"string", "[]byte", "other"}
			}
			for _, k := range kinds {
				d.entry(e, method, k)
			}
		}
	}
	d.checkViews(d.stored, d.compared)
}

func cfgField(i int, n string, c *Term) *Term { return App("ld", fa(c, i, n)) }

// configFields resolves the fields of Config by name
func (d *Driver) configFields() map[string]int {
	res := map[string]int{}
	tn, ok := d.p.pkgs[snaps].Members["Config"].(*ssa.Type)
	if !ok {
		return res
	}
	s := structOf(tn.Type())
	for i := 0; s != nil && i < s.NumFields(); i++ {
		res[s.Field(i).Name()] = i
	}
	return res
}

func (d *Driver) entry(e entry, method bool, inkind string) {
	name := e.name
	if method {
		name = "Config." + e.name
	}
	rule := "ENTRY"
	fn := d.begin(rule, snaps, name, "C01", "C02", "C03", "C04", "C05", "C12", "C17", "C20")
	if fn == nil {
		return
	}
	if inkind != "" {
		d.rep.fn += "(" + inkind + ")"
	}
	r := &entryRun{d: d, e: e, method: method, inkind: inkind, fn: fn, t: Sym("t"), input: Sym("input"), match: Sym("matchers")}
	st := newState()
	var args []*Term
	if method {
		r.cfg = Sym("c")
		args = append(args, r.cfg)
		st = st.assume(Eq(r.cfg, Nil), false)[0]
	} else {
		r.cfg = gl("defaultConfig")
	}
	args = append(args, r.t, r.input)
	if e.kind == "json" || e.kind == "yaml" {
		args = append(args, r.match)
	}
	x := d.newExec(fn, nil)
	fields := d.configFields()
	r.options = map[string]*Term{}
	tn, _ := d.p.pkgs[snaps].Members["Config"].(*ssa.Type)
	if tn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor type Config is missing", nil, "")
		return
	}
	for n, i := range fields {
		r.options[n] = x.load(st, fa(r.cfg, i, n), structOf(tn.Type()).Field(i).Type())
	}
	if e.name == "MatchStandaloneJSON" {
		ext := r.options["extension"]
		r.options["extension"] = Ite(Eq(ext, Empty), Str(".json"), ext)
	}
	for _, g := range []string{"addedMsg", "updatedMsg"} {
		st = st.assume(Eq(App("ld", gl(g)), Empty), false)[0]
	}
	switch inkind {
	case "string", "[]byte":
		ty := mk("type", inkind, 0, nil)
		st = st.assume(App("typeis", r.input, ty), true)[0]
		r.doc0 = App("as", r.input, ty)
	case "other":
		st = st.assume(App("typeis", r.input, mk("type", "string", 0, nil)), false)[0]
		st = st.assume(App("typeis", r.input, mk("type", "[]byte", 0, nil)), false)[0]
		r.doc0 = App(e.kind+"marshal", r.input)
	}
	for _, g := range []string{"nerr", "nadded", "nupdated", "nlog", "ordinals", "cleanups", "prevs"} {
		st.setg(g, Int(0))
	}
	st.setg("idx", Int(0))
	st.setg("cur", Nil)
	if r.doc0 != nil {
		st.setg("cur", r.doc0)
	}
	st.setg("errs", mk("seq", "", 0, nil))
	mon := &Mon{name: rule, noMerge: true}
	mon.call = r.call
	mon.store = r.store
	mon.mapset = r.mapset
	mon.mapget = func(x *Exec, st *State, m, k *Term, pos token.Pos) {
		if anyTerm(m, func(t *Term) bool { return t == gl("testEvents") }) {
			sawShared(st, "rd:counters")
		}
	}
	x.mon = mon
	d.runOn(x, fn, args, st, r.ret)
}

func inc(st *State, g string) { st.setg(g, AddC(st.g(g), 1)) }

// ---------------------------------------------------------------- events

func (r *entryRun) store(x *Exec, st *State, loc, v *Term, pos token.Pos) {
	root := rootOf(loc)
	shared := anyTerm(root, func(t *Term) bool { return t == r.cfg || t == gl("defaultConfig") })
	if shared {
		if x.load(st, loc, types.Typ[types.Invalid]) == v {
			return
		}
		x.rep.bad(x, st, pos, "a Match* call stores into the shared Config: "+loc.val, []string{"C12", "C06", "C05", "C11"}, loc.String()+" := "+v.String())
	}
	if r.inkind == "[]byte" && root == r.doc0 {
		x.rep.bad(x, st, pos, "the caller's bytes are modified", []string{"C15"}, loc.String())
	}
}

// mapset sees the outcome counters
func (r *entryRun) mapset(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
	if !anyTerm(m, func(t *Term) bool { return t == gl("testEvents") }) {
		return
	}
	r.d.guard(x, st, "outcome counters", true, pos)
	x.rep.check(lockHeld(st, true) != "" && atomicSince(st, "rd:counters"), x, st, pos, "outcome counters are read and updated in one critical section", []string{"C20", "C06"}, "")
	st.setg("rd:counters", Nil)
	ok := v == Int(1)
	for _, op := range []string{"mapval", "mapget"} {
		if Sub(st.norm(v), App(op, x.mapContent(st, m), k)) == Int(1) {
			ok = true
		}
	}
	if !ok {
		x.rep.bad(x, st, pos, "an outcome counter changes by something other than one", []string{"C20"}, v.String())
	}
	ev := st.g("events")
	if ev == Nil {
		st.setg("events", k)
	} else {
		st.setg("events", mk("tuple", "", 0, nil, ev, k))
	}
}

func (r *entryRun) eventNames(st *State) string {
	ev := st.g("events")
	var names []string
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == Nil {
			return
		}
		if t.op == "tuple" {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		n := t.String()
		for _, c := range []string{"erred", "added", "updated", "passed"} {
			if m, ok := r.d.p.pkgs[snaps].Members[c].(*ssa.NamedConst); ok && constTerm(m.Value) == t {
				n = c
			}
		}
		names = append(names, n)
	}
	rec(ev)
	return strings.Join(names, "+")
}

func (r *entryRun) call(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	d := r.d
	chk := func(ok bool, what string, props []string, f string, a ...any) {
		d.rep.check(ok, x, st, c.pos, what, props, f, a...)
	}
	val := func(i int) *Term { return st.simp(x.value(st, c.args[i])) }
	switch c.name {
	// ---- the test
	case "(snaps.testingT).Helper":
		return one(st), true
	case "(snaps.testingT).Name":
		return one(st, Sym("testname")), true
	case "(snaps.testingT).Error":
		inc(st, "nerr")
		st.setg("errarg", x.value(st, x.content(st, c.args[1])))
		return one(st), true
	case "(snaps.testingT).Log":
		a := x.value(st, x.content(st, c.args[1]))
		is := func(g, s string) bool {
			return says(a, s) || anyTerm(a, func(t *Term) bool { return t == App("ld", gl(g)) })
		}
		switch {
		case is("addedMsg", "Snapshot added"):
			inc(st, "nadded")
		case is("updatedMsg", "Snapshot updated"):
			inc(st, "nupdated")
		default:
			inc(st, "nlog")
		}
		return one(st), true
	case "(snaps.testingT).Cleanup":
		inc(st, "cleanups")
		st.setg("cleanup", c.args[1])
		return one(st), true
	case "(snaps.testingT).Skip", "(snaps.testingT).Skipf", "(snaps.testingT).SkipNow":
		chk(false, "a Match* call skips the test", []string{"C20", "C08"}, "")
		return one(st), true
	// ---- addressing
	case "snaps.snapshotPath":
		r.checkConfig(x, st, c)
		for k := range d.skipped {
			chk(k <= int64(len(x.stack)+1), "the stack walk starts at the caller of the library", []string{"C11"}, "%d frames are skipped, %d belong to the library", k, len(x.stack)+1)
		}
		chk(val(1) == Sym("testname"), "the location uses the test's name", []string{"C11", "C03"}, "%s", val(1))
		chk(c.args[2] == Bool(r.e.standalone), "the location kind matches the call", []string{"C11", "C19"}, "%s", c.args[2])
		return one(st, Sym("snapPath"), Sym("snapRel")), true
	case "snaps.syncRegistry.getTestID", "(*snaps.syncRegistry).getTestID":
		inc(st, "ordinals")
		chk(!r.e.standalone && c.args[0] == d.gval("testsRegistry"), "the ordinal comes from the registry of its kind", []string{"C03", "C07"}, "%s", c.args[0])
		chk(val(1) == Sym("snapPath") && val(2) == Sym("testname"), "the ordinal is taken for this file and test", []string{"C03", "C07"}, "(%s, %s)", val(1), val(2))
		return one(st, Sym("tid")), true
	case "(*snaps.syncStandaloneRegistry).getTestID":
		inc(st, "ordinals")
		chk(r.e.standalone && c.args[0] == d.gval("standaloneTestsRegistry"), "the ordinal comes from the registry of its kind", []string{"C03", "C07", "C19"}, "%s", c.args[0])
		chk(val(1) == Sym("snapPath") && val(2) == Sym("snapRel"), "the ordinal is taken for this path", []string{"C03", "C07", "C19", "C11"}, "(%s, %s)", val(1), val(2))
		return one(st, Sym("standalonePath"), Sym("standaloneRel")), true
	case "(*snaps.syncRegistry).reset":
		inc(st, "resets")
		chk(c.args[0] == d.gval("testsRegistry") && val(1) == Sym("snapPath") && val(2) == Sym("testname"), "the end of the test resets the ordinal it used", []string{"C03", "C01", "C04", "C07"}, "(%s, %s)", val(1), val(2))
		return one(st), true
	case "(*snaps.syncStandaloneRegistry).reset":
		inc(st, "resets")
		chk(c.args[0] == d.gval("standaloneTestsRegistry") && val(1) == Sym("snapPath"), "the end of the test resets the ordinal it used", []string{"C03", "C01", "C04", "C19", "C07"}, "(%s)", val(1))
		return one(st), true
	// ---- the store
	case "snaps.getPrevSnapshot":
		chk(val(0) == Sym("tid") && val(1) == Sym("snapPath"), "the entry read is the call's slot", []string{"C03", "C01", "C02"}, "(%s, %s)", val(0), val(1))
		inc(st, "prevs")
		a, b, e := st.clone(), st.clone(), st.clone()
		a.setg("prev", Str("found"))
		b.setg("prev", Str("missing"))
		e.setg("prev", Str("error"))
		line := x.fresh(a, "line")
		other := x.errVal(e, "read")
		s2 := e.assume(App("errors.Is", other, d.gval("errSnapNotFound")), false)
		outs := []Out{
			{st: a, vals: []*Term{Sym("prev"), line, Nil}},
			{st: b, vals: []*Term{Empty, Int(-1), d.gval("errSnapNotFound")}},
		}
		for _, s := range s2 {
			outs = append(outs, Out{st: s, vals: []*Term{Empty, Int(-1), other}})
		}
		return outs, true
	case "snaps.addNewSnapshot":
		r.writing(x, st, c, "create", val(0) == Sym("tid") && val(2) == Sym("snapPath"), val(1))
		return r.writeOutcome(x, st, "create"), true
	case "snaps.updateSnapshot":
		r.writing(x, st, c, "update", val(0) == Sym("tid") && val(2) == Sym("snapPath"), val(1))
		return r.writeOutcome(x, st, "update"), true
	case "os.ReadFile":
		chk(r.e.standalone && val(0) == Sym("standalonePath"), "the file read is the call's slot", []string{"C19", "C03", "C02", "C01"}, "%s", val(0))
		inc(st, "prevs")
		a, b := st.clone(), st.clone()
		a.setg("prev", Str("found"))
		b.setg("prev", Str("missing"))
		e := x.errVal(b, "os.ReadFile")
		return []Out{{st: a, vals: []*Term{Sym("prev"), Nil}}, {st: b, vals: []*Term{Nil, e}}}, true
	case "os.WriteFile":
		kind := r.writeKind(st)
		r.writing(x, st, c, kind, r.e.standalone && val(0) == Sym("standalonePath"), val(1))
		return r.writeOutcome(x, st, kind), true
	case "os.OpenFile", "os.Create":
		flags := int64(oRDWR | oCREATE | oTRUNC)
		if c.name == "os.OpenFile" {
			if !c.args[1].isInt() {
				break
			}
			flags = c.args[1].c
		}
		if flags&3 == 0 || flags&oCREATE == 0 {
			break
		}
		// a standalone snapshot written through a handle
		kind := r.writeKind(st)
		chk(r.e.standalone && val(0) == Sym("standalonePath"), "the entry written is the call's slot", []string{"C03", "C04", "C11", "C19"}, "")
		chk(r.gate(st, kind) == True, "the mode table allows the call to "+kind, []string{"C05", "C04"}, "the gate evaluates to %s", r.gate(st, kind))
		chk(flags&oTRUNC != 0 && flags&oAPPEND == 0 || kind == "create", "a standalone snapshot is replaced as a whole", []string{"C04", "C19"}, "flags %#x", flags)
		b := st.clone()
		b.setg("writeerr", True)
		f := x.newObj(st, "file:"+x.p.line(c.pos), nil)
		st.setg("handle", f)
		return []Out{{st: st, vals: []*Term{f, Nil}}, {st: b, vals: []*Term{Nil, x.errVal(b, c.name)}}}, true
	case "write", "(*os.File).Write", "(*os.File).WriteString":
		if h := st.g("handle"); h != nil && h != Nil && c.args[0] == h {
			kind := r.writeKind(st)
			r.writing(x, st, c, kind, r.e.standalone, val(1))
			outs := r.writeOutcome(x, st, kind)
			for i, n := range []*Term{lenT(val(1)), Int(0)} {
				outs[i].vals = []*Term{n, outs[i].vals[0]}
			}
			return outs, true
		}
	case "(*os.File).Close", "(*os.File).Sync":
		if h := st.g("handle"); h != nil && h != Nil && c.args[0] == h {
			return one(st, Nil), true // assumption
		}
	case "os.MkdirAll":
		chk(val(0) == App("filepath.Dir", Sym("standalonePath")) || val(0) == App("filepath.Dir", Sym("snapPath")), "the directory created is the snapshot's", []string{"C11", "C19"}, "%s", val(0))
		d.rep.check(r.gate(st, "create") == True || r.gate(st, "update") == True, x, st, c.pos, "directories are created only when writing is allowed", []string{"C05"}, "")
		a, b := st.clone(), st.clone()
		b.setg("writeerr", True)
		return []Out{{st: a, vals: []*Term{Nil}}, {st: b, vals: []*Term{x.errVal(b, "os.MkdirAll")}}}, true
	case "snaps.prettyDiff":
		r.compared(x, st, c, val(0), val(1))
		var outs []Out
		eq := Eq(val(0), val(1))
		for _, s := range st.clone().assume(eq, true) {
			s.setg("diff", Str("equal"))
			outs = append(outs, one(s, Empty)...)
		}
		for _, s := range st.clone().assume(eq, false) {
			s.setg("diff", Str("differs"))
			for _, s2 := range s.assume(Eq(Sym("report"), Empty), false) {
				outs = append(outs, one(s2, Sym("report"))...)
			}
		}
		return outs, true
	// ---- formatting
	case "github.com/tidwall/gjson.Valid", "github.com/tidwall/gjson.ValidBytes":
		return one(st, App("gjson.valid", val(0))), true
	case "encoding/json.Marshal", "github.com/goccy/go-yaml.MarshalWithOptions", "github.com/goccy/go-yaml.Marshal":
		b := st.clone()
		b.setg("invalid", True)
		k := "jsonmarshal"
		if c.name != "encoding/json.Marshal" {
			k = "yamlmarshal"
			opts := Nil
			if len(c.args) > 1 {
				opts = val(1)
			}
			chk(!anyTerm(opts, func(t *Term) bool { return t.op == "fresh" || t.op == "sym" || t == r.input }), "the YAML encoder options are fixed", []string{"C18"}, "%s", opts)
			chk(anyTerm(opts, func(t *Term) bool { return t.is("github.com/goccy/go-yaml.Indent") }), "the YAML encoder options are the module's", []string{"C18"}, "%s", opts)
		}
		st.setg("valid", App(k, val(0)))
		return []Out{{st: st, vals: []*Term{App(k, val(0)), Nil}}, {st: b, vals: []*Term{Nil, x.errVal(b, c.name)}}}, true
	case "github.com/goccy/go-yaml.Unmarshal", "github.com/goccy/go-yaml.UnmarshalWithOptions":
		b := st.clone()
		b.setg("invalid", True)
		st.setg("valid", val(0))
		return []Out{{st: st, vals: []*Term{Nil}}, {st: b, vals: []*Term{x.errVal(b, c.name)}}}, true
	case "github.com/tidwall/pretty.PrettyOptions":
		o := c.args[1]
		if o == Nil {
			return one(st, App("prettyjson", val(0), Str("default"))), true
		}
		get := func(n string, t types.Type) *Term {
			for i, f := range []string{"Width", "Prefix", "Indent", "SortKeys"} {
				if f == n {
					return st.norm(x.load(st, fa(o, i, n), t))
				}
			}
			return nil
		}
		return one(st, App("prettyjson", val(0), get("Width", types.Typ[types.Int]), get("Prefix", types.Typ[types.String]), get("Indent", types.Typ[types.String]), get("SortKeys", types.Typ[types.Bool]))), true
	case "(match.JSONMatcher).JSON", "(match.YAMLMatcher).YAML":
		return r.matcher(x, st, c), true
	}
	if o, ok := lockHook(x, st, c); ok {
		return o, true
	}
	if e := fsEffect(x, st, c); e != "" {
		d.rep.bad(x, st, c.pos, "unexpected file-system effect: "+e, []string{"C05", "C02", "C04"}, "")
	}
	return nil, false
}

// says: does a text hold the words, whatever case applies?
func says(t *Term, words string) bool {
	switch t.op {
	case "str":
		return strings.Contains(t.val, words)
	case "ite":
		return says(t.args[1], words) && says(t.args[2], words)
	}
	for _, a := range t.args {
		if says(a, words) {
			return true
		}
	}
	return false
}

// checkConfig: the location is computed from the options of the Config of the call
func (r *entryRun) checkConfig(x *Exec, st *State, c *CallInfo) {
	props := []string{"C11", "C12", "C19", "C05"}
	if c.args[0] == Nil {
		r.d.rep.bad(x, st, c.pos, "no Config is used", props, "")
		return
	}
	tn := r.d.p.pkgs[snaps].Members["Config"].(*ssa.Type)
	s := structOf(tn.Type())
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if n != "filename" && n != "snapsDir" && n != "extension" {
			continue
		}
		got := x.load(st, fa(c.args[0], i, n), s.Field(i).Type())
		r.d.rep.check(r.sameOpt(st, got, r.options[n]), x, st, c.pos, "the location uses the call's option "+n, props, "%s instead of %s", got, r.options[n])
	}
}

func (r *entryRun) sameOpt(st *State, got, want *Term) bool {
	return same(st, got, want) || st.eval(got) == st.eval(want)
}

// gate evaluates the mode table
func (r *entryRun) gate(st *State, which string) *Term {
	ci := r.d.gval("isCI")
	upd := r.options["update"]
	env := True
	if which == "update" {
		env = Eq(r.d.gval("updateVAR"), Str("true"))
	}
	return st.eval(Ite(ci, False, Ite(Eq(upd, Nil), env, App("ld", upd))))
}

// writeKind: what writing the snapshot now amounts to
func (r *entryRun) writeKind(st *State) string {
	if st.g("prev") == Str("found") {
		return "update"
	}
	return "create"
}

func (r *entryRun) writing(x *Exec, st *State, c *CallInfo, kind string, addressed bool, text *Term) {
	d := r.d
	chk := func(ok bool, what string, props []string, f string, a ...any) {
		d.rep.check(ok, x, st, c.pos, what, props, f, a...)
	}
	chk(addressed, "the entry written is the call's slot", []string{"C03", "C04", "C11", "C19"}, "")
	chk(r.gate(st, kind) == True, "the mode table allows the call to "+kind, []string{"C05", "C04"}, "the gate evaluates to %s", r.gate(st, kind))
	chk(st.g("invalid") == Nil && st.g("key:materr") == Nil && !r.jsonInvalid(st), "nothing is written after a validation or matcher error", []string{"C17", "C14", "C18"}, "")
	if kind == "create" {
		chk(st.g("prev") == Str("missing"), "only a missing snapshot is created", []string{"C03", "C05", "C02"}, "prev is %s", st.g("prev"))
	} else {
		chk(st.g("prev") == Str("found"), "only an existing snapshot is updated", []string{"C03", "C04"}, "prev is %s", st.g("prev"))
		chk(r.differs(st) == 1, "a snapshot that matches is not rewritten", []string{"C04", "C01"}, "")
	}
	r.checkText(x, st, c.pos, text)
	chk(st.g("write") == Nil, "a call writes at most once", []string{"C20", "C03"}, "")
	st.setg("write", Str(kind))
}

func (r *entryRun) jsonInvalid(st *State) bool {
	for f, v := range st.facts {
		if f.is("gjson.valid") && !v {
			return true
		}
	}
	return false
}

func (r *entryRun) writeOutcome(x *Exec, st *State, kind string) []Out {
	a, b := st.clone(), st.clone()
	a.setg("written", Str(kind))
	b.setg("writeerr", True)
	return []Out{{st: a, vals: []*Term{Nil}}, {st: b, vals: []*Term{x.errVal(b, kind)}}}
}

// differs: 1 known to differ, -1 known equal, 0 unknown
func (r *entryRun) differs(st *State) int {
	a, b, ok := r.sides(st)
	if !ok {
		return 0
	}
	switch st.eval(Eq(a, b)) {
	case True:
		return -1
	case False:
		return 1
	}
	return 0
}

func (r *entryRun) sides(st *State) (*Term, *Term, bool) {
	t := st.g("cmpB")
	if t == Nil {
		return nil, nil, false
	}
	return st.g("cmpA"), t, true
}

var Esc = Str("/-/-/-/")

// canonical is the text the call must store, before its lines are escaped
func (r *entryRun) canonical(st *State) (t *Term, escaped bool) {
	switch r.e.kind {
	case "values":
		return joinT(App("coll", r.input, App(kSprint, mk("seq", "", 0, nil, Elem))), Str("\n")), true
	case "value":
		return App(kSprint, mk("seq", "", 0, nil, r.input)), false
	case "json":
		j := r.options["json"]
		def := Eq(j, Nil)
		opt := func(n string, i int, v *Term) *Term { return Ite(def, v, App("ld", fa(j, i, n))) }
		return trimSuffixT(App("prettyjson", st.g("cur"), opt("Width", 0, Int(0)), Empty, opt("Indent", 1, Str(" ")), opt("SortKeys", 2, True)), Str("\n")), false
	case "yaml":
		return st.g("cur"), true
	}
	return nil, false
}

func (r *entryRun) formatProps() []string {
	switch r.e.kind {
	case "json":
		return []string{"C14", "C01", "C02", "C16", "C15", "C19"}
	case "yaml":
		return []string{"C18", "C01", "C02", "C16", "C15"}
	case "value":
		return []string{"C19", "C01", "C02"}
	}
	return []string{"C01", "C02"}
}

func (r *entryRun) checkText(x *Exec, st *State, pos token.Pos, text *Term) {
	want, escaped := r.canonical(st)
	want = st.simp(want)
	text = st.simp(text)
	ok := same(st, text, want)
	if escaped {
		f := perLine(st, text, want)
		if ok = f != nil; ok {
			r.d.stored = append(r.d.stored, lineView{x: x, st: st, fn: r.d.rep.fn, pos: pos, f: f, not: lacking(st, want)})
		}
	}
	r.d.rep.check(ok, x, st, pos, "the text stored is the canonical text of the value", r.formatProps(), "stores   %s\n    expected %s", text, want)
	r.checkDoc(x, st, pos)
}

func (r *entryRun) checkDoc(x *Exec, st *State, pos token.Pos) {
	if r.doc0 == nil {
		return
	}
	n := lenT(r.match)
	r.d.rep.check(st.holds(Eq(st.g("idx"), n)), x, st, pos, "every matcher is applied before the text is used", []string{"C15", "C16", "C17"}, "applied %s of %s", st.g("idx"), n)
	ok := st.g("valid") == r.doc0 || r.e.kind == "json" && st.holds(App("gjson.valid", r.doc0))
	r.d.rep.check(ok, x, st, pos, "the input was validated", []string{"C14", "C18", "C17"}, "no validation of %s on this path", r.doc0)
}

// compared: the two sides given to prettyDiff
func (r *entryRun) compared(x *Exec, st *State, c *CallInfo, a, b *Term) {
	text, escaped := r.canonical(st)
	text = st.eval(text)
	prev := Sym("prev")
	okA := a == prev
	okB := b == text || same(st, st.eval(b), text)
	if escaped {
		g, f := perLine(st, st.simp(a), prev), perLine(st, st.simp(b), text)
		okA, okB = g != nil, f != nil
		if okA && okB {
			r.d.compared = append(r.d.compared, lineView{x: x, st: st, fn: r.d.rep.fn, pos: c.pos, f: f, g: g, not: lacking(st, text), notStored: lacking(st, prev)})
		}
	}
	r.d.rep.check(st.g("prev") == Str("found"), x, st, c.pos, "comparison happens only with a stored snapshot", []string{"C02", "C20"}, "prev is %s", st.g("prev"))
	r.d.rep.check(okA, x, st, c.pos, "the stored side of the comparison is the entry read", append(r.formatProps(), "C13"), "compares %s\n    expected %s", a, prev)
	r.d.rep.check(okB, x, st, c.pos, "the received side of the comparison is the value's text", append(r.formatProps(), "C13"), "compares %s\n    expected %s", st.eval(b), text)
	r.checkDoc(x, st, c.pos)
	st.setg("cmpA", a)
	st.setg("cmpB", b)
	want := Sym("snapRel")
	if r.e.standalone {
		want = Sym("standaloneRel")
	}
	r.d.rep.check(st.norm(x.value(st, c.args[2])) == want, x, st, c.pos, "the report names the snapshot's location", []string{"C11"}, "%s", c.args[2])
}

// matcher applies one user matcher
func (r *entryRun) matcher(x *Exec, st *State, c *CallInfo) []Out {
	d := r.d
	m, doc := st.norm(c.args[0]), st.norm(x.value(st, c.args[1]))
	idx, cur := st.g("idx"), st.g("cur")
	d.rep.check(same(st, m, selT(r.match, idx)), x, st, c.pos, "matchers are applied in order, each once", []string{"C15", "C16", "C17"}, "applies %s, next is element %s", m, idx)
	d.rep.check(same(st, doc, cur), x, st, c.pos, "a matcher works on the output of the ones before it", []string{"C15", "C16", "C17"}, "works on %s, the document is %s", doc, cur)
	if r.inkind == "[]byte" && r.e.kind == "json" {
		d.rep.check(strip(c.args[1]) != r.doc0, x, st, c.pos, "JSON matchers never work on the caller's bytes in place", []string{"C15"}, "the matcher receives %s", c.args[1])
	}
	st.setg("idx", AddC(idx, 1))
	a, b := st.clone(), st.clone()
	out := App("mout", m, doc)
	a.setg("cur", out)
	errs := App("merrs", m, doc)
	b.setg("key:materr", True)
	b.setg("errs", seqcatT(b.g("errs"), errs))
	outs := []Out{{st: a, vals: []*Term{out, Nil}}}
	for _, s := range b.assume(Le(lenT(errs), Int(0)), false) {
		outs = append(outs, Out{st: s, vals: []*Term{App("mbad", m, doc), errs}})
	}
	return outs
}

// ---------------------------------------------------------------- outcomes

func (r *entryRun) ret(x *Exec, o Out) {
	d, st := r.d, o.st
	chk := func(ok bool, what string, props []string, f string, a ...any) {
		d.rep.check(ok, x, st, token.NoPos, what, props, f, a...)
	}
	unlocked(x, st)
	ev := r.eventNames(st)
	sig := fmt.Sprintf("errors %s, added %s, updated %s, counters [%s], written %s", st.g("nerr"), st.g("nadded"), st.g("nupdated"), ev, st.g("written"))
	zero := func(gs ...string) bool {
		for _, g := range gs {
			if st.g(g) != Int(0) {
				return false
			}
		}
		return true
	}
	if r.e.kind == "values" && st.holds(Le(lenT(r.input), Int(0))) {
		chk(zero("nerr", "nadded", "nupdated") && ev == "" && st.g("write") == Nil, "a call without values has no outcome", []string{"C20"}, sig)
		return
	}
	chk(st.g("ordinals") == Int(1), "every call consumes exactly one ordinal", []string{"C03", "C17", "C01", "C07"}, "%s ordinals", st.g("ordinals"))
	chk(st.g("cleanups") == Int(1), "every call arranges the reset of its ordinal", []string{"C03", "C01", "C04"}, "%s cleanups", st.g("cleanups"))
	if st.g("cleanup") != Nil {
		r.runCleanup(x, st)
	}
	all := []string{"C20", "C01", "C02", "C05"}
	one := Int(1)
	invalid := st.g("invalid") == True || r.jsonInvalid(st)
	reason := ""
	switch {
	case invalid:
		reason = "invalid"
	case st.g("key:materr") == True:
		reason = "matchers"
	case st.g("prev") == Str("error"):
		reason = "read error"
	case st.g("prev") == Str("missing"):
		reason = "missing"
	case st.g("prev") == Str("found"):
		switch r.differs(st) {
		case 1:
			reason = "differs"
		case -1:
			reason = "equal"
		default:
			reason = "not compared"
		}
	default:
		reason = "not looked up"
	}
	var want string
	switch reason {
	case "invalid", "matchers", "read error":
		want = "failed"
	case "missing":
		want = r.byGate(st, "create", "added")
	case "differs":
		want = r.byGate(st, "update", "updated")
	case "equal":
		want = "passed"
	default:
		chk(false, "the call ends without comparing: "+reason, all, sig)
		return
	}
	if st.g("writeerr") == True {
		want = "failed"
	}
	props := map[string][]string{
		"invalid":    {"C14", "C18", "C17", "C20"},
		"matchers":   {"C17", "C20", "C16"},
		"read error": {"C01", "C20", "C02"},
		"missing":    {"C05", "C20", "C03", "C01", "C02"},
		"differs":    {"C02", "C04", "C05", "C20", "C16", "C13"},
		"equal":      {"C01", "C04", "C20", "C16"},
	}[reason]
	if r.e.standalone {
		props = append(props, "C19")
	}
	switch want {
	case "failed":
		chk(st.g("nerr") == one && zero("nadded", "nupdated") && ev == "erred" && st.g("written") == Nil, "outcome when "+reason+": exactly one error and nothing else", props, sig)
		r.errText(x, st, reason, props)
	case "added":
		chk(st.g("nadded") == one && zero("nerr", "nupdated") && ev == "added" && st.g("written") == Str("create"), "outcome when "+reason+": created and logged once", props, sig)
	case "updated":
		chk(st.g("nupdated") == one && zero("nerr", "nadded") && ev == "updated" && st.g("written") == Str("update"), "outcome when "+reason+": rewritten and logged once", props, sig)
	case "passed":
		chk(zero("nerr", "nadded", "nupdated") && ev == "passed" && st.g("write") == Nil, "outcome when "+reason+": passes silently without writing", props, sig)
	default:
		chk(false, "outcome when "+reason+" does not consult the mode table", append(props, "C05"), sig+"; gate "+want)
	}
}

func (r *entryRun) byGate(st *State, which, yes string) string {
	switch g := r.gate(st, which); g {
	case True:
		return yes
	case False:
		return "failed"
	default:
		return g.String()
	}
}

// errText: what the one error says
func (r *entryRun) errText(x *Exec, st *State, reason string, props []string) {
	a := st.g("errarg")
	if a == Nil || st.g("writeerr") == True {
		return
	}
	switch reason {
	case "matchers":
		errs := st.g("errs")
		for _, f := range []string{"Matcher", "Path", "Reason"} {
			r.d.rep.check(anyTerm(a, func(t *Term) bool {
				return (t.is("catmap") || t.is("coll")) && len(t.args) > 1 && st.norm(t.args[0]) == st.norm(errs) && mentions(t.args[1], f)
			}),
				x, st, token.NoPos, "the error names the "+f+" of every failing matcher", []string{"C17"}, "error text %s\n    failures %s", a, errs)
		}
	case "differs":
		r.d.rep.check(contains(a, Sym("report")), x, st, token.NoPos, "the error shows the difference", []string{"C13", "C02"}, "%s", a)
	}
}

// mentions reports whether the text of an element mentions the field f of it whatever the case
func mentions(t *Term, f string) bool {
	if t.is("ite") {
		return mentions(t.args[1], f) && mentions(t.args[2], f)
	}
	return anyTerm(t, func(u *Term) bool { return u.op == "field" && u.val == f })
}

func (r *entryRun) runCleanup(x *Exec, st *State) {
	c := &CallInfo{recv: st.g("cleanup"), name: "dyn", sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
	x.resolveDyn(c)
	s := st.clone()
	s.setg("resets", Int(0))
	if c.fn == nil {
		r.d.rep.bad(x, st, token.NoPos, "the cleanup function is unknown", []string{"C03"}, c.recv.String())
		return
	}
	defer func() {
		if g := recover(); g != nil {
			if u, ok := g.(giveUp); ok {
				r.d.rep.bad(x, st, token.NoPos, "undecided: cleanup "+u.msg, []string{"C03"}, "")
				return
			}
			panic(g)
		}
	}()
	for _, o := range x.dispatch(s, c) {
		if o.panic {
			continue
		}
		r.d.rep.check(o.st.g("resets") == Int(1), x, o.st, token.NoPos, "the cleanup resets the ordinal", []string{"C03", "C01", "C04", "C07", "C19"}, "%s resets", o.st.g("resets"))
	}
}

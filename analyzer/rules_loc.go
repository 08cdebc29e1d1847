package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- the stack walk

const testSuffix = "_test.go"

// ruleBaseCaller checks the stack walk inductively: it starts no deeper than the caller asked for, looks at
// every frame in turn, passes a frame only when it is neither the test runner nor in a test file, and ends
// with the first test file, or with the outermost file below the test runner.
func (d *Driver) ruleBaseCaller() {
	fn := d.begin("CALLER", snaps, "baseCaller", "C11")
	if fn == nil {
		return
	}
	skip := Sym("skip")
	runner := func(st *State, i *Term) *Term {
		return st.eval(Eq(App("funcname", App("nonnil", App("funcof", App("framepc", i)))), Str("testing.tRunner")))
	}
	inTest := func(st *State, i *Term) *Term {
		return st.eval(App("hassuffix", App("framefile", i), Str(testSuffix)))
	}
	mon := &Mon{name: "CALLER", noSummary: true, noMerge: true}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if c.name != "runtime.Caller" {
			if strings.HasPrefix(c.name, "runtime.Callers") || c.name == "runtime.Stack" {
				x.undecided("the stack is walked with %s", c.name)
			}
			return nil, false
		}
		i := st.norm(c.args[0])
		last := st.g("frame")
		d.rep.check(st.norm(Sub(i, last)) == Int(1), x, st, c.pos, "every frame is looked at", nil, "frame %s after frame %s", i, last)
		d.rep.check(inTest(st, last) == False, x, st, c.pos, "the walk does not pass a test file", nil, "frame %s", last)
		d.rep.check(st.eval(App("hasframe", last)) == True, x, st, c.pos, "the walk ends with the stack", nil, "frame %s", last)
		d.rep.check(runner(st, last) == False || st.eval(App("hasfunc", App("framepc", last))) == False, x, st, c.pos, "the walk does not pass the test runner", nil, "frame %s", last)
		d.rep.check(len(x.stack) == 1, x, st, c.pos, "the walk starts no deeper than asked for", nil, "the stack is walked %d calls below baseCaller", len(x.stack)-1)
		st.setg("before", st.g("file"))
		st.setg("file", App("framefile", i))
		st.setg("frame", i)
		return nil, false
	}
	st := newState()
	st = st.assume(Le(Int(0), skip), true)[0]
	// the frames the caller asks to skip are below the test: the walk has passed them
	for t, v := range map[*Term]bool{App("hasframe", skip): true, App("hasfunc", App("framepc", skip)): true, App("hassuffix", App("framefile", skip), Str(testSuffix)): false,
		Eq(App("funcname", App("nonnil", App("funcof", App("framepc", skip)))), Str("testing.tRunner")): false} {
		st = st.assume(t, v)[0]
	}
	st.setg("frame", skip)
	st.setg("file", Empty)
	st.setg("before", Empty)
	d.run(fn, mon, []*Term{skip}, st, func(x *Exec, o Out) {
		st := o.st
		i := st.g("frame")
		got := st.norm(o.vals[0])
		switch {
		case st.eval(App("hasframe", i)) == False, runner(st, i) == True, st.eval(App("hasfunc", App("framepc", i))) == False:
			d.rep.check(got == st.norm(st.g("before")), x, st, token.NoPos, "without a test file the caller is the function the test runner runs", nil, "returns %s", got)
		case inTest(st, i) == True:
			d.rep.check(got == st.norm(App("framefile", i)), x, st, token.NoPos, "the caller is the first test file on the stack", nil, "returns %s", got)
		default:
			d.rep.bad(x, st, token.NoPos, "the walk stops at a test file or at the test runner", nil, "returns "+got.String()+" at frame "+i.String())
		}
	})
	d.rep.must("the walk starts no deeper than asked for", "every frame is looked at", "the walk does not pass a test file", "the walk does not pass the test runner", "the caller is the first test file on the stack", "without a test file the caller is the function the test runner runs")
}

// ---------------------------------------------------------------- the location

// callsTo finds the functions of the package that call name
func (d *Driver) callsTo(pkg, name string) (fns []*ssa.Function) {
	for _, f := range d.p.srcFns {
		if f.Pkg == nil || f.Pkg != d.p.pkgs[pkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && short(s.String()) == name {
						fns = append(fns, f)
					}
				}
			}
		}
	}
	return
}

// trimDetector is the outermost predicate without parameters that looks at the build information
func (d *Driver) trimDetector() *ssa.Function {
	cur := map[*ssa.Function]bool{}
	for _, f := range d.callsTo(snaps, "runtime/debug.ReadBuildInfo") {
		cur[f] = true
	}
	pred := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		return f.Signature.Recv() == nil && len(f.Params) == 0 && f.Parent() == nil && r.Len() == 1 && types.Identical(r.At(0).Type().Underlying(), types.Typ[types.Bool])
	}
	var last *ssa.Function
	for i := 0; i < 8 && len(cur) > 0; i++ {
		next := map[*ssa.Function]bool{}
		var here []*ssa.Function
		for f := range cur {
			if pred(f) {
				here = append(here, f)
			}
			if f.Parent() != nil {
				next[f.Parent()] = true
				continue
			}
			for _, g := range d.callsTo(snaps, short(f.String())) {
				if g != f && !strings.HasPrefix(g.Name(), "init") {
					next[g] = true
				}
			}
		}
		if len(here) > 1 {
			return nil
		}
		if len(here) == 1 {
			last = here[0]
		}
		cur = next
	}
	return last
}

// ruleLocation checks the paths snapshotPath computes, for every combination of options.
func (d *Driver) ruleLocation() {
	fn := d.begin("LOC", snaps, "snapshotPath", "C11")
	if fn == nil {
		return
	}
	detector := d.trimDetector()
	if detector == nil {
		d.rep.bad(nil, nil, fn.Pos(), "one function tells whether the build is trimmed", nil, "")
		return
	}
	trim := App(short(detector.String()))
	caller := Sym("caller")
	depths := map[int64]bool{}
	for _, standalone := range []bool{false, true} {
		tname := Sym("testname")
		mon := &Mon{name: "LOC", noMerge: true}
		mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			if c.fn == detector {
				return one(st, trim), true
			}
			switch c.name {
			case "snaps.baseCaller":
				k := st.norm(c.args[0])
				d.rep.check(k.isInt(), x, st, c.pos, "the number of frames skipped is fixed", nil, "%s", k)
				if k.isInt() {
					// frames between here and snapshotPath are library frames too
					depths[k.c-int64(len(x.stack)-1)] = true
				}
				return one(st, caller), true
			case "os.Getwd", "path/filepath.Abs", "os.Getenv", "os.LookupEnv", "os.Executable":
				d.rep.bad(x, st, c.pos, "the location does not depend on the state of the process", nil, c.name)
			}
			return nil, false
		}
		cfg := Sym("c")
		st := newState()
		st = st.assume(Eq(cfg, Nil), false)[0]
		x := d.newExec(fn, mon)
		opt := map[string]*Term{}
		tn, _ := d.p.pkgs[snaps].Members["Config"].(*ssa.Type)
		if tn == nil {
			d.rep.bad(nil, nil, fn.Pos(), "anchor type Config is missing", nil, "")
			return
		}
		for n, i := range d.configFields() {
			opt[n] = x.load(st, fa(cfg, i, n), structOf(tn.Type()).Field(i).Type())
		}
		k := Sym("k")
		d.runOn(x, fn, []*Term{cfg, tname, Bool(standalone)}, st, func(x *Exec, o Out) {
			st := o.st
			path, rel := st.norm(x.value(st, o.vals[0])), st.norm(x.value(st, o.vals[1]))
			final, shown := path, rel
			if standalone {
				final, shown = x.sprintf(st, path, []*Term{mk("iface", "int", 0, nil, k)}), x.sprintf(st, rel, []*Term{mk("iface", "int", 0, nil, k)})
			}
			// the caller is a Go file
			stem := App("stem", App("filepath.Base", caller))
			final = subst(final, map[*Term]*Term{App("trimsuffix", App("filepath.Base", caller), Str(".go")): stem})
			shown = subst(shown, map[*Term]*Term{App("trimsuffix", App("filepath.Base", caller), Str(".go")): stem})
			final, shown = st.norm(final), st.norm(shown)
			// the directory
			dir := opt["snapsDir"]
			var base *Term
			switch st.eval(App("filepath.IsAbs", dir)) {
			case True:
			case False:
				switch st.eval(trim) {
				case False:
					base = App("filepath.Dir", caller)
				case True:
					base = App("os.Getwd")
				default:
					d.rep.bad(x, st, token.NoPos, "the directory depends on whether the build is trimmed", nil, final.String())
					return
				}
			default:
				d.rep.bad(x, st, token.NoPos, "the directory depends on whether Dir is absolute", nil, final.String())
				return
			}
			// the name
			name := opt["filename"]
			switch st.eval(Eq(name, Empty)) {
			case True:
				name = App("stem", App("filepath.Base", caller))
				if standalone {
					name = App("replaceall", tname, Str("/"), Str("_"))
				}
			case False:
			default:
				d.rep.bad(x, st, token.NoPos, "the name depends on whether Filename is set", nil, final.String())
				return
			}
			file := []*Term{name}
			if standalone {
				file = append(file, Str("_"), App("itoa", k))
			}
			file = append(file, Str(".snap"), opt["extension"])
			elems := []*Term{dir, Concat(file...)}
			if base != nil {
				elems = append([]*Term{base}, elems...)
			}
			want := st.norm(joinPath(elems))
			d.rep.check(final == want, x, st, token.NoPos, "the location is <dir>/<name>.snap<Ext>", nil, "got  %s\n    want %s", final, want)
			ok := shown == final || shown.is("filepath.Rel") && st.norm(shown.args[1]) == final || rel == Empty
			d.rep.check(ok, x, st, token.NoPos, "the location shown is the location used", nil, "shown %s, used %s", shown, final)
		})
	}
	d.rep.must("the location is <dir>/<name>.snap<Ext>", "the location shown is the location used")
	d.skipped = depths
}

// ruleTrim checks how a trimmed build is recognised: by the flags of the go command, by the recorded build
// settings, and, when neither says anything, by the missing GOROOT.
func (d *Driver) ruleTrim() {
	d.rep.begin("TRIM", "trimmed build", "C11")
	fn := d.trimDetector()
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "one function tells whether the build is trimmed", nil, "")
		return
	}
	d.rep.fn = short(fn.String())
	isFlag := func(t *Term) bool { return t.isStr() && strings.TrimLeft(t.val, "-") == "trimpath" }
	mentions := func(t *Term, name string) bool {
		return anyTerm(t, func(u *Term) bool { return strings.HasPrefix(u.val, name) })
	}
	mon := &Mon{name: "TRIM", noMerge: true}
	env := App("os.Getenv", Str("GOFLAGS"))
	// the elements of the two lists are looked at one by one
	list := func(seq *Term) string {
		switch {
		case seq.is("split") && seq.args[0] == env && seq.args[1] == Str(" ") || seq.is("strings.Fields") && seq.args[0] == env:
			return "flag"
		case strings.Contains(seq.String(), "ReadBuildInfo") && strings.Contains(seq.String(), "Settings"):
			return "setting"
		}
		return ""
	}
	lists := map[string]*Term{}
	judge := func(st *State, l string) {
		e := st.g(l)
		if e == Nil {
			return
		}
		st.setg(l, Nil)
		if l == "setting" {
			e = fieldOf(e, 0, "Key")
			if st.eval(Eq(e, Str("-trimpath"))) != False {
				st.setg("missed", True)
			}
			return
		}
		if st.eval(Eq(e, Str("-trimpath"))) != False || st.eval(Eq(e, Str("--trimpath"))) != False {
			st.setg("missed", True)
		}
	}
	mon.index = func(x *Exec, st *State, seq, i *Term, pos token.Pos) {
		seq = st.norm(x.content(st, seq))
		l := list(seq)
		if l == "" {
			return
		}
		if e := st.norm(selT(seq, i)); e != st.g(l) && i == st.g(l+"n") {
			judge(st, l)
			st.setg(l, e)
			st.setg(l+"n", AddC(i, 1))
			lists[l] = seq
		}
	}
	mon.back = func(x *Exec, st *State, l *loop, pos token.Pos) {
		judge(st, "flag")
		judge(st, "setting")
	}
	mon.exhaust = func(x *Exec, st *State, seq *Term, pos token.Pos) {
		if l := list(st.norm(seq)); l != "" {
			lists[l] = seq
			st.setg(l+"n", lenT(seq))
		}
	}
	st0 := newState()
	for _, l := range []string{"flag", "setting"} {
		st0.setg(l, Nil)
		st0.setg(l+"n", Int(0))
	}
	st0.setg("missed", False)
	// seen: every element of the list was looked at
	seen := func(st *State, l string) bool {
		s := lists[l]
		if st.g("missed") == True {
			return false
		}
		if s != nil && st.holds(Le(lenT(s), st.g(l+"n"))) {
			return true
		}
		for t, v := range st.facts {
			if l == "setting" && t.op == "eq" && v && (list(t.args[0]) == l || list(t.args[1]) == l) {
				return true // nothing is recorded
			}
			if l == "setting" && strings.HasPrefix(t.val, "runtime/debug.ReadBuildInfo$1") && !v {
				return true // nothing is known
			}
			if l == "flag" && t.is("contains") && mentions(t, "os.Getenv") && t.args[0] == env && isFlag(t.args[1]) && !v {
				return true
			}
		}
		return false
	}
	d.run(fn, mon, nil, st0, func(x *Exec, o Out) {
		for _, b := range []bool{true, false} {
			for _, st := range o.st.clone().assume(o.vals[0], b) {
				var flags, key, val, noval, root, noroot bool
				for t, v := range st.facts {
					if t.is("contains") && mentions(t, "os.Getenv") && t.args[0] == env && isFlag(t.args[1]) && v {
						flags = true
					}
					if t.op != "eq" {
						continue
					}
					for i := range t.args {
						l, r := t.args[i], t.args[1-i]
						switch {
						case strings.Contains(l.String(), env.String()) && isFlag(r) && v:
							flags = true
						case mentions(l, "runtime/debug.ReadBuildInfo") && isFlag(r) && v:
							key = true
						case mentions(l, "runtime/debug.ReadBuildInfo") && r == Str("true"):
							val, noval = v, !v
						case mentions(l, "runtime/debug.ReadBuildInfo") && r == Str("false") && v:
							noval = true
						case l.is("runtime.GOROOT") && r == Empty:
							root, noroot = v, !v
						}
					}
				}
				if b {
					ok := flags || key && val || root && !key && seen(st, "setting")
					d.rep.check(ok, x, st, token.NoPos, "a build is trimmed when the flags or the build settings say so", nil, "")
				} else {
					ok := !flags && seen(st, "flag") && (key && noval || !key && noroot && seen(st, "setting"))
					d.rep.check(ok, x, st, token.NoPos, "a build is not trimmed when neither the flags nor the build settings say so", nil, "")
				}
			}
		}
	})
	d.rep.must("a build is trimmed when the flags or the build settings say so", "a build is not trimmed when neither the flags nor the build settings say so")
}

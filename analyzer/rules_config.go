package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (d *Driver) configType() *types.Struct {
	tn, _ := d.p.pkgs[snaps].Members["Config"].(*ssa.Type)
	if tn == nil {
		return nil
	}
	return structOf(tn.Type())
}

// ruleWithConfig checks that WithConfig hands out a private copy of the defaults to which the options were
// applied in order, each once.
func (d *Driver) ruleWithConfig() {
	fn := d.begin("CONFIG", snaps, "WithConfig", "C12", "C11", "C05")
	if fn == nil {
		return
	}
	s := d.configType()
	if s == nil {
		d.rep.bad(nil, nil, fn.Pos(), "anchor type Config is missing", nil, "")
		return
	}
	opts := Sym("options")
	mon := &Mon{name: "CONFIG", noMerge: true}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if c.name != "dyn" || len(c.args) != 1 {
			return nil, false
		}
		idx := st.g("idx")
		d.rep.check(same(st, st.norm(c.recv), selT(opts, idx)), x, st, c.pos, "options are applied in order, each once", nil, "applies %s, next is element %s", c.recv, idx)
		d.rep.check(rootOf(c.args[0]).op == "alloc", x, st, c.pos, "options change a private copy of the defaults", nil, "an option is applied to %s", c.args[0])
		for i := 0; i < s.NumFields(); i++ {
			n, ty := s.Field(i).Name(), s.Field(i).Type()
			got := x.load(st, fa(c.args[0], i, n), ty)
			d.rep.check(same(st, got, st.g("field "+n)), x, st, c.pos, "an option builds on the options before it and on the defaults", nil, "%s is %s instead of %s", n, got, st.g("field "+n))
			// the option is unknown: it may change everything
			v := App("optioned "+n, c.recv, got)
			x.rawStore(st, fa(c.args[0], i, n), v, ty)
			st.setg("field "+n, v)
		}
		if p := st.g("key:object"); p == Nil {
			st.setg("key:object", c.args[0])
		} else {
			d.rep.check(p == c.args[0], x, st, c.pos, "every option is applied to the same Config", nil, "%s, before %s", c.args[0], p)
		}
		st.setg("idx", AddC(idx, 1))
		return one(st), true
	}
	mon.store = func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
		if r := rootOf(loc); r.op != "alloc" {
			d.rep.bad(x, st, pos, "nothing but the new Config is changed", nil, loc.String())
		}
		if st.g("key:object") != Nil && rootOf(loc) == st.g("key:object") {
			d.rep.bad(x, st, pos, "an option is not overridden afterwards", nil, loc.String())
		}
	}
	st := newState()
	st.setg("idx", Int(0))
	st.setg("key:object", Nil)
	x := d.newExec(fn, mon)
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		st.setg("field "+n, x.load(st, fa(gl("defaultConfig"), i, n), s.Field(i).Type()))
	}
	d.runOn(x, fn, []*Term{opts}, st, func(x *Exec, o Out) {
		st, res := o.st, o.vals[0]
		d.rep.check(res.op == "alloc", x, st, token.NoPos, "the Config handed out is a new one", nil, "%s", res)
		if p := st.g("key:object"); p != Nil && res.op == "alloc" {
			if p != res {
				// a copy taken after the options were applied is as good, a copy of something else is not
				d.rep.bad(x, st, token.NoPos, "the Config handed out is the one the options were applied to", nil, fmt.Sprintf("%s, options applied to %s", res, p))
			}
		}
		d.rep.check(st.holds(Eq(st.g("idx"), lenT(opts))), x, st, token.NoPos, "every option is applied", nil, "applied %s of them", st.g("idx"))
		for i := 0; i < s.NumFields() && res.op == "alloc"; i++ {
			n, ty := s.Field(i).Name(), s.Field(i).Type()
			got, want := x.load(st, fa(res, i, n), ty), st.g("field "+n)
			d.rep.check(same(st, got, want), x, st, token.NoPos, "the options have the last word", nil, "%s is %s instead of %s", n, got, want)
		}
	})
	d.rep.must("options are applied in order, each once", "every option is applied", "the Config handed out is a new one")
}

// ruleOptions checks the effect of every option on a Config.
func (d *Driver) ruleOptions() {
	for _, o := range []struct {
		name, field string
		deref       bool
	}{{"Update", "update", true}, {"Filename", "filename", false}, {"Dir", "snapsDir", false}, {"Ext", "extension", false}, {"JSON", "json", true}} {
		fn := d.begin("OPTIONS", snaps, o.name, "C12", "C11", "C05")
		if fn == nil {
			continue
		}
		s := d.configType()
		if s == nil {
			d.rep.bad(nil, nil, fn.Pos(), "anchor type Config is missing", nil, "")
			return
		}
		cfg, val := Sym("c"), Sym("value")
		vt := fn.Signature.Params().At(0).Type()
		mon := &Mon{name: "OPTIONS", noMerge: true}
		mon.store = func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
			if r := rootOf(loc); r.op != "alloc" && r != cfg {
				d.rep.bad(x, st, pos, "an option changes nothing but its Config", nil, loc.String())
			}
		}
		st := newState().assume(Eq(cfg, Nil), false)[0]
		x := d.newExec(fn, mon)
		arg := val
		if vs := structOf(vt); vs != nil {
			var fs []*Term
			for i := 0; i < vs.NumFields(); i++ {
				fs = append(fs, Sym("value."+vs.Field(i).Name()))
			}
			arg = mk("struct", typeName(vt), 0, nil, fs...)
		}
		before := map[int]*Term{}
		for i := 0; i < s.NumFields(); i++ {
			before[i] = x.load(st, fa(cfg, i, s.Field(i).Name()), s.Field(i).Type())
		}
		d.runOn(x, fn, []*Term{arg}, st, func(x *Exec, out Out) {
			c := &CallInfo{recv: out.vals[0], args: []*Term{cfg}}
			x.resolveDyn(c)
			if c.fn == nil {
				d.rep.bad(x, out.st, token.NoPos, "undecided: the option's function is unknown", nil, c.recv.String())
				return
			}
			defer func() {
				if g := recover(); g != nil {
					u, ok := g.(giveUp)
					if !ok {
						panic(g)
					}
					d.rep.bad(x, out.st, token.NoPos, "undecided: option "+u.msg, nil, "")
				}
			}()
			n := 0
			for _, r := range x.dispatch(out.st, c) {
				if r.panic {
					continue
				}
				n++
				st := r.st
				for i := 0; i < s.NumFields(); i++ {
					f, ty := s.Field(i).Name(), s.Field(i).Type()
					got := x.load(st, fa(cfg, i, f), ty)
					if f != o.field {
						d.rep.check(same(st, got, before[i]), x, st, token.NoPos, "an option leaves the other options alone", nil, "%s becomes %s", f, got)
						continue
					}
					if o.deref {
						if rootOf(got).op != "alloc" {
							d.rep.bad(x, st, token.NoPos, "an option keeps a private copy of its value", nil, got.String())
							continue
						}
						got = x.load(st, got, vt)
					}
					d.rep.check(same(st, got, arg), x, st, token.NoPos, "an option sets its value", nil, "%s becomes %s instead of %s", f, got, arg)
				}
			}
			d.rep.check(n > 0, x, out.st, token.NoPos, "an option can be applied", nil, "")
		})
		d.rep.must("an option sets its value", "an option leaves the other options alone")
	}
}

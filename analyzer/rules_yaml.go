package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const yamlHelperPkg = "match/internal/yaml"

var yamlHelpers = []struct{ name, sig string }{
	{"Get", "(*" + yamlPkg + "/ast.File,string)*" + yamlPkg + ".Path," + yamlPkg + "/ast.Node,bool,error"},
	{"Update", "(*" + yamlPkg + "/ast.File,*" + yamlPkg + ".Path,interface{})error"},
	{"GetValue", "(" + yamlPkg + "/ast.Node)interface{},error"},
	{"MarshalFile", "(*" + yamlPkg + "/ast.File,bool)[]byte"},
}

// yamlHelper finds a helper by name or by its signature
func (d *Driver) yamlHelper(name, sig string) *ssa.Function {
	pk := d.p.pkgs[yamlHelperPkg]
	if pk == nil {
		return nil
	}
	if f, ok := pk.Members[name].(*ssa.Function); ok {
		return f
	}
	var found *ssa.Function
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && sigString(f.Signature) == sig {
			if found != nil {
				return nil
			}
			found = f
		}
	}
	return found
}

func (r *matcherRule) yamlCall(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	d := r.d
	val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
	if c.name == yamlPkg+"/parser.ParseBytes" {
		d.rep.check(val(0) == r.doc, x, st, c.pos, "the document parsed is the one handed in", []string{"C15"}, "%s", val(0))
		f := App("nonnil", App("yfile", val(0)))
		bad := st.clone()
		bad.setg("key:phase", Str("invalid"))
		return []Out{{st: st, vals: []*Term{f, Nil}}, {st: bad, vals: []*Term{Nil, x.errVal(bad, "parse")}}}, true
	}
	switch r.helper[c.fn] {
	case "Get":
		p := val(1)
		if !r.lookup(x, st, st.g("key:cur"), p, c.pos) {
			x.undecided("a look up out of order")
		}
		cur := st.g("key:cur")
		path := App("nonnil", App("ypath", p))
		bad, none := st.clone(), st.clone()
		r.fail(bad)
		r.missing(none)
		st.setg("key:phase", Str("found"))
		st.setg("key:value", App("yvalue", cur, p))
		return []Out{
			{st: st, vals: []*Term{path, App("nonnil", App("ynode", cur, p)), True, Nil}},
			{st: none, vals: []*Term{path, Nil, False, Nil}},
			{st: bad, vals: []*Term{path, Nil, False, x.errVal(bad, "path")}},
		}, true
	case "GetValue":
		n := strip(val(0))
		if n.is("nonnil") {
			n = n.args[0]
		}
		if !n.is("ynode") {
			d.rep.bad(x, st, c.pos, "the value asked for is the one at the path", nil, n.String())
			x.undecided("the value of another node")
		}
		bad := st.clone()
		if r.phase(bad) == "found" {
			r.fail(bad)
		}
		return []Out{{st: st, vals: []*Term{App("yvalue", n.args...), Nil}}, {st: bad, vals: []*Term{Nil, x.errVal(bad, "value")}}}, true
	case "Update":
		path := strip(val(1))
		if path.is("nonnil") {
			path = path.args[0]
		}
		if path.is("ypath") {
			path = path.args[0]
		}
		d.rep.check(isYFile(val(0)), x, st, c.pos, "the document updated is the one handed in", []string{"C15"}, "%s", val(0))
		ss := r.set(x, st, st.g("key:cur"), path, st.norm(unwrap(x, st, c.args[2])), c.pos, "yset")
		return []Out{{st: ss[0], vals: []*Term{Nil}}, {st: ss[1], vals: []*Term{x.errVal(ss[1], "update")}}}, true
	case "MarshalFile":
		d.rep.check(isYFile(val(0)), x, st, c.pos, "the document written is the one handed in", []string{"C15"}, "%s", val(0))
		return one(st, App("ymarshal", st.g("key:cur"), val(1))), true
	}
	return nil, false
}

func isYFile(t *Term) bool { return anyTerm(t, func(t *Term) bool { return t.is("yfile") }) }

// yamlText: the text of the updated document, ending with a newline as the text handed in did
func (r *matcherRule) yamlText(st *State, doc, cur *Term) bool {
	if doc == r.doc && cur == r.doc {
		return true
	}
	if !doc.is("ymarshal") || !same(st, doc.args[0], cur) {
		return false
	}
	// the last byte compared with a constant is a suffix
	last := selT(r.doc, AddC(lenT(r.doc), -1))
	nl := mapTerm(doc.args[1], func(t *Term) *Term {
		if t.op == "eq" {
			for i, a := range t.args {
				if b := t.args[1-i]; a == last && b.isInt() {
					return hasSuffixT(r.doc, Str(string([]byte{byte(b.c)})))
				}
			}
		}
		return nil
	}, map[*Term]*Term{})
	want := hasSuffixT(r.doc, Str("\n"))
	return boolEquiv(st, st.norm(nl), st.norm(want))
}

// ---------------------------------------------------------------- the helpers

// yamlDocs is a parsed stream: what is known about every document of it
type yamlDocs struct {
	d     *Driver
	shape string // per document: 'b' with a body, 'e' empty, upper case: with a start marker, E/B
	file  *Term
	path  *Term
	value *Term
}

func (y *yamlDocs) body(i int) *Term { return App("nonnil", App("body", Int(int64(i)))) }

func (y *yamlDocs) setup(x *Exec, st *State) bool {
	pk := y.d.p.prog.ImportedPackage(yamlPkg + "/ast")
	if pk == nil || pk.Type("File") == nil || pk.Type("DocumentNode") == nil {
		return false
	}
	y.file, y.path, y.value = App("nonnil", App("yfile", Sym("document"))), Sym("path"), Sym("value")
	fi, ft := fieldByName(pk.Type("File").Type(), "Docs")
	if fi < 0 {
		return false
	}
	var docs []*Term
	dt := pk.Type("DocumentNode").Type()
	for i, c := range y.shape {
		doc := App("nonnil", App("doc", Int(int64(i))))
		docs = append(docs, doc)
		for _, f := range []string{"Body", "Start", "End"} {
			k, t := fieldByName(dt, f)
			if k < 0 {
				return false
			}
			v := Nil
			switch {
			case f == "Body" && (c == 'b' || c == 'B'):
				v = y.body(i)
			case f == "Start" && (c == 'B' || c == 'E') || f == "End" && c == 'E':
				v = App("nonnil", App("token."+f, Int(int64(i))))
				j, tt := fieldByName(deref(t), "Value")
				if j < 0 {
					return false
				}
				m := Str("---")
				if f == "End" {
					m = Str("...")
				}
				x.rawStore(st, fa(v, j, "Value"), m, tt)
			}
			x.rawStore(st, fa(doc, k, f), v, t)
		}
	}
	x.rawStore(st, fa(y.file, fi, "Docs"), mk("seq", "", 0, nil, docs...), ft)
	for i := range y.shape {
		st.setg("key:found"+string(rune('0'+i)), Nil)
	}
	return true
}

func (y *yamlDocs) index(body *Term) int {
	for i := range y.shape {
		if body == y.body(i) {
			return i
		}
	}
	return -1
}

// filter models (*yaml.Path).FilterNode: found, not there, or one of the errors
func (y *yamlDocs) filter(x *Exec, st *State, body *Term) []Out {
	if body == Nil {
		return one(st, Nil, Nil)
	}
	i := y.index(body)
	if i < 0 {
		x.undecided("a path applied to %s", body)
	}
	g := "key:found" + string(rune('0'+i))
	res := func(s *State, k string) Out {
		switch k {
		case "found":
			return one(s, App("nonnil", App("ynode", Int(int64(i)))), Nil)[0]
		case "none":
			return one(s, Nil, Nil)[0]
		}
		return one(s, Nil, App("nonnil", App("yamlerr", Str(k), Int(int64(i)))))[0]
	}
	if v := st.g(g); v != Nil {
		return []Out{res(st, v.val)}
	}
	var outs []Out
	for _, k := range []string{"found", "none", "ErrNotFoundNode", "ErrInvalidQuery", "other"} {
		s := st.clone()
		s.setg(g, Str(k))
		outs = append(outs, res(s, k))
	}
	return outs
}

func yamlErr(e *Term) (kind string, ok bool) {
	e = strip(e)
	if e.is("nonnil") {
		e = e.args[0]
	}
	if e.is("yamlerr") {
		return e.args[0].val, true
	}
	return "", false
}

func (y *yamlDocs) call(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	d := y.d
	val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
	switch c.name {
	case yamlPkg + ".PathString":
		d.rep.check(val(0) == y.path, x, st, c.pos, "the path is the one asked for", nil, "%s", val(0))
		return fallible(x, st, c, App("nonnil", App("ypath", val(0)))), true
	case "(*" + yamlPkg + ".Path).FilterNode":
		return y.filter(x, st, val(1)), true
	case "(*" + yamlPkg + ".Path).FilterFile":
		return x.call(c.fn, c.args, nil, st), true
	case "errors.Is", yamlPkg + ".IsNotFoundNodeError", yamlPkg + ".IsInvalidQueryError":
		if k, ok := yamlErr(st.norm(c.args[0])); ok {
			target := "ErrNotFoundNode"
			if c.name == yamlPkg+".IsInvalidQueryError" {
				target = "ErrInvalidQuery"
			} else if c.name == "errors.Is" {
				target = c.args[1].String()
			}
			return one(st, Bool(strings.Contains(target, "Err") && strings.Contains(target, k))), true
		}
	}
	return nil, false
}

// found lists the documents that contain the path, when that was found out for all of them
func (y *yamlDocs) found(st *State) (is []int, all bool) {
	all = true
	for i, c := range y.shape {
		switch v := st.g("key:found" + string(rune('0'+i))); {
		case v == Nil:
			all = all && (c == 'e' || c == 'E')
		case v.val == "found":
			is = append(is, i)
		}
	}
	return is, all
}

var yamlShapes = []string{"", "b", "e", "bb", "be", "eB", "Bb"}

func (d *Driver) ruleYAMLGet() {
	d.rep.begin("YAMLGET", yamlHelperPkg+".Get", "C17", "C15")
	fn := d.yamlHelper("Get", yamlHelpers[0].sig)
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the look up of a path in a YAML file")
		return
	}
	for _, sh := range yamlShapes {
		y := &yamlDocs{d: d, shape: sh}
		mon := &Mon{name: "YAMLGET", noMerge: true}
		mon.call = y.call
		st := newState()
		x := d.newExec(fn, mon)
		if !y.setup(x, st) {
			d.rep.bad(nil, nil, fn.Pos(), "anchor type is missing", nil, yamlPkg+"/ast")
			return
		}
		d.runOn(x, fn, []*Term{y.file, y.path}, st, func(x *Exec, o Out) {
			st := o.st
			path, node, exists, err := st.norm(o.vals[0]), st.norm(o.vals[1]), st.eval(o.vals[2]), o.vals[3]
			bad := st.eval(Eq(err, Nil)) == False
			is, all := y.found(st)
			if k, ok := yamlErr(st.norm(err)); bad && ok {
				d.rep.check(k == "other", x, st, token.NoPos, "a path that leads nowhere is a missing path, not an error", []string{"C17"}, "%s is handed out", k)
				return
			}
			if bad {
				d.rep.check(strip(st.norm(err)).val == "err:"+yamlPkg+".PathString", x, st, token.NoPos, "only an invalid path is an error", []string{"C17", "C15"}, "%s", err)
				return
			}
			d.rep.check(path == App("nonnil", App("ypath", y.path)), x, st, token.NoPos, "the path handed out is the one asked for", nil, "%s", path)
			if exists == True {
				ok := len(is) > 0 && node == App("nonnil", App("ynode", Int(int64(is[0]))))
				d.rep.check(ok, x, st, token.NoPos, "the node handed out is the first one at the path", nil, "%s, found in documents %v", node, is)
				return
			}
			d.rep.check(exists == False && all && len(is) == 0, x, st, token.NoPos, "a path is missing only when no document contains it", nil, "exists: %s, found in documents %v, all looked at: %v", exists, is, all)
		})
	}
	d.rep.must("the node handed out is the first one at the path", "a path is missing only when no document contains it")
}

func (d *Driver) ruleYAMLUpdate() {
	d.rep.begin("YAMLUPDATE", yamlHelperPkg+".Update", "C15", "C16", "C17")
	fn := d.yamlHelper("Update", yamlHelpers[1].sig)
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the update of a path in a YAML file")
		return
	}
	path := App("nonnil", App("ypath", Sym("path")))
	for _, sh := range yamlShapes {
		y := &yamlDocs{d: d, shape: sh}
		mon := &Mon{name: "YAMLUPDATE", noMerge: true}
		st := newState()
		x := d.newExec(fn, mon)
		if !y.setup(x, st) {
			d.rep.bad(nil, nil, fn.Pos(), "anchor type is missing", nil, yamlPkg+"/ast")
			return
		}
		asText := App("as", y.value, mk("type", "string", 0, nil))
		for i := range sh {
			st.setg("key:replaced"+string(rune('0'+i)), False)
		}
		mon.call = chainCall(y.call, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
			switch c.name {
			case yamlPkg + ".Marshal", yamlPkg + ".MarshalWithOptions", "encoding/json.Marshal":
				v := st.norm(unwrap(x, st, c.args[0]))
				d.rep.check(v == y.value || v == asText, x, st, c.pos, "the value written is the one asked for", nil, "%s", v)
				k := "yenc"
				if c.name == "encoding/json.Marshal" {
					k = "jenc"
				}
				return fallible(x, st, c, App(k, y.value)), true
			case yamlPkg + ".Unmarshal":
				bad := st.clone()
				x.rawStore(st, strip(unwrapPtr(c.args[1])), App("ydec", val(0)), types.NewInterfaceType(nil, nil))
				return []Out{{st: st, vals: []*Term{Nil}}, {st: bad, vals: []*Term{x.errVal(bad, "decode")}}}, true
			case "(*" + yamlPkg + ".Path).ReplaceWithReader":
				d.rep.check(val(0) == path, x, st, c.pos, "the value is written at the path asked for", nil, "%s", val(0))
				text := st.norm(x.value(st, strip(unwrapPtr(c.args[2]))))
				d.checkEncoding(x, st, y.value, asText, text, c.pos)
				return y.replace(x, st, st.norm(c.args[1]), c.pos), true
			}
			return nil, false
		})
		d.runOn(x, fn, []*Term{y.file, path, y.value}, st, func(x *Exec, o Out) {
			st, err := o.st, o.st.norm(o.vals[0])
			bad := st.eval(Eq(err, Nil)) == False
			is, all := y.found(st)
			if bad {
				_, filter := yamlErr(err)
				d.rep.check(!filter, x, st, token.NoPos, "documents without the path do not make the update fail", []string{"C17", "C15"}, "%s", err)
				return
			}
			ok := all
			for _, i := range is {
				ok = ok && st.g("key:replaced"+string(rune('0'+i))) == True
			}
			d.rep.check(ok, x, st, token.NoPos, "every document that contains the path is updated", nil, "found in %v, all looked at: %v", is, all)
		})
	}
	d.rep.must("every document that contains the path is updated", "the value written is the one asked for", "the text written is an encoding of the value")
}

func unwrapPtr(t *Term) *Term {
	if t.op == "iface" {
		return t.args[0]
	}
	return t
}

// checkEncoding: the text put in place of a value is an encoding of it. The encoder does not quote every
// string that needs it, so a string counts as encoded when it was quoted, or when it was decoded and compared.
func (d *Driver) checkEncoding(x *Exec, st *State, value, asText, text *Term, pos token.Pos) {
	ok := false
	switch {
	case text == App("jenc", value):
		ok = true
	case text.is("quote"):
		ok = st.norm(unwrapPtr(text.args[0])) == asText && st.eval(App("typeis", value, mk("type", "string", 0, nil))) == True
	case text == App("yenc", value):
		if st.eval(App("typeis", value, mk("type", "string", 0, nil))) == False {
			ok = true
			break
		}
		dec, line := false, false
		for f, v := range st.facts {
			if v && f.op == "eq" && anyTerm(f, func(t *Term) bool { return t.is("ydec") }) && anyTerm(f, func(t *Term) bool { return t == asText || t == value }) {
				dec = true
			}
			if anyTerm(f, func(t *Term) bool { return t == text || t == asText }) && anyTerm(f, func(t *Term) bool { return t == Str("\n") || t == Int('\n') }) {
				line = true
			}
			if manyLines(f) {
				line = false
				break
			}
		}
		for a, b := range st.rep {
			e := func(t *Term) bool { return anyTerm(t, func(t *Term) bool { return t.is("ydec") }) }
			if e(a) || e(b) {
				dec = true
			}
		}
		ok = dec && line
	}
	d.rep.check(ok, x, st, pos, "the text written is an encoding of the value", []string{"C15"}, "writes %s", text)
}

// manyLines: the fact bounds the number of newlines by more than one
func manyLines(f *Term) (many bool) {
	anyTerm(f, func(t *Term) bool {
		for k := int64(2); t.is("count") && k < 8; k++ {
			many = many || f == Le(t, Int(k))
		}
		return false
	})
	return many
}

// replace models (*yaml.Path).ReplaceWithReader on the documents of a file
func (y *yamlDocs) replace(x *Exec, st *State, file *Term, pos token.Pos) []Out {
	pk := y.d.p.prog.ImportedPackage(yamlPkg + "/ast")
	fi, ft := fieldByName(pk.Type("File").Type(), "Docs")
	docs := st.norm(x.content(st, x.load(st, fa(strip(file), fi, "Docs"), ft)))
	if docs.op != "seq" {
		x.undecided("replacing in %s", docs)
	}
	bi, bt := fieldByName(pk.Type("DocumentNode").Type(), "Body")
	outs := []Out{{st: st, vals: []*Term{Nil}}}
	for _, doc := range docs.args {
		var next []Out
		for _, o := range outs {
			if o.vals[0] != Nil {
				next = append(next, o)
				continue
			}
			body := o.st.norm(x.load(o.st, fa(doc, bi, "Body"), bt))
			y.d.rep.check(body != Nil, x, o.st, pos, "nothing is replaced in a document without content (the library crashes)", []string{"C15", "C17"}, "%s", doc)
			if body == Nil {
				continue
			}
			i := y.index(body)
			for _, f := range y.filter(x, o.st, body) {
				if f.vals[1] != Nil {
					next = append(next, one(f.st, f.vals[1])...)
					continue
				}
				if f.vals[0] == Nil {
					next = append(next, one(f.st, Nil)...)
					continue
				}
				bad := f.st.clone()
				f.st.setg("key:replaced"+string(rune('0'+i)), True)
				next = append(next, one(f.st, Nil)...)
				next = append(next, one(bad, x.errVal(bad, "replace"))...)
			}
		}
		outs = next
	}
	return outs
}

func (d *Driver) ruleYAMLValue() {
	d.rep.begin("YAMLVALUE", yamlHelperPkg+".GetValue", "C15", "C16", "C17")
	fn := d.yamlHelper("GetValue", yamlHelpers[2].sig)
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the value of a YAML node")
		return
	}
	node := App("nonnil", App("ynode", Int(0)))
	mon := &Mon{name: "YAMLVALUE", noMerge: true}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		val := func(i int) *Term { return st.norm(x.value(st, c.args[i])) }
		switch {
		case strings.HasSuffix(c.name, ".MarshalYAML") && val(0) == node:
			return fallible(x, st, c, App("ytext", node)), true
		case strings.HasSuffix(c.name, ".String") && len(c.args) == 1 && val(0) == node:
			return one(st, App("ytext", node)), true
		case c.name == yamlPkg+".Unmarshal" || c.name == yamlPkg+".NodeToValue":
			src := val(0)
			d.rep.check(src == App("ytext", node) || src == node, x, st, c.pos, "the value is decoded from the node", nil, "%s", src)
			bad := st.clone()
			x.rawStore(st, strip(unwrapPtr(c.args[1])), App("ydec", node), types.NewInterfaceType(nil, nil))
			return []Out{{st: st, vals: []*Term{Nil}}, {st: bad, vals: []*Term{x.errVal(bad, "decode")}}}, true
		}
		return nil, false
	}
	d.run(fn, mon, []*Term{node}, newState(), func(x *Exec, o Out) {
		if o.st.eval(Eq(o.vals[1], Nil)) == False {
			return
		}
		v := o.st.norm(o.vals[0])
		d.rep.check(v == App("ydec", node), x, o.st, token.NoPos, "the value handed out is the node's", nil, "%s", v)
	})
	d.rep.must("the value handed out is the node's")
}

func (d *Driver) ruleYAMLText() {
	d.rep.begin("YAMLTEXT", yamlHelperPkg+".MarshalFile", "C15", "C18", "C17")
	fn := d.yamlHelper("MarshalFile", yamlHelpers[3].sig)
	if fn == nil {
		d.rep.bad(nil, nil, token.NoPos, "anchor function is missing", nil, "the text of a YAML file")
		return
	}
	for _, sh := range append([]string{"EeB", "bbb"}, yamlShapes...) {
		for _, nl := range []bool{true, false} {
			y := &yamlDocs{d: d, shape: sh}
			mon := &Mon{name: "YAMLTEXT", noMerge: true}
			st := newState()
			x := d.newExec(fn, mon)
			if !y.setup(x, st) {
				d.rep.bad(nil, nil, fn.Pos(), "anchor type is missing", nil, yamlPkg+"/ast")
				return
			}
			mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
				switch c.name {
				case "(*" + yamlPkg + "/ast.DocumentNode).String", "(*" + yamlPkg + "/ast.DocumentNode).MarshalYAML":
					doc := st.norm(c.args[0])
					i := int(doc.args[0].args[0].c)
					b := sh[i] == 'b' || sh[i] == 'B'
					d.rep.check(b, x, st, c.pos, "a document without content is not printed by the library (it crashes)", []string{"C17", "C15"}, "%s", doc)
					if !b {
						return nil, true
					}
					outs := one(st, App("docstr", Int(int64(i))))
					if strings.HasSuffix(c.name, "YAML") {
						outs[0].vals = append(outs[0].vals, Nil)
					}
					return outs, true
				case "(*" + yamlPkg + "/ast.File).String":
					x.undecided("the library ends every file with a newline")
				}
				return nil, false
			}
			var want []*Term
			for i, c := range sh {
				if i > 0 {
					want = append(want, Str("\n"))
				}
				switch c {
				case 'b', 'B':
					want = append(want, App("docstr", Int(int64(i))))
				case 'E':
					want = append(want, Str("---\n..."))
				}
			}
			if nl && sh != "" {
				want = append(want, Str("\n"))
			}
			d.runOn(x, fn, []*Term{y.file, Bool(nl)}, st, func(x *Exec, o Out) {
				got := o.st.norm(x.value(o.st, o.vals[0]))
				if got == Nil {
					got = Empty
				}
				d.rep.check(got == Concat(want...) || sh == "", x, o.st, token.NoPos, "the text is the documents' texts in order, one below the other, with the final newline asked for", nil, "%s, expected %s", got, Concat(want...))
			})
		}
	}
	d.rep.must("the text is the documents' texts in order, one below the other, with the final newline asked for")
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type model func(x *Exec, st *State, c *CallInfo) []Out

// ---------------------------------------------------------------- normalising constructors

func lenT(v *Term) *Term {
	switch {
	case v == Nil || v == Empty:
		return Int(0)
	case v.isStr():
		return Int(int64(len(v.val)))
	case v.op == "seq":
		return Int(int64(len(v.args)))
	case v.op == "concat" || v.is("seqcat"):
		r := Int(0)
		for _, a := range v.args {
			r = Add(r, lenT(a))
		}
		return r
	case v.is("coll"):
		return lenT(v.args[0])
	case v.is("zeroseq"):
		return v.args[0]
	case v.is("upd"), v.is("sorted"):
		return lenT(v.args[0])
	case v.is("slice"):
		return Sub(v.args[2], v.args[1])
	case v.is("arr"):
		return v.args[1]
	}
	return App("len", v)
}

// updT is the sequence with one element replaced
func updT(c, i, v *Term) *Term {
	if c.op == "seq" && i.isInt() && i.c >= 0 && int(i.c) < len(c.args) {
		as := append([]*Term{}, c.args...)
		as[i.c] = v
		return mk("seq", "", 0, nil, as...)
	}
	return App("upd", c, i, v)
}

func selT(v, i *Term) *Term {
	switch {
	case v.op == "seq":
		if i.isInt() && i.c >= 0 && int(i.c) < len(v.args) {
			return v.args[i.c]
		}
	case v.is("zeroseq"):
		return v.args[1]
	case v.is("zeros"):
		return App("sel", v, i)
	case v.is("upd"):
		d := Sub(i, v.args[1])
		if d == Int(0) {
			return v.args[2]
		}
		if d.isInt() {
			return selT(v.args[0], i)
		}
	case v.is("coll"):
		return subst(v.args[1], map[*Term]*Term{Elem: selT(v.args[0], i)})
	case v.is("slice"):
		return selT(v.args[0], Add(v.args[1], i))
	case v.is("split"):
		if i == Int(0) {
			return App("before", v.args[0], v.args[1])
		}
	case v.isStr():
		if i.isInt() && i.c >= 0 && int(i.c) < len(v.val) {
			return Int(int64(v.val[i.c]))
		}
	case v.op == "concat":
		if i.isInt() && v.args[0].isStr() && i.c >= 0 && int(i.c) < len(v.args[0].val) {
			return Int(int64(v.args[0].val[i.c]))
		}
		l := v.args[len(v.args)-1]
		if l.isStr() {
			d := Sub(lenT(v), i)
			if d.isInt() && d.c > 0 && int(d.c) <= len(l.val) {
				return Int(int64(l.val[len(l.val)-int(d.c)]))
			}
		}
	case v.op == "ite":
		return Ite(v.args[0], selT(v.args[1], i), selT(v.args[2], i))
	}
	return App("sel", v, i)
}

func unseq(f *Term) *Term {
	if f.op == "ite" {
		return Ite(f.args[0], unseq(f.args[1]), unseq(f.args[2]))
	}
	return f.args[0]
}

func sliceTerm(v, lo, hi *Term) *Term {
	L := lenT(v)
	if lo == Int(0) && hi == L {
		return v
	}
	if lo == hi {
		return Empty
	}
	if v.isStr() && lo.isInt() && hi.isInt() && lo.c >= 0 && hi.c <= int64(len(v.val)) && lo.c <= hi.c {
		return Str(v.val[lo.c:hi.c])
	}
	if v.op == "seq" && lo.isInt() && hi.isInt() && lo.c >= 0 && hi.c <= int64(len(v.args)) && lo.c <= hi.c {
		return mk("seq", "", 0, nil, v.args[lo.c:hi.c]...)
	}
	if v.op == "concat" {
		if a, ok := cutParts(v.args, lo, true); ok {
			if hi == L {
				return Concat(a...)
			}
			if b, ok := cutParts(a, Sub(hi, lo), false); ok {
				return Concat(b...)
			}
		} else if lo == Int(0) {
			if b, ok := cutParts(v.args, hi, false); ok {
				return Concat(b...)
			}
		}
	}
	if v.is("slice") {
		return sliceTerm(v.args[0], Add(v.args[1], lo), Add(v.args[1], hi))
	}
	if lo == Int(0) {
		if hi.is("index") && hi.args[0] == v {
			return beforeT(v, hi.args[1])
		}
		if d := Sub(L, hi); d.is("len") && d.args[0].is("filepath.Ext") && unbase(d.args[0].args[0]) == unbase(v) {
			return App("stem", v)
		}
		if d := Sub(L, hi); d.isInt() && d.c == 1 {
			return App("chop", v)
		}
	}
	if hi == L {
		d := lo
		if dd, m := unlin(d); len(m) == 1 {
			for a, k := range m {
				if k == 1 && a.is("index") && a.args[0] == v && a.args[1].isStr() && dd == int64(len(a.args[1].val)) {
					return App("after", v, a.args[1])
				}
			}
		}
	}
	return App("slice", v, lo, hi)
}

// cutParts splits a concatenation at an offset: suffix=true returns what follows it
func cutParts(ps []*Term, off *Term, suffix bool) ([]*Term, bool) {
	for i := 0; i <= len(ps); i++ {
		if off.isInt() {
			if off.c == 0 {
				if suffix {
					return ps[i:], true
				}
				return ps[:i], true
			}
			if i < len(ps) && ps[i].isStr() && off.c > 0 && off.c < int64(len(ps[i].val)) {
				s := ps[i].val
				if suffix {
					return append([]*Term{Str(s[off.c:])}, ps[i+1:]...), true
				}
				return append(append([]*Term{}, ps[:i]...), Str(s[:off.c])), true
			}
		}
		if i == len(ps) {
			break
		}
		off = Sub(off, lenT(ps[i]))
		// negative constant offset inside a literal: off = -k
		if off.isInt() && off.c < 0 && ps[i].isStr() && -off.c <= int64(len(ps[i].val)) {
			s := ps[i].val
			k := int64(len(s)) + off.c
			if suffix {
				return append([]*Term{Str(s[k:])}, ps[i+1:]...), true
			}
			return append(append([]*Term{}, ps[:i]...), Str(s[:k])), true
		}
	}
	return nil, false
}

func seqcatT(ps ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t == Nil || t == Empty || t.op == "seq" && len(t.args) == 0:
			return
		case t.is("seqcat"):
			for _, a := range t.args {
				add(a)
			}
			return
		case t.is("zeroseq") && t.args[0] == Int(0):
			return
		}
		if n := len(out); n > 0 && out[n-1].op == "seq" && t.op == "seq" {
			out[n-1] = mk("seq", "", 0, nil, append(append([]*Term{}, out[n-1].args...), t.args...)...)
			return
		}
		out = append(out, t)
	}
	for _, p := range ps {
		add(p)
	}
	switch len(out) {
	case 0:
		return Nil
	case 1:
		return out[0]
	}
	return App2("seqcat", out...)
}

// App2 builds an application without normalisation
func App2(n string, args ...*Term) *Term { return mk("app", n, 0, nil, args...) }

// bytesText turns a literal list of bytes into a text
func bytesText(p *Term) *Term {
	if p.op != "seq" {
		return p
	}
	var b []byte
	for _, a := range p.args {
		if !a.isInt() || a.c < 0 || a.c > 255 {
			return p
		}
		b = append(b, byte(a.c))
	}
	return Str(string(b))
}

func hasPrefixT(x, p *Term) *Term {
	x, p = bytesText(x), bytesText(p)
	if p == Empty || p == Nil || x == p {
		return True
	}
	if x.isStr() && p.isStr() {
		return Bool(strings.HasPrefix(x.val, p.val))
	}
	if x == Nil || x == Empty {
		return Eq(p, Empty)
	}
	px, pp := parts(x), parts(p)
	for len(px) > 0 && len(pp) > 0 && px[0] == pp[0] {
		px, pp = px[1:], pp[1:]
	}
	if len(pp) == 0 {
		return True
	}
	if len(px) > 0 && px[0].isStr() && pp[0].isStr() {
		a, b := px[0].val, pp[0].val
		if len(a) >= len(b) {
			if !strings.HasPrefix(a, b) {
				return False
			}
			if len(pp) == 1 {
				return True
			}
			rest := append([]*Term{Str(a[len(b):])}, px[1:]...)
			return hasPrefixT(Concat(rest...), Concat(pp[1:]...))
		}
		if !strings.HasPrefix(b, a) {
			return False
		}
		if len(px) > 1 {
			rest := append([]*Term{Str(b[len(a):])}, pp[1:]...)
			return hasPrefixT(Concat(px[1:]...), Concat(rest...))
		}
		return False
	}
	if len(px) == 0 {
		return Eq(Concat(pp...), Empty)
	}
	x, p = Concat(px...), Concat(pp...)
	return App2("hasprefix", x, p)
}

func hasSuffixT(x, p *Term) *Term {
	x, p = bytesText(x), bytesText(p)
	if x.is("filepath.Base") && p.isStr() && !strings.Contains(p.val, "/") {
		x = x.args[0]
	}
	if p == Empty || p == Nil || x == p {
		return True
	}
	if x.isStr() && p.isStr() {
		return Bool(strings.HasSuffix(x.val, p.val))
	}
	if x == Nil || x == Empty {
		return Eq(p, Empty)
	}
	px := parts(x)
	if len(px) > 0 && p.isStr() {
		if l := px[len(px)-1]; l.isStr() {
			if len(l.val) >= len(p.val) {
				return Bool(strings.HasSuffix(l.val, p.val))
			}
			if !strings.HasSuffix(p.val, l.val) {
				return False
			}
			if len(px) > 1 {
				return hasSuffixT(Concat(px[:len(px)-1]...), Str(p.val[:len(p.val)-len(l.val)]))
			}
			return False
		}
	}
	return App2("hassuffix", x, p)
}

func containsT(x, p *Term) *Term {
	if p == Empty {
		return True
	}
	if x.isStr() && p.isStr() {
		return Bool(strings.Contains(x.val, p.val))
	}
	if x == Empty || x == Nil {
		return Eq(p, Empty)
	}
	if at, ok := findSep(x, p); ok {
		return Bool(len(at) > 0)
	}
	for _, a := range parts(x) {
		if a == p || a.isStr() && p.isStr() && strings.Contains(a.val, p.val) {
			return True
		}
	}
	return App2("contains", x, p)
}

func trimSuffixT(x, s *Term) *Term {
	if s.is("filepath.Ext") && unbase(s.args[0]) == unbase(x) {
		return App2("stem", x)
	}
	// elements' texts each followed by s, without the last s
	if x.is("catmap") && s.isStr() && s.val != "" {
		if e := stripSep(x.args[1], s.val, false); e != nil {
			return joinT(collT(x.args[0], mk("seq", "", 0, nil, e)), s)
		}
	}
	switch hasSuffixT(x, s) {
	case True:
		if s.isStr() {
			return sliceTerm(x, Int(0), Sub(lenT(x), Int(int64(len(s.val)))))
		}
		if x == s {
			return Empty
		}
	case False:
		return x
	}
	return App2("trimsuffix", x, s)
}

func trimPrefixT(x, s *Term) *Term {
	if x.is("catmap") && s.isStr() && s.val != "" {
		if e := stripSep(x.args[1], s.val, true); e != nil {
			return joinT(collT(x.args[0], mk("seq", "", 0, nil, e)), s)
		}
	}
	switch hasPrefixT(x, s) {
	case True:
		if s.isStr() {
			return sliceTerm(x, Int(int64(len(s.val))), lenT(x))
		}
	case False:
		return x
	}
	return App2("trimprefix", x, s)
}

func joinT(s, sep *Term) *Term {
	if s == Nil {
		return Empty
	}
	if s.op == "seq" {
		var ps []*Term
		for i, a := range s.args {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, a)
		}
		return Concat(ps...)
	}
	if s.is("split") && s.args[1] == sep {
		return s.args[0]
	}
	if s.is("split") && s.args[1].isStr() && s.args[1] != Empty {
		return replaceAllT(s.args[0], s.args[1], sep)
	}
	if (s.is("splitafter") || s.is("slice") && false) && sep == Empty {
		return s.args[0]
	}
	return App2("join", s, sep)
}

func replaceAllT(x, a, b *Term) *Term {
	if x.isStr() && a.isStr() && b.isStr() {
		return Str(strings.ReplaceAll(x.val, a.val, b.val))
	}
	return App2("replaceall", x, a, b)
}

func itoaT(n *Term) *Term {
	if n.isInt() {
		return Str(fmt.Sprint(n.c))
	}
	return App2("itoa", n)
}

// unbase: the extension of a file is that of its base name
func unbase(p *Term) *Term {
	if p.is("filepath.Base") {
		return p.args[0]
	}
	return p
}

func joinPath(args []*Term) *Term {
	var out []*Term
	for _, a := range args {
		if a.is("filepath.Join") {
			out = append(out, a.args...)
		} else if a != Empty {
			out = append(out, a)
		}
	}
	return App2("filepath.Join", out...)
}

func init() {
	n := appNorm
	n["before"] = func(a []*Term) *Term { return beforeT(a[0], a[1]) }
	n["after"] = func(a []*Term) *Term { return afterT(a[0], a[1]) }
	n["split"] = func(a []*Term) *Term { return splitT(a[0], a[1]) }
	n["index"] = func(a []*Term) *Term { return indexT(a[0], a[1]) }
	n["lastindex"] = func(a []*Term) *Term { return lastIndexT(a[0], a[1]) }
	n["len"] = func(a []*Term) *Term { return lenT(a[0]) }
	n["sel"] = func(a []*Term) *Term { return selT(a[0], a[1]) }
	n["slice"] = func(a []*Term) *Term { return sliceTerm(a[0], a[1], a[2]) }
	n["seqcat"] = func(a []*Term) *Term { return seqcatT(a...) }
	n["chop"] = func(a []*Term) *Term { return sliceTerm(a[0], Int(0), AddC(lenT(a[0]), -1)) }
	n["coll"] = func(a []*Term) *Term { return collT(a[0], mk("seq", "", 0, nil, a[1])) }
	n["flatcoll"] = func(a []*Term) *Term { return collT(a[0], a[1]) }
	n["hasprefix"] = func(a []*Term) *Term { return hasPrefixT(a[0], a[1]) }
	n["hassuffix"] = func(a []*Term) *Term { return hasSuffixT(a[0], a[1]) }
	n["contains"] = func(a []*Term) *Term { return containsT(a[0], a[1]) }
	n["trimsuffix"] = func(a []*Term) *Term { return trimSuffixT(a[0], a[1]) }
	n["trimprefix"] = func(a []*Term) *Term { return trimPrefixT(a[0], a[1]) }
	n["join"] = func(a []*Term) *Term { return joinT(a[0], a[1]) }
	n["replaceall"] = func(a []*Term) *Term { return replaceAllT(a[0], a[1], a[2]) }
	n["itoa"] = func(a []*Term) *Term { return itoaT(a[0]) }
	n["filepath.Join"] = func(a []*Term) *Term { return joinPath(a) }
	n["mapdom"] = func(a []*Term) *Term { return App2("mapdom", a[0]) }
	n["isnil"] = func(a []*Term) *Term {
		if a[0] == Nil {
			return True
		}
		return App2("isnil", a[0])
	}
	n["typeis"] = func(a []*Term) *Term {
		if a[0] == Nil {
			return False
		}
		if a[0].op == "iface" && !strings.HasPrefix(a[1].val, "I:") {
			return Bool(a[0].val == a[1].val)
		}
		return App2("typeis", a...)
	}
}

// ---------------------------------------------------------------- helpers

func one(st *State, vals ...*Term) []Out { return []Out{{st: st, vals: vals}} }

// fallible forks success and failure
func fallible(x *Exec, st *State, c *CallInfo, okVals ...*Term) []Out {
	bad := st.clone()
	var z []*Term
	for i := range okVals {
		if c.sig != nil && i < c.sig.Results().Len() {
			z = append(z, zeroOf(c.sig.Results().At(i).Type()))
		} else {
			z = append(z, Nil)
		}
	}
	e := x.errVal(bad, c.name)
	return []Out{{st: st, vals: append(append([]*Term{}, okVals...), Nil)}, {st: bad, vals: append(z, e)}}
}

func (x *Exec) errVal(st *State, name string) *Term {
	f := x.fresh(st, "e:"+name)
	return App2("err:"+name, f)
}

func (x *Exec) seqArgs(st *State, t *Term) ([]*Term, bool) {
	v := x.content(st, t)
	if v == Nil {
		return nil, true
	}
	if v.op == "seq" {
		return v.args, true
	}
	return nil, false
}

// text renders one fmt operand
func (x *Exec) text(st *State, verb byte, flags string, v *Term) *Term {
	raw := v
	typ := ""
	if v.op == "iface" {
		typ = v.val
		v = v.args[0]
	}
	val := x.value(st, v)
	if flags == "" {
		switch verb {
		case 's', 'v':
			if typ == "string" {
				return val
			}
			if typ == "[]byte" && verb == 's' {
				return val
			}
			if verb == 'v' && isIntType(typ) {
				return itoaT(val)
			}
			if typ == "" || strings.HasSuffix(typ, "rror") {
				if verb == 's' || verb == 'v' {
					return App("fmtv", x.value(st, raw))
				}
			}
			if t := x.p.types[typ]; t != nil {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !hasStringer(t) {
					return val
				}
			}
		case 'd':
			if isIntType(typ) {
				return itoaT(val)
			}
		case 'q':
			return App("quote", val)
		case 'w':
			return App("fmtv", x.value(st, raw))
		case 'T':
			if raw.op == "iface" {
				return Str(typ)
			}
			return App("typename", x.value(st, raw))
		case 'c':
			if v.isInt() {
				return Str(string(rune(v.c)))
			}
		}
	}
	return App("fmt%"+flags+string(verb), mk("type", typ, 0, nil), val)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

func isIntType(t string) bool {
	switch t {
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
		return true
	}
	return false
}

func (x *Exec) sprintf(st *State, format *Term, args []*Term) *Term {
	format = x.value(st, format)
	if !format.isStr() {
		n := 0
		if t, ok := x.instantiate(st, format, args, &n); ok {
			if n < len(args) {
				t = Concat(t, Str("%!(EXTRA)"))
			}
			return t
		}
		as := []*Term{format}
		for _, a := range args {
			as = append(as, strip(x.value(st, a)))
		}
		return App2("fmt.Sprintf", as...)
	}
	var out []*Term
	f := format.val
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, Str(f[i:]))
			break
		}
		out = append(out, Str(f[i:i+j]))
		i += j + 1
		k := i
		for k < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = append(out, Str("%!(NOVERB)"))
			break
		}
		if f[k] == '%' {
			out = append(out, Str("%"))
		} else if ai < len(args) {
			out = append(out, x.text(st, f[k], f[i:k], args[ai]))
			ai++
		} else {
			out = append(out, Str("%!"+string(f[k])+"(MISSING)"))
		}
		i = k + 1
	}
	if ai < len(args) {
		out = append(out, Str("%!(EXTRA)"))
	}
	return Concat(out...)
}

// instantiate fills in a format made of text that was escaped for formats, paths of such parts, and literals
func (x *Exec) instantiate(st *State, f *Term, args []*Term, n *int) (*Term, bool) {
	sub := func(ts []*Term) ([]*Term, bool) {
		out := make([]*Term, len(ts))
		for i, t := range ts {
			r, ok := x.instantiate(st, t, args, n)
			if !ok {
				return nil, false
			}
			out[i] = r
		}
		return out, true
	}
	switch {
	case f.isStr():
		k := 0
		for i := 0; i < len(f.val); i++ {
			if f.val[i] == '%' {
				if i++; i < len(f.val) && f.val[i] != '%' {
					k++
				}
			}
		}
		if *n+k > len(args) {
			return nil, false
		}
		t := x.sprintf(st, f, args[*n:*n+k])
		*n += k
		return t, true
	case f.is("replaceall") && f.args[1] == Str("%") && f.args[2] == Str("%%"):
		return f.args[0], true
	case f.op == "concat":
		if out, ok := sub(f.args); ok {
			return Concat(out...), true
		}
	case f.is("filepath.Join"):
		if out, ok := sub(f.args); ok {
			return joinPath(out), true
		}
	case f.is("filepath.Rel"):
		if out, ok := sub(f.args); ok {
			return App("filepath.Rel", out...), true
		}
	}
	return nil, false
}

func (x *Exec) sprint(st *State, args []*Term, ln bool) *Term {
	var out []*Term
	for i, a := range args {
		if i > 0 {
			if ln {
				out = append(out, Str(" "))
			} else if !(isStrTerm(a) || isStrTerm(args[i-1])) {
				out = append(out, Str(" "))
			}
		}
		out = append(out, x.text(st, 'v', "", a))
	}
	if ln {
		out = append(out, Str("\n"))
	}
	return Concat(out...)
}

func isStrTerm(a *Term) bool { return a.op == "iface" && a.val == "string" }

// isBuf reports whether w is an in-memory text buffer
func isBuf(w *Term) (*Term, bool) {
	if w.op == "iface" && (w.val == "*strings.Builder" || w.val == "*bytes.Buffer" || w.val == "*bufio.Writer") {
		return w.args[0], true
	}
	return strip(w), false
}

func (x *Exec) bufText(st *State, b *Term) *Term {
	if v, ok := st.mem[contentLoc(b)]; ok {
		if v == Nil {
			return Empty
		}
		return x.value(st, v)
	}
	if rootOf(b).op == "alloc" {
		return Empty
	}
	return App("buf", b)
}

func (x *Exec) appendBuf(st *State, b, s *Term) {
	st.mem[contentLoc(b)] = Concat(x.bufText(st, b), s)
}

// write sends text to a writer: buffers are tracked, everything else is a monitored event
func (x *Exec) write(st *State, w, s *Term, c *CallInfo) []Out {
	s = x.value(st, s)
	if b, ok := isBuf(w); ok {
		if x.mon.write != nil {
			x.mon.write(x, st, b, s, c.pos)
		}
		x.appendBuf(st, b, s)
		return []Out{{st: st, vals: []*Term{lenT(s), Nil}}}
	}
	ev := &CallInfo{name: "write", args: []*Term{strip(w), s}, pos: c.pos, sig: c.sig, nret: c.nret}
	if x.mon.call != nil {
		if outs, ok := x.mon.call(x, st, ev); ok {
			return outs
		}
	}
	return fallible(x, st, c, lenT(s))
}

func byteStr(b *Term) *Term {
	if b.isInt() {
		return Str(string([]byte{byte(b.c)}))
	}
	if b.is("sel") {
		return App("slice", b.args[0], b.args[1], AddC(b.args[1], 1))
	}
	return App("bytestr", b)
}

// cmpTerm evaluates a comparator on two symbolic elements
func (x *Exec) cmpTerm(st *State, f *Term, a, b *Term) *Term {
	ci := &CallInfo{recv: f, args: []*Term{a, b}, nret: 1}
	x.resolveDyn(ci)
	if ci.fn == nil {
		return f
	}
	s := st.clone()
	base := len(s.facts)
	_ = base
	outs := x.dispatch(s, ci)
	if len(outs) == 0 {
		return f
	}
	for i := range outs {
		if outs[i].panic || len(outs[i].vals) == 0 {
			return f
		}
		nf := map[*Term]bool{}
		for t, v := range outs[i].st.facts {
			if _, ok := st.facts[t]; !ok {
				nf[t] = v
			}
		}
		for t, v := range outs[i].st.rep {
			if st.rep[t] != v {
				nf[Eq(t, v)] = true
			}
		}
		o := outs[i].st.clone()
		o.facts = nf
		outs[i].st = o
	}
	t := combineOuts(outs, func(o Out) *Term { return o.vals[0] })
	if t == nil {
		return f
	}
	return t
}

var symA, symB, symI, symJ = Sym("·a"), Sym("·b"), Sym("·i"), Sym("·j")

var inlineStd = map[string]bool{}
var impure = map[string]bool{"flag.Lookup": true}

var models = map[string]model{}

func reg(names string, m model) {
	for _, n := range strings.Fields(names) {
		models[n] = m
	}
}

func init() {
	v := func(x *Exec, st *State, c *CallInfo, i int) *Term {
		t := x.value(st, c.args[i])
		if t.op == "seq" && len(t.args) > 0 && strings.HasPrefix(strings.TrimLeft(c.name, "(*"), "bytes.") {
			return bytesText(t)
		}
		return t
	}
	two := func(f func(a, b *Term) *Term) model {
		return func(x *Exec, st *State, c *CallInfo) []Out { return one(st, f(v(x, st, c, 0), v(x, st, c, 1))) }
	}
	both := func(names string, m model) {
		for _, n := range strings.Fields(names) {
			reg("strings."+n+" bytes."+n, m)
		}
	}
	// strings / bytes
	both("HasPrefix", two(hasPrefixT))
	both("HasSuffix", two(hasSuffixT))
	both("Contains", two(containsT))
	both("TrimSuffix", two(trimSuffixT))
	both("TrimPrefix", two(trimPrefixT))
	reg("bytes.Equal", two(func(a, b *Term) *Term {
		return Eq(a, b)
	}))
	both("Compare", two(func(a, b *Term) *Term { return App("cmp", a, b) }))
	both("Index", two(func(a, b *Term) *Term { return indexT(a, b) }))
	both("LastIndex", two(lastIndexT))
	both("IndexByte LastIndexByte", func(x *Exec, st *State, c *CallInfo) []Out {
		b := byteStr(c.args[1])
		if strings.Contains(c.name, "Last") {
			return one(st, lastIndexT(v(x, st, c, 0), b))
		}
		return one(st, indexT(v(x, st, c, 0), b))
	})
	both("IndexRune", func(x *Exec, st *State, c *CallInfo) []Out {
		if c.args[1].isInt() {
			return one(st, indexT(v(x, st, c, 0), Str(string(rune(c.args[1].c)))))
		}
		return one(st, App("indexrune", v(x, st, c, 0), c.args[1]))
	})
	both("ContainsRune", func(x *Exec, st *State, c *CallInfo) []Out {
		if c.args[1].isInt() {
			return one(st, containsT(v(x, st, c, 0), Str(string(rune(c.args[1].c)))))
		}
		return one(st, App("containsrune", v(x, st, c, 0), c.args[1]))
	})
	both("Count", two(func(a, b *Term) *Term {
		if a.isStr() && b.isStr() {
			return Int(int64(strings.Count(a.val, b.val)))
		}
		return App("count", a, b)
	}))
	both("ReplaceAll", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, replaceAllT(v(x, st, c, 0), v(x, st, c, 1), v(x, st, c, 2)))
	})
	both("Replace", func(x *Exec, st *State, c *CallInfo) []Out {
		if c.args[3].isInt() && c.args[3].c < 0 {
			return one(st, replaceAllT(v(x, st, c, 0), v(x, st, c, 1), v(x, st, c, 2)))
		}
		return one(st, App("replacen", v(x, st, c, 0), v(x, st, c, 1), v(x, st, c, 2), c.args[3]))
	})
	both("Split", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, x.newObj(st, "split", splitT(v(x, st, c, 0), v(x, st, c, 1))))
	})
	both("SplitN", func(x *Exec, st *State, c *CallInfo) []Out {
		a, b, n := v(x, st, c, 0), v(x, st, c, 1), c.args[2]
		if n.isInt() && n.c < 0 {
			return one(st, x.newObj(st, "split", splitT(a, b)))
		}
		if n == Int(2) {
			var outs []Out
			for _, s := range st.clone().assume(containsT(a, b), true) {
				outs = append(outs, one(s, mk("seq", "", 0, nil, beforeT(a, b), afterT(a, b)))...)
			}
			for _, s := range st.clone().assume(containsT(a, b), false) {
				outs = append(outs, one(s, mk("seq", "", 0, nil, a))...)
			}
			return outs
		}
		return one(st, App("splitn", a, b, n))
	})
	both("SplitAfter", two(func(a, b *Term) *Term { return App("splitafter", a, b) }))
	both("Cut", func(x *Exec, st *State, c *CallInfo) []Out {
		a, b := v(x, st, c, 0), v(x, st, c, 1)
		var outs []Out
		for _, s := range st.clone().assume(containsT(a, b), true) {
			outs = append(outs, one(s, beforeT(a, b), afterT(a, b), True)...)
		}
		for _, s := range st.clone().assume(containsT(a, b), false) {
			outs = append(outs, one(s, a, Empty, False)...)
		}
		return outs
	})
	both("CutSuffix CutPrefix", func(x *Exec, st *State, c *CallInfo) []Out {
		a, b := v(x, st, c, 0), v(x, st, c, 1)
		h, r := hasSuffixT(a, b), trimSuffixT(a, b)
		if strings.HasSuffix(c.name, "Prefix") {
			h, r = hasPrefixT(a, b), trimPrefixT(a, b)
		}
		var outs []Out
		for _, s := range st.clone().assume(h, true) {
			r := r
			if r == App("trimprefix", a, b) {
				r = sliceTerm(a, lenT(b), lenT(a))
			}
			outs = append(outs, one(s, r, True)...)
		}
		for _, s := range st.clone().assume(h, false) {
			outs = append(outs, one(s, a, False)...)
		}
		return outs
	})
	both("Join", two(joinT))
	reg("strings.Clone", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, v(x, st, c, 0)) })
	reg("bytes.Clone slices.Clone", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, x.newObj(st, "clone", v(x, st, c, 0)))
	})
	reg("strings.Repeat", func(x *Exec, st *State, c *CallInfo) []Out {
		a, n := v(x, st, c, 0), c.args[1]
		if n == Int(0) {
			return one(st, Empty)
		}
		if a.isStr() && n.isInt() && n.c >= 0 && n.c < 1000 {
			return one(st, Str(strings.Repeat(a.val, int(n.c))))
		}
		return one(st, App("repeat", a, n))
	})
	both("TrimSpace ToLower ToUpper Fields ToValidUTF8", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("strings."+c.name[strings.IndexByte(c.name, '.')+1:], v(x, st, c, 0)))
	})
	both("TrimRight TrimLeft Trim", two2("trimset"))
	reg("strings.NewReader bytes.NewReader bytes.NewBufferString bytes.NewBuffer", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, x.newObj(st, c.name, v(x, st, c, 0)))
	})
	reg("strings.NewReplacer", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("replacer", v(x, st, c, 0)))
	})
	reg("(*strings.Replacer).Replace", func(x *Exec, st *State, c *CallInfo) []Out {
		r := c.args[0]
		if r.is("replacer") && r.args[0].op == "seq" && len(r.args[0].args) == 2 {
			return one(st, replaceAllT(v(x, st, c, 1), r.args[0].args[0], r.args[0].args[1]))
		}
		return one(st, App("replacer.replace", r, v(x, st, c, 1)))
	})
	// builders
	reg("bufio.NewWriter bufio.NewWriterSize", func(x *Exec, st *State, c *CallInfo) []Out {
		o := x.newObj(st, "bufwriter", Empty)
		st.mem[fa(o, 0, "dst")] = c.args[0]
		return one(st, o)
	})
	reg("(*bufio.Writer).Flush", func(x *Exec, st *State, c *CallInfo) []Out {
		dst, ok := st.mem[fa(c.args[0], 0, "dst")]
		if !ok {
			x.undecided("a bufio.Writer of unknown destination")
		}
		t := x.bufText(st, c.args[0])
		st.mem[contentLoc(c.args[0])] = Empty
		c2 := *c
		c2.nret = 2
		outs := x.write(st, dst, t, &c2)
		for i := range outs {
			outs[i].vals = outs[i].vals[1:]
		}
		return outs
	})
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*bufio.Writer)."} {
		reg(t+"WriteString "+t+"Write", func(x *Exec, st *State, c *CallInfo) []Out {
			s := v(x, st, c, 1)
			if x.mon.write != nil {
				x.mon.write(x, st, c.args[0], s, c.pos)
			}
			x.appendBuf(st, c.args[0], s)
			return one(st, lenT(s), Nil)
		})
		reg(t+"WriteByte "+t+"WriteRune", func(x *Exec, st *State, c *CallInfo) []Out {
			var s *Term
			b := c.args[1]
			if strings.HasSuffix(c.name, "Rune") {
				if b.isInt() {
					s = Str(string(rune(b.c)))
				} else {
					s = App("runestr1", b)
				}
			} else {
				s = byteStr(b)
			}
			if x.mon.write != nil {
				x.mon.write(x, st, c.args[0], s, c.pos)
			}
			x.appendBuf(st, c.args[0], s)
			if c.nret == 2 {
				return one(st, lenT(s), Nil)
			}
			return one(st, Nil)
		})
		reg(t+"String "+t+"Bytes", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, x.bufText(st, c.args[0])) })
		reg(t+"Len", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, lenT(x.bufText(st, c.args[0]))) })
		reg(t+"Reset", func(x *Exec, st *State, c *CallInfo) []Out {
			st.mem[contentLoc(c.args[0])] = Empty
			return one(st)
		})
		reg(t+"Grow", func(x *Exec, st *State, c *CallInfo) []Out { return one(st) })
	}
	reg("(*bytes.Buffer).Truncate", func(x *Exec, st *State, c *CallInfo) []Out {
		st.mem[contentLoc(c.args[0])] = sliceTerm(x.bufText(st, c.args[0]), Int(0), c.args[1])
		return one(st)
	})
	reg("(*bytes.Buffer).WriteTo", func(x *Exec, st *State, c *CallInfo) []Out {
		t := x.bufText(st, c.args[0])
		st.mem[contentLoc(c.args[0])] = Empty
		return x.write(st, c.args[1], t, c)
	})
	reg("reflect.TypeFor", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("reflect.type", mk("type", typeName(c.fn.TypeArgs()[0]), 0, nil)))
	})
	// fmt
	reg("fmt.Sprintf", func(x *Exec, st *State, c *CallInfo) []Out {
		as, ok := x.seqArgs(st, c.args[1])
		if !ok {
			return one(st, App("fmt.Sprintf", v(x, st, c, 0), v(x, st, c, 1)))
		}
		return one(st, x.sprintf(st, c.args[0], as))
	})
	reg("fmt.Sprint fmt.Sprintln", func(x *Exec, st *State, c *CallInfo) []Out {
		as, ok := x.seqArgs(st, c.args[0])
		if !ok {
			return one(st, App(c.name, v(x, st, c, 0)))
		}
		return one(st, x.sprint(st, as, strings.HasSuffix(c.name, "ln")))
	})
	reg("fmt.Fprintf", func(x *Exec, st *State, c *CallInfo) []Out {
		as, ok := x.seqArgs(st, c.args[2])
		s := App("fmt.Sprintf", v(x, st, c, 1), v(x, st, c, 2))
		if ok {
			s = x.sprintf(st, c.args[1], as)
		}
		return x.write(st, c.args[0], s, c)
	})
	reg("fmt.Fprint fmt.Fprintln", func(x *Exec, st *State, c *CallInfo) []Out {
		as, ok := x.seqArgs(st, c.args[1])
		s := App(c.name, v(x, st, c, 1))
		if ok {
			s = x.sprint(st, as, strings.HasSuffix(c.name, "ln"))
		}
		return x.write(st, c.args[0], s, c)
	})
	reg("fmt.Appendf", func(x *Exec, st *State, c *CallInfo) []Out {
		as, ok := x.seqArgs(st, c.args[2])
		s := App("fmt.Sprintf", v(x, st, c, 1), v(x, st, c, 2))
		if ok {
			s = x.sprintf(st, c.args[1], as)
		}
		return one(st, x.newObj(st, "appendf", Concat(v(x, st, c, 0), s)))
	})
	reg("fmt.Println fmt.Printf fmt.Print", func(x *Exec, st *State, c *CallInfo) []Out {
		var s *Term
		if c.name == "fmt.Printf" {
			as, ok := x.seqArgs(st, c.args[1])
			s = App("fmt.Sprintf", v(x, st, c, 0))
			if ok {
				s = x.sprintf(st, c.args[0], as)
			}
		} else {
			as, ok := x.seqArgs(st, c.args[0])
			s = App(c.name, v(x, st, c, 0))
			if ok {
				s = x.sprint(st, as, c.name == "fmt.Println")
			}
		}
		ev := &CallInfo{name: "stdout", args: []*Term{s}, pos: c.pos}
		if x.mon.call != nil {
			if outs, ok := x.mon.call(x, st, ev); ok {
				for i := range outs {
					outs[i].vals = []*Term{lenT(s), Nil}
				}
				return outs
			}
		}
		return one(st, lenT(s), Nil)
	})
	reg("fmt.Errorf", func(x *Exec, st *State, c *CallInfo) []Out {
		as, ok := x.seqArgs(st, c.args[1])
		if !ok {
			return one(st, App("errorf", v(x, st, c, 0), v(x, st, c, 1)))
		}
		var wr []*Term
		if f := v(x, st, c, 0); f.isStr() && strings.Contains(f.val, "%w") {
			wr = as
		}
		return one(st, App("errorf", append([]*Term{x.sprintf(st, c.args[0], as)}, wr...)...))
	})
	reg("io.WriteString", func(x *Exec, st *State, c *CallInfo) []Out { return x.write(st, c.args[0], c.args[1], c) })
	reg("(*os.File).Write (*os.File).WriteString", func(x *Exec, st *State, c *CallInfo) []Out { return x.write(st, c.args[0], c.args[1], c) })
	reg("(io.Writer).Write", func(x *Exec, st *State, c *CallInfo) []Out { return x.write(st, c.args[0], c.args[1], c) })
	// errors
	reg("errors.New", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("errors.New", c.args[0], Sym("at:"+x.p.line(c.pos))))
	})
	reg("errors.Is", func(x *Exec, st *State, c *CallInfo) []Out {
		a, b := st.norm(strip(c.args[0])), st.norm(strip(c.args[1]))
		if a == b {
			return one(st, True)
		}
		if a == Nil {
			return one(st, Bool(b == Nil))
		}
		if a.is("errorf") {
			for _, w := range a.args[1:] {
				if strip(w) == b {
					return one(st, True)
				}
			}
			return one(st, False)
		}
		if distinctConst(a, b) {
			return one(st, False)
		}
		return one(st, App("errors.Is", a, b))
	})
	// conversions
	reg("strconv.Itoa", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, itoaT(c.args[0])) })
	reg("strconv.FormatInt", func(x *Exec, st *State, c *CallInfo) []Out {
		if c.args[1] == Int(10) {
			return one(st, itoaT(c.args[0]))
		}
		return one(st, App(c.name, c.args...))
	})
	reg("strconv.Atoi", func(x *Exec, st *State, c *CallInfo) []Out {
		a := v(x, st, c, 0)
		if a.is("itoa") {
			return one(st, a.args[0], Nil)
		}
		if a.is("itoa") {
			return one(st, a.args[0], Nil)
		}
		return fallible(x, st, c, App("atoi", a))
	})
	reg("strconv.Quote", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("quote", v(x, st, c, 0))) })
	// paths
	for _, p := range []string{"path/filepath.", "path."} {
		reg(p+"Join", func(x *Exec, st *State, c *CallInfo) []Out {
			as, ok := x.seqArgs(st, c.args[0])
			if !ok {
				return one(st, App("joinpath", v(x, st, c, 0)))
			}
			vs := make([]*Term, len(as))
			for i := range as {
				vs[i] = x.value(st, as[i])
			}
			return one(st, joinPath(vs))
		})
		for _, f := range []string{"Dir", "Base", "Ext", "IsAbs", "Clean"} {
			f := f
			reg(p+f, func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("filepath."+f, v(x, st, c, 0))) })
		}
	}
	reg("path/filepath.ToSlash path/filepath.FromSlash", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, v(x, st, c, 0)) })
	reg("path/filepath.Rel", func(x *Exec, st *State, c *CallInfo) []Out {
		return fallible(x, st, c, App("filepath.Rel", v(x, st, c, 0), v(x, st, c, 1)))
	})
	// regexp
	reg("regexp.MatchString regexp.Match", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("rematch", v(x, st, c, 0), v(x, st, c, 1)), App("reerr", v(x, st, c, 0)))
	})
	reg("regexp.Compile", func(x *Exec, st *State, c *CallInfo) []Out {
		return fallible(x, st, c, App("nonnil", App("regexp", v(x, st, c, 0))))
	})
	reg("regexp.MustCompile", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("nonnil", App("regexp", v(x, st, c, 0))))
	})
	reg("(*regexp.Regexp).MatchString (*regexp.Regexp).Match", func(x *Exec, st *State, c *CallInfo) []Out {
		r := c.args[0]
		if r.is("nonnil") && r.args[0].is("regexp") {
			return one(st, App("rematch", r.args[0].args[0], v(x, st, c, 1)))
		}
		return one(st, App("rematch?", r, v(x, st, c, 1)))
	})
	// os
	reg("os.Getenv", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("os.Getenv", v(x, st, c, 0))) })
	reg("os.LookupEnv", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("os.Getenv", v(x, st, c, 0)), App("envset", v(x, st, c, 0)))
	})
	reg("os.ReadFile", func(x *Exec, st *State, c *CallInfo) []Out {
		return fallible(x, st, c, App("nonnil", App("file", v(x, st, c, 0))))
	})
	reg("io.ReadAll", func(x *Exec, st *State, c *CallInfo) []Out {
		return fallible(x, st, c, App("readall", x.value(st, strip(c.args[0]))))
	})
	reg("os.OpenFile os.Open os.Create os.CreateTemp", func(x *Exec, st *State, c *CallInfo) []Out {
		f := x.newObj(st, "file:"+x.p.line(c.pos), nil)
		st.mem[fa(f, 0, "path")] = v(x, st, c, 0)
		outs := fallible(x, st, c, f)
		delete(outs[1].st.mem, fa(f, 0, "path"))
		return outs
	})
	reg("(*os.File).Seek", func(x *Exec, st *State, c *CallInfo) []Out { return fallible(x, st, c, c.args[1]) })
	reg("(*os.File).Stat os.Stat os.Lstat", func(x *Exec, st *State, c *CallInfo) []Out {
		return fallible(x, st, c, App("nonnil", App("fileinfo", c.args[0])))
	})
	reg("(*os.File).Name", func(x *Exec, st *State, c *CallInfo) []Out {
		if p, ok := st.mem[fa(c.args[0], 0, "path")]; ok {
			return one(st, p)
		}
		return one(st, App("filename", c.args[0]))
	})
	reg("os.ReadDir", func(x *Exec, st *State, c *CallInfo) []Out {
		d := App("direntries", v(x, st, c, 0))
		outs := fallible(x, st, c, d)
		// entries read before an error are returned with it
		outs[1].vals[0] = d
		return outs
	})
	for _, n := range []string{"os.Remove", "os.RemoveAll", "os.Rename", "os.MkdirAll", "os.Mkdir", "os.WriteFile", "os.Truncate", "os.Chmod", "(*os.File).Truncate", "(*os.File).Close", "(*os.File).Sync"} {
		reg(n, func(x *Exec, st *State, c *CallInfo) []Out { return fallible(x, st, c) })
	}
	// scanner
	reg("bufio.NewScanner", func(x *Exec, st *State, c *CallInfo) []Out {
		s := x.newObj(st, "scanner", nil)
		st.mem[fa(s, 0, "src")] = strip(c.args[0])
		st.mem[fa(s, 1, "max")] = Int(64 * 1024)
		st.mem[fa(s, 2, "eof")] = False
		return one(st, s)
	})
	reg("(*bufio.Scanner).Buffer", func(x *Exec, st *State, c *CallInfo) []Out {
		st.mem[fa(c.args[0], 1, "max")] = c.args[2]
		return one(st)
	})
	reg("(*bufio.Scanner).Split", func(x *Exec, st *State, c *CallInfo) []Out {
		st.mem[fa(c.args[0], 4, "split")] = c.args[1]
		return one(st)
	})
	reg("(*bufio.Scanner).Scan", func(x *Exec, st *State, c *CallInfo) []Out {
		s := c.args[0]
		var outs []Out
		if st.mem[fa(s, 2, "eof")] != True {
			a := st.clone()
			l := x.fresh(a, "line@"+x.p.line(c.pos))
			a.mem[contentLoc(App("linebuf", s))] = l
			sts := []*State{a}
			if x.mon.scan != nil {
				sts = x.mon.scan(x, a, s, l, c.pos)
			}
			for _, s := range sts {
				outs = append(outs, one(s, True)...)
			}
		}
		b := st.clone()
		b.mem[fa(s, 2, "eof")] = True
		sts := []*State{b}
		if x.mon.scan != nil && st.mem[fa(s, 2, "eof")] != True {
			sts = x.mon.scan(x, b, s, nil, c.pos)
		}
		for _, s := range sts {
			for _, e := range x.scanEnd(s) {
				outs = append(outs, one(e, False)...)
			}
		}
		return outs
	})
	reg("(*bufio.Scanner).Bytes", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("linebuf", c.args[0])) })
	reg("(*bufio.Scanner).Text", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, x.value(st, App("linebuf", c.args[0])))
	})
	reg("(*bufio.Scanner).Err", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("scanerr", c.args[0])) })
	// sync: no value effect (locks are tracked by monitors)
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			reg("(*sync."+t+")."+m, func(x *Exec, st *State, c *CallInfo) []Out { return one(st) })
		}
	}
	// builtins
	reg("builtin.len", func(x *Exec, st *State, c *CallInfo) []Out {
		if c.sig != nil && c.sig.Params().Len() > 0 {
			if _, ok := c.sig.Params().At(0).Type().Underlying().(*types.Map); ok {
				return one(st, App("maplen", x.mapContent(st, c.args[0])))
			}
		}
		return one(st, lenT(v(x, st, c, 0)))
	})
	reg("builtin.cap", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("cap", v(x, st, c, 0))) })
	reg("builtin.append", func(x *Exec, st *State, c *CallInfo) []Out {
		a, b := c.args[0], c.args[1]
		if c.sig != nil && c.sig.Params().Len() > 0 && isBytes(c.sig.Params().At(0).Type()) {
			va, vb := x.value(st, a), x.value(st, b)
			if vb.op == "seq" {
				var bs []*Term
				for _, e := range vb.args {
					bs = append(bs, byteStr(e))
				}
				vb = Concat(bs...)
			}
			if va.op == "seq" {
				va = Concat(mapTerms(va.args, byteStr)...)
			}
			r := Concat(va, vb)
			if r == b || va == Empty || va == Nil {
				return one(st, x.newObj(st, "appended", r))
			}
			return one(st, r)
		}
		va, vb := x.content(st, a), x.content(st, b)
		if va == Nil && vb == Nil {
			return one(st, Nil)
		}
		if vb == Nil || vb == emptySeq {
			return one(st, a)
		}
		r := seqcatT(va, vb)
		if r == b || r == vb && r.op != "seq" {
			return one(st, x.newObj(st, "appended", r))
		}
		return one(st, r)
	})
	reg("builtin.copy", func(x *Exec, st *State, c *CallInfo) []Out {
		d, s := c.args[0], v(x, st, c, 1)
		dv := x.content(st, d)
		if lenT(dv) == lenT(s) {
			st.mem[contentLoc(d)] = s
		} else {
			st.mem[contentLoc(d)] = App("copied", dv, s)
		}
		return one(st, App("copyn", lenT(dv), lenT(s)))
	})
	reg("builtin.delete", func(x *Exec, st *State, c *CallInfo) []Out {
		m, k := c.args[0], x.value(st, strip(c.args[1]))
		if x.mon.mapset != nil {
			x.mon.mapset(x, st, m, k, nil, c.pos)
		}
		st.mem[contentLoc(m)] = App("mapdel", x.mapContent(st, m), k)
		return one(st)
	})
	reg("builtin.clear", func(x *Exec, st *State, c *CallInfo) []Out {
		if c.sig != nil && c.sig.Params().Len() > 0 {
			if _, ok := c.sig.Params().At(0).Type().Underlying().(*types.Map); ok {
				st.mem[contentLoc(c.args[0])] = App("emptymap")
				return one(st)
			}
		}
		st.mem[contentLoc(c.args[0])] = App("cleared", v(x, st, c, 0))
		return one(st)
	})
	mm := func(isMax bool) model {
		return func(x *Exec, st *State, c *CallInfo) []Out {
			outs := []Out{{st: st, vals: []*Term{c.args[0]}}}
			for _, b := range c.args[1:] {
				var nx []Out
				for _, o := range outs {
					a := o.vals[0]
					le := Le(b, a)
					if !isMax {
						le = Le(a, b)
					}
					y, n := o.st.split(le)
					for _, s := range y {
						nx = append(nx, one(s, a)...)
					}
					for _, s := range n {
						nx = append(nx, one(s, b)...)
					}
				}
				outs = nx
			}
			return outs
		}
	}
	reg("builtin.max", mm(true))
	reg("builtin.min", mm(false))
	reg("builtin.recover", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, Nil) })
	reg("builtin.print builtin.println", func(x *Exec, st *State, c *CallInfo) []Out { return one(st) })
	reg("builtin.ssa:wrapnilchk", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, c.args[0]) })
	// sorting
	sortBy := func(st *State, x *Exec, s, cmp *Term) {
		st.mem[contentLoc(s)] = App("sorted", x.content(st, s), cmp)
	}
	reg("maps.Keys", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("mapkeys", c.args[0])) })
	reg("slices.Sorted slices.Collect", func(x *Exec, st *State, c *CallInfo) []Out {
		s := x.value(st, c.args[0])
		if !s.is("mapkeys") {
			return nil
		}
		if c.name == "slices.Sorted" {
			s = App("sorted", s, Sym("<"))
		}
		return one(st, x.newObj(st, "keys@"+x.p.line(c.pos), s))
	})
	reg("slices.SortFunc slices.SortStableFunc", func(x *Exec, st *State, c *CallInfo) []Out {
		sortBy(st, x, c.args[0], x.cmpTerm(st, c.args[1], symA, symB))
		return one(st)
	})
	reg("slices.IsSortedFunc", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("issorted", x.content(st, c.args[0]), x.cmpTerm(st, c.args[1], symA, symB)))
	})
	reg("slices.Sort sort.Strings sort.Ints", func(x *Exec, st *State, c *CallInfo) []Out {
		sortBy(st, x, c.args[0], Sym("<"))
		return one(st)
	})
	reg("slices.IsSorted sort.StringsAreSorted", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("issorted", x.content(st, c.args[0]), Sym("<")))
	})
	lessIdx := func(x *Exec, st *State, c *CallInfo) *Term {
		s := strip(c.args[0])
		cont := x.content(st, s)
		t := x.cmpTerm(st, c.args[1], symI, symJ)
		return mapTerm(t, func(u *Term) *Term {
			if u.is("sel") && u.args[0] == cont {
				if u.args[1] == symI {
					return symA
				}
				if u.args[1] == symJ {
					return symB
				}
			}
			return nil
		}, map[*Term]*Term{})
	}
	reg("sort.Slice sort.SliceStable", func(x *Exec, st *State, c *CallInfo) []Out {
		sortBy(st, x, strip(c.args[0]), App("less", lessIdx(x, st, c)))
		return one(st)
	})
	reg("sort.SliceIsSorted", func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App("issorted", x.content(st, strip(c.args[0])), App("less", lessIdx(x, st, c))))
	})
	reg("slices.Contains", func(x *Exec, st *State, c *CallInfo) []Out {
		s, e := x.content(st, c.args[0]), x.value(st, c.args[1])
		if s.op == "seq" {
			var or []*Term
			for _, a := range s.args {
				or = append(or, Eq(a, e))
			}
			return one(st, Or(or...))
		}
		if s == Nil {
			return one(st, False)
		}
		return one(st, App("in", s, e))
	})
	reg("slices.ContainsFunc slices.IndexFunc", func(x *Exec, st *State, c *CallInfo) []Out {
		s := x.content(st, c.args[0])
		if s == Nil {
			if strings.HasSuffix(c.name, "IndexFunc") {
				return one(st, Int(-1))
			}
			return one(st, False)
		}
		return x.searchModel(st, c, s)
	})
	// method values through embedded locks and readers
	// a mapping that replaces one character
	reg("strings.Map bytes.Map", func(x *Exec, st *State, c *CallInfo) []Out {
		t, r := v(x, st, c, 1), x.fresh(st.clone(), "rune")
		d := &CallInfo{recv: c.args[0], args: []*Term{r}, nret: 1, pos: c.pos}
		x.resolveDyn(d)
		res, same, n := t, false, 0
		for _, o := range x.dispatch(st.clone(), d) {
			got := o.st.norm(o.vals[0])
			var from *Term
			for ch := int64(0); ch < 128 && from == nil; ch++ {
				if o.st.eval(Eq(r, Int(ch))) == True {
					from = Str(string(rune(ch)))
				}
			}
			switch {
			case from == nil && got == o.st.norm(r):
				same = true
			case from != nil && got.isInt() && got.c < 128:
				n++
				to := Empty
				if got.c >= 0 {
					to = Str(string(rune(got.c)))
				}
				res = replaceAllT(t, from, to)
			default:
				n = 9
			}
		}
		if !same || n > 1 {
			return one(st, App("strings.Map", c.args[0], t))
		}
		return one(st, res)
	})
	reg("os.Getwd", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("os.Getwd"), App("os.Getwd.err")) })
	reg("runtime.Caller", func(x *Exec, st *State, c *CallInfo) []Out {
		i := c.args[0]
		yes, no := st.split(App("hasframe", i))
		var outs []Out
		for _, s := range yes {
			outs = append(outs, one(s, App("framepc", i), App("framefile", i), App("frameline", i), True)...)
		}
		for _, s := range no {
			outs = append(outs, one(s, Int(0), Empty, Int(0), False)...)
		}
		return outs
	})
	reg("runtime.FuncForPC", func(x *Exec, st *State, c *CallInfo) []Out {
		yes, no := st.split(App("hasfunc", c.args[0]))
		var outs []Out
		for _, s := range yes {
			outs = append(outs, one(s, App("nonnil", App("funcof", c.args[0])))...)
		}
		for _, s := range no {
			outs = append(outs, one(s, Nil)...)
		}
		return outs
	})
	reg("(*runtime.Func).Name", func(x *Exec, st *State, c *CallInfo) []Out { return one(st, App("funcname", c.args[0])) })
}

// searchModel: slices.ContainsFunc / IndexFunc behave like the explicit search loop
func (x *Exec) searchModel(st *State, c *CallInfo, s *Term) []Out {
	idx := strings.HasSuffix(c.name, "IndexFunc")
	var outs []Out
	// found at some position
	a := st.clone()
	i := x.fresh(a, "pos@"+x.p.line(c.pos))
	for _, b := range a.assume(Le(Int(0), i), true) {
		for _, b2 := range b.assume(Lt(i, lenT(s)), true) {
			if x.mon.index != nil {
				x.mon.index(x, b2, c.args[0], i, c.pos)
			}
			d := &CallInfo{recv: c.args[1], args: []*Term{selT(s, i)}, nret: 1, pos: c.pos}
			x.resolveDyn(d)
			for _, o := range x.dispatch(b2, d) {
				for _, f := range o.st.assume(o.vals[0], true) {
					r := True
					if idx {
						r = i
					}
					outs = append(outs, one(f, r)...)
				}
				for _, f := range o.st.clone().assume(o.vals[0], false) {
					if x.mon.back != nil {
						x.mon.back(x, f, nil, c.pos)
					}
				}
			}
		}
	}
	n := st.clone()
	if x.mon.exhaust != nil {
		x.mon.exhaust(x, n, s, c.pos)
	}
	r := False
	if idx {
		r = Int(-1)
	}
	return append(outs, one(n, r)...)
}

func two2(n string) model {
	return func(x *Exec, st *State, c *CallInfo) []Out {
		return one(st, App(n+"."+c.name[strings.IndexByte(c.name, '.')+1:], x.value(st, c.args[0]), x.value(st, c.args[1])))
	}
}

func mapTerms(ts []*Term, f func(*Term) *Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = f(t)
	}
	return out
}

// nospace marks texts that contain no blank: digits and (by testing's rewriting) test names
func nospace(t *Term) bool {
	return t.is("itoa") || t.op == "sym" && strings.HasPrefix(t.val, "nospace:")
}

// findSep locates every occurrence of a separator that starts and ends with a blank in a
// concatenation whose opaque parts contain none
func findSep(x, sep *Term) (at [][2]int, ok bool) {
	if !sep.isStr() || sep.val == "" || sep.val[0] != ' ' || sep.val[len(sep.val)-1] != ' ' || x.isStr() {
		return nil, false
	}
	ps := parts(x)
	open := false // a literal so far ends like the beginning of sep
	for i, p := range ps {
		if !p.isStr() {
			if !nospace(p) {
				return nil, false
			}
			continue
		}
		for k := 1; k < len(sep.val); k++ {
			if open && strings.HasPrefix(p.val, sep.val[k:]) {
				return nil, false
			}
		}
		for o := 0; ; {
			j := strings.Index(p.val[o:], sep.val)
			if j < 0 {
				break
			}
			at = append(at, [2]int{i, o + j})
			o += j + len(sep.val)
		}
		for k := 1; k < len(sep.val); k++ {
			open = open || strings.HasSuffix(p.val, sep.val[:k])
		}
	}
	return at, true
}

// cutAt splits a concatenation around an occurrence found by findSep
func cutAt(x, sep *Term, at [2]int) (before, after *Term) {
	ps := parts(x)
	l := ps[at[0]].val
	before = Concat(append(append([]*Term{}, ps[:at[0]]...), Str(l[:at[1]]))...)
	after = Concat(append([]*Term{Str(l[at[1]+len(sep.val):])}, ps[at[0]+1:]...)...)
	return
}

func beforeT(a, b *Term) *Term {
	if at, ok := findSep(a, b); ok && len(at) > 0 {
		l, _ := cutAt(a, b, at[0])
		return l
	}
	return App2("before", a, b)
}

func afterT(a, b *Term) *Term {
	if at, ok := findSep(a, b); ok && len(at) > 0 {
		_, r := cutAt(a, b, at[0])
		return r
	}
	return App2("after", a, b)
}

func lastIndexT(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return Int(int64(strings.LastIndex(a.val, b.val)))
	}
	if at, ok := findSep(a, b); ok {
		if len(at) == 0 {
			return Int(-1)
		}
		l, _ := cutAt(a, b, at[len(at)-1])
		return lenT(l)
	}
	return App2("lastindex", a, b)
}

func splitT(a, b *Term) *Term {
	if at, ok := findSep(a, b); ok && len(at) <= 1 {
		if len(at) == 0 {
			return mk("seq", "", 0, nil, a)
		}
		l, r := cutAt(a, b, at[0])
		return mk("seq", "", 0, nil, l, r)
	}
	if a.isStr() && b.isStr() && b.val != "" {
		var ps []*Term
		for _, s := range strings.Split(a.val, b.val) {
			ps = append(ps, Str(s))
		}
		return mk("seq", "", 0, nil, ps...)
	}
	return App2("split", a, b)
}

func indexT(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return Int(int64(strings.Index(a.val, b.val)))
	}
	if at, ok := findSep(a, b); ok {
		if len(at) == 0 {
			return Int(-1)
		}
		l, _ := cutAt(a, b, at[0])
		return lenT(l)
	}
	return App2("index", a, b)
}

func And(ts ...*Term) *Term { return junct("and", True, False, ts) }
func Or(ts ...*Term) *Term  { return junct("or", False, True, ts) }

func junct(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == zero {
			return zero
		}
		if t == unit || seen[t] {
			continue
		}
		seen[t] = true
		if seen[Not(t)] {
			return zero
		}
		if t.op == op {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, "", 0, nil, out...)
}

package main

// Value numbers: hash-consed terms with normalising constructors. Two program values that get the same
// *Term are equal on every execution the analysed path stands for.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	op   string // const | sym | fresh | phi | lin | concat | eq | not | le0 | and | or | ite | app names ...
	val  string
	args []*Term
	c    int64   // lin constant, int const
	k    []int64 // lin coefficients
	id   int

	hasVar bool // contains fresh or phi symbols
}

var (
	interned = map[string]*Term{}
	termList []*Term
)

func mk(op, val string, c int64, k []int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(val)
	b.WriteByte(0)
	b.WriteString(strconv.FormatInt(c, 36))
	for _, x := range k {
		b.WriteByte(1)
		b.WriteString(strconv.FormatInt(x, 36))
	}
	for _, a := range args {
		b.WriteByte(2)
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if t, ok := interned[key]; ok {
		return t
	}
	t := &Term{op: op, val: val, c: c, k: k, args: append([]*Term(nil), args...), id: len(termList)}
	t.hasVar = op == "fresh" || op == "phi" || op == "alloc"
	for _, a := range args {
		t.hasVar = t.hasVar || a.hasVar
	}
	interned[key] = t
	termList = append(termList, t)
	return t
}

func App(name string, args ...*Term) *Term { return mk("app", name, 0, nil, args...) }
func Sym(name string) *Term                { return mk("sym", name, 0, nil) }
func Str(s string) *Term                   { return mk("str", s, 0, nil) }
func Int(n int64) *Term                    { return mk("int", "", n, nil) }
func Global(name string) *Term             { return mk("global", name, 0, nil) }

var (
	True  = mk("bool", "true", 0, nil)
	False = mk("bool", "false", 0, nil)
	Nil   = mk("nil", "", 0, nil)
	Elem  = mk("sym", "•", 0, nil) // bound element of map/star terms
	Empty = Str("")
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isStr() bool { return t.op == "str" }
func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isConst() bool {
	switch t.op {
	case "str", "int", "bool", "nil", "const":
		return true
	}
	return false
}
func (t *Term) is(name string) bool { return t.op == "app" && t.val == name }

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 9 {
		return "…"
	}
	switch t.op {
	case "str":
		return strconv.Quote(t.val)
	case "int":
		return strconv.FormatInt(t.c, 10)
	case "bool", "const", "sym":
		return t.val
	case "fresh", "phi":
		return t.val
	case "nil":
		return "nil"
	case "global":
		return short(t.val)
	case "alloc":
		return "&" + t.val
	case "lin":
		var p []string
		for i, a := range t.args {
			switch t.k[i] {
			case 1:
				p = append(p, a.str(d+1))
			default:
				p = append(p, fmt.Sprintf("%d*%s", t.k[i], a.str(d+1)))
			}
		}
		s := strings.Join(p, "+")
		if t.c != 0 {
			s += fmt.Sprintf("%+d", t.c)
		}
		return "(" + s + ")"
	case "le0":
		return t.args[0].str(d+1) + "≤0"
	case "eq":
		return "(" + t.args[0].str(d+1) + "==" + t.args[1].str(d+1) + ")"
	case "not":
		return "!" + t.args[0].str(d+1)
	case "concat":
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return "⟨" + strings.Join(p, "·") + "⟩"
	case "fa":
		return t.args[0].str(d+1) + "." + t.val
	case "ia":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]@"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	n := t.val
	if t.op != "app" {
		n = t.op
		if t.val != "" {
			n += ":" + t.val
		}
	}
	return short(n) + "(" + strings.Join(p, ", ") + ")"
}

func short(n string) string { return strings.ReplaceAll(n, "github.com/gkampitakis/go-snaps/", "") }

// ---------------------------------------------------------------- strings

func Concat(parts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "concat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t == Nil { // nil []byte
			return
		}
		if t.isStr() {
			if t.val == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].isStr() {
				out[n-1] = Str(out[n-1].val + t.val)
				return
			}
		}
		// the first element's text and those of the others with a separator before each
		if n := len(out); n > 0 && t.is("catmap") && t.args[0].is("slice") && t.args[0].args[1] == Int(1) && t.args[0].args[2] == lenT(t.args[0].args[0]) {
			if j := joined(t, out[n-1]); j != nil {
				out[n-1] = j
				return
			}
		}
		out = append(out, t)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return Empty
	case 1:
		return out[0]
	}
	return mk("concat", "", 0, nil, out...)
}

func joined(t, first *Term) *Term {
	seq, leaf := t.args[0].args[0], t.args[1]
	for leaf.op == "ite" {
		leaf = leaf.args[1]
	}
	ps := []*Term{leaf}
	if leaf.op == "concat" {
		ps = leaf.args
	}
	for n := 1; ps[0].isStr() && n <= len(ps[0].val); n++ {
		e := stripSep(t.args[1], ps[0].val[:n], true)
		if e != nil && subst(e, map[*Term]*Term{Elem: selT(seq, Int(0))}) == first {
			return joinT(collT(seq, mk("seq", "", 0, nil, e)), Str(ps[0].val[:n]))
		}
	}
	return nil
}

func parts(t *Term) []*Term {
	if t.op == "concat" {
		return t.args
	}
	if t == Empty {
		return nil
	}
	return []*Term{t}
}

// ---------------------------------------------------------------- ints

func lin(c int64, m map[*Term]int64) *Term {
	var as []*Term
	for a, k := range m {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return Int(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && c == 0 && m[as[0]] == 1 {
		return as[0]
	}
	ks := make([]int64, len(as))
	for i, a := range as {
		ks[i] = m[a]
	}
	return mk("lin", "", c, ks, as...)
}

func unlin(t *Term) (int64, map[*Term]int64) {
	switch t.op {
	case "int":
		return t.c, map[*Term]int64{}
	case "lin":
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.k[i]
		}
		return t.c, m
	}
	return 0, map[*Term]int64{t: 1}
}

func AddK(a *Term, ka int64, b *Term, kb int64) *Term {
	ca, ma := unlin(a)
	cb, mb := unlin(b)
	m := map[*Term]int64{}
	for t, k := range ma {
		m[t] += ka * k
	}
	for t, k := range mb {
		m[t] += kb * k
	}
	return lin(ka*ca+kb*cb, m)
}
func Add(a, b *Term) *Term        { return AddK(a, 1, b, 1) }
func Sub(a, b *Term) *Term        { return AddK(a, 1, b, -1) }
func AddC(a *Term, c int64) *Term { return Add(a, Int(c)) }

// Le is a <= b
func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(AddC(Sub(a, b), 1)) }

func le0(t *Term) *Term {
	if t.isInt() {
		return Bool(t.c <= 0)
	}
	// len(x) <= 0  <=>  x == ""
	c, m := unlin(t)
	if len(m) == 1 {
		for a, k := range m {
			if nonneg(a) {
				if k == 1 { // a <= -c
					if c > 0 {
						return False
					}
					if c == 0 {
						return Eq(a, Int(0))
					}
				}
				if k == -1 { // c <= a
					if c <= 0 {
						return True
					}
					if c == 1 {
						return Not(Eq(a, Int(0)))
					}
				}
			}
		}
	}
	if len(m) == 1 {
		for a, k := range m {
			if a.is("index") {
				if k == 1 && c == 1 { // index <= -1
					return Not(containsT(a.args[0], a.args[1]))
				}
				if k == -1 && c == 0 { // 0 <= index
					return containsT(a.args[0], a.args[1])
				}
				if k == 1 && c > 1 {
					return False
				}
				if k == -1 && c < 0 {
					return True
				}
			}
		}
	}
	// canonical polarity: the smallest atom has a positive coefficient; not(t<=0) = 1-t<=0
	if t.op == "lin" && t.k[0] < 0 {
		return Not(mk("le0", "", 0, nil, AddK(Int(1), 1, t, -1)))
	}
	return mk("le0", "", 0, nil, t)
}

func nonneg(t *Term) bool {
	return t.is("len") || t.is("maplen") || t.is("cap") || t.is("count")
}

// ---------------------------------------------------------------- bools

func Not(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.op == "not":
		return t.args[0]
	}
	return mk("not", "", 0, nil, t)
}

func strip(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// knownNonNil terms are never the nil pointer/error
func knownNonNil(t *Term) bool {
	switch t.op {
	case "alloc", "global", "fa", "ia", "closure", "func", "str", "int", "bool":
		return true
	case "app":
		return strings.HasPrefix(t.val, "err:") || t.val == "errorf" || t.val == "errors.New" || t.val == "newobj" || t.val == "nonnil"
	}
	return false
}

func distinctConst(a, b *Term) bool {
	if a.isConst() && b.isConst() {
		return a != b && !(a == Nil && b == Empty) && !(a == Empty && b == Nil)
	}
	if a == Nil && knownNonNil(b) || b == Nil && knownNonNil(a) {
		return true
	}
	addr := func(t *Term) bool { return t.op == "alloc" || t.op == "global" }
	if addr(a) && addr(b) && a != b {
		return true
	}
	if ra, rb := fieldRoot(a), fieldRoot(b); ra != rb && addr(ra) && addr(rb) {
		return true
	}
	if errConst(a) && errConst(b) && a != b {
		return true
	}
	return false
}

// fieldRoot is the object a field's address points into
func fieldRoot(t *Term) *Term {
	for t.op == "fa" {
		t = t.args[0]
	}
	return t
}

func errConst(t *Term) bool {
	return t.op == "app" && (t.val == "errors.New" || strings.HasPrefix(t.val, "err:"))
}

func intish(t *Term) bool { return t.op == "int" || t.op == "lin" || nonneg(t) }

// lenOfSplit: the number of pieces of a text, one at least
func lenOfSplit(t *Term) bool {
	return t.is("len") && (t.args[0].is("split") || t.args[0].is("splitafter")) && t.args[0].args[1].isStr() && t.args[0].args[1] != Empty
}

func Eq(a, b *Term) *Term {
	a, b = strip(a), strip(b)
	if a == b {
		return True
	}
	if distinctConst(a, b) {
		return False
	}
	if a == Int(0) && lenOfSplit(b) || b == Int(0) && lenOfSplit(a) {
		return False
	}
	if a.op == "bool" {
		a, b = b, a
	}
	if b == True {
		return a
	}
	if b == False {
		return Not(a)
	}
	if intish(a) || intish(b) {
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.c == 0)
		}
		c, m := unlin(d)
		if len(m) == 1 {
			for t, k := range m {
				if k == -1 {
					c = -c
				}
				if k == 1 || k == -1 {
					if nonneg(t) {
						if -c < 0 {
							return False
						}
						if c == 0 && (t.is("len")) {
							return eqRaw(t.args[0], Empty)
						}
					}
					return eqRaw(t, Int(-c))
				}
			}
		}
		if len(m) == 2 && c == 0 && d.k[0]+d.k[1] == 0 && d.k[0]*d.k[0] == 1 {
			return eqRaw(d.args[0], d.args[1])
		}
		// a == b with both sides symbolic: normalise sign
		if d.op == "lin" && d.k[0] < 0 {
			d = AddK(Int(0), 1, d, -1)
		}
		return eqRaw(d, Int(0))
	}
	if a.is("index") && b == Int(-1) {
		return Not(containsT(a.args[0], a.args[1]))
	}
	if b.is("index") && a == Int(-1) {
		return Not(containsT(b.args[0], b.args[1]))
	}
	if a == Empty && b.is("itoa") || b == Empty && a.is("itoa") {
		return False
	}
	if (a == Empty || a == Nil) && (b.is("split") || b.is("splitafter")) || (b == Empty || b == Nil) && (a.is("split") || a.is("splitafter")) {
		return False
	}
	// comparing one end of a text
	for i := 0; i < 2; i++ {
		a, b = b, a
		if a.op == "ite" && b.isConst() {
			if x, y := Eq(a.args[1], b), Eq(a.args[2], b); (x == True || x == False) && (y == True || y == False) {
				return Ite(a.args[0], x, y)
			}
		}
		if a.is("slice") && b == Empty {
			return Eq(a.args[1], a.args[2])
		}
		if a.is("slice") && b != Empty && b != Nil {
			if a.args[1] == Int(0) && a.args[2] == lenT(b) {
				return hasPrefixT(a.args[0], b)
			}
			if a.args[2] == lenT(a.args[0]) && Sub(a.args[2], a.args[1]) == lenT(b) {
				return hasSuffixT(a.args[0], b)
			}
		}
	}
	// string theory: strip common ends
	if a.op == "concat" || b.op == "concat" {
		pa, pb := parts(a), parts(b)
		if !(a.op != "concat" && !a.isStr()) && !(b.op != "concat" && !b.isStr()) {
			na, nb, dis := stripCommon(pa, pb)
			if dis {
				return False
			}
			ca, cb := Concat(na...), Concat(nb...)
			if ca != a || cb != b {
				return Eq(ca, cb)
			}
			if (ca == Empty && hasText(nb)) || (cb == Empty && hasText(na)) {
				return False
			}
			if minLen(pa) > maxLen(pb) || minLen(pb) > maxLen(pa) {
				return False
			}
		}
	}
	return eqRaw(a, b)
}

func hasText(p []*Term) bool {
	for _, t := range p {
		if t.isStr() && t.val != "" || t.is("itoa") {
			return true
		}
	}
	return false
}

func minLen(p []*Term) int {
	n := 0
	for _, t := range p {
		if t.isStr() {
			n += len(t.val)
		} else if t.is("itoa") {
			n++
		}
	}
	return n
}

func maxLen(p []*Term) int {
	n := 0
	for _, t := range p {
		if !t.isStr() {
			return 1 << 30
		}
		n += len(t.val)
	}
	return n
}

func stripCommon(a, b []*Term) (na, nb []*Term, distinct bool) {
	a, b = append([]*Term(nil), a...), append([]*Term(nil), b...)
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		if x == y {
			a, b = a[1:], b[1:]
			continue
		}
		if x.isStr() && y.isStr() {
			if strings.HasPrefix(x.val, y.val) {
				a[0] = Str(x.val[len(y.val):])
				b = b[1:]
				continue
			}
			if strings.HasPrefix(y.val, x.val) {
				b[0] = Str(y.val[len(x.val):])
				a = a[1:]
				continue
			}
			return a, b, true
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		x, y := a[len(a)-1], b[len(b)-1]
		if x == y {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		if x.isStr() && y.isStr() {
			if strings.HasSuffix(x.val, y.val) {
				a[len(a)-1] = Str(x.val[:len(x.val)-len(y.val)])
				b = b[:len(b)-1]
				continue
			}
			if strings.HasSuffix(y.val, x.val) {
				b[len(b)-1] = Str(y.val[:len(y.val)-len(x.val)])
				a = a[:len(a)-1]
				continue
			}
			return a, b, true
		}
		break
	}
	return a, b, false
}

func eqRaw(a, b *Term) *Term {
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	if a == b {
		return True
	}
	return mk("eq", "", 0, nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	return mk("ite", "", 0, nil, c, a, b)
}

// ---------------------------------------------------------------- traversal

// rebuild applies the normalising constructor of t to new arguments
func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "lin":
		r := Int(t.c)
		for i, a := range args {
			r = AddK(r, 1, a, t.k[i])
		}
		return r
	case "concat":
		return Concat(args...)
	case "eq":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "le0":
		return le0(args[0])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "app":
		if f, ok := appNorm[t.val]; ok {
			return f(args)
		}
	}
	return mk(t.op, t.val, t.c, t.k, args...)
}

// appNorm: normalising constructors of interpreted applications, see models.go
var appNorm = map[string]func([]*Term) *Term{}

func mapTerm(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.args) == 0 {
		memo[t] = t
		return t
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = mapTerm(a, f, memo)
	}
	r := rebuild(t, args)
	memo[t] = r
	return r
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return mapTerm(t, func(x *Term) *Term { return m[x] }, map[*Term]*Term{})
}

func contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if contains(a, sub) {
			return true
		}
	}
	return false
}

func anyTerm(t *Term, p func(*Term) bool) bool {
	if p(t) {
		return true
	}
	for _, a := range t.args {
		if anyTerm(a, p) {
			return true
		}
	}
	return false
}

func collect(t *Term, p func(*Term) bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	if p(t) {
		seen[t] = true
	}
	for _, a := range t.args {
		collect(a, p, seen)
	}
}

package main

import (
	"sort"
	"strings"
)

// State is one abstract state: store, branch facts (literals), equalities, monitor typestate.
type State struct {
	mem   map[*Term]*Term // location -> value
	facts map[*Term]bool
	rep   map[*Term]*Term // equalities learnt from branches, towards constants/simpler terms
	ghost map[string]*Term
	mode  string
	nsym  map[string]int // live objects per allocation site
	log   []string       // branch decisions, for reports
	iter  map[*Term]*Term
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, rep: map[*Term]*Term{}, ghost: map[string]*Term{}, nsym: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{
		mem: make(map[*Term]*Term, len(s.mem)), facts: make(map[*Term]bool, len(s.facts)), rep: make(map[*Term]*Term, len(s.rep)),
		ghost: make(map[string]*Term, len(s.ghost)), mode: s.mode, nsym: make(map[string]int, len(s.nsym)), log: s.log[:len(s.log):len(s.log)],
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.rep {
		n.rep[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.nsym {
		n.nsym[k] = v
	}
	return n
}

func (s *State) g(name string) *Term {
	if t, ok := s.ghost[name]; ok {
		return t
	}
	return Nil
}
func (s *State) setg(name string, t *Term) { s.ghost[name] = t }

// norm rewrites t with the equalities of the path
func (s *State) norm(t *Term) *Term {
	if len(s.rep) == 0 || t == nil {
		return t
	}
	for i := 0; i < 8; i++ {
		n := subst(t, s.rep)
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// eval decides a boolean term under the facts: True, False or the simplified term
func (s *State) eval(t *Term) *Term {
	t = s.norm(t)
	return s.eval1(t, 0)
}

func (s *State) eval1(t *Term, d int) *Term {
	if t == True || t == False {
		return t
	}
	switch t.op {
	case "not":
		return Not(s.eval1(t.args[0], d))
	case "ite":
		c := s.eval1(t.args[0], d)
		a, b := s.eval1(t.args[1], d), s.eval1(t.args[2], d)
		return Ite(c, a, b)
	case "and":
		r := True
		for _, a := range t.args {
			v := s.eval1(a, d)
			if v == False {
				return False
			}
			if v != True {
				r = t
			}
		}
		return r
	case "or":
		r := False
		for _, a := range t.args {
			v := s.eval1(a, d)
			if v == True {
				return True
			}
			if v != False {
				r = t
			}
		}
		return r
	}
	if v, ok := s.facts[t]; ok {
		return Bool(v)
	}
	if r := s.theory(t, d); r != nil {
		return r
	}
	return t
}

// simp evaluates the conditions inside t under the facts
func (s *State) simp(t *Term) *Term {
	t = s.norm(t)
	for i := 0; i < 4; i++ {
		n := mapTerm(t, func(u *Term) *Term {
			if u.is("trimsuffix") && u.args[1].isStr() {
				switch s.eval(App("hassuffix", u.args...)) {
				case True:
					return sliceTerm(s.simp(u.args[0]), Int(0), Sub(lenT(u.args[0]), lenT(u.args[1])))
				case False:
					return s.simp(u.args[0])
				}
			}
			if u.op != "ite" {
				return nil
			}
			switch s.eval(u.args[0]) {
			case True:
				return s.simp(u.args[1])
			case False:
				return s.simp(u.args[2])
			}
			return nil
		}, map[*Term]*Term{})
		n = s.norm(n)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// intFacts lists known terms l with l <= 0
func (s *State) intFacts() []*Term {
	var out []*Term
	for f, v := range s.facts {
		if f.op == "le0" {
			if v {
				out = append(out, f.args[0])
			} else {
				out = append(out, AddK(Int(1), 1, f.args[0], -1))
			}
		}
		if f.op == "eq" && !v {
			// len(x) != 0
			if f.args[0] == Empty || f.args[1] == Empty {
				o := f.args[0]
				if o == Empty {
					o = f.args[1]
				}
				out = append(out, AddK(Int(1), 1, App("len", o), -1))
			}
			if f.args[1].isInt() && f.args[1].c == 0 && nonneg(f.args[0]) {
				out = append(out, AddK(Int(1), 1, f.args[0], -1))
			}
			if f.args[0].isInt() && f.args[0].c == 0 && nonneg(f.args[1]) {
				out = append(out, AddK(Int(1), 1, f.args[1], -1))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// leq0 tries to prove t <= 0 from the facts (bounded Fourier-Motzkin: up to two facts plus len>=0)
func (s *State) leq0(t *Term) bool {
	fs := append(s.intFacts(), s.lenAxioms(t)...)
	var rec func(t *Term, depth int) bool
	rec = func(t *Term, depth int) bool {
		if t.isInt() {
			return t.c <= 0
		}
		c, m := unlin(t)
		// drop -len(..) terms: -len <= 0
		up := c
		ok := true
		for a, k := range m {
			if !(k < 0 && nonneg(a)) {
				ok = false
			} else if a.is("len") && a.args[0].is("itoa") || lenOfSplit(a) {
				up += k // a number has a digit, a text one line
			}
		}
		if ok && up <= 0 {
			return true
		}
		if depth == 0 {
			return false
		}
		for _, f := range fs {
			// t = f + (t-f)
			share := false
			_, fm := unlin(f)
			for a, k := range fm {
				if m[a]*k > 0 {
					share = true
				}
			}
			if share && rec(Sub(t, f), depth-1) {
				return true
			}
		}
		return false
	}
	return rec(t, 3)
}

// lenAxioms lists what is known of the lengths and positions t speaks of
func (s *State) lenAxioms(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term)
	length := func(x *Term) {
		n := lenT(x)
		if _, m := unlin(n); len(m) > 0 {
			for a := range m {
				add(a)
			}
		}
	}
	add = func(a *Term) {
		if seen[a] || len(seen) > 12 {
			return
		}
		seen[a] = true
		switch {
		case a.is("len"):
			x := a.args[0]
			for _, op := range []string{"filepath.Ext", "before", "after", "stem", "trimsuffix", "trimprefix", "chop", "strings.TrimSpace", "bytes.TrimSpace"} {
				if x.is(op) {
					out = append(out, Sub(a, lenT(x.args[0])))
					length(x.args[0])
				}
			}
			for f, v := range s.facts {
				if v && (f.is("hasprefix") || f.is("hassuffix") || f.is("contains")) && f.args[0] == x {
					n := Sub(lenT(f.args[1]), a)
					if s.facts[Eq(x, f.args[1])] == false {
						if _, known := s.facts[Eq(x, f.args[1])]; known {
							n = AddC(n, 1)
						}
					}
					out = append(out, n)
				}
			}
		case a.is("index") || a.is("lastindex"):
			out = append(out, AddC(AddK(Int(0), 1, a, -1), -1))
			sep := a.args[1]
			found := s.facts[containsT(a.args[0], sep)]
			if found {
				out = append(out, AddK(Int(0), 1, a, -1))
			}
			if found || sep.isStr() && len(sep.val) == 1 {
				out = append(out, Sub(Add(a, lenT(sep)), lenT(a.args[0])))
				length(a.args[0])
			}
		}
	}
	_, m := unlin(t)
	for a := range m {
		add(a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// bodyText: the text has a constant part whatever its conditions
func bodyText(t *Term) bool {
	for _, p := range parts(t) {
		if p.isStr() && p.val != "" || p.op == "ite" && bodyText(p.args[1]) && bodyText(p.args[2]) {
			return true
		}
	}
	return false
}

func (s *State) theory(t *Term, d int) *Term {
	switch t.op {
	case "le0":
		// a decimal digit
		if c, m := unlin(t.args[0]); len(m) == 1 {
			for a, k := range m {
				if a.is("sel") && a.args[0].is("itoa") && (k == 1 || k == -1) && s.leq0(AddK(Int(0), 1, a.args[0].args[0], -1)) {
					lo, hi := c+48*k, c+57*k
					if lo > hi {
						lo, hi = hi, lo
					}
					if hi <= 0 {
						return True
					}
					if lo > 0 {
						return False
					}
				}
			}
		}
		if s.leq0(t.args[0]) {
			return True
		}
		if s.leq0(AddK(Int(1), 1, t.args[0], -1)) {
			return False
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		for i, c := range t.args[:2] {
			if o := t.args[1-i]; c.isStr() && c != Empty && o.op != "const" {
				for f, v := range s.facts {
					if !v && f.is("contains") && f.args[0] == o && f.args[1].isStr() && strings.Contains(c.val, f.args[1].val) {
						return False
					}
				}
			}
		}
		// x == c1 known false facts do not help; x == "" with other string facts
		if a == Empty || b == Empty {
			o := a
			if a == Empty {
				o = b
			}
			// known to be some non-empty thing?
			for f, v := range s.facts {
				if !v {
					continue
				}
				if (f.is("hasprefix") || f.is("hassuffix") || f.is("contains")) && f.args[0] == o && f.args[1].isStr() && f.args[1].val != "" {
					return False
				}
			}
			if s.leq0(AddK(Int(1), 1, lenT(o), -1)) {
				return False
			}
			if s.leq0(lenT(o)) {
				return True
			}
			// text for every element of a sequence that has elements
			for _, p := range parts(o) {
				if p.is("catmap") && bodyText(p.args[1]) && s.leq0(AddK(Int(1), 1, lenT(p.args[0]), -1)) {
					return False
				}
			}
		}
		for i := 0; i < 2; i++ {
			a, b = b, a
			hp, known := s.facts[App("hasprefix", a, b)]
			hs, known2 := s.facts[App("hassuffix", a, b)]
			if known && !hp || known2 && !hs {
				return False
			}
			if hp || hs {
				if s.facts[Eq(lenT(a), lenT(b))] {
					return True
				} else if d := Sub(lenT(a), lenT(b)); s.leq0(d) {
					return True
				} else if s.leq0(AddK(Int(1), 1, d, -1)) {
					return False
				}
			}
		}
		if intish(a) || intish(b) || a.isInt() || b.isInt() {
			dd := Sub(a, b)
			if s.leq0(AddC(dd, 1)) || s.leq0(AddK(Int(1), 1, dd, -1)) {
				return False
			}
			if s.leq0(dd) && s.leq0(AddK(Int(0), 1, dd, -1)) {
				return True
			}
		}
		if a == Nil || b == Nil {
			o := a
			if a == Nil {
				o = b
			}
			for f, v := range s.facts {
				if v && f.is("typeis") && f.args[0] == o {
					return False
				}
				// o != nil because it equals a known non-nil thing
				if v && f.op == "eq" {
					if f.args[0] == o && knownNonNil(f.args[1]) || f.args[1] == o && knownNonNil(f.args[0]) {
						return False
					}
				}
				if v && f.is("errors.Is") && f.args[0] == o && knownNonNil(f.args[1]) {
					return False
				}
			}
		}
	case "app":
		switch t.val {
		case "typeis":
			for f, v := range s.facts {
				if v && f.is("typeis") && f.args[0] == t.args[0] && f.args[1] != t.args[1] && !strings.HasPrefix(f.args[1].val, "I:") && !strings.HasPrefix(t.args[1].val, "I:") {
					return False
				}
				if f.op == "eq" && v && (f.args[0] == t.args[0] && f.args[1] == Nil || f.args[1] == t.args[0] && f.args[0] == Nil) {
					return False
				}
			}
		case "hasprefix", "hassuffix", "contains":
			x, p := t.args[0], t.args[1]
			if s.leq0(AddC(Sub(lenT(x), lenT(p)), 1)) {
				return False
			}
			if px := parts(x); t.val == "hasprefix" && len(px) > 1 && d < 3 {
				if s.eval1(hasPrefixT(Concat(px[:len(px)-1]...), p), d+1) == True {
					return True
				}
			}
			if px := parts(x); t.val == "hassuffix" && len(px) > 1 && d < 3 {
				if s.eval1(hasSuffixT(Concat(px[1:]...), p), d+1) == True {
					return True
				}
			}
			if ps := parts(p); t.val == "hasprefix" && len(ps) > 1 && d < 3 {
				last := ps[len(ps)-1]
				head := Concat(ps[:len(ps)-1]...)
				pre := s.eval1(hasPrefixT(x, head), d+1)
				if pre == False {
					return False
				}
				if last.isStr() && len(last.val) == 1 && pre == True {
					if s.leq0(Sub(lenT(x), lenT(head))) {
						return False
					}
					if e := s.eval1(Eq(selT(x, lenT(head)), Int(int64(last.val[0]))), d+1); e == True || e == False {
						return e
					}
				}
			}
			if t.val == "hassuffix" && p.isStr() && len(p.val) == 1 && d < 3 {
				if s.leq0(AddK(Int(1), 1, lenT(x), -1)) {
					if e := s.eval1(Eq(selT(x, AddC(lenT(x), -1)), Int(int64(p.val[0]))), d+1); e == True || e == False {
						return e
					}
				}
			}
			if px := parts(x); t.val == "contains" && len(px) > 1 && d < 3 {
				for _, part := range px {
					if s.eval1(containsT(part, p), d+1) == True {
						return True
					}
				}
			}
			if p.isStr() {
				for f, v := range s.facts {
					if f.op == "app" && f.args != nil && f.args[0] == x && len(f.args) > 1 && f.args[1].isStr() {
						q := f.args[1].val
						if !v && f.val == "contains" && strings.Contains(p.val, q) {
							return False
						}
						if v && t.val == "contains" && (f.val == "hasprefix" || f.val == "hassuffix") && strings.Contains(q, p.val) {
							return True
						}
					}
					if v && f.op == "app" && f.val == t.val && f.args[0] == x && f.args[1].isStr() {
						q := f.args[1].val
						switch t.val {
						case "hasprefix":
							if strings.HasPrefix(q, p.val) {
								return True
							}
							if !strings.HasPrefix(p.val, q) {
								return False
							}
						case "hassuffix":
							if strings.HasSuffix(q, p.val) {
								return True
							}
							if !strings.HasSuffix(p.val, q) {
								return False
							}
						case "contains":
							if strings.Contains(q, p.val) {
								return True
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// assume adds literal t==v; returns the feasible refinements (none if infeasible)
func (s *State) assume(t *Term, v bool) []*State {
	t = s.eval(t)
	if t == True || t == False {
		if (t == True) == v {
			return []*State{s}
		}
		return nil
	}
	switch t.op {
	case "not":
		return s.assume(t.args[0], !v)
	case "ite":
		var out []*State
		for _, p := range s.clone().assume(t.args[0], true) {
			out = append(out, p.assume(t.args[1], v)...)
		}
		for _, p := range s.clone().assume(t.args[0], false) {
			out = append(out, p.assume(t.args[2], v)...)
		}
		return out
	case "and", "or":
		conj := (t.op == "and") == v
		if conj {
			cur := []*State{s}
			for _, a := range t.args {
				var nx []*State
				for _, p := range cur {
					nx = append(nx, p.assume(a, v)...)
				}
				cur = nx
			}
			return cur
		}
		// disjunction: first that holds
		var out []*State
		cur := []*State{s}
		for _, a := range t.args {
			var nx []*State
			for _, p := range cur {
				out = append(out, p.clone().assume(a, v)...)
				nx = append(nx, p.assume(a, !v)...)
			}
			cur = nx
		}
		return out
	}
	n := s.clone()
	n.facts[t] = v
	if v && t.op == "eq" {
		a, b := t.args[0], t.args[1]
		n.learnEq(a, b)
		if !n.renorm() {
			return nil
		}
	} else if v && t.op == "le0" || !v && t.op == "le0" {
		// equality from two bounds
		l := t.args[0]
		neg := AddK(Int(0), 1, l, -1)
		if n.leq0(l) && n.leq0(neg) {
			if c, m := unlin(l); len(m) == 1 {
				for a, k := range m {
					if k*k == 1 && a.op != "lin" {
						n.rep[a] = Int(-c * k)
						if a.is("len") && -c*k == 0 {
							n.rep[a.args[0]] = Empty
						}
					}
				}
			} else if len(m) == 2 && c == 0 && l.k[0]+l.k[1] == 0 {
				n.learnEq(l.args[0], l.args[1])
			}
			if !n.renorm() {
				return nil
			}
		}
	} else if !v && t.op == "eq" && !t.args[0].isStr() && t.args[0] != Nil && !t.args[1].isStr() && t.args[1] != Nil {
		// a bound that is not met
		d := Sub(t.args[0], t.args[1])
		neg := AddK(Int(0), 1, d, -1)
		if n.leq0(d) {
			return n.assume(le0(AddC(d, 1)), true)
		} else if n.leq0(neg) {
			return n.assume(le0(AddC(neg, 1)), true)
		}
	}
	return []*State{n}
}

func rank(t *Term) int {
	switch t.op {
	case "str", "int", "bool", "nil", "const":
		return 0
	case "global", "alloc":
		return 1
	case "sym":
		return 2
	case "fresh":
		return 4
	case "phi":
		return 5
	}
	return 3
}

func (s *State) learnEq(a, b *Term) {
	if rank(a) > rank(b) || rank(a) == rank(b) && a.id > b.id {
		a, b = b, a
	}
	// b := a, unless a contains b
	if a.op == "int" && b.op == "lin" { // c == lin : solve for one atom with unit coefficient
		for i, x := range b.args {
			if b.k[i]*b.k[i] == 1 && (x.op == "phi" || x.op == "fresh" || i == len(b.args)-1) {
				rest := AddK(Sub(b, AddK(Int(0), 1, x, b.k[i])), 1, a, -1) // rest + k*x = 0
				s.rep[x] = AddK(Int(0), 1, rest, -b.k[i])
				return
			}
		}
		return
	}
	if contains(a, b) {
		return
	}
	if b.op == "concat" && a.isConst() {
		s.rep[b] = a
		return
	}
	s.rep[b] = a
}

// renorm re-evaluates all facts under the current equalities; false if contradictory
func (s *State) renorm() bool {
	for i := 0; i < 4; i++ {
		changed := false
		for r, v := range s.rep {
			nv := s.norm(v)
			if nv != v && !contains(nv, r) {
				s.rep[r] = nv
			}
		}
		nf := make(map[*Term]bool, len(s.facts))
		for f, v := range s.facts {
			nf[f] = v
			n := s.norm(f)
			if n == f {
				continue
			}
			for n.op == "not" {
				n, v = n.args[0], !v
			}
			if n == True || n == False {
				if (n == True) != v {
					return false
				}
				continue
			}
			if ov, ok := s.facts[n]; ok {
				if ov != v {
					return false
				}
				continue
			}
			nf[n] = v
			changed = true
			if v && n.op == "eq" {
				s.learnEq(n.args[0], n.args[1])
			}
		}
		s.facts = nf
		if !changed {
			return true
		}
	}
	return true
}

// split refines s on atom t
func (s *State) split(t *Term) (yes, no []*State) {
	return s.clone().assume(t, true), s.clone().assume(t, false)
}

// holds reports whether t is implied
func (s *State) holds(t *Term) bool { return s.eval(t) == True }

func (s *State) factList() []string {
	var out []string
	for f, v := range s.facts {
		n := f.str(3)
		if !v {
			n = "¬" + n
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes one call as the monitors and models see it.
type CallInfo struct {
	name   string // canonical: "os.OpenFile", "(*bufio.Scanner).Scan", "(snaps.testingT).Error", "dyn"
	fn     *ssa.Function
	recv   *Term // callee value of dynamic calls
	args   []*Term
	bind   []*Term
	pos    token.Pos
	nret   int
	sig    *types.Signature
	defer_ bool
	depth  int
}

// Out is one abstract outcome of a call.
type Out struct {
	st    *State
	vals  []*Term
	panic bool
}

// Mon is a typestate monitor; every hook may refine, fork or report.
type Mon struct {
	name      string
	call      func(x *Exec, st *State, c *CallInfo) ([]Out, bool)
	index     func(x *Exec, st *State, seq, i *Term, pos token.Pos)
	back      func(x *Exec, st *State, l *loop, pos token.Pos)
	exit      func(x *Exec, st *State, l *loop, pos token.Pos)
	store     func(x *Exec, st *State, loc, v *Term, pos token.Pos)
	load      func(x *Exec, st *State, loc *Term, pos token.Pos)
	mapset    func(x *Exec, st *State, m, k, v *Term, pos token.Pos)
	mapget    func(x *Exec, st *State, m, k *Term, pos token.Pos)
	next      func(x *Exec, st *State, m, k *Term, pos token.Pos)
	inline    func(fn *ssa.Function) bool // false = keep opaque
	atPanic   func(x *Exec, st *State, pos token.Pos)
	scan      func(x *Exec, st *State, sc, line *Term, pos token.Pos) []*State
	scanEnd   func(x *Exec, st *State) []*State // Scan returned false
	write     func(x *Exec, st *State, b, s *Term, pos token.Pos)
	exhaust   func(x *Exec, st *State, seq *Term, pos token.Pos)
	mapval    func(x *Exec, st *State, c, k *Term) []mapRes
	inv       *invariants // what may hold at the heads of loops
	noSummary bool
	noMerge   bool // keep every path apart
	watched   bool
	framed    bool
	args      []*Term // of the function analysed
}

type Exec struct {
	p                     *Prog
	mon                   *Mon
	rep                   *Reporter
	root                  string
	stack                 []*ssa.Function
	steps                 int
	limit                 int
	fail                  string // set when the analysis gave up
	peel                  bool
	seed                  map[*Term]*Term // constant globals
	valueDepth            int
	visited               map[*ssa.Function]bool
	calls                 int
	keyDiffers, flagsJoin bool
	nloops                int
	loopSeq               int
	loopStk               []*loop
	lastPos               token.Pos
	mapType               types.Type // of the map being updated
	callPos               []token.Pos
}

type deferred struct{ c *CallInfo }

type pstate struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []*CallInfo
	prev   *ssa.BasicBlock
}

func (p *pstate) clone() *pstate {
	e := make(map[ssa.Value]*Term, len(p.env))
	for k, v := range p.env {
		e[k] = v
	}
	return &pstate{st: p.st.clone(), env: e, defers: p.defers[:len(p.defers):len(p.defers)], prev: p.prev}
}

// with returns a copy of p over state st
func (p *pstate) with(st *State) *pstate {
	e := make(map[ssa.Value]*Term, len(p.env))
	for k, v := range p.env {
		e[k] = v
	}
	return &pstate{st: st, env: e, defers: p.defers[:len(p.defers):len(p.defers)], prev: p.prev}
}

type arrKind int

const (
	aRet arrKind = iota
	aBack
	aExit
	aPanic
)

type arrival struct {
	kind arrKind
	ps   *pstate
	to   *ssa.BasicBlock
	vals []*Term
}

type frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*loop // by head
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	free  []*Term
}

type giveUp struct{ msg string }

// what is not decided after the deadline stays undecided
var (
	started  = time.Now()
	deadline = 10 * time.Minute
)

func (x *Exec) undecided(f string, a ...any) { panic(giveUp{fmt.Sprintf(f, a...)}) }

// Run analyses fn from an abstract call state.
func (x *Exec) Run(fn *ssa.Function, args []*Term, st *State) (outs []Out) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				x.fail = g.msg
				return
			}
			if os.Getenv("AZ_PANIC") != "" {
				panic(r)
			}
			x.fail = fmt.Sprint("internal: ", r)
		}
	}()
	x.stack = nil
	x.callPos = nil
	return x.call(fn, args, nil, st)
}

func (x *Exec) call(fn *ssa.Function, args, free []*Term, st *State) []Out {
	if len(x.stack) > 60 {
		x.undecided("call depth")
	}
	if len(fn.Blocks) == 0 {
		x.undecided("no body for %s", fn)
	}
	x.visited[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := x.p.frame(fn)
	fr = &frame{fn: fn, loops: fr.loops, live: fr.live, free: free}
	ps := &pstate{st: st, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			ps.env[p] = args[i]
		} else {
			ps.env[p] = Sym("param:" + p.Name())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			ps.env[f] = free[i]
		} else {
			ps.env[f] = Sym("free:" + f.Name())
		}
	}
	var outs []Out
	for _, a := range x.follow(fr, ps, nil, fn.Blocks[0], nil) {
		switch a.kind {
		case aRet:
			outs = append(outs, Out{st: a.ps.st, vals: a.vals})
		case aPanic:
			outs = append(outs, Out{st: a.ps.st, panic: true})
		}
	}
	if x.mon.noMerge || len(outs) <= 8 && len(fr.loops) == 0 {
		return outs // keep the path facts of small predicates
	}
	return mergeOuts(outs)
}

// mergeOuts joins outcomes that differ in branch facts only
func mergeOuts(outs []Out) []Out {
	if len(outs) < 2 {
		return outs
	}
	var res []Out
next:
	for _, o := range outs {
		for i, r := range res {
			if o.panic != r.panic || !sameEffect(o.st, r.st) || len(o.vals) != len(r.vals) {
				continue
			}
			eq := true
			for j := range o.vals {
				eq = eq && o.vals[j] == r.vals[j]
			}
			if !eq {
				continue
			}
			m := r.st.clone()
			m.facts = map[*Term]bool{}
			for f, v := range r.st.facts {
				if w, ok := o.st.facts[f]; ok && w == v {
					m.facts[f] = v
				}
			}
			m.rep = map[*Term]*Term{}
			for f, v := range r.st.rep {
				if o.st.rep[f] == v {
					m.rep[f] = v
				}
			}
			for k, v := range o.st.nsym {
				if v > m.nsym[k] {
					m.nsym[k] = v
				}
			}
			res[i] = Out{st: m, vals: r.vals, panic: r.panic}
			continue next
		}
		res = append(res, o)
	}
	return res
}

func sameEffect(a, b *State) bool {
	if a.mode != b.mode || len(a.mem) != len(b.mem) || len(a.ghost) != len(b.ghost) {
		return false
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			return false
		}
	}
	return true
}

// follow takes the edge from->to
func (x *Exec) follow(fr *frame, ps *pstate, from, to *ssa.BasicBlock, within *loop) []arrival {
	if within != nil {
		if to == within.head {
			ps.prev = from
			return []arrival{{kind: aBack, ps: ps, to: to}}
		}
		if !within.blocks[to] {
			ps.prev = from
			return []arrival{{kind: aExit, ps: ps, to: to}}
		}
	}
	ps.prev = from
	if l := fr.loops[to]; l != nil && l != within {
		var out []arrival
		for _, a := range x.runLoop(fr, ps, l) {
			if a.kind == aExit {
				out = append(out, x.follow(fr, a.ps, a.ps.prev, a.to, within)...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	x.phis(ps, to)
	return x.explore(fr, ps, to, within)
}

func (x *Exec) phis(ps *pstate, b *ssa.BasicBlock) {
	idx := -1
	for i, p := range b.Preds {
		if p == ps.prev {
			idx = i
		}
	}
	var vals []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, x.val(ps, p.Edges[idx]))
	}
	for i, p := range ph {
		ps.env[p] = vals[i]
	}
}

func (x *Exec) explore(fr *frame, ps *pstate, b *ssa.BasicBlock, within *loop) []arrival {
	return x.exploreAt(fr, ps, b, 0, within)
}

func (x *Exec) exploreAt(fr *frame, ps *pstate, b *ssa.BasicBlock, i int, within *loop) []arrival {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.steps++
		if x.steps&63 == 0 && time.Since(started) > deadline {
			x.undecided("the analysis takes too long")
		}
		if x.steps > x.limit {
			x.undecided("state budget exceeded in %s", x.root)
		}
		if p := in.Pos(); p.IsValid() {
			x.lastPos = p
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(ps, in.Cond)
			yes, no := ps.st.split(c)
			var out []arrival
			line := x.p.line(condPos(in))
			for _, s := range yes {
				n := ps.with(s)
				if len(no) > 0 {
					n.st.log = append(n.st.log, line+" true")
				}
				out = append(out, x.follow(fr, n, b, b.Succs[0], within)...)
			}
			for _, s := range no {
				n := ps.with(s)
				if len(yes) > 0 {
					n.st.log = append(n.st.log, line+" false")
				}
				out = append(out, x.follow(fr, n, b, b.Succs[1], within)...)
			}
			return out
		case *ssa.Jump:
			return x.follow(fr, ps, b, b.Succs[0], within)
		case *ssa.Return:
			vals := make([]*Term, len(in.Results))
			for j, r := range in.Results {
				vals[j] = x.val(ps, r)
			}
			return []arrival{{kind: aRet, ps: ps, vals: vals}}
		case *ssa.Panic:
			if x.mon.atPanic != nil {
				x.mon.atPanic(x, ps.st, in.Pos())
			}
			return []arrival{{kind: aPanic, ps: ps}}
		case *ssa.RunDefers:
			states := []*State{ps.st}
			ds := ps.defers
			ps.defers = nil
			for k := len(ds) - 1; k >= 0; k-- {
				var nx []*State
				for _, s := range states {
					for _, o := range x.dispatch(s, ds[k]) {
						if !o.panic {
							nx = append(nx, o.st)
						}
					}
				}
				states = nx
			}
			if len(states) == 1 {
				ps.st = states[0]
				continue
			}
			var out []arrival
			for _, s := range states {
				out = append(out, x.exploreAt(fr, ps.with(s), b, i+1, within)...)
			}
			return out
		default:
			next := x.step(fr, ps, in)
			if len(next) == 1 {
				ps = next[0]
				continue
			}
			var out []arrival
			for _, n := range next {
				out = append(out, x.exploreAt(fr, n, b, i+1, within)...)
			}
			return out
		}
	}
	return nil
}

func condPos(in *ssa.If) token.Pos {
	if p := in.Cond.Pos(); p.IsValid() {
		return p
	}
	return in.Pos()
}

// ---------------------------------------------------------------- values

func (x *Exec) val(ps *pstate, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return Global(v.RelString(nil))
	case *ssa.Function:
		return x.p.funcTerm(v)
	case *ssa.Builtin:
		return Sym("builtin:" + v.Name())
	}
	if t, ok := ps.env[v]; ok {
		return t
	}
	return Sym("undef:" + v.Name())
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return Int(n)
		}
	}
	return mk("const", c.Value.ExactString(), 0, nil)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Empty
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Nil
		}
		return mk("const", "0", 0, nil)
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(t, fs)
	case *types.Array:
		return App("zeros", Int(u.Len()))
	}
	return Nil
}

func mkStruct(t types.Type, fs []*Term) *Term { return mk("struct", typeName(t), 0, nil, fs...) }

func typeName(t types.Type) string {
	return short(types.TypeString(t, nil))
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldOf(v *Term, i int, name string) *Term {
	if v.op == "struct" && i < len(v.args) {
		return v.args[i]
	}
	if v.op == "ite" {
		return Ite(v.args[0], fieldOf(v.args[1], i, name), fieldOf(v.args[2], i, name))
	}
	return mk("field", name, int64(i), nil, v)
}

func fa(base *Term, i int, name string) *Term { return mk("fa", name, int64(i), nil, base) }
func ia(base, i *Term) *Term                  { return mk("ia", "", 0, nil, base, i) }
func contentLoc(p *Term) *Term                { return App("content", p) }

func rootOf(loc *Term) *Term {
	for loc.op == "fa" || loc.op == "ia" || loc.is("content") {
		loc = loc.args[0]
	}
	return loc
}

// special composite types whose content is one abstract value
func opaqueStruct(t types.Type) bool {
	n := typeName(t)
	switch n {
	case "strings.Builder", "bytes.Buffer", "sync.Mutex", "sync.RWMutex", "bufio.Scanner", "sync.Once", "bytes.Reader", "strings.Reader", "bufio.Writer", "bufio.Reader", "sync.Map", "sync.WaitGroup":
		return true
	}
	return strings.HasPrefix(n, "sync/atomic.")
}

// load reads a location of the given type
func (x *Exec) load(st *State, loc *Term, t types.Type) *Term {
	if v, ok := st.mem[loc]; ok {
		return v
	}
	if s := structOf(t); s != nil && !opaqueStruct(t) {
		if loc.op == "ia" || loc.op == "app" {
			if v := x.elem(st, loc); v != nil {
				// fields may have been overwritten individually
				over := false
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := st.mem[fa(loc, i, s.Field(i).Name())]; ok {
						over = true
					}
				}
				if !over {
					return v
				}
			}
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = x.load(st, fa(loc, i, s.Field(i).Name()), s.Field(i).Type())
		}
		return collapse(mkStruct(t, fs), loc)
	}
	if loc.op == "ia" {
		if v := x.elem(st, loc); v != nil {
			return v
		}
	}
	if loc.op == "fa" {
		if p := loc.args[0]; p.op == "ia" {
			if v := x.elem(st, p); v != nil {
				return fieldOf(v, int(loc.c), loc.val)
			}
		}
		// parent stored as an opaque value
		if v, ok := st.mem[loc.args[0]]; ok {
			return fieldOf(v, int(loc.c), loc.val)
		}
	}
	if v, ok := x.seed[loc]; ok {
		return v
	}
	if rootOf(loc).op == "alloc" {
		return zeroOf(t)
	}
	return App("ld", loc)
}

// collapse turns struct{field0(v), field1(v), ...} back into v
func collapse(s, loc *Term) *Term {
	if len(s.args) == 0 {
		return s
	}
	var base *Term
	for i, a := range s.args {
		if a.op != "field" || a.c != int64(i) {
			return s
		}
		if base == nil {
			base = a.args[0]
		} else if base != a.args[0] {
			return s
		}
	}
	return base
}

func (x *Exec) elem(st *State, loc *Term) *Term {
	if loc.op != "ia" {
		return nil
	}
	base, i := loc.args[0], loc.args[1]
	if base.op == "alloc" || base.op == "global" || base.op == "fa" { // array variable
		if v, ok := st.mem[base]; ok {
			return selT(v, i)
		}
		if _, ok := st.mem[contentLoc(base)]; !ok {
			return nil
		}
	}
	return selT(x.content(st, base), i)
}

// content is the current value of a slice/map/builder object, or the term itself if it is a pure value
func (x *Exec) content(st *State, p *Term) *Term {
	if v, ok := st.mem[contentLoc(p)]; ok {
		return v
	}
	if v, ok := x.seed[contentLoc(p)]; ok {
		return v
	}
	if p.is("arr") { // slice of an array variable
		loc, n := p.args[0], p.args[1]
		if n.isInt() && n.c <= 64 {
			es := make([]*Term, n.c)
			for i := range es {
				l := ia(loc, Int(int64(i)))
				if v, ok := st.mem[l]; ok {
					es[i] = v
				} else if v, ok := x.seed[l]; ok {
					es[i] = v
				} else if v, ok := st.mem[loc]; ok {
					es[i] = selT(v, Int(int64(i)))
				} else {
					es[i] = App("ld", l)
					if t := x.p.arrElem[loc.val]; t != nil && rootOf(loc).op == "alloc" {
						es[i] = x.load(st, l, t)
					}
				}
			}
			return mk("seq", "", 0, nil, es...)
		}
	}
	if p.op == "alloc" {
		return Nil
	}
	return p
}

// value resolves the objects inside t to their current contents (deep), for use as a pure value
func (x *Exec) value(st *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	if x.valueDepth > 60 {
		return t // memory that holds itself
	}
	x.valueDepth++
	defer func() { x.valueDepth-- }()
	return mapTerm(t, func(u *Term) *Term {
		if u.op == "alloc" || u.is("arr") {
			if v, ok := st.mem[contentLoc(u)]; ok {
				return x.value(st, v)
			}
			if v, ok := x.seed[contentLoc(u)]; ok {
				return v
			}
			if u.is("arr") {
				return x.value(st, x.content(st, u))
			}
			return u
		}
		if u.op == "global" || u.op == "fa" || u.op == "ia" {
			return u
		}
		if u.op == "app" && u.val == "ld" {
			return u
		}
		if u.op == "sym" || u.op == "app" || u.op == "field" || u.op == "fresh" || u.op == "phi" {
			if v, ok := st.mem[contentLoc(u)]; ok && v != u && !contains(v, u) {
				return x.value(st, v)
			}
		}
		return nil
	}, map[*Term]*Term{})
}

func (x *Exec) store(st *State, loc, v *Term, t types.Type, pos token.Pos) {
	if x.mon.store != nil {
		x.mon.store(x, st, loc, v, pos)
	}
	x.rawStore(st, loc, v, t)
}

func (x *Exec) rawStore(st *State, loc, v *Term, t types.Type) {
	if s := structOf(t); s != nil && !opaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			x.rawStore(st, fa(loc, i, f.Name()), fieldOf(v, i, f.Name()), f.Type())
		}
		return
	}
	if s := structOf(t); s != nil && opaqueStruct(t) {
		// zero value / copy of a builder, mutex...
		if v.op == "struct" {
			delete(st.mem, contentLoc(loc))
			st.mem[contentLoc(loc)] = Empty
			return
		}
	}
	if loc.op == "ia" {
		base := loc.args[0]
		if !(base.op == "alloc" && x.p.isArray[base.val]) && base.op != "global" && base.op != "fa" && !base.is("arr") {
			c := x.content(st, base)
			st.mem[contentLoc(base)] = updT(c, st.norm(loc.args[1]), v)
			return
		}
		if base.is("arr") {
			loc = ia(base.args[0], loc.args[1])
		}
	}
	st.mem[loc] = v
}

func (x *Exec) freshSym(st *State, kind, name string) *Term {
	key := kind + ":" + name
	n := st.nsym[key]
	st.nsym[key] = n + 1
	s := name
	if n > 0 {
		s = fmt.Sprintf("%s#%d", name, n)
	}
	return mk(kind, s, 0, nil)
}

func (x *Exec) fresh(st *State, name string) *Term { return x.freshSym(st, "fresh", name) }

func (x *Exec) newObj(st *State, site string, content *Term) *Term {
	o := x.freshSym(st, "alloc", site)
	if content != nil {
		st.mem[contentLoc(o)] = content
	}
	return o
}

func (x *Exec) site(in ssa.Instruction) string {
	p := x.p.fset.Position(in.Pos())
	if !in.Pos().IsValid() {
		p = x.p.fset.Position(x.lastPos)
	}
	n := ""
	if v, ok := in.(ssa.Value); ok {
		n = v.Name()
	}
	return fmt.Sprintf("%s.%s@%s:%d", in.Parent().Name(), n, baseName(p.Filename), p.Line)
}

func baseName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---------------------------------------------------------------- instructions

func (x *Exec) step(fr *frame, ps *pstate, in ssa.Instruction) []*pstate {
	st := ps.st
	one := []*pstate{ps}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(in.Type())
		site := x.site(in)
		a := x.freshSym(st, "alloc", site)
		x.p.types["alloc:"+a.val] = t
		if arr, ok := t.Underlying().(*types.Array); ok {
			x.p.isArray[a.val] = true
			x.p.arrElem[a.val] = arr.Elem()
		}
		if opaqueStruct(t) {
			st.mem[contentLoc(a)] = Empty
		}
		ps.env[in] = a
	case *ssa.Store:
		x.store(st, x.val(ps, in.Addr), x.val(ps, in.Val), in.Val.Type(), in.Pos())
	case *ssa.UnOp:
		v := x.val(ps, in.X)
		switch in.Op {
		case token.MUL:
			if x.mon.load != nil {
				x.mon.load(x, st, v, in.Pos())
			}
			if v.op == "ia" && x.mon.index != nil {
				x.mon.index(x, st, v.args[0], v.args[1], in.Pos())
			}
			ps.env[in] = x.load(st, v, in.Type())
		case token.NOT:
			ps.env[in] = Not(v)
		case token.SUB:
			ps.env[in] = AddK(Int(0), 1, v, -1)
		case token.ARROW:
			ps.env[in] = x.fresh(st, "recv")
		default:
			ps.env[in] = App("unop"+in.Op.String(), v)
		}
	case *ssa.BinOp:
		ps.env[in] = x.binop(st, in.Op, x.val(ps, in.X), x.val(ps, in.Y), in.X.Type())
	case *ssa.FieldAddr:
		s := structOf(deref(in.X.Type()))
		ps.env[in] = fa(x.val(ps, in.X), in.Field, s.Field(in.Field).Name())
	case *ssa.Field:
		s := structOf(in.X.Type())
		ps.env[in] = fieldOf(x.val(ps, in.X), in.Field, s.Field(in.Field).Name())
	case *ssa.IndexAddr:
		b, i := x.val(ps, in.X), x.val(ps, in.Index)
		x.bounds(st, b, i, in.Pos())
		ps.env[in] = iaT(b, i)
	case *ssa.Index:
		b, i := x.val(ps, in.X), x.val(ps, in.Index)
		x.bounds(st, b, i, in.Pos())
		if x.mon.index != nil {
			x.mon.index(x, st, b, i, in.Pos())
		}
		ps.env[in] = selT(x.value(st, b), i)
	case *ssa.Lookup:
		b, i := x.val(ps, in.X), x.val(ps, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			x.bounds(st, b, i, in.Pos())
			if x.mon.index != nil {
				x.mon.index(x, st, b, i, in.Pos())
			}
			ps.env[in] = selT(x.value(st, b), i)
			break
		}
		return x.mapLookup(ps, in, b, i)
	case *ssa.MapUpdate:
		m, k, v := x.val(ps, in.Map), x.val(ps, in.Key), x.val(ps, in.Value)
		k = x.value(st, strip(k))
		if x.mon.mapset != nil {
			x.mapType = in.Map.Type()
			x.mon.mapset(x, st, m, k, v, in.Pos())
		}
		st.mem[contentLoc(m)] = App("mapupd", x.mapContent(st, m), k, v)
	case *ssa.MakeMap:
		ps.env[in] = x.newObj(st, x.site(in), App("emptymap"))
	case *ssa.MakeSlice:
		content := App("zeroseq", x.val(ps, in.Len), zeroOf(in.Type().Underlying().(*types.Slice).Elem()))
		if content.args[0] == Int(0) && !isBytes(in.Type()) {
			content = emptySeq
		}
		if n := st.norm(x.val(ps, in.Len)); n.isInt() && n.c > 0 && n.c <= 8 && !isBytes(in.Type()) {
			zs := make([]*Term, n.c)
			for i := range zs {
				zs[i] = zeroOf(in.Type().Underlying().(*types.Slice).Elem())
			}
			content = mk("seq", "", 0, nil, zs...)
		}
		ps.env[in] = x.newObj(st, x.site(in), content)
	case *ssa.MakeChan:
		ps.env[in] = x.freshSym(st, "alloc", x.site(in))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		bs := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = x.val(ps, b)
		}
		x.p.funcTerm(fn)
		ps.env[in] = mk("closure", fn.String(), 0, nil, bs...)
	case *ssa.MakeInterface:
		x.p.types[typeName(in.X.Type())] = in.X.Type()
		ps.env[in] = mk("iface", typeName(in.X.Type()), 0, nil, x.val(ps, in.X))
	case *ssa.ChangeInterface:
		ps.env[in] = x.val(ps, in.X)
	case *ssa.ChangeType:
		ps.env[in] = x.val(ps, in.X)
	case *ssa.Convert:
		ps.env[in] = x.convert(st, x.val(ps, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		ps.env[in] = x.val(ps, in.X)
	case *ssa.SliceToArrayPointer:
		ps.env[in] = x.val(ps, in.X)
	case *ssa.Slice:
		ps.env[in] = x.slice(ps, in)
	case *ssa.TypeAssert:
		return x.typeAssert(ps, in)
	case *ssa.Extract:
		t := x.val(ps, in.Tuple)
		if t.op == "tuple" {
			ps.env[in] = t.args[in.Index]
		} else {
			ps.env[in] = App(fmt.Sprintf("ext%d", in.Index), t)
		}
	case *ssa.Range:
		m := x.val(ps, in.X)
		ps.env[in] = App("iter", m)
	case *ssa.Next:
		return x.next(ps, in)
	case *ssa.Defer:
		c := x.callInfo(ps, in.Common(), in.Pos())
		c.defer_ = true
		ps.defers = append(ps.defers, c)
	case *ssa.Go:
		c := x.callInfo(ps, in.Common(), in.Pos())
		c2 := &CallInfo{name: "go", args: append([]*Term{x.p.funcTermOf(c)}, c.args...), pos: in.Pos()}
		var out []*pstate
		for _, o := range x.dispatch(st, c2) {
			out = append(out, ps.with(o.st))
		}
		return out
	case *ssa.Send:
	case *ssa.Select:
		ps.env[in] = x.fresh(st, "select")
	case *ssa.Call:
		return x.doCall(ps, in)
	default:
		x.undecided("instruction %T in %s", in, fr.fn)
	}
	return one
}

func iaT(b, i *Term) *Term {
	if b.is("slice") && b.args[1] != nil { // s[lo:][i] -> s[lo+i]
		return ia(b.args[0], Add(b.args[1], i))
	}
	return ia(b, i)
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	bas, _ := t.Underlying().(*types.Basic)
	isStr := bas != nil && bas.Info()&types.IsString != 0
	isInt := bas != nil && bas.Info()&types.IsInteger != 0
	if isStr {
		a, b = x.value(st, a), x.value(st, b)
	}
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if structOf(t) != nil {
			e = eqStruct(a, b)
		} else if _, ok := t.Underlying().(*types.Interface); ok {
			e = x.eqIface(st, a, b)
		} else {
			if _, ok := t.Underlying().(*types.Slice); ok {
				// slice == nil: what matters is the length
				o := a
				if a == Nil {
					o = b
				}
				e = App("isnil", x.value(st, o))
				if e.args[0] == Nil {
					e = True
				} else if o.op == "alloc" {
					e = False
				}
			} else {
				e = Eq(a, b)
			}
		}
		if op == token.NEQ {
			return Not(e)
		}
		return e
	case token.ADD:
		if isStr {
			return Concat(a, b)
		}
		if isInt {
			return Add(a, b)
		}
	case token.SUB:
		if isInt {
			return Sub(a, b)
		}
	case token.MUL:
		if isInt && a.isInt() {
			return AddK(Int(0), 1, b, a.c)
		}
		if isInt && b.isInt() {
			return AddK(Int(0), 1, a, b.c)
		}
	case token.QUO:
		if isInt && b.isInt() && b.c == 1 {
			return a
		}
		if isInt && a.isInt() && b.isInt() && b.c != 0 {
			return Int(a.c / b.c)
		}
	case token.LSS:
		if isInt {
			return Lt(a, b)
		}
	case token.LEQ:
		if isInt {
			return Le(a, b)
		}
	case token.GTR:
		if isInt {
			return Lt(b, a)
		}
	case token.GEQ:
		if isInt {
			return Le(b, a)
		}
	case token.OR, token.AND:
		if isInt && a.isInt() && b.isInt() {
			if op == token.OR {
				return Int(a.c | b.c)
			}
			return Int(a.c & b.c)
		}
	}
	return App("op"+op.String(), a, b)
}

func eqStruct(a, b *Term) *Term {
	if a == b {
		return True
	}
	return Eq(a, b)
}

func (x *Exec) eqIface(st *State, a, b *Term) *Term {
	if a.op == "iface" && b.op == "iface" && a.val != b.val {
		return False
	}
	if a == Nil && b.op == "iface" || b == Nil && a.op == "iface" {
		return False
	}
	return Eq(strip(a), strip(b))
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	_, fs := from.Underlying().(*types.Slice)
	_, ts := to.Underlying().(*types.Slice)
	if fb != nil && fb.Info()&types.IsString != 0 && ts {
		if es := to.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); es.Kind() == types.Rune || es.Kind() == types.Int32 {
			return App("runes", v)
		}
		return v
	}
	if fs && tb != nil && tb.Info()&types.IsString != 0 {
		if es := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); es.Kind() == types.Rune || es.Kind() == types.Int32 {
			if c := x.value(st, v); c.is("runes") {
				return c
			}
			return App("runestr", x.value(st, v))
		}
		return x.value(st, v)
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
		if v.isInt() {
			return Str(string(rune(v.c)))
		}
		return App("runestr1", v)
	}
	if fb != nil && tb != nil && x.loses(st, v, fb, tb) {
		return App("convert:"+tb.Name(), v)
	}
	return v
}

// loses reports whether a numeric conversion can change the value
func (x *Exec) loses(st *State, v *Term, from, to *types.Basic) bool {
	fi, ti := from.Info(), to.Info()
	if fi&types.IsNumeric == 0 || ti&types.IsNumeric == 0 {
		return false
	}
	if fi&types.IsInteger == 0 || ti&types.IsInteger == 0 {
		return from.Kind() != to.Kind()
	}
	size := func(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }
	unsigned := ti&types.IsUnsigned != 0 && fi&types.IsUnsigned == 0
	bits := uint(8 * size(to))
	if ti&types.IsUnsigned == 0 {
		bits--
	}
	if size(to) >= size(from) && !unsigned {
		return false
	}
	if v.isInt() {
		return v.c < 0 && unsigned || bits < 62 && (v.c >= 1<<bits || v.c < -(1<<bits))
	}
	if v.isStr() || v.is("byteat") {
		return false
	}
	if unsigned && !st.holds(Le(Int(0), v)) {
		return true
	}
	return size(to) < size(from) && bits < 62 && !(st.holds(Le(v, Int(1<<bits-1))) && st.holds(Le(Int(-(1<<bits)), v)))
}

func (x *Exec) slice(ps *pstate, in *ssa.Slice) *Term {
	b := x.val(ps, in.X)
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
			n := Int(arr.Len())
			if n == Int(0) {
				return emptySeq
			}
			if in.Low == nil && in.High == nil {
				return App("arr", b, n)
			}
			full := App("arr", b, n)
			return x.sliceT(ps, full, in)
		}
	}
	return x.sliceT(ps, b, in)
}

func (x *Exec) sliceT(ps *pstate, b *Term, in *ssa.Slice) *Term {
	lo := Int(0)
	if in.Low != nil {
		lo = x.val(ps, in.Low)
	}
	if in.High == nil && lo == Int(0) {
		return b
	}
	v := x.value(ps.st, b)
	var hi *Term
	if in.High != nil {
		hi = x.val(ps, in.High)
	} else {
		hi = lenT(v)
	}
	if sl, ok := in.Type().Underlying().(*types.Slice); ok && lo == hi {
		if bt, ok := sl.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Byte {
			return emptySeq
		}
	}
	x.cutBounds(ps.st, v, lo, hi, in.Pos())
	return sliceTerm(v, lo, hi)
}

func (x *Exec) mapContent(st *State, m *Term) *Term {
	if v, ok := st.mem[contentLoc(m)]; ok {
		return v
	}
	if m == Nil {
		return App("emptymap")
	}
	return App("mc", m)
}

type mapRes struct {
	st  *State
	v   *Term
	has *Term
}

// lookup of key k in map content c: forks on key equality with tracked updates
func (x *Exec) mapSel(st *State, c, k *Term, zero *Term) []mapRes {
	type res = mapRes
	switch {
	case c.is("emptymap"):
		return []res{{st, zero, False}}
	case c.is("mapupd"):
		e := st.eval(Eq(strip(k), strip(c.args[1])))
		if e == True {
			return []res{{st, c.args[2], True}}
		}
		if e == False {
			return x.mapSel(st, c.args[0], k, zero)
		}
		var out []res
		for _, s := range st.clone().assume(e, true) {
			out = append(out, res{s, c.args[2], True})
		}
		for _, s := range st.clone().assume(e, false) {
			out = append(out, x.mapSel(s, c.args[0], k, zero)...)
		}
		return out
	case c.is("mapdel"):
		e := st.eval(Eq(strip(k), strip(c.args[1])))
		if e == True {
			return []res{{st, zero, False}}
		}
		if e == False {
			return x.mapSel(st, c.args[0], k, zero)
		}
		var out []res
		for _, s := range st.clone().assume(e, true) {
			out = append(out, res{s, zero, False})
		}
		for _, s := range st.clone().assume(e, false) {
			out = append(out, x.mapSel(s, c.args[0], k, zero)...)
		}
		return out
	}
	if x.mon.mapval != nil {
		if r := x.mon.mapval(x, st, c, k); r != nil {
			return r
		}
	}
	has := App("maphas", c, k)
	return []res{{st, App("mapval", c, k), has}}
}

func (x *Exec) mapLookup(ps *pstate, in *ssa.Lookup, m, k *Term) []*pstate {
	st := ps.st
	k = x.value(st, strip(k))
	if x.mon.mapget != nil {
		x.mon.mapget(x, st, m, k, in.Pos())
	}
	elemT := in.X.Type().Underlying().(*types.Map).Elem()
	zero := zeroOf(elemT)
	var out []*pstate
	for _, r := range x.mapSel(st, x.mapContent(st, m), k, zero) {
		if in.CommaOk {
			if h := r.st.eval(r.has); h == True || h == False {
				v := r.v
				if h == False {
					v = zero
				}
				n := ps.with(r.st)
				n.env[in] = mk("tuple", "", 0, nil, v, h)
				out = append(out, n)
				continue
			}
			for _, s := range r.st.clone().assume(r.has, true) {
				n := ps.with(s)
				n.env[in] = mk("tuple", "", 0, nil, r.v, True)
				out = append(out, n)
			}
			for _, s := range r.st.clone().assume(r.has, false) {
				n := ps.with(s)
				n.env[in] = mk("tuple", "", 0, nil, zero, False)
				out = append(out, n)
			}
			continue
		}
		h := r.st.eval(r.has)
		v := r.v
		if h == False {
			v = zero
		} else if h != True && r.v != zero {
			// value-or-zero of a symbolic map
			v = App("mapget", r.v.args...)
			if r.v.is("mapval") {
				v = App("mapget", r.v.args[0], r.v.args[1])
			}
			if isRefType(elemT) {
				// reference values: split so that the object identity is right
				for _, s := range r.st.clone().assume(r.has, true) {
					n := ps.with(s)
					n.env[in] = r.v
					out = append(out, n)
				}
				for _, s := range r.st.clone().assume(r.has, false) {
					n := ps.with(s)
					n.env[in] = zero
					out = append(out, n)
				}
				continue
			}
		}
		n := ps.with(r.st)
		n.env[in] = v
		out = append(out, n)
	}
	return out
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Pointer:
		return true
	}
	return false
}

func (x *Exec) next(ps *pstate, in *ssa.Next) []*pstate {
	st := ps.st
	it := x.val(ps, in.Iter)
	m := it.args[0]
	var out []*pstate
	// exhausted
	done := ps.with(st.clone())
	done.env[in] = mk("tuple", "", 0, nil, False, Nil, Nil)
	done.st.setg("exhausted", m)
	if x.mon.exhaust != nil {
		x.mon.exhaust(x, done.st, m, in.Pos())
	}
	c := x.content(st, m)
	if in.IsString {
		n := ps.with(st.clone())
		k, r := x.fresh(n.st, "idx@"+x.site(in)), x.fresh(n.st, "rune@"+x.site(in))
		n.env[in] = mk("tuple", "", 0, nil, True, k, r)
		if c == Empty {
			return []*pstate{done}
		}
		return []*pstate{n, done}
	}
	mc := x.mapContent(st, m)
	if mc.is("emptymap") {
		return []*pstate{done}
	}
	n := ps.with(st.clone())
	k := x.fresh(n.st, "key@"+x.site(in))
	var v *Term = App("mapval", mc, k)
	for _, s := range n.st.assume(App("maphas", mc, k), true) {
		p := ps.with(s)
		p.env[in] = mk("tuple", "", 0, nil, True, k, v)
		if x.mon.next != nil {
			x.mon.next(x, s, m, k, in.Pos())
		}
		out = append(out, p)
	}
	return append(out, done)
}

func (x *Exec) typeAssert(ps *pstate, in *ssa.TypeAssert) []*pstate {
	v := x.val(ps, in.X)
	st := ps.st
	t := in.AssertedType
	x.p.types[typeName(t)] = t
	_, isI := t.Underlying().(*types.Interface)
	set := func(p *pstate, val *Term, ok bool) *pstate {
		if in.CommaOk {
			p.env[in] = mk("tuple", "", 0, nil, val, Bool(ok))
		} else {
			p.env[in] = val
		}
		return p
	}
	if v.op == "iface" {
		var ok bool
		if isI {
			ct := x.p.types[v.val]
			ok = ct != nil && types.Implements(ct, t.Underlying().(*types.Interface))
			if ok {
				return []*pstate{set(ps, v, true)}
			}
		} else if ok = v.val == typeName(t); ok {
			return []*pstate{set(ps, v.args[0], true)}
		}
		if _, isTP := t.(*types.TypeParam); !isTP {
			if in.CommaOk {
				return []*pstate{set(ps, zeroOf(t), false)}
			}
			return nil
		}
	}
	name := typeName(t)
	if isI {
		name = "I:" + name
	}
	atom := App("typeis", v, mk("type", name, 0, nil))
	as := App("as", v, mk("type", name, 0, nil))
	if isI {
		as = v
	}
	var out []*pstate
	if v == Nil {
		if in.CommaOk {
			return []*pstate{set(ps, zeroOf(t), false)}
		}
		return nil
	}
	for _, s := range st.clone().assume(atom, true) {
		out = append(out, set(ps.with(s), as, true))
	}
	if in.CommaOk {
		for _, s := range st.clone().assume(atom, false) {
			out = append(out, set(ps.with(s), zeroOf(t), false))
		}
	}
	return out
}

// ---------------------------------------------------------------- calls

func (x *Exec) callInfo(ps *pstate, c *ssa.CallCommon, pos token.Pos) *CallInfo {
	ci := &CallInfo{pos: pos, sig: c.Signature(), nret: c.Signature().Results().Len()}
	for _, a := range c.Args {
		ci.args = append(ci.args, x.val(ps, a))
	}
	if c.IsInvoke() {
		recv := x.val(ps, c.Value)
		if recv.op == "iface" {
			if t := x.p.types[recv.val]; t != nil {
				if m := x.p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
					ci.fn = m
					ci.name = fnName(m)
					ci.args = append([]*Term{recv.args[0]}, ci.args...)
					return ci
				}
			}
		}
		ci.name = short(c.Method.FullName())
		ci.args = append([]*Term{recv}, ci.args...)
		return ci
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		ci.fn = f
		ci.name = fnName(f)
		return ci
	case *ssa.Builtin:
		ci.name = "builtin." + f.Name()
		return ci
	}
	ci.recv = x.val(ps, c.Value)
	x.resolveDyn(ci)
	return ci
}

func (x *Exec) resolveDyn(ci *CallInfo) {
	switch ci.recv.op {
	case "closure", "func":
		if f := x.p.funcs[ci.recv.val]; f != nil {
			ci.fn = f
			ci.name = fnName(f)
			ci.bind = ci.recv.args
			return
		}
	}
	ci.name = "dyn"
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return short(f.String())
}

func (x *Exec) doCall(ps *pstate, in *ssa.Call) []*pstate {
	c := x.callInfo(ps, in.Common(), in.Pos())
	outs := x.dispatch(ps.st, c)
	res := make([]*pstate, 0, len(outs))
	for i, o := range outs {
		if o.panic {
			continue
		}
		var n *pstate
		if len(outs) == 1 && i == 0 {
			n = ps
			n.st = o.st
		} else {
			n = ps.with(o.st)
		}
		switch c.nret {
		case 0:
		case 1:
			if len(o.vals) < 1 {
				x.undecided("model of %s returns nothing", c.name)
			}
			n.env[in] = o.vals[0]
		default:
			if len(o.vals) != c.nret {
				x.undecided("model of %s returns %d values", c.name, len(o.vals))
			}
			n.env[in] = mk("tuple", "", 0, nil, o.vals...)
		}
		res = append(res, n)
	}
	return res
}

// dispatch resolves a call: monitor, model, inlining, opaque
func (x *Exec) dispatch(st *State, c *CallInfo) []Out {
	x.calls++
	if c.pos.IsValid() {
		x.callPos = append(x.callPos, c.pos)
	} else {
		x.callPos = append(x.callPos, x.lastPos)
	}
	defer func() { x.callPos = x.callPos[:len(x.callPos)-1] }()
	if c.name == "dyn" && c.recv != nil {
		// a function value may have become known (e.g. through an equality)
		c2 := *c
		c2.recv = st.norm(c.recv)
		x.resolveDyn(&c2)
		if c2.fn != nil {
			c = &c2
		} else if c2.recv.op == "ite" {
			var outs []Out
			for _, s := range st.clone().assume(c2.recv.args[0], true) {
				d := c2
				d.recv = c2.recv.args[1]
				x.resolveDyn(&d)
				outs = append(outs, x.dispatch(s, &d)...)
			}
			for _, s := range st.clone().assume(c2.recv.args[0], false) {
				d := c2
				d.recv = c2.recv.args[2]
				x.resolveDyn(&d)
				outs = append(outs, x.dispatch(s, &d)...)
			}
			return outs
		}
	}
	if x.mon.call != nil {
		if outs, ok := x.mon.call(x, st, c); ok {
			return outs
		}
	}
	if m, ok := models[c.name]; ok {
		return m(x, st, c)
	}
	if c.fn != nil {
		if x.p.inRepo(c.fn) || inlineStd[c.name] || (c.fn.Pkg == nil && c.fn.Synthetic != "" && len(c.fn.Blocks) > 0) {
			n := 0
			for _, f := range x.stack {
				if f == c.fn {
					n++
				}
			}
			if n >= 2 || len(c.fn.Blocks) == 0 || (x.mon.inline != nil && !x.mon.inline(c.fn)) {
				return x.opaque(st, c)
			}
			return x.call(c.fn, c.args, c.bind, st)
		}
	}
	return x.opaque(st, c)
}

// pure packages: results are functions of the arguments
var purePkgs = []string{"strings.", "bytes.", "strconv.", "path.", "path/filepath.", "unicode", "math.", "math/", "errors.", "slices.", "maps.", "regexp.", "sort.", "cmp.", "html.", "encoding/", "fmt.", "reflect.", "go/", "github.com/tidwall/", "github.com/kr/", "github.com/maruel/", "github.com/goccy/", "github.com/gkampitakis/go-diff", "runtime.", "time.", "flag."}

func purePkg(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// opaque: unknown function; results are value-numbered by name and arguments for pure packages, fresh otherwise
func (x *Exec) opaque(st *State, c *CallInfo) []Out {
	n := c.nret
	vals := make([]*Term, n)
	args := make([]*Term, len(c.args))
	for i, a := range c.args {
		args[i] = x.value(st, a)
	}
	pure := purePkg(c.name) && !impure[c.name]
	for i := range vals {
		if pure {
			vals[i] = App(fmt.Sprintf("%s%s", c.name, retSuffix(i, n)), args...)
		} else {
			vals[i] = x.fresh(st, c.name+retSuffix(i, n))
		}
		if c.sig != nil {
			switch c.sig.Results().At(i).Type().Underlying().(type) {
			case *types.Slice:
				if !isBytes(c.sig.Results().At(i).Type()) {
					// a result slice is a new object with that content
					vals[i] = x.newObj(st, "res:"+c.name+retSuffix(i, n), vals[i])
				}
			}
		}
	}
	// pointer arguments to local memory may be written
	for i, a := range c.args {
		a = strip(a)
		if a.op == "alloc" || a.op == "fa" {
			x.havoc(st, a, App("out:"+c.name+fmt.Sprint(i), args...))
		}
	}
	return []Out{{st: st, vals: vals}}
}

func retSuffix(i, n int) string {
	if n <= 1 {
		return ""
	}
	return fmt.Sprintf("$%d", i)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (x *Exec) havoc(st *State, p, v *Term) {
	var ks []*Term
	for k := range st.mem {
		if rootOf(k) == p || k == p {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 0 {
		st.mem[p] = v
		return
	}
	for i, k := range ks {
		st.mem[k] = App("hv", v, Int(int64(i)))
	}
}

// where describes the current call chain
func (x *Exec) where(pos token.Pos) string {
	p := x.p.line(pos)
	if !pos.IsValid() {
		p = x.p.line(x.lastPos)
	}
	return p
}

func (x *Exec) chain() string {
	var s []string
	for _, f := range x.stack {
		s = append(s, f.Name())
	}
	return strings.Join(s, " > ")
}

func (x *Exec) scanEnd(st *State) []*State {
	if x.mon.scanEnd == nil {
		return []*State{st}
	}
	return x.mon.scanEnd(x, st)
}

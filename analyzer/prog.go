package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gkampitakis/go-snaps"

// Prog is the loaded, type-checked program in SSA form.
type Prog struct {
	dir     string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // repository packages by import path
	all     []*packages.Package
	types   map[string]types.Type
	funcs   map[string]*ssa.Function
	isArray map[string]bool
	arrElem map[string]types.Type
	frames  map[*ssa.Function]*frame
	seed    map[*Term]*Term
	srcFns  []*ssa.Function // every repository function, closures included
	nfiles  int
}

func Load(dir string) (*Prog, error) {
	p := &Prog{
		dir: dir, pkgs: map[string]*ssa.Package{}, types: map[string]types.Type{}, funcs: map[string]*ssa.Function{},
		isArray: map[string]bool{}, arrElem: map[string]types.Type{}, frames: map[*ssa.Function]*frame{}, seed: map[*Term]*Term{},
	}
	p.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir, Fset: p.fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	if abs, err := filepath.Abs(filepath.Join(dir, "match")); err == nil {
		if _, err := os.Stat(abs); err == nil {
			cfg.Overlay = map[string][]byte{filepath.Join(abs, "zz_verif_instances.go"): []byte(instances)}
		}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if strings.HasPrefix(pk.PkgPath, modPath) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	p.all = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	prog.Build()
	for _, pk := range prog.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), modPath) {
			p.pkgs[strings.TrimPrefix(strings.TrimPrefix(pk.Pkg.Path(), modPath), "/")] = pk
		}
	}
	for _, pk := range pkgs {
		p.nfiles += len(pk.CompiledGoFiles)
	}
	for f := range ssautil.AllFunctions(prog) {
		p.funcs[f.String()] = f
		if p.inRepo(f) && f.Synthetic == "" {
			p.srcFns = append(p.srcFns, f)
		}
	}
	// generic and unreferenced functions as well
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok {
				p.addFn(f)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if n, ok := t.Type().(*types.Named); ok {
						for i := 0; i < n.NumMethods(); i++ {
							if f := prog.FuncValue(n.Method(i)); f != nil {
								p.addFn(f)
							}
						}
					}
					_ = tt
				}
			}
		}
	}
	sort.Slice(p.srcFns, func(i, j int) bool { return p.srcFns[i].String() < p.srcFns[j].String() })
	return p, nil
}

func (p *Prog) addFn(f *ssa.Function) {
	for _, g := range p.srcFns {
		if g == f {
			return
		}
	}
	p.funcs[f.String()] = f
	if f.Synthetic == "" || f.TypeParams().Len() > 0 {
		p.srcFns = append(p.srcFns, f)
	}
	for _, a := range f.AnonFuncs {
		p.addFn(a)
	}
}

// fn finds a function or method: "snaps.getPrevSnapshot", "snaps.(*syncRegistry).getTestID"
func (p *Prog) fn(pkg, name string) *ssa.Function {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t, ok := pk.Members[strings.TrimPrefix(tn, "*")].(*ssa.Type)
		if !ok {
			return nil
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == mn {
				return p.prog.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	f, _ := pk.Members[name].(*ssa.Function)
	return f
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	pk := f.Pkg
	if pk == nil {
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return strings.HasPrefix(ob.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func (p *Prog) funcTerm(f *ssa.Function) *Term {
	p.funcs[f.String()] = f
	return mk("func", f.String(), 0, nil)
}

func (p *Prog) funcTermOf(c *CallInfo) *Term {
	if c.fn != nil {
		return mk("closure", c.fn.String(), 0, nil, c.bind...)
	}
	if c.recv != nil {
		return c.recv
	}
	return Sym(c.name)
}

func (p *Prog) line(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------------------------------------------------------------- frames: loops and liveness

func (p *Prog) frame(fn *ssa.Function) *frame {
	if f, ok := p.frames[fn]; ok {
		return f
	}
	f := &frame{fn: fn, loops: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.loops[s]
				if l == nil {
					l = &loop{head: s, fn: fn, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.loops[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, pr := range c.Preds {
						if !l.blocks[pr] {
							l.blocks[pr] = true
							st = append(st, pr)
						}
					}
				}
			}
		}
	}
	f.live = liveness(fn)
	p.frames[fn] = f
	return f
}

// liveness: values live in each block after its phis
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				idx := -1
				for k, pr := range s.Preds {
					if pr == b {
						idx = k
					}
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if idx >= 0 && tracked(ph.Edges[idx]) {
						live[ph.Edges[idx]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in[b]) {
				changed = true
			}
			in[b] = live
		}
	}
	return in
}

// loopy: the function or one it calls has a loop
func (p *Prog) loopy(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || !p.inRepo(f) {
		return false
	}
	seen[f] = true
	if len(f.Blocks) > 0 && len(p.frame(f).loops) > 0 {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				s := c.Common().StaticCallee()
				if s == nil {
					continue
				}
				if p.loopy(s, seen) {
					return true
				}
				if o := s.Origin(); o != nil {
					s = o
				}
				// a search over a sequence is a loop
				switch short(s.String()) {
				case "slices.ContainsFunc", "slices.IndexFunc", "strings.IndexFunc", "strings.ContainsFunc", "runtime/debug.ReadBuildInfo":
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- constant globals

// initGlobals analyses the initialisers of the repository's packages and seeds the globals that nothing
// else stores to.
func (p *Prog) initGlobals(rep *Reporter) {
	stored := map[string]bool{} // globals stored outside init
	mutTypes := map[string]bool{}
	for _, f := range p.srcFns {
		if f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				if g, ok := a.(*ssa.Global); ok {
					stored[g.RelString(nil)] = true
				}
				local := false
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
							mutTypes[typeName(deref(fa.X.Type()))] = true
						} else {
							local = true
						}
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				_ = local
				if g, ok := a.(*ssa.Global); ok {
					stored[g.RelString(nil)] = true
				}
			}
		}
	}
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pk := p.pkgs[n]
		init := pk.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		mon := &Mon{name: "init", noMerge: true}
		mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
			if c.fn != nil && c.fn.Name() == "init" && len(c.args) == 0 {
				return []Out{{st: st}}, true
			}
			if c.fn != nil && p.inRepo(c.fn) && c.fn.Parent() == nil && c.nret > 0 && p.loopy(c.fn, map[*ssa.Function]bool{}) {
				vals := make([]*Term, c.nret)
				for i := range vals {
					vals[i] = App(c.name+retSuffix(i, c.nret), c.args...)
				}
				return []Out{{st: st, vals: vals}}, true
			}
			return nil, false
		}
		x := &Exec{p: p, mon: mon, rep: &Reporter{quiet: true, p: p}, root: "init", limit: 200000, visited: map[*ssa.Function]bool{}, seed: p.seed}
		st := newState()
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				st.mem[Global(g.RelString(nil))] = zeroOf(deref(g.Type()))
				if strings.HasPrefix(g.Name(), "init$guard") {
					st.mem[Global(g.RelString(nil))] = False
				}
			}
		}
		st2 := st.clone()
		for k := range st2.mem {
			if _, ok := structType(p, k); ok {
				delete(st2.mem, k)
			}
		}
		outs := x.Run(init, nil, st2)
		if x.fail != "" || len(outs) == 0 {
			if rep != nil {
				rep.note("init of %s undecided: %s", n, x.fail)
			}
			continue
		}
		locs := map[*Term]bool{}
		for _, o := range outs {
			for k := range o.st.mem {
				locs[k] = true
			}
		}
		for l := range locs {
			root := rootOf(l)
			if root.op == "global" && (stored[root.val] || strings.Contains(root.val, "init$guard")) {
				continue
			}
			v := combineOuts(outs, func(o Out) *Term {
				if v, ok := o.st.mem[l]; ok {
					return v
				}
				return nil
			})
			if v == nil {
				continue
			}
			if root.op == "alloc" {
				// heap objects of the initialiser: keep only what nothing mutates
				if t := p.types["alloc:"+root.val]; t != nil {
					if s := structOf(t); s != nil && (mutTypes[typeName(t)] || mutable(s)) {
						continue
					}
					if _, ok := t.Underlying().(*types.Map); ok {
						continue
					}
				} else {
					continue
				}
			}
			if r := v; r.op == "alloc" {
				t := p.types["alloc:"+r.val]
				if t == nil {
					continue
				}
				if s := structOf(t); s != nil && (mutTypes[typeName(t)] || mutable(s)) {
					continue
				}
			}
			p.seed[l] = v
		}
	}
}

func structType(p *Prog, g *Term) (types.Type, bool) {
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			if gl, ok := m.(*ssa.Global); ok && gl.RelString(nil) == g.val {
				t := deref(gl.Type())
				if structOf(t) != nil {
					return t, true
				}
				return t, false
			}
		}
	}
	return nil, false
}

func mutable(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Map:
			return true
		case *types.Struct:
			if strings.HasPrefix(typeName(s.Field(i).Type()), "sync.") || mutable(u) {
				return true
			}
		}
		if strings.HasPrefix(typeName(s.Field(i).Type()), "sync.") {
			return true
		}
	}
	return false
}

// combineOuts expresses a value that differs between outcomes as a decision tree over their branch facts
func combineOuts(outs []Out, get func(Out) *Term) *Term {
	v0 := get(outs[0])
	same := true
	for _, o := range outs[1:] {
		if get(o) != v0 {
			same = false
		}
	}
	if same {
		return v0
	}
	atoms := map[*Term]bool{}
	for _, o := range outs {
		for f := range o.st.facts {
			atoms[f] = true
		}
	}
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		var yes, no []Out
		ok := true
		for _, o := range outs {
			e, has := o.st.facts[a]
			if !has {
				v := o.st.eval(a)
				if v == True {
					e, has = true, true
				} else if v == False {
					e, has = false, true
				}
			}
			if !has {
				ok = false
				break
			}
			if e {
				yes = append(yes, o)
			} else {
				no = append(no, o)
			}
		}
		if !ok || len(yes) == 0 || len(no) == 0 {
			continue
		}
		y, n := combineOuts(yes, get), combineOuts(no, get)
		if y == nil || n == nil {
			return nil
		}
		return Ite(a, y, n)
	}
	return nil
}

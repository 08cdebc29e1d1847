package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level state: every write of and every read from memory that hangs off a package variable is noted
// while the monitors follow the code of Match* and Skip*, together with the locks held there.

type access struct {
	write bool
	locks map[string]bool
	where string
	chain string
	pos   token.Pos
	rule  string
}

// rules that follow code the tests may run concurrently
var concurrentRules = map[string]bool{"CALLER": true, "LOC": true, "ENTRY": true, "READ": true, "APPEND": true, "UPDATE": true, "REGISTRY": true, "SKIP": true,
	"DIFF": true, "MATCHER": true, "YAMLGET": true, "YAMLUPDATE": true, "YAMLVALUE": true, "YAMLTEXT": true, "ESCAPE": true, "CONFIG": true, "OPTIONS": true, "OPCODES": true}

// sharedName names the package-level memory a location belongs to: the variable and its first field
func sharedName(loc *Term) string {
	var path []string
	for {
		switch {
		case loc.op == "global":
			if strings.Contains(loc.val, "init$guard") {
				return ""
			}
			n := short(loc.val)
			for i := len(path) - 1; i >= 0; i-- {
				n += path[i]
				if i < len(path)-2 {
					break
				}
			}
			return n
		case loc.op == "fa":
			path = append(path, "."+fieldName(loc))
			loc = loc.args[0]
		case loc.op == "ia":
			path = append(path, "[]")
			loc = loc.args[0]
		case loc.op == "app" && (loc.val == "ld" || loc.val == "content" || loc.val == "mc" || loc.val == "nonnil") && len(loc.args) == 1:
			if loc.val == "ld" {
				path = append(path, "*")
			}
			loc = loc.args[0]
		default:
			return ""
		}
	}
}

func fieldName(fa *Term) string {
	if fa.val != "" {
		return fa.val
	}
	return "?"
}

func (d *Driver) touch(x *Exec, st *State, loc *Term, suffix string, write bool, pos token.Pos) {
	n := sharedName(loc)
	if n == "" {
		return
	}
	n += suffix
	h := map[string]bool{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "lock:") && (v == Str("W") || !write && v == Str("R")) {
			h[k] = true
		}
	}
	if d.shared == nil {
		d.shared = map[string][]access{}
	}
	for _, a := range d.shared[n] {
		if a.pos == pos && a.write == write && len(a.locks) == len(h) {
			return
		}
	}
	d.shared[n] = append(d.shared[n], access{write: write, locks: h, where: x.where(pos), chain: x.chain(), pos: pos, rule: d.rep.rule})
}

// watch adds the recorder to a monitor
func (d *Driver) watch(mon *Mon) {
	if mon == nil || mon.watched || !concurrentRules[d.current] {
		return
	}
	mon.watched = true
	store, load, mapset, mapget, call := mon.store, mon.load, mon.mapset, mon.mapget, mon.call
	mon.store = func(x *Exec, st *State, loc, v *Term, pos token.Pos) {
		d.touch(x, st, loc, "", true, pos)
		if store != nil {
			store(x, st, loc, v, pos)
		}
	}
	mon.load = func(x *Exec, st *State, loc *Term, pos token.Pos) {
		d.touch(x, st, loc, "", false, pos)
		if load != nil {
			load(x, st, loc, pos)
		}
	}
	mon.mapset = func(x *Exec, st *State, m, k, v *Term, pos token.Pos) {
		d.touch(x, st, m, "[]", true, pos)
		if mapset != nil {
			mapset(x, st, m, k, v, pos)
		}
	}
	mon.mapget = func(x *Exec, st *State, m, k *Term, pos token.Pos) {
		d.touch(x, st, m, "[]", false, pos)
		if mapget != nil {
			mapget(x, st, m, k, pos)
		}
	}
	mon.call = func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if call != nil {
			if o, ok := call(x, st, c); ok {
				return o, true
			}
		}
		return lockHook(x, st, c)
	}
}

// ruleRace judges what was noted.
func (d *Driver) ruleRace() {
	d.rep.begin("RACE", "package state", "C06", "C12")
	var names []string
	for n := range d.shared {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var common map[string]bool
		written := false
		for _, a := range d.shared[n] {
			written = written || a.write
			if common == nil {
				common = map[string]bool{}
				for k := range a.locks {
					common[k] = true
				}
				continue
			}
			for k := range common {
				if !a.locks[k] {
					delete(common, k)
				}
			}
		}
		if !written {
			continue
		}
		if len(common) > 0 {
			d.rep.ok("package state written by calls is read and written under one lock")
			continue
		}
		for _, a := range d.shared[n] {
			if len(a.locks) == 0 || a.write {
				kind := "read"
				if a.write {
					kind = "written"
				}
				d.rep.bad(nil, nil, a.pos, "package state written by calls is read and written under one lock", nil, n+" is "+kind+" holding "+strings.Join(keys(a.locks), ",")+" by "+a.chain)
			}
		}
	}
	// stores no monitor has followed
	reach := d.reachable()
	for f := range reach {
		if d.visited[f] || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					addr = in.Addr
				case *ssa.MapUpdate:
					addr = in.Map
				default:
					continue
				}
				if g := globalRoot(addr); g != nil {
					d.rep.bad(nil, nil, in.Pos(), "every write of package state is followed by a monitor", nil, short(f.String())+" writes "+g.Name())
				}
			}
		}
	}
	d.rep.ok("every write of package state is followed by a monitor")
	d.ruleScratch(reach)
}

// library objects that concurrent calls may not share
var unshareable = map[string]bool{"bytes.Buffer": true, "strings.Builder": true, "bufio.Scanner": true, "bufio.Reader": true, "bufio.Writer": true,
	"bufio.ReadWriter": true, "encoding/json.Encoder": true, "encoding/json.Decoder": true, "math/rand.Rand": true, "text/tabwriter.Writer": true, "container/list.List": true,
	"encoding/csv.Writer": true, "encoding/csv.Reader": true, "github.com/goccy/go-yaml.Encoder": true, "github.com/goccy/go-yaml.Decoder": true}

// library calls that write into the slice they are given: position of that argument
var fills = map[string]int{"(*bufio.Scanner).Buffer": 1, "(*os.File).Read": 1, "(*os.File).ReadAt": 1, "(*bufio.Reader).Read": 1, "(*bytes.Buffer).Read": 1,
	"(*bytes.Reader).Read": 1, "(*strings.Reader).Read": 1, "io.ReadFull": 1, "io.ReadAtLeast": 1, "io.CopyBuffer": 2, "bytes.NewBuffer": 0, "sort.Strings": 0, "sort.Ints": 0,
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Sort": 0, "sort.Stable": 0, "slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0,
	"slices.Delete": 0, "slices.DeleteFunc": 0, "slices.Insert": 0, "slices.Replace": 0, "slices.Compact": 0, "slices.CompactFunc": 0, "fmt.Append": 0, "fmt.Appendf": 0, "fmt.Appendln": 0,
	"strconv.AppendInt": 0, "strconv.AppendUint": 0, "strconv.AppendQuote": 0, "strconv.AppendBool": 0, "strconv.AppendFloat": 0, "utf8.AppendRune": 0, "unicode/utf8.AppendRune": 0,
	"unicode/utf8.EncodeRune": 0, "encoding/binary.PutUvarint": 0, "builtin.append": 0, "builtin.copy": 0, "builtin.clear": 0}

// ruleScratch follows the slices and the library objects that package variables hold to the places that write into them
func (d *Driver) ruleScratch(reach map[*ssa.Function]bool) {
	const what = "no slice or buffer of a package variable is written to without a lock"
	from := map[ssa.Value]*ssa.Global{}
	var work []ssa.Value
	add := func(v ssa.Value, g *ssa.Global) {
		if from[v] == nil {
			from[v] = g
			work = append(work, v)
		}
	}
	named := func(t types.Type) string {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return ""
	}
	slice := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	array := func(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }
	returns := map[*ssa.Function][]*ssa.Call{} // calls of a function
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil {
						returns[g] = append(returns[g], c)
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !d.p.inRepo(f) {
						continue
					}
					t := deref(g.Type())
					if u, ok := in.(*ssa.UnOp); ok && (slice(t) || unshareable[named(t)]) {
						add(u, g)
					}
					if array(t) || unshareable[named(t)] && t.Underlying() != nil {
						if _, isP := t.Underlying().(*types.Pointer); !isP {
							add(g, g)
						}
					}
				}
			}
		}
	}
	var locked func(f *ssa.Function, depth int) bool
	locked = func(f *ssa.Function, depth int) bool {
		if locks(f) {
			return true
		}
		for _, c := range returns[f] {
			if depth == 0 || !locked(c.Parent(), depth-1) {
				return false
			}
		}
		return len(returns[f]) > 0
	}
	bad := func(in ssa.Instruction, g *ssa.Global, how string) {
		f := in.Parent()
		if !reach[f] || f.Name() == "init" && f.Synthetic != "" || locked(f, 4) {
			return
		}
		d.rep.bad(nil, nil, in.Pos(), what, nil, short(f.String())+": "+how+" "+g.Name())
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		g := from[v]
		if v.Referrers() == nil && v != ssa.Value(g) {
			continue
		}
		var refs []ssa.Instruction
		if v == ssa.Value(g) {
			for f := range reach {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op == v {
								refs = append(refs, in)
							}
						}
					}
				}
			}
		} else {
			refs = *v.Referrers()
		}
		for _, in := range refs {
			switch u := in.(type) {
			case *ssa.Slice:
				if u.X == v {
					if u.Max != nil && u.High == u.Max && !array(deref(v.Type())) {
						continue // no spare capacity
					}
					add(u, g)
				}
			case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
				add(u.(ssa.Value), g)
			case *ssa.IndexAddr:
				if u.X != v {
					continue
				}
				for _, r := range *u.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == u {
						bad(s, g, "stores into")
					}
				}
			case *ssa.Return:
				for i, r := range u.Results {
					if r != v {
						continue
					}
					for _, c := range returns[u.Parent()] {
						if len(u.Results) == 1 {
							add(c, g)
							continue
						}
						for _, e := range *c.Referrers() {
							if e, ok := e.(*ssa.Extract); ok && e.Index == i {
								add(e, g)
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := u.Common()
				name := ""
				if b, ok := c.Value.(*ssa.Builtin); ok {
					name = "builtin." + b.Name()
				} else if f := c.StaticCallee(); f != nil {
					name = fnName(f)
					if len(f.Blocks) > 0 && d.p.inRepo(f) {
						for i, a := range c.Args {
							if a == v && i < len(f.Params) {
								add(f.Params[i], g)
							}
						}
						continue
					}
				}
				if k, ok := fills[name]; ok && k < len(c.Args) && c.Args[k] == v {
					if name == "builtin.append" {
						if storedBack(u.Value(), g) || full(g) {
							continue
						}
					}
					bad(u, g, name+" writes into")
					continue
				}
				if n := named(v.Type()); unshareable[n] {
					bad(u, g, "uses the shared "+n)
				}
			}
		}
	}
	d.rep.ok(what)
}

// locks reports whether a function takes an exclusive lock
func locks(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && (fnName(g) == "(*sync.Mutex).Lock" || fnName(g) == "(*sync.RWMutex).Lock") {
						return true
					}
				}
			}
		}
	}
	return false
}

// storedBack reports whether v becomes the new value of g
func storedBack(v ssa.Value, g *ssa.Global) bool {
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == g {
			return true
		}
	}
	return false
}

// full reports whether the only slice g ever holds has no spare capacity: it covers an array of its own
func full(g *ssa.Global) bool {
	n := 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				n++
				sl, ok := s.Val.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
					return false
				}
				if _, ok := sl.X.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return n == 1
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch u := v.(type) {
		case *ssa.Global:
			return u
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		case *ssa.UnOp:
			v = u.X
		case *ssa.Field:
			v = u.X
		default:
			return nil
		}
	}
}

// reachable lists the repository's functions the public calls can reach
func (d *Driver) reachable() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && d.p.inRepo(f) && len(f.Blocks) > 0 {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range d.p.srcFns {
		n := short(f.String())
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && !strings.HasSuffix(n, ".Clean") && !strings.Contains(n, "internal/test") {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	return seen
}

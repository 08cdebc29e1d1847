package main

import (
	"go/token"
	"math"
	"strings"
)

const snaps = "snaps"

var End = Str("---")

// ---------------------------------------------------------------- shared hooks

// idHook replaces snaps.getTestID by its contract (verified by rule ID): isID/idname
func idHook(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	if c.name != "snaps.getTestID" || len(c.args) != 1 {
		return nil, false
	}
	l := st.norm(x.value(st, c.args[0]))
	return one(st, idName(l), isID(l)), true
}

func isID(l *Term) *Term {
	if l.isStr() {
		_, ok := constID(l.val)
		return Bool(ok)
	}
	return App("isID", l)
}

func idName(l *Term) *Term {
	if l.isStr() {
		n, _ := constID(l.val)
		return Str(n)
	}
	return App("idname", l)
}

func constID(s string) (string, bool) {
	if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
		return "", false
	}
	i := strings.Index(s, " - ")
	if i < 0 || strings.Trim(s[i+3:len(s)-1], "0123456789") != "" {
		return "", false
	}
	return s[1 : len(s)-1], true
}

// lockHook tracks mutexes in ghost "lock:<m>" (R, W); double locking and foreign unlocking are reported
func lockHook(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	if !strings.HasPrefix(c.name, "(*sync.") || len(c.args) == 0 {
		return nil, false
	}
	i := strings.LastIndexByte(c.name, '.')
	typ, m := c.name[len("(*sync."):i-1], c.name[i+1:]
	if typ != "Mutex" && typ != "RWMutex" {
		return nil, false
	}
	k := "lock:" + c.args[0].String()
	switch m {
	case "Lock", "RLock":
		if st.g(k) != Nil {
			x.rep.bad(x, st, c.pos, "lock taken while already held", nil, c.args[0].String())
		}
		st.setg(k, Str(map[string]string{"Lock": "W", "RLock": "R"}[m]))
		if e := "epoch:" + k; st.g(e) == Nil {
			st.setg(e, Int(1))
		} else {
			inc(st, e)
		}
	case "Unlock", "RUnlock":
		want := Str(map[string]string{"Unlock": "W", "RUnlock": "R"}[m])
		if st.g(k) != want {
			x.rep.bad(x, st, c.pos, "unlock of a mutex that is not held", nil, c.args[0].String())
		}
		st.setg(k, Nil)
	default:
		return nil, false
	}
	return one(st), true
}

func lockHeld(st *State, write bool) (held string) {
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "lock:") && (v == Str("W") || !write && v == Str("R")) {
			if held == "" || k < held {
				held = k
			}
		}
	}
	return held
}

// sections lists the critical sections the state is in
func sections(st *State, write bool) map[string]bool {
	m := map[string]bool{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "lock:") && (v == Str("W") || !write && v == Str("R")) {
			m[k+"#"+st.g("epoch:"+k).String()] = true
		}
	}
	return m
}

// sawShared notes that shared state was read, in ghost g: what is based on it later must happen in the same section
func sawShared(st *State, g string) {
	cur := sections(st, true)
	if old := st.g(g); old.isStr() {
		for k := range cur {
			if !strings.Contains(old.val, k+";") {
				delete(cur, k)
			}
		}
	}
	st.setg(g, Str(strings.Join(keys(cur), ";")+";"))
}

// atomicSince reports whether the section of every sawShared is still open
func atomicSince(st *State, g string) bool {
	old := st.g(g)
	if !old.isStr() {
		return true
	}
	for k := range sections(st, true) {
		if strings.Contains(old.val, k+";") {
			return true
		}
	}
	return false
}

// guard notes that a shared resource is used; every use must hold one common lock
func (d *Driver) guard(x *Exec, st *State, resource string, write bool, pos token.Pos) {
	h := map[string]bool{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "lock:") && (v == Str("W") || !write && v == Str("R")) {
			h[k] = true
		}
	}
	if d.guards == nil {
		d.guards = map[string]map[string]bool{}
	}
	c, ok := d.guards[resource]
	if !ok {
		c = h
		d.guards[resource] = c
	} else {
		for k := range c {
			if !h[k] {
				delete(c, k)
			}
		}
	}
	d.rep.check(len(h) > 0 && len(c) > 0, x, st, pos, "every use of the "+resource+" holds the same lock", []string{"C06"}, "holds %v, in common %v", keys(h), keys(c))
}

// unlocked checks that no lock is held at a return
func unlocked(x *Exec, st *State) {
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "lock:") && v != Nil {
			x.rep.bad(x, st, token.NoPos, "returns with a lock held", []string{"C06"}, k)
			return
		}
	}
	x.rep.ok("locks released at return")
}

// isErr decides whether an error value is nil: 1 nil, -1 non-nil, 0 unknown
func isErr(st *State, e *Term) int {
	t := st.eval(Eq(e, Nil))
	switch t {
	case True:
		return 1
	case False:
		return -1
	}
	return 0
}

const gMode = "key:mode"

// scanSource checks that a scanner reads the given file without a bound on the line length
func (d *Driver) scanSource(x *Exec, st *State, sc, path *Term, pos token.Pos, props []string) {
	src := x.value(st, st.mem[fa(sc, 0, "src")])
	ok := src == App("reader", App("file", path)) || src.is("nonnil") && src.args[0] == App("file", path)
	if !ok {
		f := st.mem[fa(sc, 0, "src")]
		if p, has := st.mem[fa(f, 0, "path")]; has && st.norm(p) == path {
			ok = true
		}
		if anyTerm(src, func(t *Term) bool { return t == App("file", path) }) && src.is("reader") {
			ok = true
		}
	}
	x.rep.check(ok, x, st, pos, "lines come from the addressed snapshot file", props, "scanner source: %s", src)
	max := st.mem[fa(sc, 1, "max")]
	x.rep.check(max != nil && max.isInt() && max.c >= math.MaxInt32, x, st, pos, "line scanner has no length bound", []string{"C01", "C02", "C04", "C10"}, "max token size: %s", max)
	if s, has := st.mem[fa(sc, 4, "split")]; has {
		x.rep.check(strings.HasSuffix(s.val, "bufio.ScanLines"), x, st, pos, "scanner splits lines", props, "split function %s", s)
	}
}

// streams reports whether a scanner reads from an open file (and not from content read before)
func streams(st *State, sc *Term) bool {
	_, ok := st.mem[fa(st.mem[fa(sc, 0, "src")], 0, "path")]
	return ok
}

// noteScanner records the scanner in use
func noteScanner(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	if c.name != "bufio.NewScanner" {
		return nil, false
	}
	outs := models[c.name](x, st, c)
	for _, o := range outs {
		o.st.setg("scanner", o.vals[0])
	}
	return outs, true
}

// readWhole: a file is only rewritten when reading it is known not to have ended in an error, which
// Scan reports like the end of the file
func (d *Driver) readWhole(x *Exec, st *State, pos token.Pos) {
	if sc := st.g("scanner"); sc != nil && sc != Nil && streams(st, sc) {
		d.rep.check(st.holds(Eq(App("scanerr", sc), Nil)), x, st, pos, "a file that could not be read to its end is not rewritten", []string{"C03", "C04", "C07", "C10"}, "the scanner's Err is not known to be nil")
	}
}

// readsFile reports whether a call reads a file's content
func readsFile(c *CallInfo) bool {
	switch c.name {
	case "os.ReadFile", "io.ReadAll", "(*os.File).Read", "(*os.File).ReadAt", "io.ReadFull", "io.Copy":
		return true
	}
	return false
}

// ---------------------------------------------------------------- getPrevSnapshot

func (d *Driver) ruleGetPrev() {
	props := []string{"C01", "C02", "C03"}
	fn := d.begin("READ", snaps, "getPrevSnapshot", props...)
	if fn == nil {
		return
	}
	tid, path := Sym("tid"), Sym("path")
	st := newState()
	st = st.assume(isID(tid), true)[0]
	st = st.assume(Eq(tid, End), false)[0]
	st.setg(gMode, Str("out"))
	st.setg("acc", Empty)
	// the same as a list of lines
	st.setg("lines", Nil)
	mon := &Mon{name: "READ"}
	checked := map[*Term]bool{}
	mon.scan = func(x *Exec, st *State, sc, l *Term, pos token.Pos) []*State {
		if !checked[sc] {
			d.scanSource(x, st, sc, path, pos, []string{"C01", "C02", "C03", "C04", "C06"})
		}
		if streams(st, sc) {
			d.guard(x, st, "snapshot files", false, pos)
		}
		if l == nil {
			if st.g(gMode) != Str("found") {
				st.setg(gMode, Str("eof"))
			}
			return []*State{st}
		}
		return entryStep(st, l, tid, func(s *State, ev string) {
			switch ev {
			case "header":
				s.setg("acc", Empty)
				s.setg("lines", Nil)
			case "body":
				s.setg("acc", Concat(s.g("acc"), l, Str("\n")))
				s.setg("lines", seqcatT(s.g("lines"), mk("seq", "", 0, nil, l)))
			}
		})
	}
	mon.call = chainCall(idHook, lockHook, func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if readsFile(c) {
			d.guard(x, st, "snapshot files", false, c.pos)
		}
		return d.noWrites(x, st, c)
	})
	d.run(fn, mon, []*Term{tid, path}, st, func(x *Exec, o Out) {
		st := o.st
		unlocked(x, st)
		text, e := x.value(st, o.vals[0]), o.vals[2]
		mode := st.g(gMode).val
		switch mode {
		case "found":
			want := trimSuffixT(st.g("acc"), Str("\n"))
			d.rep.check(isErr(st, e) == 1, x, st, token.NoPos, "an entry that is present is returned", []string{"C01", "C02", "C03", "C04"}, "error: %s", e)
			d.rep.check(same(st, text, want) || same(st, text, joinT(st.g("lines"), Str("\n"))), x, st, token.NoPos, "returned text is the entry's body", []string{"C01", "C02", "C03", "C04", "C18"}, "returns %s, the body is %s", text, want)
		case "eof":
			d.rep.check(isErr(st, e) == -1, x, st, token.NoPos, "a missing entry is an error", nil, "error: %s", e)
			if e.is("scanerr") {
				break
			}
			d.rep.check(notFound(e), x, st, token.NoPos, "a missing entry is errSnapNotFound", nil, "error: %s", e)
		case "out":
			// nothing was scanned: the file could not be read
			d.rep.check(isErr(st, e) == -1, x, st, token.NoPos, "an unreadable file is an error", nil, "error: %s", e)
			d.rep.check(notFound(e) || st.g("open") == Nil, x, st, token.NoPos, "unreadable file", nil, "error: %s", e)
		default:
			d.rep.bad(x, st, token.NoPos, "stops reading before the end of the file", nil, "in state "+mode)
		}
	})
}

func notFound(e *Term) bool {
	return e.op == "global" && strings.HasSuffix(e.val, "errSnapNotFound") || e.is("errors.New") && e.args[0] == Str("snapshot not found")
}

// same decides equality under the path facts
func same(st *State, a, b *Term) bool {
	a, b = st.simp(a), st.simp(b)
	return a == b || st.holds(Eq(a, b))
}

// entryStep advances the file grammar by one line: out -> (header of tid: in) | (other header: foreign) | out
func entryStep(st *State, l, tid *Term, ev func(s *State, ev string)) []*State {
	var res []*State
	fork := func(s *State, t *Term, yes, no func(*State)) {
		for _, a := range s.clone().assume(t, true) {
			yes(a)
		}
		for _, b := range s.clone().assume(t, false) {
			no(b)
		}
	}
	put := func(mode, e string) func(*State) {
		return func(s *State) {
			s.setg(gMode, Str(mode))
			ev(s, e)
			res = append(res, s)
		}
	}
	switch st.g(gMode).val {
	case "out":
		fork(st, Eq(l, tid), put("in", "header"), func(s *State) {
			fork(s, isID(l), put("foreign", "foreign"), put("out", "gap"))
		})
	case "foreign":
		fork(st, Eq(l, End), put("out", "foreignend"), put("foreign", "foreignbody"))
	case "in":
		fork(st, Eq(l, End), put("found", "end"), put("in", "body"))
	default:
		put(st.g(gMode).val, "after")(st)
	}
	return res
}

// noWrites reports any file-system effect
func (d *Driver) noWrites(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	if e := fsEffect(x, st, c); e != "" {
		x.rep.bad(x, st, c.pos, "file system is modified: "+e, []string{"C01", "C02", "C05"}, "")
	}
	return nil, false
}

// fsEffect names the file-system modification a call makes, if any
func fsEffect(x *Exec, st *State, c *CallInfo) string {
	switch c.name {
	case "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.Truncate", "os.Create", "os.CreateTemp", "os.Chmod", "os.Chtimes", "os.Symlink", "os.Link",
		"(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).ReadFrom", "(*os.File).Truncate", "(*os.File).Chmod", "io.Copy", "os/exec.Command", "syscall.Unlink", "syscall.Write":
		return c.name
	case "os.OpenFile":
		if f := c.args[1]; !f.isInt() || f.c&^int64(0x2) != 0 { // O_RDONLY, O_WRONLY|O_RDWR do not modify by themselves
			return "os.OpenFile with creating or truncating flags"
		}
	case "write":
		return "write"
	}
	return ""
}

// ---------------------------------------------------------------- file typestate

func fattr(st *State, f *Term, name string) *Term {
	if v, ok := st.mem[fa(f, 9, name)]; ok {
		return v
	}
	return Nil
}

func setFattr(st *State, f *Term, name string, v *Term) { st.mem[fa(f, 9, name)] = v }

const (
	oAPPEND = 0x400
	oCREATE = 0x40
	oTRUNC  = 0x200
	oRDWR   = 2
	oWRONLY = 1
)

// fileHook is the typestate of files opened for writing: flags, truncation, offset and the text written.
// onEffect is told about every modification of the file system.
func (d *Driver) fileHook(onEffect func(x *Exec, st *State, c *CallInfo, what string, path, f *Term)) func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
	return func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		switch c.name {
		case "os.OpenFile", "os.Open", "os.Create":
			path := st.norm(x.value(st, c.args[0]))
			flags := Int(0)
			if c.name == "os.Create" {
				flags = Int(oRDWR | oCREATE | oTRUNC)
			} else if c.name == "os.OpenFile" {
				flags = c.args[1]
			}
			outs := models["os.OpenFile"](x, st, c)
			f := outs[0].vals[0]
			s := outs[0].st
			setFattr(s, f, "flags", flags)
			setFattr(s, f, "text", Empty)
			if !flags.isInt() {
				onEffect(x, s, c, "open with unknown flags", path, f)
				return outs, true
			}
			if flags.c&oTRUNC != 0 {
				setFattr(s, f, "trunc", True)
				setFattr(s, f, "pos0", True)
				onEffect(x, s, c, "truncate", path, f)
			}
			if flags.c&oCREATE != 0 {
				onEffect(x, s, c, "create", path, f)
			}
			return outs, true
		case "(*os.File).Truncate":
			f := c.args[0]
			onEffect(x, st, c, "truncate", fpath(st, f), f)
			if c.args[1] == Int(0) {
				setFattr(st, f, "trunc", True)
			} else {
				x.rep.bad(x, st, c.pos, "file is truncated to a length other than 0", []string{"C04", "C10"}, c.args[1].String())
			}
			return one(st, Nil), true // assumption: truncation of an open regular file succeeds
		case "(*os.File).Seek":
			f := c.args[0]
			v := Nil
			if c.args[1] == Int(0) && c.args[2] == Int(0) {
				v = True
			}
			setFattr(st, f, "pos0", v)
			return one(st, c.args[1], Nil), true
		case "(*os.File).Close", "(*os.File).Sync":
			return one(st, Nil), true
		case "write":
			f := c.args[0]
			onEffect(x, st, c, "write", fpath(st, f), f)
			bad := st.clone()
			e := x.errVal(bad, "write")
			setFattr(st, f, "text", Concat(fattr(st, f, "text"), st.norm(c.args[1])))
			setFattr(bad, f, "failed", True)
			ok := []*Term{lenT(c.args[1]), Nil}
			ko := []*Term{Int(0), e}
			if c.args[1] == Empty {
				return one(st, ok...), true
			}
			return []Out{{st: st, vals: ok}, {st: bad, vals: ko}}, true
		case "os.WriteFile":
			path := st.norm(x.value(st, c.args[0]))
			text := st.norm(x.value(st, c.args[1]))
			f := x.newObj(st, "file:"+x.p.line(c.pos), nil)
			st.mem[fa(f, 0, "path")] = path
			bad := st.clone()
			e := x.errVal(bad, "os.WriteFile")
			setFattr(st, f, "flags", Int(oWRONLY|oCREATE|oTRUNC))
			setFattr(st, f, "trunc", True)
			setFattr(st, f, "pos0", True)
			setFattr(st, f, "text", text)
			onEffect(x, st, c, "create", path, f)
			onEffect(x, st, c, "write", path, f)
			return []Out{{st: st, vals: []*Term{Nil}}, {st: bad, vals: []*Term{e}}}, true
		case "os.Remove", "os.RemoveAll", "os.Mkdir", "os.MkdirAll", "os.Chmod", "os.Truncate":
			onEffect(x, st, c, c.name, st.norm(x.value(st, c.args[0])), nil)
		case "os.Rename", "os.Link", "os.Symlink", "os.CreateTemp", "os.MkdirTemp", "os.Chtimes", "os/exec.Command", "io.Copy", "(*os.File).WriteAt", "(*os.File).ReadFrom", "syscall.Unlink":
			onEffect(x, st, c, c.name, nil, nil)
		}
		return nil, false
	}
}

func fpath(st *State, f *Term) *Term {
	if p, ok := st.mem[fa(f, 0, "path")]; ok {
		return st.norm(p)
	}
	return App("path?", f)
}

// written is the final content of the files this path wrote to at path: appended text or a whole new content
func written(st *State, path *Term) (text *Term, app, whole bool, n int) {
	for k, v := range st.mem {
		if k.op == "fa" && k.c == 0 && k.val == "path" && st.norm(v) == path {
			f := k.args[0]
			t := fattr(st, f, "text")
			if t == Nil || t == Empty && fattr(st, f, "trunc") != True {
				continue
			}
			n++
			text = t
			fl := fattr(st, f, "flags")
			app = fl.isInt() && fl.c&oAPPEND != 0 && fl.c&3 != 0 && fattr(st, f, "trunc") == Nil
			whole = fattr(st, f, "trunc") == True && fattr(st, f, "pos0") == True && fl.isInt() && fl.c&3 != 0
		}
	}
	return
}

// ---------------------------------------------------------------- addNewSnapshot

func entryText(tid, body *Term) *Term {
	return Concat(Str("\n"), tid, Str("\n"), body, Str("\n---\n"))
}

func (d *Driver) ruleAppend() {
	fn := d.begin("APPEND", snaps, "addNewSnapshot", "C01", "C03", "C10")
	if fn == nil {
		return
	}
	tid, body, path := Sym("tid"), Sym("snapshot"), Sym("path")
	mon := &Mon{name: "APPEND"}
	mon.call = chainCall(idHook, lockHook, d.fileHook(func(x *Exec, st *State, c *CallInfo, what string, p, f *Term) {
		switch what {
		case "os.MkdirAll":
			d.rep.check(p == App("filepath.Dir", path), x, st, c.pos, "the directory created is the snapshot's", nil, "%s", p)
		case "create", "write":
			d.rep.check(p == path, x, st, c.pos, "the file written is the addressed one", nil, "%s", p)
			d.guard(x, st, "snapshot files", true, c.pos)
		default:
			d.rep.bad(x, st, c.pos, "modifies the file system: "+what, nil, "")
		}
	}))
	d.run(fn, mon, []*Term{tid, body, path}, newState(), func(x *Exec, o Out) {
		st := o.st
		unlocked(x, st)
		text, app, _, n := written(st, path)
		switch isErr(st, o.vals[0]) {
		case 1:
			d.rep.check(n == 1 && app, x, st, token.NoPos, "success means one append to the file", []string{"C01", "C03", "C20"}, "files written %d, append mode %v", n, app)
			if n == 1 {
				d.rep.check(same(st, text, entryText(tid, body)), x, st, token.NoPos, "appended bytes frame exactly the entry", []string{"C01", "C03", "C06", "C10"}, "writes %s", text)
			}
		case -1:
			d.rep.ok("failure is reported")
		default:
			d.rep.bad(x, st, token.NoPos, "success or failure is not reported", nil, o.vals[0].String())
		}
	})
}

// ---------------------------------------------------------------- updateSnapshot

func (d *Driver) ruleUpdate() {
	fn := d.begin("UPDATE", snaps, "updateSnapshot", "C03", "C04")
	if fn == nil {
		return
	}
	tid, body, path := Sym("tid"), Sym("snapshot"), Sym("path")
	st := newState()
	st = st.assume(isID(tid), true)[0]
	st = st.assume(Eq(tid, End), false)[0]
	st.setg(gMode, Str("out"))
	st.setg("exp", Empty)
	st.setg("eof", False)
	mon := &Mon{name: "UPDATE"}
	checked := map[*Term]bool{}
	mon.scan = func(x *Exec, st *State, sc, l *Term, pos token.Pos) []*State {
		if !checked[sc] {
			d.scanSource(x, st, sc, path, pos, []string{"C03", "C04", "C06"})
		}
		if streams(st, sc) {
			sawShared(st, "rd:file")
			d.guard(x, st, "snapshot files", true, pos)
		}
		if l == nil {
			st.setg("eof", True)
			return []*State{st}
		}
		if st.g(gMode).val == "found" {
			st.setg(gMode, Str("out"))
		}
		return entryStep(st, l, tid, func(s *State, ev string) {
			add := func(ts ...*Term) { s.setg("exp", Concat(append([]*Term{s.g("exp")}, ts...)...)) }
			switch ev {
			case "header":
				add(l, Str("\n"), body, Str("\n---\n"))
			case "body":
			case "end":
				s.setg(gMode, Str("out"))
			default:
				add(l, Str("\n"))
			}
		})
	}
	sees := func(x *Exec, st *State, c *CallInfo) ([]Out, bool) {
		if readsFile(c) {
			sawShared(st, "rd:file")
			d.guard(x, st, "snapshot files", true, c.pos)
		}
		return nil, false
	}
	mon.call = chainCall(noteScanner, sees, idHook, lockHook, d.fileHook(func(x *Exec, st *State, c *CallInfo, what string, p, f *Term) {
		switch what {
		case "truncate", "write", "create":
			d.rep.check(p == path, x, st, c.pos, "the file rewritten is the addressed one", nil, "%s", p)
			d.rep.check(st.g("eof") == True, x, st, c.pos, "the file is read completely before it is rewritten", nil, "")
			d.readWhole(x, st, c.pos)
			d.guard(x, st, "snapshot files", true, c.pos)
			d.rep.check(lockHeld(st, true) != "" && atomicSince(st, "rd:file"), x, st, c.pos, "the file is read and rewritten under one exclusive lock", []string{"C06", "C03"}, "")
		default:
			d.rep.bad(x, st, c.pos, "modifies the file system: "+what, nil, "")
		}
	}))
	d.run(fn, mon, []*Term{tid, body, path}, st, func(x *Exec, o Out) {
		st := o.st
		unlocked(x, st)
		text, _, whole, n := written(st, path)
		failed := anyErrAtom(st, "scanerr")
		if failed {
			d.rep.check(n == 0, x, st, token.NoPos, "nothing is written when the file could not be read", nil, "")
		}
		switch isErr(st, o.vals[0]) {
		case 1:
			d.rep.check(n == 1 && whole, x, st, token.NoPos, "the file is truncated, rewound and rewritten", []string{"C04", "C20"}, "files written %d, whole %v", n, whole)
			d.rep.check(!failed, x, st, token.NoPos, "a read error is not ignored", nil, "")
			if n == 1 {
				d.rep.check(same(st, text, st.g("exp")), x, st, token.NoPos, "rewritten bytes change the addressed entry only", []string{"C03", "C04", "C06", "C01"}, "writes   %s\n    expected %s", text, st.g("exp"))
			}
		case -1:
			d.rep.ok("failure is reported")
		default:
			d.rep.bad(x, st, token.NoPos, "success or failure is not reported", nil, o.vals[0].String())
		}
	})
}

// anyErrAtom: does the path know that the named error is non-nil?
func anyErrAtom(st *State, name string) bool {
	for f, v := range st.facts {
		if f.op == "eq" && !v && (f.args[0].is(name) && f.args[1] == Nil || f.args[1].is(name) && f.args[0] == Nil) {
			return true
		}
	}
	return false
}

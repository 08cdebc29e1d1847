package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// allRules runs every rule over the loaded program.
func allRules(d *Driver) {
	for _, r := range ruleTable {
		d.current = r.id
		d.protected(r)
	}
}

// protected runs a rule; code that it cannot follow is undecided, which is an alarm
func (d *Driver) protected(r ruleDef) {
	defer func() {
		if g := recover(); g != nil {
			if os.Getenv("AZ_PANIC") != "" {
				panic(g)
			}
			msg := fmt.Sprint("internal: ", g)
			if u, ok := g.(giveUp); ok {
				msg = u.msg
			}
			d.rep.bad(nil, nil, token.NoPos, "undecided: "+msg, nil, "the analysis cannot follow this code")
		}
	}()
	r.run(d)
}

type ruleDef struct {
	id    string
	about string
	run   func(d *Driver)
}

var ruleTable = []ruleDef{
	{"CALLER", "inductive monitor over the stack walk of baseCaller", (*Driver).ruleBaseCaller},
	{"INIT", "the mode of the process", (*Driver).ruleInit},
	{"TRIM", "how a trimmed build is recognised", (*Driver).ruleTrim},
	{"LOC", "symbolic value of the paths snapshotPath computes", (*Driver).ruleLocation},
	{"CONFIG", "effects of WithConfig on the Config it hands out", (*Driver).ruleWithConfig},
	{"OPTIONS", "effects of every option on its Config", (*Driver).ruleOptions},
	{"ENTRY", "typestate of every Match* call: gates, canonical text, one outcome, one ordinal", (*Driver).ruleEntries},
	{"READ", "grammar monitor over getPrevSnapshot", (*Driver).ruleGetPrev},
	{"APPEND", "grammar and lock monitor over addNewSnapshot", (*Driver).ruleAppend},
	{"UPDATE", "grammar and lock monitor over updateSnapshot", (*Driver).ruleUpdate},
	{"EXSNAPS", "grammar monitor over examineSnaps: stale decision, rewrite gate, rewritten text", (*Driver).ruleExamineSnaps},
	{"EXFILES", "directory walk monitor over examineFiles: used, obsolete and removed files", (*Driver).ruleExamineFiles},
	{"REGISTRY", "symbolic effect of getTestID and reset on the ordinal registries", (*Driver).ruleRegistry},
	{"OCC", "completeness and exactness of the set of live ids", (*Driver).ruleOccurrences},
	{"ID", "getTestID recognises the header of every slot and no blank line or terminator", (*Driver).ruleID},
	{"TESTSKIP", "decision monitor over testSkipped", (*Driver).ruleTestSkipped},
	{"MATCHRUN", "level-by-level monitor of the -run filter", (*Driver).ruleMatchesRun},
	{"SPLITRUN", "bracket-depth simulation of the cutting of the -run flag", (*Driver).ruleSplitRun},
	{"FILESKIP", "decision monitor over isFileSkipped", (*Driver).ruleFileSkipped},
	{"HASSKIP", "decision monitor over hasSkippedTests", (*Driver).ruleHasSkipped},
	{"SKIP", "typestate of the Skip wrappers", (*Driver).ruleSkipWrappers},
	{"SUMMARY", "contents of the summary", (*Driver).ruleSummary},
	{"SORTCMP", "sign of the comparison used for sorting", (*Driver).ruleSortCmp},
	{"DIFF", "the report built from the edit script", (*Driver).ruleDiff},
	{"INLINE", "the inline report of two single lines", (*Driver).ruleInline},
	{"SPLIT", "how a text is cut into lines", (*Driver).ruleSplit},
	{"MATCHER", "what every matcher does to the document, path by path", (*Driver).ruleMatchers},
	{"YAMLGET", "how a path is looked up in a YAML stream", (*Driver).ruleYAMLGet},
	{"YAMLUPDATE", "how a value is replaced in a YAML stream", (*Driver).ruleYAMLUpdate},
	{"YAMLVALUE", "how the value of a YAML node is read", (*Driver).ruleYAMLValue},
	{"YAMLTEXT", "how a YAML stream is written", (*Driver).ruleYAMLText},
	{"OPCODES", "tiling and tags of the edit script made from matching blocks", (*Driver).ruleOpcodes},
	{"INDEX", "the index of lines names lines equal to its keys", (*Driver).ruleIndex},
	{"LONGEST", "matches lie inside their box and join equal lines", (*Driver).ruleLongest},
	{"BLOCKS", "one step of the search for matching blocks; joining adjacent ones", (*Driver).ruleBlocks},
	{"GROUPS", "hunks: every changed range once, in order, unchanged", (*Driver).ruleGroups},
	{"RACE", "locks held at every access to package state", (*Driver).ruleRace},
	{"PANIC", "no function swallows a panic", (*Driver).rulePanic},
	{"CLEAN", "wiring of Clean: registries, mode table, -run flag, summary", (*Driver).ruleClean},
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit"`
}

func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err == nil {
			ks = append(ks, k)
		} else {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
	}
	return ks
}

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "", "root of the verification tree (for evidence); empty: print everything")
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "")
	only := flag.String("rule", "", "comma separated rules to run (debugging)")
	flag.BoolVar(&DebugLoops, "loops", false, "")
	flag.Parse()
	t0 := time.Now()
	p, err := Load(*repo)
	if err != nil {
		fmt.Println("cannot load", *repo+":", err)
		os.Exit(2)
	}
	rep := newReporter(p)
	p.initGlobals(rep)
	d := newDriver(p, rep)
	d.thorough = *tier == "thorough"
	if *only != "" {
		var t []ruleDef
		for _, r := range ruleTable {
			if has(strings.Split(*only, ","), r.id) {
				t = append(t, r)
			}
		}
		ruleTable = t
	}
	allRules(d)
	if *prop == "" {
		for _, v := range rep.sorted() {
			fmt.Println(v)
		}
		var ls []string
		for r, m := range rep.obl {
			for w, n := range m {
				ls = append(ls, fmt.Sprintln("ok", r, w, n, rep.oblP[r+"|"+w]))
			}
		}
		sort.Strings(ls)
		fmt.Print(strings.Join(ls, ""))
		fmt.Println("steps", d.steps, rep.notes)
		if len(rep.viol) > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(decide(d, *prop, *tier, *verif, t0))
}

func decide(d *Driver, prop, tier, verif string, t0 time.Time) int {
	rep := d.rep
	ks := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	var bad []*Violation
	exit := 0
	quietKeys := map[string]bool{}
	for _, k := range ks {
		if k.Property == prop && k.Status == "known" {
			quietKeys[k.Key] = true
		}
	}
	for _, v := range rep.sorted() {
		if has(v.Props, prop) && !quietKeys[v.key()] {
			bad = append(bad, v)
		}
	}
	type obl struct {
		Rule  string `json:"rule"`
		What  string `json:"obligation"`
		Count int    `json:"instances_discharged"`
	}
	var obls []obl
	total := 0
	rules := map[string]bool{}
	for r, m := range rep.obl {
		for w, n := range m {
			if has(rep.oblP[r+"|"+w], prop) {
				obls = append(obls, obl{r, w, n})
				total += n
				rules[r] = true
			}
		}
	}
	sort.Slice(obls, func(i, j int) bool {
		if obls[i].Rule != obls[j].Rule {
			return obls[i].Rule < obls[j].Rule
		}
		return obls[i].What < obls[j].What
	})
	fns := map[string][]string{}
	nf := map[string]bool{}
	for r := range rules {
		fns[r] = keys(d.rulefns[r])
		for _, f := range fns[r] {
			nf[f] = true
		}
	}
	if total == 0 && len(bad) == 0 {
		fmt.Println("no obligation of", prop, "was examined")
		exit = 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viols := []map[string]any{}
	for _, v := range bad {
		viols = append(viols, map[string]any{"rule": v.Rule, "where": v.Where, "function": v.Fn, "what": v.What, "call_path": v.Chain, "detail": v.Log, "facts": v.Facts, "key": v.key()})
	}
	about := map[string]string{}
	for _, r := range ruleTable {
		about[r.id] = r.about
	}
	ra := map[string]string{}
	for r := range rules {
		ra[r] = about[r]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"explanation":             "Static analysis of /repo's current source (go/ssa form, all paths, no execution). obligations lists every rule instance that was decided; functions lists what each rule walked through.",
			"obligation_kinds":        len(obls),
			"obligation_instances":    total,
			"functions_analysed":      len(nf),
			"abstract_steps_all":      d.steps,
			"call_sites_all":          d.calls,
			"loop_fixpoints_all":      d.loops,
			"rules":                   ra,
			"obligations":             obls,
			"functions":               fns,
			"violations_found":        len(bad),
			"known_findings_listed":   len(quietKeys),
			"analysis_notes":          rep.notes,
			"configurations_analysed": d.configs,
		},
		"assumptions": assumptions(prop),
		"violations":  viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, k := range ks {
		if k.Property == prop && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	replay := filepath.Join("evidence", prop+".violations.txt")
	if len(bad) > 0 {
		var sb strings.Builder
		for _, v := range bad {
			fmt.Fprintln(&sb, v)
		}
		os.WriteFile(filepath.Join(verif, replay), []byte(sb.String()), 0o644)
		s := sb.String()
		if len(s) > 20000 {
			s = s[:20000] + "…\n"
		}
		fmt.Print(s)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	os.Remove(filepath.Join(verif, replay))
	fmt.Printf("%s: %d obligations of %d kinds discharged over %d functions in %.1fs\n", prop, total, len(obls), len(nf), time.Since(t0).Seconds())
	return exit
}

func assumptions(prop string) []string {
	return []string{
		"the standard library and third-party modules behave as their documentation says (models.go)",
		"no other process changes the snapshot files during a call; Truncate, Seek and Close of an open file succeed",
		"the go/ssa form built from the source is faithful to the compiled program",
	}
}

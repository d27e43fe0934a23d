package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to one construct of the analysed source.
type Ob struct {
	Key   string
	Rule  string
	OK    bool
	Count int
	Where string
	Msg   string
	Stack string
}

// Ctx is one run of one check.
type Ctx struct {
	id, tier string
	P        *Program
	obs      map[string]*Ob
	order    []string
	counts   map[string]int
	assume   []string
	notes    []string
	engines  []*Engine
	srcCache map[string][]string
	tasks    []string
	taskFns  []func()
	taskName string      // set in the process of a task
	final    func()      // run by the parent once every task has been merged
	assigned [][2]string // assignments found before the tasks ran (key, position)
}

type Check struct {
	run   func(c *Ctx)
	level string
	rule  string // one-paragraph description for the evidence
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx)) {
	checks[id] = &Check{run: run, rule: rule, level: "other"}
}

// ob records an instance of obligation key; all instances must hold.
func (c *Ctx) ob(rule, key string, ok bool, where, msg string) {
	for _, e := range c.engines {
		if e.mute {
			return
		}
	}
	k := rule + "|" + key
	o := c.obs[k]
	if o == nil {
		o = &Ob{Key: k, Rule: rule, OK: true}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.Count++
	if !ok && o.OK {
		o.OK = false
		o.Where, o.Msg = where, msg
	} else if o.Where == "" {
		o.Where = where
	}
}

func (c *Ctx) count(name string, n int) { c.counts[name] += n }

// floor fails the check when fewer instances were found than were confirmed by hand: a rule that matches nothing proves nothing.
func (c *Ctx) floor(name string, n, min int) {
	c.counts[name] = n
	c.ob("vacuity", name, n >= min, "", fmt.Sprintf("%s: found %d instances, expected at least %d: the rule no longer sees the code it was written for", name, n, min))
}

func (c *Ctx) assumption(s string) {
	for _, a := range c.assume {
		if a == s {
			return
		}
	}
	c.assume = append(c.assume, s)
}

// need resolves an anchor function, failing the check when it is gone.
func (c *Ctx) need(f *ssa.Function, name string) *ssa.Function {
	if f == nil {
		c.ob("anchor", name, false, "", "function "+name+" not found: the property cannot be decided on this tree")
	} else {
		c.ob("anchor", name, true, "", "")
	}
	return f
}

func (c *Ctx) fn(name string) *ssa.Function  { return c.need(c.P.fn(c.P.Root, name), "winres."+name) }
func (c *Ctx) vfn(name string) *ssa.Function { return c.need(c.P.fn(c.P.Ver, name), "version."+name) }
func (c *Ctx) meth(typ, name string) *ssa.Function {
	return c.need(c.P.method(c.P.Root, typ, name), "winres."+typ+"."+name)
}
func (c *Ctx) vmeth(typ, name string) *ssa.Function {
	return c.need(c.P.method(c.P.Ver, typ, name), "version."+typ+"."+name)
}

// srcText returns the trimmed source line of an instruction (used in keys of findings and in reports).
func (c *Ctx) srcText(in ssa.Instruction) string {
	p := c.P.pos(in)
	parts := strings.Split(p, ":")
	if len(parts) < 3 {
		return p
	}
	ls, ok := c.srcCache[parts[0]]
	if !ok {
		b, _ := os.ReadFile(filepath.Join(c.P.Dir, parts[0]))
		ls = strings.Split(string(b), "\n")
		c.srcCache[parts[0]] = ls
	}
	n, _ := strconv.Atoi(parts[1])
	if n >= 1 && n <= len(ls) {
		s := strings.TrimSpace(ls[n-1])
		if i := strings.Index(s, "//"); i > 0 {
			s = strings.TrimSpace(s[:i])
		}
		return s
	}
	return p
}

func (c *Ctx) site(fr *Frame, in ssa.Instruction) string {
	fn := "?"
	if in != nil && in.Parent() != nil {
		fn = shortFn(in.Parent())
	} else if fr != nil {
		fn = shortFn(fr.fn)
	}
	return fn + "|" + c.srcText(in)
}

func (c *Ctx) engine() *Engine {
	e := NewEngine(c.P)
	c.engines = append(c.engines, e)
	return e
}

// finish adds the engine's own problems: whatever it could not follow is undecided, hence not discharged.
func (c *Ctx) finish(e *Engine) {
	var ks []string
	for k := range e.problems {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.ob("undecided", k, false, "", "the analysis cannot follow: "+k)
	}
	c.count("functions analysed", len(e.funcs))
	c.count("basic blocks analysed", len(e.blocks))
	c.count("abstract instruction steps", e.steps)
	for k := range e.unmodelled {
		c.note("external treated as arbitrary (may fail, may overwrite what it receives): " + k)
	}
}

func (c *Ctx) note(s string) {
	for _, n := range c.notes {
		if n == s {
			return
		}
	}
	c.notes = append(c.notes, s)
}

// newEntry makes a state and symbolic arguments for an entry point.
// io parameters become named external endpoints; pointers and interfaces are non-nil (the documented contract).
func (c *Ctx) newEntry(e *Engine, f *ssa.Function) (*State, []Val) {
	st := newState()
	if e.initGlobals {
		st = e.globalsState()
	}
	for k, v := range e.init {
		e.gset(st, k, v)
	}
	var args []Val
	for _, p := range f.Params {
		name := "arg:" + p.Name()
		t := p.Type()
		var v Val
		if n := ioKind(t); n != "" {
			v = IfaceSym{Name: n, T: t}
		} else {
			v = symVal(name, t)
		}
		switch v.(type) {
		case PtrV, IfaceSym, FuncSym:
			if at := nilAtom(v); at != "" {
				st.setBool(at, false)
			}
		}
		args = append(args, v)
	}
	return st, args
}

// ioKind names the external endpoint for an io parameter: "src" for readers, "dst" for writers.
func ioKind(t types.Type) string {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return ""
	}
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Write":
			return "dst"
		case "Read":
			return "src"
		}
	}
	return ""
}

func (e *Engine) run(st *State, f *ssa.Function, args []Val) []Outcome {
	var out []Outcome
	for _, o := range e.callFn(nil, st, nil, f, args, nil) {
		if !o.st.dead {
			out = append(out, o)
		}
	}
	return out
}

// ---- known findings ----

type finding struct {
	prop, key, text string
}

func loadFindings(path string) []finding {
	var fs []finding
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=[[")
		j := strings.Index(l, "]] ")
		if i < 0 || j < i {
			continue
		}
		fs = append(fs, finding{l[:i], l[i+7 : j], l[j+3:]})
	}
	return fs
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: wrcheck <property> [-repo dir] [-v]")
		os.Exit(2)
	}
	id := os.Args[1]
	if f := os.Getenv("WR_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(7 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
		}()
	}
	repo, verif, verbose := "/repo", "/verif", false
	for i := 2; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-repo":
			i++
			repo = os.Args[i]
		case "-verif":
			i++
			verif = os.Args[i]
		case "-v":
			verbose = true
		}
	}
	if id == "all" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		bad := 0
		for _, k := range ids {
			bad += runCheck(k, repo, verif, verbose)
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(runCheck(id, repo, verif, verbose))
}

func resetGlobals() {
	objList, objTab = nil, map[string]*Obj{}
	fillTab, tokMemo = map[string]*fillInfo{}, map[string][]string{}
	iterObjs, iterLen = map[iterKey]*Obj{}, map[int]*Obj{}
	pathTab = map[string][]PathElem{"": nil}
	nilLen, streqTab, condDefs = map[string]Lin{}, map[string]streq{}, map[string]func(s *State, val bool){}
	resetAtoms()
	escapedOf = map[string]StrV{}
	sprintfTab, decOf = map[string]sprintfV{}, map[string]Val{}
	mapKeys, mapKeyVals = map[string]int{}, map[string]Val{}
	allocTab, curNonce = map[string]*Obj{}, ""
}

func runCheck(id, repo, verif string, verbose bool) int {
	start := time.Now()
	resetGlobals()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{id: id, tier: tier, obs: map[string]*Ob{}, counts: map[string]int{}, srcCache: map[string][]string{}}
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.ob("internal", "panic", false, "", fmt.Sprintf("the analysis itself failed: %v\n%s", r, debug.Stack()))
			}
		}()
		p, err := loadProgram(repo)
		if err != nil {
			c.ob("load", "program", false, "", err.Error())
			return
		}
		c.P = p
		c.taskName = os.Getenv("WR_TASK")
		ck.run(c)
		if c.taskName == "" {
			c.runTasks(repo, verif)
			if c.final != nil {
				c.final()
			}
		}
	}()
	if os.Getenv("WR_TASK") != "" {
		js, _ := json.Marshal(c.result())
		os.Stdout.Write(js)
		return 0
	}
	fs := loadFindings(filepath.Join(verif, "known_findings.txt"))
	var bad []*Ob
	known := 0
	ok := 0
	for _, k := range c.order {
		o := c.obs[k]
		if o.OK {
			ok++
			continue
		}
		listed := false
		for _, f := range fs {
			if f.prop == id && f.key == o.Key {
				listed = true
				known++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
			}
		}
		if !listed {
			bad = append(bad, o)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	rep := filepath.Join(verif, "evidence", id+".report.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s on %s\nrule: %s\n\n", id, repo, ck.rule)
	for _, o := range bad {
		fmt.Fprintf(&b, "VIOLATED %s\n  at %s\n  %s\n", o.Key, o.Where, o.Msg)
		if o.Stack != "" {
			fmt.Fprintf(&b, "  path: %s\n", o.Stack)
		}
	}
	fmt.Fprintf(&b, "\nobligations:\n")
	for _, k := range c.order {
		o := c.obs[k]
		s := "ok  "
		if !o.OK {
			s = "FAIL"
		}
		fmt.Fprintf(&b, "%s x%-4d %s  (%s)\n", s, o.Count, o.Key, o.Where)
	}
	os.WriteFile(rep, []byte(b.String()), 0o644)

	byRule := map[string]int{}
	var sites []string
	for _, k := range c.order {
		byRule[c.obs[k].Rule]++
		if len(sites) < 400 {
			sites = append(sites, c.obs[k].Key+" @ "+c.obs[k].Where)
		}
	}
	expl := ck.rule
	cov := map[string]interface{}{
		"explanation":         expl,
		"obligations":         len(c.order),
		"discharged":          ok,
		"known_findings":      known,
		"obligations_by_rule": byRule,
		"counts":              c.counts,
		"obligation_sites":    sites,
		"notes":               c.notes,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": ck.level,
		"coverage": cov, "assumptions": append([]string{}, c.assume...),
		"wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), js, 0o644)

	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated, %.1fs", id, len(c.order), ok, known, len(bad), time.Since(start).Seconds())
	var cs []string
	for k, v := range c.counts {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf(" (%s)\n", strings.Join(cs, ", "))
	if len(c.order) == 0 {
		bad = append(bad, &Ob{Key: "vacuity|nothing", Msg: "no obligation was generated"})
	}
	if len(bad) > 0 {
		for i, o := range bad {
			if i >= 12 && !verbose {
				fmt.Printf("  ... %d more\n", len(bad)-i)
				break
			}
			fmt.Printf("  %s [%s] %s\n", o.Where, o.Key, o.Msg)
			if o.Stack != "" && verbose {
				fmt.Printf("      path: %s\n", o.Stack)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return 1
	}
	return 0
}

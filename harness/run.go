package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one registered property check.
type Prop struct {
	ID, Title       string
	Quick, Thorough int // number of cases
	Rule            string
	Race            bool // needs the -race binary
	Serial          int  // >0: number of parallel workers to use
	Case            func(c *Ctx)
	After           func(e *Env) // optional aggregate check
	Assume          []string
}

type Finding struct {
	Key  string // class key (known-findings identify by it)
	Text string
	Dir  string
	Idx  int
}

type Env struct {
	p        *Prop
	tier     string
	seed     int64
	bin      string
	raceBin  string
	covBin   string
	covDir   string
	scratch  string
	tmpRoot  string
	mu       sync.Mutex
	counts   map[string]int64
	sets     map[string]map[string]bool
	viol     []Finding
	samples  []any
	nontriv  map[string]bool
	evals    int64
	inconcl  int64
	known    []Known
	knownHit map[string]string
	replay   bool
	verbose  bool
	oneCase  bool
}

type Known struct{ Prop, Key, Text string }

// Ctx is the context of one case.
type Ctx struct {
	*Env
	Idx      int
	R        *rand.Rand
	dir      string
	runs     int
	lastIn   []string
	lastArgs []string
	log      []string
	nv       int
}

type Res struct {
	Args     []string
	Exit     int
	Stdout   string
	Stderr   string
	OutPath  string
	Raw      Raw
	F        *Feed
	Prob     []string
	LoadErr  error
	TimedOut bool
	Race     bool
}

func (e *Env) Count(k string, n int) {
	e.mu.Lock()
	e.counts[k] += int64(n)
	e.mu.Unlock()
}

// Seen records a distinct observed value under a named class.
func (e *Env) Seen(k, v string) {
	e.mu.Lock()
	m := e.sets[k]
	if m == nil {
		m = map[string]bool{}
		e.sets[k] = m
	}
	if len(m) < 200000 {
		m[v] = true
	}
	e.mu.Unlock()
}

// Nontrivial marks the case as one where the property had something to decide.
func (c *Ctx) Nontrivial(key string) {
	c.mu.Lock()
	c.nontriv[key] = true
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Viol(key, f string, a ...any) {
	t := fmt.Sprintf(f, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Prop == c.p.ID && k.Key == key {
			c.knownHit[key] = k.Text
			return
		}
	}
	c.nv++
	if c.nv > 5 {
		return
	}
	d := c.saveReplay(key, t)
	c.viol = append(c.viol, Finding{Key: key, Text: t, Dir: d, Idx: c.Idx})
}

func (c *Ctx) saveReplay(key, text string) string {
	root := filepath.Join(verifDir(), "replays", c.p.ID)
	d := filepath.Join(root, fmt.Sprintf("s%d-case%d", c.seed, c.Idx))
	os.MkdirAll(d, 0o755)
	for i, in := range c.lastIn {
		exec.Command("cp", "-a", in, filepath.Join(d, fmt.Sprintf("in%d%s", i, filepath.Ext(in)))).Run()
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s  seed %d  case %d\nkind: %s\n%s\n\nruns of this case:\n", c.p.ID, c.seed, c.Idx, key, text)
	for _, l := range c.log {
		b.WriteString(l + "\n")
	}
	fmt.Fprintf(&b, "\nThe inputs of the last run are in0, in1, ...; re-run the case with\n  VERIF_SEED=%d %s/check.sh %s %s --case %d --tries 40\n", c.seed, verifDir(), c.p.ID, c.tier, c.Idx)
	old, _ := os.ReadFile(filepath.Join(d, "explain.txt"))
	os.WriteFile(filepath.Join(d, "explain.txt"), append(old, b.String()...), 0o644)
	return d
}

func verifDir() string {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		return v
	}
	return "/verif"
}

func (c *Ctx) tmp(name string) string { return filepath.Join(c.dir, name) }

// Put writes a feed to the case's scratch directory (dir, or zip archive if the name ends in .zip).
func (c *Ctx) Put(name string, raw Raw) string {
	p := c.tmp(name)
	var err error
	if strings.HasSuffix(name, ".zip") {
		err = raw.WriteZip(p)
	} else {
		os.RemoveAll(p)
		err = raw.WriteDir(p)
	}
	if err != nil {
		fatal("scratch write: %v", err)
	}
	return p
}

var panicRe = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ \[|SIGSEGV|unexpected fault)`)

// Exec runs the tool.
func (c *Ctx) Exec(bin string, args []string, ins []string, out string, gmp int) *Res {
	r := &Res{OutPath: out}
	full := append([]string(nil), args...)
	if out != "" {
		full = append(full, "-o", out)
	}
	full = append(full, ins...)
	r.Args = full
	c.lastIn, c.lastArgs = ins, full
	timeout := 60 * time.Second
	if v, err := strconv.Atoi(os.Getenv("VERIF_WATCHDOG")); err == nil { // for experiments only
		timeout = time.Duration(v) * time.Second
	}
	if bin == c.raceBin && bin != "" {
		timeout = 180 * time.Second
	}
	env := append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(gmp), "GORACE=halt_on_error=0 exitcode=66")
	cov := false
	if bin == c.bin && c.covBin != "" && c.Idx%10 == 0 {
		bin = c.covBin
		env = append(env, "GOCOVERDIR="+c.covDir)
		cov = true
	}
	_ = cov
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, full...)
	cmd.Dir = c.dir
	cmd.Env = env
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	c.runs++
	c.Count("tool_runs", 1)
	r.Stdout, r.Stderr = so.String(), se.String()
	if ctx.Err() != nil {
		r.TimedOut = true
		c.mu.Lock()
		c.inconcl++
		c.mu.Unlock()
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.Exit = ee.ExitCode()
		} else {
			r.Exit = -99
		}
	}
	r.Race = strings.Contains(r.Stderr, "WARNING: DATA RACE")
	c.log = append(c.log, fmt.Sprintf("  GOMAXPROCS=%d gtfstidy %s   -> exit %d", gmp, strings.Join(quoteAll(full), " "), r.Exit))
	return r
}

func quoteAll(a []string) []string {
	o := []string{}
	for _, s := range a {
		if strings.ContainsAny(s, " #'\"{}$") || s == "" {
			s = "'" + s + "'"
		}
		o = append(o, s)
	}
	return o
}

// Tidy runs the tool on the inputs and loads the output. A crash is reported
// as a violation of the running property, as no output exists to satisfy it.
func (c *Ctx) Tidy(args []string, ins ...string) *Res {
	out := c.tmp(fmt.Sprintf("out%d", c.runs))
	gmp := []int{1, 2, 3, 4, 8}[c.R.Intn(5)]
	r := c.Exec(c.bin, args, ins, out, gmp)
	c.LoadOut(r)
	return r
}

func (c *Ctx) LoadOut(r *Res) {
	if r.Exit != 0 {
		return
	}
	raw, err := LoadRaw(r.OutPath)
	if err != nil {
		r.LoadErr = err
		return
	}
	r.Raw = raw
	r.F, r.Prob = ParseRaw(raw)
}

// OK checks that the run finished normally; otherwise reports.
func (c *Ctx) OK(r *Res) bool {
	if r.TimedOut {
		c.Count("watchdog_timeouts", 1)
		c.mu.Lock()
		n := c.counts["watchdog_timeouts"]
		c.mu.Unlock()
		if n >= 3 { // three feeds of a few rows, 60 s each: not a slow machine
			c.Viol("hang", "the tool did not finish within the watchdog's limit (%s)", strings.Join(r.Args, " "))
		}
		return false
	}
	if panicRe.MatchString(r.Stderr) || r.Exit == 2 && strings.Contains(r.Stderr, "goroutine ") {
		c.Viol("crash:"+crashSite(r.Stderr), "the tool crashed on a valid feed (%s): %s", strings.Join(r.Args, " "), head(r.Stderr, 1500))
		return false
	}
	if strings.HasPrefix(r.Stderr, "Error:") || strings.Contains(r.Stderr, "\nError:") {
		c.Viol("error:"+head(r.Stderr, 60), "the tool failed on a valid feed (%s): %s", strings.Join(r.Args, " "), head(r.Stderr, 800))
		return false
	}
	if r.Exit != 0 {
		c.Viol("exit", "exit status %d on a valid feed (%s): %s", r.Exit, strings.Join(r.Args, " "), head(r.Stderr, 800))
		return false
	}
	if r.LoadErr != nil {
		c.Viol("unreadable", "output cannot be read: %v", r.LoadErr)
		return false
	}
	return true
}

// Valid is OK plus: the output has no structural problem.
func (c *Ctx) Valid(r *Res) bool {
	if !c.OK(r) {
		return false
	}
	if len(r.Prob) > 0 {
		c.Viol("invalid:"+probClass(r.Prob[0]), "output of %s is not a valid feed: %s", strings.Join(r.Args, " "), strings.Join(r.Prob[:min(len(r.Prob), 6)], "; "))
		return false
	}
	return true
}

var quoted = regexp.MustCompile(`"[^"]*"|\d+`)

func probClass(p string) string { return quoted.ReplaceAllString(p, "_") }

func crashSite(s string) string {
	m := regexp.MustCompile(`processors/([a-z]+\.go):\d+|gtfstidy\.go:\d+`).FindString(s)
	return m
}

func head(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

var repoDir = func() string {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		return v
	}
	return "/repo"
}()

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod")
}

func build(out string, extra ...string) {
	args := append([]string{"build", "-buildvcs=false"}, extra...)
	args = append(args, "-o", out, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		fatal("building %s failed: %v\n%s", repoDir, err, b)
	}
}

var registry = map[string]*Prop{}

func reg(p *Prop) { registry[p.ID] = p }

func loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> :: text
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " key=")
		key, text, _ := strings.Cut(rest, " :: ")
		ks = append(ks, Known{id, key, text})
	}
	return ks
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: verif ID [quick|thorough] [--case N] [--tries N] [-v]")
	}
	id := os.Args[1]
	if id == "list" {
		for _, k := range sortedKeys(registry) {
			fmt.Println(k, registry[k].Quick, registry[k].Title)
		}
		return
	}
	p := registry[id]
	if p == nil {
		fatal("unknown property %s", id)
	}
	e := &Env{p: p, tier: "quick", seed: 1, counts: map[string]int64{}, sets: map[string]map[string]bool{}, nontriv: map[string]bool{}, knownHit: map[string]string{}}
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		e.tier = v
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.seed = v
	}
	onlyCase, tries, ncases := -1, 1, 0
	nobuild, failfast := "", false
	for i := 2; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "quick", "thorough":
			e.tier = os.Args[i]
		case "--case":
			i++
			onlyCase, _ = strconv.Atoi(os.Args[i])
		case "--tries":
			i++
			tries, _ = strconv.Atoi(os.Args[i])
		case "--n":
			i++
			ncases, _ = strconv.Atoi(os.Args[i])
		case "--bin":
			i++
			nobuild = os.Args[i]
		case "-v":
			e.verbose = true
		case "--failfast":
			failfast = true
		}
	}
	e.known = loadKnown()
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	e.tmpRoot = tmp
	e.scratch = tmp
	defer os.RemoveAll(tmp)
	if nobuild != "" {
		e.bin = nobuild
	} else {
		e.bin = filepath.Join(tmp, "gtfstidy")
		build(e.bin)
		if onlyCase < 0 {
			e.covBin = filepath.Join(tmp, "gtfstidy-cov")
			e.covDir = filepath.Join(tmp, "cov")
			os.MkdirAll(e.covDir, 0o755)
			build(e.covBin, "-cover", "-coverpkg=./...")
		}
	}
	if p.Race {
		e.raceBin = filepath.Join(tmp, "gtfstidy-race")
		build(e.raceBin, "-race")
	}
	os.RemoveAll(filepath.Join(verifDir(), "replays", id))
	n := p.Quick
	if e.tier == "thorough" {
		n = p.Thorough
	}
	if ncases > 0 {
		n = ncases
	}
	var list []int
	if onlyCase >= 0 {
		e.oneCase = true
		for i := 0; i < tries; i++ {
			list = append(list, onlyCase)
		}
	} else {
		for i := 0; i < n; i++ {
			list = append(list, i)
		}
	}
	// a tool that eats all memory must not take the machine with it; the race
	// detector needs its address space
	var lim syscall.Rlimit
	unlimit := func() {}
	if !p.Race && syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil {
		l := lim
		l.Cur = 3 << 30
		if l.Cur <= l.Max && syscall.Setrlimit(syscall.RLIMIT_AS, &l) == nil {
			unlimit = func() { syscall.Setrlimit(syscall.RLIMIT_AS, &lim) }
		}
	}
	workers := runtime.NumCPU()
	if p.Serial > 0 {
		workers = p.Serial
	}
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				j := int(atomic.AddInt64(&next, 1))
				if j >= len(list) {
					return
				}
				e.mu.Lock()
				stop := (len(e.viol) > 400 || failfast && len(e.viol) > 0 || e.counts["watchdog_timeouts"] >= 12) && onlyCase < 0
				e.mu.Unlock()
				if stop {
					return
				}
				e.runCase(list[j], j)
			}
		}(w)
	}
	wg.Wait()
	unlimit()
	if p.After != nil && onlyCase < 0 {
		p.After(e)
	}
	e.report(t0)
}

func (e *Env) runCase(idx, slot int) {
	c := &Ctx{Env: e, Idx: idx}
	h := int64(1469598103934665603)
	for _, b := range []byte(fmt.Sprintf("%s/%d/%d", e.p.ID, e.seed, idx)) {
		h = (h ^ int64(b)) * 1099511628211
	}
	c.R = rand.New(rand.NewSource(h))
	c.dir = filepath.Join(e.scratch, fmt.Sprintf("c%d-%d", idx, slot))
	os.MkdirAll(c.dir, 0o755)
	func() {
		defer func() {
			if x := recover(); x != nil {
				c.Viol("unexpected-output", "the monitor could not follow the output of the tool: %v\n%s", x, head(string(debug.Stack()), 2500))
			}
		}()
		e.p.Case(c)
	}()
	atomic.AddInt64(&e.evals, 1)
	os.RemoveAll(c.dir)
}

var covRe = regexp.MustCompile(`coverage: ([0-9.]+)% of statements`)

func (e *Env) coverage() (string, map[string]string) {
	if e.covDir == "" {
		return "", nil
	}
	cmd := exec.Command("go", "tool", "covdata", "func", "-i="+e.covDir)
	cmd.Env = goEnv()
	cmd.Dir = repoDir
	b, err := cmd.Output()
	if err != nil {
		return "", nil
	}
	total := ""
	perFile := map[string][2]float64{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasSuffix(f[len(f)-1], "%") {
			v, _ := strconv.ParseFloat(strings.TrimSuffix(f[len(f)-1], "%"), 64)
			if f[0] == "total" {
				total = f[len(f)-1]
				continue
			}
			file := filepath.Base(strings.SplitN(f[0], ":", 2)[0])
			x := perFile[file]
			x[1]++
			if v > 0 {
				x[0]++
			}
			perFile[file] = x
		}
	}
	r := map[string]string{}
	for k, v := range perFile {
		if v[0] > 0 {
			r[k] = fmt.Sprintf("%.0f of %.0f functions entered", v[0], v[1])
		}
	}
	return total, r
}

func (e *Env) report(t0 time.Time) {
	cov := map[string]any{}
	cov["evaluations"] = e.evals
	cov["distinct_nontrivial"] = len(e.nontriv)
	cov["rule"] = e.p.Rule
	if e.samples == nil {
		e.samples = []any{}
	}
	cov["samples"] = e.samples
	obs := map[string]int64{}
	for k, v := range e.counts {
		obs[k] = v
	}
	cov["observed_events"] = obs
	ds := map[string]int{}
	for k, v := range e.sets {
		ds[k] = len(v)
	}
	cov["distinct_observed"] = ds
	cov["inconclusive_runs"] = e.inconcl
	if !e.oneCase {
		if t, m := e.coverage(); t != "" {
			cov["repo_statements_reached_by_sampled_runs"] = t
			cov["repo_functions_reached_by_sampled_runs"] = m
		}
	}
	ev := map[string]any{"property": e.p.ID, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(e.viol),
		"assumptions": append([]string{"the harness's own GTFS reader and generator are correct", "the pinned gtfsparser/gtfswriter modules are part of the observed tool and are not judged separately"}, e.p.Assume...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if !e.oneCase {
		os.MkdirAll(evidDir(), 0o755)
		os.WriteFile(filepath.Join(evidDir(), e.p.ID+".json"), append(b, '\n'), 0o644)
	}
	for _, k := range e.known {
		if k.Prop == e.p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.p.ID, k.Text)
		}
	}
	byKey := map[string]int{}
	for _, v := range e.viol {
		byKey[v.Key]++
	}
	keys := sortedKeys(byKey)
	sort.Slice(keys, func(i, j int) bool { return byKey[keys[i]] > byKey[keys[j]] })
	for _, k := range keys {
		shown := 0
		for _, v := range e.viol {
			if v.Key == k && shown < 2 {
				fmt.Printf("  [%s x%d] case %d: %s\n", k, byKey[k], v.Idx, v.Text)
				shown++
			}
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d tool runs, %d violations, %.1fs\n", e.p.ID, e.tier, e.evals, len(e.nontriv), e.counts["tool_runs"], len(e.viol), time.Since(t0).Seconds())
	if e.verbose {
		for _, k := range sortedKeys(obs) {
			fmt.Printf("   %s = %d\n", k, obs[k])
		}
		for _, k := range sortedKeys(ds) {
			fmt.Printf("   distinct %s = %d\n", k, ds[k])
		}
		fmt.Printf("   %v\n   %v\n", cov["repo_statements_reached_by_sampled_runs"], cov["repo_functions_reached_by_sampled_runs"])
	}
	os.RemoveAll(e.tmpRoot)
	if !e.oneCase && e.evals > 20 && len(e.nontriv) == 0 && len(e.viol) == 0 {
		fmt.Printf("  none of the %d cases made the tool do what this property is about\n", e.evals)
		e.viol = append(e.viol, Finding{Key: "nothing-observed", Dir: filepath.Join(evidDir(), e.p.ID+".json")})
	}
	if len(e.viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.p.ID, e.viol[0].Dir)
		os.Exit(1)
	}
	os.Exit(0)
}

// evidDir is where the evidence goes: elsewhere when trying out planted bugs.
func evidDir() string {
	if v := os.Getenv("VERIF_EVID"); v != "" {
		return v
	}
	return filepath.Join(verifDir(), "evidence")
}

package main

// The check command: prepare, explore every harness of a property, replay what the
// solver found on the compiled code, write evidence and report.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Entry is one harness function.
type Entry struct {
	H, Fn    string
	Bounds   string // what is symbolic, and up to which sizes
	Thorough bool   // only in the thorough tier
	Quick    int    // seconds; 0: 120
	Deep     int    // seconds in the thorough tier; 0: 400
	Steps    int64  // per path; 0: 5 million
	Reach    []string
	NoVal    bool // no native validation of samples (uninterpreted functions)
}

// Check is everything that decides one property.
type Check struct {
	Entries []Entry
	Assume  []string
}

type result struct {
	ex       *Explorer
	e        Entry
	err      error
	replayed int
	reprod   []string
	notrep   []string
	val, bad int
	badMsg   []string
	missing  []string
}

type caseJSON struct {
	Property string                 `json:"property,omitempty"`
	Harness  string                 `json:"harness"`
	Fn       string                 `json:"fn"`
	Tier     string                 `json:"tier"`
	Label    string                 `json:"label,omitempty"`
	Where    string                 `json:"where,omitempty"`
	Inputs   map[string]interface{} `json:"inputs"`
	Native   []string               `json:"native,omitempty"`
}

var thoroughTier bool

func driverSource(es []Entry) string {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\n\t\"vrt/verif\"\n")
	seen := map[string]bool{}
	for _, e := range es {
		if !seen[e.H] {
			seen[e.H] = true
			fmt.Fprintf(&sb, "\th_%s %q\n", e.H, modPath+"/zz_harness/"+e.H)
		}
	}
	sb.WriteString(")\n\nfunc main() {\n\tswitch os.Args[1] {\n")
	done := map[string]bool{}
	for _, e := range es {
		k := e.H + "." + e.Fn
		if done[k] {
			continue
		}
		done[k] = true
		fmt.Fprintf(&sb, "\tcase %q:\n\t\th_%s.%s()\n", k, e.H, e.Fn)
	}
	sb.WriteString("\tdefault:\n\t\tos.Exit(6)\n\t}\n\tverif.Finish()\n}\n")
	return sb.String()
}

func goEnv() []string {
	return append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func buildDriver(s *Scratch, es []Entry) (string, error) {
	d := filepath.Join(s.Gev, "zz_harness", "zz_main")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(driverSource(es)), 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(s.Dir, "driver")
	cmd := exec.Command("go", "build", "-o", bin, "./zz_harness/zz_main")
	cmd.Dir, cmd.Env = s.Gev, goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}

type nativeRun struct {
	code  int
	hang  bool
	viol  []string
	obs   []obsOut
	trace string
}

func runNative(bin, dir string, c caseJSON, n int) nativeRun {
	fn := filepath.Join(dir, fmt.Sprintf("case%d.json", n))
	b, _ := json.Marshal(c)
	os.WriteFile(fn, b, 0o644)
	defer os.Remove(fn)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, c.Harness+"."+c.Fn)
	cmd.Env = append(os.Environ(), "VERIF_CASE="+fn, "VERIF_TIER="+c.Tier, "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limitWriter{b: &se, n: 1 << 20}
	err := cmd.Run()
	r := nativeRun{}
	if ctx.Err() != nil {
		r.hang = true
		return r
	}
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		r.code = xe.ExitCode()
	} else if err != nil {
		r.code = -2
		r.trace = err.Error()
	}
	for _, l := range strings.Split(so.String(), "\n") {
		var x struct{ Kind, Label, Val string }
		if !strings.HasPrefix(l, "{") || json.Unmarshal([]byte(l), &x) != nil {
			continue
		}
		switch x.Kind {
		case "VIOLATION":
			r.viol = append(r.viol, strings.TrimSpace(x.Label+" "+x.Val))
		case "OBS":
			r.obs = append(r.obs, obsOut{x.Label, x.Val})
		}
	}
	if r.code == 2 || r.code < 0 {
		t := se.String()
		if len(t) > 3000 {
			t = t[:3000]
		}
		r.trace = t
	}
	return r
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// broken says whether the native run shows a violation, and how.
func (r nativeRun) broken() (bool, []string) {
	switch {
	case r.hang:
		return true, []string{"the code does not terminate (30 s)"}
	case len(r.viol) > 0:
		return true, r.viol
	case r.code == 2 && (strings.Contains(r.trace, "panic:") || strings.Contains(r.trace, "fatal error:")):
		return true, []string{"panic: " + firstLines(r.trace, 12)}
	}
	return false, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type known struct {
	prop, label, text string
}

// knownFindings: lines "known: property=<id> label=<assertion label> :: text".
func knownFindings(root string) []known {
	b, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " label=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		r = append(r, known{l[:i], l[i+7 : j], l[j+4:]})
	}
	return r
}

func isKnown(ks []known, prop string, labels []string) *known {
	for i := range ks {
		if ks[i].prop != prop {
			continue
		}
		all := len(labels) > 0
		for _, l := range labels {
			if !strings.HasPrefix(l, ks[i].label) {
				all = false
			}
		}
		if all {
			return &ks[i]
		}
	}
	return nil
}

// stopFirst ends the run at the first violation.
var stopFirst bool

func runCheck(root, repo, id, tier string, workers int, verbose bool, only string) int {
	start := time.Now()
	chk, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	thoroughTier = tier == "thorough"
	var es []Entry
	hs := map[string]bool{}
	var hl []string
	for _, e := range chk.Entries {
		if e.Thorough && !thoroughTier || only != "" && e.Fn != only {
			continue
		}
		es = append(es, e)
		if !hs[e.H] {
			hs[e.H] = true
			hl = append(hl, e.H)
		}
	}
	dir, err := os.MkdirTemp("", "gosym-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	notes := []string{}
	note := func(f string, a ...interface{}) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Println("NOTE:", s)
	}
	ev := newEvidence(id, tier)
	finish := func(code int) int {
		ev.notes = notes
		ev.write(root, start)
		return code
	}

	s, err := Prepare(repo, root, dir, hl)
	if err != nil {
		note("reduced coverage: the tree could not be prepared: %v", err)
		return finish(0)
	}
	for _, n := range s.Notes {
		note("%s", n)
	}
	var bin string
	var berr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, berr = buildDriver(s, es)
	}()
	var pats []string
	for _, h := range hl {
		pats = append(pats, modPath+"/zz_harness/"+h)
	}
	P, err := loadProgram(s.Gev, pats)
	wg.Wait()
	if berr != nil {
		note("reduced coverage: harness does not build against this tree: %v", berr)
		return finish(0)
	}
	if err != nil {
		note("reduced coverage: %v", err)
		return finish(0)
	}
	ks := knownFindings(root)
	ncase := 0
	violations := 0
	knownHit := map[string]bool{}
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	for _, e := range es {
		pk := P.pkgs[modPath+"/zz_harness/"+e.H]
		if pk == nil || pk.Func(e.Fn) == nil {
			note("no harness %s.%s", e.H, e.Fn)
			continue
		}
		tm := e.Quick
		if tm == 0 {
			tm = 120
		}
		if thoroughTier {
			tm = e.Deep
			if tm == 0 {
				tm = 400
			}
		}
		left := 800*time.Second - time.Since(start)
		if thoroughTier {
			left = 3 * time.Hour
		}
		lim := time.Duration(tm) * time.Second
		if lim > left {
			lim = left
		}
		if lim < 5*time.Second {
			note("reduced coverage: no time left for %s.%s", e.H, e.Fn)
			continue
		}
		steps := e.Steps
		if steps == 0 {
			steps = 5000000
		}
		cfg := Config{Workers: workers, MaxTime: lim, MaxSteps: steps, QueryMS: 10000, MaxViol: 3, Samples: 6, Verbose: verbose, Grace: 15 * time.Second}
		if thoroughTier {
			cfg.QueryMS = 60000
			cfg.Samples = 24
		}
		if stopFirst {
			cfg.Grace = time.Second
		}
		ex := NewExplorer(P, pk.Func(e.Fn), cfg)
		ex.Run()
		if verbose {
			fmt.Print(e.H, ".", e.Fn, ": ", ex.Summary())
		}
		res := &result{ex: ex, e: e}
		mk := func(in map[string]interface{}) caseJSON {
			return caseJSON{Property: id, Harness: e.H, Fn: e.Fn, Tier: tier, Inputs: in}
		}
		// candidates first
		for _, v := range ex.viol {
			ncase++
			c := mk(v.Inputs)
			c.Label, c.Where = v.Label, v.Where
			r := runNative(bin, dir, c, ncase)
			res.replayed++
			b, how := r.broken()
			if !b {
				res.notrep = append(res.notrep, v.Label)
				note("candidate did not reproduce on the compiled code (exit %d): %s at %s", r.code, v.Label, v.Where)
				if verbose {
					fmt.Println(r.trace, r.obs)
				}
				continue
			}
			if k := isKnown(ks, id, how); k != nil {
				if !knownHit[k.label] {
					knownHit[k.label] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
				continue
			}
			c.Native = how
			violations += reportViolation(root, id, violations, c)
			res.reprod = append(res.reprod, v.Label)
		}
		// paths the engine could not finish: run them on the compiled code
		for _, v := range ex.stuck {
			ncase++
			c := mk(v.Inputs)
			c.Label = v.Label
			r := runNative(bin, dir, c, ncase)
			res.replayed++
			if b, how := r.broken(); b {
				if k := isKnown(ks, id, how); k != nil {
					continue
				}
				c.Native = how
				violations += reportViolation(root, id, violations, c)
				res.reprod = append(res.reprod, v.Label)
			}
		}
		// samples: engine against compiled code
		if !e.NoVal {
			type job struct {
				s *sample
				r nativeRun
			}
			jobs := make([]job, len(ex.samples))
			var wg sync.WaitGroup
			for i, sm := range ex.samples {
				ncase++
				jobs[i].s = sm
				wg.Add(1)
				go func(i, n int) {
					defer wg.Done()
					jobs[i].r = runNative(bin, dir, mk(jobs[i].s.Inputs), n)
				}(i, ncase)
			}
			wg.Wait()
			for _, j := range jobs {
				r := j.r
				msg := ""
				if b, how := r.broken(); b {
					if k := isKnown(ks, id, how); k != nil {
						continue
					}
					// the compiled code fails on an execution the engine calls fine:
					// it is a failure of the real code all the same
					c := mk(j.s.Inputs)
					c.Label, c.Native = "sample path fails natively", how
					violations += reportViolation(root, id, violations, c)
					msg = "native: " + strings.Join(how, "; ")
				} else if r.code != 0 {
					msg = fmt.Sprintf("native exit %d %s", r.code, firstLines(r.trace, 3))
				} else {
					msg = diffObs(j.s.Obs, r.obs)
				}
				if msg == "" {
					res.val++
				} else {
					res.bad++
					res.badMsg = append(res.badMsg, msg)
				}
			}
		}
		for _, l := range e.Reach {
			if ex.reach[l] == 0 {
				res.missing = append(res.missing, l)
			}
		}
		ev.add(res)
		if res.bad > 0 {
			note("%s.%s: engine and compiled code disagree on %d samples: %s", e.H, e.Fn, res.bad, res.badMsg[0])
		}
		if ex.stopWhy != "" || ex.Unsup+ex.StepsOut+ex.UnkPaths > 0 {
			note("%s.%s: reduced coverage: %s; %d paths unsupported, %d over the step bound, %d undecided, %d not started%s", e.H, e.Fn, ex.stopWhy, ex.Unsup, ex.StepsOut, ex.UnkPaths, ex.Dropped, topReasons(ex))
		}
		if len(res.missing) > 0 {
			note("%s.%s: not reached: %s", e.H, e.Fn, strings.Join(res.missing, ", "))
		}
		if violations > 0 && (stopFirst || time.Since(start) > 60*time.Second) {
			break
		}
	}
	ev.violations = violations
	for _, k := range ks {
		if k.prop == id && !knownHit[k.label] && violations == 0 {
			note("known finding not seen in this run: %s", k.label)
		}
	}
	fmt.Printf("%s %s: %s\n", id, tier, ev.line())
	if violations > 0 {
		return finish(1)
	}
	return finish(0)
}

func topReasons(ex *Explorer) string {
	var l []string
	for k := range ex.unsup {
		l = append(l, k)
	}
	for k := range ex.stepSites {
		l = append(l, "steps: "+k)
	}
	sort.Strings(l)
	if len(l) > 3 {
		l = l[:3]
	}
	if len(l) == 0 {
		return ""
	}
	return " (" + strings.Join(l, "; ") + ")"
}

func diffObs(a, b []obsOut) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations, compiled code %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("observation %s: engine %s, compiled code %s", a[i].Label, a[i].Val, b[i].Val)
		}
	}
	return ""
}

func reportViolation(root, id string, n int, c caseJSON) int {
	if n >= 5 {
		return 0
	}
	fn := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", id, n))
	b, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(fn, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
	fmt.Printf("  %s.%s: %s\n", c.Harness, c.Fn, strings.Join(c.Native, "; "))
	return 1
}

// runReplay runs one recorded case against the current tree.
func runReplay(root, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c caseJSON
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosym-replay-")
	defer os.RemoveAll(dir)
	s, err := Prepare(repo, root, dir, []string{c.Harness})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildDriver(s, []Entry{{H: c.Harness, Fn: c.Fn}})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := runNative(bin, dir, c, 0)
	br, how := r.broken()
	fmt.Println("exit", r.code, "broken", br)
	for _, h := range how {
		fmt.Println("  ", h)
	}
	for _, o := range r.obs {
		fmt.Println("   obs", o.Label, o.Val)
	}
	if r.trace != "" {
		fmt.Println(r.trace)
	}
	if br {
		return 1
	}
	return 0
}

// ---- evidence ----

type evidence struct {
	id, tier   string
	notes      []string
	violations int
	res        []*result
}

func newEvidence(id, tier string) *evidence { return &evidence{id: id, tier: tier} }

func (e *evidence) add(r *result) { e.res = append(e.res, r) }

func (e *evidence) line() string {
	var paths, asserts, q, v int64
	var st float64
	for _, r := range e.res {
		paths += r.ex.Paths
		asserts += r.ex.asserts
		q += int64(r.ex.queries)
		st += r.ex.solTime.Seconds()
		v += int64(r.val)
	}
	return fmt.Sprintf("%d harnesses, %d paths, %d assertions decided, %d queries, %.1f s solver, %d samples validated natively, %d violations", len(e.res), paths, asserts, q, st, v, e.violations)
}

func (e *evidence) write(root string, start time.Time) {
	var paths, steps, completed, assumed, unsup, stepOut, unk, asserts, trivial, dropped int64
	var q, sat, unsat, uk, hits, val, bad, rep int
	var st float64
	fns := map[string]bool{}
	blocks := 0
	var samples []interface{}
	exhaustive := len(e.res) > 0
	var hs []interface{}
	var bounds []string
	for _, r := range e.res {
		x := r.ex
		paths += x.Paths
		steps += x.steps
		completed += x.Completed
		assumed += x.Assumed
		unsup += x.Unsup
		stepOut += x.StepsOut
		unk += x.UnkPaths
		asserts += x.asserts
		trivial += x.trivial
		dropped += x.Dropped
		q += x.queries
		sat += x.nsat
		unsat += x.nunsat
		uk += x.nunk
		hits += x.hits
		st += x.solTime.Seconds()
		val += r.val
		bad += r.bad
		rep += r.replayed
		blocks += len(x.blkSeen)
		for f := range x.fnSeen {
			if strings.Contains(f, "/zz_harness/") || !strings.Contains(f, "llenxuxu") && !strings.Contains(f, "gobwas") {
				continue
			}
			fns[f] = true
		}
		full := x.stopWhy == "" && x.Unsup+x.StepsOut+x.UnkPaths == 0
		exhaustive = exhaustive && full
		labels := []string{}
		for l, n := range x.labels {
			labels = append(labels, fmt.Sprintf("%s ×%d", l, n))
		}
		sort.Strings(labels)
		hs = append(hs, map[string]interface{}{
			"harness": r.e.H + "." + r.e.Fn, "bounds": r.e.Bounds, "paths": x.Paths, "completed": x.Completed,
			"discarded_by_assumption": x.Assumed, "unsupported": x.Unsup, "over_step_bound": x.StepsOut, "undecided": x.UnkPaths,
			"not_started": x.Dropped, "exhausted_within_bounds": full, "stop": x.stopWhy, "wall_s": round(x.elapsed.Seconds()),
			"assertions": labels, "reached": x.reach, "max_query_s": round(x.maxQ.Seconds())})
		bounds = append(bounds, r.e.H+"."+r.e.Fn+": "+r.e.Bounds)
		for i, s := range x.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": r.e.H + "." + r.e.Fn, "inputs": trim(s.Inputs), "observed": trimObs(s.Obs)})
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []interface{}{"none"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states": paths, "transitions": steps, "traces_validated_against_impl": val, "samples": samples, "exhaustive": exhaustive && e.violations == 0,
		"what_is_counted":              "states: symbolic paths explored; transitions: SSA instructions interpreted symbolically; traces_validated: solver models of completed paths re-run on the compiled code with equal observations",
		"assertions_decided_by_solver": asserts, "assertions_decided_by_simplification": trivial,
		"queries": q, "query_cache_hits": hits, "sat": sat, "unsat": unsat, "unknown": uk, "solver_s": round(st),
		"paths_completed": completed, "paths_discarded_by_assumption": assumed, "paths_unsupported": unsup, "paths_over_step_bound": stepOut, "paths_undecided": unk, "paths_not_started": dropped,
		"candidates_and_stuck_paths_replayed": rep, "validation_mismatches": bad,
		"functions_encoded": fl, "basic_blocks_covered": blocks, "harnesses": hs, "bounds": bounds, "notes": e.notes,
	}
	out := map[string]interface{}{"property": e.id, "tier": e.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, commonAssume...), checks[e.id].Assume...), "wall_s": round(time.Since(start).Seconds()), "violations": e.violations}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", e.id+".json"), append(b, '\n'), 0o644)
}

func trim(in map[string]interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	n := 0
	for k, v := range in {
		if n > 40 {
			break
		}
		n++
		if s, ok := v.([]interface{}); ok && len(s) > 40 {
			v = s[:40]
		}
		if s, ok := v.([]int); ok && len(s) > 40 {
			v = s[:40]
		}
		out[k] = v
	}
	return out
}

func trimObs(o []obsOut) []obsOut {
	if len(o) > 12 {
		o = o[:12]
	}
	r := make([]obsOut, len(o))
	for i, x := range o {
		if len(x.Val) > 120 {
			x.Val = x.Val[:120] + "..."
		}
		r[i] = x
	}
	return r
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

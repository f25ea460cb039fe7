package main

// check <property>: runs the property's harnesses, replays what is not
// discharged, writes the evidence and the verdict.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type replayJob struct {
	H      string
	Params []int64
	Models []map[string]string
	Seeds  int
	Seed0  int64
	Budget float64
}
type replayOut struct {
	Fail      string
	Assign    map[string]string
	Seed      int64
	Trials    int
	Discarded int
	Secs      float64
}

// Native is the harness compiled with the real code.
type Native struct {
	bin, dir string
	race     bool
	err      error
}

const raceLabel = "data race: two goroutines access the same memory"

func buildNative(ld *Loaded, tmp string, race bool) *Native {
	os.MkdirAll(tmp, 0o755)
	n := &Native{dir: tmp, bin: filepath.Join(tmp, "native.test"), race: race}
	mf, err := modCopy(tmp)
	if err != nil {
		n.err = err
		return n
	}
	rep := map[string]string{}
	add := func(src, base string) {
		rep[filepath.Join(repoRoot, "zz_verif_"+strings.TrimSuffix(base, ".go")+"_test.go")] = src
	}
	for _, f := range ld.files {
		if !strings.HasSuffix(f, "api.go") {
			add(f, filepath.Base(f))
		}
	}
	add(filepath.Join(verifRoot, "harness", "native.go"), "native.go")
	// the package's variables, for the comparison of shared state
	var sb strings.Builder
	sb.WriteString("package crypto\n\nvar vGlobals = []interface{}{\n")
	var names []string
	for name, m := range ld.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || strings.Contains(name, "$") || name == "_" {
			continue
		}
		if f := filepath.Base(ld.prog.Fset.Position(g.Pos()).Filename); strings.HasPrefix(f, "zz_verif_") || strings.HasSuffix(f, "_test.go") {
			continue
		}
		names = append(names, name)
	}
	sort.Strings(names)
	for _, nm := range names {
		fmt.Fprintf(&sb, "\t&%s,\n", nm)
	}
	sb.WriteString("}\n")
	gf := filepath.Join(tmp, "globals.go")
	os.WriteFile(gf, []byte(sb.String()), 0o644)
	add(gf, "globals.go")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	args := []string{"test", "-c", "-vet=off", "-o", n.bin, "-overlay", ov, "-modfile=" + mf}
	if race {
		// the pinned sha3 reads its input through unaligned casts that checkptr,
		// which -race turns on, rejects
		args = append(args, "-race", "-gcflags=all=-d=checkptr=0")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = repoRoot
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n
}

var natMu sync.Mutex
var natN int

func (n *Native) run(jobs []replayJob) ([]replayOut, error) {
	if n.err != nil {
		return nil, n.err
	}
	natMu.Lock()
	natN++
	id := natN
	natMu.Unlock()
	in, out := filepath.Join(n.dir, fmt.Sprintf("in%d.json", id)), filepath.Join(n.dir, fmt.Sprintf("out%d.json", id))
	b, _ := json.Marshal(jobs)
	os.WriteFile(in, b, 0o644)
	total := 60.0
	for _, j := range jobs {
		total += 2*j.Budget + 10
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total*float64(time.Second)))
	defer cancel()
	work := filepath.Join(n.dir, fmt.Sprintf("w%d", id))
	os.MkdirAll(work, 0o755)
	cmd := exec.CommandContext(ctx, n.bin, "-test.run", "^TestZZReplay$", "-test.timeout", "0")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VERIF_REPLAY_IN="+in, "VERIF_REPLAY_OUT="+out)
	cur := filepath.Join(n.dir, fmt.Sprintf("cur%d.json", id))
	if n.race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66", "VERIF_REPLAY_CUR="+cur)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	o, err := cmd.CombinedOutput()
	rb, rerr := os.ReadFile(out)
	if rerr != nil {
		if ee, ok := err.(*exec.ExitError); n.race && ok && (ee.ExitCode() == 66 && bytes.Contains(o, []byte("DATA RACE")) || bytes.Contains(o, []byte("fatal error: concurrent map"))) {
			var r replayOut
			if b, err := os.ReadFile(cur); err == nil {
				json.Unmarshal(b, &r)
			}
			r.Fail = raceLabel
			return []replayOut{r}, nil
		}
		tail := string(o)
		if len(tail) > 400 {
			tail = tail[len(tail)-400:]
		}
		return nil, fmt.Errorf("native run: %v %s", err, tail)
	}
	var res []replayOut
	if err := json.Unmarshal(rb, &res); err != nil {
		return nil, err
	}
	return res, nil
}

// Replay file of a violation.
type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Params   []int64           `json:"params"`
	Seed     int64             `json:"seed"`
	Assign   map[string]string `json:"assign"`
	Label    string            `json:"label"`
	Origin   string            `json:"origin"`
	How      string            `json:"how"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"` // open | fixed
	Commit   string `json:"commit"`
}

func loadKnown() []knownFinding {
	var l []knownFinding
	b, err := os.ReadFile(filepath.Join(verifRoot, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, ln := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(ln)) == 0 {
			continue
		}
		var k knownFinding
		if json.Unmarshal(ln, &k) == nil {
			l = append(l, k)
		}
	}
	return l
}

func doCheck(prop, tier string) int {
	t0 := time.Now()
	p := findProp(prop)
	if p == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tmp, err := os.MkdirTemp("", "vsym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.MkdirAll(filepath.Join(tmp, "l"), 0o755)
	os.MkdirAll(filepath.Join(tmp, "n"), 0o755)
	ld, err := Load(filepath.Join(tmp, "l"))
	if err != nil {
		fmt.Println("UNDECIDED", prop, err)
		writeEvidence(p, prop, tier, seed, nil, nil, nil, time.Since(t0).Seconds(), []string{"nothing was explored: " + err.Error()}, 0)
		return 0
	}
	var notes []string
	for _, d := range ld.dropped {
		notes = append(notes, "harness file "+d+" does not compile against this tree and was left out")
	}
	var nat *Native
	natDone := make(chan struct{})
	go func() { nat = buildNative(ld, filepath.Join(tmp, "n"), false); close(natDone) }()

	// runs
	var specs []RunSpec
	seen := map[string]bool{}
	for _, s := range p.specs() {
		if s.Tier == "thorough" && tier != "thorough" {
			continue
		}
		if seen[s.String()] || !strings.HasPrefix(s.String(), os.Getenv("VERIF_ONLY")) {
			continue
		}
		seen[s.String()] = true
		if s.Timeout == 0 {
			s.Timeout = 120
		}
		if tier == "thorough" {
			s.Timeout *= 3
		}
		specs = append(specs, s)
	}
	// symbolic part and the whole check
	limit, whole := 600.0, 840.0
	if tier == "thorough" {
		limit, whole = 6*3600, 9*3600
		execLimit = time.Hour
	}
	go watchMemory()
	deadline = t0.Add(time.Duration(limit * float64(time.Second)))
	results := make([]*RunResult, len(specs))
	known := loadKnown()
	knownFinding := func(spec RunSpec, label string) string {
		for _, k := range known {
			if k.Status == "open" && k.Property == prop && k.Harness == spec.H && k.Label == label {
				return k.What
			}
		}
		return ""
	}
	weak := func(spec RunSpec, label string) bool { return spec.Dep && strings.Contains(label, "bounds") }
	tries := map[*RunResult]int{}
	var triesMu sync.Mutex
	onOpen = func(res *RunResult, o *Obligation) bool {
		if rootCtx.Err() != nil {
			return true
		}
		triesMu.Lock()
		k := tries[res]
		tries[res]++
		triesMu.Unlock()
		if k >= 4 {
			return false
		}
		<-natDone
		j := replayJob{H: res.Spec.H, Params: res.Spec.Params, Seed0: seed + int64(1000000*k), Seeds: 100000, Budget: []float64{10, 4, 2, 2}[k]}
		if o != nil && o.stat == "sat" {
			j.Models = append(j.Models, o.assign)
		}
		out, err := nat.run([]replayJob{j})
		if err != nil || len(out) != 1 || out[0].Fail == "" || knownFinding(res.Spec, out[0].Fail) != "" || weak(res.Spec, out[0].Fail) {
			return false
		}
		res.Early = &out[0]
		stopAll()
		return true
	}
	var splits []*RunResult
	var splitMu sync.Mutex
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, s := range specs {
		wg.Add(1)
		go func(i int, s RunSpec) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if rootCtx.Err() != nil {
				results[i] = &RunResult{Spec: s, Err: stopped}
				return
			}
			res := RunHarness(ld, s)
			res.x = nil
			results[i] = res
			// code that the rope model of byte strings of symbolic length does not
			// cover is decided for strings of some concrete lengths
			if res.Err != "" && res.Opaque && rootCtx.Err() == nil && time.Now().Before(deadline) {
				lens := []int{64, 0, 1, 300}
				if tier == "thorough" {
					lens = append(lens, 31, 32, 33, 65, 100, 128, 136, 1000, 4100)
				}
				for _, n := range lens {
					c := s
					c.OLen = n + 1
					r := RunHarness(ld, c)
					r.x = nil
					if r.Err != "" && r.Err != stopped {
						break
					}
					res.Split = append(res.Split, n)
					splitMu.Lock()
					splits = append(splits, r)
					splitMu.Unlock()
					if rootCtx.Err() != nil {
						break
					}
				}
			}
			if os.Getenv("VERIF_PROGRESS") != "" {
				fmt.Fprintf(os.Stderr, "[%5.1fs] %s %.1fs %s\n", time.Since(t0).Seconds(), s, results[i].Secs, results[i].Err)
			}
		}(i, s)
	}
	wg.Wait()
	results = append(results, splits...)
	<-natDone
	if nat.err != nil {
		notes = append(notes, nat.err.Error())
		fmt.Println("UNDECIDED", prop, "no native build, nothing can be confirmed:", nat.err)
	}

	// native jobs: validation of the encoding, and replay of what is open
	viol := 0
	var violLines []string
	var natRuns []replayOut
	type pend struct {
		r    *RunResult
		open []*Obligation
		job  replayJob
	}
	var pends []pend
	nopen := 0
	for _, r := range results {
		if rootCtx.Err() != nil && r.Early == nil {
			continue
		}
		j := replayJob{H: r.Spec.H, Params: r.Spec.Params, Seed0: seed, Seeds: 24, Budget: 2}
		var open []*Obligation
		for _, o := range r.Obs {
			if o.stat == "sat" || o.stat == "unknown" {
				open = append(open, o)
			}
		}
		for _, o := range open {
			if o.stat == "sat" && len(j.Models) < 20 {
				j.Models = append(j.Models, o.assign)
			}
		}
		if len(open) > 0 || r.Err != "" {
			j.Seeds, j.Budget = 200000, 40
			if tier == "thorough" {
				j.Budget = 240
			}
			nopen++
		} else if tier == "thorough" {
			j.Seeds, j.Budget = 200, 10
		}
		pends = append(pends, pend{r, open, j})
	}
	// what is left of the time is shared among the candidates
	if left := (whole - 60 - time.Since(t0).Seconds()) * float64(runtime.NumCPU()); nopen > 0 {
		for i := range pends {
			if b := left / float64(nopen); pends[i].job.Budget > b && (len(pends[i].open) > 0 || pends[i].r.Err != "") {
				pends[i].job.Budget = math.Max(b, 3)
			}
		}
	}
	outs := make([]*replayOut, len(pends))
	if nat.err == nil {
		var wg2 sync.WaitGroup
		sem2 := make(chan struct{}, runtime.NumCPU())
		for i := range pends {
			wg2.Add(1)
			go func(i int) {
				defer wg2.Done()
				sem2 <- struct{}{}
				defer func() { <-sem2 }()
				if e := pends[i].r.Early; e != nil {
					outs[i] = e
					return
				}
				o, err := nat.run([]replayJob{pends[i].job})
				if err != nil || len(o) != 1 {
					natMu.Lock()
					notes = append(notes, fmt.Sprintf("native run of %s failed: %v", pends[i].r.Spec, err))
					natMu.Unlock()
					return
				}
				outs[i] = &o[0]
			}(i)
		}
		wg2.Wait()
		// writes to shared memory that do no visible harm in a single goroutine
		var race *Native
		for i, pd := range pends {
			if !strings.HasPrefix(pd.r.Spec.H, "H_Q") || (len(pd.open) == 0 && pd.r.Err == "") || (outs[i] != nil && outs[i].Fail != "") {
				continue
			}
			if race == nil {
				race = buildNative(ld, filepath.Join(tmp, "r"), true)
				if race.err != nil {
					notes = append(notes, "no build with the race detector: "+race.err.Error())
					break
				}
			}
			j := pd.job
			j.Budget = 15
			if o, err := race.run([]replayJob{j}); err != nil {
				notes = append(notes, fmt.Sprintf("run of %s with the race detector failed: %v", pd.r.Spec, err))
			} else if len(o) == 1 {
				outs[i] = &o[0]
			}
			if time.Since(t0).Seconds() > whole-60 {
				break
			}
		}
	}
	rdir := filepath.Join(verifRoot, "evidence", "replay")
	for i, pd := range pends {
		o := outs[i]
		if o != nil {
			natRuns = append(natRuns, *o)
		}
		if o != nil && o.Fail != "" {
			if kf := knownFinding(pd.r.Spec, o.Fail); kf != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
				continue
			}
			if weak(pd.r.Spec, o.Fail) {
				fmt.Printf("UNDECIDED %s %s: %q fails, the layers above are not decided\n", prop, pd.r.Spec, o.Fail)
				notes = append(notes, fmt.Sprintf("reduced bound: the specification of a lower layer does not hold: %s %q", pd.r.Spec, o.Fail))
				continue
			}
			os.MkdirAll(rdir, 0o755)
			f := filepath.Join(rdir, fmt.Sprintf("%s_%s.json", prop, strings.NewReplacer("[", "_", "]", "", " ", "_", "{", "_", "}", "").Replace(pd.r.Spec.String())))
			origin := "solver model or candidate for an obligation that is not discharged"
			if len(pd.open) == 0 {
				origin = "native validation run (no obligation was open)"
			}
			if pd.r.Err != "" {
				origin = "candidate; the code could not be encoded: " + pd.r.Err
			}
			if pd.r.Spec.Dep {
				origin += "; the run specifies a lower layer that this property relies on"
			}
			rf := replayFile{prop, pd.r.Spec.H, pd.r.Spec.Params, o.Seed, o.Assign, o.Fail, origin, "/verif/run.sh replay " + f}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(f, b, 0o644)
			violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f))
			fmt.Printf("  %s: %q fails on the real code\n", pd.r.Spec, o.Fail)
			viol++
			continue
		}
		if len(pd.r.Split) > 0 {
			notes = append(notes, fmt.Sprintf("reduced bound: %s decided for byte strings of the lengths %v only (%s)", pd.r.Spec, pd.r.Split, pd.r.Err))
			fmt.Printf("  %s: decided for byte strings of the lengths %v only (%s)\n", pd.r.Spec, pd.r.Split, pd.r.Err)
		} else if pd.r.Err != "" {
			fmt.Printf("UNDECIDED %s %s: %s\n", prop, pd.r.Spec, pd.r.Err)
			notes = append(notes, fmt.Sprintf("reduced bound: %s not decided (%s)", pd.r.Spec, pd.r.Err))
		}
		for _, b := range pd.open {
			w := "solver gave no answer"
			if b.stat == "sat" {
				w = "the solver's model does not fail natively (abstraction too coarse)"
			}
			fmt.Printf("UNDECIDED %s %s: %q: %s\n", prop, pd.r.Spec, b.label, w)
			notes = append(notes, fmt.Sprintf("reduced bound: %s %q not decided: %s", pd.r.Spec, b.label, w))
		}
		if pd.r.Err == "" && pd.r.Vacuous {
			fmt.Printf("UNDECIDED %s %s: no input reaches the end of the harness\n", prop, pd.r.Spec)
			notes = append(notes, fmt.Sprintf("reduced bound: %s is vacuous", pd.r.Spec))
		}
		for l, s := range pd.r.Reach {
			if s == "unsat" || s == "unreachable" {
				fmt.Printf("UNDECIDED %s %s: %q is not reachable\n", prop, pd.r.Spec, l)
				notes = append(notes, fmt.Sprintf("reduced bound: %s: %q is not reachable", pd.r.Spec, l))
			}
		}
	}
	if rootCtx.Err() != nil {
		notes = append(notes, "the check stopped at the first confirmed violation; the other runs are incomplete")
	}
	writeEvidence(p, prop, tier, seed, results, natRuns, ld, time.Since(t0).Seconds(), notes, viol)
	nob, nd := 0, 0
	for _, r := range results {
		for _, o := range r.Obs {
			nob++
			if o.stat == "unsat" || o.stat == "normal-form" {
				nd++
			}
		}
	}
	fmt.Printf("%s %s: %d runs, %d/%d obligations discharged, %.1fs\n", prop, tier, len(results), nd, nob, time.Since(t0).Seconds())
	if viol > 0 {
		for _, l := range violLines {
			fmt.Println(l)
		}
		return 1
	}
	return 0
}

func writeEvidence(p *Prop, prop, tier string, seed int64, rs []*RunResult, nat []replayOut, ld *Loaded, wall float64, notes []string, viol int) {
	dir := filepath.Join(verifRoot, "evidence")
	os.MkdirAll(dir, 0o755)
	ob, di, nf, steps, q := 0, 0, 0, int64(0), 0
	ss := 0.0
	cov, contr, by := map[string]int{}, map[string]int{}, map[string]int{}
	var samples []interface{}
	for _, r := range rs {
		steps += r.Steps
		q += r.Queries
		ss += r.SolverS
		for _, o := range r.Obs {
			ob++
			switch o.stat {
			case "unsat":
				di++
			case "normal-form":
				di++
				nf++
			}
			if len(samples) < 400 {
				samples = append(samples, map[string]interface{}{"run": r.Spec.String(), "assertion": o.label, "verdict": o.stat, "solver": o.solver, "seconds": float64(int(o.secs*1000)) / 1000})
			}
		}
		for k, v := range r.Covered {
			if strings.Contains(k, "go-xpx-") && !strings.Contains(k, ".H_") && !strings.Contains(k, ".v") {
				cov[k] += v
			}
		}
		for k, v := range r.Contr {
			contr[k] += v
		}
		for k, v := range r.ByName {
			by[k] += v
		}
	}
	trials, disc := 0, 0
	for _, o := range nat {
		trials += o.Trials
		disc += o.Discarded
	}
	var runs []string
	for _, r := range rs {
		runs = append(runs, fmt.Sprintf("%s (%d steps, %.1fs)", r.Spec, r.Steps, r.Secs))
	}
	c := map[string]interface{}{
		"explanation":                   "Symbolic execution of the functions listed under functions_encoded (SSA of the current tree); every assertion of every run is decided for all inputs within the bounds. Obligations whose negation simplifies to false before a solver is called are counted under closed_by_normal_form.",
		"obligations":                   ob,
		"discharged":                    di,
		"closed_by_normal_form":         nf,
		"solver_queries":                q,
		"solver_seconds":                ss,
		"queries_by_solver":             by,
		"functions_encoded":             cov,
		"replaced_by_contract":          contr,
		"symbolic_instructions":         steps,
		"states":                        len(rs) + q,
		"transitions":                   steps,
		"traces_validated_against_impl": trials - disc,
		"runs":                          runs,
		"samples":                       samples,
		"bounds":                        p.bounds,
		"checker_cmd":                   "/verif/run.sh check " + prop + " " + tier,
		"trusted_base":                  []string{"go/ssa", "the symbolic executor in /verif/engine", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2", "the contracts listed under replaced_by_contract, themselves checked by the lower-layer runs of this check", "hash functions and AES as uninterpreted functions (with AES-CBC decryption inverting encryption)"},
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": p.level, "coverage": c, "wall_s": wall,
		"assumptions": append(append([]string{}, p.assume...), notes...), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "vsym")
	defer os.RemoveAll(tmp)
	ld, err := Load(tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := buildNative(ld, filepath.Join(tmp, "n"), rf.Label == raceLabel)
	o, err := n.run([]replayJob{{H: rf.Harness, Params: rf.Params, Models: []map[string]string{rf.Assign}, Seed0: rf.Seed, Budget: 10}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if o[0].Fail != "" {
		fmt.Printf("%s %v: %s\n", rf.Harness, rf.Params, o[0].Fail)
		return 1
	}
	fmt.Println("does not fail")
	return 0
}

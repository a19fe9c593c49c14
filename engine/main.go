package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// overlayFiles maps target path -> source path for one property.
func overlayFiles(prop string) (map[string]string, []string) {
	ov := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	pl := strings.ToLower(prop)
	dirs := map[string]bool{}
	var files []string
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(path, ".go") {
			files = append(files, path)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		rel, _ := filepath.Rel(root, f)
		if strings.HasPrefix(filepath.Base(rel), pl+"_") {
			dirs[filepath.Dir(rel)] = true
		}
	}
	for _, f := range files {
		rel, _ := filepath.Rel(root, f)
		d, b := filepath.Dir(rel), filepath.Base(rel)
		if strings.HasPrefix(rel, "zzverif/") {
			ov[filepath.Join(repoDir, rel)] = f
			continue
		}
		if dirs[d] && (strings.HasPrefix(b, pl+"_") || strings.HasPrefix(b, "common")) {
			ov[filepath.Join(repoDir, d, "zzverif_"+b)] = f
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, ds
}

type loaded struct {
	prog *ssa.Program
	pkgs []*ssa.Package
	dirs []string
	ov   map[string]string
	bad  []string
}

func load(prop string) (*loaded, error) {
	ov, dirs := overlayFiles(prop)
	if len(dirs) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	l := &loaded{ov: ov, dirs: dirs}
	for try := 0; try < 6; try++ {
		m := map[string][]byte{}
		for t, s := range ov {
			b, err := os.ReadFile(s)
			if err != nil {
				return nil, err
			}
			m[t] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: m}
		var pats []string
		for _, d := range dirs {
			pats = append(pats, "./"+d)
		}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		dropped := false
		var firstErr error
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if firstErr == nil {
					firstErr = e
				}
				for t := range ov {
					if strings.Contains(e.Pos, t+":") {
						delete(ov, t)
						l.bad = append(l.bad, filepath.Base(t)+": "+e.Msg)
						dropped = true
					}
				}
			}
		})
		if dropped {
			// a directory may have lost its harness
			continue
		}
		if firstErr != nil {
			return nil, firstErr
		}
		prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		l.prog, l.pkgs = prog, pkgs
		return l, nil
	}
	return nil, fmt.Errorf("harness files do not compile against this tree: %v", l.bad)
}

// harnessNames scans the overlay files for VH_<prop>_ functions.
func harnessNames(l *loaded, prop string) map[string][]string {
	out := map[string][]string{}
	fs := token.NewFileSet()
	for t, s := range l.ov {
		if strings.Contains(t, "/zzverif/") {
			continue
		}
		f, err := parser.ParseFile(fs, s, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "VH_"+prop+"_") {
				rel, _ := filepath.Rel(repoDir, filepath.Dir(t))
				out[rel] = append(out[rel], fd.Name.Name)
			}
		}
	}
	return out
}

// ---------- native replay ----------

type Replayer struct {
	bin   string
	dir   string
	known string
	tier  int
	mu    sync.Mutex
	runs  int
	ovf   string
	race  bool
	procs int

	raceOnce sync.Once
	rbin     string
}

func buildReplayer(l *loaded, names map[string][]string, tmp string) (*Replayer, error) {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"strconv\"\n\t\"strings\"\n\t\"" + rtPath + "\"\n")
	i := 0
	var body strings.Builder
	for _, d := range sortedKeys(names) {
		fmt.Fprintf(&b, "\th%d %q\n", i, modPath+"/"+d)
		for _, n := range names[d] {
			fmt.Fprintf(&body, "\t%q: h%d.%s,\n", n, i, n)
		}
		i++
	}
	b.WriteString(")\n\nvar tab = map[string]func(){\n" + body.String() + "}\n\n")
	b.WriteString(`func main() {
	data, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	for _, f := range strings.Fields(string(data)) {
		v, _ := strconv.ParseUint(f, 10, 64)
		rt.Vals = append(rt.Vals, v)
	}
	rt.SetKnown(os.Getenv("VERIF_KNOWN"))
	rt.Tier, _ = strconv.Atoi(os.Getenv("VERIF_TIERN"))
	rt.Run(tab[os.Args[1]])
}
`)
	mainSrc := filepath.Join(tmp, "replay_main.go")
	os.WriteFile(mainSrc, []byte(b.String()), 0o644)
	rep := map[string]string{filepath.Join(repoDir, "zzverif/main/main.go"): mainSrc}
	for t, s := range l.ov {
		rep[t] = s
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, j, 0o644)
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zzverif/main")
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return &Replayer{bin: bin, dir: tmp, ovf: ovf}, nil
}

type replayRes struct {
	out     string
	stderr  string
	timeout bool
	exit    int
}

func (r *replayRes) summary() string {
	s := strings.ReplaceAll(strings.TrimSpace(r.out), "\n", "; ")
	if r.timeout {
		s += " TIMEOUT"
	}
	if r.exit != 0 && !strings.Contains(s, "PANIC") {
		s += fmt.Sprintf(" exit=%d %s", r.exit, firstLine(r.stderr))
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (r *replayRes) violates(label string) bool {
	if label == raceLabel {
		return strings.Contains(r.stderr, "DATA RACE")
	}
	if label == "no-panic" {
		return r.timeout || r.exit != 0 || strings.Contains(r.out, "PANIC ")
	}
	for _, l := range strings.Split(r.out, "\n") {
		if l == "ASSERT-FAIL "+label {
			return true
		}
	}
	return false
}

func (r *Replayer) run(h string, vals []uint64, to time.Duration) *replayRes {
	r.mu.Lock()
	r.runs++
	n := r.runs
	r.mu.Unlock()
	f := filepath.Join(r.dir, fmt.Sprintf("v%d", n))
	os.WriteFile(f, []byte(fmtVals(vals)), 0o644)
	defer os.Remove(f)
	return r.runFile(h, f, to)
}

// runFor runs a counterexample natively; one that depends on the interleaving is
// run repeatedly.
func (r *Replayer) runFor(h, label string, vals []uint64, conc bool) *replayRes {
	if label != raceLabel && !conc {
		return r.run(h, vals, 60*time.Second)
	}
	n := 200
	if label == raceLabel {
		n = 40
	}
	end := time.Now().Add(60 * time.Second)
	var res *replayRes
	for i := 0; i < n && (res == nil || time.Now().Before(end)); i++ {
		q := r
		if label == raceLabel || i%2 == 1 {
			if rb := r.raceBin(); rb != "" {
				q = &Replayer{bin: rb, dir: r.dir, known: r.known, tier: r.tier, race: true, runs: 1000000 + i}
			}
		}
		q.procs = []int{0, 2, 1, 4}[i/2%4]
		r.mu.Lock()
		r.runs++
		f := filepath.Join(r.dir, fmt.Sprintf("v%d", r.runs))
		r.mu.Unlock()
		os.WriteFile(f, []byte(fmtVals(vals)), 0o644)
		res = q.runFile(h, f, 60*time.Second)
		os.Remove(f)
		if res.violates(label) || res.timeout {
			break
		}
	}
	return res
}

// raceBin builds the replay program with the toolchain's race detector.
func (r *Replayer) raceBin() string {
	r.raceOnce.Do(func() {
		bin := r.bin + "-race"
		cmd := exec.Command("go", "build", "-race", "-overlay", r.ovf, "-o", bin, "./zzverif/main")
		cmd.Dir = repoDir
		if out, err := cmd.CombinedOutput(); err != nil {
			debugf("race build: %v %s", err, out)
			return
		}
		r.rbin = bin
	})
	return r.rbin
}

func fmtVals(vals []uint64) string {
	var sb strings.Builder
	for _, v := range vals {
		fmt.Fprintf(&sb, "%d ", v)
	}
	return sb.String()
}

func (r *Replayer) runFile(h, f string, to time.Duration) *replayRes {
	// step-limit candidates: natively a hang shows as a timeout
	cmd := exec.Command("bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x", r.bin, h, f)
	if r.race {
		cmd = exec.Command(r.bin, h, f)
	}
	cmd.Env = append(os.Environ(), "VERIF_KNOWN="+r.known, fmt.Sprintf("VERIF_TIERN=%d", r.tier), "GOMEMLIMIT=6GiB")
	if r.procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", r.procs))
	}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	res := &replayRes{}
	if err := cmd.Start(); err != nil {
		res.exit = -1
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			res.exit = 1
			if ee, ok := err.(*exec.ExitError); ok {
				res.exit = ee.ExitCode()
				if res.exit == 0 {
					res.exit = 1
				}
			}
		}
	case <-time.After(to):
		cmd.Process.Kill()
		<-done
		res.timeout = true
	}
	res.out, res.stderr = out.String(), er.String()
	return res
}

// ---------- known findings ----------

type finding struct{ id, prop, text string }

var findRe = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)

func knownFindings() []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fixed:") || strings.HasPrefix(l, "#") {
			continue
		}
		if m := findRe.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[2], m[1], m[3]})
		}
	}
	return out
}

// ---------- main ----------

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine check <property> quick|thorough | replay <property> <harness> <values-file>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replayCmd(os.Args[2], os.Args[3], os.Args[4]))
	}
}

func replayCmd(prop, h, f string) int {
	tmp, _ := os.MkdirTemp("", "verif")
	defer os.RemoveAll(tmp)
	l, err := load(prop)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := buildReplayer(l, harnessNames(l, prop), tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if b, err := os.ReadFile(f); err == nil && bytes.HasPrefix(bytes.TrimSpace(b), []byte("{")) {
		var q struct {
			Harness string
			Values  []uint64
		}
		json.Unmarshal(b, &q)
		f = filepath.Join(tmp, "vals")
		os.WriteFile(f, []byte(fmtVals(q.Values)), 0o644)
		h = q.Harness
	}
	res := r.runFile(h, f, 120*time.Second)
	fmt.Print(res.out, res.stderr)
	if res.timeout {
		fmt.Println("TIMEOUT")
	}
	if strings.Contains(res.out, "ASSERT-FAIL") || res.exit != 0 || res.timeout {
		return 1
	}
	return 0
}

func check(prop, tier string) int {
	t0 := time.Now()
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 700 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	l, err := load(prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	tLoad := time.Since(t0)
	for _, b := range l.bad {
		fmt.Println("note: harness file left out (does not compile against this tree):", b)
	}
	names := harnessNames(l, prop)
	ex := &Explorer{prog: l.prog, deadline: t0.Add(budget), hardTO: 20 * time.Second, softMerge: os.Getenv("VERIF_HARDMERGE") == "", maxConc: 70000, thorough: tier == "thorough",
		known: map[string]bool{}, cov: map[*ssa.Function]int64{}, notes: map[string]int{}, maxSteps: 60_000_000, stopOnViol: os.Getenv("VERIF_ALL") == ""}
	ex.selfCheck = os.Getenv("VERIF_SELFCHECK") != ""
	if tier == "thorough" {
		ex.hardTO = 90 * time.Second
		ex.maxSteps = 400_000_000
	}
	if s := os.Getenv("VERIF_HARDTO"); s != "" {
		n, _ := strconv.Atoi(s)
		ex.hardTO = time.Duration(n) * time.Second
	}
	finds := knownFindings()
	var kn []string
	for _, f := range finds {
		ex.known[f.id] = true
		kn = append(kn, f.id)
	}
	if p := l.prog.ImportedPackage("errors"); p != nil {
		ex.errStringT = types.NewPointer(p.Type("errorString").Type())
	}
	if p := l.prog.ImportedPackage("fmt"); p != nil {
		ex.wrapErrT = types.NewPointer(p.Type("wrapError").Type())
	}
	ex.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	only := os.Getenv("VERIF_ONLY")
	for _, pk := range l.pkgs {
		if pk == nil {
			continue
		}
		for _, n := range sortedKeys(pk.Members) {
			f, ok := pk.Members[n].(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "VH_"+prop+"_") {
				continue
			}
			if only != "" && !strings.Contains(n, only) {
				continue
			}
			ex.harnesses = append(ex.harnesses, &Harness{name: n, fn: f, asserts: map[string]int{}, reach: map[string]int{}, ends: map[string]int{},
				why: map[string]int{}, viol: map[string]*violRec{}, known: map[string][]uint64{}, unknown: map[string]int{}})
		}
	}
	if len(ex.harnesses) == 0 {
		fmt.Println("note: no harness of", prop, "compiles against this tree; nothing decided")
	}
	rep, err := buildReplayer(l, names, tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep.known = strings.Join(kn, ",")
	if ex.thorough {
		rep.tier = 1
	}
	ex.replayer = rep
	tBuild := time.Since(t0)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	if len(ex.harnesses) > 0 {
		ex.run(nw)
		dumpForks()
	}
	// validate sampled traces against the compiled code
	validated, mismatched := 0, 0
	var mism []string
	var sampleOut []any
	var vwg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var vmu sync.Mutex
	for _, h := range ex.harnesses {
		for _, s := range h.samples {
			vwg.Add(1)
			sem <- struct{}{}
			go func(h *Harness, s sample) {
				defer vwg.Done()
				defer func() { <-sem }()
				r := rep.run(h.name, s.vals, 60*time.Second)
				var obs []string
				for _, ln := range strings.Split(r.out, "\n") {
					if strings.HasPrefix(ln, "OBS ") {
						obs = append(obs, ln)
					}
				}
				ok := !r.timeout && r.exit == 0 && strings.Contains(r.out, "DONE") && strings.Join(obs, "\n") == strings.Join(s.obs, "\n")
				vmu.Lock()
				defer vmu.Unlock()
				if ok {
					validated++
				} else {
					mismatched++
					mism = append(mism, fmt.Sprintf("%s %v: engine %v native %s", h.name, s.vals, s.obs, r.summary()))
				}
				if len(sampleOut) < 6 {
					sampleOut = append(sampleOut, map[string]any{"harness": h.name, "inputs": trunc(s.vals, 40), "observed": truncS(s.obs, 12)})
				}
			}(h, s)
		}
	}
	vwg.Wait()
	// report
	viol := 0
	rdir := filepath.Join(verifDir, "evidence", "cex")
	var hs []any
	totPaths, totBr, totSteps := 0, 0, int64(0)
	incon := []string{}
	for _, h := range ex.harnesses {
		for _, lb := range sortedKeys(h.viol) {
			v := h.viol[lb]
			if v.confirmed > 0 {
				viol++
				os.MkdirAll(rdir, 0o755)
				f := filepath.Join(rdir, fmt.Sprintf("%s-%s-%s.json", prop, h.name, sanitize(lb)))
				b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": h.name, "label": lb, "where": v.at, "values": v.confirmedVals, "native": v.msg}, "", " ")
				os.WriteFile(f, b, 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
				fmt.Printf("  %s: %s at %s; native run: %s\n", h.name, lb, v.at, v.msg)
			} else {
				incon = append(incon, fmt.Sprintf("%s: solver counterexample to %q at %s did not reproduce natively (not reported as a violation)", h.name, lb, v.at))
			}
		}
		for k := range h.unknown {
			incon = append(incon, fmt.Sprintf("%s: %d undecided quer(ies) for %q", h.name, h.unknown[k], k))
		}
		for e, n := range h.ends {
			if !strings.HasPrefix(e, "violated") {
				incon = append(incon, fmt.Sprintf("%s: %d path(s) ended early: %s", h.name, n, e))
			}
		}
		for e, n := range h.why {
			incon = append(incon, fmt.Sprintf("%s: %d x %s", h.name, n, e))
		}
		if len(h.asserts) == 0 && viol == 0 {
			incon = append(incon, h.name+": VACUOUS no assertion reached")
		}
		totPaths += h.paths
		totBr += h.branches
		totSteps += h.steps
		hs = append(hs, map[string]any{"harness": h.name, "paths_completed": h.paths, "paths_cut_by_assume": h.assumed, "forks": h.branches, "instructions": h.steps, "merges": h.merges,
			"assertions": h.asserts, "reached": h.reach, "wall_s": h.wall.Seconds(), "ended_early": h.ends, "paths_beyond_instruction_bound": h.long})
	}
	sort.Strings(incon)
	for _, f := range finds {
		if f.prop != prop {
			continue
		}
		hit := false
		for _, h := range ex.harnesses {
			if vals, ok := h.known[f.id]; ok {
				r := rep.run(h.name, vals, 60*time.Second)
				if strings.Contains(r.out, "KNOWN "+f.id) {
					hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.text, f.id)
					break
				}
			}
		}
		if !hit && viol == 0 {
			fmt.Printf("note: listed finding %s was not observed on this tree\n", f.id)
		}
	}
	var fns []string
	ni := int64(0)
	for f, n := range ex.cov {
		fns = append(fns, strings.TrimPrefix(f.String(), modPath+"/"))
		ni += n
	}
	sort.Strings(fns)
	for n, c := range ex.notes {
		incon = append(incon, fmt.Sprintf("note (%d): %s", c, n))
	}
	for _, b := range l.bad {
		incon = append(incon, "harness file left out: "+b)
	}
	for _, m := range mism {
		incon = append(incon, "trace mismatch: "+m)
	}
	if sampleOut == nil {
		sampleOut = []any{"no completed path"}
	}
	complete := !ex.timedOut && len(incon) == 0
	bounds := readBounds(l, prop)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"coverage": map[string]any{
			"states": totPaths, "transitions": totSteps, "traces_validated_against_impl": validated, "samples": sampleOut,
			"exhaustive_within_bounds": complete, "forks": totBr,
			"solver": map[string]any{"queries": stats.queries.Load(), "sat_by_checked_model": stats.quick.Load(), "sat": stats.sat.Load(), "unsat": stats.unsat.Load(), "unknown": stats.unknown.Load(),
				"portfolio_runs": stats.hard.Load(), "solver_seconds_all_workers": float64(stats.solverNS.Load()) / 1e9, "engines": "z3-new 5.3.2 incremental; portfolio z3-new/cvc5/z3"},
			"functions_encoded": fns, "functions_encoded_count": len(fns), "ssa_instructions_encoded": ni,
			"harnesses": hs, "inconclusive": incon, "bounds": bounds, "trace_mismatches": mismatched,
			"explanation": "states = completed symbolic paths (each stands for all inputs satisfying its path condition); transitions = SSA instructions executed symbolically",
		},
		"assumptions": []string{
			"go/ssa of the current tree is executed symbolically with Go/amd64 integer and IEEE-754 semantics; harness preconditions (rt.Assume and rt.Int ranges) are part of the claim",
			"stubs: logging and fmt are no-ops/opaque, sync primitives and goroutines cooperative, compress/zlib writer modelled as stored blocks, math transcendental functions concrete only",
		},
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries (%d unknown), %d traces validated, %d mismatched, %d violation(s), complete=%v, load %.1fs build %.1fs total %.1fs\n",
		prop, tier, len(ex.harnesses), totPaths, stats.queries.Load(), stats.unknown.Load(), validated, mismatched, viol, complete, tLoad.Seconds(), (tBuild - tLoad).Seconds(), time.Since(t0).Seconds())
	for i, s := range incon {
		if i < 25 {
			fmt.Println("  inconclusive:", s)
		}
	}
	if viol > 0 {
		return 1
	}
	return 0
}

// readBounds collects "// bound: ..." comments of the property's harness files.
func readBounds(l *loaded, prop string) []string {
	var out []string
	for t, s := range l.ov {
		if strings.Contains(t, "/zzverif/") || !strings.Contains(filepath.Base(s), strings.ToLower(prop)+"_") {
			continue
		}
		b, _ := os.ReadFile(s)
		for _, ln := range strings.Split(string(b), "\n") {
			ln = strings.TrimSpace(ln)
			if strings.HasPrefix(ln, "// bound: ") {
				out = append(out, strings.TrimPrefix(ln, "// bound: "))
			}
		}
	}
	sort.Strings(out)
	return out
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

func trunc(v []uint64, n int) []uint64 {
	if len(v) > n {
		return v[:n]
	}
	return v
}
func truncS(v []string, n int) []string {
	if len(v) > n {
		return v[:n]
	}
	return v
}

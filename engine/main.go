package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func stack() string { return string(debug.Stack()) }

type knownEntry struct {
	prop, harness, msg, what string
}

type config struct {
	prop, tier, run, repo, harness, work, evidence, known string
	budget                                                time.Duration
	seed                                                  int64
	verbose                                               bool
	traces                                                int
	race                                                  bool
	only                                                  bool
}

func main() {
	var c config
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&c.run, "run", "", "regexp on harness names")
	flag.StringVar(&c.repo, "repo", "/repo", "repository")
	flag.StringVar(&c.harness, "harness", "/verif/harness", "harness module")
	flag.StringVar(&c.work, "work", "", "scratch directory")
	flag.StringVar(&c.evidence, "evidence", "", "evidence file")
	flag.StringVar(&c.known, "known", "", "known findings file")
	flag.DurationVar(&c.budget, "budget", 240*time.Second, "exploration time")
	flag.IntVar(&c.traces, "traces", 24, "paths of each harness which are replayed against the real code")
	flag.Int64Var(&c.seed, "seed", 1, "seed")
	flag.BoolVar(&c.verbose, "v", false, "verbose")
	flag.BoolVar(&c.race, "race", false, "also replay samples concurrently under the race detector")
	replays := flag.String("replays", "", "directory for replay files")
	flag.Parse()
	if c.work == "" {
		d, err := os.MkdirTemp("", "fvh")
		if err != nil {
			die(err)
		}
		c.work = d
		defer os.RemoveAll(d)
	}
	if *replays == "" {
		*replays = filepath.Join(c.work, "replays")
	}
	os.MkdirAll(*replays, 0o755)
	code := run(&c, *replays)
	if c.work != "" && strings.HasPrefix(c.work, os.TempDir()+"/fvh") {
		os.RemoveAll(c.work)
	}
	os.Exit(code)
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "engine error:", err)
	os.Exit(2)
}

func goEnv(extra ...string) []string {
	return append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"), extra...)
}

func run(c *config, replayDir string) int {
	t0 := time.Now()
	repl, err := makeOverlay(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, "engine error:", err)
		return 2
	}
	overlayFile := filepath.Join(c.work, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(overlayFile, b, 0o644)

	// native build, in parallel with loading
	native := filepath.Join(c.work, "replay")
	var buildErr error
	var buildWG sync.WaitGroup
	buildWG.Add(1)
	go func() {
		defer buildWG.Done()
		buildErr = buildNative(c, overlayFile, native, false)
	}()

	prog, pkgs, err := load(c, repl)
	if err != nil {
		buildWG.Wait()
		if buildErr != nil {
			fmt.Fprintln(os.Stderr, "native build:", buildErr)
		}
		fmt.Fprintln(os.Stderr, "engine error:", err)
		return 2
	}
	tLoad := time.Since(t0)

	ex := &Explorer{p: prog, nworkers: 8, tier: c.tier, seed: c.seed, verbose: c.verbose, traces: c.traces}
	var hpkg *ssa.Package
	for _, p := range pkgs {
		if p != nil && p.Pkg.Path() == "fvh/h" {
			hpkg = p
		}
	}
	re := regexp.MustCompile(c.run)
	var names []string
	for n := range hpkg.Members {
		if strings.HasPrefix(n, c.prop+"_") && re.MatchString(n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.prop)
		return 2
	}
	for _, n := range names {
		f, ok := hpkg.Members[n].(*ssa.Function)
		if !ok {
			continue
		}
		ex.hs = append(ex.hs, &harnessState{name: n, fn: prog.info(f)})
	}
	// also those that are only imported by packages which are not initialised
	var std []string
	for path := range initStd {
		std = append(std, path)
	}
	sort.Strings(std)
	for _, path := range std {
		if pk := prog.prog.ImportedPackage(path); pk != nil && initStd[path] && pk.Func("init") != nil {
			ex.inits = append(ex.inits, prog.info(pk.Func("init")))
		}
	}
	if f := prog.shimPkg.Func("init"); f != nil {
		ex.inits = append(ex.inits, prog.info(f))
	}
	ex.inits = append(ex.inits, prog.info(hpkg.Func("init")))

	buildWG.Wait()
	if buildErr != nil {
		fmt.Fprintln(os.Stderr, "native build:", buildErr)
		return 2
	}
	known := readKnown(c.known, c.prop)
	var vmu sync.Mutex
	ex.known = func(hs *harnessState, msg string) bool {
		for _, k := range known {
			if k.harness == hs.name && k.msg == msg {
				return true
			}
		}
		return false
	}
	ex.onViol = func(hs *harnessState, v *vector) bool {
		vmu.Lock()
		defer vmu.Unlock()
		if ex.isStopped() {
			return false
		}
		if strings.HasPrefix(v.Msg, "race:") {
			return confirmRace(c, overlayFile, v)
		}
		if v.Order {
			v.Repeat = 20000
		}
		rs, err := replay(c, native, []*vector{v})
		if err != nil || len(rs) != 1 {
			if c.verbose {
				fmt.Fprintln(os.Stderr, "replay:", err)
			}
			return false
		}
		ok := rs[0].Outcome == "assert" || rs[0].Outcome == "panic"
		if c.verbose {
			fmt.Fprintf(os.Stderr, "replay %s: %s %s\n", hs.name, rs[0].Outcome, rs[0].Msg)
		}
		return ok
	}
	ex.deadline = time.Now().Add(c.budget)
	if err := ex.run(); err != nil {
		fmt.Fprintln(os.Stderr, "engine error:", err)
		return 2
	}
	tExplore := time.Since(t0) - tLoad

	// validate sampled paths against the real code
	validated, mismatches := 0, []string{}
	if ex.stopWhy != "violation" {
		var vs []*vector
		for _, h := range ex.hs {
			vs = append(vs, h.samples...)
		}
		rs, err := replay(c, native, vs)
		if err != nil {
			// a crash of the whole process: replay one by one
			rs = nil
			for i, v := range vs {
				r1, err := replay(c, native, []*vector{v})
				if err != nil || len(r1) != 1 {
					rs = append(rs, &result{Index: i, Outcome: "crash", Msg: fmt.Sprint(err)})
					continue
				}
				r1[0].Index = i
				rs = append(rs, r1[0])
			}
		}
		byName := map[string]*harnessState{}
		for _, h := range ex.hs {
			byName[h.name] = h
		}
		for i, r := range rs {
			v := vs[i]
			switch {
			case r.Outcome == "complete" && (v.Order || eqObs(v.Obs, r.Obs)):
				validated++
			case r.Outcome == "assert" || r.Outcome == "panic" || r.Outcome == "crash":
				// the real code violates the property on an input the model passed
				hs := byName[v.Harness]
				msg := r.Msg
				if r.Outcome == "panic" {
					msg = "panic: " + msg
				}
				v.Msg = msg
				kn := ex.known(hs, msg)
				if hs.viols[msg] == nil {
					hs.viols[msg] = &violRec{tried: 1, confirmed: 1, known: kn, vec: v}
				}
				if c.verbose {
					fmt.Fprintf(os.Stderr, "native-only violation %s: %s %s\n%s\n", v.Harness, msg, vecText(v), r.Trace)
				}
			default:
				mismatches = append(mismatches, fmt.Sprintf("%s %s: engine %v, native %s %s %v", v.Harness, vecText(v), v.Obs, r.Outcome, r.Msg, r.Obs))
			}
		}
	}
	code := 0
	nviol := 0
	var lines []string
	for _, h := range ex.hs {
		var msgs []string
		for m, v := range h.viols {
			if v.confirmed > 0 {
				msgs = append(msgs, m)
			}
		}
		sort.Strings(msgs)
		for _, m := range msgs {
			v := h.viols[m]
			if v.known {
				continue
			}
			code = 1
			nviol++
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", c.prop, h.name, nviol))
			b, _ := json.MarshalIndent(v.vec, "", " ")
			os.WriteFile(path, b, 0o644)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, path))
			fmt.Printf("violated: %s: %s\n  input: %s\n", h.name, m, vecText(v.vec))
		}
	}
	for _, k := range known {
		for _, h := range ex.hs {
			if h.name == k.harness {
				if v := h.viols[k.msg]; v != nil && v.confirmed > 0 {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.what)
				}
			}
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	report(c, ex, t0, tLoad, tExplore, validated, mismatches, nviol)
	return code
}

func eqObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func report(c *config, ex *Explorer, t0 time.Time, tLoad, tExplore time.Duration, validated int, mismatches []string, nviol int) {
	var states, trans, asserts, paths, complete int64
	var steps int64
	hsInfo := []map[string]any{}
	var samples []any
	allDone := true
	for _, h := range ex.hs {
		states += h.transitions + h.paths
		trans += h.transitions
		asserts += h.asserts
		paths += h.paths
		complete += h.complete
		steps += h.steps
		inc := h.incomplete()
		if len(inc) > 0 {
			allDone = false
		}
		hsInfo = append(hsInfo, map[string]any{
			"harness": h.name, "paths": h.paths, "completed_paths": h.complete, "assertions_decided": h.asserts, "forks": h.transitions,
			"reached": h.covers, "bounds": h.bounds, "exhausted_within_bounds": len(inc) == 0, "outside": inc, "cpu_s": h.busy.Seconds(),
		})
		for i, s := range h.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": vecText(s), "observed": s.Obs})
			}
		}
	}
	var fns []string
	for n := range ex.stats.covered {
		if strings.Contains(n, "fastac") {
			fns = append(fns, n)
		}
	}
	sort.Strings(fns)
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nviol,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"paths": paths, "completed_paths": complete, "assertions_decided": asserts, "ssa_instructions_executed": steps,
			"solver_queries": ex.stats.queries, "solver_queries_cached": ex.stats.cached, "branch_conditions_by_all_values": ex.stats.byValues, "excluded_branches_confirmed_by_solver": ex.stats.confirmed, "solver_sat": ex.stats.sat, "solver_unsat": ex.stats.unsat, "solver_unknown": ex.stats.unknown,
			"solver_s": ex.stats.solver.Seconds(), "functions_encoded": fns, "harnesses": hsInfo, "exhausted_within_bounds": allDone,
			"validation_mismatches": mismatches, "stopped": ex.stopWhy, "load_s": tLoad.Seconds(), "explore_s": tExplore.Seconds(),
		},
		"assumptions": []string{
			"inputs range over the bounds listed for each harness; the concrete definitions, rules and sequences around them are those of the harness functions (/verif/harness/h)",
			"standard library formatting, sync.Map, regexp and file system are modelled by /verif/harness/shim, /verif/harness/vfs and /verif/engine/natives.go",
		},
	}
	if c.evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(c.evidence), 0o755)
		os.WriteFile(c.evidence, append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d completed), %d assertions, %d queries (+%d cached, %d by values, %d confirmed, %d whole), %.1fs solver, %d traces validated, %d mismatches, load %.1fs, explore %.1fs, exhausted=%v %s\n", c.prop, c.tier, len(ex.hs), paths, complete, asserts,
		ex.stats.queries, ex.stats.cached, ex.stats.byValues, ex.stats.confirmed, ex.stats.whole, ex.stats.solver.Seconds(), validated, len(mismatches), tLoad.Seconds(), tExplore.Seconds(), allDone, ex.stopWhy)
	for _, h := range ex.hs {
		inc := h.incomplete()
		if len(inc) > 0 || c.verbose {
			fmt.Printf("  %s: paths=%d complete=%d infeasible=%d asserts=%d cpu=%.1fs wall=%.1fs covers=%v\n", h.name, h.paths, h.complete, h.infeasible, h.asserts, h.busy.Seconds(), h.ended.Sub(h.started).Seconds(), h.covers)
			for _, s := range inc {
				fmt.Println("    outside:", s)
			}
		}
	}
	for i, m := range mismatches {
		if i < 5 {
			fmt.Println("  mismatch:", m)
		}
	}
}

// --- native side ---

type result struct {
	Index   int      `json:"index"`
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Trace   string   `json:"trace"`
	Runs    int      `json:"runs"`
}

var replaySeq struct {
	sync.Mutex
	n int
}

func replay(c *config, bin string, vs []*vector) ([]*result, error) {
	if len(vs) == 0 {
		return nil, nil
	}
	replaySeq.Lock()
	replaySeq.n++
	f := filepath.Join(c.work, fmt.Sprintf("vec%d.json", replaySeq.n))
	replaySeq.Unlock()
	b, _ := json.Marshal(vs)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	dir, err := os.MkdirTemp(c.work, "cwd")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command("timeout", "60", bin, f)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	e := cmd.Run()
	var rs []*result
	dec := json.NewDecoder(&out)
	for dec.More() {
		var r result
		if err := dec.Decode(&r); err != nil {
			break
		}
		rs = append(rs, &r)
	}
	if len(rs) != len(vs) {
		t := errb.String()
		if len(t) > 2000 {
			t = t[:2000]
		}
		if x, ok := e.(*exec.ExitError); ok && len(vs) == 1 && x.ExitCode() == 124 {
			return []*result{{Outcome: "panic", Msg: "no answer within 60 s"}}, nil
		}
		if len(vs) == 1 && e != nil {
			// the process died on this input
			if strings.Contains(t, "fatal error") || strings.Contains(t, "goroutine ") {
				return []*result{{Outcome: "panic", Msg: "fatal: " + strings.SplitN(t, "\n", 2)[0], Trace: t}}, nil
			}
		}
		return nil, fmt.Errorf("replay produced %d of %d results: %v %s", len(rs), len(vs), e, t)
	}
	return rs, nil
}

var raceBin struct {
	once sync.Once
	path string
	err  error
}

// confirmRace runs the input under the race detector.
func confirmRace(c *config, overlay string, v *vector) bool {
	raceBin.once.Do(func() {
		raceBin.path = filepath.Join(c.work, "replay-race")
		raceBin.err = buildNative(c, overlay, raceBin.path, true)
	})
	if raceBin.err != nil {
		fmt.Fprintln(os.Stderr, "race build:", raceBin.err)
		return false
	}
	v.Repeat = 20000 // a race needs the right interleaving; every run starts afresh
	f := filepath.Join(c.work, "race.json")
	b, _ := json.Marshal([]*vector{v})
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return false
	}
	cmd := exec.Command("timeout", "60", raceBin.path, f)
	cmd.Dir = c.work
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	out, _ := cmd.CombinedOutput()
	hit := strings.Contains(string(out), "DATA RACE") || strings.Contains(string(out), "concurrent map")
	if c.verbose {
		fmt.Fprintf(os.Stderr, "race replay %s: %v\n%.1500s\n", v.Harness, hit, out)
	}
	return hit
}

func buildNative(c *config, overlay, out string, race bool) error {
	args := []string{"build", "-overlay", overlay, "-o", out}
	env := goEnv("CGO_ENABLED=0")
	if race {
		args = append(args, "-race")
		env = goEnv("CGO_ENABLED=1")
	}
	args = append(args, "./cmd/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = c.harness
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, b)
	}
	return nil
}

// makeOverlay writes the registry and the file-system redirected copies of the repository's files.
func makeOverlay(c *config) (map[string]string, error) {
	repl := map[string]string{}
	// registry
	hs := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(c.harness, "h", "*.go"))
	fset := token.NewFileSet()
	for _, f := range files {
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && regexp.MustCompile(`^C\d\d_`).MatchString(fd.Name.Name) {
				hs[fd.Name.Name] = true
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"fvh/h\"\n\nvar registry = map[string]func(){\n")
	var names []string
	for n := range hs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(c.work, "reg.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	repl[filepath.Join(c.harness, "cmd", "replay", "reg.go")] = reg

	// file system
	vnames := map[string]bool{}
	vf, _ := filepath.Glob(filepath.Join(c.harness, "vfs", "*.go"))
	for _, f := range vf {
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for n := range a.Scope.Objects {
			vnames[n] = true
		}
	}
	n := 0
	err := filepath.Walk(c.repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			switch info.Name() {
			case ".git", "node_modules", "examples", "bench", "testutil", "log":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, changed, err := redirect(path, src, vnames)
		if err != nil {
			return err
		}
		if changed {
			n++
			dst := filepath.Join(c.work, fmt.Sprintf("redir%d.go", n))
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return err
			}
			repl[path] = dst
		}
		return nil
	})
	return repl, err
}

var redirected = map[string]string{"os": "", "io/ioutil": "", "path/filepath": "Filepath"}

// redirect replaces os.X by vfs.X for every X the model provides.
func redirect(path string, src []byte, vnames map[string]bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, nil // the build reports it
	}
	names := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if _, ok := redirected[p]; ok {
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			names[n] = p
		}
	}
	if len(names) == 0 {
		return nil, false, nil
	}
	type edit struct {
		off, end int
		text     string
	}
	var edits []edit
	left := map[string]bool{}
	used := false
	ast.Inspect(f, func(nd ast.Node) bool {
		s, ok := nd.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := names[id.Name]
		if !ok {
			return true
		}
		if vnames[redirected[p]+s.Sel.Name] {
			o := fset.Position(id.Pos()).Offset
			e := fset.Position(s.Sel.End()).Offset
			edits = append(edits, edit{o, e, "fvhvfs." + redirected[p] + s.Sel.Name})
			used = true
		} else {
			left[id.Name] = true
		}
		return true
	})
	if !used {
		return nil, false, nil
	}
	// imports: drop those without remaining uses, add vfs
	first := true
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if _, ok := redirected[p]; !ok {
			continue
		}
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		if !left[n] {
			o := fset.Position(im.Pos()).Offset
			e := fset.Position(im.End()).Offset
			t := "_ \"" + p + "\""
			if first {
				t = "fvhvfs \"fvh/vfs\""
				first = false
			}
			edits = append(edits, edit{o, e, t})
		}
	}
	if first {
		// keep the import, add another one
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				o := fset.Position(gd.Pos()).Offset
				edits = append(edits, edit{o, o, "import fvhvfs \"fvh/vfs\"; "})
				break
			}
		}
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
	out := append([]byte(nil), src...)
	for _, e := range edits {
		out = append(out[:e.off:e.off], append([]byte(e.text), out[e.end:]...)...)
	}
	return out, true, nil
}

// --- loading ---

var initStd = map[string]bool{
	"errors": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "bytes": true, "bufio": true,
	"io": true, "io/fs": true, "io/ioutil": true, "encoding/csv": true, "path": true, "path/filepath": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "math": true, "math/bits": true, "internal/oserror": true, "container/list": true, "iter": true,
	"unicode/utf16": true, "internal/stringslite": true, "internal/bytealg": true, "internal/filepathlite": true, "internal/itoa": true, "net/netip": true,
	"text/tabwriter": true, "container/heap": true, "container/ring": true, "encoding/binary": true, "hash/fnv": true, "hash": true, "hash/maphash": false,
	"encoding/hex": true, "encoding/base64": true,
	"internal/strconv": true,
}

func load(c *config, repl map[string]string) (*Program, []*ssa.Package, error) {
	overlay := map[string][]byte{}
	for k, v := range repl {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: c.harness, Env: goEnv("CGO_ENABLED=0"), Overlay: overlay,
	}
	pk, err := packages.Load(cfg, "fvh/h", "fvh/shim")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.BareInits*0)
	prog.Build()
	std := map[string]bool{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if p.Module == nil {
			std[p.PkgPath] = true
		}
	})
	p := &Program{prog: prog, fns: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]int32{}, shims: map[string]*ssa.Function{}}
	p.skipInit = func(path string) bool {
		if strings.HasPrefix(path, "github.com/sirupsen/") || strings.HasPrefix(path, "golang.org/x/sys") {
			return true
		}
		return std[path] && !initStd[path]
	}
	p.isTarget = func(path string) bool {
		return strings.HasPrefix(path, "github.com/abichinger/fastac") || strings.HasPrefix(path, "github.com/abichinger/govaluate") || strings.HasPrefix(path, "github.com/vansante/") || strings.HasPrefix(path, "github.com/go-ini/")
	}
	for i, x := range pk {
		if x.PkgPath != "fvh/shim" {
			continue
		}
		p.shimPkg = pkgs[i]
		for _, f := range x.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					if n, ok := strings.CutPrefix(strings.Replace(cm.Text, "// shim:", "//shim:", 1), "//shim:"); ok {
						p.shims[strings.TrimSpace(n)] = pkgs[i].Func(fd.Name.Name)
					}
				}
			}
		}
		p.rtErr = canon(pkgs[i].Pkg.Scope().Lookup("RuntimeError").Type())
	}
	return p, pkgs, nil
}

func readKnown(file, prop string) []knownEntry {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C05 harness=C05_x msg="..." what fails
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" ")
		l = strings.TrimPrefix(l, "harness=")
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		k := knownEntry{prop: prop, harness: l[:i]}
		l = strings.TrimPrefix(l[i+1:], "msg=")
		q, err := strconv.QuotedPrefix(l)
		if err != nil {
			continue
		}
		k.msg, _ = strconv.Unquote(q)
		k.what = strings.TrimSpace(l[len(q):])
		r = append(r, k)
	}
	return r
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func main() {
	if d := os.Getenv("GOSMT_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("GOSMT_VERIF"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosmt check PROPERTY | run PKG REGEXP | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		quit(check(os.Args[2]))
	case "run":
		re := "."
		if len(os.Args) > 3 {
			re = os.Args[3]
		}
		quit(runDebug(os.Args[2], re))
	case "replay":
		quit(replayCmd(os.Args[2]))
	case "list":
		for _, h := range findHarnesses(os.Args[2]) {
			fmt.Println(h.pkg, h.fn)
		}
	}
}

func quit(code int) {
	if rootTmp != "" {
		os.RemoveAll(rootTmp)
	}
	os.Exit(code)
}

type harness struct{ pkg, fn string }

var harnessRE = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)\s+\{`)

// findHarnesses lists the harness functions of a property.
func findHarnesses(prop string) []harness {
	var out []harness
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range harnessRE.FindAllStringSubmatch(string(b), -1) {
			if prop == "all" || strings.HasPrefix(m[1], prop+"_") {
				out = append(out, harness{filepath.Base(filepath.Dir(f)), m[1]})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].pkg != out[j].pkg {
			return out[i].pkg < out[j].pkg
		}
		return out[i].fn < out[j].fn
	})
	return out
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func nworkers() int {
	if s := os.Getenv("GOSMT_WORKERS"); s != "" {
		n, _ := strconv.Atoi(s)
		return max(n, 1)
	}
	return max(1, min(8, runtime.NumCPU()))
}

type knownFinding struct{ prop, id, text string }

func loadKnown(prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && (prop == "" || m[1] == prop) {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

func check(prop string) int {
	t0 := time.Now()
	tr := tier()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hs := findHarnesses(prop)
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop)
		return 2
	}
	total := 240 * time.Second
	if tr == "thorough" {
		total = 800 * time.Second
	}
	if s := os.Getenv("GOSMT_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			total = time.Duration(n) * time.Second
		}
	}
	byPkg := map[string][]harness{}
	var pkgs []string
	for _, h := range hs {
		if byPkg[h.pkg] == nil {
			pkgs = append(pkgs, h.pkg)
		}
		byPkg[h.pkg] = append(byPkg[h.pkg], h)
	}
	known := map[string]bool{}
	for _, k := range loadKnown(prop) {
		known[k.id] = true
	}
	var all []*Explorer
	var confirmed *violation
	var unconfirmed []*violation
	knownHit := map[string]string{}
	validated, mismatches := 0, []string{}
	exit := 0
	left := len(hs)
	var errs []string
	for _, pkg := range pkgs {
		p, err := loadProgram(repoDir, filepath.Join(verifDir, "harness"), []string{pkg})
		if err != nil {
			// the tree does not build with the harness: no answer
			fmt.Println("ERROR:", err)
			return 2
		}
		rn := newRunner(pkg)
		rn.buildAsync()
		for _, h := range byPkg[pkg] {
			fn := p.pkgs[zzPrefix+pkg].Func(h.fn)
			x := newExplorer(p, fn, tr)
			x.knownFindings = known
			budget := (total - time.Since(t0)) / time.Duration(left)
			least := 25 * time.Second // some more than its share on a busy machine
			if total > 5*time.Minute {
				least = 10 * time.Second
			}
			if budget < least {
				budget = least
			}
			// harnesses that end early leave their share to the following ones, but none may starve the rest
			x.run(nworkers(), budget)
			left--
			all = append(all, x)
			for k, msg := range x.known {
				knownHit[k] = msg
			}
			fmt.Printf("%s: %d paths (%s) %d branches %d asserts %d queries %.1fs solver, wall %.1fs, steps %d\n", h.fn, sumCounts(x.counts), countsText(x.counts),
				x.branches.Load(), x.asserts.Load(), x.stats.Queries, x.stats.Time.Seconds(), x.wall.Seconds(), x.steps)
			for _, vi := range x.viols {
				vi.Pkg = pkg
				ok, how := rn.confirm(vi)
				vi.Where = how
				if ok {
					confirmed = vi
					break
				}
				if vi.Kind == "steps" {
					x.incomplete["bound: "+vi.Msg]++
					continue
				}
				if vi.Nondet {
					vi.Where = "the engine's schedule of the real code; not hit by native repetitions"
					confirmed = vi
					break
				}
				unconfirmed = append(unconfirmed, vi)
			}
			if confirmed != nil {
				break
			}
			n, mm, vio := rn.validate(x)
			validated += n
			mismatches = append(mismatches, mm...)
			if vio != nil {
				vio.Pkg = pkg
				confirmed = vio
				break
			}
			for e := range x.engineErrs {
				errs = append(errs, h.fn+": "+e)
			}
			done := x.counts["done"] + x.counts["known"]
			if done == 0 && len(x.viols) == 0 {
				errs = append(errs, fmt.Sprintf("%s: no path completed: %v %v", h.fn, sortedKeys(x.incomplete), sortedKeys(x.unsupported)))
			}
		}
		rn.close()
		if confirmed != nil {
			break
		}
	}
	if confirmed != nil {
		path := saveReplay(prop, confirmed)
		fmt.Printf("violated: %s: %s (%s)\n  confirmed by: %s\n", confirmed.Fn, confirmed.Msg, confirmed.Kind, confirmed.Where)
		for _, c := range confirmed.Choices {
			if len(confirmed.Choices) <= 60 {
				fmt.Printf("  %s = %d\n", c.N, c.V)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit = 1
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, knownHit[k])
	}
	for _, u := range unconfirmed {
		errs = append(errs, fmt.Sprintf("counterexample not reproduced natively: %s: %s (%s)", u.Fn, u.Msg, u.Where))
		saveReplay(prop+"-unconfirmed", u)
	}
	errs = append(errs, mismatches...)
	if exit == 0 && len(errs) > 0 {
		sort.Strings(errs)
		for i, e := range errs {
			if i < 10 {
				fmt.Println("ERROR:", e)
			}
		}
		exit = 2
	}
	writeEvidence(prop, tr, seed, all, validated, exit, confirmed, knownHit, errs, time.Since(t0))
	return exit
}

func sumCounts(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func countsText(m map[string]int) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s %d", k, m[k]))
	}
	return strings.Join(s, ", ")
}

func saveReplay(prop string, v *violation) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(prop, tr string, seed int, xs []*Explorer, validated, exit int, vio *violation, known map[string]string, errs []string, wall time.Duration) {
	var st SolverStats
	states, trans := 0, int64(0)
	bounds := map[string]any{}
	funcs := map[string]bool{}
	incomplete := map[string]int{}
	reached := map[string]int{}
	per := []any{}
	var samples []any
	outside := []string{}
	asserts, asserts2 := int64(0), int64(0)
	for _, x := range xs {
		st.add(&x.stats)
		states += sumCounts(x.counts) + int(x.branches.Load())
		trans += x.steps
		asserts += x.asserts.Load()
		asserts2 += x.asserts2.Load()
		for f := range x.funcs {
			n := fnName(f)
			if strings.Contains(n, "recengine/internal/zzverif") {
				continue
			}
			if _, ok := intrinsics[n]; ok {
				continue
			}
			funcs[n] = true
		}
		for k, v := range x.bounds {
			bounds[x.name+"/"+k] = v
		}
		for k, v := range x.incomplete {
			incomplete[x.name+": "+k] += v
		}
		for k, v := range x.unsupported {
			incomplete[x.name+": not encodable: "+k] += v
		}
		for k, v := range x.reached {
			reached[x.name+"/"+k] += v
		}
		per = append(per, map[string]any{
			"harness": x.name, "paths": x.counts, "branch_decisions": x.branches.Load(), "assertions": x.asserts.Load(),
			"assertions_with_symbolic_condition": x.asserts2.Load(), "instructions": x.steps, "longest_decision_sequence": x.maxDepth,
			"longest_path_instructions": x.maxPathSteps, "solver_queries": x.stats.Queries, "solver_s": x.stats.Time.Seconds(), "wall_s": x.wall.Seconds(),
		})
		for i, s := range x.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": x.name, "inputs": trimChoices(s.choices), "observed": s.obs})
			}
		}
	}
	if vio != nil {
		samples = append([]any{map[string]any{"violation": vio.Msg, "harness": vio.Fn, "inputs": trimChoices(vio.Choices)}}, samples...)
	}
	if len(samples) == 0 {
		for _, x := range xs {
			samples = append(samples, map[string]any{"harness": x.name, "paths": x.counts})
		}
	}
	var own, lib []string
	for f := range funcs {
		if strings.Contains(f, "recengine/") {
			own = append(own, f)
		} else {
			lib = append(lib, f)
		}
	}
	sort.Strings(own)
	sort.Strings(lib)
	for _, k := range sortedKeys(incomplete) {
		outside = append(outside, fmt.Sprintf("%s (%d paths)", k, incomplete[k]))
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated,
		"samples":           samples,
		"functions_encoded": own, "library_functions_encoded": lib,
		"bounds": bounds, "outside_the_claim": outside,
		"queries_discharged": st.Queries, "queries_sat": st.SatN, "queries_unsat": st.UnsatN, "queries_unknown": st.UnknownN,
		"query_cache_hits": st.CacheHits, "solver_s": st.Time.Seconds(), "solver": "z3 5.3.2 (z3-new)",
		"assertions": asserts, "assertions_symbolic": asserts2,
		"reachability_witnesses": reached, "harnesses": per,
		"exhaustive":              len(incomplete) == 0 && exit != 2,
		"known_findings_hit":      known,
		"cross_checked_with_cvc5": st.CrossChecked,
		"meaning":                 "states = ended symbolic paths + branch decisions; transitions = SSA instructions executed symbolically; traces_validated_against_impl = paths re-run natively with the solver's values and equal observations",
	}
	if len(errs) > 0 {
		cov["errors"] = errs
	}
	nv := 0
	if vio != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tr, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"Go semantics as implemented by gosmt's translation of go/ssa; library primitives modelled by hand: sync, sync/atomic, time, fmt, encoding/binary, encoding/json, regexp matching, errors.Is/As, sort.Slice (see DESIGN.md)",
			"storage media are the model files in harness/*/; goroutines interleave at synchronisation operations only, with the stated preemption bound",
		},
		"wall_s": wall.Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

func trimChoices(cs []choiceVal) any {
	if len(cs) > 80 {
		return map[string]any{"first": cs[:80], "total": len(cs)}
	}
	return cs
}

func runDebug(pkg, re string) int {
	r := regexp.MustCompile(re)
	t0 := time.Now()
	p, err := loadProgram(repoDir, filepath.Join(verifDir, "harness"), []string{pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	known := map[string]bool{}
	for _, k := range loadKnown("") {
		known[k.id] = true
	}
	rn := newRunner(pkg)
	defer rn.close()
	if os.Getenv("NOREPLAY") == "" {
		rn.buildAsync()
	}
	var names []string
	for n := range p.pkgs[zzPrefix+pkg].Members {
		if regexp.MustCompile(`^C\d\d_`).MatchString(n) && r.MatchString(n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	rc := 0
	for _, n := range names {
		x := newExplorer(p, p.pkgs[zzPrefix+pkg].Func(n), tier())
		x.knownFindings = known
		b := 120
		if s := os.Getenv("GOSMT_BUDGET"); s != "" {
			b, _ = strconv.Atoi(s)
		}
		x.run(nworkers(), time.Duration(b)*time.Second)
		fmt.Printf("%s: %d paths (%s) %d branches, %d asserts (%d symbolic), %d queries (%d cached, %d unknown) %.1fs solver, wall %.1fs, steps %d (max %d), depth %d\n", n, sumCounts(x.counts), countsText(x.counts),
			x.branches.Load(), x.asserts.Load(), x.asserts2.Load(), x.stats.Queries, x.stats.CacheHits, x.stats.UnknownN, x.stats.Time.Seconds(), x.wall.Seconds(), x.steps, x.maxPathSteps, x.maxDepth)
		fmt.Printf("   bounds %v reached %v\n", x.bounds, x.reached)
		for _, m := range []map[string]int{x.incomplete, x.unsupported, x.engineErrs} {
			for _, k := range sortedKeys(m) {
				fmt.Printf("   ! %d x %s\n", m[k], k)
			}
		}
		for k, v := range x.known {
			fmt.Printf("   KNOWN %s %s\n", k, v)
		}
		for _, v := range x.viols {
			v.Pkg = pkg
			fmt.Printf("   VIOLATION %s %s\n      schedule %v\n", v.Kind, v.Msg, v.Schedule)
			if len(v.Choices) < 200 {
				fmt.Printf("      choices %v\n", v.Choices)
			}
			rc = 1
			if os.Getenv("NOREPLAY") == "" {
				ok, how := rn.confirm(v)
				fmt.Printf("      confirmed=%v %s\n", ok, how)
				fmt.Printf("      saved %s\n", saveReplay("debug-"+n, v))
			}
		}
		if os.Getenv("NOREPLAY") == "" {
			k, mm, vio := rn.validate(x)
			fmt.Printf("   validated %d sample paths natively, mismatches %v\n", k, mm)
			if vio != nil {
				fmt.Printf("   NATIVE VIOLATION %s\n", vio.Msg)
				rc = 1
			}
		}
	}
	return rc
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	rn := newRunner(v.Pkg)
	defer rn.close()
	ok, how := rn.confirm(&v)
	fmt.Printf("%s: %s\nreproduced: %v (%s)\n", v.Fn, v.Msg, ok, how)
	if ok {
		return 1
	}
	return 0
}

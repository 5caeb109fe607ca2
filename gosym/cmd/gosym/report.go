package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/gosym/vm"
)

type report struct {
	prop, tier         string
	tierN              int
	seed               int64
	known              []knownF
	start              time.Time
	loadWall, explWall time.Duration
	bin                string
	natErr             error
}

var unsafeName = regexp.MustCompile(`[^A-Za-z0-9_.-]+`)

func (r *report) finish(hs []*harness) int {
	var act []*harness
	for _, h := range hs {
		if !h.skip {
			act = append(act, h)
		}
	}
	if r.natErr != nil {
		fmt.Printf("ERROR: native replay binary: %v\n", r.natErr)
		if !*fNoNat {
			return 2
		}
	}
	type found struct {
		v    *vm.Violation
		h    *harness
		conf bool
		nat  natRun
	}
	// one representative set per label
	var fs []*found
	for _, h := range act {
		seen := map[string]int{}
		for _, v := range h.viol {
			k := v.Kind + v.Label
			if seen[k] >= 6 {
				continue
			}
			seen[k]++
			fs = append(fs, &found{v: v, h: h})
		}
	}
	// confirm natively
	confirmed := map[string]*found{}
	var mu sync.Mutex
	sem := make(chan struct{}, *fWorkers)
	var wg sync.WaitGroup
	deadline := time.Now().Add(120 * time.Second)
	for _, f := range fs {
		if r.natErr != nil {
			break
		}
		wg.Add(1)
		go func(f *found) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			key := f.h.name + f.v.Kind + f.v.Label
			tries := f.h.tries
			if f.v.Kind == "deadlock" {
				tries = 4
			}
			for i := 0; i < tries && time.Now().Before(deadline); i++ {
				mu.Lock()
				done := confirmed[key] != nil
				mu.Unlock()
				if done {
					return
				}
				n := runNative(r.bin, f.h.name, f.v.Inputs, r.tierN, r.known, f.h.timeout, f.h.env)
				f.nat = n
				if reproduces(f.v, n) {
					f.conf = true
					mu.Lock()
					if confirmed[key] == nil {
						confirmed[key] = f
					}
					mu.Unlock()
					return
				}
			}
		}(f)
	}
	wg.Wait()
	// validate sampled paths
	var validated, mismatch int
	var mism []string
	var samples []any
	for _, h := range act {
		if r.natErr != nil {
			break
		}
		for i := range h.samples {
			s := h.samples[i]
			if s.Inputs == nil {
				continue
			}
			wg.Add(1)
			go func(h *harness, s vm.PathSample) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				var last natRun
				for t := 0; t < 30; t++ {
					last = runNative(r.bin, h.name, s.Inputs, r.tierN, r.known, h.timeout, h.env)
					if last.code == 0 && eq(last.obs, s.Obs) {
						mu.Lock()
						validated++
						if len(samples) < 8 {
							samples = append(samples, map[string]any{"harness": h.name, "inputs": s.Inputs, "observed": s.Obs})
						}
						mu.Unlock()
						return
					}
					if last.code == 6 {
						break
					}
				}
				mu.Lock()
				mismatch++
				if len(mism) < 10 {
					mism = append(mism, fmt.Sprintf("%s: inputs %s: native exit %d %q obs %v, symbolic obs %v", h.name, shortIn(s.Inputs), last.code, last.head, last.obs, s.Obs))
				}
				mu.Unlock()
			}(h, s)
		}
	}
	wg.Wait()

	// output
	nviol := 0
	var violOut []any
	var unconf []string
	keys := []string{}
	for k := range confirmed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := confirmed[k]
		nviol++
		dir := filepath.Join(*fVerif, "evidence", "replays")
		_ = os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, unsafeName.ReplaceAllString(r.prop+"-"+f.h.name+"-"+f.v.Label, "_")+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": r.prop, "tier": r.tierN, "harness": f.v.Harness, "label": f.v.Label, "kind": f.v.Kind, "msg": f.v.Msg, "inputs": f.v.Inputs, "where": f.v.Where, "observations": f.v.Trace, "native": f.nat.out, "rerun": "bash /verif/check.sh replay " + file}, "", " ")
		_ = os.WriteFile(file, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, file)
		fmt.Printf("  harness %s: %s %s %s\n  inputs %s\n  native: %s\n", f.h.name, f.v.Kind, f.v.Label, f.v.Msg, shortIn(f.v.Inputs), f.nat.head)
		if *fVerbose {
			fmt.Println(f.v.Where)
		}
		violOut = append(violOut, map[string]any{"harness": f.h.name, "label": f.v.Label, "kind": f.v.Kind, "msg": f.v.Msg, "inputs": f.v.Inputs})
	}
	for _, f := range fs {
		if confirmed[f.h.name+f.v.Kind+f.v.Label] == nil {
			unconf = append(unconf, fmt.Sprintf("%s: %s %s %s inputs %s; native exit %d %s", f.h.name, f.v.Kind, f.v.Label, f.v.Msg, shortIn(f.v.Inputs), f.nat.code, f.nat.head))
			if *fVerbose {
				fmt.Println(f.v.Where)
			}
		}
	}
	for _, u := range unconf {
		fmt.Println("UNCONFIRMED (not reported):", u)
	}
	for _, m := range mism {
		fmt.Println("MISMATCH:", m)
	}
	knownSeen := map[string]int{}
	for _, h := range act {
		for k, n := range h.st.Known {
			knownSeen[k] += n
		}
	}
	for _, k := range r.known {
		if knownSeen[k.id] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.prop, k.id, k.text)
		}
	}
	// totals
	tot := vm.Stats{}
	var q solverCount
	funcs := map[string]bool{}
	var per []any
	reduced := []string{}
	vac := []string{}
	for _, h := range act {
		s := &h.st
		tot.Paths += s.Paths
		tot.PathsOK += s.PathsOK
		tot.AssumeFail += s.AssumeFail
		tot.Steps += s.Steps
		tot.Choices += s.Choices
		tot.Asserts += s.Asserts
		tot.AssertConc += s.AssertConc
		tot.AssertSym += s.AssertSym
		tot.AssertUnknown += s.AssertUnknown
		q.Queries += h.q.Queries
		q.Sat += h.q.Sat
		q.Unsat += h.q.Unsat
		q.Unknown += h.q.Unknown
		q.Time += h.q.Time
		for f := range h.funcs {
			funcs[f] = true
		}
		for k, n := range s.Unsupported {
			reduced = append(reduced, fmt.Sprintf("%s: %d path(s) not decided: %s", h.name, n, k))
		}
		if s.Truncated {
			reduced = append(reduced, fmt.Sprintf("%s: exploration stopped early after %d paths", h.name, s.Paths))
		}
		if s.AssertUnknown > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d assertions unknown to the solver", h.name, s.AssertUnknown))
		}
		if s.Asserts == 0 || (s.PathsOK == 0 && len(h.viol) == 0) {
			vac = append(vac, h.name+": no path reached an assertion and completed")
		}
		for _, l := range h.reach {
			if s.Reached[l] == 0 && len(h.viol) == 0 && !s.Truncated {
				vac = append(vac, h.name+": never reached "+l)
			}
		}
		per = append(per, map[string]any{"harness": h.name, "bounds": h.doc, "paths": s.Paths, "completed": s.PathsOK, "assumed_away": s.AssumeFail, "assertions": s.Asserts, "decided_by_constant_folding": s.AssertConc, "decided_by_solver": s.AssertSym, "queries": h.q.Queries, "solver_s": h.q.Time.Seconds(), "cpu_wall_s": h.wall.Seconds(), "witnesses": s.Reached, "exhaustive": !s.Truncated && len(s.Unsupported) == 0})
		fmt.Printf("%-34s paths %d (ok %d, assumed away %d) asserts %d (solver %d) queries %d steps %d %.1fs\n", h.name, s.Paths, s.PathsOK, s.AssumeFail, s.Asserts, s.AssertSym, h.q.Queries, s.Steps, h.wall.Seconds())
	}
	sort.Strings(reduced)
	for _, x := range reduced {
		fmt.Println("REDUCED-BOUND:", x)
	}
	for _, x := range vac {
		fmt.Println("VACUOUS:", x)
	}
	fl := []string{}
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	if violOut == nil {
		violOut = []any{}
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        tot.PathsOK,
			"transitions":                   tot.Steps,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"states_meaning":                "symbolic paths explored to completion; each stands for every concrete input satisfying its path condition",
			"transitions_meaning":           "SSA instructions of the real code executed symbolically",
			"forks":                         tot.Choices,
			"assumed_away_paths":            tot.AssumeFail,
			"assertions":                    map[string]int{"evaluated": tot.Asserts, "decided_by_constant_folding": tot.AssertConc, "decided_by_solver": tot.AssertSym, "unknown": tot.AssertUnknown},
			"solver":                        map[string]any{"binary": *fSolver, "queries": q.Queries, "sat": q.Sat, "unsat": q.Unsat, "unknown": q.Unknown, "seconds": q.Time.Seconds()},
			"functions_encoded":             fl,
			"functions_encoded_count":       len(fl),
			"harnesses":                     per,
			"exhaustive":                    len(reduced) == 0,
			"reduced_bounds":                reduced,
			"unconfirmed_counterexamples":   unconf,
			"native_mismatches":             mism,
			"violations_found":              violOut,
			"load_s":                        r.loadWall.Seconds(),
			"exploration_s":                 r.explWall.Seconds(),
		},
		"assumptions": assumptions(r.prop),
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	if *fOnly == "" {
		if err := os.WriteFile(filepath.Join(*fVerif, "evidence", r.prop+".json"), b, 0o644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d native validations, %d mismatches, %d functions, %.1fs\n", r.prop, r.tier, tot.Paths, tot.Asserts, q.Queries, q.Time.Seconds(), validated, mismatch, len(fl), time.Since(r.start).Seconds())
	if nviol > 0 {
		return 1
	}
	if len(vac) > 0 && len(vac) >= len(act) && len(unconf) == 0 {
		return 2
	}
	if tot.PathsOK == 0 {
		return 2
	}
	return 0
}

func assumptions(prop string) []string {
	out := []string{
		"bounds are those stated per harness under coverage.harnesses[].bounds; nothing outside them is claimed",
		"logging is replaced by an empty model; the clock is a counter that only Sleep advances; goroutines run until they block (no preemption inside flow code)",
		"library code modelled by the engine rather than interpreted: reflect, encoding/json, fmt formatting, sync, time, os environment, strconv on symbolic text",
	}
	b, err := os.ReadFile(filepath.Join(*fVerif, "assumptions.json"))
	if err == nil {
		var m map[string][]string
		if json.Unmarshal(b, &m) == nil {
			out = append(out, m[prop]...)
		}
	}
	return out
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func shortIn(in []vm.ReplayInput) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteString(" ")
		}
		if x.Kind == "str" {
			fmt.Fprintf(&sb, "%s=%q", x.Name, x.Str)
		} else {
			fmt.Fprintf(&sb, "%s=%d", x.Name, x.Int)
		}
	}
	return sb.String()
}

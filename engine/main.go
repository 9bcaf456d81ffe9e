// geoqlsym decides properties of go-geoql-parser by symbolic execution of its
// Go SSA (regenerated from /repo on every run) with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

const repoMod = "github.com/mmadfox/go-geoql-parser"

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(4 << 30)
	if len(os.Args) < 2 {
		fatal("usage: geoqlsym check|explore|replay ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	tierS := fs.String("tier", "quick", "quick or thorough")
	root := fs.String("root", "/verif", "root of the verification tree")
	work := fs.String("work", "", "scratch directory")
	budget := fs.Int("budget", 0, "seconds")
	paths := fs.Int64("paths", 0, "path limit per harness")
	forks := fs.Bool("forks", false, "report fork locations")
	workers := fs.Int("workers", 0, "worker count")
	pos := []string{}
	args := os.Args[2:]
	for len(args) > 0 {
		if strings.HasPrefix(args[0], "-") {
			fs.Parse(args)
			args = fs.Args()
			continue
		}
		pos = append(pos, args[0])
		args = args[1:]
	}
	if *tierS == "" {
		*tierS = "quick"
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	if *work == "" {
		d, err := os.MkdirTemp("", "geoqlsym")
		if err != nil {
			fatal("%v", err)
		}
		*work = d
		defer os.RemoveAll(d)
	}
	n := *workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if len(pos) == 0 {
		fatal("missing argument")
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(*root, *work, pos[0], *tierS, tier, *budget, *paths, n, *forks, "")
	case "explore":
		code = check(*root, *work, "", *tierS, tier, *budget, *paths, n, *forks, pos[0])
	case "replay":
		code = replay(*root, *work, pos[0])
	default:
		fatal("unknown command")
	}
	os.RemoveAll(*work)
	os.Exit(code)
}

type hReport struct {
	Harness    string         `json:"harness"`
	Bound      string         `json:"bound"`
	Paths      int64          `json:"paths"`
	Decisions  int64          `json:"decisions"`
	Steps      int64          `json:"ssa_instructions"`
	Asserts    int64          `json:"assertions_reached"`
	Folded     int64          `json:"assertions_discharged_by_rewriting"`
	Verdicts   int64          `json:"assertion_queries"`
	Queries    int            `json:"solver_queries"`
	SolverS    float64        `json:"solver_s"`
	Local      int64          `json:"branch_feasibility_by_finite_domain"`
	Assumed    int64          `json:"paths_outside_assumptions"`
	Complete   bool           `json:"bound_explored_completely"`
	Pending    int            `json:"unexplored_prefixes,omitempty"`
	Aborted    map[string]int `json:"paths_given_up,omitempty"`
	Reduced    map[string]int `json:"values_pinned,omitempty"`
	Covers     map[string]int `json:"reachability,omitempty"`
	Validated  int            `json:"traces_validated"`
	Mismatch   int            `json:"trace_mismatches,omitempty"`
	MaxDepth   int            `json:"max_decisions_on_a_path"`
	Audit      int64          `json:"finite_domain_verdicts_confirmed_by_solver"`
	AuditP     int64          `json:"paths_confirmed_feasible_by_solver"`
	AuditBad   int64          `json:"solver_disagreements"`
	Cross      int64          `json:"queries_cross_checked_with_cvc5,omitempty"`
	WallS      float64        `json:"wall_s"`
	Candidates int            `json:"counterexample_candidates,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Tier     int      `json:"tier"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Native   string   `json:"native_outcome"`
	Draws    []int64  `json:"draws"`
	Obs      []string `json:"observations"`
	At       string   `json:"at"`
	Race     bool     `json:"race,omitempty"`
}

func check(root, work, prop, tierS string, tier, budget int, maxPaths int64, workers int, forks bool, only string) int {
	t0 := time.Now()
	hdir := filepath.Join(root, "harness")
	bin := filepath.Join(work, "harness")
	loaded := make(chan *Engine, 1)
	go func() {
		e, err := load(hdir, repoMod)
		if err != nil {
			fatal("cannot encode the current source: %v", err)
		}
		loaded <- e
	}()
	if err := buildNative(hdir, bin, false); err != nil {
		fatal("cannot build the harness: %v", err)
	}
	hs, err := listHarnesses(bin)
	if err != nil {
		fatal("list: %v", err)
	}
	var todo []HInfo
	for _, h := range hs {
		if only == "" && h.Prop == prop || only != "" && strings.HasPrefix(h.Name, only) {
			todo = append(todo, h)
		}
	}
	if len(todo) == 0 {
		fatal("no harness for %s%s", prop, only)
	}
	e := <-loaded
	tLoad := time.Since(t0)
	e.tier = tier
	e.trackForks = forks
	if s := os.Getenv("VERIF_SEED"); s != "" {
		e.seed, _ = strconv.ParseInt(s, 10, 64)
	}
	if tier == 1 {
		e.cross = "cvc5"
	}
	if budget == 0 {
		budget = 420
		if tier == 1 {
			budget = 780
		}
	}
	if maxPaths == 0 {
		maxPaths = 1 << 40
	}
	end := t0.Add(time.Duration(budget) * time.Second)
	native := &Native{bin: bin, tier: tier}
	defer native.stop()
	var reports []hReport
	var viol []replayFile
	known := loadKnown(filepath.Join(root, "known_findings.txt"))
	var samplesOut []any
	raceBin := ""
	for i, h := range todo {
		if os.Getenv("GEOQL_FIRST") != "" && len(viol) > 0 {
			break // for trials: one violation is enough
		}
		th := time.Now()
		left := time.Until(end)
		share := left / time.Duration(len(todo)-i)
		if b := share * 2; len(todo)-i > 1 && b < left {
			share = b
		}
		lim := Limits{paths: maxPaths, time: share, steps: 48000000, workers: workers, samples: 150}
		if tier == 1 {
			lim.samples = 1500
			lim.steps = 160000000
		}
		if n, _ := strconv.Atoi(os.Getenv("GEOQL_SAMPLES")); n > 0 {
			lim.samples = n
		}
		for _, vm := range e.vms {
			if vm != nil {
				vm.solver.Queries, vm.solver.Time = 0, 0
			}
		}
		if err := e.run(h.Name, lim); err != nil {
			fatal("%v", err)
		}
		r := hReport{Harness: h.Name, Bound: h.Bound, Paths: e.paths, Decisions: e.nDec, Steps: e.nSteps, Asserts: e.nAssert, Folded: e.nFolded,
			Verdicts: e.nVerdict, Local: e.nLocal, Assumed: e.nAssume, Aborted: e.aborted, Reduced: e.reduced, Covers: e.covers, MaxDepth: e.maxDepth, Audit: e.nAudit, AuditP: e.nAuditP, AuditBad: e.nAuditBad, Cross: e.nCross, Pending: len(e.queue)}
		for _, vm := range e.vms {
			if vm == nil {
				continue
			}
			r.Queries += vm.solver.Queries
			r.SolverS += vm.solver.Time.Seconds()
		}
		r.Complete = !e.trunc && len(e.aborted) == 0 && len(e.reduced) == 0
		r.Candidates = len(e.cands)
		seen := map[string]bool{}
		tries := map[string]int{}
		for _, c := range e.cands {
			key := c.kind + c.msg
			max := 12
			if c.kind == "unencoded" {
				max = 200
			}
			if seen[key] || tries[key] >= max || len(viol) >= 20 {
				continue
			}
			tries[key]++
			var nr NResult
			race := false
			if strings.HasPrefix(c.msg, "race:") {
				if raceBin == "" {
					raceBin = filepath.Join(work, "harness-race")
					if err := buildNative(hdir, raceBin, true); err != nil {
						fatal("race build: %v", err)
					}
				}
				ok, out := raceReplay(raceBin, h.Name, c.draws)
				race = true
				if ok {
					nr = NResult{Outcome: "panic", Msg: out}
				} else {
					nr = NResult{Outcome: "ok"}
				}
			} else {
				if strings.HasPrefix(c.msg, "order:") {
					nr = native.runOrder(h.Name, c.draws)
				} else {
					nr = native.run(h.Name, c.draws)
				}
			}
			if !nr.failing() && c.kind == "unencoded" {
				e.note("code beyond the executor, its inputs only run natively: " + c.msg)
				continue
			}
			if !nr.failing() {
				e.note("counterexample did not reproduce natively: " + c.kind + ": " + c.msg)
				logf("not reproduced: %s %s %v native=%+v at %s", c.kind, c.msg, c.draws, nr, c.at)
				continue
			}
			seen[key] = true
			viol = append(viol, replayFile{Property: h.Prop, Harness: h.Name, Tier: tier, Kind: c.kind, Msg: c.msg, Native: nr.Outcome + ": " + nr.Msg, Draws: c.draws, Obs: nr.Obs, At: c.at, Race: race})
		}
		// validate sampled traces against the native build
		for _, s := range e.samples {
			if time.Now().After(end.Add(60 * time.Second)) {
				break
			}
			nr := native.run(h.Name, s.draws)
			okObs := len(nr.Obs) == len(s.obs)
			for k := 0; okObs && k < len(s.obs); k++ {
				okObs = nr.Obs[k] == s.obs[k]
			}
			switch {
			case s.out == "ok" && nr.Outcome == "ok" && okObs, s.out == "panic" && nr.failing():
				r.Validated++
			case nr.failing() && len(seen) > 0:
				r.Validated++ // failing assertion already reported
			default:
				r.Mismatch++
				e.note(fmt.Sprintf("trace mismatch in %s: engine %s %q, native %s %s %q, draws %v", h.Name, s.out, s.obs, nr.Outcome, nr.Msg, nr.Obs, s.draws))
				if nr.failing() && !seen["native"+nr.Msg] {
					seen["native"+nr.Msg] = true
					viol = append(viol, replayFile{Property: h.Prop, Harness: h.Name, Tier: tier, Kind: "assert", Msg: nr.Msg, Native: nr.Outcome + ": " + nr.Msg, Draws: s.draws, Obs: nr.Obs})
				}
			}
		}
		if f := os.Getenv("GEOQL_CORPUS"); f != "" {
			// development only: keep the sampled inputs
			w, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			for _, s := range e.samples {
				b, _ := json.Marshal(s.draws)
				fmt.Fprintf(w, "%s %s\n", h.Name, b)
			}
			w.Close()
		}
		for k, s := range e.samples {
			if k >= 2 {
				break
			}
			samplesOut = append(samplesOut, map[string]any{"harness": h.Name, "inputs": s.draws, "observed": clip(s.obs)})
		}
		r.WallS = round(time.Since(th).Seconds())
		r.SolverS = round(r.SolverS)
		reports = append(reports, r)
		if only != "" || verbose {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		}
		if forks {
			tot := map[string]int{}
			for _, vm := range e.vms {
				if vm != nil {
					for k, v := range vm.forkAt {
						tot[k] += v
					}
				}
			}
			ks := sortedKeys(tot)
			sort.Slice(ks, func(i, j int) bool { return tot[ks[i]] > tot[ks[j]] })
			for i, k := range ks {
				if i < 25 {
					fmt.Println("fork", tot[k], k)
				}
			}
		}
	}
	for _, vm := range e.vms {
		if vm != nil {
			vm.solver.stop()
			if vm.cross != nil {
				vm.cross.stop()
			}
		}
	}
	if only != "" {
		for _, k := range sortedKeys(e.notes) {
			fmt.Println("note:", e.notes[k], k)
		}
		for _, v := range viol {
			b, _ := json.Marshal(v)
			fmt.Println("CEX", string(b))
		}
		return 0
	}
	code := 0
	nviol := 0
	kn := map[string]bool{}
	for i, v := range viol {
		if k := known.match(v); k != "" {
			if !kn[k] {
				kn[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
			continue
		}
		nviol++
		p := filepath.Join(root, "evidence", fmt.Sprintf("replay-%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %s\n  harness %s, native outcome: %s\n  observations: %q\n", v.Kind, v.Msg, v.Harness, firstLine(v.Native), clip(v.Obs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		code = 1
	}
	writeEvidence(root, prop, tierS, e, reports, samplesOut, tLoad, time.Since(t0), nviol)
	if code == 0 {
		var tp, tv int64
		for _, r := range reports {
			tp += r.Paths
			tv += r.Asserts
		}
		fmt.Printf("%s: held on %d symbolic paths, %d assertions, %d harnesses, %.1f s\n", prop, tp, tv, len(reports), time.Since(t0).Seconds())
	}
	return code
}

func firstLine(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

func clip(o []string) []string {
	var r []string
	for i, s := range o {
		if i >= 6 {
			break
		}
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		r = append(r, s)
	}
	return r
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func writeEvidence(root, prop, tierS string, e *Engine, rs []hReport, samples []any, tLoad, wall time.Duration, nviol int) {
	var fns []string
	tot, hit := 0, 0
	for _, k := range sortedKeys(e.coverage) {
		c := e.coverage[k]
		fns = append(fns, fmt.Sprintf("%s %d/%d", strings.ReplaceAll(k, repoMod, "geoql"), len(c.hit), c.total))
		tot += c.total
		hit += len(c.hit)
	}
	var states, trans, val, asserts, verdicts, folded, queries, cross int64
	solver := 0.0
	complete := true
	mism := 0
	var audit, auditP, auditBad int64
	for _, r := range rs {
		states += r.Paths
		trans += r.Decisions
		val += int64(r.Validated)
		asserts += r.Asserts
		folded += r.Folded
		verdicts += r.Verdicts
		queries += int64(r.Queries)
		cross += r.Cross
		solver += r.SolverS
		complete = complete && r.Complete
		mism += r.Mismatch
		audit += r.Audit
		auditP += r.AuditP
		auditBad += r.AuditBad
	}
	notes := []string{}
	for _, k := range sortedKeys(e.notes) {
		s := k
		if len(s) > 400 {
			s = s[:400]
		}
		notes = append(notes, fmt.Sprintf("%s (x%d)", s, e.notes[k]))
		if len(notes) > 20 {
			break
		}
	}
	seed := int(e.seed)
	ev := map[string]any{
		"property": prop, "tier": tierS, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val,
			"samples":                            samples,
			"exhaustive":                         complete,
			"rule":                               "states = symbolic paths of the harnesses through the repository's SSA (each standing for all inputs that follow it); transitions = symbolic branch decisions; every assertion is decided for all inputs of its path",
			"functions_encoded":                  fns,
			"basic_blocks_executed":              hit,
			"basic_blocks_in_executed_functions": tot,
			"assertions_reached":                 asserts,
			"assertions_discharged_by_rewriting": folded,
			"assertion_queries":                  verdicts,
			"solver_queries":                     queries,
			"solver_time_s":                      round(solver),
			"solver":                             "z3 4.8.12 (QF_BV), finite-domain propagation for single-variable conditions",
			"finite_domain_verdicts_confirmed_by_solver": audit,
			"paths_confirmed_feasible_by_solver":         auditP,
			"solver_disagreements":                       auditBad,
			"cross_checked_with_cvc5":                    cross,
			"trace_mismatches":                           mism,
			"harnesses":                                  rs,
			"notes":                                      notes,
			"encode_s":                                   round(tLoad.Seconds()),
		},
		"assumptions": []string{
			"inputs outside each harness's stated bound are not covered",
			"go/ssa (x/tools) represents the source faithfully; the executor's models of strconv float conversion, fmt formatting and strings case mapping agree with the library (sampled traces are compared with the native build)",
			"decimals are symbolic up to 15 significant digits (where text and float64 determine each other)",
		},
		"wall_s": round(wall.Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	for len(b) > 60000 && len(fns) > 10 {
		fns = fns[:len(fns)/2]
		ev["coverage"].(map[string]any)["functions_encoded"] = append(append([]string{}, fns...), "...")
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

type knownT struct{ ents []map[string]string }

func loadKnown(p string) *knownT {
	k := &knownT{}
	b, err := os.ReadFile(p)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		var m map[string]string
		if json.Unmarshal([]byte(l), &m) == nil && m["status"] == "known" {
			k.ents = append(k.ents, m)
		}
	}
	return k
}

// match identifies a listed finding by its property, harness and exact first
// observation (the failing input).
func (k *knownT) match(v replayFile) string {
	for _, m := range k.ents {
		if m["property"] != v.Property || m["harness"] != v.Harness {
			continue
		}
		if len(v.Obs) > 0 && v.Obs[0] == m["input"] {
			return m["what"]
		}
	}
	return ""
}

func replay(root, work, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	bin := filepath.Join(work, "harness")
	if err := buildNative(filepath.Join(root, "harness"), bin, r.Race); err != nil {
		fatal("%v", err)
	}
	if r.Race {
		ok, out := raceReplay(bin, r.Harness, r.Draws)
		fmt.Println(out)
		if ok {
			return 1
		}
		return 0
	}
	n := &Native{bin: bin, tier: r.Tier}
	defer n.stop()
	var nr NResult
	if strings.HasPrefix(r.Msg, "order:") {
		nr = n.runOrder(r.Harness, r.Draws)
	} else {
		nr = n.run(r.Harness, r.Draws)
	}
	fmt.Printf("%s: %s\nobservations: %q\n", nr.Outcome, nr.Msg, nr.Obs)
	if nr.failing() {
		return 1
	}
	return 0
}

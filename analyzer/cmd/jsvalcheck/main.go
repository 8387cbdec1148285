// Command jsvalcheck decides one property of the repository by abstract
// interpretation of its source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

type known struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Clause   string `json:"clause"`
	Where    string `json:"where"` // function containing the construct
	What     string `json:"what"`
}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	root := flag.String("root", "/verif", "verification root")
	only := flag.String("entry", "", "only this entry")
	externals := flag.Bool("externals", false, "list external calls")
	verbose := flag.Bool("v", false, "verbose")
	max := flag.Int("max", 0, "state budget per entry")
	flag.Parse()
	start := time.Now()
	p, err := ai.Load(*repo, filepath.Join(*root, "harness"), *prop)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *externals {
		for _, x := range p.ExternalCalls() {
			fmt.Println(x)
		}
		return
	}
	loadS := time.Since(start).Seconds()
	if *max == 0 {
		*max = 3000000
		if *tier == "thorough" {
			*max = 30000000
		}
	}
	entries := p.Entries()
	var names []string
	for n := range entries {
		if strings.HasPrefix(n, "Spec_"+*prop+"_") && (*only == "" || strings.Contains(n, *only)) {
			// entries marked Thorough run only in the thorough tier
			if strings.HasSuffix(n, "_thorough") && *tier != "thorough" {
				continue
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Printf("no specification entries for %s\n", *prop)
		os.Exit(2)
	}
	deadline := start.Add(420 * time.Second)
	if *tier == "thorough" {
		deadline = start.Add(40 * time.Minute)
	}
	debug.SetMemoryLimit(10 << 30)
	go func() {
		for range time.Tick(200 * time.Millisecond) {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 16<<30 {
				ai.MemoryLow.Store(true)
			}
		}
	}()
	engines := make([]*ai.Engine, len(names))
	times := make([]float64, len(names))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t := time.Now()
			e := &ai.Engine{Prog: p, Entry: n, MaxStates: *max, Deadline: deadline}
			e.Run(entries[n])
			e.Races()
			e.LockCycles()
			engines[i] = e
			times[i] = time.Since(t).Seconds()
		}(i, n)
	}
	wg.Wait()

	var kn []known
	if b, err := os.ReadFile(filepath.Join(*root, "known_findings.json")); err == nil {
		var f struct {
			Known []known `json:"known"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println("known_findings.json:", err)
			os.Exit(2)
		}
		kn = f.Known
	}

	var viols []*ai.Violation
	var undecided []*ai.Violation
	knownHit := map[int]bool{}
	states, forks, steps, ends := 0, 0, 0, 0
	fnBlocks := map[*ssa.Function]map[int]bool{}
	ext := map[string]int{}
	obls := map[string]int{}
	var perEntry []map[string]any
	accesses := 0
	for i, e := range engines {
		states += e.States
		forks += e.Forks
		steps += e.Steps
		ends += e.Ends
		accesses += e.Accesses
		for k, v := range e.Externals {
			ext[k] += v
		}
		for k, v := range e.Obls {
			obls[e.Entry+": "+k] += v
		}
		for f, bs := range e.Fns {
			if !p.InRepo(f) {
				continue
			}
			m := fnBlocks[f]
			if m == nil {
				m = map[int]bool{}
				fnBlocks[f] = m
			}
			for b := range bs {
				m[b] = true
			}
		}
		und := 0
		keys := make([]string, 0)
		for k := range e.Violations {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		real := 0
		for _, k := range keys {
			v := e.Violations[k]
			if v.Kind == "undecided" {
				undecided = append(undecided, v)
				und++
				continue
			}
			real++
			hit := false
			for ki, kf := range kn {
				if kf.Property == *prop && kf.Entry == v.Entry && kf.Clause == v.Clause && (kf.Where == "" || strings.Contains(v.Where, kf.Where)) {
					knownHit[ki] = true
					hit = true
				}
			}
			if !hit {
				viols = append(viols, v)
			}
		}
		missing := []string{}
		for _, l := range p.Labels(entries[e.Entry]) {
			if !e.Reached[l] {
				missing = append(missing, l)
			}
		}
		if und == 0 && real == 0 {
			for _, l := range missing {
				viols = append(viols, &ai.Violation{Entry: e.Entry, Kind: "unreached", Clause: "outcome never reached: " + l, Where: "every path of " + e.Entry})
			}
		} else if und > 0 {
			for _, l := range missing {
				undecided = append(undecided, &ai.Violation{Entry: e.Entry, Kind: "undecided", Clause: "outcome not reached: " + l})
			}
		}
		perEntry = append(perEntry, map[string]any{"entry": e.Entry, "abstract_states": e.States, "paths_completed": e.Ends, "assertion_evaluations": sum(e.Obls), "seconds": round(times[i])})
		if *verbose {
			fmt.Printf("%-46s states %7d ends %6d asserts %6d und %d viol %d %.2fs\n", e.Entry, e.States, e.Ends, sum(e.Obls), und, real, times[i])
		}
	}
	for ki := range kn {
		if knownHit[ki] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kn[ki].What)
		}
	}

	// functions analysed
	var fns []map[string]any
	nblk := 0
	for f, bs := range fnBlocks {
		fns = append(fns, map[string]any{"function": f.RelString(nil), "at": p.PosStr(f.Pos()), "blocks": len(f.Blocks), "blocks_reached": len(bs)})
		nblk += len(bs)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i]["function"].(string) < fns[j]["function"].(string) })
	var oblList []string
	nOb := 0
	for k, n := range obls {
		oblList = append(oblList, fmt.Sprintf("%s (evaluated on %d abstract paths)", k, n))
		nOb += n
	}
	sort.Strings(oblList)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var extList []string
	for k := range ext {
		extList = append(extList, k)
	}
	sort.Strings(extList)
	var undList []string
	for _, u := range undecided {
		undList = append(undList, u.Entry+": "+u.Clause+" at "+u.Where)
	}
	cov := map[string]any{
		"explanation": "Abstract interpretation of the SSA form of the repository's current source to a fixpoint, from specification entries that quantify over every input of the stated classes; each clause is an assertion that must hold in every reachable abstract state. Nothing is executed.",
		"rule":        "a clause is violated when some reachable abstract state falsifies it; the report names the repository construct (return site, panic site, write, access pair) on that abstract path",
		"obligations": len(oblList), "discharged": len(oblList) - distinctClauses(viols),
		"clauses":                   oblList,
		"assertion_evaluations":     nOb,
		"specification_entries":     perEntry,
		"abstract_states":           states,
		"abstract_forks":            forks,
		"abstract_paths_completed":  ends,
		"instructions_interpreted":  steps,
		"repository_functions":      len(fns),
		"repository_blocks_reached": nblk,
		"functions":                 fns,
		"modelled_externals":        extList,
		"shared_accesses_logged":    accesses,
		"undecided":                 undList,
		"known_findings_reported":   len(knownHit),
		"load_s":                    round(loadS),
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.Since(start).Seconds()), "violations": len(viols),
		"assumptions": []string{
			"models of the standard library and third-party functions listed under modelled_externals (analyzer/ai/models.go)",
			"floating-point NaN and integer overflow are outside the numeric domain",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if *only == "" {
		if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), b, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	for _, u := range undList {
		fmt.Println("UNDECIDED", u)
	}
	if *verbose {
		for _, u := range undecided {
			for _, l := range u.Path {
				fmt.Println("      ", l)
			}
			fmt.Println("  --")
		}
	}
	if len(viols) > 0 {
		dir := filepath.Join(*root, "out")
		os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, *prop+".txt")
		var sb strings.Builder
		for _, v := range viols {
			fmt.Fprintf(&sb, "property %s, entry %s\n  %s: %s\n  construct: %s\n  abstract path:\n", *prop, v.Entry, v.Kind, v.Clause, v.Where)
			for _, l := range v.Path {
				fmt.Fprintf(&sb, "    %s\n", l)
			}
			sb.WriteString("\n")
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, v := range viols {
			if i >= 15 {
				fmt.Printf("... %d more\n", len(viols)-i)
				break
			}
			fmt.Printf("%s: %s: %s -- at %s\n", v.Entry, v.Kind, v.Clause, v.Where)
		}
		if *verbose {
			fmt.Print(sb.String())
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		os.Exit(1)
	}
	fmt.Printf("%s: held; %d entries, %d clauses, %d abstract states, %d repository functions, %.1fs\n", *prop, len(names), len(oblList), states, len(fns), time.Since(start).Seconds())
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func distinctClauses(vs []*ai.Violation) int {
	m := map[string]bool{}
	for _, v := range vs {
		if v.Kind == "assert" {
			m[v.Entry+v.Clause] = true
		}
	}
	return len(m)
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

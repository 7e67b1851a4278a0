// Command rdapcheck decides one property of openrdap/rdap by static analysis
// of the current source tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"rdapverif/rules"
)

func main() {
	prop := flag.String("property", "", "property id, or all")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "where evidence is written")
	tier := flag.String("tier", "quick", "quick or thorough")
	noEv := flag.Bool("n", false, "write no files")
	list := flag.Bool("list", false, "list the rules as JSON")
	flag.Parse()
	if *list {
		m := map[string]string{}
		for id, r := range rules.All {
			m[id] = r.Method
		}
		json.NewEncoder(os.Stdout).Encode(m)
		return
	}
	debug.SetGCPercent(400)
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range rules.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		if c := run(id, *repo, *verif, *tier, *noEv); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func run(id, repo, verif, tier string, noEv bool) int {
	t0 := time.Now()
	r := rules.All[id]
	if r == nil {
		fmt.Fprintf(os.Stderr, "no rule for %s\n", id)
		return 2
	}
	c, err := rules.NewCtx(repo)
	if err != nil {
		// a tree that does not build has nothing to decide
		fmt.Fprintf(os.Stderr, "cannot load %s: %v\n", repo, err)
		return 2
	}
	c.Deep = tier == "thorough"
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				c.Unknown("internal", "the rule stopped: %v at %s", p, panicSite())
			}
		}()
		r.Run(c)
	}()
	select {
	case <-done:
	case <-time.After(6 * time.Minute):
		c.Stop()
		<-done
		c.Unknown("internal", "the analysis did not finish in its time")
	}
	if c.Total-len(c.Undecided) < r.Floor {
		c.Undecided = append(c.Undecided, fmt.Sprintf("only %d obligations found, expected at least %d", c.Total, r.Floor))
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []rules.Violation
	for _, v := range c.Viol {
		if k := known[id+" "+v.Key()]; k {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", id, v.Where, v.Func, v.Msg)
			continue
		}
		viol = append(viol, v)
	}
	replay := filepath.Join(verif, "evidence", "replay", id+".txt")
	for _, v := range viol {
		fmt.Printf("%s: %s [%s] %s\n", v.Where, v.Func, v.Rule, v.Msg)
	}
	for _, u := range c.Undecided {
		fmt.Printf("undecided: %s\n", u)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations, %d undecided, %d functions analysed, %.1fs\n", id, c.Total, c.Discharged, len(viol), len(c.Undecided), len(c.Functions), time.Since(t0).Seconds())
	if !noEv {
		writeEvidence(id, r, c, viol, verif, tier, time.Since(t0))
	}
	if len(viol) > 0 {
		if !noEv {
			os.MkdirAll(filepath.Dir(replay), 0o755)
			var b strings.Builder
			fmt.Fprintf(&b, "property %s\nreplay: %s/check.sh %s\n\n", id, verif, id)
			for _, v := range viol {
				fmt.Fprintf(&b, "%s: %s\n  rule %s: %s\n", v.Where, v.Func, v.Rule, v.Msg)
			}
			os.WriteFile(replay, []byte(b.String()), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

// panicSite names the frame that panicked.
func panicSite() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") && i+3 < len(ls) {
			return strings.TrimSpace(ls[i+3])
		}
	}
	return ""
}

func loadKnown(path string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "finding: property="); ok {
			m[strings.TrimSpace(s)] = true
		}
	}
	return m
}

func writeEvidence(id string, r *rules.Rule, c *rules.Ctx, viol []rules.Violation, verif, tier string, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var fns []string
	for f := range c.Functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var rl []string
	for k, n := range c.Oblig {
		rl = append(rl, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(rl)
	samples := c.Samples
	if len(samples) > 40 {
		samples = samples[:40]
	}
	vs := []string{}
	for _, v := range viol {
		vs = append(vs, fmt.Sprintf("%s %s [%s] %s", v.Where, v.Func, v.Rule, v.Msg))
	}
	ev := map[string]any{
		"property": id,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"wall_s":   d.Seconds(),
		"coverage": map[string]any{
			"explanation":         r.Method,
			"obligations":         c.Total,
			"discharged":          c.Discharged,
			"undecided":           c.Undecided,
			"obligations_by_rule": rl,
			"examples":            samples,
			"functions_analysed":  len(fns),
			"functions":           fns,
			"abstract_states":     c.E.NStates,
			"blocks_interpreted":  c.E.NBlocks,
			"checker_cmd":         "/verif/check.sh " + id + " " + tier,
			"trusted_base":        []string{"go/types and x/tools/go/ssa (source to SSA)", "the analysis engine /verif/tool/eng and its models of library functions", "the rule in /verif/tool/rules"},
		},
		"violations":     len(viol),
		"violation_list": vs,
		"assumptions":    r.Assumptions,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
}

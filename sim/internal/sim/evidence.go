package sim

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Evidence describes what a run covered.
func (c *Ctx) Evidence(o Options, evals int, samples []any, violations int, wall, search float64) error {
	ch := c.Check
	if samples == nil {
		samples = []any{}
	}
	perHour := func(n int64) int64 {
		if search <= 0 {
			return 0
		}
		return int64(float64(n) / search * 3600)
	}
	total := 0
	for k, n := range c.Fired {
		if !strings.HasPrefix(k, "unmodelled") {
			total += n
		}
	}
	kinds := map[string]int{}
	for k, n := range c.Fired {
		kinds[strings.SplitN(k, " on ", 2)[0]] += n
	}
	cov := map[string]any{
		"evaluations":               evals,
		"distinct_nontrivial":       len(c.NonTriv),
		"rule":                      ch.Rule,
		"samples":                   samples,
		"simulated_runs":            c.Runs,
		"runs_per_hour":             perHour(c.Runs),
		"seeds_per_hour":            perHour(int64(evals)),
		"search_s":                  search,
		"simulated_seconds":         float64(c.SimNS) / 1e9,
		"simulated_operations":      c.Steps,
		"faults_fired":              kinds,
		"faults_fired_by_operation": c.Fired,
		"faults_fired_total":        total,
		"distinct_histories":        len(c.Hashes),
		"distinct_interleavings":    len(c.Traces),
		"interleaving_measure":      "hash of the event history of a run in which the schedule departed from the default order (process schedules), or hash of the sequence of (yield, goroutine) switches (goroutine schedules)",
		"determinism_reruns":        c.DetRuns,
		"determinism_differences":   c.DetDiffs,
		"probes":                    c.Probes,
		"features":                  c.Tags,
		"real_components":           ch.Real,
		"stub_components":           ch.Stub,
	}
	ev := map[string]any{
		"property": ch.ID, "tier": c.Tier, "seed": c.Seed, "level": ch.Level, "coverage": cov,
		"assumptions": ch.Assume, "wall_s": wall, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(o.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, ch.ID+".json"), append(b, '\n'), 0o644)
}

// Finding is an accepted, listed defect.
type Finding struct{ Prop, Sig, What string }

// KnownFindings reads known-findings.txt: `finding: property=<id> sig="<sig>" <what>`.
func KnownFindings(verif, prop string) []Finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "sig=\"")
		if !ok || id != prop {
			continue
		}
		sig, what, _ := strings.Cut(rest, "\" ")
		out = append(out, Finding{id, sig, what})
	}
	return out
}

// SortedFired lists the fault counts.
func (c *Ctx) SortedFired() []string {
	var k []string
	for s := range c.Fired {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

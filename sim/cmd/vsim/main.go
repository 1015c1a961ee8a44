// vsim decides the properties of totegamma/yisp by deterministic simulation.
//
//	vsim check -prop C01     search; exit 1 and a VIOLATION line if it breaks
//	vsim replay FILE         run a recorded violation again
//	vsim features            development: does every generator feature work
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsim/internal/build"
	"vsim/internal/props"
	"vsim/internal/sim"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|replay|list|features")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "list":
		for _, id := range props.IDs() {
			fmt.Println(id, props.Get(id).Level)
		}
	case "features":
		os.Exit(features(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func fail(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	return 2
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goroot() string {
	if r := os.Getenv("VSIM_GOROOT"); r != "" {
		return r
	}
	c := exec.Command("go", "env", "GOROOT")
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local")
	out, err := c.Output()
	if err != nil {
		return runtime.GOROOT()
	}
	r := strings.TrimSpace(string(out))
	if p, err := filepath.EvalSymlinks(r); err == nil {
		r = p
	}
	return r
}

func config(verif, repo string) build.Config {
	work := env("VSIM_WORK", filepath.Join(verif, ".build", "work"))
	os.MkdirAll(work, 0o755)
	return build.Config{Repo: repo, Sim: filepath.Join(verif, "sim"), Work: work, GoRoot: goroot()}
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	repo := fs.String("repo", env("VSIM_REPO", "/repo"), "tree under test")
	verif := fs.String("verif", env("VSIM_VERIF", "/verif"), "this tree")
	tier := fs.String("tier", env("VERIF_TIER", "quick"), "quick or thorough")
	seed := fs.String("seed", env("VERIF_SEED", "1"), "seed")
	only := fs.String("only", "", "scenario filter")
	nomin := fs.Bool("nomin", false, "do not minimise")
	max := fs.Int("max", 0, "random scenarios")
	workers := fs.Int("workers", runtime.NumCPU(), "parallel runs")
	noev := fs.Bool("noevidence", false, "do not write the evidence file")
	fs.Parse(args)
	ch := props.Get(*prop)
	if ch == nil {
		return fail("no such property %q", *prop)
	}
	sd, err := strconv.ParseInt(*seed, 10, 64)
	if err != nil {
		return fail("bad seed %q", *seed)
	}
	t0 := time.Now()
	cfg := config(*verif, *repo)
	bins, err := build.Build(cfg, ch.Bins...)
	if err != nil {
		return fail("%v", err)
	}
	defer build.Clean(cfg)
	tb := time.Since(t0)
	t1 := time.Now()
	c := sim.NewCtx(ch, bins, sd, *tier)
	o := sim.Options{Verif: *verif, Workers: *workers, Only: *only, NoMin: *nomin, Max: *max}
	evals, samples, found, err := c.Explore(o)
	if err != nil && len(found) == 0 {
		return fail("%v", err)
	}
	search := time.Since(t1)
	known := map[string]string{}
	for _, k := range sim.KnownFindings(*verif, ch.ID) {
		known[k.Sig] = k.What
	}
	sigs := make([]string, 0, len(found))
	for s := range found {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	n := 0
	for _, s := range sigs {
		if what, ok := known[s]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, what)
			continue
		}
		path, e := c.Report(o, found[s])
		if e != nil {
			err = e
			continue
		}
		n++
		b, _ := os.ReadFile(path)
		var rep sim.Replay
		json.Unmarshal(b, &rep)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, path)
		fmt.Printf("  %s (seen %d times, scenario %s): %s\n", s, found[s].N, found[s].Case.Name, rep.Detail)
	}
	if !*noev {
		if err := c.Evidence(o, evals, samples, n, time.Since(t0).Seconds(), search.Seconds()); err != nil {
			return fail("%v", err)
		}
	}
	fmt.Printf("%s %s seed=%d: %d scenarios, %d simulated runs (%d histories, %d with faults or variations), %d faults fired, build %.1fs search %.1fs, %d violations\n",
		ch.ID, *tier, sd, evals, c.Runs, len(c.Hashes), len(c.NonTriv), total(c.Fired), tb.Seconds(), search.Seconds(), n)
	if os.Getenv("VSIM_DEBUG") != "" {
		for _, k := range c.SortedFired() {
			fmt.Printf("  fired %-40s %d\n", k, c.Fired[k])
		}
		ks := []string{}
		for k := range c.Probes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  probe %-40s %d\n", k, c.Probes[k])
		}
	}
	if c.DetDiffs > 0 {
		fmt.Printf("note: %d of %d repeated runs went another way, first %s\n", c.DetDiffs, c.DetRuns, c.DetDiff)
	}
	if n > 0 {
		return 1
	}
	if err != nil {
		return fail("%v", err)
	}
	return 0
}

func total(m map[string]int) (n int) {
	for k, v := range m {
		if !strings.HasPrefix(k, "unmodelled") {
			n += v
		}
	}
	return
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", env("VSIM_REPO", "/repo"), "tree under test")
	verif := fs.String("verif", env("VSIM_VERIF", "/verif"), "this tree")
	trace := fs.Bool("trace", false, "print the event history")
	fs.Parse(args)
	if fs.NArg() != 1 {
		return fail("replay wants a file")
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		return fail("%v", err)
	}
	var rep sim.Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		return fail("%v", err)
	}
	ch := props.Get(rep.Property)
	if ch == nil {
		return fail("no such property %q", rep.Property)
	}
	var bins map[string]string
	if v := os.Getenv("VSIM_BINS"); v != "" {
		if err := json.Unmarshal([]byte(v), &bins); err != nil {
			return fail("%v", err)
		}
	} else {
		cfg := config(*verif, *repo)
		if bins, err = build.Build(cfg, ch.Bins...); err != nil {
			return fail("%v", err)
		}
		defer build.Clean(cfg)
	}
	c := sim.NewCtx(ch, bins, rep.Seed, rep.Tier)
	if *trace {
		r, err := c.Run(rep.Case)
		if err != nil {
			return fail("%v", err)
		}
		for _, e := range r.W.Events {
			fmt.Printf("%-6s %4d %-12s %s = %s (%d)\n", e.Proc, e.Ord, e.Name, e.Path, e.Res, e.N)
		}
		for _, m := range r.Out {
			for n, o := range m {
				fmt.Printf("%s: exit %d signal %d\n--- stdout\n%s\n--- stderr\n%s\n--- result %s\n", n, o.Exit, o.Signal, o.Stdout, o.Stderr, o.Result)
			}
		}
	}
	v, h, _, err := c.JudgeHashed(rep.Case)
	for i := 0; rep.Unstable && i < 30 && (err != nil || v == nil || v.Sig != rep.Sig); i++ {
		v, h, _, err = c.JudgeHashed(rep.Case)
	}
	if err != nil {
		return fail("%v", err)
	}
	if v == nil {
		fmt.Printf("no violation: the property holds on this case\n")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", rep.Property, fs.Arg(0), v.Sig, v.Detail)
	if v.Sig != rep.Sig {
		return fail("another violation than recorded (%s)", rep.Sig)
	}
	if rep.Hash != "" && rep.Hash != h {
		if os.Getenv("VSIM_BINS") != "" {
			return fail("the histories differ from the recorded ones")
		}
		fmt.Println("  (the histories differ from the recorded ones: the tree changed)")
	}
	return 1
}

func features(args []string) int {
	fs := flag.NewFlagSet("features", flag.ExitOnError)
	repo := fs.String("repo", env("VSIM_REPO", "/repo"), "tree under test")
	verif := fs.String("verif", env("VSIM_VERIF", "/verif"), "this tree")
	n := fs.Int("n", 20, "seeds")
	only := fs.String("only", "", "filter")
	verbose := fs.Bool("v", false, "show output")
	fs.Parse(args)
	cfg := config(*verif, *repo)
	bins, err := build.Build(cfg, "yisp", "drv")
	if err != nil {
		return fail("%v", err)
	}
	defer build.Clean(cfg)
	return props.Features(bins, *n, *only, *verbose)
}

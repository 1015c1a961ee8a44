// Package props decides the properties.
package props

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

var registry = map[string]*sim.Check{}

func register(c *sim.Check) {
	registry[c.ID] = c
	if random := c.Random; random != nil {
		c.Random = func(ctx *sim.Ctx, r *sim.Rand, i int) *sim.Case {
			cs := random(ctx, r, i)
			if cs != nil && r.P(1, 5) {
				surround(r, cs)
			}
			return cs
		}
	}
}

// surround sets variables that mean something to other programs, differently
// for each process. Nothing may depend on them.
func surround(r *sim.Rand, cs *sim.Case) {
	for i := range cs.Phases {
		for j := range cs.Phases[i].Procs {
			p := &cs.Phases[i].Procs[j]
			if p.Bin != "yisp" || p.Env == nil || r.P(1, 3) {
				continue
			}
			for range 1 + r.N(3) {
				v := sim.Pick(r, [][]string{
					{"XDG_CACHE_HOME", "/home/u/xdg/cache", "/work/c", ""}, {"XDG_CONFIG_HOME", "/home/u/xdg", "/etc"}, {"XDG_DATA_HOME", "/home/u/xdg/data"},
					{"YISP_CACHE_DIR", "/work/c", "/home/u/other"}, {"YISP_CONFIG", "/work/conf.yaml"}, {"CACHE_DIR", "/work/c"}, {"CONFIG", "/work/conf.yaml"},
					{"ALLOWEDGOPKGS", "example.com/env"}, {"YISP_ALLOWEDGOPKGS", "example.com/env"}, {"YISP_HOME", "/work"}, {"KUBECONFIG", "/work/kube"},
					{"PWD", "/", "/home/u"}, {"OLDPWD", "/home/u"}, {"LANG", "C", "de_DE.UTF-8", "tr_TR.UTF-8"}, {"LC_ALL", "C"}, {"TZ", "Asia/Tokyo", "UTC"},
					{"TERM", "dumb", "xterm"}, {"NO_COLOR", "1"}, {"CI", "true"}, {"DEBUG", "1"}, {"COLUMNS", "20"}, {"CACHE_TTL", "1"}, {"YISP_OFFLINE", "1"}, {"SUDO_USER", "root"},
				})
				p.Env[v[0]] = sim.Pick(r, v[1:])
			}
		}
	}
}

// Get finds a check.
func Get(id string) *sim.Check { return registry[id] }

// IDs lists the checks.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Features runs every generator feature alone, for development.
func Features(bins map[string]string, n int, only string, verbose bool) int {
	bad := 0
	c := sim.NewCtx(&sim.Check{ID: "features"}, bins, 1, "quick")
	for _, f := range append(append([]gen.Feature{}, gen.Features...), gen.Errors...) {
		if only != "" && f.Name != only {
			continue
		}
		for i := range n {
			b := gen.New(sim.NewRand("features", f.Name, i))
			b.Big = i%3 == 2
			b.Add(f)
			cs := &sim.Case{Prop: "features", Name: f.Name, World: b.World(), Phases: []kern.Phase{{Procs: []kern.ProcSpec{b.Build("a")}}}}
			r, err := c.Run(cs)
			if err != nil {
				fmt.Println("HARNESS", f.Name, i, err)
				return 2
			}
			o := r.Out[0]["a"]
			if verbose || (o.Exit != 0) != f.Err {
				fmt.Printf("== %s seed %d exit %d\n--- script\n%s--- stdout\n%s--- stderr\n%s\n", f.Name, i, o.Exit, strings.Join(b.Parts(), ""), clipS(o.Stdout, 3000), clipS(o.Stderr, 3000))
			}
			if (o.Exit != 0) != f.Err {
				bad++
				break
			}
		}
	}
	for _, l := range lentLines {
		if only != "" && only != "lent" {
			break
		}
		t := Task{Op: "run", Engine: -1, Location: "/work/p/lent.yisp", SharedEnv: true, Reader: &Reader{Data: fmt.Appendf(nil, l, 5), ErrAt: -1}}
		cs := driverCase("features", "lent", kern.WorldSpec{}, &Job{Prelude: prelude, Tasks: []Task{t}})
		lendWorld(&cs.World)
		r, err := c.Run(cs)
		if err != nil {
			fmt.Println("HARNESS lent", l, err)
			return 2
		}
		res, err := Results(r.Out[0]["a"])
		if err != nil {
			fmt.Println("HARNESS lent", l, err, r.Out[0]["a"])
			return 2
		}
		if x := res.Results[0]; !x.Ok || verbose {
			fmt.Printf("== lent %s--- %s %s\n", t.Reader.Data, x.Out, clipS(x.Err, 500))
			if !x.Ok && !strings.HasSuffix(strings.SplitN(x.Err, "\n", 2)[0], unnamed(l)) {
				bad++
			}
		}
	}
	if only == "" || only == "mixes" {
		fails, total := 0, 0
		for i := range 40 * n {
			r := sim.NewRand("mixes", i)
			fs := pickFeatures(r, 1+r.N(4), func(f *gen.Feature) bool { return !f.Err })
			cs := mix("features", r, fs)
			x, err := c.Run(cs)
			if err != nil {
				fmt.Println("HARNESS", cs.Name, i, err)
				return 2
			}
			total++
			if o := x.Out[0]["a"]; o.Exit != 0 {
				fails++
				if verbose || fails < 4 {
					fmt.Printf("== mix %s %v: %s\n", cs.Name, cs.Tags, clipS(o.Stderr, 400))
				}
			}
		}
		fmt.Printf("mixes failing: %d of %d\n", fails, total)
	}
	if only == "histories" {
		why := map[string]int{}
		for i := range 40 * n {
			r := sim.NewRand("histories", i)
			cs := history(r, 4, pickFeatures(r, 1+r.N(4), func(f *gen.Feature) bool { return !f.Err }), false, true)
			x, err := c.Run(cs)
			if err != nil {
				fmt.Println("HARNESS", cs.Name, i, err)
				return 2
			}
			res, err := Results(x.Out[0]["a"])
			if err != nil {
				fmt.Println("HARNESS", cs.Name, i, err)
				return 2
			}
			var job Job
			JobOf(cs, &job)
			for i, y := range res.Results {
				t := job.Tasks[i]
				k := t.Op
				if t.SharedEnv {
					k += " lent"
				}
				if t.Reader != nil && t.Reader.ErrAt >= 0 {
					k += " EIO"
				}
				if !y.Ok {
					k += " FAIL " + firstLine(clipS(y.Err, 60))
				}
				why[k]++
			}
		}
		for _, k := range slices.Sorted(maps.Keys(why)) {
			fmt.Println(why[k], k)
		}
	}
	fmt.Println("features failing:", bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// unnamed is the error of a lent line that asks for a name only other
// evaluations know.
func unnamed(line string) string {
	switch {
	case strings.HasPrefix(line, "ask: "):
		return "undefined symbol: other"
	case strings.HasPrefix(line, "kept: "):
		return "undefined symbol: kept"
	}
	return "no error"
}

package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C19", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated histories in which a command was disturbed (killed, power lost, an error anywhere, an output refused, a full disk, another command at the same time) and then run again",
		Assume: []string{
			"an allowed package may be in the list more than once",
			"leftovers of killed commands (temporary files) are not results",
		},
		Real: realParts, Stub: stubParts,
		Plan: c19Plan, Random: c19Random, Judge: c19Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// again makes a command, with room to disturb it, and the same command again.
func again(r *sim.Rand, kind string, conc int) *sim.Case {
	cs := command("C19", r, kind)
	if r.P(1, 3) {
		bystanders(r, cs)
	}
	return repeated(cs, conc)
}

func repeated(cs *sim.Case, conc int) *sim.Case {
	first := cs.Phases[0].Procs[0]
	last := first
	last.Name = "again"
	cs.Phases = append(cs.Phases, kern.Phase{Procs: []kern.ProcSpec{last}, Edit: &kern.Edit{Quota: -1}})
	for i := range conc - 1 {
		p := first
		p.Name = fmt.Sprintf("also%d", i)
		p.Salt += uint64(1 + i)
		cs.Phases[0].Procs = append(cs.Phases[0].Procs, p)
	}
	cs.Fixed = true
	return cs
}

func c19Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 10
	}
	for s := range n {
		for i, kind := range []string{"build", "build", "krm", "refresh", "refresh", "allow", "allow", "version"} {
			r := sim.NewRand(c.Seed, "c19", kind, i, s)
			cs := again(r, kind, 1)
			out = append(out, cs)
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range thin(r, pts, 4) {
				if pt.Phase != 0 {
					continue
				}
				l := crashes(r, pt)
				if c.Quick() {
					l = []kern.Fault{sim.Pick(r, l), sim.Pick(r, l)}
				}
				for _, f := range l {
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
	}
	// Everything that can go wrong with the network and the cache.
	for s := range 2 * n {
		for _, f := range allFeatures() {
			k := 1
			switch {
			case strings.HasPrefix(f.Name, "schema-cold"):
				k = 3
			case strings.HasPrefix(f.Name, "remote"), strings.HasPrefix(f.Name, "schema"), strings.HasPrefix(f.Name, "gvk"):
			default:
				continue
			}
			for i := range k {
				r := sim.NewRand(c.Seed, "c19 remote", f.Name, i, s)
				b := gen.New(r)
				b.Add(f)
				b.Main = mainMode(r, []gen.Feature{f})
				cs := repeated(project("C19", "build:"+f.Name, b, singleDoc(nil, r)...), 1)
				pts, _, err := c.Points(cs)
				if err != nil {
					continue
				}
				for _, pt := range pts {
					if pt.Phase != 0 || pt.Op != "http" && pt.Op != "httpread" && !onCache(pt.Path) {
						continue
					}
					l := crashes(r, pt)
					if pt.Op != "http" && c.Quick() {
						l = []kern.Fault{sim.Pick(r, l)}
					}
					for _, f := range l {
						d := cs.Clone()
						d.Phases[0].Faults = []kern.Fault{f}
						out = append(out, d)
					}
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c19 order"), out)
	return out
}

func c19Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	conc := 1
	if r.P(1, 3) {
		conc = 2 + r.N(2)
	}
	cs := again(r, sim.Pick(r, commands), conc)
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	var first []sim.Point
	for _, p := range pts {
		if p.Phase == 0 {
			first = append(first, p)
		}
	}
	if conc > 1 {
		if r.P(1, 2) {
			weave(r, &cs.Phases[0], first, 0, 1+r.N(16), r.P(1, 3))
		} else {
			interleave(r, &cs.Phases[0], uint64(len(first)), 1+r.N(20))
		}
	}
	disturb(r, cs, first)
	if r.P(1, 4) {
		// Another day, perhaps an earlier one.
		cs.Phases[1].Faults = append(cs.Phases[1].Faults, kern.Fault{Proc: "again", At: 1, Kind: "clock", N: r.N(2_000_000) - 1_000_000})
	}
	return cs
}

// product is what a command left, in comparable form: the schema cache and
// the configuration. Of the allow-list it is the set.
func product(cs *sim.Case, fs map[string]string) map[string]string {
	p := &cs.Phases[len(cs.Phases)-1].Procs[0]
	root := gen.Cache
	if cs.P["root"] != "" {
		root = cs.P["root"]
	}
	out := map[string]string{}
	for q, s := range fs {
		switch {
		case q == configOf(cs, p):
			m, ok := cfgParse(s)
			if !ok {
				out[q] = "not valid: " + s
				continue
			}
			pk := uniq(pkgsOf(m))
			j, _ := json.Marshal(pk)
			out[q] = string(j) + settings(m)
		case strings.HasPrefix(q, root+"/schemas/") && strings.HasSuffix(q, ".json"), strings.HasPrefix(q, root+"/gvk/") && strings.HasSuffix(q, ".txt"):
			out[q] = s
		}
	}
	return out
}

func c19Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	// What the command does when nothing ever happened.
	ref := cs.Calm()
	ref.Phases = ref.Phases[len(ref.Phases)-1:]
	br, err := c.Base(ref)
	if err != nil {
		return nil, err
	}
	b := br.Out[0]["again"]
	if b == nil || dead(b) != nil {
		return nil, nil
	}
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	ph := &cs.Phases[0]
	if ph.Edit != nil || ph.Procs[0].Stdout != nil {
		c.Non(r)
	}
	when := "after " + doing(&ph.Procs[0])
	if len(ph.Faults) > 0 {
		when += " with " + faultText(ph.Faults)
	}
	for _, p := range ph.Procs {
		o := r.Out[0][p.Name]
		if v := dead(o); v != nil && !(o.Signal == 13 && p.Stdout != nil) {
			return v, nil
		}
		if o.Killed {
			c.Probe("killed")
		} else if o.Exit != 0 {
			c.Probe("failed")
		}
	}
	o := r.Out[1]["again"]
	if v := dead(o); v != nil {
		return v, nil
	}
	if o.Exit != b.Exit {
		return sim.V("another outcome the second time", "%s: exit %d (%s), undisturbed: exit %d (%s)", when, o.Exit, firstLine(o.Stderr), b.Exit, firstLine(b.Stderr)), nil
	}
	if what := doing(&ph.Procs[0]); (what == "build" || what == "krm" || what == "version") && o.Stdout != b.Stdout {
		return sim.V("another result the second time", "%s: %s", when, diffAt(b.Stdout, o.Stdout)), nil
	}
	want, got := product(cs, br.FS[0]), product(cs, r.FS[1])
	for _, q := range keysOf(want) {
		g, ok := got[q]
		if !ok {
			return sim.V("something is missing the second time", "%s: %s is not there", when, q), nil
		}
		if g != want[q] {
			return sim.V("something is different the second time", "%s: %s: %s", when, q, diffAt(want[q], g)), nil
		}
	}
	for _, q := range keysOf(got) {
		if _, ok := want[q]; !ok {
			return sim.V("something is left from the first time", "%s: %s holds %q", when, q, clipS(got[q], 300)), nil
		}
	}
	return nil, nil
}

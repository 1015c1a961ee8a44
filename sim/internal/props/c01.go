package props

import (
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C01", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated runs with different histories in which at least one injected fault took effect",
		Assume: []string{
			"a missing file (ENOENT, ENOTDIR, ELOOP) is not an I/O fault but a fact about the tree, except in the schema cache",
			"a connection closed without a length or error is indistinguishable from a shorter document and is not injected",
		},
		Real: realParts, Stub: stubParts,
		Plan: c01Plan, Random: c01Random, Judge: c01Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 40, ThoroughS: 1500,
	})
}

func c01Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	seeds := 1
	if !c.Quick() {
		seeds = 6
	}
	for _, f := range allFeatures() {
		if !f.IO && f.Name != "plain" && f.Name != "cast" && f.Name != "err-late-syntax" {
			continue
		}
		for s := range seeds {
			r := sim.NewRand(c.Seed, "c01", f.Name, s)
			b := gen.New(r)
			b.Big = s%2 == 1
			b.Add(f)
			cs := project("C01", f.Name, b)
			if r.P(1, 2) {
				cs.Phases[0].Procs[0].DirMax = 1 + r.N(3)
			}
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range pts {
				l := ioFaults(r, pt)
				if onCache(pt.Path) && !strings.Contains(pt.Path, "/aHR0") && pt.Op != "read" && pt.Op != "close" && len(l) > 0 {
					l = append(l, pt.At("errno", "ENOENT", 0))
				}
				for _, ft := range l {
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{ft}
					out = append(out, d)
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c01 order"), out)
	return out
}

// scatter puts n faults on random points.
func scatter(r *sim.Rand, pts []sim.Point, n int) []kern.Fault {
	var fs []kern.Fault
	for range n {
		for range 10 {
			pt := sim.Pick(r, pts)
			if r.P(1, 2) && (pt.Op == "close" || pt.Op == "fcntl" || pt.Op == "clock" || pt.Op == "epoll") {
				continue
			}
			if l := ioFaults(r, pt); len(l) > 0 {
				f := sim.Pick(r, l)
				if r.P(1, 6) && f.Kind == "errno" && f.Arg != "EINTR" && f.Path != "" {
					f.Occ = -1
					if r.P(1, 3) {
						f.Op = "*"
					}
				}
				fs = append(fs, f)
				break
			}
		}
	}
	return fs
}

func c01Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	n := 1 + r.N(3)
	fs := pickFeatures(r, n, nil)
	if r.P(1, 5) {
		fs = append(fs, sim.Pick(r, gen.Errors))
		sim.Shuffle(r, fs)
	}
	var args []string
	if len(fs) == 1 && jsonable[fs[0].Name] && r.P(1, 3) {
		args = append(args, "-o", "json")
	}
	args = append(args, singleDoc(fs, r)...)
	cs := mix("C01", r, fs, args...)
	p := &cs.Phases[0].Procs[0]
	if r.P(1, 3) {
		p.DirMax = 1 + r.N(3)
	}
	if r.P(1, 4) {
		p.MaxIO = 1 + r.N(700)
	}
	if r.P(1, 8) && p.Stdin != nil && len(p.Stdin.Parts) > 0 {
		// the stream itself fails
		p.Stdin.End = sim.Pick(r, []string{"EIO", "ECONNRESET", "ESTALE"})
		n := 0
		for _, s := range p.Stdin.Parts {
			n += len(s)
		}
		p.Stdin.Cut = 1 + r.N(n)
		cs.P = map[string]string{"cutstdin": "1"}
		return cs
	}
	pts, _, err := c.Points(cs)
	if err != nil || len(pts) == 0 {
		return nil
	}
	k := 1
	if r.P(1, 3) {
		k += r.N(3)
	}
	cs.Phases[0].Faults = scatter(r, pts, k)
	return cs
}

func c01Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	calm := cs.Calm()
	if s := calm.Phases[0].Procs[0].Stdin; s != nil {
		s.Cut, s.End = 0, ""
	}
	base, err := c.Base(calm)
	if err != nil {
		return nil, err
	}
	b := base.Out[0]["a"]
	if b == nil || dead(b) != nil {
		return nil, nil // not this property's business
	}
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		v.Detail = faultText(allFaults(cs)) + ": " + v.Detail
		return v, nil
	}
	if o.Exit != 0 {
		return nil, nil
	}
	if b.Exit != 0 {
		return sim.V("success after fault: "+site(cs), "without the fault the build fails (%s); with %s it exits 0 and prints %s", firstLine(b.Stderr), faultText(allFaults(cs)), clipS(o.Stdout, 400)), nil
	}
	if o.Stdout != b.Stdout {
		return sim.V("changed result: "+site(cs), "with %s the build exits 0 with another result: %s", faultText(allFaults(cs)), diffAt(b.Stdout, o.Stdout)), nil
	}
	return nil, nil
}

// site names the class of a fault for a signature.
func site(cs *sim.Case) string {
	fs := allFaults(cs)
	if len(fs) == 0 {
		return "standard input failed"
	}
	var k []string
	for _, f := range fs {
		k = append(k, f.Kind+" on "+f.Op)
	}
	k = uniq(k)
	if len(k) > 2 {
		return fmt.Sprintf("%d fault kinds", len(k))
	}
	s := k[0]
	if len(k) > 1 {
		s += ", " + k[1]
	}
	return s
}

func firstLine(s string) string {
	for i, c := range s {
		if c == '\n' {
			return s[:i]
		}
	}
	return s
}

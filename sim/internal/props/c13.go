package props

import (
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C13", Bins: []string{"yisp", "drv"}, Level: "fault_enumeration",
		Rule: "simulated runs with different histories in which an injected fault took effect, an evaluation failed by itself, or evaluations were repeated under a descriptor limit",
		Assume: []string{
			"closing a descriptor closes it even when it reports an error, as on Linux",
			"a child that the operating system refuses to wait for is not counted",
		},
		Real: append(append([]string{}, realParts...), driverPart), Stub: stubParts,
		Plan: c13Plan, Random: c13Random, Judge: c13Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// c13Job evaluates a project repeatedly in one process.
func c13Job(b *gen.B, r *sim.Rand, n int) *Job {
	j := &Job{Engines: []Opts{{AllowCmd: b.AllowCmd, GoPkgs: b.GoPkgs}}}
	text := strings.Join(b.Parts(), "")
	for range n {
		t := Task{Engine: -1, Opts: j.Engines[0], Path: b.Dir + "/main.yisp", Op: sim.Pick(r, []string{"file", "file", "any", "reader", "fileenv"})}
		if r.P(1, 2) {
			t.Engine = 0
		}
		if t.Op == "reader" {
			t.Path, t.Location = "", b.Dir+"/main.yisp"
			t.Reader = &Reader{Data: []byte(text), ErrAt: -1}
		}
		if t.Op == "fileenv" {
			t.Globals = map[string]any{"g": 1}
		}
		j.Tasks = append(j.Tasks, t)
	}
	return j
}

func c13Case(r *sim.Rand, fs []gen.Feature, n int) *sim.Case {
	b := gen.New(r)
	for _, f := range fs {
		if f.Name != "include-stdin" {
			b.Add(f)
		}
	}
	cs := one(nil, "C13", "repeat:"+names(fs), b.World(), DriverProc(c13Job(b, r, n)))
	cs.P = map[string]string{"drv": "1"}
	cs.Tags = append([]string{"repeat"}, b.Tags...)
	return cs
}

// c13Faults drops the faults that keep things open by themselves.
func c13Faults(fs []kern.Fault) []kern.Fault {
	var out []kern.Fault
	for _, f := range fs {
		if f.Op == "wait" || f.Op == "*" || f.Op == "sys247" {
			continue
		}
		out = append(out, f)
	}
	return out
}

func c13Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 5
	}
	for _, f := range allFeatures() {
		for s := range n {
			// every operation of one evaluation fails once
			r := sim.NewRand(c.Seed, "c13", f.Name, s)
			cs := c13Case(r, []gen.Feature{f}, 1)
			out = append(out, cs)
			if pts, _, err := c.Points(cs); err == nil && f.IO {
				for _, pt := range pts {
					for _, f := range c13Faults(ioFaults(r, pt)) {
						d := cs.Clone()
						d.Phases[0].Faults = []kern.Fault{f}
						out = append(out, d)
					}
				}
			}
			// many evaluations under a small limit
			d := c13Case(r, []gen.Feature{f}, 25)
			d.Phases[0].Procs[0].NoFile = 14 + r.N(6)
			out = append(out, d)
			b := gen.New(r)
			b.Add(f)
			e := project("C13", f.Name, b)
			e.Phases[0].Procs[0].NoFile = 14 + r.N(6)
			out = append(out, e)
		}
	}
	for i := range 10 * n {
		r := sim.NewRand(c.Seed, "c13 many", i)
		out = append(out, c13Many(r))
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c13 order"), out)
	return out
}

// c13Many includes many files, in many ways, under a small limit.
func c13Many(r *sim.Rand) *sim.Case {
	b := gen.New(r)
	k := 30 + r.N(80)
	ext := []string{"yaml", "json", "txt", "yisp"}
	var sb strings.Builder
	sb.WriteString("!yisp\n- include\n")
	for i := range k {
		n := b.ID("m") + "." + sim.Pick(r, ext)
		body := "v: 1\n"
		if strings.HasSuffix(n, "json") {
			body = "{\"v\": 1}"
		}
		b.File("inc/"+n, body)
		if i%3 == 0 {
			sb.WriteString("- inc/" + n + "\n")
		}
	}
	b.Doc("%s", sb.String())
	b.Doc("!yisp [include, \"inc/*.{yaml,json}\", \"inc/**/*.yisp\"]\n")
	b.Doc("f: !yisp [files.glob, \"inc/*\"]\n")
	depth := 10 + r.N(60)
	for i := range depth {
		next := "end: 1\n"
		if i+1 < depth {
			next = "!yisp [include, d" + itoa(i+1) + ".yisp]\n"
		}
		b.File("deep/d"+itoa(i)+".yisp", next)
	}
	b.Doc("!yisp [include, deep/d0.yisp]\n")
	cs := project("C13", "many", b)
	cs.Phases[0].Procs[0].NoFile = 12 + r.N(8)
	return cs
}

func c13Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	fs := pickFeatures(r, 1+r.N(3), nil)
	if r.P(1, 3) {
		fs = append(fs, sim.Pick(r, gen.Errors))
		sim.Shuffle(r, fs)
	}
	var cs *sim.Case
	switch r.N(4) {
	case 0:
		cs = mix("C13", r, fs)
	case 1:
		cs = c13Case(r, fs, 1)
	case 2:
		cs = c13Case(r, fs, 2+r.N(5))
	default:
		cs = c13Case(r, fs, 12)
		cs.Phases[0].Procs[0].NoFile = 14 + r.N(6)
		return cs
	}
	pts, _, err := c.Points(cs)
	if err != nil || len(pts) == 0 {
		return nil
	}
	cs.Phases[0].Faults = c13Faults(scatter(r, pts, 1+r.N(4)))
	return cs
}

func c13Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		return v, nil
	}
	limited := cs.Phases[0].Procs[0].NoFile > 0
	if limited {
		c.Non(r)
	}
	if cs.P["drv"] == "" {
		if len(o.OpenFDs) > 0 {
			return sim.V("left open: "+openKind(o.OpenFDs[0]), "with %s: exit %d, still open: %s", faultText(allFaults(cs)), o.Exit, strings.Join(o.OpenFDs, ", ")), nil
		}
		if limited && cs.Faults() == 0 {
			d := cs.Clone()
			d.Phases[0].Procs[0].NoFile = 0
			br, err := c.Base(d)
			if err != nil {
				return nil, err
			}
			b := br.Out[0]["a"]
			if b.Exit != o.Exit || b.Stdout != o.Stdout {
				return sim.V("fails under a descriptor limit", "without a limit exit %d; with at most %d descriptors exit %d (%s)", b.Exit, cs.Phases[0].Procs[0].NoFile, o.Exit, firstLine(o.Stderr)), nil
			}
		}
		return nil, nil
	}
	res, err := Results(o)
	if err != nil {
		return nil, err
	}
	for i, x := range res.Results {
		if len(x.Open) > 0 {
			if !x.Ok {
				c.Non(r)
			}
			return sim.V("left open: "+openKind(x.Open[0]), "with %s: evaluation %d ended with ok=%v (%s) and left open: %s", faultText(allFaults(cs)), i, x.Ok, firstLine(x.Err), strings.Join(x.Open, ", ")), nil
		}
		if !x.Ok {
			c.Non(r)
		}
	}
	if limited && cs.Faults() == 0 {
		d := cs.Clone()
		d.Phases[0].Procs[0].NoFile = 0
		br, err := c.Base(d)
		if err != nil {
			return nil, err
		}
		bres, err := Results(br.Out[0]["a"])
		if err != nil {
			return nil, err
		}
		for i, x := range res.Results {
			y := bres.Results[i]
			if x.Ok != y.Ok || x.Out != y.Out {
				return sim.V("fails under a descriptor limit", "evaluation %d of %d with at most %d descriptors: ok=%v %s; without the limit ok=%v", i, len(res.Results), cs.Phases[0].Procs[0].NoFile, x.Ok, firstLine(x.Err), y.Ok), nil
			}
		}
	}
	return nil, nil
}

// openKind is the class of something left open.
func openKind(s string) string {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		if s[0] >= '0' && s[0] <= '9' {
			return openKind(s[i+1:])
		}
		switch s[:i] {
		case "f":
			return "file"
		case "d":
			return "directory"
		case "p":
			return "pipe"
		}
		return s[:i]
	}
	return s
}

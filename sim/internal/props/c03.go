package props

import (
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C03", Bins: []string{"yisp", "drv"}, Level: "exploration",
		Rule: "simulated runs with different histories in an environment that differs from the plain one (hash seed, directory order, clock, process id, host name, directory, schedule)",
		Assume: []string{
			"the working directory is varied only for scripts named by an absolute path, a directory or a URL whose inputs are named literally, and not with --enable-sourcemap: its comments name files relative to the working directory",
		},
		Real: append(append([]string{}, realParts...), driverPart), Stub: stubParts,
		Plan: c03Plan, Random: c03Random, Judge: c03Judge,
		Quick: 100000, Thorough: 5_000_000, QuickS: 38, ThoroughS: 1500,
	})
}

// elsewhere changes everything a build's result must not depend on.
func elsewhere(r *sim.Rand, cs *sim.Case, pts []sim.Point) {
	w := &cs.World
	p := &cs.Phases[0].Procs[0]
	p.Salt = uint64(2 + r.N(1<<30))
	if r.P(2, 3) {
		w.DirSalt = uint64(1 + r.N(1<<30))
	}
	if r.P(1, 2) {
		w.Clock = int64(r.N(4_000_000_000)) * 1_000_000_000
		if r.P(1, 2) {
			w.Age = int64(r.N(400*24*3600)) * 1_000_000_000
		}
		if r.P(1, 6) {
			w.Age = -w.Age // the files are from the future
		}
		if w.Clock+w.Age <= 0 {
			w.Age = 0
		}
	}
	if r.P(1, 2) {
		p.Pid = 2 + r.N(30000)
	}
	if r.P(1, 2) {
		p.Host = sim.Pick(r, []string{"localhost", "build-7.example", "x", strings.Repeat("h", 60)})
	}
	if r.P(1, 3) {
		p.DirMax = 1 + r.N(4)
	}
	free := strings.HasPrefix(p.Args[len(p.Args)-1], "/") || strings.HasPrefix(p.Args[len(p.Args)-1], "http")
	for _, a := range p.Args {
		if a == "--enable-sourcemap" {
			free = false
		}
	}
	if free && p.Args[0] == "build" && r.P(1, 2) {
		p.Cwd = sim.Pick(r, []string{"/", "/tmp", "/work/p", "/home/u", "/work/other/deep", "/etc"})
	}
	if r.P(1, 3) {
		for range 1 + r.N(6) {
			if len(pts) == 0 {
				break
			}
			pt := sim.Pick(r, pts)
			switch pt.Op {
			case "clock", "exit":
			default:
				if r.P(1, 4) {
					cs.Phases[0].Faults = append(cs.Phases[0].Faults, pt.At("clock", "", r.N(1000000)-500000))
				} else {
					cs.Phases[0].Faults = append(cs.Phases[0].Faults, pt.At("stall", "", 1+r.N(5)))
				}
			}
		}
	}
}

func c03Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 6
	}
	for _, f := range allFeatures() {
		for s := range 2 * n {
			r := sim.NewRand(c.Seed, "c03", f.Name, s)
			b := gen.New(r)
			b.Big = s%3 == 2
			b.Add(f)
			for range 2 {
				b.Add(f)
			}
			b.Main = sim.Pick(r, []string{"", "", "dir"})
			args := singleDoc(nil, r)
			cs := project("C03", f.Name, b, args...)
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for range 8 {
				d := cs.Clone()
				elsewhere(r, d, pts)
				out = append(out, d)
			}
		}
		for s := range n {
			out = append(out, c03Repeat(sim.NewRand(c.Seed, "c03 repeat", f.Name, s), []gen.Feature{f, f}))
		}
	}
	for i := range 25 * n {
		r := sim.NewRand(c.Seed, "c03 json", i)
		if cs := c03JSON(c, r); cs != nil {
			out = append(out, cs)
		}
	}
	for i := range 25 * n {
		r := sim.NewRand(c.Seed, "c03 krm", i)
		cs := gen.NewKRM(r, r.N(6)).Case("C03")
		elsewhere(r, cs, nil)
		out = append(out, cs)
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c03 order"), out)
	return out
}

func c03JSON(c *sim.Ctx, r *sim.Rand) *sim.Case {
	f := sim.Pick(r, gen.Features)
	if !jsonable[f.Name] {
		return nil
	}
	b := gen.New(r)
	b.Add(f)
	cs := project("C03", "json-"+f.Name, b, "-o", "json")
	elsewhere(r, cs, nil)
	return cs
}

// c03Repeat evaluates one script many times in one process, each time with
// another hash seed, and once more under a random goroutine schedule.
func c03Repeat(r *sim.Rand, fs []gen.Feature) *sim.Case {
	b := gen.New(r)
	for _, f := range fs {
		b.Add(f)
	}
	j := &Job{}
	ops := []string{"file", "any"}
	if r.P(1, 3) {
		ops = ops[1:]
	}
	for i := range 10 {
		op := ops[0]
		if i%2 == 1 && len(ops) > 1 {
			op = ops[1]
		}
		j.Tasks = append(j.Tasks, Task{Op: op, Engine: -1, Path: b.Dir + "/main.yisp", Opts: Opts{AllowCmd: b.AllowCmd, GoPkgs: b.GoPkgs}})
		j.Salts = append(j.Salts, uint64(1+r.N(1<<30)))
	}
	if r.P(1, 4) {
		j.Par = true
		j.Salts = nil
		j.Tasks = j.Tasks[:1]
		at := uint64(0)
		for range 60 {
			at += uint64(1 + r.N(30))
			j.At = append(j.At, at)
			j.K = append(j.K, uint32(r.N(8)))
		}
		j.Tasks = append(j.Tasks, j.Tasks[0])
	}
	cs := one(nil, "C03", "repeat:"+names(fs), b.World(), DriverProc(j))
	cs.P = map[string]string{"drv": "1"}
	cs.Tags = append([]string{"repeat"}, b.Tags...)
	return cs
}

func c03Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	switch r.N(8) {
	case 0:
		return c03JSON(c, r)
	case 1:
		return c03Repeat(r, pickFeatures(r, 1+r.N(3), nil))
	case 2:
		cs := gen.NewKRM(r, r.N(9)).Case("C03")
		elsewhere(r, cs, nil)
		return cs
	}
	fs := pickFeatures(r, 2+r.N(4), nil)
	if r.P(1, 10) {
		fs = append(fs, sim.Pick(r, gen.Errors))
	}
	cs := mix("C03", r, fs, singleDoc(fs, r)...)
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	elsewhere(r, cs, pts)
	return cs
}

// plainly is the case in the plain environment.
func plainly(cs *sim.Case) *sim.Case {
	d := cs.Calm()
	d.World.DirSalt, d.World.Clock, d.World.Age = 0, 1_700_000_000_000_000_000, 0
	p := &d.Phases[0].Procs[0]
	a := p.Args[len(p.Args)-1]
	if strings.HasPrefix(a, "/") || strings.HasPrefix(a, "http") {
		p.Cwd = "/work"
	}
	p.Salt, p.Pid, p.Host, p.DirMax = 1, 0, "", 0
	return d
}

func c03Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	if cs.P["drv"] != "" {
		r, err := c.Run(cs)
		if err != nil {
			return nil, err
		}
		o := r.Out[0]["a"]
		if v := dead(o); v != nil {
			return v, nil
		}
		res, err := Results(o)
		if err != nil {
			return nil, err
		}
		c.Non(r)
		first := map[string]int{}
		var job Job
		if err := JobOf(cs, &job); err != nil {
			return nil, err
		}
		for i := range res.Results {
			op := job.Tasks[i].Op
			j, ok := first[op]
			if !ok {
				first[op] = i
				continue
			}
			a, b := res.Results[j], res.Results[i]
			if a.Ok != b.Ok || a.Out != b.Out {
				return sim.V("repeating an evaluation changes it", "evaluation %d: ok=%v %s; evaluation %d: ok=%v %s; %s", j, a.Ok, firstLine(a.Err), i, b.Ok, firstLine(b.Err), diffAt(a.Out, b.Out)), nil
			}
		}
		return nil, nil
	}
	br, err := c.Base(plainly(cs))
	if err != nil {
		return nil, err
	}
	b := br.Out[0]["a"]
	if b == nil || dead(b) != nil {
		return nil, nil
	}
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	c.Non(r)
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		return v, nil
	}
	if o.Exit != b.Exit || o.Stdout != b.Stdout {
		return sim.V("the result depends on the environment", "plain: exit %d %s; elsewhere: exit %d %s; %s", b.Exit, firstLine(b.Stderr), o.Exit, firstLine(o.Stderr), diffAt(b.Stdout, o.Stdout)), nil
	}
	return nil, nil
}

var _ = kern.Fault{}

package props

import (
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C02", Bins: []string{"yisp", "drv"}, Level: "exploration",
		Rule:   "simulated runs with different histories in which input bytes arrived in another way than whole",
		Assume: []string{"a read returns at least one byte, an error or the end (readers handed to the engine as Go values may also return nothing)"},
		Real:   append(append([]string{}, realParts...), driverPart), Stub: stubParts,
		Plan: c02Plan, Random: c02Random, Judge: c02Judge,
		Quick: 100000, Thorough: 5_000_000, QuickS: 40, ThoroughS: 1500,
	})
}

// arrive changes how bytes arrive, nothing else.
func arrive(r *sim.Rand, cs *sim.Case, pts []sim.Point, how string) {
	ph := &cs.Phases[0]
	p := &ph.Procs[0]
	switch how {
	case "bytes":
		p.MaxIO = 1
	case "small":
		p.MaxIO = 2 + r.N(6)
	case "odd":
		p.MaxIO = sim.Pick(r, []int{3, 7, 13, 63, 100, 255, 511, 513, 1023, 4095, 4097})
	case "chunks":
		if p.Stdin == nil {
			p.MaxIO = 1 + r.N(40)
			return
		}
		for range 1 + r.N(40) {
			p.Stdin.Chunks = append(p.Stdin.Chunks, sim.Pick(r, []int{1, 1, 2, 3, 5, 8, 64, 511, 512, 513, 4096, 100000}))
		}
	case "eintr":
		for range 1 + r.N(6) {
			if pt := sim.Pick(r, pts); pt.Op == "read" || pt.Op == "pread" {
				ph.Faults = append(ph.Faults, pt.At("errno", "EINTR", 0))
			}
		}
	case "short":
		for range 1 + r.N(8) {
			if pt := sim.Pick(r, pts); pt.Op == "read" || pt.Op == "httpread" || pt.Op == "pread" {
				ph.Faults = append(ph.Faults, pt.At("short", "", 1+r.N(20)))
			}
		}
	case "stall":
		for range 1 + r.N(8) {
			pt := sim.Pick(r, pts)
			if pt.Op != "clock" {
				ph.Faults = append(ph.Faults, pt.At("stall", "", 1+r.N(3)))
			}
		}
	}
	if n := bulk(cs) / 8000; p.MaxIO > 0 && p.MaxIO <= n {
		p.MaxIO = n + 1 // not for ever
	}
	if len(p.Stdin0().Parts) > 0 && r.P(1, 2) && len(p.Stdin.Chunks) == 0 {
		for range 1 + r.N(10) {
			p.Stdin.Chunks = append(p.Stdin.Chunks, 1+r.N(600))
		}
	}
	if r.P(1, 3) {
		for i := range cs.World.HTTP {
			cs.World.HTTP[i].Chunk = 1 + r.N(300)
		}
	}
}

// bulk is how much a case has to read.
func bulk(cs *sim.Case) int {
	n := 0
	add := func(parts []string, b64 string) {
		n += len(b64)
		for _, s := range parts {
			n += len(s)
		}
	}
	for _, f := range cs.World.Files {
		add(f.Parts, f.B64)
	}
	for _, h := range cs.World.HTTP {
		add(h.Parts, h.B64)
	}
	if s := cs.Phases[0].Procs[0].Stdin; s != nil {
		add(s.Parts, s.B64)
	}
	return n
}

var hows = []string{"bytes", "small", "odd", "chunks", "eintr", "short", "stall"}

func c02Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 5
	}
	all := allFeatures()
	out = par(len(all), func(i int) (out []*sim.Case) {
		f := all[i]
		for _, main := range []string{"", "stdin"} {
			if main == "stdin" && f.Name == "include-stdin" {
				continue
			}
			for _, enc := range []string{"", "bom", "utf16le", "utf16be", "crlf"} {
				if enc != "" && f.IO && main == "" {
					continue
				}
				for s := range n {
					r := sim.NewRand(c.Seed, "c02", f.Name, main, enc, s)
					b := gen.New(r)
					b.Main, b.Enc, b.Big = main, enc, s%2 == 1
					b.Add(f)
					cs := project("C02", f.Name, b)
					cs.P = map[string]string{"expect": strings.Join(b.Expect, "\n")}
					cs.Whole = len(b.Expect) > 0
					pts, _, err := c.Points(cs)
					if err != nil {
						continue
					}
					for _, how := range hows[:4] {
						if enc != "" && how == "odd" {
							continue
						}
						d := cs.Clone()
						arrive(r, d, pts, how)
						d.P["how"] = how
						out = append(out, d)
					}
				}
			}
		}
		return out
	})
	for i, k := range hugeKinds {
		r := sim.NewRand(c.Seed, "c02 huge", i)
		out = append(out, c02Huge(r, k, 1<<20+r.N(300000)), c02Huge(r, k, sim.Pick(r, []int{1<<16 + r.N(2000), 1<<17 + r.N(100000), 1<<19 + r.N(10000)})))
	}
	for i := range 60 * n {
		r := sim.NewRand(c.Seed, "c02 krm", i)
		out = append(out, c02KRM(c, r))
	}
	for i := range 100 * n {
		r := sim.NewRand(c.Seed, "c02 drv", i)
		out = append(out, c02Driver(c, r))
	}
	for i := range 20 * n {
		r := sim.NewRand(c.Seed, "c02 cache", i)
		cs := refreshCase(r, "C02", 1+r.N(12))
		pts, _, err := c.Points(cs)
		if err == nil {
			how := sim.Pick(r, hows)
			arrive(r, cs, pts, how)
			cs.P = map[string]string{"how": how, "fs": "1"}
			out = append(out, cs)
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c02 order"), out)
	return out
}

func c02KRM(c *sim.Ctx, r *sim.Rand) *sim.Case {
	k := gen.NewKRM(r, r.N(8))
	cs := k.Case("C02")
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	how := sim.Pick(r, hows)
	arrive(r, cs, pts, how)
	cs.P = map[string]string{"how": how}
	return cs
}

func c02Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	switch r.N(8) {
	case 0:
		return c02KRM(c, r)
	case 1:
		return c02Driver(c, r)
	}
	fs := pickFeatures(r, 1+r.N(3), nil)
	if r.P(1, 8) {
		fs = append(fs, sim.Pick(r, gen.Errors))
	}
	cs := mix("C02", r, fs)
	pts, _, err := c.Points(cs)
	if err != nil || len(pts) == 0 {
		return nil
	}
	how := sim.Pick(r, hows)
	arrive(r, cs, pts, how)
	if r.P(1, 3) {
		arrive(r, cs, pts, sim.Pick(r, hows[3:]))
	}
	cs.P = map[string]string{"how": how, "both": "1"}
	return cs
}

// c02Driver feeds a reader to the engine in several ways at once: task 0 gets
// it whole, the others in pieces.
func c02Driver(c *sim.Ctx, r *sim.Rand) *sim.Case {
	b := gen.New(r)
	for range 1 + r.N(2) {
		b.Add(sim.Pick(r, gen.Features))
	}
	if r.P(1, 6) {
		b.Add(sim.Pick(r, gen.Errors))
	}
	text := strings.Join(b.Parts(), "")
	switch r.N(5) {
	case 0:
		text = "\ufeff" + text
	case 1:
		text = gen.UTF16(text, r.P(1, 2))
	}
	j := &Job{}
	rd := func(f func(s *Reader)) {
		s := &Reader{Data: []byte(text), ErrAt: -1}
		f(s)
		j.Tasks = append(j.Tasks, Task{Op: "reader", Engine: -1, Location: b.Dir + "/main.yisp", Reader: s, Opts: Opts{AllowCmd: b.AllowCmd, GoPkgs: b.GoPkgs}})
	}
	rd(func(s *Reader) {})
	rd(func(s *Reader) { s.Chunks = []int{1} })
	rd(func(s *Reader) { s.WithData = true })
	rd(func(s *Reader) { s.Chunks = []int{1 + r.N(5)}; s.Zero = 2 + r.N(3) })
	rd(func(s *Reader) {
		for range 30 {
			s.Chunks = append(s.Chunks, 1+r.N(700))
		}
		s.WithData = r.P(1, 2)
		if r.P(1, 2) {
			s.Zero = 2 + r.N(5)
		}
	})
	w := b.World()
	cs := one(nil, "C02", "reader:"+strings.Join(b.Tags, "+"), w, DriverProc(j))
	cs.P = map[string]string{"drv": "1"}
	cs.Tags = []string{"reader"}
	return cs
}

func c02Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	if cs.P["drv"] != "" {
		r, err := c.Run(cs)
		if err != nil {
			return nil, err
		}
		o := r.Out[0]["a"]
		if v := dead(o); v != nil {
			return v, nil
		}
		res, err := Results(o)
		if err != nil {
			return nil, err
		}
		c.Non(r)
		for i := 1; i < len(res.Results); i++ {
			a, b := res.Results[0], res.Results[i]
			if a.Ok != b.Ok || a.Out != b.Out || a.Panic != b.Panic {
				return sim.V("reader handed over in pieces", "whole: ok=%v err=%s; in pieces (way %d): ok=%v err=%s panic=%s; %s", a.Ok, firstLine(a.Err), i, b.Ok, firstLine(b.Err), b.Panic, diffAt(a.Out, b.Out)), nil
			}
		}
		return nil, nil
	}
	whole := cs.Calm()
	p := &whole.Phases[0].Procs[0]
	p.MaxIO = 0
	if p.Stdin != nil {
		p.Stdin.Chunks = nil
	}
	for i := range whole.World.HTTP {
		whole.World.HTTP[i].Chunk = 0
	}
	br, err := c.Base(whole)
	if err != nil {
		return nil, err
	}
	b := br.Out[0]["a"]
	if b == nil || dead(b) != nil {
		return nil, nil
	}
	if e := cs.P["expect"]; e != "" {
		if b.Exit != 0 {
			return sim.V("input not accepted", "the project should build: %s", firstLine(b.Stderr)), nil
		}
		for _, s := range strings.Split(e, "\n") {
			if !strings.Contains(b.Stdout, s) {
				return sim.V("input not read completely", "%q is not in the output (%d bytes)", s, len(b.Stdout)), nil
			}
		}
	}
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	c.Non(r)
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		return v, nil
	}
	if o.Exit != b.Exit || o.Stdout != b.Stdout {
		return sim.V("split input changes the result: "+cs.P["how"], "whole: exit %d %s; %s: exit %d %s; %s", b.Exit, firstLine(b.Stderr), cs.P["how"], o.Exit, firstLine(o.Stderr), diffAt(b.Stdout, o.Stdout)), nil
	}
	if cs.P["fs"] != "" {
		if d := fsDiff(br.FS[0], r.FS[0]); d != "" {
			return sim.V("split input changes the cache", "%s", d), nil
		}
	}
	if cs.P["both"] != "" {
		// The same script from a file and from standard input.
		if q := otherSource(cs); q != nil {
			qr, err := c.Base(q)
			if err != nil {
				return nil, err
			}
			x := qr.Out[0]["a"]
			if (x.Exit == 0) != (b.Exit == 0) || x.Exit == 0 && x.Stdout != b.Stdout {
				return sim.V("file and standard input differ", "exit %d %s / exit %d %s; %s", b.Exit, firstLine(b.Stderr), x.Exit, firstLine(x.Stderr), diffAt(b.Stdout, x.Stdout)), nil
			}
		}
	}
	return nil, nil
}

// otherSource turns a script on standard input into one in a file.
func otherSource(cs *sim.Case) *sim.Case {
	p := cs.Phases[0].Procs[0]
	n := len(p.Args)
	if n == 0 || p.Args[n-1] != "-" || strings.Contains(strings.Join(p.Args, " "), "sourcemap") {
		return nil
	}
	d := cs.Calm()
	q := &d.Phases[0].Procs[0]
	d.World.Files = append(d.World.Files, kern.FileSpec{Path: "/work/p/main.yisp", Parts: q.Stdin.Parts, B64: q.Stdin.B64})
	q.Stdin = nil
	q.MaxIO = 0
	q.Args[n-1] = "/work/p/main.yisp"
	return d
}

func fsDiff(a, b map[string]string) string {
	for _, k := range keysOf(a) {
		if v, ok := b[k]; !ok {
			return "missing " + k
		} else if v != a[k] {
			return fmt.Sprintf("%s: %s", k, diffAt(a[k], v))
		}
	}
	for _, k := range keysOf(b) {
		if _, ok := a[k]; !ok {
			return "extra " + k
		}
	}
	return ""
}

package props

import (
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C12", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated runs with different histories in which standard output refused bytes or took them in pieces, or an input failed",
		Assume: []string{
			"--show-trace prints to standard output by design and is not used",
			"progress messages of the cache refresh and the confirmation of allow are not results",
		},
		Real: realParts, Stub: stubParts,
		Plan: c12Plan, Random: c12Random, Judge: c12Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

var sinkErrors = []string{"ENOSPC", "EIO", "EPIPE", "EDQUOT", "EFBIG", "ECONNRESET", "EAGAIN"}

func c12Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 6
	}
	add := func(r *sim.Rand, cs *sim.Case) {
		br, err := c.Base(cs)
		if err != nil {
			return
		}
		l := len(br.Out[0]["a"].Stdout)
		out = append(out, cs)
		lim := []int{0, 1, l - 1, l, l + 1, l / 2, r.N(l + 1), 4096, 65536}
		for _, k := range lim {
			if k < 0 {
				continue
			}
			d := cs.Clone()
			d.Phases[0].Procs[0].Stdout = &kern.SinkSpec{Limited: true, Limit: k, Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
			out = append(out, d)
		}
		d := cs.Clone()
		d.Phases[0].Procs[0].Stdout = &kern.SinkSpec{MaxWrite: 1 + r.N(40)}
		out = append(out, d)
		d = cs.Clone()
		d.Phases[0].Procs[0].Stdout = &kern.SinkSpec{MaxWrite: 1 + r.N(700), Limited: true, Limit: r.N(l + 1), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
		out = append(out, d)
		d = cs.Clone()
		d.Phases[0].Procs[0].Stderr = &kern.SinkSpec{Limited: true, Limit: r.N(30), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
		out = append(out, d)
	}
	for _, f := range allFeatures() {
		for s := range n {
			r := sim.NewRand(c.Seed, "c12", f.Name, s)
			b := gen.New(r)
			b.Big = s%2 == 1
			b.Add(f)
			b.Main = mainMode(r, []gen.Feature{f})
			add(r, project("C12", f.Name, b, singleDoc(nil, r)...))
			if jsonable[f.Name] {
				b := gen.New(r)
				b.Add(f)
				add(r, project("C12", "json-"+f.Name, b, "-o", "json"))
			}
		}
	}
	for i := range 12 * n {
		r := sim.NewRand(c.Seed, "c12 krm", i)
		add(r, gen.NewKRM(r, r.N(6)).Case("C12"))
	}
	for i := range 24 * n {
		r := sim.NewRand(c.Seed, "c12 command", i)
		add(r, command("C12", r, sim.Pick(r, []string{"version", "version", "allow", "allow", "refresh"})))
	}
	for i := range 2 * n {
		// The confirmation of a change that failed.
		r := sim.NewRand(c.Seed, "c12 allow", i)
		cs := command("C12", r, "allow")
		pts, _, err := c.Points(cs)
		if err != nil {
			continue
		}
		for _, pt := range pts {
			if l := ioFaults(r, pt); len(l) > 0 && pt.Path != "stdout" {
				d := cs.Clone()
				d.Phases[0].Faults = []kern.Fault{sim.Pick(r, l)}
				out = append(out, d)
			}
		}
	}
	for _, cs := range c12Wrong() {
		add(sim.NewRand(c.Seed, "c12 wrong", cs.Name), cs)
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c12 order"), out)
	return out
}

// c12Wrong lists command lines that cannot succeed.
func c12Wrong() []*sim.Case {
	var out []*sim.Case
	mk := func(name string, stdin string, args ...string) {
		w := kern.WorldSpec{Files: []kern.FileSpec{gen.Config(), {Path: "/work/p/main.yisp", Parts: []string{"a: 1\n", "---\nb: 2\n"}},
			{Path: "/work/p/types.yisp", Parts: []string{"!yisp &T [schema, {type: integer}]\n"}},
			{Path: "/work/p/empty.yisp", Parts: nil}, {Path: "/work/p/noindex", Dir: true}, {Path: "/work/p/list.json", Parts: []string{"[1, 2"}}}}
		p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: args, Env: gen.Env(), Cwd: "/work/p", Salt: 1, Stdin: &kern.StreamSpec{Parts: []string{stdin}}}
		cs := one(nil, "C12", "wrong-"+name, w, p)
		cs.P = map[string]string{"fails": "1"}
		cs.Tags = []string{"wrong"}
		out = append(out, cs)
	}
	mk("missing", "", "build", "nothere.yisp")
	mk("missing-abs", "", "build", "/nothere/x.yaml")
	mk("noindex", "", "build", "noindex")
	mk("json-two", "", "build", "-o", "json", "main.yisp")
	mk("format", "", "build", "-o", "toml", "main.yisp")
	mk("flag", "", "build", "--nosuch", "main.yisp")
	mk("command", "", "nosuch")
	mk("noargs", "", "build")
	mk("twoargs", "", "build", "main.yisp", "types.yisp")
	mk("allow-noargs", "", "allow")
	mk("badjson", "", "build", "list.json")
	mk("url", "", "build", "https://verif.example/none.yisp")
	mk("stdin-bad", "a: [1\n", "build", "-")
	mk("krm-bad", "items: [1, 2\n", "krm")
	mk("krm-scalar", "items: [1, 2]\n", "krm")
	mk("krm-args", "", "krm", "x")
	mk("krm-script", "functionConfig: {spec: {yisp: \"a: *none\"}}\nitems: []\n", "krm")
	mk("krm-target", "functionConfig: {spec: {target: gone.yisp}}\nitems: []\n", "krm")
	mk("config-gone", "", "-c", "/etc/none/dir/../x/y.yaml", "allow")
	mk("refresh-noanswer", "", "cache-kube-schemas")
	mk("refresh-nokubectl", "\n", "cache-kube-schemas")
	return out
}

func c12Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	var cs *sim.Case
	if r.P(1, 10) {
		cs = command("C12", r, sim.Pick(r, []string{"version", "version", "allow", "allow", "refresh"}))
	} else if r.P(1, 7) {
		cs = gen.NewKRM(r, r.N(9)).Case("C12")
	} else {
		fs := pickFeatures(r, 1+r.N(4), nil)
		if r.P(1, 3) {
			fs = append(fs, sim.Pick(r, gen.Errors))
			if r.P(1, 2) {
				sim.Shuffle(r, fs)
			}
		}
		args := singleDoc(fs, r)
		if r.P(1, 4) {
			args = append(args, "-o", "json")
		}
		cs = mix("C12", r, fs, args...)
	}
	pts, br, err := c.Points(cs)
	if err != nil {
		return nil
	}
	l := len(br.Out[0]["a"].Stdout)
	p := &cs.Phases[0].Procs[0]
	if r.P(2, 3) {
		p.Stdout = &kern.SinkSpec{Limited: r.P(4, 5), Limit: r.N(l + 2), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
		if r.P(1, 2) {
			p.Stdout.MaxWrite = 1 + r.N(3000)
		}
	}
	if r.P(1, 5) {
		p.Stderr = &kern.SinkSpec{Limited: true, Limit: r.N(100), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
	}
	if doing(p) == "cache-kube-schemas" {
		return cs // its progress messages are no result
	}
	if len(pts) > 0 && (p.Stdout == nil || r.P(1, 4)) {
		cs.Phases[0].Faults = scatter(r, pts, 1+r.N(2))
	}
	return cs
}

func c12Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	calm := cs.Calm()
	calm.Phases[0].Procs[0].Stdout, calm.Phases[0].Procs[0].Stderr = nil, nil
	br, err := c.Base(calm)
	if err != nil {
		return nil, err
	}
	b := br.Out[0]["a"]
	if b == nil || dead(b) != nil {
		return nil, nil
	}
	// Progress of a refresh is not a result.
	bad := strings.HasPrefix(cs.Name, "wrong-")
	prog := doing(&cs.Phases[0].Procs[0]) == "cache-kube-schemas"
	if b.Exit != 0 && b.Stdout != "" && !bad && !prog {
		return sim.V("a failing evaluation printed a result", "exit %d (%s), but standard output holds %q", b.Exit, firstLine(b.Stderr), clipS(b.Stdout, 400)), nil
	}
	if b.Exit != 0 && strings.TrimSpace(b.Stderr) == "" {
		return sim.V("a failure said nothing", "exit %d and an empty standard error; standard output %q", b.Exit, clipS(b.Stdout, 400)), nil
	}
	if bad && b.Exit == 0 {
		return sim.V("a command that cannot succeed exits 0", "yisp %s: exit 0; standard output %q", strings.Join(cs.Phases[0].Procs[0].Args, " "), clipS(b.Stdout, 400)), nil
	}
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if o.Hang || o.Panic {
		return dead(o), nil
	}
	p := cs.Phases[0].Procs[0]
	if p.Stdout != nil || p.Stderr != nil {
		c.Non(r)
	}
	ok := o.Exit == 0 && o.Signal == 0
	nf := 0 // faults elsewhere than on the sinks
	for _, f := range allFaults(cs) {
		if f.Path != "stdout" && f.Path != "stderr" || f.Kind == "stall" {
			nf++
		}
	}
	refused := o.StdoutErr || faultOn(cs, "stdout")
	switch {
	case ok && b.Exit != 0 && nf == 0:
		return sim.V("exit 0 although it failed", "with a good standard output it fails (%s)", firstLine(b.Stderr)), nil
	case ok && nf == 0 && o.Stdout != b.Stdout:
		return sim.V("exit 0 without the complete result", "standard output took %d of %d bytes and the command exits 0; %s", len(o.Stdout), len(b.Stdout), diffAt(b.Stdout, o.Stdout)), nil
	case ok && o.StdoutErr:
		return sim.V("exit 0 after a refused write", "standard output refused a write (%d bytes taken) and the command exits 0", len(o.Stdout)), nil
	case !ok && nf == 0 && b.Exit == 0 && !refused && !o.StderrErr && !faultOn(cs, "stderr"):
		return sim.V("failure although everything was written", "exit %d signal %d: %s", o.Exit, o.Signal, firstLine(o.Stderr)), nil
	case !ok && !bad && !prog && !refused && o.Stdout != "":
		return sim.V("a failing evaluation printed a result", "with %s: exit %d (%s), but standard output holds %q", faultText(allFaults(cs)), o.Exit, firstLine(o.Stderr), clipS(o.Stdout, 400)), nil
	case !ok && nf == 0 && !bad && !strings.HasPrefix(b.Stdout, o.Stdout):
		return sim.V("not a prefix of the result", "%s", diffAt(b.Stdout, o.Stdout)), nil
	case !ok && o.Signal == 0 && p.Stderr == nil && strings.TrimSpace(o.Stderr) == "" && !faultOn(cs, "stderr"):
		return sim.V("a failure said nothing", "exit %d with %s and an empty standard error", o.Exit, faultText(allFaults(cs))), nil
	}
	return nil, nil
}

func faultOn(cs *sim.Case, path string) bool {
	for _, f := range allFaults(cs) {
		if f.Path == path {
			return true
		}
	}
	return false
}

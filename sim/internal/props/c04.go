package props

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C04", Bins: []string{"drv", "race"}, Level: "exploration",
		Rule: "simulated runs with different interleavings of two or more evaluations",
		Assume: []string{
			"evaluations interleave between statements (the race detector covers what is finer than that)",
			"globals handed to several evaluations are only read by the caller meanwhile",
		},
		Real: append([]string{driverPart, "the race detector's instrumentation, in every third run"}, realParts...), Stub: append([]string{"the order in which goroutines run: the seed's, with up to 250 switches a run"}, stubParts...),
		Plan: c04Plan, Random: c04Random, Judge: c04Judge,
		Quick: 200000, Thorough: 20_000_000, QuickS: 38, ThoroughS: 1800,
	})
}

// works are evaluations over one world.
type works struct {
	b       *gen.B
	w       kern.WorldSpec
	engines []Opts
	tasks   []Task
	globals map[string]any
	prelude string
}

func someOpts(r *sim.Rand) Opts {
	o := Opts{AllowCmd: true}
	switch r.N(8) {
	case 0:
		o.ShowTrace = false
		o.RenderSources = true
	case 1:
		o.RenderSpecialObjects = true
	case 2:
		o.AllowUntypedManifest = true
	case 3:
		o.DisableTypeCheck = true
	case 4:
		o.AllowCmd = false
	}
	return o
}

// newWorks makes n evaluations of the features.
func newWorks(r *sim.Rand, n int, fs []gen.Feature) *works {
	b := gen.New(r)
	b.Big = r.P(1, 8)
	k := &works{b: b, globals: map[string]any{"p": "shared text", "deep": map[string]any{"a": []any{1, map[string]any{"b": nil}}, "c": 2.5}, "items": []any{1, 2, 3}}}
	type script struct {
		path string
		text string
	}
	var ss []script
	for i, f := range fs {
		from := len(b.Docs)
		b.Add(f)
		docs := b.Docs[from:]
		s := script{path: fmt.Sprintf("%s/t%d.yisp", b.Dir, i)}
		for j, d := range docs {
			if j > 0 {
				s.text += "---\n"
			}
			s.text += d
		}
		if r.P(1, 4) {
			s.text += "---\nuse: *deep\nall: !yisp [lists.map, *items, [lambda, [x], [\"+\", *x, 1]]]\nmerged: !yisp [maps.merge, *deep, {c: 1, d: *p}]\n"
		}
		ss = append(ss, s)
	}
	b.Docs = []string{"x: 1\n"}
	k.w = b.World()
	for _, s := range ss {
		k.w.Files = append(k.w.Files, kern.FileSpec{Path: s.path, Parts: []string{s.text}})
	}
	for range r.N(3) {
		o := someOpts(r)
		o.GoPkgs = b.GoPkgs
		k.engines = append(k.engines, o)
	}
	for i := range n {
		s := sim.Pick(r, ss)
		if i < len(ss) {
			s = ss[i]
		}
		t := Task{Engine: -1, Opts: someOpts(r), Path: s.path, Location: s.path}
		t.Opts.GoPkgs = b.GoPkgs
		if len(k.engines) > 0 && r.P(2, 3) {
			t.Engine = r.N(len(k.engines))
		}
		t.Globals = k.globals
		uses := strings.Contains(s.text, "use: *deep")
		switch c := r.N(9); {
		case c < 2 && !uses:
			t.Op = "file"
		case c < 4 || uses && c < 6:
			t.Op = "fileenv"
		case c < 5:
			t.Op = "reader"
		case c < 6:
			t.Op = "readerenv"
		case c == 6:
			t.Op = "any"
		case c == 7:
			t.Op = "bytes"
			t.SharedEnv = r.P(1, 2)
		default:
			t.Op = sim.Pick(r, []string{"dec", "enc"})
			t.Mode = sim.Pick(r, []string{"any", "node"})
			t.Docs = encDocs(r, 200)
		}
		if t.Op == "reader" || t.Op == "readerenv" || t.Op == "bytes" || t.Op == "dec" {
			t.Reader = &Reader{Data: []byte(s.text), ErrAt: -1}
			if t.Op == "dec" {
				t.Reader.Data = stream(r, 300)
			}
			if r.P(1, 4) && t.Op != "bytes" {
				t.Reader.Chunks = []int{1 + r.N(90)}
			}
		}
		k.tasks = append(k.tasks, t)
	}
	return k
}

// lent makes some of the evaluations use values they share.
func (k *works) lent(r *sim.Rand) {
	if !r.P(1, 2) {
		return
	}
	if k.prelude == "" {
		lendWorld(&k.w)
	}
	k.prelude = prelude
	for i := range k.tasks {
		if r.P(1, 2) {
			lend(r, &k.tasks[i])
		}
	}
}

func (k *works) job(par bool) *Job {
	return &Job{Par: par, Engines: k.engines, Tasks: k.tasks, Globals: k.globals, Prelude: k.prelude}
}

// alone is one task of a job by itself.
func alone(cs *sim.Case, job *Job, i int) *sim.Case {
	d := cs.Clone()
	j := *job
	j.Par = false
	j.At, j.K = nil, nil
	j.Salts = nil
	j.Tasks = []Task{job.Tasks[i]}
	d.Phases = d.Phases[:1]
	d.Phases[0].Faults = nil
	d.Phases[0].Edits = nil
	d.Phases[0].Procs[0].Job = marshalJob(&j)
	d.Phases[0].Procs[0].Bin = "drv"
	return d
}

var addrRE = regexp.MustCompile(`0x[0-9a-f]{6,}|&\{[^}]*\}?`)

// outcome is what a task gave, addresses apart.
func outcome(x *Result) string {
	return fmt.Sprintf("ok %v\nout %s\nerr %s\npanic %s\ndocs %s", x.Ok, x.Out, addrRE.ReplaceAllString(x.Err, "0x"), addrRE.ReplaceAllString(x.Panic, "0x"), strings.Join(x.Docs, "\n"))
}

// c04Sched draws switch points.
func c04Sched(r *sim.Rand, j *Job, total uint64) {
	n := 1
	switch r.N(6) {
	case 0:
		n = 1 + r.N(3)
	case 1, 2:
		n = 2 + r.N(12)
	case 3:
		n = 20 + r.N(60)
	case 4:
		n = 100 + r.N(150)
	case 5:
		n = 3 + r.N(30)
	}
	var at []uint64
	switch {
	case r.P(1, 4): // a burst: switches a few statements apart
		p := r.U64() % total
		for range n {
			at = append(at, p)
			p += 1 + uint64(r.N(sim.Pick(r, []int{2, 10, 100})))
		}
	case r.P(1, 5): // evenly
		step := total/uint64(n) + 1
		for i := range n {
			at = append(at, uint64(i)*step+r.U64()%step)
		}
	default:
		for range n {
			at = append(at, r.U64()%total)
		}
	}
	sort.Slice(at, func(a, b int) bool { return at[a] < at[b] })
	j.At, j.K = nil, nil
	for _, a := range at {
		j.At = append(j.At, a)
		j.K = append(j.K, uint32(r.N(len(j.Tasks))))
	}
}

func c04Case(c *sim.Ctx, r, sr *sim.Rand, n int, fs []gen.Feature) *sim.Case {
	k := newWorks(r, n, fs)
	k.lent(r)
	cs := driverCase("C04", names(fs), k.w, k.job(true))
	cs.Tags = append([]string{"evaluations-" + itoa(min(len(k.tasks), 9))}, k.b.Tags...)
	base, err := c.Base(cs)
	if err != nil || base.Out[0]["a"] == nil {
		return cs
	}
	jr, err := Results(base.Out[0]["a"])
	if err != nil || jr.Yields == 0 {
		return cs
	}
	j := k.job(true)
	c04Sched(sr, j, jr.Yields)
	cs.Phases[0].Procs[0].Job = marshalJob(j)
	if sr.P(1, 3) {
		cs.Phases[0].Procs[0].Bin = "race"
	}
	return cs
}

func c04Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	for _, f := range allFeatures() {
		for s := range 2 {
			r := sim.NewRand(c.Seed, "c04", f.Name, s)
			fs := []gen.Feature{f, f}
			k := newWorks(r, 3, fs)
			k.lent(r)
			cs := driverCase("C04", "pair "+f.Name, k.w, k.job(true))
			if s == 1 {
				// under the race detector, in order: it sees what is not ordered
				cs.Phases[0].Procs[0].Bin = "race"
			}
			out = append(out, cs)
		}
	}
	return out
}

func c04Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	set := sim.NewRand(c.Seed, "c04 set", i/24)
	n := sim.Pick(set, []int{2, 2, 3, 3, 4, 6, 9})
	var fs []gen.Feature
	all := allFeatures()
	for range max(1, n-set.N(2)) {
		fs = append(fs, sim.Pick(set, all))
	}
	if set.P(1, 3) {
		for j := range fs {
			fs[j] = fs[0]
		}
	}
	return c04Case(c, set, r, n, fs)
}

func c04Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if strings.Contains(o.Stderr, "DATA RACE") {
		return sim.V("data race in "+raceSite(o.Stderr), "%s", clipS(o.Stderr, 3000)), nil
	}
	if v := dead(o); v != nil {
		return v, nil
	}
	jr, err := Results(o)
	if err != nil {
		return nil, &sim.ErrHarness{Msg: err.Error()}
	}
	var job Job
	if err := JobOf(cs, &job); err != nil {
		return nil, err
	}
	for i := range job.Tasks {
		a, err := c.Base(alone(cs, &job, i))
		if err != nil {
			return nil, err
		}
		ao := a.Out[0]["a"]
		if dead(ao) != nil {
			continue // C14's business
		}
		ar, err := Results(ao)
		if err != nil {
			return nil, &sim.ErrHarness{Msg: err.Error()}
		}
		x, y := outcome(&ar.Results[0]), outcome(&jr.Results[i])
		if x != y {
			t := &job.Tasks[i]
			return sim.V("another result among others", "%s of %s: alone / with others: %s", t.Op, t.Path, diffAt(x, y)), nil
		}
		if job.Tasks[i].SharedEnv {
			c.Probe("with shared values")
		}
		if ar.Results[0].Ok {
			c.Probe("result")
		} else {
			c.Probe("error")
		}
	}
	if jr.Lent != "" {
		i := strings.Index(jr.Lent, "\nnow ")
		return sim.V("the shared values changed", "%s", diffAt(jr.Lent[4:i], jr.Lent[i+5:])), nil
	}
	if jr.Switched > 0 {
		c.Trace(jr.Trace)
		c.Inject("switch between evaluations", int(jr.Switched))
		c.Non(r)
	}
	return nil, nil
}

var raceFn = regexp.MustCompile(`(?m)^  (github.com/totegamma/yisp[^\s(]*(?:\([^)]*\)[^\s(]*)?)`)

func raceSite(s string) string {
	if m := raceFn.FindStringSubmatch(s); m != nil {
		return clipS(m[1], 80)
	}
	return "?"
}

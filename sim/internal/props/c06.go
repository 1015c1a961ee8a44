package props

import (
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C06", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated histories with a crash, power loss, error or concurrent process that took effect while the cache was written",
		Assume: []string{
			"after power loss the disk holds a prefix of the journal of name changes and, per file, synced data plus a torn prefix of the rest",
			"an entry that was never in place and is not synced may be missing after power loss",
		},
		Real: realParts, Stub: stubParts,
		Plan: c06Plan, Random: c06Random, Judge: c06Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 60, ThoroughS: 1500,
	})
}

// kubeWorld is a machine with an old cache and clusters of newer versions.
type kubeWorld struct {
	r     *sim.Rand
	old   *gen.Cluster
	new   [2]*gen.Cluster
	cs    *sim.Case
	blds  []bld
	nfile int
}

func newKube(r *sim.Rand, prop, name string, n int, cache string) *kubeWorld {
	s := gen.NewShape(r, n)
	max := []int{100, 200, 300}
	sim.Shuffle(r, max)
	k := &kubeWorld{r: r, old: s.Version("v1", max[0], false)}
	k.new[0] = s.Version("v2", max[1], true)
	k.new[1] = s.Version("v3", max[2], true)
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config()}}
	inst := k.old.Install()
	switch cache {
	case "full":
		w.Files = append(w.Files, inst...)
	case "partial":
		for _, f := range inst {
			if r.P(2, 3) {
				w.Files = append(w.Files, f)
			}
		}
	case "dirs":
		w.Files = append(w.Files, kern.FileSpec{Path: gen.Cache + "/schemas", Dir: true}, kern.FileSpec{Path: gen.Cache + "/gvk", Dir: true})
	}
	for i, c := range k.new {
		d := []string{"/usr/bin", "/opt/k2"}[i]
		w.Progs = append(w.Progs, kern.ProgSpec{Path: d + "/kubectl", Kind: "fixed", Stdout: chop(r, c.Body), Stderr: sim.Pick(r, []string{"", "W: deprecated\n"})})
	}
	k.cs = one(nil, prop, name, w)
	k.cs.Phases = nil
	k.cs.Fixed = true
	k.cs.Tags = []string{"cache-" + cache}
	return k
}

func chop(r *sim.Rand, s string) []string {
	if r.P(1, 2) || len(s) < 10 {
		return []string{s}
	}
	i := 1 + r.N(len(s)-2)
	for i < len(s) && !utf8.RuneStart(s[i]) {
		i++ // cases are written as JSON
	}
	return []string{s[:i], s[i:]}
}

// refresh is a refresh from one of the clusters.
func (k *kubeWorld) refresh(name string, which int) kern.ProcSpec {
	p := refreshProc(name)
	p.Salt = uint64(1 + k.r.N(1000))
	if which == 1 {
		p.Env["PATH"] = "/opt/k2:/usr/bin"
	}
	return p
}

// build is a build of a manifest of some kind.
func (k *kubeWorld) build(name string) kern.ProcSpec {
	r := k.r
	all := append(append([]gen.KindInfo{}, k.old.Kinds...), k.new[0].Kinds...)
	ki := sim.Pick(r, all)
	b := bld{Proc: name, Kind: ki, Replicas: sim.Pick(r, []int{50, 50, 100, 150, 250, 400})}
	if r.P(1, 3) {
		b.Bad = sim.Pick(r, gen.Bads)
		b.Replicas = 5
	}
	f := fmt.Sprintf("/work/m/%d.yisp", k.nfile)
	k.nfile++
	k.cs.World.Files = append(k.cs.World.Files, kern.FileSpec{Path: f, Parts: []string{ki.Manifest(b.Replicas, b.Bad)}})
	path := f
	if r.P(1, 4) {
		path = fmt.Sprintf("/work/m/inc%d.yisp", k.nfile)
		k.cs.World.Files = append(k.cs.World.Files, kern.FileSpec{Path: path, Parts: []string{"!yisp\n- include\n- " + f[len("/work/m/"):] + "\n"}})
	}
	k.blds = append(k.blds, b)
	p := manifestProc(name, path)
	p.Salt = uint64(1 + r.N(1000))
	return p
}

func (k *kubeWorld) phase(ps ...kern.ProcSpec) *kern.Phase {
	k.cs.Phases = append(k.cs.Phases, kern.Phase{Procs: ps})
	return &k.cs.Phases[len(k.cs.Phases)-1]
}

func (k *kubeWorld) done() *sim.Case {
	putBuilds(k.cs, k.blds)
	return k.cs
}

// story is a refresh among others, builds, a repair and builds again.
func (k *kubeWorld) story(conc bool) *sim.Case {
	r := k.r
	p := []kern.ProcSpec{k.refresh("r1", 0)}
	if conc {
		for i := range 1 + r.N(3) {
			if r.P(1, 2) && i < 2 {
				p = append(p, k.refresh(fmt.Sprintf("q%d", i), r.N(2)))
			} else {
				p = append(p, k.build(fmt.Sprintf("o%d", i)))
			}
		}
	}
	k.phase(p...)
	k.phase(k.build("b1"), k.build("b2"))
	k.phase(k.refresh("r2", r.N(2)))
	k.phase(k.build("d1"), k.build("d2"))
	return k.done()
}

// fetchStory is the first use of schemas by URL: builds, then builds with or
// without a network.
func fetchStory(r *sim.Rand, prop string, n int) *sim.Case {
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config()}}
	b := gen.New(r)
	url := "https://schemas.verif.example/" + sim.Pick(r, []string{"s.json", "a/b/c?v=1", "x"})
	url2 := url + sim.Pick(r, []string{"2", "/", "?y"})
	sch := func(max int, u string) string {
		return fmt.Sprintf("{\"$id\": %q, \"type\": \"object\", \"description\": %q,\n \"required\": [\"name\"], \"properties\": {\"name\": {\"type\": \"string\"}, \"size\": {\"type\": \"integer\", \"maximum\": %d}}}\n", u, b.Text(sim.Pick(r, []int{5, 600, 5000, 40000})), max)
	}
	w.HTTP = []kern.HTTPSpec{{URL: url, Parts: chop(r, sch(10, url)), NoLength: r.P(1, 2), Chunk: r.N(900)}, {URL: url2, Parts: chop(r, sch(20, url2)), NoLength: r.P(1, 3)}}
	w.Files = append(w.Files,
		kern.FileSpec{Path: "/work/m/one.yisp", Parts: []string{fmt.Sprintf("$schema: %q\nname: n\nsize: 3\n", url)}},
		kern.FileSpec{Path: "/work/m/both.yisp", Parts: []string{fmt.Sprintf("$schema: %q\nname: n\nsize: 3\n---\n$schema: %q\nname: m\nsize: 15\n", url, url2)}},
		kern.FileSpec{Path: "/work/m/bad.yisp", Parts: []string{fmt.Sprintf("$schema: %q\nname: n\nsize: 15\n", url)}})
	files := []string{"/work/m/one.yisp", "/work/m/both.yisp", "/work/m/one.yisp", "/work/m/bad.yisp"}
	cs := one(nil, prop, "fetch", w)
	cs.Phases = nil
	cs.Fixed = true
	var bl []bld
	add := func(ph *kern.Phase, name string) {
		f := sim.Pick(r, files)
		x := bld{Proc: name, URL: url}
		if f == "/work/m/both.yisp" {
			x.URL += " " + url2
		}
		if f == "/work/m/bad.yisp" {
			x.Bad = "size"
		}
		bl = append(bl, x)
		p := manifestProc(name, f)
		p.Salt = uint64(1 + r.N(1000))
		ph.Procs = append(ph.Procs, p)
	}
	a := kern.Phase{}
	for i := range n {
		add(&a, fmt.Sprintf("a%d", i))
	}
	d := kern.Phase{}
	off := r.P(1, 2)
	if off {
		d.Edit = &kern.Edit{Down: []string{url, url2}}
	}
	add(&d, "d0")
	e := kern.Phase{}
	e.Edit = &kern.Edit{HTTP: w.HTTP}
	add(&e, "e0")
	add(&e, "e1")
	f := kern.Phase{Edit: &kern.Edit{Down: []string{url, url2}}}
	add(&f, "f0")
	cs.Phases = []kern.Phase{a, d, e, f}
	cs.Tags = []string{"fetch"}
	putBuilds(cs, bl)
	return cs
}

// crashes lists the crash and error faults of an operation of a cache writer.
func crashes(r *sim.Rand, pt sim.Point) []kern.Fault {
	out := []kern.Fault{pt.At("kill", "", 0)}
	switch pt.Op {
	case "clock", "exit", "getpid", "getcwd", "uname", "fcntl", "ioctl", "epoll", "getrandom":
		return out
	case "write":
		out = append(out, pt.At("tornkill", "", r.N(int(pt.N)+1)), pt.At("killafter", "", 0), pt.At("powerafter", "", r.N(1000)), pt.At("powerafter", "", r.N(1000)))
	case "rename", "fsync", "mkdir", "unlink", "ftruncate", "close", "link", "open":
		out = append(out, pt.At("powerafter", "", r.N(1000)), pt.At("powerafter", "", r.N(1000)), pt.At("killafter", "", 0))
	case "http", "httpread":
		out = append(out, pt.At("killafter", "", 0))
	}
	for _, f := range ioFaults(r, pt) {
		if f.Arg != "EINTR" {
			out = append(out, f)
		}
	}
	return out
}

func c06Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 8
	}
	for s := range n {
		for _, cache := range []string{"none", "full", "partial", "dirs"} {
			r := sim.NewRand(c.Seed, "c06", cache, s)
			cs := newKube(r, "C06", "crash", 1+r.N(4), cache).story(false)
			out = append(out, cs)
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range thin(r, pts, 8) {
				if pt.Phase != 0 || c.Quick() && !onCache(pt.Path) && r.P(2, 3) {
					continue
				}
				for _, f := range crashes(r, pt) {
					if c.Quick() && r.P(1, 3) {
						continue
					}
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
		for i := range 3 {
			r := sim.NewRand(c.Seed, "c06 fetch", i, s)
			cs := fetchStory(r, "C06", 1)
			out = append(out, cs)
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range thin(r, pts, 5) {
				if pt.Phase != 0 {
					continue
				}
				for _, f := range crashes(r, pt) {
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c06 order"), out)
	return out
}

// thin keeps at most max reads of the same thing.
func thin(r *sim.Rand, pts []sim.Point, max int) []sim.Point {
	n := map[string]int{}
	key := func(p sim.Point) string { return p.Proc + " " + p.Op + " " + p.Path }
	for _, p := range pts {
		n[key(p)]++
	}
	var out []sim.Point
	for _, p := range pts {
		k := n[key(p)]
		if k > max && (p.Op == "httpread" || p.Op == "read" || p.Op == "write" && p.Path == "stdout") && !r.P(max, k) {
			continue
		}
		out = append(out, p)
	}
	return out
}

func onCache(p string) bool { return strings.HasPrefix(p, gen.Cache) }

// interleave puts switches on random steps of a phase.
func interleave(r *sim.Rand, ph *kern.Phase, steps uint64, n int) {
	var at []uint64
	for range n {
		at = append(at, uint64(r.N(int(steps)+1)))
	}
	for i := range at {
		for j := i; j > 0 && at[j] < at[j-1]; j-- {
			at[j], at[j-1] = at[j-1], at[j]
		}
	}
	for _, a := range at {
		ph.Switches = append(ph.Switches, kern.Switch{At: a, K: uint32(r.N(4))})
	}
}

// weave puts switches where processes touch what they share: each process in
// turn runs up to one of its operations, rare kinds as likely as frequent ones.
// Processes that find the work done in the calm run may do as much as the
// busiest one when they do not. One of them may die where it was stopped.
func weave(r *sim.Rand, ph *kern.Phase, pts []sim.Point, base uint64, n int, deadly bool) {
	np := len(ph.Procs)
	if np < 2 {
		return
	}
	idx := map[string]int{}
	for i := range ph.Procs {
		idx[ph.Procs[i].Name] = i
	}
	own := make([][]sim.Point, np)
	long := 0
	for _, p := range pts {
		if i, ok := idx[p.Proc]; ok {
			own[i] = append(own[i], p)
			if len(own[i]) > len(own[long]) {
				long = i
			}
		}
	}
	stops := make([]map[string][]int, np)
	var kinds [2][]string
	for i := range own {
		l := own[i]
		if r.P(1, 2) {
			l = own[long]
		}
		stops[i] = map[string][]int{}
		for j, p := range l {
			switch p.Op {
			case "clock", "getpid", "getcwd", "uname", "fcntl", "ioctl", "epoll", "getrandom", "exit":
				continue
			}
			k := p.Op
			shared := 0
			if onCache(p.Path) || strings.HasPrefix(p.Path, "/home/") || p.Op == "http" || p.Op == "httpread" {
				k += " shared"
				shared = 1
			}
			if stops[i][k] == nil && !slices.Contains(kinds[shared], k) {
				kinds[shared] = append(kinds[shared], k)
			}
			stops[i][k] = append(stops[i][k], j)
		}
	}
	if len(kinds[1]) == 0 {
		return
	}
	at := base
	pos := make([]int, np)
	cur := 0
	for range n {
		ks := kinds[1]
		if len(kinds[0]) > 0 && r.P(1, 6) {
			ks = kinds[0]
		}
		var later []int
		for range 8 {
			for _, j := range stops[cur][sim.Pick(r, ks)] {
				if j+1 > pos[cur] {
					later = append(later, j)
				}
			}
			if len(later) > 0 {
				break
			}
		}
		stop := pos[cur] + r.N(4)
		if len(later) > 0 {
			stop = max(sim.Pick(r, later)+r.N(2), pos[cur])
		}
		at += uint64(stop - pos[cur])
		pos[cur] = stop
		k := r.N(4)
		ph.Switches = append(ph.Switches, kern.Switch{At: at + 1, K: uint32(k)})
		if deadly && stop > 0 && r.P(1, 5) {
			// It never comes back.
			ph.Faults = append(ph.Faults, kern.Fault{Proc: ph.Procs[cur].Name, At: stop, Kind: "kill"})
			deadly = false
		}
		cur = (cur + 1 + k%(np-1)) % np
	}
}

// other moves a point of a process to another of its phase, now and then.
func other(r *sim.Rand, ph *kern.Phase, pt sim.Point) sim.Point {
	if len(ph.Procs) > 1 && r.P(1, 3) {
		pt.Proc = ph.Procs[r.N(len(ph.Procs))].Name
	}
	return pt
}

func c06Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	var cs *sim.Case
	if r.P(1, 2) {
		cs = fetchStory(r, "C06", 1+min(r.N(6), 3))
	} else {
		cs = newKube(r, "C06", "mix", 1+r.N(5), sim.Pick(r, []string{"none", "full", "full", "partial", "dirs"})).story(r.P(3, 4))
	}
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	var first []sim.Point
	for _, p := range pts {
		if p.Phase == 0 {
			first = append(first, p)
		}
	}
	ph := &cs.Phases[0]
	if len(ph.Procs) > 1 {
		if r.P(2, 3) {
			weave(r, ph, first, 0, 1+r.N(10), r.P(1, 2))
		} else {
			interleave(r, ph, uint64(len(first)), r.N(24))
		}
	}
	if len(first) > 0 && (r.P(1, 2) || len(ph.Procs) == 1) {
		for range 1 + r.N(2) {
			pt := sim.Pick(r, first)
			for range 6 {
				if onCache(pt.Path) {
					break
				}
				pt = sim.Pick(r, first)
			}
			ph.Faults = append(ph.Faults, sim.Pick(r, crashes(r, other(r, ph, pt))))
		}
	}
	if r.P(1, 8) {
		ph.Edit = &kern.Edit{Quota: int64(1 + r.N(20000))}
		if cs.Phases[1].Edit == nil {
			cs.Phases[1].Edit = &kern.Edit{}
		}
		cs.Phases[1].Edit.Quota = -1
	}
	if r.P(1, 3) {
		for i := range ph.Procs {
			if r.P(1, 2) {
				ph.Procs[i].MaxIO = 1 + r.N(3000)
			}
		}
	}
	return cs
}

func c06Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	return judgeCache(c, cs, r)
}

// judgeCache follows a history of refreshes and builds.
func judgeCache(c *sim.Ctx, cs *sim.Case, r *sim.Run) (*sim.Violation, error) {
	root := gen.Cache
	m := model(cs, root)
	blds := buildsOf(cs)
	before := initial(cs)
	served := map[string]bool{}
	for _, h := range cs.World.HTTP {
		served[h.URL] = h.Status == 0 || h.Status == 200
	}
	full := false // the disk is full
	lossy := false
	for i := range cs.Phases {
		ph := &cs.Phases[i]
		if e := ph.Edit; e != nil {
			for _, h := range e.HTTP {
				served[h.URL] = h.Status == 0 || h.Status == 200
			}
			for _, u := range e.Down {
				served[u] = false
			}
			if e.Quota != 0 {
				full = e.Quota > 0
			}
		}
		after := r.FS[i]
		when := fmt.Sprintf("after phase %d", i)
		if fs := ph.Faults; len(fs) > 0 {
			when += " with " + faultText(fs)
		}
		var writers []*kern.ProcSpec
		for j := range ph.Procs {
			p := &ph.Procs[j]
			o := r.Out[i][p.Name]
			if v := dead(o); v != nil && !o.Killed {
				return v, nil
			}
			if blds[p.Name] == nil || blds[p.Name].URL != "" {
				writers = append(writers, p)
			}
		}
		if v := m.check(after, when); v != nil {
			return v, nil
		}
		lossy = lossy || powered(ph)
		if powered(ph) {
			if v := m.kept(initial(cs), after, when); v != nil {
				return v, nil
			}
		} else if v := m.kept(before, after, when); v != nil {
			return v, nil
		}
		if len(ph.Switches) > 0 && r.W.Switched > 0 {
			c.Probe("interleaved writers")
		}
		for j := range ph.Procs {
			p := &ph.Procs[j]
			o := r.Out[i][p.Name]
			if o.Killed {
				c.Probe("killed")
				continue
			}
			hit := faulted(ph, p.Name) || full
			b := blds[p.Name]
			if b == nil {
				a, good := answerOf(cs, p, root)
				if !good {
					continue
				}
				if o.Exit != 0 && !hit {
					return sim.V("refresh fails", "%s: exit %d without a fault of its own: %s (%s)", p.Name, o.Exit, firstLine(o.Stderr), when), nil
				}
				if o.Exit == 0 {
					if s := refreshed(a, after, m, len(writers) == 1); s != "" && !powered(ph) {
						return sim.V("refresh incomplete", "%s exits 0 but %s (%s)", p.Name, s, when), nil
					}
				}
				continue
			}
			if b.URL != "" {
				v, err := judgeFetch(c, cs, ph, p, o, b, before, served, hit, len(ph.Procs) == 1)
				if v != nil || err != nil {
					return v, err
				}
				continue
			}
			v, err := judgeKind(c, cs, p, o, b, before, len(writers) == 0, hit)
			if v != nil || err != nil {
				return v, err
			}
		}
		before = after
	}
	_ = lossy
	return nil, nil
}

// judgeKind decides a build of a manifest of a kind.
func judgeKind(c *sim.Ctx, cs *sim.Case, p *kern.ProcSpec, o *kern.Outcome, b *bld, before map[string]string, alone, hit bool) (*sim.Violation, error) {
	all, max := b.needs(before)
	want, err := untyped(c, cs, p)
	if err != nil {
		return nil, err
	}
	what := fmt.Sprintf("%s (%s %s, replicas %d %s)", p.Name, b.Kind.APIVersion, b.Kind.Kind, b.Replicas, b.Bad)
	if o.Exit == 0 {
		if b.Bad != "" {
			return sim.V("unchecked build", "%s succeeds although no version of the schema allows it", what), nil
		}
		if o.Stdout != want {
			return sim.V("different build", "%s: %s", what, diffAt(want, o.Stdout)), nil
		}
		if b.Replicas > 300 {
			return sim.V("unchecked build", "%s succeeds although no version of the schema allows it", what), nil
		}
		if alone && !all {
			return sim.V("unchecked build", "%s succeeds although an entry it needs is missing", what), nil
		}
		if alone && b.Replicas > max {
			return sim.V("unchecked build", "%s succeeds although the cached schema allows at most %d", what, max), nil
		}
		return nil, nil
	}
	if o.Stdout != "" {
		return sim.V("result of a failed build", "%s exits %d and prints %q", what, o.Exit, clipS(o.Stdout, 200)), nil
	}
	if hit || b.Bad != "" {
		return nil, nil
	}
	if all && (b.Replicas <= 100 || alone && b.Replicas <= max) {
		return sim.V("build fails", "%s fails although every entry it needs is there: %s", what, firstLine(o.Stderr)), nil
	}
	return nil, nil
}

// judgeFetch decides a build that uses schemas by URL.
func judgeFetch(c *sim.Ctx, cs *sim.Case, ph *kern.Phase, p *kern.ProcSpec, o *kern.Outcome, b *bld, before map[string]string, served map[string]bool, hit, alone bool) (*sim.Violation, error) {
	want, err := untyped(c, cs, p)
	if err != nil {
		return nil, err
	}
	what := fmt.Sprintf("%s (%s %s)", p.Name, b.URL, b.Bad)
	get := true  // every schema can be had
	had := false // one of them cannot be had by anybody
	for _, u := range strings.Fields(b.URL) {
		_, warm := before[gen.SchemaCacheName(u)]
		if !warm && !served[u] {
			get, had = false, true
		}
	}
	if o.Exit == 0 {
		if b.Bad != "" {
			return sim.V("unchecked build", "%s succeeds although the schema does not allow it", what), nil
		}
		if had && alone {
			return sim.V("unchecked build", "%s succeeds although the schema is neither cached nor served", what), nil
		}
		if o.Stdout != want {
			return sim.V("different build", "%s: %s", what, diffAt(want, o.Stdout)), nil
		}
		return nil, nil
	}
	if o.Stdout != "" {
		return sim.V("result of a failed build", "%s exits %d and prints %q", what, o.Exit, clipS(o.Stdout, 200)), nil
	}
	if b.Bad == "" && get && !hit {
		return sim.V("build fails", "%s fails although its schemas are cached or served: %s", what, firstLine(o.Stderr)), nil
	}
	return nil, nil
}

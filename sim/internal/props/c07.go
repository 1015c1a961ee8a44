package props

import (
	"encoding/json"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C07", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated refreshes with different histories in which the cluster's answer was broken or a step failed",
		Assume: []string{
			"--cache-dir moves what the refresh writes; builds read the default place",
			"numbers in definitions pass through 64-bit floating point",
			"an answer without any definition may count as an error or as nothing to do",
		},
		Real: realParts, Stub: stubParts,
		Plan: c07Plan, Random: c07Random, Judge: c07Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// brokenAnswer spoils what the cluster says. class: "bad" when there is no
// complete valid answer, "semi" when a part of it cannot be used, "empty"
// when it says nothing, "" when it is whole.
func brokenAnswer(r *sim.Rand, cs *sim.Case, how string) (class string) {
	p := &cs.World.Progs[0]
	body := strings.Join(p.Stdout, "")
	p.Stdout = []string{body}
	set := func(s string) { p.Stdout = []string{s} }
	edit := func(f func(defs map[string]any, id string)) {
		var m map[string]any
		if err := json.Unmarshal([]byte(body), &m); err != nil {
			panic(err)
		}
		defs := m["definitions"].(map[string]any)
		ids := keysOf(defs)
		f(defs, sim.Pick(r, ids))
		b, _ := json.Marshal(m)
		set(string(b))
	}
	gvk := func(v any) func(map[string]any, string) {
		return func(defs map[string]any, id string) {
			defs[id].(map[string]any)["x-kubernetes-group-version-kind"] = v
		}
	}
	switch how {
	case "none":
		cs.World.Progs = cs.World.Progs[1:]
		return "bad"
	case "exit":
		p.Exit = 1 + r.N(255)
		if r.P(1, 2) {
			set(body[:r.N(len(body))])
		}
		return "bad"
	case "exit-empty":
		p.Exit = 1
		p.Stdout = nil
		p.Stderr = "Unable to connect to the server\n"
		return "bad"
	case "signal":
		p.Signal = sim.Pick(r, []int{9, 15, 6})
		if r.P(1, 2) {
			set(body[:r.N(len(body))])
		}
		return "bad"
	case "silent":
		p.Stdout = nil
		return "bad"
	case "cut":
		end := strings.LastIndexByte(body, '}')
		set(body[:1+r.N(end-1)])
		return "bad"
	case "garbage-after":
		set(body + sim.Pick(r, []string{"}", "x", "{}", "\n]", "\x00"}))
		return "bad"
	case "garbage-before":
		set(sim.Pick(r, []string{"W1 warning\n", "\x00", "]", "<", "\ufeff"}) + body)
		return "bad"
	case "html":
		set("<html><body>Login</body></html>\n")
		return "bad"
	case "hole":
		i := r.N(len(body) - 40)
		set(body[:i] + body[i+20+r.N(20):])
		if json.Valid([]byte(strings.Join(p.Stdout, ""))) {
			set("{")
		}
		return "bad"
	case "array":
		set("[" + body + "]")
		return "bad"
	case "string":
		set(`"ok"`)
		return "bad"
	case "defs-array":
		set(`{"definitions": [1, 2]}`)
		return "bad"
	case "defs-string":
		set(`{"definitions": "none"}`)
		return "bad"
	case "def-string":
		edit(func(d map[string]any, id string) { d[id] = "x" })
		return "bad"
	case "def-list":
		edit(func(d map[string]any, id string) { d[id] = []any{} })
		return "bad"
	case "status":
		set(`{"kind": "Status", "status": "Failure", "code": 403}`)
		return "empty"
	case "empty-object":
		set(`{}`)
		return "empty"
	case "null":
		set(`null`)
		return "empty"
	case "def-null":
		edit(func(d map[string]any, id string) { d[id] = nil })
		return "semi"
	case "gvk-string":
		edit(gvk("x"))
		return "semi"
	case "gvk-item":
		edit(gvk([]any{map[string]any{"group": "g", "version": "v", "kind": "K"}, "x"}))
		return "semi"
	case "gvk-nogroup":
		edit(gvk([]any{map[string]any{"version": "v", "kind": "K"}}))
		return "semi"
	case "gvk-noversion":
		edit(gvk([]any{map[string]any{"group": "g", "kind": "K"}}))
		return "semi"
	case "gvk-nokind":
		edit(gvk([]any{map[string]any{"version": "v", "group": "K"}}))
		return "semi"
	}
	panic(how)
}

var answers = []string{"none", "exit", "exit-empty", "signal", "silent", "cut", "cut", "cut", "garbage-after", "garbage-before", "html", "hole", "array", "string",
	"defs-array", "defs-string", "def-string", "def-list", "status", "empty-object", "null", "def-null", "gvk-string", "gvk-item", "gvk-nogroup", "gvk-noversion", "gvk-nokind"}

func c07Case(r *sim.Rand, n int, cache string) *sim.Case {
	k := newKube(r, "C07", "refresh", n, cache)
	k.phase(k.refresh("r1", 0))
	k.phase(k.build("b1"), k.build("b2"), k.build("b3"))
	cs := k.done()
	cs.P["class"] = ""
	p := &cs.Phases[0].Procs[0]
	if r.P(1, 6) {
		d := sim.Pick(r, []string{"/home/u/other", "/work/cache/deep/er", gen.Cache})
		p.Args = sim.Pick(r, [][]string{{"cache-kube-schemas", "--cache-dir", d}, {"--cache-dir=" + d, "cache-kube-schemas"}})
		cs.P["root"] = d
		if r.P(1, 2) {
			delete(p.Env, "HOME")
			p.Args = append(p.Args, "--config", "/home/u/.config/yisp/config.yaml")
		}
	}
	if r.P(1, 5) {
		p.Stdin.Chunks = []int{1}
		p.Stdin.Parts = []string{sim.Pick(r, []string{"y", "yes\n", "\n\n\n", "x"})}
	}
	return cs
}

// fatten makes a JSON object long and leaves it what it is.
func fatten(r *sim.Rand, s string) string {
	i := strings.IndexByte(s, '{') + 1
	if r.P(1, 3) {
		i = strings.LastIndexByte(s, '}')
	}
	n := sim.Pick(r, []int{1<<16 + r.N(5000), 1<<18 + r.N(5000), 1<<20 + r.N(100000), 1<<20 + r.N(3<<20)})
	return s[:i] + strings.Repeat(sim.Pick(r, []string{" ", "\n", "\t \n  "}), n)[:n] + s[i:]
}

func c07Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 8
	}
	caches := []string{"none", "full", "partial", "dirs"}
	for s := range n {
		for i, a := range answers {
			for j, cache := range caches {
				if c.Quick() && (i+j)%2 == 0 && cache != "full" {
					continue
				}
				r := sim.NewRand(c.Seed, "c07", a, i, cache, s)
				cs := c07Case(r, 1+r.N(5), cache)
				cs.P["class"] = brokenAnswer(r, cs, a)
				cs.Name = "answer-" + a
				out = append(out, cs)
			}
		}
		for _, cache := range caches[:2] {
			// as many definitions as real clusters have, and more
			r := sim.NewRand(c.Seed, "c07 many", cache, s)
			cs := c07Case(r, 520+r.N(100), cache)
			cs.Name = "many"
			out = append(out, cs)
		}
		for _, cache := range caches {
			for _, nd := range []int{1, 4} {
				r := sim.NewRand(c.Seed, "c07 steps", cache, nd, s)
				cs := c07Case(r, nd, cache)
				out = append(out, cs)
				if big := cs.Clone(); len(big.World.Progs) > 0 {
					// a real cluster answers with megabytes
					big.Name, big.Whole, big.Fixed = "large", true, true
					big.World.Progs[0].Stdout = []string{fatten(r, strings.Join(big.World.Progs[0].Stdout, ""))}
					out = append(out, big)
				}
				d := cs.Clone()
				d.Name, d.P["class"] = "no-home", "bad"
				delete(d.Phases[0].Procs[0].Env, "HOME")
				if d.P["root"] == "" {
					out = append(out, d)
				}
				d = cs.Clone()
				d.Name, d.P["class"] = "no-answer-at-prompt", "bad"
				d.Phases[0].Procs[0].Stdin = &kern.StreamSpec{End: sim.Pick(r, []string{"", "EIO", "ECONNRESET"})}
				out = append(out, d)
				for range 12 {
					d = cs.Clone()
					d.Name = "full-disk"
					d.Phases[0].Edit = &kern.Edit{Quota: int64(1 + r.N(sim.Pick(r, []int{200, 3000, 30000})))}
					d.Phases[1].Edit = &kern.Edit{Quota: -1}
					out = append(out, d)
				}
				for range 6 {
					d = cs.Clone()
					d.Name = "sink"
					sp := &kern.SinkSpec{Limited: true, Limit: r.N(600), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
					if r.P(1, 3) {
						d.Phases[0].Procs[0].Stderr = sp
					} else {
						d.Phases[0].Procs[0].Stdout = sp
					}
					out = append(out, d)
				}
				pts, _, err := c.Points(cs)
				if err != nil {
					continue
				}
				for _, pt := range thin(r, pts, 6) {
					if pt.Phase != 0 {
						continue
					}
					for _, f := range append(ioFaults(r, pt), streamFaults(r, pt)...) {
						d := cs.Clone()
						d.Phases[0].Faults = []kern.Fault{f}
						out = append(out, d)
					}
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c07 order"), out)
	return out
}

func c07Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	cs := c07Case(r, 1+r.N(9), sim.Pick(r, []string{"none", "full", "partial", "dirs"}))
	if r.P(1, 3) {
		a := sim.Pick(r, answers)
		cs.P["class"] = brokenAnswer(r, cs, a)
		cs.Name = "answer-" + a
	}
	p := &cs.Phases[0].Procs[0]
	if r.P(1, 3) {
		p.MaxIO = 1 + r.N(2000)
	}
	if r.P(1, 6) {
		cs.Phases[0].Edit = &kern.Edit{Quota: int64(1 + r.N(40000))}
		cs.Phases[1].Edit = &kern.Edit{Quota: -1}
	}
	if r.P(2, 3) {
		pts, _, err := c.Points(cs)
		if err != nil {
			return nil
		}
		var first []sim.Point
		for _, q := range thin(r, pts, 6) {
			if q.Phase == 0 {
				first = append(first, q)
			}
		}
		if len(first) > 0 {
			cs.Phases[0].Faults = scatter(r, first, 1+r.N(3))
		}
	}
	return cs
}

func c07Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	root := cs.P["root"]
	if root == "" {
		root = gen.Cache
	}
	ph := &cs.Phases[0]
	p := &ph.Procs[0]
	o := r.Out[0][p.Name]
	if v := dead(o); v != nil && !(o.Signal == 13 && (p.Stdout != nil || p.Stderr != nil)) {
		return v, nil
	}
	if cs.P["class"] != "" || p.Stdout != nil || p.Stderr != nil {
		c.Non(r)
	}
	m := model(cs, root)
	before, after := initial(cs), r.FS[0]
	when := "after " + cs.Name
	if len(ph.Faults) > 0 {
		when += " with " + faultText(ph.Faults)
	}
	// What the faults did to the answer: a child that failed has not
	// answered. A spoilt standard error is not a spoilt answer.
	class := cs.P["class"]
	child := false
	for _, f := range ph.Faults {
		if f.Kind == "child" {
			child = true
		}
	}
	if v := m.kept(before, after, when); v != nil {
		return v, nil
	}
	if class == "bad" {
		if o.Exit == 0 {
			return sim.V("false success", "the refresh exits 0 %s: %q", when, clipS(o.Stdout, 300)), nil
		}
		for _, q := range keysOf(after) {
			if !strings.HasPrefix(q, root+"/schemas/") && !strings.HasPrefix(q, root+"/gvk/") {
				continue
			}
			if b, ok := before[q]; !ok || b != after[q] {
				return sim.V("broken answer cached", "%s %s holds %q", when, q, clipS(after[q], 300)), nil
			}
		}
	}
	if class == "semi" {
		if o.Exit == 0 {
			return sim.V("false success", "the refresh exits 0 %s", when), nil
		}
		return c07Semi(m, before, after, cs, root, when), nil
	}
	if v := m.check(after, when); v != nil && class == "" {
		return v, nil
	}
	if o.Exit != 0 {
		if strings.TrimSpace(o.Stderr) == "" && p.Stderr == nil && !faultOn(cs, "stderr") {
			return sim.V("a failure said nothing", "exit %d and an empty standard error %s", o.Exit, when), nil
		}
		if class == "" && len(ph.Faults) == 0 && p.Stdout == nil && p.Stderr == nil && (ph.Edit == nil || ph.Edit.Quota <= 0) {
			return sim.V("refresh fails", "exit %d although nothing is wrong: %s", o.Exit, firstLine(o.Stderr)), nil
		}
		return nil, nil
	}
	if class == "empty" {
		return nil, nil
	}
	c.Probe("success")
	if len(ph.Faults) > 0 {
		c.Probe("success in spite of a fault")
	}
	if child && r.W.NFired > 0 && childFailed(r) {
		return sim.V("false success", "the refresh exits 0 %s", when), nil
	}
	a, ok := answerOf(cs, p, root)
	if !ok {
		return nil, nil
	}
	if s := refreshed(a, after, m, true); s != "" {
		return sim.V("false success", "the refresh exits 0 %s but %s", when, s), nil
	}
	// And the kinds can be used.
	blds := buildsOf(cs)
	for j := range cs.Phases[1].Procs {
		q := &cs.Phases[1].Procs[j]
		if root == gen.Cache {
			if v, err := judgeKind(c, cs, q, r.Out[1][q.Name], blds[q.Name], after, true, false); v != nil || err != nil {
				return v, err
			}
		}
	}
	return nil, nil
}

// childFailed tells whether a command started and then failed.
func childFailed(r *sim.Run) bool {
	for k := range r.W.Fired {
		if strings.HasPrefix(k, "child:") {
			return true
		}
	}
	return false
}

// c07Semi: entries are old or what the answer says.
func c07Semi(m *cacheModel, before, after map[string]string, cs *sim.Case, root, when string) *sim.Violation {
	var doc struct {
		Definitions map[string]any `json:"definitions"`
	}
	if json.Unmarshal([]byte(strings.Join(cs.World.Progs[0].Stdout, "")), &doc) != nil {
		return nil
	}
	for _, q := range keysOf(after) {
		if b, ok := before[q]; ok && b == after[q] {
			continue
		}
		if !strings.HasPrefix(q, root+"/schemas/") || !strings.HasSuffix(q, ".json") {
			continue
		}
		id := strings.TrimSuffix(q[len(root+"/schemas/"):], ".json")
		d, ok := doc.Definitions[id]
		if !ok {
			continue
		}
		j, _ := json.Marshal(d)
		want, _ := canon(string(j), false)
		if entry(q, after[q]) != want {
			return sim.V("broken cache entry", "%s %s holds %q", when, q, clipS(after[q], 300))
		}
	}
	return nil
}

package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C08", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated histories of builds with different histories in which an answer of the network was broken, a step failed or builds interleaved",
		Assume: []string{
			"an answer cut without a detectable end counts as malformed only if what arrived is not valid JSON",
			"the answer null is not tested (it is valid JSON and declares nothing)",
			"a stalled connection has no time limit in the program",
		},
		Real: realParts, Stub: stubParts,
		Plan: c08Plan, Random: c08Random, Judge: c08Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// webInfo is what the judge of C08 knows about a case.
type webInfo struct {
	URLs  []string          // all
	Final map[string]string // url -> schema that belongs to it (canonical)
	Pages map[string]page
	Trans []string // urls whose network path includes a redirect
}

// page is a document: the schemas it uses and whether they accept it.
type page struct {
	URLs []string
	Bad  bool
}

// urlSets are URLs that must not be taken for one another.
var urlSets = [][]string{
	{"https://schemas.verif.example/s.json"},
	{"https://schemas.verif.example/a", "https://schemas.verif.example/a/"},
	{"https://schemas.verif.example/a?v=1", "https://schemas.verif.example/a?v=2", "https://schemas.verif.example/a"},
	{"https://schemas.verif.example/a", "https://schemas.verif.example/A"},
	{"https://schemas.verif.example/a", "http://schemas.verif.example/a"},
	{"https://schemas.verif.example/a/b", "https://schemas.verif.example/a_b", "https://schemas.verif.example/a-b", "https://schemas.verif.example/a.b"},
	{"https://schemas.verif.example/a%2Fb", "https://schemas.verif.example/a/b"},
	{"https://schemas.verif.example:8443/a", "https://schemas.verif.example/a"},
	{"https://one.verif.example/s.json", "https://two.verif.example/s.json"},
	{"https://schemas.verif.example/v1/s.json", "https://schemas.verif.example/v2/s.json"},
	{"https://schemas.verif.example/x~~~?>>", "https://schemas.verif.example/x~~~??>"},
	{"https://schemas.verif.example/" + strings.Repeat("long/", 20) + "a", "https://schemas.verif.example/" + strings.Repeat("long/", 20) + "b"},
}

// webCase is a project of documents that use schemas by URL, built cold, then
// warm, then without a network.
func webCase(r *sim.Rand, set int, conc int) *sim.Case {
	b := gen.New(r)
	urls := append([]string{}, urlSets[set%len(urlSets)]...)
	sim.Shuffle(r, urls)
	info := webInfo{URLs: urls, Final: map[string]string{}, Pages: map[string]page{}}
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config()}}
	sub := `{"type": "object", "properties": {"p": {"type": "string"}}}`
	w.Files = append(w.Files, kern.FileSpec{Path: gen.Cache + "/schemas/Sub.json", Parts: []string{sub}})
	for i, u := range urls {
		s := map[string]any{"$id": u, "type": "object", "description": b.Text(sim.Pick(r, []int{0, 20, 500, 700, 5000})), "required": []string{fmt.Sprintf("only%d", i)},
			"properties": map[string]any{
				fmt.Sprintf("only%d", i): map[string]any{"type": sim.Pick(r, []string{"string", "string"})},
				"size":                   map[string]any{"type": "integer", "maximum": 10},
				"sub":                    map[string]any{"$ref": "#/definitions/Sub"},
				"opt":                    map[string]any{"type": "array", "items": map[string]any{"type": "integer"}},
			}}
		var j []byte
		if r.P(1, 2) {
			j, _ = json.MarshalIndent(s, "", "  ")
		} else {
			j, _ = json.Marshal(s)
		}
		body := string(j) + sim.Pick(r, []string{"", "\n", "\n\n"})
		info.Final[u], _ = canon(body, false)
		w.HTTP = append(w.HTTP, kern.HTTPSpec{URL: u, Parts: []string{body}, NoLength: r.P(1, 2), Chunk: sim.Pick(r, []int{0, 0, 1 + r.N(60), 1000}),
			Header: sim.Pick(r, []map[string]string{nil, {"Content-Type": "application/json"}, {"Content-Type": "text/plain", "Etag": "x"}})})
	}
	doc := func(i int, bad string) string {
		s := fmt.Sprintf("$schema: %q\nonly%d: %s\nsize: %d\nsub: {p: q}\nopt: [1, 2]\n", urls[i], i, b.Word(), 1+r.N(9))
		switch bad {
		case "size":
			s = fmt.Sprintf("$schema: %q\nonly%d: z\nsize: 11\n", urls[i], i)
		case "missing":
			s = fmt.Sprintf("$schema: %q\nsize: 1\n", urls[i])
		case "other":
			s = fmt.Sprintf("$schema: %q\nonly%d: z\nonly%d: z\n", urls[i], i, i+1)
		case "sub":
			s = fmt.Sprintf("$schema: %q\nonly%d: z\nsub: {p: 3}\n", urls[i], i)
		}
		return s
	}
	var all []string
	for i := range urls {
		p := fmt.Sprintf("/work/m/d%d.yisp", i)
		w.Files = append(w.Files, kern.FileSpec{Path: p, Parts: []string{doc(i, "")}})
		info.Pages[p] = page{URLs: []string{urls[i]}}
		all = append(all, p)
		q := fmt.Sprintf("/work/m/x%d.yisp", i)
		w.Files = append(w.Files, kern.FileSpec{Path: q, Parts: []string{doc(i, sim.Pick(r, []string{"size", "missing", "other", "sub"}))}})
		info.Pages[q] = page{URLs: []string{urls[i]}, Bad: true}
		all = append(all, q)
	}
	var s []string
	for i := range urls {
		s = append(s, doc(i, ""))
		if r.P(1, 2) {
			s = append(s, doc(i, ""))
		}
	}
	w.Files = append(w.Files, kern.FileSpec{Path: "/work/m/all.yisp", Parts: []string{strings.Join(s, "---\n")}})
	info.Pages["/work/m/all.yisp"] = page{URLs: urls}
	inc := "!yisp\n- include\n"
	for i := range urls {
		inc += fmt.Sprintf("- d%d.yisp\n", i)
	}
	w.Files = append(w.Files, kern.FileSpec{Path: "/work/m/inc.yisp", Parts: []string{inc}})
	info.Pages["/work/m/inc.yisp"] = page{URLs: urls}
	all = append(all, "/work/m/all.yisp", "/work/m/inc.yisp")

	cs := one(nil, "C08", "web", w)
	cs.Phases = nil
	n := 0
	phase := func(k int, what ...string) *kern.Phase {
		ph := kern.Phase{}
		for i := range k {
			f := sim.Pick(r, all)
			if i < len(what) {
				f = what[i]
			}
			p := manifestProc(fmt.Sprintf("p%d", n), f)
			p.Salt = uint64(1 + r.N(1000))
			n++
			ph.Procs = append(ph.Procs, p)
		}
		cs.Phases = append(cs.Phases, ph)
		return &cs.Phases[len(cs.Phases)-1]
	}
	first := sim.Pick(r, []string{"/work/m/all.yisp", "/work/m/all.yisp", "/work/m/inc.yisp", "/work/m/d0.yisp"})
	phase(conc, first)
	ph := phase(2, first) // the network is well again
	ph.Edit = &kern.Edit{HTTP: append([]kern.HTTPSpec{}, w.HTTP...), Quota: -1}
	ph = phase(2, "/work/m/all.yisp")
	ph.Edit = &kern.Edit{}
	ph = phase(2, "/work/m/all.yisp")
	ph.Edit = &kern.Edit{Down: urls}
	cs.Fixed, cs.Whole = true, true
	b2, _ := json.Marshal(info)
	cs.P = map[string]string{"web": string(b2)}
	return cs
}

func webOf(cs *sim.Case) *webInfo {
	var w webInfo
	json.Unmarshal([]byte(cs.P["web"]), &w)
	return &w
}

// breakWeb makes the network answer wrongly in the first phase. It returns the
// name of what it did.
func breakWeb(r *sim.Rand, cs *sim.Case, how string) {
	h := &cs.World.HTTP[r.N(len(webOf(cs).URLs))]
	body := strings.Join(h.Parts, "")
	last := strings.LastIndexByte(body, '}')
	if last < 10 || h.Status != 0 {
		return // already broken
	}
	bad := true
	switch how {
	case "refused":
		h.Status = -1
	case "status":
		h.Status = sim.Pick(r, []int{201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 407, 410, 418, 429, 500, 501, 502, 503, 504})
		if h.Status == 204 || h.Status == 304 {
			h.Parts = nil
		}
	case "status-html":
		h.Status = sim.Pick(r, []int{404, 500, 503})
		h.Parts = []string{"<html>down</html>\n"}
	case "status-json":
		h.Status = sim.Pick(r, []int{404, 403, 500})
		h.Parts = []string{`{"message": "Not Found"}`}
	case "html":
		h.Parts = []string{"<html>Sign in</html>\n"}
	case "empty":
		h.Parts = nil
	case "cut":
		h.Parts = []string{body[:1+r.N(last-1)]}
	case "cut-silent":
		h.Parts = []string{body[:1+r.N(last-1)]}
		h.NoLength = true
	case "lost":
		// the connection breaks, with a whole schema received or less
		h.Lost = 1 + r.N(3000)
		if r.P(1, 4) {
			h.Parts = []string{body[:r.N(last+1)]}
		}
	case "after":
		h.Parts = []string{body + sim.Pick(r, []string{"x", "}", "{}", "]"})}
	case "array":
		h.Parts = []string{"[" + body + "]"}
	case "string":
		h.Parts = []string{`"schema"`}
	case "number":
		h.Parts = []string{"404\n"}
	case "wrong-type":
		h.Parts = []string{sim.Pick(r, []string{`{"type": 5}`, `{"properties": []}`, `{"required": "name"}`, `{"type": ["object"]}`})}
	case "hole":
		i := r.N(last / 2)
		h.Parts = []string{body[:i] + "\x00\x01" + body[i+2:]}
	case "redirect", "redirect-2":
		// what it moves to is the same document
		t := "https://moved.verif.example/" + itoa(r.N(100))
		e := *h
		e.URL = t
		h.Status = sim.Pick(r, []int{301, 302, 303, 307, 308})
		h.Header = map[string]string{"Location": t}
		h.Parts = nil
		if how == "redirect-2" {
			t2 := "https://moved.verif.example/again"
			cs.World.HTTP = append(cs.World.HTTP, kern.HTTPSpec{URL: t, Status: 302, Header: map[string]string{"Location": t2}, Parts: []string{"<a>moved</a>"}})
			e.URL = t2
		}
		cs.World.HTTP = append(cs.World.HTTP, e)
		bad = false
	case "redirect-loop":
		h.Status = 302
		h.Header = map[string]string{"Location": h.URL}
	case "redirect-bad":
		h.Status = 302
		h.Header = map[string]string{"Location": "https://moved.verif.example/none"}
	case "redirect-nowhere":
		h.Status = 302
		h.Header = nil
	case "redirect-html":
		h.Status = 302
		h.Header = map[string]string{"Location": "https://moved.verif.example/login"}
		cs.World.HTTP = append(cs.World.HTTP, kern.HTTPSpec{URL: "https://moved.verif.example/login", Parts: []string{"<html>login</html>"}})
	default:
		panic(how)
	}
	cs.Name = "answer-" + how
	if bad {
		cs.P["broken"] += h.URL + " "
	}
}

var webTroubles = []string{"refused", "status", "status", "status", "status-html", "status-json", "html", "empty", "cut", "cut", "cut-silent", "cut-silent", "lost", "lost", "after", "array", "string", "number",
	"wrong-type", "hole", "redirect", "redirect-2", "redirect-loop", "redirect-bad", "redirect-nowhere", "redirect-html"}

func c08Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 10
	}
	for s := range n {
		for set := range urlSets {
			for j := range 2 {
				r := sim.NewRand(c.Seed, "c08", set, j, s)
				cs := webCase(r, set, 1+j*2)
				out = append(out, cs)
				if set < 3 {
					d := cs.Clone()
					d.Name = "large"
					for i := range d.World.HTTP {
						d.World.HTTP[i].Parts = []string{fatten(r, strings.Join(d.World.HTTP[i].Parts, ""))}
					}
					for i := range d.Phases {
						if e := d.Phases[i].Edit; e != nil && len(e.HTTP) > 0 {
							e.HTTP = d.World.HTTP
						}
					}
					out = append(out, d)
				}
			}
		}
		for i, t := range webTroubles {
			for j := range 3 {
				r := sim.NewRand(c.Seed, "c08 t", i, j, s)
				cs := webCase(r, i+j, 1)
				breakWeb(r, cs, t)
				out = append(out, cs)
			}
		}
		for i := range 3 {
			r := sim.NewRand(c.Seed, "c08 p", i, s)
			cs := webCase(r, i, 1)
			if i == 2 {
				breakWeb(r, cs, "redirect")
			}
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range thin(r, pts, 4) {
				if pt.Phase != 0 {
					continue
				}
				l := ioFaults(r, pt)
				switch pt.Op {
				case "http":
					for _, st := range []int{201, 204, 206, 300, 304, 400, 403, 404, 408, 429, 500, 502, 503} {
						l = append(l, pt.At("http", fmt.Sprintf("status:%d", st), 0))
					}
					for range 6 {
						l = append(l, pt.At("http", sim.Pick(r, []string{"truncate", "truncate-silent", "reset"}), r.N(900)))
					}
				case "write":
					l = append(l, pt.At("short", "", r.N(int(pt.N)+1)))
				}
				for _, f := range l {
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c08 order"), out)
	return out
}

func c08Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	conc := 1
	if r.P(1, 2) {
		conc = 2 + r.N(3)
	}
	cs := webCase(r, r.N(len(urlSets)), conc)
	if r.P(1, 3) {
		breakWeb(r, cs, sim.Pick(r, webTroubles))
		if r.P(1, 4) {
			breakWeb(r, cs, sim.Pick(r, []string{"refused", "status", "cut", "html"}))
		}
	}
	ph := &cs.Phases[0]
	if r.P(1, 6) {
		ph.Edit = &kern.Edit{Quota: int64(1 + r.N(8000))}
	}
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	var first []sim.Point
	for _, p := range pts {
		if p.Phase == 0 {
			first = append(first, p)
		}
	}
	if conc > 1 {
		if r.P(1, 2) {
			weave(r, ph, first, 0, 1+r.N(16), r.P(1, 3))
		} else {
			interleave(r, ph, uint64(len(first)), 1+r.N(30))
		}
		for _, j := range []int{1, 2} {
			if r.P(1, 3) {
				q := &cs.Phases[j]
				interleave(r, q, uint64(len(pts)), 1+r.N(10))
			}
		}
	}
	first = thin(r, first, 4)
	if len(first) > 0 && r.P(1, 2) {
		for range 1 + r.N(2) {
			pt := sim.Pick(r, first)
			for range 5 {
				if pt.Op == "http" || pt.Op == "httpread" || onCache(pt.Path) {
					break
				}
				pt = sim.Pick(r, first)
			}
			l := ioFaults(r, pt)
			if pt.Op == "http" || onCache(pt.Path) {
				l = append(l, crashes(r, pt)...)
			}
			if len(l) > 0 {
				ph.Faults = append(ph.Faults, sim.Pick(r, l))
			}
		}
	}
	return cs
}

func c08Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	w := webOf(cs)
	m := &cacheModel{ok: map[string]map[string]string{}}
	for u, s := range w.Final {
		m.add(gen.SchemaCacheName(u), s, "network")
	}
	broken := map[string]bool{}
	for _, u := range strings.Fields(cs.P["broken"]) {
		broken[u] = true
	}
	if len(broken) > 0 {
		c.Non(r)
	}
	before := initial(cs)
	for i := range cs.Phases {
		ph := &cs.Phases[i]
		after := r.FS[i]
		when := fmt.Sprintf("in phase %d of %s", i, cs.Name)
		if len(ph.Faults) > 0 {
			when += " with " + faultText(ph.Faults)
		}
		if v := m.check(after, when); v != nil {
			return v, nil
		}
		if !powered(ph) {
			if v := m.kept(before, after, when); v != nil {
				return v, nil
			}
		}
		if i == 0 {
			for u := range broken {
				if s, ok := after[gen.SchemaCacheName(u)]; ok {
					return sim.V("broken answer cached", "%s the cache holds %q for %s", when, clipS(s, 300), u), nil
				}
			}
			if r.W.Switched > 0 && len(ph.Procs) > 1 {
				c.Probe("interleaved fetches")
			}
		} else {
			broken = map[string]bool{}
		}
		full := ph.Edit != nil && ph.Edit.Quota > 0
		down := ph.Edit != nil && len(ph.Edit.Down) > 0
		for j := range ph.Procs {
			p := &ph.Procs[j]
			o := r.Out[i][p.Name]
			if v := dead(o); v != nil && !o.Killed {
				return v, nil
			}
			if o.Killed {
				continue
			}
			path := p.Args[len(p.Args)-1]
			pg := w.Pages[path]
			what := p.Name + " (" + path + ") " + when
			want, err := untyped(c, cs, p)
			if err != nil {
				return nil, err
			}
			warm, had := true, true
			for _, u := range pg.URLs {
				_, ok := before[gen.SchemaCacheName(u)]
				warm = warm && ok
				if !ok && (broken[u] || down) {
					had = false
				}
			}
			if o.Exit == 0 {
				switch {
				case pg.Bad:
					return sim.V("unchecked build", "%s succeeds although its schema does not allow it", what), nil
				case !had:
					return sim.V("unchecked build", "%s succeeds although a schema it uses could not be had", what), nil
				case o.Stdout != want:
					return sim.V("different build", "%s: %s", what, diffAt(want, o.Stdout)), nil
				}
				if i > 0 || !hasFault(cs) {
					for _, u := range pg.URLs {
						if _, ok := after[gen.SchemaCacheName(u)]; !ok {
							return sim.V("fetched schema not kept", "%s succeeds but %s is not in the cache", what, u), nil
						}
					}
				}
				continue
			}
			if o.Stdout != "" {
				return sim.V("result of a failed build", "%s exits %d and prints %q", what, o.Exit, clipS(o.Stdout, 200)), nil
			}
			if strings.TrimSpace(o.Stderr) == "" && !faultOn(cs, "stderr") {
				return sim.V("a failure said nothing", "%s: exit %d", what, o.Exit), nil
			}
			if pg.Bad || !had || faulted(ph, p.Name) || full {
				continue
			}
			if warm {
				return sim.V("build fails", "%s fails although its schemas are cached: %s", what, firstLine(o.Stderr)), nil
			}
			return sim.V("build fails", "%s fails although its schemas are served: %s", what, firstLine(o.Stderr)), nil
		}
		before = after
	}
	return nil, nil
}

func hasFault(cs *sim.Case) bool { return len(allFaults(cs)) > 0 }

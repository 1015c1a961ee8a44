package props

import (
	"strings"
	"unicode/utf8"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C14", Bins: []string{"yisp", "drv"}, Level: "exploration",
		Rule: "simulated runs with different histories over damaged inputs (a run of the driver evaluates many scripts)",
		Assume: []string{
			"bounded time means 20 million statements of the interpreter for an evaluation of the driver, and 25 s of processor time for a command",
			"scripts that ask for exponential work or endless recursion through several calls per level are not made",
		},
		Real: append([]string{driverPart}, realParts...), Stub: stubParts,
		Plan: c14Plan, Random: c14Random, Judge: c14Judge,
		Quick: 400000, Thorough: 20_000_000, QuickS: 38, ThoroughS: 1800,
	})
}

const c14Budget = 20_000_000

// oddWorld is what scripts of odd calls may touch.
func oddWorld() kern.WorldSpec {
	return kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config("good.example/*"),
		{Path: "/work/d.yaml", Parts: []string{"a: 1\nb: [x, {c: null}]\n"}},
		{Path: "/work/d.json", Parts: []string{`{"a": [1, 2.5, null], "b": {"c": "x"}}`}},
		{Path: "/work/t.txt", Parts: []string{"hello\nworld\n"}},
		{Path: "/work/inc.yisp", Parts: []string{"!yisp\n- \"+\"\n- 1\n- 2\n---\nx: 1\n"}},
		{Path: "/work/sub/a.txt", Parts: []string{"a"}},
		{Path: gen.Cache + "/gvk/core_v1_Pod.json", Parts: []string{`{"$ref": "#/definitions/pod"}`}},
		{Path: gen.Cache + "/schemas/pod.json", Parts: []string{`{"type": "object", "properties": {"apiVersion": {"type": "string"}, "kind": {"type": "string"}, "spec": {"type": "object"}}}`}},
	}, HTTP: []kern.HTTPSpec{
		{URL: "https://verif.example/x.yaml", Parts: []string{"a: 1\n"}},
		{URL: "https://verif.example/x.json", Parts: []string{`{"a": [1]}`}},
		{URL: "https://verif.example/s.json", Parts: []string{`{"type": "object"}`}},
	}, Progs: []kern.ProgSpec{{Path: "/usr/bin/echo", Kind: "echo"}, {Path: "/usr/bin/cat", Kind: "cat"}, {Path: "/usr/bin/go", Kind: "fixed", Stdout: []string{"{a: 1}\n"}}}}
}

func c14Opts(r *sim.Rand) Opts {
	o := Opts{AllowCmd: r.P(7, 8), GoPkgs: []string{"good.example/*"}}
	switch r.N(6) {
	case 0:
		o.ShowTrace = false
		o.RenderSources = true
	case 1:
		o.RenderSpecialObjects = true
	case 2:
		o.AllowUntypedManifest = true
	case 3:
		o.DisableTypeCheck = true
	}
	return o
}

func scriptTask(r *sim.Rand, s string, loc string) Task {
	t := Task{Op: "readerenv", Engine: -1, Opts: c14Opts(r), Reader: &Reader{Data: []byte(s), ErrAt: -1}, Location: loc}
	t.Globals = map[string]any{"items": []any{1, map[string]any{"a": nil}, "x"}, "p": "text"}
	if r.P(1, 5) {
		t.Op = "bytes"
	}
	return t
}

func driverCase(prop, name string, w kern.WorldSpec, j *Job) *sim.Case {
	cs := one(nil, prop, name, w, DriverProc(j))
	cs.Tags = []string{name}
	return cs
}

// wrap puts a call somewhere in a script.
func wrapCall(r *sim.Rand, call string) string {
	switch r.N(7) {
	case 0:
		return "a: 1\nb: !yisp " + call + "\n"
	case 1:
		return "!yisp [lists.map, !quote [1, 2], [lambda, [x], " + call + "]]\n"
	case 2:
		return "r: &g !yisp " + call + "\ns: !yisp [lists.cons, *g, !quote []]\nt: *g\n"
	case 3:
		return "!yisp [progn, " + call + ", [if, " + call + ", 1, 2]]\n"
	case 4:
		return "- !yisp " + call + "\n- z\n---\n!yisp [lists.as-toplevel, " + call + "]\n"
	}
	return "!yisp " + call + "\n"
}

func c14Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	r := sim.NewRand(c.Seed, "c14 plan")
	// every operator with no operand, with each one, and, when there is time, each two
	var tasks []Task
	flush := func(name string, n int) {
		if len(tasks) >= n && len(tasks) > 0 {
			out = append(out, driverCase("C14", name, oddWorld(), &Job{Tasks: tasks, Budget: c14Budget}))
			tasks = nil
		}
	}
	for _, op := range gen.Operators {
		tasks = append(tasks, scriptTask(r, "!yisp "+gen.Call(r, op)+"\n", "/work/main.yisp"))
		for _, a := range gen.Odd {
			tasks = append(tasks, scriptTask(r, "!yisp "+gen.Call(r, op, a)+"\n", "/work/main.yisp"))
			flush("ops-one", 150)
			if !c.Quick() {
				for _, b := range gen.Odd {
					tasks = append(tasks, scriptTask(r, wrapCall(r, gen.Call(r, op, a, b)), "/work/main.yisp"))
					flush("ops-two", 150)
				}
			}
		}
	}
	flush("ops-one", 0)
	for i := range 40 {
		out = append(out, spoiltCase(sim.NewRand(c.Seed, "c14 spoilt", i)))
	}
	// every kind of answer of a cluster that is not what it should be
	for i, a := range answers {
		r := sim.NewRand(c.Seed, "c14 answer", a, i)
		cs := c07Case(r, 1+r.N(3), sim.Pick(r, []string{"none", "full", "partial"}))
		brokenAnswer(r, cs, a)
		cs.Prop, cs.Name, cs.Fixed, cs.P = "C14", "answer-"+a, false, nil
		cs.Tags = []string{"cluster-answer"}
		out = append(out, cs)
	}
	// every feature, truncated at every place (a sample of the places of long ones)
	for _, f := range allFeatures() {
		r := sim.NewRand(c.Seed, "c14 cut", f.Name)
		b := gen.New(r)
		b.Add(f)
		s := strings.Join(b.Parts(), "")
		step := max(1, len(s)/150)
		if !c.Quick() {
			step = 1
		}
		var ts []Task
		for i := 0; i < len(s); i += step {
			ts = append(ts, scriptTask(r, s[:i], b.Dir+"/main.yisp"))
			if len(ts) == 150 {
				out = append(out, driverCase("C14", "cut-"+f.Name, b.World(), &Job{Tasks: ts, Budget: c14Budget}))
				ts = nil
			}
		}
		if len(ts) > 0 {
			out = append(out, driverCase("C14", "cut-"+f.Name, b.World(), &Job{Tasks: ts, Budget: c14Budget}))
		}
	}
	out = append(out, c14Deep()...)
	return out
}

// c14Deep nests everything that nests.
func c14Deep() []*sim.Case {
	var out []*sim.Case
	rep := strings.Repeat
	block := func(n int, item string) string {
		var sb strings.Builder
		for i := range n {
			sb.WriteString(rep(" ", i) + item + "\n")
		}
		return sb.String()
	}
	for _, n := range []int{150, 1200, 9990, 30000} {
		m := min(n, 1200)
		for name, s := range map[string]string{
			"flow-seq":   rep("[", n) + rep("]", n) + "\n",
			"flow-map":   rep("{a: ", n) + rep("}", n) + "\n",
			"flow-open":  rep("[", n),
			"map-open":   rep("{", n),
			"dash":       rep("- ", n) + "x\n",
			"question":   rep("? ", n) + "x\n",
			"block":      block(m, "a:"),
			"block-seq":  block(m, "-"),
			"call":       "!yisp " + rep("[progn, ", n) + "1" + rep("]", n) + "\n",
			"sum":        "!yisp " + rep(`["+", 1, `, n) + "1" + rep("]", n) + "\n",
			"lambda":     "!yisp " + rep("[[lambda, [x], ", n) + "1" + rep("], 0]", n) + "\n",
			"lambdas":    "!yisp " + rep("[lambda, [x], ", n) + "1" + rep("]", n) + "\n",
			"quote":      "!yisp [lists.car, " + rep("!quote [", n) + "1" + rep("]", n) + "]\n",
			"if":         "!yisp " + rep("[if, true, ", n) + "1" + rep(", 2]", n) + "\n",
			"marshal":    "!yisp [yaml.marshal, " + rep("!quote [", n) + "1" + rep("]", n) + "]\n",
			"unmarshal":  "!yisp [yaml.unmarshal, \"" + rep("[", n) + rep("]", n) + "\"]\n",
			"unmarshal2": "!yisp [yaml.unmarshal, \"" + rep("[", n) + "\"]\n",
			"flatten":    "!yisp [lists.flatten, " + rep("!quote [", n) + "1" + rep("]", n) + "]\n",
			"anchor":     rep("&a [", min(n, 3000)) + "*a" + rep("]", min(n, 3000)) + "\n",
			"tags":       rep("!yisp ", n) + "[1]\n",
			"comments":   rep("# c\n", n) + "a: 1\n",
			"docs":       rep("---\na: 1\n", min(n, 3000)),
			"keys":       "a: &a 1\n" + rep("b: *a\n", min(n, 3000)),
			"assert":     "!yisp [types.assert, " + rep("{type: array, items: ", min(n, 3000)) + "{type: string}" + rep("}", min(n, 3000)) + ", " + rep("!quote [", min(n, 3000)) + "1" + rep("]", min(n, 3000)) + "]\n",
			"schema":     "!yisp [schema, " + rep("{type: array, items: ", n) + "{type: string}" + rep("}", n) + "]\n",
			"oneof":      "!yisp [types.assert, " + rep("{oneOf: !quote [", min(n, 300)) + "{type: string}" + rep("]}", min(n, 300)) + ", 5]\n",
			"include":    "!yisp [include, deep.yaml]\n---\n!yisp [include, deep.json]\n---\n!yisp [include, deep.yisp]\n",
			"patch":      "!yisp [maps.patch, {a: 1}, !quote [{op: add, path: \"" + rep("/a", min(n, 3000)) + "\", value: 1}]]\n",
			"merge":      "!yisp [maps.merge, " + rep("{a: ", min(n, 3000)) + "1" + rep("}", min(n, 3000)) + ", " + rep("{a: ", min(n, 3000)) + "2" + rep("}", min(n, 3000)) + "]\n",
			"glob":       "!yisp [files.glob, \"" + rep("*/", min(n, 40)) + "x\"]\n---\n!yisp [files.glob, \"" + rep("{a,", min(n, 2000)) + "\"]\n",
			"split":      "!yisp [strings.split, \"" + rep("a", n) + "\", \"\"]\n",
			"format":     "!yisp [strings.format, \"" + rep("%[9]*.[2]*d", min(n, 300)) + "\", 1]\n",
			"pipeline":   "!yisp [pipeline, 1" + rep(`, [lambda, [x], ["+", *x, 1]]`, min(n, 4000)) + "]\n",
			"self":       "f: &f !yisp [lambda, [x], [*f, *x]]\n---\n!yisp [*f, 1]\n",
			"omega":      "!yisp [[lambda, [x], [*x, *x]], [lambda, [x], [*x, *x]]]\n",
			"cycle":      "a: &a [*a]\nb: &b {c: *b}\n---\n*a\n---\n!yisp [lists.flatten, *a, *b]\n",
			"selfinc":    "!yisp [include, main.yisp]\n",
		} {
			w := oddWorld()
			w.Files = append(w.Files, kern.FileSpec{Path: "/work/main.yisp", Parts: []string{s}},
				kern.FileSpec{Path: "/work/deep.yaml", Parts: []string{rep("- ", n) + "x\n"}},
				kern.FileSpec{Path: "/work/deep.json", Parts: []string{rep("[", n) + rep("]", n)}},
				kern.FileSpec{Path: "/work/deep.yisp", Parts: []string{rep("[", n) + rep("]", n)}})
			for i, a := range [][]string{{"build", "/work/main.yisp"}, {"build", "-o", "json", "--disable-type-check", "/work/main.yisp"}, {"build", "--enable-sourcemap", "--render-special-objects", "/work/main.yisp"}} {
				if n > 2000 && i > 0 {
					continue // the output is indented that deep: hundreds of megabytes
				}
				p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: a, Env: gen.Env(), Cwd: "/work", Salt: 1}
				cs := one(nil, "C14", "deep-"+name+"-"+itoa(n), w, p)
				cs.Tags = []string{"deep"}
				out = append(out, cs)
			}
			if n <= 2000 && name != "selfinc" {
				// the same as the function and as an item of a KRM input
				in := "kind: ResourceList\nfunctionConfig:\n  spec:\n    yisp: |\n      " + strings.ReplaceAll(strings.TrimSuffix(s, "\n"), "\n", "\n      ") + "\nitems: []\n"
				if name == "flow-map" || name == "dash" || name == "question" {
					in = "kind: ResourceList\nfunctionConfig:\n  spec:\n    yisp: |\n      a: *items\nitems:\n- a: " + map[string]string{"flow-map": s, "dash": "\n  " + s, "question": "\n    " + s}[name]
				}
				p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: []string{"krm"}, Env: gen.Env(), Cwd: "/work", Salt: 1, Stdin: &kern.StreamSpec{Parts: []string{in}}}
				out = append(out, one(nil, "C14", "deepkrm-"+name+"-"+itoa(n), w, p))
			}
		}
	}
	sortCases(out)
	return out
}

func sortCases(cs []*sim.Case) {
	for i := 1; i < len(cs); i++ {
		for j := i; j > 0 && cs[j].Name+strings.Join(cs[j].Phases[0].Procs[0].Args, " ") < cs[j-1].Name+strings.Join(cs[j-1].Phases[0].Procs[0].Args, " "); j-- {
			cs[j], cs[j-1] = cs[j-1], cs[j]
		}
	}
}

// store puts damaged contents back, in parts the minimiser can drop.
func store(s string) (parts []string, b64 string) {
	if !utf8.ValidString(s) {
		return nil, gen.B64(s)
	}
	l := strings.SplitAfter(s, "\n")
	if len(l) > 200 {
		return []string{s}, ""
	}
	return l, ""
}

func contents(parts []string, b64 string) string {
	if b64 != "" {
		b, _ := unB64(b64)
		return string(b)
	}
	return strings.Join(parts, "")
}

// damageCase damages some of what the commands of a case read.
func damageCase(r *sim.Rand, cs *sim.Case) {
	var l []func()
	dmg := func(what, path string, parts *[]string, b64 *string) {
		l = append(l, func() {
			cs.Tags = append(cs.Tags, "damage "+what)
			s := contents(*parts, *b64)
			n := 1 + r.N(3)
			if (strings.HasSuffix(path, ".json") || strings.HasPrefix(strings.TrimSpace(s), "{")) && r.P(3, 4) {
				s = gen.DamageJSON(r, s, n)
			} else {
				s = gen.Damage(r, s, n)
			}
			*parts, *b64 = store(s)
		})
	}
	for i := range cs.World.Files {
		f := &cs.World.Files[i]
		if !f.Dir && f.Link == "" {
			dmg("file", f.Path, &f.Parts, &f.B64)
		}
	}
	for i := range cs.World.HTTP {
		h := &cs.World.HTTP[i]
		dmg("response", h.URL, &h.Parts, &h.B64)
	}
	for i := range cs.World.Progs {
		p := &cs.World.Progs[i]
		if p.Kind == "fixed" {
			dmg("program output", p.Path, &p.Stdout, &p.B64)
		}
	}
	for i := range cs.Phases {
		for j := range cs.Phases[i].Procs {
			if s := cs.Phases[i].Procs[j].Stdin; s != nil {
				dmg("standard input", "", &s.Parts, &s.B64)
				dmg("standard input", "", &s.Parts, &s.B64)
			}
		}
	}
	if len(l) == 0 {
		return
	}
	for range sim.Pick(r, []int{1, 1, 1, 2, 3}) {
		sim.Pick(r, l)()
	}
}

func c14Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	if r.P(1, 12) {
		return spoiltCase(r)
	}
	switch i % 9 {
	case 0, 4:
		var ts []Task
		for range 120 {
			s := wrapCall(r, gen.OddCall(r, r.N(3)))
			if r.P(1, 6) {
				s = gen.Damage(r, s, 1)
			}
			ts = append(ts, scriptTask(r, s, "/work/main.yisp"))
		}
		return driverCase("C14", "ops", oddWorld(), &Job{Tasks: ts, Budget: c14Budget, Salts: []uint64{r.U64() >> 1}})
	case 7:
		var ts []Task
		for range 120 {
			ts = append(ts, scriptTask(r, gen.EdgeScript(r), "/work/main.yisp"))
		}
		return driverCase("C14", "edges", oddWorld(), &Job{Tasks: ts, Budget: c14Budget, Salts: []uint64{r.U64() >> 1}})
	case 1, 5:
		b := gen.New(r)
		fs := []gen.Feature{sim.Pick(r, allFeatures())}
		for range r.N(3) {
			fs = append(fs, sim.Pick(r, gen.Features))
		}
		for _, f := range fs {
			b.Add(f)
		}
		s := strings.Join(b.Parts(), "")
		if len(s) > 20000 {
			s = s[:20000]
		}
		var ts []Task
		for range 60 {
			ts = append(ts, scriptTask(r, gen.Damage(r, s, sim.Pick(r, []int{1, 1, 2, 3, 6})), b.Dir+"/main.yisp"))
		}
		cs := driverCase("C14", "script "+names(fs), b.World(), &Job{Tasks: ts, Budget: c14Budget})
		cs.Tags = append([]string{"damaged-script"}, b.Tags...)
		return cs
	case 2:
		var ts []Task
		b := gen.New(r)
		for range 100 {
			var s string
			switch r.N(4) {
			case 0:
				s = b.Data()
			case 1:
				s = b.JSON()
			case 2:
				s = "!yisp " + b.Any(2) + "\n"
			default:
				f := sim.Pick(r, allFeatures())
				x := gen.New(r)
				x.Add(f)
				s = strings.Join(x.Parts(), "")
			}
			if len(s) > 5000 {
				s = s[:5000]
			}
			ts = append(ts, Task{Op: "dec", Engine: -1, Mode: sim.Pick(r, []string{"any", "node"}), Reader: &Reader{Data: []byte(gen.Damage(r, s, 1+r.N(4))), ErrAt: -1}})
		}
		return driverCase("C14", "yaml", kern.WorldSpec{}, &Job{Tasks: ts, Budget: c14Budget})
	case 3:
		k := gen.NewKRM(r, r.N(6))
		cs := k.Case("C14")
		damageCase(r, cs)
		broken(c, r, cs)
		return cs
	case 6:
		var cs *sim.Case
		switch r.N(5) {
		case 4:
			cs = c07Case(r, 1+r.N(3), sim.Pick(r, []string{"none", "full", "partial"}))
			brokenAnswer(r, cs, sim.Pick(r, answers))
		case 0:
			cs = newKube(r, "C14", "kube", 1+r.N(4), sim.Pick(r, []string{"full", "full", "partial", "none"})).story(r.P(1, 3))
		case 1:
			cs = fetchStory(r, "C14", 1+r.N(2))
		case 2:
			cs = cfgCase(r, sim.Pick(r, []string{"some", "absent", "some"}), 1+r.N(2))
		default:
			x := execProject(r, 1+r.N(3), "", nil)
			cs = execCase(r, "C14", "exec", "flag", x)
		}
		cs.Prop = "C14"
		cs.Name = "damaged " + cs.Name
		cs.Fixed = false
		cs.P = nil
		damageCase(r, cs)
		return cs
	}
	fs := []gen.Feature{sim.Pick(r, allFeatures())}
	for range r.N(3) {
		fs = append(fs, sim.Pick(r, gen.Features))
	}
	cs := mix("C14", r, fs, singleDoc(fs, r)...)
	damageCase(r, cs)
	cs.Tags = append(cs.Tags, "damaged-project")
	broken(c, r, cs)
	return cs
}

// broken lets a damaged input also arrive broken: reads that fail, answers cut
// short, an input that ends early.
func broken(c *sim.Ctx, r *sim.Rand, cs *sim.Case) {
	if r.P(1, 2) {
		return
	}
	if s := cs.Phases[0].Procs[0].Stdin; s != nil && r.P(1, 2) {
		s.Cut = 1 + r.N(800)
	}
	pts, _, err := c.Points(cs)
	if err != nil || len(pts) == 0 {
		return
	}
	for range 1 + r.N(2) {
		pt := sim.Pick(r, pts)
		if fs := ioFaults(r, pt); len(fs) > 0 {
			cs.Phases[0].Faults = append(cs.Phases[0].Faults, sim.Pick(r, fs))
		}
	}
}

func c14Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	for i, m := range r.Out {
		for _, n := range keysOf(m) {
			o := m[n]
			if v := dead(o); v != nil {
				return v, nil
			}
			p := procOf(cs, i, n)
			if p == nil || p.Bin != "drv" {
				if cs.P["fails"] != "" && o.Exit == 0 {
					return sim.V("damaged input taken for good", "%s: exit 0, output %q", cs.Name, clipS(o.Stdout, 1500)), nil
				}
				continue
			}
			jr, err := Results(o)
			if err != nil {
				return nil, &sim.ErrHarness{Msg: err.Error()}
			}
			var job Job
			if err := JobOf(cs, &job); err != nil {
				return nil, err
			}
			for k, x := range jr.Results {
				if x.Panic != "" {
					what := ""
					if t := job.Tasks[k].Reader; t != nil {
						what = string(t.Data)
					}
					msg, fn, _ := strings.Cut(x.Panic, " in ")
					if strings.Contains(msg, "budget exhausted") {
						return sim.V("endless evaluation", "no end after %d statements, script %q", c14Budget, clipS(what, 1500)), nil
					}
					return sim.V("panic in "+fn, "%s, script %q", x.Panic, clipS(what, 1500)), nil
				}
				if cs.P["fails"] != "" && x.Ok {
					t := &job.Tasks[k]
					d := string(t.Reader.Data)
					return sim.V("damaged input taken for good", "%s %s gives a result for a text that is no YAML and ends with %q: %q", t.Op, t.Mode, d[max(0, len(d)-200):], clipS(x.Out+strings.Join(x.Docs, ";"), 1500)), nil
				}
				c.Inject("damaged or odd script", 1)
				if x.Ok {
					c.Probe("accepted all the same")
				} else {
					c.Probe("error")
				}
			}
		}
	}
	for _, t := range cs.Tags {
		if k, ok := strings.CutPrefix(t, "damage "); ok {
			c.Inject("damaged "+k, 1)
		}
	}
	c.Non(r)
	return nil, nil
}

func procOf(cs *sim.Case, phase int, name string) *kern.ProcSpec {
	if phase >= len(cs.Phases) {
		return nil
	}
	for i := range cs.Phases[phase].Procs {
		if p := &cs.Phases[phase].Procs[i]; p.Name == name {
			return p
		}
	}
	return nil
}

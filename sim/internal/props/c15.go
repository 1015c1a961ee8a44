package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"gopkg.in/yaml.v3"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C15", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated runs of the function with different histories in which a stream was split, failed or was damaged, or a step failed",
		Assume: []string{
			"items are compared as parsed YAML; their order of keys and style may change",
			"items hold strings, integers, booleans, null, maps and lists (floating point numbers and time stamps are formatted by the renderer)",
			"an input cut at a place where it is still a valid document is that document",
		},
		Real: realParts, Stub: stubParts,
		Plan: c15Plan, Random: c15Random, Judge: c15Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// krmWant makes the case with what it must print.
func krmWant(k *gen.KRM) *sim.Case {
	cs := k.Case("C15")
	if k.Want != nil || len(k.Items) == 0 {
		b, err := json.Marshal(k.Want)
		if err != nil {
			panic(err)
		}
		cs.P = map[string]string{"want": string(b)}
	}
	cs.Whole, cs.Fixed = true, true
	return cs
}

// yamlDocs parses a stream.
func yamlDocs(s string) ([]any, error) {
	d := yaml.NewDecoder(bytes.NewReader([]byte(s)))
	out := []any{}
	for {
		var v any
		err := d.Decode(&v)
		if errors.Is(err, io.EOF) {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
}

func viaJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(err)
	}
	var x any
	json.Unmarshal(b, &x)
	return x
}

// badItem puts something that is not an object among the items.
func badItem(r *sim.Rand, cs *sim.Case) bool {
	p := &cs.Phases[0].Procs[0]
	for i, s := range p.Stdin.Parts {
		if s == "items:\n" {
			bad := sim.Pick(r, []string{"- just text\n", "- 5\n", "- [a, b]\n", "- null\n", "-\n", "- true\n", "- - x\n", "- \"\"\n"})
			// behind any of the items
			at := i + 1
			n := 0
			for j := i + 1; j < len(p.Stdin.Parts) && strings.HasPrefix(p.Stdin.Parts[j], "- "); j++ {
				n++
			}
			at += r.N(n + 1)
			p.Stdin.Parts = append(p.Stdin.Parts[:at], append([]string{bad}, p.Stdin.Parts[at:]...)...)
			return true
		}
	}
	return false
}

// badInput makes the input as a whole wrong.
func badInput(r *sim.Rand, cs *sim.Case, how int) {
	p := &cs.Phases[0].Procs[0]
	text := strings.Join(p.Stdin.Parts, "")
	var s string
	switch how % 10 {
	case 0:
		s = strings.Replace(text, "items:", "items: 5\nitems2:", 1)
	case 1:
		s = strings.Replace(text, "items:", "items: {a: 1}\nitems2:", 1)
	case 2:
		s = "- " + text
	case 3:
		s = strings.Replace(text, "  spec:\n", "  spec: [1]\n  spec2:\n", 1)
	case 4:
		s = strings.Replace(text, "functionConfig:\n", "functionConfig: text\nfunctionConfig2:\n", 1)
	case 5:
		s = text + "\t}\n"
	case 6:
		s = text + "  bad: [\n"
	case 7:
		s = strings.Replace(text, "kind: ResourceList\n", "kind: ResourceList\nkind: ResourceList\n", 1)
	case 8:
		s = strings.Replace(text, "items:", "items:\n- {a: &a 1, c: *b}\nitems2:", 1)
	default:
		i := r.N(len(text))
		s = text[:i] + "\xff\xfe\x00" + text[i:]
	}
	p.Stdin.Parts = []string{s}
}

// badScript makes the script fail.
func badScript(r *sim.Rand, cs *sim.Case) bool {
	p := &cs.Phases[0].Procs[0]
	scr := sim.Pick(r, []string{
		"a: *none\n", "!yisp [nosuch.op, 1]\n", "!yisp [include, gone.yisp]\n", "a: [1\n", "a: *items\n---\nb: !yisp [\"+\", x, 1]\n",
		"a: *items\n---\n!yisp [include, \"https://verif.example/gone.yaml\"]\n", "!yisp [files.read, gone.txt]\n", "!yisp [lists.at, *items, 100000]\n",
		"all: *items\n---\nx: !yisp [types.assert, {type: string}, 5]\n", "a: !yisp [exec.cmd, {cmd: nosuchcmd}]\n",
	})
	for i, s := range p.Stdin.Parts {
		if !strings.HasPrefix(s, "functionConfig:") {
			continue
		}
		if j := strings.Index(s, "    yisp: |\n"); j >= 0 {
			l := strings.Split(strings.TrimSuffix(scr, "\n"), "\n")
			p.Stdin.Parts[i] = s[:j] + "    yisp: |\n      " + strings.Join(l, "\n      ") + "\n"
			return true
		}
	}
	return false
}

func c15Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 8
	}
	for s := range n {
		for _, k := range []int{0, 1, 2, 3, 5, 8, 13, 30, 100, 400, 1500} {
			for j := range 6 {
				if k > 400 && j > 1 {
					break
				}
				r := sim.NewRand(c.Seed, "c15", k, j, s)
				cs := krmWant(gen.NewKRM(r, k))
				out = append(out, cs)
				d := cs.Clone()
				d.Name += "-split"
				l := 0
				for _, q := range d.Phases[0].Procs[0].Stdin.Parts {
					l += len(q)
				}
				d.Phases[0].Procs[0].Stdin.Chunks = []int{1 + r.N(l), 1 + r.N(sim.Pick(r, []int{3, 100, 5000}))}
				if l > 20000 {
					d.Phases[0].Procs[0].Stdin.Chunks[1] += 500
				}
				out = append(out, d)
				if k <= 30 {
					d = cs.Clone()
					if badItem(r, d) {
						d.Name += "-item"
						d.P = map[string]string{"fails": "1"}
						out = append(out, d)
					}
				}
				if k > 0 && k <= 30 {
					d = cs.Clone()
					if badScript(r, d) {
						d.Name += "-script"
						d.P = map[string]string{"fails": "1"}
						out = append(out, d)
					}
				}
				if k <= 8 {
					d = cs.Clone()
					badInput(r, d, k*6+j+s)
					d.Name += "-input"
					d.P = map[string]string{"fails": "?"}
					out = append(out, d)
				}
			}
		}
		for _, k := range []int{0, 2, 6} {
			for j := range 3 {
				r := sim.NewRand(c.Seed, "c15 faults", k, j, s)
				cs := krmWant(gen.NewKRM(r, k))
				l := 0
				for _, q := range cs.Phases[0].Procs[0].Stdin.Parts {
					l += len(q)
				}
				if l < 4000 {
					cs.Phases[0].Procs[0].Stdin.Chunks = []int{1 + l/7}
				}
				pts, _, err := c.Points(cs)
				if err != nil {
					continue
				}
				for _, pt := range thin(r, pts, 10) {
					for _, f := range ioFaults(r, pt) {
						d := cs.Clone()
						d.Phases[0].Faults = []kern.Fault{f}
						out = append(out, d)
					}
				}
				for range 12 {
					d := cs.Clone()
					d.Name += "-cut"
					d.Phases[0].Procs[0].Stdin.Cut = r.N(l + 1)
					if d.Phases[0].Procs[0].Stdin.Cut == 0 {
						d.Phases[0].Procs[0].Stdin.Cut = l
					}
					d.Phases[0].Procs[0].Stdin.End = sim.Pick(r, []string{"EIO", "ECONNRESET", "ESTALE", "ENOMEM"})
					d.P["cut"] = "1"
					out = append(out, d)
				}
				for range 6 {
					d := cs.Clone()
					d.Name += "-sink"
					d.Phases[0].Procs[0].Stdout = &kern.SinkSpec{Limited: true, Limit: r.N(l + 40), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2), MaxWrite: r.N(3) * 100}
					out = append(out, d)
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c15 order"), out)
	return out
}

func c15Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	n := r.N(8)
	if r.P(1, 8) {
		n = r.N(300)
	}
	cs := krmWant(gen.NewKRM(r, n))
	p := &cs.Phases[0].Procs[0]
	l := 0
	for _, q := range p.Stdin.Parts {
		l += len(q)
	}
	switch r.N(8) {
	case 0:
		if badItem(r, cs) {
			cs.P = map[string]string{"fails": "1"}
		}
	case 1:
		badInput(r, cs, r.N(10))
		cs.P = map[string]string{"fails": "?"}
	case 2:
		if n > 0 && badScript(r, cs) {
			cs.P = map[string]string{"fails": "1"}
		}
	case 3:
		p.Stdin.Cut, p.Stdin.End = 1+r.N(l), sim.Pick(r, []string{"EIO", "ECONNRESET", "ESTALE"})
		cs.P["cut"] = "1"
	case 4: // damage
		text := []byte(strings.Join(p.Stdin.Parts, ""))
		for range 1 + r.N(3) {
			at := r.N(len(text))
			switch r.N(4) {
			case 0:
				text[at] = byte(sim.Pick(r, []int{0, ':', '\n', ' ', '-', '"', '\'', '{', '}', '[', ']', '*', '&', '!', '#', '\t', 0xff}))
			case 1:
				text = append(text[:at], text[at+r.N(len(text)-at):]...)
			case 2:
				e := at + r.N(min(len(text)-at, 200))
				text = append(append(append([]byte{}, text[:e]...), text[at:e]...), text[e:]...)
			default:
				text = text[:at]
			}
			if len(text) == 0 {
				text = []byte("\n")
			}
		}
		p.Stdin = &kern.StreamSpec{B64: gen.B64(string(text))}
		cs.P = map[string]string{"fails": "?"}
	case 5:
		p.Stdout = &kern.SinkSpec{Limited: true, Limit: r.N(l + 40), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
	}
	if r.P(1, 2) && l < 30000 {
		p.Stdin.Chunks = []int{1 + r.N(l), 1 + r.N(1000)}
	}
	if r.P(1, 3) {
		pts, _, err := c.Points(cs)
		if err != nil {
			return nil
		}
		cs.Phases[0].Faults = scatter(r, pts, 1+r.N(2))
	}
	return cs
}

func c15Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	p := &cs.Phases[0].Procs[0]
	o := r.Out[0]["a"]
	if v := dead(o); v != nil && !(o.Signal == 13 && p.Stdout != nil) {
		return v, nil
	}
	if cs.Name != "" && (strings.Contains(cs.Name, "-") || p.Stdout != nil) {
		c.Non(r)
	}
	in := strings.Join(p.Stdin.Parts, "")
	if p.Stdin.B64 != "" {
		b, _ := unB64(p.Stdin.B64)
		in = string(b)
	}
	fails := cs.P["fails"]
	if fails == "?" {
		fails = ""
		if whyBad(in) != "" {
			fails = "1"
		} else {
			fails = "?"
		}
	}
	if cs.P["cut"] != "" {
		fails = "1"
	}
	ok := o.Exit == 0 && o.Signal == 0
	what := cs.Name
	if fs := allFaults(cs); len(fs) > 0 {
		what += " with " + faultText(fs)
	}
	refused := o.StdoutErr || faultOn(cs, "stdout")
	if !ok && !refused && o.Stdout != "" {
		return sim.V("result of a failed run", "%s: exit %d (%s) but standard output holds %q", what, o.Exit, firstLine(o.Stderr), clipS(o.Stdout, 300)), nil
	}
	if !ok && o.Signal == 0 && strings.TrimSpace(o.Stderr) == "" && p.Stderr == nil && !faultOn(cs, "stderr") {
		return sim.V("a failure said nothing", "%s: exit %d", what, o.Exit), nil
	}
	if fails == "1" {
		if ok {
			why := whyBad(in)
			if cs.P["cut"] != "" {
				why = "its input stream failed"
			}
			return sim.V("success of a run that must fail", "%s: exit 0 although %s; standard output %q", what, why, clipS(o.Stdout, 300)), nil
		}
		return nil, nil
	}
	if fails == "?" {
		return nil, nil
	}
	var want []any
	json.Unmarshal([]byte(cs.P["want"]), &want)
	if want == nil {
		want = []any{}
	}
	if !ok {
		if len(allFaults(cs)) == 0 && !refused && p.Stderr == nil {
			return sim.V("function fails", "%s: exit %d without a fault: %s", what, o.Exit, firstLine(o.Stderr)), nil
		}
		return nil, nil
	}
	if o.StdoutErr {
		return sim.V("exit 0 after a refused write", "%s: %d bytes taken", what, len(o.Stdout)), nil
	}
	docs, err := yamlDocs(o.Stdout)
	if err != nil {
		return sim.V("output is not YAML", "%s: %v: %q", what, err, clipS(o.Stdout, 300)), nil
	}
	got, _ := viaJSON(docs).([]any)
	exp, _ := viaJSON(want).([]any)
	if len(exp) == 0 && len(got) <= 1 {
		// Nothing, however it is written.
		if len(got) == 0 || got[0] == nil || reflect.DeepEqual(got[0], []any{}) {
			return nil, nil
		}
	}
	if !reflect.DeepEqual(got, exp) {
		if len(got) != len(exp) {
			return sim.V("items lost or repeated", "%s: %d documents instead of %d", what, len(got), len(exp)), nil
		}
		for i := range got {
			if !reflect.DeepEqual(got[i], exp[i]) {
				a, _ := json.Marshal(exp[i])
				b, _ := json.Marshal(got[i])
				return sim.V("items changed", "%s: document %d: %s", what, i, diffAt(string(a), string(b))), nil
			}
		}
	}
	return nil, nil
}

// whyBad tells what is wrong with an input, if that is certain.
func whyBad(in string) string {
	var m struct {
		FunctionConfig any   `yaml:"functionConfig"`
		Items          []any `yaml:"items"`
	}
	if err := yaml.Unmarshal([]byte(in), &m); err != nil {
		return "the input is malformed: " + err.Error()
	}
	for i, it := range m.Items {
		if _, ok := it.(map[string]any); !ok {
			if _, ok := it.(map[any]any); !ok {
				return fmt.Sprintf("item %d is not an object", i)
			}
		}
	}
	return "its script fails"[:0]
}

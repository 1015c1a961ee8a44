package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

// noText is what no YAML text holds, anywhere.
var noText = []string{
	"z: caf\xc3(\n", "z: \xff\n", "z: \xfe\xfe\n", "z: \xed\xa0\x80\n", "z: \xc0\x80\n", "z: \xf4\x90\x80\x80\n", "z: \xe2\x28\xa1\n", "# \x80\n", "z: \"\xc3\"\n",
	"z: \x01\n", "z: \"\x02\"\n", "z: a\x1bb\n", "# \x7f\n", "z: \x00\n", "\x0e\n",
	"z: \"\\q\"\n", "z: \"\\x4\"\n", "z: \"\\u12\"\n", "z: \"\\uD800\"\n", "\tz: 1\n", "z: @x\n", "z: `x`\n", "z: ]\n", "z: [a]]\n", "z: {a: 1}}\n",
	"z: 1\n  y: 2\n", "z: [a\n]b: c\n", "z: !<x\n", "z: &\n  - 1\n", "- x\n", "z: 'a'b\n", "z: \"a\" \"b\"\n",
}

// noEnd is what a text does not end with.
var noEnd = []string{
	"z: caf\xc3", "z: \xe2\x82", "z: \xf0\x9f\x98", "# caf\xc3", "z: \"open", "z: 'open", "z: \"open\\", "z: [1, 2\n", "z: {a: 1\n", "z: {a: [\"x\n\n", "z: [\n", "z: {\n", "z: \"a\n  b\n\n",
	"z: [a, {b: c}\n---\n", "z: \"a\n...\n", "? [\n", "z: !<tag\n", "%YAML\n", "z:\n  - [x", "z: {\"a\": \"b", "z: \"\\", "z: \"\\u00", "z: *", "z: &",
}

// spoilt is a mapping text that is no YAML, and the place where it stops being
// it.
func spoilt(r *sim.Rand) []byte {
	b := gen.New(r)
	b.Big = r.P(1, 3)
	var sb strings.Builder
	sb.WriteString("a: 1\n")
	for i := range r.N(4) {
		sb.WriteString(fmt.Sprintf("a%d:\n", i) + indent(b.Map(3, 2), "  "))
	}
	if r.P(1, 3) {
		// the fault lies around the end of a buffer
		n := sim.Pick(r, []int{512, 1024, 2048, 4096, 8192, 65536}) - 40 + r.N(44) - sb.Len()
		if n > 0 {
			sb.WriteString("# " + strings.Repeat("x", n) + "\n")
		}
	}
	if r.P(1, 2) {
		return []byte(sb.String() + sim.Pick(r, noEnd))
	}
	sb.WriteString(sim.Pick(r, noText))
	for i := range r.N(3) {
		sb.WriteString(fmt.Sprintf("b%d:\n", i) + indent(b.Map(3, 1), "  "))
	}
	return []byte(sb.String())
}

func indent(s, by string) string {
	l := strings.SplitAfter(s, "\n")
	for i := range l {
		if l[i] != "" && l[i] != "\n" {
			l[i] = by + l[i]
		}
	}
	return strings.Join(l, "")
}

// spoiltCase hands text that is no YAML to everything that reads YAML.
func spoiltCase(r *sim.Rand) *sim.Case {
	if r.P(1, 2) {
		var ts []Task
		for range 60 {
			t := Task{Op: sim.Pick(r, []string{"reader", "readerenv", "bytes", "dec", "dec", "run"}), Engine: -1, Mode: sim.Pick(r, []string{"any", "node"}), Location: "/work/main.yisp", Reader: &Reader{Data: spoilt(r), ErrAt: -1}}
			if r.P(1, 3) {
				t.Reader.Chunks = []int{1 + r.N(600)}
			}
			ts = append(ts, t)
		}
		cs := driverCase("C14", "no-yaml", kern.WorldSpec{}, &Job{Tasks: ts, Budget: c14Budget})
		cs.P = map[string]string{"fails": "1"}
		return cs
	}
	bad := gen.B64(string(spoilt(r)))
	b := gen.New(r)
	how := sim.Pick(r, []string{"main", "include", "second", "remote", "stdin", "krm", "exec", "unmarshal", "schema"})
	var cs *sim.Case
	p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: []string{"build", "main.yisp"}, Env: gen.Env(), Cwd: "/work/p", Salt: 1}
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config()}}
	main := ""
	switch how {
	case "main":
		w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/main.yisp", B64: bad})
	case "include":
		main = "a: 1\n---\n!yisp [include, other.yaml]\n"
		w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/other.yaml", B64: bad})
	case "second":
		main = "!yisp [include, d/a.yaml, d/b.yaml]\n"
		w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/d/a.yaml", Parts: []string{"a: 1\n"}}, kern.FileSpec{Path: "/work/p/d/b.yaml", B64: bad})
	case "remote":
		main = "!yisp [include, \"https://verif.example/x.yaml\"]\n"
		w.HTTP = append(w.HTTP, kern.HTTPSpec{URL: "https://verif.example/x.yaml", B64: bad, NoLength: r.P(1, 2)})
	case "stdin":
		p.Args = []string{"build", "-"}
		p.Stdin = &kern.StreamSpec{B64: bad}
	case "krm":
		p.Args = []string{"krm"}
		in := "apiVersion: config.kubernetes.io/v1\nkind: ResourceList\nfunctionConfig: {apiVersion: v1, kind: X, spec: {allowUntypedManifest: true, yisp: \"all: *items\\n\"}}\nitems:\n- kind: X\n  data:\n" + indent(string(spoilt(r)), "    ")
		p.Stdin = &kern.StreamSpec{B64: gen.B64(in)}
	case "exec":
		p.Args = append(p.Args, "--allow-cmd")
		main = "!yisp [exec.cmd, {cmd: gen}]\n"
		w.Progs = append(w.Progs, kern.ProgSpec{Path: "/usr/bin/gen", Kind: "fixed", B64: bad})
	case "unmarshal":
		main = "v: !yisp [yaml.unmarshal, [files.read, data.txt]]\n"
		w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/data.txt", B64: bad})
	case "schema":
		main = "$schema: https://verif.example/s.json\na: 1\n"
		j, _ := json.Marshal(map[string]any{"type": "object", "description": b.Text(40), "additionalProperties": true})
		s := string(j)
		k := 1 + r.N(len(s)-1)
		s = s[:k]
		if r.P(1, 2) {
			w.HTTP = append(w.HTTP, kern.HTTPSpec{URL: "https://verif.example/s.json", Parts: []string{s}})
		} else {
			w.Files = append(w.Files, kern.FileSpec{Path: gen.SchemaCacheName("https://verif.example/s.json"), Parts: []string{s}})
		}
	}
	if main != "" {
		w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/main.yisp", Parts: []string{main}})
	}
	w.Files = append(w.Files, kern.FileSpec{Path: "/work/p", Dir: true})
	cs = one(nil, "C14", "no-yaml-"+how, w, p)
	cs.P = map[string]string{"fails": "1"}
	cs.Tags = []string{"no-yaml", how}
	return cs
}

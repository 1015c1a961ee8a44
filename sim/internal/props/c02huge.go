package props

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

var hugeKinds = []string{"main", "stdin", "include", "json", "other", "remote", "read", "glob", "child", "fed", "import", "krm", "deep"}

// c02Huge is a project with one input of up to a few MiB. What the input says
// at its end is known.
func c02Huge(r *sim.Rand, kind string, size int) *sim.Case {
	b := gen.New(r)
	end := fmt.Sprintf("end: %d", 100000+r.N(900000))
	// mostly comment, or one long line, or many short ones
	body := func() string {
		var sb strings.Builder
		switch r.N(4) {
		case 0:
			sb.WriteString("long: \"" + strings.Repeat("x", size) + "\"\n")
		case 1:
			sb.WriteString("text: |\n")
			for sb.Len() < size {
				sb.WriteString("  " + b.Word() + " " + strings.Repeat(b.Word(), 10) + "\n")
			}
		case 2:
			sb.WriteString("# " + strings.Repeat("y", size) + "\n")
		default:
			for sb.Len() < size {
				sb.WriteString("# " + strings.Repeat(b.Word()+" ", 200) + "\n")
			}
		}
		return sb.String() + end + "\n"
	}
	sum := func(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s))) }
	expect := end
	p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: []string{"build", "main.yisp"}, Env: gen.Env(), Cwd: "/work/p", Salt: 1}
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config(), {Path: "/work/p", Dir: true}}}
	add := func(p, s string) { w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/" + p, Parts: []string{s}}) }
	main := ""
	switch kind {
	case "main":
		main = body()
	case "stdin":
		p.Args = []string{"build", "-"}
		p.Stdin = &kern.StreamSpec{Parts: []string{body()}}
	case "include":
		add("big.yaml", body())
		main = "!yisp [include, big.yaml]\n"
	case "import":
		add("big.yisp", strings.TrimSuffix(body(), end+"\n")+"v: &val 7\n")
		main = "!yisp [import, [m, big.yisp]]\n---\nend: *m.val\n"
		expect = "end: 7"
	case "json":
		j, _ := json.Marshal(map[string]any{"a": strings.Repeat("z", size), "end": json.Number(end[5:])})
		add("big.json", string(j))
		main = "!yisp [include, big.json]\n"
	case "other":
		add("big.conf", body())
		main = "!yisp [include, big.conf]\n"
	case "remote":
		w.HTTP = append(w.HTTP, kern.HTTPSpec{URL: "https://verif.example/big.yaml", Parts: []string{body()}, NoLength: r.P(1, 2)})
		main = "!yisp [include, \"https://verif.example/big.yaml\"]\n"
	case "read":
		s := body()
		add("big.txt", s)
		main = "h: !yisp [strings.sha256, [files.read, big.txt]]\n"
		expect = sum(s)
	case "glob":
		s := body()
		add("g/a.conf", "small\n")
		add("g/b.conf", s)
		main = "h: !yisp\n  - lists.map\n  - [files.glob, \"g/*.conf\"]\n  - [lambda, [f], [strings.sha256, *f.body]]\n"
		expect = sum(s)
	case "child", "fed":
		p.Args = append(p.Args, "--allow-cmd")
		s := body()
		if kind == "child" {
			w.Progs = append(w.Progs, kern.ProgSpec{Path: "/usr/bin/gen", Kind: "fixed", Stdout: []string{s}})
			main = "h: !yisp [strings.sha256, [exec.cmd, {cmd: gen, asString: true}]]\n"
		} else {
			add("big.txt", s)
			w.Progs = append(w.Progs, kern.ProgSpec{Path: "/usr/bin/copy", Kind: "cat"})
			main = "h: !yisp [strings.sha256, [exec.cmd, {cmd: copy, stdin: [files.read, big.txt], asString: true}]]\n"
		}
		expect = sum(s)
	case "deep":
		// many small things instead of a big one
		var sb strings.Builder
		n := size / 400
		sb.WriteString("l: !yisp\n- lists.reduce\n- !quote\n")
		for i := range n {
			fmt.Fprintf(&sb, "  - %d\n", i%7)
		}
		sb.WriteString("- [lambda, [a, x], [+, *a, *x]]\n")
		main = sb.String() + end + "\n"
	case "krm":
		p.Args = []string{"krm"}
		in := "apiVersion: config.kubernetes.io/v1\nkind: ResourceList\nfunctionConfig: {apiVersion: v1, kind: X, spec: {allowUntypedManifest: true, yisp: \"all: *items\\n\"}}\nitems:\n- apiVersion: v1\n  kind: ConfigMap\n  metadata: {name: a}\n  data:\n" + indent(body(), "    ")
		p.Stdin = &kern.StreamSpec{Parts: []string{in}}
	}
	if main != "" {
		add("main.yisp", main)
	}
	if r.P(1, 2) {
		p.MaxIO = sim.Pick(r, []int{4096, 32768, 65536, 100000})
	}
	cs := one(nil, "C02", "huge-"+kind, w, p)
	cs.P = map[string]string{"expect": expect, "how": "huge"}
	cs.Whole, cs.Fixed = true, true
	cs.Tags = []string{"huge", kind}
	return cs
}

package props

import (
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

// c17Once is a project that names each of its files once, so that no file has
// a reason to show two of its versions.
func c17Once(c *sim.Ctx, r *sim.Rand) []*sim.Case {
	b := gen.New(r)
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000, Files: []kern.FileSpec{gen.Config()}}
	text := func(tag string) string {
		n := sim.Pick(r, []int{1, 3, 20, 60, 300})
		var sb strings.Builder
		for i := range n {
			fmt.Fprintf(&sb, "%s%d: %s %s %d\n", tag, i, b.Word(), b.Word(), r.N(1000))
		}
		return sb.String()
	}
	var docs []string
	var paths []string
	add := func(p, s string) {
		w.Files = append(w.Files, kern.FileSpec{Path: "/work/p/" + p, Parts: []string{s}})
		paths = append(paths, "/work/p/"+p)
	}
	kinds := []string{"read", "include", "import", "glob", "unmarshal", "schema", "nested"}
	sim.Shuffle(r, kinds)
	for i, k := range kinds[:1+r.N(4)] {
		n := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "read":
			add("data/"+n+".txt", text(n))
			docs = append(docs, fmt.Sprintf("%s: !yisp [files.read, data/%s.txt]\n", n, n))
		case "unmarshal":
			add("data/"+n+".txt", text(n))
			docs = append(docs, fmt.Sprintf("%s: !yisp [yaml.unmarshal, [files.read, data/%s.txt]]\n", n, n))
		case "include":
			add(n+".yaml", text(n))
			docs = append(docs, fmt.Sprintf("!yisp [include, %s.yaml]\n", n))
		case "nested":
			add("sub/"+n+".yisp", text(n)+"---\n!yisp [include, in-"+n+".yaml]\n")
			add("sub/in-"+n+".yaml", text("in"))
			docs = append(docs, fmt.Sprintf("!yisp [include, sub/%s.yisp]\n", n))
		case "import":
			add("lib/"+n+".yisp", text("# "+n)+"v: &val\n"+indent(text(n), "  "))
			docs = append(docs, fmt.Sprintf("!yisp [import, [%s, lib/%s.yisp]]\n---\n%s: *%s.val\n", n, n, n, n))
		case "glob":
			for j := range 1 + r.N(3) {
				add(fmt.Sprintf("g%d/%s.conf", i, strings.Repeat("a", j+1)), text(n))
			}
			docs = append(docs, fmt.Sprintf("%s: !yisp [files.glob, \"g%d/*.conf\"]\n", n, i))
		case "schema":
			u := "https://verif.example/" + n + ".json"
			s := `{"type": "object", "description": "` + strings.Repeat(b.Word()+" ", r.N(300)) + `", "properties": {"a": {"type": "integer"}, "apple": {"type": "string"}}}` + "\n"
			p := gen.SchemaCacheName(u)
			w.Files = append(w.Files, kern.FileSpec{Path: p, Parts: []string{s}})
			paths = append(paths, p)
			docs = append(docs, fmt.Sprintf("$schema: %s\napple: kiwi\na: %d\n", u, r.N(99)))
		}
	}
	add("main.yisp", text("# ")+strings.Join(docs, "---\n"))
	p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: []string{"build", "main.yisp"}, Env: gen.Env(), Cwd: "/work/p", Salt: 1, MaxIO: sim.Pick(r, []int{0, 0, 100, 512, 700})}
	cs := one(nil, "C17", "once", w, p)
	cs.P = map[string]string{"once": "1"}
	cs.Tags = append([]string{"once"}, kinds...)
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	var out []*sim.Case
	for range 4 {
		path := sim.Pick(r, paths)
		var here []sim.Point
		for _, pt := range pts {
			if pt.Path == path {
				here = append(here, pt)
			}
		}
		if len(here) == 0 {
			continue
		}
		var old string
		for i := range w.Files {
			if w.Files[i].Path == path {
				old = fileText(&w.Files[i])
			}
		}
		t := revise(r, path, old)
		if strings.HasSuffix(path, ".txt") && r.P(1, 3) || strings.HasSuffix(path, ".conf") && r.P(1, 3) {
			t = text("later") // any length
		}
		d := cs.Clone()
		ph := &d.Phases[0]
		ph.Edits = []kern.Edit{{Files: []kern.FileSpec{{Path: path, Parts: []string{t}}}}}
		ph.Faults = []kern.Fault{sim.Pick(r, here).At("edit", "", 0)}
		out = append(out, d)
	}
	return out
}

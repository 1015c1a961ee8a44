package gen

import (
	"encoding/json"
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"

	"vsim/internal/kern"
	"vsim/internal/sim"
)

// KRM is one function input.
type KRM struct {
	B      *B
	Items  []any // what the script must see, in order
	Self   int   // items addressed to the function
	Parts  []string
	Script string
	Want   []any // the documents a correct run prints; nil if not predicted
	Target string
	Mode   string
}

var tricky = []string{"true", "null", "~", "1.0", "0x1F", ".5", "1e3", "", " lead", "a: b", "# c", "multi\nline\n", "tab\t", "- x", "on", "yes", "<<", "0o7", "1_000",
	".inf", "@x", "%y", "!tag", "*al", "&an", "trail ", "'q'", "\"dq\"", "é😀", "{", "[", "|", ">", "?", ": ", "a\r\nb", "0b11", "---", "...", "--- x\ny", "-", "a #b", "=", "\"", "'", "\\", "a\\nb", "\n", "x\n\ny", "  \n x"}

func (b *B) krmValue(depth int) any {
	switch k := b.R.N(12); {
	case depth > 0 && k < 3:
		m := map[string]any{}
		for i := range b.R.N(4) {
			m[fmt.Sprintf("%s%d", b.Word(), i)] = b.krmValue(depth - 1)
		}
		return m
	case depth > 0 && k < 5:
		a := []any{}
		for range b.R.N(4) {
			a = append(a, b.krmValue(depth-1))
		}
		return a
	case k == 5:
		return b.R.N(100000) - 50000
	case k == 6:
		return b.R.P(1, 2)
	case k == 7:
		return sim.Pick(b.R, tricky)
	case k == 8:
		return b.Text(b.size())
	case k == 9:
		return b.Lines(b.size())
	case k == 10:
		return nil
	}
	return b.Text(8)
}

func (b *B) manifest(i int) map[string]any {
	m := map[string]any{
		"apiVersion": sim.Pick(b.R, []string{"v1", "apps/v1", "krm.yisp.gammalab.net/v1beta1", "other.example/v1"}),
		"kind":       sim.Pick(b.R, []string{"ConfigMap", "Deployment", "Yisp", "Secret", "Namespace", "CustomResourceDefinition", "List", "ResourceList", "Kustomization"}),
	}
	meta := map[string]any{"name": fmt.Sprintf("%s-%d", b.Word(), i), "labels": map[string]any{"l": b.Text(5)}}
	m["metadata"] = meta
	switch b.R.N(12) {
	case 0:
		meta["annotations"] = map[string]any{"config.kubernetes.io/local-config": "true", "config.kubernetes.io/index": fmt.Sprint(b.R.N(5)), "internal.config.kubernetes.io/index": fmt.Sprint(b.R.N(5)), "config.kubernetes.io/path": b.Word() + ".yaml", "config.kubernetes.io/function": "container: {image: x}\n"}
	case 1:
		meta["creationTimestamp"], meta["namespace"], meta["managedFields"] = nil, b.Word(), []any{map[string]any{"manager": "kubectl", "fieldsV1": map[string]any{"f:a": map[string]any{}}}}
		m["status"] = map[string]any{"conditions": []any{}, "n": b.R.N(3)}
	case 2:
		m["items"] = []any{map[string]any{"apiVersion": "krm.yisp.gammalab.net/v1", "kind": "Yisp"}, map[string]any{}}
	case 3:
		m["spec"] = map[string]any{"yisp": "ignored: true\n", "target": "none.yisp", "template": map[string]any{"spec": map[string]any{"containers": []any{}}}}
	case 4:
		meta["name"], meta["labels"] = "same", map[string]any{"l": "same"}
		m["apiVersion"], m["kind"] = "v1", "ConfigMap"
	}
	switch b.R.N(5) {
	case 0:
		delete(m, "apiVersion")
	case 1:
		delete(m, "kind")
	}
	for range b.R.N(4) {
		m[b.Word()] = b.krmValue(2)
	}
	if b.R.P(1, 4) {
		m["data"] = map[string]any{"blob": b.Lines(b.size())}
	}
	return m
}

func indentTo(s string, n int) string {
	p := strings.Repeat(" ", n)
	lines := strings.SplitAfter(s, "\n")
	for i, l := range lines {
		if l != "" && l != "\n" {
			lines[i] = p + l
		}
	}
	return strings.Join(lines, "")
}

// plain: the library that writes the input gets block scalars that start
// with white space wrong; it is not the one under test.
func plain(v any) bool {
	switch v := v.(type) {
	case string:
		return v == "" || !strings.Contains(v, "\n") || !strings.ContainsAny(v[:1], "\n\t ")
	case []any:
		for _, x := range v {
			if !plain(x) {
				return false
			}
		}
	case map[string]any:
		for _, x := range v {
			if !plain(x) {
				return false
			}
		}
	}
	return true
}

// NewKRM makes an input with n items for the script.
func NewKRM(r *sim.Rand, n int) *KRM {
	b := New(r)
	b.Dir = "/work"
	b.Big = r.P(1, 3)
	k := &KRM{B: b, Items: []any{}}
	var parts []string
	add := func(v any) {
		var s string
		if r.P(1, 4) || !plain(v) {
			j, _ := json.Marshal(v)
			s = "- " + string(j) + "\n"
		} else {
			y, err := yaml.Marshal([]any{v})
			if err != nil {
				panic(err)
			}
			s = string(y)
		}
		parts = append(parts, s)
	}
	k.Mode = sim.Pick(r, []string{"wrap", "each", "label", "count", "names", "wrap", "each", "target", "filter"})
	bare := k.Mode != "label" && k.Mode != "names" && r.P(1, 3)
	for i := 0; i < n; i++ {
		if r.P(1, 7) {
			add(map[string]any{"apiVersion": "krm.yisp.gammalab.net/v1", "kind": "Yisp", "metadata": map[string]any{"name": fmt.Sprintf("self-%d", i)}, "spec": map[string]any{"yisp": "ignored: true\n"}})
			k.Self++
		}
		m := b.manifest(i)
		if bare && r.P(1, 4) {
			m = sim.Pick(r, []map[string]any{{}, {"kind": "X"}, {"apiVersion": "v1"}, {"metadata": nil}, {"apiVersion": nil, "kind": nil}, {"a": []any{nil}}, {"apiVersion": "krm.yisp.gammalab.net", "kind": "Yisp"}, {"apiVersion": "v1", "kind": "krm.yisp.gammalab.net/v1"}, {"": ""}})
		}
		if r.P(1, 12) && i > 0 {
			m = k.Items[r.N(i)].(map[string]any) // the same item again
		}
		k.Items = append(k.Items, m)
		add(m)
	}
	all := func() {
		k.Want = []any{map[string]any{"all": k.Items}}
	}
	switch k.Mode {
	case "wrap":
		k.Script = "all: *items\n"
		all()
	case "each":
		k.Script = "!yisp\n- lists.map\n- *items\n- - lambda\n  - [item]\n  - *item\n"
		k.Want = k.Items
	case "label":
		k.Script = "!yisp\n- lists.map\n- *items\n- - lambda\n  - [item]\n  - - maps.merge\n    - *item\n    - !quote\n      metadata:\n        labels:\n          added-by: yisp\n"
		for _, it := range k.Items {
			m := deepCopy(it).(map[string]any)
			m["metadata"].(map[string]any)["labels"].(map[string]any)["added-by"] = "yisp"
			k.Want = append(k.Want, m)
		}
	case "count":
		k.Script = "n: !yisp [lists.length, *items]\nextra: static\n"
		k.Want = []any{map[string]any{"n": len(k.Items), "extra": "static"}}
	case "names":
		k.Script = "names: !yisp\n- lists.map\n- *items\n- - lambda\n  - [item]\n  - *item.metadata.name\n"
		ns := []any{}
		for _, it := range k.Items {
			ns = append(ns, it.(map[string]any)["metadata"].(map[string]any)["name"])
		}
		k.Want = []any{map[string]any{"names": ns}}
	case "filter":
		k.Script = "picked: !yisp\n- lists.filter\n- *items\n- - lambda\n  - [item]\n  - [\"==\", [\"??\", *item.kind?, none], Secret]\n"
		ns := []any{}
		for _, it := range k.Items {
			if it.(map[string]any)["kind"] == "Secret" {
				ns = append(ns, it)
			}
		}
		k.Want = []any{map[string]any{"picked": ns}}
	case "target":
		k.Target = sim.Pick(r, []string{"fn.yisp", "./fn.yisp", "/work/fn.yisp", "."})
		name := "fn.yisp"
		if k.Target == "." {
			name = "index.yisp"
			if r.P(1, 2) {
				k.Target = ""
			}
		}
		b.File(name, "all: *items\n", "---\n!yisp [include, extra.yaml]\n")
		b.File("extra.yaml", "more: 1\n")
		k.Want = []any{map[string]any{"all": k.Items}, map[string]any{"more": 1}}
	}
	fc := "functionConfig:\n  apiVersion: krm.yisp.gammalab.net/v1\n  kind: Yisp\n  metadata:\n    name: fn\n    annotations:\n      config.kubernetes.io/function: |\n        container:\n          image: x\n  spec:\n    allowUntypedManifest: true\n"
	if k.Script != "" {
		fc += "    yisp: |\n" + indentTo(k.Script, 6)
	}
	if k.Target != "" {
		fc += "    target: " + k.Target + "\n"
	}
	head := "apiVersion: config.kubernetes.io/v1\nkind: ResourceList\n"
	items := append([]string{"items:\n"}, parts...)
	if len(parts) == 0 {
		items = []string{"items: []\n"}
	}
	if r.P(1, 2) {
		k.Parts = append([]string{head, fc}, items...)
	} else {
		k.Parts = append(append([]string{head}, items...), fc)
	}
	return k
}

func deepCopy(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = deepCopy(x)
		}
		return m
	case []any:
		a := make([]any, len(v))
		for i, x := range v {
			a[i] = deepCopy(x)
		}
		return a
	}
	return v
}

// Case is the run of the function on the input.
func (k *KRM) Case(prop string) *sim.Case {
	w := kern.WorldSpec{Files: append([]kern.FileSpec{Config()}, k.B.Files...), HTTP: k.B.HTTP, Progs: k.B.Progs}
	p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: []string{"krm"}, Env: Env(), Cwd: "/work", Salt: 1, Stdin: &kern.StreamSpec{Parts: k.Parts}}
	return &sim.Case{Prop: prop, Name: "krm-" + k.Mode, World: w, Phases: []kern.Phase{{Procs: []kern.ProcSpec{p}}}, Tags: []string{"krm-" + k.Mode}}
}

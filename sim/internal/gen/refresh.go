package gen

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"vsim/internal/kern"
	"vsim/internal/sim"
)

// KindInfo is a kind a cluster declares.
type KindInfo struct {
	APIVersion string
	Kind       string
	File       string // of the kind, below gvk
	Def        string // definition it resolves to
	Max        int    // largest value of spec.replicas
	Named      bool   // spec.name is required
}

// Cluster is what a Kubernetes API server answers: schema definitions.
type Cluster struct {
	Defs  map[string]map[string]any
	GVK   map[string]string // kind file name -> definition
	Kinds []KindInfo
	Body  string
}

type shapeKind struct {
	gvk     int
	moves   bool // the definition's name differs from version to version
	named   bool
	odd     any
	plus    map[string]any // what a definition may hold besides
	text    int
	stem    string
	dropped bool // the later version does not have it
	added   bool // the earlier version does not have it
}

// Shape is what the versions of a cluster have in common.
type Shape struct {
	kinds []shapeKind
	r     *sim.Rand
	sub   string
}

// NewShape makes a shape of n kinds.
func NewShape(r *sim.Rand, n int) *Shape {
	s := &Shape{r: r, sub: sim.Pick(r, []string{"io.verif.v1.", "io.k8s.api.core.v1.", "x-", ""})}
	if r.P(1, 6) {
		// names nearly as long as a file's can be
		s.sub = "io." + strings.Repeat("x"+sim.Pick(r, []string{"team.", "long-", "v1beta1."}), 60)[:150+r.N(70)] + "."
	}
	b := New(r)
	for range n {
		k := shapeKind{plus: map[string]any{}, gvk: r.N(5), moves: r.P(1, 5), named: r.P(1, 2), text: b.size(), dropped: r.P(1, 8), added: r.P(1, 8)}
		if r.P(1, 3) {
			k.odd = b.Value(2)
		}
		for range r.N(4) {
			k.plus[sim.Pick(r, []string{"x-null", "x-a", "x-b", "title", "example", "externalDocs", "xml", "readOnly", "", "x é", "$comment"})] = sim.Pick(r, []any{nil, nil, "", "<a href=\"x\">&'\u2028</a>", 1.5, -0.25, 9007199254740991, 0, true, false, []any{}, map[string]any{}, []any{nil, []any{map[string]any{"": nil}}}, map[string]any{"b": 2, "a": []any{1, "x", nil}}, "a\tb\nc\\", "\x7f\u0000", strings.Repeat("long ", 900)})
		}
		k.stem = "Kind"
		if r.P(1, 3) {
			k.stem = sim.Pick(r, []string{"Status", "ThingList", "List", "DeleteOptions", "CustomResourceDefinition", "Deployment", "Namespace", "kind", "APIService"})
		}
		s.kinds = append(s.kinds, k)
	}
	s.kinds[0].added, s.kinds[0].dropped = false, false
	if s.kinds[0].gvk == 0 {
		s.kinds[0].gvk = 3
	}
	return s
}

// Version is the cluster at one time. Versions differ in every definition and
// in the largest number of replicas they allow: max.
func (s *Shape) Version(version string, max int, late bool) *Cluster {
	r := s.r
	b := New(r)
	c := &Cluster{Defs: map[string]map[string]any{}, GVK: map[string]string{}}
	meta := s.sub + "Meta"
	for i, k := range s.kinds {
		if k.dropped && late || k.added && !late && !k.dropped {
			continue
		}
		id := fmt.Sprintf("%sKind%d", s.sub, i)
		if k.moves {
			id += "." + version
		}
		kind := fmt.Sprintf("%s%d", k.stem, i)
		if i == 1 && k.stem != "Kind" {
			kind = k.stem
		}
		props := map[string]any{
			"apiVersion": map[string]any{"type": "string"},
			"kind":       map[string]any{"type": "string"},
			"metadata":   map[string]any{"$ref": "#/definitions/" + meta},
			"spec":       map[string]any{"$ref": "#/definitions/" + id + "Spec"},
		}
		d := map[string]any{"description": version + " " + b.Text(k.text), "type": "object", "properties": props}
		var gvks []any
		add := func(g, v string) {
			gvks = append(gvks, map[string]any{"group": g, "version": v, "kind": kind})
			f := g + "_" + v + "_" + kind + ".txt"
			c.GVK[f] = id
			av := v
			if g != "" {
				av = g + "/" + v
			}
			c.Kinds = append(c.Kinds, KindInfo{APIVersion: av, Kind: kind, File: f, Def: id, Max: max, Named: k.named})
		}
		switch k.gvk {
		case 0: // no kind of its own
		case 1:
			add("g.example", "v1")
			add("g.example", "v2")
		case 2:
			add("", "v1")
		default:
			add("g.example", "v1")
		}
		if gvks != nil {
			d["x-kubernetes-group-version-kind"] = gvks
		} else if k.named {
			d["x-kubernetes-group-version-kind"] = []any{}
		}
		for n, v := range k.plus {
			d[n] = v
		}
		c.Defs[id] = d
		spec := map[string]any{"type": "object", "description": version, "properties": map[string]any{
			"replicas": map[string]any{"type": "integer", "maximum": max, "format": "int32"},
			"name":     map[string]any{"type": "string"},
			"extra":    map[string]any{"type": "object", "additionalProperties": map[string]any{"type": "string"}},
			"list":     map[string]any{"type": "array", "items": map[string]any{"type": "string"}, "x-kubernetes-list-type": "set"},
		}}
		if k.named {
			spec["required"] = []any{"name"}
		}
		if k.odd != nil {
			spec["x-unknown"] = k.odd
		}
		c.Defs[id+"Spec"] = spec
	}
	c.Defs[meta] = map[string]any{"description": version, "type": "object", "properties": map[string]any{"name": map[string]any{"type": "string"}}}
	defs := map[string]any{}
	for k, v := range c.Defs {
		defs[k] = v
	}
	doc := map[string]any{"swagger": "2.0", "info": map[string]any{"title": "K", "version": version}, "paths": map[string]any{}, "definitions": defs}
	var j []byte
	if r.P(1, 2) {
		j, _ = json.MarshalIndent(doc, "", " ")
	} else {
		j, _ = json.Marshal(doc)
	}
	c.Body = string(j)
	sort.Slice(c.Kinds, func(a, b int) bool { return c.Kinds[a].File < c.Kinds[b].File })
	return c
}

// NewCluster makes a cluster of n kinds.
func NewCluster(r *sim.Rand, n int, version string) *Cluster {
	return NewShape(r, n).Version(version, 1000, true)
}

// Install is the cache a refresh from this cluster leaves.
func (c *Cluster) Install() []kern.FileSpec {
	var out []kern.FileSpec
	for _, k := range sortedDefs(c.Defs) {
		m := map[string]any{}
		for a, b := range c.Defs[k] {
			m[a] = b
		}
		m["$id"] = k
		j, _ := json.MarshalIndent(m, "", "  ")
		out = append(out, kern.FileSpec{Path: Cache + "/schemas/" + k + ".json", Parts: []string{string(j)}})
	}
	var g []string
	for f := range c.GVK {
		g = append(g, f)
	}
	sort.Strings(g)
	for _, f := range g {
		out = append(out, kern.FileSpec{Path: Cache + "/gvk/" + f, Parts: []string{c.GVK[f]}})
	}
	return out
}

func sortedDefs(m map[string]map[string]any) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// Manifest is an object of the kind. Bad is what is wrong with it.
func (k *KindInfo) Manifest(replicas int, bad string) string {
	n := "    name: n\n"
	rep := fmt.Sprint(replicas)
	x := ""
	switch bad {
	case "type":
		rep = "\"three\""
	case "unknown":
		x = "    none: 1\n"
	case "extra":
		x = "    extra: {b: 3}\n"
	case "list":
		x = "    list: [x, 4]\n"
	case "meta":
		return fmt.Sprintf("apiVersion: %s\nkind: %s\nmetadata: {name: 3}\nspec:\n    name: n\n    replicas: %s\n", k.APIVersion, k.Kind, rep)
	case "name":
		if k.Named {
			n = ""
		} else {
			n = "    name: 7\n"
		}
	}
	if x == "" {
		x = "    extra: {a: b}\n    list: [x, y]\n"
	}
	return fmt.Sprintf("apiVersion: %s\nkind: %s\nmetadata: {name: x}\nspec:\n%s    replicas: %s\n%s", k.APIVersion, k.Kind, n, rep, x)
}

// Bads are the ways a manifest can be wrong.
var Bads = []string{"type", "unknown", "extra", "list", "meta", "name"}

package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

// cacheModel is every content an entry of the cache may have, by path.
type cacheModel struct {
	ok map[string]map[string]string // path -> canonical content -> where from
}

// canon is a JSON text without formatting and without the name the cache adds.
func canon(s string, id bool) (string, bool) {
	var v any
	if json.Unmarshal([]byte(s), &v) != nil {
		return "", false
	}
	if m, ok := v.(map[string]any); ok && !id {
		delete(m, "$id")
	}
	b, err := json.Marshal(v)
	return string(b), err == nil
}

func (m *cacheModel) add(path, content, from string) {
	if m.ok[path] == nil {
		m.ok[path] = map[string]string{}
	}
	if _, dup := m.ok[path][content]; !dup {
		m.ok[path][content] = from
	}
}

// answer is a cluster's answer taken apart.
type answer struct {
	schemas map[string]string // path -> canonical
	gvk     map[string]string
}

func parseAnswer(body string, root string) (*answer, bool) {
	var doc struct {
		Definitions map[string]map[string]any `json:"definitions"`
	}
	if json.Unmarshal([]byte(body), &doc) != nil || len(doc.Definitions) == 0 {
		return nil, false
	}
	a := &answer{schemas: map[string]string{}, gvk: map[string]string{}}
	for id, d := range doc.Definitions {
		b, _ := json.Marshal(d)
		s, ok := canon(string(b), false)
		if !ok || d == nil {
			return nil, false
		}
		a.schemas[root+"/schemas/"+id+".json"] = s
		l, _ := d["x-kubernetes-group-version-kind"].([]any)
		for _, g := range l {
			m, _ := g.(map[string]any)
			gr, o1 := m["group"].(string)
			ve, o2 := m["version"].(string)
			ki, o3 := m["kind"].(string)
			if o1 && o2 && o3 {
				a.gvk[root+"/gvk/"+gr+"_"+ve+"_"+ki+".txt"] = id
			}
		}
	}
	return a, true
}

// model collects what the world can put into the cache.
func model(cs *sim.Case, root string) *cacheModel {
	m := &cacheModel{ok: map[string]map[string]string{}}
	file := func(f kern.FileSpec) {
		if f.Dir || f.Link != "" || f.B64 != "" {
			return
		}
		c := strings.Join(f.Parts, "")
		switch {
		case strings.HasPrefix(f.Path, root+"/schemas/"):
			if s, ok := canon(c, false); ok {
				c = s
			}
			m.add(f.Path, c, "old")
		case strings.HasPrefix(f.Path, root+"/gvk/"):
			m.add(f.Path, c, "old")
		}
	}
	web := func(h kern.HTTPSpec) {
		if h.Status != 0 && h.Status != 200 || h.B64 != "" {
			return
		}
		if s, ok := canon(strings.Join(h.Parts, ""), false); ok {
			m.add(gen.SchemaCacheName(h.URL), s, "network")
		}
	}
	for _, f := range cs.World.Files {
		file(f)
	}
	for _, p := range cs.World.Progs {
		if p.Exit != 0 || p.Signal != 0 {
			continue
		}
		if a, ok := parseAnswer(strings.Join(p.Stdout, ""), root); ok {
			for k, v := range a.schemas {
				m.add(k, v, p.Path)
			}
			for k, v := range a.gvk {
				m.add(k, v, p.Path)
			}
		}
	}
	for _, h := range cs.World.HTTP {
		web(h)
	}
	for i := range cs.Phases {
		es := cs.Phases[i].Edits
		if e := cs.Phases[i].Edit; e != nil {
			es = append([]kern.Edit{*e}, es...)
		}
		for _, e := range es {
			for _, h := range e.HTTP {
				web(h)
			}
			for _, f := range e.Files {
				file(f)
			}
		}
	}
	return m
}

// entry is an entry's content in comparable form.
func entry(path, content string) string {
	if strings.HasSuffix(path, ".txt") {
		return content
	}
	if s, ok := canon(content, false); ok {
		return s
	}
	return content
}

// check looks for entries that are neither an old nor a new version.
func (m *cacheModel) check(fs map[string]string, when string) *sim.Violation {
	var paths []string
	for p := range m.ok {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		c, there := fs[p]
		if !there {
			continue
		}
		if _, ok := m.ok[p][entry(p, c)]; !ok {
			what := "partial or mixed"
			if c == "" {
				what = "empty"
			}
			return sim.V("broken cache entry", "%s %s is neither the old nor the new version but %s: %q", when, p, what, clipS(c, 300))
		}
	}
	return nil
}

// kept looks for entries that are gone.
func (m *cacheModel) kept(before, after map[string]string, when string) *sim.Violation {
	for _, p := range keysOf(m.ok) {
		_, b := before[p]
		_, a := after[p]
		if b && !a {
			return sim.V("lost cache entry", "%s %s is gone", when, p)
		}
	}
	return nil
}

// bld is a build of one manifest.
type bld struct {
	Proc     string
	Kind     gen.KindInfo `json:",omitempty"`
	Replicas int          `json:",omitempty"`
	Bad      string       `json:",omitempty"`
	URL      string       `json:",omitempty"`
}

func putBuilds(cs *sim.Case, l []bld) {
	b, _ := json.Marshal(l)
	if cs.P == nil {
		cs.P = map[string]string{}
	}
	cs.P["builds"] = string(b)
	cs.Whole = true
}

func buildsOf(cs *sim.Case) map[string]*bld {
	var l []bld
	json.Unmarshal([]byte(cs.P["builds"]), &l)
	m := map[string]*bld{}
	for i := range l {
		m[l[i].Proc] = &l[i]
	}
	return m
}

// needs lists the entries a manifest of the kind uses, or nil if one is missing.
func (b *bld) needs(fs map[string]string) (all bool, max int) {
	root := gen.Cache
	id, ok := fs[root+"/gvk/"+b.Kind.File]
	if !ok {
		return false, 0
	}
	for _, s := range []string{id, id + "Spec", metaOf(id)} {
		c, ok := fs[root+"/schemas/"+s+".json"]
		if !ok {
			return false, 0
		}
		if s == id+"Spec" {
			var d struct {
				Properties struct {
					Replicas struct {
						Maximum int `json:"maximum"`
					} `json:"replicas"`
				} `json:"properties"`
			}
			json.Unmarshal([]byte(c), &d)
			max = d.Properties.Replicas.Maximum
		}
	}
	return true, max
}

func metaOf(id string) string {
	i := strings.Index(id, "Kind")
	if i < 0 {
		return id
	}
	return id[:i] + "Meta"
}

// untyped is what a build prints when nothing checks it.
func untyped(c *sim.Ctx, cs *sim.Case, p *kern.ProcSpec) (string, error) {
	w := kern.WorldSpec{Clock: cs.World.Clock}
	for _, f := range cs.World.Files {
		if !strings.HasPrefix(f.Path, gen.Cache) {
			w.Files = append(w.Files, f)
		}
	}
	q := *p
	q.Name, q.Salt, q.Stdout, q.Stderr, q.MaxIO = "a", 1, nil, nil, 0
	q.Args = append(append([]string{}, p.Args...), "--allow-untyped-manifest")
	br, err := c.Base(one(nil, cs.Prop, "untyped", w, q))
	if err != nil {
		return "", err
	}
	o := br.Out[0]["a"]
	if o.Exit != 0 {
		return "", nil
	}
	return o.Stdout, nil
}

// manifestProc builds one manifest.
func manifestProc(name, path string) kern.ProcSpec {
	return kern.ProcSpec{Name: name, Bin: "yisp", Args: []string{"build", path}, Env: gen.Env(), Cwd: "/work", Salt: 1}
}

// faulted tells whether a fault of the phase is aimed at the process or at
// the whole machine.
func faulted(ph *kern.Phase, proc string) bool {
	for _, f := range ph.Faults {
		if f.Proc == proc || strings.HasPrefix(f.Kind, "power") {
			return true
		}
	}
	return false
}

func powered(ph *kern.Phase) bool {
	for _, f := range ph.Faults {
		if strings.HasPrefix(f.Kind, "power") {
			return true
		}
	}
	return false
}

// initial is the file system before the first phase.
func initial(cs *sim.Case) map[string]string {
	m := map[string]string{}
	for _, f := range cs.World.Files {
		if f.Dir || f.Link != "" {
			continue
		}
		m[f.Path] = strings.Join(f.Parts, "")
	}
	return m
}

func answerOf(cs *sim.Case, p *kern.ProcSpec, root string) (*answer, bool) {
	for _, dir := range strings.Split(p.Env["PATH"], ":") {
		for _, k := range cs.World.Progs {
			if k.Path == dir+"/kubectl" {
				if k.Exit != 0 || k.Signal != 0 {
					return nil, false
				}
				return parseAnswer(strings.Join(k.Stdout, ""), root)
			}
		}
	}
	return nil, false
}

// refreshed tells what is missing or different after a successful refresh.
// others holds entries that a concurrent refresh may have written as well.
func refreshed(a *answer, fs map[string]string, m *cacheModel, alone bool) string {
	for _, set := range []map[string]string{a.schemas, a.gvk} {
		for _, p := range keysOf(set) {
			c, ok := fs[p]
			if !ok {
				return fmt.Sprintf("%s is missing", p)
			}
			if alone && entry(p, c) != set[p] {
				return fmt.Sprintf("%s is not what the cluster returned but %q", p, clipS(c, 300))
			}
		}
	}
	return ""
}

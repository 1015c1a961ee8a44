package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C05", Bins: []string{"drv"}, Level: "exploration",
		Rule: "simulated runs with different histories of two or more evaluations in one process",
		Assume: []string{
			"files and the network are inputs: an evaluation that put a schema into the cache has changed an input of the next one",
			"an environment handed in is extended by the names an evaluation defines; the values in it are not changed",
		},
		Real: append([]string{driverPart}, realParts...), Stub: stubParts,
		Plan: c05Plan, Random: c05Random, Judge: c05Judge,
		Quick: 100000, Thorough: 10_000_000, QuickS: 38, ThoroughS: 1800,
	})
}

// prelude defines values every evaluation of a history may be lent. It reads
// nothing, so no fault and no edit can make it another one.
const prelude = `cfg: &cfg {name: svc, count: 3, nested: {x: {y: [1, 2]}, z: null}, list: [1, 2, 3]}
list: &list [3, 1, 2]
---
# about this
rich: &rich
  # inner
  a: 1 # one
  b: |
    text
  c: 'quoted'
---
!yisp &Ty
- schema
- type: object
  properties:
    name: {type: string}
    count: {type: integer, default: 7}
    nest: {type: object, properties: {p: {type: string, default: dd}, q: {type: integer}}}
    items:
      type: array
      patchStrategy: merge
      patchMergeKey: name
      default: !quote [{name: z}]
      items: {type: object, properties: {name: {type: string}, value: {type: integer, default: 5}}}
---
!yisp &Bag
- schema
- type: object
  properties:
    tags: {type: array, patchStrategy: merge, items: {type: string}}
    more: {type: array, patchStrategy: replace, default: !quote [seven], items: {type: string}}
---
!yisp &Obj
- schema
- type: object
  additionalProperties: true
  properties:
    metadata: {type: object, additionalProperties: true}
    ports: {type: array, patchStrategy: merge, patchMergeKey: name, default: !quote [], items: {type: object, properties: {name: {type: string}, port: {type: integer}}}}
---
!yisp &inc [lambda, [x], ["+", *x, 1]]
---
!yisp &mk
- lambda
- [!string n, props]
- !quote
  name: *n
  deep: {props: *props, opt: *props.zz?}
---
!yisp &Port [schema, {type: string, format: int-or-string}]
---
!yisp &PortOr [schema, !quote {oneOf: [{type: boolean}, {type: string, format: int-or-string}]}]
---
!yisp &port [lambda, [!Port p], !quote {port: *p}]
---
!yisp &ports [lambda, [!PortOr p], [strings.concat, "p", [strings.format, "%v", *p]]]
---
!yisp &acc
- lambda
- [x]
- - progn
  - &tmp ["*", *x, 2]
  - ["+", *tmp, 1]
---
!yisp &peek
- lambda
- [x]
- [if, ["<", *x, 4], *kept, [progn, &kept ["+", *x, 100], *kept]]
---
!yisp &ask [lambda, [x], [if, ["<", *x, 4], *other, *x]]
---
!yisp &adder [lambda, [a], [lambda, [b], [progn, &sum ["+", *a, *b], ["*", *sum, *sum]]]]
---
!yisp &add3 [*adder, 3]
---
typed: &typed !Ty {name: t, items: [{name: a, value: 1}, {name: b}]}
rich2: &rich2 {q: 4}
vals: &vals [{name: v1}, {name: v2, value: 3}]
objs: &objs !quote
  - !Obj {<<: {apiVersion: v1x}, kind: Odd, metadata: {name: a}, spec: {n: [1, 2]}, ports: [{name: p1, port: 1}, {name: p2, port: 2}]}
  - !Obj {<<: {apiVersion: v1x}, kind: Odd, metadata: {name: b}}
dflt: &dflt !Ty {name: d}
bagged: &bagged !Bag {tags: [t1, t2, t3]}
joined: &joined !yisp [maps.merge, *bagged, !Bag {tags: !quote [t4, t5]}]
five: &five [5, 6, 7, 8, 9]
made: &made !yisp [lists.flatten, *five, [lists.iota, 6]]
rest: &rest !yisp [lists.cdr, *five]
some: &some !yisp [lists.filter, *made, [lambda, [v], ["<", *v, 7]]]
num: &num 8080
nums: &nums [80, 443]
merged: &merged !yisp [maps.merge, *cfg, {count: 4, more: {k: v}}]
`

// lentLines are documents that use the lent values.
var lentLines = []string{
	"merge: !yisp [maps.merge, *cfg, !quote {count: %d, nested: {x: {w: 1}}, list: [9]}]\n",
	"merge2: !yisp [maps.merge, {first: %d}, *cfg, *rich]\n",
	"typed: !yisp\n  - maps.merge\n  - *typed\n  - !Ty {name: u, items: !quote [{name: a, value: %d}, {name: c}]}\nstill: *typed\n",
	"typed: !yisp\n  - maps.merge\n  - *dflt\n  - *typed\n  - !Ty {name: u, items: !quote [{name: z, value: %d}, {name: c}]}\nstill: [*dflt, *typed]\n",
	"plain: !yisp\n  - maps.merge\n  - *bagged\n  - !Bag {tags: !quote [t%d], more: !quote [one, two]}\nstill: *bagged\n",
	"plain: !yisp &bagger%[1]d\n  - maps.merge\n  - *joined\n  - !Bag {tags: !quote [u%[1]d], more: !quote [one, two]}\n---\nboth: !yisp [maps.merge, *bagger%[1]d, !Bag {tags: !quote [v]}]\nboth2: !yisp [maps.merge, *bagger%[1]d, !Bag {tags: !quote [w]}]\nstill: *joined\n",
	"- !yisp [lists.flatten, *five, %[1]d]\n- !yisp [lists.flatten, *made, %[1]d]\n- !yisp [lists.flatten, *some, %[1]d, *five]\n- !yisp [lists.flatten, *rest, *five, %[1]d]\n",
	"- !yisp [lists.cons, %[1]d, *five]\n- !yisp [lists.cons, %[1]d, *rest]\n- !yisp [lists.cdr, *made]\n- !yisp [lists.car, *some]\n- !yisp [lists.at, *made, %[1]d]\n",
	"patch: !yisp [maps.patch, {l: *five, m: *made, s: *some, r: *rest}, !quote [{op: add, path: /l/-, value: %[1]d}, {op: add, path: /m/-, value: %[1]d}, {op: add, path: /s/0, value: %[1]d}, {op: add, path: /r/1, value: a}, {op: remove, path: /l/1}, {op: replace, path: /m/2, value: q}, {op: move, from: /r/0, path: /s/1}, {op: copy, from: /m, path: /c}, {op: add, path: /c/-, value: z}]]\n",
	"top: !yisp\n  - lists.map\n  - *made\n  - [lambda, [v], {v: *v, n: %d}]\n",
	"!yisp [lists.as-toplevel, *made]\n---\nn: %d\n",
	"from: !yisp [maps.from-entries, [maps.to-entries, *cfg]]\nin: !yisp [lists.contains, *made, %d]\nlen: !yisp [lists.length, *some]\n",
	"join: !yisp [strings.join, [lists.map, *some, [lambda, [v], [strings.format, \"%%v\", *v]]], \"-\"]\nn: %d\n",
	"cast: !Ty {name: n%d}\n",
	"nest: !Ty {name: n%d, nest: {q: 1}}\n",
	"as: !yisp [types.assert, *Ty, {name: x%d}]\n",
	"map: !yisp [lists.map, *list, *inc]\nn: %d\n",
	"filter: !yisp [lists.filter, *list, [lambda, [v], [\">\", *v, %d]]]\n",
	"reduce: !yisp [lists.reduce, *list, [lambda, [u, v], [\"+\", *u, *v, %d]]]\n",
	"call: !yisp [*inc, %d]\n",
	"mk: !yisp [*mk, n%d, *cfg]\nmk2: !yisp [*mk, n2, {zz: *list}]\n",
	"patch: !yisp [maps.patch, *cfg, !quote [{op: replace, path: /count, value: %d}, {op: add, path: /nested/x/v, value: 1}, {op: remove, path: /list/0}]]\n",
	"patch2: !yisp [maps.patch, *typed, !quote [{op: add, path: /count, value: %d}]]\n",
	"get: !yisp [maps.get, *cfg, nested]\nkeys: !yisp [maps.keys, *rich]\nn: %d\n",
	"entries: !yisp [maps.to-entries, *cfg]\nvals: !yisp [maps.values, *merged]\nn: %d\n",
	"flat: !yisp [lists.flatten, !quote [*list, [%d], *list]]\n",
	"marshal: !yisp [yaml.marshal, *rich]\nn: %d\n",
	"deep: {a: *cfg.nested.x, b: *rich.b, c: *merged, n: %d}\n",
	"? *rich\n: %d\n",
	"eq: !yisp [\"==\", *cfg, *merged]\nn: %d\n",
	"if: !yisp [if, [\"<\", 1, %d], *typed, *cfg]\n",
	"over: &cfg {name: other, n: %d}\nuse: *cfg\n",
	"over: &list [%d]\nfn: !yisp [lists.map, *list, *inc]\n",
	"pipe: !yisp [pipeline, %d, *inc, *inc]\n",
	"hash: !yisp [strings.sha256, \"%d\"]\nrich: *rich\n",
	"<<: *cfg\nown: %d\n",
	"again: !yisp &again [progn, *inc]\nn: !yisp [*again, %d]\n",
	"kube: !yisp [k8s.patch, *objs, !quote [{apiVersion: v1x, kind: Odd, metadata: {name: a}, extra: %d, ports: [{name: p2, port: 3}]}]]\nwas: *objs\n",
	"wrap: !yisp &wrap [lambda, [!int q], {q: *q, n: [*inc, *q]}]\ncalled: !yisp [*wrap, %d]\n",
	"cast2: !Ty {name: w, nest: *rich2, count: %d}\n",
	"castit: !Ty {name: w, items: *vals, count: %d}\nstill: *vals\n",
	"acc: !yisp [*acc, %d]\npeek: !yisp [*peek, 5]\n",
	"peek: !yisp [*peek, %d]\n",
	"ask: !yisp [*ask, 2]\nn: %d\n",
	"asked: !yisp [*ask, %d]\n",
	"named: !yisp &other [progn, *ask]\nn: %d\n",
	"kept: !yisp [*peek, 1]\nn: %d\n",
	"keep: !yisp [*peek, 7]\nn: %d\n",
	"add: !yisp [lists.map, *list, *add3]\nn: %d\n",
	"typed: !yisp [types.get, *typed]\nn: %d\n",
	"port: !yisp [*port, *num]\nnum: *num\nmore: !yisp [*inc, *num]\nn: %d\n",
	"ports: !yisp [lists.map, *nums, *ports]\nnums: *nums\nn: %d\n",
	"port: !Port 80%d\nas: !yisp [types.assert, *Port, *num]\nnum: *num\n",
	"$schema: https://verif.example/lent/port.json\nport: *num\nports: *nums\nn: %d\n",
	"num: *num\nnums: *nums\nn: %d\n",
}

// borrow is a script that uses the lent values.
func borrow(r *sim.Rand) string {
	var sb strings.Builder
	for i := range 1 + r.N(4) {
		if i > 0 {
			sb.WriteString("---\n")
		}
		fmt.Fprintf(&sb, sim.Pick(r, lentLines), r.N(9))
	}
	return sb.String()
}

// lendWorld adds what the scripts with lent values read.
func lendWorld(w *kern.WorldSpec) {
	w.Files = append(w.Files, kern.FileSpec{
		Path:  gen.SchemaCacheName("https://verif.example/lent/port.json"),
		Parts: []string{`{"type": "object", "properties": {"port": {"type": "string", "format": "int-or-string"}, "ports": {"type": "array", "items": {"type": "string", "format": "int-or-string"}}, "n": {"type": "integer"}}}`},
	}, kern.FileSpec{
		Path:  gen.Cache + "/gvk/_v1x_Odd.txt",
		Parts: []string{"lent.Odd"},
	}, kern.FileSpec{
		Path:  gen.Cache + "/schemas/lent.Odd.json",
		Parts: []string{`{"type": "object", "properties": {"metadata": {"type": "object", "additionalProperties": true}, "ports": {"type": "array", "x-kubernetes-patch-strategy": "merge", "x-kubernetes-patch-merge-key": "name", "default": [], "items": {"type": "object", "properties": {"name": {"type": "string"}, "port": {"type": "integer"}}}}}, "additionalProperties": true}`},
	})
}

// lend makes a task one that uses the lent values.
func lend(r *sim.Rand, t *Task) {
	t.Reader = &Reader{Data: []byte(borrow(r)), ErrAt: -1}
	t.Op = sim.Pick(r, []string{"readerenv", "run"})
	t.Location = "/work/p/lent.yisp"
	t.SharedEnv = true
}

// edits change what the project reads.
func someEdit(r *sim.Rand, w *kern.WorldSpec, undo map[string]kern.FileSpec, calm bool) (kern.Edit, bool) {
	var e kern.Edit
	if len(w.HTTP) > 0 && !calm && r.P(1, 4) {
		h := w.HTTP[r.N(len(w.HTTP))]
		if r.P(1, 4) {
			e.Down = []string{h.URL}
			return e, true
		}
		text := strings.Join(h.Parts, "")
		if h.B64 != "" {
			return e, false
		}
		h.Parts, h.B64 = rawText(changeText(r, h.URL, text))
		if r.P(1, 5) {
			h.Status, h.Parts, h.B64 = 500, []string{"trouble"}, ""
		}
		e.HTTP = []kern.HTTPSpec{h}
		return e, true
	}
	var fs []kern.FileSpec
	for _, f := range w.Files {
		if f.Dir || f.Link != "" || f.B64 != "" || strings.Contains(f.Path, "/.config/") || calm && strings.Contains(f.Path, "/.cache/") {
			continue
		}
		if len(f.Parts) == 1 && (strings.Contains(f.Parts[0], "decoy") || strings.Contains(f.Parts[0], `"any"}`)) {
			continue // nothing reads it
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return e, false
	}
	f := sim.Pick(r, fs)
	if old, ok := undo[f.Path]; ok && r.P(2, 3) {
		delete(undo, f.Path)
		e.Files = []kern.FileSpec{old}
		return e, true
	}
	undo[f.Path] = f
	if r.P(1, 4) {
		e.Remove = []string{f.Path}
		return e, true
	}
	if r.P(1, 8) {
		// a neighbour appears
		i := strings.LastIndexByte(f.Path, '/')
		f.Path = f.Path[:i+1] + "aa-" + f.Path[i+1:]
		e.Files = []kern.FileSpec{f}
		return e, true
	}
	f.Parts, f.B64 = rawText(changeText(r, f.Path, strings.Join(f.Parts, "")))
	e.Files = []kern.FileSpec{f}
	return e, true
}

// rawText is text as parts or, if JSON cannot hold it, encoded.
func rawText(s string) ([]string, string) {
	if utf8.ValidString(s) {
		return []string{s}, ""
	}
	return nil, gen.B64(s)
}

func changeText(r *sim.Rand, path, s string) string {
	switch {
	case r.P(1, 8):
		return gen.Damage(r, s, 1)
	case strings.HasSuffix(path, ".json"):
		return gen.DamageJSON(r, s, 1+r.N(2))
	case strings.HasSuffix(path, ".yisp"):
		return s + "---\nedited: !yisp [\"+\", 1, " + itoa(r.N(100)) + "]\n"
	case strings.HasSuffix(path, ".yaml") || strings.HasSuffix(path, ".yml"):
		return "edited: " + itoa(r.N(100)) + "\n"
	}
	return s + "edited " + itoa(r.N(100)) + "\n"
}

// history makes a sequence of n evaluations in one process.
func history(r *sim.Rand, n int, fs []gen.Feature, edits, calm bool) *sim.Case {
	k := newWorks(r, n, fs)
	job := k.job(false)
	if len(job.Engines) == 0 && r.P(2, 3) {
		o := someOpts(r)
		o.GoPkgs = k.b.GoPkgs
		job.Engines = []Opts{o}
	}
	if r.P(1, 2) {
		job.Prelude = prelude
		lendWorld(&k.w)
	}
	var ph kern.Phase
	undo := map[string]kern.FileSpec{}
	var tasks []Task
	for i := range job.Tasks {
		t := job.Tasks[i]
		if len(job.Engines) > 0 && r.P(3, 4) {
			t.Engine = r.N(len(job.Engines))
		}
		if job.Prelude != "" && r.P(1, 3) {
			lend(r, &t)
		}
		if t.Op == "readerenv" && r.P(1, 3) {
			t.Op = "run"
		}
		if (t.Op == "any" || t.Op == "bytes") && r.P(1, 2) {
			t.Scribble = true
		}
		if t.Op == "bytes" && r.P(1, 2) {
			t.SharedEnv = false
			t.Globals = map[string]any{"p": "text " + itoa(r.N(9)), "deep": map[string]any{"a": []any{r.N(9)}, "c": 2.5}, "items": []any{1, 2, r.N(9)}}
		}
		if t.Reader != nil && r.P(1, 5) {
			t.Reader.Data = []byte(gen.Damage(r, string(t.Reader.Data), 1+r.N(2)))
		}
		if t.Reader != nil && t.Op != "bytes" && r.P(1, 8) {
			t.Reader.ErrAt, t.Reader.Err = r.N(len(t.Reader.Data)+1), "EIO"
		}
		tasks = append(tasks, t)
		if r.P(1, 3) {
			tasks = append(tasks, t) // again
		}
		if edits && r.P(1, 2) {
			if e, ok := someEdit(r, &k.w, undo, calm); ok {
				ph.Edits = append(ph.Edits, e)
				tasks = append(tasks, Task{Op: "edit", Engine: -1, Edit: len(ph.Edits)})
			}
		}
		if len(job.Engines) > 0 && r.P(1, 8) {
			o := Opts{AllowCmd: r.P(1, 2)}
			if r.P(1, 2) {
				o.GoPkgs = k.b.GoPkgs
			}
			tasks = append(tasks, Task{Op: "option", Engine: r.N(len(job.Engines)), Opts: o})
		}
		if len(tasks) > 1 && r.P(1, 4) {
			if p := tasks[r.N(len(tasks))]; p.Op != "edit" && p.Op != "option" {
				tasks = append(tasks, p) // an earlier one
			}
		}
	}
	job.Tasks = tasks
	ph.Procs = []kern.ProcSpec{DriverProc(job)}
	cs := &sim.Case{Prop: "C05", Name: names(fs), World: k.w, Phases: []kern.Phase{ph}}
	cs.Tags = append([]string{"evaluations-" + itoa(min(len(tasks), 15))}, k.b.Tags...)
	if job.Prelude != "" {
		cs.Tags = append(cs.Tags, "lent")
	}
	if len(ph.Edits) > 0 {
		cs.Tags = append(cs.Tags, "edits")
	}
	return cs
}

func c05Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	for _, f := range allFeatures() {
		for s := range 3 {
			r := sim.NewRand(c.Seed, "c05", f.Name, s)
			fs := []gen.Feature{f}
			if s == 2 {
				fs = append(fs, sim.Pick(r, allFeatures()))
			}
			out = append(out, history(r, 4, fs, s > 0, true))
		}
	}
	for i := range lentLines {
		r := sim.NewRand(c.Seed, "c05 lent", i)
		job := &Job{Prelude: prelude}
		seq := []string{lentLines[i]}
		others := append([]string{}, lentLines...)
		sim.Shuffle(r, others)
		if c.Quick() {
			others = others[:len(others)/3]
		}
		for _, l := range others {
			seq = append(seq, l, lentLines[i])
		}
		for _, l := range seq {
			job.Tasks = append(job.Tasks, Task{Op: "run", Engine: -1, Location: "/work/p/lent.yisp", SharedEnv: true, Reader: &Reader{Data: fmt.Appendf(nil, l, r.N(9)), ErrAt: -1}})
		}
		if r.P(1, 2) {
			job.Engines = []Opts{{}}
			for i := range job.Tasks {
				job.Tasks[i].Engine = 0
			}
		}
		w := kern.WorldSpec{}
		lendWorld(&w)
		cs := driverCase("C05", "lent", w, job)
		cs.Tags = []string{"lent", "twice"}
		out = append(out, cs)
	}
	return out
}

func c05Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	all := allFeatures()
	var fs []gen.Feature
	for range 1 + r.N(4) {
		fs = append(fs, sim.Pick(r, all))
	}
	calm := r.P(1, 2)
	cs := history(r, 2+r.N(9), fs, r.P(1, 2), calm)
	if !calm {
		return cs
	}
	pts, _, err := c.Points(cs)
	if err != nil || len(pts) == 0 {
		return cs
	}
	cs.Phases[0].Faults = c13Faults(scatter(r, pts, 1+r.N(3)))
	return cs
}

// apart is a history with every evaluation in a process of its own, on an
// engine of its own.
func apart(cs *sim.Case, job *Job) (*sim.Case, []int) {
	d := cs.Clone()
	ph := d.Phases[0]
	proc := ph.Procs[0]
	d.Phases = nil
	where := make([]int, len(job.Tasks))
	opts := append([]Opts{}, job.Engines...)
	for i, t := range job.Tasks {
		where[i] = -1
		switch t.Op {
		case "edit":
			if t.Edit >= 1 && t.Edit <= len(ph.Edits) {
				d.Phases = append(d.Phases, kern.Phase{Edit: &ph.Edits[t.Edit-1]})
			}
			continue
		case "option":
			if t.Engine >= 0 {
				opts[t.Engine].AllowCmd, opts[t.Engine].GoPkgs = t.Opts.AllowCmd, t.Opts.GoPkgs
			}
			continue
		}
		if t.Engine >= 0 {
			t.Opts = opts[t.Engine]
			t.Engine = -1
		}
		j := *job
		j.Engines = nil
		j.Tasks = []Task{t}
		p := proc
		p.Name = fmt.Sprintf("p%d", i)
		p.Job = marshalJob(&j)
		where[i] = len(d.Phases)
		d.Phases = append(d.Phases, kern.Phase{Procs: []kern.ProcSpec{p}})
	}
	return d, where
}

// struck tells which evaluations of a sequence a fault was aimed at.
func struck(cs *sim.Case, r *sim.Run) map[int]bool {
	hit := map[int]bool{}
	cur := -1
	for _, e := range r.W.Events {
		if e.Name == "mark" {
			if n, err := strconv.Atoi(e.Res); err == nil && n >= 1<<20 {
				cur = n - 1<<20
			}
			continue
		}
		for _, f := range cs.Phases[0].Faults {
			if f.Op == e.Name && f.Path == e.Path && (f.Occ < 0 || f.Occ == e.Occ) || f.Op == "" && f.At == e.Ord {
				hit[cur] = true
			}
		}
	}
	return hit
}

func c05Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if dead(o) != nil {
		return nil, nil // C14's business
	}
	jr, err := Results(o)
	if err != nil {
		return nil, &sim.ErrHarness{Msg: err.Error()}
	}
	var job Job
	if err := JobOf(cs, &job); err != nil {
		return nil, err
	}
	if len(job.Tasks) != len(jr.Results) {
		return nil, &sim.ErrHarness{Msg: "results missing"}
	}
	d, where := apart(cs, &job)
	ar, err := c.Base(d)
	if err != nil {
		return nil, err
	}
	hit := struck(cs, r)
	seen := 0
	for i := range job.Tasks {
		t := &job.Tasks[i]
		x := &jr.Results[i]
		if x.Late != "" && x.Ok && x.Late != x.Out {
			return sim.V("a result changed later", "%s of %s, then / at the end: %s", t.Op, t.Path, diffAt(x.Out, x.Late)), nil
		}
		if strings.Contains(x.Out, "[globals changed") {
			return sim.V("the caller's values changed", "%s: %s", t.Op, clipS(x.Out[strings.Index(x.Out, "[globals changed"):], 600)), nil
		}
		if where[i] < 0 || hit[i] {
			continue
		}
		ao := ar.Out[where[i]]["p"+itoa(i)]
		if dead(ao) != nil {
			continue
		}
		br, err := Results(ao)
		if err != nil {
			return nil, &sim.ErrHarness{Msg: err.Error()}
		}
		if a, b := outcome(&br.Results[0]), outcome(x); a != b {
			return sim.V("another result after others", "%s of %s%s, number %d of %d, in a fresh process / here: %s", t.Op, t.Path, t.Location, i, len(job.Tasks), diffAt(a, b)), nil
		}
		seen++
		if x.Ok {
			c.Probe("result")
		} else {
			c.Probe("error")
		}
		if len(hit) > 0 {
			c.Probe("after a fault")
		}
	}
	if jr.Lent != "" {
		i := strings.Index(jr.Lent, "\nnow ")
		return sim.V("the caller's values changed", "lent values: %s", diffAt(jr.Lent[4:i], jr.Lent[i+5:])), nil
	}
	if seen > 1 {
		c.Non(r)
	}
	for _, t := range job.Tasks {
		if t.Op == "edit" {
			c.Inject("edit between evaluations", 1)
		}
	}
	return nil, nil
}

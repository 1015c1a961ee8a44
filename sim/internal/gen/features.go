package gen

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/kern"
	"vsim/internal/sim"
)

// Feature is one way a script can be written.
type Feature struct {
	Name string
	F    func(b *B)
	IO   bool // it reads something besides the script
	Err  bool // it fails by itself
}

// Add puts a feature into the project.
func (b *B) Add(f Feature) {
	b.Tags = append(b.Tags, f.Name)
	if f.Err {
		b.Err = true
	}
	f.F(b)
}

// Features lists every feature that evaluates without an error.
var Features = []Feature{
	{Name: "plain", F: func(b *B) { b.Doc("%s", b.Data()) }},
	{Name: "plain-big", F: func(b *B) {
		n := 3000 + b.R.N(5000)
		if b.Big {
			n = 60000 + b.R.N(12000)
		}
		e := b.ID("endmark")
		b.Doc("head: %s\nrows:\n%stail: %s\n%s: %d\n", b.Scalar(), b.bulk(n), b.Scalar(), e, n)
		b.Expect = append(b.Expect, fmt.Sprintf("%s: %d", e, n))
	}},
	{Name: "anchors", F: func(b *B) {
		a := b.ID("anc")
		b.Doc("v: &%s\n%sagain: *%s\nlist: [*%s, 1]\n", a, pad(b.Map(3, 1), 2), a, a)
	}},
	{Name: "mergekey", F: func(b *B) {
		a, c := b.ID("mk"), b.ID("mk")
		b.Doc("&%s\n%s", a, b.Map(3, 1))
		b.Doc("&%s\n%s", c, b.Map(3, 1))
		b.Doc("one:\n  <<: *%s\n  <<: *%s\n  z: 1\ntwo:\n  <<: [*%s, *%s]\n  y: 2\ncond:\n  <<: !yisp [if, %v, {p: 1}, {q: 2}]\n  <<: null\n", a, c, a, c, b.R.P(1, 2))
	}},
	{Name: "expr", F: func(b *B) {
		var sb strings.Builder
		for i := range 3 + b.R.N(5) {
			fmt.Fprintf(&sb, "e%d: !yisp %s\n", i, b.Any(2+b.R.N(2)))
		}
		b.Doc("%s", sb.String())
	}},
	{Name: "expr-toplevel", F: func(b *B) { b.Doc("!yisp\n%s\n", b.List1(3)) }},
	{Name: "strings", F: func(b *B) {
		b.Doc(`concat: !yisp [strings.concat, %q, %q]
contains: !yisp [strings.contains, %q, "a"]
quote: !yisp [strings.quote, %d]
format: !yisp [strings.format, "%%s/%%v/%%d", %q, true, %d]
join: !yisp [strings.join, !quote [%s, %s], ", "]
replace: !yisp [strings.replace, %q, "a", "%s"]
sha: !yisp [strings.sha256, %q]
split: !yisp [strings.split, %q, " "]
up: !yisp [strings.toUpper, %q]
low: !yisp [strings.toLower, %q]
trim: !yisp [strings.trim, "  %s  "]
`, b.Text(9), b.Text(30), b.Text(20), b.R.N(9999), b.Text(5), b.R.N(99), b.Word(), b.Word(), b.Text(30), b.Word(), b.Text(40), b.Text(50), b.Text(12), b.Text(12), b.Word())
	}},
	{Name: "lists", F: func(b *B) {
		l := b.IntList()
		b.Doc(`car: !yisp [lists.car, %[1]s]
cdr: !yisp [lists.cdr, %[1]s]
cons: !yisp [lists.cons, %[2]d, %[1]s]
filter: !yisp [lists.filter, %[1]s, [lambda, [x], [">", *x, %[3]d]]]
flatten: !yisp [lists.flatten, %[1]s, 9, %[1]s]
map: !yisp [lists.map, %[1]s, [lambda, [x], ["*", *x, 3]]]
reduce: !yisp [lists.reduce, %[1]s, [lambda, [x, y], ["+", *x, *y]]]
iota: !yisp [lists.iota, %[4]d]
len: !yisp [lists.length, %[1]s]
at: !yisp [lists.at, %[1]s, 0]
has: !yisp [lists.contains, %[1]s, %[3]d]
`, l, b.R.N(50), b.R.N(20), 1+b.R.N(30))
	}},
	{Name: "maps", F: func(b *B) {
		b.Doc(`get: !yisp [maps.get, {%[1]s: %[3]d, k2: 2}, %[1]s]
keys: !yisp [maps.keys, {%[1]s: 1, %[2]s_: 2, k: 3}]
values: !yisp [maps.values, {%[1]s: %[3]d, b: {c: 1}}]
entries: !yisp [maps.to-entries, {x: %[3]d, y: 2}]
from: !yisp [maps.from-entries, !quote [[%[1]s, 1], [b, %[3]d]]]
make: !yisp [maps.make, %[1]s, %[3]d, b, ["+", 1, %[3]d]]
merge: !yisp [maps.merge, !quote {a: {b: 1, c: [1]}, %[1]s: 1}, !quote {a: {b: 2, d: [3]}, z: %[3]d}]
`, b.Word(), b.Word(), b.R.N(1000))
	}},
	{Name: "maps-patch", F: func(b *B) {
		b.Doc(`!yisp
- maps.patch
- !quote
  spec: {replicas: 1, name: %[1]s, list: [1, 2, 3]}
  keep: {deep: {er: %[2]d}}
  from: {a: 1}
- !quote
  - {op: replace, path: /spec/replicas, value: %[2]d}
  - {op: add, path: /spec/extra, value: {k: %[1]s}}
  - {op: add, path: /spec/list/1, value: 9}
  - {op: remove, path: /spec/list/0}
  - {op: copy, from: /spec/name, path: /spec/alias}
  - {op: move, from: /from/a, path: /spec/moved}
  - {op: test, path: /spec/name, value: %[1]s}
`, b.Word(), 2+b.R.N(50))
	}},
	{Name: "k8s-patch", F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Doc(`!yisp
- k8s.patch
- !quote
  - apiVersion: %[1]s
    kind: %[2]s
    metadata: {name: a%[3]d, labels: {x: "1"}}
    spec: {containers: [{name: c1, image: "i:1"}, {name: c2, image: "j:1"}]}
  - apiVersion: %[1]s
    kind: %[2]s
    metadata: {name: b}
    spec: {containers: []}
- !quote
  - apiVersion: %[1]s
    kind: %[2]s
    metadata: {name: a%[3]d, labels: {y: "2"}}
    spec: {containers: [{name: c2, image: "j:2"}, {name: c3, image: "k:1"}]}
`, gv, kind, b.R.N(100))
	}},
	{Name: "yaml-ops", F: func(b *B) {
		b.Doc(`m: !yisp [yaml.marshal, {a: 1, b: {c: !quote [1, 2], d: %q}}]
u: !yisp
  - lists.car
  - - yaml.unmarshal
    - |
%s
`, b.Text(20), pad(b.Map(3, 1), 6))
	}},
	{Name: "lambda", F: func(b *B) {
		f := b.ID("fn")
		b.Doc("!yisp &%s\n- lambda\n- [!int n, k]\n- - if\n  - [\"<=\", *n, 0]\n  - *k\n  - - *%s\n    - [\"-\", *n, 1]\n    - [\"+\", *k, *n]\n", f, f)
		b.Doc("sum: !yisp [*%s, %d, 1]\n", f, 2+b.R.N(8))
	}},
	{Name: "template", F: func(b *B) {
		f := b.ID("mk")
		b.Doc("!yisp &%s\n- lambda\n- [!string name, props]\n- !quote\n  metadata: {name: *name}\n  data:\n    a: *props.a\n    opt: *props.zzz?\n    list: [*name, *props.a]\n", f)
		b.Doc("!yisp [*%s, %s, {a: %s}]\n", f, b.Word(), b.Scalar())
	}},
	{Name: "progn-pipeline", F: func(b *B) {
		x := b.ID("px")
		b.Doc("!yisp\n- progn\n- &%s %d\n- [pipeline, *%s, [lambda, [a], [\"+\", *a, 1]], [lambda, [a], [\"*\", *a, *%s]]]\n", x, b.R.N(100), x, x)
	}},
	{Name: "toplevel", F: func(b *B) {
		b.Doc("!yisp\n- lists.as-toplevel\n- !quote [{a: %d}, {b: %s}]\n- {c: 3}\n", b.R.N(100), b.Word())
	}},
	{Name: "cast", F: func(b *B) {
		t := b.ID("Ty")
		b.Doc(`!yisp &%s
- schema
- type: object
  properties:
    name: {type: string}
    count: {type: integer, minimum: 0, default: %d}
    zone: {type: string, default: %s}
    tags: {type: array, items: {type: string}}
    nest: {type: object, properties: {p: {type: string, default: %q}, q: {type: integer}, r: {type: boolean, default: true}}}
    alt: {oneOf: !quote [{type: integer}, {type: string}]}
  required: !quote [name]
`, t, b.R.N(50), b.Word(), b.Text(10))
		b.Doc("!%s\nname: %s\nalt: %d\ntags: [a, b]\n", t, b.Word(), b.R.N(9))
		b.Doc("v: !%s {name: %s, tags: [], nest: {q: 4}, alt: x}\n", t, b.Word())
	}},
	{Name: "cast-merge", F: func(b *B) {
		t := b.ID("Mg")
		b.Doc(`!yisp &%s
- schema
- type: object
  properties:
    items:
      type: array
      patchStrategy: merge
      patchMergeKey: name
      items:
        type: object
        properties:
          name: {type: string}
          value: {type: integer}
          memo: {type: object, properties: {kind: {type: string, default: plain}, text: {type: string, default: %q}}}
`, t, b.Text(9))
		b.Doc("!yisp\n- maps.merge\n- !%s\n  items: !quote\n    - {name: i1, value: %d}\n    - {name: i2, value: 2}\n- !%s\n  items: !quote\n    - {name: i1, value: 30}\n    - {name: i3, value: 4, memo: {text: new}}\n", t, b.R.N(90), t)
	}},
	{Name: "types", F: func(b *B) {
		t := b.ID("Tt")
		b.Doc("!yisp &%s [schema, {type: integer, minimum: 1}]\n", t)
		b.Doc("of: !yisp [types.of, %s]\nas: !yisp [types.assert, *%s, %d]\nty: !yisp [types.of, [types.assert, *%s, 7]]\n", sim.Pick(b.R, []string{"1", "a", "true", "{a: 1}", "!quote [1]"}), t, 1+b.R.N(50), t)
	}},
	{Name: "special", F: func(b *B) {
		b.Doc("a: !!str 12\nb: \"\\u00e9\\t\\x41\"\nc: 31\nd: .5\ne: ~\n\"q: r\": 'it''s'\n? complex\n: v\nlong: %q\nempty: {}\nnone: []\n", b.Text(200))
	}},
	{Name: "comments", F: func(b *B) {
		b.Doc("# head %s\na: 1 # line %s\n# foot\nb:\n  # inner\n  - x # y\n\n\nc: 3\n# tail\n", b.Text(20), b.Text(5))
	}},
	{Name: "flow-deep", F: func(b *B) {
		n := 5 + b.R.N(40)
		b.Doc("deep: %s%d%s\n", strings.Repeat("[{k: ", n), b.R.N(9), strings.Repeat("}]", n))
	}},
	{Name: "wide-merge", F: func(b *B) {
		a, c := b.ID("wm"), b.ID("wm")
		b.Doc("&%s\n%s", a, b.wideMap(1))
		b.Doc("&%s\n%s", c, b.wideMap(1))
		b.Doc("one:\n  own: 1\n  <<: *%s\n  <<: *%s\n  z: 1\ntwo:\n  <<: [*%s, null, *%s]\n  y: 2\n", a, c, a, c)
	}},
	{Name: "wide-maps", F: func(b *B) {
		m, n := b.ID("wx"), b.ID("wx")
		b.Doc("&%s\n%s", m, b.wideMap(1))
		b.Doc("&%s\n%s", n, b.wideMap(2))
		b.Doc(`keys: !yisp [maps.keys, *%[1]s]
values: !yisp [maps.values, *%[1]s]
entries: !yisp [maps.to-entries, *%[2]s]
back: !yisp [maps.from-entries, [maps.to-entries, *%[2]s]]
text: !yisp [yaml.marshal, *%[2]s]
again: !yisp [yaml.unmarshal, [yaml.marshal, *%[1]s]]
merge: !yisp [maps.merge, *%[1]s, *%[2]s]
patch: !yisp [maps.patch, *%[1]s, !quote [{op: add, path: /added, value: *%[2]s}, {op: copy, from: /added, path: /copied}]]
fmt: !yisp [strings.format, "%%v", *%[1]s]
same: !yisp [maps.from-entries, [lists.map, [maps.to-entries, *%[1]s], [lambda, [e], *e]]]
`, m, n)
	}},
	{Name: "wide-cast", F: func(b *B) {
		t := b.ID("Wt")
		var props, ms strings.Builder
		for i, k := range b.names(14 + b.R.N(20)) {
			switch i % 5 {
			case 0:
				fmt.Fprintf(&props, "    %s: {type: string, default: %q}\n", k, b.Text(5))
			case 1:
				fmt.Fprintf(&props, "    %s: {type: integer, default: %d}\n", k, b.R.N(99))
			case 2:
				fmt.Fprintf(&props, "    %s: {type: object, properties: {b: {type: string, default: x}, a: {type: boolean, default: true}, c: {type: object, additionalProperties: {type: string}}}}\n", k)
			case 3:
				fmt.Fprintf(&props, "    %s: {type: object, additionalProperties: {type: string}, default: {p: a, o: b, n: c, m: d, l: e, k: f, j: g, i: h, h: i, g: j}}\n", k)
			default:
				fmt.Fprintf(&props, "    %s: {type: string}\n", k)
				fmt.Fprintf(&ms, "%s: %s\n", k, b.Word())
			}
		}
		b.Doc("!yisp &%s\n- schema\n- type: object\n  properties:\n%s", t, props.String())
		b.Doc("!%s\n%s", t, ms.String())
	}},
	{Name: "wide-include", IO: true, F: func(b *B) {
		n := b.ID("wi")
		b.File(n+".json", b.wideJSON())
		b.File(n+".yaml", b.wideMap(2))
		b.File(n+".yisp", b.wideMap(1))
		b.Doc("j: !yisp [include, %[1]s.json]\ny: !yisp [include, %[1]s.yaml]\ns: !yisp [include, %[1]s.yisp]\nm:\n  <<: !yisp [include, %[1]s.json, %[1]s.yaml]\n", n)
	}},
	{Name: "wide-import", IO: true, F: func(b *B) {
		n := b.ID("wp")
		var parts []string
		ns := b.names(12 + b.R.N(12))
		for _, k := range ns {
			parts = append(parts, fmt.Sprintf("---\n&%s\nv: %s\n", k, b.Word()))
		}
		b.File("lib/"+n+".yisp", parts...)
		b.Doc("!yisp [import, [%s, lib/%s.yisp]]\n", n, n)
		var sb strings.Builder
		for _, k := range ns {
			fmt.Fprintf(&sb, "u%s: *%s.%s.v\n", k, n, k)
		}
		b.Doc("%s", sb.String())
	}},
	{Name: "wide-gvk", IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		var labels, cs []string
		for i, k := range b.names(12 + b.R.N(12)) {
			labels = append(labels, fmt.Sprintf("%s: %q", k, b.Text(4)))
			cs = append(cs, fmt.Sprintf("{name: %s, image: i%d, port: %d%s}", k, i, i, sim.Pick(b.R, []string{"", "", ", env: [{name: A, value: b}]", ", env: [{name: C}, {name: A, hints: [x]}]"})))
		}
		b.Doc("!yisp\n- k8s.patch\n- !quote\n  - apiVersion: %[1]s\n    kind: %[2]s\n    metadata: {name: w, labels: {%[3]s}}\n    spec: {containers: [%[4]s]}\n- !quote\n  - apiVersion: %[1]s\n    kind: %[2]s\n    metadata: {name: w, labels: {%[5]s, zz: x}}\n    spec: {replicas: 2, containers: [%[6]s, {name: other, image: k}]}\n",
			gv, kind, strings.Join(labels, ", "), strings.Join(cs, ", "), strings.Join(labels[len(labels)/2:], ", "), strings.Join(cs[len(cs)/2:], ", "))
	}},
	{Name: "include-yaml", IO: true, F: func(b *B) {
		n := b.ID("inc")
		b.File(n+"a.yaml", b.Data())
		b.File("sub/"+n+"b.yml", b.List(3, 1))
		b.twin(n+"a.yaml", "sub/"+n+"b.yml")
		b.Doc("!yisp\n- include\n- %sa.yaml\n- ./sub/%sb.yml\n", n, n)
	}},
	{Name: "include-json", IO: true, F: func(b *B) {
		n := b.ID("js")
		b.File(n+".json", b.JSON())
		b.twin(n + ".json")
		b.Doc("j: !yisp [include, %s.json]\n", n)
	}},
	{Name: "include-text", IO: true, F: func(b *B) {
		n := b.ID("txt")
		b.File(n+".txt", b.Lines(b.size()))
		b.File(n+".conf", b.Lines(30))
		b.twin(n+".txt", n+".conf")
		b.Doc("t: !yisp [include, %s.txt]\nc: !yisp [include, ./%s.conf]\n", n, n)
		b.Doc("h: !yisp [strings.sha256, [lists.car, [include, %s.txt]]]\n", n)
		b.Hash(b.content(n + ".txt"))
	}},
	{Name: "include-yisp", IO: true, F: func(b *B) {
		n := b.ID("y")
		b.File(n+".yisp", "!yisp [lists.iota, 4]\n", "---\n"+b.Map(3, 1), "---\nsum: !yisp [\"+\", 1, 2]\n")
		b.twin(n + ".yisp")
		b.Doc("!yisp [include, %s.yisp]\n", n)
	}},
	{Name: "include-nested", IO: true, F: func(b *B) {
		n := b.ID("n")
		b.File(n+"/a.yisp", "!yisp [include, sub/b.yisp]\n", "---\nfrom: a\n")
		b.File(n+"/sub/b.yisp", "!yisp [include, ../../"+n+"/c.yaml, d.json]\n", "---\nfrom: b\n")
		b.File(n+"/c.yaml", b.Map(3, 1))
		b.File(n+"/sub/d.json", b.JSON())
		b.twin(n+"/a.yisp", n+"/sub/b.yisp", n+"/c.yaml", n+"/sub/d.json")
		b.Doc("!yisp [include, %s/a.yisp]\n", n)
	}},
	{Name: "include-dir", IO: true, F: func(b *B) {
		n := b.ID("dir")
		b.File(n+"/index.yisp", "idx: "+b.Scalar()+"\n", "---\n!yisp [include, part.yaml]\n")
		b.File(n+"/part.yaml", b.Map(2, 0))
		b.twin(n+"/index.yisp", n+"/part.yaml", n)
		b.Doc("!yisp [include, ./%s]\n", n)
	}},
	{Name: "include-glob", IO: true, F: func(b *B) {
		n := b.ID("g")
		k := 2 + b.R.N(5)
		for i := range k {
			b.File(fmt.Sprintf("%s/f%02d.yaml", n, i*7%11), "n: "+fmt.Sprint(i)+"\n"+b.Map(1, 1))
		}
		b.File(n+"/skip.txt", "not matched\n")
		b.Doc("!yisp [include, \"%s\"]\n", sim.Pick(b.R, []string{n + "/*.yaml", "./" + n + "/f*.yaml", n + "/f??.yaml", n + "/{f,x}*.yaml"}))
	}},
	{Name: "include-deepglob", IO: true, F: func(b *B) {
		n := b.ID("dg")
		b.File(n+"/a.yaml", "n: a\n")
		b.File(n+"/x/b.yaml", "n: b\n"+b.Map(1, 0))
		b.File(n+"/x/y/c.yaml", "n: c\n")
		b.File(n+"/z/d.json", `{"n": "d"}`)
		b.File(n+"/x/y/e.yisp", "n: !yisp [strings.concat, e, e]\n")
		b.Doc("!yisp [include, \"%s/**/*.{yaml,json,yisp}\"]\n", n)
	}},
	{Name: "include-many", IO: true, F: func(b *B) {
		n := b.ID("m")
		for i := range sim.Pick(b.R, []int{12 + b.R.N(20), 12, 130}) {
			b.File(fmt.Sprintf("%s/i%03d.yaml", n, i), fmt.Sprintf("i: %d\n", i))
		}
		b.Doc("all: !yisp [include, %s/*.yaml]\n", n)
	}},
	{Name: "include-merge", IO: true, F: func(b *B) {
		n := b.ID("im")
		b.File(n+".yaml", b.Map(3, 1))
		b.twin(n + ".yaml")
		b.Doc("base:\n  <<: !yisp [lists.car, [include, %s.yaml]]\n  own: 1\n", n)
	}},
	{Name: "include-encoded", IO: true, F: func(b *B) {
		n := b.ID("enc")
		body := "k: " + b.Text(30) + "\nl: [1, 2]\n"
		switch b.R.N(4) {
		case 0:
			b.File(n+".yaml", "\ufeff"+body)
		case 1:
			b.File(n+".yaml", UTF16(body, false))
		case 2:
			b.File(n+".yaml", UTF16(body, true))
		default:
			b.File(n+".yaml", strings.ReplaceAll(body, "\n", "\r\n"))
		}
		b.utf16()
		b.Doc("e: !yisp [include, %s.yaml]\n", n)
	}},
	{Name: "include-links", IO: true, F: func(b *B) {
		n := b.ID("ln")
		b.File(n+"/real.yaml", "real: "+b.Scalar()+"\n")
		b.Files = append(b.Files, kern.FileSpec{Path: b.Dir + "/" + n + "/link.yaml", Link: "real.yaml"})
		b.Files = append(b.Files, kern.FileSpec{Path: b.Dir + "/" + n + "/dlink", Link: "../" + n})
		b.Doc("!yisp [include, %s/link.yaml, %s/dlink/real.yaml]\n", n, n)
	}},
	{Name: "import", IO: true, F: func(b *B) {
		n := b.ID("mod")
		b.File("lib/"+n+".yisp",
			"!yisp &add\n- lambda\n- [x, y]\n- [\"+\", *x, *y]\n",
			"---\n&conf\n"+b.Map(3, 1),
			"---\n!yisp &mk\n- lambda\n- [!string name]\n- !quote {name: *name, at: *conf}\n")
		b.twin("lib/" + n + ".yisp")
		b.Doc("!yisp [import, [%s, ./lib/%s.yisp]]\n", n, n)
		b.Doc("s: !yisp [*%s.add, %d, 2]\nc: *%s.conf\nm: !yisp [*%s.mk, zed]\n", n, b.R.N(50), n, n)
	}},
	{Name: "import-nested", IO: true, F: func(b *B) {
		n := b.ID("mn")
		b.File("lib/"+n+".yisp", "!yisp [import, [inner, deep/"+n+"i.yisp]]\n", "---\n!yisp &twice\n- lambda\n- [x]\n- [*inner.dbl, [*inner.dbl, *x]]\n")
		b.File("lib/deep/"+n+"i.yisp", "!yisp &dbl [lambda, [x], [\"*\", *x, 2]]\n", "---\n!yisp &data [include, d.yaml]\n")
		b.File("lib/deep/d.yaml", b.Map(2, 0))
		b.twin("lib/"+n+".yisp", "lib/deep/"+n+"i.yisp", "lib/deep/d.yaml")
		b.Doc("!yisp\n- import\n- [%s, lib/%s.yisp]\n- [%sx, lib/deep/%si.yisp]\n", n, n, n, n)
		b.Doc("q: !yisp [*%s.twice, %d]\nd: *%sx.data\n", n, 1+b.R.N(9), n)
	}},
	{Name: "files-read", IO: true, F: func(b *B) {
		n := b.ID("rd")
		b.File("data/"+n+".txt", b.Lines(b.size()))
		b.twin("data/" + n + ".txt")
		b.Doc("r: !yisp [files.read, data/%s.txt]\nh: !yisp [strings.sha256, [files.read, ./data/%s.txt]]\n", n, n)
		b.Hash(b.content("data/" + n + ".txt"))
	}},
	{Name: "files-glob", IO: true, F: func(b *B) {
		n := b.ID("fg")
		for i := range 2 + b.R.N(4) {
			b.File(fmt.Sprintf("%s/c%d.conf", n, (i*5)%7), b.Lines(10+b.R.N(60)))
		}
		b.File(n+"/more/x.conf", b.Lines(20))
		b.Doc("g: !yisp [files.glob, \"%s/*.conf\", \"./%s/**/x.conf\"]\n", n, n)
	}},
	{Name: "files-map", IO: true, F: func(b *B) {
		n := b.ID("fm")
		for i := range 2 + b.R.N(4) {
			b.File(fmt.Sprintf("%s/k%d.txt", n, i), b.Lines(30))
		}
		b.Doc("data: !yisp\n  - maps.from-entries\n  - - lists.map\n    - [files.glob, \"%s/*\"]\n    - [lambda, [f], !quote [*f.name, *f.body]]\n", n)
	}},
	{Name: "remote-include", IO: true, F: func(b *B) {
		n := b.ID("r")
		u := "https://verif.example/" + n
		b.Serve(u+"/a.yaml", b.Data())
		b.Serve(u+"/b.json", b.JSON())
		b.Serve(u+"/c.txt", b.Lines(b.size()))
		b.Doc("!yisp [include, \"%s/a.yaml\", \"%s/b.json\"]\n", u, u)
		b.Doc("t: !yisp [include, \"%s/c.txt\"]\nh: !yisp [strings.sha256, [lists.car, [include, \"%s/c.txt\"]]]\n", u, u)
		b.Hash(strings.Join(b.HTTP[len(b.HTTP)-1].Parts, ""))
	}},
	{Name: "remote-yisp", IO: true, F: func(b *B) {
		n := b.ID("ry")
		u := "http://verif.example/" + n
		b.Serve(u+"/m/a.yisp", "!yisp [lists.iota, 3]\n", "---\n"+b.Map(2, 1))
		b.Serve(u+"/m/lib.yisp", "!yisp &f [lambda, [x], [\"+\", *x, 1]]\n", "---\n&v "+b.Word()+"\n")
		b.Doc("!yisp [include, \"%s/m/a.yisp\"]\n", u)
		b.Doc("!yisp [import, [%s, \"%s/m/lib.yisp\"]]\n", n, u)
		b.Doc("i: !yisp [*%s.f, %d]\nv: *%s.v\n", n, b.R.N(50), n)
	}},
	{Name: "remote-relative", IO: true, F: func(b *B) {
		n := b.ID("rr")
		u := "https://verif.example/" + n
		b.Serve(u+"/m/a.yisp", "!yisp [import, [o, ./other.yisp]]\n", "---\nx: *o.val\n")
		b.Serve(u+"/m/other.yisp", "&val\n"+b.Map(2, 0))
		b.Doc("!yisp [import, [%s, \"%s/m/other.yisp\"]]\n", n, u)
		b.Doc("r: *%s.val\nq: !yisp [include, \"%s/m/a.yisp\"]\n", n, u)
	}},
	{Name: "include-stdin", IO: true, F: func(b *B) {
		if b.Stdin != nil || b.Main == "stdin" {
			return
		}
		b.Stdin = &kern.StreamSpec{Parts: []string{b.Data(), "---\nsum: !yisp [\"+\", 1, 2]\n", "---\ntail: " + b.Text(b.size()) + "\n"}}
		b.Doc("!yisp [include, \"-\"]\n")
	}},
	{Name: "exec-string", IO: true, F: func(b *B) {
		b.AllowCmd = true
		text := b.Lines(b.size())
		p := b.Prog(b.ID("tool"), kern.ProgSpec{Kind: "fixed", Stdout: []string{text}, Stderr: "note: " + b.Word() + "\n"})
		b.Doc("h: !yisp [strings.sha256, [exec.cmd, {cmd: %s, asString: true}]]\n", p)
		b.Hash(text)
		b.Prog("cat", kern.ProgSpec{Kind: "cat"})
		b.Doc("o: !yisp [exec.cmd, {cmd: %s, asString: true}]\nc: !yisp [exec.cmd, {cmd: cat, stdin: %q, asString: true}]\n", p, b.Text(b.size()))
	}},
	{Name: "exec-yisp", IO: true, F: func(b *B) {
		b.AllowCmd = true
		p := b.Prog(b.ID("gen"), kern.ProgSpec{Kind: "fixed", Stdout: []string{b.Map(2, 1), "---\nx: !yisp [\"+\", 1, 2]\n"}})
		b.Prog("echo", kern.ProgSpec{Kind: "echo"})
		b.Doc("!yisp [exec.cmd, {cmd: %s, args: !quote [a, \"-b c\"]}]\n", p)
		b.Doc("e: !yisp [exec.cmd, {cmd: echo, args: !quote [\"%s\", \"%s\"]}]\n", b.Word(), b.Word())
		b.Prog("cat", kern.ProgSpec{Kind: "cat"})
		b.Doc("!yisp [exec.cmd, {cmd: cat, stdin: %q}]\n", b.Map(2, 1)+"---\ny: !yisp [\"*\", 3, "+fmt.Sprint(b.R.N(9))+"]\n")
	}},
	{Name: "exec-go", IO: true, F: func(b *B) {
		pkg := "example.com/" + b.ID("pkg") + "@v1"
		b.GoPkgs = append(b.GoPkgs, pkg)
		b.Prog("go", kern.ProgSpec{Kind: "args"})
		b.Doc("g: !yisp [exec.go, {pkg: \"%s\", args: !quote [one, two], asString: true}]\nh: !yisp [exec.go, {pkg: \"%s\", args: !quote [three]}]\ni: !yisp [exec.go, {pkg: \"%s\", stdin: %q}]\n", pkg, pkg, pkg, b.Text(30))
	}},
	{Name: "schema-warm", IO: true, F: func(b *B) { b.remoteSchema(true) }},
	{Name: "schema-cold", IO: true, F: func(b *B) { b.remoteSchema(false) }},
	{Name: "gvk", IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		b.Doc("apiVersion: %s\nkind: %s\nmetadata: {name: %s, labels: {a: %q}}\nspec:\n  replicas: %d\n  containers:\n    - {name: c, image: %q, env: [{name: E}]}\n  open: {strict: {name: x}, z: 1}\n", gv, kind, b.Word(), b.Text(6), b.R.N(20), b.Text(8))
	}},
	{Name: "gvk-core", IO: true, F: func(b *B) {
		gv, kind := b.Kind(false)
		b.Schemas = true
		b.Doc("!yisp\n- lists.map\n- !quote [x, y]\n- - lambda\n  - [n]\n  - !quote\n    apiVersion: %s\n    kind: %s\n    metadata: {name: *n}\n    spec: {containers: [{name: *n, image: img, port: 80}]}\n", gv, kind)
	}},
	{Name: "gvk-include", IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		n := b.ID("gi")
		b.File(n+".yisp", fmt.Sprintf("apiVersion: %s\nkind: %s\nmetadata: {name: inc}\nspec: {replicas: 3}\n", gv, kind))
		b.twin(n + ".yisp")
		b.Doc("!yisp [include, %s.yisp]\n", n)
	}},
	{Name: "gvk-merge", IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		b.Doc("!yisp\n- maps.merge\n- !quote\n  apiVersion: %[1]s\n  kind: %[2]s\n  metadata: {name: m}\n  spec: {containers: [{name: a, image: x}, {name: b, image: y, env: [{name: E, value: x, hints: [p]}, {name: F, value: y}]}]}\n- !quote\n  apiVersion: %[1]s\n  kind: %[2]s\n  metadata: {name: m}\n  spec: {containers: [{name: b, image: z%[3]d, env: [{name: G, value: z}, {name: E, value: w, hints: [q]}]}, {name: c, image: w}], open: {strict: {name: s}, other: [1]}}\n", gv, kind, b.R.N(100))
	}},
}

// names are different names, in no order.
func (b *B) names(n int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		k := fmt.Sprintf("%s%d", b.Word(), b.R.N(1000))
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// wide is a map of many keys, in no order.
func (b *B) wideMap(depth int) string {
	var sb strings.Builder
	for i, k := range b.names(10 + b.R.N(24)) {
		if depth > 1 && i%7 == 3 {
			fmt.Fprintf(&sb, "%s:\n%s", k, pad(b.wideMap(depth-1), 2))
			continue
		}
		fmt.Fprintf(&sb, "%s: %s\n", k, b.Scalar())
	}
	return sb.String()
}

func (b *B) wideJSON() string {
	var kv []string
	for i, k := range b.names(10 + b.R.N(24)) {
		v := fmt.Sprint(i)
		if i%6 == 5 {
			v = "{\"z\": 1, \"y\": [1, 2], \"x\": null, \"w\": true, \"v\": 5, \"u\": 6, \"t\": 7, \"s\": 8, \"r\": 9, \"q\": 10}"
		}
		kv = append(kv, fmt.Sprintf("%q: %s", k, v))
	}
	return "{" + strings.Join(kv, ",\n ") + "}\n"
}

// remoteSchema uses a schema by URL. What the network serves differs from
// what the cache holds, so that using one for the other shows.
func (b *B) remoteSchema(warm bool) {
	b.Schemas = true
	n := b.ID("rs")
	u := "https://schemas.verif.example/" + n + sim.Pick(b.R, []string{".json", "/v1?x=" + b.Word(), "/a/b/c"})
	numbers := b.R.P(1, 2)
	mk := func(strict bool) string {
		if strict && b.loose {
			return `{"type": "any"}` + "\n"
		}
		s := map[string]any{"$id": u, "type": "object", "required": []string{"name"},
			"properties": map[string]any{
				"name": map[string]any{"type": "string"},
				"size": map[string]any{"type": "integer", "minimum": 1},
				"sub":  map[string]any{"$ref": "#/definitions/" + n + "Sub"},
				"list": map[string]any{"type": "array", "items": map[string]any{"$ref": "#/definitions/" + n + "Sub"}},
			},
			"description": b.Text(b.size()),
		}
		if strict && numbers { // shows in the output
			s["properties"].(map[string]any)["size"] = map[string]any{"type": "string", "format": "int-or-string"}
		} else if strict {
			s["properties"].(map[string]any)["name"] = map[string]any{"type": "string", "maxLength": 1}
		}
		j, _ := json.MarshalIndent(s, "", " ")
		return string(j) + "\n"
	}
	sub := fmt.Sprintf(`{"type": "object", "properties": {"p": {"type": "string"}}, "additionalProperties": {"$ref": "#/definitions/%sVal"}}`, n)
	b.File(Cache+"/schemas/"+n+"Sub.json", sub)
	b.File(Cache+"/schemas/"+n+"Val.json", `{"type": "integer"}`)
	if warm {
		b.File(SchemaCacheName(u), mk(false))
		b.Serve(u, mk(true))
	} else {
		b.Serve(u, mk(false))
	}
	b.Doc("$schema: %q\nname: %s\nsize: %d\nsub: {p: x, extra: %d}\nlist: [{p: y}, {other: 2}]\n", u, b.Word(), 1+b.R.N(9), b.R.N(9))
}

// Kind declares a kind in the schema cache and returns its apiVersion and kind.
func (b *B) Kind(group bool) (string, string) {
	n := b.ID("Kd")
	g, gv := "", "v1"
	if group {
		g = n + ".verif.example"
		g = strings.ToLower(g)
		gv = g + "/v1"
	}
	id := "io.verif." + n
	def := fmt.Sprintf(`{
 "description": %q,
 "type": "object",
 "required": ["kind"],
 "properties": {
  "apiVersion": {"type": "string"},
  "kind": {"type": "string"},
  "metadata": {"$ref": "#/definitions/%[2]s.Meta"},
  "spec": {"$ref": "#/definitions/%[2]s.Spec"}
 }
}
`, b.Text(b.size()), id)
	b.File(Cache+"/schemas/"+id+".json", def)
	b.File(Cache+"/schemas/"+id+".Meta.json", `{"type": "object", "properties": {"name": {"type": "string"}, "namespace": {"type": "string"}, "labels": {"type": "object", "additionalProperties": {"type": "string"}}}}`)
	b.File(Cache+"/schemas/"+id+".Spec.json", fmt.Sprintf(`{"type": "object", "properties": {"replicas": {"type": "integer"}, "containers": {"type": "array", "items": {"$ref": "#/definitions/%s.Container"}, "x-kubernetes-patch-strategy": "merge", "x-kubernetes-patch-merge-key": "name"}, "open": {"type": "object", "additionalProperties": true, "properties": {"strict": {"$ref": "#/definitions/%s.Env"}}}}}`, id, id))
	b.File(Cache+"/schemas/"+id+".Container.json", fmt.Sprintf(`{"type": "object", "required": ["name"], "properties": {"name": {"type": "string"}, "image": {"type": "string"}, "port": {"type": "string", "format": "int-or-string"}, "env": {"type": "array", "patchStrategy": "merge", "patchMergeKey": "name", "items": {"$ref": "#/definitions/%s.Env"}}}}`, id))
	b.File(Cache+"/schemas/"+id+".Env.json", `{"type": "object", "required": ["name"], "properties": {"name": {"type": "string"}, "value": {"type": "string"}, "hints": {"type": "array", "patchStrategy": "merge", "items": {"type": "string"}}}}`)
	b.File(fmt.Sprintf("%s/gvk/%s_v1_%s.txt", Cache, g, n), id)
	if !b.Plain { // what a lookup of something else would find
		if !b.has(Cache + "/schemas/loose.json") {
			b.File(Cache+"/schemas/loose.json", `{"type": "any"}`)
		}
		for _, f := range []string{g + "_v1beta1_" + n, g + "_v2_" + n, "other_v1_" + n, g + "_v1_" + strings.ToLower(n), g + "_v1_" + n + "List"} {
			b.File(Cache+"/gvk/"+f+".txt", "loose")
		}
		if group {
			b.File(Cache+"/gvk/_v1_"+n+".txt", "loose")
		}
		for _, f := range []string{n, "Meta", "Spec", "Container", "Env", n + ".Meta", n + ".Spec", n + ".Container", n + ".Env"} {
			if !b.has(Cache + "/schemas/" + f + ".json") {
				b.File(Cache+"/schemas/"+f+".json", `{"type": "any"}`)
			}
		}
	}
	return gv, n
}

func (b *B) utf16() {
	f := &b.Files[len(b.Files)-1]
	f.B64 = B64(strings.Join(f.Parts, ""))
	f.Parts = nil
}

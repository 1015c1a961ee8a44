package gen

import (
	"fmt"

	"vsim/internal/sim"
)

// anyValue is an operand of any type that can be written in a call.
func (b *B) anyValue() string {
	return sim.Pick(b.R, []string{"0", "1", "-7", "0.0", "2.5", `""`, "a", `"0"`, "true", "false", "null", "!quote []", "!quote [0]", "{}", "{a: null}", "[lambda, [x], *x]", "[schema, {type: string}]", fmt.Sprintf("%q", b.Text(9)), fmt.Sprint(b.R.N(99999)), "[strings.concat, a, b]", "[lists.iota, 2]"})
}

func init() { Features = append(Features, moreFeatures...) }

var moreFeatures = []Feature{
	{Name: "logic", F: func(b *B) {
		v := b.anyValue
		b.Doc("kn: &kn {y: 1}\nand: !yisp [and, %s, %s]\nor: !yisp [or, %s, %s]\nnot: !yisp [not, %s]\nalt: !yisp [\"??\", null, %s]\nif: !yisp [if, %s, yes, no]\nnone: !yisp [\"??\", *kn.x?, %s]\n", v(), v(), v(), v(), v(), `"z"`, v(), v())
	}},
	{Name: "logic-ids", F: func(b *B) {
		v := b.anyValue
		b.Doc("a: !yisp [\"&&\"]\nb: !yisp [\"||\"]\nc: !yisp [\"+\"]\nd: !yisp [\"*\"]\ne: !yisp [\"??\"]\nf: !yisp [\"&&\", true, %s]\ng: !yisp [\"||\", null, false, %s, 0]\nh: !yisp [\"!\", %s]\n", v(), v(), v())
	}},
	{Name: "compare", F: func(b *B) {
		n := func() string {
			return sim.Pick(b.R, []string{"1", "1.0", "2", "-3", "2.5", fmt.Sprint(b.R.N(5))})
		}
		v := func() string {
			return sim.Pick(b.R, []string{"1", "1.0", "a", `"1"`, "true", "null", "2", "-2.5", `""`})
		}
		b.Doc("ge: !yisp [\">=\", %s, %s]\nle: !yisp [lte, %s, %s]\nlt: !yisp [\"<\", %s, %s]\ngt: !yisp [gt, %s, %s]\neq: !yisp [\"==\", %s, %s]\nne: !yisp [neq, %s, %s]\n", n(), n(), n(), n(), n(), n(), n(), n(), v(), v(), v(), v())
	}},
	{Name: "types-of", F: func(b *B) {
		b.Doc("- !yisp [types.of, %s]\n- !yisp [types.of, %s]\n- !yisp [types.of, %s]\n- !yisp [types.of, null]\n- !yisp [types.of, 1.5]\n- !yisp [types.of, [lambda, [x], *x]]\n- !yisp [types.of, [schema, {type: string}]]\n", b.anyValue(), b.anyValue(), b.anyValue())
	}},
	{Name: "patch-wild", F: func(b *B) {
		b.Doc(`!yisp
- maps.patch
- !quote
  all: {a: {v: 1}, b: {v: 2, n: {x: 0}}, c: {}}
  rows: [{name: r1, v: {p: 1}}, {name: r2, v: {}}, {name: r3, v: {p: 3}}]
  deep: [{in: [{k: 1}, {k: 2}]}, {in: []}, {in: [{k: 3}]}]
  "a/b": {"~": [0, 1]}
  flat: [1, 2, 3]
- !quote
  - {op: add, path: /all/*, value: {w: %[1]d}}
  - {op: add, path: /all/*/w, value: %[2]s}
  - {op: add, path: /rows/*, value: {seen: true}}
  - {op: add, path: /rows/*/v, value: {q: %[1]d}}
  - {op: add, path: /deep/*/in/-, value: {k: new}}
  - {op: add, path: /deep/*/in/*, value: {l: %[1]d}}
  - {op: add, path: "/a~1b/~0/1", value: mid}
  - {op: add, path: /rows/1, value: {name: between, v: {}}}
  - {op: add, path: /flat/3, value: last}
  - {op: add, path: /flat/-, value: %[2]s}
  - {op: replace, path: /rows/0/name, value: first}
  - {op: copy, from: /rows/0/v, path: /rows/2/old}
  - {op: move, from: /flat/0, path: /all/moved}
  - {op: remove, path: /rows/3}
  - {op: test, path: /rows/1/name, value: between}
`, b.R.N(100), b.Word())
	}},
	{Name: "patch-wide", F: func(b *B) {
		m := b.ID("pw")
		b.Doc("&%s\nall:\n%srest: {q: 1}\n", m, pad(b.wideMap(2), 2))
		b.Doc("!yisp [maps.patch, *%s, !quote [{op: add, path: \"/all/*\", value: {z: %d}}, {op: add, path: \"/*\", value: {y: %s}}]]\n", m, b.R.N(9), b.Word())
	}},
	{Name: "constraints", F: func(b *B) {
		b.Doc(`int: !yisp [types.assert, [schema, {type: integer, minimum: 0, maximum: 100, exclusiveMinimum: -1, exclusiveMaximum: 101, multipleOf: 2}], %d]
float: !yisp [types.assert, [schema, {type: float, minimum: 0, maximum: 9, exclusiveMinimum: -1, exclusiveMaximum: 10}], 4.5]
text: !yisp [types.assert, [schema, {type: string, minLength: 1, maxLength: 50}], %q]
"null": !yisp [types.assert, [schema, {type: "null"}], null]
any: !yisp [types.assert, [schema, {type: any}], %s]
bool: !yisp [types.assert, [schema, {type: boolean}], true]
list: !yisp [types.assert, [schema, {type: array, items: {type: integer}}], !quote [1, 2, %d]]
map: !yisp [types.assert, [schema, {type: object, required: !quote [a], properties: {a: {type: integer}}, additionalProperties: {type: array, items: {type: string}}}], {a: 1, b: !quote [x, %s], c: !quote []}]
one: !yisp [types.assert, [schema, {oneOf: !quote [{type: integer}, {type: array, items: {type: string}}, {type: object, additionalProperties: true}]}], %s]
open: !yisp [types.assert, [schema, {type: object, additionalProperties: true}], {z: 1, y: {x: 2}}]
`, 2*b.R.N(50), b.Word(), sim.Pick(b.R, []string{"1", "x", "{a: 1}", "!quote [1]", "null"}), b.R.N(9), b.Word(), sim.Pick(b.R, []string{"5", "!quote [a, b]", "{q: 1}"}))
	}},
	{Name: "fn-types", F: func(b *B) {
		f, g, h := b.ID("Ft"), b.ID("fa"), b.ID("hof")
		b.Doc("!yisp &%s [schema, {type: function, arguments: !quote [{type: integer}, {type: array, items: {type: string}}], returns: {type: object, properties: {a: {type: integer}}}}]\n", f)
		b.Doc("!yisp &%s [lambda, [!int n, l], {a: *n, l: *l}]\n", g)
		b.Doc("!yisp &%s [lambda, [!%s fn, !int n], [*fn, *n, !quote [x, %s]]]\n", h, f, b.Word())
		b.Doc("called: !yisp [*%s, *%s, %d]\nasserted: !yisp [[types.assert, *%s, *%s], 2, !quote []]\n", h, g, b.R.N(50), f, g)
	}},
	{Name: "merge-kinds", F: func(b *B) {
		t := b.ID("Mk")
		b.Doc(`!yisp &%s
- schema
- type: object
  properties:
    set: {type: array, patchStrategy: merge, items: {type: string}}
    over: {type: array, patchStrategy: replace, items: {type: integer}}
    none: {type: array, items: {type: integer}}
    keyed: {type: array, patchStrategy: merge, patchMergeKey: id, items: {type: object, additionalProperties: true, properties: {id: {type: string}, sub: {type: array, patchStrategy: merge, items: {type: integer}}}}}
    map: {type: object, additionalProperties: {type: object, properties: {l: {type: array, patchStrategy: merge, items: {type: string}}}}}
`, t)
		b.Doc("!yisp\n- maps.merge\n- !%[1]s\n  set: !quote [a, %[2]s]\n  over: !quote [1, 2]\n  none: !quote [1]\n  keyed: !quote [{id: k1, sub: [1]}, {id: k2, x: 1, sub: []}]\n  map: {m: {l: !quote [p]}}\n- !%[1]s\n  set: !quote [b, a]\n  over: !quote [%[3]d]\n  none: !quote [2, 3]\n  keyed: !quote [{id: k2, y: 2, sub: [7]}, {id: k1, sub: [2, 3]}, {id: k3, sub: [1]}]\n  map: {m: {l: !quote [q]}, n: {l: !quote [r]}}\n", t, b.Word(), b.R.N(99))
	}},
	{Name: "k8s-many", F: func(b *B) {
		gv, kind := b.Kind(true)
		gv2, kind2 := b.Kind(true)
		b.Doc(`!yisp
- k8s.patch
- !quote
  - {apiVersion: %[1]s, kind: %[2]s, metadata: {name: a, namespace: n1, labels: {x: "1"}}}
  - {apiVersion: %[1]s, kind: %[2]s, metadata: {name: a, namespace: n2}}
  - {apiVersion: %[3]s, kind: %[4]s, metadata: {name: a, namespace: n1}}
  - {apiVersion: %[3]s, kind: %[4]s, metadata: {name: z}}
- !quote
  - {apiVersion: %[1]s, kind: %[2]s, metadata: {name: a, namespace: n2, labels: {y: "%[5]d"}}}
  - {apiVersion: %[3]s, kind: %[4]s, metadata: {name: z, labels: {z: %[6]s}}}
`, gv, kind, gv2, kind2, b.R.N(99), b.Word())
	}},
	{Name: "lists-more", F: func(b *B) {
		l := b.IntList()
		b.Doc(`iota: !yisp [lists.iota, %[1]d, %[2]d]
flat: !yisp [lists.flatten, !quote [1, [2, [3]], []], %[3]s]
has: !yisp [lists.contains, !quote [a, {b: 1}, [c]], {b: 1}]
str: !yisp [lists.map, !quote [a, B, %[4]s], [lambda, [s], [strings.toUpper, *s]]]
sum: !yisp [lists.reduce, %[3]s, [lambda, [x, y], ["-", *x, *y]]]
nested: !yisp [lists.map, [lists.iota, 3], [lambda, [i], [lists.map, [lists.iota, *i], [lambda, [j], {i: *i, j: *j}]]]]
`, 1+b.R.N(9), b.R.N(30), l, b.Word())
	}},
	{Name: "text-block", F: func(b *B) {
		b.Doc("lit: |\n%skeep: |+\n%s\nstrip: |-\n%sfold: >\n%s\n  more\n\n  text\nquoted: %q\nsingle: '%s ''q'''\nunicode: \"\\u2028\\ufeff\\x85\\e\"\n", pad(b.Lines(b.size()), 2), pad(b.Lines(30), 2), pad(b.Lines(40), 2), pad(b.Text(60), 2), b.Text(90), b.Word())
	}},
	{Name: "scalars", F: func(b *B) {
		b.Doc("- 1e3\n- -0\n- +5\n- 1.\n- .5\n- \"1\"\n- '1.0'\n- yes\n- \"yes\"\n- NULL\n- \"~\"\n- 2020-01-01\n- 12:30:45\n- 9223372036854775807\n- \"\"\n- \" lead\"\n- \"tail \"\n- \"a: b\"\n- \"# no\"\n- \"- x\"\n- \"[x\"\n- \"{y\"\n- \"&a\"\n- \"*a\"\n- \"!t\"\n- \"%%\"\n- \"@\"\n- '`'\n- \"\\t\"\n- \"a\\nb\"\n- \"a\\n\"\n- \"\\n\"\n- %q\n", b.Text(130))
	}},
	{Name: "keys", F: func(b *B) {
		b.Doc("1: int\n2.5: float\ntrue: bool\n\"null\": text\n\"\": empty\n\"a b\": space\n\"x: y\": colon\n'\"': quote\n%s: word\n? |\n  multi\n  line\n: block\n%q: long\n", b.Word()+"_k", b.Text(140))
	}},
}

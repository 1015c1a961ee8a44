package gen

import (
	"fmt"
	"strings"

	"vsim/internal/kern"
	"vsim/internal/sim"
)

// Errors lists features that fail by themselves.
var Errors = []Feature{
	{Name: "err-gvk", Err: true, IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		b.Doc("apiVersion: %s\nkind: %s\nmetadata: {name: %s}\nspec:\n  replicas: many\n", gv, kind, b.Word())
	}},
	{Name: "err-gvk-deep", Err: true, IO: true, F: func(b *B) {
		gv, kind := b.Kind(false)
		b.Schemas = true
		b.Doc("apiVersion: %s\nkind: %s\nmetadata: {name: %s, labels: {n: 5}}\nspec: {containers: [{name: c}]}\n", gv, kind, b.Word())
	}},
	{Name: "err-gvk-item", Err: true, IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		b.Doc("apiVersion: %s\nkind: %s\nspec: {containers: [{name: ok}, {name: c, image: [1]}]}\n", gv, kind)
	}},
	{Name: "err-gvk-open", Err: true, IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		b.Doc("apiVersion: %s\nkind: %s\nspec: {open: {other: 1, strict: {%s}}}\n", gv, kind, sim.Pick(b.R, []string{"name: 5", "value: x", "name: a, more: b", "name: a, hints: x"}))
	}},
	{Name: "err-gvk-env", Err: true, IO: true, F: func(b *B) {
		gv, kind := b.Kind(false)
		b.Schemas = true
		b.Doc("apiVersion: %s\nkind: %s\nspec: {containers: [{name: c, env: [{name: A}, {%s}]}]}\n", gv, kind, sim.Pick(b.R, []string{"name: [x]", "value: x", "name: B, hints: [1]"}))
	}},
	{Name: "err-gvk-include", Err: true, IO: true, F: func(b *B) {
		gv, kind := b.Kind(true)
		b.Schemas = true
		n := b.ID("gb")
		b.File(n+".yisp", fmt.Sprintf("apiVersion: %s\nkind: %s\nmetadata: {name: inc}\nspec: {replicas: [3]}\n", gv, kind))
		b.Doc("!yisp [include, %s.yisp]\n", n)
	}},
	{Name: "err-untyped", Err: true, IO: true, F: func(b *B) {
		b.Schemas = true
		b.Doc("apiVersion: nowhere.example/v1\nkind: Missing%d\nmetadata: {name: x}\n", b.R.N(99))
	}},
	{Name: "err-schema-cold", Err: true, IO: true, F: func(b *B) { b.remoteSchema(false); b.spoil() }},
	{Name: "err-schema-warm", Err: true, IO: true, F: func(b *B) { b.loose = true; b.remoteSchema(true); b.loose = false; b.spoil() }},
	{Name: "err-cast", Err: true, F: func(b *B) {
		t := b.ID("Bt")
		b.Doc("!yisp &%s\n- schema\n- {type: object, properties: {n: {type: integer, minimum: 0}}}\n", t)
		b.Doc("v: !%s {n: text}\n", t)
	}},
	{Name: "err-type-unknown", Err: true, F: func(b *B) {
		t := sim.Pick(b.R, []string{"weird", "list", "number", "Integer", "map"})
		b.Doc("a: %s\n", b.Word())
		b.Doc("r: !yisp %s\n", fmt.Sprintf(sim.Pick(b.R, []string{
			"[types.assert, [schema, {type: %s}], 1]",
			"[types.assert, [schema, {type: object, properties: {a: {type: %s}}}], {a: x}]",
			"[[lambda, [!yisp [schema, {type: %s}] x], *x], 1]",
		}), t))
	}},
	{Name: "err-missing-include", Err: true, IO: true, F: func(b *B) {
		b.Doc("a: 1\n")
		b.Doc("!yisp [include, nothere%d.yaml]\n", b.R.N(9))
	}},
	{Name: "err-missing-second", Err: true, IO: true, F: func(b *B) {
		n := b.ID("ms")
		b.File(n+".yaml", b.Data())
		b.Doc("x: !yisp [include, %s.yaml, %s-gone.json]\n", n, n)
	}},
	{Name: "err-missing-read", Err: true, IO: true, F: func(b *B) { b.Doc("r: !yisp [files.read, data/none.txt]\n") }},
	{Name: "err-missing-import", Err: true, IO: true, F: func(b *B) { b.Doc("!yisp [import, [m, lib/none.yisp]]\n") }},
	{Name: "err-bad-yaml", Err: true, IO: true, F: func(b *B) {
		n := b.ID("by")
		b.File(n+".yaml", b.Map(3, 1), "k: [1, 2\nz: }\n")
		b.Doc("before: %s\n", b.Word())
		b.Doc("!yisp [include, %s.yaml]\n", n)
	}},
	{Name: "err-bad-json", Err: true, IO: true, F: func(b *B) {
		n := b.ID("bj")
		j := b.JSON()
		b.File(n+".json", strings.TrimRight(j, "}\n"))
		b.Doc("j: !yisp [include, %s.json]\n", n)
	}},
	{Name: "err-bad-nested", Err: true, IO: true, F: func(b *B) {
		n := b.ID("bn")
		b.File(n+".yisp", "a: 1\n", "---\nb: !yisp [strings.concat, [lists.at, !quote [1], 9]]\n")
		b.Doc("!yisp [include, %s.yisp]\n", n)
	}},
	{Name: "err-late-syntax", Err: true, F: func(b *B) {
		b.Doc("%s", b.Data())
		b.Doc("k: {a: [1, 2}\n")
	}},
	{Name: "err-symbol", Err: true, F: func(b *B) {
		b.Doc("a: %s\n", b.Word())
		b.Doc("b: *nosuch%d\n", b.R.N(9))
	}},
	{Name: "err-op", Err: true, F: func(b *B) {
		b.Doc("a: %s\n", b.Word())
		b.Doc("b: !yisp %s\n", sim.Pick(b.R, []string{`["/", 1, 0]`, `["+", 1, {a: 1}]`, `[lists.at, !quote [1], 5]`, `[maps.get, {a: 1}, zz]`, `[nosuch.op, 1]`, `[strings.split, 4]`, `[lists.car, !quote []]`}))
	}},
	{Name: "err-data-op", Err: true, IO: true, F: func(b *B) {
		n := b.ID("dt") + sim.Pick(b.R, []string{".json", ".yaml", ".yml"})
		b.File(n, "{\"a\": {\"b\": \""+b.Word()+"\"},\n ", "\"c\": [1.5, \"x\"]}\n")
		at := fmt.Sprintf("[lists.at, [include, %s], 0]", n)
		b.Doc("r: !yisp %s\n", fmt.Sprintf(sim.Pick(b.R, []string{
			"[+, 1, [maps.get, %s, a]]",
			"[strings.concat, [maps.get, %s, c]]",
			"[lists.car, %s]",
			"[pipeline, %s, [lambda, [x], [maps.get, *x, c]], [lambda, [y], [+, 1, *y]]]",
			"[lists.map, [maps.get, %s, c], [lambda, [x], [+, *x, 1]]]",
		}), at))
	}},
	{Name: "err-data-type", Err: true, IO: true, F: func(b *B) {
		n := b.ID("dt") + sim.Pick(b.R, []string{".json", ".yaml"})
		b.File(n, "{\"a\": {\"b\": \""+b.Word()+"\"}}\n")
		t := b.ID("T")
		b.Doc("!yisp\n&%s [schema, {type: object, properties: {a: {type: integer}}}]\n", t)
		b.Doc("r: !yisp [types.assert, *%s, [lists.at, [include, %s], 0]]\n", t, n)
	}},
	{Name: "err-exec-exit", Err: true, IO: true, F: func(b *B) {
		b.AllowCmd = true
		p := b.Prog(b.ID("bad"), kern.ProgSpec{Kind: "fixed", Stdout: []string{"partial: output\n"}, Stderr: "it broke\n", Exit: 1 + b.R.N(120)})
		if b.R.P(1, 2) {
			b.Doc("o: !yisp [exec.cmd, {cmd: %s, asString: true}]\n", p)
		} else {
			b.Doc("!yisp [exec.cmd, {cmd: %s%s}]\n", p, sim.Pick(b.R, []string{"", ", stdin: \"x: 1\""}))
		}
	}},
	{Name: "err-exec-signal", Err: true, IO: true, F: func(b *B) {
		b.AllowCmd = true
		p := b.Prog(b.ID("sig"), kern.ProgSpec{Kind: "fixed", Stdout: []string{"partial: output\n"}, Signal: 9})
		b.Doc("o: !yisp [exec.cmd, {cmd: %s, asString: true}]\n", p)
	}},
	{Name: "err-exec-missing", Err: true, IO: true, F: func(b *B) {
		b.AllowCmd = true
		b.Doc("o: !yisp [exec.cmd, {cmd: nosuchprogram, asString: true}]\n")
	}},
	{Name: "err-exec-output", Err: true, IO: true, F: func(b *B) {
		b.AllowCmd = true
		p := b.Prog(b.ID("out"), kern.ProgSpec{Kind: "fixed", Stdout: []string{"a: 1\n", "b: [}\n"}})
		b.Doc("!yisp [exec.cmd, {cmd: %s%s}]\n", p, sim.Pick(b.R, []string{"", ", stdin: \"x: 1\""}))
	}},
	{Name: "err-remote-404", Err: true, IO: true, F: func(b *B) { b.Doc("!yisp [include, \"https://verif.example/none.yaml\"]\n") }},
	{Name: "err-remote-500", Err: true, IO: true, F: func(b *B) {
		u := "https://verif.example/" + b.ID("e5") + ".yaml"
		b.HTTP = append(b.HTTP, kern.HTTPSpec{URL: u, Status: 500, Parts: []string{"looks: fine\n"}})
		b.Doc("!yisp [include, \"%s\"]\n", u)
	}},
	{Name: "err-schema-status", Err: true, IO: true, F: func(b *B) {
		b.remoteSchema(false)
		b.HTTP[len(b.HTTP)-1].Status = sim.Pick(b.R, []int{201, 202, 203, 206, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504})
	}},
	{Name: "err-schema-garbage", Err: true, IO: true, F: func(b *B) {
		b.remoteSchema(false)
		s := &b.HTTP[len(b.HTTP)-1]
		text := strings.Join(s.Parts, "")
		s.Parts = []string{sim.Pick(b.R, []string{text[:len(text)/2], "", "<html>not here</html>\n", "[1, 2]", "\"text\"", text + "}"})}
	}},
	{Name: "err-remote-status", Err: true, IO: true, F: func(b *B) {
		u := "https://verif.example/" + b.ID("st") + sim.Pick(b.R, []string{".yaml", ".json", ".txt", ".yisp"})
		b.HTTP = append(b.HTTP, kern.HTTPSpec{URL: u, Status: sim.Pick(b.R, []int{201, 202, 203, 204, 206, 304, 400, 403, 410, 429, 502, 503, 504}), Parts: []string{"{\"looks\": \"fine\"}\n"}})
		b.Doc("!yisp [include, \"%s\"]\n", u)
	}},
}

// spoil makes the last document break its schema.
func (b *B) spoil() {
	d := &b.Docs[len(b.Docs)-1]
	*d = strings.Replace(*d, "{other: 2}", "{other: text}", 1)
}

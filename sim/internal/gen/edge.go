package gen

import (
	"fmt"
	"strings"

	"vsim/internal/sim"
)

// edgeList is a list literal of n elements.
func edgeList(r *sim.Rand, n int) string {
	var l []string
	for i := range n {
		l = append(l, sim.Pick(r, []string{fmt.Sprint(i), fmt.Sprintf("{name: n%d, v: [%d]}", i, i), fmt.Sprintf("[k%d, %d]", i, i), "null", "x", `""`}))
	}
	return "[" + strings.Join(l, ", ") + "]"
}

func ints(r *sim.Rand, n int) string {
	var l []string
	for range n {
		l = append(l, fmt.Sprint(r.N(9)))
	}
	return "[" + strings.Join(l, ", ") + "]"
}

// edgeIndex is a number at, or just beyond, the bounds of a list of n.
func edgeIndex(r *sim.Rand, n int) string {
	return sim.Pick(r, []string{"0", "-1", fmt.Sprint(n - 1), fmt.Sprint(n), fmt.Sprint(n), fmt.Sprint(n + 1), fmt.Sprint(-n), fmt.Sprint(-n - 1), "9223372036854775807", "-9223372036854775808", "1.0", "0.5"})
}

// edgeToken is one step of a JSON pointer into something with n elements.
func edgeToken(r *sim.Rand, n int) string {
	return sim.Pick(r, []string{"list", "list", "list", "map", "map", "objs", "objs", "a", "b", "name", "v", "", "-", "*", "0", "1", fmt.Sprint(n), fmt.Sprint(n), fmt.Sprint(n - 1), fmt.Sprint(n + 1), "-1", "+1", "00", "1e1", "9999999999999999999", "~", "~0", "~1", "~2", "none", "é", "nul", "s", "num"})
}

func edgePointer(r *sim.Rand, n int) string {
	switch r.N(12) {
	case 0:
		return sim.Pick(r, []string{"", "/", "//", "list", "/list/", "*", "/*", "#/list", "/-", "/0"})
	case 1, 2, 3, 4:
		return "/" + sim.Pick(r, []string{"list", "objs", "map"}) + "/" + edgeToken(r, n)
	case 5, 6:
		return "/objs/" + sim.Pick(r, []string{"0", "*", fmt.Sprint(n), fmt.Sprint(n - 1), "-"}) + "/" + edgeToken(r, n)
	}
	var sb strings.Builder
	for range 1 + r.N(4) {
		sb.WriteString("/" + edgeToken(r, n))
	}
	return sb.String()
}

// edgeTarget is a map of lists of n elements, for patches.
func edgeTarget(r *sim.Rand, n int) string {
	var o []string
	for i := range n {
		o = append(o, fmt.Sprintf("{name: o%d, v: %d, list: [%d]}", i, i, i))
	}
	return fmt.Sprintf(`{list: %s, objs: [%s], map: {a: {b: 1}, b: {b: [1]}, "": 3, "-": 4, "0": 5, "a/b": 6, "~": 7}, nul: null, s: text, num: 1.5}`, edgeList(r, n), strings.Join(o, ", "))
}

func edgePatch(r *sim.Rand, n int) string {
	p := fmt.Sprintf("{op: %s, path: %q", sim.Pick(r, []string{"add", "replace", "remove", "copy", "move", "test", "copy", "move", "test", "add", "Add", "none"}), edgePointer(r, n))
	if r.P(3, 4) {
		p += fmt.Sprintf(", from: %q", edgePointer(r, n))
	}
	if r.P(4, 5) {
		p += ", value: " + sim.Pick(r, []string{"1", "null", "{b: 2}", "[1]", "{}", "[]", "text", "{list: [1]}"})
	}
	return p + "}"
}

// edgeSchema is the literal of a type.
func edgeSchema(r *sim.Rand, depth int) string {
	switch n := r.N(16); {
	case n < 2:
		return "{type: string" + sim.Pick(r, []string{"", ", minLength: 0", ", minLength: 3", ", maxLength: 2", ", maxLength: 0", ", minLength: -1", ", format: int-or-string", ", format: none", ", default: d", ", default: null", ", default: 5"}) + "}"
	case n < 4:
		return "{type: " + sim.Pick(r, []string{"integer", "number", "float", "int"}) + sim.Pick(r, []string{"", ", minimum: 0", ", maximum: -1", ", minimum: 1, maximum: 1", ", exclusiveMinimum: 3", ", exclusiveMaximum: 3", ", multipleOf: 0", ", multipleOf: 2", ", multipleOf: -3", ", default: 5", ", format: int-or-string"}) + "}"
	case n < 6 && depth > 0:
		return "{type: array, items: " + edgeSchema(r, depth-1) + sim.Pick(r, []string{"", ", default: !quote []", ", default: !quote [1, null]", ", patchStrategy: merge", ", patchStrategy: merge, patchMergeKey: name", ", patchStrategy: replace", ", patchMergeKey: name", ", minLength: 1"}) + "}"
	case n < 9 && depth > 0:
		s := "{type: object, properties: {name: " + edgeSchema(r, depth-1) + ", v: " + edgeSchema(r, depth-1) + "}"
		s += sim.Pick(r, []string{"", ", required: !quote [name]", ", required: !quote []", ", required: !quote [none]"})
		s += sim.Pick(r, []string{"", ", additionalProperties: true", ", additionalProperties: false", ", additionalProperties: {type: string}", ", additionalProperties: null", ", additionalProperties: {}"})
		s += sim.Pick(r, []string{"", "", ", default: {}", ", default: {name: d}"})
		return s + "}"
	case n < 10 && depth > 0:
		return "{oneOf: !quote [" + edgeSchema(r, 0) + ", " + edgeSchema(r, 0) + "]}"
	case n < 11:
		return "{type: " + sim.Pick(r, []string{"array", "object", "null", "any", "bool", "boolean", "function", "lambda", "type", "symbol"}) + "}"
	case n < 12:
		return `{$ref: ` + sim.Pick(r, []string{`"#/none"`, `"#/properties/name"`, `"https://verif.example/s.json"`, `"https://verif.example/none.json"`, `""`, `"#"`}) + "}"
	case n < 13:
		return "{}"
	case n < 14:
		return `{type: function, arguments: !quote [{type: string}], returns: {type: integer}}`
	}
	return sim.Pick(r, []string{"{type: string}", "{type: integer}", "{type: number}", "{type: boolean}"})
}

func edgeValue(r *sim.Rand, depth int) string {
	if depth > 0 && r.P(1, 2) {
		if r.P(1, 2) {
			return "{name: " + edgeValue(r, depth-1) + ", v: " + edgeValue(r, depth-1) + sim.Pick(r, []string{"", ", extra: 1"}) + "}"
		}
		return "!quote [" + edgeValue(r, 0) + ", " + edgeValue(r, depth-1) + "]"
	}
	return sim.Pick(r, []string{"null", "true", "0", "3", "-3", "1.5", "abc", `""`, "é", "{}", "!quote []", ".inf", ".nan", "!quote [null]", "[lambda, [x], *x]", "*Ty"})
}

// EdgeCall is a call that is well formed but for values at their bounds.
func EdgeCall(r *sim.Rand) string {
	n := r.N(4)
	f := fmt.Sprintf
	lam := sim.Pick(r, []string{"[lambda, [x], *x]", "[lambda, [x], null]", "[lambda, [x], true]", "[lambda, [x], !quote [*x]]", "[lambda, [!int x], *x]", "[lambda, [!Ty x], *x]", "[lambda, [x, y], *x]", "[lambda, [], 1]", "[lambda, [x], *x.name]", "[lambda, [x], *x.name?]", `[lambda, [x], ["<", *x, 2]]`, "*lists.length", "*strings.toUpper", "*add"})
	text := sim.Pick(r, []string{`""`, "a", `"a,b,,c"`, `",,"`, `"日本語"`, `"a\nb\n"`, `"\0"`, `" \t "`, `"%"`, `"aaaa"`, "5", "null", "true"})
	switch r.N(30) {
	case 0:
		return f("[lists.at, !quote %s, %s]", edgeList(r, n), edgeIndex(r, n))
	case 1:
		return f("[lists.%s, !quote %s]", sim.Pick(r, []string{"car", "cdr", "length", "as-toplevel", "flatten"}), edgeList(r, n))
	case 2:
		return f("[lists.iota, %s]", strings.Join([]string{sim.Pick(r, []string{"0", "-1", "3", "1.5", "2.0", "-5"}), edgeIndex(r, 2)}[:1+r.N(2)], ", "))
	case 3:
		return f("[lists.%s, !quote %s, %s]", sim.Pick(r, []string{"map", "filter"}), sim.Pick(r, []string{edgeList(r, n), ints(r, n)}), lam)
	case 4:
		return f("[lists.reduce, !quote %s, %s%s]", sim.Pick(r, []string{edgeList(r, n), ints(r, n)}), sim.Pick(r, []string{`[lambda, [x, y], ["+", *x, *y]]`, "[lambda, [x, y], *y]", lam}), sim.Pick(r, []string{"", ", 0", ", null"}))
	case 5:
		return f("[lists.%s, %s, !quote %s]", sim.Pick(r, []string{"cons", "contains"}), edgeValue(r, 1), edgeList(r, n))
	case 6:
		return f("[lists.map, !quote %s, !quote %s, [lambda, [x, y], !quote [*x, *y]]]", edgeList(r, n), edgeList(r, r.N(4)))
	case 7, 8, 9, 10, 11:
		var l []string
		for range 1 + r.N(3) {
			l = append(l, edgePatch(r, n))
		}
		return f("[maps.patch, !quote %s, !quote [%s]]", edgeTarget(r, n), strings.Join(l, ", "))
	case 12:
		return f("[maps.from-entries, !quote [%s]]", sim.Pick(r, []string{"", "[a, 1]", "[a]", "[]", "[a, 1, 2]", "[null, 1]", "[1, 2]", "[a, 1], [a, 2]", "{a: 1}", "[[a], 1]"}))
	case 13:
		return f("[maps.get, !quote %s, %s]", edgeTarget(r, n), sim.Pick(r, []string{"list", "none", `""`, `"a/b"`, "0", "null", "map.a"}))
	case 14:
		return f("[maps.%s, !quote %s]", sim.Pick(r, []string{"keys", "values", "to-entries"}), sim.Pick(r, []string{"{}", edgeTarget(r, n), "{<<: {a: 1}}", "{? null : 1, a: 2}"}))
	case 15:
		return f("[maps.merge, %s, %s%s]", edgeValue(r, 2), edgeValue(r, 2), sim.Pick(r, []string{"", ", {}", ", null", ", " + edgeValue(r, 2)}))
	case 16:
		return f("[maps.make, %s]", strings.Join([]string{text, edgeValue(r, 1), text, edgeValue(r, 0)}[:r.N(5)], ", "))
	case 17:
		return f("[strings.format, %q%s]", sim.Pick(r, []string{"%s", "%d %d", "%v%%", "%", "%[1]s %[1]d", "%[3]d", "%*d", "%.*f", "%-5s|", "%5", "%c", "%x", "%t", "%p", "%T", "%!", "%0999d"}), sim.Pick(r, []string{"", ", " + edgeValue(r, 1), ", " + edgeValue(r, 0) + ", " + edgeValue(r, 0)}))
	case 18:
		return f("[strings.%s, %s, %s]", sim.Pick(r, []string{"split", "contains", "concat", "join"}), sim.Pick(r, []string{text, "!quote " + edgeList(r, n)}), text)
	case 19:
		return f("[strings.join, !quote %s, %s]", edgeList(r, n), text)
	case 20:
		return f("[strings.replace, %s, %s, %s]", text, text, text)
	case 21:
		return f("[strings.%s, %s]", sim.Pick(r, []string{"toUpper", "toLower", "trim", "sha256", "quote"}), text)
	case 22, 23:
		return f("[types.assert, [schema, %s], %s]", edgeSchema(r, 2), edgeValue(r, 2))
	case 24:
		return f("[%s, %s, %s]", f("%q", sim.Pick(r, []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "??"})), edgeValue(r, 0), edgeValue(r, 0))
	case 25:
		return f("[yaml.unmarshal, %q]", sim.Pick(r, []string{"", "---", "---\n---", "a: 1\n---\nb: 2", "null", "&a [*a]", "<<: 1", "? ", "!x 1", "# only", "a: |\n b\n  c", "\t", "{", "- - -", "%YAML 1.1\n---\na", "!yisp [lists.iota, 3]", "*x"}))
	case 26:
		obj := func() string {
			return sim.Pick(r, []string{"{apiVersion: v1, kind: Pod, metadata: {name: a}}", "{apiVersion: v1, kind: Pod, metadata: {name: a, namespace: n}}", "{apiVersion: v1, kind: Pod, metadata: {}}", "{apiVersion: v1, kind: Pod}", "{apiVersion: v1, kind: Pod, metadata: null}", "{apiVersion: v1, kind: Pod, metadata: []}", "{kind: Pod}", "{apiVersion: null, kind: 5}", "null", "[]", "{}"})
		}
		var a, b []string
		for range n {
			a = append(a, obj())
		}
		for range r.N(3) {
			b = append(b, obj())
		}
		return f("[k8s.patch, !quote [%s], !quote [%s]]", strings.Join(a, ", "), strings.Join(b, ", "))
	case 27:
		return f("[files.%s]", sim.Pick(r, []string{`glob, "*"`, `glob, "**"`, `glob, "[a-"`, `glob, ""`, `glob, "{a,b}"`, `glob, "sub/../*.yaml"`, `glob, "/work/*"`, `glob, "\\"`, `read, sub`, `read, ""`, `read, "t.txt/"`, `read, "/"`, `read, "sub/../t.txt"`}))
	case 28:
		return f("[exec.%s]", sim.Pick(r, []string{"cmd, {cmd: echo, args: !quote []}", `cmd, {cmd: ""}`, `cmd, {cmd: echo, args: !quote [""]}`, `cmd, {cmd: cat, stdin: ""}`, "cmd, {cmd: cat, stdin: null}", "cmd, {cmd: echo, asString: null}", `cmd, {cmd: echo, args: !quote ["a\0b"]}`, `go, {pkg: ""}`, `go, {pkg: good.example/x, args: !quote []}`, "go, {pkg: good.example/x, asString: true}"}))
	}
	return f("[%s, %s]", sim.Pick(r, []string{lam, "*add", "*Ty", "*obj.f", "[lambda, [a, b], *b]", "[lambda, [!Ty a], *a]"}), strings.Join([]string{edgeValue(r, 1), edgeValue(r, 1), edgeValue(r, 0)}[:r.N(4)], ", "))
}

// EdgeScript is a script around such calls.
func EdgeScript(r *sim.Rand) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "!yisp &Ty [schema, %s]\n---\n!yisp &add [lambda, [x, y], [\"+\", *x, *y]]\n---\nobj: &obj {list: %s, f: !yisp [lambda, [x], *x], m: {a: {b: null}}}\n---\n", edgeSchema(r, 2), edgeList(r, r.N(3)))
	switch r.N(6) {
	case 0:
		fmt.Fprintf(&sb, "a: !Ty %s\n", strings.TrimPrefix(edgeValue(r, 2), "!quote "))
	case 1:
		fmt.Fprintf(&sb, "a: *obj.%s\n", sim.Pick(r, []string{"list", "list.0", "list.-1", "list.1", "list.2", "none", "none?", "none?.x", "m.a.b", "m.a.b.c", "m.a.b.c?", "", ".", "f", "list.x", "m?", "m..a"}))
	case 2:
		fmt.Fprintf(&sb, "<<: !yisp %s\nb: 1\n", EdgeCall(r))
	case 3:
		fmt.Fprintf(&sb, "a: &a !yisp %s\nb: *a\nc: {<<: *a}\n", EdgeCall(r))
	default:
		fmt.Fprintf(&sb, "a: !yisp %s\n", EdgeCall(r))
		if r.P(1, 3) {
			fmt.Fprintf(&sb, "---\n!yisp %s\n", EdgeCall(r))
		}
	}
	return sb.String()
}

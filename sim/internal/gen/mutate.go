package gen

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"vsim/internal/sim"
)

// Tokens that mean something to one of the parsers.
var tokens = []string{"!yisp", "!quote", "!!str", "!!int", "!!binary", "!!float", "!!null", "!!map", "!!seq", "!!timestamp", "!x", "&a", "*a", "&", "*", "- ", "? ", ": ", ", ", "[", "]", "{", "}",
	"---\n", "...\n", "#", "|", ">", "|-\n", ">+\n", "\t", "\n", "\r\n", "'", "\"", "\\", "\\x", "%YAML 1.1\n", "%TAG ! tag:x,2000:\n", "<<: *a", "<<: ", "null", "~", "lambda", "import", "include", "if", "progn",
	"\x00", "\xff", "\xc3", "\ufeff", "\u2028", "\u0085", "0x", "1e999", ".nan", "99999999999999999999", "-", "=", "@", "`", "$schema: ", "$ref", "apiVersion: ", "kind: "}

// Damage corrupts bytes the way storage and transport do: truncation, lost,
// repeated, moved, zeroed, overwritten and flipped stretches; and the way
// editing does: tokens dropped, put elsewhere, exchanged.
func Damage(r *sim.Rand, s string, rounds int) string {
	b := []byte(s)
	cut := func() (int, int) {
		i := r.N(len(b) + 1)
		n := 1 + r.N(4)
		switch r.N(4) {
		case 0:
			n = 1 + r.N(40)
		case 1:
			n = 1 + r.N(len(b)/2+1)
		}
		return i, min(len(b), i+n)
	}
	for range rounds {
		if len(b) == 0 {
			return sim.Pick(r, tokens)
		}
		i, j := cut()
		switch r.N(13) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i:i], b[j:]...)
		case 2:
			b = []byte(string(b[:j]) + string(b[i:j]) + string(b[j:]))
		case 3:
			k, l := cut()
			if k >= j {
				b = []byte(string(b[:i]) + string(b[k:l]) + string(b[j:k]) + string(b[i:j]) + string(b[l:]))
			}
		case 4:
			for k := i; k < j; k++ {
				b[k] = 0
			}
		case 5:
			for k := i; k < j; k++ {
				b[k] = byte(r.U64())
			}
		case 6:
			b[min(i, len(b)-1)] ^= 1 << r.N(8)
		case 7, 8:
			b = []byte(string(b[:i]) + sim.Pick(r, tokens) + string(b[i:]))
		case 9:
			// a line goes
			l := strings.SplitAfter(string(b), "\n")
			k := r.N(len(l))
			b = []byte(strings.Join(append(l[:k:k], l[k+1:]...), ""))
		case 10:
			// lines change places, or one is indented differently
			l := strings.SplitAfter(string(b), "\n")
			k, m := r.N(len(l)), r.N(len(l))
			if r.P(1, 2) {
				l[k], l[m] = l[m], l[k]
			} else if r.P(1, 2) {
				l[k] = strings.Repeat(" ", r.N(5)) + strings.TrimLeft(l[k], " ")
			} else {
				l[k] += l[m]
			}
			b = []byte(strings.Join(l, ""))
		case 11:
			// an element of a flow collection goes or is repeated
			if k := strings.IndexAny(string(b[i:]), ",]}"); k >= 0 {
				k += i
				if m := strings.LastIndexAny(string(b[:k]), ",[{"); m >= 0 {
					if r.P(1, 2) {
						b = append(b[:m+1:m+1], b[k:]...)
					} else {
						b = []byte(string(b[:k]) + ", " + string(b[m+1:k]) + string(b[k:]))
					}
				}
			}
		case 12:
			// a word becomes another one of the same text
			w := strings.FieldsFunc(string(b), func(c rune) bool { return strings.ContainsRune(" \n,[]{}:\"'", c) })
			if len(w) > 1 {
				b = []byte(strings.Replace(string(b), sim.Pick(r, w), sim.Pick(r, w), 1))
			}
		}
		if len(b) > 60000 {
			b = b[:60000]
		}
	}
	return string(b)
}

// odd values for places where something else is expected
func odd(r *sim.Rand) any {
	return sim.Pick(r, []any{nil, true, false, 0, -1, 1.5, 1e300, "", "a", "object", "array", []any{}, []any{nil}, []any{"a", 1}, map[string]any{}, map[string]any{"a": nil},
		map[string]any{"type": "string"}, map[string]any{"$ref": "#/definitions/none"}, []any{map[string]any{}}, map[string]any{"type": []any{"string", 5}}})
}

// DamageJSON replaces, drops and adds nodes of a JSON document. What is not
// JSON is damaged as bytes.
func DamageJSON(r *sim.Rand, s string, rounds int) string {
	var v any
	if json.Unmarshal([]byte(s), &v) != nil {
		return Damage(r, s, rounds)
	}
	for range rounds {
		n := 0
		count(v, &n)
		k := r.N(n)
		v = change(r, v, &k)
	}
	j, err := json.Marshal(v)
	if err != nil {
		return s
	}
	return string(j)
}

func count(v any, n *int) {
	*n++
	switch v := v.(type) {
	case map[string]any:
		for _, x := range v {
			count(x, n)
		}
	case []any:
		for _, x := range v {
			count(x, n)
		}
	}
}

func change(r *sim.Rand, v any, k *int) any {
	if *k == 0 {
		*k = -1
		switch v := v.(type) {
		case map[string]any:
			if len(v) > 0 && r.P(1, 3) {
				ks := make([]string, 0, len(v))
				for s := range v {
					ks = append(ks, s)
				}
				sort.Strings(ks)
				s := sim.Pick(r, ks)
				x := v[s]
				delete(v, s)
				if r.P(1, 3) {
					v[sim.Pick(r, ks)] = x
				}
				return v
			}
		case []any:
			if len(v) > 0 && r.P(1, 3) {
				return v[:r.N(len(v))]
			}
		case string:
			if r.P(1, 3) {
				return Damage(r, v, 1)
			}
		}
		return odd(r)
	}
	*k--
	switch v := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(v))
		for s := range v {
			ks = append(ks, s)
		}
		sort.Strings(ks)
		for _, s := range ks {
			if *k >= 0 {
				v[s] = change(r, v[s], k)
			}
		}
	case []any:
		for i := range v {
			if *k >= 0 {
				v[i] = change(r, v[i], k)
			}
		}
	}
	return v
}

// Operators of the language, by every name.
var Operators = []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "??", "&&", "||", "!", "and", "or", "not", "eq", "neq", "lt", "lte", "gt", "gte",
	"include", "progn", "pipeline", "schema", "if", "lambda", "import",
	"exec.cmd", "exec.go", "files.glob", "files.read", "k8s.patch",
	"lists.car", "lists.cdr", "lists.cons", "lists.contains", "lists.filter", "lists.flatten", "lists.map", "lists.reduce", "lists.iota", "lists.length", "lists.at", "lists.as-toplevel",
	"maps.from-entries", "maps.get", "maps.keys", "maps.merge", "maps.to-entries", "maps.values", "maps.make", "maps.patch",
	"strings.concat", "strings.contains", "strings.quote", "strings.format", "strings.join", "strings.replace", "strings.sha256", "strings.split", "strings.toUpper", "strings.toLower", "strings.trim",
	"types.assert", "types.get", "types.of", "yaml.marshal", "yaml.unmarshal",
	"nosuch", "nosuch.op", "strings.nosuch", ""}

// Odd are operands of every type and shape.
var Odd = []string{"null", "true", "0", "-1", "3", "1.5", ".nan", "-.inf", "9223372036854775807", "99999999999999999999", `""`, "a", `"é\0x"`, `"{a: 1}"`, `"a: *b"`, `"[1, 2"`, `"*"`, `"**/[a"`, `"%d %s %v %!"`,
	`"../x.yaml"`, "d.yaml", "d.json", "t.txt", ".", `"https://verif.example/x.yaml"`, `"https://verif.example/x.json"`, `"/"`, "2020-01-01", "!quote []", "!quote [1, 2, 3]", "!quote [[a, 1], [b, 2]]", "!quote [[1], [], [a, b, c]]", "!quote [a, null, {}]", "{}", "{a: 1}",
	"{a: {b: [1, null]}, c: null}", "{type: string}", "{type: object, properties: {a: {type: [integer, 5]}}, required: a}", "{type: array, items: null}", "{oneOf: []}", "{cmd: echo}", "{cmd: [1], args: x}", "{cmd: echo, args: !quote [1, null], env: 5, input: {}}", "{pkg: x, args: 5}",
	"{apiVersion: v1, kind: Pod}", "{apiVersion: 5, kind: null}", `{$schema: 5}`, `{$schema: "https://verif.example/s.json"}`, "{? [a] : 1}", "{1: 2, null: 3}",
	"[lambda, [x], *x]", "[lambda, [], 1]", "[lambda, [x, y], [lists.cons, *x, !quote []]]", "[lambda]", "[lambda, x, *x]", "[lambda, [1], 2]", "*none", "*lists.car", "[schema, {type: string}]", "[schema, {type: object, properties: 5}]", "[types.get, v1, Pod]", "[lists.iota, 3]", "[lists.as-toplevel, !quote [1, {a: 2}]]",
	"[maps.make, a, [lists.iota, 2]]", "[files.read, t.txt]", "[include, d.yaml]", "!!binary aGk=", "!!str 5", "!!int x", "!x y", "!yisp [lists.iota, 2]", "!quote [lambda, [x], *x]", "0x1F", "~", `!quote [{op: add, path: /a, value: 1}]`, `!quote [{op: copy, from: "", path: /a/-}]`, `!quote [5, {op: replace}]`, "[]", "[1]", "[[lambda, [], 5]]"}

// Call is a call of an operator with n operands.
func Call(r *sim.Rand, op string, args ...string) string {
	q := op
	if strings.HasPrefix(q, "*") || q == "" || strings.ContainsAny(q, "!&|<>=?*-") {
		q = fmt.Sprintf("%q", op)
	}
	return "[" + strings.Join(append([]string{q}, args...), ", ") + "]"
}

// OddCall is a call of any operator with any operands.
func OddCall(r *sim.Rand, depth int) string {
	n := sim.Pick(r, []int{0, 1, 1, 2, 2, 2, 3, 3, 4, 5})
	var a []string
	for range n {
		if depth > 0 && r.P(1, 4) {
			a = append(a, OddCall(r, depth-1))
		} else {
			a = append(a, sim.Pick(r, Odd))
		}
	}
	return Call(r, sim.Pick(r, Operators), a...)
}

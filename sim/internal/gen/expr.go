package gen

import (
	"encoding/base64"
	"fmt"
	"strings"
	"unicode/utf16"

	"vsim/internal/sim"
)

// B64 encodes raw bytes for a file specification.
func B64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// UTF16 encodes with a byte-order mark.
func UTF16(s string, big bool) string {
	u := append([]uint16{0xfeff}, utf16.Encode([]rune(s))...)
	b := make([]byte, 0, 2*len(u))
	for _, c := range u {
		if big {
			b = append(b, byte(c>>8), byte(c))
		} else {
			b = append(b, byte(c), byte(c>>8))
		}
	}
	return string(b)
}

// IntList is a quoted list of integers.
func (b *B) IntList() string {
	var s []string
	for range 1 + b.R.N(6) {
		s = append(s, fmt.Sprint(b.R.N(60)-10))
	}
	return "!quote [" + strings.Join(s, ", ") + "]"
}

// Int is an integer expression.
func (b *B) Int(d int) string {
	if d <= 0 {
		return fmt.Sprint(b.R.N(200) - 50)
	}
	switch b.R.N(12) {
	case 0, 1:
		return fmt.Sprintf(`["+", %s, %s]`, b.Int(d-1), b.Int(d-1))
	case 2:
		return fmt.Sprintf(`["-", %s, %s]`, b.Int(d-1), b.Int(d-1))
	case 3:
		return fmt.Sprintf(`["*", %s, %s]`, b.Int(d-1), b.Int(0))
	case 4:
		return fmt.Sprintf(`["/", %s, %d]`, b.Int(d-1), 1+b.R.N(9))
	case 5:
		return fmt.Sprintf(`[lists.length, %s]`, b.List1(d-1))
	case 6:
		return fmt.Sprintf(`[lists.reduce, %s, [lambda, [x, y], ["+", *x, *y]]]`, b.IntList())
	case 7:
		return fmt.Sprintf(`[if, %s, %s, %s]`, b.Bool(d-1), b.Int(d-1), b.Int(d-1))
	case 8:
		return fmt.Sprintf(`[[lambda, [n], ["+", *n, *n]], %s]`, b.Int(d-1))
	case 9:
		return fmt.Sprintf(`[pipeline, %s, [lambda, [a], ["-", *a, 3]]]`, b.Int(d-1))
	case 10:
		return fmt.Sprintf(`[progn, %s, %s]`, b.Str(d-1), b.Int(d-1))
	}
	return fmt.Sprintf(`["??", null, %s]`, b.Int(d-1))
}

// Bool is a boolean expression.
func (b *B) Bool(d int) string {
	if d <= 0 {
		return sim.Pick(b.R, []string{"true", "false"})
	}
	switch b.R.N(6) {
	case 0:
		return fmt.Sprintf(`[%q, %s, %s]`, sim.Pick(b.R, []string{"==", "!=", "<", "<=", ">", ">=", "eq", "neq", "lt", "lte", "gt", "gte"}), b.Int(d-1), b.Int(d-1))
	case 1:
		return fmt.Sprintf(`[%q, %s, %s]`, sim.Pick(b.R, []string{"and", "or", "&&", "||"}), b.Bool(d-1), b.Bool(d-1))
	case 2:
		return fmt.Sprintf(`["not", %s]`, b.Bool(d-1))
	case 3:
		return fmt.Sprintf(`[strings.contains, %s, a]`, b.Str(d-1))
	case 4:
		return fmt.Sprintf(`[lists.contains, %s, %d]`, b.IntList(), b.R.N(50))
	}
	return fmt.Sprintf(`["==", %s, %s]`, b.Str(d-1), b.Str(d-1))
}

// Str is a string expression.
func (b *B) Str(d int) string {
	if d <= 0 {
		return fmt.Sprintf("%q", b.Text(3+b.R.N(20)))
	}
	switch b.R.N(10) {
	case 0:
		return fmt.Sprintf(`[strings.concat, %s, %s]`, b.Str(d-1), b.Str(d-1))
	case 1:
		return fmt.Sprintf(`[strings.toUpper, %s]`, b.Str(d-1))
	case 2:
		return fmt.Sprintf(`[strings.format, "%%d-%%s", %s, %s]`, b.Int(d-1), b.Str(d-1))
	case 3:
		return fmt.Sprintf(`[strings.join, [strings.split, %s, " "], "_"]`, b.Str(d-1))
	case 4:
		return fmt.Sprintf(`[strings.replace, %s, "a", %s]`, b.Str(d-1), b.Str(0))
	case 5:
		return fmt.Sprintf(`[strings.sha256, %s]`, b.Str(d-1))
	case 6:
		return fmt.Sprintf(`[strings.trim, %s]`, b.Str(d-1))
	case 7:
		return fmt.Sprintf(`[maps.get, %s, k]`, b.MapE(d-1))
	case 8:
		return fmt.Sprintf(`[yaml.marshal, %s]`, b.MapE(d-1))
	}
	return fmt.Sprintf(`[types.of, %s]`, b.Any(d-1))
}

// List1 is a list expression, never empty.
func (b *B) List1(d int) string {
	if d <= 0 {
		return b.IntList()
	}
	switch b.R.N(9) {
	case 0:
		return fmt.Sprintf(`[lists.cons, %s, %s]`, b.Any(d-1), b.List1(d-1))
	case 1:
		return fmt.Sprintf(`[lists.map, %s, [lambda, [x], ["*", *x, %d]]]`, b.IntList(), b.R.N(9))
	case 2:
		return fmt.Sprintf(`[lists.flatten, %s, %s]`, b.List1(d-1), b.List1(d-1))
	case 3:
		return fmt.Sprintf(`[lists.iota, %d]`, 1+b.R.N(8))
	case 4:
		return fmt.Sprintf(`[maps.keys, %s]`, b.MapE(d-1))
	case 5:
		return fmt.Sprintf(`[maps.values, %s]`, b.MapE(d-1))
	case 6:
		return fmt.Sprintf(`[strings.split, %s, " "]`, b.Str(d-1))
	case 7:
		return fmt.Sprintf(`[lists.cons, 0, [lists.filter, %s, [lambda, [x], [">", *x, %d]]]]`, b.IntList(), b.R.N(30))
	}
	return fmt.Sprintf(`[maps.to-entries, %s]`, b.MapE(d-1))
}

// MapE is a map expression with the string key k.
func (b *B) MapE(d int) string {
	lit := func() string {
		return fmt.Sprintf(`{k: %q, %s: %s, z: %s}`, b.Text(8), b.Word(), b.Any(d-1), b.Int(d-1))
	}
	if d <= 0 {
		return fmt.Sprintf(`{k: %q, n: %d}`, b.Text(8), b.R.N(100))
	}
	switch b.R.N(4) {
	case 0:
		return fmt.Sprintf(`[maps.merge, %s, %s]`, b.MapE(d-1), lit())
	case 1:
		return fmt.Sprintf(`[maps.make, k, %s, n, %s]`, b.Str(0), b.Int(d-1))
	case 2:
		return fmt.Sprintf(`[maps.from-entries, !quote [[k, v%d], [m, %d]]]`, b.R.N(9), b.R.N(99))
	}
	return lit()
}

// Any is an expression of any type.
func (b *B) Any(d int) string {
	switch b.R.N(5) {
	case 0:
		return b.Int(d)
	case 1:
		return b.Str(d)
	case 2:
		return b.Bool(d)
	case 3:
		return b.List1(d)
	}
	return b.MapE(d)
}

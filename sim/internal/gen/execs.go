package gen

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"

	"vsim/internal/kern"
	"vsim/internal/sim"
)

// ECall is one start of an external command that the script asks for.
type ECall struct {
	Argv  []string
	Stdin string
	HasIn bool
	Pkg   string // the Go package, for exec.go
}

// Execs builds scripts that run commands, knowing what they ask for.
type Execs struct {
	B     *B
	Calls []ECall  // in order
	Hex   []string // digests in the output, in order
	Fail  bool     // the script fails by itself after its calls
	NoGo  bool
	NoCmd bool
	n     int
}

func sha(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s))) }

// capture runs f and takes back what it asked for.
func (x *Execs) capture(f func()) ([]ECall, []string) {
	c, h := x.Calls, x.Hex
	x.Calls, x.Hex = nil, nil
	f()
	nc, nh := x.Calls, x.Hex
	x.Calls, x.Hex = c, h
	return nc, nh
}

func (x *Execs) add(c []ECall, h []string) {
	x.Calls = append(x.Calls, c...)
	x.Hex = append(x.Hex, h...)
}

var oddArgs = []string{"", " ", "-x", "--flag=v w", "a\"b", "it's", "back\\slash", "$HOME", "*", "`id`", "; true", "new\nline", "tab\t", "é漢😀", "%s%d", "-", "--", "\\n", "{{x}}", "null", "true", "12", "~", "a,b", "[x]", "{y}", "#c", "&a", "*b", "!yisp"}

func (x *Execs) arg() string {
	if x.B.R.P(1, 2) {
		return sim.Pick(x.B.R, oddArgs)
	}
	return x.B.Text(1 + x.B.R.N(20))
}

// raw is a program's output: any bytes.
func (x *Execs) raw() string {
	r := x.B.R
	n := x.B.size()
	switch r.N(16) {
	case 0, 1:
		n = 0
	case 2:
		n = 65530 + r.N(12)
	case 3:
		n = sim.Pick(r, []int{511, 512, 513, 1023, 1024, 32767, 32768, 32769, 131072, 200000})
	}
	b := make([]byte, 0, n)
	text := r.P(1, 2)
	for len(b) < n {
		if text {
			b = append(b, x.B.Text(min(40, n))...)
			b = append(b, '\n')
		} else {
			b = append(b, byte(r.U64()))
		}
	}
	return string(b[:n])
}

func quoted(l []string) string {
	var s []string
	for _, a := range l {
		s = append(s, fmt.Sprintf("%q", a))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// fixed makes a program with a known output.
func (x *Execs) fixed(out string) string {
	x.n++
	name := fmt.Sprintf("run-%d", x.n)
	if x.B.R.P(1, 6) {
		// a name that a shell would read as something else
		name += sim.Pick(x.B.R, []string{" x", " --all", ";echo", "$HOME", "&", "|cat", "é", "*", "'q'", "\"d", "@v1", "~"})
		x.B.Prog("run-"+fmt.Sprint(x.n), kern.ProgSpec{Kind: "fixed", Stdout: []string{"another\n"}})
	}
	p := kern.ProgSpec{Kind: "fixed", B64: B64(out)}
	if out == "" {
		p.B64, p.Stdout = "", []string{""}
	}
	switch x.B.R.N(12) {
	case 0, 1, 2:
		p.Stderr = "warning: " + x.B.Word() + "\n"
	case 3:
		p.Stderr = strings.Repeat("noise "+x.B.Word()+"\n", 1+x.B.R.N(9000))
	}
	return x.B.Prog(name, p)
}

// call writes one call. sym, if not empty, is a variable holding val, which the
// call uses. The call's own output is returned.
func (x *Execs) call(sym, val string) (expr string, c ECall, out string) {
	b, r := x.B, x.B.R
	var args []string
	var argText []string
	for range r.N(4) {
		a := x.arg()
		args = append(args, a)
		argText = append(argText, fmt.Sprintf("%q", a))
	}
	useArg := func() {
		i := r.N(len(args) + 1)
		args = append(args[:i], append([]string{val}, args[i:]...)...)
		argText = append(argText[:i], append([]string{"*" + sym}, argText[i:]...)...)
	}
	var f []string
	in := ""
	inText := ""
	kind := r.N(6)
	if kind == 4 && x.NoGo {
		kind = r.N(4)
	}
	if x.NoCmd {
		kind = 4
	}
	hasIn := kind == 1 || r.P(1, 5)
	if hasIn {
		in = b.Text(1 + r.N(40))
		switch r.N(8) {
		case 0:
			in = ""
		case 1:
			in = b.Lines(b.size())
		case 2:
			in = strings.Repeat(b.Text(20)+"\n", 1+r.N(90))
		}
		inText = fmt.Sprintf("%q", in)
	}
	if sym != "" {
		if hasIn && r.P(1, 2) {
			in, inText = val, "*"+sym
		} else {
			useArg()
		}
	}
	op := "exec.cmd"
	switch kind {
	case 0: // echo
		name := sim.Pick(r, []string{"echo", "/usr/bin/echo"})
		b.Prog("echo", kern.ProgSpec{Kind: "echo"})
		c.Argv = append([]string{name}, args...)
		out = strings.Join(args, " ") + "\n"
		f = append(f, "cmd: "+name)
	case 1: // cat
		b.Prog("cat", kern.ProgSpec{Kind: "cat"})
		c.Argv = append([]string{"cat"}, args...)
		out = in
		if r.P(1, 4) {
			f = append(f, "cmd: [strings.concat, \"c\", \"at\"]")
		} else {
			f = append(f, "cmd: \"cat\"")
		}
	case 4: // go
		op = "exec.go"
		pkg, pat := x.pkg()
		b.GoPkgs = append(b.GoPkgs, pat)
		b.Prog("go", kern.ProgSpec{Kind: "args"})
		c.Pkg = pkg
		c.Argv = append([]string{"go", "run", pkg}, args...)
		out = strings.Join(c.Argv[1:], " ") + "\n"
		f = append(f, fmt.Sprintf("pkg: %q", pkg))
	case 5: // the go command itself: no allow-list applies to it
		if !r.P(1, 3) {
			out = x.raw()
			break
		}
		b.Prog("go", kern.ProgSpec{Kind: "args"})
		pkg, pat := x.pkg()
		if r.P(1, 2) {
			b.GoPkgs = append(b.GoPkgs, pat)
		}
		args = append([]string{"run", pkg}, args...)
		argText = append([]string{"run", fmt.Sprintf("%q", pkg)}, argText...)
		c.Argv = append([]string{"go"}, args...)
		out = strings.Join(args, " ") + "\n"
		f = append(f, "cmd: go")
	default:
		out = x.raw()
	}
	if len(f) == 0 {
		name := x.fixed(out)
		if r.P(1, 5) {
			name = "/usr/bin/" + name
		}
		c.Argv = append([]string{name}, args...)
		f = append(f, fmt.Sprintf("cmd: %q", name))
	}
	c.Stdin, c.HasIn = in, hasIn
	if len(args) > 0 || r.P(1, 4) {
		f = append(f, "args: !quote ["+strings.Join(argText, ", ")+"]")
	}
	if hasIn {
		f = append(f, "stdin: "+inText)
	}
	f = append(f, "asString: true")
	sim.Shuffle(r, f)
	return fmt.Sprintf("[%s, {%s}]", op, strings.Join(f, ", ")), c, out
}

// pkg is a Go package and an allow-list entry that matches it.
func (x *Execs) pkg() (string, string) {
	b, r := x.B, x.B.R
	p := fmt.Sprintf("example.com/%s/%s.v%d/cmd-%d", b.Word(), b.Word(), r.N(9), r.N(100))
	if r.P(1, 3) {
		p += "@v1." + fmt.Sprint(r.N(9))
	}
	if r.P(1, 6) {
		// one argument all the same
		p += sim.Pick(r, []string{" -exec=true", " x", "  y", "\tq", " && z", ";z", "$HOME", "'", "\"", "@v1 -n", "#c", "%20", ",b", "(x)", "[a]", "+incompatible", "\\"})
	}
	i := strings.LastIndex(p, "/")
	switch r.N(6) {
	case 0:
		return p, p[:i] + "/*"
	case 1:
		return p, "example.com/*"
	case 2:
		return p, "*" + p[i:]
	case 3:
		return p, p[:i-3] + "*" + p[i:]
	}
	return p, p
}

// NearMisses are allow-list entries that do not match the package, although
// they look like it.
func NearMisses(r *sim.Rand, p string) string {
	i := strings.LastIndex(p, "/")
	switch r.N(9) {
	case 0:
		return p + "x"
	case 1:
		return p[:len(p)-1]
	case 2:
		return p[:i]
	case 3:
		return p[:i] + "/"
	case 4:
		return strings.ToUpper(p)
	case 5:
		return p[:i] + "/*/x"
	case 6:
		return p[1:]
	case 7:
		return strings.Replace(p, ".", "?", 1)
	}
	return "x" + p
}

// LookAlike is a package that an entry must not match.
func LookAlike(r *sim.Rand, pat string) string {
	switch r.N(6) {
	case 0:
		return strings.ReplaceAll(pat, ".", "x")
	case 1:
		return pat + "/evil"
	case 2:
		return "evil.example/" + pat
	case 3:
		return pat + "\n"
	case 4:
		return strings.Replace(pat, "/", ".", 1)
	}
	return strings.TrimSuffix(pat, "*")[1:]
}

// Match tells whether an allow-list entry matches a package.
func Match(pat, pkg string) bool {
	var sb strings.Builder
	for i, s := range strings.Split(pat, "*") {
		if i > 0 {
			sb.WriteString(".*")
		}
		sb.WriteString(regexp.QuoteMeta(s))
	}
	return regexp.MustCompile(`\A` + sb.String() + `\z`).MatchString(pkg)
}

// digest is an expression for the digest of a call's output.
func (x *Execs) digest(sym, val string) string {
	e, c, out := x.call(sym, val)
	x.Calls = append(x.Calls, c)
	x.Hex = append(x.Hex, sha(out))
	return "[strings.sha256, " + e + "]"
}

// yisp is a call whose output is evaluated: a document with a mark.
func (x *Execs) yisp() string {
	b, r := x.B, x.B.R
	mark := sha(b.Text(20) + b.ID(""))
	body := fmt.Sprintf("mark: %s\n", mark)
	switch r.N(4) {
	case 0:
		m2 := sha(mark)
		body += fmt.Sprintf("---\n!yisp\n- progn\n- {m: %s}\n", m2)
		x.Hex = append(x.Hex, mark, m2)
	case 1:
		body = b.Map(2, 1) + body
		x.Hex = append(x.Hex, mark)
	default:
		x.Hex = append(x.Hex, mark)
	}
	name := x.fixed(body)
	var args []string
	for range r.N(3) {
		args = append(args, x.arg())
	}
	c := ECall{Argv: append([]string{name}, args...)}
	in := ""
	if r.P(1, 3) {
		c.HasIn, c.Stdin = true, b.Text(1+r.N(90))
		in = fmt.Sprintf("stdin: %q, ", c.Stdin)
	}
	x.Calls = append(x.Calls, c)
	return fmt.Sprintf("[exec.cmd, {args: !quote %s, %scmd: %q}]", quoted(args), in, name)
}

// never is a call that must not be made.
func (x *Execs) never() string {
	x.B.Prog("never", kern.ProgSpec{Kind: "fixed", Stdout: []string{"never\n"}})
	return fmt.Sprintf("[exec.cmd, {cmd: never, args: !quote [%q], asString: true}]", x.arg())
}

// nothing is a value of little substance.
func (x *Execs) nothing() string {
	return sim.Pick(x.B.R, []string{"null", "\"\"", "[]", "{}", "0", "false", "!quote [null]", "!quote {a: null}"})
}

// Contexts are the places a call can stand in.
var Contexts = []struct {
	Name string
	F    func(x *Execs)
}{
	{"value", func(x *Execs) { x.B.Doc("v: !yisp %s\n", x.digest("", "")) }},
	{"document", func(x *Execs) { x.B.Doc("!yisp %s\n", x.digest("", "")) }},
	{"deep", func(x *Execs) {
		a := x.digest("", "")
		c := x.digest("", "")
		x.B.Doc("a:\n  - b: {c: !yisp %s}\n  - !yisp %s\n", a, c)
	}},
	{"yisp", func(x *Execs) {
		if x.NoCmd {
			return
		}
		x.B.Doc("!yisp %s\n", x.yisp())
	}},
	{"yisp-value", func(x *Execs) {
		if x.NoCmd {
			return
		}
		x.B.Doc("v: !yisp %s\n", x.yisp())
	}},
	{"twice", func(x *Execs) {
		var e string
		c, h := x.capture(func() { e = x.digest("", "") })
		x.B.Doc("a: !yisp %s\nb: !yisp %s\n", e, e)
		x.add(c, h)
		x.add(c, h)
	}},
	{"lambda", func(x *Execs) {
		f := x.B.ID("f")
		// The call is made with each argument; only the argument differs.
		r := x.B.R
		k := 1 + r.N(4)
		var vals []string
		for range k {
			vals = append(vals, x.arg())
		}
		e, cs, outs := x.callN("x", vals)
		x.B.Doc("!yisp &%s [lambda, [x], [strings.sha256, %s]]\n", f, e)
		var sb strings.Builder
		for i, v := range vals {
			fmt.Fprintf(&sb, "r%d: !yisp [*%s, %q]\n", i, f, v)
			x.add([]ECall{cs[i]}, []string{sha(outs[i])})
		}
		x.B.Doc("%s", sb.String())
	}},
	{"lambda-unused", func(x *Execs) {
		f := x.B.ID("f")
		x.B.Doc("!yisp &%s [lambda, [x], %s]\n", f, x.never())
		x.B.Doc("v: 1\n")
	}},
	{"map", func(x *Execs) {
		vals := []string{x.arg(), x.arg(), x.arg()}[:1+x.B.R.N(3)]
		e, cs, outs := x.callN("x", vals)
		x.B.Doc("!yisp [lists.map, !quote %s, [lambda, [x], [strings.sha256, %s]]]\n", quoted(vals), e)
		for i := range vals {
			x.add([]ECall{cs[i]}, []string{sha(outs[i])})
		}
	}},
	{"map-empty", func(x *Execs) { x.B.Doc("v: !yisp [lists.map, [], [lambda, [x], %s]]\n", x.never()) }},
	{"filter", func(x *Execs) {
		vals := []string{x.B.Word() + "1", x.B.Word() + "2", x.B.Word() + "3"}
		e, cs, _ := x.callN("x", vals)
		x.B.Doc("v: !yisp [lists.filter, !quote %s, [lambda, [x], [\"==\", [strings.sha256, %s], \"no\"]]]\n", quoted(vals), e)
		x.add(cs, nil)
	}},
	{"reduce", func(x *Execs) {
		// x is the accumulator; the call uses the element.
		vals := []string{x.B.Word() + "1", x.B.Word() + "2", x.B.Word() + "3", x.B.Word() + "4"}[:2+x.B.R.N(3)]
		e, cs, outs := x.callN("y", vals[1:])
		x.B.Doc("v: !yisp [lists.reduce, !quote %s, [lambda, [x, y], [strings.sha256, %s]]]\n", quoted(vals), e)
		x.add(cs, []string{sha(outs[len(outs)-1])})
	}},
	{"if", func(x *Execs) {
		t := x.B.R.P(1, 2)
		e := x.digest("", "")
		if t {
			x.B.Doc("v: !yisp [if, true, %s, %s]\n", e, x.never())
		} else {
			x.B.Doc("v: !yisp [if, [\"==\", 1, 2], %s, %s]\n", x.never(), e)
		}
	}},
	{"if-condition", func(x *Execs) {
		e, c, _ := x.call("", "")
		x.Calls = append(x.Calls, c)
		x.B.Doc("v: !yisp [if, [\"!=\", [strings.sha256, %s], \"x\"], yes, %s]\n", e, x.never())
	}},
	{"if-false", func(x *Execs) {
		e, c, _ := x.call("", "")
		x.Calls = append(x.Calls, c)
		cond := sim.Pick(x.B.R, []string{"[\"==\", [strings.sha256, %s], \"x\"]", "[progn, [strings.sha256, %s], false]", "[progn, [strings.sha256, %s], null]", "[progn, [strings.sha256, %s], 0]", "[not, [strings.sha256, %s]]", "[and, [progn, [strings.sha256, %s], false], true]", "[or, [progn, [strings.sha256, %s], false], false]"})
		x.B.Doc("v: !yisp [if, "+cond+", %s, %s]\n", e, x.never(), sim.Pick(x.B.R, []string{"no", "[strings.concat, n, o]"}))
	}},
	{"nothing", func(x *Execs) {
		e, c, _ := x.call("", "")
		x.Calls = append(x.Calls, c)
		x.B.Doc(sim.Pick(x.B.R, []string{
			"v: !yisp [progn, [strings.sha256, %s], %s]\n", "!yisp [progn, [strings.sha256, %s], %s]\n", "v: [1, !yisp [progn, [strings.sha256, %s], %s]]\n",
			"v: !yisp [\"??\", [progn, [strings.sha256, %s], %s], alt]\n", "v: !yisp [lists.flatten, [progn, [strings.sha256, %s], %s]]\n",
			"v: !yisp [pipeline, [progn, [strings.sha256, %s], %s], [lambda, [x], *x]]\n",
		}), e, x.nothing())
	}},
	{"map-nothing", func(x *Execs) {
		vals := []string{x.arg(), x.arg(), x.arg()}[:1+x.B.R.N(3)]
		e, cs, _ := x.callN("x", vals)
		x.B.Doc("!yisp [lists.map, !quote %s, [lambda, [x], [progn, [strings.sha256, %s], %s]]]\n", quoted(vals), e, x.nothing())
		x.add(cs, nil)
	}},
	{"filter-all", func(x *Execs) {
		vals := []string{x.B.Word() + "1", x.B.Word() + "2", x.B.Word() + "3", x.B.Word() + "4"}[:1+x.B.R.N(4)]
		e, cs, _ := x.callN("x", vals)
		x.B.Doc("v: !yisp [lists.filter, !quote %s, [lambda, [x], [\"!=\", [strings.sha256, %s], \"no\"]]]\n", quoted(vals), e)
		x.add(cs, nil)
	}},
	{"reduce-nothing", func(x *Execs) {
		vals := []string{x.B.Word() + "1", x.B.Word() + "2", x.B.Word() + "3", x.B.Word() + "4"}[:2+x.B.R.N(3)]
		e, cs, _ := x.callN("y", vals[1:])
		x.B.Doc("v: !yisp [lists.reduce, !quote %s, [lambda, [x, y], [progn, [strings.sha256, %s], %s]]]\n", quoted(vals), e, x.nothing())
		x.add(cs, nil)
	}},
	{"merge-nothing", func(x *Execs) {
		e, c, _ := x.call("", "")
		x.Calls = append(x.Calls, c)
		x.B.Doc("w:\n  <<: !yisp [progn, [strings.sha256, %s], %s]\n  z: 1\n", e, sim.Pick(x.B.R, []string{"null", "{}", "[]", "!quote [null, {}]"}))
	}},
	{"include", func(x *Execs) {
		n := x.B.ID("ei")
		c, h := x.file(n + ".yisp")
		k := 1 + x.B.R.N(2)
		for range k {
			x.B.Doc("!yisp [include, %s.yisp]\n", n)
			x.add(c, h)
		}
		if x.B.R.P(1, 2) {
			x.B.Doc("!yisp [include, %s.yisp, ./%s.yisp]\n", n, n)
			x.add(c, h)
			x.add(c, h)
		}
	}},
	{"include-glob", func(x *Execs) {
		n := x.B.ID("eg")
		var cs []ECall
		var hs []string
		for i := range 1 + x.B.R.N(3) {
			c, h := x.file(fmt.Sprintf("%s/m%d.yisp", n, i))
			cs, hs = append(cs, c...), append(hs, h...)
		}
		x.B.Doc("!yisp [include, \"%s/*.yisp\"]\n", n)
		x.add(cs, hs)
	}},
	{"import", func(x *Execs) {
		n := x.B.ID("em")
		vals := []string{x.B.Word() + "1", x.B.Word() + "2"}
		e, cs, outs := x.callN("x", vals)
		e2, c2, o2 := x.call("", "")
		x.B.File(n+".yisp", fmt.Sprintf("&%s_v !yisp [strings.sha256, %s]\n", n, e2), fmt.Sprintf("---\n!yisp &fn [lambda, [x], [strings.sha256, %s]]\n", e))
		x.B.Doc("!yisp [import, [%s, %s.yisp]]\n", n, n)
		x.B.Doc("a: !yisp [*%[1]s.fn, %[2]q]\nb: *%[1]s.%[1]s_v\nc: !yisp [*%[1]s.fn, %[3]q]\n", n, vals[0], vals[1])
		x.add([]ECall{c2, cs[0], cs[1]}, []string{sha(outs[0]), sha(o2), sha(outs[1])})
	}},
	{"pipeline", func(x *Execs) {
		v := x.B.Word()
		e1, c1, o1 := x.callN("x", []string{v})
		if !plainYAML(o1[0]) {
			return
		}
		d1 := sha(o1[0])
		e2, c2, o2 := x.callN("x", []string{d1})
		x.B.Doc("v: !yisp\n  - pipeline\n  - %s\n  - [lambda, [x], [strings.sha256, %s]]\n  - [lambda, [x], [strings.sha256, %s]]\n", v, e1, e2)
		x.add([]ECall{c1[0], c2[0]}, []string{sha(o2[0])})
	}},
	{"quoted", func(x *Execs) {
		x.B.Doc("a: !quote %s\nb: %s\nc: !yisp [lists.length, !quote %s]\n", x.never(), x.never(), x.never())
	}},
	{"merge", func(x *Execs) {
		if x.NoCmd {
			return
		}
		x.B.Doc("w:\n  <<: !yisp %s\n  z: 1\n", x.yispPlain())
	}},
	{"anchor", func(x *Execs) {
		n := x.B.ID("ea")
		c, h := x.capture(func() { x.B.Doc("a: !yisp &%s %s\n", n, x.digest("", "")) })
		x.B.Doc("b: *%s\nc: [*%s, !yisp [strings.concat, *%s]]\n", n, n, n)
		x.add(c, nil)
		for range 4 {
			x.Hex = append(x.Hex, h...)
		}
	}},
	{"progn", func(x *Execs) {
		e, c, _ := x.call("", "")
		x.Calls = append(x.Calls, c)
		x.B.Doc("v: !yisp [progn, [strings.sha256, %s], %s]\n", e, x.digest("", ""))
	}},
	{"args", func(x *Execs) {
		op := sim.Pick(x.B.R, []string{"==", "!=", "strings.concat", "maps.make", "lists.flatten"})
		e, c, o := x.call("", "")
		x.Calls = append(x.Calls, c)
		var h []string
		switch op {
		case "lists.flatten", "strings.concat":
			h = []string{sha(o)}
		}
		e2, c2, o2 := x.call("", "")
		x.Calls = append(x.Calls, c2)
		switch op {
		case "strings.concat":
			x.B.Doc("v: !yisp [strings.concat, [strings.sha256, %s], \"/\", [strings.sha256, %s]]\n", e, e2)
			x.Hex = append(x.Hex, sha(o), sha(o2))
		case "lists.flatten":
			x.B.Doc("v: !yisp [lists.flatten, [strings.sha256, %s], [strings.sha256, %s]]\n", e, e2)
			x.Hex = append(x.Hex, h[0], sha(o2))
		case "maps.make":
			x.B.Doc("v: !yisp [maps.make, a, [strings.sha256, %s], b, [strings.sha256, %s]]\n", e, e2)
			x.Hex = append(x.Hex, sha(o), sha(o2))
		default:
			x.B.Doc("v: !yisp [%q, [strings.sha256, %s], [strings.sha256, %s]]\n", op, e, e2)
		}
	}},
	{"remote", func(x *Execs) {
		n := x.B.ID("er")
		u := "https://verif.example/" + n + ".yisp"
		var e string
		c, h := x.capture(func() { e = x.digest("", "") })
		x.B.Serve(u, fmt.Sprintf("v: !yisp %s\n", e))
		x.B.Doc("!yisp [include, \"%s\"]\n", u)
		x.add(c, h)
	}},
	{"nested", func(x *Execs) {
		if x.NoCmd {
			return
		}
		var e string
		c, h := x.capture(func() { e = x.digest("", "") })
		name := x.fixed(fmt.Sprintf("in: !yisp %s\n", e))
		x.B.Doc("!yisp [exec.cmd, {cmd: %q}]\n", name)
		x.Calls = append(x.Calls, ECall{Argv: []string{name}})
		x.add(c, h)
	}},
	{"many", func(x *Execs) {
		if x.NoCmd {
			return
		}
		// nothing adds up: each is evaluated like the first
		name := x.fixed("n: 1\n")
		n := 102 + x.B.R.N(30)
		for range n {
			x.Calls = append(x.Calls, ECall{Argv: []string{name}})
		}
		if x.B.R.P(1, 2) {
			x.B.Doc("%s", "v:\n"+strings.Repeat(fmt.Sprintf("  - !yisp [exec.cmd, {cmd: %q}]\n", name), n))
		} else {
			x.B.Doc("%s", strings.Repeat(fmt.Sprintf("!yisp [exec.cmd, {cmd: %q}]\n---\n", name), n-1)+fmt.Sprintf("!yisp [exec.cmd, {cmd: %q}]\n", name))
		}
	}},
	{"typed", func(x *Execs) {
		t := x.B.ID("T")
		x.B.Doc("!yisp &%s [schema, {type: object, properties: {v: {type: string}}}]\n", t)
		x.B.Doc("!%s\nv: !yisp %s\n", t, x.digest("", ""))
	}},
	{"big-stdin", func(x *Execs) {
		if x.NoCmd {
			return
		}
		n := x.B.ID("big") + ".txt"
		text := strings.Repeat(x.B.Text(20)+"\n", 1+x.B.R.N(8000))
		x.B.File(n, text)
		x.B.Prog("cat", kern.ProgSpec{Kind: "cat"})
		x.B.Doc("v: !yisp [strings.sha256, [exec.cmd, {cmd: cat, stdin: [files.read, %s], asString: true}]]\n", n)
		x.Calls = append(x.Calls, ECall{Argv: []string{"cat"}, Stdin: text, HasIn: true})
		x.Hex = append(x.Hex, sha(text))
	}},
	{"data-command", func(x *Execs) {
		// A command's name and arguments that come from a data file.
		n := x.B.ID("ed")
		args := []string{x.arg(), x.arg()}
		x.B.Prog("echo", kern.ProgSpec{Kind: "echo"})
		if x.NoCmd {
			return
		}
		x.B.File(n+".yaml", fmt.Sprintf("run: echo\nwith: %s\n", quoted(args)))
		x.B.Doc("!yisp &%s [lists.car, [include, %s.yaml]]\n", n, n)
		x.B.Doc("v: !yisp [strings.sha256, [exec.cmd, {cmd: [maps.get, *%s, run], args: [maps.get, *%s, with], asString: true}]]\n", n, n)
		x.Calls = append(x.Calls, ECall{Argv: append([]string{"echo"}, args...)})
		x.Hex = append(x.Hex, sha(strings.Join(args, " ")+"\n"))
	}},
}

func plainYAML(s string) bool { return len(s) < 1<<20 }

// yispPlain is a call whose output is one map.
func (x *Execs) yispPlain() string {
	mark := sha(x.B.Text(20) + x.B.ID(""))
	name := x.fixed(fmt.Sprintf("mark: %s\n", mark))
	x.Calls = append(x.Calls, ECall{Argv: []string{name}})
	x.Hex = append(x.Hex, mark)
	return fmt.Sprintf("[exec.cmd, {cmd: %q}]", name)
}

// callN is one call expression evaluated with several values of a variable.
func (x *Execs) callN(sym string, vals []string) (string, []ECall, []string) {
	const hole = "\x00hole\x00"
	e, c, _ := x.call(sym, hole)
	var cs []ECall
	var outs []string
	for _, v := range vals {
		d := ECall{HasIn: c.HasIn, Pkg: c.Pkg, Stdin: strings.ReplaceAll(c.Stdin, hole, v)}
		for _, a := range c.Argv {
			d.Argv = append(d.Argv, strings.ReplaceAll(a, hole, v))
		}
		cs = append(cs, d)
		outs = append(outs, x.output(d))
	}
	return e, cs, outs
}

// output is what a call's program prints.
func (x *Execs) output(c ECall) string {
	name := c.Argv[0]
	if !strings.HasPrefix(name, "/") {
		name = "/usr/bin/" + name
	}
	for _, p := range x.B.Progs {
		if p.Path != name {
			continue
		}
		switch p.Kind {
		case "cat":
			return c.Stdin
		case "echo", "args":
			return strings.Join(c.Argv[1:], " ") + "\n"
		}
		if p.B64 != "" {
			b, _ := base64.StdEncoding.DecodeString(p.B64)
			return string(b)
		}
		return strings.Join(p.Stdout, "")
	}
	panic("no program " + name)
}

// file writes an included script with a call or two.
func (x *Execs) file(rel string) ([]ECall, []string) {
	var parts []string
	c, h := x.capture(func() {
		for i := range 1 + x.B.R.N(2) {
			s := fmt.Sprintf("in%d: !yisp %s\n", i, x.digest("", ""))
			if i > 0 {
				s = "---\n" + s
			}
			parts = append(parts, s)
		}
	})
	x.B.File(rel, parts...)
	return c, h
}

// Bad adds a document that fails, after none or some of its calls.
func (x *Execs) Bad() {
	switch x.B.R.N(6) {
	case 4, 5:
		// no such program; a shell would make something of it
		x.B.Prog("never", kern.ProgSpec{Kind: "fixed", Stdout: []string{"never\n"}})
		x.B.Doc("bad: !yisp [exec.cmd, {cmd: %q, args: !quote [%q], asString: true}]\n", sim.Pick(x.B.R, []string{"never x", "nosuch; never", "never\n", "$(never)", "nosuch || never", "never&", "~/never", "NEVER", "never.exe", "never=1 never", "./never", "../nosuch/never"}), x.arg())
	case 0:
		e, c, _ := x.call("", "")
		x.Calls = append(x.Calls, c)
		x.B.Doc("bad: !yisp [progn, %s, *nosuch_%s, %s]\n", e, x.B.ID("z"), x.never())
	case 1:
		x.B.Doc("bad: !yisp [lists.car, 5, %s]\n", "[nosuch.op, 1]")
	case 2:
		x.B.Doc("bad: *nosuch_%s\n", x.B.ID("z"))
	default:
		x.B.Doc("bad: !yisp [exec.cmd, {cmd: never, args: !quote [1], asString: true}]\n")
	}
	x.B.Prog("never", kern.ProgSpec{Kind: "fixed", Stdout: []string{"never\n"}})
	x.Fail = true
}

// Marks finds the digests in an output.
func Marks(out string) []string { return markRE.FindAllString(out, -1) }

var markRE = regexp.MustCompile(`\b[0-9a-f]{64}\b`)

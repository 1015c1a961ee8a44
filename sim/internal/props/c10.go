package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C10", Bins: []string{"yisp"}, Level: "exploration",
		Rule: "simulated runs with different histories in which a command was asked for, and was confirmed, refused, cancelled, struck by a fault or authorised by the flag or the allow-list",
		Assume: []string{
			"one line end typed at the prompt confirms; what other keys mean is not decided here",
			"the allow-list's wildcard * stands for any text, as in the documentation",
		},
		Real: realParts, Stub: stubParts,
		Plan: c10Plan, Random: c10Random, Judge: c10Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
	register(&sim.Check{
		ID: "C11", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated runs with different histories in which a command failed, or one of its streams failed or was read and written in pieces",
		Assume: []string{
			"a program that closes its standard input early and then succeeds has succeeded",
			"a failure to collect what a command writes to standard error may or may not fail the build",
		},
		Real: realParts, Stub: stubParts,
		Plan: c11Plan, Random: c11Random, Judge: c11Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// execInfo is what the judge knows of a script that runs commands.
type execInfo struct {
	Calls   []gen.ECall
	Hex     []string
	Fail    bool
	Flag    bool     // commands are allowed by the flag
	Confirm int      // line ends the user types
	Allow   []string // the allow-list
	NoWay   bool     // nothing can be confirmed
	Base    bool     // no prediction: compare with the same run without faults
}

func (e *execInfo) put(cs *sim.Case) {
	b, _ := json.Marshal(e)
	if cs.P == nil {
		cs.P = map[string]string{}
	}
	cs.P["exec"] = string(b)
	cs.Whole = true
}

func execOf(cs *sim.Case) *execInfo {
	var e execInfo
	if err := json.Unmarshal([]byte(cs.P["exec"]), &e); err != nil {
		panic(err)
	}
	return &e
}

// expect lists the calls that are authorised, up to the first that is not.
func (e *execInfo) expect() (started []gen.ECall, all bool) {
	k := e.Confirm
	for i, c := range e.Calls {
		if c.Pkg != "" {
			ok := false
			for _, p := range e.Allow {
				ok = ok || gen.Match(p, c.Pkg)
			}
			if !ok {
				return e.Calls[:i], false
			}
			continue
		}
		if e.Flag {
			continue
		}
		if k == 0 || e.NoWay {
			return e.Calls[:i], false
		}
		k--
	}
	return e.Calls, true
}

// execProject makes a script with n calls in contexts.
func execProject(r *sim.Rand, n int, first string, opt func(x *gen.Execs)) *gen.Execs {
	b := gen.New(r)
	x := &gen.Execs{B: b}
	if opt != nil {
		opt(x)
	}
	if first != "" {
		for _, c := range gen.Contexts {
			if c.Name == first {
				c.F(x)
				b.Tags = append(b.Tags, c.Name)
			}
		}
	}
	for range n {
		c := sim.Pick(r, gen.Contexts)
		c.F(x)
		b.Tags = append(b.Tags, c.Name)
		if r.P(1, 5) {
			b.Doc("%s", "plain: "+b.Scalar()+"\n")
		}
	}
	if len(b.Docs) == 0 {
		b.Doc("nothing: 1\n")
	}
	return x
}

// execCase makes a case of a script; auth is how its commands are authorised.
func execCase(r *sim.Rand, prop, name, auth string, x *gen.Execs) *sim.Case {
	b := x.B
	info := &execInfo{Calls: x.Calls, Hex: x.Hex, Fail: x.Fail, Allow: b.GoPkgs}
	cmds := 0
	for _, c := range x.Calls {
		if c.Pkg == "" {
			cmds++
		}
	}
	switch auth {
	case "flag":
		b.AllowCmd, info.Flag = true, true
		if r.P(1, 3) {
			b.Main = sim.Pick(r, []string{"rel", "dir"})
		} else if r.P(1, 6) {
			b.Main = "stdin"
		}
	case "typed", "typed-eof", "typed-err":
		k := cmds
		if auth != "typed" || r.P(1, 4) {
			k = r.N(cmds + 2)
		}
		b.Stdin = &kern.StreamSpec{Parts: []string{strings.Repeat("\n", k)}, TTY: r.P(1, 2), Chunks: []int{1}}
		if auth == "typed-err" {
			b.Stdin.End = sim.Pick(r, []string{"EIO", "EAGAIN", "EISDIR", "EBADF"})
		}
		info.Confirm = k
		if r.P(1, 3) {
			b.Main = sim.Pick(r, []string{"rel", "dir"})
		}
	case "script": // the script is on standard input, read to its end
		b.Main, info.NoWay = "stdin", true
	case "data": // the script includes what is on standard input
		b.Stdin = &kern.StreamSpec{Parts: []string{b.Data(), "---\n" + b.Data()}}
		info.NoWay = true
		b.Docs = append([]string{"!yisp [include, \"-\"]\n"}, b.Docs...)
	case "none":
		info.NoWay = true
	}
	var extra []string
	if auth != "flag" && r.P(1, 6) {
		extra = append(extra, "--allow-untyped-manifest")
	}
	extra = append(extra, singleDoc(nil, r)...)
	if b.Main != "stdin" && auth != "data" && r.P(1, 4) {
		// the same in one document, for the other output format
		b.File("everything.yisp", strings.Join(b.Docs, "---\n"))
		b.Docs = []string{"all: !yisp [include, everything.yisp]\n"}
		extra = append(extra, sim.Pick(r, []string{"-ojson", "--output=json"}))
		b.Tags = append(b.Tags, "json")
	}
	cs := project(prop, name, b, extra...)
	cs.Tags = append(cs.Tags, "auth-"+auth)
	if r.P(1, 2) {
		// there are shells, and nobody asked for one
		for _, q := range []string{"/bin/sh", "/usr/bin/sh", "/usr/bin/bash", "/usr/bin/env", "/usr/bin/sudo"} {
			cs.World.Progs = append(cs.World.Progs, kern.ProgSpec{Path: q, Kind: "args"})
		}
	}
	if r.P(1, 2) {
		// nothing in the environment stands in for an authorisation
		for range 1 + r.N(4) {
			cs.Phases[0].Procs[0].Env[sim.Pick(r, []string{"CI", "YISP_ALLOW_CMD", "ALLOW_CMD", "YISP_ALLOWEDGOPKGS", "ALLOWEDGOPKGS", "GITHUB_ACTIONS", "DEBIAN_FRONTEND", "TERM", "FORCE", "YES", "ASSUME_YES", "DEBUG", "NONINTERACTIVE", "YISP_DEBUG", "KPT", "TESTING"})] = sim.Pick(r, []string{"1", "true", "yes", "noninteractive", "dumb", "*", "example.com/*", ""})
		}
		cs.Tags = append(cs.Tags, "environment")
	}
	info.put(cs)
	return cs
}

// allowVariants changes the allow-list and keeps the books.
func allowVariant(r *sim.Rand, cs *sim.Case) *sim.Case {
	d := cs.Clone()
	e := execOf(d)
	var pkgs []string
	for _, c := range e.Calls {
		if c.Pkg != "" {
			pkgs = append(pkgs, c.Pkg)
		}
	}
	if len(pkgs) == 0 {
		return nil
	}
	var l []string
	switch r.N(4) {
	case 0: // nothing
	case 1:
		for _, p := range pkgs {
			l = append(l, gen.NearMisses(r, p))
		}
	case 2:
		l = append(l, e.Allow[:r.N(len(e.Allow)+1)]...)
		l = append(l, gen.NearMisses(r, sim.Pick(r, pkgs)))
	case 3:
		for _, p := range pkgs {
			if r.P(1, 2) {
				l = append(l, p)
			} else {
				l = append(l, gen.NearMisses(r, p))
			}
		}
		sim.Shuffle(r, l)
	}
	e.Allow = l
	e.put(d)
	for i, f := range d.World.Files {
		if f.Path == gen.Config().Path {
			d.World.Files[i] = quotedConfig(l)
		}
	}
	d.Name += "+allow"
	d.Tags = append(d.Tags, "allow-list")
	return d
}

func quotedConfig(l []string) kern.FileSpec {
	s := "allowedgopkgs:"
	if len(l) == 0 {
		s += " []"
	}
	s += "\n"
	for _, p := range l {
		s += fmt.Sprintf("    - %q\n", p)
	}
	f := gen.Config()
	f.Parts = []string{s}
	return f
}

// lookAlikes asks for packages that only resemble allowed ones.
func lookAlikes(r *sim.Rand, prop string) *sim.Case {
	b := gen.New(r)
	pat := "example.com/" + b.Word() + "/" + b.Word() + ".v1"
	if r.P(1, 3) {
		pat = "example.com/" + b.Word() + "/*"
	}
	e := &execInfo{Allow: []string{pat, "other.example/x"}}
	b.GoPkgs = e.Allow
	b.Prog("go", kern.ProgSpec{Kind: "args"})
	for range 1 + r.N(3) {
		p := gen.LookAlike(r, pat)
		b.Doc("v: !yisp [exec.go, {pkg: %q, asString: true}]\n", p)
		e.Calls = append(e.Calls, gen.ECall{Pkg: p, Argv: []string{"go", "run", p}})
	}
	_, all := e.expect()
	if all { // the entry does match
		return nil
	}
	b.AllowCmd = r.P(1, 2)
	e.Flag = b.AllowCmd
	cs := project(prop, "look-alike", b)
	e.put(cs)
	cs.Tags = append(cs.Tags, "look-alike")
	return cs
}

// configTrouble makes the allow-list unreadable, absent or broken: nothing is
// then allowed.
func configTrouble(r *sim.Rand, cs *sim.Case) *sim.Case {
	d := cs.Clone()
	e := execOf(d)
	e.Allow = nil
	var keep []kern.FileSpec
	cfg := gen.Config().Path
	kind := r.N(4)
	for _, f := range d.World.Files {
		if f.Path == cfg {
			switch kind {
			case 0: // absent
				continue
			case 1: // empty
				f.Parts = nil
			case 2: // broken
				f.Parts = []string{"allowedgopkgs: [example.com/*\n"}
				e.Base = true
			case 3: // elsewhere
				d.Phases[0].Procs[0].Env["HOME"] = "/home/v"
				f.Path = cfg
			}
		}
		keep = append(keep, f)
	}
	d.World.Files = keep
	if kind == 2 {
		// The command may refuse to work at all.
		e.Calls = nil
		e.Base = false
		e.Fail = true
	}
	e.put(d)
	d.Name += "+config"
	return d
}

// krmExec runs commands in a KRM function: nobody can confirm anything there,
// and no allow-list applies.
func krmExec(r *sim.Rand, prop string) *sim.Case {
	x := execProject(r, 1+r.N(2), "value", func(x *gen.Execs) { x.NoGo = r.P(1, 2); x.NoCmd = !x.NoGo && r.P(1, 2) })
	b := x.B
	w := b.World()
	script := strings.Join(b.Parts(), "")
	fn := map[string]any{"apiVersion": "krm.yisp.gammalab.net/v1", "kind": "Yisp", "spec": map[string]any{"yisp": script}}
	if r.P(1, 3) {
		fn["spec"] = map[string]any{"target": b.Dir + "/main.yisp"}
	}
	in, _ := json.Marshal(map[string]any{"apiVersion": "config.kubernetes.io/v1", "kind": "ResourceList", "functionConfig": fn, "items": []any{map[string]any{"apiVersion": "v1", "kind": "X", "data": b.Text(30)}}})
	p := kern.ProcSpec{Name: "a", Bin: "yisp", Args: []string{"krm"}, Env: gen.Env(), Cwd: b.Dir, Salt: 1, Stdin: &kern.StreamSpec{Parts: []string{string(in), strings.Repeat("\n", r.N(5))}}}
	cs := one(nil, prop, "krm", w, p)
	e := &execInfo{Calls: x.Calls, Hex: x.Hex, Fail: x.Fail, NoWay: true}
	e.put(cs)
	cs.Tags = append(append([]string{}, b.Tags...), "krm")
	return cs
}

var auths = []string{"flag", "typed", "typed-eof", "typed-err", "script", "data", "none"}

func c10Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 2
	if !c.Quick() {
		n = 8
	}
	for _, ct := range gen.Contexts {
		for _, a := range auths {
			for s := range n {
				r := sim.NewRand(c.Seed, "c10", ct.Name, a, s)
				x := execProject(r, r.N(2), ct.Name, nil)
				cs := execCase(r, "C10", ct.Name+"/"+a, a, x)
				out = append(out, cs)
				if d := allowVariant(r, cs); d != nil {
					out = append(out, d)
				}
			}
		}
	}
	for i := range 20 * n {
		r := sim.NewRand(c.Seed, "c10 more", i)
		if cs := lookAlikes(r, "C10"); cs != nil {
			out = append(out, cs)
		}
		out = append(out, krmExec(r, "C10"))
		x := execProject(r, 1, "value", func(x *gen.Execs) { x.NoCmd = true })
		out = append(out, configTrouble(r, execCase(r, "C10", "config", "flag", x)))
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c10 order"), out)
	return out
}

func c10Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	switch r.N(12) {
	case 0:
		return lookAlikes(r, "C10")
	case 1:
		return krmExec(r, "C10")
	}
	x := execProject(r, 1+r.N(4), "", nil)
	if r.P(1, 5) {
		x.Bad()
		for range r.N(2) {
			x.B.Doc("after: !yisp [exec.cmd, {cmd: never, asString: true}]\n")
		}
	}
	a := sim.Pick(r, auths)
	cs := execCase(r, "C10", "mix/"+a, a, x)
	if r.P(1, 4) {
		if d := allowVariant(r, cs); d != nil {
			cs = d
		}
	}
	if r.P(1, 10) {
		return configTrouble(r, cs)
	}
	if r.P(1, 2) {
		pts, _, err := c.Points(cs)
		if err != nil || len(pts) == 0 {
			return nil
		}
		cs.Phases[0].Faults = scatter(r, pts, 1+r.N(2))
		if r.P(1, 5) {
			pt := sim.Pick(r, pts)
			cs.Phases[0].Faults = append(cs.Phases[0].Faults, pt.At(sim.Pick(r, []string{"kill", "killafter"}), "", 0))
		}
	}
	return cs
}

func sameArgv(a, b []string) bool {
	return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
}

func argvText(l []gen.ECall) string {
	var s []string
	for _, c := range l {
		s = append(s, clipS(fmt.Sprintf("%q", c.Argv), 200))
	}
	return strings.Join(s, " ")
}

func spawnsText(l []kern.Spawn) string {
	var s []string
	for _, c := range l {
		s = append(s, clipS(fmt.Sprintf("%q", c.Argv), 200))
	}
	return strings.Join(s, " ")
}

func c10Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	e := execOf(cs)
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	c.Non(r)
	o := r.Out[0]["a"]
	if o.Hang || o.Panic {
		return dead(o), nil
	}
	faulty := cs.Faults() > 0
	want, all := e.expect()
	got := r.W.Spawns
	for i, s := range got {
		if i >= len(want) {
			sig := "a command ran without authorisation"
			if all {
				sig = "a command ran that the script does not ask for (again)"
			}
			return sim.V(sig, "%s\n  authorised, in order: %s\n  started: %s", faultText(allFaults(cs)), argvText(want), spawnsText(got)), nil
		}
		w := want[i]
		if !sameArgv(s.Argv, w.Argv) {
			return sim.V("a command ran with other arguments or in another order", "start %d: expected %q, got %q", i, w.Argv, s.Argv), nil
		}
		path := w.Argv[0]
		if !strings.HasPrefix(path, "/") {
			path = "/usr/bin/" + path
		}
		if s.Path != path {
			return sim.V("another program ran", "start %d: expected %s, got %s", i, path, s.Path), nil
		}
		switch {
		case w.HasIn && w.Stdin != "" && s.StdinIs != "pipe" && s.StdinIs != "file":
			return sim.V("a command did not get its standard input", "start %d %q: standard input is %s", i, clipS(fmt.Sprint(s.Argv), 100), s.StdinIs), nil
		case !w.HasIn && s.StdinIs != "null" && s.StdinIs != "none" && (s.StdinIs == "stream" || len(s.Stdin) > 0):
			return sim.V("a command got a standard input the script does not give", "start %d %q: standard input is %s, %d bytes", i, clipS(fmt.Sprint(s.Argv), 100), s.StdinIs, len(s.Stdin)), nil
		case !faulty && string(s.Stdin) != w.Stdin:
			return sim.V("a command got another standard input", "start %d %q: %s", i, clipS(fmt.Sprint(s.Argv), 100), diffAt(w.Stdin, string(s.Stdin))), nil
		case !strings.HasPrefix(w.Stdin, string(s.Stdin)):
			return sim.V("a command got another standard input", "start %d %q: %s", i, clipS(fmt.Sprint(s.Argv), 100), diffAt(w.Stdin, string(s.Stdin))), nil
		}
	}
	if v := c10Prompts(cs, e, r); v != nil {
		return v, nil
	}
	ok := o.Exit == 0 && o.Signal == 0
	switch {
	case ok && len(got) < len(want):
		return sim.V("a command was not run", "exit 0\n  authorised, in order: %s\n  started: %s", argvText(want), spawnsText(got)), nil
	case ok && (!all || e.Fail):
		return sim.V("success although a command was refused", "exit 0; authorised: %s; asked for: %s", argvText(want), argvText(e.Calls)), nil
	case !faulty && len(got) < len(want):
		return sim.V("an authorised command was not run", "exit %d (%s)\n  authorised, in order: %s\n  started: %s", o.Exit, firstLine(o.Stderr), argvText(want), spawnsText(got)), nil
	case !faulty && all && !e.Fail && !ok:
		return sim.V("a build whose commands are all authorised fails", "exit %d (%s)", o.Exit, firstLine(o.Stderr)), nil
	case !ok && o.Signal == 0 && !faultOn(cs, "stdout") && o.Stdout != "":
		return sim.V("a refused build printed a result", "exit %d, %d bytes", o.Exit, len(o.Stdout)), nil
	case ok && strings.Join(gen.Marks(o.Stdout), " ") != strings.Join(e.Hex, " "):
		return sim.V("wrong values", "digests in the output: %v\nexpected: %v", gen.Marks(o.Stdout), e.Hex), nil
	}
	if !all {
		c.Probe("refused")
	}
	if len(got) > 0 && !e.Flag && want[0].Pkg == "" {
		c.Probe("confirmed")
	}
	return nil, nil
}

// c10Prompts checks that each confirmed command was announced, and the
// confirmation read, before it started.
func c10Prompts(cs *sim.Case, e *execInfo, r *sim.Run) *sim.Violation {
	if e.Flag {
		return nil
	}
	i, typed := 0, 0
	told := false
	for _, ev := range r.W.Events {
		switch {
		case ev.Name == "write" && ev.Path == "stderr":
			told = true
		case ev.Name == "read" && ev.Path == "stdin" && ev.N > 0:
			if told {
				typed++
			}
		case ev.Name == "child":
			s := r.W.Spawns[i]
			if i < len(e.Calls) && e.Calls[i].Pkg == "" {
				if typed == 0 {
					return sim.V("a command ran without authorisation", "start %d %q: nothing was typed at its prompt", i, s.Argv)
				}
				typed, told = 0, false
			}
			i++
		}
	}
	return nil
}

// ---- C11

func c11Case(r *sim.Rand, n int, first string) *sim.Case {
	x := execProject(r, n, first, nil)
	cs := execCase(r, "C11", first, "flag", x)
	return cs
}

// c11Broken makes one program fail by itself, after part of its output.
func c11Broken(r *sim.Rand, cs *sim.Case, i int) *sim.Case {
	d := cs.Clone()
	p := &d.World.Progs[i]
	if r.P(1, 2) {
		p.Exit = sim.Pick(r, []int{1, 2, 3, 64, 77, 126, 127, 128, 130, 137, 254, 255})
	} else {
		p.Signal = sim.Pick(r, []int{1, 2, 3, 6, 9, 11, 13, 15})
	}
	switch r.N(3) {
	case 0:
		p.Stderr = ""
	case 1:
		p.Stderr = "error: it broke\n"
	}
	e := execOf(d)
	for k, c := range e.Calls {
		name := c.Argv[0]
		if !strings.HasPrefix(name, "/") {
			name = "/usr/bin/" + name
		}
		if name == p.Path {
			e.Calls, e.Fail = e.Calls[:k+1], true
			e.put(d)
			d.Name += "+fails"
			return d
		}
	}
	return nil
}

// pieces keeps the number of reads within reason.
func pieces(r *sim.Rand, cs *sim.Case, n int) int {
	size := 0
	for _, p := range cs.World.Progs {
		size += len(p.B64) + len(p.Stderr)
	}
	for _, f := range cs.World.Files {
		for _, s := range f.Parts {
			size += len(s)
		}
	}
	return max(n, size/3000)
}

// streamFaults strike a command or its streams.
func streamFaults(r *sim.Rand, pt sim.Point) []kern.Fault {
	switch {
	case pt.Op == "spawn":
		return []kern.Fault{
			pt.At("child", sim.Pick(r, []string{"ENOMEM", "EAGAIN", "EACCES", "E2BIG", "EIO", "ETXTBSY", "ENOENT"}), 0),
			pt.At("child", fmt.Sprintf("exit:%d", 1+r.N(255)), 0),
			pt.At("child", fmt.Sprintf("signal:%d", sim.Pick(r, []int{1, 2, 6, 9, 11, 13, 15})), r.N(100)),
			pt.At("child", "signal:9", 0),
		}
	case strings.HasPrefix(pt.Path, "pipe:") && pt.Op == "read":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EIO", "ENOMEM"}), 0), pt.At("short", "", 1+r.N(40)), pt.At("errno", "EINTR", 0)}
	case strings.HasPrefix(pt.Path, "pipe:") && pt.Op == "write":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EIO", "ENOSPC"}), 0), pt.At("short", "", 1+r.N(40)), pt.At("errno", "EINTR", 0)}
	case pt.Op == "pipe":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EMFILE", "ENFILE"}), 0)}
	}
	return nil
}

func c11Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 2
	if !c.Quick() {
		n = 10
	}
	for _, ct := range gen.Contexts {
		for s := range n {
			r := sim.NewRand(c.Seed, "c11", ct.Name, s)
			cs := c11Case(r, r.N(2), ct.Name)
			out = append(out, cs)
			d := cs.Clone()
			d.Phases[0].Procs[0].MaxIO = pieces(r, cs, 1+r.N(3000))
			out = append(out, d)
			for i := range cs.World.Progs {
				if d := c11Broken(r, cs, i); d != nil {
					out = append(out, d)
				}
			}
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range pts {
				l := streamFaults(r, pt)
				if len(l) > 1 && pt.Occ > 6 && r.P(3, 4) {
					continue
				}
				for i, f := range l {
					if c.Quick() && i > 0 && pt.Op != "spawn" && r.P(1, 2) {
						continue
					}
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c11 order"), out)
	return out
}

func c11Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	cs := c11Case(r, 1+r.N(4), "value")
	if r.P(1, 3) && len(cs.World.Progs) > 0 {
		if d := c11Broken(r, cs, r.N(len(cs.World.Progs))); d != nil {
			cs = d
		}
	}
	if r.P(1, 2) {
		cs.Phases[0].Procs[0].MaxIO = pieces(r, cs, sim.Pick(r, []int{1, 2, 3, 7, 16, 100, 511, 512, 513, 4095, 4096, 30000})+r.N(3))
	}
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	for range r.N(3) {
		var l []kern.Fault
		for k := 0; k < 40 && len(l) == 0; k++ {
			l = streamFaults(r, sim.Pick(r, pts))
		}
		if len(l) > 0 {
			cs.Phases[0].Faults = append(cs.Phases[0].Faults, sim.Pick(r, l))
		}
	}
	return cs
}

func c11Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	e := execOf(cs)
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		return v, nil
	}
	ok := o.Exit == 0
	must, may := e.Fail, false
	for _, f := range allFaults(cs) {
		switch {
		case f.Kind == "short" || f.Arg == "EINTR":
		case f.Path == "pipe:stderr":
			may = true
		case r.W.NFired < cs.Faults():
			may = true // it may not have been reached
		default:
			must = true
		}
	}
	if e.Fail || cs.Phases[0].Procs[0].MaxIO > 0 {
		c.Non(r)
	}
	switch {
	case must && ok:
		return sim.V("success although a command or its stream failed", "with %s: exit 0; standard output %s", faultText(allFaults(cs))+cs.Name, clipS(o.Stdout, 300)), nil
	case !ok && o.Stdout != "":
		return sim.V("a failed build printed a value", "with %s: exit %d (%s); standard output %s", faultText(allFaults(cs)), o.Exit, firstLine(o.Stderr), clipS(o.Stdout, 300)), nil
	case ok && strings.Join(gen.Marks(o.Stdout), " ") != strings.Join(e.Hex, " "):
		return sim.V("not the bytes the command wrote", "with %s: digests in the output: %v\nexpected: %v", faultText(allFaults(cs)), gen.Marks(o.Stdout), e.Hex), nil
	case !ok && !must && !may:
		return sim.V("failure although every command succeeded", "with %s: exit %d (%s)", faultText(allFaults(cs)), o.Exit, clipS(o.Stderr, 500)), nil
	}
	// Nothing runs after the failure.
	if must && len(r.W.Spawns) > len(e.Calls) {
		return sim.V("a command ran after the failure", "started: %s", spawnsText(r.W.Spawns)), nil
	}
	if !ok {
		c.Probe("failed")
	}
	return nil, nil
}

package props

import (
	"encoding/base64"
	"fmt"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C18", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated runs with different histories in which the command was disturbed (killed, power lost, an error anywhere, an output refused, a full disk)",
		Assume: []string{
			"access times and the modification times of directories are not compared",
			"what the external commands of a script do themselves is theirs",
			"a killed command may leave a temporary file beside the file it was writing, or in the temporary directory",
		},
		Real: realParts, Stub: stubParts,
		Plan: c18Plan, Random: c18Random, Judge: c18Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// command is one command of any kind, in a populated world.
func command(prop string, r *sim.Rand, kind string) *sim.Case {
	var cs *sim.Case
	switch kind {
	case "refresh":
		cs = c07Case(r, 1+r.N(4), sim.Pick(r, []string{"none", "full", "partial", "dirs"}))
		cs.Phases = cs.Phases[:1]
	case "allow":
		cs = cfgCase(r, sim.Pick(r, []string{"full", "full", "absent", "empty", "broken"}), 1)
		cs.Phases = cs.Phases[:1]
	case "version":
		cs = cfgCase(r, sim.Pick(r, []string{"full", "absent", "broken"}), 1)
		cs.Phases = cs.Phases[:1]
		a := cs.Phases[0].Procs[0].Args
		out := []string{}
		for i := 0; i < len(a); i++ {
			switch {
			case a[i] == "allow":
				out = append(out, "version")
			case a[i] == "--":
			case i > 0 && (a[i-1] == "allow" || a[i-1] == "--"):
			default:
				out = append(out, a[i])
			}
		}
		cs.Phases[0].Procs[0].Args = out
	case "krm":
		cs = gen.NewKRM(r, r.N(6)).Case(prop)
	default:
		var fs []gen.Feature
		switch r.N(3) {
		case 0:
			fs = pickFeatures(r, 1, func(f *gen.Feature) bool {
				return strings.HasPrefix(f.Name, "schema") || strings.HasPrefix(f.Name, "gvk") || strings.HasPrefix(f.Name, "remote") || strings.HasPrefix(f.Name, "files")
			})
		default:
			fs = pickFeatures(r, 1+r.N(3), nil)
		}
		if r.P(1, 6) {
			fs = append(fs, sim.Pick(r, gen.Errors))
		}
		cs = mix(prop, r, fs, singleDoc(fs, r)...)
		if r.P(1, 4) {
			// no configuration yet
			for i, f := range cs.World.Files {
				if f.Path == gen.Config().Path && !strings.Contains(cs.Name, "exec") {
					cs.World.Files = append(cs.World.Files[:i:i], cs.World.Files[i+1:]...)
					break
				}
			}
		}
	}
	cs.Phases[0].Procs[0].Name = "a"
	delete(cs.P, "cfg")
	cs.Prop = prop
	cs.Name = kind + ":" + cs.Name
	cs.Tags = append(cs.Tags, "command-"+kind)
	return cs
}

var commands = []string{"build", "build", "build", "build", "krm", "refresh", "refresh", "allow", "allow", "version"}

// bystanders are files no command has any business with.
func bystanders(r *sim.Rand, cs *sim.Case) {
	have := map[string]bool{}
	for _, f := range cs.World.Files {
		have[f.Path] = true
	}
	add := func(f kern.FileSpec) {
		if !have[f.Path] {
			cs.World.Files = append(cs.World.Files, f)
		}
	}
	add(kern.FileSpec{Path: "/home/u/.bashrc", Parts: []string{"umask 022\n"}, Mode: 0o600})
	add(kern.FileSpec{Path: "/home/u/notes.txt", Parts: []string{"do not lose\n"}})
	add(kern.FileSpec{Path: "/tmp/.tmp-123", Parts: []string{"mine\n"}})
	add(kern.FileSpec{Path: "/work/.keep~", Parts: []string{"\n"}, Mode: 0o444})
	add(kern.FileSpec{Path: "/work/.lnk~", Link: "/etc/hosts"})
	add(kern.FileSpec{Path: "/etc/hosts", Parts: []string{"127.0.0.1 localhost\n"}})
	if r.P(1, 2) {
		cfg := gen.Config().Path
		dir := cfg[:strings.LastIndexByte(cfg, '/')]
		add(kern.FileSpec{Path: dir + "/other.yaml", Parts: []string{"a: 1\n"}})
		add(kern.FileSpec{Path: dir + "/config.yaml.bak", Parts: []string{"old\n"}})
	}
	if r.P(1, 2) {
		add(kern.FileSpec{Path: "/home/u/.cache/other/x", Parts: []string{"x\n"}})
		add(kern.FileSpec{Path: gen.Cache + "/notes", Parts: []string{"x\n"}})
		add(kern.FileSpec{Path: gen.Cache + "/schemas/old.json", Parts: []string{`{"type": "object"}`}})
		add(kern.FileSpec{Path: gen.Cache + "/schemas/" + base64.StdEncoding.EncodeToString([]byte("https://verif.example/unused")) + ".json", Parts: []string{`{"type": "integer"}`}})
		add(kern.FileSpec{Path: gen.Cache + "/gvk/old.example_v1_Gone.txt", Parts: []string{"old"}})
	}
	if r.P(1, 2) {
		cfg := gen.Config().Path
		dir := cfg[:strings.LastIndexByte(cfg, '/')]
		for _, d := range []string{dir, gen.Cache, gen.Cache + "/schemas", gen.Cache + "/gvk", "/work", "/home/u"} {
			if r.P(1, 2) {
				add(kern.FileSpec{Path: d + "/" + sim.Pick(r, []string{".gitignore", ".notes", ".nfs0001", ".config.yaml.swp", ".git/config", "core", "config.yaml~", "lost+found/x", ".tmp-notes", ".tmp-1234567890"}), Parts: []string{"mine\n"}})
			}
		}
	}
	if what := doing(&cs.Phases[0].Procs[0]); what == "build" || what == "krm" {
		progs := map[string]bool{}
		for _, p := range cs.World.Progs {
			progs[p.Path] = true
		}
		for _, p := range idle {
			if !progs[p] {
				cs.World.Progs = append(cs.World.Progs, kern.ProgSpec{Path: p, Kind: "fixed", Stdout: []string{"idle\n"}})
			}
		}
	}
	// Permissions of the files the commands replace.
	for i := range cs.World.Files {
		f := &cs.World.Files[i]
		if !f.Dir && f.Link == "" && f.Mode == 0 && strings.HasPrefix(f.Path, "/home/u/") && r.P(1, 2) {
			f.Mode = sim.Pick(r, []uint32{0o600, 0o640, 0o644, 0o664})
		}
	}
}

// disturb adds something that goes wrong.
func disturb(r *sim.Rand, cs *sim.Case, pts []sim.Point) {
	ph := &cs.Phases[0]
	p := &ph.Procs[0]
	switch r.N(10) {
	case 0:
		p.Stdout = &kern.SinkSpec{Limited: true, Limit: r.N(200), Errno: sim.Pick(r, sinkErrors[:6]), NoSignal: r.P(1, 2)}
	case 1:
		ph.Edit = &kern.Edit{Quota: int64(1 + r.N(sim.Pick(r, []int{60, 600, 6000})))}
	case 2:
		p.Stdin = &kern.StreamSpec{End: sim.Pick(r, []string{"", "EIO"})}
	}
	if r.P(1, 12) { // nowhere to keep anything
		delete(p.Env, "HOME")
		if r.P(1, 2) {
			p.Env["HOME"] = ""
		}
	}
	if len(pts) > 0 && r.P(9, 10) {
		for range 1 + r.N(2) {
			ph.Faults = append(ph.Faults, sim.Pick(r, crashes(r, pick2(r, pts))))
		}
	}
}

// pick2 prefers operations that change something.
func pick2(r *sim.Rand, pts []sim.Point) sim.Point {
	if r.P(1, 2) {
		var l []sim.Point
		for _, p := range pts {
			switch p.Op {
			case "write", "rename", "unlink", "mkdir", "fsync", "chmod", "ftruncate", "http", "httpread", "spawn", "flock", "link":
				l = append(l, p)
			}
		}
		if len(l) > 0 {
			return sim.Pick(r, l)
		}
	}
	return sim.Pick(r, pts)
}

func c18Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 1
	if !c.Quick() {
		n = 10
	}
	for s := range n {
		for i, kind := range []string{"build", "krm", "refresh", "refresh", "allow", "allow", "version"} {
			r := sim.NewRand(c.Seed, "c18", kind, i, s)
			cs := command("C18", r, kind)
			bystanders(r, cs)
			out = append(out, cs)
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range thin(r, pts, 4) {
				l := crashes(r, pt)
				if c.Quick() {
					l = []kern.Fault{sim.Pick(r, l), sim.Pick(r, l)}
				}
				for _, f := range l {
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
		// What is there is not known for a moment, just before it is replaced.
		for i, kind := range []string{"allow", "allow", "allow", "refresh"} {
			r := sim.NewRand(c.Seed, "c18 stat", i, s)
			cs := command("C18", r, kind)
			bystanders(r, cs)
			for k := range cs.World.Files {
				if f := &cs.World.Files[k]; !f.Dir && f.Link == "" && strings.HasPrefix(f.Path, "/home/u/") {
					f.Mode = sim.Pick(r, []uint32{0o600, 0o640, 0o664})
				}
			}
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range thin(r, pts, 4) {
				if pt.Op != "stat" && pt.Op != "fstat" && pt.Op != "access" {
					continue
				}
				for _, f := range ioFaults(r, pt) {
					d := cs.Clone()
					d.Phases[0].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
		}
		for _, f := range allFeatures() {
			r := sim.NewRand(c.Seed, "c18 feature", f.Name, s)
			b := gen.New(r)
			b.Add(f)
			b.Main = mainMode(r, []gen.Feature{f})
			cs := project("C18", "build:"+f.Name, b, singleDoc(nil, r)...)
			bystanders(r, cs)
			out = append(out, cs)
			pts, _, err := c.Points(cs)
			if err != nil || len(pts) == 0 {
				continue
			}
			for range 12 {
				d := cs.Clone()
				disturb(r, d, pts)
				out = append(out, d)
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c18 order"), out)
	return out
}

func c18Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	cs := command("C18", r, sim.Pick(r, commands))
	bystanders(r, cs)
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	if r.P(9, 10) {
		disturb(r, cs, pts)
	}
	return cs
}

// doing tells which command a process runs.
func doing(p *kern.ProcSpec) string {
	for _, a := range p.Args {
		switch a {
		case "build", "krm", "allow", "version", "cache-kube-schemas":
			return a
		}
	}
	return ""
}

// configOf is the configuration file a process uses, links followed.
func configOf(cs *sim.Case, p *kern.ProcSpec) string {
	path := gen.Config().Path
	for i, a := range p.Args {
		switch {
		case (a == "-c" || a == "--config") && i+1 < len(p.Args):
			path = p.Args[i+1]
		case strings.HasPrefix(a, "--config="):
			path = a[len("--config="):]
		}
	}
	for _, f := range cs.World.Files {
		if f.Path == path && f.Link != "" {
			return f.Link
		}
	}
	return path
}

func urlsOf(r *sim.Run) map[string]bool {
	m := map[string]bool{}
	for _, e := range r.W.Events {
		if e.Name == "http" {
			m[e.Path] = true
		}
	}
	return m
}

func c18Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	p := &cs.Phases[0].Procs[0]
	o := r.Out[0][p.Name]
	if v := dead(o); v != nil && !(o.Signal == 13 && p.Stdout != nil) {
		return v, nil
	}
	if cs.Phases[0].Edit != nil || p.Stdout != nil {
		c.Non(r)
	}
	what := doing(p)
	cfg := configOf(cs, p)
	cfgDir := cfg[:strings.LastIndexByte(cfg, '/')]
	root := gen.Cache
	if what == "cache-kube-schemas" && cs.P["root"] != "" {
		root = cs.P["root"]
	}
	caches := what == "build" || what == "krm" || what == "cache-kube-schemas"
	// A command that could not clean up may leave something to clean up.
	loose := o.Killed || o.Signal != 0
	for _, f := range cs.Phases[0].Faults {
		if f.Op == "unlink" || f.Op == "*" || strings.HasPrefix(f.Kind, "power") {
			loose = true
		}
	}
	when := fmt.Sprintf("%s (exit %d)", what, o.Exit)
	if len(cs.Phases[0].Faults) > 0 {
		when += " with " + faultText(cs.Phases[0].Faults)
	}
	before, after := kern.NewWorld(&cs.World, c.Bins).FS.State(), r.W.FS.State()
	for _, q := range uniq(append(keysOf(before), keysOf(after)...)) {
		b, had := before[q]
		a, has := after[q]
		if had && has && a == b {
			continue
		}
		dir := has && strings.HasPrefix(a, "d")
		inCache := caches && strings.HasPrefix(q, root+"/")
		switch {
		case !had && dir && (strings.HasPrefix(cfgDir+"/", q+"/") || caches && (strings.HasPrefix(root+"/gvk/", q+"/") || strings.HasPrefix(root+"/schemas/", q+"/"))):
			continue
		case q == cfg && !had && strings.HasPrefix(a, "f"):
			continue
		case q == cfg && what == "allow" && has && had:
			if mode(a) != mode(b) {
				return sim.V("permissions of the configuration changed", "%s: %s was %s, is %s", when, q, mode(b), mode(a)), nil
			}
			continue
		case !had && loose && !dir && (strings.HasPrefix(q, cfgDir+"/") || inCache || strings.HasPrefix(q, "/tmp/")):
			continue
		case inCache && has && !dir && (strings.HasPrefix(q, root+"/schemas/") && strings.HasSuffix(q, ".json") ||
			what == "cache-kube-schemas" && strings.HasPrefix(q, root+"/gvk/") && strings.HasSuffix(q, ".txt")):
			if !had || what == "cache-kube-schemas" {
				continue
			}
		}
		switch {
		case !has:
			return sim.V("a file was removed", "%s: %s (%s) is gone", when, q, clipS(b, 200)), nil
		case !had:
			return sim.V("a file was left behind", "%s: %s is new: %s", when, q, clipS(a, 200)), nil
		}
		return sim.V("a file was changed", "%s: %s was %s, is %s", when, q, clipS(b, 200), clipS(a, 200)), nil
	}
	// Who was asked over the network, and which programs ran.
	for _, u := range keysOf(urlsOf(r)) {
		if what != "build" && what != "krm" {
			return sim.V("a needless request", "%s asked for %s", when, u), nil
		}
		if !served(cs, u) && !named(cs, u) {
			return sim.V("a request nobody asked for", "%s asked for %s, which its inputs do not name", when, u), nil
		}
	}
	if what == "build" || what == "krm" {
		for _, s := range r.W.Spawns {
			for _, b := range idle {
				if s.Path == b && !named(cs, b[strings.LastIndexByte(b, '/')+1:]) {
					return sim.V("a program nobody asked for", "%s started %s", when, strings.Join(s.Argv, " ")), nil
				}
			}
		}
	}
	if what != "build" && what != "krm" {
		for _, s := range r.W.Spawns {
			if what != "cache-kube-schemas" || !strings.HasSuffix(s.Path, "kubectl") {
				return sim.V("a needless program", "%s started %s", when, strings.Join(s.Argv, " ")), nil
			}
		}
	}
	return nil, nil
}

func mode(s string) string { return strings.SplitN(s, " ", 2)[0] }

// served tells whether the world has an answer for the URL.
func served(cs *sim.Case, u string) bool {
	for _, h := range cs.World.HTTP {
		if h.URL == u || h.Header["Location"] == u {
			return true
		}
	}
	return false
}

// idle are programs no command has any business with, unless its inputs name
// them.
var idle = []string{"/usr/bin/git", "/usr/bin/hg", "/usr/bin/uname", "/usr/bin/hostname", "/usr/bin/id", "/usr/bin/curl", "/usr/bin/xdg-open", "/usr/bin/kubectl", "/usr/bin/go", "/usr/bin/helm", "/usr/bin/kustomize", "/usr/bin/stty", "/usr/bin/tput", "/usr/bin/less", "/usr/bin/getent"}

// named tells whether any input names the URL.
func named(cs *sim.Case, u string) bool {
	in := func(parts []string, b64 string) bool {
		if b64 != "" {
			b, _ := unB64(b64)
			// wide encodings: compare without the zero bytes
			return strings.Contains(strings.ReplaceAll(string(b), "\x00", ""), u)
		}
		return strings.Contains(strings.Join(parts, ""), u)
	}
	for _, f := range cs.World.Files {
		if in(f.Parts, f.B64) {
			return true
		}
	}
	for _, h := range cs.World.HTTP {
		if in(h.Parts, h.B64) {
			return true
		}
	}
	for _, p := range cs.Phases[0].Procs {
		if strings.Contains(strings.Join(p.Args, " "), u) || p.Stdin != nil && in(p.Stdin.Parts, p.Stdin.B64) {
			return true
		}
	}
	return false
}

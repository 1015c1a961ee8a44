package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C09", Bins: []string{"yisp"}, Level: "fault_enumeration",
		Rule: "simulated histories of configuration changes with a crash, power loss, error or concurrent command that took effect",
		Assume: []string{
			"settings have lower-case names without dots and values other than null: the configuration library folds the rest",
			"comments and layout of the file are not settings",
			"after power loss the disk holds a prefix of the journal of name changes and, per file, synced data plus a torn prefix of the rest",
		},
		Real: realParts, Stub: stubParts,
		Plan: c09Plan, Random: c09Random, Judge: c09Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

// cfgInfo is what the judge knows.
type cfgInfo struct {
	Path  string
	Allow map[string]string // process -> package it allows
	Use   map[string]string // process -> package it runs
	Bad   bool              // the configuration is not valid
}

func (i *cfgInfo) put(cs *sim.Case) {
	b, _ := json.Marshal(i)
	cs.P = map[string]string{"cfg": string(b)}
	cs.Fixed, cs.Whole = true, true
}

func cfgOf(cs *sim.Case) *cfgInfo {
	i := &cfgInfo{}
	json.Unmarshal([]byte(cs.P["cfg"]), i)
	return i
}

var pkgNames = []string{"example.com/a", "example.com/a/b@v1.2.3", "github.com/x/y/cmd/tool@latest", "./local", "a", "example.com/ünï", "k8s.io/*", "*", "x y", "- z", "#c", "a: b", "true", "007", "'q", "github.com/x/y/cmd/tool@v1.0.0", "github.com/X/y/cmd/Tool@latest", "github.com/BurntSushi/toml/cmd/tomlv@v1.2.0", "example.com/a/", "example.com/a/b", "example.com/a/b@v1.2.4", "EXAMPLE.com/a", "null", "~", "[x]", "{y: z}", "a,b", "a,", " lead", "tail ", "\"q\"", "%s", "$HOME/x", "a.b.c", "&x", "!t", "| x", "> y", "1.10", "1e3", "é", "e\u0301", "\u2028", "example.com/" + strings.Repeat("deep/", 60) + "x"}

// cfgText makes a configuration with entries and other settings.
func cfgText(r *sim.Rand, asJSON bool) string {
	m := map[string]any{}
	var l []any
	for i := range r.N(5) {
		l = append(l, fmt.Sprintf("example.com/old%d", i))
	}
	for r.P(1, 3) {
		l = append(l, sim.Pick(r, pkgNames))
	}
	if r.P(1, 8) {
		for i := range 200 {
			l = append(l, fmt.Sprintf("example.com/many/%d", i))
		}
	}
	if l != nil || r.P(1, 2) {
		if l == nil {
			l = []any{}
		}
		m["allowedgopkgs"] = l
	}
	b := gen.New(r)
	for _, k := range []string{"theme", "proxy", "other", "nested"} {
		switch r.N(6) {
		case 0:
			m[k] = b.Text(b.R.N(30) + 1)
		case 1:
			m[k] = r.N(1000)
		case 2:
			m[k] = r.P(1, 2)
		case 3:
			m[k] = []any{"x", b.Word(), "1.10", "yes"}
		case 4:
			m[k] = map[string]any{"inner": b.Word(), "list": []any{1, 2}, "deep": map[string]any{"v": "0x10"}}
		}
	}
	if asJSON {
		j, _ := json.MarshalIndent(m, "", " ")
		return string(j)
	}
	if len(m) == 0 {
		return "# nothing yet\n"
	}
	y, _ := yaml.Marshal(m)
	s := string(y)
	if r.P(1, 3) {
		s = "# my settings\n" + s
	}
	return s
}

// cfgCase is a history of commands on one configuration. conc is the number of
// commands at a time in the first phase.
func cfgCase(r *sim.Rand, kind string, conc int) *sim.Case {
	return cfgCaseAt(r, kind, conc, r.N(8))
}

// cfgCaseAt chooses where the configuration is: named, named and in JSON,
// behind a symbolic link, or at its usual place.
func cfgCaseAt(r *sim.Rand, kind string, conc, place int) *sim.Case {
	path := gen.Config().Path
	var args []string
	asJSON := false
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000}
	switch place {
	case 0:
		path = "/work/conf/y.yaml"
		args = []string{"-c", path}
	case 1:
		path = "/work/conf/y.json"
		args = []string{"--config=" + path}
		asJSON = true
	case 2:
		path = "/home/u/dotfiles/yisp.yaml"
		w.Files = append(w.Files, kern.FileSpec{Path: gen.Config().Path, Link: "/home/u/dotfiles/yisp.yaml"})
	}
	text := cfgText(r, asJSON)
	info := &cfgInfo{Path: path, Allow: map[string]string{}, Use: map[string]string{}}
	var old []string
	switch kind {
	case "absent":
		if len(w.Files) > 0 {
			w.Files, path, args = nil, gen.Config().Path, nil
			info.Path = path
		}
	case "empty":
		if asJSON {
			text = "{}"
		} else {
			text = sim.Pick(r, []string{"", "# nothing\n", "{}\n"})
		}
		w.Files = append(w.Files, kern.FileSpec{Path: path, Parts: []string{text}})
	case "broken":
		text = sim.Pick(r, []string{"allowedgopkgs: [example.com/a\n", "allowedgopkgs:\n- a\n b: c\n", "\x00\x01", "a: b: c\n", "\t- x\n", "<html>"})
		if asJSON {
			text = sim.Pick(r, []string{"{\"allowedgopkgs\": [\"a\"", "[", "x"})
		}
		info.Bad = true
		w.Files = append(w.Files, kern.FileSpec{Path: path, Parts: []string{text}})
	default:
		w.Files = append(w.Files, kern.FileSpec{Path: path, Parts: []string{text}})
		m, _ := cfgParse(text)
		old = pkgsOf(m)
	}
	w.Progs = []kern.ProgSpec{{Path: "/usr/bin/go", Kind: "args"}}
	w.Files = append(w.Files, kern.FileSpec{Path: "/work/m/plain.yisp", Parts: []string{"a: !yisp [+, 1, 2]\n"}})
	cs := one(nil, "C09", "config-"+kind, w)
	cs.Phases = nil
	n := 0
	pkgs := append([]string{}, pkgNames[:4]...)
	switch r.N(4) {
	case 0, 1:
		pkgs = append([]string{}, pkgNames...)
	case 2:
		// entries that differ in little
		p := sim.Pick(r, pkgNames)
		pkgs = []string{p, strings.ToUpper(p), p + "@v2", p + "/", p + "s", strings.Split(p, "@")[0], p[:len(p)-1]}
		if !utf8.ValidString(pkgs[6]) || pkgs[6] == "" {
			pkgs = pkgs[:6]
		}
	}
	used := append([]string{}, old...)
	proc := func(what string) kern.ProcSpec {
		name := fmt.Sprintf("p%d", n)
		n++
		p := kern.ProcSpec{Name: name, Bin: "yisp", Env: gen.Env(), Cwd: "/work", Salt: uint64(1 + r.N(1000))}
		switch what {
		case "allow":
			k := sim.Pick(r, pkgs)
			if r.P(1, 3) {
				k = fmt.Sprintf("example.com/p%d", r.N(30))
			}
			if strings.HasPrefix(k, "-") {
				p.Args = append(append([]string{}, args...), "allow", "--", k)
			} else {
				p.Args = append([]string{"allow", k}, args...)
			}
			info.Allow[name] = k
			used = append(used, k)
		case "use":
			k := "example.com/none"
			if len(used) > 0 && r.P(9, 10) {
				k = sim.Pick(r, used)
			}
			f := fmt.Sprintf("/work/m/use%d.yisp", n)
			j, _ := json.Marshal(k)
			cs.World.Files = append(cs.World.Files, kern.FileSpec{Path: f, Parts: []string{fmt.Sprintf("g: !yisp [exec.go, {pkg: %s, args: !quote [one], asString: true}]\n", j)}})
			p.Args = append(append([]string{}, args...), "build", f)
			info.Use[name] = k
		case "version":
			p.Args = append(append([]string{}, args...), "version")
		default:
			p.Args = append([]string{"build", "/work/m/plain.yisp"}, args...)
		}
		return p
	}
	phase := func(what ...string) {
		ph := kern.Phase{}
		for _, s := range what {
			ph.Procs = append(ph.Procs, proc(s))
		}
		cs.Phases = append(cs.Phases, ph)
	}
	first := []string{"allow"}
	for range conc - 1 {
		first = append(first, sim.Pick(r, []string{"allow", "allow", "use", "build", "version"}))
	}
	phase("allow")
	phase(first...)
	phase(sim.Pick(r, []string{"version", "build", "use", "allow"}))
	phase("use", "use")
	phase("allow")
	phase("use", "use")
	info.put(cs)
	return cs
}

// cfgParse reads a configuration.
func cfgParse(s string) (map[string]any, bool) {
	m := map[string]any{}
	if yaml.Unmarshal([]byte(s), &m) != nil {
		return nil, false
	}
	out := map[string]any{}
	for k, v := range m {
		out[strings.ToLower(k)] = v
	}
	return out, true
}

func pkgsOf(m map[string]any) []string {
	l, _ := m["allowedgopkgs"].([]any)
	var out []string
	for _, x := range l {
		out = append(out, fmt.Sprint(x))
	}
	return out
}

// settings are everything but the allow-list, in comparable form.
func settings(m map[string]any) string {
	o := map[string]any{}
	for k, v := range m {
		if k != "allowedgopkgs" {
			o[k] = v
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		return fmt.Sprint(o)
	}
	return string(b)
}

func c09Plan(c *sim.Ctx) []*sim.Case {
	var out, first []*sim.Case
	n := 1
	if !c.Quick() {
		n = 10
	}
	kinds := []string{"full", "absent", "empty", "broken", "full", "full", "full"}
	for s := range n {
		for ki, kind := range kinds {
			r := sim.NewRand(c.Seed, "c09", kind, ki, s)
			place := r.N(8)
			if ki > 3 {
				place = ki - 4
			}
			cs := cfgCaseAt(r, kind, 1, place)
			out = append(out, cs)
			pts, _, err := c.Points(cs)
			if err != nil {
				continue
			}
			for _, pt := range pts {
				if pt.Phase > 2 || pt.Phase != 1 && c.Quick() && r.P(1, 2) {
					continue
				}
				l := crashes(r, pt)
				if place == 2 && pt.Phase == 1 && s == 0 {
					// where the file is, is not known for a moment
					for _, f := range l {
						if f.Kind == "errno" && (pt.Op == "stat" || pt.Op == "readlink") {
							d := cs.Clone()
							d.Phases[pt.Phase].Faults = []kern.Fault{f}
							first = append(first, d)
						}
					}
				}
				if r.P(1, 3) {
					l = append(l, pt.At("power", "", r.N(1000)))
				}
				if c.Quick() && len(l) > 3 {
					sim.Shuffle(r, l)
					l = l[:3]
				}
				for _, f := range l {
					d := cs.Clone()
					d.Phases[pt.Phase].Faults = []kern.Fault{f}
					out = append(out, d)
				}
			}
			for range 4 {
				d := cs.Clone()
				d.Name += "-full-disk"
				d.Phases[1].Edit = &kern.Edit{Quota: int64(1 + r.N(500))}
				d.Phases[3].Edit = &kern.Edit{Quota: -1}
				out = append(out, d)
			}
		}
	}
	sim.Shuffle(sim.NewRand(c.Seed, "c09 order"), out)
	return append(first, out...)
}

func c09Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	conc := 1
	if r.P(3, 4) {
		conc = 2 + r.N(4)
	}
	cs := cfgCase(r, sim.Pick(r, []string{"full", "full", "full", "absent", "empty", "broken"}), conc)
	pts, _, err := c.Points(cs)
	if err != nil {
		return nil
	}
	by := map[int][]sim.Point{}
	for _, p := range pts {
		by[p.Phase] = append(by[p.Phase], p)
	}
	ph := &cs.Phases[1]
	if conc > 1 {
		// Switch steps count over the whole history.
		base := uint64(len(by[0]))
		if r.P(1, 2) {
			weave(r, ph, by[1], base, 1+r.N(20), r.P(1, 3))
		} else {
			interleave(r, ph, uint64(len(by[1])), 1+r.N(40))
			for i := range ph.Switches {
				ph.Switches[i].At += base
			}
		}
	}
	if r.P(1, 2) || conc == 1 {
		for range 1 + r.N(2) {
			k := sim.Pick(r, []int{0, 1, 1, 1, 2})
			if len(by[k]) == 0 {
				continue
			}
			l := append(crashes(r, sim.Pick(r, by[k])), crashes(r, sim.Pick(r, by[k]))...)
			cs.Phases[k].Faults = append(cs.Phases[k].Faults, sim.Pick(r, l))
		}
	}
	if r.P(1, 10) {
		ph.Edit = &kern.Edit{Quota: int64(1 + r.N(600))}
		cs.Phases[3].Edit = &kern.Edit{Quota: -1}
	}
	return cs
}

func c09Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	info := cfgOf(cs)
	before := initial(cs)[info.Path]
	_, present := initial(cs)[info.Path]
	var old map[string]any
	if present && !info.Bad {
		m, ok := cfgParse(before)
		if !ok {
			return nil, nil
		}
		old = m
	}
	must := map[string]bool{} // acknowledged or there from the start
	for _, p := range pkgsOf(old) {
		must[p] = true
	}
	may := map[string]bool{}
	full := false
	for i := range cs.Phases {
		ph := &cs.Phases[i]
		when := fmt.Sprintf("in phase %d of %s", i, cs.Name)
		if len(ph.Faults) > 0 {
			when += " with " + faultText(ph.Faults)
		}
		if ph.Edit != nil && ph.Edit.Quota != 0 {
			full = ph.Edit.Quota > 0
		}
		if len(ph.Procs) > 1 && r.W.Switched > 0 && i == 1 {
			c.Probe("interleaved commands")
		}
		at := map[string]bool{}
		for k := range must {
			at[k] = true
		}
		for j := range ph.Procs {
			p := &ph.Procs[j]
			o := r.Out[i][p.Name]
			if v := dead(o); v != nil && !o.Killed {
				return v, nil
			}
			if k, ok := info.Allow[p.Name]; ok {
				may[k] = true
				if o.Killed && strings.HasSuffix(o.Stdout, "\n") {
					must[k] = true // it said so before it was killed
					c.Probe("acknowledged, then killed")
				}
				if o.Exit == 0 && !o.Killed {
					must[k] = true
					c.Probe("acknowledged")
				}
			}
		}
		for j := range ph.Procs {
			p := &ph.Procs[j]
			o := r.Out[i][p.Name]
			if o.Killed {
				c.Probe("killed")
				continue
			}
			what := fmt.Sprintf("%s (%s) %s", p.Name, strings.Join(p.Args, " "), when)
			if info.Bad {
				if o.Exit == 0 {
					return sim.V("unreadable configuration ignored", "%s exits 0 although the configuration is not valid", what), nil
				}
				continue
			}
			if o.Exit != 0 && strings.TrimSpace(o.Stderr) == "" && !faultOn(cs, "stderr") {
				return sim.V("a failure said nothing", "%s: exit %d", what, o.Exit), nil
			}
			hit := faulted(ph, p.Name)
			if k, ok := info.Use[p.Name]; ok {
				allowed := false
				maybe := false
				for m := range at {
					allowed = allowed || wildMatch(m, k)
				}
				for m := range may {
					maybe = maybe || wildMatch(m, k)
				}
				if o.Exit == 0 && !allowed && !maybe {
					return sim.V("not allowed but run", "%s runs %q", what, k), nil
				}
				if o.Exit != 0 && allowed && !hit {
					return sim.V("allowed package refused", "%s: %q was allowed before: %s", what, k, firstLine(o.Stderr)), nil
				}
				continue
			}
			if o.Exit != 0 && !hit && !full {
				return sim.V("command fails", "%s: exit %d without a fault of its own: %s", what, o.Exit, firstLine(o.Stderr)), nil
			}
		}
		after, there := r.FS[i][info.Path]
		if info.Path == "/home/u/dotfiles/yisp.yaml" {
			if s, ok := r.FS[i][gen.Config().Path]; ok {
				return sim.V("link replaced", "%s the configuration is not the file %s any more, but a file of its own: %s", when, info.Path, clipS(s, 300)), nil
			}
		}
		if info.Bad {
			if !there || after != before {
				return sim.V("unreadable configuration replaced", "%s the file was %q and is %q", when, clipS(before, 200), clipS(after, 200)), nil
			}
			continue
		}
		if !there {
			if present || len(must) > 0 {
				return sim.V("configuration lost", "%s it is gone", when), nil
			}
			continue
		}
		if after == "" && before != "" {
			return sim.V("configuration lost", "%s it is empty", when), nil
		}
		m, ok := cfgParse(after)
		if !ok {
			return sim.V("configuration corrupted", "%s it is %q", when, clipS(after, 400)), nil
		}
		got := map[string]bool{}
		for _, k := range pkgsOf(m) {
			got[k] = true
			if !must[k] && !may[k] {
				return sim.V("configuration corrupted", "%s it allows %q, which nobody asked for", when, k), nil
			}
		}
		var lost []string
		for k := range must {
			if !got[k] {
				lost = append(lost, k)
			}
		}
		if len(lost) > 0 {
			sort.Strings(lost)
			return sim.V("allowed package lost", "%s %q is not in the configuration any more: %s", when, lost, clipS(after, 400)), nil
		}
		if a, b := settings(old), settings(m); a != b {
			return sim.V("setting lost", "%s the settings were %s and are %s", when, clipS(a, 300), clipS(b, 300)), nil
		}
		present = true
	}
	return nil, nil
}

// wildMatch is the allow-list's rule as documented: * stands for any text.
func wildMatch(pat, s string) bool {
	parts := strings.Split(pat, "*")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i, p := range parts[1:] {
		if i == len(parts)-2 {
			return strings.HasSuffix(s, p)
		}
		k := strings.Index(s, p)
		if k < 0 {
			return false
		}
		s = s[k+len(p):]
	}
	return true
}

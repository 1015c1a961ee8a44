package props

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C17", Bins: []string{"yisp"}, Level: "exploration",
		Rule: "simulated runs with different histories in which a file changed while the build ran",
		Assume: []string{
			"files change by being replaced (rename) or removed; writing into a file in place can show any reader a mixture",
			"a script that names one file twice may see two versions of it",
		},
		Real: realParts, Stub: stubParts,
		Plan: c17Plan, Random: c17Random, Judge: c17Judge,
		Quick: 60000, Thorough: 5_000_000, QuickS: 38, ThoroughS: 1500,
	})
}

var wordRE = regexp.MustCompile(`\b(apple|banana|kiwi|service|deploy|edge|node|queue|cache|alpha|beta|gamma|delta|region|tier)\b`)
var numRE = regexp.MustCompile(`\b[0-9]+\b`)

// revise makes the next version of a file.
func revise(r *sim.Rand, path, s string) string {
	ext := path[strings.LastIndexByte(path, '.')+1:]
	if r.P(1, 7) {
		switch ext {
		case "yaml", "yml":
			return "short: " + itoa(r.N(9)) + "\n"
		case "txt", "conf":
			return "s\n"
		}
	}
	suffix := strings.Repeat("Z", 1+r.N(9))
	t := wordRE.ReplaceAllString(s, "${1}"+suffix)
	if strings.Contains(path, "/schemas/") {
		if r.P(1, 2) {
			t = strings.Replace(t, `"integer"`, `"string"`, 1)
		}
	}
	if t == s && (ext == "yaml" || ext == "json" && !strings.Contains(path, "/schemas/")) {
		t = numRE.ReplaceAllString(s, "${0}5")
	}
	if ext == "yaml" || ext == "yisp" {
		c := strings.Repeat("# revised "+suffix+"\n", r.N(12))
		if !strings.HasPrefix(t, "\ufeff") && !strings.HasPrefix(t, "\xfe") && !strings.HasPrefix(t, "\xff") {
			t = c + t
		}
	}
	if ext == "json" && r.P(1, 2) {
		t = strings.Repeat(" ", r.N(60)) + t
	}
	return t
}

func fileText(f *kern.FileSpec) string {
	if f.B64 != "" {
		b, _ := base64.StdEncoding.DecodeString(f.B64)
		return string(b)
	}
	return strings.Join(f.Parts, "")
}

// opens counts how often a run opened a file for reading.
func opens(r *sim.Run, path string) int {
	n := 0
	for _, e := range r.W.Events {
		if e.Name == "open" && e.Path == path && !strings.HasPrefix(e.Res, "E") {
			n++
		}
	}
	return n
}

func c17Make(c *sim.Ctx, r *sim.Rand, fs []gen.Feature) []*sim.Case {
	b := gen.New(r)
	b.Big = r.P(1, 3)
	for _, f := range fs {
		b.Add(f)
	}
	b.Main = sim.Pick(r, []string{"", "", "rel", "dir", "stdin"})
	if b.Stdin != nil && b.Main == "stdin" {
		b.Main = ""
	}
	cs := project("C17", names(fs), b)
	cs.Phases[0].Procs[0].MaxIO = sim.Pick(r, []int{0, 0, 5 + r.N(40), 64, 200, 512, 700})
	if r.P(1, 2) {
		cs.Phases[0].Procs[0].DirMax = 1 + r.N(3)
	}
	pts, br, err := c.Points(cs)
	if err != nil {
		return nil
	}
	// what can change
	var cand []*kern.FileSpec
	for i := range cs.World.Files {
		f := &cs.World.Files[i]
		if !f.Dir && f.Link == "" && opens(br, f.Path) > 0 && !strings.Contains(f.Path, "/.config/") {
			cand = append(cand, f)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	var out []*sim.Case
	for range 6 {
		d := cs.Clone()
		ph := &d.Phases[0]
		var set []*kern.FileSpec
		k := 1
		if r.P(1, 3) {
			k += r.N(3)
		}
		for range k {
			f := sim.Pick(r, cand)
			if opens(br, f.Path) > 1 {
				if len(set) == 0 {
					set = append(set, f)
				}
				break
			}
			dup := false
			for _, g := range set {
				dup = dup || g == f
			}
			if !dup {
				set = append(set, f)
			}
		}
		removal := r.P(1, 5)
		ph.Edits = nil
		for _, f := range set {
			var e kern.Edit
			if removal {
				e.Remove = []string{f.Path}
			} else {
				t := revise(r, f.Path, fileText(f))
				g := kern.FileSpec{Path: f.Path, Mode: f.Mode}
				if f.B64 != "" {
					g.B64 = gen.B64(t)
				} else {
					g.Parts = []string{t}
				}
				e.Files = []kern.FileSpec{g}
			}
			ph.Edits = append(ph.Edits, e)
		}
		if len(ph.Edits) > 1 && r.P(1, 2) {
			// all at once, like a checkout
			var e kern.Edit
			for _, x := range ph.Edits {
				e.Files = append(e.Files, x.Files...)
				e.Remove = append(e.Remove, x.Remove...)
			}
			ph.Edits = []kern.Edit{e}
		}
		for i := range ph.Edits {
			var here []sim.Point
			for _, pt := range pts {
				for _, f := range set {
					if pt.Path == f.Path && pt.Op != "close" {
						here = append(here, pt)
					}
				}
			}
			pt := sim.Pick(r, pts)
			if len(here) > 0 && r.P(4, 5) {
				pt = sim.Pick(r, here)
			}
			if pt.Op == "clock" || pt.Op == "exit" {
				continue
			}
			ph.Faults = append(ph.Faults, pt.At("edit", "", i))
		}
		if len(ph.Faults) > 0 {
			out = append(out, d)
		}
	}
	return out
}

func c17ok(f *gen.Feature) bool { return f.Name != "include-links" }

func c17Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	n := 8
	if !c.Quick() {
		n = 40
	}
	out = par(len(gen.Features), func(i int) (out []*sim.Case) {
		f := gen.Features[i]
		if !c17ok(&f) {
			return nil
		}
		k := n
		if !f.IO {
			k = n / 4
		}
		for s := range k {
			out = append(out, c17Make(c, sim.NewRand(c.Seed, "c17", f.Name, s), []gen.Feature{f})...)
		}
		return out
	})
	out = append(out, par(n*6, func(s int) []*sim.Case {
		return c17Once(c, sim.NewRand(c.Seed, "c17 once", s))
	})...)
	sim.Shuffle(sim.NewRand(c.Seed, "c17 order"), out)
	return out
}

func c17Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	if r.P(1, 6) {
		if l := c17Once(c, r); len(l) > 0 {
			return sim.Pick(r, l)
		}
	}
	l := c17Make(c, r, pickFeatures(r, 1+r.N(3), c17ok))
	if len(l) == 0 {
		return nil
	}
	return sim.Pick(r, l)
}

// applied is a project after some of the edits.
func applied(cs *sim.Case, mask int, edits []kern.Edit) *sim.Case {
	d := cs.Calm()
	d.Phases[0].Edits = nil
	for i, e := range edits {
		if mask&(1<<i) == 0 {
			continue
		}
		gone := map[string]bool{}
		for _, p := range e.Remove {
			gone[p] = true
		}
		for _, f := range e.Files {
			gone[f.Path] = true
		}
		var fs []kern.FileSpec
		for _, f := range d.World.Files {
			if !gone[f.Path] {
				fs = append(fs, f)
			} else if len(e.Remove) > 0 && f.Path != "" {
				// its directory stays
				fs = append(fs, kern.FileSpec{Path: f.Path[:strings.LastIndexByte(f.Path, '/')], Dir: true})
			}
		}
		d.World.Files = append(fs, e.Files...)
	}
	return d
}

// split takes edits apart into one per file.
func split(es []kern.Edit) []kern.Edit {
	var out []kern.Edit
	for _, e := range es {
		for _, f := range e.Files {
			out = append(out, kern.Edit{Files: []kern.FileSpec{f}})
		}
		for _, p := range e.Remove {
			out = append(out, kern.Edit{Remove: []string{p}})
		}
	}
	return out
}

func c17Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	edits := split(cs.Phases[0].Edits)
	removal := false
	for _, e := range edits {
		removal = removal || len(e.Remove) > 0
	}
	if len(edits) > 4 {
		return nil, nil
	}
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		return v, nil
	}
	if removal && o.Exit != 0 {
		return nil, nil
	}
	var seen []string
	match := func(b *kern.Outcome) bool {
		seen = append(seen, fmt.Sprintf("exit %d %d bytes", b.Exit, len(b.Stdout)))
		return b.Exit == o.Exit && b.Stdout == o.Stdout
	}
	var old *kern.Outcome
	for mask := range 1 << len(edits) {
		br, err := c.Base(applied(cs, mask, edits))
		if err != nil {
			return nil, err
		}
		b := br.Out[0]["a"]
		if b == nil || dead(b) != nil {
			return nil, nil
		}
		if mask == 0 {
			old = b
		}
		if match(b) {
			return nil, nil
		}
	}
	// A file read several times may change between its reads.
	calm, err := c.Base(applied(cs, 0, edits))
	if err != nil {
		return nil, err
	}
	for i := range edits {
		if cs.P["once"] != "" {
			break
		}
		path := ""
		if len(edits[i].Files) > 0 {
			path = edits[i].Files[0].Path
		} else {
			path = edits[i].Remove[0]
		}
		k := opens(calm, path)
		for occ := 1; occ < k; occ++ {
			d := cs.Calm()
			d.Phases[0].Edits = edits
			d.Phases[0].Faults = []kern.Fault{{Proc: "a", Op: "open", Path: path, Occ: occ, Kind: "edit", N: i}}
			q, err := c.Run(d)
			if err != nil {
				return nil, err
			}
			if match(q.Out[0]["a"]) {
				return nil, nil
			}
		}
	}
	return sim.V("neither the old nor the new content", "with %s the build gives exit %d (%s), %d bytes, as with no combination of old and new files (%s); against the old: %s",
		faultText(allFaults(cs)), o.Exit, firstLine(o.Stderr), len(o.Stdout), strings.Join(seen, ", "), diffAt(old.Stdout, o.Stdout)), nil
}

package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Found is a violation with its case.
type Found struct {
	V    *Violation
	Case *Case
	N    int // cases that showed it
}

// Options of one check run.
type Options struct {
	Verif   string // /verif
	Workers int
	Only    string // scenario name filter, for development
	NoMin   bool
	Max     int // random scenarios, for development
}

func (c *Ctx) judge(cs *Case) (v *Violation, err error) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 4096)
			err = &ErrHarness{fmt.Sprintf("judge of %s/%s: %v\n%s", cs.Prop, cs.Name, p, buf[:runtime.Stack(buf, false)])}
		}
	}()
	return c.Check.Judge(c, cs)
}

// Explore runs the check's search and returns what it found.
func (c *Ctx) Explore(o Options) (evals int, samples []any, found map[string]*Found, err error) {
	ch := c.Check
	n, cap := ch.Quick, ch.QuickS
	if !c.Quick() {
		n, cap = ch.Thorough, ch.ThoroughS
	}
	if o.Max > 0 {
		n = o.Max
	}
	start := time.Now()
	deadline := start.Add(time.Duration(cap) * time.Second)
	var plan []*Case
	if ch.Plan != nil {
		plan = ch.Plan(c)
	}
	if os.Getenv("VSIM_DEBUG") != "" {
		fmt.Printf("plan: %d cases after %.1fs\n", len(plan), time.Since(start).Seconds())
	}
	found = map[string]*Found{}
	var mu sync.Mutex
	errs := 0
	var next, done atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	total := int64(len(plan) + n)
	for range o.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := next.Add(1) - 1
				if i >= total || time.Now().After(deadline) {
					return
				}
				var cs *Case
				// Planned and random cases take turns while both last.
				pi, k := int(i)/2, int(i)/2
				switch m := min(len(plan), n); {
				case i >= 2*int64(m):
					pi, k = int(i)-m, int(i)-m
					if n > m {
						pi = len(plan)
					}
				case i%2 == 1:
					pi = len(plan)
				}
				if pi < len(plan) {
					cs = plan[pi]
				} else {
					cs = ch.Random(c, NewRand(c.Seed, ch.ID, k), k)
				}
				if cs == nil || o.Only != "" && !strings.Contains(cs.Name, o.Only) {
					continue
				}
				t0 := time.Now()
				v, e := c.judge(cs)
				if d := time.Since(t0); d > 2*time.Second && os.Getenv("VSIM_DEBUG") != "" {
					fmt.Printf("slow: %s %.1fs\n", cs.Name, d.Seconds())
				}
				done.Add(1)
				mu.Lock()
				if e != nil {
					if err == nil {
						err = e
					}
					if errs++; errs >= 8 {
						stop.Store(true)
					}
				}
				for _, t := range cs.Tags {
					c.mu.Lock()
					c.Tags[t]++
					c.mu.Unlock()
				}
				if len(samples) < 3 && i%7 == 3 {
					samples = append(samples, sample(cs))
				}
				if v != nil {
					f := found[v.Sig]
					if f == nil {
						found[v.Sig] = &Found{v, cs, 1}
						if len(found) >= 3 || os.Getenv("VSIM_FIRST") != "" {
							stop.Store(true)
						}
					} else {
						f.N++
						if len(cs.key()) < len(f.Case.key()) {
							f.V, f.Case = v, cs
						}
						if f.N > 40 {
							stop.Store(true)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(samples) == 0 && len(plan) > 0 {
		samples = append(samples, sample(plan[0]))
	}
	return int(done.Load()), samples, found, err
}

func sample(cs *Case) any {
	b, _ := json.Marshal(cs)
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "..."
		return s
	}
	return json.RawMessage(b)
}

// Replay is a violation written out.
type Replay struct {
	Property string   `json:"property"`
	Sig      string   `json:"sig"`
	Detail   string   `json:"detail"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Hash     string   `json:"hash"`               // of all histories the judge produced
	Unstable bool     `json:"unstable,omitempty"` // the tree does not repeat itself on this case
	Trace    []string `json:"trace,omitempty"`
	Case     *Case    `json:"case"`
}

// JudgeHashed judges a case on fresh books and returns the hash of every
// history it produced.
func (c *Ctx) JudgeHashed(cs *Case) (*Violation, string, *Ctx, error) {
	d := NewCtx(c.Check, c.Bins, c.Seed, c.Tier)
	d.noCount = true
	v, err := d.judge(cs)
	hs := make([]string, 0, len(d.Hashes))
	for h := range d.Hashes {
		hs = append(hs, fmt.Sprintf("%016x", h))
	}
	sort.Strings(hs)
	return v, strings.Join(hs, ","), d, err
}

// Report minimises, writes and re-checks a violation; it returns the path.
func (c *Ctx) Report(o Options, f *Found) (string, error) {
	cs, v := f.Case, f.V
	if !o.NoMin {
		cs, v = c.Minimise(cs, v, 60*time.Second)
	}
	v2, h, stable := c.again(cs, v)
	if v2 == nil {
		cs, v = f.Case, f.V
		v2, h, stable = c.again(cs, v)
	}
	if v2 == nil {
		v2, stable = v, false // seen, but the tree does not repeat itself
	}
	rep := &Replay{Property: c.Check.ID, Sig: v2.Sig, Detail: v2.Detail, Seed: c.Seed, Tier: c.Tier, Hash: h, Unstable: !stable, Case: cs}
	if c.Check.NoDet || !stable {
		rep.Hash = ""
	}
	dir := filepath.Join(o.Verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	name := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, v.Sig)
	if len(name) > 80 {
		name = name[:80]
	}
	path := filepath.Join(dir, c.Check.ID+"-"+name+".json")
	write := func() error {
		var sb strings.Builder
		enc := json.NewEncoder(&sb)
		enc.SetEscapeHTML(false)
		enc.SetIndent("", " ")
		if err := enc.Encode(rep); err != nil {
			return err
		}
		return os.WriteFile(path, []byte(sb.String()), 0o644)
	}
	if err := write(); err != nil {
		return "", err
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "replay", path)
	b, _ := json.Marshal(c.Bins)
	cmd.Env = append(os.Environ(), "VSIM_BINS="+string(b))
	out, err := cmd.CombinedOutput()
	if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() != 1 {
		fmt.Printf("note: violation %s did not repeat exactly in a fresh process: %v\n%s\n", v.Sig, err, out)
		rep.Unstable, rep.Hash = true, ""
		if err := write(); err != nil {
			return "", err
		}
	}
	return path, nil
}

// again judges a case a few times until it shows the violation; stable means
// that the first two times did, with the same histories.
func (c *Ctx) again(cs *Case, v *Violation) (*Violation, string, bool) {
	seen, first := 0, ""
	for i := range 6 {
		w, h, _, err := c.JudgeHashed(cs)
		if err != nil || w == nil || w.Sig != v.Sig {
			continue
		}
		if seen++; seen == 1 {
			v, first = w, h
			continue
		}
		return w, h, i == 1 && (first == h || c.Check.NoDet)
	}
	if seen > 0 {
		return v, "", false
	}
	return nil, "", false
}

// Minimise shrinks a case while it shows the same violation.
func (c *Ctx) Minimise(cs *Case, v *Violation, budget time.Duration) (*Case, *Violation) {
	deadline := time.Now().Add(budget)
	for again := true; again && time.Now().Before(deadline); {
		again = false
		cands := reductions(cs)
		// try in parallel windows, take the first that works
		const win = 8
		for i := 0; i < len(cands) && time.Now().Before(deadline); i += win {
			end := min(i+win, len(cands))
			type res struct {
				cs *Case
				v  *Violation
			}
			rs := make([]res, end-i)
			var wg sync.WaitGroup
			for j := i; j < end; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					d := cs.Clone()
					if !cands[j](d) {
						return
					}
					w, _, _, err := c.JudgeHashed(d)
					if err == nil && w != nil && w.Sig == v.Sig {
						rs[j-i] = res{d, w}
					}
				}()
			}
			wg.Wait()
			for _, r := range rs {
				if r.cs != nil {
					cs, v = r.cs, r.v
					again = true
					break
				}
			}
			if again {
				break
			}
		}
	}
	return cs, v
}

func del[T any](a []T, i, n int) []T {
	return append(append([]T{}, a[:i]...), a[i+n:]...)
}

func whole(cs *Case, n int) int {
	if cs.Whole {
		return 0
	}
	return n
}

// reductions lists the ways to make a case smaller, the big ones first.
func reductions(cs *Case) []func(*Case) bool {
	var out []func(*Case) bool
	add := func(f func(*Case) bool) { out = append(out, f) }
	if !cs.Fixed {
		for i := range cs.Phases {
			if len(cs.Phases) > 1 {
				add(func(d *Case) bool { d.Phases = del(d.Phases, i, 1); return true })
			}
			for j := range cs.Phases[i].Procs {
				if len(cs.Phases[i].Procs) > 1 {
					add(func(d *Case) bool { d.Phases[i].Procs = del(d.Phases[i].Procs, j, 1); return true })
				}
			}
		}
	}
	halves := func(n int, f func(d *Case, i, k int)) {
		for k := n; k >= 1; k /= 2 {
			for i := 0; i+k <= n; i += k {
				add(func(d *Case) bool { f(d, i, k); return true })
			}
		}
	}
	for i := range cs.Phases {
		ph := cs.Phases[i]
		halves(len(ph.Faults), func(d *Case, a, k int) { d.Phases[i].Faults = del(d.Phases[i].Faults, a, k) })
		halves(len(ph.Switches), func(d *Case, a, k int) { d.Phases[i].Switches = del(d.Phases[i].Switches, a, k) })
		for j, p := range ph.Procs {
			if p.Stdin != nil {
				halves(whole(cs, len(p.Stdin.Parts)), func(d *Case, a, k int) {
					d.Phases[i].Procs[j].Stdin.Parts = del(d.Phases[i].Procs[j].Stdin.Parts, a, k)
				})
				if len(p.Stdin.Chunks) > 0 {
					add(func(d *Case) bool { d.Phases[i].Procs[j].Stdin.Chunks = nil; return true })
				}
			}
			if len(p.Job) > 0 && !cs.Fixed {
				var job map[string]any
				json.Unmarshal(p.Job, &job)
				if ts, ok := job["tasks"].([]any); ok && len(ts) > 1 {
					halves(len(ts), func(d *Case, a, k int) {
						if k == len(ts) {
							return
						}
						var jb map[string]any
						json.Unmarshal(d.Phases[i].Procs[j].Job, &jb)
						jb["tasks"] = del(jb["tasks"].([]any), a, k)
						d.Phases[i].Procs[j].Job, _ = json.Marshal(jb)
					})
				}
			}
			if len(p.Job) > 0 {
				var job map[string]any
				json.Unmarshal(p.Job, &job)
				if at, ok := job["at"].([]any); ok {
					halves(len(at), func(d *Case, a, k int) {
						var jb map[string]any
						json.Unmarshal(d.Phases[i].Procs[j].Job, &jb)
						jb["at"] = del(jb["at"].([]any), a, k)
						if ks, ok := jb["k"].([]any); ok && len(ks) >= a+k {
							jb["k"] = del(ks, a, k)
						}
						d.Phases[i].Procs[j].Job, _ = json.Marshal(jb)
					})
				}
			}
		}
	}
	if cs.Whole {
		return out
	}
	halves(len(cs.World.Files), func(d *Case, a, k int) { d.World.Files = del(d.World.Files, a, k) })
	halves(len(cs.World.HTTP), func(d *Case, a, k int) { d.World.HTTP = del(d.World.HTTP, a, k) })
	halves(len(cs.World.Progs), func(d *Case, a, k int) { d.World.Progs = del(d.World.Progs, a, k) })
	for i, f := range cs.World.Files {
		if len(f.Parts) > 1 {
			halves(len(f.Parts), func(d *Case, a, k int) { d.World.Files[i].Parts = del(d.World.Files[i].Parts, a, k) })
		}
	}
	for i, f := range cs.World.HTTP {
		if len(f.Parts) > 1 {
			halves(len(f.Parts), func(d *Case, a, k int) { d.World.HTTP[i].Parts = del(d.World.HTTP[i].Parts, a, k) })
		}
	}
	return out
}

package sim

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"vsim/internal/kern"
)

// Check is one property's decision procedure.
type Check struct {
	ID     string
	Bins   []string
	Level  string
	Rule   string
	Assume []string
	Real   []string // components that ran real code
	Stub   []string // components that ran a stand-in
	// Plan is the systematic part: cases that are always run.
	Plan func(c *Ctx) []*Case
	// Random makes the i-th seeded scenario.
	Random func(c *Ctx, r *Rand, i int) *Case
	// Judge runs a case and decides.
	Judge func(c *Ctx, cs *Case) (*Violation, error)
	// Quick and Thorough are the numbers of random scenarios.
	Quick, Thorough int
	// QuickS and ThoroughS cap the search, in seconds.
	QuickS, ThoroughS int
	NoDet             bool // the binary's histories carry addresses (race detector)
}

// Ctx runs cases and keeps the books.
type Ctx struct {
	Check *Check
	Seed  int64
	Tier  string
	Bins  map[string]string

	mu       sync.Mutex
	memo     map[string]*memoEnt
	Fired    map[string]int
	Hashes   map[uint64]bool // distinct histories
	NonTriv  map[uint64]bool // distinct histories with a fault, switch or variation
	Probes   map[string]int
	Tags     map[string]int
	Traces   map[uint64]bool // distinct interleavings
	Runs     int64
	Steps    int64
	SimNS    int64
	DetRuns  int64
	DetDiffs int64  // repeats that went another way
	DetDiff  string // the first of them
	Unmod    map[string]int
	nrun     atomic.Int64
	noCount  bool
	DetEvery int64
}

// NewCtx makes an empty context.
func NewCtx(ch *Check, bins map[string]string, seed int64, tier string) *Ctx {
	return &Ctx{Check: ch, Seed: seed, Tier: tier, Bins: bins, memo: map[string]*memoEnt{}, Fired: map[string]int{}, Hashes: map[uint64]bool{},
		NonTriv: map[uint64]bool{}, Probes: map[string]int{}, Tags: map[string]int{}, Traces: map[uint64]bool{}, Unmod: map[string]int{}, DetEvery: 41}
}

// Quick tells the tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Probe counts a rare condition reached.
func (c *Ctx) Probe(s string) {
	c.mu.Lock()
	c.Probes[s]++
	c.mu.Unlock()
}

// Inject counts faults the driver's readers and writers, or the inputs, bring.
func (c *Ctx) Inject(kind string, n int) {
	c.mu.Lock()
	c.Fired[kind] += n
	c.mu.Unlock()
}

// Trace counts an interleaving.
func (c *Ctx) Trace(h uint64) {
	c.mu.Lock()
	c.Traces[h] = true
	c.mu.Unlock()
}

// Non counts a run as non-trivial for a reason other than a fired fault.
func (c *Ctx) Non(r *Run) {
	c.mu.Lock()
	c.NonTriv[r.Hash()] = true
	c.mu.Unlock()
}

type memoEnt struct {
	once sync.Once
	run  *Run
	err  error
}

// ErrHarness is trouble of the machinery, never a violation.
type ErrHarness struct{ Msg string }

func (e *ErrHarness) Error() string { return e.Msg }

var hangs atomic.Int64

// patience is the processor time after which a process counts as hanging. The
// more have, the less it takes: a tree that hangs is not worth more time.
func patience() time.Duration {
	switch n := hangs.Load(); {
	case n < 8:
		return 25 * time.Second
	case n < 24:
		return 10 * time.Second
	default:
		return 4 * time.Second
	}
}

func (c *Ctx) exec(cs *Case, keep bool) (*Run, error) {
	w := kern.NewWorld(&cs.World, c.Bins)
	w.Keep = keep
	w.Watchdog = patience()
	r := &Run{W: w}
	for i := range cs.Phases {
		out, err := w.Run(&cs.Phases[i])
		if err != nil {
			return nil, &ErrHarness{fmt.Sprintf("%s/%s: %v", cs.Prop, cs.Name, err)}
		}
		for _, o := range out {
			if o.Hang {
				hangs.Add(1)
			}
			if o.Ops == 0 && o.Exit == 96 || o.Exit == 97 {
				return nil, &ErrHarness{fmt.Sprintf("%s/%s: simulator protocol failure in %s", cs.Prop, cs.Name, o.Name)}
			}
		}
		r.Out = append(r.Out, out)
		r.FS = append(r.FS, w.FS.Dump("/"))
	}
	return r, nil
}

func (c *Ctx) run(cs *Case, keep bool) (*Run, error) {
	r, err := c.exec(cs, keep)
	if err != nil {
		return nil, err
	}
	n := c.nrun.Add(1)
	if !c.noCount && !c.Check.NoDet && n%c.DetEvery == 0 {
		q, err := c.exec(cs, keep)
		if err != nil {
			return nil, err
		}
		if q.Hash() != r.Hash() {
			// The tree under test does something the simulator does not
			// decide (real threads, addresses in its output).  The judges
			// compare what they must; here it is only counted.
			if atomic.AddInt64(&c.DetDiffs, 1) == 1 {
				d := diffRuns(r, q)
				if len(d) > 3000 {
					d = d[:3000] + "..."
				}
				c.mu.Lock()
				c.DetDiff = cs.Name + d
				c.mu.Unlock()
			}
		}
		atomic.AddInt64(&c.DetRuns, 1)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Runs++
	c.Steps += int64(r.W.Steps())
	c.SimNS += int64(r.W.SimTime())
	for k, n := range r.W.Fired {
		c.Fired[k] += n
	}
	h := r.Hash()
	c.Hashes[h] = true
	if r.W.NFired > 0 || r.W.Switched > 0 {
		c.NonTriv[h] = true
	}
	if r.W.Switched > 0 {
		c.Traces[r.W.Hash()] = true
	}
	return r, nil
}

func diffRuns(a, b *Run) string {
	s := ""
	for i := range a.W.Events {
		if i >= len(b.W.Events) || a.W.Events[i] != b.W.Events[i] {
			s += fmt.Sprintf("\n  event %d: %+v", i, a.W.Events[i])
			if i < len(b.W.Events) {
				s += fmt.Sprintf(" / %+v", b.W.Events[i])
			}
			break
		}
	}
	for i := range a.Out {
		for n, o := range a.Out[i] {
			p := b.Out[i][n]
			if p == nil || o.Exit != p.Exit || o.Stdout != p.Stdout || o.Stderr != p.Stderr || string(o.Result) != string(p.Result) {
				s += fmt.Sprintf("\n  %s: %+v\n  / %+v", n, o, p)
			}
		}
	}
	return s
}

// Run runs a case.
func (c *Ctx) Run(cs *Case) (*Run, error) { return c.run(cs, true) }

// Base runs a case once and remembers the result.
func (c *Ctx) Base(cs *Case) (*Run, error) {
	k := cs.key()
	c.mu.Lock()
	e := c.memo[k]
	if e == nil {
		if len(c.memo) > 600 {
			c.memo = map[string]*memoEnt{}
		}
		e = &memoEnt{}
		c.memo[k] = e
	}
	c.mu.Unlock()
	e.once.Do(func() { e.run, e.err = c.run(cs, true) })
	return e.run, e.err
}

// Points lists the operations of the calm run of a case.
func (c *Ctx) Points(cs *Case) ([]Point, *Run, error) {
	r, err := c.Base(cs.Calm())
	if err != nil {
		return nil, nil, err
	}
	return RunPoints(cs, r), r, nil
}

// RunPoints lists the operations of a run. Process names are unique over the
// phases of a case.
func RunPoints(cs *Case, r *Run) []Point {
	phase := map[string]int{}
	for i := range cs.Phases {
		for _, p := range cs.Phases[i].Procs {
			phase[p.Name] = i
		}
	}
	var pts []Point
	for _, e := range r.W.Events {
		switch e.Name {
		case "note", "mark", "child", "childexit", "":
			continue
		}
		pts = append(pts, Point{Phase: phase[e.Proc], Proc: e.Proc, Op: e.Name, Path: e.Path, Occ: e.Occ, Ord: e.Ord, N: e.N, Res: e.Res})
	}
	return pts
}

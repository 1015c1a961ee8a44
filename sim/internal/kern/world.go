package kern

import (
	"fmt"
	"hash/fnv"
	"sort"
	"syscall"
	"time"
)

// Event is one line of the run's log.
type Event struct {
	Proc string
	Ord  int
	Name string
	Path string
	Res  string
	N    int64 // bytes asked for by a read or write
	Occ  int   // how many operations of that name and path the process made before
}

// World is one run's universe.
type World struct {
	Bins     map[string]string
	Watchdog time.Duration
	Keep     bool // keep events

	FS     *FS
	clock  int64
	clock0 int64
	procs  []*Proc
	http   map[string]*HTTPSpec
	progs  map[string]*ProgSpec
	Spawns []Spawn
	kids   map[int]*child
	nextID uint64

	Events   []Event
	hash     uint64
	nevents  int
	Fired    map[string]int
	steps    uint64
	switches []Switch
	edits    []Edit
	nextSw   int
	Switched int
	Requests []HTTPReq
	cont     bool // set when a phase ended in power loss
	Down     bool
	rngState uint64
	StepCap  uint64
	cap      uint64
	Deadlock bool
	NFired   int // faults that took effect
}

// HTTPReq is one request that reached the simulated network.
type HTTPReq struct {
	Proc, Method, URL, Result string
}

// Spawn is one child process start that succeeded.
type Spawn struct {
	Proc    string
	Path    string
	Argv    []string
	Env     []string
	Dir     string
	Stdin   []byte // what it was fed (filled as it reads)
	StdinIs string // pipe, stream, null
	Step    uint64
	Pos     int // bytes of the parent's stdin consumed by then
}

// NewWorld builds the initial state.
func NewWorld(spec *WorldSpec, bins map[string]string) *World {
	w := &World{Bins: bins, Watchdog: 60 * time.Second, http: map[string]*HTTPSpec{}, progs: map[string]*ProgSpec{},
		Fired: map[string]int{}, kids: map[int]*child{}, hash: 14695981039346656037, StepCap: 300000}
	w.clock = spec.Clock
	if w.clock == 0 {
		w.clock = 1_700_000_000_000_000_000
	}
	w.clock0 = w.clock
	w.FS = newFS(func() int64 { return w.clock })
	w.FS.dirSalt = spec.DirSalt
	for _, d := range []string{"/tmp", "/home/u", "/usr/bin", "/etc", "/dev", "/work"} {
		w.FS.MkdirAll(d, 0o755)
	}
	for _, f := range spec.Files {
		w.AddFile(f)
	}
	for i := range spec.HTTP {
		w.http[spec.HTTP[i].URL] = &spec.HTTP[i]
	}
	for i := range spec.Progs {
		p := &spec.Progs[i]
		w.progs[p.Path] = p
		w.FS.Put(p.Path, []byte("#!sim\n"), 0o755)
	}
	null := w.FS.Put("/dev/null", nil, 0o666)
	null.kind = 'c'
	if spec.Quota > 0 {
		w.FS.quota = w.FS.used + spec.Quota
	}
	w.clock += spec.Age
	w.clock0 = w.clock
	w.FS.checkpoint()
	return w
}

// SetQuota limits further growth of file data (0: unlimited).
func (w *World) SetQuota(extra int64) {
	if extra <= 0 {
		w.FS.quota = 0
		return
	}
	w.FS.quota = w.FS.used + extra
}

// SetHTTP replaces what a URL serves.
func (w *World) SetHTTP(s *HTTPSpec) { w.http[s.URL] = s }

// AddFile is a harness edit.
func (w *World) AddFile(f FileSpec) {
	mode := f.Mode
	if f.Dir {
		if mode == 0 {
			mode = 0o755
		}
		w.FS.MkdirAll(f.Path, 0o755).mode = mode
		return
	}
	if mode == 0 {
		mode = 0o644
	}
	data := raw(f.Parts, f.B64)
	n := w.FS.Put(f.Path, data, mode)
	if f.Link != "" {
		n.kind, n.link, n.data = 'l', f.Link, nil
	}
}

func (w *World) edit(f *Fault) {
	if f.N < len(w.edits) {
		w.Fired["edit"]++
		w.NFired++
		w.logf("edit %d", f.N)
		w.apply(&w.edits[f.N])
	}
}

func (w *World) apply(e *Edit) {
	for _, p := range e.Remove {
		w.FS.Remove(p)
	}
	for _, f := range e.Files {
		w.FS.Remove(f.Path)
		w.AddFile(f)
	}
	for i := range e.HTTP {
		w.http[e.HTTP[i].URL] = &e.HTTP[i]
	}
	for _, u := range e.Down {
		w.http[u] = &HTTPSpec{URL: u, Status: -1}
	}
	if e.Quota != 0 {
		w.SetQuota(e.Quota)
	}
	if e.DirSalt != 0 {
		w.FS.dirSalt = e.DirSalt
	}
}

func (w *World) kidPids() []int {
	pids := make([]int, 0, len(w.kids))
	for pid := range w.kids {
		pids = append(pids, pid)
	}
	sort.Ints(pids)
	return pids
}

func (w *World) logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	w.log(Event{Name: "note", Res: s})
}

func (w *World) log(e Event) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d|%s|%s|%s|%d", w.hash, e.Proc, e.Ord, e.Name, e.Path, e.Res, e.N)
	w.hash = h.Sum64()
	w.nevents++
	if w.Keep {
		w.Events = append(w.Events, e)
	}
}

// Hash identifies the whole event history of the run.
func (w *World) Hash() uint64 { return w.hash }

// Steps is the number of simulated operations.
func (w *World) Steps() uint64 { return w.steps }

// SimTime is the simulated time that passed.
func (w *World) SimTime() time.Duration { return time.Duration(w.clock - w.clock0) }

func (w *World) rnd(n int) int {
	w.rngState += 0x9e3779b97f4a7c15
	z := w.rngState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(n))
}

// Run runs one phase to its end and returns the outcomes by process name.
func (w *World) Run(ph *Phase) (map[string]*Outcome, error) {
	w.procs = nil
	w.edits = ph.Edits
	if ph.Edit != nil {
		w.apply(ph.Edit)
		w.FS.checkpoint()
	}
	w.switches = ph.Switches
	w.nextSw = 0
	w.Down = false
	w.cap = w.StepCap
	for i := range ph.Procs {
		if ph.Procs[i].MaxIO > 0 {
			w.cap = 10 * w.StepCap
		}
	}
	w.cap += w.steps
	w.kids = map[int]*child{}
	res := map[string]*Outcome{}
	for i := range ph.Procs {
		s := ph.Procs[i]
		p := &Proc{Spec: s, w: w, fds: map[int]*ofile{}, seen: map[string]int{}, bodies: map[uint64]*httpBody{}, reaped: map[int]bool{}}
		p.pid = s.Pid
		if p.pid == 0 {
			p.pid = 4000 + i
		}
		cwd := s.Cwd
		if cwd == "" {
			cwd = "/work"
		}
		p.cwd = w.FS.MkdirAll(cwd, 0o755)
		p.cwdPath = cwd
		for j := range ph.Faults {
			if f := &ph.Faults[j]; f.Proc == s.Name {
				p.faults = append(p.faults, f)
			}
		}
		p.stdin = &stream{}
		if s.Stdin != nil {
			p.stdin.spec = *s.Stdin
			p.stdin.tty = s.Stdin.TTY
			p.stdin.data = raw(s.Stdin.Parts, s.Stdin.B64)
			if s.Stdin.Cut > 0 && s.Stdin.Cut < len(p.stdin.data) {
				p.stdin.data = p.stdin.data[:s.Stdin.Cut]
			}
		}
		p.stdout, p.stderr = &sink{}, &sink{}
		if s.Stdout != nil {
			p.stdout.spec = *s.Stdout
		}
		if s.Stderr != nil {
			p.stderr.spec = *s.Stderr
		}
		p.fds[0] = &ofile{kind: 's', stream: p.stdin, path: "stdin", refs: 1}
		p.fds[1] = &ofile{kind: 'o', sink: p.stdout, path: "stdout", refs: 1}
		p.fds[2] = &ofile{kind: 'o', sink: p.stderr, path: "stderr", refs: 1}
		w.procs = append(w.procs, p)
	}
	var err error
	for _, p := range w.procs {
		if e := p.start(); e != nil {
			err = e
			break
		}
		if e := p.recv(); e != nil {
			err = e
			break
		}
	}
	cur := 0
	stuck := 0
	for err == nil {
		var run []*Proc
		for _, p := range w.procs {
			if !p.dead {
				run = append(run, p)
			}
		}
		if len(run) == 0 {
			break
		}
		if w.steps > w.cap || stuck > 20000 {
			w.Deadlock = true
			w.logf("no progress")
			break
		}
		// Who goes: stay with the current process unless the schedule says
		// otherwise or it ended or is blocked.
		w.steps++
		if w.nextSw < len(w.switches) && w.steps >= w.switches[w.nextSw].At {
			k := int(w.switches[w.nextSw].K)
			w.nextSw++
			if len(run) > 1 {
				cur = (cur + 1 + k%(len(run)-1)) % len(w.procs)
				w.Switched++
			}
		}
		for w.procs[cur].dead {
			cur = (cur + 1) % len(w.procs)
		}
		p := w.procs[cur]
		retry := p.step()
		if w.Down {
			for _, q := range w.procs {
				q.kill()
			}
			break
		}
		if retry {
			stuck++
			cur = (cur + 1) % len(w.procs)
		} else {
			stuck = 0
		}
		if !p.dead {
			err = p.recv()
		}
	}
	for _, p := range w.procs {
		if !p.dead {
			if w.Deadlock {
				p.out.Hang = true
			}
			p.kill()
		}
		o := p.out
		res[p.Spec.Name] = &o
	}
	for _, p := range w.procs {
		if (p.cmd == nil || p.out.NoHello) && err == nil {
			err = fmt.Errorf("%s never reached the simulator (exit %d): %s", p.Spec.Name, p.out.Exit, p.out.Stderr)
		}
	}
	return res, err
}

// NProcs reports how many processes the last phase ran.
func (w *World) NProcs() int { return len(w.procs) }

var errnoNames = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EACCES": syscall.EACCES,
	"EPERM": syscall.EPERM, "ENOENT": syscall.ENOENT, "EINTR": syscall.EINTR, "EPIPE": syscall.EPIPE, "ENOMEM": syscall.ENOMEM,
	"EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "ECONNREFUSED": syscall.ECONNREFUSED, "ECONNRESET": syscall.ECONNRESET,
	"ETIMEDOUT": syscall.ETIMEDOUT, "ENETUNREACH": syscall.ENETUNREACH, "EHOSTUNREACH": syscall.EHOSTUNREACH, "EAGAIN": syscall.EAGAIN,
	"ENOTDIR": syscall.ENOTDIR, "EISDIR": syscall.EISDIR, "ELOOP": syscall.ELOOP, "ESTALE": syscall.ESTALE, "EBUSY": syscall.EBUSY,
	"E2BIG": syscall.E2BIG, "ENOEXEC": syscall.ENOEXEC, "ETXTBSY": syscall.ETXTBSY, "ENXIO": syscall.ENXIO, "EFBIG": syscall.EFBIG,
}

// Errno translates a name used in a case.
func Errno(s string) syscall.Errno {
	if e, ok := errnoNames[s]; ok {
		return e
	}
	return syscall.EIO
}

func errName(e syscall.Errno) string {
	for k, v := range errnoNames {
		if v == e {
			return k
		}
	}
	return fmt.Sprintf("E%d", int(e))
}

package kern

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	magic   = 0x59534956
	hdrSize = 4 + 4 + 8 + 48 + 4 + 12 + 4 + 4 + 8
)

type request struct {
	op     uint32
	trap   uint64
	a      [6]uint64
	segs   [3][]byte
	nseg   int
	outcap uint32
	goid   uint64
}

type response struct {
	retry bool
	r1    uint64
	r2    uint64
	errno syscall.Errno
	out   []byte
}

// ofile is an open file description.
type ofile struct {
	kind   byte // 'f' 'd' 'p' pipe, 's' stream in, 'o' sink out, 'n' null, 'u' urandom
	n      *inode
	path   string
	off    int64
	flags  int
	pipe   *pipe
	wr     bool // pipe: write end
	stream *stream
	sink   *sink
	names  []string
	refs   int
}

type pipe struct {
	buf      []byte
	readers  int
	writers  int
	label    string
	consumed int
}

type stream struct {
	spec StreamSpec
	data []byte
	pos  int
	nrd  int
	tty  bool
}

type sink struct {
	spec SinkSpec
	buf  bytes.Buffer
	errd bool
}

// Outcome of a process.
type Outcome struct {
	Name      string
	Exit      int // exit code, or -1
	Signal    int // signal that ended it, or 0
	Killed    bool
	Hang      bool
	Memory    bool // it was ended because it filled the memory
	Stdout    string
	Stderr    string // virtual descriptor 2 plus what the Go runtime wrote (panics)
	Panic     bool
	Ops       int
	OpenFDs   []string // descriptors still open at exit
	StdoutErr bool     // a write to stdout was refused
	StderrErr bool
	StdinPos  int
	Result    []byte // driver result
	NoHello   bool   // it ended without reaching the simulator: a harness failure
}

// Proc is one simulated process.
type Proc struct {
	Spec    ProcSpec
	w       *World
	pid     int
	cwd     *inode
	cwdPath string
	fds     map[int]*ofile
	cmd     *exec.Cmd
	conn    *os.File
	errbuf  *bytes.Buffer
	pending *request
	running bool
	dead    bool
	ords    int
	retries int
	out     Outcome
	stdin   *stream
	stdout  *sink
	stderr  *sink
	faults  []*Fault
	seen    map[string]int // operations by name and path
	hello   bool
	bodies  map[uint64]*httpBody
	reaped  map[int]bool
	rd      []byte
	edited  map[*Fault]bool
	stalled map[*Fault]int
}

func (p *Proc) start() error {
	bin, ok := p.w.Bins[p.Spec.Bin]
	if !ok {
		return fmt.Errorf("no such binary %q", p.Spec.Bin)
	}
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return err
	}
	syscall.SetNonblock(sp[0], true)
	ours := os.NewFile(uintptr(sp[0]), "sim")
	theirs := os.NewFile(uintptr(sp[1]), "sut")
	env := []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"}
	keys := make([]string, 0, len(p.Spec.Env))
	for k := range p.Spec.Env {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		env = append(env, k+"="+p.Spec.Env[k])
	}
	if p.Spec.Bin == "race" {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66 history_size=5 atexit_sleep_ms=0")
	}
	p.errbuf = &bytes.Buffer{}
	p.cmd = exec.Command(bin, p.Spec.Args...)
	p.cmd.Args[0] = "yisp"
	p.cmd.Env = env
	p.cmd.Dir = "/"
	p.cmd.ExtraFiles = []*os.File{theirs}
	p.cmd.Stderr = p.errbuf
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		ours.Close()
		theirs.Close()
		return err
	}
	theirs.Close()
	p.conn = ours
	p.running = true
	return nil
}

var _ = net.ErrClosed

// recv waits for the process to make its next call or to end.
func (p *Proc) recv() error {
	var h [hdrSize]byte
	got := 0
	for start := time.Now(); ; {
		p.conn.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		n, err := io.ReadFull(p.conn, h[got:])
		got += n
		if err == nil {
			break
		}
		if !os.IsTimeout(err) {
			p.reap()
			return nil
		}
		// Still computing. Its own processor time tells a program that
		// does not end from a busy machine.
		cpu, rss := usage(p.cmd.Process.Pid)
		if cpu > p.w.Watchdog {
			p.out.Hang = true
		}
		if rss > 3<<30 {
			p.out.Hang, p.out.Memory = true, true
		}
		if p.out.Hang {
			p.cmd.Process.Kill()
			p.reap()
			return nil
		}
		if time.Since(start) > 300*time.Second {
			p.cmd.Process.Kill()
			p.reap()
			return fmt.Errorf("%s did not answer for 300 s", p.Spec.Name)
		}
	}
	p.conn.SetReadDeadline(time.Now().Add(300 * time.Second))
	le := binary.LittleEndian
	if le.Uint32(h[0:]) != magic {
		p.cmd.Process.Kill()
		p.reap()
		return fmt.Errorf("protocol error from %s", p.Spec.Name)
	}
	r := &request{op: le.Uint32(h[4:]), trap: le.Uint64(h[8:])}
	for i := range r.a {
		r.a[i] = le.Uint64(h[16+8*i:])
	}
	r.nseg = int(le.Uint32(h[64:]))
	var ns [3]uint32
	for i := range ns {
		ns[i] = le.Uint32(h[68+4*i:])
	}
	r.outcap = le.Uint32(h[80:])
	r.goid = le.Uint64(h[88:])
	for i := 0; i < r.nseg && i < 3; i++ {
		r.segs[i] = make([]byte, ns[i])
		if _, err := io.ReadFull(p.conn, r.segs[i]); err != nil {
			p.reap()
			return nil
		}
	}
	p.pending = r
	return nil
}

// usage reads the processor time and memory of one of our own children.
func usage(pid int) (time.Duration, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return 0, 0
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0
	}
	n := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
	return time.Duration(n(f[11])+n(f[12])) * (time.Second / 100), n(f[21]) * 4096
}

func (p *Proc) reply(r response) {
	le := binary.LittleEndian
	b := make([]byte, 32+len(r.out))
	le.PutUint32(b[0:], magic)
	if r.retry {
		le.PutUint32(b[4:], 1)
	}
	le.PutUint64(b[8:], r.r1)
	le.PutUint64(b[16:], r.r2)
	le.PutUint32(b[24:], uint32(r.errno))
	le.PutUint32(b[28:], uint32(len(r.out)))
	copy(b[32:], r.out)
	p.pending = nil
	p.conn.Write(b)
}

// kill ends the process at once, like SIGKILL.
func (p *Proc) kill() {
	if p.dead {
		return
	}
	p.out.Killed = true
	p.cmd.Process.Kill()
	p.reap()
}

func (p *Proc) reap() {
	if p.dead {
		return
	}
	p.dead = true
	p.running = false
	p.pending = nil
	p.cmd.Wait()
	p.conn.Close()
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			p.out.Exit = -1
			p.out.Signal = int(ws.Signal())
		} else {
			p.out.Exit = ws.ExitStatus()
		}
	}
	for _, fd := range sortedFDs(p.fds) {
		if fd > 2 {
			p.out.OpenFDs = append(p.out.OpenFDs, fmt.Sprintf("%d:%c:%s", fd, p.fds[fd].kind, p.fds[fd].path))
		}
		p.closeFD(fd)
	}
	for _, b := range sortedBodies(p.bodies) {
		if !b.closed {
			p.out.OpenFDs = append(p.out.OpenFDs, "http:"+b.url)
		}
	}
	for _, pid := range p.w.kidPids() {
		if k := p.w.kids[pid]; k.parent == p && !k.reaped {
			p.out.OpenFDs = append(p.out.OpenFDs, "child:"+k.prog.Path)
		}
	}
	rt := p.errbuf.String()
	p.out.Name = p.Spec.Name
	p.out.Stdout = p.stdout.buf.String()
	p.out.Stderr = p.stderr.buf.String() + rt
	p.out.Panic = bytes.Contains([]byte(rt), []byte("goroutine ")) || bytes.Contains([]byte(rt), []byte("panic:")) || bytes.Contains([]byte(rt), []byte("fatal error:"))
	p.out.Ops = p.ords
	p.out.StdoutErr = p.stdout.errd
	p.out.StderrErr = p.stderr.errd
	p.out.StdinPos = p.stdin.pos
	if !p.hello && !p.out.Killed {
		p.out.NoHello = true
	}
	p.w.logf("%s exit code=%d signal=%d killed=%v", p.Spec.Name, p.out.Exit, p.out.Signal, p.out.Killed)
}

func sortedFDs(m map[int]*ofile) []int {
	var k []int
	for fd := range m {
		k = append(k, fd)
	}
	sort.Ints(k)
	return k
}

func sortedBodies(m map[uint64]*httpBody) []*httpBody {
	var k []uint64
	for id := range m {
		k = append(k, id)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	var out []*httpBody
	for _, id := range k {
		out = append(out, m[id])
	}
	return out
}

func (p *Proc) closeFD(fd int) {
	o := p.fds[fd]
	if o == nil {
		return
	}
	delete(p.fds, fd)
	o.refs--
	if o.refs > 0 {
		return
	}
	if o.n != nil {
		if o.n.lockEx == o {
			o.n.lockEx = nil
		}
		delete(o.n.lockSh, o)
	}
	if o.pipe != nil {
		if o.wr {
			o.pipe.writers--
		} else {
			o.pipe.readers--
		}
	}
}

func (p *Proc) newFD(o *ofile) (int, syscall.Errno) {
	fd := 100
	for p.fds[fd] != nil {
		fd++
	}
	lim := p.Spec.NoFile
	if lim == 0 {
		lim = 1024
	}
	if len(p.fds) >= lim {
		return 0, syscall.EMFILE
	}
	o.refs++
	p.fds[fd] = o
	return fd, 0
}

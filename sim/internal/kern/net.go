package kern

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"syscall"
)

type httpBody struct {
	url    string
	data   []byte
	pos    int
	chunk  int
	end    syscall.Errno
	closed bool
}

func (p *Proc) httpFault(r *request, f *Fault) response {
	w := p.w
	l := strings.SplitN(string(r.segs[0]), "\n", 4)
	method, url := l[0], l[1]
	w.clock += 20_000_000
	note := func(res string) {
		w.Requests = append(w.Requests, HTTPReq{p.Spec.Name, method, url, res})
	}
	s := w.http[url]
	status := 404
	body := []byte("not found\n")
	hdr := map[string]string{}
	chunk := 0
	clen := true
	if s != nil && s.Status < 0 {
		note("ECONNREFUSED")
		return errResp(syscall.ECONNREFUSED)
	}
	if s != nil {
		status = s.Status
		if status == 0 {
			status = 200
		}
		body = raw(s.Parts, s.B64)
		for k, v := range s.Header {
			hdr[k] = v
		}
		chunk = s.Chunk
		clen = !s.NoLength
	}
	b := &httpBody{url: url, chunk: chunk}
	advertised := len(body)
	if s != nil && s.Lost > 0 {
		advertised += s.Lost
		if !clen {
			b.end = syscall.ECONNRESET
		}
	}
	if f != nil {
		switch {
		case strings.HasPrefix(f.Arg, "E"): // connection-level error
			if f.Arg == "ETIMEDOUT" {
				w.clock += 120_000_000_000
			}
			note(f.Arg)
			return errResp(Errno(f.Arg))
		case strings.HasPrefix(f.Arg, "status:"):
			fmt.Sscanf(f.Arg, "status:%d", &status)
			body = []byte(fmt.Sprintf("{\"error\": \"injected %d\"}\n", status))
			advertised = len(body)
			hdr = map[string]string{}
		case f.Arg == "truncate": // connection closed early, length known
			if f.N < len(body) {
				body = body[:f.N]
			}
			clen = true
		case f.Arg == "truncate-silent": // close-delimited, cut without a trace
			if f.N < len(body) {
				body = body[:f.N]
			}
			clen = false
		case f.Arg == "reset": // reset in the middle of the body
			if f.N < len(body) {
				body = body[:f.N]
			}
			b.end = syscall.ECONNRESET
		}
	}
	b.data = body
	w.nextID++
	id := w.nextID
	p.bodies[id] = b
	cl := -1
	if clen {
		cl = advertised
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d\n%d", status, cl)
	keys := make([]string, 0, len(hdr))
	for k := range hdr {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&sb, "\n%s: %s", k, hdr[k])
	}
	res := fmt.Sprintf("status %d", status)
	if f != nil {
		res += " " + f.Arg
	}
	note(res)
	return response{r1: id, out: clip([]byte(sb.String()), int(r.outcap))}
}

func (p *Proc) httpRead(r *request) response {
	b := p.bodies[r.a[0]]
	if b == nil || b.closed {
		return errResp(syscall.EBADF)
	}
	p.w.clock += 1_000_000
	if b.pos >= len(b.data) {
		return response{errno: b.end}
	}
	n := len(b.data) - b.pos
	if n > int(r.outcap) {
		n = int(r.outcap)
	}
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	if m := p.Spec.MaxIO; m > 0 && n > m {
		n = m
	}
	out := b.data[b.pos : b.pos+n]
	b.pos += n
	return response{r1: uint64(n), out: out}
}

// child is a simulated program started by a simulated process.
type child struct {
	pid    int
	parent *Proc
	prog   *ProgSpec
	idx    int // in Spawns
	stdin  *ofile
	stdout *ofile
	stderr *ofile
	in     bytes.Buffer
	done   bool
	reaped bool
	exit   int
	signal int
	cutOut int
}

func (p *Proc) spawn(r *request, f *Fault) response {
	b := r.segs[0]
	num := func() int {
		n := int(int32(binary.LittleEndian.Uint32(b)))
		b = b[4:]
		return n
	}
	str := func() string {
		n := num()
		s := string(b[:n])
		b = b[n:]
		return s
	}
	path, dir := str(), str()
	var argv, env []string
	for n := num(); n > 0; n-- {
		argv = append(argv, str())
	}
	for n := num(); n > 0; n-- {
		if e := str(); !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GORACE=") {
			env = append(env, e)
		}
	}
	var files []int
	for n := num(); n > 0; n-- {
		files = append(files, num())
	}
	w := p.w
	if f != nil && strings.HasPrefix(f.Arg, "E") {
		return errResp(Errno(f.Arg))
	}
	l, e := p.at(atFDCWD, []byte(path), true)
	if e != 0 {
		return errResp(e)
	}
	if l.n == nil {
		return errResp(syscall.ENOENT)
	}
	if l.n.mode&0o100 == 0 || l.n.kind != 'f' {
		return errResp(syscall.EACCES)
	}
	prog := w.progs[cleanPath(p.full(atFDCWD, []byte(path)))]
	if prog == nil {
		return errResp(syscall.ENOEXEC)
	}
	if dir != "" {
		l, e := p.at(atFDCWD, []byte(dir), true)
		if e != 0 {
			return errResp(e)
		}
		if l.n == nil {
			return errResp(syscall.ENOENT)
		}
	}
	c := &child{pid: 5000 + len(w.Spawns), parent: p, prog: prog, idx: len(w.Spawns), exit: prog.Exit, signal: prog.Signal, cutOut: -1}
	hold := func(i int) *ofile {
		if i >= len(files) {
			return nil
		}
		o := p.fds[files[i]]
		if o == nil {
			return nil
		}
		o.refs++
		return o
	}
	c.stdin, c.stdout, c.stderr = hold(0), hold(1), hold(2)
	for i, o := range []*ofile{c.stdin, c.stdout, c.stderr} {
		if o == nil || o.kind != 'p' {
			continue
		}
		for _, q := range p.fds {
			if q.pipe == o.pipe {
				q.path = "pipe:" + []string{"stdin", "stdout", "stderr"}[i]
			}
		}
	}
	kind := "none"
	if c.stdin != nil {
		kind = map[byte]string{'p': "pipe", 's': "stream", 'n': "null", 'f': "file"}[c.stdin.kind]
	}
	if f != nil {
		switch {
		case strings.HasPrefix(f.Arg, "exit:"):
			fmt.Sscanf(f.Arg, "exit:%d", &c.exit)
		case strings.HasPrefix(f.Arg, "signal:"):
			fmt.Sscanf(f.Arg, "signal:%d", &c.signal)
			c.cutOut = f.N
		}
	}
	w.Spawns = append(w.Spawns, Spawn{Proc: p.Spec.Name, Path: path, Argv: argv, Env: env, Dir: dir, StdinIs: kind, Step: w.steps, Pos: p.stdin.pos})
	w.kids[c.pid] = c
	w.log(Event{Proc: p.Spec.Name, Ord: p.ords, Name: "child", Path: path, Res: strings.Join(argv, "\x1f")})
	return response{r1: uint64(c.pid)}
}

func dropRef(o *ofile) {
	if o == nil {
		return
	}
	o.refs--
	if o.refs == 0 && o.pipe != nil {
		if o.wr {
			o.pipe.writers--
		} else {
			o.pipe.readers--
		}
	}
}

// pumpChildren lets every child go as far as it can.
func (w *World) pumpChildren() {
	for _, pid := range w.kidPids() {
		c := w.kids[pid]
		if c.done {
			continue
		}
		reads := c.prog.Kind == "cat"
		eof := !reads
		if c.stdin != nil {
			switch c.stdin.kind {
			case 'p':
				c.in.Write(c.stdin.pipe.buf)
				c.stdin.pipe.buf = nil
				// The child's own end is a read end; the writers are the parent's.
				if c.stdin.pipe.writers == 0 {
					eof = true
				}
				if !reads && c.stdin.pipe.writers > 0 {
					// A program that does not read may run at once, but what it
					// was fed is recorded when its stdin closes.
					eof = false
				}
			case 's':
				if reads {
					for {
						r := c.stdin.stream.read(1 << 16)
						if r.errno != 0 || len(r.out) == 0 {
							break
						}
						c.in.Write(r.out)
					}
				}
				eof = true
			case 'f':
				if reads {
					c.in.Write(c.stdin.n.data[min(int(c.stdin.off), len(c.stdin.n.data)):])
				}
				eof = true
			default:
				eof = true
			}
		} else {
			eof = true
		}
		w.Spawns[c.idx].Stdin = append([]byte(nil), c.in.Bytes()...)
		if !eof {
			continue
		}
		c.done = true
		w.clock += 50_000_000
		var out []byte
		switch c.prog.Kind {
		case "cat":
			out = c.in.Bytes()
		case "echo", "args":
			a := w.Spawns[c.idx].Argv
			if len(a) > 0 {
				out = []byte(strings.Join(a[1:], " ") + "\n")
			}
		default:
			out = raw(c.prog.Stdout, c.prog.B64)
		}
		if c.cutOut >= 0 && c.cutOut < len(out) {
			out = out[:c.cutOut]
		}
		emit := func(o *ofile, b []byte) {
			if o == nil || len(b) == 0 {
				return
			}
			switch o.kind {
			case 'p':
				if o.pipe.readers > 0 {
					o.pipe.buf = append(o.pipe.buf, b...)
				}
			case 'o':
				o.sink.write(b)
			}
		}
		emit(c.stdout, out)
		emit(c.stderr, []byte(c.prog.Stderr))
		dropRef(c.stdin)
		dropRef(c.stdout)
		dropRef(c.stderr)
		w.log(Event{Name: "childexit", Path: c.prog.Path, Res: fmt.Sprintf("exit=%d signal=%d in=%d out=%d", c.exit, c.signal, c.in.Len(), len(out))})
	}
}

func (p *Proc) wait(r *request) response {
	w := p.w
	pid := int(int32(r.a[0]))
	if r.trap == 247 {
		if r.a[0] != 1 { // P_PID only
			return errResp(syscall.EINVAL)
		}
		pid = int(int32(r.a[1]))
	}
	c := w.kids[pid]
	if c == nil || c.reaped || c.parent != p {
		return errResp(syscall.ECHILD)
	}
	w.pumpChildren()
	if !c.done {
		opts := r.a[2]
		if r.trap == 247 {
			opts = r.a[3]
		}
		if opts&1 != 0 {
			return response{}
		}
		return response{retry: true}
	}
	if r.trap == 247 {
		out := make([]byte, 128)
		le := binary.LittleEndian
		le.PutUint32(out[0:], 17)
		if r.a[3]&0x1000000 == 0 { // not WNOWAIT
			c.reaped = true
		}
		le.PutUint32(out[8:], 1)
		le.PutUint32(out[12:], uint32(pid))
		return response{out: out}
	}
	c.reaped = true
	ws := uint32(c.exit&0xff) << 8
	if c.signal != 0 {
		ws = uint32(c.signal & 0x7f)
	}
	out := make([]byte, 4)
	binary.LittleEndian.PutUint32(out, ws)
	return response{r1: uint64(pid), out: clip(out, int(r.outcap))}
}

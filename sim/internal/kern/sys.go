package kern

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
	"syscall"
)

const atFDCWD = -100

// step serves the pending call of a process. It reports whether the process
// could not make progress (it would block).
func (p *Proc) step() bool {
	r := p.pending
	w := p.w
	switch r.op {
	case 1: // hello
		p.hello = true
		resp := response{r1: p.Spec.Salt*0x9e3779b97f4a7c15 + 0x1234567, r2: uint64(p.pid)}
		for _, s := range []*SinkSpec{p.Spec.Stdout, p.Spec.Stderr} {
			if s != nil && s.NoSignal {
				resp.errno = syscall.Errno(syscall.SIGPIPE)
			}
		}
		p.reply(resp)
		return false
	case 6: // now
		w.clock += 1000
		p.reply(response{r1: uint64(w.clock)})
		return false
	case 8: // driver: job
		p.reply(response{r1: uint64(len(p.Spec.Job)), out: clip(p.jobBlob(), int(r.outcap))})
		return false
	case 9: // driver: result
		p.out.Result = append(p.out.Result, r.segs[0]...)
		p.reply(response{})
		return false
	case 10: // driver: marker into the event log
		w.log(Event{Proc: p.Spec.Name, Ord: p.ords, Name: "mark", Res: strconv.FormatUint(r.a[0], 10)})
		if n := int(r.a[0]); n > 0 && n <= len(w.edits) {
			w.Fired["edit"]++
			w.apply(&w.edits[n-1])
		}
		p.reply(response{})
		return false
	case 11: // driver: which descriptors are open
		var sb strings.Builder
		for _, fd := range sortedFDs(p.fds) {
			if fd > 2 {
				fmt.Fprintf(&sb, "%c:%s\n", p.fds[fd].kind, p.fds[fd].path)
			}
		}
		for _, b := range sortedBodies(p.bodies) {
			if !b.closed {
				fmt.Fprintf(&sb, "http:%s\n", b.url)
			}
		}
		for _, pid := range w.kidPids() {
			if k := w.kids[pid]; k.parent == p && !k.reaped {
				fmt.Fprintf(&sb, "child:%s\n", k.prog.Path)
			}
		}
		p.reply(response{r1: uint64(sb.Len()), out: clip([]byte(sb.String()), int(r.outcap))})
		return false
	}
	name, path, n := p.describe(r)
	ord := p.ords
	w.clock += 2000
	var f *Fault
	key := name + "|" + path
	occ := p.seen[key]
	for _, c := range p.faults {
		if !c.hits(name, path, occ, ord) {
			continue
		}
		if c.Kind == "edit" {
			if p.edited == nil {
				p.edited = map[*Fault]bool{}
			}
			if !p.edited[c] {
				p.edited[c] = true
				w.edit(c)
			}
			continue
		}
		if c.Kind == "stall" {
			// The call takes long: everything else may go first.
			if p.stalled == nil {
				p.stalled = map[*Fault]int{}
			}
			if p.stalled[c] < c.N {
				if p.stalled[c] == 0 {
					w.Fired["stall on "+name]++
					w.NFired++
				}
				p.stalled[c]++
				w.clock += 3_000_000
				p.reply(response{retry: true})
				return true
			}
			continue
		}
		f = c
	}
	var resp response
	if f != nil {
		var done bool
		resp, done = p.inject(f, r, name, path)
		if done { // the process is gone
			return false
		}
	} else {
		resp = p.serve(r)
	}
	if resp.retry {
		// Not an operation yet: it will be asked again.
		p.retries++
		p.reply(resp)
		return true
	}
	p.ords++
	p.seen[key]++
	p.logOp(ord, occ, name, path, n, resp)
	p.reply(resp)
	return false
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (p *Proc) jobBlob() []byte { return p.Spec.Job }

func (p *Proc) logOp(ord, occ int, name, path string, n int64, resp response) {
	res := ""
	if resp.errno != 0 {
		res = errName(resp.errno)
	} else {
		switch name {
		case "read", "write", "pread", "pwrite", "open", "lseek", "http", "httpread", "spawn":
			res = strconv.FormatUint(resp.r1, 10)
			if name == "read" || name == "httpread" || name == "pread" {
				res = strconv.Itoa(len(resp.out))
			}
		}
	}
	p.w.log(Event{Proc: p.Spec.Name, Ord: ord, Name: name, Path: path, Res: res, N: n, Occ: occ})
}

// inject applies a fault to an operation.
func (p *Proc) inject(f *Fault, r *request, name, path string) (response, bool) {
	w := p.w
	fire := func() {
		k := f.Kind
		if f.Arg != "" {
			k += ":" + f.Arg
		}
		w.Fired[k+" on "+name]++
		w.NFired++
	}
	killed := func(how string) (response, bool) {
		w.log(Event{Proc: p.Spec.Name, Ord: p.ords, Name: name, Path: path, Res: how})
		p.ords++
		p.kill()
		return response{}, true
	}
	switch f.Kind {
	case "errno":
		// close releases the descriptor even when it reports an error
		if name == "close" {
			resp := p.serve(r)
			if resp.errno == 0 && f.Arg != "EINTR" {
				fire()
				resp.errno = Errno(f.Arg)
			}
			return resp, false
		}
		if name == "clock" || strings.HasPrefix(name, "exit") {
			return p.serve(r), false
		}
		fire()
		return response{errno: Errno(f.Arg)}, false
	case "short":
		if name == "read" || name == "pread" || name == "httpread" {
			n := f.N
			if n < 1 {
				n = 1
			}
			if int(r.outcap) > n {
				fire()
				r.outcap = uint32(n)
				if name != "httpread" {
					r.a[2] = uint64(n)
				}
			}
			return p.serve(r), false
		}
		if name == "write" || name == "pwrite" {
			n := f.N
			if n < 1 {
				n = 1
			}
			if len(r.segs[0]) > n {
				fire()
				r.segs[0] = r.segs[0][:n]
			}
			return p.serve(r), false
		}
		return p.serve(r), false
	case "eof": // a stream or file read ends early
		if name == "read" || name == "httpread" {
			fire()
			return response{}, false
		}
		return p.serve(r), false
	case "kill":
		fire()
		return killed("KILL-before")
	case "killafter":
		resp := p.serve(r)
		if resp.retry {
			return resp, false
		}
		fire()
		return killed("KILL-after")
	case "tornkill":
		if name == "write" || name == "pwrite" {
			n := f.N
			if n < len(r.segs[0]) {
				r.segs[0] = r.segs[0][:n]
			}
			if n > 0 {
				p.serve(r)
			}
		}
		fire()
		return killed(fmt.Sprintf("KILL-torn-%d", f.N))
	case "power", "powerafter":
		if f.Kind == "powerafter" {
			resp := p.serve(r)
			if resp.retry {
				return resp, false
			}
		}
		fire()
		w.log(Event{Proc: p.Spec.Name, Ord: p.ords, Name: name, Path: path, Res: "POWER-LOSS"})
		p.ords++
		w.Down = true
		for _, q := range w.procs {
			q.kill()
		}
		w.rngState = uint64(f.N)*7919 + 17
		w.FS.PowerLoss(w.rnd)
		return response{}, true
	case "http":
		// only meaningful on a request
		if name == "http" {
			fire()
			return p.httpFault(r, f), false
		}
		return p.serve(r), false
	case "child":
		if name == "spawn" {
			fire()
			return p.spawn(r, f), false
		}
		return p.serve(r), false
	case "clock":
		fire()
		w.clock += int64(f.N) * 1_000_000_000
		return p.serve(r), false
	case "dupblock": // deschedule: come back later
		return p.serve(r), false
	}
	return p.serve(r), false
}

func (p *Proc) at(fd int32, path []byte, follow bool) (lookup, syscall.Errno) {
	base := p.cwd
	if fd != atFDCWD {
		o := p.fds[int(fd)]
		if o == nil || o.n == nil {
			if len(path) == 0 || path[0] != '/' {
				return lookup{}, syscall.EBADF
			}
		} else {
			base = o.n
		}
	}
	return p.w.FS.resolve(base, string(path), follow)
}

var sysNames = map[uint64]string{
	63: "uname",
	0:  "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "stat", 8: "lseek", 16: "ioctl", 17: "pread", 18: "pwrite", 19: "read", 20: "write",
	21: "access", 22: "pipe", 32: "dup", 33: "dup", 39: "getpid", 61: "wait", 62: "kill", 72: "fcntl", 73: "flock", 74: "fsync", 75: "fsync", 76: "truncate", 77: "ftruncate",
	79: "getcwd", 80: "chdir", 81: "chdir", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "open", 86: "link", 87: "unlink", 88: "symlink", 89: "readlink", 90: "chmod", 91: "chmod", 92: "chown", 93: "chown",
	137: "statfs", 138: "statfs", 217: "getdents", 221: "fadvise", 247: "wait", 257: "open", 258: "mkdir", 260: "chown", 262: "stat", 263: "unlink", 264: "rename", 265: "link", 266: "symlink", 267: "readlink", 268: "chmod", 269: "access",
	280: "utimens", 285: "fallocate", 292: "dup", 293: "pipe", 316: "rename", 318: "getrandom", 326: "copyrange", 332: "statx", 439: "access", 452: "chmod", 162: "sync", 306: "syncfs",
}

func (p *Proc) fdPath(fd uint64) string {
	if o := p.fds[int(int32(fd))]; o != nil {
		return o.path
	}
	return "fd?"
}

func (p *Proc) full(fd int32, path []byte) string {
	s := string(path)
	if strings.HasPrefix(s, "/") {
		return s
	}
	if fd == atFDCWD {
		return p.cwdPath + "/" + s
	}
	return p.fdPath(uint64(uint32(fd))) + "/" + s
}

// describe names an operation for the log and for fault placement.
func (p *Proc) describe(r *request) (name, path string, n int64) {
	switch r.op {
	case 2:
		return "spawn", "", 0
	case 3:
		l := strings.SplitN(string(r.segs[0]), "\n", 3)
		if len(l) > 1 {
			path = l[1]
		}
		return "http", path, 0
	case 4:
		if b := p.bodies[r.a[0]]; b != nil {
			path = b.url
		}
		return "httpread", path, int64(r.outcap)
	case 5:
		if b := p.bodies[r.a[0]]; b != nil {
			path = b.url
		}
		return "httpclose", path, 0
	}
	name = sysNames[r.trap]
	if name == "" {
		name = fmt.Sprintf("sys%d", r.trap)
	}
	switch r.trap {
	case 0, 17, 19, 295:
		return name, p.fdPath(r.a[0]), int64(r.outcap)
	case 1, 18, 20:
		return name, p.fdPath(r.a[0]), int64(len(r.segs[0]))
	case 3, 5, 8, 16, 72, 73, 74, 75, 77, 81, 91, 93, 138, 217, 221, 285, 306:
		return name, p.fdPath(r.a[0]), 0
	case 257, 258, 260, 262, 263, 267, 268, 269, 280, 332, 439, 452:
		return name, p.full(int32(r.a[0]), r.segs[0]), 0
	case 264, 316:
		return name, p.full(int32(r.a[0]), r.segs[0]) + " -> " + p.full(int32(r.a[2]), r.segs[1]), 0
	case 2, 4, 6, 21, 76, 80, 83, 84, 85, 87, 89, 90, 92, 137:
		return name, p.full(atFDCWD, r.segs[0]), 0
	case 82, 86, 88:
		return name, p.full(atFDCWD, r.segs[0]) + " -> " + p.full(atFDCWD, r.segs[1]), 0
	}
	return name, "", 0
}

func errResp(e syscall.Errno) response { return response{errno: e} }

func (p *Proc) serve(r *request) response {
	switch r.op {
	case 2:
		return p.spawn(r, nil)
	case 3:
		return p.httpFault(r, nil)
	case 4:
		return p.httpRead(r)
	case 5:
		if b := p.bodies[r.a[0]]; b != nil {
			b.closed = true
		}
		return response{}
	}
	a := r.a
	w := p.w
	switch r.trap {
	case 0, 19, 295: // read readv
		return p.read(int(int32(a[0])), int(r.outcap), -1)
	case 17:
		return p.read(int(int32(a[0])), int(r.outcap), int64(a[3]))
	case 1, 20:
		return p.write(int(int32(a[0])), r.segs[0], -1)
	case 18:
		return p.write(int(int32(a[0])), r.segs[0], int64(a[3]))
	case 2:
		return p.open(atFDCWD, r.segs[0], int(a[1]), uint32(a[2]))
	case 85:
		return p.open(atFDCWD, r.segs[0], syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a[1]))
	case 257:
		return p.open(int32(a[0]), r.segs[0], int(a[2]), uint32(a[3]))
	case 3:
		if p.fds[int(int32(a[0]))] == nil {
			return errResp(syscall.EBADF)
		}
		p.closeFD(int(int32(a[0])))
		return response{}
	case 4, 6:
		l, e := p.at(atFDCWD, r.segs[0], r.trap == 4)
		return p.stat(l, e)
	case 262:
		flags := int(a[3])
		if len(r.segs[0]) == 0 && flags&0x1000 != 0 {
			return p.fstat(int(int32(a[0])))
		}
		l, e := p.at(int32(a[0]), r.segs[0], flags&0x100 == 0)
		return p.stat(l, e)
	case 5:
		return p.fstat(int(int32(a[0])))
	case 63:
		host := p.Spec.Host
		if host == "" {
			host = "sim"
		}
		out := make([]byte, 390)
		for i, v := range []string{"Linux", host, "6.1.0", "#1 SMP", "x86_64", "(none)"} {
			copy(out[65*i:65*i+64], v)
		}
		return response{out: out}
	case 8:
		o := p.fds[int(int32(a[0]))]
		if o == nil {
			return errResp(syscall.EBADF)
		}
		if o.kind != 'f' && o.kind != 'd' {
			return errResp(syscall.ESPIPE)
		}
		off := int64(a[1])
		switch a[2] {
		case 1:
			off += o.off
		case 2:
			off += int64(len(o.n.data))
		}
		if off < 0 {
			return errResp(syscall.EINVAL)
		}
		o.off = off
		if o.kind == 'd' {
			o.names = nil
		}
		return response{r1: uint64(off)}
	case 16: // ioctl
		o := p.fds[int(int32(a[0]))]
		if o != nil && (o.stream != nil && o.stream.tty || o.sink != nil && o.sink.spec.TTY) {
			return response{}
		}
		return errResp(syscall.ENOTTY)
	case 21, 269, 439: // access
		dfd, mode := int32(atFDCWD), a[1]
		if r.trap != 21 {
			dfd, mode = int32(a[0]), a[2]
		}
		l, e := p.at(dfd, r.segs[0], true)
		if e != 0 {
			return errResp(e)
		}
		if l.n == nil {
			return errResp(syscall.ENOENT)
		}
		m := uint64(l.n.mode>>6) & 7
		if mode&^m != 0 {
			return errResp(syscall.EACCES)
		}
		return response{}
	case 22, 293:
		pp := &pipe{readers: 1, writers: 1}
		rd, e := p.newFD(&ofile{kind: 'p', pipe: pp, path: "pipe"})
		if e != 0 {
			return errResp(e)
		}
		wr, e := p.newFD(&ofile{kind: 'p', pipe: pp, wr: true, path: "pipe"})
		if e != 0 {
			p.closeFD(rd)
			return errResp(e)
		}
		var b [8]byte
		binary.LittleEndian.PutUint32(b[0:], uint32(rd))
		binary.LittleEndian.PutUint32(b[4:], uint32(wr))
		return response{out: b[:]}
	case 32, 33, 292:
		o := p.fds[int(int32(a[0]))]
		if o == nil {
			return errResp(syscall.EBADF)
		}
		if r.trap != 32 {
			nfd := int(int32(a[1]))
			p.closeFD(nfd)
			o.refs++
			p.fds[nfd] = o
			return response{r1: uint64(nfd)}
		}
		fd, e := p.newFD(o)
		return response{r1: uint64(fd), errno: e}
	case 72: // fcntl
		o := p.fds[int(int32(a[0]))]
		if o == nil {
			return errResp(syscall.EBADF)
		}
		switch a[1] {
		case 0, 1030: // F_DUPFD, F_DUPFD_CLOEXEC
			fd, e := p.newFD(o)
			return response{r1: uint64(fd), errno: e}
		case 3: // F_GETFL
			return response{r1: uint64(o.flags)}
		case 5, 6, 7, 36, 37, 38: // record locks: whole-file approximation
			return response{}
		}
		return response{}
	case 73:
		return p.flock(int(int32(a[0])), int(a[1]))
	case 74, 75:
		o := p.fds[int(int32(a[0]))]
		if o == nil {
			return errResp(syscall.EBADF)
		}
		if o.n == nil {
			return errResp(syscall.EINVAL)
		}
		w.FS.fsync(o.n)
		return response{}
	case 162, 306:
		for _, n := range w.FS.inodes {
			if n.kind == 'f' {
				w.FS.fsync(n)
			}
		}
		w.FS.committed = len(w.FS.journal)
		return response{}
	case 76, 77:
		var n *inode
		if r.trap == 76 {
			l, e := p.at(atFDCWD, r.segs[0], true)
			if e != 0 {
				return errResp(e)
			}
			n = l.n
			if n == nil {
				return errResp(syscall.ENOENT)
			}
		} else {
			o := p.fds[int(int32(a[0]))]
			if o == nil || o.n == nil {
				return errResp(syscall.EBADF)
			}
			if o.flags&3 == syscall.O_RDONLY {
				return errResp(syscall.EINVAL)
			}
			n = o.n
		}
		if n.kind != 'f' {
			return errResp(syscall.EISDIR)
		}
		w.FS.truncate(n, int64(a[1]))
		return response{}
	case 79:
		b := append([]byte(p.cwdPath), 0)
		if len(b) > int(r.outcap) {
			return errResp(syscall.ERANGE)
		}
		return response{r1: uint64(len(b)), out: b}
	case 80:
		l, e := p.at(atFDCWD, r.segs[0], true)
		if e == 0 && l.n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && l.n.kind != 'd' {
			e = syscall.ENOTDIR
		}
		if e != 0 {
			return errResp(e)
		}
		p.cwdPath = cleanPath(p.full(atFDCWD, r.segs[0]))
		p.cwd = l.n
		return response{}
	case 82:
		return p.rename(atFDCWD, r.segs[0], atFDCWD, r.segs[1], 0)
	case 264:
		return p.rename(int32(a[0]), r.segs[0], int32(a[2]), r.segs[1], 0)
	case 316:
		return p.rename(int32(a[0]), r.segs[0], int32(a[2]), r.segs[1], uint32(a[4]))
	case 83, 258:
		dfd, mode := int32(atFDCWD), uint32(a[1])
		if r.trap == 258 {
			dfd, mode = int32(a[0]), uint32(a[2])
		}
		l, e := p.at(dfd, r.segs[0], false)
		if e != 0 {
			return errResp(e)
		}
		if l.n != nil {
			return errResp(syscall.EEXIST)
		}
		if l.dir.mode&0o200 == 0 {
			return errResp(syscall.EACCES)
		}
		w.FS.create(l.dir, l.name, 'd', mode&0o777)
		return response{}
	case 84, 87, 263:
		dfd, rmdir := int32(atFDCWD), r.trap == 84
		if r.trap == 263 {
			dfd, rmdir = int32(a[0]), a[2]&0x200 != 0
		}
		l, e := p.at(dfd, r.segs[0], false)
		if e != 0 {
			return errResp(e)
		}
		if l.n == nil {
			return errResp(syscall.ENOENT)
		}
		if l.dir.mode&0o200 == 0 {
			return errResp(syscall.EACCES)
		}
		if rmdir != (l.n.kind == 'd') {
			if rmdir {
				return errResp(syscall.ENOTDIR)
			}
			return errResp(syscall.EISDIR)
		}
		if rmdir && len(l.n.ents) > 0 {
			return errResp(syscall.ENOTEMPTY)
		}
		w.FS.unlink(l.dir, l.name)
		return response{}
	case 86, 265:
		var l1, l2 lookup
		var e syscall.Errno
		if r.trap == 86 {
			l1, e = p.at(atFDCWD, r.segs[0], false)
		} else {
			l1, e = p.at(int32(a[0]), r.segs[0], a[4]&0x400 != 0)
		}
		if e == 0 && l1.n == nil {
			e = syscall.ENOENT
		}
		if e == 0 {
			if r.trap == 86 {
				l2, e = p.at(atFDCWD, r.segs[1], false)
			} else {
				l2, e = p.at(int32(a[2]), r.segs[1], false)
			}
		}
		if e == 0 && l2.n != nil {
			e = syscall.EEXIST
		}
		if e != 0 {
			return errResp(e)
		}
		l2.dir.ents[l2.name] = l1.n.ino
		l1.n.nlink++
		w.FS.journalOp(metaOp{op: 'l', dir: l2.dir.ino, name: l2.name, ino: l1.n.ino})
		return response{}
	case 88, 266:
		dfd := int32(atFDCWD)
		if r.trap == 266 {
			dfd = int32(a[1])
		}
		l, e := p.at(dfd, r.segs[1], false)
		if e == 0 && l.n != nil {
			e = syscall.EEXIST
		}
		if e != 0 {
			return errResp(e)
		}
		w.FS.create(l.dir, l.name, 'l', 0o777).link = string(r.segs[0])
		return response{}
	case 89, 267:
		dfd := int32(atFDCWD)
		if r.trap == 267 {
			dfd = int32(a[0])
		}
		l, e := p.at(dfd, r.segs[0], false)
		if e == 0 && l.n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && l.n.kind != 'l' {
			e = syscall.EINVAL
		}
		if e != 0 {
			return errResp(e)
		}
		b := clip([]byte(l.n.link), int(r.outcap))
		return response{r1: uint64(len(b)), out: b}
	case 90, 91, 268, 452:
		var n *inode
		mode := uint32(a[1])
		if r.trap == 91 {
			if o := p.fds[int(int32(a[0]))]; o != nil {
				n = o.n
			}
		} else {
			dfd := int32(atFDCWD)
			if r.trap != 90 {
				dfd, mode = int32(a[0]), uint32(a[2])
			}
			l, e := p.at(dfd, r.segs[0], true)
			if e != 0 {
				return errResp(e)
			}
			n = l.n
		}
		if n == nil {
			return errResp(syscall.ENOENT)
		}
		n.mode = mode & 0o7777
		return response{}
	case 92, 93, 260, 280:
		return response{}
	case 217:
		return p.getdents(int(int32(a[0])), int(r.outcap))
	case 221, 285:
		return response{}
	case 318:
		b := make([]byte, r.outcap)
		for i := range b {
			b[i] = byte(w.rnd(256))
		}
		return response{r1: uint64(len(b)), out: b}
	case 39:
		return response{r1: uint64(p.pid)}
	case 61, 247:
		return p.wait(r)
	case 62:
		return errResp(syscall.ESRCH)
	}
	w.Fired["unmodelled:"+strconv.FormatUint(r.trap, 10)]++
	return errResp(syscall.ENOSYS)
}

func cleanPath(s string) string {
	var out []string
	for _, c := range strings.Split(s, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func (p *Proc) open(dfd int32, path []byte, flags int, mode uint32) response {
	w := p.w
	full := cleanPath(p.full(dfd, path))
	if full == "/dev/urandom" || full == "/dev/random" {
		fd, e := p.newFD(&ofile{kind: 'u', path: full, flags: flags})
		return response{r1: uint64(fd), errno: e}
	}
	if full == "/dev/stdin" || full == "/dev/stdout" || full == "/dev/stderr" {
		src := p.fds[map[string]int{"/dev/stdin": 0, "/dev/stdout": 1, "/dev/stderr": 2}[full]]
		if src == nil {
			return errResp(syscall.ENXIO)
		}
		fd, e := p.newFD(src)
		return response{r1: uint64(fd), errno: e}
	}
	l, e := p.at(dfd, path, flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0))
	if e != 0 {
		return errResp(e)
	}
	n := l.n
	acc := flags & 3
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return errResp(syscall.ENOENT)
		}
		if l.dir.mode&0o200 == 0 {
			return errResp(syscall.EACCES)
		}
		if len(p.fds) >= p.nofile() {
			return errResp(syscall.EMFILE)
		}
		n = w.FS.create(l.dir, l.name, 'f', mode&0o777)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return errResp(syscall.EEXIST)
		}
		if n.kind == 'l' {
			return errResp(syscall.ELOOP)
		}
		if flags&syscall.O_DIRECTORY != 0 && n.kind != 'd' {
			return errResp(syscall.ENOTDIR)
		}
		if n.kind == 'd' && acc != syscall.O_RDONLY {
			return errResp(syscall.EISDIR)
		}
		if acc != syscall.O_WRONLY && n.mode&0o400 == 0 {
			return errResp(syscall.EACCES)
		}
		if acc != syscall.O_RDONLY && n.mode&0o200 == 0 {
			return errResp(syscall.EACCES)
		}
		if len(p.fds) >= p.nofile() {
			return errResp(syscall.EMFILE)
		}
		if flags&syscall.O_TRUNC != 0 && n.kind == 'f' && len(n.data) > 0 {
			w.FS.truncate(n, 0)
		}
	}
	o := &ofile{kind: n.kind, n: n, path: full, flags: flags}
	if n.kind == 'c' {
		o.kind = 'n'
	}
	fd, e := p.newFD(o)
	return response{r1: uint64(fd), errno: e}
}

func (p *Proc) nofile() int {
	if p.Spec.NoFile > 0 {
		return p.Spec.NoFile
	}
	return 1024
}

func (p *Proc) read(fd, n int, off int64) response {
	o := p.fds[fd]
	if o == nil {
		return errResp(syscall.EBADF)
	}
	if m := p.Spec.MaxIO; m > 0 && n > m {
		n = m
	}
	switch o.kind {
	case 'n':
		return response{}
	case 'u':
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(p.w.rnd(256))
		}
		return response{r1: uint64(n), out: b}
	case 'd':
		return errResp(syscall.EISDIR)
	case 'f':
		if o.flags&3 == syscall.O_WRONLY {
			return errResp(syscall.EBADF)
		}
		at := off
		if off < 0 {
			at = o.off
		}
		if at >= int64(len(o.n.data)) {
			return response{}
		}
		b := o.n.data[at:]
		if len(b) > n {
			b = b[:n]
		}
		b = append([]byte(nil), b...)
		if off < 0 {
			o.off += int64(len(b))
		}
		return response{r1: uint64(len(b)), out: b}
	case 's':
		return o.stream.read(n)
	case 'p':
		if o.wr {
			return errResp(syscall.EBADF)
		}
		if len(o.pipe.buf) == 0 {
			if o.pipe.writers == 0 {
				return response{}
			}
			p.w.pumpChildren()
			if len(o.pipe.buf) == 0 {
				if o.pipe.writers == 0 {
					return response{}
				}
				return response{retry: true}
			}
		}
		b := o.pipe.buf
		if len(b) > n {
			b = b[:n]
		}
		b = append([]byte(nil), b...)
		o.pipe.buf = o.pipe.buf[len(b):]
		o.pipe.consumed += len(b)
		return response{r1: uint64(len(b)), out: b}
	}
	return errResp(syscall.EBADF)
}

func (s *stream) read(n int) response {
	c := n
	if k := len(s.spec.Chunks); k > 0 {
		i := s.nrd
		if i >= k {
			i = k - 1
		}
		if v := s.spec.Chunks[i]; v > 0 && v < c {
			c = v
		}
	}
	s.nrd++
	if s.pos >= len(s.data) {
		if s.spec.End != "" && s.spec.End != "eof" {
			return errResp(Errno(s.spec.End))
		}
		return response{}
	}
	b := s.data[s.pos:]
	if len(b) > c {
		b = b[:c]
	}
	s.pos += len(b)
	return response{r1: uint64(len(b)), out: b}
}

func (p *Proc) write(fd int, b []byte, off int64) response {
	o := p.fds[fd]
	if o == nil {
		return errResp(syscall.EBADF)
	}
	if m := p.Spec.MaxIO; m > 0 && len(b) > max(m, 16) {
		m = max(m, 16)
		b = b[:m]
	}
	switch o.kind {
	case 'n', 'u':
		return response{r1: uint64(len(b))}
	case 'o':
		return o.sink.write(b)
	case 'f':
		if o.flags&3 == syscall.O_RDONLY {
			return errResp(syscall.EBADF)
		}
		at := off
		if off < 0 {
			at = o.off
			if o.flags&syscall.O_APPEND != 0 {
				at = int64(len(o.n.data))
			}
		}
		n, e := p.w.FS.write(o.n, at, b)
		if e != 0 {
			p.w.Fired["quota:ENOSPC"]++
			return errResp(e)
		}
		if off < 0 {
			o.off = at + int64(n)
		}
		return response{r1: uint64(n)}
	case 'p':
		if !o.wr {
			return errResp(syscall.EBADF)
		}
		if o.pipe.readers == 0 {
			return errResp(syscall.EPIPE)
		}
		o.pipe.buf = append(o.pipe.buf, b...)
		p.w.pumpChildren()
		return response{r1: uint64(len(b))}
	}
	return errResp(syscall.EBADF)
}

func (s *sink) write(b []byte) response {
	n := len(b)
	if n == 0 {
		return response{}
	}
	if s.spec.MaxWrite > 0 && n > s.spec.MaxWrite {
		n = s.spec.MaxWrite
	}
	if s.spec.Limited || s.spec.Limit > 0 {
		room := s.spec.Limit - s.buf.Len()
		if room <= 0 {
			s.errd = true
			return errResp(Errno(s.spec.Errno))
		}
		if n > room {
			n = room
		}
	}
	s.buf.Write(b[:n])
	return response{r1: uint64(n)}
}

func (p *Proc) stat(l lookup, e syscall.Errno) response {
	if e != 0 {
		return errResp(e)
	}
	if l.n == nil {
		return errResp(syscall.ENOENT)
	}
	return response{out: statBuf(l.n)}
}

func (p *Proc) fstat(fd int) response {
	o := p.fds[fd]
	if o == nil {
		return errResp(syscall.EBADF)
	}
	if o.n != nil {
		return response{out: statBuf(o.n)}
	}
	n := &inode{ino: uint64(1e6 + fd), kind: 'p', mode: 0o600, nlink: 1, mtime: p.w.clock}
	if o.stream != nil && o.stream.tty || o.sink != nil && o.sink.spec.TTY || o.kind == 'u' {
		n.kind = 'c'
	}
	return response{out: statBuf(n)}
}

func statBuf(n *inode) []byte {
	b := make([]byte, 144)
	le := binary.LittleEndian
	mode := n.mode
	switch n.kind {
	case 'f':
		mode |= syscall.S_IFREG
	case 'd':
		mode |= syscall.S_IFDIR
	case 'l':
		mode |= syscall.S_IFLNK
	case 'p':
		mode |= syscall.S_IFIFO
	case 'c':
		mode |= syscall.S_IFCHR
	}
	size := int64(len(n.data))
	if n.kind == 'd' {
		size = 4096
	}
	if n.kind == 'l' {
		size = int64(len(n.link))
	}
	le.PutUint64(b[0:], 1)
	le.PutUint64(b[8:], n.ino)
	le.PutUint64(b[16:], uint64(n.nlink))
	le.PutUint32(b[24:], mode)
	le.PutUint32(b[28:], 1000)
	le.PutUint32(b[32:], 1000)
	le.PutUint64(b[48:], uint64(size))
	le.PutUint64(b[56:], 4096)
	le.PutUint64(b[64:], uint64((size+511)/512))
	for _, o := range []int{72, 88, 104} {
		le.PutUint64(b[o:], uint64(n.mtime/1e9))
		le.PutUint64(b[o+8:], uint64(n.mtime%1e9))
	}
	return b
}

func (p *Proc) getdents(fd, cap int) response {
	o := p.fds[fd]
	if o == nil {
		return errResp(syscall.EBADF)
	}
	if o.kind != 'd' {
		return errResp(syscall.ENOTDIR)
	}
	if o.names == nil && o.off == 0 {
		o.names = append([]string{".", ".."}, p.w.FS.names(o.n)...)
	}
	var out []byte
	for k := 0; o.off < int64(len(o.names)); k++ {
		if m := p.Spec.DirMax; m > 0 && k >= m && len(out) > 0 {
			break
		}
		name := o.names[o.off]
		ino, typ := o.n.ino, byte(4)
		if name != "." && name != ".." {
			i, ok := o.n.ents[name]
			if !ok {
				o.off++
				continue
			}
			c := p.w.FS.inodes[i]
			ino = i
			switch c.kind {
			case 'f':
				typ = 8
			case 'd':
				typ = 4
			case 'l':
				typ = 10
			case 'c':
				typ = 2
			}
		}
		reclen := (19 + len(name) + 1 + 7) &^ 7
		if len(out)+reclen > cap {
			if len(out) == 0 {
				return errResp(syscall.EINVAL)
			}
			break
		}
		rec := make([]byte, reclen)
		le := binary.LittleEndian
		le.PutUint64(rec[0:], ino)
		le.PutUint64(rec[8:], uint64(o.off+1))
		le.PutUint16(rec[16:], uint16(reclen))
		rec[18] = typ
		copy(rec[19:], name)
		out = append(out, rec...)
		o.off++
	}
	return response{r1: uint64(len(out)), out: out}
}

func (p *Proc) rename(d1 int32, s1 []byte, d2 int32, s2 []byte, flags uint32) response {
	l1, e := p.at(d1, s1, false)
	if e != 0 {
		return errResp(e)
	}
	if l1.n == nil {
		return errResp(syscall.ENOENT)
	}
	l2, e := p.at(d2, s2, false)
	if e != 0 {
		return errResp(e)
	}
	if l1.dir.mode&0o200 == 0 || l2.dir.mode&0o200 == 0 {
		return errResp(syscall.EACCES)
	}
	if l2.n != nil {
		if flags&1 != 0 {
			return errResp(syscall.EEXIST)
		}
		if l2.n == l1.n {
			return response{}
		}
		if l2.n.kind == 'd' && l1.n.kind != 'd' {
			return errResp(syscall.EISDIR)
		}
		if l2.n.kind != 'd' && l1.n.kind == 'd' {
			return errResp(syscall.ENOTDIR)
		}
		if l2.n.kind == 'd' && len(l2.n.ents) > 0 {
			return errResp(syscall.ENOTEMPTY)
		}
	}
	p.w.FS.rename(l1.dir, l1.name, l2.dir, l2.name)
	return response{}
}

func (p *Proc) flock(fd, op int) response {
	o := p.fds[fd]
	if o == nil || o.n == nil {
		return errResp(syscall.EBADF)
	}
	n := o.n
	if n.lockSh == nil {
		n.lockSh = map[*ofile]bool{}
	}
	nb := op&4 != 0
	busy := func() response {
		if nb {
			return errResp(syscall.EAGAIN)
		}
		return response{retry: true}
	}
	switch op &^ 4 {
	case 8:
		if n.lockEx == o {
			n.lockEx = nil
		}
		delete(n.lockSh, o)
	case 2:
		if n.lockEx != nil && n.lockEx != o {
			return busy()
		}
		for h := range n.lockSh {
			if h != o {
				return busy()
			}
		}
		delete(n.lockSh, o)
		n.lockEx = o
	case 1:
		if n.lockEx != nil && n.lockEx != o {
			return busy()
		}
		n.lockEx = nil
		n.lockSh[o] = true
	}
	return response{}
}

package kern

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"syscall"
)

type inode struct {
	ino     uint64
	kind    byte // 'f' file, 'd' directory, 'l' symlink, 'c' null device
	mode    uint32
	data    []byte
	link    string
	ents    map[string]uint64
	nlink   int
	mtime   int64
	lockEx  *ofile // flock holders
	lockSh  map[*ofile]bool
	durable []byte   // contents guaranteed to survive power loss
	pending []dataOp // data operations since then, in order
}

type dataOp struct {
	off   int64
	data  []byte
	trunc bool // off is the new size
}

type metaOp struct {
	op        byte // 'c' create, 'u' unlink, 'r' rename, 'l' link
	dir, dir2 uint64
	name      string
	name2     string
	ino       uint64
}

// FS is an in-memory file system with a page cache: what a process wrote is
// visible at once, survives a killed process, and survives a power loss only
// as far as fsync or the metadata journal made it durable.
type FS struct {
	inodes  map[uint64]*inode
	root    uint64
	nextIno uint64
	dirSalt uint64
	used    int64
	quota   int64 // 0: unlimited bytes of file data

	baseDirs  map[uint64]map[string]uint64
	journal   []metaOp
	committed int
	now       func() int64
}

func newFS(now func() int64) *FS {
	f := &FS{inodes: map[uint64]*inode{}, nextIno: 2, now: now}
	r := f.alloc('d', 0o755)
	f.root = r.ino
	return f
}

func (f *FS) alloc(kind byte, mode uint32) *inode {
	n := &inode{ino: f.nextIno, kind: kind, mode: mode, nlink: 1, mtime: f.now()}
	if kind == 'd' {
		n.ents = map[string]uint64{}
	}
	f.nextIno++
	f.inodes[n.ino] = n
	return n
}

// checkpoint makes the present state the durable base.
func (f *FS) checkpoint() {
	f.baseDirs = map[uint64]map[string]uint64{}
	for _, n := range f.inodes {
		if n.kind == 'd' {
			m := make(map[string]uint64, len(n.ents))
			for k, v := range n.ents {
				m[k] = v
			}
			f.baseDirs[n.ino] = m
		} else {
			n.durable = append([]byte(nil), n.data...)
			n.pending = nil
		}
	}
	f.journal = nil
	f.committed = 0
}

func (f *FS) journalOp(op metaOp) { f.journal = append(f.journal, op) }

// fsync: the file's data, and every metadata operation so far (a journaling
// file system commits the transaction the inode belongs to).
func (f *FS) fsync(n *inode) {
	n.durable = append([]byte(nil), n.data...)
	n.pending = nil
	f.committed = len(f.journal)
}

func (f *FS) write(n *inode, off int64, p []byte) (int, syscall.Errno) {
	end := off + int64(len(p))
	if grow := end - int64(len(n.data)); grow > 0 {
		if f.quota > 0 && f.used+grow > f.quota {
			room := f.quota - f.used
			keep := int64(len(p)) - (grow - room)
			if keep <= 0 {
				return 0, syscall.ENOSPC
			}
			p = p[:keep]
			end = off + keep
			grow = end - int64(len(n.data))
			if grow < 0 {
				grow = 0
			}
		}
		if grow > 0 {
			n.data = append(n.data, make([]byte, grow)...)
			f.used += grow
		}
	}
	copy(n.data[off:end], p)
	n.pending = append(n.pending, dataOp{off: off, data: append([]byte(nil), p...)})
	n.mtime = f.now()
	return len(p), 0
}

func (f *FS) truncate(n *inode, size int64) {
	if size < int64(len(n.data)) {
		f.used -= int64(len(n.data)) - size
		n.data = append([]byte(nil), n.data[:size]...)
	} else if size > int64(len(n.data)) {
		f.used += size - int64(len(n.data))
		n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
	}
	n.pending = append(n.pending, dataOp{off: size, trunc: true})
	n.mtime = f.now()
}

type lookup struct {
	dir  *inode
	name string
	n    *inode // nil: absent
}

// resolve walks path; the final symlink is followed when follow is set.
func (f *FS) resolve(cwd *inode, path string, follow bool) (lookup, syscall.Errno) {
	return f.walk(cwd, path, follow, 0)
}

func (f *FS) walk(cwd *inode, path string, follow bool, depth int) (lookup, syscall.Errno) {
	if depth > 40 {
		return lookup{}, syscall.ELOOP
	}
	if path == "" {
		return lookup{}, syscall.ENOENT
	}
	if len(path) > 4096 {
		return lookup{}, syscall.ENAMETOOLONG
	}
	cur := cwd
	if path[0] == '/' {
		cur = f.inodes[f.root]
	}
	type up struct{ parent *inode }
	// Parents are found by search: directories are few.
	parts := strings.Split(path, "/")
	var clean []string
	mustDir := false
	for i, p := range parts {
		if p == "" || p == "." {
			if i == len(parts)-1 && i > 0 {
				mustDir = true
			}
			continue
		}
		clean = append(clean, p)
	}
	if len(clean) == 0 {
		return lookup{dir: cur, name: ".", n: cur}, 0
	}
	for i, p := range clean {
		last := i == len(clean)-1
		if cur.kind != 'd' {
			return lookup{}, syscall.ENOTDIR
		}
		if cur.mode&0o100 == 0 {
			return lookup{}, syscall.EACCES
		}
		if len(p) > 255 {
			return lookup{}, syscall.ENAMETOOLONG
		}
		if p == ".." {
			cur = f.parent(cur)
			if last {
				return lookup{dir: cur, name: ".", n: cur}, 0
			}
			continue
		}
		ino, ok := cur.ents[p]
		var n *inode
		if ok {
			n = f.inodes[ino]
		}
		if n != nil && n.kind == 'l' && (!last || follow || mustDir) {
			rest := strings.Join(clean[i+1:], "/")
			t := n.link
			if rest != "" {
				t += "/" + rest
			}
			return f.walk(cur, t, follow, depth+1)
		}
		if last {
			if n != nil && mustDir && n.kind != 'd' {
				return lookup{}, syscall.ENOTDIR
			}
			return lookup{dir: cur, name: p, n: n}, 0
		}
		if n == nil {
			return lookup{}, syscall.ENOENT
		}
		cur = n
	}
	return lookup{}, syscall.ENOENT
}

func (f *FS) parent(d *inode) *inode {
	for _, n := range f.inodes {
		if n.kind != 'd' {
			continue
		}
		for _, c := range n.ents {
			if c == d.ino {
				return n
			}
		}
	}
	return d
}

// pathOf names an inode (any one of its names), for traces.
func (f *FS) pathOf(n *inode) string {
	if n.ino == f.root {
		return "/"
	}
	var best string
	var rec func(d *inode, pre string)
	rec = func(d *inode, pre string) {
		names := make([]string, 0, len(d.ents))
		for k := range d.ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c := f.inodes[d.ents[k]]
			if c == nil {
				continue
			}
			if c == n && best == "" {
				best = pre + "/" + k
				return
			}
			if c.kind == 'd' {
				rec(c, pre+"/"+k)
			}
			if best != "" {
				return
			}
		}
	}
	rec(f.inodes[f.root], "")
	return best
}

func (f *FS) create(dir *inode, name string, kind byte, mode uint32) *inode {
	n := f.alloc(kind, mode)
	dir.ents[name] = n.ino
	dir.mtime = f.now()
	f.journalOp(metaOp{op: 'c', dir: dir.ino, name: name, ino: n.ino})
	return n
}

func (f *FS) unlink(dir *inode, name string) {
	n := f.inodes[dir.ents[name]]
	delete(dir.ents, name)
	dir.mtime = f.now()
	if n != nil {
		n.nlink--
	}
	f.journalOp(metaOp{op: 'u', dir: dir.ino, name: name})
}

func (f *FS) rename(d1 *inode, n1 string, d2 *inode, n2 string) {
	ino := d1.ents[n1]
	if old, ok := d2.ents[n2]; ok && old != ino {
		f.inodes[old].nlink--
	}
	delete(d1.ents, n1)
	d2.ents[n2] = ino
	d1.mtime, d2.mtime = f.now(), f.now()
	f.journalOp(metaOp{op: 'r', dir: d1.ino, name: n1, dir2: d2.ino, name2: n2, ino: ino})
}

// names lists a directory in the order the simulated disk returns it.
func (f *FS) names(d *inode) []string {
	type ent struct {
		h uint64
		n string
	}
	es := make([]ent, 0, len(d.ents))
	for k := range d.ents {
		h := fnv.New64a()
		var b [8]byte
		for i := range b {
			b[i] = byte(f.dirSalt >> (8 * i))
		}
		h.Write(b[:])
		h.Write([]byte(k))
		v := h.Sum64()
		if f.dirSalt == 0 {
			v = 0
		}
		es = append(es, ent{v, k})
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].h != es[j].h {
			return es[i].h < es[j].h
		}
		return es[i].n < es[j].n
	})
	out := make([]string, len(es))
	for i, e := range es {
		out[i] = e.n
	}
	return out
}

// PowerLoss rebuilds the file system as it is found after the machine lost
// power. r draws which un-synced operations had reached the disk.
func (f *FS) PowerLoss(r func(n int) int) {
	k := f.committed
	if left := len(f.journal) - f.committed; left > 0 {
		k += r(left + 1)
	}
	dirs := map[uint64]map[string]uint64{}
	for ino, m := range f.baseDirs {
		c := make(map[string]uint64, len(m))
		for a, b := range m {
			c[a] = b
		}
		dirs[ino] = c
	}
	get := func(ino uint64) map[string]uint64 {
		if dirs[ino] == nil {
			dirs[ino] = map[string]uint64{}
		}
		return dirs[ino]
	}
	for _, op := range f.journal[:k] {
		switch op.op {
		case 'c', 'l':
			get(op.dir)[op.name] = op.ino
		case 'u':
			delete(get(op.dir), op.name)
		case 'r':
			delete(get(op.dir), op.name)
			get(op.dir2)[op.name2] = op.ino
		}
	}
	inos := make([]uint64, 0, len(f.inodes))
	for ino := range f.inodes {
		inos = append(inos, ino)
	}
	sort.Slice(inos, func(i, j int) bool { return inos[i] < inos[j] })
	for _, ino := range inos {
		n := f.inodes[ino]
		n.lockEx, n.lockSh = nil, nil
		if n.kind == 'd' {
			n.ents = get(ino)
			continue
		}
		if n.kind != 'f' || len(n.pending) == 0 {
			continue
		}
		// A prefix of the pending data operations, the last one possibly torn.
		j := r(len(n.pending) + 1)
		d := append([]byte(nil), n.durable...)
		apply := func(o dataOp, torn int) {
			if o.trunc {
				if o.off < int64(len(d)) {
					d = d[:o.off]
				} else {
					d = append(d, make([]byte, o.off-int64(len(d)))...)
				}
				return
			}
			end := o.off + int64(torn)
			if end > int64(len(d)) {
				d = append(d, make([]byte, end-int64(len(d)))...)
			}
			copy(d[o.off:end], o.data[:torn])
		}
		for i := 0; i < j; i++ {
			torn := len(n.pending[i].data)
			if i == j-1 && !n.pending[i].trunc && r(2) == 0 {
				torn = r(torn + 1)
			}
			apply(n.pending[i], torn)
		}
		n.data = d
		n.mtime = f.now()
	}
	f.used = 0
	for _, n := range f.inodes {
		f.used += int64(len(n.data))
	}
	f.checkpoint()
}

// --- harness access (no faults, no permissions) ---

func (f *FS) MkdirAll(path string, mode uint32) *inode {
	cur := f.inodes[f.root]
	for _, p := range strings.Split(path, "/") {
		if p == "" {
			continue
		}
		if ino, ok := cur.ents[p]; ok {
			cur = f.inodes[ino]
			continue
		}
		n := f.alloc('d', mode)
		cur.ents[p] = n.ino
		cur = n
	}
	return cur
}

func (f *FS) Put(path string, data []byte, mode uint32) *inode {
	i := strings.LastIndexByte(path, '/')
	d := f.MkdirAll(path[:i], 0o755)
	n := f.alloc('f', mode)
	n.data = append([]byte(nil), data...)
	d.ents[path[i+1:]] = n.ino
	f.used += int64(len(data))
	return n
}

// Get returns the contents of a regular file.
func (f *FS) Get(path string) ([]byte, bool) {
	l, e := f.resolve(f.inodes[f.root], path, true)
	if e != 0 || l.n == nil || l.n.kind != 'f' {
		return nil, false
	}
	return l.n.data, true
}

// Dump returns every regular file below path.
func (f *FS) Dump(path string) map[string]string {
	out := map[string]string{}
	l, e := f.resolve(f.inodes[f.root], path, true)
	if e != 0 || l.n == nil {
		return out
	}
	var rec func(n *inode, p string)
	rec = func(n *inode, p string) {
		switch n.kind {
		case 'f':
			out[p] = string(n.data)
		case 'd':
			for k, ino := range n.ents {
				rec(f.inodes[ino], p+"/"+k)
			}
		}
	}
	rec(l.n, strings.TrimRight(path, "/"))
	return out
}

// State describes everything in the file system: kind, mode and contents.
func (f *FS) State() map[string]string {
	out := map[string]string{}
	var rec func(n *inode, p string)
	rec = func(n *inode, p string) {
		switch n.kind {
		case 'f':
			out[p] = fmt.Sprintf("f%o %s", n.mode&0o7777, n.data)
		case 'd':
			out[p] = fmt.Sprintf("d%o", n.mode&0o7777)
			for k, ino := range n.ents {
				rec(f.inodes[ino], strings.TrimRight(p, "/")+"/"+k)
			}
		case 'l':
			out[p] = "l " + n.link
		default:
			out[p] = string(n.kind)
		}
	}
	rec(f.inodes[f.root], "/")
	return out
}

// Remove deletes a name (harness edit between phases).
func (f *FS) Remove(path string) {
	l, e := f.resolve(f.inodes[f.root], path, false)
	if e == 0 && l.n != nil && l.dir != nil {
		delete(l.dir.ents, l.name)
	}
}

// Package kern is the simulated machine: file system, descriptors, clock,
// network, child programs and process table. Simulated processes are the real
// programs, built so that every call they make to the operating system comes
// here; they run one at a time, in an order the case decides.
package kern

import (
	"encoding/base64"
	"encoding/json"
	"strings"
)

func raw(parts []string, b64 string) []byte {
	if b64 != "" {
		b, _ := base64.StdEncoding.DecodeString(b64)
		return b
	}
	return []byte(strings.Join(parts, ""))
}

// FileSpec is one file, directory or symlink of the initial file system.
type FileSpec struct {
	Path  string   `json:"path"`
	Parts []string `json:"parts,omitempty"` // contents; the minimiser drops parts
	B64   string   `json:"b64,omitempty"`   // or raw contents
	Mode  uint32   `json:"mode,omitempty"`
	Dir   bool     `json:"dir,omitempty"`
	Link  string   `json:"link,omitempty"`
}

// StreamSpec is a byte stream somebody else feeds: standard input.
type StreamSpec struct {
	Parts  []string `json:"parts,omitempty"`
	Chunks []int    `json:"chunks,omitempty"` // sizes of successive reads; the last one repeats; empty: whole
	Cut    int      `json:"cut,omitempty"`    // >0: the stream ends after this many bytes
	End    string   `json:"end,omitempty"`    // "" end of file, or an errno
	TTY    bool     `json:"tty,omitempty"`
	B64    string   `json:"b64,omitempty"` // raw contents instead of Parts
}

// SinkSpec is a standard output somebody else drains.
type SinkSpec struct {
	Limit    int    `json:"limit,omitempty"` // >0: bytes accepted before Errno
	Limited  bool   `json:"limited,omitempty"`
	Errno    string `json:"errno,omitempty"`
	MaxWrite int    `json:"max_write,omitempty"` // >0: short writes
	TTY      bool   `json:"tty,omitempty"`
	NoSignal bool   `json:"no_signal,omitempty"` // started with SIGPIPE ignored, as services are: EPIPE is an error like others
}

// Switch is one schedule decision: at step At, let the K-th other runnable go.
type Switch struct {
	At uint64 `json:"at"`
	K  uint32 `json:"k"`
}

// Fault is one injected fault. It is placed on the Occ-th operation of a
// process with that name and path (every one when Occ is negative, any name
// when Op is "*"), or, when Op is empty, on its At-th operation whatever it is.
type Fault struct {
	Proc string `json:"proc"`
	Op   string `json:"op,omitempty"`
	Path string `json:"path,omitempty"`
	Occ  int    `json:"occ,omitempty"`
	At   int    `json:"at,omitempty"`
	Kind string `json:"kind"` // errno, short, eof, kill, killafter, tornkill, power, powerafter, http, child, clock, edit, stall
	Arg  string `json:"arg,omitempty"`
	N    int    `json:"n,omitempty"`
}

func (f *Fault) hits(name, path string, occ, ord int) bool {
	if f.Op == "" {
		return f.At == ord
	}
	return (f.Op == "*" || f.Op == name) && f.Path == path && (f.Occ < 0 || f.Occ == occ)
}

// ProcSpec is one simulated process.
type ProcSpec struct {
	Name   string            `json:"name"`
	Bin    string            `json:"bin"`
	Args   []string          `json:"args,omitempty"`
	Env    map[string]string `json:"env,omitempty"`
	Cwd    string            `json:"cwd,omitempty"`
	Stdin  *StreamSpec       `json:"stdin,omitempty"`
	Stdout *SinkSpec         `json:"stdout,omitempty"`
	Stderr *SinkSpec         `json:"stderr,omitempty"`
	Salt   uint64            `json:"salt,omitempty"`
	Pid    int               `json:"pid,omitempty"`
	Host   string            `json:"host,omitempty"`
	NoFile int               `json:"nofile,omitempty"`
	Job    json.RawMessage   `json:"job,omitempty"`
	MaxIO  int               `json:"max_io,omitempty"`  // >0: no read or write moves more bytes than this
	DirMax int               `json:"dir_max,omitempty"` // >0: no directory read returns more entries than this
}

// Stdin0 is the process's standard input, empty if it has none.
func (p *ProcSpec) Stdin0() StreamSpec {
	if p.Stdin == nil {
		return StreamSpec{}
	}
	return *p.Stdin
}

// Phase runs its processes concurrently, to the end.
type Phase struct {
	Procs    []ProcSpec `json:"procs"`
	Edit     *Edit      `json:"edit,omitempty"`  // done before the phase starts
	Edits    []Edit     `json:"edits,omitempty"` // done by "edit" faults, by index
	Faults   []Fault    `json:"faults,omitempty"`
	Switches []Switch   `json:"switches,omitempty"` // process schedule
}

// Edit is something the world outside the processes does.
type Edit struct {
	Files   []FileSpec `json:"files,omitempty"` // put in place by rename
	Remove  []string   `json:"remove,omitempty"`
	HTTP    []HTTPSpec `json:"http,omitempty"`  // what the network now serves
	Down    []string   `json:"down,omitempty"`  // URLs that no longer answer
	Quota   int64      `json:"quota,omitempty"` // further bytes of file data the disk accepts; -1 any
	DirSalt uint64     `json:"dir_salt,omitempty"`
}

// HTTPSpec is what the simulated network serves for a URL.
type HTTPSpec struct {
	URL      string            `json:"url"`
	Status   int               `json:"status,omitempty"`
	Header   map[string]string `json:"header,omitempty"`
	Parts    []string          `json:"parts,omitempty"`
	B64      string            `json:"b64,omitempty"` // raw contents instead of Parts
	NoLength bool              `json:"no_length,omitempty"`
	Chunk    int               `json:"chunk,omitempty"`
	Lost     int               `json:"lost,omitempty"` // this many bytes more were to come when the connection broke
	// Queue: successive responses override Status/Parts ("fail-then-serve").
}

// ProgSpec is a simulated executable.
type ProgSpec struct {
	Path   string   `json:"path"`
	Kind   string   `json:"kind"` // fixed, cat, echo, args
	Stdout []string `json:"stdout,omitempty"`
	B64    string   `json:"b64,omitempty"` // raw standard output instead of Stdout
	Stderr string   `json:"stderr,omitempty"`
	Exit   int      `json:"exit,omitempty"`
	Signal int      `json:"signal,omitempty"`
}

// WorldSpec is everything outside the processes.
type WorldSpec struct {
	Files   []FileSpec `json:"files,omitempty"`
	HTTP    []HTTPSpec `json:"http,omitempty"`
	Progs   []ProgSpec `json:"progs,omitempty"`
	DirSalt uint64     `json:"dir_salt,omitempty"`
	Clock   int64      `json:"clock,omitempty"` // ns since the epoch
	Age     int64      `json:"age,omitempty"`   // ns between the making of the files and the first process
	Quota   int64      `json:"quota,omitempty"` // bytes of file data beyond the initial files
}

package props

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

var realParts = []string{
	"the shipped yisp command (all packages, unmodified sources of the current tree)",
	"Go standard library (os, io, bufio, net/http client types, os/exec, encoding/json), viper, cobra, doublestar, json-patch",
	"the real Go scheduler and memory manager",
}

var stubParts = []string{
	"operating system calls (file system, descriptors, pipes, locks, clock, process table) served by a simulated machine",
	"HTTP transport: responses come from a simulated network at http.Transport.RoundTrip",
	"external programs: simulated executables",
	"random numbers (hash seeds, map iteration, temporary names): a seeded stream",
}

var driverPart = "a test driver linked with the real packages (engine, core, lib, internal/yaml), with scheduling points before every statement"

func one(cs *sim.Case, prop, name string, w kern.WorldSpec, p ...kern.ProcSpec) *sim.Case {
	return &sim.Case{Prop: prop, Name: name, World: w, Phases: []kern.Phase{{Procs: p}}}
}

// project makes a case: one build of a project with the given features.
func project(prop, name string, b *gen.B, args ...string) *sim.Case {
	p := b.Build("a", args...)
	cs := one(nil, prop, name, b.World(), p)
	cs.Tags = append([]string{}, b.Tags...)
	if b.Main != "" {
		cs.Tags = append(cs.Tags, "main-"+b.Main)
	}
	return cs
}

func allFeatures() []gen.Feature {
	return append(append([]gen.Feature{}, gen.Features...), gen.Errors...)
}

func pickFeatures(r *sim.Rand, n int, ok func(f *gen.Feature) bool) []gen.Feature {
	var c []gen.Feature
	for _, f := range gen.Features {
		if ok == nil || ok(&f) {
			c = append(c, f)
		}
	}
	var out []gen.Feature
	for range n {
		out = append(out, sim.Pick(r, c))
	}
	return out
}

func names(fs []gen.Feature) string {
	var s []string
	for _, f := range fs {
		s = append(s, f.Name)
	}
	return strings.Join(s, "+")
}

// mainMode names the script in one of the ways the features allow.
func mainMode(r *sim.Rand, fs []gen.Feature) string {
	url := true
	for _, f := range fs {
		if f.IO && !strings.HasPrefix(f.Name, "remote-") && !strings.HasPrefix(f.Name, "exec-") {
			url = false
		}
	}
	m := []string{"", "", "", "rel", "stdin", "dir"}
	if url {
		m = append(m, "url", "url")
	}
	return sim.Pick(r, m)
}

// mix makes a project of several features.
func mix(prop string, r *sim.Rand, fs []gen.Feature, args ...string) *sim.Case {
	b := gen.New(r)
	b.Big = r.P(1, 4)
	for _, f := range fs {
		b.Add(f)
	}
	b.Main = mainMode(r, fs)
	if r.P(1, 3) {
		b.Enc = sim.Pick(r, []string{"bom", "crlf", "utf16le", "utf16be"})
	}
	cs := project(prop, names(fs), b, args...)
	return cs
}

func singleDoc(fs []gen.Feature, r *sim.Rand) []string {
	var a []string
	if r.P(1, 6) {
		a = append(a, "--render-special-objects")
	}
	if r.P(1, 8) {
		a = append(a, "--enable-sourcemap")
	}
	return a
}

// jsonable features render to exactly one document.
var jsonable = map[string]bool{"plain": true, "anchors": true, "expr": true, "strings": true, "lists": true, "maps": true, "yaml-ops": true,
	"special": true, "comments": true, "flow-deep": true, "include-json": true, "include-many": true, "include-merge": true,
	"files-read": true, "files-glob": true, "files-map": true, "schema-warm": true, "schema-cold": true, "gvk": true, "maps-patch": true, "plain-big": true}

// readErrnos are errors a read, open, stat or listing may meet.
var readErrnos = []string{"EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ESTALE", "ETIMEDOUT", "EPERM"}

// ioFaults lists faults that may strike an operation and say so.
func ioFaults(r *sim.Rand, pt sim.Point) []kern.Fault {
	e := func() string { return sim.Pick(r, readErrnos) }
	switch pt.Op {
	case "clock", "exit", "getpid", "getcwd", "uname", "getrandom", "fcntl", "ioctl", "httpclose", "sys434", "epoll":
		return nil
	case "http":
		return []kern.Fault{
			pt.At("http", sim.Pick(r, []string{"ECONNREFUSED", "ETIMEDOUT", "ENETUNREACH", "ECONNRESET", "EHOSTUNREACH"}), 0),
			pt.At("http", fmt.Sprintf("status:%d", sim.Pick(r, []int{400, 401, 403, 404, 408, 410, 429, 500, 502, 503, 504})), 0),
			pt.At("http", "truncate", r.N(400)),
			pt.At("http", "reset", r.N(400)),
		}
	case "httpread":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"ECONNRESET", "ETIMEDOUT", "EIO"}), 0)}
	case "spawn":
		return []kern.Fault{
			pt.At("child", sim.Pick(r, []string{"ENOMEM", "EAGAIN", "EACCES", "E2BIG", "EIO", "ETXTBSY"}), 0),
			pt.At("child", fmt.Sprintf("exit:%d", 1+r.N(200)), 0),
			pt.At("child", "signal:9", r.N(50)),
		}
	case "read":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EIO", "EIO", "ESTALE", "ENOMEM", "ETIMEDOUT"}), 0), pt.At("errno", "EINTR", 0)}
	case "getdents":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EIO", "EIO", "ESTALE", "ENOMEM"}), 0)}
	case "write":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EIO", "ENOSPC", "EDQUOT", "EFBIG"}), 0)}
	case "mkdir", "rename", "fsync", "ftruncate", "chmod", "link", "symlink":
		return []kern.Fault{pt.At("errno", sim.Pick(r, []string{"EIO", "ENOSPC", "EACCES", "EROFS", "EDQUOT"}), 0)}
	}
	return []kern.Fault{pt.At("errno", e(), 0)}
}

// dead tells whether a process ended in another way than by returning.
func dead(o *kern.Outcome) *sim.Violation {
	if o == nil {
		return nil
	}
	if o.Hang {
		if o.Memory {
			return sim.V("endless memory", "%s filled the memory; stderr %s", o.Name, clipS(o.Stderr, 600))
		}
		return sim.V("hang", "%s made no progress; stderr %s", o.Name, clipS(o.Stderr, 600))
	}
	if o.Killed || strings.Contains(o.Stderr, "bad case: ") {
		return nil // the latter is the harness's trouble, told by the missing result
	}
	if o.Panic || o.Signal != 0 {
		return sim.V("crash "+firstPanic(o.Stderr), "%s crashed (exit %d signal %d): %s", o.Name, o.Exit, o.Signal, clipS(o.Stderr, 1500))
	}
	return nil
}

func firstPanic(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			l = strings.SplitN(l, "[", 2)[0]
			return strings.TrimSpace(clipS(l, 60))
		}
	}
	return ""
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func faultText(fs []kern.Fault) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprintf("%s %s %s#%d %s %s %d", f.Proc, f.Kind, f.Op, f.Occ, f.Path, f.Arg, f.N))
	}
	return strings.Join(s, "; ")
}

func allFaults(cs *sim.Case) []kern.Fault {
	var fs []kern.Fault
	for _, p := range cs.Phases {
		fs = append(fs, p.Faults...)
	}
	return fs
}

// diffAt shows where two texts part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d: %q / %q", len(a), len(b), i, clipS(a[from:], 200), clipS(b[from:], 200))
}

func itoa(i int) string { return fmt.Sprint(i) }

func unB64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }

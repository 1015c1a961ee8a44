// Package sim generates, runs, judges, minimises and replays cases on the
// simulated machine, and keeps the books.
package sim

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"regexp"
	"strings"

	"vsim/internal/kern"
)

// Case is one scenario, complete: running it needs nothing else.
type Case struct {
	Prop   string            `json:"prop"`
	Name   string            `json:"name"`
	World  kern.WorldSpec    `json:"world"`
	Phases []kern.Phase      `json:"phases"`
	P      map[string]string `json:"p,omitempty"` // what the judge needs to know
	Tags   []string          `json:"tags,omitempty"`
	Fixed  bool              `json:"fixed,omitempty"` // the minimiser keeps phases and processes
	Whole  bool              `json:"whole,omitempty"` // the minimiser keeps the data, too: the judge expects it
}

// Clone copies a case.
func (c *Case) Clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

func (c *Case) key() string {
	b, _ := json.Marshal([]any{c.World, c.Phases})
	return string(b)
}

// Calm is the case without its faults, schedule changes and refusing sinks.
func (c *Case) Calm() *Case {
	d := c.Clone()
	for i := range d.Phases {
		d.Phases[i].Faults = nil
		d.Phases[i].Switches = nil
	}
	return d
}

// Faults counts the injected faults of a case.
func (c *Case) Faults() int {
	n := 0
	for i := range c.Phases {
		n += len(c.Phases[i].Faults)
	}
	return n
}

// Violation is a broken property.
type Violation struct {
	Sig    string `json:"sig"`    // class, the same for the same breakage
	Detail string `json:"detail"` // for the reader
}

// V makes a violation.
func V(sig, format string, a ...any) *Violation {
	return &Violation{Sig: sig, Detail: fmt.Sprintf(format, a...)}
}

// Run is one simulated execution.
type Run struct {
	Out []map[string]*kern.Outcome // by phase
	W   *kern.World
	FS  []map[string]string // /home/u after each phase, when asked for
}

// Hash covers the whole history and everything the processes produced.
func (r *Run) Hash() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", r.W.Hash())
	for _, m := range r.Out {
		for _, n := range sortedKeys(m) {
			o := m[n]
			fmt.Fprintf(h, "%s|%d|%d|%q|%q|%q|", n, o.Exit, o.Signal, o.Stdout, scrub(o.Stderr), scrub(string(o.Result)))
		}
	}
	return h.Sum64()
}

var heapAddr = regexp.MustCompile(`0xc[0-9a-f]{6,11}`)

// scrub removes what is not the program's doing: the addresses in a crash
// report of the Go runtime and the race detector.
func scrub(s string) string {
	s = heapAddr.ReplaceAllString(s, "0xc0")
	if i := strings.Index(s, "goroutine "); i >= 0 {
		return s[:i]
	}
	if strings.Contains(s, "DATA RACE") {
		return "race"
	}
	return s
}

func sortedKeys[T any](m map[string]T) []string {
	k := make([]string, 0, len(m))
	for n := range m {
		k = append(k, n)
	}
	sortStrings(k)
	return k
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Point is an operation a dry run made: a place for a fault.
type Point struct {
	Phase int
	Proc  string
	Op    string
	Path  string
	Occ   int
	Ord   int
	N     int64
	Res   string
}

// At aims a fault at the point.
func (p Point) At(kind, arg string, n int) kern.Fault {
	return kern.Fault{Proc: p.Proc, Op: p.Op, Path: p.Path, Occ: p.Occ, At: p.Ord, Kind: kind, Arg: arg, N: n}
}

package props

import (
	"encoding/json"
	"fmt"
	"sort"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

// Reader, Writer, Opts, Task and Job mirror the driver's input.
type Reader struct {
	Data     []byte `json:"data"`
	Chunks   []int  `json:"chunks,omitempty"`
	ErrAt    int    `json:"err_at"`
	Err      string `json:"err,omitempty"`
	WithData bool   `json:"with_data,omitempty"`
	Zero     int    `json:"zero,omitempty"`
	Once     bool   `json:"once,omitempty"` // the error is told once; then the stream has ended
}

// Writer is where the encoder writes.
type Writer struct {
	Limit int    `json:"limit"`
	Err   string `json:"err,omitempty"`
	Max   int    `json:"max,omitempty"`
	Once  bool   `json:"once,omitempty"` // the error is told once; then everything is taken
}

// Opts are engine options.
type Opts struct {
	ShowTrace            bool     `json:",omitempty"`
	RenderSources        bool     `json:",omitempty"`
	RenderSpecialObjects bool     `json:",omitempty"`
	AllowUntypedManifest bool     `json:",omitempty"`
	DisableTypeCheck     bool     `json:",omitempty"`
	AllowCmd             bool     `json:",omitempty"`
	GoPkgs               []string `json:",omitempty"`
}

// Task is one evaluation.
type Task struct {
	Op        string         `json:"op"`
	Engine    int            `json:"engine"`
	Opts      Opts           `json:"opts"`
	Path      string         `json:"path,omitempty"`
	Location  string         `json:"location,omitempty"`
	Reader    *Reader        `json:"reader,omitempty"`
	Writer    *Writer        `json:"writer,omitempty"`
	Globals   map[string]any `json:"globals,omitempty"`
	SharedEnv bool           `json:"shared_globals,omitempty"`
	Docs      [][]byte       `json:"docs,omitempty"`
	Indent    int            `json:"indent,omitempty"`
	Mode      string         `json:"mode,omitempty"`
	Edit      int            `json:"edit,omitempty"`
	Scribble  bool           `json:"scribble,omitempty"`
}

// Job is the driver's work.
type Job struct {
	Par     bool           `json:"par,omitempty"`
	Engines []Opts         `json:"engines,omitempty"`
	Tasks   []Task         `json:"tasks"`
	At      []uint64       `json:"at,omitempty"`
	K       []uint32       `json:"k,omitempty"`
	Globals map[string]any `json:"globals,omitempty"`
	Prelude string         `json:"prelude,omitempty"`
	Budget  uint64         `json:"budget,omitempty"`
	Salts   []uint64       `json:"salts,omitempty"`
}

// Result of a task.
type Result struct {
	Out    string   `json:"out"`
	Ok     bool     `json:"ok"`
	Err    string   `json:"err"`
	Panic  string   `json:"panic"`
	Docs   []string `json:"docs"`
	Open   []string `json:"open"`
	Late   string   `json:"late"`
	Writes int      `json:"writes"`
	Steps  uint64   `json:"steps"`
}

// JobResult is what the driver reports.
type JobResult struct {
	Results  []Result `json:"results"`
	Yields   uint64   `json:"yields"`
	Switched uint32   `json:"switched"`
	Trace    uint64   `json:"trace"`
	Lent     string   `json:"lent"`
}

// DriverProc is the process that runs a job.
func DriverProc(j *Job) kern.ProcSpec {
	return kern.ProcSpec{Name: "a", Bin: "drv", Env: gen.Env(), Cwd: "/work", Salt: 1, Job: marshalJob(j)}
}

func marshalJob(j *Job) json.RawMessage {
	b, err := json.Marshal(j)
	if err != nil {
		panic(err)
	}
	return b
}

// Results reads a driver's report.
func Results(o *kern.Outcome) (*JobResult, error) {
	var jr JobResult
	if err := json.Unmarshal(o.Result, &jr); err != nil {
		return nil, fmt.Errorf("driver gave no result (exit %d): %s", o.Exit, clipS(o.Stderr, 2000))
	}
	return &jr, nil
}

func keysOf[T any](m map[string]T) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// JobOf reads back a case's job.
func JobOf(cs *sim.Case, j *Job) error {
	return json.Unmarshal(cs.Phases[0].Procs[0].Job, j)
}

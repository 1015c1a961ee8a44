package props

import (
	"bytes"
	"strings"

	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func init() {
	register(&sim.Check{
		ID: "C16", Bins: []string{"drv"}, Level: "exploration",
		Rule: "simulated runs with different histories; a run decodes or encodes one stream once without and many times with refusing, failing or fragmenting readers and writers",
		Assume: []string{
			"readers return no data and no error at most every other time",
			"writers that accept less than all say so with an error, as io.Writer demands",
		},
		Real: []string{"internal/yaml (the whole library: reader, scanner, parser, decoder, encoder, emitter, writer)", "engine and core, for evaluations from a reader", driverPart},
		Stub: []string{"io.Reader and io.Writer under the simulator's control", "operating system calls served by a simulated machine"},
		Plan: c16Plan, Random: c16Random, Judge: c16Judge,
		Quick: 300000, Thorough: 20_000_000, QuickS: 35, ThoroughS: 1200,
	})
}

var streamErrs = []string{"EIO", "ECONNRESET", "UNEXPECTED_EOF", "CLOSED", "ENOSPC", "EPIPE", "disk on fire"}

// errText is what the error says.
func errText(s string) string {
	return map[string]string{"": "input/output error", "EIO": "input/output error", "ENOSPC": "no space left on device", "EPIPE": "broken pipe",
		"ECONNRESET": "connection reset by peer", "UNEXPECTED_EOF": "unexpected EOF", "CLOSED": "file already closed", "disk on fire": "disk on fire"}[s]
}

// stream is a stream of YAML documents of about n bytes.
func stream(r *sim.Rand, n int) []byte {
	b := gen.New(r)
	b.Big = n > 2000
	var sb strings.Builder
	docs := 1 + r.N(6)
	if r.P(1, 8) {
		docs = 0
	}
	for i := range docs {
		if i > 0 || r.P(1, 3) {
			sb.WriteString(sim.Pick(r, []string{"---\n", "---\n", "---\n", "...\n---\n", "--- # note\n", "---\n# head\n"}))
		}
		switch r.N(9) {
		case 0:
			sb.WriteString(b.JSON())
		case 1:
			sb.WriteString("# head\n" + b.Map(2, 1) + "# foot\n")
		case 2:
			sb.WriteString(b.Scalar() + "\n")
		case 3:
			sb.WriteString("text: |" + sim.Pick(r, []string{"", "+", "-"}) + "\n  " + strings.ReplaceAll(strings.TrimSuffix(b.Lines(n/docs), "\n"), "\n", "\n  ") + "\n\n")
		case 4:
			sb.WriteString("- &a {x: 1}\n- *a\n- !!str 5\n- !x [1]\n- ? k\n  : v\n- 'it''s\n\n  folded'\n- \"é\\t\\u263a \\\n  joined\"\n")
		case 5:
			sb.WriteString(">\n  " + strings.ReplaceAll(strings.TrimSuffix(b.Lines(40+r.N(n/docs+1)), "\n"), "\n", "\n  ") + "\n")
		case 6:
			sb.WriteString("!yisp " + b.Any(2) + "\n")
		default:
			sb.WriteString(b.Data())
		}
		if sb.Len() > 2*n+200 {
			break
		}
	}
	if r.P(1, 8) {
		sb.WriteString("...\n")
	}
	s := sb.String()
	if r.P(1, 10) {
		s = gen.Damage(r, s, 1)
	}
	switch r.N(10) {
	case 0:
		s = strings.TrimSuffix(s, "\n")
	case 1:
		return []byte("\ufeff" + s)
	case 2:
		return []byte(gen.UTF16(s, r.P(1, 2)))
	case 3:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

// readers are ways to hand over the stream.
func readers(r *sim.Rand, data []byte, n int) []*Reader {
	var out []*Reader
	frag := func(x *Reader) *Reader {
		switch r.N(5) {
		case 0:
			x.Chunks = []int{1}
		case 1:
			x.Chunks = []int{1 + r.N(len(data)+1), 1 + r.N(40)}
		case 2:
			x.Chunks = []int{r.N(5), 1 + r.N(5), r.N(600), 511, 1, 1024}
		case 3:
			x.Chunks = []int{1 + r.N(600)}
		}
		if r.P(1, 3) {
			x.Zero = 2 + r.N(4)
		}
		x.WithData = r.P(1, 3)
		x.Once = r.P(1, 3)
		return x
	}
	for range n {
		out = append(out, frag(&Reader{Data: data, ErrAt: -1}))
		e := frag(&Reader{Data: data, ErrAt: r.N(len(data) + 1), Err: sim.Pick(r, streamErrs)})
		out = append(out, e)
	}
	return out
}

func decJob(r *sim.Rand, data []byte, variants []*Reader) *Job {
	j := &Job{Budget: 50_000_000}
	mode := sim.Pick(r, []string{"node", "node", "any"})
	j.Tasks = append(j.Tasks, Task{Op: "dec", Engine: -1, Mode: mode, Reader: &Reader{Data: data, ErrAt: -1}})
	for _, v := range variants {
		j.Tasks = append(j.Tasks, Task{Op: "dec", Engine: -1, Mode: mode, Reader: v})
	}
	return j
}

// encDocs are documents the encoder can write.
func encDocs(r *sim.Rand, n int) [][]byte {
	b := gen.New(r)
	b.Big = n > 2000
	var out [][]byte
	for range r.N(5) {
		switch r.N(8) {
		case 6:
			// text that leaves the document's end open
			out = append(out, []byte("a: 1\ntext: |+\n  "+strings.ReplaceAll(strings.TrimSuffix(b.Lines(20+r.N(n)), "\n"), "\n", "\n  ")+"\n"+strings.Repeat("\n", 1+r.N(3))))
		case 7:
			out = append(out, []byte(sim.Pick(r, []string{"|+\n  x\n\n", ">+\n  x\n\n", "- |+\n  y\n\n\n", "\"\"\n", "null\n", "[]\n", "- # c\n  - {}\n", "x\n"})))
		case 0:
			out = append(out, []byte(b.JSON()))
		case 1:
			out = append(out, []byte("# head\n"+b.Map(2, 2)+"# foot\n"))
		case 2:
			out = append(out, []byte("text: |\n  "+strings.ReplaceAll(strings.TrimSuffix(b.Lines(n), "\n"), "\n", "\n  ")+"\n"))
		case 3:
			out = append(out, []byte("- &a {x: 1}\n- *a\n- [a, [b], {c: d}]\n- \"multi\\nline\"\n- >\n  folded text\n  here\n- 'q'\n"))
		case 4:
			out = append(out, []byte(b.Scalar()+"\n"))
		default:
			out = append(out, []byte(b.Data()))
		}
	}
	return out
}

func encJob(r *sim.Rand, docs [][]byte, limits []int) *Job {
	j := &Job{Budget: 50_000_000}
	t := Task{Op: "enc", Engine: -1, Mode: sim.Pick(r, []string{"node", "node", "any"}), Docs: docs, Indent: sim.Pick(r, []int{0, 2, 2, 4, 1, 3, 8})}
	j.Tasks = append(j.Tasks, t)
	for _, l := range limits {
		v := t
		v.Writer = &Writer{Limit: l, Err: sim.Pick(r, streamErrs), Once: r.P(1, 3)}
		if r.P(1, 6) {
			v.Writer = &Writer{Limit: -1, Max: 1 + r.N(3000)}
		}
		j.Tasks = append(j.Tasks, v)
	}
	return j
}

// evalJob evaluates a script from a reader.
func evalJob(r *sim.Rand, f gen.Feature, n int) (*Job, kern.WorldSpec) {
	b := gen.New(r)
	b.Add(f)
	data := []byte(strings.Join(b.Parts(), ""))
	opts := Opts{AllowCmd: b.AllowCmd, GoPkgs: b.GoPkgs}
	op := sim.Pick(r, []string{"reader", "readerenv"})
	j := &Job{Budget: 50_000_000}
	add := func(x *Reader) {
		j.Tasks = append(j.Tasks, Task{Op: op, Engine: -1, Opts: opts, Reader: x, Location: b.Dir + "/main.yisp", Globals: map[string]any{"g": 1}})
	}
	add(&Reader{Data: data, ErrAt: -1})
	for _, x := range readers(r, data, n) {
		add(x)
	}
	return j, b.World()
}

// commented are texts with comments.
var commented = []string{
	"# head\na: 1 # line\n# foot\n",
	"a:   # of the key\n  b: 2\n  # inner\n  c: [1, # one\n   2]\n",
	"- x   \n- y # why\n\n# apart\n\n- z\n",
	"a: |  # block\n  text\n# end\n---   # next\nb: >- # folded\n  t\n...\n# tail\n",
	"{a: 1, # one\n # two\n b: [x] # three\n}   \n",
	"k: 'q'     # after\n? \"c\"  # complex\n: v  \n",
	"- &a x  # anchor\n- *a  # alias\n- !t y  # tag\n-   # nothing\n- # nothing\n  z\n",
}

func c16Plan(c *sim.Ctx) []*sim.Case {
	var out []*sim.Case
	k := 3
	if !c.Quick() {
		k = 20
	}
	for i := range k {
		r := sim.NewRand(c.Seed, "c16 every", i)
		// the failure at every byte
		data := stream(r, 60)
		for _, with := range []bool{false, true} {
			for _, ch := range [][]int{nil, {1}, {7}} {
				var vs []*Reader
				for at := 0; at <= len(data) && at < 1200; at++ {
					vs = append(vs, &Reader{Data: data, ErrAt: at, Err: streamErrs[at%len(streamErrs)], WithData: with, Once: at%3 == 0, Chunks: ch})
				}
				out = append(out, driverCase("C16", "dec-every", kern.WorldSpec{}, decJob(r, data, vs)))
			}
		}
		// the split at every byte
		var vs []*Reader
		for at := 1; at < len(data) && at < 1200; at++ {
			vs = append(vs, &Reader{Data: data, ErrAt: -1, Chunks: []int{at, 1 << 20}, WithData: at%2 == 0})
		}
		out = append(out, driverCase("C16", "dec-split", kern.WorldSpec{}, decJob(r, data, vs)))
		docs := encDocs(r, 100)
		for len(docs) == 0 {
			docs = encDocs(r, 100)
		}
		var ls []int
		for at := range 700 {
			ls = append(ls, at)
		}
		out = append(out, driverCase("C16", "enc-every", kern.WorldSpec{}, encJob(r, docs, ls)))
	}
	// the failure at every byte of texts with comments in all places
	for i, text := range commented {
		r := sim.NewRand(c.Seed, "c16 comment", i)
		for k := range 3 {
			data := []byte(text)
			if k == 2 {
				data = []byte(gen.UTF16(text, r.P(1, 2)))
			}
			ch := [][]int{nil, {1}, {1 + r.N(9), 2}}[k]
			var vs []*Reader
			for at := 0; at <= len(data); at++ {
				for j := range 4 {
					vs = append(vs, &Reader{Data: data, ErrAt: at, Err: streamErrs[at%len(streamErrs)], WithData: j&1 != 0, Once: j&2 != 0, Chunks: ch})
				}
			}
			out = append(out, driverCase("C16", "dec-comments", kern.WorldSpec{}, decJob(r, data, vs)))
		}
	}
	for _, f := range allFeatures() {
		r := sim.NewRand(c.Seed, "c16 eval", f.Name)
		j, w := evalJob(r, f, 4)
		out = append(out, driverCase("C16", "eval-"+f.Name, w, j))
	}
	return out
}

func c16Random(c *sim.Ctx, r *sim.Rand, i int) *sim.Case {
	n := sim.Pick(r, []int{30, 200, 500, 1000, 1600, 5000, 40000})
	switch i % 5 {
	case 0, 1, 2:
		data := stream(r, n)
		return driverCase("C16", "dec", kern.WorldSpec{}, decJob(r, data, readers(r, data, min(12, 1+500000/(len(data)+1)))))
	case 3:
		docs := encDocs(r, n)
		var ls []int
		t := 0
		for _, d := range docs {
			t += len(d)
		}
		for range 20 {
			ls = append(ls, sim.Pick(r, []int{r.N(t + 100), r.N(t + 100), t, 0, 4096, 8192, 16384, 16383, 16385}))
		}
		return driverCase("C16", "enc", kern.WorldSpec{}, encJob(r, docs, ls))
	}
	f := sim.Pick(r, allFeatures())
	j, w := evalJob(r, f, 6)
	return driverCase("C16", "eval-"+f.Name, w, j)
}

// calmTask tells whether nothing stands in the way of a task, and names its group.
func calmTask(t *Task) (group string, calm bool) {
	switch {
	case t.Op == "enc":
		return "enc " + itoa(t.Indent) + t.Mode + string(bytes.Join(t.Docs, []byte{0})), t.Writer == nil
	case t.Reader != nil:
		x := t.Reader
		return t.Op + t.Mode + string(x.Data), x.ErrAt < 0 && len(x.Chunks) == 0 && x.Zero == 0 && !x.WithData
	}
	return "", false
}

// ended counts the documents whose end was read a while before byte k.
func ended(data []byte, k int) int {
	if k > len(data) {
		k = len(data)
	}
	if bytes.HasPrefix(data, []byte("\xff\xfe")) || bytes.HasPrefix(data, []byte("\xfe\xff")) || bytes.Contains(data, []byte("|")) || bytes.Contains(data, []byte(">")) || bytes.ContainsAny(data, "\"'\r") {
		return 0
	}
	n := 0
	for i := 0; i+3 < k; i++ {
		// content, then the next document's content
		if (i > 0 && data[i-1] == '\n') && bytes.HasPrefix(data[i:k], []byte("---\n")) && i > 4 {
			// the scanner looks past comments and ahead in plain text
			rest := 0
			for _, l := range bytes.SplitAfter(data[i+4:k], []byte("\n")) {
				if l = bytes.TrimLeft(l, " "); len(l) > 1 && l[0] != '#' && l[len(l)-1] == '\n' {
					rest++
				}
			}
			if rest >= 3 {
				n++
			}
		}
	}
	return n
}

func c16Judge(c *sim.Ctx, cs *sim.Case) (*sim.Violation, error) {
	r, err := c.Run(cs)
	if err != nil {
		return nil, err
	}
	o := r.Out[0]["a"]
	if v := dead(o); v != nil {
		return v, nil
	}
	jr, err := Results(o)
	if err != nil {
		return nil, &sim.ErrHarness{Msg: err.Error()}
	}
	var job Job
	if err := JobOf(cs, &job); err != nil {
		return nil, err
	}
	base := map[string]*Result{}
	for i := range job.Tasks {
		if g, calm := calmTask(&job.Tasks[i]); calm {
			base[g] = &jr.Results[i]
		}
	}
	for i := range job.Tasks {
		t, x := &job.Tasks[i], &jr.Results[i]
		if t.Reader != nil && t.Reader.ErrAt >= 0 {
			c.Inject("reader error "+t.Reader.Err, 1)
		}
		if t.Reader != nil && (len(t.Reader.Chunks) > 0 || t.Reader.Zero > 0) {
			c.Inject("short reads", 1)
		}
		if t.Writer != nil && t.Writer.Max > 0 {
			c.Inject("short write", 1)
		} else if t.Writer != nil {
			c.Inject("writer error "+t.Writer.Err, 1)
		}
		g, _ := calmTask(t)
		b := base[g]
		if b == nil {
			continue
		}
		if v := judgeStream(c, t, x, b); v != nil {
			v.Detail = cs.Name + ": " + v.Detail
			return v, nil
		}
	}
	c.Non(r)
	return nil, nil
}

func readerText(x *Reader) string {
	return "reader of " + itoa(len(x.Data)) + " bytes " + clipS(string(x.Data), 300) + " error at " + itoa(x.ErrAt) + " " + x.Err + map[bool]string{true: " once"}[x.Once] + " with data " + map[bool]string{true: "yes", false: "no"}[x.WithData]
}

func judgeStream(c *sim.Ctx, t *Task, x, b *Result) *sim.Violation {
	if x.Panic != "" {
		return sim.V("panic", "%s panicked: %s", t.Op, x.Panic)
	}
	switch t.Op {
	case "dec":
		if b.Panic != "" {
			return nil
		}
		n := len(x.Docs)
		for i := range x.Docs {
			if i >= len(b.Docs) && !b.Ok {
				break // the reader may notice an error further on before or after these
			}
			if i >= len(b.Docs) || x.Docs[i] != b.Docs[i] {
				if t.Reader.ErrAt >= 0 {
					return sim.V("document from a failed stream", "document %d is not one of the stream: %s; %s", i, clipS(x.Docs[i], 300), readerText(t.Reader))
				}
				return sim.V("decoding depends on read sizes", "document %d: %s; %s", i, clipS(x.Docs[i], 300), readerText(t.Reader))
			}
		}
		if t.Reader.ErrAt < 0 {
			if x.Ok != b.Ok || b.Ok && n != len(b.Docs) {
				return sim.V("decoding depends on read sizes", "%d documents, error %q, in one piece %d, %q; %s", n, x.Err, len(b.Docs), b.Err, readerText(t.Reader))
			}
			c.Probe("decoded in pieces")
			return nil
		}
		if x.Ok {
			return sim.V("read error not reported", "end of stream after %d documents (of %d); %s", n, len(b.Docs), readerText(t.Reader))
		}
		if !b.Ok && !strings.Contains(x.Err, errText(t.Reader.Err)) {
			c.Probe("syntax error first")
			return nil
		}
		if !strings.Contains(x.Err, errText(t.Reader.Err)) {
			return sim.V("another error than the reader's", "%q; %s", x.Err, readerText(t.Reader))
		}
		if m := min(ended(t.Reader.Data, t.Reader.ErrAt), len(b.Docs)); b.Ok && !t.Reader.WithData && n < m {
			return sim.V("complete documents withheld", "%d documents before the failure, %d returned; %s", m, n, readerText(t.Reader))
		}
		c.Probe("decode failed with the reader's error")
	case "enc":
		if b.Panic != "" || !b.Ok {
			return nil
		}
		w := t.Writer
		if w == nil {
			return nil
		}
		// the report of a cut character is not the character
		got := strings.TrimRight(x.Out, "\ufffd")
		if w.Once && !x.Ok {
			c.Probe("encode failed once")
			if !strings.Contains(x.Err, errText(w.Err)) {
				return sim.V("another error than the writer's", "%q instead of %q", x.Err, errText(w.Err))
			}
			return nil // whether more is written to a writer that failed is not decided
		}
		if !strings.HasPrefix(b.Out, got) {
			return sim.V("other bytes written", "%s; limit %d max %d", diffAt(b.Out, x.Out), w.Limit, w.Max)
		}
		refused := w.Limit >= 0 && w.Limit < len(b.Out) || len(got) < len(b.Out)
		if x.Ok && refused {
			return sim.V("write error not reported", "%d of %d bytes accepted; limit %d max %d", len(got), len(b.Out), w.Limit, w.Max)
		}
		if !x.Ok && !refused && w.Max == 0 {
			return sim.V("error without reason", "%q although %d bytes were accepted", x.Err, len(x.Out))
		}
		if refused {
			want := errText(w.Err)
			if w.Max > 0 {
				want = "short write"
			}
			if !strings.Contains(x.Err, want) {
				return sim.V("another error than the writer's", "%q instead of %q", x.Err, want)
			}
			c.Probe("encode failed with the writer's error")
		} else {
			c.Probe("encoded whole")
		}
	default:
		if b.Panic != "" {
			return nil
		}
		if t.Reader.ErrAt < 0 {
			if x.Ok != b.Ok || x.Out != b.Out {
				return sim.V("evaluation depends on read sizes", "%s (%q / %q)", diffAt(b.Out, x.Out), b.Err, x.Err)
			}
			return nil
		}
		if x.Ok {
			return sim.V("evaluation of a failed stream", "result %q; %s", clipS(x.Out, 300), readerText(t.Reader))
		}
		c.Probe("evaluation failed")
		if b.Ok && !strings.Contains(x.Err, errText(t.Reader.Err)) && !strings.Contains(x.Err, "yaml: ") {
			return sim.V("another error than the reader's", "%q; %s", clipS(x.Err, 300), readerText(t.Reader))
		}
	}
	return nil
}

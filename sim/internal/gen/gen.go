// Package gen makes projects for the simulated machine: scripts, the files,
// remote documents, schemas and programs they use. Everything is drawn from
// the seed.
package gen

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"vsim/internal/kern"
	"vsim/internal/sim"
)

// Home of the simulated user.
const Home = "/home/u"

// Cache directory of the simulated user.
const Cache = Home + "/.cache/yisp"

// B builds one project.
type B struct {
	R        *sim.Rand
	Dir      string // where the script lives
	Docs     []string
	Files    []kern.FileSpec
	HTTP     []kern.HTTPSpec
	Progs    []kern.ProgSpec
	AllowCmd bool
	GoPkgs   []string
	Tags     []string
	Err      bool   // a feature that fails by itself was added
	Big      bool   // larger data
	Schemas  bool   // a schema check is part of the project
	NoRemote bool   // no network
	Main     string // how the script is named: "" absolute, rel, stdin, url, dir
	Enc      string // how the script is encoded: "", bom, crlf, utf16le, utf16be
	Stdin    *kern.StreamSpec
	Expect   []string // text that must be in the output
	Plain    bool     // no decoys
	decoys   []kern.FileSpec
	loose    bool // what the network serves accepts more
	n        int
}

// New starts a project.
func New(r *sim.Rand) *B { return &B{R: r, Dir: "/work/p"} }

// ID is a fresh name.
func (b *B) ID(p string) string {
	b.n++
	return fmt.Sprintf("%s%d", p, b.n)
}

// File adds a file of the project; each string is a part the minimiser may drop.
func (b *B) File(rel string, parts ...string) string {
	p := rel
	if !strings.HasPrefix(rel, "/") {
		p = b.Dir + "/" + rel
	}
	b.Files = append(b.Files, kern.FileSpec{Path: p, Parts: parts})
	return rel
}

// twin puts files next to one of the project which something else than the
// named file would be found as: the same name with other extensions.
func (b *B) twin(rels ...string) {
	if b.Plain {
		return
	}
	for _, rel := range rels {
		stem := rel
		if i := strings.LastIndexByte(rel, '.'); i > strings.LastIndexByte(rel, '/') {
			stem = rel[:i]
		}
		for _, ext := range []string{".yisp", ".yaml", ".yml", ".json", ".txt", "", ".bak", "~"} {
			name := stem + ext
			if ext == ".bak" || ext == "~" {
				name = rel + ext
			}
			if name == rel || b.has(b.Dir+"/"+name) {
				continue
			}
			b.decoy(b.Dir + "/" + name)
		}
	}
}

func (b *B) decoy(path string) {
	text := "decoy: true\n---\nmore: decoy\n"
	if strings.HasSuffix(path, ".json") {
		text = "{\"decoy\": true}\n"
	}
	b.decoys = append(b.decoys, kern.FileSpec{Path: path, Parts: []string{text}})
}

func (b *B) has(path string) bool {
	for _, f := range b.Files {
		if f.Path == path || strings.HasPrefix(f.Path, path+"/") {
			return true
		}
	}
	return false
}

// astray lists files where a relative name or the path of a URL leads to when
// it is looked up from the wrong place.
func (b *B) astray() []kern.FileSpec {
	if b.Plain {
		return nil
	}
	seen := map[string]bool{b.MainPath(): true}
	for _, f := range b.Files {
		seen[f.Path] = true
	}
	var out []kern.FileSpec
	add := func(p string) {
		if seen[p] || b.has(p) {
			return
		}
		seen[p] = true
		n := len(b.decoys)
		b.decoy(p)
		out = append(out, b.decoys[n])
		b.decoys = b.decoys[:n]
	}
	for _, f := range b.decoys {
		if !seen[f.Path] && !b.has(f.Path) {
			seen[f.Path] = true
			out = append(out, f)
		}
	}
	for _, f := range b.Files {
		rel, ok := strings.CutPrefix(f.Path, b.Dir+"/")
		if !ok || f.Dir || f.Link != "" {
			continue
		}
		add("/work/" + rel)
		add("/" + rel)
		add(b.Dir + "/" + rel[strings.LastIndexByte(rel, '/')+1:])
	}
	for _, h := range b.HTTP {
		_, rel, ok := strings.Cut(h.URL, "://")
		_, path, ok2 := strings.Cut(rel, "/")
		if !ok || !ok2 {
			continue
		}
		add(b.Dir + "/" + path)
		add("/work/" + path)
		add("/" + path)
	}
	return out
}

func (b *B) content(rel string) string {
	for _, f := range b.Files {
		if f.Path == b.Dir+"/"+rel {
			return strings.Join(f.Parts, "")
		}
	}
	return ""
}

// Hash expects the digest of a text in the output.
func (b *B) Hash(text string) {
	b.Expect = append(b.Expect, fmt.Sprintf("%x", sha256.Sum256([]byte(text))))
}

// Doc adds a document to the main script.
func (b *B) Doc(format string, a ...any) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	b.Docs = append(b.Docs, s)
}

// Serve puts a document on the network.
func (b *B) Serve(url string, parts ...string) string {
	h := kern.HTTPSpec{URL: url, Parts: parts}
	if b.R.P(1, 3) {
		h.NoLength = true
	}
	if b.R.P(1, 3) {
		h.Chunk = 1 + b.R.N(900)
	}
	b.HTTP = append(b.HTTP, h)
	return url
}

// Parts is the main script, a part per document.
func (b *B) Parts() []string {
	var out []string
	for i, d := range b.Docs {
		if i > 0 {
			d = "---\n" + d
		}
		out = append(out, d)
	}
	return out
}

var words = []string{"apple", "banana", "kiwi", "service", "deploy", "edge", "node", "queue", "cache", "alpha", "beta", "gamma", "delta", "region", "tier"}
var wide = []string{"é", "ß", "日本語", "漢字", "😀", "𝔘𝔫𝔦", "Ωμέγα", "текст", "ñandú", "한국어", "עברית"}

// Word is a plain word.
func (b *B) Word() string { return sim.Pick(b.R, words) }

// Text is a piece of single-line text of about n bytes, with wide characters.
func (b *B) Text(n int) string {
	var sb strings.Builder
	for sb.Len() < n {
		if sb.Len() > 0 {
			sb.WriteByte(' ')
		}
		if b.R.P(1, 4) {
			sb.WriteString(sim.Pick(b.R, wide))
		} else {
			sb.WriteString(b.Word())
		}
		if b.R.P(1, 6) {
			fmt.Fprintf(&sb, "%d", b.R.N(100000))
		}
	}
	return sb.String()
}

// size draws a byte count, now and then around a buffer boundary.
func (b *B) size() int {
	if b.Big {
		switch b.R.N(6) {
		case 0:
			return 505 + b.R.N(16)
		case 1:
			return 4085 + b.R.N(24)
		case 2:
			return 8180 + b.R.N(24)
		case 3:
			return 2000 + b.R.N(30000)
		case 4:
			return 65520 + b.R.N(40)
		}
	}
	switch b.R.N(8) {
	case 0:
		return 500 + b.R.N(30)
	case 1:
		return 1000 + b.R.N(4000)
	}
	return 10 + b.R.N(80)
}

// Scalar is a YAML scalar in flow style.
func (b *B) Scalar() string {
	switch b.R.N(9) {
	case 0:
		return fmt.Sprint(b.R.N(2000) - 1000)
	case 1:
		return fmt.Sprintf("%d.%d", b.R.N(100), 1+b.R.N(99))
	case 2:
		return "true"
	case 3:
		return "null"
	case 4:
		return fmt.Sprintf("%q", b.Text(8+b.R.N(30)))
	case 5:
		return "'" + b.Text(6) + "'"
	case 6:
		return fmt.Sprintf("%q", fmt.Sprint(b.R.N(100)))
	}
	return b.Word() + "-" + fmt.Sprint(b.R.N(1000))
}

func pad(s string, n int) string {
	p := strings.Repeat(" ", n)
	lines := strings.Split(strings.TrimRight(s, "\n"), "\n")
	for i, l := range lines {
		if l != "" {
			lines[i] = p + l
		}
	}
	return strings.Join(lines, "\n") + "\n"
}

// Map is a block mapping with k keys.
func (b *B) Map(k, depth int) string {
	var sb strings.Builder
	for i := range k {
		key := fmt.Sprintf("%s%d", b.Word(), i)
		switch {
		case depth > 0 && b.R.P(1, 4):
			sb.WriteString(key + ":\n" + pad(b.Map(1+b.R.N(3), depth-1), 2))
		case depth > 0 && b.R.P(1, 4):
			sb.WriteString(key + ":\n" + b.List(1+b.R.N(4), depth-1))
		case b.R.P(1, 8):
			sb.WriteString(key + ": |\n" + pad(b.Lines(b.size()), 2))
		case b.R.P(1, 10):
			sb.WriteString(key + ": >-\n" + pad(b.Lines(60), 2))
		case b.R.P(1, 10):
			sb.WriteString(key + ": {a: " + b.Scalar() + ", b: [" + b.Scalar() + "]}\n")
		default:
			sb.WriteString(key + ": " + b.Scalar() + "\n")
		}
	}
	return sb.String()
}

// List is a block sequence with k items.
func (b *B) List(k, depth int) string {
	var sb strings.Builder
	for range k {
		if depth > 0 && b.R.P(1, 3) {
			m := pad(b.Map(1+b.R.N(3), depth-1), 2)
			sb.WriteString("-" + m[1:])
		} else {
			sb.WriteString("- " + b.Scalar() + "\n")
		}
	}
	return sb.String()
}

// Lines is multi-line text of about n bytes.
func (b *B) Lines(n int) string {
	var sb strings.Builder
	for sb.Len() < n {
		sb.WriteString(b.Text(min(n, 10+b.R.N(70))) + "\n")
	}
	return sb.String()
}

// Data is a YAML document of data.
func (b *B) Data() string {
	s := b.Map(2+b.R.N(5), 2)
	if b.R.P(1, 3) {
		s += "bulk:\n" + b.bulk(b.size())
	}
	return s
}

func (b *B) bulk(n int) string {
	var sb strings.Builder
	for i := 0; sb.Len() < n; i++ {
		fmt.Fprintf(&sb, "  - {id: %d, v: %q}\n", i, b.Text(5+b.R.N(30)))
	}
	return sb.String()
}

// Value is a random JSON-like value.
func (b *B) Value(depth int) any {
	switch k := b.R.N(9); {
	case depth > 0 && k < 3:
		m := map[string]any{}
		for i := range 1 + b.R.N(5) {
			m[fmt.Sprintf("%s%d", b.Word(), i)] = b.Value(depth - 1)
		}
		return m
	case depth > 0 && k < 5:
		a := []any{}
		for range b.R.N(5) {
			a = append(a, b.Value(depth-1))
		}
		return a
	case k == 5:
		return b.R.N(100000) - 50000
	case k == 6:
		return b.R.P(1, 2)
	case k == 7:
		return b.Text(b.size() / 2)
	}
	return b.Text(8)
}

// JSON is a JSON document (an object).
func (b *B) JSON() string {
	m := map[string]any{}
	for i := range 2 + b.R.N(5) {
		m[fmt.Sprintf("%s%d", b.Word(), i)] = b.Value(2)
	}
	j, _ := json.MarshalIndent(m, "", "  ")
	return string(j) + "\n"
}

// SchemaCacheName is where a schema fetched from a URL is kept.
func SchemaCacheName(url string) string {
	return Cache + "/schemas/" + base64.StdEncoding.EncodeToString([]byte(url)) + ".json"
}

// Build is the process that builds the project's script.
func (b *B) Build(name string, args ...string) kern.ProcSpec {
	a := []string{"build"}
	if b.AllowCmd {
		a = append(a, "--allow-cmd")
	}
	a = append(a, args...)
	p := kern.ProcSpec{Name: name, Bin: "yisp", Env: Env(), Cwd: "/work", Salt: 1, Stdin: b.Stdin}
	switch b.Main {
	case "rel":
		p.Cwd = b.Dir
		a = append(a, sim.Pick(b.R, []string{"main.yisp", "./main.yisp"}))
	case "stdin":
		// Relative names in a script on standard input count from the
		// parent of the current directory.
		p.Cwd = b.Dir + "/cwd"
		a = append(a, "-")
		p.Stdin = &kern.StreamSpec{Parts: b.encoded()}
		if b.wide() {
			p.Stdin = &kern.StreamSpec{B64: b.utf16Main()}
		}
	case "url":
		a = append(a, MainURL)
	case "dir":
		a = append(a, b.Dir)
	default:
		a = append(a, b.Dir+"/main.yisp")
	}
	p.Args = a
	return p
}

// MainURL is where a script on the network lives.
const MainURL = "https://verif.example/main.yisp"

// MainPath is the script's file, if it has one.
func (b *B) MainPath() string {
	switch b.Main {
	case "dir":
		return b.Dir + "/index.yisp"
	case "stdin", "url":
		return ""
	}
	return b.Dir + "/main.yisp"
}

func (b *B) wide() bool { return strings.HasPrefix(b.Enc, "utf16") }

func (b *B) utf16Main() string {
	return B64(UTF16(strings.Join(b.Parts(), ""), b.Enc == "utf16be"))
}

func (b *B) encoded() []string {
	parts := b.Parts()
	switch b.Enc {
	case "bom":
		return append([]string{"\ufeff"}, parts...)
	case "crlf":
		for i := range parts {
			parts[i] = strings.ReplaceAll(parts[i], "\n", "\r\n")
		}
	}
	return parts
}

// Env is a plain environment.
func Env() map[string]string {
	return map[string]string{"HOME": Home, "PATH": "/usr/bin", "USER": "u"}
}

// World is everything the project needs, the main script included.
func (b *B) World() kern.WorldSpec {
	w := kern.WorldSpec{Clock: 1_700_000_000_000_000_000}
	switch b.Main {
	case "stdin":
		w.Files = append(w.Files, kern.FileSpec{Path: b.Dir + "/cwd", Dir: true})
	case "url":
		h := kern.HTTPSpec{URL: MainURL, Parts: b.encoded()}
		if b.wide() {
			h.Parts, h.B64 = nil, b.utf16Main()
		}
		h.NoLength = b.R.P(1, 2)
		b.HTTP = append(b.HTTP, h)
	default:
		f := kern.FileSpec{Path: b.MainPath(), Parts: b.encoded()}
		if b.wide() {
			f.Parts, f.B64 = nil, b.utf16Main()
		}
		w.Files = append(w.Files, f)
	}
	w.Files = append(w.Files, b.Files...)
	w.Files = append(w.Files, b.astray()...)
	w.Files = append(w.Files, Config(b.GoPkgs...))
	w.HTTP = b.HTTP
	if !b.Plain {
		for _, h := range b.HTTP {
			other := strings.Replace(h.URL, "https://", "http://", 1)
			if other == h.URL {
				other = strings.Replace(h.URL, "http://", "https://", 1)
			}
			w.HTTP = append(w.HTTP, kern.HTTPSpec{URL: other, Parts: []string{"{\"decoy\": true}\n"}})
		}
	}
	w.Progs = b.Progs
	return w
}

// Config is the user's configuration file.
func Config(pkgs ...string) kern.FileSpec {
	parts := []string{"allowedgopkgs:"}
	if len(pkgs) == 0 {
		parts[0] += " []\n"
	} else {
		parts[0] += "\n"
	}
	for _, p := range pkgs {
		if strings.HasPrefix(p, "*") || strings.ContainsAny(p, " \t\\#'\"$&;,()[]%") {
			p = "'" + strings.ReplaceAll(p, "'", "''") + "'"
		}
		parts = append(parts, "    - "+p+"\n")
	}
	return kern.FileSpec{Path: Home + "/.config/yisp/config.yaml", Parts: []string{strings.Join(parts, "")}}
}

// Prog makes an executable.
func (b *B) Prog(name string, p kern.ProgSpec) string {
	p.Path = "/usr/bin/" + name
	for _, q := range b.Progs {
		if q.Path == p.Path {
			return name
		}
	}
	b.Progs = append(b.Progs, p)
	return name
}

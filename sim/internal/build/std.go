// Package build compiles the system under test against a standard library
// whose operating-system boundary is the simulator (go build -overlay). No
// file of /repo or of the Go installation is modified.
package build

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type patch struct {
	file     string // relative to GOROOT/src
	old, new string
	count    int
}

var stdPatches = []patch{
	// The system-call choke point.
	{"syscall/syscall_linux.go", `func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var errno uintptr
`, `func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var errno uintptr
	if x1, x2, xe, ok := verifSyscall(trap, a1, a2, a3, a4, a5, a6); ok {
		return x1, x2, Errno(xe)
	}
`, 1},
	{"syscall/syscall_linux.go", `func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
`, `func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if x1, x2, xe, ok := verifSyscall(trap, a1, a2, a3, 0, 0, 0); ok {
		return x1, x2, Errno(xe)
	}
	runtime_entersyscall()
`, 1},
	{"syscall/syscall_linux.go", `func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
`, `func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if x1, x2, xe, ok := verifSyscall(trap, a1, a2, a3, a4, a5, a6); ok {
		return x1, x2, Errno(xe)
	}
	runtime_entersyscall()
`, 1},
	{"syscall/zsyscall_linux_amd64.go", `func Getpid() (pid int) {
`, `func Getpid() (pid int) {
	if p, ok := verifGetpid(); ok {
		return int(p)
	}
`, 1},
	// Process start.
	{"syscall/exec_unix.go", `func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {
`, `func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {
	if runtime.VerifActive() {
		return verifForkExec(argv0, argv, attr)
	}
`, 1},
	// Network.
	{"net/http/roundtrip.go", `	if t == nil {
		panic("transport is nil")
	}
`, `	if t == nil {
		panic("transport is nil")
	}
	if runtime.VerifActive() {
		return verifRoundTrip(req)
	}
`, 1},
	{"net/http/roundtrip.go", `import _ "unsafe" // for linkname`, `import (
	"runtime"
	_ "unsafe" // for linkname
)`, 1},
	// Clock.
	{"time/time.go", `func Now() Time {
	sec, nsec, mono := runtimeNow()
`, `func Now() Time {
	sec, nsec, mono := verifTimeNow()
`, 1},
	// Randomness.
	{"internal/syscall/unix/getrandom.go", `	ret, supported := vgetrandom(p, uint32(flags))
`, `	ret, supported := 0, false
	if false {
		ret, supported = vgetrandom(p, uint32(flags))
	}
`, 1},
	{"runtime/rand.go", `func bootstrapRand() uint64 {
`, `func bootstrapRand() uint64 {
	if true {
		return verifBootRand()
	}
`, 1},
	{"runtime/rand.go", `func rand() uint64 {
`, `func rand() uint64 {
	if true {
		return verifRand()
	}
`, 1},
	// A thread's own stream must not draw on the shared one: when threads start
	// depends on the real machine.
	{"runtime/rand.go", `	mp.cheaprand = uint32(rand())
	mp.cheaprand64 = rand()
`, `	mp.cheaprand = 0x2545f491
	mp.cheaprand64 = 0x9e3779b97f4a7c15
`, 1},
	{"runtime/select.go", `		j := cheaprandn(uint32(norder + 1))
`, `		j := uint32(verifRand() % uint64(norder+1))
`, 1},
	// Scheduling: one processor, nothing pre-empts, no random queue order.
	{"runtime/proc.go", `const randomizeScheduler = raceenabled
`, `const randomizeScheduler = false
`, 1},
	{"runtime/proc.go", `func retake(now int64) uint32 {
	n := 0
`, `func retake(now int64) uint32 {
	n := 0
	if verifOn {
		return 0
	}
`, 1},
	// The monitor thread acts on the real clock.
	{"runtime/proc.go", `		usleep(delay)

		// sysmon should not enter deep sleep if schedtrace is enabled so that
`, `		usleep(delay)
		if verifOn {
			idle = 60
			continue
		}

		// sysmon should not enter deep sleep if schedtrace is enabled so that
`, 1},
	{"runtime/proc.go", `	runtimeInitTime = nanotime()
	if runtimeInitTime == 0 {
`, `	runtimeInitTime = nanotime()
	verifHello()
	if runtimeInitTime == 0 {
`, 1},
}

// StdOverlay writes the patched files under dir and adds them to repl.
func StdOverlay(goroot, srcDir, dir string, repl map[string]string) error {
	content := map[string]string{}
	for _, p := range stdPatches {
		f := filepath.Join(goroot, "src", p.file)
		s, ok := content[f]
		if !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			s = string(b)
		}
		if n := strings.Count(s, p.old); n != p.count {
			return fmt.Errorf("std patch: %s: found %d matches, want %d, of:\n%s", p.file, n, p.count, p.old)
		}
		content[f] = strings.ReplaceAll(s, p.old, p.new)
	}
	// time.verifTimeNow needs a declaration.
	tf := filepath.Join(goroot, "src/time/time.go")
	content[tf] += "\nfunc verifTimeNow() (sec int64, nsec int32, mono int64)\n"
	for _, a := range [][2]string{
		{"runtime/zverif.go", "runtime_zverif.go.txt"},
		{"syscall/zverif.go", "syscall_zverif.go.txt"},
		{"net/http/zverif.go", "http_zverif.go.txt"},
	} {
		b, err := os.ReadFile(filepath.Join(srcDir, a[1]))
		if err != nil {
			return err
		}
		content[filepath.Join(goroot, "src", a[0])] = string(b)
	}
	for f, s := range content {
		rel, _ := filepath.Rel(goroot, f)
		out := filepath.Join(dir, "std", strings.ReplaceAll(rel, "/", "__"))
		if err := WriteIfChanged(out, s); err != nil {
			return err
		}
		repl[f] = out
	}
	return nil
}

// WriteIfChanged keeps the file's time stamp when the content is the same.
func WriteIfChanged(f, s string) error {
	if b, err := os.ReadFile(f); err == nil && string(b) == s {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		return err
	}
	return os.WriteFile(f, []byte(s), 0o644)
}

// Package verif is the harness interface. Under the symbolic engine the exported
// functions below marked "engine" are intercepted; compiled natively they take
// their values from a recorded case (environment variable VERIF_CASE), so that a
// counterexample found by the solver replays on the real code.
package verif

import (
	"encoding/json"
	"fmt"
	"os"
	"syscall"
)

type caseFile struct {
	Inputs map[string]interface{} `json:"inputs"`
}

var (
	loaded bool
	values map[string]interface{}
	counts = map[string]int{}
	out    *os.File
)

func load() {
	if loaded {
		return
	}
	loaded = true
	values = map[string]interface{}{}
	fn := os.Getenv("VERIF_CASE")
	if fn == "" {
		return
	}
	f, err := os.Open(fn)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	d := json.NewDecoder(f)
	d.UseNumber()
	var c caseFile
	if err := d.Decode(&c); err != nil {
		panic(err)
	}
	values = c.Inputs
}

func next(name string) (interface{}, bool) {
	load()
	k := counts[name]
	counts[name] = k + 1
	v, ok := values[fmt.Sprintf("%s#%d", name, k)]
	return v, ok
}

func num(v interface{}) int64 {
	n, err := v.(json.Number).Int64()
	if err != nil {
		panic(err)
	}
	return n
}

// Restart replaces the running program with itself, started with k=v. engine: nothing
func Restart(k, v string) {
	if os.Getenv("VERIF_ENV_"+k) == "="+v {
		return
	}
	os.Setenv("VERIF_ENV_"+k, "="+v)
	exe, err := os.Executable()
	if err == nil {
		err = syscall.Exec(exe, os.Args, os.Environ())
	}
	panic(err)
}

// Restarted is the value given to Restart for k. engine: empty
func Restarted(k string) string {
	if v := os.Getenv("VERIF_ENV_" + k); v != "" {
		return v[1:]
	}
	return ""
}

// Int is any value in [lo, hi]. engine
func Int(name string, lo, hi int) int {
	v, ok := next(name)
	if !ok {
		if lo > 0 || hi < 0 {
			return lo
		}
		return 0
	}
	return int(num(v))
}

// Byte is any byte. engine
func Byte(name string) byte {
	v, ok := next(name)
	if !ok {
		return 0
	}
	return byte(num(v))
}

// Uint64 is any 64-bit value. engine
func Uint64(name string) uint64 {
	v, ok := next(name)
	if !ok {
		return 0
	}
	return uint64(num(v))
}

// Bool is any boolean. engine
func Bool(name string) bool {
	v, ok := next(name)
	if !ok {
		return false
	}
	return num(v) != 0
}

// Bytes is a slice of n arbitrary bytes; n may itself be symbolic. engine
func Bytes(name string, n int) []byte {
	v, ok := next(name)
	b := make([]byte, n)
	if ok {
		a := v.([]interface{})
		for i := 0; i+1 < len(a); i += 2 {
			if k := num(a[i]); k < int64(n) {
				b[k] = byte(num(a[i+1]))
			}
		}
	}
	return b
}

// Choose is a value in [0, n), explored exhaustively. engine
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v, ok := next(name)
	if !ok {
		return 0
	}
	return int(num(v))
}

// Concrete splits the path on the value of x. engine
func Concrete(x int) int { return x }

// Symbolic reports whether the symbolic engine is running. engine
func Symbolic() bool { return false }

// Assume restricts the path. engine
func Assume(c bool) {
	if !c {
		emit("ASSUME-FAILED", "", "")
		os.Exit(4)
	}
}

var failed bool

// Assert states an obligation. engine
func Assert(c bool, label string) {
	if !c {
		failed = true
		emit("VIOLATION", label, "")
	}
}

// AssertEqBytes states that a and b have the same length and contents. engine
func AssertEqBytes(a, b []byte, label string) {
	if len(a) != len(b) {
		failed = true
		emit("VIOLATION", label+" (length)", fmt.Sprintf("got %d want %d", len(a), len(b)))
		return
	}
	for i := range a {
		if a[i] != b[i] {
			failed = true
			emit("VIOLATION", label, fmt.Sprintf("byte %d: got %#x want %#x", i, a[i], b[i]))
			return
		}
	}
}

// EqBytes compares without splitting the path. engine
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// And does not split the path. engine
func And(a, b bool) bool { return a && b }

// Or does not split the path. engine
func Or(a, b bool) bool { return a || b }

// Implies does not split the path. engine
func Implies(a, b bool) bool { return !a || b }

// Iff does not split the path. engine
func Iff(a, b bool) bool { return a == b }

// IteInt does not split the path. engine
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Reach marks a point that must be reachable (vacuity check). engine
func Reach(label string) {}

// Observe records a value for comparing the engine with native execution. engine
func Observe(label string, v int) { emit("OBS", label, fmt.Sprint(v)) }

// ObserveBytes is Observe for data. engine
func ObserveBytes(label string, v []byte) { emit("OBS", label, fmt.Sprintf("%x", v)) }

// Exit ends the execution normally. engine
func Exit() {
	Finish()
	os.Exit(0)
}

// Fatal reports a harness or model limitation: the path decides nothing. engine
func Fatal(msg string) {
	emit("UNSUPPORTED", msg, "")
	os.Exit(5)
}

// Debug prints in verbose engine runs. engine
func Debug(l string, v interface{}) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "DEBUG", l, v)
	}
}

// Finish is called by the native driver at the end of a harness.
func Finish() {
	if failed {
		emit("END", "failed", "")
		os.Exit(3)
	}
	emit("END", "ok", "")
}

type line struct {
	Kind, Label, Val string
}

func emit(kind, label, val string) {
	b, _ := json.Marshal(line{kind, label, val})
	os.Stdout.Write(append(b, '\n'))
}

// Initialising reports whether a package initialiser is running: the engine runs it at
// the first use of the package. engine
func Initialising() bool { return false }

// Thorough reports whether the thorough tier is running. engine
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Tier picks a bound. engine (through Thorough)
func Tier(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

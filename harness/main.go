// The conformance driver: runs the code of /repo and records what it does.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	seed    int64
	tier    string
	work    string
	T       *Trace
	drivers = map[string]func(){}
)

// M is a JSON object
type M map[string]interface{}

// Trace writes one JSON object per line
type Trace struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
}

func (t *Trace) Emit(m M) {
	t.mu.Lock()
	defer t.mu.Unlock()
	b, err := json.Marshal(m)
	must(err)
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.w.Flush()
}

// Begin starts a new trace, i.e. a new history of the specification
func Begin(name string, m M) {
	if m == nil {
		m = M{}
	}
	m["ev"] = "begin"
	m["name"] = name
	T.Emit(m)
}

func thorough() bool { return tier == "thorough" }

// pick returns q for the quick tier and t for the thorough one
func pick(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

type driverError struct{ msg string }

// must is for the errors of the driver itself
func must(err error) {
	if err != nil {
		panic(driverError{err.Error() + "\n" + string(debug.Stack())})
	}
}

func fail(format string, a ...interface{}) {
	panic(driverError{fmt.Sprintf(format, a...)})
}

// must2 is for errors of the code under test, where it has no reason to fail
func must2(err error) {
	if err != nil {
		panic(codeError{err})
	}
}

type codeError struct{ error }

// blame says whether a panic is one of the code under test: whether the
// innermost of the functions of the driver and of the code is one of the code
func blame(r interface{}, stack string) bool {
	if _, ok := r.(codeError); ok {
		return true
	}
	if _, ok := r.(driverError); ok {
		return false
	}
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "main."):
			return false
		case strings.HasPrefix(l, "github.com/si-co/vpir-code/"):
			return true
		}
	}
	return false
}

// giveUp ends the driver: with an event that no specification allows when it
// is the code under test that failed, with an error otherwise
func giveUp(r interface{}) {
	stack := string(debug.Stack())
	if blame(r, stack) {
		fmt.Fprintln(os.Stderr, "CODE-PANIC", r, stack)
		os.Exit(1)
	}
	if de, ok := r.(driverError); ok {
		fmt.Fprintln(os.Stderr, "VERIF-DRIVER-ERROR", de.msg)
	} else {
		fmt.Fprintln(os.Stderr, "VERIF-DRIVER-ERROR", r, stack)
	}
	os.Exit(3)
}

// guard runs a call into the code under test. It returns "ok", "err", "panic"
// or "hang".
func guard(f func() error) (out, msg string) {
	return guardT(120*time.Second, f)
}

func guardT(d time.Duration, f func() error) (out, msg string) {
	type res struct{ out, msg string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case driverError, codeError:
					giveUp(r)
				}
				ch <- res{"panic", fmt.Sprint(r)}
			}
		}()
		if err := f(); err != nil {
			ch <- res{"err", err.Error()}
			return
		}
		ch <- res{"ok", ""}
	}()
	select {
	case r := <-ch:
		return r.out, r.msg
	case <-time.After(d):
		return "hang", ""
	}
}

// ints converts bytes for the specification
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func bools(b []bool) []int {
	out := make([]int, len(b))
	for i, x := range b {
		if x {
			out[i] = 1
		}
	}
	return out
}

func rng(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed*1000003 + salt)) }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("drivers:")
		var names []string
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(names)
		os.Exit(3)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	out := fs.String("out", "", "trace")
	fs.Int64Var(&seed, "seed", 1, "seed")
	fs.StringVar(&tier, "tier", "quick", "tier")
	fs.StringVar(&work, "work", "", "scratch directory")
	fs.Parse(os.Args[2:])
	defer func() {
		if r := recover(); r != nil {
			giveUp(r)
		}
	}()
	d, ok := drivers[cmd]
	if !ok {
		fail("unknown driver %s", cmd)
	}
	if *out == "" {
		*out = "/dev/stdout"
	}
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	T = &Trace{f: f, w: bufio.NewWriter(f)}
	rand.Seed(seed)
	log.SetOutput(io.Discard)
	d()
	must(f.Close())
}

func readJSON(file string, f func(m M)) {
	b, err := os.ReadFile(file)
	must(err)
	d := json.NewDecoder(bytes.NewReader(b))
	for d.More() {
		var m M
		must(d.Decode(&m))
		f(m)
	}
}

func hashOf(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

// Command h replays and searches failing inputs of the properties against the
// real code (through its exported API).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"os"
	"runtime/debug"
	"time"
)

// T collects the cases of one property
type T struct {
	rng      *rand.Rand
	cases    int
	fails    []fail
	samples  []string
	deadline time.Time
	thorough bool
	scratch  string
	cur      string
	last     *os.File
}

type fail struct {
	What  string      `json:"what"`
	Input interface{} `json:"input"`
}

// more reports whether there is budget left
func (t *T) more() bool { return time.Now().Before(t.deadline) && len(t.fails) < 5 }

// loop runs f up to n times (10n in thorough mode) within the budget
func (t *T) loop(n int, f func()) {
	if t.thorough {
		n *= 20
	}
	for i := 0; i < n && t.more(); i++ {
		f()
	}
}

func (t *T) ok(cond bool, what string, args ...interface{}) bool {
	t.cases++
	if cond {
		return true
	}
	if len(t.fails) < 5 {
		t.fails = append(t.fails, fail{fmt.Sprintf(what, args...), t.cur})
	}
	return false
}

// at describes the input under test
func (t *T) at(f string, args ...interface{}) {
	t.cur = fmt.Sprintf(f, args...)
	if t.last != nil {
		// survives an exit of the process by the code under test
		t.last.Truncate(0)
		t.last.WriteAt([]byte(t.cur), 0)
	}
	if len(t.samples) < 3 {
		t.samples = append(t.samples, t.cur)
	}
}

// part runs one sub-check; a panic of the code under test on a valid input is a failure
func (t *T) part(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.fails = append(t.fails, fail{fmt.Sprintf("%s: panic: %v", name, r), t.cur + " " + string(debug.Stack())})
		}
	}()
	n := len(t.fails)
	f()
	for i := n; i < len(t.fails); i++ {
		t.fails[i].What = name + ": " + t.fails[i].What
	}
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func nearTol(a, b, tol float64) bool {
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func cnear(a, b complex128) bool {
	return cmplx.Abs(a-b) <= 1e-9*(1+math.Max(cmplx.Abs(a), cmplx.Abs(b)))
}

func (t *T) f() float64     { return math.Round((t.rng.Float64()*4-2)*1e4) / 1e4 }
func (t *T) c() complex128  { return complex(t.f(), t.f()) }
func (t *T) n(a, b int) int { return a + t.rng.Intn(b-a+1) }
func (t *T) pos() float64   { return 0.05 + t.rng.Float64()*2 }
func (t *T) cs(n int) []complex128 {
	r := make([]complex128, n)
	for i := range r {
		r[i] = t.c()
	}
	return r
}
func (t *T) fs(n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = t.f()
	}
	return r
}

var props = map[string]func(*T){}

func main() {
	p := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Float64("budget", 20, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	flag.Parse()
	t := &T{rng: rand.New(rand.NewSource(*seed)), deadline: time.Now().Add(time.Duration(*budget * float64(time.Second))), thorough: *tier == "thorough", scratch: *scratch}
	t.last, _ = os.Create(*scratch + "/last.txt")
	if f, ok := props[*p]; ok {
		f(t)
	}
	if t.fails == nil {
		t.fails = []fail{}
	}
	b, _ := json.Marshal(map[string]interface{}{"cases": t.cases, "fails": t.fails, "samples": t.samples})
	os.WriteFile(*out, b, 0644)
}

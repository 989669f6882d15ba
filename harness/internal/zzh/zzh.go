// Package zzh is the support library of the bounded replay harnesses: they run the real code on enumerated and
// seeded inputs against oracles written from the property texts. It is overlaid onto the repository by the checks.
package zzh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Failure is one failing input.
type Failure struct {
	Key   string `json:"key"`
	Input string `json:"input"`
	Msg   string `json:"msg"`
}

// R records what one harness explored.
type R struct {
	*rand.Rand
	Prop     string
	Thorough bool

	t        *testing.T
	deadline time.Time

	cur  string
	seen map[uint64]bool
	out  struct {
		Prop        string    `json:"property"`
		Test        string    `json:"test"`
		Evaluations int       `json:"evaluations"`
		Distinct    int       `json:"distinct"`
		Samples     []string  `json:"samples"`
		Failures    []Failure `json:"failures"`
		NFailures   int       `json:"n_failures"`
		Rule        string    `json:"rule"`
	}
	keys  map[string]int
	mu    sync.Mutex
	since time.Time
	trace string
}

// Seed is the seed of the run.
func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// Run executes a harness.
func Run(t *testing.T, prop, rule string, f func(r *R)) {
	t.Helper()
	h := fnv.New64()
	_, _ = h.Write([]byte(prop + t.Name()))
	r := &R{Prop: prop, t: t, seen: map[uint64]bool{}, keys: map[string]int{}}
	r.Rand = rand.New(rand.NewSource(Seed()*1000003 + int64(h.Sum64()&0xffffff)))
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.deadline = time.Now().Add(40 * time.Second)
	if r.Thorough {
		r.deadline = time.Now().Add(240 * time.Second)
	}
	r.out.Prop, r.out.Test, r.out.Rule = prop, t.Name(), rule
	debug.SetMaxStack(256 << 20)
	if os.Getenv("ZZH_TRACE") != "" {
		r.trace = filepath.Join(os.Getenv("ZZH_OUT"), prop+"."+t.Name()+".trace")
	}
	write := func() {
		if d := os.Getenv("ZZH_OUT"); d != "" {
			b, _ := json.Marshal(r.out)
			_ = os.WriteFile(filepath.Join(d, prop+"."+t.Name()+".json"), b, 0o600)
		}
	}
	r.since = time.Now()
	done := make(chan bool)
	defer close(done)
	go func() { // a case that does not finish
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			r.mu.Lock()
			if time.Since(r.since) > 60*time.Second {
				r.out.NFailures++
				r.out.Failures = append(r.out.Failures, Failure{Key: "hang", Input: r.cur, Msg: "the call does not finish within 60 s"})
				write()
				os.Exit(3)
			}
			r.mu.Unlock()
		}
	}()
	defer func() {
		write()
		if r.out.NFailures > 0 {
			t.Errorf("%s: %d failing inputs, first: %+v", prop, r.out.NFailures, r.out.Failures[0])
		}
		t.Logf("%s: %d evaluations, %d distinct", prop, r.out.Evaluations, r.out.Distinct)
	}()
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Fail("panic", "panic: %v\n%s", p, debug.Stack())
			}
		}()
		f(r)
	}()
	if r.out.Evaluations == 0 {
		t.Errorf("%s: nothing evaluated", prop)
	}
}

// N picks the size of a loop by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Late tells that the time budget is used up.
func (r *R) Late() bool { return time.Now().After(r.deadline) }

// Case announces the input under test.
func (r *R) Case(format string, args ...interface{}) {
	cur := fmt.Sprintf(format, args...)
	r.mu.Lock()
	r.cur, r.since = cur, time.Now()
	r.mu.Unlock()
	if r.trace != "" {
		_ = os.WriteFile(r.trace, []byte(cur), 0o600)
	}
	r.out.Evaluations++
	h := fnv.New64a()
	_, _ = h.Write([]byte(r.cur))
	if k := h.Sum64(); !r.seen[k] {
		r.seen[k] = true
		r.out.Distinct++
		if n := r.out.Distinct; len(r.out.Samples) < 5 && n&(n-1) == 0 && n >= 2 {
			s := r.cur
			if len(s) > 600 {
				s = s[:600] + "…"
			}
			r.out.Samples = append(r.out.Samples, s)
		}
	}
}

// Try runs one case and turns a panic into a failure.
func (r *R) Try(key string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			r.Fail(key, "panic: %v\n%s", p, debug.Stack())
		}
	}()
	f()
}

// Fail records that the current case breaks the property.
func (r *R) Fail(key, format string, args ...interface{}) {
	r.out.NFailures++
	r.keys[key]++
	if r.keys[key] > 3 || len(r.out.Failures) > 40 {
		return
	}
	m := fmt.Sprintf(format, args...)
	if len(m) > 4000 {
		m = m[:4000] + "…"
	}
	r.out.Failures = append(r.out.Failures, Failure{Key: key, Input: r.cur, Msg: m})
}

// Check fails the current case unless ok.
func (r *R) Check(ok bool, key, format string, args ...interface{}) bool {
	if !ok {
		r.Fail(key, format, args...)
	}
	return ok
}

// Pick chooses one of the strings.
func (r *R) Pick(ss ...string) string { return ss[r.Intn(len(ss))] }

// JSON renders a value for messages.
func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v (%v)", v, err)
	}
	return string(b)
}

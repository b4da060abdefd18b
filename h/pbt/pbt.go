// Package pbt is glue between the property checks and the runner
// (/verif/run.py): it drives pgregory.net/rapid with a pinned seed, counts
// what the generators produced, and writes the counts out.
package pbt

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	mx         sync.Mutex
	evals      int
	perPart    = map[string]int{}
	distinct   = map[[8]byte]struct{}{}
	classes    = map[string]int{}
	samples    []string
	sampleSeen = map[string]int{}
	known      = map[string]bool{}
	partFailed bool
)

// Tier of the run: quick or thorough
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough tier?
func Thorough() bool { return Tier() == "thorough" }

// Scale of the run in percents (used by instrumented, e.g. race, builds)
func scale(n int) int {
	if s, err := strconv.Atoi(os.Getenv("PBT_SCALE")); err == nil && s > 0 {
		n = n * s / 100
	}
	if n < 1 {
		n = 1
	}
	return n
}

// Case is one generated case
type Case struct {
	part    string
	notes   []string
	nontriv bool
	skip    bool
}

// Note appends to the description of the case. The description
// identifies the case (for counting of distinct cases)
func (c *Case) Note(format string, args ...interface{}) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case
func (c *Case) NonTrivial() { c.nontriv = true }

// Class counts the case in given class
func (c *Case) Class(name string) {
	mx.Lock()
	defer mx.Unlock()
	classes[c.part+"/"+name]++
}

// String is description of the case
func (c *Case) String() string { return strings.Join(c.notes, "; ") }

func (c *Case) done() {
	mx.Lock()
	defer mx.Unlock()
	evals++
	perPart[c.part]++
	if !c.nontriv {
		return
	}
	var s = c.part + ": " + c.String()
	var h = sha256.Sum256([]byte(s))
	var k [8]byte
	copy(k[:], h[:])
	if _, ok := distinct[k]; ok {
		return
	}
	distinct[k] = struct{}{}
	if sampleSeen[c.part] < 3 && perPart[c.part]%7 == 3 {
		sampleSeen[c.part]++
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}
		samples = append(samples, s)
	}
}

// Check runs fn for many generated cases: quick or thorough of them
func Check(t *testing.T, part string, quick, thorough int, fn func(t *rapid.T, c *Case)) {
	t.Helper()
	var n = quick
	if Thorough() {
		n = thorough
	}
	n = scale(n)
	flag.Set("rapid.checks", strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		var c = &Case{part: part}
		current(c)
		var ok bool
		defer func() {
			current(nil)
			if ok {
				c.done()
			}
		}()
		fn(rt, c)
		ok = true
	})
}

// Enumerate is for cases generated by enumeration, not by rapid
func Enumerate(part string, fn func(c *Case)) {
	var c = &Case{part: part}
	current(c)
	fn(c)
	current(nil)
	c.done()
}

var (
	curMx sync.Mutex
	cur   *Case
)

func current(c *Case) {
	curMx.Lock()
	cur = c
	curMx.Unlock()
}

// Within calls fn and waits for it. If fn does not return for d (which
// should be orders of magnitude longer than fn needs), then the process
// reports the hang with stacks of all goroutines and exits: there is no way
// to shrink a hang.
func Within(d time.Duration, what string, fn func()) {
	var tm = time.AfterFunc(d, func() { Hang(what, d) })
	defer tm.Stop()
	fn()
}

// Hang reports that something that should terminate does not, and exits
func Hang(what string, d time.Duration) {
	var buf = make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	curMx.Lock()
	var cs = "-"
	if cur != nil {
		cs = cur.String()
	}
	curMx.Unlock()
	fmt.Printf("\nPBT-HANG: %s does not return within %s\ncase: %s\n%s\n", what, d, cs, buf)
	os.Exit(7)
}

// Infra reports a failure of the harness itself (not of code under test)
func Infra(err error) {
	if err != nil {
		fmt.Printf("\nPBT-INFRA: %v\n", err)
		os.Exit(9)
	}
}

// Known reports a listed known finding that still fails
func Known(line string) {
	mx.Lock()
	defer mx.Unlock()
	known[line] = true
}

// Scratch returns new temporary directory (memory backed if possible)
func Scratch() string {
	var base = os.Getenv("PBT_SCRATCH")
	var d, err = os.MkdirTemp(base, "pbt-")
	Infra(err)
	return d
}

type out struct {
	Evaluations int            `json:"evaluations"`
	Distinct    []string       `json:"distinct"`
	Parts       map[string]int `json:"parts"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Known       []string       `json:"known"`
}

// Main is for TestMain
func Main(m *testing.M) {
	flag.Parse()
	var seed = 1
	if s, err := strconv.Atoi(os.Getenv("PBT_SEED")); err == nil {
		seed = s
	}
	if seed == 0 {
		seed = 424242 // zero means random for rapid
	}
	if f := os.Getenv("PBT_FAILFILE"); f != "" {
		flag.Set("rapid.failfile", f)
	} else {
		flag.Set("rapid.seed", strconv.Itoa(seed))
	}
	if flag.Lookup("rapid.shrinktime") != nil {
		flag.Set("rapid.shrinktime", "20s")
	}
	var code = m.Run()
	if p := os.Getenv("PBT_OUT"); p != "" {
		mx.Lock()
		var o = out{Evaluations: evals, Parts: perPart, Classes: classes, Samples: samples}
		for k := range distinct {
			o.Distinct = append(o.Distinct, fmt.Sprintf("%x", k))
		}
		for k := range known {
			o.Known = append(o.Known, k)
		}
		sort.Strings(o.Distinct)
		sort.Strings(o.Known)
		var b, err = json.Marshal(o)
		mx.Unlock()
		Infra(err)
		Infra(os.WriteFile(p, b, 0644))
	}
	os.Exit(code)
}

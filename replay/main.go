// replay runs the concrete cases of one property against the real code: it
// looks for an input that violates the property, as a companion (bounded,
// never counted as proved) of the contracts.  The last line of the output is
// a JSON summary.
package main

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type result struct {
	OK          bool     `json:"ok"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Standins    []string `json:"standins"`
	Known       []string `json:"known"`
	Failure     string   `json:"failure"`
	Case        string   `json:"case"`
}

// T is the run of one property.
type T struct {
	prop, tier string
	seed       int
	only       string
	res        result
	seen       map[[32]byte]bool
	deadline   time.Time
}

// C is one case.
type C struct {
	t      *T
	name   string
	r      *rand.Rand
	notes  []string
	failed string
}

type failure struct{ msg string }

func (c *C) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }
func (c *C) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Failf(f, a...)
	}
}
func (c *C) Note(f string, a ...interface{}) {
	if len(c.notes) < 40 {
		c.notes = append(c.notes, fmt.Sprintf(f, a...))
	}
}

// n scales the number of repetitions with the tier.
func (t *T) n(quick int) int {
	if t.tier == "thorough" {
		return quick * 60
	}
	if f := more[t.prop]; f > 0 {
		quick *= f
	}
	return quick * 3
}

// more repetitions of the cases that are cheap
var more = map[string]int{"C03": 6, "C05": 3, "C08": 8, "C09": 8, "C10": 10, "C11": 8, "C12": 20, "C14": 8, "C15": 3,
	"C16": 6, "C17": 20, "C18": 20, "C19": 2, "C20": 12, "C21": 8, "C22": 4, "C23": 12}

func (t *T) thorough() bool { return t.tier == "thorough" }

// detRand replaces the random source by a reproducible stream.
type detRand struct{ r *rand.Rand }

func (d detRand) Read(b []byte) (int, error) { return d.r.Read(b) }

// badRand is a random source that fails after n bytes.
type badRand struct{ n int }

func (b *badRand) Read(p []byte) (int, error) {
	if b.n <= 0 {
		return 0, io.ErrUnexpectedEOF
	}
	k := len(p)
	if k > b.n {
		k = b.n
	}
	for i := 0; i < k; i++ {
		p[i] = byte(0xA0 + i)
	}
	b.n -= k
	return k, nil
}

var savedReader = crand.Reader

func withRand(r io.Reader, f func()) {
	old := crand.Reader
	crand.Reader = r
	defer func() { crand.Reader = old }()
	f()
}

// Case runs f n times, as name/0 .. name/n-1.
func (t *T) Case(name string, n int, f func(c *C)) {
	for i := 0; i < n; i++ {
		if t.res.Failure != "" {
			return
		}
		full := name + "/" + strconv.Itoa(i) + "@" + strconv.Itoa(t.seed)
		if t.only != "" && t.only != full {
			continue
		}
		if t.only == "" && i > 0 && time.Now().After(t.deadline) {
			return
		}
		fmt.Fprintln(os.Stderr, "CASE", full)
		h := sha256.Sum256([]byte(full))
		c := &C{t: t, name: full, r: rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]))))}
		crand.Reader = detRand{rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[8:16]))))}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					if x, ok := p.(failure); ok {
						done <- x.msg
					} else {
						done <- fmt.Sprintf("panic: %v\n%s", p, trim(string(debug.Stack()), 3000))
					}
					return
				}
				done <- ""
			}()
			f(c)
		}()
		msg := ""
		select {
		case msg = <-done:
		case <-time.After(100 * time.Second):
			msg = "the call does not return (100 s)"
		}
		crand.Reader = savedReader
		t.res.Evaluations++
		d := sha256.Sum256([]byte(name + strings.Join(c.notes, "|")))
		if !t.seen[d] {
			t.seen[d] = true
			t.res.Distinct++
		}
		if i < 2 && len(t.res.Samples) < 12 {
			t.res.Samples = append(t.res.Samples, trim(full+": "+strings.Join(c.notes, "; "), 300))
		}
		if msg != "" {
			t.res.Failure = msg
			if len(c.notes) > 0 {
				t.res.Failure += "\ncontext: " + trim(strings.Join(c.notes, "; "), 2000)
			}
			t.res.Case = full
		}
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var props = map[string]func(t *T){}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed")
	cs := flag.String("case", "", "run one case only")
	lim := flag.Int("limit", 0, "seconds after which repetitions stop")
	flag.Parse()
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	if *cs != "" {
		if i := strings.LastIndex(*cs, "@"); i >= 0 {
			if s, err := strconv.Atoi((*cs)[i+1:]); err == nil {
				*seed = s
			}
		}
	}
	l := *lim
	if l == 0 {
		l = 45
		if *tier == "thorough" {
			l = 600
		}
	}
	t := &T{prop: *prop, tier: *tier, seed: *seed, only: *cs, seen: map[[32]byte]bool{}, deadline: time.Now().Add(time.Duration(l) * time.Second)}
	t.res.Rule = "a case is one named scenario with pseudo-random keys, messages and orders from the seed; two cases are the same if scenario and recorded choices coincide"
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	out := os.Stdout
	os.Stdout = devnull
	f(t)
	os.Stdout = out
	t.res.OK = t.res.Failure == ""
	if t.res.Samples == nil {
		t.res.Samples = []string{}
	}
	b, _ := json.Marshal(t.res)
	fmt.Println(string(b))
	if !t.res.OK {
		os.Exit(1)
	}
}

// Command replay searches for a concrete failing input of one property
// against the real code, after an obligation of that property has failed.
package main

import (
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// ctx carries the random source of one attempt and the violation it found.
type ctx struct {
	*rand.Rand
	log  []string
	fail string
}

func (c *ctx) note(f string, a ...interface{}) {
	if len(c.log) < 60 {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

func (c *ctx) failf(f string, a ...interface{}) {
	if c.fail == "" {
		c.fail = fmt.Sprintf(f, a...)
	}
}

func (c *ctx) check(ok bool, f string, a ...interface{}) bool {
	if !ok {
		c.failf(f, a...)
	}
	return ok
}

type scenario func(c *ctx)

var scenarios = map[string][]scenario{}

func reg(prop string, s ...scenario) { scenarios[prop] = append(scenarios[prop], s...) }

func attempt(s scenario, seed int64) (fail string, log []string) {
	c := &ctx{Rand: rand.New(rand.NewSource(seed))}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				at := ""
				for _, l := range st {
					if strings.Contains(l, "/repo/") {
						at = strings.TrimSpace(l)
						break
					}
				}
				c.failf("panic: %v at %s", x, at)
			}
		}()
		s(c)
	}()
	select {
	case <-done:
		return c.fail, c.log
	case <-time.After(20 * time.Second):
		return "the call does not return (waited 20s)", nil
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Int("secs", 30, "budget")
	flag.Parse()
	ss := scenarios[*prop]
	if len(ss) == 0 {
		fmt.Println("no replay scenario for", *prop)
		return
	}
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	n := 0
	for i := int64(0); time.Now().Before(deadline); i++ {
		for k, s := range ss {
			sd := *seed*1000003 + i*31 + int64(k)
			n++
			if f, log := attempt(s, sd); f != "" {
				for _, l := range log {
					fmt.Println("  " + l)
				}
				fmt.Printf("FAIL %s (scenario %d, seed %d)\n", strings.ReplaceAll(f, "\n", " "), k, sd)
				os.Exit(1)
			}
		}
	}
	fmt.Printf("CASES %d\nno failing input found\n", n)
}

func near(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

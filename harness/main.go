// Command fv drives the font library from an abstract description of fonts and operations and
// records what it does as sessions of events, one JSON object per line, for validation against the
// TLA+ specifications in ../spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type M = map[string]any

// ctx is what a session generator gets.
type ctx struct {
	r     *rand.Rand
	seed  int64
	i     int
	tier  string
	plans [][]json.RawMessage // exported by the model checker, one list per plan file line
	Ev    []any
	look  []int // the glyphs to look at, nil: all
	Info  M     // for people; not read by the specification
}

func (c *ctx) ev(m M) { c.Ev = append(c.Ev, m) }

// check is a family of sessions.
type check struct {
	n     func(tier string, plans int) int
	run   func(c *ctx)
	limit time.Duration
}

var checks = map[string]*check{}

func counts(quick, thorough int) func(string, int) int {
	return func(tier string, plans int) int {
		if tier == "thorough" {
			return plans + thorough
		}
		return plans + quick
	}
}

var rawPlans []json.RawMessage

func main() {
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", -1, "")
	step := flag.Int("step", 1, "")
	out := flag.String("out", "", "")
	prog := flag.String("progress", "", "")
	plans := flag.String("plans", "", "")
	count := flag.Bool("count", false, "")
	flag.Parse()
	debug.SetMaxStack(128 << 20)
	c := checks[flag.Arg(0)]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", flag.Arg(0))
		os.Exit(64)
	}
	if *plans != "" {
		f, err := os.Open(*plans)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(64)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			rawPlans = append(rawPlans, append(json.RawMessage{}, sc.Bytes()...))
		}
		f.Close()
	}
	n := c.n(*tier, len(rawPlans))
	if *count {
		fmt.Println(n)
		return
	}
	if 0 <= *to && *to < n {
		n = *to
	}
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(64)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	limit := c.limit
	if limit == 0 {
		limit = 60 * time.Second
	}
	for i := *from; i < n; i += *step {
		if *prog != "" {
			os.WriteFile(*prog, []byte(fmt.Sprint(i)), 0o644)
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%d", *seed, flag.Arg(0), i)
		x := &ctx{r: rand.New(rand.NewSource(int64(h.Sum64() >> 1))), seed: *seed, i: i, tier: *tier, Ev: []any{}, Info: M{}}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprint("HARNESS-BUG: ", r, "\n", string(debug.Stack()))
				}
			}()
			c.run(x)
			done <- ""
		}()
		tm := time.NewTimer(limit)
		select {
		case msg := <-done:
			tm.Stop()
			if msg != "" {
				w.Flush()
				fmt.Fprintln(os.Stderr, "session", i, msg)
				os.Exit(70)
			}
			x.Info["i"] = i
			b, err := json.Marshal(M{"id": i, "ev": x.Ev, "info": x.Info})
			if err != nil {
				fmt.Fprintln(os.Stderr, "session", i, "HARNESS-BUG:", err)
				os.Exit(70)
			}
			w.Write(b)
			w.WriteByte('\n')
		case <-tm.C:
			w.Flush()
			buf := make([]byte, 1<<20)
			buf = buf[:stack(buf)]
			fmt.Fprintf(os.Stderr, "fatal error: session %d does not return\n%s\n", i, trimStack(string(buf)))
			os.Exit(3)
		}
	}
	w.Flush()
	f.Close()
}

func trimStack(s string) string {
	if 6000 < len(s) {
		s = s[:6000]
	}
	return strings.TrimSpace(s)
}

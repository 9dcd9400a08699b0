package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ctx is one property run.
type ctx struct {
	id       string
	seed     int64
	deadline time.Time
	evals    int64
	nontriv  int64
	sample   atomic.Value
	rule     string
}

// failed carries a violation: what happened and how to repeat it.
type failed struct {
	Msg  string   `json:"message"`
	Case []string `json:"case"`
}

func (f *failed) Error() string { return f.Msg }

func fail(cs []string, f string, a ...any) error {
	return &failed{fmt.Sprintf(f, a...), cs}
}

// worker is one case generator; it is called until the time is over or it fails.
type worker func(c *ctx, r *rand.Rand, n int) error

func (c *ctx) run(par int, minCases int, w worker) error {
	var (
		mu    sync.Mutex
		first error
		wg    sync.WaitGroup
		next  int64
	)
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				n := int(atomic.AddInt64(&next, 1)) - 1
				mu.Lock()
				stop := first != nil
				mu.Unlock()
				if stop || n >= minCases && time.Now().After(c.deadline) {
					return
				}
				r := rand.New(rand.NewSource(c.seed*1000003 + int64(n)*7919 + int64(len(c.id))))
				atomic.AddInt64(&c.evals, 1)
				if err := w(c, r, n); err != nil {
					mu.Lock()
					if first == nil {
						if f, ok := err.(*failed); ok {
							f.Msg = fmt.Sprintf("case %d (seed %d): %s", n, c.seed, f.Msg)
						}
						first = err
					}
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	return first
}

type prop struct {
	run  func(c *ctx) error
	rule string
}

var props = map[string]prop{}

func main() {
	id := flag.String("id", "", "property")
	bin := flag.String("bin", "", "metis binary")
	dir := flag.String("dir", "", "scratch directory")
	seed := flag.Int64("seed", 1, "seed")
	ms := flag.Int("ms", 6000, "time budget")
	out := flag.String("out", "", "result file")
	flag.Parse()
	binPath, workDir = *bin, *dir
	p, ok := props[*id]
	if !ok {
		fmt.Println("no such property", *id)
		os.Exit(2)
	}
	c := &ctx{id: *id, seed: *seed, deadline: time.Now().Add(time.Duration(*ms) * time.Millisecond), rule: p.rule}
	hang := time.AfterFunc(time.Duration(*ms)*time.Millisecond+240*time.Second, func() {
		buf := make([]byte, 1<<16)
		fmt.Printf("the harness did not finish:\n%s\n", buf[:runtime.Stack(buf, true)])
		os.Exit(3)
	})
	err := p.run(c)
	hang.Stop()
	res := map[string]any{"evaluations": c.evals, "distinct_nontrivial": c.nontriv, "rule": c.rule, "sample": c.sample.Load(), "seed": *seed}
	code := 0
	if err != nil {
		code = 1
		if f, ok := err.(*failed); ok {
			res["failure"] = f
		} else {
			// not a judgement about the server: the harness could not do its work
			res["error"] = err.Error()
			code = 2
			if strings.Contains(err.Error(), "the server exited") {
				res["failure"] = &failed{err.Error(), nil}
				code = 1
			}
		}
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		_ = os.WriteFile(*out, b, 0o644)
	}
	if code != 0 {
		fmt.Println(string(b))
	}
	os.Exit(code)
}

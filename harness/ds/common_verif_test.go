// Concrete model-based search for counterexamples, exported API only.
// It is laid over /repo/datastruct with "go test -overlay"; nothing of it is in /repo.
package datastruct_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type op struct {
	Op string  `json:"op"`
	A  int     `json:"a,omitempty"`
	B  int     `json:"b,omitempty"`
	F  float64 `json:"-"`
	FS string  `json:"f,omitempty"`
	G  float64 `json:"-"`
	GS string  `json:"g,omitempty"`
	S  string  `json:"s,omitempty"`
}

func (o op) MarshalJSON() ([]byte, error) {
	type t op
	x := t(o)
	if o.F != 0 {
		x.FS = strconv.FormatFloat(o.F, 'g', -1, 64)
	}
	if o.G != 0 {
		x.GS = strconv.FormatFloat(o.G, 'g', -1, 64)
	}
	return json.Marshal(x)
}

func (o *op) UnmarshalJSON(b []byte) error {
	type t op
	var x t
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*o = op(x)
	if x.FS != "" {
		o.F, _ = strconv.ParseFloat(x.FS, 64)
	}
	if x.GS != "" {
		o.G, _ = strconv.ParseFloat(x.GS, 64)
	}
	return nil
}

type failure struct {
	Config int    `json:"config"`
	Ops    []op   `json:"ops"`
	Msg    string `json:"message"`
}

// guard runs f and turns a panic or a hang into an error.
func guard(f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 24 {
					st = st[:24]
				}
				ch <- fmt.Errorf("panic: %v\n%s", r, strings.Join(st, "\n"))
			}
		}()
		ch <- f()
	}()
	select {
	case e := <-ch:
		return e
	case <-time.After(10 * time.Second):
		return fmt.Errorf("the operations did not finish within 10 s")
	}
}

type stats struct {
	Evaluations int    `json:"evaluations"`
	Operations  int    `json:"operations"`
	Distinct    int    `json:"distinct_nontrivial"`
	Sample      any    `json:"sample"`
	MaxSize     int    `json:"max_ops"`
	Rule        string `json:"rule"`
}

// search generates operation sequences until the budget is used up; the first failing one is
// shortened and written to VERIF_REPLAY_OUT.
func search(t *testing.T, rule string, configs int, gen func(r *rand.Rand, cfg, size int) []op, run func(cfg int, ops []op) error) {
	if in := os.Getenv("VERIF_REPLAY_IN"); in != "" {
		b, err := os.ReadFile(in)
		if err != nil {
			t.Fatal(err)
		}
		var f struct {
			Test string `json:"test"`
			failure
		}
		if err := json.Unmarshal(b, &f); err != nil {
			t.Fatal(err)
		}
		if f.Test != t.Name() {
			t.Skip()
		}
		if err := guard(func() error { return run(f.Config, f.Ops) }); err != nil {
			t.Fatalf("reproduced: %v", err)
		}
		return
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 3000
	}
	r := rand.New(rand.NewSource(seed*7919 + 17))
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	st := stats{Rule: rule}
	minCases := 60
	for i := 0; i < minCases || time.Now().Before(deadline); i++ {
		cfg := i % configs
		size := 1 + (i/configs)%40
		if (i/configs)%7 == 3 {
			size = 100 + r.Intn(300)
		}
		if (i/configs)%29 == 11 {
			size = 2000 + r.Intn(2500)
		}
		ops := gen(r, cfg, size)
		st.Evaluations++
		st.Operations += len(ops)
		if len(ops) > 1 {
			st.Distinct++
		}
		if len(ops) > st.MaxSize {
			st.MaxSize = len(ops)
		}
		if i == 5 && len(ops) < 60 {
			st.Sample = ops
		}
		err := guard(func() error { return run(cfg, ops) })
		if err == nil {
			continue
		}
		hang := strings.Contains(err.Error(), "did not finish")
		if !hang {
			ops, err = shrink(ops, err, func(o []op) error { return guard(func() error { return run(cfg, o) }) })
		}
		f := struct {
			Test string `json:"test"`
			failure
		}{t.Name(), failure{cfg, ops, err.Error()}}
		b, _ := json.MarshalIndent(f, "", " ")
		if out := os.Getenv("VERIF_REPLAY_OUT"); out != "" {
			_ = os.WriteFile(out, b, 0o644)
		}
		t.Fatalf("VERIF-FAIL %s\n%s", err, b)
	}
	b, _ := json.Marshal(st)
	if out := os.Getenv("VERIF_STATS_OUT"); out != "" {
		_ = os.WriteFile(out+"."+t.Name(), b, 0o644)
	}
}

func shrink(ops []op, err error, run func([]op) error) ([]op, error) {
	deadline := time.Now().Add(20 * time.Second)
	for n := len(ops) / 2; n >= 1; {
		removed := false
		for i := 0; i+n <= len(ops) && time.Now().Before(deadline); {
			c := append(append([]op{}, ops[:i]...), ops[i+n:]...)
			if e := run(c); e != nil && !strings.Contains(e.Error(), "did not finish") {
				ops, err, removed = c, e, true
			} else {
				i += n
			}
		}
		if time.Now().After(deadline) {
			break
		}
		if !removed || n > 1 {
			n /= 2
		}
		if n > len(ops) {
			n = len(ops)
		}
	}
	return ops, err
}

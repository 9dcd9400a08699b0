package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check of one property: the deductive verifier decides, the concrete search looks for a
// failing input of the real code, always for a short time and longer when an obligation fails.

type search struct {
	kind string // "go": an overlay test; "srv": the running server
	pkg  string
	file []string
	test string
}

func ds(test string) search {
	return search{kind: "go", pkg: "datastruct", test: test, file: []string{"ds/common", "ds/dict", "ds/set", "ds/list", "ds/zset"}}
}

var searches = map[string][]search{
	"C01": {ds("TestVerifC01Dict")},
	"C02": {ds("TestVerifC02Iter")},
	"C03": {ds("TestVerifC03Set")},
	"C04": {ds("TestVerifC04List")},
	"C05": {ds("TestVerifC05Zset")},
	"C06": {ds("TestVerifC06Zset")},
	"C07": {{kind: "srv"}}, "C08": {{kind: "srv"}}, "C09": {{kind: "srv"}}, "C10": {{kind: "srv"}},
	"C11": {{kind: "srv"}}, "C12": {{kind: "srv"}}, "C13": {{kind: "srv"}}, "C14": {{kind: "srv"}},
	"C15": {{kind: "srv"}}, "C16": {{kind: "srv"}},
	"C17": {{kind: "srv"}, ds("TestVerifC17Copy")},
	"C18": {{kind: "srv"}},
	"C19": {{kind: "go", pkg: "ae", test: "TestVerifC19Loop", file: []string{"ae/ae"}}},
	"C20": {{kind: "go", pkg: "server", test: "TestVerifC20Addr", file: []string{"sock/sock"}}, {kind: "srv"}},
	"C21": {{kind: "srv"}}, "C22": {{kind: "srv"}},
}

type found struct {
	Search  string          `json:"search"`
	Message string          `json:"message"`
	Data    json.RawMessage `json:"case,omitempty"`
	Repeat  string          `json:"repeat"`
}

type searchStat struct {
	Search      string  `json:"search"`
	Evaluations int     `json:"evaluations"`
	Nontrivial  int     `json:"distinct_nontrivial"`
	Rule        string  `json:"rule"`
	Sample      any     `json:"sample,omitempty"`
	Wall        float64 `json:"wall_s"`
	Problem     string  `json:"problem,omitempty"`
}

type checker struct {
	id, tier string
	seed     int64
	verif    string
	repo     string
	scratch  string
	mu       sync.Mutex
	bins     map[string]error
}

func runCmd(dir string, env []string, limit time.Duration, name string, args ...string) (string, int, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = 5 * time.Second
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if ctx.Err() != nil {
		return b.String(), -1, fmt.Errorf("did not end within %v", limit)
	}
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return b.String(), e.ExitCode(), nil
		}
		return b.String(), -1, err
	}
	return b.String(), 0, nil
}

// build makes the metis binary and the driver for the running server.
func (c *checker) build() error {
	out, rc, err := runCmd(c.repo, nil, 300*time.Second, "go", "build", "-o", filepath.Join(c.scratch, "metis"), ".")
	if err != nil || rc != 0 {
		return fmt.Errorf("building /repo: %v %s", err, out)
	}
	out, rc, err = runCmd(filepath.Join(c.verif, "harness", "srv"), nil, 300*time.Second, "go", "build", "-o", filepath.Join(c.scratch, "vharness"), ".")
	if err != nil || rc != 0 {
		return fmt.Errorf("building the driver: %v %s", err, out)
	}
	return nil
}

func (c *checker) runSearch(s search, seed int64, ms int) (*found, searchStat) {
	start := time.Now()
	if s.kind == "go" {
		return c.runGo(s, seed, ms, start)
	}
	st := searchStat{Search: "running server, driver " + c.id}
	var f *found
	for try := 0; try < 2; try++ {
		out := filepath.Join(c.scratch, fmt.Sprintf("srv%d.json", seed))
		dir := filepath.Join(c.scratch, fmt.Sprintf("srv%d-%d", seed, try))
		args := []string{"-id", c.id, "-bin", filepath.Join(c.scratch, "metis"), "-dir", dir, "-seed", strconv.FormatInt(seed, 10), "-ms", strconv.Itoa(ms), "-out", out}
		text, rc, err := runCmd(c.scratch, nil, time.Duration(ms)*time.Millisecond+260*time.Second, filepath.Join(c.scratch, "vharness"), args...)
		st.Wall = time.Since(start).Seconds()
		_ = os.RemoveAll(dir)
		b, _ := os.ReadFile(out)
		var r struct {
			Evaluations int    `json:"evaluations"`
			Nontriv     int    `json:"distinct_nontrivial"`
			Rule        string `json:"rule"`
			Sample      any    `json:"sample"`
			Failure     *struct {
				Message string          `json:"message"`
				Case    json.RawMessage `json:"case"`
			} `json:"failure"`
			Error string `json:"error"`
		}
		_ = json.Unmarshal(b, &r)
		st.Evaluations, st.Nontrivial, st.Rule, st.Sample = r.Evaluations, r.Nontriv, r.Rule, r.Sample
		st.Problem = ""
		if r.Failure != nil {
			f = &found{st.Search, r.Failure.Message, r.Failure.Case, "vharness " + strings.Join(args[:2], " ") + fmt.Sprintf(" -bin METIS -dir SCRATCH -seed %d -ms %d -out OUT.json (built from /verif/harness/srv)", seed, ms)}
			return f, st
		}
		if rc == 0 && err == nil {
			return nil, st
		}
		st.Problem = fmt.Sprintf("rc %d %v %s %s", rc, err, r.Error, tail(text, 2000))
	}
	return nil, st
}

func (c *checker) runGo(s search, seed int64, ms int, start time.Time) (*found, searchStat) {
	st := searchStat{Search: "go test -overlay " + s.pkg + " " + s.test}
	repl := map[string]string{}
	for _, f := range s.file {
		repl[filepath.Join(c.repo, s.pkg, "zz_"+strings.ReplaceAll(f, "/", "_")+"_verif_test.go")] = filepath.Join(c.verif, "harness", f+"_verif_test.go")
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(c.scratch, "ov-"+s.test+".json")
	_ = os.WriteFile(ov, b, 0o644)
	rep := filepath.Join(c.scratch, fmt.Sprintf("rep-%s-%d.json", s.test, seed))
	sto := filepath.Join(c.scratch, fmt.Sprintf("st-%s-%d", s.test, seed))
	env := []string{"VERIF_SEED=" + strconv.FormatInt(seed, 10), "VERIF_BUDGET_MS=" + strconv.Itoa(ms), "VERIF_REPLAY_OUT=" + rep, "VERIF_STATS_OUT=" + sto, "VERIF_REPLAY_IN="}
	text, rc, err := runCmd(c.repo, env, time.Duration(ms)*time.Millisecond+300*time.Second, "go", "test", "-vet=off", "-count=1", "-timeout=500s", "-overlay", ov, "-run", "^"+s.test+"$", "./"+s.pkg)
	st.Wall = time.Since(start).Seconds()
	if b, e := os.ReadFile(sto + "." + s.test); e == nil {
		var r struct {
			Evaluations int    `json:"evaluations"`
			Nontriv     int    `json:"distinct_nontrivial"`
			Rule        string `json:"rule"`
			Sample      any    `json:"sample"`
		}
		_ = json.Unmarshal(b, &r)
		st.Evaluations, st.Nontrivial, st.Rule, st.Sample = r.Evaluations, r.Nontriv, r.Rule, r.Sample
	}
	if rc == 0 && err == nil {
		return nil, st
	}
	rb, e := os.ReadFile(rep)
	if e == nil || strings.Contains(text, "VERIF-FAIL") || strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "test timed out") {
		msg := tail(text, 3000)
		var r struct {
			Message string `json:"message"`
		}
		if json.Unmarshal(rb, &r) == nil && r.Message != "" {
			msg = r.Message
		}
		if !json.Valid(rb) {
			rb = nil
		}
		return &found{st.Search, msg, rb, fmt.Sprintf("save \"case\" as CASE.json, then VERIF_REPLAY_IN=CASE.json go test -overlay OV.json -run %s ./%s in /repo, with /verif/harness/%s*_verif_test.go laid over", s.test, s.pkg, filepath.Dir(s.file[0]))}, st
	}
	st.Problem = fmt.Sprintf("rc %d %v %s", rc, err, tail(text, 2000))
	return nil, st
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func cmdCheck(args []string) int {
	start := time.Now()
	c := &checker{id: args[0], tier: os.Getenv("VERIF_TIER"), verif: verifDir(), repo: repoDir()}
	if len(args) > 1 {
		c.tier = args[1]
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var err error
	if c.scratch, err = os.MkdirTemp("", "verif-"+c.id+"-"); err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(c.scratch)

	ms := 6000
	if c.tier == "thorough" {
		ms = 180000
	}
	// the proof and the builds at the same time
	var (
		wg    sync.WaitGroup
		rep   *verifyReport
		bErr  error
		needB bool
	)
	for _, s := range searches[c.id] {
		needB = needB || s.kind == "srv"
	}
	if needB {
		wg.Add(1)
		go func() { defer wg.Done(); bErr = c.build() }()
	}
	rep = verifyProperty(c.repo, c.verif, c.id, c.tier)
	wg.Wait()
	if bErr != nil {
		fmt.Println(bErr)
		return 2
	}
	var (
		hit   *found
		stats []searchStat
	)
	for _, s := range searches[c.id] {
		f, st := c.runSearch(s, c.seed, ms)
		stats = append(stats, st)
		if f != nil {
			hit = f
			break
		}
	}
	extra := 0
	if hit == nil && rep != nil && len(rep.Failed) > 0 {
		// an obligation fails: look longer, with other seeds
		deadline := time.Now().Add(90 * time.Second)
		for extra = 1; hit == nil && extra <= 6 && time.Now().Before(deadline); extra++ {
			for _, s := range searches[c.id] {
				f, st := c.runSearch(s, c.seed+int64(1000*extra), 15000)
				stats = append(stats, st)
				if f != nil {
					hit = f
					break
				}
			}
		}
	}
	violations := 0
	code := 0
	if hit != nil || rep != nil && len(rep.Failed) > 0 {
		violations, code = 1, 1
		rdir := filepath.Join(c.verif, "evidence", "replay")
		_ = os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, c.id+".json")
		r := map[string]any{"property": c.id, "seed": c.seed, "failing_input": hit}
		if rep != nil {
			r["failed_obligations"] = rep.Failed
		}
		b, _ := json.MarshalIndent(r, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		if rep != nil {
			for _, f := range rep.Failed {
				fmt.Printf("failed obligation: %s (%s)\n", f.Name, f.Verdict)
			}
		}
		if hit != nil {
			fmt.Printf("failing input (%s): %s\n", hit.Search, tail(hit.Message, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.id, path)
		}
	}
	for _, k := range knownFindings(c.verif, c.id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	if err := c.evidence(rep, stats, violations, time.Since(start)); err != nil {
		fmt.Println(err)
		return 2
	}
	if code == 0 {
		n, d := 0, 0
		if rep != nil {
			n, d = rep.Obligations, rep.Discharged
		}
		ev := 0
		for _, s := range stats {
			ev += s.Evaluations
			if s.Problem != "" {
				fmt.Printf("note: %s did not run to its end: %s\n", s.Search, s.Problem)
			}
		}
		fmt.Printf("%s holds: %d of %d obligations discharged, %d concrete cases, %.1f s\n", c.id, d, n, ev, time.Since(start).Seconds())
	}
	return code
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) (.*)$`)

// knownFindings are the recorded, unrepaired defects; lines "fixed: ..." suppress nothing.
func knownFindings(verif, id string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil && m[1] == id {
			out = append(out, m[2])
		}
	}
	return out
}

func (c *checker) evidence(rep *verifyReport, stats []searchStat, violations int, wall time.Duration) error {
	ev, nt := 0, 0
	var rules []string
	var samples []any
	for _, s := range stats {
		ev += s.Evaluations
		nt += s.Nontrivial
		if s.Rule != "" {
			rules = append(rules, s.Rule)
		}
		if s.Sample != nil && len(samples) < 3 {
			samples = append(samples, s.Sample)
		}
	}
	sort.Strings(rules)
	rules = uniq(rules)
	cov := map[string]any{
		"evaluations": ev, "distinct_nontrivial": nt, "rule": strings.Join(rules, "; "), "samples": samples,
		"searches": stats,
	}
	level := levelOf(c.verif, c.id)
	var assumptions []string
	if rep != nil {
		cov["obligations"], cov["discharged"] = rep.Obligations, rep.Discharged
		cov["checker_cmd"] = rep.CheckerCmd
		cov["trusted_base"] = rep.Trusted
		cov["functions_under_contract"] = rep.Functions
		cov["by_back_end"] = rep.ByBackend
		cov["solver_time_s"] = rep.SolverTime
		cov["reachability_checks"] = rep.Reach
		cov["failed_obligations"] = rep.Failed
		cov["bounded"] = rep.Bounded
		cov["slowest"] = rep.Slowest
		cov["verified_by_other_checks"] = rep.Elsewhere
		assumptions = rep.Assumptions
	}
	out := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov,
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	_ = os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), b, 0o644)
}

// levelOf is the level the manifest claims for the property.
func levelOf(verif, id string) string {
	b, _ := os.ReadFile(filepath.Join(verif, "tools", "levels.json"))
	var m map[string]struct{ Level string }
	_ = json.Unmarshal(b, &m)
	for _, k := range []string{id, "default"} {
		if m[k].Level != "" {
			return m[k].Level
		}
	}
	return "exploration"
}

func uniq(s []string) []string {
	var o []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			o = append(o, x)
		}
	}
	return o
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

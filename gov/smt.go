package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// the prelude: sorts, datatypes and axioms about the built-in functions

const preludeTypes = `(declare-sort Str 0)
(declare-sort F64 0)
(declare-datatypes ((Slice 0)) (((mkslice (sarr Int) (soff Int) (slen_ Int) (scap Int)))))
(declare-datatypes ((Any 0)) (((nilAny) (strAny (anyStr Str)) (intAny (anyIntTag Int) (anyInt Int)) (fltAny (anyFlt F64)) (boolAny (anyBool Bool)) (refAny (anyRefTag Int) (anyRef Int)) (sliceAny (anySliceTag Int) (anySlice Slice)) (otherAny (anyOtherTag Int) (anyOther Int)))))
`

type axiom struct {
	needs []string // included when all of these functions are used
	text  string
	adds  []string // functions the axiom uses besides
}

var preludeAxioms = []axiom{
	{[]string{"birth"}, "(forall ((r Int)) (! (=> (<= 0 r) (= (birth r) r)) :pattern ((birth r))))", nil},
	{[]string{"subref"}, "(forall ((r Int) (i Int)) (! (and (< (subref r i) 0) (= (birth (subref r i)) (birth r)) (= (subof (subref r i)) r) (= (subidx (subref r i)) i)) :pattern ((subref r i))))", []string{"birth", "subof", "subidx"}},
	{[]string{"slen"}, "(forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s))))", nil},
	{[]string{"sat"}, "(forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i))))", nil},
	{[]string{"sbytes"}, "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (sbytes s) i) (sat s i))) :pattern ((select (sbytes s) i))))", []string{"slen", "sat"}},
	{[]string{"mkstr"}, "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (mkstr a o n)) n)) :pattern ((mkstr a o n))))", []string{"slen"}},
	{[]string{"mkstr"}, "(forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (mkstr a o n) i) (select a (+ o i)))) :pattern ((sat (mkstr a o n) i))))", []string{"slen", "sat"}},
	{[]string{"mkstr", "sbytes"}, "(forall ((s Str)) (! (= (mkstr (sbytes s) 0 (slen s)) s) :pattern ((sbytes s))))", []string{"slen"}},
	{[]string{"scat"}, "(forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b))))", []string{"slen"}},
	{[]string{"scat"}, "(forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i))))", []string{"slen", "sat"}},
	{[]string{"ssub"}, "(forall ((s Str) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (slen s))) (= (slen (ssub s o n)) n)) :pattern ((ssub s o n))))", []string{"slen"}},
	{[]string{"ssub"}, "(forall ((s Str) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 o) (<= 0 i) (< i n) (<= (+ o n) (slen s))) (= (sat (ssub s o n) i) (sat s (+ o i)))) :pattern ((sat (ssub s o n) i))))", []string{"slen", "sat"}},
	{[]string{"scat"}, "(forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c))))", nil},
	{[]string{"itoa"}, "(forall ((n Int)) (! (and (<= 1 (slen (itoa n))) (= (atoiv (itoa n)) n)) :pattern ((itoa n))))", []string{"slen", "atoiv"}},
	{[]string{"itoa"}, "(forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i (slen (itoa n)))) (and (<= 45 (sat (itoa n) i)) (<= (sat (itoa n) i) 57))) :pattern ((sat (itoa n) i))))", []string{"slen", "sat"}},
	{[]string{"strlt"}, "(forall ((a Str) (b Str)) (! (= (strlt a b) (< (srank a) (srank b))) :pattern ((strlt a b))))", []string{"srank", "strof"}},
	{[]string{"srank"}, "(forall ((a Str)) (! (= (strof (srank a)) a) :pattern ((srank a))))", []string{"strof"}},
	{[]string{"bitand"}, "(forall ((a Int)) (! (= (bitand a 0) 0) :pattern ((bitand a 0))))", nil},
	{[]string{"i2f"}, "(forall ((a Int)) (! (not (fnan (i2f a))) :pattern ((i2f a))))", []string{"fnan"}},
}

type job struct {
	o    *obligation
	text string
}

// script writes the query whose unsatisfiability proves the goal from the facts.
func (v *verifier) script(o *obligation, from *factList, uf bool) string {
	return v.scriptOf(o, from, uf, false)
}

// scriptOf: without what is known about the contents of strings if nostr is set.
func (v *verifier) scriptOf(o *obligation, from *factList, uf, nostr bool) string {
	var extra []*Term
	var facts []*Term
	for l := from; l != nil; l = l.prev {
		if !l.alias {
			facts = append(facts, l.f)
		}
	}
	for i, j := 0, len(facts)-1; i < j; i, j = i+1, j-1 {
		facts[i], facts[j] = facts[j], facts[i]
	}
	all := append(append([]*Term(nil), v.global...), extra...)
	all = append(all, facts...)
	neg := mkNot(o.goal)
	col := newCollector()
	for _, f := range all {
		col.walk(f)
	}
	col.walk(neg)
	// user axioms, by the symbols they talk about
	axs := v.w.axiomTerms(v)
	used := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range axs {
			if used[a.name] || v.noAxiom[a.name] {
				continue
			}
			rel := len(a.fns) == 0
			for f := range a.fns {
				if col.fns[f] {
					rel = true
				}
			}
			if rel && nostr && a.str {
				used[a.name] = true
				continue
			}
			if rel {
				used[a.name] = true
				changed = true
				all = append(all, a.t)
				col.walk(a.t)
			}
		}
	}
	fns := map[string]bool{}
	for f := range col.fns {
		fns[f] = true
	}
	lits, flts := false, false
	for _, c := range col.consts {
		if isStrLit(c) {
			lits = true
		}
		if _, ok := fltVal[c]; ok {
			flts = true
		}
	}
	if lits {
		fns["slen"], fns["sat"], fns["litid"] = true, true, true
	}
	if flts {
		fns["frank"], fns["fnan"] = true, true
	}
	var ax []string
	done := make([]bool, len(preludeAxioms))
	for changed := true; changed; {
		changed = false
		for i, a := range preludeAxioms {
			if done[i] {
				continue
			}
			ok := true
			for _, n := range a.needs {
				if !fns[n] {
					ok = false
				}
			}
			if ok && nostr && strings.Contains(a.text, "Str)") {
				done[i] = true
				continue
			}
			if ok {
				done[i] = true
				changed = true
				ax = append(ax, a.text)
				for _, n := range a.adds {
					fns[n] = true
				}
			}
		}
	}
	var sb strings.Builder
	p := &printer{sb: &sb, names: map[int]string{}, consts: map[int]string{}, uf: uf, sorts: map[string]bool{}}
	for _, f := range sortedKeys(fns) {
		s := funs[f]
		if ctors[f] != "" || selectors[f].ctor != "" || strings.HasPrefix(f, "is-") {
			continue
		}
		var as []string
		for _, a := range s.args {
			as = append(as, p.sort(a))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", quoteSym(f), strings.Join(as, " "), p.sort(s.ret))
	}
	cs := append([]*Term(nil), col.consts...)
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", quoteSym(c.op), p.sort(c.sort))
	}
	for _, a := range ax {
		if uf {
			if strings.Contains(a, "(Array") || strings.Contains(a, "(select ") {
				p.addSort("(Array Int Int)")
			}
			a = strings.ReplaceAll(a, "(Array Int Int)", "|"+mangle("(Array Int Int)")+"|")
			a = strings.ReplaceAll(a, "(select ", "(|select:"+mangle("(Array Int Int)")+"| ")
		}
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	for _, c := range cs {
		if l, ok := litOf[c]; ok {
			q := quoteSym(c.op)
			fmt.Fprintf(&sb, "(assert (and (= (litid %s) %d) (= (slen %s) %d)))\n", q, c.id, q, len(l))
			if len(l) <= 48 && !nostr {
				for i := 0; i < len(l); i++ {
					fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", q, i, l[i])
				}
			}
		}
		if r, ok := fltVal[c]; ok {
			q := quoteSym(c.op)
			fmt.Fprintf(&sb, "(assert (and (not (fnan %s)) (= (frank %s) %s)))\n", q, q, r)
		}
	}
	// a literal is the only string with its content: empty strings are equal
	if e, ok := strLits[""]; ok && col.seen[e.id] && !nostr {
		fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", quoteSym(e.op))
	}
	if col.fns["scat"] && !nostr {
		if e, ok := strLits[""]; ok && col.seen[e.id] {
			q := quoteSym(e.op)
			fmt.Fprintf(&sb, "(assert (forall ((a Str)) (! (and (= (scat a %s) a)) :pattern ((scat a %s)))))\n", q, q)
			fmt.Fprintf(&sb, "(assert (forall ((a Str)) (! (and (= (scat %s a) a)) :pattern ((scat %s a)))))\n", q, q)
		}
		// literals that are the concatenation of others
		have := map[string]*Term{}
		for _, c := range cs {
			if l, ok := litOf[c]; ok && l != "" {
				have[l] = c
			}
		}
		for _, c := range cs {
			l := litOf[c]
			for i := 1; i < len(l) && i < 16; i++ {
				a, b := have[l[:i]], have[l[i:]]
				if a != nil && b != nil {
					qa, qb, q := quoteSym(a.op), quoteSym(b.op), quoteSym(c.op)
					fmt.Fprintf(&sb, "(assert (= (scat %s %s) %s))\n", qa, qb, q)
					fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (= (scat %s (scat %s s)) (scat %s s)) :pattern ((scat %s (scat %s s))))))\n", qa, qb, q, qa, qb)
				}
			}
		}
	}
	// shared closed terms get a name
	n := 0
	for _, t := range col.order {
		if col.refs[t.id] > 1 && !t.bound && (t.kind == 'a' && len(t.args) > 0 || t.kind == 'q') && t.size > 3 {
			n++
			nm := fmt.Sprintf("$t%d", n)
			if t.op == "store" {
				// a constant, so that the solvers see the term also when only quantified facts mention it
				sb.WriteString("(declare-fun " + nm + " () " + p.sort(t.sort) + ")\n(assert (= " + nm + " ")
				p.body(t)
				sb.WriteString("))\n")
				p.consts[t.id] = nm
			} else {
				sb.WriteString("(define-fun " + nm + " () " + p.sort(t.sort) + " ")
				p.body(t)
				sb.WriteString(")\n")
			}
			p.names[t.id] = nm
		}
	}
	for _, f := range all {
		sb.WriteString("(assert ")
		p.term(f)
		sb.WriteString(")\n")
	}
	sb.WriteString("(assert ")
	p.term(neg)
	sb.WriteString(")\n(check-sat)\n")
	if !uf {
		return preludeTypes + sb.String()
	}
	var hd strings.Builder
	var ss []string
	for s := range p.sorts {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return len(ss[i]) < len(ss[j]) || len(ss[i]) == len(ss[j]) && ss[i] < ss[j] })
	for _, s := range ss {
		k, e := splitArr(s)
		k, e = p.sort(k), p.sort(e)
		m := mangle(s)
		fmt.Fprintf(&hd, "(declare-sort |%s| 0)\n(declare-fun |select:%s| (|%s| %s) %s)\n(declare-fun |store:%s| (|%s| %s %s) |%s|)\n(declare-fun |const:%s| (%s) |%s|)\n",
			m, m, m, k, e, m, m, k, e, m, m, e, m)
		fmt.Fprintf(&hd, "(assert (forall ((m |%s|) (k %s) (v %s)) (! (= (|select:%s| (|store:%s| m k v) k) v) :pattern ((|store:%s| m k v)))))\n", m, k, e, m, m, m)
		fmt.Fprintf(&hd, "(assert (forall ((m |%s|) (k %s) (v %s) (j %s)) (! (or (= j k) (= (|select:%s| (|store:%s| m k v) j) (|select:%s| m j))) :pattern ((|select:%s| (|store:%s| m k v) j)))))\n", m, k, e, k, m, m, m, m, m)
		fmt.Fprintf(&hd, "(assert (forall ((v %s) (j %s)) (! (= (|select:%s| (|const:%s| v) j) v) :pattern ((|select:%s| (|const:%s| v) j)))))\n", e, k, m, m, m, m)
	}
	return preludeTypes + hd.String() + sb.String()
}

var solvers = []struct {
	name string
	cmd  []string
	opts string
	uf   bool
}{
	{"z3-new", []string{"z3-new", "-in", "-memory:2000"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", true},
	{"z3-arrays", []string{"z3-new", "-in", "-memory:2000"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", false},
	{"z3", []string{"z3", "-in", "-memory:2000"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", true},
	{"cvc5", []string{"cvc5", "--lang", "smt2", "--incremental", "-q"}, "(set-logic ALL)\n", false},
	{"z3-seed", []string{"z3-new", "-in", "-memory:2000"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 6)\n(set-option :smt.random_seed 7)\n", true},
	{"z3-up", []string{"z3-new", "-in", "-memory:2000"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", true},
	{"z3-mbqi", []string{"z3-new", "-in", "-memory:2000"}, "", true},
}

// The rule for reading another element after a store, used also when the element is read before it.
var upward = regexp.MustCompile(`:pattern \(\((\|select:[^|]*\|) \((\|store:[^|]*\|) m k v\) j\)\)`)

func runSolver(ctx context.Context, i int, text string, limit time.Duration) string {
	s := solvers[i]
	c, cancel := context.WithTimeout(ctx, limit+500*time.Millisecond)
	defer cancel()
	args := append([]string(nil), s.cmd[1:]...)
	if strings.HasPrefix(s.name, "z3") {
		args = append(args, fmt.Sprintf("-t:%d", limit.Milliseconds()))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", limit.Milliseconds()))
		text = strings.ReplaceAll(text, "(is-", "((_ is ")
		text = fixIs(text)
	}
	if s.name == "z3-up" {
		text = upward.ReplaceAllString(text, "$0 :pattern (($2 m k v) ($1 m j))")
	}
	cmd := exec.CommandContext(c, s.cmd[0], args...)
	cmd.Stdin = strings.NewReader(s.opts + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "unsat" || l == "sat" || l == "unknown":
			return l
		case strings.Contains(l, "(error"):
			if strings.Contains(l, "timeout") || strings.Contains(l, "memory") || strings.Contains(l, "canceled") {
				return "timeout"
			}
			return "error: " + l
		}
	}
	return "timeout"
}

// fixIs closes the tester of "((_ is X y)" after the rewrite of "(is-X y)".
func fixIs(s string) string {
	var sb strings.Builder
	const k = "((_ is "
	for {
		i := strings.Index(s, k)
		if i < 0 {
			sb.WriteString(s)
			return sb.String()
		}
		j := i + len(k)
		for isIdent(s[j]) {
			j++
		}
		sb.WriteString(s[:j])
		sb.WriteByte(')')
		s = s[j:]
	}
}

// What is tried after the first attempt: each solver on the facts before a group of conditions
// (lean) and with the conditions of the group proved so far (full).
type attempt struct {
	solver int
	facts  string
}

var (
	leanRuns = []attempt{{4, "lean"}, {3, "lean"}, {1, "lean"}, {2, "lean"}, {0, "lean"}, {5, "lean"}, {6, "lean"}}
	fullRuns = []attempt{{0, "full"}, {4, "full"}, {3, "full"}, {1, "full"}, {5, "full"}, {6, "full"}}
)

// pool proves obligations in parallel, up to a number of failures and a time.
type pool struct {
	limit    time.Duration
	deadline time.Time
	maxFail  int32
	failed   atomic.Int32
	wg       sync.WaitGroup
}

var (
	jobSem  = make(chan struct{}, 8)
	procSem = make(chan struct{}, 16)
)

func (p *pool) wait() { p.wg.Wait() }

// discharge proves the obligations and waits.
func (v *verifier) discharge(limit time.Duration, obs []*obligation) {
	p := &pool{limit: limit, deadline: time.Now().Add(time.Hour), maxFail: 1 << 30}
	p.run(v, obs)
	p.wait()
}

func (p *pool) run(v *verifier, obs []*obligation) {
	limit := p.limit
	v.w.axiomTerms(v)
	for _, o := range obs {
		if o.verdict != "" {
			continue
		}
		o := o
		p.wg.Add(1)
		jobSem <- struct{}{}
		go func() {
			defer p.wg.Done()
			defer func() { <-jobSem }()
			if p.failed.Load() >= p.maxFail || time.Now().After(p.deadline) {
				o.verdict, o.detail = "not tried", "other obligations failed or took too long"
				return
			}
			lean := v.script(o, o.lean, true)
			text := lean
			t0 := time.Now()
			first := limit / 3
			if first > 2*time.Second {
				first = 2 * time.Second
			}
			r := ""
			if strings.Contains(lean, "(scat ") {
				r = runSolver(context.Background(), 0, v.scriptOf(o, o.lean, true, true), first)
			}
			if r != "unsat" {
				r = runSolver(context.Background(), 0, lean, first)
			}
			o.backend = solvers[0].name
			if r != "unsat" {
				o.detail = solvers[0].name + ": " + r
				texts := map[string]string{"lean uf": lean, "lean": v.script(o, o.lean, false)}
				runs := leanRuns
				if o.lean != o.facts {
					runs = append(append([]attempt(nil), leanRuns...), fullRuns...)
					text = v.script(o, o.facts, true)
					texts["full uf"], texts["full"] = text, v.script(o, o.facts, false)
				}
				ctx, cancel := context.WithCancel(context.Background())
				type res struct {
					i int
					r string
				}
				ch := make(chan res, len(runs))
				for i, a := range runs {
					k := a.facts
					if solvers[a.solver].uf {
						k += " uf"
					}
					t, alt := texts[k], texts[a.facts+" uf"]
					go func() {
						select {
						case procSem <- struct{}{}:
							defer func() { <-procSem }()
							r := runSolver(ctx, a.solver, t, limit)
							// cvc5 takes constant arrays of literals only
							if strings.HasPrefix(r, "error: ") && t != alt {
								r = runSolver(ctx, a.solver, alt, limit)
							}
							ch <- res{i, r}
						case <-ctx.Done():
							ch <- res{i, "cancelled"}
						}
					}()
				}
				for range runs {
					x := <-ch
					nm := solvers[runs[x.i].solver].name
					o.detail += ", " + nm + ": " + x.r
					if x.r == "unsat" {
						r = x.r
						o.backend = nm
						break
					}
				}
				cancel()
			}
			o.ms = float64(time.Since(t0).Microseconds()) / 1000
			if r == "unsat" {
				o.verdict = "proved"
			} else {
				o.verdict = "failed"
				p.failed.Add(1)
			}
			if keepScripts || o.verdict == "failed" {
				o.script = text
			}
		}()
	}
}

var keepScripts bool

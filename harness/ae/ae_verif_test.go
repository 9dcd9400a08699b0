// Concrete search for counterexamples to the event loop properties, exported API only.
// It is laid over /repo/ae with "go test -overlay"; nothing of it is in /repo.
package ae_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
)

type verifReg struct {
	fd    int // index of the socket pair
	dir   ae.TypeFileEvent
	since int // round of the registration
	calls int
	tag   int
	ready int // rounds in a row in which it was registered and ready from start to end
}

type verifTimer struct {
	n        int
	id       int64
	known    bool
	once     bool
	interval int64
	due      int64
	calls    int
	removed  bool
}

type verifPair struct {
	a, b   int
	unread int
	closed bool
	full   bool
}

type verifCase struct {
	r      *rand.Rand
	el     *ae.EventLoop
	pairs  []*verifPair
	regs   map[[2]int]*verifReg
	timers []*verifTimer
	called map[*verifReg]int
	// readiness and registrations at the start of the round
	startReady map[*verifReg]bool
	round      int
	startMs    int64 // the clock when the round that runs began
	start      int64
	tags       int
	hist       []string
	err        error
	last       int
	inHandler  bool
}

func (c *verifCase) note(f string, a ...any) {
	c.hist = append(c.hist, fmt.Sprintf("r%d: ", c.round)+fmt.Sprintf(f, a...))
}

func (c *verifCase) fail(f string, a ...any) {
	if c.err == nil {
		c.err = fmt.Errorf(f, a...)
	}
	c.el.Stop()
}

func verifDir(d ae.TypeFileEvent) string {
	if d == ae.TypeFileEventReadable {
		return "read"
	}
	return "write"
}

// state brings what is known about a pair up to date from the kernel.
func (c *verifCase) isReady(g *verifReg) bool {
	p := c.pairs[g.fd]
	var s syscall.FdSet
	s.Bits[p.a/64] |= 1 << (uint(p.a) % 64)
	tv := syscall.Timeval{}
	var n int
	var err error
	for {
		t := s
		if g.dir == ae.TypeFileEventReadable {
			n, err = syscall.Select(p.a+1, &t, nil, nil, &tv)
		} else {
			n, err = syscall.Select(p.a+1, nil, &t, nil, &tv)
		}
		if err != syscall.EINTR {
			break
		}
	}
	return err == nil && n == 1
}

func (c *verifCase) onFile(fd socket.FD, dir ae.TypeFileEvent, data any) {
	if c.err != nil {
		return
	}
	g, ok := data.(*verifReg)
	if !ok {
		c.fail("a handler got the client data %v of another", data)
		return
	}
	c.note("call %d/%s tag %d", g.fd, verifDir(dir), g.tag)
	if g.dir != dir || int(fd) != c.pairs[g.fd].a {
		c.fail("the handler of %d/%s was called for descriptor %d (want %d), direction %s", g.fd, verifDir(g.dir), fd, c.pairs[g.fd].a, verifDir(dir))
		return
	}
	if c.regs[[2]int{g.fd, int(g.dir)}] != g {
		c.fail("the handler of %d/%s was called while it was not registered", g.fd, verifDir(dir))
		return
	}
	if r, ok := c.startReady[g]; ok && !r && !c.isReady(g) {
		c.fail("the handler of %d/%s was called although it is not ready", g.fd, verifDir(dir))
		return
	}
	c.called[g]++
	g.calls++
	if c.called[g] > 1 {
		c.fail("the handler of %d/%s was called twice in a round", g.fd, verifDir(dir))
		return
	}
	if dir == ae.TypeFileEventReadable && c.r.Intn(3) > 0 {
		var buf [64]byte
		_, _ = syscall.Read(c.pairs[g.fd].a, buf[:1+c.r.Intn(64)])
	}
	for i := c.r.Intn(3); i > 0; i-- {
		c.op()
	}
}

func (c *verifCase) op() {
	k := c.r.Intn(len(c.pairs))
	p := c.pairs[k]
	dir := []ae.TypeFileEvent{ae.TypeFileEventReadable, ae.TypeFileEventWritable}[c.r.Intn(2)]
	key := [2]int{k, int(dir)}
	g := c.regs[key]
	switch c.r.Intn(10) {
	case 0, 1, 2:
		c.tags++
		n := &verifReg{fd: k, dir: dir, since: c.round, tag: c.tags}
		err := c.el.AddFileEvent(socket.FD(p.a), dir, func(el *ae.EventLoop, fd socket.FD, data any) { c.onFile(fd, dir, data) }, n)
		c.note("add %d/%s tag %d: %v", k, verifDir(dir), n.tag, err)
		if g != nil {
			if err == nil {
				c.fail("adding %d/%s a second time succeeded", k, verifDir(dir))
			}
			return
		}
		if err != nil {
			c.fail("adding %d/%s failed: %v", k, verifDir(dir), err)
			return
		}
		c.regs[key] = n
	case 3, 4, 5:
		err := c.el.RemoveFileEvent(socket.FD(p.a), dir)
		c.note("remove %d/%s: %v", k, verifDir(dir), err)
		if (err == nil) != (g != nil) {
			c.fail("removing %d/%s, registered %v: error %v", k, verifDir(dir), g != nil, err)
			return
		}
		delete(c.regs, key)
	case 6:
		_, err := syscall.Write(p.b, make([]byte, 1+c.r.Intn(40)))
		c.note("peer of %d writes: %v", k, err)
	case 7:
		// fill or drain the way out
		if c.r.Intn(2) == 0 {
			n := 0
			for i := 0; i < 4000; i++ {
				m, err := syscall.Write(p.a, make([]byte, 4096))
				if err != nil {
					break
				}
				n += m
			}
			c.note("fill %d: %d bytes", k, n)
		} else {
			n := 0
			b := make([]byte, 1<<16)
			for {
				m, err := syscall.Read(p.b, b)
				if err != nil || m == 0 {
					break
				}
				n += m
			}
			c.note("peer of %d reads %d bytes", k, n)
		}
	case 8:
		if len(c.timers) > 40 {
			return
		}
		t := &verifTimer{n: len(c.timers), once: c.r.Intn(2) == 0, interval: int64(c.r.Intn(15))}
		mask := ae.TypeTimeEventNormal
		if t.once {
			mask = ae.TypeTimeEventOnce
		}
		c.timers = append(c.timers, t)
		t.due = time.Now().UnixMilli() + t.interval
		if err := c.el.AddTimeEvent(mask, t.interval, c.onTime(t), t); err != nil {
			c.fail("adding a timer: %v", err)
			return
		}
		c.note("timer %d once %v every %d", t.n, t.once, t.interval)
	case 9:
		if len(c.timers) == 0 {
			return
		}
		t := c.timers[c.r.Intn(len(c.timers))]
		if !t.known {
			return
		}
		want := !t.removed && !(t.once && t.calls > 0 && !c.running(t))
		err := c.el.RemoveTimeEvent(t.id)
		c.note("remove timer %d: %v", t.n, err)
		if c.running(t) && t.once {
			t.removed = true // either answer: the timer is running for the last time
			return
		}
		if (err == nil) != want {
			c.fail("removing timer %d (once %v, calls %d, removed %v): error %v", t.n, t.once, t.calls, t.removed, err)
			return
		}
		t.removed = true
	}
}

var verifRunning *verifTimer

func (c *verifCase) running(t *verifTimer) bool { return verifRunning == t }

func (c *verifCase) onTime(t *verifTimer) ae.TimeProc {
	return func(el *ae.EventLoop, id int64, data any) {
		if c.err != nil {
			return
		}
		now := time.Now().UnixMilli()
		c.note("timer %d id %d", t.n, id)
		if data != any(t) {
			c.fail("timer %d got other client data", t.n)
			return
		}
		if t.known && t.id != id {
			c.fail("timer %d: identifier %d, it was %d", t.n, id, t.id)
			return
		}
		for _, o := range c.timers {
			if o != t && o.known && o.id == id {
				c.fail("timers %d and %d have the same identifier %d", o.n, t.n, id)
				return
			}
		}
		t.id, t.known = id, true
		if t.removed {
			c.fail("timer %d ran after its removal", t.n)
			return
		}
		if t.once && t.calls > 0 {
			c.fail("one-shot timer %d ran again", t.n)
			return
		}
		if now < t.due {
			c.fail("timer %d ran %d ms early", t.n, t.due-now)
			return
		}
		t.calls++
		t.due = now + t.interval
		verifRunning = t
		for i := c.r.Intn(3); i > 0; i-- {
			c.op()
		}
		if c.r.Intn(12) == 0 {
			err := c.el.RemoveTimeEvent(id)
			c.note("timer %d removes itself: %v", t.n, err)
			t.removed = true
		}
		verifRunning = nil
	}
}

func (c *verifCase) beforeSleep(maxRounds int) func(*ae.EventLoop) {
	return func(el *ae.EventLoop) {
		if c.err != nil {
			el.Stop()
			return
		}
		// the round that ended
		for g, ready := range c.startReady {
			if c.regs[[2]int{g.fd, int(g.dir)}] != g {
				continue
			}
			if ready && c.called[g] == 0 && c.isReady(g) {
				g.ready++
				if g.ready > 3 {
					c.fail("the handler of %d/%s was ready and registered for %d rounds and not called", g.fd, verifDir(g.dir), g.ready)
					return
				}
			} else {
				g.ready = 0
			}
		}
		if c.round >= maxRounds {
			el.Stop()
			c.called, c.startReady = map[*verifReg]int{}, nil
			// whatever is registered is left; timers must have run
			for _, t := range c.timers {
				if late := c.startMs - t.due; late > 50 && !t.removed && !(t.once && t.calls > 0) {
					c.fail("timer %d is %d ms late", t.n, late)
				}
			}
			return
		}
		c.round++
		c.startMs = time.Now().UnixMilli()
		for i := c.r.Intn(4); i > 0; i-- {
			c.op()
		}
		c.called = map[*verifReg]int{}
		c.startReady = map[*verifReg]bool{}
		for _, g := range c.regs {
			c.startReady[g] = c.isReady(g)
		}
	}
}

func verifRun(seed int64) (*verifCase, error) {
	c := &verifCase{r: rand.New(rand.NewSource(seed)), regs: map[[2]int]*verifReg{}}
	el, err := ae.NewEventLoop()
	if err != nil {
		return c, err
	}
	c.el = el
	for i := 0; i < 1+c.r.Intn(4); i++ {
		p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
		if err != nil {
			return c, err
		}
		defer syscall.Close(p[0])
		defer syscall.Close(p[1])
		c.pairs = append(c.pairs, &verifPair{a: p[0], b: p[1]})
	}
	// so that no round waits long
	c.start = time.Now().UnixMilli()
	ticks := 0
	if err := el.AddTimeEvent(ae.TypeTimeEventNormal, 1, func(*ae.EventLoop, int64, any) { ticks++ }, nil); err != nil {
		return c, err
	}
	el.SetBeforeSleepProc(c.beforeSleep(30 + c.r.Intn(60)))
	done := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Errorf("panic: %v", p)
			}
		}()
		done <- el.Main()
	}()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		return c, fmt.Errorf("the event loop does not go on (round %d)", c.round)
	}
	if c.err == nil {
		c.err = err
	}
	if c.err == nil && ticks == 0 && c.startMs > c.start+20 {
		c.err = fmt.Errorf("a repeating timer of 1 ms never ran in %d rounds", c.round)
	}
	return c, c.err
}

// timers alone, with an otherwise idle loop: they must run, in time
func verifIdle(seed int64) error {
	r := rand.New(rand.NewSource(seed))
	el, err := ae.NewEventLoop()
	if err != nil {
		return err
	}
	start := time.Now()
	var runs []time.Duration
	iv := int64(20 + r.Intn(60))
	var one, tooMany int
	_ = el.AddTimeEvent(ae.TypeTimeEventOnce, int64(r.Intn(100)), func(*ae.EventLoop, int64, any) { one++ }, nil)
	_ = el.AddTimeEvent(ae.TypeTimeEventNormal, iv, func(el *ae.EventLoop, id int64, _ any) {
		runs = append(runs, time.Since(start))
		if len(runs) == 4 {
			if err := el.RemoveTimeEvent(id); err != nil {
				tooMany = -1
			}
		}
		if len(runs) > 4 {
			tooMany++
		}
	}, nil)
	_ = el.AddTimeEvent(ae.TypeTimeEventOnce, iv*8, func(el *ae.EventLoop, _ int64, _ any) { el.Stop() }, nil)
	done := make(chan error, 1)
	go func() { done <- el.Main() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		return fmt.Errorf("timers with intervals up to %d ms do not run", iv*8)
	}
	if tooMany != 0 {
		return fmt.Errorf("a removed timer ran, or could not be removed (%d)", tooMany)
	}
	if one != 1 {
		return fmt.Errorf("a one-shot timer ran %d times", one)
	}
	for i := range runs {
		if i == 0 && runs[0] < time.Duration(iv-1)*time.Millisecond || i > 0 && runs[i]-runs[i-1] < time.Duration(iv-1)*time.Millisecond {
			return fmt.Errorf("a timer of %d ms ran at %v", iv, runs)
		}
	}
	return nil
}

func TestVerifC19Loop(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 3000
	}
	if in := os.Getenv("VERIF_REPLAY_IN"); in != "" {
		b, _ := os.ReadFile(in)
		var f struct {
			Seed int64  `json:"case_seed"`
			Test string `json:"test"`
		}
		if json.Unmarshal(b, &f) != nil || f.Test != t.Name() {
			t.Skip()
		}
		for i := 0; i < 5; i++ {
			if _, err := verifRun(f.Seed); err != nil {
				t.Fatalf("reproduced: %v", err)
			}
		}
		return
	}
	rule := "random additions and removals of both directions of 1 to 4 socket pairs and of one-shot and repeating timers, from handlers, from timers and between rounds; every call checked against the registrations and the readiness of the descriptor"
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n, nt := 0, 0
	var sample []string
	for n < 25 || time.Now().Before(deadline) {
		cs := seed*1000003 + int64(n)
		c, err := verifRun(cs)
		if err == nil && n%20 == 7 {
			err = verifIdle(cs)
		}
		n++
		if len(c.hist) > 10 {
			nt++
			if sample == nil {
				sample = c.hist[:10]
			}
		}
		if err != nil {
			h := c.hist
			if len(h) > 200 {
				h = h[len(h)-200:]
			}
			f := map[string]any{"test": t.Name(), "case_seed": cs, "message": err.Error(), "history": h}
			b, _ := json.MarshalIndent(f, "", " ")
			if out := os.Getenv("VERIF_REPLAY_OUT"); out != "" {
				_ = os.WriteFile(out, b, 0o644)
			}
			t.Fatalf("VERIF-FAIL %s\n%s", err, strings.Join(h, "\n"))
		}
	}
	b, _ := json.Marshal(map[string]any{"evaluations": n, "distinct_nontrivial": nt, "sample": sample, "rule": rule})
	if out := os.Getenv("VERIF_STATS_OUT"); out != "" {
		_ = os.WriteFile(out+"."+t.Name(), b, 0o644)
	}
}

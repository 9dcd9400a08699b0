package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// session runs generated commands on one connection against the reference.
type session struct {
	s    *server
	c    *conn
	mc   mclient
	m    *model
	hist []string
}

func newSession(s *server, m *model) (*session, error) {
	c, err := s.dial()
	if err != nil {
		return nil, srvErr(s, err, nil)
	}
	return &session{s: s, c: c, m: m}, nil
}

// srvErr decides what an I/O error means: a dead server is a failure of the server.
func srvErr(s *server, err error, hist []string) error {
	time.Sleep(30 * time.Millisecond)
	if e := s.alive(); e != nil {
		return fail(lastN(hist, 60), "%v", e)
	}
	return fail(lastN(hist, 60), "no proper reply: %v", err)
}

func lastN(h []string, n int) []string {
	if len(h) > n {
		return append([]string{fmt.Sprintf("... %d commands before", len(h)-n)}, h[len(h)-n:]...)
	}
	return h
}

// step runs one command and checks its reply.
func (x *session) step(args []string) error {
	x.hist = append(x.hist, show(args))
	x.settle(args)
	now := nowMs()
	w, err := x.m.exec(&x.mc, args, now)
	amb := errors.Is(err, errAmbiguous)
	r, e := x.c.do(args...)
	if e != nil {
		return srvErr(x.s, e, x.hist)
	}
	if !amb {
		if e := w.check(r); e != nil {
			return fail(lastN(x.hist, 60), "%s: %v", show(args), e)
		}
	}
	x.m.done(&x.mc, args, r)
	return nil
}

// settle waits while a key of the command is too close to its deadline to predict the outcome.
func (x *session) settle(args []string) {
	if x.mc.db < 0 || x.mc.db >= len(x.m.dbs) {
		return
	}
	d := x.m.dbs[x.mc.db]
	all := strings.EqualFold(args[0], "keys") || strings.EqualFold(args[0], "randomget")
	for {
		now, again := nowMs(), false
		for _, k := range args[1:] {
			again = again || d.expState(k, now) == 0
		}
		if all {
			for k := range d.exp {
				again = again || d.expState(k, now) == 0
			}
		}
		if !again {
			return
		}
		time.Sleep(30 * time.Millisecond)
	}
}

// steps runs commands as one pipeline.
func (x *session) steps(cmds [][]string) error {
	var ws []want
	var okk []bool
	// random commands cannot be predicted inside a pipeline: run the others only
	now := nowMs()
	for _, a := range cmds {
		x.hist = append(x.hist, show(a))
		w, err := x.m.exec(&x.mc, a, now)
		ws = append(ws, w)
		okk = append(okk, err == nil)
	}
	rs, err := x.c.pipeline(cmds)
	if err != nil {
		return srvErr(x.s, err, x.hist)
	}
	for i := range rs {
		if okk[i] {
			if e := ws[i].check(rs[i]); e != nil {
				return fail(lastN(x.hist, 200), "%s: %v", show(cmds[i]), e)
			}
		}
	}
	return nil
}

func checkDump(s *server, m *model, hist []string, what string, dropEmpty bool, slack int64) error {
	g, err := dump(s, len(m.dbs))
	if err != nil {
		return srvErr(s, fmt.Errorf("%s: reading the dataset: %w", what, err), hist)
	}
	if err := diff(g, m, nowMs(), dropEmpty, slack); err != nil {
		return fail(lastN(hist, 80), "%s: %v", what, err)
	}
	return nil
}

func (c *ctx) note(h []string) {
	if len(h) > 1 {
		atomic.AddInt64(&c.nontriv, 1)
	}
	if c.sample.Load() == nil {
		c.sample.Store(append([]string{}, lastN(h, 25)...))
	}
}

// model-based sequences, replies and final dataset
func modelRun(o srvOpts, g genOpts, ndb int, restart bool, length func(r *rand.Rand) int) worker {
	return func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(o)
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(ndb)
		x, err := newSession(s, m)
		if err != nil {
			return err
		}
		defer x.c.close()
		gg := g
		if n%3 == 1 {
			gg.wild = !gg.wild
		}
		for i := length(r); i > 0; i-- {
			if i%50 == 0 && !gg.pop {
				var cs [][]string
				for j := 0; j < 30; j++ {
					cs = append(cs, gg.cmd(r))
				}
				if err := x.steps(cs); err != nil {
					return err
				}
				continue
			}
			if err := x.step(gg.cmd(r)); err != nil {
				return err
			}
		}
		c.note(x.hist)
		return checkDump(s, m, x.hist, "finally", false, 3000)
	}
}

func init() {
	props["C21"] = prop{rule: "random command sequences on one connection against a reference, every reply compared, the dataset compared at the end; non-trivial: more than one command", run: func(c *ctx) error {
		return c.run(8, 24, modelRun(srvOpts{}, genOpts{keys: 4, members: 12, pop: true, expiry: 1, big: true}, 16, false, func(r *rand.Rand) int { return 100 + r.Intn(700) }))
	}}

	props["C09"] = prop{rule: "every command with odd bytes in every argument position, on every kind of value; each must give exactly one well-formed reply, checked by a marker command behind it", run: func(c *ctx) error {
		return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
			s := newServer(srvOpts{})
			defer s.close()
			if err := s.start(); err != nil {
				return fail(nil, "%v", err)
			}
			x, err := newSession(s, newModel(16))
			if err != nil {
				return err
			}
			defer x.c.close()
			g := genOpts{keys: 3, members: 40, wild: true, expiry: 1, big: n%4 == 1}
			var hist []string
			for i := 0; i < 120; i++ {
				var cmds [][]string
				for j := 0; j < 12; j++ {
					a := g.cmd(r)
					if r.Intn(3) == 0 && len(a) > 1 {
						a[1+r.Intn(len(a)-1)] = oddStrings[r.Intn(len(oddStrings))]
					}
					if r.Intn(30) == 0 {
						a[0] = oddStrings[r.Intn(len(oddStrings))]
					}
					if r.Intn(20) == 0 {
						a = []string{"spop", "key1s"}
					}
					cmds = append(cmds, a, []string{"hget", "marker", fmt.Sprint(i, ".", j)}, []string{"ping"})
				}
				for j := 0; j < 12; j++ {
					if cmds[3*j][0] == "select" {
						cmds[3*j] = []string{"ping"}
					}
				}
				pre := []string{"hset", "marker"}
				for j := 0; j < 12; j++ {
					pre = append(pre, fmt.Sprint(i, ".", j), fmt.Sprint("mark", i, ".", j))
				}
				cmds = append([][]string{{"del", "marker"}, pre}, cmds...)
				rs, err := x.c.pipeline(cmds)
				for _, a := range cmds {
					hist = append(hist, show(a))
				}
				if err != nil {
					return srvErr(s, err, hist)
				}
				for j := 0; j < 12; j++ {
					// a generated command may have removed or replaced the marker only if it named it
					mk, pg := rs[2+3*j+1], rs[2+3*j+2]
					if pg.t != '+' || pg.s != "PONG" || !(mk.t == '$' && mk.s == fmt.Sprint("mark", i, ".", j)) {
						return fail(lastN(hist, 45), "the replies do not match the commands: after %s came %v, then %v, then %v", show(cmds[2+3*j]), rs[2+3*j], mk, pg)
					}
				}
			}
			c.note(hist)
			// and against the reference
			return modelRun(srvOpts{}, genOpts{keys: 3, members: 20, wild: true, pop: true, expiry: 1}, 16, false, func(r *rand.Rand) int { return 150 })(c, r, 0)
		})
	}}

	props["C10"] = prop{rule: "random AUTH attempts and commands over several connections, wrong arities and names of every command, with the dataset compared afterwards", run: c10}
	props["C11"] = prop{rule: "several connections with different selections interleaved, the datasets of all databases compared, also after a restart", run: func(c *ctx) error {
		return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
			ndb := []int{16, 1, 3, 20, 200, 16, 2, 300}[n%8]
			dbs := ndb
			if ndb == 16 {
				dbs = 0
			}
			s := newServer(srvOpts{aof: true, dbs: dbs})
			defer s.close()
			if err := s.start(); err != nil {
				return fail(nil, "%v", err)
			}
			m := newModel(ndb)
			var hist []string
			rounds := 3
			if ndb >= 200 {
				rounds = 1
			}
			for round := 0; round < rounds; round++ {
				var xs []*session
				for i := 0; i < 4; i++ {
					x, err := newSession(s, m)
					if err != nil {
						return err
					}
					defer x.c.close()
					xs = append(xs, x)
				}
				g := genOpts{keys: 3, members: 5, sel: ndb, expiry: 1, pop: true}
				for i := 0; i < 150; i++ {
					j := r.Intn(len(xs))
					x := xs[j]
					x.hist = nil
					a := g.cmd(r)
					if r.Intn(4) == 0 {
						a = []string{"select", strconv.Itoa(r.Intn(ndb))}
					}
					hist = append(hist, fmt.Sprintf("conn %d: %s", j, show(a)))
					if err := x.step(a); err != nil {
						if f, ok := err.(*failed); ok {
							f.Case = lastN(hist, 60)
						}
						return err
					}
				}
				if err := checkDump(s, m, hist, "after the commands", false, 3000); err != nil {
					return err
				}
				for _, x := range xs {
					x.c.close()
				}
				s.kill()
				if err := s.start(); err != nil {
					return fail(lastN(hist, 60), "restart: %v", err)
				}
				hist = append(hist, "restart")
				if err := checkDump(s, m, hist, "after a restart", false, 3000); err != nil {
					return err
				}
			}
			c.note(hist)
			return nil
		})
	}}
	props["C13"] = prop{rule: "every command with invalid arguments or on a key of every other type; the dataset and the append only file must stay the same", run: c13}
	props["C08"] = prop{rule: "random bytes, odd arguments in every command on every kind of value, and disconnects; the server must stay up and answer other connections", run: c08}
}

func c10(c *ctx) error {
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		pass := []string{"", "secret", "a b", "x"}[n%4]
		s := newServer(srvOpts{pass: pass})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		var hist []string
		type cl struct {
			x    *session
			auth bool
		}
		var cs []*cl
		dial := func() (*cl, error) {
			x, err := newSession(s, m)
			if err != nil {
				return nil, err
			}
			return &cl{x: x, auth: pass == ""}, nil
		}
		for i := 0; i < 3; i++ {
			k, err := dial()
			if err != nil {
				return err
			}
			cs = append(cs, k)
		}
		defer func() {
			for _, k := range cs {
				k.x.c.close()
			}
		}()
		g := genOpts{keys: 3, members: 5, expiry: 1, pop: true}
		names := cmdNames()
		for i := 0; i < 250; i++ {
			j := r.Intn(3)
			k := cs[j]
			var a []string
			var exp *want
			setExp := func(w want) { exp = &w }
			switch q := r.Intn(12); {
			case q == 0: // AUTH
				p := []string{pass, pass + "x", "", strings.ToUpper(pass) + "Y", "secre", " " + pass}[r.Intn(6)]
				if r.Intn(2) == 0 {
					p = pass
				}
				a = []string{[]string{"auth", "AUTH", "Auth"}[r.Intn(3)], p}
				if p == pass || pass == "" {
					setExp(wOK())
					k.auth = true
				} else {
					setExp(wErr())
					k.auth = false
				}
			case q == 1: // wrong arity
				nm := names[r.Intn(len(names))]
				ar := arity[nm]
				cnt := 0
				if ar > 0 {
					cnt = []int{ar - 1, ar + 1, ar + 2, 1}[r.Intn(4)]
					if cnt == ar {
						cnt++
					}
				} else {
					cnt = 1 + r.Intn(-ar-1)
				}
				if cnt < 1 {
					cnt = ar + 1
				}
				a = []string{nm}
				for len(a) < cnt {
					a = append(a, []string{"key0", "key1s", "1", "0", "key1h", "m1"}[r.Intn(6)])
				}
				setExp(wErr())
			case q == 2: // unknown name
				nm := names[r.Intn(len(names))]
				switch r.Intn(5) {
				case 0:
					nm = nm[:len(nm)-1]
				case 1:
					nm = nm + "x"
				case 2:
					nm = " " + nm
				case 3:
					nm = ""
				case 4:
					nm = nm + "\x00"
				}
				if _, ok := arity[strings.ToLower(nm)]; ok {
					continue
				}
				a = []string{nm, "key0", "1"}
				setExp(wErr())
			case q == 3:
				k.x.c.close()
				nk, err := dial()
				if err != nil {
					return err
				}
				cs[j] = nk
				hist = append(hist, fmt.Sprintf("conn %d: reconnect", j))
				continue
			default:
				a = g.cmd(r)
			}
			hist = append(hist, fmt.Sprintf("conn %d: %s", j, show(a)))
			if exp == nil && !k.auth {
				setExp(wErr())
			}
			if exp != nil {
				rp, err := k.x.c.do(a...)
				if err != nil {
					return srvErr(s, err, hist)
				}
				if e := exp.check(rp); e != nil {
					return fail(lastN(hist, 60), "conn %d (authenticated: %v): %s: %v", j, k.auth, show(a), e)
				}
				continue
			}
			k.x.hist = nil
			if err := k.x.step(a); err != nil {
				if f, ok := err.(*failed); ok {
					f.Case = lastN(hist, 60)
				}
				return err
			}
		}
		c.note(hist)
		return checkDump(s, m, hist, "finally", false, 3000)
	})
}

func populate(x *session, p string) error {
	for _, a := range [][]string{
		{"set", p + "str", "v"}, {"hset", p + "hash", "f", "1", "g", "2"}, {"rpush", p + "list", "a", "b", "c"},
		{"sadd", p + "set", "a", "b", "c"}, {"zadd", p + "zset", "1", "a", "2", "b", "3", "c"},
		{"expire", p + "hash", "100000"}, {"setex", p + "stre", "100000", "w"},
		{"hset", p + "ehash", "f", "1"}, {"hdel", p + "ehash", "f"},
		{"rpush", p + "elist", "1"}, {"lpop", p + "elist"},
		{"sadd", p + "eset", "1"}, {"srem", p + "eset", "1"},
		{"zadd", p + "ezset", "1", "1"}, {"zrem", p + "ezset", "1"}} {
		if err := x.step(a); err != nil {
			return err
		}
	}
	return nil
}

func c13(c *ctx) error {
	keys := []string{"str", "stre", "hash", "list", "set", "zset", "ehash", "elist", "eset", "ezset", "none"}
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{aof: true})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		x, err := newSession(s, m)
		if err != nil {
			return err
		}
		defer x.c.close()
		if err := populate(x, ""); err != nil {
			return err
		}
		if _, err := x.c.do("ping"); err != nil {
			return srvErr(s, err, x.hist)
		}
		time.Sleep(3 * time.Millisecond)
		before, _ := os.ReadFile(s.aofPath())
		names := cmdNames()
		nums := append([]string{"nan", "x", "1e400", "--1"}, oddNumbers...)
		rejected := 0
		for i := 0; i < 500; i++ {
			nm := names[r.Intn(len(names))]
			if nm == "auth" || nm == "bgrewriteaof" || nm == "select" {
				continue
			}
			k := keys[r.Intn(len(keys))]
			var a []string
			switch nm {
			case "expire", "expireat":
				a = []string{nm, k, nums[r.Intn(len(nums))]}
			case "setex":
				a = []string{nm, k, nums[r.Intn(len(nums))], "v"}
			case "zadd":
				a = []string{nm, k, "5", "new", nums[r.Intn(len(nums))], "new2", "1", "a"}
				if r.Intn(4) == 0 {
					a = a[:len(a)-1]
				}
			case "hset":
				a = []string{nm, k, "f", "9", "q", "9"}
				if r.Intn(2) == 0 {
					a = append(a, "odd")
				}
			case "zrange", "zrangebyscore", "zcount", "zremrangebyrank", "zremrangebyscore", "lrange":
				a = []string{nm, k, nums[r.Intn(len(nums))], nums[r.Intn(len(nums))]}
				if nm[0] == 'l' || r.Intn(2) == 0 {
					a[2] = "0"
				}
				if r.Intn(2) == 0 && nm == "zrange" {
					a = append(a, "nope")
				}
			case "lindex":
				a = []string{nm, k, nums[r.Intn(len(nums))]}
			case "sdiff", "sinter", "sunion":
				a = []string{nm, k, keys[r.Intn(len(keys))], keys[r.Intn(len(keys))]}
			case "keys":
				a = []string{nm, []string{"*", "[", "("}[r.Intn(3)]}
			default:
				a = []string{nm, k}
				ar := arity[nm]
				if ar < 0 {
					ar = -ar + r.Intn(2)
				}
				for len(a) < ar {
					a = append(a, []string{"a", "f", "zz"}[r.Intn(3)])
				}
				a = a[:ar]
			}
			if r.Intn(15) == 0 {
				a = a[:1+r.Intn(len(a))]
			}
			// only commands the reference rejects, or that read
			probe := m.clone()
			pc := x.mc
			w, err := probe.exec(&pc, a, nowMs())
			if err != nil || len(probe.log) > 0 {
				continue
			}
			isRead := w.kind != 'e'
			if w.kind == 'o' && nm != "randomget" {
				continue
			}
			x.hist = append(x.hist, show(a))
			rp, err := x.c.do(a...)
			if err != nil {
				return srvErr(s, err, x.hist)
			}
			if e := w.check(rp); e != nil {
				return fail(lastN(x.hist, 60), "%s: %v", show(a), e)
			}
			if !isRead {
				rejected++
			}
			if i%40 == 39 {
				if err := checkDump(s, m, x.hist, "after rejected commands and reads", false, 3000); err != nil {
					return err
				}
			}
		}
		if err := checkDump(s, m, x.hist, "finally", false, 3000); err != nil {
			return err
		}
		if _, err := x.c.do("ping"); err != nil {
			return srvErr(s, err, x.hist)
		}
		time.Sleep(3 * time.Millisecond)
		after, _ := os.ReadFile(s.aofPath())
		if !bytes.Equal(before, after) {
			extra := after
			if len(after) > len(before) {
				extra = after[len(before):]
			}
			return fail(lastN(x.hist, 60), "rejected commands or reads were logged: %.300q", extra)
		}
		if rejected > 0 {
			c.note(x.hist)
		}
		return nil
	})
}

func rssKB(pid int) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	i := bytes.Index(b, []byte("VmHWM:"))
	if i < 0 {
		return 0
	}
	f := strings.Fields(string(b[i:]))
	n, _ := strconv.Atoi(f[1])
	return n
}

func c08(c *ctx) error {
	return c.run(8, 24, func(c *ctx, r *rand.Rand, n int) error {
		o := srvOpts{aof: n%3 == 0}
		if n%7 == 3 {
			o.dbs = 2
		}
		s := newServer(o)
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		probe, err := s.dial()
		if err != nil {
			return srvErr(s, err, nil)
		}
		defer probe.close()
		m := newModel(16)
		x, err := newSession(s, m)
		if err != nil {
			return err
		}
		defer x.c.close()
		if err := populate(x, "key0"); err != nil {
			return err
		}
		g := genOpts{keys: 3, members: 6, wild: true, pop: true, expiry: 2, sel: 4}
		var hist []string
		frag := []string{"*", "$", "\r\n", "\r", "\n", "1", "-1", "0", "*1\r\n", "$4\r\nping\r\n", "*2\r\n$3\r\nget\r\n", "$1\r\nk\r\n", "99999999999", "536870912", "$536870913\r\n", "*1048577\r\n", "*-5\r\n", "$-7\r\n", "*9223372036854775807\r\n", "$9223372036854775807\r\n", "ping\r\n", "+", "-", ":", " ", "\x00", "*3\r\n", "get ", "set a b\r\n", "*1\r\n$0\r\n\r\n", "$0\r\n", "$0\r\n\r\n", "*0\r\n", "+\r\n", " \r\n"}
		keysAll := []string{"key0str", "key0hash", "key0list", "key0set", "key0zset", "key0ehash", "key0elist", "key0eset", "key0ezset", "none"}
		for i := 0; i < 40; i++ {
			cn, err := s.dial()
			if err != nil {
				return srvErr(s, err, hist)
			}
			hist = append(hist, "connect")
			var buf bytes.Buffer
			switch r.Intn(4) {
			case 0: // protocol soup
				for j := 1 + r.Intn(12); j > 0; j-- {
					if r.Intn(5) == 0 {
						buf.WriteString(randBytes(r, r.Intn(30)))
					} else {
						buf.WriteString(frag[r.Intn(len(frag))])
					}
				}
				hist = append(hist, fmt.Sprintf("bytes %q", buf.String()))
			case 1: // a valid request damaged in one place
				b := encode(g.cmd(r))
				if len(b) > 0 {
					switch k := r.Intn(len(b)); r.Intn(3) {
					case 0:
						b[k] = byte(r.Intn(256))
					case 1:
						b = b[:k]
					default:
						b = append(b[:k:k], append([]byte(frag[r.Intn(len(frag))]), b[k:]...)...)
					}
				}
				buf.Write(b)
				if r.Intn(2) == 0 {
					buf.Write(encode(g.cmd(r)))
				}
				hist = append(hist, fmt.Sprintf("bytes %.400q", buf.String()))
			default: // commands with odd arguments
				for j := 1 + r.Intn(25); j > 0; j-- {
					a := g.cmd(r)
					if r.Intn(2) == 0 && len(a) > 1 {
						a[1] = keysAll[r.Intn(len(keysAll))]
					}
					for q := 2; q < len(a); q++ {
						if r.Intn(3) == 0 {
							a[q] = oddNumbers[r.Intn(len(oddNumbers))]
						}
					}
					if r.Intn(60) == 0 {
						a = []string{"bgrewriteaof"}
					}
					if r.Intn(20) == 0 {
						nm := cmdNames()
						a = []string{nm[r.Intn(len(nm))]}
						for q := r.Intn(6); q > 0; q-- {
							a = append(a, oddStrings[r.Intn(len(oddStrings))])
						}
					}
					buf.Write(encode(a))
					hist = append(hist, show(a))
				}
			}
			_ = cn.send(buf.Bytes())
			switch r.Intn(3) {
			case 0:
				cn.close()
				hist = append(hist, "close")
			case 1:
				// read whatever comes, the connection may be closed
				_ = cn.c.SetReadDeadline(time.Now().Add(15 * time.Millisecond))
				b := make([]byte, 4096)
				for {
					if _, err := cn.c.Read(b); err != nil {
						break
					}
				}
				cn.close()
			default:
				if r.Intn(4) > 0 {
					defer cn.close()
				} else {
					cn.close()
				}
			}
			if rp, err := probe.do("ping"); err != nil || rp.s != "PONG" {
				if err == nil {
					err = fmt.Errorf("PING answered %v", rp)
				}
				return srvErr(s, err, hist)
			}
		}
		if k := rssKB(s.cmd.Process.Pid); k > 1500*1024 {
			return fail(lastN(hist, 80), "the server took %d MB of memory", k/1024)
		}
		c.note(hist)
		return nil
	})
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- C07: fragmentation ----

func c07(c *ctx) error {
	return c.run(6, 12, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		// several connections at once, each in its own database, so that slow fragments cost little
		var wg sync.WaitGroup
		errs := make([]error, 12)
		hists := make([][]string, 12)
		for i := range errs {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(i int) {
				defer wg.Done()
				errs[i], hists[i] = fragConn(s, rr, i)
			}(i)
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		c.note(hists[0])
		return nil
	})
}

func fragConn(s *server, r *rand.Rand, id int) (error, []string) {
	x, err := newSession(s, newModel(16))
	if err != nil {
		return err, nil
	}
	defer x.c.close()
	if tc, ok := x.c.c.(*net.TCPConn); ok {
		_ = tc.SetNoDelay(true)
	}
	if err := x.step([]string{"select", strconv.Itoa(id)}); err != nil {
		return err, nil
	}
	g := genOpts{keys: 3, members: 6, expiry: 1, big: r.Intn(3) == 0}
	var stream bytes.Buffer
	var cmds [][]string
	add := func(a []string) { cmds = append(cmds, a) }
	ncmd := 3 + r.Intn(25)
	for i := 0; i < ncmd; i++ {
		switch r.Intn(10) {
		case 0: // inline
			a := [][]string{{"ping"}, {"set", "i" + strconv.Itoa(r.Intn(3)), "v" + strconv.Itoa(i)}, {"get", "i1"}, {"rpush", "il", "x", "y" + strconv.Itoa(i)}, {"set", "ie", ""}, {"get", "ie"}}[r.Intn(6)]
			if r.Intn(6) == 0 {
				stream.WriteByte("+-"[r.Intn(2)])
			}
			stream.WriteString(strings.Join(a, " ") + "\r\n")
			add(a)
		case 1: // bulk string as a command
			stream.WriteString("$4\r\nping\r\n")
			add([]string{"ping"})
		case 2: // nothing
			stream.WriteString([]string{"\r\n", "*0\r\n", "\r\n\r\n", "*-1\r\n"}[r.Intn(4)])
		case 3:
			a := []string{"set", "bin", randBytes(r, r.Intn(60)) + oddStrings[r.Intn(len(oddStrings))]}
			stream.Write(encode(a))
			add(a)
			stream.Write(encode([]string{"get", "bin"}))
			add([]string{"get", "bin"})
		case 4:
			a := []string{"rpush", "crlf", "\r\n", "\r", "\n", "$3\r\n", ""}
			stream.Write(encode(a))
			add(a)
			a = []string{"lrange", "crlf", "0", "-1"}
			stream.Write(encode(a))
			add(a)
			a = []string{"del", "crlf"}
			stream.Write(encode(a))
			add(a)
		default:
			a := g.cmd(r)
			stream.Write(encode(a))
			add(a)
		}
	}
	bad := ""
	if r.Intn(3) == 0 {
		bad = []string{"*abc\r\n", "*2\r\n$3\r\nget\r\n+key\r\n", "*1\r\n$4\r\npingXY\r\n", "*2\r\n$3\r\nget\r\n$-1\r\n", "$-1\r\n", "*1\r\n$x\r\nping\r\n", "*1\r\n$99999999999\r\n", "*9999999999\r\n", "$abc\r\n", "$4\r\npingXY\r\n", "$4\r\npingXY", "$4\r\nping\rX", strings.Repeat("z", 90000)}[r.Intn(13)]
		stream.WriteString(bad)
		// nothing of this may be executed
		stream.Write(encode([]string{"set", "after", "bad"}))
	}
	// reference
	var ws []want
	for _, a := range cmds {
		w, err := x.m.exec(&x.mc, a, nowMs())
		if err != nil {
			return err, nil
		}
		ws = append(ws, w)
	}
	b := stream.Bytes()
	// cut it
	mode := r.Intn(6)
	var cuts []int
	for p := 0; p < len(b); {
		n := 1
		switch mode {
		case 0: // all at once
			n = len(b)
		case 1: // byte by byte where it is affordable
			if len(b) > 900 {
				n = 1 + r.Intn(len(b)/450)
			}
		case 2: // around CR and LF
			j := bytes.IndexAny(b[p:], "\r\n")
			if j < 0 {
				n = len(b) - p
			} else {
				n = j + r.Intn(2)
			}
		case 3:
			n = 1 + r.Intn(40)
		case 4:
			n = 1 + r.Intn(len(b)/3+1)
		case 5:
			n = []int{4096, 4095, 4097, 8192, 1, 2}[r.Intn(6)]
		}
		if len(cuts) > 700 {
			n = len(b)
		}
		if n < 1 {
			n = 1
		}
		if p+n > len(b) {
			n = len(b) - p
		}
		cuts = append(cuts, n)
		p += n
	}
	hist := []string{fmt.Sprintf("%d requests, %d bytes, cut %v, malformed end %.30q", len(cmds), len(b), clip(cuts), bad), fmt.Sprintf("stream %.3000q", b)}
	go func() {
		p := 0
		for _, n := range cuts {
			if x.c.send(b[p:p+n]) != nil {
				return
			}
			p += n
			if n < 5000 && len(cuts) > 1 {
				time.Sleep(400 * time.Microsecond)
			}
		}
	}()
	early := false
	for i := range ws {
		rp, err := x.c.recv()
		if err != nil {
			if bad != "" && !errors.Is(err, errProto) {
				// the connection may end with replies not yet sent
				early = true
				break
			}
			return srvErr(s, fmt.Errorf("reply %d of %d, to %s: %v", i, len(ws), show(cmds[i]), err), hist), hist
		}
		if e := ws[i].check(rp); e != nil {
			return fail(hist, "reply %d of %d, to %s: %v", i, len(ws), show(cmds[i]), e), hist
		}
	}
	if bad != "" {
		// the connection must end without another reply
		_ = x.c.c.SetReadDeadline(time.Now().Add(10 * time.Second))
		var buf [64]byte
		for {
			_, err := x.c.r.Read(buf[:])
			if err == nil {
				if !early {
					return fail(hist, "a malformed request was answered with %q", buf), hist
				}
				continue
			}
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return fail(hist, "the connection stays open after a malformed request"), hist
			}
			break
		}
	} else {
		_ = x.c.c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		var buf [64]byte
		if n, err := x.c.r.Read(buf[:]); err == nil {
			return fail(hist, "more replies than requests: %q", buf[:n]), hist
		}
	}
	// the effects, seen from another connection
	if err := checkOneDB(s, x.m, id, hist); err != nil {
		return err, hist
	}
	return nil, hist
}

func clip(x []int) []int {
	if len(x) > 60 {
		return x[:60]
	}
	return x
}

func checkOneDB(s *server, m *model, id int, hist []string) error {
	g, err := dumpRange(s, id, id+1, len(m.dbs))
	if err != nil {
		return srvErr(s, err, hist)
	}
	a, b := newModel(16), newModel(16)
	a.dbs[id], b.dbs[id] = g.dbs[id], m.dbs[id]
	if err := diff(a, b, nowMs(), false, 3000); err != nil {
		return fail(hist, "effects: %v", err)
	}
	return nil
}

// ---- C12: expiry ----

func c12(c *ctx) error {
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{aof: n%2 == 0})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		x, err := newSession(s, m)
		if err != nil {
			return err
		}
		defer func() { x.c.close() }()
		mk := func(k string) [][]string {
			return [][]string{{"set", k, "v"}, {"hset", k, "f", "1"}, {"rpush", k, "a", "b"}, {"sadd", k, "a", "b"}, {"zadd", k, "1", "a", "2", "b"}}
		}
		probe := func(k string) [][]string {
			return [][]string{{"get", k}, {"ttl", k}, {"hset", k, "n", "1"}, {"hget", k, "f"}, {"hlen", k}, {"hexists", k, "f"}, {"hkeys", k}, {"hdel", k, "f"}, {"lpush", k, "n"}, {"rpush", k, "n"}, {"lpop", k}, {"rpop", k}, {"llen", k}, {"lindex", k, "0"}, {"lrange", k, "0", "-1"}, {"sadd", k, "n"}, {"srem", k, "a"}, {"scard", k}, {"sismember", k, "a"}, {"smembers", k}, {"sunion", k, "other"}, {"sinter", k, "sother"}, {"sdiff", k, "other"}, {"sunion", "sother", k}, {"sinter", "sother", k}, {"sdiff", "sother", k}, {"zadd", k, "9", "n"}, {"zcard", k}, {"zscore", k, "a"}, {"zrange", k, "0", "9"}, {"zrangebyscore", k, "0", "9"}, {"zcount", k, "0", "9"}, {"zrem", k, "a"}, {"zremrangebyrank", k, "0", "0"}, {"zremrangebyscore", k, "0", "1"}, {"expire", k, "1000"}, {"expireat", k, fmt.Sprint(nowMs()/1000 + 5000)}, {"del", k}, {"set", k, "new"}, {"setex", k, "5000", "new"}, {"keys", "*"}, {"keys", k}, {"randomget"}, {"spop", k}}
		}
		if err := x.step([]string{"sadd", "sother", "a", "z"}); err != nil {
			return err
		}
		if n%2 == 1 {
			if err := edge(s, r); err != nil {
				return err
			}
			c.note([]string{"setex", "poll"})
		}
		nk := 60
		if n%4 == 3 {
			nk = 250
		}
		for i := 0; i < nk; i++ {
			k := fmt.Sprintf("k%d", i)
			if err := x.step(mk(k)[r.Intn(5)]); err != nil {
				return err
			}
			var a []string
			switch r.Intn(10) {
			case 0, 1, 2:
				a = []string{"expire", k, "1"}
			case 3:
				a = []string{"setex", k, "1", "soon"}
			case 4:
				a = []string{"expireat", k, fmt.Sprint(nowMs()/1000 + 1)}
			case 5:
				a = []string{"expire", k, []string{"-1", "-100000", "-4611686018427387"}[r.Intn(3)]}
			case 6:
				a = []string{"expireat", k, []string{"0", "1", "-1", "1000000000"}[r.Intn(4)]}
			case 7:
				a = []string{"expire", k, []string{"1000", "4611686018427387", "2000000000"}[r.Intn(3)]}
			case 8:
				a = []string{"setex", k, []string{"-1", "7777"}[r.Intn(2)], "w"}
			}
			if a != nil {
				if err := x.step(a); err != nil {
					return err
				}
			}
			// replace, clear or keep the expiry
			switch r.Intn(8) {
			case 0:
				err = x.step([]string{"set", k, "fresh"})
			case 1:
				err = x.step([]string{"expire", k, []string{"1", "900"}[r.Intn(2)]})
			case 2:
				err = x.step([]string{"del", k})
				if err == nil && r.Intn(2) == 0 {
					err = x.step(mk(k)[r.Intn(5)])
				}
			}
			if err != nil {
				return err
			}
		}
		random := func(cnt int) error {
			for i := 0; i < cnt; i++ {
				k := fmt.Sprintf("k%d", r.Intn(nk))
				p := probe(k)
				if err := x.step(p[r.Intn(len(p))]); err != nil {
					return err
				}
			}
			return nil
		}
		if err := random(40); err != nil {
			return err
		}
		if n%5 == 4 && s.o.aof {
			x.c.close()
			s.kill()
			time.Sleep(time.Duration(r.Intn(900)) * time.Millisecond)
			if err := s.start(); err != nil {
				return fail(lastN(x.hist, 60), "restart: %v", err)
			}
			h := append(x.hist, "kill and restart")
			mc := x.mc
			if x, err = newSession(s, m); err != nil {
				return err
			}
			x.hist, x.mc = h, mc
		}
		// until every short deadline is over
		var last int64
		for _, e := range m.dbs[0].exp {
			if e < nowMs()+5000 && e > last {
				last = e
			}
		}
		for nowMs() < last+slackMs+50 {
			time.Sleep(100 * time.Millisecond)
		}
		if r.Intn(3) > 0 {
			// first access of each key after its deadline
			for _, i := range r.Perm(nk) {
				k := fmt.Sprintf("k%d", i)
				p := probe(k)
				if err := x.step(p[r.Intn(len(p))]); err != nil {
					return err
				}
			}
		}
		if err := random(60); err != nil {
			return err
		}
		if err := checkDump(s, m, x.hist, "after the deadlines", false, 3000); err != nil {
			return err
		}
		if s.o.aof {
			x.c.close()
			s.kill()
			if err := s.start(); err != nil {
				return fail(lastN(x.hist, 60), "restart: %v", err)
			}
			if err := checkDump(s, m, append(x.hist, "kill and restart"), "after a restart", false, 3000); err != nil {
				return err
			}
		}
		c.note(x.hist)
		return nil
	})
}

// edge polls keys around their deadlines, which are known up to the time of the commands that set them.
func edge(s *server, r *rand.Rand) error {
	c, err := s.dial()
	if err != nil {
		return srvErr(s, err, nil)
	}
	defer c.close()
	if _, err := c.do("select", "7"); err != nil {
		return srvErr(s, err, nil)
	}
	type k struct {
		name   string
		lo, hi int64
	}
	var ks []k
	var hist []string
	for i := 0; i < 4; i++ {
		name := fmt.Sprintf("edge%d", i)
		if i%2 == 1 {
			if _, err := c.do("set", name, "v"); err != nil {
				return srvErr(s, err, hist)
			}
		}
		a := []string{"setex", name, "1", "v"}
		if i%2 == 1 {
			a = []string{"expire", name, "1"}
		}
		t0 := nowMs()
		rep, err := c.do(a...)
		if err != nil {
			return srvErr(s, err, hist)
		}
		if rep.t != '+' {
			return fail(hist, "%s: %v", show(a), rep)
		}
		hist = append(hist, fmt.Sprintf("%s (at %d)", show(a), t0))
		ks = append(ks, k{name, t0 + 1000, nowMs() + 1000})
		time.Sleep(time.Duration(50+r.Intn(200)) * time.Millisecond)
	}
	for nowMs() < ks[len(ks)-1].hi+60 {
		for _, x := range ks {
			t0 := nowMs()
			rep, err := c.do("get", x.name)
			t1 := nowMs()
			if err != nil {
				return srvErr(s, err, hist)
			}
			if there := rep.s == "v"; !there && t1 < x.lo || there && t0 > x.hi+1 {
				return fail(append(hist, fmt.Sprintf("get %s (from %d to %d)", x.name, t0, t1)), "get %s gives %v although the key expires between %d and %d", x.name, rep, x.lo, x.hi)
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return nil
}

// ---- C14: what is logged ----

// withDB drops the SELECT entries and puts the database in front of every other entry.
func withDB(log [][]string) [][]string {
	db := "0"
	var out [][]string
	for _, e := range log {
		if len(e) == 2 && strings.EqualFold(e[0], "select") {
			db = e[1]
			continue
		}
		out = append(out, append([]string{"db" + db}, e...))
	}
	return out
}

func matchLog(got, exp [][]string, now int64) error {
	got, exp = withDB(got), withDB(exp)
	for i := 0; i < len(got) || i < len(exp); i++ {
		if i >= len(got) {
			return fmt.Errorf("entry %d is missing: %s", i, show(exp[i]))
		}
		if i >= len(exp) {
			return fmt.Errorf("entry %d should not be there: %s", i, show(got[i]))
		}
		g, e := got[i], exp[i]
		ok := len(g) == len(e) && len(g) > 1 && g[0] == e[0] && strings.EqualFold(g[1], e[1])
		for j := 2; ok && j < len(e); j++ {
			if g[j] == e[j] {
				continue
			}
			ok = false
			if e[1] == "expireat" && j == 3 && strings.HasPrefix(e[3], "+") {
				a, err1 := strconv.ParseInt(g[3], 10, 64)
				rel, err2 := strconv.ParseInt(e[3][1:], 10, 64)
				d := a - (now/1000 + rel)
				ok = err1 == nil && err2 == nil && d <= 1 && d >= -120
			}
		}
		if !ok {
			return fmt.Errorf("entry %d is %s, want %s", i, show(g), show(e))
		}
	}
	return nil
}

func c14(c *ctx) error {
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{aof: true, fsync: []string{"no", "everysec", "always"}[n%3]})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		var hist []string
		var xs []*session
		for i := 0; i < 3; i++ {
			x, err := newSession(s, m)
			if err != nil {
				return err
			}
			defer x.c.close()
			xs = append(xs, x)
		}
		g := genOpts{keys: 3, members: 8, sel: 4, expiry: 1, pop: true, wild: n%2 == 1, big: true}
		done := 0
		for i := 0; i < 120+r.Intn(300); i++ {
			x := xs[r.Intn(len(xs))]
			x.hist = nil
			a := g.cmd(r)
			if r.Intn(40) == 0 {
				// a key that has expired is deleted by the next access
				k := fmt.Sprintf("dead%d", i)
				for _, b := range [][]string{{"set", k, "v"}, {"expire", k, "-100"}} {
					if err := x.step(b); err != nil {
						return err
					}
				}
				hist = append(hist, "set and expire -100 of "+k)
				// by the access or by the periodic job
				m.record(x.mc.db, "del", k)
				rp, err := x.c.do("get", k)
				if err != nil {
					return srvErr(s, err, hist)
				}
				if rp.t != 'N' {
					return fail(lastN(hist, 40), "get of an expired key: %v", rp)
				}
				delete(m.dbs[x.mc.db].m, k)
				delete(m.dbs[x.mc.db].exp, k)
				continue
			}
			hist = append(hist, show(a))
			if err := x.step(a); err != nil {
				if f, ok := err.(*failed); ok {
					f.Case = lastN(hist, 60)
				}
				return err
			}
			done++
		}
		// everything before a later answered command is in the file
		if _, err := xs[0].c.do("ping"); err != nil {
			return srvErr(s, err, hist)
		}
		time.Sleep(2 * time.Millisecond)
		b, err := os.ReadFile(s.aofPath())
		if err != nil {
			return fail(nil, "%v", err)
		}
		got, err := parseAOF(b)
		if err != nil {
			return fail(lastN(hist, 80), "%v", err)
		}
		if err := matchLog(got, m.log, nowMs()); err != nil {
			return fail(lastN(hist, 80), "the append only file: %v", err)
		}
		s.kill()
		if err := s.start(); err != nil {
			return fail(lastN(hist, 60), "restart: %v", err)
		}
		c.note(hist)
		return checkDump(s, m, append(hist, "kill and restart"), "after a restart", false, 3000)
	})
}

// ---- C15: load ----

func c15(c *ctx) error {
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{aof: true})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		var hist []string
		for round := 0; round < 3; round++ {
			x, err := newSession(s, m)
			if err != nil {
				return err
			}
			x.hist = hist
			g := genOpts{keys: 4, members: 30, sel: 5, expiry: 1, pop: true, big: true, wild: n%2 == 0}
			for i := 0; i < 60+r.Intn(150); i++ {
				if r.Intn(25) == 0 {
					// place an argument at a boundary of the read buffer
					fi, _ := os.Stat(s.aofPath())
					pos := 0
					if fi != nil {
						pos = int(fi.Size() % 65536)
					}
					k := fmt.Sprintf("pad%d", r.Intn(3))
					l := 65536 - pos - 40 + r.Intn(20)
					if l < 0 {
						l += 65536
					}
					if err := x.step([]string{"set", k, randBytes(r, l)}); err != nil {
						return err
					}
				}
				if err := x.step(g.cmd(r)); err != nil {
					return err
				}
			}
			var last int64
			if round == 0 && n%2 == 1 {
				// keys that expire while the server is down
				for i := 0; i < 6; i++ {
					k := fmt.Sprintf("short%d", i)
					a := [][]string{{"setex", k, "1", "v"}, {"rpush", k, "a"}, {"set", k, "v"}}[i%3]
					if err := x.step(a); err != nil {
						return err
					}
					if i%3 > 0 {
						if err := x.step([]string{"expire", k, "1"}); err != nil {
							return err
						}
					}
				}
				last = nowMs() + 1000
			}
			if _, err := x.c.do("ping"); err != nil {
				return srvErr(s, err, x.hist)
			}
			hist = x.hist
			x.c.close()
			if last > 0 {
				s.kill()
				for nowMs() < last+slackMs+50 {
					time.Sleep(50 * time.Millisecond)
				}
				if err := s.start(); err != nil {
					return fail(lastN(hist, 60), "restart: %v", err)
				}
				hist = append(hist, "kill, restart after the deadlines")
				if err := checkDump(s, m, hist, "after a restart", false, 3000); err != nil {
					return err
				}
			}
			for again := 0; again < 2; again++ {
				s.kill()
				b1, _ := os.ReadFile(s.aofPath())
				if err := s.start(); err != nil {
					return fail(lastN(hist, 60), "restart: %v", err)
				}
				hist = append(hist, "kill and restart")
				time.Sleep(4 * time.Millisecond)
				b2, _ := os.ReadFile(s.aofPath())
				if !bytes.Equal(b1, b2) {
					return fail(lastN(hist, 60), "loading changed the append only file from %d to %d bytes", len(b1), len(b2))
				}
				if err := checkDump(s, m, hist, "after a restart", false, 3000); err != nil {
					return err
				}
			}
		}
		c.note(hist)
		return nil
	})
}

// ---- C16, C17: rewrite ----

func inode(p string) uint64 {
	fi, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return fi.Sys().(*syscall.Stat_t).Ino
}

// waitRewrite waits until the file has been replaced and the temporary file is gone. After two
// rewrites the file can have its old inode number again: quiet says that a while without a
// temporary file is enough.
func waitRewrite(s *server, old uint64, hist []string, quiet bool) error {
	deadline := time.Now().Add(30 * time.Second)
	none := time.Now()
	for time.Now().Before(deadline) {
		if t, _ := filepath.Glob(filepath.Join(s.dir, "temp-rewriteaof-*")); len(t) > 0 {
			none = time.Now()
		}
		if quiet && time.Since(none) > 1200*time.Millisecond {
			return nil
		}
		if err := s.alive(); err != nil {
			return fail(lastN(hist, 60), "during a rewrite: %v", err)
		}
		if i := inode(s.aofPath()); i != 0 && i != old {
			t, _ := filepath.Glob(filepath.Join(s.dir, "temp-rewriteaof-*"))
			if len(t) == 0 {
				time.Sleep(3 * time.Millisecond)
				return nil
			}
		}
		time.Sleep(time.Millisecond)
	}
	return fail(lastN(hist, 60), "the rewrite did not end")
}

func bigValues(r *rand.Rand, x *session) error {
	sizes := []int{1, 2, 63, 64, 65, 127, 128, 129, 192, 200, 1023, 1024, 1025, 2100}
	var cmds [][]string
	for q := 0; q < 5; q++ {
		n := sizes[r.Intn(len(sizes))]
		k := fmt.Sprintf("big%d", q)
		cmds = append(cmds, []string{"del", k})
		var a []string
		kind := r.Intn(4)
		for i := 0; i < n; i++ {
			v := fmt.Sprintf("%d", i)
			if r.Intn(20) == 0 {
				v = randBytes(r, r.Intn(30)) + strconv.Itoa(i)
			}
			switch kind {
			case 0:
				if a == nil {
					a = []string{[]string{"rpush", "lpush"}[r.Intn(2)], k}
				}
				a = append(a, v)
			case 1:
				if a == nil {
					a = []string{"hset", k}
				}
				a = append(a, v, "val"+v)
			case 2:
				if a == nil {
					a = []string{"sadd", k}
				}
				a = append(a, v)
			default:
				if a == nil {
					a = []string{"zadd", k}
				}
				a = append(a, fstr(float64(r.Intn(50))/8), v)
			}
		}
		cmds = append(cmds, a)
	}
	return x.steps(cmds)
}

func c16(c *ctx) error {
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		// without the append only file a rewrite can still be asked for
		s := newServer(srvOpts{aof: n%4 != 3})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		x, err := newSession(s, m)
		if err != nil {
			return err
		}
		g := genOpts{keys: 5, members: 30, sel: 6, expiry: 1, pop: true, big: true, wild: n%2 == 0}
		for round := 0; round < 2; round++ {
			for i := 0; i < 150+r.Intn(200); i++ {
				if err := x.step(g.cmd(r)); err != nil {
					return err
				}
			}
			if err := bigValues(r, x); err != nil {
				return err
			}
			old := inode(s.aofPath())
			rp, err := x.c.do("bgrewriteaof")
			if err != nil {
				return srvErr(s, err, x.hist)
			}
			if rp.t != '+' {
				return fail(lastN(x.hist, 40), "bgrewriteaof: %v", rp)
			}
			x.hist = append(x.hist, "bgrewriteaof")
			if err := waitRewrite(s, old, x.hist, false); err != nil {
				return err
			}
			if err := checkDump(s, m, x.hist, "live, after the rewrite", false, 3000); err != nil {
				return err
			}
			b, _ := os.ReadFile(s.aofPath())
			if _, err := parseAOF(b); err != nil {
				return fail(lastN(x.hist, 40), "rewritten file: %v", err)
			}
			x.c.close()
			s.kill()
			s.o.aof = true
			if err := s.start(); err != nil {
				return fail(lastN(x.hist, 60), "restart: %v", err)
			}
			h := append(x.hist, "kill and restart")
			if err := checkDump(s, m, h, "after the rewrite and a restart", false, 3000); err != nil {
				return err
			}
			mc := x.mc
			if x, err = newSession(s, m); err != nil {
				return err
			}
			x.hist = h
			mc.db = 0
			x.mc = mc
		}
		x.c.close()
		c.note(x.hist)
		return nil
	})
}

func c17(c *ctx) error {
	return c.run(8, 16, func(c *ctx, r *rand.Rand, n int) error {
		auto := n%5 == 4
		o := srvOpts{aof: true, fsync: []string{"no", "everysec", "always"}[n%3]}
		if auto {
			o.pct, o.minSize = 50, "20kb"
		}
		s := newServer(o)
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		x, err := newSession(s, m)
		if err != nil {
			return err
		}
		y, err := newSession(s, m)
		if err != nil {
			return err
		}
		defer func() { x.c.close(); y.c.close() }()
		// enough data that the background work takes a while
		var cmds [][]string
		nbig := []int{0, 300, 3000, 12000}[r.Intn(4)]
		for i := 0; i < nbig; i++ {
			switch i % 4 {
			case 0:
				cmds = append(cmds, []string{"set", fmt.Sprintf("fill%d", i), "v"})
			case 1:
				cmds = append(cmds, []string{"rpush", "filllist", fmt.Sprintf("e%d", i)})
			case 2:
				cmds = append(cmds, []string{"zadd", "fillzset", strconv.Itoa(i % 100), fmt.Sprintf("e%d", i)})
			default:
				cmds = append(cmds, []string{"hset", "fillhash", fmt.Sprintf("f%d", i), "v"})
			}
		}
		if err := x.steps(cmds); err != nil {
			return err
		}
		x.hist = []string{fmt.Sprintf("%d commands to fill", nbig)}
		y.hist = nil
		g := genOpts{keys: 3, members: 8, sel: 4, expiry: 1}
		hist := x.hist
		for round := 0; round < 3; round++ {
			old := inode(s.aofPath())
			if !auto {
				rp, err := x.c.do("bgrewriteaof")
				if err != nil {
					return srvErr(s, err, hist)
				}
				if rp.t != '+' {
					return fail(lastN(hist, 40), "bgrewriteaof: %v", rp)
				}
				hist = append(hist, "bgrewriteaof")
			}
			killEarly := r.Intn(3) == 0
			lim := 20 + r.Intn(200)
			end := time.Now().Add(10 * time.Second)
			for i := 0; time.Now().Before(end); i++ {
				// non-idempotent commands show what is lost or doubled
				var batch [][]string
				for j := 0; j < 1+r.Intn(8); j++ {
					a := g.cmd(r)
					if r.Intn(3) == 0 {
						a = []string{"rpush", "ctr", strconv.Itoa(r.Intn(10)), fmt.Sprint(round, ".", i)}
					}
					if r.Intn(12) == 0 {
						a = []string{"rpush", "filllist", "more"}
					}
					batch = append(batch, a)
				}
				z := x
				if r.Intn(2) == 0 {
					z = y
				}
				z.hist = nil
				for _, a := range batch {
					hist = append(hist, show(a))
				}
				if err := z.steps(batch); err != nil {
					if f, ok := err.(*failed); ok {
						f.Case = lastN(hist, 60)
					}
					return err
				}
				if r.Intn(10) == 0 && !auto {
					rp, err := z.c.do("bgrewriteaof")
					if err != nil || rp.t != '+' {
						return srvErr(s, fmt.Errorf("bgrewriteaof: %v %v", rp, err), hist)
					}
					hist = append(hist, "bgrewriteaof")
				}
				if i >= lim {
					break
				}
				if r.Intn(5) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
			if !killEarly && !auto {
				if err := waitRewrite(s, old, hist, true); err != nil {
					return err
				}
				for i := 0; i < r.Intn(20); i++ {
					a := g.cmd(r)
					hist = append(hist, show(a))
					if err := x.step(a); err != nil {
						return err
					}
				}
			}
			if _, err := x.c.do("ping"); err != nil {
				return srvErr(s, err, hist)
			}
			if _, err := y.c.do("ping"); err != nil {
				return srvErr(s, err, hist)
			}
			if r.Intn(2) == 0 || round == 2 {
				x.c.close()
				y.c.close()
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				s.kill()
				if err := s.start(); err != nil {
					return fail(lastN(hist, 60), "restart: %v", err)
				}
				hist = append(hist, "kill and restart")
				got, err := dump(s, 16)
				if err != nil {
					return srvErr(s, err, hist)
				}
				if err := diff(got, m, nowMs(), false, 3000); err != nil {
					return fail(lastN(hist, 80), "after a restart: %v", err)
				}
				mx, my := x.mc, y.mc
				mx.db, my.db = 0, 0
				if x, err = newSession(s, m); err != nil {
					return err
				}
				if y, err = newSession(s, m); err != nil {
					return err
				}
				x.mc, y.mc = mx, my
			}
			if err := s.alive(); err != nil {
				return fail(lastN(hist, 60), "%v", err)
			}
		}
		c.note(hist)
		return nil
	})
}

// ---- C18: partial writes ----

func c18(c *ctx) error {
	return c.run(4, 8, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		x, err := newSession(s, newModel(16))
		if err != nil {
			return err
		}
		defer x.c.close()
		var vals []string
		for i := 0; i < 6; i++ {
			l := []int{0, 1, 5, 1000, 70000, 400000, 3000000}[r.Intn(7)]
			if i == 0 {
				l = 1500000
			}
			v := make([]byte, l)
			for j := range v {
				v[j] = byte('a' + (j/7+i+j/4099)%26)
			}
			vals = append(vals, string(v))
			if _, err := x.c.do("set", fmt.Sprintf("v%d", i), string(v)); err != nil {
				return srvErr(s, err, nil)
			}
		}
		var la []string
		for i := 0; i < 400; i++ {
			la = append(la, fmt.Sprintf("item-%d-%s", i, strings.Repeat("q", r.Intn(300))))
		}
		if _, err := x.c.do(append([]string{"rpush", "l"}, la...)...); err != nil {
			return srvErr(s, err, nil)
		}
		var wg sync.WaitGroup
		errs := make([]error, 3)
		for q := range errs {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(q int) {
				defer wg.Done()
				errs[q] = slowReader(s, rr, vals, la, q)
			}(q)
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		c.note([]string{"pipelined GET and LRANGE of values up to 3 MB", "slow readers with small receive buffers", fmt.Sprint(len(vals), " values")})
		return nil
	})
}

func slowReader(s *server, r *rand.Rand, vals, la []string, q int) error {
	d := net.Dialer{Control: func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) {
			if r.Intn(3) > 0 {
				_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, []int{2048, 20000, 200000}[r.Intn(3)])
			}
		})
	}}
	nc, err := d.Dial("tcp", net.JoinHostPort(s.o.bind, fmt.Sprint(s.port)))
	if err != nil {
		return srvErr(s, err, nil)
	}
	defer nc.Close()
	var req, exp bytes.Buffer
	total := 0
	for i := 0; i < 60 && total < 12<<20; i++ {
		k := r.Intn(len(vals) + 3)
		switch {
		case k < len(vals):
			req.Write(encode([]string{"get", fmt.Sprintf("v%d", k)}))
			fmt.Fprintf(&exp, "$%d\r\n%s\r\n", len(vals[k]), vals[k])
		case k == len(vals):
			req.Write(encode([]string{"ping"}))
			exp.WriteString("+PONG\r\n")
		case k == len(vals)+1:
			req.Write(encode([]string{"lrange", "l", "0", "-1"}))
			exp.Write(encode(la))
		default:
			req.Write(encode([]string{"hget", fmt.Sprintf("none%d", q), "x"}))
			exp.WriteString("$-1\r\n")
		}
		total = exp.Len()
	}
	go func() { _, _ = nc.Write(req.Bytes()) }()
	want := exp.Bytes()
	got := 0
	buf := make([]byte, 1<<16)
	pauses := 0
	for got < len(want) {
		n := len(buf)
		if r.Intn(4) == 0 {
			n = 1 + r.Intn(3000)
		}
		if r.Intn(20) == 0 && pauses < 60 {
			pauses++
			time.Sleep(time.Duration(r.Intn(6)) * time.Millisecond)
		}
		_ = nc.SetReadDeadline(time.Now().Add(20 * time.Second))
		k, err := nc.Read(buf[:n])
		if k > 0 {
			if got+k > len(want) || !bytes.Equal(buf[:k], want[got:got+k]) {
				at := got
				for i := 0; i < k && at < len(want) && buf[i] == want[at]; i++ {
					at++
				}
				return fail([]string{fmt.Sprintf("%d bytes of requests pipelined, %d bytes of replies expected", req.Len(), len(want))}, "the reply stream differs at byte %d of %d", at, len(want))
			}
			got += k
		}
		if err != nil {
			if err == io.EOF {
				err = fmt.Errorf("connection closed")
			}
			return srvErr(s, fmt.Errorf("after %d of %d bytes: %v", got, len(want), err), []string{fmt.Sprintf("%d bytes of requests pipelined", req.Len())})
		}
	}
	// the connection goes on
	if _, err := nc.Write(encode([]string{"ping"})); err != nil {
		return srvErr(s, err, nil)
	}
	_ = nc.SetReadDeadline(time.Now().Add(20 * time.Second))
	b := make([]byte, 7)
	if _, err := io.ReadFull(nc, b); err != nil || string(b) != "+PONG\r\n" {
		return fail(nil, "after large replies PING answers %q (%v)", b, err)
	}
	_ = nc.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
	if k, err := nc.Read(buf); err == nil {
		return fail(nil, "surplus bytes %q", buf[:k])
	}
	return nil
}

// ---- C20: listening address ----

func c20(c *ctx) error {
	return c.run(4, 12, func(c *ctx, r *rand.Rand, n int) error {
		addr := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254))
		if n%4 == 0 {
			addr = "0.0.0.0"
		}
		s := newServer(srvOpts{bind: addr})
		defer s.close()
		h := []string{"bind " + addr}
		if err := s.start(); err != nil {
			return fail(h, "%v", err)
		}
		h = append(h, fmt.Sprint("port ", s.port))
		try := func(ip string) bool {
			cn, err := net.DialTimeout("tcp", net.JoinHostPort(ip, fmt.Sprint(s.port)), 3*time.Second)
			if err != nil {
				return false
			}
			cn.Close()
			return true
		}
		for i := 0; i < 5; i++ {
			o := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254))
			if i == 0 {
				o = "127.0.0.1"
			}
			want := addr == "0.0.0.0" || o == addr
			if got := try(o); got != want {
				return fail(h, "a connection to %s: %v, want %v", o, got, want)
			}
		}
		c.note(h)
		return nil
	})
}

// ---- C22: acknowledged changes survive a kill ----

func c22(c *ctx) error {
	return c.run(8, 24, func(c *ctx, r *rand.Rand, n int) error {
		s := newServer(srvOpts{aof: true, fsync: []string{"no", "everysec", "always"}[n%3]})
		defer s.close()
		if err := s.start(); err != nil {
			return fail(nil, "%v", err)
		}
		m := newModel(16)
		var hist []string
		for round := 0; round < 6; round++ {
			x, err := newSession(s, m)
			if err != nil {
				return err
			}
			x.hist = hist
			g := genOpts{keys: 3, members: 6, sel: 3, expiry: 1, pop: true, big: true}
			k := 1 + r.Intn(30)
			for i := 0; i < k; i++ {
				if err := x.step(g.cmd(r)); err != nil {
					return err
				}
			}
			a := [][]string{{"rpush", "last", strconv.Itoa(round)}, {"set", "last2", strconv.Itoa(round)}, {"zadd", "lastz", strconv.Itoa(round), "m"}, {"sadd", "lasts", strconv.Itoa(round)}, {"hset", "lasth", "f", strconv.Itoa(round)}}[r.Intn(5)]
			if err := x.step(a); err != nil {
				return err
			}
			s.kill()
			x.c.close()
			hist = append(x.hist, "kill and restart")
			if err := s.start(); err != nil {
				return fail(lastN(hist, 60), "restart: %v", err)
			}
			if err := checkDump(s, m, hist, "after a kill and a restart", false, 3000); err != nil {
				return err
			}
		}
		c.note(hist)
		return nil
	})
}

func init() {
	props["C07"] = prop{rule: "streams of array, bulk and inline requests cut in six ways (whole, bytes, around CRLF, small, large, buffer sized), every reply and the dataset compared with the reference; a third end malformed", run: c07}
	props["C12"] = prop{rule: "keys of all types with short, past, far and replaced expiries, every command used as the first access after the deadline, with and without restart", run: c12}
	props["C14"] = prop{rule: "random commands over three connections and four databases; the entries of the file compared one by one with the reference", run: c14}
	props["C15"] = prop{rule: "random commands with values around the read buffer size; kill, restart twice, compare dataset and file, three rounds", run: c15}
	props["C16"] = prop{rule: "random datasets with values around chunk and page sizes, rewritten, compared live and after a restart from the rewritten file", run: c16}
	props["C17"] = prop{rule: "non-idempotent commands on two connections during rewrites (asked for or automatic), killed early or after the hand-over, dataset compared after the restart", run: c17}
	props["C18"] = prop{rule: "pipelined requests for replies up to 3 MB, readers with small buffers and pauses, every byte compared", run: c18}
	props["C20"] = prop{rule: "servers bound to random loopback addresses; connections to them and to others", run: c20}
	props["C22"] = prop{rule: "a few commands, the last one acknowledged, then kill -9 at once, restart and compare; six rounds", run: c22}
}

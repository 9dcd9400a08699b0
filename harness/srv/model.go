package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The reference: what each command does to an abstract dataset and what it answers.

type value struct {
	kind byte // s h l e(set) z
	str  string
	hash map[string]string
	list []string
	set  map[string]bool
	zset map[string]float64
}

func (v *value) clone() *value {
	w := &value{kind: v.kind, str: v.str}
	if v.hash != nil {
		w.hash = map[string]string{}
		for a, b := range v.hash {
			w.hash[a] = b
		}
	}
	w.list = append([]string(nil), v.list...)
	if v.set != nil {
		w.set = map[string]bool{}
		for a := range v.set {
			w.set[a] = true
		}
	}
	if v.zset != nil {
		w.zset = map[string]float64{}
		for a, b := range v.zset {
			w.zset[a] = b
		}
	}
	return w
}

func (v *value) empty() bool {
	switch v.kind {
	case 'h':
		return len(v.hash) == 0
	case 'l':
		return len(v.list) == 0
	case 'e':
		return len(v.set) == 0
	case 'z':
		return len(v.zset) == 0
	}
	return false
}

type mdb struct {
	m   map[string]*value
	exp map[string]int64 // deadline in ms
}

type model struct {
	dbs []*mdb
	log [][]string // what the append only file must record
	sel int        // database selected at the end of the log
}

func newModel(n int) *model {
	m := &model{sel: -1}
	for i := 0; i < n; i++ {
		m.dbs = append(m.dbs, &mdb{map[string]*value{}, map[string]int64{}})
	}
	return m
}

func (m *model) clone() *model {
	c := &model{sel: m.sel}
	for _, d := range m.dbs {
		e := &mdb{map[string]*value{}, map[string]int64{}}
		for k, v := range d.m {
			e.m[k] = v.clone()
		}
		for k, v := range d.exp {
			e.exp[k] = v
		}
		c.dbs = append(c.dbs, e)
	}
	return c
}

// want describes the acceptable reply.
type want struct {
	kind byte // '=' exact reply, 'e' any error, 'u' unordered array of bulk strings, 'o' one of the strings, 'i' integer range, 'a' array of pairs
	r    reply
	strs []string
	lo   int64
	hi   int64
}

func wInt(n int64) want     { return want{kind: '=', r: reply{t: ':', n: n}} }
func wOK() want             { return want{kind: '=', r: reply{t: '+', s: "OK"}} }
func wNull() want           { return want{kind: '=', r: reply{t: 'N'}} }
func wBulk(s string) want   { return want{kind: '=', r: reply{t: '$', s: s}} }
func wSimple(s string) want { return want{kind: '=', r: reply{t: '+', s: s}} }
func wErr() want            { return want{kind: 'e'} }
func wArr(ss []string) want {
	r := reply{t: '*'}
	for _, s := range ss {
		r.arr = append(r.arr, reply{t: '$', s: s})
	}
	return want{kind: '=', r: r}
}
func wSet(ss []string) want { return want{kind: 'u', strs: ss} }

func sameReply(a, b reply) bool {
	if a.t != b.t || a.s != b.s || a.n != b.n || len(a.arr) != len(b.arr) {
		return false
	}
	for i := range a.arr {
		if !sameReply(a.arr[i], b.arr[i]) {
			return false
		}
	}
	return true
}

func (w want) check(r reply) error {
	switch w.kind {
	case '=':
		if !sameReply(r, w.r) {
			return fmt.Errorf("reply %v, want %v", r, w.r)
		}
	case 'e':
		if r.t != '-' {
			return fmt.Errorf("reply %v, want an error", r)
		}
	case 'u':
		if r.t != '*' {
			return fmt.Errorf("reply %v, want an array of %d", r, len(w.strs))
		}
		var g []string
		for _, x := range r.arr {
			if x.t != '$' {
				return fmt.Errorf("reply %v, want an array of bulk strings", r)
			}
			g = append(g, x.s)
		}
		s := append([]string(nil), w.strs...)
		sort.Strings(g)
		sort.Strings(s)
		if len(g) != len(s) {
			return fmt.Errorf("reply has %d elements, want %d: %v, want %s", len(g), len(s), r, show(s))
		}
		for i := range g {
			if g[i] != s[i] {
				return fmt.Errorf("reply %v, want (in any order) %s", r, show(s))
			}
		}
	case 'o':
		if r.t == '$' {
			for _, s := range w.strs {
				if s == r.s {
					return nil
				}
			}
		}
		return fmt.Errorf("reply %v, want one of %s", r, show(w.strs))
	case 'i':
		if r.t != ':' || r.n < w.lo || r.n > w.hi {
			return fmt.Errorf("reply %v, want an integer from %d to %d", r, w.lo, w.hi)
		}
	}
	return nil
}

type mclient struct {
	db     int
	authed bool
}

func nowMs() int64 { return time.Now().UnixMilli() }

// expired: -1 before, 0 too close to tell, 1 after the deadline
func (d *mdb) expState(k string, now int64) int {
	e, ok := d.exp[k]
	if !ok {
		return -1
	}
	if now > e+slackMs {
		return 1
	}
	if now < e-slackMs {
		return -1
	}
	return 0
}

var slackMs int64 = 600

func fstr(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func (v *value) zorder() []ze {
	out := make([]ze, 0, len(v.zset))
	for k, s := range v.zset {
		out = append(out, ze{k, s})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].s < out[j].s || out[i].s == out[j].s && out[i].m < out[j].m
	})
	return out
}

type ze struct {
	m string
	s float64
}

const maxExp = math.MaxInt64 / 1000 / 2

var errAmbiguous = fmt.Errorf("ambiguous")

func (m *model) record(db int, args ...string) {
	if m.sel != db {
		m.sel = db
		m.log = append(m.log, []string{"select", strconv.Itoa(db)})
	}
	m.log = append(m.log, append([]string(nil), args...))
}

// arity as in the command table: exact, or at least -n
var arity = map[string]int{
	"ping": 1, "select": 2, "auth": 2, "bgrewriteaof": 1, "expire": 3, "expireat": 3, "ttl": 2, "keys": 2, "del": -2,
	"set": -3, "setex": 4, "get": 2, "randomget": 1,
	"hset": -4, "hget": 3, "hdel": -3, "hexists": 3, "hkeys": 2, "hlen": 2,
	"lpush": -3, "rpush": -3, "lpop": 2, "rpop": 2, "llen": 2, "lindex": 3, "lrange": -4,
	"sadd": -3, "srem": -3, "spop": 2, "scard": 2, "sismember": 3, "smembers": 2, "sdiff": -3, "sinter": -3, "sunion": -3,
	"zadd": -4, "zrange": -4, "zrangebyscore": -4, "zrem": -3, "zremrangebyrank": -4, "zremrangebyscore": -4, "zcard": 2, "zcount": 4, "zscore": 3,
}

func cmdNames() []string {
	var ns []string
	for n := range arity {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// exec runs a command on the reference. spop is completed by the caller with the reply received.
func (m *model) exec(c *mclient, args []string, now int64) (w want, err error) {
	name := strings.ToLower(args[0])
	ar, known := arity[name]
	if !known || ar > 0 && len(args) != ar || ar < 0 && len(args) < -ar {
		return wErr(), nil
	}
	d := m.dbs[c.db]
	amb := false
	// get the live value of a key, nil when missing; an expired key is removed
	live := func(k string) *value {
		switch d.expState(k, now) {
		case 0:
			amb = true
		case 1:
			delete(d.m, k)
			delete(d.exp, k)
		}
		return d.m[k]
	}
	defer func() {
		if amb {
			err = errAmbiguous
		}
	}()
	typed := func(k string, kind byte, create bool) (*value, bool) {
		v := live(k)
		if v == nil {
			if !create {
				return nil, true
			}
			v = &value{kind: kind}
			switch kind {
			case 'h':
				v.hash = map[string]string{}
			case 'e':
				v.set = map[string]bool{}
			case 'z':
				v.zset = map[string]float64{}
			}
			d.m[k] = v
		}
		if v.kind != kind {
			return nil, false
		}
		return v, true
	}
	rec := func(a ...string) { m.record(c.db, a...) }
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	var k string
	if len(args) > 1 {
		k = args[1]
	}
	switch name {
	case "ping":
		return wSimple("PONG"), nil
	case "select":
		n, e := strconv.Atoi(k)
		if e != nil || n < 0 || n >= len(m.dbs) {
			return wErr(), nil
		}
		c.db = n
		return wOK(), nil
	case "auth":
		return wOK(), nil
	case "expire", "expireat", "setex":
		n, e := strconv.ParseInt(args[2], 10, 64)
		lim := int64(maxExp)
		if name == "expireat" {
			lim *= 2
		}
		if e != nil || n < -lim || n > lim {
			return wErr(), nil
		}
		if name == "setex" {
			d.m[k] = &value{kind: 's', str: args[3]}
			d.exp[k] = now + n*1000
			rec("set", k, args[3])
			rec("expireat", k, "+"+args[2])
			return wOK(), nil
		}
		if live(k) == nil {
			return wInt(0), nil
		}
		if name == "expire" {
			d.exp[k] = now + n*1000
			rec("expireat", k, "+"+args[2])
		} else {
			d.exp[k] = n * 1000
			rec(args...)
		}
		return wOK(), nil
	case "ttl":
		if live(k) == nil {
			return wInt(-2), nil
		}
		e, ok := d.exp[k]
		if !ok {
			return wInt(-1), nil
		}
		t := e - now
		return want{kind: 'i', lo: (t - 3000) / 1000, hi: (t + 1000) / 1000}, nil
	case "keys":
		var ks []string
		var re *regexp.Regexp
		if k != "*" {
			var e error
			if re, e = regexp.Compile(k); e != nil {
				if len(d.m) == 0 {
					return wSet(nil), nil
				}
				return wErr(), nil
			}
		}
		for x := range d.m {
			if re != nil && !re.MatchString(x) {
				continue
			}
			if live(x) != nil {
				ks = append(ks, x)
			}
		}
		return wSet(ks), nil
	case "del":
		var n int64
		for _, x := range args[1:] {
			if live(x) != nil {
				delete(d.m, x)
				delete(d.exp, x)
				n++
			}
		}
		if n > 0 {
			rec(args...)
		}
		return wInt(n), nil
	case "set":
		d.m[k] = &value{kind: 's', str: args[2]}
		delete(d.exp, k)
		rec(args...)
		return wOK(), nil
	case "get":
		v := live(k)
		if v == nil {
			return wNull(), nil
		}
		if v.kind != 's' {
			return wErr(), nil
		}
		return wBulk(v.str), nil
	case "randomget":
		var ks []string
		for x := range d.m {
			if live(x) != nil {
				ks = append(ks, x)
			}
		}
		if len(ks) == 0 {
			return wNull(), nil
		}
		return want{kind: 'o', strs: ks}, nil
	}
	// typed commands
	fam := name[0]
	if fam == 'r' {
		fam = 'l'
	}
	if fam == 's' {
		fam = 'e'
	}
	switch name {
	case "hset":
		if len(args)%2 != 0 {
			return wErr(), nil
		}
		v, ok := typed(k, 'h', true)
		if !ok {
			return wErr(), nil
		}
		var n int64
		for i := 2; i < len(args); i += 2 {
			if _, in := v.hash[args[i]]; !in {
				n++
			}
			v.hash[args[i]] = args[i+1]
		}
		rec(args...)
		return wInt(n), nil
	case "lpush", "rpush":
		v, ok := typed(k, 'l', true)
		if !ok {
			return wErr(), nil
		}
		for _, x := range args[2:] {
			if name == "lpush" {
				v.list = append([]string{x}, v.list...)
			} else {
				v.list = append(v.list, x)
			}
		}
		rec(args...)
		return wInt(int64(len(v.list))), nil
	case "sadd":
		v, ok := typed(k, 'e', true)
		if !ok {
			return wErr(), nil
		}
		var n int64
		for _, x := range args[2:] {
			if !v.set[x] {
				n++
				v.set[x] = true
			}
		}
		rec(args...)
		return wInt(n), nil
	case "zadd":
		if len(args)%2 != 0 {
			return wErr(), nil
		}
		var sc []float64
		for i := 2; i < len(args); i += 2 {
			f, e := strconv.ParseFloat(args[i], 64)
			if e != nil || math.IsNaN(f) {
				return wErr(), nil
			}
			sc = append(sc, f)
		}
		v, ok := typed(k, 'z', true)
		if !ok {
			return wErr(), nil
		}
		var n int64
		for i, f := range sc {
			x := args[2*i+3]
			if _, in := v.zset[x]; !in {
				n++
				v.zset[x] = f
			} else if v.zset[x] != f {
				v.zset[x] = f
			}
		}
		rec(args...)
		return wInt(n), nil
	}
	// argument checks that come before the key is looked up
	var f1, f2 float64
	var i1, i2 int64
	switch name {
	case "zcount", "zrangebyscore", "zremrangebyscore":
		var e1, e2 error
		f1, e1 = strconv.ParseFloat(args[2], 64)
		f2, e2 = strconv.ParseFloat(args[3], 64)
		if e1 != nil || e2 != nil || math.IsNaN(f1) || math.IsNaN(f2) {
			return wErr(), nil
		}
	case "zrange", "zremrangebyrank":
		var e1, e2 error
		i1, e1 = strconv.ParseInt(args[2], 10, 64)
		i2, e2 = strconv.ParseInt(args[3], 10, 64)
		if e1 != nil || e2 != nil {
			return wErr(), nil
		}
	}
	if name == "sdiff" || name == "sinter" || name == "sunion" {
		v, ok := typed(k, 'e', false)
		if !ok {
			return wErr(), nil
		}
		if v == nil && name != "sunion" {
			return wArr(nil), nil
		}
		cur := map[string]bool{}
		if v != nil {
			for x := range v.set {
				cur[x] = true
			}
		}
		for _, o := range args[2:] {
			v2, ok := typed(o, 'e', false)
			if !ok {
				return wErr(), nil
			}
			if v2 == nil {
				if name == "sinter" {
					return wArr(nil), nil
				}
				continue
			}
			switch name {
			case "sdiff":
				for x := range v2.set {
					delete(cur, x)
				}
			case "sinter":
				for x := range cur {
					if !v2.set[x] {
						delete(cur, x)
					}
				}
			default:
				for x := range v2.set {
					cur[x] = true
				}
			}
		}
		var ss []string
		for x := range cur {
			ss = append(ss, x)
		}
		return wSet(ss), nil
	}
	v, ok := typed(k, fam, false)
	if !ok {
		return wErr(), nil
	}
	switch name {
	case "hget":
		if v == nil {
			return wNull(), nil
		}
		if x, in := v.hash[args[2]]; in {
			return wBulk(x), nil
		}
		return wNull(), nil
	case "hdel":
		var n int64
		if v != nil {
			for _, x := range args[2:] {
				if _, in := v.hash[x]; in {
					delete(v.hash, x)
					n++
				}
			}
		}
		if n > 0 {
			rec(args...)
		}
		return wInt(n), nil
	case "hexists":
		if v == nil {
			return wInt(0), nil
		}
		_, in := v.hash[args[2]]
		return wInt(b2i(in)), nil
	case "hkeys":
		if v == nil {
			return wArr(nil), nil
		}
		var ks []string
		for x := range v.hash {
			ks = append(ks, x)
		}
		return wSet(ks), nil
	case "hlen":
		if v == nil {
			return wInt(0), nil
		}
		return wInt(int64(len(v.hash))), nil
	case "lpop", "rpop":
		if v == nil || len(v.list) == 0 {
			return wNull(), nil
		}
		i := 0
		if name == "rpop" {
			i = len(v.list) - 1
		}
		x := v.list[i]
		v.list = append(append([]string(nil), v.list[:i]...), v.list[i+1:]...)
		rec(args...)
		return wBulk(x), nil
	case "llen":
		if v == nil {
			return wInt(0), nil
		}
		return wInt(int64(len(v.list))), nil
	case "lindex":
		if v == nil {
			return wNull(), nil
		}
		i, e := strconv.Atoi(args[2])
		if e != nil {
			return wErr(), nil
		}
		if i < 0 || i >= len(v.list) {
			return wNull(), nil
		}
		return wBulk(v.list[i]), nil
	case "lrange":
		if v == nil {
			return wArr(nil), nil
		}
		a, e1 := strconv.Atoi(args[2])
		b, e2 := strconv.Atoi(args[3])
		if e1 != nil || e2 != nil {
			return wErr(), nil
		}
		n := len(v.list)
		if a < 0 {
			a += n
		}
		if b < 0 {
			b += n
		}
		if a < 0 || b < 0 || a > b || a >= n {
			return wNull(), nil
		}
		if b >= n {
			b = n - 1
		}
		return wArr(v.list[a : b+1]), nil
	case "srem":
		var n int64
		if v != nil {
			for _, x := range args[2:] {
				if v.set[x] {
					delete(v.set, x)
					n++
				}
			}
		}
		if n > 0 {
			rec(args...)
		}
		return wInt(n), nil
	case "spop":
		if v == nil || len(v.set) == 0 {
			return wNull(), nil
		}
		var ss []string
		for x := range v.set {
			ss = append(ss, x)
		}
		return want{kind: 'o', strs: ss}, nil
	case "scard":
		if v == nil {
			return wInt(0), nil
		}
		return wInt(int64(len(v.set))), nil
	case "sismember":
		return wInt(b2i(v != nil && v.set[args[2]])), nil
	case "smembers":
		if v == nil {
			return wArr(nil), nil
		}
		var ss []string
		for x := range v.set {
			ss = append(ss, x)
		}
		return wSet(ss), nil
	case "zcard":
		if v == nil {
			return wInt(0), nil
		}
		return wInt(int64(len(v.zset))), nil
	case "zscore":
		if v == nil {
			return wNull(), nil
		}
		f, in := v.zset[args[2]]
		if !in {
			return wNull(), nil
		}
		return wSimple(fstr(f)), nil
	case "zcount":
		if v == nil {
			return wInt(0), nil
		}
		var n int64
		for _, s := range v.zset {
			if s >= f1 && s <= f2 {
				n++
			}
		}
		return wInt(n), nil
	case "zrem":
		var n int64
		if v != nil {
			for _, x := range args[2:] {
				if _, in := v.zset[x]; in {
					delete(v.zset, x)
					n++
				}
			}
		}
		if n > 0 {
			rec(args...)
		}
		return wInt(n), nil
	case "zrange", "zrangebyscore", "zremrangebyrank", "zremrangebyscore":
		del := strings.HasPrefix(name, "zrem")
		if v == nil {
			if del {
				return wInt(0), nil
			}
			return wNull(), nil
		}
		o := v.zorder()
		var sel []ze
		if strings.HasSuffix(name, "score") {
			for _, x := range o {
				if x.s >= f1 && x.s <= f2 {
					sel = append(sel, x)
				}
			}
		} else {
			if i2 >= int64(len(o)) {
				i2 = int64(len(o)) - 1
			}
			if i1 >= 0 && i1 <= i2 {
				sel = o[i1 : i2+1]
			}
		}
		if del {
			for _, x := range sel {
				delete(v.zset, x.m)
			}
			if len(sel) > 0 {
				rec(args...)
			}
			return wInt(int64(len(sel))), nil
		}
		ws := false
		if len(args) > 4 {
			if !strings.EqualFold(args[4], "withscores") {
				return wErr(), nil
			}
			ws = true
		}
		var ss []string
		for _, x := range sel {
			ss = append(ss, x.m)
			if ws {
				ss = append(ss, fstr(x.s))
			}
		}
		return wArr(ss), nil
	}
	panic("model: " + name)
}

// done completes random commands with the reply received.
func (m *model) done(c *mclient, args []string, r reply) {
	if strings.EqualFold(args[0], "spop") && len(args) == 2 && r.t == '$' {
		delete(m.dbs[c.db].m[args[1]].set, r.s)
		m.record(c.db, "srem", args[1], r.s)
	}
}

func describe(v *value) string {
	switch v.kind {
	case 's':
		return "string " + show([]string{v.str})
	case 'l':
		return fmt.Sprintf("list of %d: %s", len(v.list), show(v.list))
	case 'h':
		var ks []string
		for k := range v.hash {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var o []string
		for _, k := range ks {
			o = append(o, k+"="+v.hash[k])
		}
		return fmt.Sprintf("hash of %d: %s", len(ks), show(o))
	case 'e':
		var ks []string
		for k := range v.set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return fmt.Sprintf("set of %d: %s", len(ks), show(ks))
	case 'z':
		var o []string
		for _, x := range v.zorder() {
			o = append(o, x.m+"="+fstr(x.s))
		}
		return fmt.Sprintf("sorted set of %d: %s", len(o), show(o))
	}
	return "?"
}

func sameValue(a, b *value) bool {
	if a.kind != b.kind || a.str != b.str || len(a.hash) != len(b.hash) || len(a.list) != len(b.list) || len(a.set) != len(b.set) || len(a.zset) != len(b.zset) {
		return false
	}
	for k, v := range a.hash {
		if w, ok := b.hash[k]; !ok || w != v {
			return false
		}
	}
	for i := range a.list {
		if a.list[i] != b.list[i] {
			return false
		}
	}
	for k := range a.set {
		if !b.set[k] {
			return false
		}
	}
	for k, v := range a.zset {
		if w, ok := b.zset[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// dump reads the whole dataset of the server over a connection.
func dump(s *server, ndb int) (*model, error) {
	return dumpRange(s, 0, ndb, ndb)
}

// dumpRange reads the databases lo..hi-1.
func dumpRange(s *server, lo, hi, ndb int) (*model, error) {
	c, err := s.dial()
	if err != nil {
		return nil, err
	}
	defer c.close()
	if s.o.pass != "" {
		if _, err := c.do("auth", s.o.pass); err != nil {
			return nil, err
		}
	}
	m := newModel(ndb)
	for i := lo; i < hi; i++ {
		r, err := c.do("select", strconv.Itoa(i))
		if err != nil {
			return nil, fmt.Errorf("select %d: %w", i, err)
		}
		if r.t != '+' {
			return nil, fmt.Errorf("select %d: %v", i, r)
		}
		kr, err := c.do("keys", "*")
		if err != nil {
			return nil, fmt.Errorf("keys *: %w", err)
		}
		if kr.t != '*' {
			return nil, fmt.Errorf("keys *: %v", kr)
		}
		var cmds [][]string
		for _, k := range kr.arr {
			for _, n := range []string{"get", "hkeys", "llen", "smembers", "zcard", "ttl"} {
				cmds = append(cmds, []string{n, k.s})
			}
		}
		t0 := nowMs()
		rs, err := c.pipeline(cmds)
		if err != nil {
			return nil, err
		}
		var cmds2 [][]string
		var fill []func(r reply)
		for j, k := range kr.arr {
			q := rs[6*j : 6*j+6]
			n := 0
			v := &value{}
			for x := 0; x < 5; x++ {
				if q[x].t != '-' && q[x].t != 'N' {
					n++
					v.kind = "shlez"[x]
				}
			}
			if n != 1 {
				return nil, fmt.Errorf("db %d key %q answers as %d types: %v", i, k.s, n, q)
			}
			if m.dbs[i].m[k.s] != nil {
				return nil, fmt.Errorf("db %d key %q is listed twice", i, k.s)
			}
			m.dbs[i].m[k.s] = v
			if q[5].t != ':' {
				return nil, fmt.Errorf("ttl %q: %v", k.s, q[5])
			}
			if q[5].n >= 0 {
				m.dbs[i].exp[k.s] = t0 + q[5].n*1000
			} else if q[5].n != -1 {
				return nil, fmt.Errorf("ttl %q of a listed key: %v", k.s, q[5])
			}
			switch v.kind {
			case 's':
				v.str = q[0].s
			case 'h':
				v.hash = map[string]string{}
				for _, f := range q[1].arr {
					f := f.s
					cmds2 = append(cmds2, []string{"hget", k.s, f})
					fill = append(fill, func(r reply) { v.hash[f] = r.s })
				}
			case 'l':
				if q[2].n > 0 {
					cmds2 = append(cmds2, []string{"lrange", k.s, "0", "-1"})
					fill = append(fill, func(r reply) {
						for _, x := range r.arr {
							v.list = append(v.list, x.s)
						}
					})
				}
			case 'e':
				v.set = map[string]bool{}
				for _, x := range q[3].arr {
					v.set[x.s] = true
				}
			case 'z':
				v.zset = map[string]float64{}
				cmds2 = append(cmds2, []string{"zrange", k.s, "0", "99999999", "withscores"})
				fill = append(fill, func(r reply) {
					for j := 0; j+1 < len(r.arr); j += 2 {
						f, _ := strconv.ParseFloat(r.arr[j+1].s, 64)
						v.zset[r.arr[j].s] = f
					}
				})
			}
		}
		rs, err = c.pipeline(cmds2)
		if err != nil {
			return nil, err
		}
		for j := range rs {
			if rs[j].t == '-' {
				return nil, fmt.Errorf("%s: %v", show(cmds2[j]), rs[j])
			}
			fill[j](rs[j])
		}
	}
	return m, nil
}

// diff compares the dataset read with the expected one.
func diff(got, exp *model, now int64, dropEmpty bool, expSlack int64) error {
	for i := range exp.dbs {
		g, e := got.dbs[i], exp.dbs[i]
		for k, v := range e.m {
			st := e.expState(k, now)
			if st == 0 {
				continue
			}
			if st == 1 || dropEmpty && v.empty() {
				if g.m[k] != nil {
					return fmt.Errorf("db %d: key %q is still there (%s)", i, k, describe(g.m[k]))
				}
				continue
			}
			if g.m[k] == nil {
				return fmt.Errorf("db %d: key %q is lost, it was %s", i, k, describe(v))
			}
			if !sameValue(g.m[k], v) {
				return fmt.Errorf("db %d: key %q is %s, want %s", i, k, describe(g.m[k]), describe(v))
			}
			a, ok1 := g.exp[k]
			b, ok2 := e.exp[k]
			if ok1 != ok2 {
				return fmt.Errorf("db %d: key %q has an expiry: %v, want %v", i, k, ok1, ok2)
			}
			if ok1 && (a-b > expSlack || b-a > expSlack) {
				return fmt.Errorf("db %d: key %q expires at %d ms, want %d ms", i, k, a, b)
			}
		}
		for k, v := range g.m {
			if e.m[k] == nil {
				return fmt.Errorf("db %d: key %q should not exist, it is %s", i, k, describe(v))
			}
		}
	}
	return nil
}

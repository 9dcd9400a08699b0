package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

type genOpts struct {
	keys    int
	members int
	wild    bool // odd bytes, odd numbers, wrong arities
	pop     bool // spop, randomget
	expiry  int  // 0 none, 1 far future and out of range, 2 also short and past
	sel     int  // number of databases to select from, 0: none
	big     bool // now and then large values and many arguments
	prefix  string
}

var oddStrings = []string{"", " ", "\r\n", "a\r\nb", "\n", "\x00", "\xff\xfe", "$5\r\nhello\r\n", "+OK\r\n", "*1\r\n$4\r\nping\r\n", "-ERR x", "%s%d%n", "%", "éü", strings.Repeat("x", 300), "0", "-1", "\t", "a b", "'\"\\"}
var oddNumbers = []string{"0", "-1", "1", "2", "-2", "+3", "1e3", "nan", "NaN", "inf", "-inf", "+Inf", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "1.5", "", " 1", "0x10", "1_000", "99999999999999999999", "-0", "4611686018427387904", "9223372036854775", "4611686018427387", "-4611686018427388", "9223372036854775806", "abc", "1\r\n2"}

func (g genOpts) key(r *rand.Rand) string {
	i := r.Intn(g.keys)
	if g.wild && r.Intn(12) == 0 {
		return g.prefix + oddStrings[r.Intn(len(oddStrings))]
	}
	return fmt.Sprintf("%skey%d", g.prefix, i)
}

func (g genOpts) member(r *rand.Rand) string {
	if r.Intn(15) == 0 {
		return ""
	}
	if g.wild && r.Intn(8) == 0 {
		return oddStrings[r.Intn(len(oddStrings))]
	}
	if g.big && r.Intn(200) == 0 {
		return strings.Repeat(string(rune('a'+r.Intn(26))), 60000+r.Intn(10000))
	}
	i := r.Intn(g.members)
	return fmt.Sprintf([]string{"m%d", "m%d", "M%d", "m%dB", "m%d\xff"}[i%5], i/5)
}

func randBytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	r.Read(b)
	return string(b)
}

func (g genOpts) val(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return randBytes(r, r.Intn(40))
	case 1:
		return oddStrings[r.Intn(len(oddStrings))]
	case 2:
		if g.big && r.Intn(8) == 0 {
			return randBytes(r, []int{4090, 4096, 65530, 65536, 65540, 131072, 200000}[r.Intn(7)]+r.Intn(8))
		}
	}
	return fmt.Sprintf("v%d", r.Intn(1000))
}

func (g genOpts) num(r *rand.Rand, lo, hi int) string {
	if g.wild && r.Intn(6) == 0 {
		return oddNumbers[r.Intn(len(oddNumbers))]
	}
	return strconv.Itoa(lo + r.Intn(hi-lo+1))
}

func (g genOpts) score(r *rand.Rand) string {
	if g.wild && r.Intn(8) == 0 {
		return oddNumbers[r.Intn(len(oddNumbers))]
	}
	switch r.Intn(8) {
	case 0:
		return []string{"inf", "-inf", "1e300", "-1e-300", "0.1", "3.0000000000000004", "-0"}[r.Intn(7)]
	case 1:
		return strconv.FormatFloat(r.NormFloat64()*100, 'g', -1, 64)
	}
	return strconv.Itoa(r.Intn(9) - 3)
}

func (g genOpts) many(r *rand.Rand) int {
	n := 1
	for n < 6 && r.Intn(3) == 0 {
		n++
	}
	if g.big && r.Intn(40) == 0 {
		n = []int{63, 64, 65, 130, 300}[r.Intn(5)]
	}
	return n
}

var weights = map[string]int{"ping": 1, "ttl": 4, "keys": 1, "del": 3, "set": 8, "get": 6, "hset": 9, "hget": 6, "hdel": 5, "hexists": 3, "hkeys": 2, "hlen": 2,
	"lpush": 7, "rpush": 9, "lpop": 5, "rpop": 5, "llen": 2, "lindex": 5, "lrange": 6, "sadd": 9, "srem": 6, "scard": 2, "sismember": 4, "smembers": 2, "sdiff": 3, "sinter": 3, "sunion": 3,
	"zadd": 12, "zrange": 5, "zrangebyscore": 5, "zrem": 5, "zremrangebyrank": 3, "zremrangebyscore": 3, "zcard": 2, "zcount": 4, "zscore": 4}

// cmd generates one command. Keys of one type are mostly used with commands of that type.
func (g genOpts) cmd(r *rand.Rand) []string {
	var pool []string
	add := func(n string, w int) {
		for i := 0; i < w; i++ {
			pool = append(pool, n)
		}
	}
	for _, n := range cmdNames() {
		add(n, weights[n])
	}
	if g.pop {
		add("spop", 4)
		add("randomget", 1)
	}
	if g.expiry > 0 {
		add("expire", 4)
		add("expireat", 2)
		add("setex", 3)
	}
	if g.sel > 0 {
		add("select", 6)
	}
	name := pool[r.Intn(len(pool))]
	k := g.key(r)
	// three keys in four carry the family in their name, so that types do match mostly
	fam := map[byte]string{'h': "h", 'l': "l", 'z': "z"}[name[0]]
	switch name {
	case "rpush", "rpop":
		fam = "l"
	case "sadd", "srem", "spop", "scard", "sismember", "smembers", "sdiff", "sinter", "sunion":
		fam = "s"
	}
	fk := func() string {
		k := g.key(r)
		if r.Intn(12) == 0 {
			k += []string{"h", "l", "z", "s", ""}[r.Intn(5)]
		} else {
			k += fam
		}
		return k
	}
	k = fk()
	anyKey := func() string { return g.key(r) + []string{"h", "l", "z", "s", "", ""}[r.Intn(6)] }
	var a []string
	switch name {
	case "ping":
		a = []string{name}
	case "select":
		n := strconv.Itoa(r.Intn(g.sel))
		if r.Intn(6) == 0 {
			n = []string{"-1", strconv.Itoa(g.sel), "abc", "", "99999999999999999999", "1.0", "+1", "00", strconv.Itoa(g.sel + 1000)}[r.Intn(9)]
		}
		a = []string{name, n}
	case "expire", "expireat", "setex":
		var n string
		switch {
		case g.expiry >= 2 && r.Intn(3) == 0:
			n = "-5"
		case r.Intn(5) == 0:
			n = oddNumbers[r.Intn(len(oddNumbers))]
			if v, e := strconv.ParseInt(n, 10, 64); e == nil && v > -1000 && v < 1000000 && (g.expiry < 2 || v > -2) {
				n = "abc"
			}
			if v, e := strconv.ParseInt(n, 10, 64); e == nil && v < 0 && g.expiry < 2 {
				n = "x"
			}
		default:
			n = strconv.Itoa(100000 + r.Intn(100000))
		}
		if name == "expireat" {
			if v, e := strconv.ParseInt(n, 10, 64); e == nil && v >= 100000 && v < 300000 {
				n = strconv.FormatInt(nowMs()/1000+v, 10)
			}
		}
		a = []string{name, anyKey(), n}
		if name == "setex" {
			a = []string{name, g.key(r), n, g.val(r)}
		}
	case "ttl":
		a = []string{name, anyKey()}
	case "keys":
		p := "*"
		if r.Intn(3) == 0 {
			p = []string{"key1", "^" + g.prefix + "key[0-3]", "h$", ".", "nothing", "[", "key1|key2", ""}[r.Intn(8)]
		}
		a = []string{name, p}
	case "randomget":
		a = []string{name}
	case "del":
		a = []string{name}
		for i := g.many(r); i > 0; i-- {
			a = append(a, anyKey())
		}
	case "set":
		a = []string{name, k, g.val(r)}
		if r.Intn(20) == 0 {
			a = append(a, "extra")
		}
	case "get":
		a = []string{name, k}
	case "hset":
		a = []string{name, k}
		for i := g.many(r); i > 0; i-- {
			a = append(a, g.member(r), g.val(r))
		}
	case "hget", "hexists", "sismember", "zscore":
		a = []string{name, k, g.member(r)}
	case "hdel", "sadd", "srem", "zrem":
		a = []string{name, k}
		for i := g.many(r); i > 0; i-- {
			a = append(a, g.member(r))
		}
	case "lpush", "rpush":
		a = []string{name, k}
		for i := g.many(r); i > 0; i-- {
			a = append(a, g.val(r))
		}
	case "hkeys", "hlen", "lpop", "rpop", "llen", "spop", "scard", "smembers", "zcard":
		a = []string{name, k}
	case "lindex":
		a = []string{name, k, g.num(r, -3, 20)}
	case "lrange":
		a = []string{name, k, g.num(r, -8, 12), g.num(r, -8, 20)}
	case "sdiff", "sinter", "sunion":
		a = []string{name, k}
		for i := 1 + r.Intn(3); i > 0; i-- {
			a = append(a, fk())
		}
	case "zadd":
		a = []string{name, k}
		for i := g.many(r); i > 0; i-- {
			a = append(a, g.score(r), g.member(r))
		}
	case "zrange":
		a = []string{name, k, g.num(r, 0, 8), g.num(r, 0, 16)}
		if r.Intn(2) == 0 {
			a = append(a, []string{"withscores", "WITHSCORES", "WithScores", "nope", "a\r\nb"}[r.Intn(5)])
		}
	case "zrangebyscore":
		a = []string{name, k, g.score(r), g.score(r)}
		if r.Intn(2) == 0 {
			a[2], a[3] = "-inf", "+inf"
		}
		if r.Intn(2) == 0 {
			a = append(a, []string{"withscores", "WITHSCORES", "nope"}[r.Intn(3)])
		}
	case "zremrangebyrank":
		x := r.Intn(6)
		a = []string{name, k, strconv.Itoa(x), strconv.Itoa(x + r.Intn(3))}
		if g.wild {
			a[2], a[3] = g.num(r, 0, 6), g.num(r, 0, 8)
		}
	case "zremrangebyscore":
		s := g.score(r)
		a = []string{name, k, s, s}
		if r.Intn(4) == 0 {
			a[3] = g.score(r)
		}
	case "zcount":
		a = []string{name, k, g.score(r), g.score(r)}
	}
	if g.wild && r.Intn(25) == 0 {
		if r.Intn(2) == 0 && len(a) > 1 {
			a = a[:1+r.Intn(len(a)-1)]
		} else {
			a = append(a, g.member(r))
		}
	}
	switch r.Intn(12) {
	case 0:
		a[0] = strings.ToUpper(a[0])
	case 1:
		a[0] = strings.ToUpper(a[0][:1]) + a[0][1:]
	}
	return a
}

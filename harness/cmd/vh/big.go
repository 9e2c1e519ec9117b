package main

import (
	"math/rand"
	"strconv"
	"strings"
	"time"

	"verif/harness/kit"
)

// bigSizes surround limits an implementation might treat specially.
var bigSizes = []int{63, 129, 257, 513, 999, 1000, 1025, 2049, 4097, 10001, 66000}

// bigFill makes the commands that store n elements under k.
func bigFill(k string, t byte, n int, r *rand.Rand) [][]string {
	chunk := []int{1, 50, 1000, 100000}[r.Intn(4)]
	if n > 5000 {
		chunk = 1000 + r.Intn(n)
	}
	name := map[byte]string{'l': "RPUSH", 'S': "SADD", 'h': "HSET", 'z': "ZADD", 's': "APPEND"}[t]
	if t == 's' {
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz\r\n\x00\xff"[(i+i/7)%30]
		}
		return [][]string{{name, k, string(b[:n/3])}, {name, k, string(b[n/3:])}}
	}
	var out [][]string
	for i := 0; i < n; {
		c := []string{name, k}
		for j := 0; j < chunk && i < n; j, i = j+1, i+1 {
			switch t {
			case 'l', 'S':
				c = append(c, "e"+it(i))
			case 'h':
				c = append(c, "e"+it(i), "v"+it(i%97))
			case 'z':
				c = append(c, strconv.FormatFloat(float64(i*7919%n/3)/4, 'g', -1, 64), "e"+it(i))
			}
		}
		out = append(out, c)
	}
	return out
}

// bigUse is a round of work on a value of n elements.
func bigUse(k string, t byte, n int, r *rand.Rand) [][]string {
	e := func() string { return "e" + it(r.Intn(n)) }
	x := func() string { return it(r.Intn(2*n) - n) }
	switch t {
	case 's':
		return [][]string{{"GET", k}, {"APPEND", k, "tail"}, {"GET", k}}
	case 'l':
		return [][]string{{"LLEN", k}, {"LPUSH", k, "head"}, {"LINDEX", k, x()}, {"LINDEX", k, x()}, {"LRANGE", k, x(), x()}, {"LRANGE", k, "0", "99"}, {"LSET", k, x(), "set"}, {"LINSERT", k, "before", e(), "in"}, {"LINSERT", k, "after", e(), "in"}, {"LREM", k, "0", "in"}, {"LREM", k, "-1", e()}, {"LRANGE", k, "-100", "-1"}, {"RPOP", k, "3"}, {"LPOP", k, "3"}, {"LLEN", k}, {"LPOP", k, it(n / 3)}, {"LLEN", k}, {"LINDEX", k, "0"}, {"RPOP", k, it(n / 3)}, {"LLEN", k}, {"LINDEX", k, "-1"}, {"LRANGE", k, "0", "-1"}}
	case 'S':
		return [][]string{{"SCARD", k}, {"SADD", k, e(), "new", e()}, {"SISMEMBER", k, e()}, {"SREM", k, e(), "absent", e()}, {"SCARD", k}, {"SUNION", k}, {"SDIFF", k, "nothing"}, {"SINTER", k, k}, {"SUNIONSTORE", "copy", k}, {"SCARD", "copy"}, {"SPOP", k, "5"}, {"SDIFF", "copy", k}, {"SMOVE", k, "copy", e()}, {"SCARD", k}, {"SINTERSTORE", "copy2", "copy", k}, {"SCARD", "copy2"}, {"SDIFFSTORE", "copy2", "copy", k}, {"SMEMBERS", "copy2"}, {"SPOP", k, it(n / 2)}, {"SCARD", k}, {"SINTER", "copy", k}, {"SCARD", "copy"}, {"DEL", "copy", "copy2"}}
	case 'h':
		return [][]string{{"HLEN", k}, {"HSET", k, e(), "w", "new", "x"}, {"HGET", k, e()}, {"HMGET", k, e(), e(), "absent", e()}, {"HEXISTS", k, e()}, {"HSETNX", k, e(), "y"}, {"HINCRBY", k, "count", "5"}, {"HDEL", k, e(), e(), "absent"}, {"HLEN", k}, {"HKEYS", k}, {"HVALS", k}, {"HGETALL", k}}
	case 'z':
		o := strconv.Itoa(r.Intn(n) / 12)
		return [][]string{{"ZCARD", k}, {"ZADD", k, "1.5", e(), "2.5", "new"}, {"ZINCR", k, "3", e()}, {"ZRANK", k, e()}, {"ZSCORE", k, e()}, {"ZRANGE", k, x(), x()}, {"ZREVRANGE", k, x(), x(), "WITHSCORES"}, {"ZCOUNT", k, o, "+inf"}, {"ZCOUNT", k, "-inf", "(" + o}, {"ZRANGEBYSCORE", k, o, "(" + it(n/12)}, {"ZREM", k, e(), e(), "absent"}, {"ZCARD", k}, {"ZPOPMIN", k, "3"}, {"ZPOPMAX", k, "3"}, {"ZPOPMIN", k, it(n / 3)}, {"ZCARD", k}, {"ZRANK", k, e()}, {"ZPOPMAX", k, it(n / 3)}, {"ZRANGE", k, "0", "-1", "WITHSCORES"}, {"ZREVRANGE", k, "0", "-1"}}
	}
	return nil
}

// bigEmpty removes all n elements of the value without naming DEL.
func bigEmpty(k string, t byte, n int, r *rand.Rand) [][]string {
	m := it(n + r.Intn(2))
	switch t {
	case 'l':
		return [][]string{{[]string{"LPOP", "RPOP"}[r.Intn(2)], k, m}}
	case 'S':
		return [][]string{{"SPOP", k, m}}
	case 'z':
		return [][]string{{[]string{"ZPOPMIN", "ZPOPMAX"}[r.Intn(2)], k, m}}
	case 'h':
		c := []string{"HDEL", k}
		for i := 0; i < n; i++ {
			c = append(c, "e"+it(i))
		}
		return [][]string{c}
	}
	return [][]string{{"DEL", k}}
}

// bigPlan lists sizes for a type, spread over parallel servers.
func bigValues(rep *kit.Report, types string, top int) func() {
	return func() {
		parallel(len(types), 4, func(i int) {
			t := types[i]
			directed(rep, "big "+kit.TypeName(t)+" values", func(ss *kit.Session) {
				r := rand.New(rand.NewSource(rep.Seed*31 + int64(t)))
				ss.Run([]string{"SET", "bystander", "1"})
				for _, n := range bigSizes {
					if n <= top {
						bigOne(ss, t, n, r)
					}
				}
				for i := 0; i < 6*rep.Scale; i++ {
					bigOne(ss, t, 2+r.Intn(min(top, 4000)), r)
				}
				// nothing of a removal may be left to do later
				for _, n := range []int{1, 40, 600, 1100} {
					fill := bigFill("big", t, n, rand.New(rand.NewSource(int64(n))))
					again := bigFill("big", t, 1, rand.New(rand.NewSource(2)))
					var cs [][]string
					for i := 0; i < 60; i++ {
						for len(fill) > 4 {
							fill = bigFill("big", t, n, r)
						}
						cs = append(cs, fill...)
						cs = append(cs, []string{"DEL", "big"}, []string{"EXISTS", "big"})
						for j := 0; j < i%8; j++ {
							cs = append(cs, []string{"PING"})
						}
						cs = append(cs, again...)
						cs = append(cs, []string{"EXISTS", "big"}, []string{"DEL", "big"})
					}
					ss.Run(cs...)
					ss.R.Count("removals followed at once by re-creation", 60)
				}
				ss.Audit([]string{"big", "bystander"}, 8)
				for _, n := range []int{33, 65, 129, 260, 520, 1030, 2100, 5000} {
					if n <= top {
						steady(ss, t, n, r)
					}
				}
				if t == 'l' || t == 'z' {
					for _, n := range []int{20, 300, 2500, 6000} {
						placed(ss, t, n, r)
					}
				}
			})
		})
		rep.Require("big values deleted and used again at once", 10)
		rep.Require("big values read, changed at the same size and read alike", 30)
	}
}

func bigOne(ss *kit.Session, t byte, n int, r *rand.Rand) {
	k := "big"
	fill := func() { ss.Run(bigFill(k, t, n, r)...) }
	fill()
	ss.Run(kit.AuditCmds(ss.M, k, r, 16)...)
	ss.Run(bigUse(k, t, n, r)...)
	ss.Run(kit.AuditCmds(ss.M, k, r, 16)...)
	again := bigFill(k, t, 2, r)
	probe := func() [][]string {
		cs := [][]string{{"EXISTS", k}, {"TYPE", k}, {"KEYS", "*"}}
		return append(cs, kit.AuditCmds(kit.NewModel(), k, r, 4)...)
	}
	// gone as soon as the reply is there, and also within one pipeline
	ss.Do("DEL", k)
	ss.RunBatch(probe())
	ss.Run(again...)
	ss.Run(kit.AuditCmds(ss.M, k, r, 8)...)
	ss.Do("DEL", k)
	fill()
	ss.RunBatch(append(append(append([][]string{{"DEL", k}}, probe()...), again...), []string{"EXISTS", k}, []string{"TYPE", k}))
	time.Sleep(3 * time.Millisecond)
	ss.Run(kit.AuditCmds(ss.M, k, r, 8)...)
	ss.R.Count("big values deleted and used again at once", 1)
	// replaced
	ss.Do("DEL", k)
	fill()
	ss.RunBatch([][]string{{"SET", k, "small"}, {"GET", k}, {"TYPE", k}, {"APPEND", k, "x"}, {"DEL", k}, {"EXISTS", k}, {"LPUSH", k, "a"}, {"SUNIONSTORE", k, "nothing"}, {"EXISTS", k}, {"KEYS", "*"}})
	// emptied
	fill()
	ss.RunBatch(append(bigEmpty(k, t, n, r), probe()...))
	ss.Run(again...)
	ss.Run(kit.AuditCmds(ss.M, k, r, 8)...)
	ss.Do("DEL", k)
	ss.R.Max("most elements in a "+kit.TypeName(t), int64(n))
	ss.R.Eval(true, "big", string(t), it(n))
}

// steady reads a big value in every way, changes it in a way that leaves its
// size as it was, and reads it in the very same ways again.
func steady(ss *kit.Session, t byte, n int, r *rand.Rand) {
	k := "steady"
	h, q := it(n/2), it(n/4)
	e := func(i int) string { return "e" + it(i) }
	var reads [][]string
	var swaps [][][]string
	fresh := func(i int) string { return "fresh" + it(i) }
	switch t {
	case 's':
		same := strings.Repeat("=", n)
		reads = [][]string{{"GET", k}, {"MGET", k, "nothing", k}}
		swaps = [][][]string{{{"SET", k, same}}, {{"SET", k, same[:n-1] + "x"}}, {{"SET", k, "x" + same[1:]}}, {{"DEL", k}, {"APPEND", k, same}}, {{"SET", k, same[:n-3]}, {"APPEND", k, "abc"}}, {{"MSET", k, same, "other", "1"}}}
	case 'l':
		reads = [][]string{{"LRANGE", k, "0", "-1"}, {"LLEN", k}, {"LINDEX", k, "0"}, {"LINDEX", k, "-1"}, {"LINDEX", k, h}, {"LINDEX", k, "-" + q}, {"LRANGE", k, q, h}, {"LRANGE", k, "-" + q, "-1"}}
		swaps = [][][]string{{{"LSET", k, h, "set"}}, {{"LSET", k, "0", "set0"}}, {{"LSET", k, "-1", "set-1"}}, {{"LPOP", k}, {"RPUSH", k, fresh(0)}}, {{"RPOP", k}, {"LPUSH", k, fresh(1)}}, {{"RPOP", k}, {"RPUSH", k, fresh(2)}}, {{"LPOP", k}, {"LPUSH", k, fresh(3)}}, {{"LREM", k, "1", e(n / 2)}, {"LINSERT", k, "before", e(n / 3), fresh(4)}}, {{"LREM", k, "-1", e(n/2 + 1)}, {"LINSERT", k, "after", e(n/3 + 1), fresh(5)}}, {{"LPOP", k, "5"}, {"LPUSH", k, "5", "4", "3", "2", "1"}}}
	case 'S':
		reads = [][]string{{"SMEMBERS", k}, {"SCARD", k}, {"SISMEMBER", k, e(1)}, {"SISMEMBER", k, fresh(0)}, {"SUNION", k}, {"SINTER", k, k}, {"SDIFF", k, "nothing"}}
		swaps = [][][]string{{{"SREM", k, e(1)}, {"SADD", k, fresh(0)}}, {{"SADD", k, fresh(1)}, {"SREM", k, e(2)}}, {{"SPOP", k}, {"SADD", k, fresh(2)}}, {{"SMOVE", k, "away", e(n / 2)}, {"SADD", k, fresh(3)}}, {{"SREM", k, fresh(0)}, {"SADD", k, e(1)}}, {{"SADD", "one", fresh(4)}, {"SREM", k, e(5)}, {"SUNIONSTORE", k, k, "one"}, {"DEL", "one", "away"}}, {{"SREM", k, e(7), e(8), e(9)}, {"SADD", k, fresh(7), fresh(8), fresh(9)}}}
	case 'h':
		reads = [][]string{{"HGETALL", k}, {"HKEYS", k}, {"HVALS", k}, {"HLEN", k}, {"HGET", k, e(1)}, {"HGET", k, fresh(0)}, {"HMGET", k, e(1), fresh(0), e(n / 2), fresh(1)}, {"HEXISTS", k, e(1)}, {"HEXISTS", k, fresh(0)}}
		swaps = [][][]string{{{"HSET", k, e(1), "other"}}, {{"HDEL", k, e(1)}, {"HSET", k, fresh(0), "v"}}, {{"HSET", k, fresh(1), "v1"}, {"HDEL", k, e(2)}}, {{"HINCRBY", k, e(n / 2), "5"}}, {{"HINCRBYFLOAT", k, e(n/2 + 1), "0.5"}}, {{"HMSET", k, e(n / 2), "a", e(3), "b"}}, {{"HDEL", k, fresh(0)}, {"HSETNX", k, e(1), "back"}}, {{"HSETNX", k, e(3), "no"}}}
	case 'z':
		reads = [][]string{{"ZRANGE", k, "0", "-1", "WITHSCORES"}, {"ZREVRANGE", k, "0", "-1", "WITHSCORES"}, {"ZCARD", k}, {"ZRANGE", k, q, h}, {"ZREVRANGE", k, q, h}, {"ZRANK", k, e(1)}, {"ZRANK", k, e(n - 1)}, {"ZRANK", k, fresh(0)}, {"ZSCORE", k, e(1)}, {"ZCOUNT", k, "-inf", "+inf"}, {"ZCOUNT", k, "1", "(3"}, {"ZRANGEBYSCORE", k, "1", "(3"}, {"ZRANGE", k, "2", "+inf", "BYSCORE"}, {"ZCOUNT", k, "1500000", "2500000"}, {"ZCOUNT", k, "(2600000", "+inf"}, {"ZRANGEBYSCORE", k, "1500000", "(2600000", "WITHSCORES"}, {"ZRANGE", k, "-2500000", "-1500000", "BYSCORE"}, {"ZCOUNT", k, "-inf", "(-1600000"}, {"ZSCORE", k, "high2"}}
		// far from all others: a new score, but the same place
		swaps = [][][]string{{{"ZADD", k, "2600000", "high2"}}, {{"ZINCR", k, "-250000", "high2"}}, {{"ZADD", k, "INCR", "100", "high3"}}, {{"ZADD", k, "-1600000", "low2"}}, {{"ZINCR", k, "-700000", "low2"}}, {{"ZADD", k, "XX", "1400000", "high1", "2700000", "high2"}}, {{"ZADD", k, "1.25", e(1)}}, {{"ZADD", k, "-5", e(n - 1)}}, {{"ZADD", k, "1e9", e(n - 1)}}, {{"ZINCR", k, "2", e(n / 2)}}, {{"ZREM", k, e(1)}, {"ZADD", k, "2", fresh(0)}}, {{"ZPOPMIN", k}, {"ZADD", k, "1", fresh(1)}}, {{"ZPOPMAX", k}, {"ZADD", k, "3", fresh(2)}}, {{"ZADD", k, "2", fresh(3)}, {"ZREM", k, e(2)}}, {{"ZADD", k, "2", e(3), "1", e(4)}}, {{"ZADD", k, "INCR", "0.25", e(4)}}}
	}
	ss.Run([]string{"DEL", k})
	ss.Run(bigFill(k, t, n, r)...)
	if t == 'z' {
		ss.Run([]string{"ZADD", k, "1000000", "high1", "2000000", "high2", "3000000", "high3", "-1000000", "low1", "-2000000", "low2", "-3000000", "low3"})
	}
	r.Shuffle(len(swaps), func(i, j int) { swaps[i], swaps[j] = swaps[j], swaps[i] })
	for i, s := range swaps {
		if i == 0 || r.Intn(2) == 0 {
			ss.Run(reads...)
		}
		// also with nothing but the change in between, and in one pipeline
		if r.Intn(2) == 0 {
			for _, c := range s {
				ss.Run(c)
			}
			ss.Run(reads...)
		} else {
			ss.Run(append(append([][]string{}, s...), reads...)...)
		}
		ss.R.Count("big values read, changed at the same size and read alike", 1)
	}
	ss.Run([]string{"DEL", k, "other", "away", "one"})
}

// placed looks at a place of a long list or sorted set, changes what is before,
// at or behind it, often leaving the size as it was, and looks there again.
func placed(ss *kit.Session, t byte, n int, r *rand.Rand) {
	k := "placed"
	ss.Run([]string{"DEL", k})
	ss.Run(bigFill(k, t, n, rand.New(rand.NewSource(3)))...)
	near := func(p int) int {
		if r.Intn(3) == 0 {
			return p
		}
		return max(0, min(n-3, p+r.Intn(121)-60))
	}
	fresh := 0
	for i := 0; i < 90; i++ {
		p := r.Intn(n - 2)
		if r.Intn(4) == 0 {
			p = []int{0, 1, n/2 - 1, n / 2, n - 4, n - 3}[r.Intn(6)]
		}
		var look func(q int) []string
		var add, take func() []string
		if t == 'l' {
			look = func(q int) []string {
				x := it(q)
				if r.Intn(3) == 0 {
					x = it(q - len(ss.M.K[k].L))
				}
				switch r.Intn(6) {
				case 0:
					fresh++
					return []string{"LSET", k, x, "set" + it(fresh)}
				case 1:
					return []string{"LRANGE", k, x, it(q + r.Intn(4))}
				}
				return []string{"LINDEX", k, x}
			}
			at := func() string { return ss.M.K[k].L[near([]int{p, r.Intn(n - 2)}[r.Intn(2)])] }
			add = func() []string {
				fresh++
				f := "new" + it(fresh)
				return [][]string{{"LINSERT", k, "before", at(), f}, {"LINSERT", k, "after", at(), f}, {"LINSERT", k, "before", at(), f}, {"LPUSH", k, f}, {"RPUSH", k, f}}[r.Intn(5)]
			}
			take = func() []string {
				return [][]string{{"LREM", k, "1", at()}, {"LREM", k, "-1", at()}, {"LREM", k, "0", at()}, {"LPOP", k}, {"RPOP", k}}[r.Intn(5)]
			}
		} else {
			order := func() []kit.ZM { return ss.M.Order(k) }
			look = func(q int) []string {
				o := order()
				q = min(q, len(o)-1)
				switch r.Intn(5) {
				case 0:
					return []string{"ZRANK", k, o[q].M}
				case 1:
					return []string{"ZREVRANGE", k, it(len(o) - 1 - q), it(len(o) - 1 - q + r.Intn(3)), "WITHSCORES"}
				case 2:
					return []string{"ZCOUNT", k, "-inf", "(" + strconv.FormatFloat(o[q].S, 'g', -1, 64)}
				}
				return []string{"ZRANGE", k, it(q), it(q + r.Intn(3)), "WITHSCORES"}
			}
			at := func() kit.ZM { o := order(); return o[near([]int{p, r.Intn(n - 2)}[r.Intn(2)])] }
			add = func() []string {
				fresh++
				x := strconv.FormatFloat(at().S+[]float64{0, 0, .125, -.125}[r.Intn(4)], 'g', -1, 64)
				f := []string{"new", "a", "z"}[r.Intn(3)] + it(fresh)
				return [][]string{{"ZADD", k, x, f}, {"ZADD", k, "incr", x, f}, {"ZINCR", k, x, f}}[r.Intn(3)]
			}
			take = func() []string {
				return [][]string{{"ZREM", k, at().M}, {"ZREM", k, at().M}, {"ZPOPMIN", k}, {"ZPOPMAX", k}}[r.Intn(4)]
			}
		}
		ss.Run(look(near(p)), look(p))
		for j := []int{1, 1, 2}[r.Intn(3)]; j > 0; j-- {
			if r.Intn(2) == 0 {
				ss.Run(add())
				ss.Run(take())
			} else {
				ss.Run(take())
				ss.Run(add())
			}
		}
		ss.Run(look(near(p)), look(near(p)))
		ss.R.Count("places looked at again after changes around them", 1)
		if i%30 == 29 {
			ss.Run(map[byte][]string{'l': {"LRANGE", k, "0", "-1"}, 'z': {"ZRANGE", k, "0", "-1", "WITHSCORES"}}[t])
		}
	}
	ss.Run([]string{"DEL", k})
}

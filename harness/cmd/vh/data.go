package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"verif/harness/kit"
)

// phase is one stretch of a random history.
type phase struct {
	mix    string
	keys   int
	uni    int
	maxArg int
	cmds   int
	audit  int // full audit about every so many commands
	deep   int
	bad    float64
	wrong  float64
	plain  bool
	fresh  bool // new key pool
}

const dataRule = "random histories (heavy-tailed generators, seeded) and directed sweeps run against the server binary over TCP, pipelined in random batches; each reply is judged by an executable reference model and the whole data set is read back from several sides; a case is one judged reply, non-trivial when it is neither an error, nil, empty nor 0; distinct by request and reply"

// history runs the phases on one fresh server.
func history(rep *kit.Report, seed int64, phases []phase) {
	s := launch(rep)
	defer s.Kill()
	ss := kit.NewSession(rep, s, fmt.Sprintf("seed%d", seed), seed)
	g := kit.NewGen(seed*7919+13, ss.M)
	runPhases(rep, ss, g, phases)
	healthy(rep, s)
}

func runPhases(rep *kit.Report, ss *kit.Session, g *kit.Gen, phases []phase) {
	for pi, p := range phases {
		g.Uni, g.MaxArg, g.Bad, g.Wrong, g.Plain = p.uni, p.maxArg, p.bad, p.wrong, p.plain
		if p.fresh || len(g.Keys) == 0 {
			g.SetKeys(fmt.Sprintf("k%d:", pi%10), p.keys)
		}
		mix := kit.NewMix(p.mix)
		since := 0
		again := newEcho(g.Rand)
		for done := 0; done < p.cmds; {
			n := 1
			if g.Intn(3) > 0 {
				n = 1 + g.Intn(40)
			}
			cmds := make([][]string, 0, n)
			for i := 0; i < n; i++ {
				c := g.Cmd(mix.Pick(g.Rand))
				cmds = append(append(cmds, c), again.after(c)...)
			}
			ss.Run(cmds...)
			done += len(cmds)
			since += len(cmds)
			if since >= p.audit {
				ss.Audit(g.Keys, p.deep)
				since = 0
			}
			for _, v := range ss.M.K {
				rep.Max("largest "+kit.TypeName(v.T), int64(len(v.L)+len(v.M)+len(v.H)+len(v.Z)))
			}
		}
		ss.Audit(g.Keys, 2*p.deep)
	}
	rep.Count("histories", 1)
	rep.Sample("%s", tail(ss, 3))
}

// echo remembers the latest reads of each key, to issue the very same ones
// again once the key has been written to.
type echo struct {
	r     *rand.Rand
	reads map[string][][]string
}

func newEcho(r *rand.Rand) *echo { return &echo{r, map[string][][]string{}} }

var readOnly = map[string]bool{}

func init() {
	for _, c := range strings.Fields("get mget type exists keys llen lrange lindex hget hmget hgetall hkeys hvals hlen hexists hstrlen scard sismember smembers sdiff sinter sunion zcard zcount zrange zrevrange zrangebyscore zrank zscore") {
		readOnly[c] = true
	}
}

// after gives the reads to repeat after c.
func (e *echo) after(c []string) [][]string {
	if len(c) < 2 || len(c) > 8 {
		return nil
	}
	name := strings.ToLower(c[0])
	many := name == "mget" || name == "exists" || strings.HasPrefix(name, "sdiff") || strings.HasPrefix(name, "sunion") || strings.HasPrefix(name, "sinter")
	keys := c[1:2]
	if many || name == "del" {
		keys = c[1:]
	}
	if readOnly[name] {
		for _, k := range keys {
			l := append(e.reads[k], c)
			if len(l) > 6 {
				l = l[1:]
			}
			e.reads[k] = l
		}
		return nil
	}
	var out [][]string
	for _, k := range keys {
		if l := e.reads[k]; len(l) > 0 && e.r.Intn(4) == 0 {
			out = append(out, l[e.r.Intn(len(l))])
			if e.r.Intn(2) == 0 {
				out = append(out, l[len(l)-1])
			}
		}
	}
	return out
}

func tail(ss *kit.Session, n int) string { return ss.Tail(n) }

// scaled repeats a phase's length by the tier.
func scaled(rep *kit.Report, ps []phase) []phase {
	out := append([]phase(nil), ps...)
	return out
}

// histories runs n seeds in parallel, n grows with the tier.
func histories(rep *kit.Report, n int, mk func(r *rand.Rand) []phase) {
	bin(rep, "plain")
	parallel(n*rep.Scale, 8, func(i int) {
		seed := rep.Seed*1000003 + int64(i)
		history(rep, seed, mk(rand.New(rand.NewSource(seed))))
	})
}

// session on a fresh server for directed sweeps
func directed(rep *kit.Report, name string, f func(ss *kit.Session)) {
	s := launch(rep)
	defer s.Kill()
	ss := kit.NewSession(rep, s, name, rep.Seed)
	f(ss)
	rep.Count("directed sweeps", 1)
	healthy(rep, s)
}

func each(fs ...func()) []func() { return fs }

func both(fs []func()) {
	parallel(len(fs), 8, func(i int) { fs[i]() })
}

func it(n int) string { return strconv.Itoa(n) }

const gen = "type exists del:2 keys"

func init() {
	register("C01", dataRule, c01)
	register("C02", dataRule, c02)
	register("C03", dataRule, c03)
	register("C04", dataRule, c04)
	register("C05", dataRule, c05)
	register("C06", dataRule, c06)
	register("C07", dataRule, c07)
	register("C08", dataRule, c08)
	register("C09", dataRule, c09)
	register("C10", dataRule, c10)
}

// ---- C01 ----

func c01(rep *kit.Report) {
	base := "set:6 get:5 mset:3 mget:4 append:4 incr:4 incrby:5 decr:4 decrby:5 del:2 type exists"
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 4, uni: 8, maxArg: 6, cmds: 6000, audit: 120, bad: .04, fresh: true},
					{mix: base, keys: 60, uni: 8, maxArg: 40, cmds: 4000, audit: 600, bad: .03, fresh: true},
					{mix: "incr:4 incrby:9 decr:4 decrby:9 set get:3 append", keys: 3, uni: 8, maxArg: 3, cmds: 6000, audit: 150, bad: .03, fresh: true},
					{mix: base, keys: 2500, uni: 8, maxArg: 200, cmds: 3000, audit: 3001, plain: true, fresh: true},
					{mix: base + " lpush sadd zadd hset", keys: 6, uni: 8, maxArg: 5, cmds: 3000, audit: 150, wrong: .4, fresh: true},
				}
			})
		},
		bigValues(rep, "s", 70000),
		func() { directed(rep, "boundaries", sweepStrings) },
		func() {
			// many counters over a long time: no drift
			directed(rep, "long counters", func(ss *kit.Session) {
				r := rand.New(rand.NewSource(rep.Seed + 5))
				for i := 0; i < 400; i++ {
					var cs [][]string
					for j := 0; j < 60; j++ {
						k := "c" + it(r.Intn(5))
						switch r.Intn(4) {
						case 0:
							cs = append(cs, []string{"INCR", k})
						case 1:
							cs = append(cs, []string{"DECR", k})
						case 2:
							cs = append(cs, []string{"INCRBY", k, strconv.FormatInt(r.Int63n(1<<40)-1<<39, 10)})
						default:
							cs = append(cs, []string{"DECRBY", k, strconv.FormatInt(r.Int63n(1<<40)-1<<39, 10)})
						}
					}
					ss.Run(cs...)
				}
			})
		},
	))
	for _, c := range strings.Fields("set get mset mget append incr incrby decr decrby") {
		rep.Require("ok "+c, 200)
	}
}

// ---- C02 ----

func c02(rep *kit.Report) {
	base := "lpush:6 rpush:6 lpop:4 rpop:4 llen lrange:4 lrem:6 lindex:5 lset:4 linsert:5 del type"
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 3, uni: 8, maxArg: 5, cmds: 7000, audit: 60, deep: 24, bad: .03, fresh: true, plain: true},
					{mix: base, keys: 6, uni: 8, maxArg: 3, cmds: 3000, audit: 80, deep: 16, bad: .03, fresh: true},
					{mix: "lpush:6 rpush:6 lset:2 linsert:5 lindex:3 lrange", keys: 2, uni: 8, maxArg: 30, cmds: 700, audit: 350, deep: 40, fresh: true, plain: true},
					{mix: "lrem:4 lpop:2 rpop:2 linsert:4 lset:4 lindex:4 lrange:2 lpush rpush", keys: 2, uni: 8, maxArg: 3, cmds: 1500, audit: 300, deep: 40, plain: true},
					{mix: "lpop:6 rpop:6 lrem:6 lindex lpush", keys: 2, uni: 8, maxArg: 3, cmds: 1500, audit: 100, deep: 40, plain: true},
				}
			})
		},
		func() { directed(rep, "lrem sweep", sweepLRem) },
		bigValues(rep, "l", 70000),
		func() { directed(rep, "range sweep", sweepLRange) },
		func() { directed(rep, "insert/set sweep", sweepLInsert) },
		func() { directed(rep, "pop sweep", sweepLPop) },
	))
	for _, c := range strings.Fields("lpush rpush lpop rpop llen lrange lrem lindex lset linsert") {
		rep.Require("ok "+c, 200)
	}
}

// every list over {a,b} up to 5 long, every count, then use it from both ends
func sweepLRem(ss *kit.Session) {
	for n := 1; n <= 5; n++ {
		for bits := 0; bits < 1<<n; bits++ {
			push := []string{"RPUSH", "l"}
			for i := 0; i < n; i++ {
				push = append(push, string(rune('a'+bits>>i&1)))
			}
			for _, c := range []string{"-6", "-3", "-2", "-1", "0", "1", "2", "3", "6"} {
				ss.Run([]string{"DEL", "l"}, push, []string{"LREM", "l", c, "a"})
				ss.Run(kit.AuditCmds(ss.M, "l", ss.Rnd, 8)...)
				// the links must still carry further surgery
				ss.Run([]string{"LPUSH", "l", "x"}, []string{"RPUSH", "l", "y"}, []string{"LREM", "l", "-1", "b"}, []string{"LRANGE", "l", "0", "-1"}, []string{"RPOP", "l", "20"}, []string{"LLEN", "l"}, []string{"EXISTS", "l"})
			}
		}
	}
}

func sweepLRange(ss *kit.Session) {
	for n := 0; n <= 6; n++ {
		ss.Run([]string{"DEL", "l"})
		for i := 0; i < n; i++ {
			ss.Run([]string{"RPUSH", "l", "e" + it(i)})
		}
		var cs [][]string
		for i := -9; i <= 9; i++ {
			for j := -9; j <= 9; j++ {
				cs = append(cs, []string{"LRANGE", "l", it(i), it(j)})
			}
			cs = append(cs, []string{"LINDEX", "l", it(i)})
		}
		ss.Run(cs...)
	}
	// long lists: indexes from both ends must meet
	for _, n := range []int{31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 600, 1025} {
		push := []string{"RPUSH", "big"}
		for i := 0; i < n; i++ {
			push = append(push, "e"+it(i))
		}
		cs := [][]string{{"DEL", "big"}, push}
		for i := 0; i < n; i += 1 + n/50 {
			cs = append(cs, []string{"LINDEX", "big", it(i)}, []string{"LINDEX", "big", it(-i - 1)}, []string{"LRANGE", "big", it(i), it(i + 3)}, []string{"LRANGE", "big", it(-i - 3), it(-i - 1)})
		}
		cs = append(cs, []string{"LRANGE", "big", "0", "-1"}, []string{"LPOP", "big", it(n / 3)}, []string{"RPOP", "big", it(n / 3)}, []string{"LRANGE", "big", "0", "-1"}, []string{"LREM", "big", "0", "e" + it(n/2)}, []string{"LLEN", "big"}, []string{"LRANGE", "big", "0", "-1"}, []string{"LINDEX", "big", "-1"})
		ss.Run(cs...)
	}
}

func sweepLInsert(ss *kit.Session) {
	for n := 0; n <= 5; n++ {
		for bits := 0; bits < 1<<n; bits++ {
			push := []string{"RPUSH", "l"}
			for i := 0; i < n; i++ {
				push = append(push, string(rune('a'+bits>>i&1)))
			}
			reset := func() {
				ss.Run([]string{"DEL", "l"})
				if n > 0 {
					ss.Run(push)
				}
			}
			for _, w := range []string{"before", "AFTER"} {
				for _, pv := range []string{"a", "b", "c"} {
					reset()
					ss.Run([]string{"LINSERT", "l", w, pv, "N"})
					ss.Run(kit.AuditCmds(ss.M, "l", ss.Rnd, 8)...)
					ss.Run([]string{"LINSERT", "l", w, "N", "M"}, []string{"LREM", "l", "-1", "N"}, []string{"LRANGE", "l", "0", "-1"}, []string{"RPOP", "l", "2"}, []string{"LINDEX", "l", "-1"}, []string{"LPOP", "l", "9"})
				}
			}
			for i := -n - 2; i <= n+1; i++ {
				reset()
				ss.Run([]string{"LSET", "l", it(i), "S"})
				ss.Run(kit.AuditCmds(ss.M, "l", ss.Rnd, 8)...)
			}
		}
	}
}

func sweepLPop(ss *kit.Session) {
	for n := 0; n <= 6; n++ {
		for _, pop := range []string{"LPOP", "RPOP"} {
			for c := 0; c <= n+2; c++ {
				for _, side := range []string{"LPUSH", "RPUSH"} {
					ss.Run([]string{"DEL", "l"})
					if n > 0 {
						push := []string{side, "l"}
						for i := 0; i < n; i++ {
							push = append(push, "e"+it(i))
						}
						ss.Run(push)
					}
					if c == 0 {
						ss.Run([]string{pop, "l"})
					} else {
						ss.Run([]string{pop, "l", it(c)})
					}
					ss.Run(kit.AuditCmds(ss.M, "l", ss.Rnd, 8)...)
					ss.Run([]string{"LPUSH", "l", "h"}, []string{"RPUSH", "l", "t"}, []string{"LRANGE", "l", "0", "-1"}, []string{"LINDEX", "l", "-2"}, []string{"LINDEX", "l", "1"}, []string{"RPOP", "l"}, []string{"LPOP", "l"})
				}
			}
		}
	}
}

// ---- C03 ----

func c03(rep *kit.Report) {
	base := "hset:6 hmset:3 hsetnx:4 hget:5 hmget:3 hgetall:2 hexists:3 hdel:5 hkeys hvals hlen:2 hincrby:6 hincrbyfloat:5 del type"
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 3, uni: 8, maxArg: 4, cmds: 8000, audit: 80, deep: 10, bad: .04, fresh: true},
					{mix: base, keys: 3, uni: 60, maxArg: 12, cmds: 3500, audit: 250, deep: 20, bad: .02, fresh: true},
					{mix: "hset:6 hmset:3 hsetnx hincrby hincrbyfloat hget", keys: 1, uni: 3000, maxArg: 80, cmds: 200, audit: 150, deep: 30, fresh: true},
					{mix: "hdel:6 hset hsetnx:2 hget hincrby hexists hlen hmget", keys: 1, uni: 3000, maxArg: 60, cmds: 500, audit: 250, deep: 30},
					{mix: "hincrby:6 hincrbyfloat:6 hset:2 hget:3 hdel", keys: 2, uni: 5, maxArg: 2, cmds: 5000, audit: 150, deep: 10, bad: .03, fresh: true},
				}
			})
		},
		func() { directed(rep, "hash values", sweepHash) },
		bigValues(rep, "h", 70000),
	))
	for _, c := range strings.Fields("hset hmset hsetnx hget hmget hgetall hexists hdel hkeys hvals hlen hincrby hincrbyfloat") {
		rep.Require("ok "+c, 150)
	}
}

func sweepHash(ss *kit.Session) {
	vals := kit.OddValues()
	for _, v := range vals {
		ss.Run([]string{"DEL", "h"}, []string{"HSET", "h", "f", v}, []string{"HGET", "h", "f"}, []string{"HMGET", "h", "f", "g", "f"}, []string{"HVALS", "h"}, []string{"HGETALL", "h"}, []string{"HLEN", "h"},
			[]string{"HSETNX", "h", "f", "other"}, []string{"HGET", "h", "f"}, []string{"HSETNX", "h", v, v}, []string{"HGET", "h", v}, []string{"HKEYS", "h"}, []string{"HLEN", "h"},
			[]string{"HMSET", "h2", "a", v, "b", v, "a", "last"}, []string{"HGETALL", "h2"}, []string{"HLEN", "h2"},
			[]string{"HINCRBY", "h", "f", "7"}, []string{"HGET", "h", "f"}, []string{"HLEN", "h"}, []string{"HVALS", "h"},
			[]string{"HSET", "h", "f", v}, []string{"HINCRBYFLOAT", "h", "f", "0.5"}, []string{"HGET", "h", "f"}, []string{"HLEN", "h"},
			[]string{"HINCRBY", "h", "new", v}, []string{"HGET", "h", "new"}, []string{"HLEN", "h"}, []string{"HINCRBYFLOAT", "h", "newf", v}, []string{"HGET", "h", "newf"}, []string{"HLEN", "h"}, []string{"HKEYS", "h"},
			[]string{"HDEL", "h", "f", "f", "nope", v}, []string{"HLEN", "h"}, []string{"HEXISTS", "h", "f"}, []string{"HGETALL", "h"}, []string{"DEL", "h", "h2"})
		// failed increments on a missing key or field create nothing
		ss.Run([]string{"HINCRBY", "nokey", "f", v}, []string{"EXISTS", "nokey"}, []string{"HLEN", "nokey"}, []string{"DEL", "nokey"}, []string{"HINCRBYFLOAT", "nokey", "f", v}, []string{"EXISTS", "nokey"}, []string{"HLEN", "nokey"}, []string{"DEL", "nokey"})
	}
	edge := []string{"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "0", "1", "-1", "4611686018427387904", "-4611686018427387904", "9007199254740993", "-9007199254740993"}
	for _, v := range edge {
		for _, d := range edge {
			ss.Run([]string{"HSET", "h", "n", v, "keep", "1"}, []string{"HINCRBY", "h", "n", d}, []string{"HGET", "h", "n"}, []string{"HLEN", "h"}, []string{"HDEL", "h", "n"}, []string{"HINCRBY", "h", "n", v}, []string{"HINCRBY", "h", "n", d}, []string{"HGET", "h", "n"}, []string{"HGETALL", "h"})
		}
	}
	fl := []string{"0.5", "-0.5", "1.25", "1e300", "-1e300", "1.7976931348623157e308", "-1.7976931348623157e308", "1e-300", "123456.789", "0.1", "0.2"}
	for _, v := range fl {
		for _, d := range fl {
			ss.Run([]string{"HSET", "h", "n", v}, []string{"HINCRBYFLOAT", "h", "n", d}, []string{"HGET", "h", "n"}, []string{"HDEL", "h", "n"}, []string{"HINCRBYFLOAT", "h", "n", v}, []string{"HINCRBYFLOAT", "h", "n", d}, []string{"HGET", "h", "n"}, []string{"HLEN", "h"})
		}
	}
	// fields and values that look alike stay apart
	ss.Run([]string{"DEL", "h"})
	for i, v := range vals {
		ss.Run([]string{"HSET", "h", v, it(i)})
	}
	ss.Audit(nil, 200)
	for i, v := range vals {
		if i%2 == 0 {
			ss.Run([]string{"HDEL", "h", v})
		}
	}
	ss.Audit(nil, 200)
}

// ---- C04 ----

func c04(rep *kit.Report) {
	base := "sadd:7 srem:6 spop:5 sismember:4 smembers:2 scard:3 del type"
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 3, uni: 9, maxArg: 5, cmds: 8000, audit: 80, deep: 12, bad: .03, fresh: true},
					{mix: base, keys: 4, uni: 120, maxArg: 30, cmds: 4000, audit: 250, deep: 30, bad: .02, fresh: true},
					{mix: "sadd:9 srem spop sismember:2 scard", keys: 1, uni: 9000, maxArg: 150, cmds: 250, audit: 120, deep: 60, fresh: true},
					{mix: "sadd:2 srem:7 spop:3 sismember:2 scard:2", keys: 1, uni: 9000, maxArg: 100, cmds: 350, audit: 150, deep: 60},
					{mix: base, keys: 2, uni: 5, maxArg: 3, cmds: 4000, audit: 60, deep: 12, wrong: .05, fresh: true},
				}
			})
		},
		bigValues(rep, "S", 70000),
		func() { directed(rep, "set sweep", sweepSet) },
	))
	for _, c := range strings.Fields("sadd srem spop sismember smembers scard") {
		rep.Require("ok "+c, 300)
	}
}

// ---- C05 ----

func c05(rep *kit.Report) {
	base := "sadd:5 srem:5 spop sdiff:4 sinter:4 sunion:4 sdiffstore:5 sinterstore:5 sunionstore:5 smove:8 del:2 smembers scard"
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 5, uni: 9, maxArg: 4, cmds: 8000, audit: 40, deep: 12, bad: .02, fresh: true},
					{mix: base, keys: 12, uni: 100, maxArg: 12, cmds: 2500, audit: 120, deep: 12, fresh: true},
					{mix: base, keys: 4, uni: 6, maxArg: 3, cmds: 4000, audit: 30, deep: 12, wrong: .05, fresh: true},
					{mix: base, keys: 4, uni: 1500, maxArg: 60, cmds: 500, audit: 120, deep: 12, fresh: true},
					{mix: base + " set:1 lpush:1", keys: 6, uni: 6, maxArg: 3, cmds: 2500, audit: 30, deep: 12, wrong: .2, fresh: true},
				}
			})
		},
		func() { directed(rep, "algebra sweep", sweepAlgebra) },
		func() { directed(rep, "aliasing sweep", sweepAlias) },
		func() { directed(rep, "smove sweep", sweepMove) },
		bigValues(rep, "S", 70000),
	))
	for _, c := range strings.Fields("sdiff sinter sunion sdiffstore sinterstore sunionstore smove") {
		rep.Require("ok "+c, 300)
	}
}

// all triples of subsets of {a,b}, missing sets included, all operations
func sweepAlgebra(ss *kit.Session) {
	sub := func(k string, bits int) []string {
		c := []string{"SADD", k}
		for i := 0; i < 3; i++ {
			if bits>>i&1 == 1 {
				c = append(c, string(rune('a'+i)))
			}
		}
		return c
	}
	for a := 0; a < 8; a++ {
		for b := 0; b < 8; b++ {
			for c := 0; c < 4; c++ {
				cs := [][]string{{"DEL", "A", "B", "C", "D"}}
				for _, x := range [][]string{sub("A", a), sub("B", b), sub("C", c)} {
					if len(x) > 2 {
						cs = append(cs, x)
					}
				}
				for _, op := range []string{"SDIFF", "SINTER", "SUNION"} {
					for _, src := range [][]string{{"A"}, {"A", "B"}, {"B", "A"}, {"A", "A"}, {"A", "B", "C"}, {"C", "B", "A"}, {"A", "missing"}, {"missing", "A"}, {"A", "missing", "B"}, {"missing"}, {"A", "B", "A"}} {
						cs = append(cs, append([]string{op}, src...))
						cs = append(cs, append([]string{op + "STORE", "D"}, src...), []string{"SMEMBERS", "D"}, []string{"EXISTS", "D"}, []string{"SCARD", "D"})
					}
				}
				cs = append(cs, []string{"SMEMBERS", "A"}, []string{"SMEMBERS", "B"}, []string{"SMEMBERS", "C"}, []string{"SCARD", "A"}, []string{"SCARD", "B"})
				ss.Run(cs...)
			}
		}
	}
}

func sweepAlias(ss *kit.Session) {
	fill := [][]string{{"DEL", "A", "B", "C", "D"}, {"SADD", "A", "1", "2", "3"}, {"SADD", "B", "2", "3", "4"}, {"SADD", "C", "3", "9"}}
	mut := func(k string) [][]string {
		return [][]string{{"SADD", k, "new"}, {"SREM", k, "3"}, {"SPOP", k}, {"DEL", k}, {"SMOVE", k, "other", "2"}, {"SADD", k, "3"}}
	}
	for _, op := range []string{"SDIFFSTORE", "SINTERSTORE", "SUNIONSTORE"} {
		for _, src := range [][]string{{"A"}, {"A", "B"}, {"A", "missing"}, {"missing", "A"}, {"A", "A"}, {"A", "B", "C"}, {"A", "C", "missing"}} {
			for _, dst := range []string{"D", "A", "B", "C"} {
				for _, who := range []string{"dst", "src"} {
					k := dst
					if who == "src" {
						k = src[0]
					}
					for i := range mut(k) {
						for _, f := range fill {
							ss.Run(f)
						}
						ss.Run(append([]string{op, dst}, src...))
						ss.Run(mut(k)[i])
						ss.Audit([]string{"A", "B", "C", "D", "other", "missing"}, 6)
						// chain: the copy of a copy
						ss.Run([]string{"SUNIONSTORE", "E", dst}, []string{"SADD", "E", "deep"}, []string{"SREM", dst, "3"}, []string{"SMEMBERS", "E"}, []string{"SMEMBERS", dst}, []string{"SMEMBERS", src[0]}, []string{"DEL", "E", "other"})
					}
				}
			}
		}
	}
	// the destination replaces a key of any type
	for _, mk := range [][]string{{"SET", "D", "x"}, {"RPUSH", "D", "1", "2"}, {"HSET", "D", "f", "v"}, {"ZADD", "D", "1", "m"}, {"SADD", "D", "old"}} {
		for _, op := range [][]string{{"SUNIONSTORE", "D", "A", "B"}, {"SINTERSTORE", "D", "A", "B"}, {"SDIFFSTORE", "D", "A", "B"}, {"SINTERSTORE", "D", "A", "missing"}, {"SUNIONSTORE", "D", "missing"}, {"SDIFFSTORE", "D", "A", "A"}} {
			for _, f := range fill {
				ss.Run(f)
			}
			ss.Run(mk, op)
			ss.Audit([]string{"A", "B", "C", "D"}, 6)
		}
	}
	// a source of another type refuses and keeps everything
	for _, mk := range [][]string{{"SET", "W", "x"}, {"RPUSH", "W", "1", "2"}, {"HSET", "W", "f", "v"}, {"ZADD", "W", "1", "m"}} {
		for _, op := range []string{"SUNION", "SINTER", "SDIFF"} {
			for _, src := range [][]string{{"W"}, {"A", "W"}, {"W", "A"}, {"missing", "W"}, {"A", "missing", "W"}, {"W", "missing"}} {
				for _, f := range fill {
					ss.Run(f)
				}
				ss.Run(mk, append([]string{op}, src...), append([]string{op + "STORE", "A"}, src...), append([]string{op + "STORE", "D"}, src...), append([]string{op + "STORE", "W"}, src...))
				ss.Audit([]string{"A", "B", "C", "D", "W"}, 6)
				ss.Run([]string{"DEL", "W"})
			}
		}
	}
}

func sweepMove(ss *kit.Session) {
	for _, srcN := range []int{0, 1, 2, 40} {
		for _, tgt := range []string{"none", "with", "without", "same", "string", "list", "zset", "hash"} {
			for _, has := range []bool{true, false} {
				ss.Run([]string{"DEL", "S", "T"})
				for i := 0; i < srcN; i++ {
					ss.Run([]string{"SADD", "S", "m" + it(i)})
				}
				t := "T"
				switch tgt {
				case "with":
					ss.Run([]string{"SADD", "T", "m0", "q"})
				case "without":
					ss.Run([]string{"SADD", "T", "q"})
				case "same":
					t = "S"
				case "string":
					ss.Run([]string{"SET", "T", "v"})
				case "list":
					ss.Run([]string{"RPUSH", "T", "m0"})
				case "zset":
					ss.Run([]string{"ZADD", "T", "1", "m0"})
				case "hash":
					ss.Run([]string{"HSET", "T", "m0", "1"})
				}
				m := "m0"
				if !has {
					m = "absent"
				}
				ss.Run([]string{"SMOVE", "S", t, m})
				ss.Audit([]string{"S", "T"}, 50)
				ss.Run([]string{"SMOVE", t, "S", m}, []string{"SMOVE", "S", t, m})
				ss.Audit([]string{"S", "T"}, 50)
				ss.Run([]string{"SADD", "S", "after"}, []string{"SREM", "T", "m0"})
				ss.Audit([]string{"S", "T"}, 50)
			}
		}
	}
}

// ---- C06 ----

func c06(rep *kit.Report) {
	base := "zadd:9 zincr:4 zrem:4 zpopmin:2 zpopmax:2 zscore:3 zrank:4 zrange:4 zrevrange:4 zcard:2 del type"
	both(each(
		func() {
			histories(rep, 10, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 3, uni: 8, maxArg: 4, cmds: 7000, audit: 60, deep: 10, bad: .03, fresh: true},
					{mix: base, keys: 3, uni: 50, maxArg: 6, cmds: 5000, audit: 150, deep: 24, bad: .02, fresh: true},
					{mix: "zadd:9 zincr:3 zrem zrank:2 zrange zrevrange zpopmin", keys: 1, uni: 2500, maxArg: 60, cmds: 250, audit: 120, deep: 60, fresh: true},
					{mix: "zadd:4 zincr:5 zrem:5 zrank:4 zscore:2 zpopmin zpopmax", keys: 1, uni: 2500, maxArg: 8, cmds: 1200, audit: 400, deep: 60},
					{mix: "zrem:6 zpopmin:5 zpopmax:5 zrank:2 zincr", keys: 1, uni: 2500, maxArg: 30, cmds: 400, audit: 200, deep: 60},
					{mix: base, keys: 2, uni: 200, maxArg: 10, cmds: 2500, audit: 300, deep: 30, wrong: .03, fresh: true},
				}
			})
		},
		func() { directed(rep, "zset sweep", sweepZ) },
		bigValues(rep, "z", 70000),
		func() { directed(rep, "zadd flags", sweepZAdd) },
		func() { directed(rep, "zset order", sweepZOrder) },
	))
	for _, c := range strings.Fields("zadd zincr zrem zpopmin zpopmax zscore zrank zrange zrevrange zcard") {
		rep.Require("ok "+c, 300)
	}
}

func sweepZ(ss *kit.Session) {
	ties := [][]string{{"1", "2", "3", "4", "5", "6"}, {"1", "1", "1", "1", "1", "1"}, {"1", "1", "2", "2", "3", "3"}, {"-inf", "-1", "0", "0", "1", "inf"}, {"5", "4", "3", "2", "1", "0"}}
	mem := []string{"b", "a", "d", "c", "f", "e"}
	for _, sc := range ties {
		for n := 0; n <= 6; n++ {
			fill := func() {
				ss.Run([]string{"DEL", "z"})
				for i := 0; i < n; i++ {
					ss.Run([]string{"ZADD", "z", sc[i], mem[i]})
				}
			}
			fill()
			var cs [][]string
			for i := -8; i <= 8; i++ {
				for j := -8; j <= 8; j++ {
					cs = append(cs, []string{"ZRANGE", "z", it(i), it(j)}, []string{"ZREVRANGE", "z", it(i), it(j), "WITHSCORES"})
				}
			}
			ss.Run(cs...)
			for _, pop := range []string{"ZPOPMIN", "ZPOPMAX"} {
				for c := -1; c <= n+2; c++ {
					fill()
					if c < 0 {
						ss.Run([]string{pop, "z"})
					} else {
						ss.Run([]string{pop, "z", it(c)})
					}
					ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 10)...)
					// what was popped is really gone and can come back
					ss.Run([]string{"ZSCORE", "z", mem[0]}, []string{"ZADD", "z", "3", mem[0], "2.5", "new"}, []string{"ZRANGE", "z", "0", "-1", "WITHSCORES"}, []string{"ZREVRANGE", "z", "0", "-1"}, []string{"ZINCR", "z", "0", mem[0]}, []string{"ZCARD", "z"})
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					fill()
					ss.Run([]string{"ZREM", "z", mem[i], "absent", mem[j]})
					ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 10)...)
					ss.Run([]string{"ZADD", "z", "1.5", "x"}, []string{"ZREVRANGE", "z", "0", "-1", "WITHSCORES"}, []string{"ZRANK", "z", "x"})
				}
				// move one member past its neighbours, onto and between their scores
				for _, to := range []string{"-inf", "-5", "0", "0.5", "1", "1.5", "2", "2.5", "3", "3.5", "4", "6", "7", "inf"} {
					fill()
					ss.Run([]string{"ZADD", "z", to, mem[i]})
					ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 10)...)
				}
			}
		}
	}
}

func sweepZAdd(ss *kit.Session) {
	flags := [][]string{{}, {"NX"}, {"XX"}, {"INCR"}, {"NX", "INCR"}, {"incr", "xx"}, {"nx", "xx"}, {"Xx", "Nx", "Incr"}}
	states := [][][]string{{}, {{"ZADD", "z", "1", "a"}}, {{"ZADD", "z", "1", "a", "2", "b", "2", "c"}}, {{"ZADD", "z", "inf", "a", "-inf", "b"}}}
	pairs := [][]string{{"1", "a"}, {"5", "a"}, {"2", "a"}, {"5", "new"}, {"3", "a", "4", "b"}, {"3", "a", "4", "a"}, {"1", "n1", "1", "n1"}, {"1", "n2", "2", "a", "3", "n2"}, {"inf", "a"}, {"-inf", "a"}, {"1", "n3", "-inf", "a"}, {"0", "a"}, {"-1", "a", "1", "a"}, {"1", "x", "nan", "y"}, {"1", "x", "bad", "a"}, {"1", "x", "2"}, {"2", "nx"}, {"0", "c", "0", "b", "0", "a"}}
	for _, st := range states {
		for _, fl := range flags {
			for _, p := range pairs {
				ss.Run([]string{"DEL", "z"})
				ss.Run(st...)
				ss.Run(append(append([]string{"ZADD", "z"}, fl...), p...))
				ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 10)...)
				ss.Run([]string{"EXISTS", "z"})
			}
		}
		for _, d := range []string{"0", "1", "-1", "0.5", "inf", "-inf", "nan", "", "x"} {
			for _, m := range []string{"a", "b", "new"} {
				ss.Run([]string{"DEL", "z"})
				ss.Run(st...)
				ss.Run([]string{"ZINCR", "z", d, m})
				ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 10)...)
			}
		}
	}
}

// order of member bytes, scores that differ in the last bit, and random
// arrival orders, many times over because node heights are random
func sweepZOrder(ss *kit.Session) {
	r := rand.New(rand.NewSource(99))
	mem := []string{"", "\x00", "\x00\x00", "\x01", " ", "0", "1", "10", "2", "A", "B", "Z", "a", "aa", "ab", "b", "z", "é", "日本", "\x7f", "\x80", "\xff", "\xff\xff", "\r\n"}
	for rep := 0; rep < 12; rep++ {
		ss.Run([]string{"DEL", "z"})
		for _, i := range r.Perm(len(mem)) {
			ss.Run([]string{"ZADD", "z", "7", mem[i]})
		}
		ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 100)...)
		for _, i := range r.Perm(len(mem)) {
			ss.Run([]string{"ZADD", "z", []string{"7", "7.000000000000001", "6.999999999999999"}[r.Intn(3)], mem[i]})
		}
		ss.Run(kit.AuditCmds(ss.M, "z", ss.Rnd, 100)...)
		for _, i := range r.Perm(len(mem)) {
			ss.Run([]string{"ZREM", "z", mem[i]}, []string{"ZRANGE", "z", "0", "-1"}, []string{"ZREVRANGE", "z", "0", "-1"})
		}
		// 300 members in random order, removed from random places, ranks all along
		n := 300
		for _, i := range r.Perm(n) {
			ss.Run([]string{"ZADD", "y", it(i / 3), "m" + it(i)})
		}
		ss.Run(kit.AuditCmds(ss.M, "y", ss.Rnd, 300)...)
		for q, i := range r.Perm(n) {
			switch r.Intn(3) {
			case 0:
				ss.Run([]string{"ZREM", "y", "m" + it(i)})
			case 1:
				ss.Run([]string{"ZADD", "y", it(r.Intn(120)), "m" + it(i)})
			default:
				ss.Run([]string{"ZINCR", "y", it(r.Intn(21) - 10), "m" + it(i)})
			}
			if q%60 == 0 {
				ss.Run(kit.AuditCmds(ss.M, "y", ss.Rnd, 300)...)
			}
		}
		ss.Run(kit.AuditCmds(ss.M, "y", ss.Rnd, 300)...)
		ss.Run([]string{"ZPOPMAX", "y", "50"}, []string{"ZPOPMIN", "y", "50"})
		ss.Run(kit.AuditCmds(ss.M, "y", ss.Rnd, 300)...)
		ss.Run([]string{"DEL", "y"})
	}
}

// ---- C07 ----

func c07(rep *kit.Report) {
	base := "zadd:5 zincr:2 zrem:2 zcount:8 zrangebyscore:8 zrange:5 zpopmin del"
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: base, keys: 3, uni: 8, maxArg: 4, cmds: 9000, audit: 600, deep: 10, bad: .05, fresh: true},
					{mix: base, keys: 2, uni: 60, maxArg: 8, cmds: 7000, audit: 900, deep: 24, bad: .03, fresh: true},
					{mix: "zadd:9 zcount:2 zrangebyscore", keys: 1, uni: 2000, maxArg: 60, cmds: 250, audit: 240, deep: 60, fresh: true},
					{mix: base, keys: 1, uni: 2000, maxArg: 6, cmds: 1000, audit: 600, deep: 60},
				}
			})
		},
		bigValues(rep, "z", 5000),
		func() { directed(rep, "interval sweep", sweepIntervals) },
	))
	for _, c := range strings.Fields("zcount zrangebyscore zrange") {
		rep.Require("ok "+c, 3000)
	}
}

const everything = "set:4 mset:2 get mget append:2 incr:2 incrby decr decrby " +
	"lpush:3 rpush:3 lpop:4 rpop:4 lrem:4 lset linsert lrange llen lindex " +
	"hset:3 hmset hsetnx:2 hdel:5 hincrby:2 hincrbyfloat:2 hget hgetall hlen hexists hkeys hvals hmget " +
	"sadd:3 srem:5 spop:3 smove:4 sdiffstore:2 sinterstore:2 sunionstore:2 sdiff sinter sunion smembers scard sismember " +
	"zadd:3 zincr:2 zrem:5 zpopmin:2 zpopmax:2 zrange zrevrange zrank zscore zcard zcount zrangebyscore " +
	"del:4 exists:4 type:4 keys:4 nocommand"

// ---- C08 ----

func c08(rep *kit.Report) {
	both(each(
		func() {
			histories(rep, 8, func(r *rand.Rand) []phase {
				return []phase{
					{mix: everything, keys: 8, uni: 4, maxArg: 3, cmds: 9000, audit: 60, deep: 6, bad: .05, wrong: .1, fresh: true},
					{mix: everything, keys: 8, uni: 3, maxArg: 2, cmds: 5000, audit: 40, deep: 6, wrong: .2, fresh: true},
					{mix: "set:5 lpush:2 sadd:2 zadd:2 hset:2 del:6 exists:3 type:3 keys:12", keys: 40, uni: 6, maxArg: 8, cmds: 3000, audit: 400, deep: 4, wrong: .1, fresh: true},
					{mix: "mset:5 del:2 exists:2 keys:3", keys: 1500, uni: 6, maxArg: 60, cmds: 400, audit: 390, deep: 4, plain: true, fresh: true},
				}
			})
		},
		func() { directed(rep, "life cycle", sweepLife) },
		func() { directed(rep, "absent keys", func(ss *kit.Session) { typeMatrix(ss, false, "n") }) },
		bigValues(rep, "slhSz", 5000),
		func() { directed(rep, "patterns", sweepGlob) },
		func() { directed(rep, "very many keys", manyKeys) },
		func() { directed(rep, "patterns", patterns) },
		func() { lasting(rep) },
	))
	for _, c := range strings.Fields("exists type keys del") {
		rep.Require("ok "+c, 1000)
	}
	rep.Require("most keys at once", 140000)
}

// every way a key can come and go
func sweepLife(ss *kit.Session) {
	create := [][][]string{
		{{"SET", "k", "v"}}, {{"SET", "k", ""}}, {{"MSET", "k", "v"}}, {{"APPEND", "k", "v"}}, {{"INCR", "k"}}, {{"DECR", "k"}}, {{"INCRBY", "k", "0"}}, {{"DECRBY", "k", "5"}},
		{{"LPUSH", "k", "a"}}, {{"RPUSH", "k", "a"}}, {{"SADD", "k", "a"}}, {{"ZADD", "k", "1", "a"}}, {{"ZADD", "k", "NX", "1", "a"}}, {{"ZADD", "k", "INCR", "1", "a"}}, {{"ZINCR", "k", "1", "a"}}, {{"ZINCR", "k", "0", "a"}},
		{{"HSET", "k", "a", "1"}}, {{"HMSET", "k", "a", "1"}}, {{"HSETNX", "k", "a", "1"}}, {{"HINCRBY", "k", "a", "1"}}, {{"HINCRBYFLOAT", "k", "a", "1.5"}}, {{"HINCRBY", "k", "a", "0"}}, {{"HINCRBYFLOAT", "k", "a", "0"}}, {{"HSET", "k", "a", ""}}, {{"HMSET", "k", "a", ""}}, {{"HSETNX", "k", "a", ""}},
		{{"APPEND", "k", ""}}, {{"MSET", "k", ""}}, {{"DECRBY", "k", "0"}}, {{"ZADD", "k", "0", "a"}}, {{"ZADD", "k", "INCR", "0", "a"}}, {{"LPUSH", "k", "a", ""}}, {{"SADD", "k", "a", "a"}}, {{"ZADD", "k", "-0", "a"}},
		{{"SADD", "src", "a"}, {"SUNIONSTORE", "k", "src"}}, {{"SADD", "src", "a"}, {"SINTERSTORE", "k", "src"}}, {{"SADD", "src", "a"}, {"SDIFFSTORE", "k", "src", "none"}}, {{"SADD", "src", "a", "b"}, {"SMOVE", "src", "k", "a"}}, {{"SADD", "src", "a"}, {"SMOVE", "src", "k", "a"}},
	}
	remove := map[byte][][][]string{
		's': {{{"DEL", "k"}}},
		'l': {{{"DEL", "k"}}, {{"LPOP", "k"}}, {{"RPOP", "k"}}, {{"LPOP", "k", "5"}}, {{"RPOP", "k", "1"}}, {{"LREM", "k", "0", "a"}}, {{"LREM", "k", "1", "a"}}, {{"LREM", "k", "-1", "a"}}, {{"LREM", "k", "-2", "a"}}},
		'S': {{{"DEL", "k"}}, {{"SREM", "k", "a"}}, {{"SPOP", "k"}}, {{"SPOP", "k", "3"}}, {{"SMOVE", "k", "dst", "a"}}, {{"SDIFFSTORE", "k", "k", "k"}}, {{"SINTERSTORE", "k", "k", "none"}}, {{"SUNIONSTORE", "k", "none"}}, {{"SREM", "k", "x", "a", "a"}}},
		'z': {{{"DEL", "k"}}, {{"ZREM", "k", "a"}}, {{"ZPOPMIN", "k"}}, {{"ZPOPMAX", "k"}}, {{"ZPOPMIN", "k", "9"}}, {{"ZPOPMAX", "k", "9"}}, {{"SUNIONSTORE", "k", "none"}}},
		'h': {{{"DEL", "k"}}, {{"HDEL", "k", "a"}}, {{"HDEL", "k", "a", "a", "b"}}},
	}
	pool := []string{"k", "src", "dst", "none"}
	for _, c := range create {
		ss.Run([]string{"DEL", "k", "src", "dst"})
		ss.Run(c...)
		t := ss.M.K["k"].T
		for _, rm := range remove[t] {
			ss.Run([]string{"DEL", "k", "src", "dst"})
			ss.Run(c...)
			ss.Audit(pool, 4)
			ss.Run(rm...)
			ss.Audit(pool, 4)
			// nothing of the old value shows when another type moves in
			for _, c2 := range create {
				t2 := []string(c2[len(c2)-1])[0]
				if ss.Rnd.Intn(3) > 0 {
					continue
				}
				ss.Run([]string{"DEL", "src", "dst"})
				ss.Run(c2...)
				ss.Run([]string{"TYPE", "k"}, []string{"EXISTS", "k", "k", "none"})
				ss.Run(kit.AuditCmds(ss.M, "k", ss.Rnd, 4)...)
				ss.Run([]string{"DEL", "k"}, []string{"EXISTS", "k"})
				_ = t2
			}
		}
		// replaced by SET, MSET and STORE commands
		for _, rp := range [][]string{{"SET", "k", "new"}, {"MSET", "x1", "1", "k", "new"}, {"SUNIONSTORE", "k", "other"}, {"SINTERSTORE", "k", "other", "other"}, {"SDIFFSTORE", "k", "other", "none"}} {
			ss.Run([]string{"DEL", "k", "src", "dst", "other"}, []string{"SADD", "other", "o1", "o2"})
			ss.Run(c...)
			ss.Run(rp)
			ss.Audit(append(pool, "other", "x1"), 4)
			ss.Run([]string{"DEL", "k", "x1", "other"})
		}
	}
	ss.Run([]string{"DEL", "k", "src", "dst", "other", "x1"})
	// reads and failures create nothing
	for _, c := range kit.Commands {
		g := kit.NewGen(3, ss.M)
		g.Plain = true
		g.Keys = []string{"ghost"}
		if c == "set" || c == "mset" {
			continue
		}
		n := kit.MinArgs[c]
		a := []string{c}
		for i := 0; i < n; i++ {
			a = append(a, "ghost")
		}
		for l := 1; l <= len(a); l++ {
			ss.Run(a[:l], []string{"EXISTS", "ghost"}, []string{"TYPE", "ghost"}, []string{"KEYS", "*"}, []string{"DEL", "ghost"})
		}
	}
	// many keys in one DEL / EXISTS
	r := rand.New(rand.NewSource(3))
	for i := 0; i < 60; i++ {
		n := 1 + r.Intn(200)
		ms := []string{"MSET"}
		for j := 0; j < n; j++ {
			ms = append(ms, "q"+it(j), "v")
		}
		ex, dl := []string{"EXISTS"}, []string{"DEL"}
		for j := 0; j < n; j++ {
			ex = append(ex, "q"+it(r.Intn(2*n)))
			dl = append(dl, "q"+it(r.Intn(2*n)))
		}
		ss.Run(ms, ex, dl, ex, []string{"KEYS", "q*"}, []string{"KEYS", "*"})
	}
	ss.Audit(nil, 4)
}

// patterns asks for every pattern that can be written with a few bytes in few of them, well formed or not.
func patterns(ss *kit.Session) {
	const abc = "[]-!a\\*?{,}^b"
	r := rand.New(rand.NewSource(ss.R.Seed + 71))
	ms := []string{"MSET"}
	for _, k := range []string{"", "a", "b", "c", "ab", "ba", "aa", "-", "!", "^", "[", "]", "\\", "*", "?", "{", "}", ",", "a-b", "[a]", "[a-b]", "a*", "*a", "!a", "^a", "a,b", "{a,b}", "aab", "abab", "\x00", "a\nb", "\xff", "é"} {
		ms = append(ms, k, "v")
	}
	ss.Run(ms)
	var cmds [][]string
	ask := func(p string) {
		cmds = append(cmds, []string{"KEYS", p})
		if len(cmds) == 500 {
			ss.Run(cmds...)
			cmds = nil
		}
	}
	for n := 0; n <= 4; n++ {
		b := make([]byte, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				ask(string(b))
				return
			}
			for j := 0; j < len(abc); j++ {
				b[i] = abc[j]
				rec(i + 1)
			}
		}
		rec(0)
	}
	for i := 0; i < 20000*ss.R.Scale; i++ {
		b := make([]byte, 5+r.Intn(8))
		for j := range b {
			b[j] = abc[r.Intn(len(abc))]
		}
		ask(string(b))
	}
	ss.Run(cmds...)
	ss.Audit(nil, 4)
}

// manyKeys fills the data set past what 16 bits count, names all of it in
// single commands and empties it again.
func manyKeys(ss *kit.Session) {
	r := rand.New(rand.NewSource(ss.R.Seed + 70))
	name := func(i int) string { return "n" + it(i%10) + ":" + it(i) }
	check := func(deep bool) {
		ss.Run([]string{"KEYS", "*"}, []string{"KEYS", "n" + it(r.Intn(10)) + ":*"}, []string{"KEYS", "*" + it(r.Intn(100))}, []string{"KEYS", "n?:" + it(r.Intn(70000))}, []string{"KEYS", "absent*"})
		if deep {
			ss.Run([]string{"KEYS", "**"}, []string{"KEYS", "?*"}, []string{"KEYS", "[!x]*"})
		}
		ss.R.Max("most keys at once", int64(len(ss.M.K)))
	}
	top := 0
	for _, n := range []int{1000, 5000, 20500, 33000, 70000, 140000} {
		for top < n {
			c := []string{"MSET"}
			for j := 0; j < 15000 && top < n; j, top = j+1, top+1 {
				c = append(c, name(top), it(top))
			}
			ss.Run(c)
		}
		check(n < 40000)
		for i := 0; i < 200; i++ {
			k := name(r.Intn(2 * top))
			ss.Run([]string{"GET", k}, []string{"EXISTS", k}, []string{"TYPE", k})
		}
		all := []string{"EXISTS"}
		for i := 0; i < n+n/5; i++ {
			all = append(all, name(i))
			if i%5 == 0 {
				all = append(all, name(r.Intn(n)))
			}
		}
		ss.Run(all)
	}
	// whole type changes among them, then fewer and fewer
	for i := 0; i < 3000; i++ {
		k := name(r.Intn(top))
		ss.Run([]string{"DEL", k}, []string{"SADD", k, "a"}, []string{"TYPE", k})
	}
	for _, part := range []int{10, 3, 2, 1} {
		left := kit.SortedKeys(ss.M)
		c := []string{"DEL"}
		for i := 0; i < len(left)/part; i++ {
			c = append(c, left[(i*7919+i)%len(left)])
			if i%3 == 0 {
				c = append(c, left[i%len(left)])
			}
		}
		if part == 1 {
			c = append([]string{"DEL"}, left...)
		}
		ss.Run(c)
		check(false)
		for i := 0; i < 200; i++ {
			k := name(r.Intn(2 * top))
			ss.Run([]string{"EXISTS", k, k}, []string{"TYPE", k})
		}
	}
	ss.Audit(nil, 4)
}

func sweepGlob(ss *kit.Session) {
	keys := []string{"", "a", "b", "ab", "ba", "abc", "aXc", "aXXc", "abcabc", "hello", "hallo", "hllo", "heeello", "h*llo", "h?llo", "[abc]", "a.c", "a+c", "a|b", "(a)", "^a$", "a\\b", "user:1", "user:10", "user:21:name", "User:1", "1", "10", "a\nb", "a\r\nb", "a/b", "a/b/c", "foo.bar", "-", "a-c", "]", "!a", "{a,b}", "a,b", "key with space", "$", "aa", "aaa", "aaaa", "aaaaab"}
	for _, k := range keys {
		ss.Run([]string{"SET", k, "v"})
	}
	pats := []string{"*", "", "**", "***", "?", "??", "???", "?*", "*?", "*a*", "a*", "*a", "a*c", "a?c", "a??c", "h?llo", "h*llo", "h[ae]llo", "h[a-e]llo", "h[!e]llo", "h[!a-d]llo", "user:*", "user:?", "user:??", "user:*:*", "*:*", "*1", "[ab]", "[a-b]*", "[!ab]*", "[0-9]", "[0-9]*", "a.c", "a+c", "a|b", "(a)", "^a$", "^*", "*$", "\\*", "h\\*llo", "h\\?llo", "\\[abc\\]", "a\\\\b", "*\\*", "a*a*a*", "*a*a*a*b", "a*b*c", "?ello", "hell?", "*l*l*", "foo*bar", "foo?bar", "a/*", "*/*", "a*b", "[a-c][a-c]", "[abc][!b][c]", "*[0-9]", "*[!0-9]", "nomatch", "HELLO", "User*", "user:[0-9]*", "[u]ser:1", "a-c", "a[-]c", "*b", "?[bX]?", "*****c", "a*****c"}
	for _, p := range pats {
		ss.Run([]string{"KEYS", p})
	}
	for _, k := range keys {
		ss.Run([]string{"KEYS", kit.EscapeGlob(k)})
	}
	g := kit.NewGen(17, ss.M)
	g.Keys = keys
	for i := 0; i < 3000; i++ {
		ss.Run([]string{"KEYS", g.Pattern()})
		if i%50 == 0 {
			ss.Run([]string{"DEL", keys[g.Intn(len(keys))]}, []string{"SADD", keys[g.Intn(len(keys))], "x"})
		}
	}
	// random patterns over a two-letter alphabet against all short keys
	ss.Run([]string{"KEYS", "*"})
	for n := 1; n <= 5; n++ {
		for b := 0; b < 1<<n; b++ {
			k := ""
			for i := 0; i < n; i++ {
				k += string(rune('x' + b>>i&1))
			}
			ss.Run([]string{"SET", k, "v"})
		}
	}
	toks := []string{"x", "y", "*", "?", "[x]", "[!x]", "[xy]", "[x-y]"}
	for i := 0; i < 2500; i++ {
		p := ""
		for j := 0; j < 1+g.Intn(6); j++ {
			p += toks[g.Intn(len(toks))]
		}
		ss.Run([]string{"KEYS", p})
	}
}

// ---- C09 ----

func c09(rep *kit.Report) {
	both(each(
		func() {
			histories(rep, 6, func(r *rand.Rand) []phase {
				return []phase{
					{mix: everything, keys: 6, uni: 4, maxArg: 3, cmds: 6000, audit: 25, deep: 5, wrong: .7, fresh: true},
					{mix: everything, keys: 12, uni: 30, maxArg: 6, cmds: 2500, audit: 60, deep: 8, wrong: 1, fresh: true},
				}
			})
		},
		func() { directed(rep, "type matrix", func(ss *kit.Session) { typeMatrix(ss, false, "slhSz") }) },
		func() {
			directed(rep, "type matrix, bigger values", func(ss *kit.Session) { typeMatrix(ss, true, "slhSz") })
		},
		func() { directed(rep, "store matrix", storeMatrix) },
		func() { directed(rep, "long commands refused", longErrors) },
	))
	rep.Require("wrong-type refusals", 3000)
}

// every stored type x every command x every position of the wrong key
func typeMatrix(ss *kit.Session, big bool, types string) {
	rep := ss.R
	mk := map[byte][][]string{
		's': {{"SET", "W", "12"}}, 'l': {{"RPUSH", "W", "a", "b", "1"}}, 'h': {{"HSET", "W", "a", "1", "b", "x"}}, 'S': {{"SADD", "W", "a", "b", "1"}}, 'z': {{"ZADD", "W", "1", "a", "2", "b", "2", "c"}},
	}
	if big {
		for t, c := range map[byte]string{'l': "RPUSH", 'S': "SADD", 'h': "HSET", 'z': "ZADD"} {
			a := []string{c, "W"}
			for i := 0; i < 120; i++ {
				switch t {
				case 'h', 'z':
					a = append(a, it(i), "m"+it(i))
				default:
					a = append(a, "m"+it(i))
				}
			}
			mk[t] = [][]string{a}
		}
		mk['s'] = [][]string{{"SET", "W", "not a number"}}
	}
	companion := [][]string{{"SADD", "A", "a", "b"}, {"SADD", "B", "b"}, {"SET", "str", "s"}, {"RPUSH", "lst", "1"}}
	uses := map[byte][][]string{
		's': {{"GET", "W"}, {"APPEND", "W", "x"}, {"GET", "W"}},
		'l': {{"LPUSH", "W", "n"}, {"RPOP", "W"}, {"LRANGE", "W", "0", "-1"}, {"LREM", "W", "-1", "a"}, {"LRANGE", "W", "0", "-1"}, {"LINDEX", "W", "-1"}},
		'h': {{"HSET", "W", "n", "v"}, {"HDEL", "W", "a"}, {"HGETALL", "W"}, {"HLEN", "W"}},
		'S': {{"SADD", "W", "n"}, {"SREM", "W", "a"}, {"SMEMBERS", "W"}, {"SCARD", "W"}},
		'z': {{"ZADD", "W", "1.5", "n"}, {"ZREM", "W", "a"}, {"ZRANGE", "W", "0", "-1", "WITHSCORES"}, {"ZREVRANGE", "W", "0", "-1"}, {"ZRANK", "W", "n"}},
	}
	args := map[string][][]string{
		"get": {{"W"}}, "append": {{"W", "x"}}, "incr": {{"W"}}, "decr": {{"W"}}, "incrby": {{"W", "1"}, {"W", "bad"}}, "decrby": {{"W", "1"}},
		"lpush": {{"W", "x"}, {"W", "x", "y"}}, "rpush": {{"W", "x"}}, "lpop": {{"W"}, {"W", "2"}, {"W", "1"}}, "rpop": {{"W"}, {"W", "2"}}, "llen": {{"W"}}, "lrange": {{"W", "0", "-1"}, {"W", "5", "1"}}, "lrem": {{"W", "0", "a"}, {"W", "-1", "a"}}, "lindex": {{"W", "0"}, {"W", "99"}}, "lset": {{"W", "0", "x"}, {"W", "99", "x"}}, "linsert": {{"W", "before", "a", "x"}, {"W", "after", "nope", "x"}},
		"hdel": {{"W", "a"}, {"W", "a", "b"}}, "hexists": {{"W", "a"}}, "hget": {{"W", "a"}}, "hgetall": {{"W"}}, "hincrby": {{"W", "a", "1"}, {"W", "new", "1"}}, "hincrbyfloat": {{"W", "a", "1.5"}, {"W", "new", "1.5"}}, "hkeys": {{"W"}}, "hlen": {{"W"}}, "hmget": {{"W", "a", "z"}}, "hmset": {{"W", "a", "9"}, {"W", "a", "9", "b", "8"}}, "hset": {{"W", "a", "9"}, {"W", "n", "1", "a", "2"}}, "hsetnx": {{"W", "a", "9"}, {"W", "new", "9"}}, "hvals": {{"W"}},
		"sadd": {{"W", "x"}, {"W", "a"}}, "scard": {{"W"}}, "sismember": {{"W", "a"}}, "smembers": {{"W"}}, "srem": {{"W", "a"}, {"W", "nope"}}, "spop": {{"W"}, {"W", "2"}},
		"sdiff": {{"W"}, {"A", "W"}, {"W", "A"}, {"A", "B", "W"}, {"none", "W"}}, "sinter": {{"W"}, {"A", "W"}, {"W", "A"}, {"A", "B", "W"}, {"none", "W"}, {"W", "none"}}, "sunion": {{"W"}, {"A", "W"}, {"W", "A"}, {"A", "B", "W"}, {"none", "W"}},
		"sdiffstore": {{"D", "W"}, {"D", "A", "W"}, {"A", "W", "B"}, {"D", "none", "W"}, {"A", "A", "W"}, {"str", "A", "W"}, {"W", "W"}, {"W", "A", "W"}, {"W", "A", "B"}, {"W", "none"}}, "sinterstore": {{"D", "W"}, {"D", "A", "W"}, {"A", "W", "B"}, {"D", "none", "W"}, {"A", "A", "W"}, {"str", "A", "W"}, {"W", "W"}, {"W", "A", "W"}, {"W", "A", "B"}, {"W", "A", "none"}}, "sunionstore": {{"D", "W"}, {"D", "A", "W"}, {"A", "W", "B"}, {"D", "none", "W"}, {"A", "A", "W"}, {"lst", "A", "W"}, {"W", "W"}, {"W", "A", "W"}, {"W", "A", "B"}},
		"smove": {{"W", "A", "a"}, {"A", "W", "a"}, {"W", "D", "a"}, {"W", "W", "a"}, {"A", "W", "nope"}, {"W", "A", "nope"}, {"none", "W", "a"}, {"B", "W", "b"}, {"W", "str", "a"}},
		"zadd":  {{"W", "1", "a"}, {"W", "xx", "1", "a"}, {"W", "nx", "1", "new"}, {"W", "incr", "1", "a"}}, "zscore": {{"W", "a"}}, "zrank": {{"W", "a"}}, "zrem": {{"W", "a"}, {"W", "nope"}}, "zcard": {{"W"}}, "zcount": {{"W", "-inf", "+inf"}}, "zincr": {{"W", "1", "a"}, {"W", "1", "new"}}, "zrange": {{"W", "0", "-1"}, {"W", "-inf", "+inf", "byscore"}}, "zrangebyscore": {{"W", "-inf", "+inf"}}, "zrevrange": {{"W", "0", "-1"}}, "zpopmin": {{"W"}, {"W", "2"}}, "zpopmax": {{"W"}, {"W", "2"}},
		"set": {{"W", "x"}}, "mset": {{"W", "x"}, {"q", "1", "W", "x"}}, "mget": {{"W"}, {"str", "W", "none", "lst"}}, "del": {{"W"}, {"none", "W", "A"}}, "exists": {{"W", "A", "W"}}, "type": {{"W"}},
	}
	// arguments that would change nothing even on the right type are refused as well
	for c, as := range map[string][][]string{
		"append": {{"W", ""}}, "incrby": {{"W", "0"}}, "decrby": {{"W", "0"}, {"W", "-1"}},
		"lpush": {{"W", ""}}, "rpush": {{"W", ""}}, "lpop": {{"W", "0"}, {"W", "1000"}}, "rpop": {{"W", "0"}, {"W", "1000"}}, "lrange": {{"W", "100", "200"}, {"W", "0", "0"}}, "lrem": {{"W", "0", "nope"}, {"W", "1", ""}}, "lindex": {{"W", "-1"}, {"W", "-99"}}, "lset": {{"W", "-1", "x"}, {"W", "0", ""}, {"W", "0", "a"}}, "linsert": {{"W", "before", "", ""}},
		"hdel": {{"W", "nope"}, {"W", ""}}, "hexists": {{"W", "nope"}, {"W", ""}}, "hget": {{"W", "nope"}, {"W", ""}}, "hincrby": {{"W", "a", "0"}, {"W", "new", "0"}}, "hincrbyfloat": {{"W", "a", "0"}, {"W", "new", "0"}}, "hmget": {{"W", "nope"}}, "hmset": {{"W", "a", "1"}, {"W", "", ""}}, "hset": {{"W", "a", "1"}, {"W", "", ""}}, "hsetnx": {{"W", "", ""}, {"W", "a", "1"}},
		"sadd": {{"W", ""}, {"W", "a", "a"}}, "sismember": {{"W", "nope"}, {"W", ""}}, "srem": {{"W", ""}, {"W", "nope", "nope2"}}, "spop": {{"W", "0"}, {"W", "1"}, {"W", "1000"}},
		"sdiff": {{"W", "W"}, {"none", "none2", "W"}}, "sinter": {{"W", "W"}, {"none", "none2", "W"}}, "sunion": {{"W", "W"}, {"none", "none2", "W"}},
		"smove": {{"W", "W", "nope"}, {"W", "none", "nope"}, {"W", "none", ""}, {"A", "W", ""}},
		"zadd":  {{"W", "1", ""}, {"W", "nx", "1", "a"}, {"W", "xx", "1", "nope"}, {"W", "ch", "1", "a"}, {"W", "incr", "0", "a"}, {"W", "incr", "0", "new"}}, "zscore": {{"W", "nope"}, {"W", ""}}, "zrank": {{"W", "nope"}, {"W", ""}}, "zrem": {{"W", ""}}, "zcount": {{"W", "5", "1"}, {"W", "+inf", "-inf"}}, "zincr": {{"W", "0", "a"}, {"W", "0", "new"}}, "zrange": {{"W", "100", "200"}, {"W", "0", "0", "withscores"}, {"W", "5", "1", "byscore"}}, "zrangebyscore": {{"W", "5", "1"}, {"W", "-inf", "+inf", "limit", "0", "0"}}, "zrevrange": {{"W", "100", "200"}}, "zpopmin": {{"W", "0"}, {"W", "1000"}}, "zpopmax": {{"W", "0"}, {"W", "1000"}},
	} {
		args[c] = append(args[c], as...)
	}
	pool := []string{"W", "A", "B", "D", "str", "lst", "none", "q"}
	for _, t := range []byte(types) { // n: W is missing
		for _, c := range kit.Commands {
			for _, a := range args[c] {
				ss.Run(append([]string{"DEL"}, pool...))
				ss.Run(companion...)
				ss.Run(mk[t]...)
				r := ss.Do(append([]string{c}, a...)...)
				if r.IsErr() {
					rep.Count("wrong-type refusals", 1)
				}
				ss.Audit(pool, 6)
				if v := ss.M.K["W"]; v != nil {
					ss.Run(uses[v.T]...)
					rep.Count("refused value used afterwards", 1)
				}
				// repeating the refused command with every arity keeps refusing
				if r.IsErr() {
					ss.Run(append([]string{c}, a...), append([]string{strings.ToUpper(c)}, a...))
					ss.Audit(pool, 3)
					rep.Count("wrong-type refusals", 2)
				}
			}
		}
	}
}

// storeMatrix puts a key of another type at every place among the sources of
// the STORE commands, with every kind of destination, the sources included.
func storeMatrix(ss *kit.Session) {
	wrong := [][]string{{"SET", "W", "s"}, {"RPUSH", "W", "a"}, {"HSET", "W", "a", "1"}, {"ZADD", "W", "1", "a"}}
	orders := [][]string{{}, {"A"}, {"B"}, {"A", "B"}, {"B", "A"}, {"A", "C"}, {"A", "none"}, {"none", "A"}, {"A", "A"}, {"A", "B", "C"}, {"C", "A", "B"}}
	pool := []string{"A", "B", "C", "D", "L", "W", "none"}
	n := 0
	for _, op := range []string{"SUNIONSTORE", "SINTERSTORE", "SDIFFSTORE"} {
		for _, src := range orders {
			for at := 0; at <= len(src); at++ {
				for _, dst := range pool {
					n++
					ss.Run(append([]string{"DEL"}, pool...))
					ss.Run([]string{"SADD", "A", "a", "b", "x"}, []string{"SADD", "B", "b", "c"}, []string{"SADD", "C", "b", "d"}, []string{"RPUSH", "L", "1"}, wrong[n%len(wrong)])
					c := append([]string{op, dst}, src[:at]...)
					c = append(append(c, "W"), src[at:]...)
					if r := ss.Do(c...); r.IsErr() {
						ss.R.Count("wrong-type refusals", 1)
						ss.R.Count("refused commands with the data set read afterwards", 1)
					}
					ss.Audit(pool, 6)
				}
			}
		}
	}
}

// longErrors are commands with many good arguments and something wrong behind them.
func longErrors(ss *kit.Session) {
	r := rand.New(rand.NewSource(ss.R.Seed + 99))
	sizes := []int{7, 15, 16, 17, 31, 33, 63, 65, 99, 101, 127, 128, 129, 200, 255, 257, 500, 511, 513, 999, 1001, 1023, 1025, 2047, 2049, 4095, 4097, 10001}
	pool := []string{"k", "none", "D", "A", "B", "W"}
	for _, n := range sizes {
		fill := func(f func(i int) []string) []string {
			var a []string
			for i := 0; i < n; i++ {
				a = append(a, f(i)...)
			}
			return a
		}
		try := func(states [][]string, c []string, more ...string) {
			ss.Run(append([]string{"DEL"}, pool...))
			ss.Run(states...)
			if rr := ss.Do(append(append([]string{}, c...), more...)...); rr.IsErr() {
				ss.R.Count("refused commands with the data set read afterwards", 1)
				ss.R.Count("long commands refused", 1)
			}
			ss.Audit(pool, 6)
		}
		cat := func(h []string, a []string) []string { return append(append([]string{}, h...), a...) }
		z := fill(func(i int) []string { return []string{it(i % 50), "m" + it(i)} })
		h := fill(func(i int) []string { return []string{"f" + it(i), "v" + it(i)} })
		v := fill(func(i int) []string { return []string{"m" + it(i)} })
		m := fill(func(i int) []string { return []string{pool[i%3], "v" + it(i)} })
		zs := [][]string{{"ZADD", "k", "7", "m1", "8", "old", "inf", "top"}}
		hs := [][]string{{"HSET", "k", "f1", "old", "x", "y"}}
		for _, k := range []string{"k", "none"} {
			try(zs, cat([]string{"ZADD", k}, z), []string{"x", "nan", "", "1e"}[r.Intn(4)], "late")
			try(zs, cat([]string{"ZADD", k}, z), "5")
			try(zs, cat([]string{"ZADD", k, "nx"}, z), "5")
			try(zs, cat([]string{"ZADD", k, "xx"}, z), "five", "m1")
			try(zs, cat([]string{"ZADD", k, "incr"}, z), "-inf", "top", "inf", "late", "-inf", "late")
			try(hs, cat([]string{"HSET", k}, h), "late")
			try(hs, cat([]string{"HMSET", k}, h), "late")
		}
		try([][]string{{"SET", "k", "1"}}, cat([]string{"MSET"}, m), "late")
		for _, w := range [][]string{{"SET", "W", "s"}, {"RPUSH", "W", "m1"}, {"HSET", "W", "m1", "1"}, {"SADD", "W", "m1"}, {"ZADD", "W", "1", "m1"}} {
			if n > 300 && r.Intn(3) > 0 {
				continue
			}
			for _, c := range []string{"LPUSH", "RPUSH", "SADD", "SREM", "HDEL", "HMGET", "ZREM"} {
				if kit.TypeOf(strings.ToLower(c)) != kit.TypeOf(strings.ToLower(w[0])) {
					try([][]string{w}, cat([]string{c, "W"}, v))
				}
			}
			if w[0] != "HSET" {
				try([][]string{w}, cat([]string{"HSET", "W"}, h))
			}
			if w[0] != "ZADD" {
				try([][]string{w}, cat([]string{"ZADD", "W"}, z))
			}
		}
		// many sources, the last of another type
		src := fill(func(i int) []string { return []string{[]string{"A", "B", "A", "none"}[i%4]} })
		sets := [][]string{{"SADD", "A", "a", "b", "x"}, {"SADD", "B", "b", "c"}, {"RPUSH", "W", "a"}, {"SADD", "D", "kept"}}
		for _, op := range []string{"SUNIONSTORE", "SINTERSTORE", "SDIFFSTORE"} {
			for _, dst := range []string{"A", "B", "D", "none", "W"} {
				try(sets, cat([]string{op, dst}, src), "W")
			}
		}
	}
	ss.R.Require("long commands refused", 500)
}

// ---- C10 ----

func c10(rep *kit.Report) {
	both(each(
		func() {
			// every refused command is followed by a read of the whole data set
			bin(rep, "plain")
			parallel(8*rep.Scale, 8, func(i int) {
				seed := rep.Seed*1000003 + int64(i)
				s := launch(rep)
				defer s.Kill()
				ss := kit.NewSession(rep, s, "errors", seed)
				g := kit.NewGen(seed, ss.M)
				g.SetKeys("e", 5)
				g.Uni, g.MaxArg, g.Wrong = 4, 3, .3
				mix := kit.NewMix(everything)
				for n := 0; n < 1500; n++ {
					if n%300 == 0 {
						g.Uni = []int{3, 5, 9, 40, 4}[n/300]
						g.MaxArg = []int{2, 4, 3, 12, 6}[n/300]
					}
					g.Bad = 0
					if g.Intn(2) == 0 {
						g.Bad = 1
					}
					r := ss.Do(g.Cmd(mix.Pick(g.Rand))...)
					if r.IsErr() {
						ss.Audit(g.Keys, 5)
						rep.Count("refused commands with the data set read afterwards", 1)
					}
				}
				rep.Sample("%s", ss.Tail(3))
				healthy(rep, s)
			})
		},
		func() { refusals(rep) },
		func() { directed(rep, "malformed matrix", malformedMatrix) },
		func() { directed(rep, "store matrix", storeMatrix) },
		func() { directed(rep, "long commands refused", longErrors) },
		func() { freezeRounds(rep, "plain", rep.Seed+100) },
	))
	rep.Require("refused commands with the data set read afterwards", 3000)
	for _, c := range kit.Commands {
		if c != "ping" && c != "command" {
			rep.Require("err "+c, 5)
		}
	}
}

// every command in every state with every kind of wrong argument list
func malformedMatrix(ss *kit.Session) {
	states := [][][]string{
		{},
		{{"SET", "k", "10"}, {"SET", "k2", "abc"}},
		{{"RPUSH", "k", "a", "b", "c"}, {"RPUSH", "k2", "x"}},
		{{"HSET", "k", "a", "1", "b", "x", "c", "1.5"}, {"HSET", "k2", "a", "9223372036854775807"}},
		{{"SADD", "k", "a", "b", "c"}, {"SADD", "k2", "b", "c", "d"}},
		{{"ZADD", "k", "1", "a", "2", "b", "inf", "c"}, {"ZADD", "k2", "-inf", "a"}},
		{{"SADD", "k", "a", "b"}, {"SET", "k2", "str"}},
		{{"SET", "k", "9223372036854775807"}, {"SADD", "k2", "a"}},
		{{"SET", "k", "-9223372036854775808"}, {"HSET", "k2", "a", "1"}},
	}
	words := []string{"k", "k2", "a", "1", "x", "", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e400", "nan", "inf", "-inf", "0", "-5", "before", "nx", "xx", "incr", "byscore", "withscores", "3.5", "none"}
	r := rand.New(rand.NewSource(ss.R.Seed + 77))
	pool := []string{"k", "k2", "none", "a", "1", "x", ""}
	for _, st := range states {
		reset := func() {
			var ks []string
			for k := range ss.M.K {
				ks = append(ks, k)
			}
			if len(ks) > 0 {
				ss.Run(append([]string{"DEL"}, ks...))
			}
			ss.Run(st...)
		}
		reset()
		for _, c := range append(append([]string{}, kit.Commands...), "nosuchcommand", "", "ge", "gett", "set ", " set", "zadd\r\n", "\x00", "flushall", "zincrby", "multi", "zpopmix", "keytype", "stringappend") {
			n := kit.MinArgs[c]
			try := func(a []string) {
				rr := ss.Do(a...)
				if rr.IsErr() {
					ss.Audit(pool, 4)
					ss.R.Count("refused commands with the data set read afterwards", 1)
				} else {
					reset()
				}
			}
			for l := 0; l < n; l++ {
				a := []string{c}
				for i := 0; i < l; i++ {
					a = append(a, []string{"k", "k2", "1"}[i%3])
				}
				try(a)
			}
			// after a good first key, random words in all other places
			for i := 0; i < 14; i++ {
				a := []string{c, "k"}
				for len(a) < 1+n+r.Intn(3) {
					a = append(a, words[r.Intn(len(words))])
				}
				if !sensible(c, a) {
					continue
				}
				try(a)
			}
			// good pairs first, a bad one last
			switch c {
			case "mset":
				try([]string{c, "k", "new", "none"})
				try([]string{c, "k", "new", "none", "v", "x"})
			case "hset", "hmset":
				try([]string{c, "k", "a", "new", "b"})
				try([]string{c, "none", "a", "new", "b", "v", "c"})
			case "zadd":
				for _, f := range []string{"x", "nan", "", "1e", "--1"} {
					try([]string{c, "k", "5", "a", f, "b"})
					try([]string{c, "k", "5", "new", "6", "new2", f, "b"})
					try([]string{c, "none", "5", "new", f, "b"})
				}
				try([]string{c, "k", "5", "a", "6"})
				try([]string{c, "k", "nx", "5", "a", "6"})
				try([]string{c, "none", "xx"})
				try([]string{c, "k", "incr", "1", "a", "-inf", "c"})
				try([]string{c, "k2", "incr", "1", "new", "inf", "a"})
			case "zincr":
				try([]string{c, "k", "-inf", "c"})
				try([]string{c, "k2", "inf", "a"})
			case "hincrby":
				try([]string{c, "k2", "a", "1"})
				try([]string{c, "k", "b", "1"})
				try([]string{c, "k", "c", "1"})
			case "hincrbyfloat":
				try([]string{c, "k", "b", "1"})
				try([]string{c, "k", "c", "inf"})
				try([]string{c, "none", "c", "nan"})
			case "smove":
				try([]string{c, "k", "k2", "a"})
				try([]string{c, "k2", "k", "a"})
				try([]string{c, "k", "k2", "nope"})
			case "sunionstore", "sinterstore", "sdiffstore":
				try([]string{c, "k", "k", "k2"})
				try([]string{c, "k2", "k", "k2"})
				try([]string{c, "none", "k", "k2"})
				try([]string{c, "none", "none", "k2"})
				try([]string{c, "k"})
			case "lset":
				for _, i := range []string{"3", "-4", "99", "-99", "9223372036854775807"} {
					try([]string{c, "k", i, "v"})
				}
			case "linsert":
				try([]string{c, "k", "before", "nope", "v"})
				try([]string{c, "k", "around", "a", "v"})
			}
		}
	}
}

// sensible leaves out argument lists whose meaning is not settled (options of
// SET, surplus arguments).
func sensible(c string, a []string) bool {
	n := len(a) - 1
	switch c {
	case "mset", "mget", "exists", "del", "lpush", "rpush", "hset", "hmset", "hdel", "hmget", "sadd", "srem", "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore", "zadd", "zrem":
		return true
	case "lpop", "rpop", "spop", "zpopmin", "zpopmax":
		return n <= 2
	case "zrange", "zrangebyscore", "zrevrange":
		return n <= 3
	case "keys":
		return false
	case "append":
		return n == 2 && a[2] != ""
	}
	return n <= kit.MinArgs[c]
}

// counters and texts at the ends of their ranges
func sweepStrings(ss *kit.Session) {
	edge := []string{"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "0", "1", "-1", "2", "-2", "4611686018427387904", "-4611686018427387904", "4611686018427387903", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740992", "9007199254740993", "99", "100", "-100", "999999999"}
	for _, v := range edge {
		for _, d := range edge {
			ss.Run([]string{"SET", "n", v}, []string{"INCRBY", "n", d}, []string{"GET", "n"},
				[]string{"SET", "n", v}, []string{"DECRBY", "n", d}, []string{"GET", "n"})
		}
		ss.Run([]string{"SET", "n", v}, []string{"INCR", "n"}, []string{"GET", "n"}, []string{"SET", "n", v}, []string{"DECR", "n"}, []string{"GET", "n"},
			[]string{"APPEND", "n", "0"}, []string{"INCR", "n"}, []string{"GET", "n"}, []string{"DEL", "n"}, []string{"INCRBY", "n", v}, []string{"GET", "n"}, []string{"DEL", "n"}, []string{"DECRBY", "n", v}, []string{"GET", "n"}, []string{"TYPE", "n"}, []string{"DEL", "n"})
	}
	for _, v := range []string{"", " ", "a", "1a", "a1", "1.0", "1e3", "0x1", "1 ", " 1", "+", "-", "--1", "9223372036854775808", "-9223372036854775809", "1\x00", "1\r\n", "١", "18446744073709551616", "1_0", "true"} {
		for _, c := range [][]string{{"INCR", "n"}, {"DECR", "n"}, {"INCRBY", "n", "1"}, {"DECRBY", "n", "1"}} {
			ss.Run([]string{"SET", "n", v}, c, []string{"GET", "n"})
		}
		ss.Run([]string{"SET", "n", "5"}, []string{"INCRBY", "n", v}, []string{"GET", "n"}, []string{"DECRBY", "n", v}, []string{"GET", "n"})
	}
	// repeated keys inside one command, the last pair wins
	ss.Run([]string{"MSET", "a", "1", "b", "2", "a", "3", "c", "4", "b", "5"}, []string{"MGET", "a", "b", "a", "c", "missing", "b", "a"})
	// APPEND growth to sizes around powers of two
	for i := 0; i < 14; i++ {
		for _, d := range []int{-1, 0, 1} {
			k := fmt.Sprintf("ap%d.%d", i, d)
			n := 1<<uint(i) + d
			ss.Run([]string{"APPEND", k, strings.Repeat("x", n)}, []string{"APPEND", k, "y"}, []string{"APPEND", k, ""}, []string{"GET", k}, []string{"APPEND", k, strings.Repeat("z", n)}, []string{"GET", k})
		}
	}
	// an appended-to value must not share memory with anything else
	ss.Run([]string{"SET", "p", "base"}, []string{"APPEND", "p", "1"}, []string{"GET", "p"}, []string{"MSET", "q", "base", "p2", "base"}, []string{"APPEND", "q", "2"}, []string{"APPEND", "p", "3"}, []string{"MGET", "p", "q", "p2"})
	ss.Audit(nil, 8)
}

// small sets from every side, pops of every size
func sweepSet(ss *kit.Session) {
	for n := 0; n <= 8; n++ {
		for c := -1; c <= n+2; c++ {
			ss.Run([]string{"DEL", "s"})
			if n > 0 {
				add := []string{"SADD", "s"}
				for i := 0; i < n; i++ {
					add = append(add, "m"+it(i), "m"+it(i/2))
				}
				ss.Run(add)
			}
			if c < 0 {
				ss.Run([]string{"SPOP", "s"})
			} else {
				ss.Run([]string{"SPOP", "s", it(c)})
			}
			ss.Run(kit.AuditCmds(ss.M, "s", ss.Rnd, 20)...)
			ss.Run([]string{"SADD", "s", "m0", "z"}, []string{"SREM", "s", "m0", "m0", "nope", "z"}, []string{"SCARD", "s"}, []string{"SPOP", "s", "100"}, []string{"EXISTS", "s"}, []string{"SCARD", "s"}, []string{"SPOP", "s"})
		}
	}
	// every pop size of a big set: exactly as many, all distinct
	for _, n := range []int{31, 32, 33, 64, 100, 500, 2000} {
		for _, c := range []int{1, 2, n / 2, n - 1, n, n + 1} {
			add := []string{"SADD", "s"}
			for i := 0; i < n; i++ {
				add = append(add, "x"+it(i))
			}
			ss.Run([]string{"DEL", "s"}, add, []string{"SCARD", "s"}, []string{"SPOP", "s", it(c)}, []string{"SCARD", "s"}, []string{"SMEMBERS", "s"}, []string{"SPOP", "s", it(n)}, []string{"EXISTS", "s"})
		}
	}
	for _, v := range kit.OddValues() {
		ss.Run([]string{"DEL", "s"}, []string{"SADD", "s", v, v, v + "x"}, []string{"SISMEMBER", "s", v}, []string{"SISMEMBER", "s", v + "y"}, []string{"SMEMBERS", "s"}, []string{"SREM", "s", v}, []string{"SISMEMBER", "s", v}, []string{"SCARD", "s"})
	}
}

// every kind of bound against every kind of content
func sweepIntervals(ss *kit.Session) {
	contents := [][]string{
		{}, {"1", "a"}, {"1", "a", "1", "b", "1", "c"}, {"1", "a", "2", "b", "3", "c"}, {"1", "a", "2", "b", "2", "c", "2", "d", "3", "e"},
		{"-inf", "a", "0", "b", "inf", "c"}, {"-inf", "a", "-inf", "b"}, {"inf", "a", "inf", "b"}, {"-2", "a", "-1", "b", "-1", "c", "0", "d", "1", "e", "1", "f", "2", "g"},
		{"0.1", "a", "0.2", "b", "0.30000000000000004", "c", "0.3", "d"}, {"-0", "a", "0", "b"}, {"1e300", "a", "-1e300", "b", "1e-300", "c"},
	}
	ends := []string{"-inf", "-3", "-2", "-1.5", "-1", "-0.5", "0", "0.3", "0.30000000000000004", "0.5", "1", "1.5", "2", "2.5", "3", "4", "1e300", "+inf"}
	var bs []string
	for _, e := range ends {
		bs = append(bs, e, "("+e)
	}
	bs = append(bs, "inf", "(inf", "-INF", "+Inf")
	for _, c := range contents {
		ss.Run([]string{"DEL", "z"})
		if len(c) > 0 {
			ss.Run(append([]string{"ZADD", "z"}, c...))
		}
		var cs [][]string
		for _, a := range bs {
			for _, b := range bs {
				cs = append(cs, []string{"ZCOUNT", "z", a, b}, []string{"ZRANGEBYSCORE", "z", a, b, "WITHSCORES"}, []string{"ZRANGE", "z", a, b, "BYSCORE"})
			}
		}
		for _, x := range []string{"", "x", "(", "((1", "nan", "(nan", "1.5x", "[1", " 1"} {
			cs = append(cs, []string{"ZCOUNT", "z", x, "1"}, []string{"ZCOUNT", "z", "1", x}, []string{"ZRANGEBYSCORE", "z", x, "1"}, []string{"ZRANGEBYSCORE", "z", "1", x}, []string{"ZRANGE", "z", x, "1", "BYSCORE"}, []string{"ZRANGE", "z", "1", x, "BYSCORE"})
		}
		cs = append(cs, []string{"ZRANGEBYSCORE", "z", "-inf", "+inf"}, []string{"ZRANGEBYSCORE", "z", "-inf", "+inf", "withscores"}, []string{"ZRANGE", "z", "-inf", "+inf", "byscore", "withscores"}, []string{"ZRANGE", "z", "-inf", "+inf", "WithScores", "ByScore"})
		ss.Run(cs...)
	}
	// bounds on, between and beyond the scores of big random sets
	r := rand.New(rand.NewSource(7))
	for _, n := range []int{50, 500, 3000} {
		ss.Run([]string{"DEL", "z"})
		for i := 0; i < n; i++ {
			ss.Run([]string{"ZADD", "z", strconv.FormatFloat(float64(r.Intn(n))/2, 'g', -1, 64), "m" + it(i)})
		}
		var cs [][]string
		for i := 0; i < 300; i++ {
			a := strconv.FormatFloat(float64(r.Intn(2*n))/4, 'g', -1, 64)
			b := strconv.FormatFloat(float64(r.Intn(2*n))/4, 'g', -1, 64)
			if r.Intn(2) == 0 {
				a = "(" + a
			}
			if r.Intn(2) == 0 {
				b = "(" + b
			}
			cs = append(cs, []string{"ZCOUNT", "z", a, b})
			if i%10 == 0 {
				cs = append(cs, []string{"ZRANGEBYSCORE", "z", a, b, "WITHSCORES"})
			}
		}
		ss.Run(cs...)
		// and again after many members moved
		for i := 0; i < n; i += 3 {
			ss.Run([]string{"ZINCR", "z", it(r.Intn(20) - 10), "m" + it(i)})
			if i%9 == 0 {
				ss.Run([]string{"ZREM", "z", "m" + it(r.Intn(n))})
			}
		}
		ss.Run(cs...)
	}
}

// refusals goes through the directed sweeps reading all data after each command
// that is refused.
func refusals(rep *kit.Report) {
	sweeps := []func(*kit.Session){sweepStrings, sweepLRem, sweepLInsert, sweepLPop, sweepHash, sweepSet, sweepAlias, sweepMove, sweepZ, sweepZAdd, sweepIntervals, sweepLife, storeMatrix,
		func(ss *kit.Session) { typeMatrix(ss, false, "slhSz") }, func(ss *kit.Session) { typeMatrix(ss, true, "slhSz") }}
	parallel(len(sweeps), 8, func(i int) {
		directed(rep, "refusals", func(ss *kit.Session) {
			ss.AuditRefused = true
			sweeps[i](ss)
		})
	})
	rep.Require("refused commands of the sweeps with the data set read afterwards", 2000)
}

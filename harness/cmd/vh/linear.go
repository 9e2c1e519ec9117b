package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"verif/harness/kit"
)

func init() {
	register("C11", "short histories of concurrent clients on shared keys are recorded with request and reply times and searched by porcupine for a sequential order that the reference model accepts; beside that, atomic observers check invariants that every intermediate state of sequential execution keeps; a case is one judged history or one observation taken while writers ran, non-trivial when operations really overlapped; distinct by the replies", c11)
}

// ---- recorded histories ----

type linState struct {
	m     *kit.Model
	canon string
}

func newState(m *kit.Model) linState { return linState{m, m.Canon()} }

var linModel = porcupine.Model{
	Init: func() interface{} { return newState(kit.NewModel()) },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s := st.(linState)
		m := s.m.Clone()
		if err := m.Step(in.([]string), out.(kit.Reply)); err != nil {
			return false, st
		}
		return true, newState(m)
	},
	Equal: func(a, b interface{}) bool { return a.(linState).canon == b.(linState).canon },
	Hash: func(a interface{}) uint64 {
		h := fnv.New64a()
		h.Write([]byte(a.(linState).canon))
		return h.Sum64()
	},
	DescribeOperation: func(in, out interface{}) string {
		return kit.Fmt(in.([]string)) + " -> " + out.(kit.Reply).String()
	},
}

// concGen makes commands for few keys that many clients share.
type concGen struct {
	*rand.Rand
	p    string // key prefix
	kind int
	n    int // unique values
}

func (g *concGen) k(t string, n int) string { return g.p + t + strconv.Itoa(g.Intn(n)) }
func (g *concGen) v() string {
	g.n++
	return "v" + strconv.Itoa(g.n)
}
func (g *concGen) m() string { return string(rune('a' + g.Intn(4))) }
func (g *concGen) some(t string, n int) []string {
	var out []string
	for i := 0; i <= g.Intn(n); i++ {
		out = append(out, g.k(t, n))
	}
	return out
}
func cat(a string, b ...string) []string { return append([]string{a}, b...) }

func (g *concGen) cmd() []string {
	kind := g.kind
	if kind == 6 {
		kind = g.Intn(6)
	}
	switch kind {
	case 0: // strings and counters
		switch g.Intn(11) {
		case 0:
			return []string{"SET", g.k("s", 3), g.v()}
		case 1, 2:
			return []string{"GET", g.k("s", 3)}
		case 3:
			a := []string{"MSET"}
			for _, k := range g.some("s", 3) {
				a = append(a, k, g.v())
			}
			return a
		case 4, 5:
			return []string{"MGET", g.p + "s0", g.p + "s1", g.p + "s2"}
		case 6:
			return []string{"APPEND", g.k("s", 3), g.v()}
		case 7:
			return cat("DEL", g.some("s", 3)...)
		case 8:
			return cat("EXISTS", g.some("s", 3)...)
		case 9:
			return []string{"INCRBY", g.k("c", 2), strconv.Itoa(1 + g.Intn(3))}
		default:
			return []string{"DECR", g.k("c", 2)}
		}
	case 1: // lists
		k := g.k("l", 2)
		switch g.Intn(10) {
		case 0:
			return []string{"RPUSH", k, g.v()}
		case 1:
			return []string{"LPUSH", k, g.v(), g.v()}
		case 2:
			return []string{"LPOP", k}
		case 3:
			return []string{"RPOP", k}
		case 4:
			return []string{"RPOP", k, "2"}
		case 5:
			return []string{"LLEN", k}
		case 6:
			return []string{"LSET", k, strconv.Itoa(g.Intn(3) - 1), g.v()}
		case 7:
			return []string{"LINDEX", k, strconv.Itoa(g.Intn(3) - 1)}
		case 8:
			return []string{"DEL", k}
		default:
			return []string{"LRANGE", k, "0", "-1"}
		}
	case 2: // sets
		k := g.k("a", 3)
		switch g.Intn(13) {
		case 0, 1:
			return []string{"SADD", k, g.m(), g.m()}
		case 2:
			return []string{"SREM", k, g.m()}
		case 3:
			return []string{"SPOP", k}
		case 4, 5:
			return []string{"SMOVE", k, g.k("a", 3), g.m()}
		case 6:
			return []string{"SMEMBERS", k}
		case 7:
			return []string{"SCARD", k}
		case 8:
			return cat("SUNIONSTORE", append([]string{k}, g.some("a", 3)...)...)
		case 9:
			return cat("SDIFFSTORE", append([]string{k}, g.some("a", 3)...)...)
		case 10:
			return cat("SINTER", g.some("a", 3)...)
		case 11:
			return []string{"SUNION", g.p + "a0", g.p + "a1", g.p + "a2"}
		default:
			return []string{"SISMEMBER", k, g.m()}
		}
	case 3: // sorted sets
		k := g.k("z", 2)
		switch g.Intn(9) {
		case 0:
			return []string{"ZADD", k, strconv.Itoa(g.Intn(4)), g.m(), strconv.Itoa(g.Intn(4)), g.m()}
		case 1:
			return []string{"ZADD", k, "NX", strconv.Itoa(g.Intn(4)), g.m()}
		case 2:
			return []string{"ZINCR", k, "1", g.m()}
		case 3:
			return []string{"ZPOPMIN", k}
		case 4:
			return []string{"ZREM", k, g.m(), g.m()}
		case 5:
			return []string{"ZCARD", k}
		case 6:
			return []string{"ZRANK", k, g.m()}
		case 7:
			return []string{"ZSCORE", k, g.m()}
		default:
			return []string{"ZRANGE", k, "0", "-1", "WITHSCORES"}
		}
	case 4: // hashes
		k := g.k("h", 2)
		switch g.Intn(9) {
		case 0:
			return []string{"HSET", k, g.m(), g.v()}
		case 1:
			return []string{"HMSET", k, "a", g.v(), "b", g.v()}
		case 2:
			return []string{"HSETNX", k, g.m(), g.v()}
		case 3:
			return []string{"HGET", k, g.m()}
		case 4:
			return []string{"HDEL", k, g.m(), g.m()}
		case 5:
			return []string{"HLEN", k}
		case 6:
			return []string{"HINCRBY", k, "n", "1"}
		case 7:
			return []string{"HMGET", k, "a", "b"}
		default:
			return []string{"HGETALL", k}
		}
	default: // keys changing type
		k := g.k("x", 2)
		switch g.Intn(10) {
		case 0:
			return []string{"SET", k, g.v()}
		case 1:
			return []string{"RPUSH", k, g.v()}
		case 2:
			return []string{"SADD", k, g.m()}
		case 3:
			return []string{"DEL", k}
		case 4:
			return []string{"TYPE", k}
		case 5:
			return []string{"LPOP", k}
		case 6:
			return []string{"SPOP", k}
		case 7:
			return []string{"KEYS", g.p + "*"}
		case 8:
			return []string{"INCR", k}
		default:
			return []string{"EXISTS", g.p + "x0", g.p + "x1"}
		}
	}
}

func c11(rep *kit.Report) {
	bin(rep, "plain")
	var fs []func()
	for i := 0; i < 4; i++ {
		i := i
		fs = append(fs, func() {
			s := launch(rep)
			defer s.Kill()
			linRounds(rep, s, rep.Seed*1000+int64(i), 260*rep.Scale)
			healthy(rep, s)
		})
	}
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() {
			s := launch(rep)
			defer s.Kill()
			for r := 0; r < 2*rep.Scale; r++ {
				observers(rep, s, rep.Seed*100+int64(i*10+r), 700)
			}
			healthy(rep, s)
		})
	}
	for i := 0; i < 2; i++ {
		i := i
		fs = append(fs, func() {
			s := launch(rep)
			defer s.Kill()
			for r := 0; r < 2*rep.Scale; r++ {
				longCommands(rep, s, rep.Seed*100+int64(i*50+r))
			}
			healthy(rep, s)
		})
	}
	fs = append(fs, func() {
		s := launch(rep)
		defer s.Kill()
		for r := 0; r < rep.Scale; r++ {
			repeated(rep, s, rep.Seed*100+int64(r))
		}
		healthy(rep, s)
	})
	parallel(len(fs), len(fs), func(i int) { fs[i]() })
	rep.Require("observations of one place named many times", 3000)
	rep.Require("distinct states of places named many times", 100)
	rep.Require("observations of commands with many arguments", 1000)
	parallel(2, 2, func(i int) {
		s := launch(rep)
		defer s.Kill()
		for r := 0; r < 6*rep.Scale; r++ {
			risingRound(rep, s, rep.Seed*1000+int64(i*500+r), []int{4, 16, 32, 64}[r%4], 5000/[]int{4, 16, 32, 64}[r%4])
		}
		healthy(rep, s)
	})
	rep.Require("reads held against acknowledged writes", 50000)
	freezeRounds(rep, "plain", rep.Seed)
	rep.Require("histories judged linearizable", 400)
	rep.Require("overlapping operation pairs", 2000)
	rep.Require("atomic observations while writers ran", 2000)
}

// linRounds records short histories on fresh keys and has each one judged.
func linRounds(rep *kit.Report, s *kit.Server, seed int64, rounds int) {
	const maxClients = 8
	conns := make([]*kit.Conn, maxClients)
	for i := range conns {
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		conns[i] = c
		defer c.Close()
	}
	base := time.Now()
	rnd := rand.New(rand.NewSource(seed))
	for round := 0; round < rounds; round++ {
		clients := 2 + rnd.Intn(maxClients-1)
		ops := 3 + rnd.Intn(60/clients)
		if ops > 12 {
			ops = 12
		}
		p := fmt.Sprintf("r%d:", round)
		kind := rnd.Intn(7)
		var (
			mu   sync.Mutex
			hist []porcupine.Operation
			wg   sync.WaitGroup
			gate = make(chan struct{})
		)
		for c := 0; c < clients; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				g := &concGen{Rand: rand.New(rand.NewSource(seed*31 + int64(round*17+c))), p: p, kind: kind, n: c * 100}
				<-gate
				for done := 0; done < ops; {
					// one by one, or a few without waiting
					n := 1
					if g.Intn(4) == 0 {
						n = 1 + g.Intn(3)
					}
					var b []byte
					var cmds [][]string
					for i := 0; i < n; i++ {
						a := g.cmd()
						cmds = append(cmds, a)
						b = kit.AppendEnc(b, a)
					}
					call := time.Since(base).Nanoseconds()
					if err := conns[c].Send(b); err != nil {
						kit.Diagnose(rep, s, fmt.Sprintf("sending %s: %v", kit.Fmt(cmds[0]), err))
					}
					for i := 0; i < n; i++ {
						r, err := conns[c].Reply()
						if err != nil {
							kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(cmds[i]), err))
						}
						ret := time.Since(base).Nanoseconds()
						mu.Lock()
						hist = append(hist, porcupine.Operation{ClientId: c, Input: cmds[i], Call: call, Output: r, Return: ret})
						mu.Unlock()
					}
					done += n
					if g.Intn(5) == 0 {
						time.Sleep(time.Duration(g.Intn(60)) * time.Microsecond)
					}
				}
			}(c)
		}
		close(gate)
		wg.Wait()
		judgeHistory(rep, hist, fmt.Sprintf("round %d of seed %d", round, seed))
		// clear the keys of the round
		r, err := conns[0].Do("KEYS", p+"*")
		if err != nil {
			kit.Diagnose(rep, s, "KEYS after a round: "+err.Error())
		}
		del := []string{"DEL"}
		for _, e := range r.Arr {
			del = append(del, e.Str)
		}
		if len(del) > 1 {
			if _, err := conns[0].Do(del...); err != nil {
				kit.Diagnose(rep, s, "DEL after a round: "+err.Error())
			}
		}
	}
}

func judgeHistory(rep *kit.Report, hist []porcupine.Operation, name string) {
	overlaps := int64(0)
	for i := range hist {
		for j := i + 1; j < len(hist); j++ {
			a, b := hist[i], hist[j]
			if a.ClientId != b.ClientId && a.Call <= b.Return && b.Call <= a.Return {
				overlaps++
			}
		}
	}
	res := porcupine.CheckOperationsTimeout(linModel, hist, 20*time.Second)
	rep.Count("histories", 1)
	rep.Count("recorded operations", int64(len(hist)))
	rep.Count("overlapping operation pairs", overlaps)
	switch res {
	case porcupine.Illegal:
		rep.Violation("no sequential order of the recorded commands explains the replies: "+name, describe(hist))
	case porcupine.Unknown:
		rep.Count("histories too hard to judge", 1)
		return
	}
	rep.Count("histories judged linearizable", 1)
	d := describe(hist)
	rep.Eval(overlaps > 0, stripTimes(hist))
	if len(hist) < 14 {
		rep.Sample("%s", d)
	}
}

func stripTimes(hist []porcupine.Operation) string {
	var sb strings.Builder
	for _, o := range hist {
		fmt.Fprintf(&sb, "%d %s;", o.ClientId, linModel.DescribeOperation(o.Input, o.Output))
	}
	return sb.String()
}

func describe(hist []porcupine.Operation) string {
	h := append([]porcupine.Operation(nil), hist...)
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var sb strings.Builder
	for _, o := range h {
		fmt.Fprintf(&sb, "client %d [%d..%d us] %s\n", o.ClientId, o.Call/1000, o.Return/1000, linModel.DescribeOperation(o.Input, o.Output))
	}
	return sb.String()
}

// ---- atomic observers ----

// observers lets writers keep an invariant with every single command while
// readers look on.
func observers(rep *kit.Report, s *kit.Server, seed int64, n int) {
	p := fmt.Sprintf("o%d:", seed)
	var wg sync.WaitGroup
	writers := atomic.Int64{}
	do := func(c *kit.Conn, a ...string) kit.Reply {
		r, err := c.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
		}
		return r
	}
	dial := func() *kit.Conn {
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		return c
	}
	write := func(f func(c *kit.Conn, i int)) {
		wg.Add(1)
		writers.Add(1)
		go func() {
			defer wg.Done()
			defer writers.Add(-1)
			c := dial()
			defer c.Close()
			for i := 0; i < n; i++ {
				f(c, i)
			}
		}()
	}
	watch := func(what string, f func(c *kit.Conn) (string, bool, string)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := dial()
			defer c.Close()
			for i := 0; i < n; i++ {
				busy := writers.Load() > 0
				seen, ok, show := f(c)
				if !ok {
					rep.Violation("a reader saw a state no command leaves behind: "+what+": "+seen, show)
				}
				rep.Eval(busy, what, seen)
				if busy {
					rep.Count("atomic observations while writers ran", 1)
					rep.Count("observed: "+what, 1)
				}
			}
		}()
	}

	const width = 150
	tokens := func(cmd, key string, tok string) []string {
		a := []string{cmd}
		if key != "" {
			a = append(a, key)
		}
		for i := 0; i < width; i++ {
			a = append(a, p+"w"+strconv.Itoa(i), tok)
		}
		return a
	}
	names := make([]string, width)
	for i := range names {
		names[i] = p + "w" + strconv.Itoa(i)
	}

	c0 := dial()
	defer c0.Close()

	// one MSET writes one token everywhere
	do(c0, tokens("MSET", "", "0")...)
	for w := 0; w < 2; w++ {
		w := w
		write(func(c *kit.Conn, i int) {
			do(c, tokens("MSET", "", fmt.Sprintf("t%d.%d", w, i))...)
		})
	}
	uniform := func(l []kit.Reply) (string, bool) {
		for i := range l {
			if l[i].Kind != '$' || l[i].Nil != l[0].Nil || l[i].Str != l[0].Str {
				return fmt.Sprintf("element 0 is %s, element %d is %s", l[0], i, l[i]), false
			}
		}
		if len(l) == 0 {
			return "empty", true
		}
		return l[0].String(), true
	}
	watch("MGET during MSET of one token", func(c *kit.Conn) (string, bool, string) {
		r := do(c, cat("MGET", names...)...)
		if r.Kind != '*' || len(r.Arr) != width {
			return "reply " + r.String(), false, ""
		}
		sn, ok := uniform(r.Arr)
		return sn, ok, r.String()
	})

	// one HSET/HMSET writes one token to every field
	write(func(c *kit.Conn, i int) {
		if i%9 == 8 {
			do(c, "DEL", p+"H")
			return
		}
		do(c, tokens([]string{"HSET", "HMSET"}[i%2], p+"H", "h"+strconv.Itoa(i))...)
	})
	watch("HGETALL during HSET of one token", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "HGETALL", p+"H")
		if r.IsErr() || (len(r.Arr) != 2*width && len(r.Arr) != 0) {
			return fmt.Sprintf("%d elements", len(r.Arr)), false, r.String()
		}
		var vs []kit.Reply
		for i := 1; i < len(r.Arr); i += 2 {
			vs = append(vs, r.Arr[i])
		}
		sn, ok := uniform(vs)
		return sn, ok, r.String()
	})

	// DEL and MSET of the same keys: all or none
	do(c0, "MSET", p+"d0", "x", p+"d1", "x", p+"d2", "x", p+"d3", "x")
	write(func(c *kit.Conn, i int) {
		if i%2 == 0 {
			do(c, "DEL", p+"d0", p+"d1", p+"d2", p+"d3")
		} else {
			do(c, "MSET", p+"d3", "x", p+"d2", "x", p+"d1", "x", p+"d0", "x")
		}
	})
	watch("EXISTS during DEL and MSET of four keys", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "EXISTS", p+"d0", p+"d1", p+"d2", p+"d3")
		return r.String(), r.Kind == ':' && (r.Int == 0 || r.Int == 4), ""
	})
	watch("KEYS during DEL and MSET of four keys", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "KEYS", p+"d?")
		return fmt.Sprint(len(r.Arr), " keys"), !r.IsErr() && (len(r.Arr) == 0 || len(r.Arr) == 4), r.String()
	})

	// members travel between two sets
	do(c0, "SADD", p+"A", "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "stay")
	do(c0, "SADD", p+"B", "home")
	for w := 0; w < 2; w++ {
		w := w
		write(func(c *kit.Conn, i int) {
			m := "m" + strconv.Itoa((i/2+w*4)%8)
			if i%2 == 0 {
				do(c, "SMOVE", p+"A", p+"B", m)
			} else {
				do(c, "SMOVE", p+"B", p+"A", m)
			}
		})
	}
	watch("SUNION during SMOVE", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "SUNION", p+"A", p+"B")
		return fmt.Sprint(len(r.Arr), " members"), len(r.Arr) == 10, r.String()
	})
	watch("SINTER during SMOVE", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "SINTER", p+"B", p+"A")
		return fmt.Sprint(len(r.Arr), " members"), !r.IsErr() && len(r.Arr) == 0, r.String()
	})

	// a store replaces the whole destination
	var big [2][]string
	for j := 0; j < 2; j++ {
		for i := 0; i < width*(j+1); i++ {
			big[j] = append(big[j], fmt.Sprintf("%c%d", 'x'+j, i))
		}
		do(c0, cat("SADD", append([]string{p + "S" + strconv.Itoa(j)}, big[j]...)...)...)
	}
	do(c0, "SUNIONSTORE", p+"D", p+"S0")
	write(func(c *kit.Conn, i int) {
		do(c, []string{"SUNIONSTORE", "SINTERSTORE", "SDIFFSTORE"}[i%3], p+"D", p+"S"+strconv.Itoa(i%2))
	})
	watch("SMEMBERS during STORE", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "SMEMBERS", p+"D")
		if len(r.Arr) != width && len(r.Arr) != 2*width {
			return fmt.Sprint(len(r.Arr), " members"), false, r.String()
		}
		for _, e := range r.Arr {
			if e.Str[0] != r.Arr[0].Str[0] {
				return "mixed members", false, r.String()
			}
		}
		return fmt.Sprint(len(r.Arr), " members"), true, ""
	})

	// pushes of several elements stay together, pops with a count too
	write(func(c *kit.Conn, i int) {
		t := strconv.Itoa(i)
		if i%7 == 6 {
			do(c, "DEL", p+"L")
			return
		}
		do(c, "RPUSH", p+"L", t, t, t)
		do(c, "LPUSH", p+"L", t, t, t)
	})
	write(func(c *kit.Conn, i int) { do(c, []string{"LPOP", "RPOP"}[i%2], p+"L", "3") })
	watch("LRANGE during pushes of three", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "LRANGE", p+"L", "0", "-1")
		if r.IsErr() || len(r.Arr)%3 != 0 {
			return fmt.Sprint(len(r.Arr), " elements"), false, r.String()
		}
		for i := 0; i < len(r.Arr); i += 3 {
			if r.Arr[i].Str != r.Arr[i+1].Str || r.Arr[i].Str != r.Arr[i+2].Str {
				return "broken group", false, r.String()
			}
		}
		return fmt.Sprint(len(r.Arr), " elements"), true, ""
	})
	watch("LLEN during pushes of three", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "LLEN", p+"L")
		return r.String(), r.Kind == ':' && r.Int%3 == 0, ""
	})

	// ZADD of several members at one score
	write(func(c *kit.Conn, i int) {
		if i%11 == 10 {
			do(c, "DEL", p+"Z")
			return
		}
		a := []string{"ZADD", p + "Z"}
		for j := 0; j < 40; j++ {
			a = append(a, strconv.Itoa(i), "m"+strconv.Itoa(j))
		}
		do(c, a...)
	})
	watch("ZRANGE during ZADD of one score", func(c *kit.Conn) (string, bool, string) {
		r := do(c, "ZRANGE", p+"Z", "0", "-1", "WITHSCORES")
		if len(r.Arr) != 0 && len(r.Arr) != 80 {
			return fmt.Sprint(len(r.Arr), " elements"), false, r.String()
		}
		for i := 1; i < len(r.Arr); i += 2 {
			if r.Arr[i].Str != r.Arr[1].Str {
				return "two scores", false, r.String()
			}
		}
		if len(r.Arr) == 0 {
			return "none", true, ""
		}
		return "score " + r.Arr[1].Str, true, ""
	})

	// own writes, and readers never go back in real time
	var acked, started atomic.Int64
	for w := 0; w < 2; w++ {
		write(func(c *kit.Conn, i int) {
			started.Add(1)
			r := do(c, "INCR", p+"N")
			for {
				o := acked.Load()
				if r.Int <= o || acked.CompareAndSwap(o, r.Int) {
					break
				}
			}
			if i%3 == 0 {
				g := do(c, "GET", p+"N")
				if v, err := strconv.ParseInt(g.Str, 10, 64); err != nil || v < r.Int {
					rep.Violation(fmt.Sprintf("a client was told its INCR made %d and then read %s", r.Int, g))
				}
			}
		})
	}
	watch("GET during INCR", func(c *kit.Conn) (string, bool, string) {
		lo := acked.Load()
		r := do(c, "GET", p+"N")
		hi := started.Load()
		if r.Nil {
			return "nil", lo == 0, fmt.Sprintf("%d increments were already acknowledged", lo)
		}
		v, err := strconv.ParseInt(r.Str, 10, 64)
		return r.Str, err == nil && v >= lo && v <= hi, fmt.Sprintf("acknowledged before the request: %d, started before the reply: %d", lo, hi)
	})
	wg.Wait()
}

// longCommands: commands with hundreds and thousands of arguments, which take
// effect as a whole like any other.
func longCommands(rep *kit.Report, s *kit.Server, seed int64) {
	r := rand.New(rand.NewSource(seed))
	p := fmt.Sprintf("long%d:", seed)
	dial := func() *kit.Conn {
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		return c
	}
	do := func(c *kit.Conn, a []string) kit.Reply {
		rp, err := c.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s with %d arguments: %v", a[0], len(a), err))
		}
		if rp.IsErr() {
			rep.Violation(fmt.Sprintf("%s with %d arguments: %s", a[0], len(a), rp))
		}
		return rp
	}
	for round := 0; round < 26; round++ {
		n := []int{40 + r.Intn(200), 500 + r.Intn(600), 2000 + r.Intn(3000)}[r.Intn(3)]
		k := p + strconv.Itoa(round)
		list := func(head []string, each ...string) []string {
			a := append([]string{}, head...)
			for i := 0; i < n; i++ {
				for _, e := range each {
					a = append(a, strings.ReplaceAll(e, "#", strconv.Itoa(i)))
				}
			}
			return a
		}
		name, N := k+"#", strconv.Itoa(n)
		last := k + strconv.Itoa(n-1)
		var writes, reads [][]string
		tok := func(t string) []string { return list([]string{"MSET"}, name, t) }
		switch round % 9 {
		case 0: // keys come and go together
			writes = [][]string{list([]string{"MSET"}, name, "x"), list([]string{"DEL"}, name)}
			reads = [][]string{{"EXISTS", k + "0", last}, {"EXISTS", last, k + "0"}, {"MGET", k + "0", last}, list([]string{"EXISTS"}, name), list([]string{"MGET"}, name), {"KEYS", k + "*"}}
		case 1: // one token everywhere
			writes = [][]string{tok("a"), tok("b"), tok("c")}
			reads = [][]string{{"MGET", k + "0", last}, list([]string{"MGET"}, name), {"MGET", last, k + "1"}}
		case 2:
			writes = [][]string{list([]string{"SADD", k}, "m#"), list([]string{"SREM", k}, "m#"), list([]string{"SADD", k}, "m#"), {"SPOP", k, N}, list([]string{"SADD", k}, "m#"), {"DEL", k}}
			reads = [][]string{{"SCARD", k}, {"SMEMBERS", k}, {"SUNION", k, k + "no"}, {"SINTER", k, k}, {"SDIFF", k, k + "no"}}
		case 3:
			writes = [][]string{list([]string{"HSET", k}, "m#", "v"), list([]string{"HDEL", k}, "m#"), list([]string{"HMSET", k}, "m#", "v"), {"DEL", k}}
			reads = [][]string{{"HLEN", k}, {"HGETALL", k}, {"HKEYS", k}, {"HVALS", k}}
		case 4: // one token in every field
			writes = [][]string{list([]string{"HSET", k}, "m#", "a"), list([]string{"HMSET", k}, "m#", "b")}
			reads = [][]string{{"HMGET", k, "m0", "m" + strconv.Itoa(n-1)}, list([]string{"HMGET", k}, "m#"), {"HVALS", k}}
		case 5:
			writes = [][]string{list([]string{"RPUSH", k}, "m#"), {"LPOP", k, N}, list([]string{"LPUSH", k}, "m#"), {"RPOP", k, N}, list([]string{"LPUSH", k}, "m"), {"LREM", k, "0", "m"}, list([]string{"RPUSH", k}, "m"), {"DEL", k}}
			reads = [][]string{{"LLEN", k}, {"LRANGE", k, "0", "-1"}}
		case 6:
			writes = [][]string{list([]string{"ZADD", k}, "#", "m#"), list([]string{"ZREM", k}, "m#"), list([]string{"ZADD", k}, "1", "m#"), {"ZPOPMIN", k, N}, list([]string{"ZADD", k}, "1", "m#"), {"ZPOPMAX", k, N}}
			reads = [][]string{{"ZCARD", k}, {"ZCOUNT", k, "-inf", "+inf"}, {"ZRANGE", k, "0", "-1"}, {"ZREVRANGE", k, "0", "-1", "WITHSCORES"}, {"ZRANGEBYSCORE", k, "-inf", "+inf"}}
		case 7: // one score for all
			writes = [][]string{list([]string{"ZADD", k}, "1", "m#"), list([]string{"ZADD", k, "XX"}, "2", "m#"), list([]string{"ZADD", k}, "3", "m#")}
			reads = [][]string{{"ZCOUNT", k, "1", "1"}, {"ZCOUNT", k, "2", "2"}, {"ZRANGEBYSCORE", k, "3", "3"}, {"ZCOUNT", k, "(1", "3"}}
		case 8:
			writes = [][]string{{"SUNIONSTORE", k, k + "src"}, {"SDIFFSTORE", k, k + "src", k + "src"}, {"SINTERSTORE", k, k + "src", k + "src"}, {"DEL", k}}
			reads = [][]string{{"SCARD", k}, {"SMEMBERS", k}, {"SINTER", k + "src", k}, {"SDIFF", k + "src", k}}
			c := dial()
			do(c, list([]string{"SADD", k + "src"}, "m#"))
			c.Close()
		}
		if round%9 == 1 || round%9 == 4 || round%9 == 7 { // the first write makes them all
			c := dial()
			do(c, writes[0])
			c.Close()
		}
		// what a reply says, or "" for one that no command as a whole leaves
		state := func(a []string, rp kit.Reply) string {
			l := int64(len(rp.Arr))
			if rp.Kind == ':' {
				l = rp.Int
			}
			if a[0] == "MGET" || a[0] == "HMGET" || (a[0] == "HVALS" && l > 0) {
				for _, e := range rp.Arr {
					if e.Nil != rp.Arr[0].Nil || e.Str != rp.Arr[0].Str {
						return ""
					}
				}
				if l != int64(len(a)-1) && a[0] == "MGET" || l != int64(len(a)-2) && a[0] == "HMGET" || l != int64(n) && a[0] == "HVALS" {
					return ""
				}
				return "all " + rp.Arr[0].String()
			}
			all := int64(n)
			switch {
			case a[0] == "EXISTS":
				all = int64(len(a) - 1)
			case a[0] == "HGETALL" || a[len(a)-1] == "WITHSCORES":
				all *= 2
			}
			if l == 0 {
				return "none"
			}
			if l == all {
				return "all"
			}
			return ""
		}
		var wg sync.WaitGroup
		var busy atomic.Int64
		writers := 1
		if w := round % 9; w == 1 || w == 4 || w == 0 || w == 8 {
			writers = 2 // any order of them keeps the invariant
		}
		for w := 0; w < writers; w++ {
			wg.Add(1)
			busy.Add(1)
			go func(w int) {
				defer wg.Done()
				defer busy.Add(-1)
				c := dial()
				defer c.Close()
				for i := 0; i < 24+60000/n; i++ {
					do(c, writes[i%len(writes)])
				}
			}(w)
		}
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				c := dial()
				defer c.Close()
				for i := w; busy.Load() > 0; i++ {
					a := reads[(i/2)%len(reads)]
					rp := do(c, a)
					st := state(a, rp)
					if st == "" {
						rep.Violation(fmt.Sprintf("a reader saw a state no command leaves behind: %s (%d arguments) while %s ... of %d arguments is among those that run", a[0], len(a)-1, writes[0][0], len(writes[0])-1), rp.String())
					}
					rep.Eval(true, a[0], writes[0][0], st)
					rep.Count("observations of commands with many arguments", 1)
				}
			}(w)
		}
		wg.Wait()
		c := dial()
		do(c, list([]string{"DEL", k, k + "src"}, name))
		c.Close()
	}
}

// repeated: one place named thousands of times in one command, or a value so
// long that its reply takes a while to write, with writers changing it all the
// time: the reply shows one of its states, everywhere.
func repeated(rep *kit.Report, s *kit.Server, seed int64) {
	p := fmt.Sprintf("rep%d:", seed)
	times := func(n int, e string, head ...string) []string {
		for i := 0; i < n; i++ {
			head = append(head, e)
		}
		return head
	}
	long := func(c string, n int) string { return strings.Repeat(c, n) }
	k := func(t string) string { return p + t }
	type kind struct{ first, writes, reads [][]string }
	kinds := []kind{
		{[][]string{{"SET", k("n"), "500000"}}, [][]string{{"INCR", k("n")}, {"INCRBY", k("n"), "111"}, {"DECR", k("n")}, {"DECRBY", k("n"), "110"}, {"INCRBY", k("n"), "-333"}, {"INCRBY", k("n"), "333"}},
			[][]string{times(3000, k("n"), "MGET"), times(40, k("n"), "MGET")}},
		{[][]string{{"HSET", k("h"), "f", "500000", "g", "1.5", "s", "x"}}, [][]string{{"HINCRBY", k("h"), "f", "1"}, {"HINCRBY", k("h"), "f", "-1"}, {"HINCRBY", k("h"), "f", "12345"}, {"HINCRBY", k("h"), "f", "-12344"}},
			[][]string{times(3000, "f", "HMGET", k("h")), times(40, "f", "HMGET", k("h"))}},
		{[][]string{{"HSET", k("h2"), "g", "1.5"}}, [][]string{{"HINCRBYFLOAT", k("h2"), "g", "1.25"}, {"HINCRBYFLOAT", k("h2"), "g", "-1.25"}, {"HSET", k("h2"), "g", "7.5"}},
			[][]string{times(3000, "g", "HMGET", k("h2"))}},
		{nil, [][]string{{"SET", k("x"), long("a", 300)}, {"DEL", k("x")}, {"APPEND", k("x"), long("b", 300)}, {"DEL", k("x")}, {"SET", k("x"), long("c", 300)}},
			[][]string{times(2000, k("x"), "MGET"), times(2000, k("x"), "EXISTS")}},
		{nil, [][]string{{"HSETNX", k("h3"), "f", "v"}, {"HDEL", k("h3"), "f"}, {"HSET", k("h3"), "f", "w"}, {"HSET", k("h3"), "f", "w2"}, {"DEL", k("h3")}},
			[][]string{times(2000, "f", "HMGET", k("h3"))}},
		{nil, [][]string{{"SET", k("v"), long("a", 300000)}, {"SET", k("v"), long("b", 300000)}, {"SET", k("v"), long("c", 299999)}, {"APPEND", k("v"), "c"}},
			[][]string{{"GET", k("v")}, {"MGET", k("v"), k("v"), k("v")}}},
		{nil, [][]string{{"HSET", k("hv"), "f", long("a", 300000)}, {"HMSET", k("hv"), "f", long("b", 300000)}, {"HDEL", k("hv"), "f"}},
			[][]string{{"HGET", k("hv"), "f"}, {"HMGET", k("hv"), "f", "f"}, {"HVALS", k("hv")}}},
		{[][]string{{"RPUSH", k("l"), "a"}}, [][]string{{"LSET", k("l"), "0", long("a", 300000)}, {"LSET", k("l"), "-1", long("b", 300000)}},
			[][]string{{"LINDEX", k("l"), "0"}, {"LRANGE", k("l"), "0", "-1"}}},
	}
	oneByte := func(t string) bool { return len(t) == 0 || strings.Count(t, t[:1]) == len(t) }
	parallel(len(kinds), 1, func(x int) { // one at a time: the writers are to be fast
		kd := kinds[x]
		do := func(c *kit.Conn, a []string) kit.Reply {
			rp, err := c.Do(a...)
			if err != nil {
				kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
			}
			if rp.IsErr() {
				rep.Violation(fmt.Sprintf("%s: %s", kit.Fmt(a), rp))
			}
			return rp
		}
		dial := func() *kit.Conn {
			c, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			return c
		}
		c0 := dial()
		defer c0.Close()
		for _, a := range kd.first {
			do(c0, a)
		}
		var stop atomic.Bool
		var wg sync.WaitGroup
		for w := 0; w < 2; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				c := dial()
				defer c.Close()
				width := 900
				if len(kd.writes[0]) > 2 && len(kd.writes[0][len(kd.writes[0])-1]) > 1000 {
					width = 3
				}
				for i := 0; !stop.Load(); i++ {
					var cmds [][]string
					for j := 0; j < width; j++ {
						cmds = append(cmds, kd.writes[(i*width+j)%len(kd.writes)])
					}
					if _, err := c.Pipeline(cmds); err != nil {
						kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s and others: %v", kit.Fmt(cmds[0]), err))
					}
					rep.Count("commands that change what others read thousands of times over", int64(width))
				}
			}(w)
		}
		var rg sync.WaitGroup
		var seen sync.Map
		for w := 0; w < 2; w++ {
			rg.Add(1)
			go func(w int) {
				defer rg.Done()
				c := dial()
				defer c.Close()
				for i := 0; i < 200; i++ {
					a := kd.reads[(i+w)%len(kd.reads)]
					rp := do(c, a)
					bad := ""
					texts := rp.Arr
					switch {
					case rp.Kind == ':':
						if rp.Int != 0 && rp.Int != int64(len(a)-1) {
							bad = rp.String()
						}
					case rp.Kind == '$':
						texts = []kit.Reply{rp}
					}
					for j, e := range texts {
						if e.Nil != texts[0].Nil || e.Str != texts[0].Str {
							bad = fmt.Sprintf("element 0 is %s, element %d is %s", texts[0], j, e)
							break
						}
					}
					if len(texts) > 0 && len(texts[0].Str) > 250 && a[1] != k("v") && !oneByte(texts[0].Str) && a[1] != k("x") {
						bad = "a value nobody wrote, beginning with " + texts[0].Str[:20]
					}
					if len(texts) > 0 && (a[1] == k("v") || a[1] == k("x")) {
						// APPEND of one writer may follow a SET of the other
						if t := strings.TrimRight(texts[0].Str, "bc"); !oneByte(t) {
							bad = "a value nobody wrote, of " + strconv.Itoa(len(t)) + " bytes"
						}
					}
					if bad != "" {
						rep.Violation(fmt.Sprintf("a reader saw a state no command leaves behind: %s with %d arguments while %s runs: %s", a[0], len(a)-1, kit.Fmt(kd.writes[0]), kit.Short(bad)))
					}
					st := rp.String()
					if len(texts) > 0 {
						st = texts[0].String()
					}
					rep.Eval(true, "repeated", a[0], a[1][len(p):], st)
					if _, old := seen.LoadOrStore(st, true); !old {
						rep.Count("distinct states of places named many times", 1)
					}
					rep.Count("observations of one place named many times", 1)
				}
			}(w)
		}
		rg.Wait()
		stop.Store(true)
		wg.Wait()
	})
	c := redial(rep, s)
	defer c.Close()
	for _, t := range strings.Fields("n h h2 x h3 v hv l") {
		if _, err := c.Do("DEL", k(t)); err != nil {
			kit.Diagnose(rep, s, "waiting for the reply to DEL: "+err.Error())
		}
	}
}

func redial(rep *kit.Report, s *kit.Server) *kit.Conn {
	c, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	return c
}

// ---- freezing the process ----

// freezeRounds stops the whole server process (SIGSTOP) at a random moment
// under load, for about as long as and longer than any time limit in it, and
// lets it go on, or keeps it busy with one long command. Whatever it then
// answers must agree with what it did.
func freezeRounds(rep *kit.Report, variant string, seed int64) {
	ms := []int{11500, 11500, 120, 350, 800, 1700, 3300, 6000, 9000, -400, -1500, -4000, -11000}
	parallel(len(ms), len(ms), func(w int) {
		s, err := kit.Launch(bin(rep, variant))
		if err != nil {
			rep.Violation("the server does not start: " + err.Error())
		}
		defer s.Kill()
		if d := time.Duration(ms[w]) * time.Millisecond; d > 0 {
			freezeOne(rep, s, seed*100+int64(w), d)
		} else {
			busyOne(rep, s, seed*100+int64(w), -d)
		}
		healthy(rep, s)
	})
}

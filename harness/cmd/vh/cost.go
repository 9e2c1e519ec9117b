package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C27", "every command that touches a few elements, sent by the hundred to a server with small collections, to one with hundreds of thousands of elements and keys, to one with thousands of connections and to one that has executed hundreds of thousands of commands before; the processor time a command takes (clock of the server process) is compared; a case is one reply checked or one cost measured, distinct by command and server", c27)
}

// world is a server whose collections have n elements each.
type world struct {
	name string
	s    *kit.Server
	c    *kit.Conn
	n    int
	idle []*kit.Conn
}

// costCases are groups of commands that leave sizes as they were; # is a random
// existing element, @ the next but one, ! one that is new.
var costCases = strings.Split(`GET k:#
GET k:!
SET k:# v#
SET k:! v|DEL k:!
APPEND k:# x|SET k:# v
EXISTS k:# k:! s
TYPE k:#
TYPE s
DEL k:!
DEL k:#|SET k:# v
MGET k:# k:@ k:! l
MSET k:# a k:@ b
SET c:# 5|INCR c:#|INCRBY c:# 7|DECR c:#|DECRBY c:# 2|DEL c:#
INCR k:#|SET k:# v
LPUSH k:# a
LPUSH l x|LPOP l
RPUSH l x|RPOP l
RPUSH l x|LPOP l
LPUSH l x|RPOP l
LPUSH l x y z|LPOP l 3
RPUSH l x y z|RPOP l 3
LLEN l
LINDEX l 0
LINDEX l 3
LINDEX l -1
LINDEX l -4
LINDEX l 9999999
LINDEX l -9999999
LSET l 0 x
LSET l -1 y
LSET l 9999999 x
LRANGE l 0 9
LRANGE l 9999999 -1
LRANGE l 5 2
LPUSH l q:!|LREM l 1 q:!
RPUSH l q:!|LREM l -1 q:!
LPUSH l q:!|LINSERT l BEFORE q:! x|LPOP l 2
LPUSH l q:!|LINSERT l AFTER q:! x|LPOP l 2
LPUSH new:! a b|RPUSH new:! c|LPOP new:! 3
HSET h f:# v
HSET h f:! v|HDEL h f:!
HSET h f:# v f:@ w
HMSET h f:# v f:@ w
HSETNX h f:# v
HSETNX h f:! v|HDEL h f:!
HGET h f:#
HGET h f:!
HMGET h f:# f:@ f:!
HEXISTS h f:#
HEXISTS h f:!
HDEL h f:#|HSET h f:# v
HDEL h f:!
HLEN h
HINCRBY h n:# 1|HDEL h n:#
HINCRBYFLOAT h n:# 1.5|HDEL h n:#
HINCRBY h f:# 1
HSET new:! f v|HDEL new:! f
SADD s m:#
SADD s m:!|SREM s m:!
SADD s m:! m:# m:@|SREM s m:!
SREM s m:#|SADD s m:#
SREM s m:!
SISMEMBER s m:#
SISMEMBER s m:!
SCARD s
SPOP sp|SADD sp !
SPOP sp 3|SADD sp a! b! c!
SPOP none
SMOVE s s2 m:#|SMOVE s2 s m:#
SMOVE s2 s m:#
SADD new:! a|SREM new:! a
ZADD z 5 e:#
ZADD z #.25 e:#
ZADD z #.75 e:!|ZREM z e:!
ZADD z # e:# # e:@
ZADD z NX 1 e:#
ZADD z XX #.5 e:#
ZADD z INCR 0.001 e:#
ZINCR z 1.5 e:#
ZREM z e:#|ZADD z # e:#
ZREM z e:!
ZSCORE z e:#
ZSCORE z e:!
ZRANK z e:#
ZRANK z e:!
ZCARD z
ZRANGE z # @
ZRANGE z # @ WITHSCORES
ZRANGE z -@ -#
ZRANGE z 0 3
ZRANGE z -3 -1
ZRANGE z 9999999 -1
ZREVRANGE z # @
ZREVRANGE z -3 -1
ZREVRANGE z 0 3
ZCOUNT zs # @
ZCOUNT zs -inf +inf
ZCOUNT zs (# +inf
ZRANGEBYSCORE zs # @
ZRANGEBYSCORE zs (# (@ WITHSCORES
ZRANGE zs # @ BYSCORE
ZRANGEBYSCORE zs @ #
ZADD zs -7 low|ZPOPMIN zs
ZADD zs 1e9 high|ZPOPMAX zs
ZADD zs -7 low -6 lower|ZPOPMIN zs 2
ZADD zs 1e9 high 2e9 higher|ZPOPMAX zs 2
ZADD new:! 1 a|ZREM new:! a
ZADD zt # e:#|ZADD zt 1 e:#
ZADD zt 1 e:!|ZREM zt e:!
ZRANK zt e:#
ZRANGE zt # @
ZADD zt 1 AA|ZPOPMIN zt
ZADD zt 1 zz|ZPOPMAX zt
ZADD z nan e:#
ZADD z 1 e:# x e:@
HGET l f
SADD h a
LPUSH s a
ZADD s 1 a
GET z
SMOVE s h m:#
HSET h f
LSET l x y
NOSUCH a b
PING
COMMAND`, "\n")

// batch is m rounds of the case.
func (w *world) batch(r *rand.Rand, cs string, m int) [][]string {
	var out [][]string
	for j := 0; j < m; j++ {
		i := r.Intn(w.n - 3)
		in := strings.NewReplacer("#", strconv.Itoa(i), "@", strconv.Itoa(i+2), "!", fmt.Sprintf("new%d", r.Int31()))
		for _, c := range strings.Split(cs, "|") {
			out = append(out, strings.Fields(in.Replace(c)))
		}
	}
	return out
}

// fill gives the collections of the server n elements each.
func (w *world) fill(rep *kit.Report) {
	add := func(head, each string) {
		first, slow := time.Duration(0), 0
		for i := 0; i < w.n; {
			a := strings.Fields(head)
			for j := 0; j < 1000 && i < w.n; j++ {
				a = append(a, strings.Fields(strings.ReplaceAll(each, "#", strconv.Itoa(i)))...)
				i++
			}
			// what an element costs must not depend on how many there are already
			d, added := w.run(rep, [][]string{a}, "fill"), len(strings.Fields(each))
			d /= time.Duration((len(a) - len(strings.Fields(head))) / added)
			if first == 0 {
				first = d
			}
			if d < 8*first+60*time.Microsecond {
				slow = 0
			} else if slow++; slow == 5 {
				rep.Violation(fmt.Sprintf("adding an element by %q takes %v of processor time when there are %d and %v when there are few", head, d, i, first))
			}
		}
	}
	add("MSET", "k:# v#")
	add("RPUSH l", "x:#")
	add("HSET h", "f:# v#")
	add("SADD s", "m:#")
	add("SADD s2", "o:#")
	add("SADD sp", "p:#")
	add("ZADD z", "# e:#")
	add("ZADD zs", "# e:#")
	add("ZADD zt", "1 e:#") // all of one score
}

// run has the commands executed and returns the processor time they took.
func (w *world) run(rep *kit.Report, cmds [][]string, what string) time.Duration {
	t0, err := w.s.CPU()
	if err != nil {
		rep.Inconclusive("the clock of the server process: %v", err)
	}
	replies, err := w.c.Pipeline(cmds)
	if err != nil {
		kit.Diagnose(rep, w.s, fmt.Sprintf("waiting for the replies to %d commands like %s on a server with %s: %v", len(cmds), kit.Fmt(cmds[0][:min(len(cmds[0]), 5)]), w.name, err))
	}
	t1, err := w.s.CPU()
	if err != nil {
		rep.Inconclusive("the clock of the server process: %v", err)
	}
	if what != "fill" && what != "history" {
		for i, rp := range replies {
			rep.Eval(true, "reply", w.name, what, cmds[i][0], string(rp.Kind))
		}
		rep.Count("commands whose cost was measured", int64(len(cmds)))
	}
	return t1 - t0
}

func (w *world) sizes(rep *kit.Report, after string) {
	for _, a := range []struct{ cmd, want string }{{"LLEN l", "#"}, {"HLEN h", "#"}, {"SCARD s", "#"}, {"SCARD s2", "#"}, {"SCARD sp", "#"}, {"ZCARD z", "#"}, {"ZCARD zs", "#"}, {"ZCARD zt", "#"}} {
		rp, err := w.c.Do(strings.Fields(a.cmd)...)
		if err != nil {
			kit.Diagnose(rep, w.s, "waiting for the reply to "+a.cmd+": "+err.Error())
		}
		if rp.Kind != ':' || rp.Int != int64(w.n) {
			rep.Violation(fmt.Sprintf("%s replies %s after %q, want %d", a.cmd, rp, after, w.n))
		}
	}
}

func c27(rep *kit.Report) {
	n, rounds := 250000, 200
	if rep.Tier == "thorough" {
		n, rounds = 1000000, 150
	}
	start := func(name string, n int) *world {
		s, err := kit.Launch(bin(rep, "plain"))
		if err != nil {
			rep.Violation("the server does not start and answer a PING: " + err.Error())
		}
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		c.Patience = 2 * kit.StallTicks
		return &world{name: name, s: s, c: c, n: n}
	}
	bin(rep, "plain")
	ws := make([]*world, 4)
	parallel(len(ws), len(ws), func(i int) {
		switch i {
		case 0:
			ws[i] = start("small collections", 400)
		case 1:
			ws[i] = start(fmt.Sprintf("collections of %d elements and as many keys", n), n)
		case 2:
			ws[i] = start("3000 connections", 400)
			for j := 0; j < 3000; j++ {
				c, err := kit.Dial(ws[i].s.Addr)
				if err != nil {
					kit.Diagnose(rep, ws[i].s, "connect: "+err.Error())
				}
				ws[i].idle = append(ws[i].idle, c)
				if j%100 == 99 {
					if _, err := c.Do("GET", "k"); err != nil {
						kit.Diagnose(rep, ws[i].s, "waiting for the reply to GET: "+err.Error())
					}
				}
			}
		case 3:
			ws[i] = start(fmt.Sprintf("%d commands executed before", 8*n/5), 400)
		}
		ws[i].fill(rep)
		if i == 3 {
			r := rand.New(rand.NewSource(rep.Seed))
			for done, begin := 0, kit.Ticks(); done < 8*n/5 && kit.Ticks()-begin < 900; {
				for _, cs := range costCases {
					b := ws[i].batch(r, cs, 50)
					ws[i].run(rep, b, "history")
					done += len(b)
				}
			}
		}
	})
	defer func() {
		for _, w := range ws {
			for _, c := range w.idle {
				c.Close()
			}
			w.c.Close()
			w.s.Kill()
		}
	}()
	r := rand.New(rand.NewSource(rep.Seed + 7))
	cost := make([]time.Duration, len(ws))
	for _, cs := range costCases {
		k := strings.Count(cs, "|") + 1
		take := func(i, times int) {
			for t := 0; t < times; t++ {
				d := ws[i].run(rep, ws[i].batch(r, cs, rounds), cs) / time.Duration(rounds*k)
				if t == 0 || d < cost[i] {
					cost[i] = d
				}
			}
		}
		for i := range ws {
			take(i, 3)
			if i == 0 {
				continue
			}
			limit := func() time.Duration { return 8*cost[0] + 60*time.Microsecond }
			for try := 0; cost[i] > limit(); try++ {
				if try == 4 {
					rep.Violation(fmt.Sprintf("a command of %q takes %v of processor time on a server with %s and %v on one with %s", cs, cost[i], ws[i].name, cost[0], ws[0].name))
				}
				time.Sleep(200 * time.Millisecond)
				take(0, 5)
				take(i, 5)
			}
			rep.Max("highest cost of a command in nanoseconds", int64(cost[i]))
			rep.Count("costs compared", 1)
			rep.Eval(true, "cost", ws[i].name, cs)
		}
		for _, w := range ws {
			w.sizes(rep, cs)
		}
	}
	for _, w := range ws {
		healthy(rep, w.s)
	}
	rep.Require("costs compared", int64(3*len(costCases)))
	rep.Require("commands whose cost was measured", 30000)
}

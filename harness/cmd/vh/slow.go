package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kit"
)

// weighty sends every command that takes or touches many things with a few
// hundred thousand of them while a witness pings: nothing may hold the others up
// for much longer than such a command takes.
func weighty(rep *kit.Report) {
	n := 200000
	if rep.Tier == "thorough" {
		n = 500000
	}
	s, err := kit.Launch(bin(rep, "plain"))
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	defer s.Kill()
	c, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	defer c.Close()
	many := func(head string, each string) []string {
		a := strings.Fields(head)
		for i := 0; i < n; i++ {
			for _, e := range strings.Fields(each) {
				a = append(a, strings.ReplaceAll(e, "#", strconv.Itoa(i)))
			}
		}
		return a
	}
	same := func(head string, each string) []string {
		return many(head, strings.ReplaceAll(each, "#", "7"))
	}
	N := strconv.Itoa(n)
	mid := strconv.Itoa(n / 2)
	steps := []struct {
		want int // the number in the reply, or the number of elements, -1 for any
		cmd  []string
	}{
		{-1, many("MSET", "w:key:# v#")}, {-1, same("MSET", "w:key:# v#")}, {n, many("MGET", "w:key:#")}, {n, many("MGET", "w:key:#x")}, {n, same("MGET", "w:key:#")},
		{n, many("EXISTS", "w:key:#")}, {0, many("EXISTS", "w:key:#x")}, {n, same("EXISTS", "w:key:#")},
		{n, []string{"KEYS", "w:*"}}, {0, []string{"KEYS", "*:*k*e*y*#"}}, {-1, []string{"KEYS", "w:[k]?y:*[0-9]"}}, {0, []string{"KEYS", "?"}},
		{n, many("DEL", "w:key:# w:key:#x")}, {0, many("DEL", "w:key:# w:key:#x")}, {0, same("DEL", "w:key:#")},
		{n, many("RPUSH l", "el:#")}, {2 * n, many("LPUSH l", "el:#")}, {2 * n, []string{"LRANGE", "l", "0", "-1"}}, {n, []string{"LRANGE", "l", mid, strconv.Itoa(n/2 + n - 1)}}, {2, []string{"LREM", "l", "0", "el:5"}}, {1, []string{"LREM", "l", "-1", "el:" + mid}},
		{0, []string{"LREM", "l", "0", "nope"}}, {-1, []string{"LINSERT", "l", "BEFORE", "el:9", "x"}}, {-1, []string{"LINSERT", "l", "AFTER", "nope", "x"}}, {-1, []string{"LSET", "l", mid, "y"}}, {-1, []string{"LINDEX", "l", "-" + mid}},
		{n / 2, []string{"LPOP", "l", mid}}, {n / 2, []string{"RPOP", "l", mid}}, {1, []string{"DEL", "l"}}, {n, same("RPUSH l", "el:#")}, {n, []string{"LREM", "l", "0", "el:7"}}, {n, same("RPUSH l", "el:#")}, {n, []string{"LREM", "l", "-" + N, "el:7"}},
		{-1, many("HSET h", "f:# v")}, {-1, many("HSET h", "f:# w")}, {-1, same("HMSET h", "f:# w")}, {n, many("HMGET h", "f:#")}, {n, many("HMGET h", "f:#x")}, {n, same("HMGET h", "f:#")}, {2 * n, []string{"HGETALL", "h"}}, {n, []string{"HKEYS", "h"}}, {n, []string{"HVALS", "h"}}, {n, []string{"HLEN", "h"}},
		{n, many("HDEL h", "f:# f:#x")}, {-1, many("HMSET h", "f:# v")}, {0, many("HDEL h", "f:#x")}, {1, []string{"DEL", "h"}},
		{n, many("SADD s", "m:#")}, {0, many("SADD s", "m:#")}, {0, same("SADD s", "m:#")}, {n, many("SADD s2", "m:#x")}, {n, []string{"SMEMBERS", "s"}}, {n, []string{"SCARD", "s"}}, {n, []string{"SDIFF", "s", "s2"}}, {0, []string{"SINTER", "s", "s2"}}, {2 * n, []string{"SUNION", "s", "s2"}},
		{0, []string{"SDIFF", "s", "s"}}, {n, []string{"SINTER", "s", "s", "s"}}, {n, []string{"SDIFFSTORE", "d", "s", "s2"}}, {n, []string{"SINTERSTORE", "d", "s", "d"}}, {2 * n, []string{"SUNIONSTORE", "d", "s", "s2"}},
		{n, many("SDIFF s", "no:#")}, {n, many("SUNION s", "no:#")}, {0, many("SINTER s", "no:#")}, {n, many("SDIFFSTORE d s", "no:#")}, {n, many("SUNIONSTORE d s", "no:#")}, {0, many("SINTERSTORE d s", "no:#")}, {n, same("SUNION s", "no:#")},
		{n, many("SREM s2", "m:#x m:#")}, {n / 2, []string{"SPOP", "s", mid}}, {-1, many("SREM s", "m:#")}, {n, many("SADD s", "m:#")}, {n, []string{"SPOP", "s", N}},
		{-1, many("ZADD z", "# e:#")}, {-1, many("ZADD z", "1 e:#")}, {-1, many("ZADD z NX", "2 e:#")}, {-1, many("ZADD z XX", "3 e:#")}, {-1, many("ZADD z", "#.5 e:#")}, {-1, same("ZADD z", "7.5 e:#")}, {n, []string{"ZCARD", "z"}}, {n, []string{"ZRANGE", "z", "0", "-1"}}, {2 * n, []string{"ZREVRANGE", "z", "0", "-1", "WITHSCORES"}},
		{n, []string{"ZCOUNT", "z", "-inf", "+inf"}}, {n, []string{"ZRANGEBYSCORE", "z", "-inf", "+inf"}}, {n - 1, []string{"ZCOUNT", "z", "(0.5", "+inf"}}, {n / 2, []string{"ZRANK", "z", "e:" + mid}}, {n, many("ZREM z", "e:# e:#x")}, {-1, many("ZADD z", "1 e:#")}, {n, []string{"ZPOPMIN", "z", mid}}, {-1, []string{"ZPOPMAX", "z", N}},
		{-1, many("SET k v", "x#")}, {-1, many("GET k", "x#")}, {-1, many("NOSUCHCOMMAND", "x#")}, {-1, many("PING", "x#")},
	}
	// the longest anybody was kept waiting, in units of harness time
	var since, worst atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		w, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		defer w.Close()
		for !stop.Load() {
			since.Store(kit.Ticks())
			if rp, err := w.Do("PING"); err != nil || rp.Str != "PONG" {
				kit.Diagnose(rep, s, fmt.Sprintf("a PING while commands of %d arguments run: %v %v", n, rp, err))
			}
			if d := kit.Ticks() - since.Load(); d > worst.Load() {
				worst.Store(d)
			}
			rep.Count("pings of a witness of weighty commands", 1)
			time.Sleep(2 * time.Millisecond)
		}
	}()
	base := int64(0)
	for i, st := range steps {
		worst.Store(0)
		t0 := kit.Ticks()
		rp, err := c.Do(st.cmd...)
		what := fmt.Sprintf("%s with %d arguments (%s)", st.cmd[0], len(st.cmd)-1, kit.Short(strings.Join(st.cmd[1:min(len(st.cmd), 6)], " ")))
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s on values of %d elements: %v", what, n, err))
		}
		took := kit.Ticks() - t0
		if i < 5 {
			base = max(base, took)
		}
		got := len(rp.Arr)
		if rp.Kind == ':' {
			got = int(rp.Int)
		}
		if st.want >= 0 && got != st.want {
			rep.Violation(fmt.Sprintf("%s was answered %s, want %d", what, rp, st.want))
		}
		if lim := max(120, 40*base); max(worst.Load(), took) > lim {
			rep.Violation(fmt.Sprintf("%s took %.1f s and kept a PING of another client waiting for %.1f s, commands like it take %.1f s", what, float64(took)/10, float64(worst.Load())/10, float64(base)/10))
		}
		rep.Max("longest weighty command, in tenths of a second", took)
		rep.Max("longest wait of a witness of weighty commands, in tenths of a second", worst.Load())
		rep.Eval(true, "weighty", st.cmd[0], strconv.Itoa(i))
		rep.Count("weighty commands", 1)
	}
	stop.Store(true)
	wg.Wait()
	healthy(rep, s)
	rep.Require("weighty commands", int64(len(steps)))
	rep.Require("pings of a witness of weighty commands", 500)
}

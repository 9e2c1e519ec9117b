package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"

	"verif/harness/kit"
)

// A rising quantity only grows, by one for each write; a read of it is at
// least as great as what was acknowledged before it was sent, and at most what
// was asked for before it was answered.
type rising struct {
	write func(tok string) []string
	made  func(r kit.Reply) int64 // what the write says it has become
	reads []risingRead
	asked atomic.Int64
	acked atomic.Int64
	floor atomic.Int64
}

type risingRead struct {
	cmd []string
	val func(r kit.Reply) int64 // -1: not there
}

func rInt(r kit.Reply) int64 {
	if r.Kind != ':' {
		return -2
	}
	return r.Int
}

func rText(r kit.Reply) int64 {
	if r.Kind != '$' {
		return -2
	}
	if r.Nil {
		return 0
	}
	n, err := strconv.ParseFloat(r.Str, 64)
	if err != nil {
		return -2
	}
	return int64(n)
}

func rLen(r kit.Reply) int64 { return int64(len(r.Str)) }

func rElem(i int) func(r kit.Reply) int64 {
	return func(r kit.Reply) int64 {
		if r.Kind == '$' && r.Nil {
			return 0
		}
		if r.Kind != '*' {
			return -2
		}
		if i >= len(r.Arr) {
			return 0
		}
		return rText(r.Arr[i])
	}
}

func rSize(r kit.Reply) int64 {
	if r.Kind == '$' && r.Nil {
		return 0
	}
	if r.Kind != '*' {
		return -2
	}
	return int64(len(r.Arr))
}

func fixed(a ...string) func(string) []string { return func(string) []string { return a } }

func newRising(p string) []*rising {
	k := func(s string) string { return p + s }
	q := func(w func(string) []string, made func(kit.Reply) int64, reads ...risingRead) *rising {
		return &rising{write: w, made: made, reads: reads}
	}
	none := func(kit.Reply) int64 { return 0 }
	return []*rising{
		q(fixed("INCR", k("n")), rInt, risingRead{[]string{"GET", k("n")}, rText}, risingRead{[]string{"MGET", k("n"), k("absent")}, rElem(0)}, risingRead{[]string{"MGET", k("absent"), k("n")}, rElem(1)}),
		q(fixed("INCRBY", k("n2"), "1"), rInt, risingRead{[]string{"GET", k("n2")}, rText}),
		q(fixed("HINCRBY", k("h"), "f", "1"), rInt, risingRead{[]string{"HGET", k("h"), "f"}, rText}, risingRead{[]string{"HMGET", k("h"), "f"}, rElem(0)}, risingRead{[]string{"HGETALL", k("h")}, rElem(1)}, risingRead{[]string{"HVALS", k("h")}, rElem(0)}),
		q(fixed("ZINCR", k("z"), "1", "m"), rText, risingRead{[]string{"ZSCORE", k("z"), "m"}, rText}, risingRead{[]string{"ZRANGE", k("z"), "0", "-1", "WITHSCORES"}, rElem(1)}, risingRead{[]string{"ZREVRANGE", k("z"), "0", "0", "WITHSCORES"}, rElem(1)}),
		q(func(tok string) []string { return []string{"RPUSH", k("l"), tok} }, rInt, risingRead{[]string{"LLEN", k("l")}, rInt}, risingRead{[]string{"LRANGE", k("l"), "0", "-1"}, rSize}),
		q(func(tok string) []string { return []string{"LPUSH", k("l2"), tok} }, rInt, risingRead{[]string{"LLEN", k("l2")}, rInt}, risingRead{[]string{"LRANGE", k("l2"), "0", "-1"}, rSize}),
		q(func(tok string) []string { return []string{"SADD", k("a"), tok} }, none, risingRead{[]string{"SCARD", k("a")}, rInt}, risingRead{[]string{"SMEMBERS", k("a")}, rSize}, risingRead{[]string{"SUNION", k("a"), k("absent")}, rSize}),
		q(func(tok string) []string { return []string{"HSET", k("h2"), tok, "1"} }, none, risingRead{[]string{"HLEN", k("h2")}, rInt}, risingRead{[]string{"HKEYS", k("h2")}, rSize}),
		q(func(tok string) []string { return []string{"ZADD", k("z2"), "1", tok} }, none, risingRead{[]string{"ZCARD", k("z2")}, rInt}, risingRead{[]string{"ZCOUNT", k("z2"), "-inf", "+inf"}, rInt}, risingRead{[]string{"ZRANGEBYSCORE", k("z2"), "1", "1"}, rSize}),
		q(fixed("APPEND", k("s"), "x"), rInt, risingRead{[]string{"GET", k("s")}, rLen}),
	}
}

// growing quantities whose reads are long are written to this often at most.
const risingTop = 400

// risingRound: many clients write and read the same few quantities.
func risingRound(rep *kit.Report, s *kit.Server, seed int64, clients, n int) {
	qs := newRising(fmt.Sprintf("rise%d:", seed))
	if seed%2 == 0 {
		// all attention to a few
		r := rand.New(rand.NewSource(seed))
		r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
		qs = qs[:1+r.Intn(2)]
	}
	var wg sync.WaitGroup
	var gate sync.WaitGroup
	gate.Add(1)
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*1009 + int64(c)))
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			defer k.Close()
			gate.Wait()
			for i := 0; i < n; i++ {
				q := qs[r.Intn(len(qs))]
				var cmds [][]string
				var kinds []int // -1: the write
				grows := q.write("1")[len(q.write("1"))-1] != q.write("2")[len(q.write("2"))-1] || q.write("")[0] == "APPEND"
				for j := 1 + r.Intn(3); j > 0; j-- {
					if r.Intn(3) == 0 && (!grows || q.asked.Load() < risingTop) {
						q.asked.Add(1)
						cmds, kinds = append(cmds, q.write(fmt.Sprintf("%d.%d.%d", c, i, j))), append(kinds, -1)
					} else {
						x := r.Intn(len(q.reads))
						if r.Intn(2) == 0 {
							x = 0
						}
						cmds, kinds = append(cmds, q.reads[x].cmd), append(kinds, x)
					}
				}
				low := max(q.floor.Load(), q.acked.Load())
				mine := int64(0)
				reps, err := k.Pipeline(cmds)
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("client %d, %v: %v", c, cmds, err))
				}
				high := q.asked.Load()
				for j, rp := range reps {
					var v int64
					if kinds[j] < 0 {
						v = q.made(rp)
						if rp.Kind != ':' && rp.Kind != '$' {
							rep.Violation(fmt.Sprintf("%s is answered %s", kit.Fmt(cmds[j]), rp))
						}
						mine++
						if v == 0 { // it does not tell
							continue
						}
					} else {
						v = q.reads[kinds[j]].val(rp)
					}
					if v < low || v < mine || v > high {
						rep.Violation(fmt.Sprintf("%d clients share %v: %s of client %d shows %d (%s), though %d writes were acknowledged before it was sent, or before it on its own connection, and %d asked for in all before its answer", clients, cmds[j][1], kit.Fmt(cmds[j]), c, v, kit.Short(rp.String()), max(low, mine), high),
							fmt.Sprintf("pipeline %v\nreplies %v", cmds, kit.Short(fmt.Sprint(reps))))
					}
					if v > low {
						low = v
					}
					rep.Eval(true, cmds[j][0], it(j), fmt.Sprint(v))
					rep.Count("reads held against acknowledged writes", 1)
				}
				q.acked.Add(mine)
				for {
					f := q.floor.Load()
					if low <= f || q.floor.CompareAndSwap(f, low) {
						break
					}
				}
			}
		}(c)
	}
	gate.Done()
	wg.Wait()
}

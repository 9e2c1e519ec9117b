package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/panjf2000/gnet/pkg/pool/goroutine"

	v2 "github.com/yusank/godis/server/v2"
	"verif/harness/kit"
)

func init() { modes["leak"] = leakMode }

// leakMode runs the server in this process, puts traffic of every kind through
// it and looks at goroutines, descriptors and live heap whenever it is at rest.
func leakMode() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Fprintln(os.Stderr, "ip:", err)
		os.Exit(2)
	}
	addr := l.Addr().String()
	l.Close()
	pool := goroutine.Default()
	srv := v2.NewServer(pool)
	ended := make(chan error, 1)
	go func() { ended <- srv.Start("tcp://" + addr) }()
	for t0 := kit.Ticks(); ; time.Sleep(2 * time.Millisecond) {
		k, err := kit.Dial(addr)
		if err == nil {
			k.Close()
			break
		}
		if kit.Ticks()-t0 > 200 {
			violation("", "the server does not listen: %v", err)
		}
	}
	// the first rounds grow what may grow once: maps, pools
	n := int64(0)
	for i := 0; i < 2; i++ {
		n += leakRound(addr, i)
	}
	base := atRest(0, 0, "the first rounds")
	sample("at rest after %d requests: %s", n, base)
	for phase := 0; phase < scale; phase++ {
		m := int64(0)
		for i := 0; i < 3; i++ {
			m += leakRound(addr, 10+phase*10+i)
		}
		n += m
		now := atRest(base.goroutines, base.fds, fmt.Sprintf("%d more requests", m))
		sample("at rest after %d requests: %s", n, now)
		grown := int64(now.heap) - int64(base.heap)
		if grown > 0 {
			maxOf("largest growth of the live heap at rest in bytes", grown)
		}
		// measured many times it stays below a tenth of this
		if grown > leakLimit {
			// something may fill up to a bound, what matters is whether it goes on
			more := func() (int64, rest) {
				m := int64(0)
				for i := 0; i < 6; i++ {
					extraRounds++
					m += leakRound(addr, 1000+extraRounds)
				}
				return m, atRest(base.goroutines, base.fds, "more rounds")
			}
			more()
			_, mid := more()
			m, end := more()
			if g := int64(end.heap) - int64(mid.heap); g > leakLimit {
				var b bytes.Buffer
				pprof.Lookup("heap").WriteTo(&b, 1)
				w := b.String()
				violation(w[:min(len(w), 6000)], "every further round leaves more live heap behind, on connections all closed and with their data deleted: the last %d requests %d bytes (%.1f a request)", m, g, float64(g)/float64(m))
			}
			sample("growth that ended: %s, then %s", mid, end)
			base = end
		}
		eval(true, fmt.Sprint("phase", phase, m))
		count("measurements at rest", 1)
	}
	count("requests served", n)
	shrink(addr)
	srv.Stop()
	select {
	case <-ended:
	case <-time.After(60 * time.Second):
		violation("", "Start does not return after Stop")
	}
}

// shrink makes values large and then small again, in every way there is; what
// was in them does not stay in memory as long as the key does.
func shrink(addr string) {
	k, err := kit.Dial(addr)
	if err != nil {
		violation("", "connect: %v", err)
	}
	defer k.Close()
	const n, chunk = 16000, 400
	el := func(i int) string { return fmt.Sprintf("%06d%01000d", i, 0) }
	each := func(each ...string) func(i int) []string {
		return func(i int) []string {
			var a []string
			for _, e := range each {
				a = append(a, strings.NewReplacer("<E>", el(i), "<N>", strconv.Itoa(i)).Replace(e))
			}
			return a
		}
	}
	bulkwise := func(cmd string, f func(i int) []string) {
		for i := 0; i < n; {
			c := strings.Fields(cmd)
			for j := 0; j < chunk && i < n; i, j = i+1, j+1 {
				c = append(c, f(i)...)
			}
			if rp, err := k.Do(c...); err != nil || rp.IsErr() {
				violation("", "%s: %v, %v", kit.Fmt(c[:2]), rp, err)
			}
		}
	}
	single := func(f func(i int) []string) {
		for i := 0; i < n; {
			var cs [][]string
			for j := 0; j < chunk && i < n; i, j = i+1, j+1 {
				cs = append(cs, f(i))
			}
			reps, err := k.Pipeline(cs)
			for i := range reps {
				if reps[i].IsErr() {
					violation("", "%s: %v", kit.Fmt(cs[i]), reps[i])
				}
			}
			if err != nil {
				violation("", "%s: %v", kit.Fmt(cs[0]), err)
			}
		}
	}
	do := func(c ...string) func() {
		return func() {
			if rp, err := k.Do(c...); err != nil || rp.IsErr() {
				violation("", "%s: %v, %v", kit.Fmt(c), rp, err)
			}
		}
	}
	live := func() int64 {
		var ms runtime.MemStats
		best := int64(1) << 62
		for i := 0; i < 3; i++ {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			best = min(best, int64(ms.HeapAlloc))
			time.Sleep(5 * time.Millisecond)
		}
		return best
	}
	fills := map[string]func(){
		"list":       func() { bulkwise("RPUSH k", each("<E>")) },
		"set":        func() { bulkwise("SADD k", each("<E>")) },
		"hash":       func() { bulkwise("HSET k", each("<E>", "v")) },
		"hash value": func() { bulkwise("HSET k", each("<N>", "<E>")) },
		"sorted set": func() { bulkwise("ZADD k", each("<N>", "<E>")) },
		"string": func() {
			bulkwise("MSET", each("other", "1", "k", "<E>"))
			do("SET", "k", strings.Repeat("x", n*1000))()
		},
		"keys":   func() { bulkwise("MSET", each("k<E>", "v")) },
		"values": func() { bulkwise("MSET", each("k<N>", "<E>")) },
	}
	top := strconv.Itoa(n)
	ways := []struct {
		kind, how string
		f         func()
	}{
		{"list", "LPOP one by one", func() { single(each("LPOP", "k")) }},
		{"list", "RPOP one by one", func() { single(each("RPOP", "k")) }},
		{"list", "LPOP with a count", do("LPOP", "k", top)},
		{"list", "RPOP with a count", do("RPOP", "k", top)},
		{"list", "LREM", func() { single(each("LREM", "k", "1", "<E>")) }},
		{"list", "LSET", func() { single(each("LSET", "k", "<N>", "-")) }},
		{"set", "SREM", func() { bulkwise("SREM k", each("<E>")) }},
		{"set", "SPOP", do("SPOP", "k", top)},
		{"set", "SPOP one by one", func() { single(each("SPOP", "k")) }},
		{"set", "SMOVE", func() { single(each("SMOVE", "k", "k2", "<E>")); do("DEL", "k2")() }},
		{"set", "SINTERSTORE", do("SINTERSTORE", "k", "k", "stay")},
		{"hash", "HDEL", func() { bulkwise("HDEL k", each("<E>")) }},
		{"hash value", "HSET", func() { bulkwise("HMSET k", each("<N>", "-")) }},
		{"hash value", "HDEL", func() { bulkwise("HDEL k", each("<N>")) }},
		{"sorted set", "ZREM", func() { bulkwise("ZREM k", each("<E>")) }},
		{"sorted set", "ZPOPMIN", do("ZPOPMIN", "k", top)},
		{"sorted set", "ZPOPMAX", do("ZPOPMAX", "k", top)},
		{"sorted set", "ZPOPMIN one by one", func() { single(each("ZPOPMIN", "k")) }},
		{"string", "SET", do("SET", "k", "small")},
		{"string", "MSET", do("MSET", "k", "small")},
		{"keys", "DEL", func() { bulkwise("DEL", each("k<E>")) }},
		{"values", "DEL", func() { bulkwise("DEL", each("k<N>")) }},
		{"values", "SET", func() { single(each("SET", "k<N>", "-")); bulkwise("DEL", each("k<N>")) }},
	}
	do("SADD", "stay", "last")()
	for _, w := range ways {
		before := live()
		fills[w.kind]()
		last := map[string][]string{"list": {"RPUSH", "k", "last", "last"}, "set": {"SADD", "k", "last"}, "hash": {"HSET", "k", "last", "v"}, "hash value": {"HSET", "k", "last", "v"}, "sorted set": {"ZADD", "k", "1e300", "last"}}[w.kind]
		if last != nil {
			do(last...)()
		}
		full := live()
		if full-before < n*900 {
			fmt.Fprintf(os.Stderr, "ip: %s: filling added %d bytes only\n", w.kind, full-before)
			os.Exit(2)
		}
		w.f()
		if last != nil { // the key is there
			do(last...)()
		}
		after := live()
		for t0 := kit.Ticks(); after-before > n*250 && kit.Ticks()-t0 < 50; after = live() {
			time.Sleep(50 * time.Millisecond)
		}
		if after-before > n*250 {
			var b bytes.Buffer
			pprof.Lookup("heap").WriteTo(&b, 1)
			h := b.String()
			violation(h[:min(len(h), 6000)], "a %s grown by %d bytes of live heap and emptied again by %s keeps %d of them", w.kind, full-before, w.how, after-before)
		}
		maxOf("largest share of a grown and emptied value that stays, in percent", (after-before)*100/(full-before))
		eval(true, "shrink", w.kind, w.how)
		count("values grown and emptied with the key in place", 1)
		do("DEL", "k", "other")()
	}
	do("DEL", "stay")()
}

const leakLimit = 150 << 10

var extraRounds int

type rest struct {
	goroutines, fds int
	heap            uint64
}

func (r rest) String() string {
	return fmt.Sprintf("%d goroutines, %d descriptors, %d bytes of live heap", r.goroutines, r.fds, r.heap)
}

func fdCount() int {
	d, _ := os.ReadDir("/proc/self/fd")
	return len(d)
}

// atRest waits until goroutines and descriptors are down to the given numbers,
// or for the first time until they have stopped going down.
func atRest(goroutines, fds int, after string) rest {
	t0 := kit.Ticks()
	last, since := 0, kit.Ticks()
	for {
		g, f := runtime.NumGoroutine(), fdCount()
		if g+f != last {
			last, since = g+f, kit.Ticks()
		}
		if goroutines > 0 && g <= goroutines && f <= fds {
			break
		}
		// idle pool workers go after at most 20 seconds
		if goroutines == 0 && kit.Ticks()-since > 250 {
			break
		}
		if goroutines > 0 && kit.Ticks()-t0 > 600 {
			var b bytes.Buffer
			pprof.Lookup("goroutine").WriteTo(&b, 1)
			violation(b.String(), "a minute after %s, on connections all closed, there are %d goroutines (%d before) and %d descriptors (%d before)", after, g, goroutines, f, fds)
		}
		time.Sleep(50 * time.Millisecond)
	}
	var ms runtime.MemStats
	best := ^uint64(0)
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
		runtime.ReadMemStats(&ms)
		best = min(best, ms.HeapAlloc)
	}
	return rest{runtime.NumGoroutine(), fdCount(), best}
}

// leakRound is traffic of every kind on 16 clients; keys, fields, members,
// names and patterns are never used again. It returns the number of requests.
func leakRound(addr string, round int) int64 {
	var wg sync.WaitGroup
	var mu sync.Mutex
	total := int64(0)
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*100000 + int64(round*100+w)))
			n := int64(0)
			dial := func() *kit.Conn {
				k, err := kit.Dial(addr)
				if err != nil {
					violation("", "connect: %v", err)
				}
				count("connections", 1)
				return k
			}
			k := dial()
			defer func() {
				k.Close()
				mu.Lock()
				total += n
				mu.Unlock()
			}()
			id := 0
			long := func() string {
				id++
				return fmt.Sprintf("leak:%d.%d.%d %0*d", round, w, id, 200+r.Intn(200), 0)
			}
			key := func() string { id++; return fmt.Sprintf("leak:%d.%d.%d", round, w, id) }
			pipe := func(cmds ...[]string) {
				reps, err := k.Pipeline(cmds)
				if err != nil {
					violation("", "%v after %d replies", err, len(reps))
				}
				n += int64(len(cmds))
				for i, rp := range reps {
					eval(!rp.IsErr(), cmds[i][0], fmt.Sprint(rp.Kind))
				}
			}
			for step := 0; step < 350; step++ {
				switch step % 14 {
				case 0: // strings
					a, b := key(), key()
					pipe([]string{"SET", a, key()}, []string{"APPEND", a, "x"}, []string{"MSET", a, "1", b, "2"}, []string{"INCR", a}, []string{"MGET", a, b}, []string{"DEL", a, b})
				case 1: // collections that end empty by themselves
					a, b, c, d := key(), key(), key(), key()
					m := key()
					pipe([]string{"RPUSH", a, m, m}, []string{"LPOP", a}, []string{"RPOP", a}, []string{"SADD", b, m}, []string{"SPOP", b}, []string{"HSET", c, m, m}, []string{"HDEL", c, m}, []string{"ZADD", d, "1", m}, []string{"ZREM", d, m})
				case 2:
					a, b, c := key(), key(), key()
					pipe([]string{"SADD", a, key(), key()}, []string{"SADD", b, key()}, []string{"SUNIONSTORE", c, a, b}, []string{"SINTERSTORE", c, a, b}, []string{"SDIFFSTORE", c, a, b}, []string{"DEL", a, b, c})
				case 3:
					a := key()
					args := []string{"ZADD", a}
					for i := 0; i < 40; i++ {
						args = append(args, strconv.Itoa(r.Intn(20)), key())
					}
					pipe(args, []string{"ZRANGE", a, "0", "-1", "WITHSCORES"}, []string{"ZINCR", a, "3", args[3]}, []string{"ZPOPMIN", a, "10"}, []string{"ZPOPMAX", a, "40"}, []string{"EXISTS", a})
				case 4:
					a := key()
					pipe([]string{"HSET", a, key(), key(), key(), key()}, []string{"HINCRBY", a, key(), "5"}, []string{"HGETALL", a}, []string{"DEL", a})
				case 5: // reads of what is not there, refusals
					a := long()
					pipe([]string{"GET", a}, []string{"LRANGE", a, "0", "-1"}, []string{"HGETALL", a}, []string{"SMEMBERS", a}, []string{"ZRANGE", a, "0", "-1"}, []string{"LINDEX", a, "5"}, []string{"TYPE", a}, []string{"HDEL", a, a}, []string{"ZREM", a, a}, []string{"SREM", a, a}, []string{"LPOP", a}, []string{"SPOP", a}, []string{"SMOVE", a, key(), a}, []string{long()}, []string{"no" + long(), a}, []string{"SET", a}, []string{"INCRBY", a, long()}, []string{"ZADD", a, long(), "y"}, []string{"KEYS", long() + "[a-z]*?"}, []string{"KEYS", "[" + long()}, []string{"EXISTS", long(), long()}, []string{"MGET", long()}, []string{"SDIFF", long(), long()}, []string{"ZRANK", long(), long()}, []string{"ZCOUNT", long(), "-" + strconv.Itoa(id), strconv.Itoa(id)}, []string{"HGET", long(), long()}, []string{"LSET", a, "0", "x"}, []string{"HINCRBYFLOAT", a, "f", "x"})
				case 6: // replaced by another type
					a := key()
					pipe([]string{"RPUSH", a, key(), key()}, []string{"SET", a, "x"}, []string{"LPUSH", a, "y"}, []string{"DEL", a})
				case 7: // connections: used, idle, half a request, malformed, reset
					for i := 0; i < 16; i++ {
						c := dial()
						switch i % 8 {
						case 0:
							c.Do("PING")
							n++
						case 1: // idle
						case 2:
							e := kit.Enc("SET", key(), "v")
							c.Send(e[:1+r.Intn(len(e)-1)])
						case 3, 4:
							bad := []string{"*x\r\n", "*1\r\n+PING\r\n", "*-5\r\n", "hello\r\n", "$3\r\nabc\r\n", "*2\r\n$3\r\nGETx\r\n", "*1\r\n$99999999999999999999\r\n", "*1\r\n$-7\r\n", "\r\n", "*2\r\n$3\r\nGET\r\n:5\r\n", "*1000000000\r\n", "*1\r\n$1000000000\r\nabc"}
							x := bad[r.Intn(len(bad))]
							if r.Intn(2) == 0 { // one never seen before
								x = []string{"%s\r\n", "*%s\r\n", "*1\r\n$%s\r\n", "*1\r\n%s\r\n", "*2\r\n$3\r\nGET\r\n$5\r\nhello%s", "*2\r\n+%s\r\nx\r\n", "*1\r\n$400\r\n%s\r\n\r\nx\r\n"}[r.Intn(7)]
								x = fmt.Sprintf(x, long())
							}
							c.Send([]byte(x))
							if i%8 == 3 {
								c.Conn.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
								c.Conn.Read(make([]byte, 100))
							}
							count("malformed connections", 1)
						case 5: // unread replies
							for j := 0; j < 5; j++ {
								c.Send(kit.Enc("LRANGE", "leak:big", "0", "-1"))
							}
							c.CloseRST()
							count("connections reset", 1)
							continue
						case 6: // half-closed, reads to the end
							c.Send(kit.Enc("PING"))
							c.Conn.(*net.TCPConn).CloseWrite()
							io.Copy(io.Discard, c.Conn)
							n++
						case 7:
							c.Do("GET", key())
							n++
							c.CloseRST()
							count("connections reset", 1)
							continue
						}
						c.Close()
					}
				case 8: // a large value
					if step < 100 {
						a := key()
						pipe([]string{"SET", a, strings.Repeat("x", 100000+r.Intn(100000))}, []string{"GET", a}, []string{"DEL", a})
					}
				case 9: // another connection
					k.Close()
					k = dial()
				case 10: // wide pipelines
					a := key()
					var cmds [][]string
					for i := 0; i < 100; i++ {
						cmds = append(cmds, []string{"RPUSH", a, key()}, []string{"LREM", a, "0", fmt.Sprintf("leak:%d.%d.%d", round, w, id)})
					}
					pipe(append(cmds, []string{"DEL", a})...)
				case 12, 13: // values that stay, with ever new contents
					kp := fmt.Sprintf("keep:%d:", w)
					var ms []string
					for i := 0; i < 40; i++ {
						ms = append(ms, key())
					}
					with := func(c, k string, each ...string) []string {
						a := []string{c, kp + k}
						for _, m := range ms {
							a = append(a, each...)
							a = append(a, m)
						}
						return a
					}
					if step%14 == 12 {
						if rp, err := k.Do("EXISTS", kp+"pop"); err == nil && rp.Int == 0 {
							pipe([]string{"SADD", kp + "pop", "one"})
						}
						pipe([]string{"SADD", kp + "a", "one", "two"}, with("SADD", "a"), with("SADD", "a"), []string{"SCARD", kp + "a"}, []string{"SISMEMBER", kp + "a", ms[0]}, with("SREM", "a"), with("SREM", "a"),
							[]string{"SADD", kp + "pop", ms[0]}, []string{"SPOP", kp + "pop"}, []string{"SADD", kp + "pop", ms[1]}, []string{"SPOP", kp + "pop"},
							[]string{"SADD", kp + "a", ms[2]}, []string{"SMOVE", kp + "a", kp + "pop", ms[2]}, []string{"SPOP", kp + "pop", "1"}, []string{"SUNIONSTORE", kp + "u", kp + "pop", kp + "a"}, []string{"SINTERSTORE", kp + "u2", kp + "u", kp + "a"}, []string{"SDIFFSTORE", kp + "u2", kp + "u", kp + "pop"},
							[]string{"HSET", kp + "h", "one", ms[3]}, with("HMSET", "h", "one"), []string{"HMSET", kp + "h", "one", ms[0], "two", ms[1]}, []string{"HSET", kp + "h", ms[4], ms[5]}, []string{"HINCRBY", kp + "h", ms[6], "1"}, []string{"HINCRBYFLOAT", kp + "h", ms[7], "1.5"}, []string{"HSETNX", kp + "h", ms[8], "1"}, with("HDEL", "h"), []string{"HINCRBY", kp + "h", "count", "1"})
					} else {
						pipe([]string{"ZADD", kp + "z", "1", "one", "2", "two"}, with("ZADD", "z", strconv.Itoa(step)), []string{"ZINCR", kp + "z", "1", ms[1]}, []string{"ZINCR", kp + "z", "1", "one"}, with("ZADD", "z", "5"), []string{"ZPOPMAX", kp + "z", "0"}, with("ZREM", "z"), []string{"ZADD", kp + "z", "-1e300", ms[2]}, []string{"ZPOPMIN", kp + "z"}, []string{"ZADD", kp + "z", "1e300", ms[3]}, []string{"ZPOPMAX", kp + "z"}, []string{"ZADD", kp + "z", "incr", "1", "two"}, []string{"ZRANGE", kp + "z", "0", "-1"}, []string{"ZRANK", kp + "z", "one"},
							[]string{"RPUSH", kp + "l", "one"}, with("RPUSH", "l"), []string{"LPOP", kp + "l", "20"}, []string{"RPOP", kp + "l", "19"}, []string{"LPUSH", kp + "l", ms[4]}, []string{"LSET", kp + "l", "0", ms[5]}, []string{"LINSERT", kp + "l", "after", ms[5], ms[6]}, []string{"LREM", kp + "l", "0", ms[6]}, []string{"LPOP", kp + "l", "2"}, []string{"RPUSH", kp + "l", "one"}, []string{"LPOP", kp + "l"},
							[]string{"SET", kp + "s", ms[0]}, []string{"APPEND", kp + "s", ms[1]}, []string{"SET", kp + "s", ms[2]}, []string{"INCR", kp + "n"}, []string{"INCRBY", kp + "n", strconv.Itoa(id)}, []string{"MSET", kp + "s", ms[3], kp + "s2", ms[4]})
						pipe([]string{"DEL", kp + "l"}, []string{"RPUSH", kp + "l", "one"})
					}
					count("contents changed under a key that stays", 40)
				case 11:
					a := key()
					var cmds [][]string
					for i := 0; i < 100; i++ {
						cmds = append(cmds, []string{"HSET", a, "f" + strconv.Itoa(i%7), key()}, []string{"INCR", a + "n"})
					}
					pipe(append(cmds, []string{"DEL", a, a + "n"})...)
				}
			}
		}(w)
	}
	wg.Wait()
	k, err := kit.Dial(addr)
	if err == nil {
		var rp kit.Reply
		if rp, err = k.Do("KEYS", "*"); err == nil {
			for _, e := range rp.Arr {
				if !strings.HasPrefix(e.Str, "keep:") {
					violation("", "all data was deleted and %s is still there", e)
				}
				// what stays is small
				if strings.HasSuffix(e.Str, "pop") || strings.HasSuffix(e.Str, ":a") {
					if c, err := k.Do("SCARD", e.Str); err == nil && c.Int > 60 {
						fmt.Fprintln(os.Stderr, "ip: the traffic itself grows:", e, c)
						os.Exit(2)
					}
				}
			}
		}
		k.Close()
	}
	if err != nil {
		violation("", "after a round: %v", err)
	}
	count("rounds of traffic", 1)
	return total
}

package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C14", "request streams cut into TCP segments at every position, at random positions and byte by byte, pipelines far wider than any buffer, requests and replies of megabytes, pauses inside requests and half-closed connections; every reply is judged in order by the sequential reference model; a case is one judged reply, non-trivial when it is neither an error, nil, empty nor 0; distinct by request and reply", c14)
	register("C15", "hostile and huge byte strings written to every position a command takes data in, read back through every command that returns it and compared byte by byte; pairwise distinctness by storing them side by side; a case is one judged reply, non-trivial when it is neither an error, nil, empty nor 0; distinct by request and reply", c15)
}

// everything without the commands whose replies span the whole server
const shareable = "set:4 mset:2 get:3 mget:2 append:2 incr:2 incrby decr decrby del:2 exists type " +
	"lpush:3 rpush:3 lpop:2 rpop:2 linsert lset lrem lrange:2 lindex llen " +
	"hset:3 hmset hsetnx hget:2 hmget hgetall hexists hdel hkeys hvals hlen hincrby hincrbyfloat " +
	"sadd:3 srem spop sismember smembers scard sdiff sinter sunion sdiffstore sinterstore sunionstore smove " +
	"zadd:3 zincr zrem zpopmin zpopmax zscore zrank zrange zrevrange zcard zcount zrangebyscore nocommand"

// shared opens a session on a server used by others too.
func shared(rep *kit.Report, s *kit.Server, prefix string, seed int64) (*kit.Session, *kit.Gen) {
	ss := kit.NewSession(rep, s, prefix, seed)
	ss.Prefix = prefix
	g := kit.NewGen(seed*7919+1, ss.M)
	g.SetKeys(prefix, 8)
	g.Uni, g.MaxArg = 8, 4
	return ss, g
}

func randomCmds(g *kit.Gen, mix kit.Mix, n int) [][]string {
	out := make([][]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, g.Cmd(mix.Pick(g.Rand)))
	}
	return out
}

// cutter sends b in pieces given by next (piece length, pause after it).
func cutter(next func(left int) (int, time.Duration)) func(c *kit.Conn, b []byte) error {
	return func(c *kit.Conn, b []byte) error {
		for len(b) > 0 {
			n, d := next(len(b))
			n = max(1, min(n, len(b)))
			if err := c.Send(b[:n]); err != nil {
				return err
			}
			b = b[n:]
			if len(b) > 0 && d > 0 {
				time.Sleep(d)
			}
		}
		return nil
	}
}

func c14(rep *kit.Report) {
	bin(rep, "plain")
	stream(rep, "plain", rep.Seed, rep.Scale)
	rep.Require("single cuts", 250)
	rep.Require("streams sent byte by byte", 5)
	rep.Require("randomly cut batches", 500)
	rep.Require("wide pipelines", 3)
	rep.Require("huge requests and replies", 8)
	rep.Require("pauses inside a request", 10)
	rep.Require("most requests on one connection", 140000)
	rep.Require("most MB sent and received on one connection", 2200)
	rep.Require("half-closed streams", 20)
	rep.Require("late readers", 5)
}

func stream(rep *kit.Report, variant string, seed int64, scale int) {
	mix := kit.NewMix(shareable)
	var fs []func()
	add := func(f func(s *kit.Server)) {
		fs = append(fs, func() {
			s := launchAs(rep, variant)
			defer s.Kill()
			f(s)
			healthy(rep, s)
		})
	}
	add(func(s *kit.Server) { singleCuts(rep, s, seed, scale) })
	add(func(s *kit.Server) { // byte by byte
		parallel(6*scale, 6, func(i int) {
			p := fmt.Sprintf("b%d:", i)
			ss, g := shared(rep, s, p, seed+int64(i))
			ss.SendBy = cutter(func(int) (int, time.Duration) { return 1, time.Duration(20+i%6*30) * time.Microsecond })
			for n := 0; n < 12; n++ {
				ss.Run(randomCmds(g, mix, 5)...)
			}
			rep.Count("streams sent byte by byte", 1)
			ss.SendBy = nil
			ss.Audit(g.Keys, 4)
			ss.C.Close()
		})
	})
	for w := 0; w < 3; w++ { // random cuts
		w := w
		add(func(s *kit.Server) {
			parallel(8, 8, func(i int) {
				p := fmt.Sprintf("r%d:", i)
				ss, g := shared(rep, s, p, seed*100+int64(w*10+i))
				r := rand.New(rand.NewSource(seed + int64(i)))
				sizes := []int{1, 2, 3, 5, 9, 17, 60, 300, 511, 512, 513, 1024, 4095, 4096, 4097, 16384, 65535, 65536, 65537}
				ss.SendBy = cutter(func(left int) (int, time.Duration) {
					d := time.Duration(0)
					if r.Intn(3) == 0 {
						d = time.Duration(r.Intn(1200)) * time.Microsecond
					}
					if r.Intn(2) == 0 {
						return sizes[r.Intn(len(sizes))], d
					}
					return 1 + r.Intn(left), d
				})
				ss.MaxBatch = []int{8, 64, 400}[i%3]
				g.Bad = .05
				for n := 0; n < 40*scale; n++ {
					ss.Run(randomCmds(g, mix, 1+r.Intn(60))...)
					rep.Count("randomly cut batches", 1)
				}
				ss.SendBy = nil
				ss.Audit(g.Keys, 6)
				ss.C.Close()
			})
		})
	}
	add(func(s *kit.Server) { widePipelines(rep, s, seed, scale) })
	add(func(s *kit.Server) { huge(rep, s, seed, scale) })
	add(func(s *kit.Server) { longLived(rep, s, seed, scale) })
	if variant == "plain" {
		add(func(s *kit.Server) { volume(rep, s, scale) })
	}
	add(func(s *kit.Server) { pauses(rep, s, seed, scale) })
	add(func(s *kit.Server) { halfClosed(rep, s, seed, scale) })
	parallel(len(fs), 8, func(i int) { fs[i]() })
}

// singleCuts splits short streams in two at every position.
func singleCuts(rep *kit.Report, s *kit.Server, seed int64, scale int) {
	streams := func(p string) [][][]string {
		return [][][]string{
			{{"SET", p + "s", "v\r\n1"}, {"GET", p + "s"}, {"APPEND", p + "s", "xyz"}, {"GET", p + "s"}},
			{{"RPUSH", p + "l", "", "a"}, {"LRANGE", p + "l", "0", "-1"}, {"LPOP", p + "l"}, {"NOSUCH", "x"}, {"LLEN", p + "l"}},
			{{"INCR", p + "n"}, {"PING"}, {"INCR", p + "n"}, {"MGET", p + "n", p + "none"}, {"SET", p + "n"}, {"DECRBY", p + "n", "7"}},
			{{"HSET", p + "h", "f", "$-1\r\n"}, {"HGETALL", p + "h"}, {"SADD", p + "a", "*1\r\n$4\r\nPING\r\n"}, {"SMEMBERS", p + "a"}},
		}
	}
	parallel(16, 16, func(w int) {
		n := 0
		for si := range streams("") {
			total := 0
			for _, c := range streams("cXXX:")[si] {
				total += len(kit.Enc(c...))
			}
			for cut := 1; cut < total; cut++ {
				n++
				if n%16 != w {
					continue
				}
				for round := 0; round < scale; round++ {
					p := fmt.Sprintf("c%03d:", (cut+si*300)%1000)
					ss := kit.NewSession(rep, s, "cut", seed)
					var b []byte
					cmds := streams(p)[si]
					for _, c := range cmds {
						b = kit.AppendEnc(b, c)
					}
					first := true
					ss.MaxBatch = 100
					ss.SendBy = func(c *kit.Conn, b []byte) error {
						if !first {
							return c.Send(b)
						}
						first = false
						if err := c.Send(b[:cut]); err != nil {
							return err
						}
						time.Sleep(1500 * time.Microsecond)
						return c.Send(b[cut:])
					}
					// one batch with everything
					ss.RunBatch(cmds)
					ss.SendBy = nil
					for _, k := range []string{"s", "l", "n", "h", "a"} {
						ss.Run([]string{"DEL", p + k})
					}
					if x, any := ss.C.Extra(0); any {
						rep.Violation(fmt.Sprintf("stream %d cut at %d: bytes after the last reply: %q", si, cut, x))
					}
					ss.C.Close()
					rep.Count("single cuts", 1)
				}
			}
		}
	})
}

// widePipelines sends very many requests before reading any reply.
func widePipelines(rep *kit.Report, s *kit.Server, seed int64, scale int) {
	mix := kit.NewMix(shareable)
	parallel(4*scale, 2, func(i int) {
		p := fmt.Sprintf("w%d:", i)
		ss, g := shared(rep, s, p, seed+int64(i))
		// wide, reading beside the sending
		ss.RunBatch(randomCmds(g, mix, 12000))
		ss.Audit(g.Keys, 4)
		// many big replies to small requests, nothing is read until all is sent
		ss.Do("SET", p+"big", strings.Repeat("0123456789abcdef", 1500))
		ss.Do("SET", p+"n", "0")
		var cmds [][]string
		for j := 0; j < 1200; j++ {
			cmds = append(cmds, []string{"GET", p + "big"}, []string{"INCR", p + "n"})
		}
		sent := make(chan struct{})
		ss.SendBy = func(c *kit.Conn, b []byte) error {
			defer close(sent)
			err := c.Send(b)
			time.Sleep(100 * time.Millisecond)
			return err
		}
		ss.Hold = sent
		ss.RunBatch(cmds)
		ss.SendBy, ss.Hold = nil, nil
		ss.Do("PING")
		ss.C.Close()
		rep.Count("wide pipelines", 2)
		rep.Max("widest pipeline", 12000)
	})
}

// longLived: one connection carries more requests than 16 bits count, in wide
// pipelines and one by one, of very few and of very many names.
func longLived(rep *kit.Report, s *kit.Server, seed int64, scale int) {
	parallel(3, 3, func(i int) {
		p := fmt.Sprintf("long%d:", i)
		ss, g := shared(rep, s, p, seed+int64(i))
		r := rand.New(rand.NewSource(seed*7 + int64(i)))
		ss.MaxBatch = 1000
		total := 140000
		if i == 2 {
			ss.MaxBatch, total = 1, 20000 // each waits for its reply
		}
		mix := kit.NewMix(shareable)
		for n := 0; n < total; {
			var cs [][]string
			switch r.Intn(4) {
			case 0:
				cs = randomCmds(g, mix, 50)
			case 1:
				for j := 0; j < 900; j++ {
					cs = append(cs, []string{"INCR", p + "n"})
				}
			case 2:
				for j := 0; j < 900; j++ {
					cs = append(cs, []string{"SET", p + it(r.Intn(500)), it(n + j)}, []string{"GET", p + it(r.Intn(500))})
				}
			case 3:
				for j := 0; j < 400; j++ {
					cs = append(cs, []string{"PING"}, []string{"INCRBY", p + "n", it(j)})
				}
			}
			ss.Run(cs...)
			n += len(cs)
		}
		ss.Audit(g.Keys, 4)
		rep.Max("most requests on one connection", int64(total))
		ss.C.Close()
	})
}

// volume moves more bytes over one connection than 31 (thorough: 32) bits
// count, both ways.
func volume(rep *kit.Report, s *kit.Server, scale int) {
	k, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	defer k.Close()
	const mb = 8
	vals := [2]string{}
	for i := range vals {
		b := make([]byte, mb<<20)
		rand.New(rand.NewSource(int64(i))).Read(b)
		vals[i] = string(b)
	}
	rounds := 280
	if scale > 3 {
		rounds = 560
	}
	for i := 0; i < rounds; i++ {
		for j, c := range [][]string{{"SET", "vol", vals[i%2]}, {"GET", "vol"}, {"INCR", "count"}} {
			r, err := k.Do(c...)
			if err != nil {
				kit.Diagnose(rep, s, fmt.Sprintf("after %d MB each way on one connection, waiting for the reply to %s: %v", i*mb, c[0], err))
			}
			if ok := [3]bool{r.Str == "OK" && r.Kind == '+', r.Str == vals[i%2] && r.Kind == '$', r.Int == int64(i+1) && r.Kind == ':'}[j]; !ok {
				rep.Violation(fmt.Sprintf("after %d MB each way on one connection, %s is answered wrongly: %s", i*mb, c[0], r))
			}
		}
	}
	rep.Max("most MB sent and received on one connection", int64(rounds*mb))
}

// huge requests and replies
func huge(rep *kit.Report, s *kit.Server, seed int64, scale int) {
	sizes := []int{32 << 10, 64<<10 - 1, 64 << 10, 64<<10 + 1, 256 << 10, 1<<20 + 3, 5 << 20}
	if scale > 1 {
		sizes = append(sizes, 40<<20, 100<<20)
	}
	ss := kit.NewSession(rep, s, "huge", seed)
	defer ss.C.Close()
	r := rand.New(rand.NewSource(seed))
	for i, n := range sizes {
		b := make([]byte, n)
		r.Read(b)
		v := string(b)
		ss.RunBatch([][]string{{"SET", "h", v}, {"INCR", "n"}, {"GET", "h"}, {"INCR", "n"}, {"APPEND", "h", "tail"}, {"GET", "h"}})
		ss.SendBy = cutter(func(int) (int, time.Duration) {
			return 1 + r.Intn(200000), time.Duration(r.Intn(300)) * time.Microsecond
		})
		ss.RunBatch([][]string{{"RPUSH", "l", v, "x", v}, {"LRANGE", "l", "0", "-1"}, {"HSET", "hh", "f", v}, {"HGETALL", "hh"}, {"DEL", "l", "hh"}, {"INCR", "n"}})
		ss.SendBy = nil
		rep.Count("huge requests and replies", 6)
		rep.Max("largest argument in bytes", int64(n))
		_ = i
	}
	// many arguments
	for _, n := range []int{1000, 20000, 150000} {
		a := []string{"RPUSH", "many"}
		m := []string{"MSET"}
		for i := 0; i < n; i++ {
			a = append(a, strconv.Itoa(i))
			m = append(m, "mk"+strconv.Itoa(i), strconv.Itoa(i*7))
		}
		g := []string{"MGET"}
		for i := 1; i < len(m); i += 2 {
			g = append(g, m[i])
		}
		ss.RunBatch([][]string{a, {"LRANGE", "many", "0", "-1"}, m, g, {"LLEN", "many"}, {"DEL", "many"}, {"PING"}})
		d := append([]string{"DEL"}, g[1:]...)
		ss.RunBatch([][]string{d, {"PING"}})
		rep.Max("most arguments", int64(2*n))
		rep.Count("huge requests and replies", 2)
	}
}

// pauses: a request that comes in parts with long gaps is still one request.
func pauses(rep *kit.Report, s *kit.Server, seed int64, scale int) {
	gaps := []time.Duration{200 * time.Millisecond, 1100 * time.Millisecond, 2500 * time.Millisecond, 5500 * time.Millisecond, 11500 * time.Millisecond, 16 * time.Second, 31 * time.Second, 64 * time.Second}
	if scale > 1 {
		gaps = append(gaps, 125*time.Second, 320*time.Second)
	}
	var wg sync.WaitGroup
	// clients that read nothing for long while megabytes of replies wait
	for gi, gap := range gaps {
		if gap < 2*time.Second {
			continue
		}
		wg.Add(1)
		go func(gi int, gap time.Duration) {
			defer wg.Done()
			p := fmt.Sprintf("late%d:", gi)
			ss, _ := shared(rep, s, p, seed)
			defer ss.C.Close()
			ss.Do("SET", p+"big", strings.Repeat("0123456789abcdef", 2000))
			var cmds [][]string
			for j := 0; j < 300; j++ {
				cmds = append(cmds, []string{"GET", p + "big"}, []string{"INCR", p + "n"})
			}
			hold := make(chan struct{})
			time.AfterFunc(gap, func() { close(hold) })
			ss.Hold = hold
			ss.RunBatch(cmds)
			ss.Hold = nil
			ss.Do("GET", p+"n")
			rep.Count("late readers", 1)
		}(gi, gap)
	}
	for gi, gap := range gaps {
		for v := 0; v < 4; v++ {
			wg.Add(1)
			go func(gi, v int, gap time.Duration) {
				defer wg.Done()
				p := fmt.Sprintf("p%d.%d:", gi, v)
				ss, _ := shared(rep, s, p, seed)
				defer ss.C.Close()
				ss.Do("SET", p+"s", "before")
				cmds := [][]string{{"APPEND", p + "s", "|after"}, {"GET", p + "s"}, {"INCR", p + "n"}}
				first := len(kit.Enc(cmds[0]...))
				at := []int{1, first / 2, first, first + 5}[v] // inside, or between requests (idle connection)
				ss.SendBy = func(c *kit.Conn, b []byte) error {
					if err := c.Send(b[:at]); err != nil {
						return err
					}
					time.Sleep(gap)
					return c.Send(b[at:])
				}
				ss.C.Patience = kit.StallTicks + int64(gap/(100*time.Millisecond))
				ss.RunBatch(cmds)
				ss.C.Patience = 0
				ss.SendBy = nil
				ss.Do("GET", p+"s")
				rep.Count("pauses inside a request", 1)
				rep.Max("longest pause in ms", gap.Milliseconds())
			}(gi, v, gap)
		}
	}
	wg.Wait()
}

// halfClosed: the client ends its sending side right after the last request and
// still gets every reply, then the end of the stream.
func halfClosed(rep *kit.Report, s *kit.Server, seed int64, scale int) {
	parallel(40*scale, 6, func(i int) {
		r := rand.New(rand.NewSource(seed*3 + int64(i)))
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		defer k.Close()
		m := kit.NewModel()
		g := kit.NewGen(seed+int64(i), m)
		g.SetKeys(fmt.Sprintf("x%d:", i), 5)
		mix := kit.NewMix(shareable)
		cmds := randomCmds(g, mix, 1+r.Intn(300))
		var b []byte
		for _, c := range cmds {
			b = kit.AppendEnc(b, c)
		}
		cut := 0
		if i%2 == 1 {
			last := kit.Enc(cmds[len(cmds)-1]...)
			cut = 1 + r.Intn(len(last)-1)
			b = b[:len(b)-cut]
			cmds = cmds[:len(cmds)-1]
		}
		go func() {
			k.Send(b)
			type cw interface{ CloseWrite() error }
			k.Conn.(cw).CloseWrite()
		}()
		for _, c := range cmds {
			rp, err := k.Reply()
			if err != nil {
				kit.Diagnose(rep, s, fmt.Sprintf("client that closed its sending side: waiting for the reply to %s: %v", kit.Fmt(c), err))
			}
			if err := m.Step(c, rp); err != nil {
				rep.Violation(fmt.Sprintf("%s -> %s: %v", kit.Fmt(c), rp, err))
			}
			rep.Eval(!rp.IsErr(), kit.Fmt(c), rp.String())
		}
		rest, err := io.ReadAll(k.R)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("client that closed its sending side: waiting for the end of the stream: %v", err))
		}
		if len(rest) > 0 && !(cut > 0 && bytes.HasPrefix(rest, []byte("-"))) {
			rep.Violation(fmt.Sprintf("bytes after the last reply: %s", kit.Short(string(rest))))
		}
		rep.Count("half-closed streams", 1)
	})
}

// ---- C15 ----

func nasties(r *rand.Rand, quick bool) []string {
	out := kit.OddValues()
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}))
	}
	base := []string{"key", "a\r\n", "\r\n", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\nb\r\n", "$0\r\n\r\n", "$5\r\nhello\r\n", "-ERR x", "+OK", ":5", "*-1\r\n", "*0\r\n"}
	for _, b := range base {
		for _, c := range []string{"\x00", "\r", "\n", " ", "\xff", "\t", "0", "\r\n"} {
			out = append(out, b+c, c+b, b+c+b)
		}
	}
	// numbers in other spellings
	for _, n := range []string{"7", "07", "007", "+7", "7.", "7.0", "7.00", "7e0", "7E0", "70e-1", "0x7", "0b111", "0o7", " 7", "7 ", "7\x00", "٧", "７", "-7", "-07", "-7.0", "1e2", "100", "100.0", "1E+2", "1e02", "0", "-0", "+0", "00", "0.0", "-0.0", "0e0", "1e100", "1e308", "1e309", "5e-324", "true", "True", "TRUE", "null", "{}", "[]", "\"\"", "''", "%s", "%d", "%!d(string=x)", "\\r\\n", "\\x00", "9007199254740993", "9007199254740992", "9007199254740993.0", "18446744073709551615", "18446744073709551616"} {
		out = append(out, n)
	}
	for _, n := range []int{2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537} {
		b := make([]byte, n)
		r.Read(b)
		out = append(out, string(b), strings.Repeat("\r\n", n/2), strings.Repeat("\x00", n), strings.Repeat("a", n))
	}
	// utf-8, whole and broken
	out = append(out, "é", "e\u0301", "\u00e9x", "\xc3", "\xa9", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\ufeff", "\ufffd", "\xef\xbf\xbd", "İ", "ı", "ß", "SS", "ss", "ſ", "K", "k", "K", "Straße", "STRASSE")
	for i := 0; i < 100; i++ {
		b := make([]byte, 1+r.Intn(40))
		r.Read(b)
		out = append(out, string(b))
	}
	seen := map[string]bool{}
	var u []string
	for _, s := range out {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

func c15(rep *kit.Report) {
	bin(rep, "plain")
	binarySafe(rep, "plain", rep.Seed, rep.Scale/4)
	for i := 1; i < rep.Scale; i++ {
		binarySafe(rep, "plain", rep.Seed+int64(1000*i), 1)
	}
	giants(rep)
	rep.Require("positions", 9)
	rep.Require("two-byte strings told apart", 65536)
	rep.Max("unlike byte strings", 0)
}

// giants: strings of sizes up to near the decoder's bound, as value, element,
// member, field and key.
func giants(rep *kit.Report) {
	s := launch(rep)
	defer s.Kill()
	ss := kit.NewSession(rep, s, "giants", rep.Seed)
	ss.NoCount = true
	sizes := []int{17<<20 - 1, 40 << 20, 150 << 20}
	if rep.Tier == "thorough" {
		sizes = append(sizes, 300<<20+7)
	}
	for i, n := range sizes {
		b := make([]byte, n)
		rand.New(rand.NewSource(rep.Seed + int64(i))).Read(b)
		v := string(b)
		ss.Run([]string{"SET", "k", v}, []string{"GET", "k"}, []string{"APPEND", "k", "\r\n"}, []string{"GET", "k"}, []string{"DEL", "k"})
		if n <= 40<<20 {
			ss.Run([]string{"RPUSH", "l", "a", v}, []string{"LRANGE", "l", "0", "-1"}, []string{"RPOP", "l"}, []string{"DEL", "l"})
			ss.Run([]string{"SADD", "a", v}, []string{"SISMEMBER", "a", v}, []string{"SPOP", "a"})
			ss.Run([]string{"HSET", "h", v, "1", "f", v}, []string{"HGET", "h", "f"}, []string{"HGET", "h", v}, []string{"HKEYS", "h"}, []string{"DEL", "h"})
			ss.Run([]string{"ZADD", "z", "1", v}, []string{"ZRANGE", "z", "0", "-1"}, []string{"DEL", "z"})
			ss.Run([]string{"SET", v, "1"}, []string{"KEYS", "*"}, []string{"INCR", v}, []string{"DEL", v})
		}
		rep.Max("longest string in bytes", int64(n))
		rep.Eval(true, "giant", it(n))
	}
	ss.C.Close()
	healthy(rep, s)
}

func binarySafe(rep *kit.Report, variant string, seed int64, scale int) {
	r := rand.New(rand.NewSource(seed))
	ns := nasties(r, scale <= 1)
	rep.Max("unlike byte strings", int64(len(ns)))
	with := func(name string, f func(ss *kit.Session)) func() {
		return func() {
			s := launchAs(rep, variant)
			defer s.Kill()
			ss := kit.NewSession(rep, s, name, seed)
			f(ss)
			rep.Count("positions", 1)
			rep.Sample("%s", ss.Tail(2))
			healthy(rep, s)
		}
	}
	shuffled := func() []string {
		x := append([]string(nil), ns...)
		rr := rand.New(rand.NewSource(seed + 5))
		rr.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		return x
	}
	fs := []func(){
		with("keys", func(ss *kit.Session) {
			for i, k := range shuffled() {
				switch i % 5 {
				case 0:
					ss.Run([]string{"SET", k, "s" + it(i)}, []string{"GET", k})
				case 1:
					ss.Run([]string{"RPUSH", k, "l" + it(i)}, []string{"LRANGE", k, "0", "-1"})
				case 2:
					ss.Run([]string{"SADD", k, "a" + it(i)}, []string{"SMEMBERS", k})
				case 3:
					ss.Run([]string{"HSET", k, "f" + it(i), "h" + it(i)}, []string{"HGETALL", k})
				case 4:
					ss.Run([]string{"ZADD", k, it(i), "z" + it(i)}, []string{"ZRANGE", k, "0", "-1", "WITHSCORES"})
				}
			}
			ss.Audit(nil, 3)
			for i, k := range shuffled() {
				if i%2 == 0 {
					ss.Run([]string{"DEL", k})
				}
			}
			ss.Audit(shuffled(), 3)
			mset := []string{"MSET"}
			for i, k := range ns {
				mset = append(mset, k, it(i))
			}
			ss.Do(mset...)
			ss.Do(append([]string{"MGET"}, ns...)...)
			ss.Do(append([]string{"EXISTS"}, ns...)...)
			ss.Do(append([]string{"DEL"}, ns...)...)
			ss.Audit(nil, 1)
		}),
		with("string values", func(ss *kit.Session) {
			for i, v := range shuffled() {
				k := "k" + it(i%50)
				ss.Run([]string{"SET", k, v}, []string{"GET", k}, []string{"APPEND", k, v}, []string{"GET", k}, []string{"MSET", k, v, "other", v}, []string{"MGET", k, "other", "none"})
			}
			ss.Audit(nil, 2)
		}),
		with("list elements", func(ss *kit.Session) {
			for i, v := range shuffled() {
				k := "l" + it(i%4)
				ss.Run([]string{"RPUSH", k, v}, []string{"LINDEX", k, "-1"}, []string{"LPUSH", k, v}, []string{"LINDEX", k, "0"})
				if i%3 == 0 {
					ss.Run([]string{"LSET", k, "0", v}, []string{"LINSERT", k, "BEFORE", v, "x" + v}, []string{"LRANGE", k, "0", "3"})
				}
			}
			ss.Audit(nil, 40)
			for i, v := range shuffled() {
				ss.Run([]string{"LREM", "l" + it(i%4), "1", v}, []string{"LLEN", "l" + it(i%4)})
			}
			ss.Audit(nil, 40)
			for i := 0; i < 4; i++ {
				ss.Run([]string{"LPOP", "l" + it(i), "300"}, []string{"RPOP", "l" + it(i), "300"}, []string{"LPOP", "l" + it(i)})
			}
			ss.Audit(nil, 10)
		}),
		with("set members", func(ss *kit.Session) {
			for i, v := range shuffled() {
				ss.Run([]string{"SADD", "a", v}, []string{"SADD", "a", v}, []string{"SCARD", "a"}, []string{"SADD", "b" + it(i%3), v})
			}
			ss.Run([]string{"SMEMBERS", "a"}, []string{"SUNION", "b0", "b1", "b2"}, []string{"SINTER", "a", "b1"}, []string{"SDIFFSTORE", "d", "a", "b2"}, []string{"SMEMBERS", "d"})
			for i, v := range shuffled() {
				ss.Run([]string{"SISMEMBER", "a", v}, []string{"SISMEMBER", "b0", v})
				switch i % 4 {
				case 0:
					ss.Run([]string{"SMOVE", "a", "m", v})
				case 1:
					ss.Run([]string{"SREM", "a", v})
				}
			}
			ss.Audit(nil, 50)
			for i := 0; i < 30; i++ {
				ss.Run([]string{"SPOP", "a", "20"}, []string{"SCARD", "a"})
			}
			ss.Audit(nil, 10)
		}),
		with("hash fields and values", func(ss *kit.Session) {
			for i, v := range shuffled() {
				w := ns[(i*7+3)%len(ns)]
				ss.Run([]string{"HSET", "h", v, w}, []string{"HGET", "h", v}, []string{"HSETNX", "h", v, "no"}, []string{"HLEN", "h"}, []string{"HMSET", "g" + it(i%3), v, v}, []string{"HMGET", "g" + it(i%3), v, "none"})
			}
			for _, c := range []string{"HGETALL", "HKEYS", "HVALS"} {
				ss.Run([]string{c, "h"}, []string{c, "g0"})
			}
			for i, v := range shuffled() {
				ss.Run([]string{"HEXISTS", "h", v})
				if i%2 == 0 {
					ss.Run([]string{"HDEL", "h", v})
				}
			}
			ss.Audit(nil, 50)
		}),
		with("sorted set members", func(ss *kit.Session) {
			for i, v := range shuffled() {
				ss.Run([]string{"ZADD", "z", it(i % 7), v}, []string{"ZSCORE", "z", v}, []string{"ZADD", "same", "1", v}, []string{"ZRANK", "same", v})
			}
			ss.Audit(nil, 60)
			ss.Run([]string{"ZRANGE", "same", "0", "-1"}, []string{"ZREVRANGE", "same", "0", "-1", "WITHSCORES"})
			for i, v := range shuffled() {
				switch i % 3 {
				case 0:
					ss.Run([]string{"ZREM", "z", v})
				case 1:
					ss.Run([]string{"ZINCR", "z", "0.5", v})
				}
			}
			ss.Audit(nil, 60)
			for i := 0; i < 20; i++ {
				ss.Run([]string{"ZPOPMIN", "same", "20"}, []string{"ZPOPMAX", "same", "20"})
			}
			ss.Audit(nil, 10)
		}),
		with("every two-byte string as member", func(ss *kit.Session) {
			var all []string
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					all = append(all, string([]byte{byte(a), byte(b)}))
				}
			}
			rr := rand.New(rand.NewSource(seed + 9))
			rr.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			for i := 0; i < len(all); i += 4096 {
				ss.Do(append([]string{"SADD", "a"}, all[i:i+4096]...)...)
				h := []string{"HSET", "h"}
				m := []string{"MSET"}
				for j := i; j < i+4096; j++ {
					h = append(h, all[j], it(j))
					m = append(m, all[j], it(j))
				}
				ss.Do(h...)
				ss.Do(m...)
			}
			ss.Run([]string{"SCARD", "a"}, []string{"SMEMBERS", "a"}, []string{"HLEN", "h"}, []string{"HGETALL", "h"}, append([]string{"MGET"}, all...), append([]string{"EXISTS"}, all...), append([]string{"DEL"}, all...), append([]string{"HMGET", "h"}, all...))
			ss.Run([]string{"KEYS", "*"})
			rep.Count("two-byte strings told apart", int64(len(all)))
		}),
		with("every two-byte string in a sorted set", func(ss *kit.Session) {
			a := []string{"ZADD", "z"}
			for x := 0; x < 256; x += 3 {
				for y := 0; y < 256; y++ {
					a = append(a, "1", string([]byte{byte(x), byte(y)}))
				}
			}
			ss.Do(a...)
			ss.Run([]string{"ZCARD", "z"}, []string{"ZRANGE", "z", "0", "-1"}, []string{"ZREVRANGE", "z", "0", "-1"})
		}),
		with("names easily confused", func(ss *kit.Session) {
			for _, t := range kit.Twins() {
				for turn := 0; turn < 2; turn++ {
					a, b := t[turn], t[1-turn]
					ss.Run([]string{"DEL", a, b}, []string{"SET", a, "1"}, []string{"GET", a}, []string{"GET", b}, []string{"GET", a}, []string{"SET", b, "2"}, []string{"GET", b}, []string{"GET", a}, []string{"EXISTS", a, b, a}, []string{"MGET", b, a, b}, []string{"INCR", a}, []string{"GET", b}, []string{"GET", a}, []string{"DEL", a}, []string{"GET", b}, []string{"GET", a}, []string{"EXISTS", b}, []string{"EXISTS", a}, []string{"TYPE", a}, []string{"TYPE", b})
					ss.Run([]string{"DEL", "h", "a", "z", "l", b}, []string{"HSET", "h", a, "1"}, []string{"HGET", "h", a}, []string{"HGET", "h", b}, []string{"HSETNX", "h", b, "2"}, []string{"HMGET", "h", a, b, a}, []string{"HLEN", "h"}, []string{"HDEL", "h", a}, []string{"HGET", "h", a}, []string{"HGETALL", "h"})
					ss.Run([]string{"SADD", "a", a}, []string{"SISMEMBER", "a", a}, []string{"SISMEMBER", "a", b}, []string{"SADD", "a", b}, []string{"SCARD", "a"}, []string{"SREM", "a", a}, []string{"SISMEMBER", "a", a}, []string{"SISMEMBER", "a", b}, []string{"SMEMBERS", "a"}, []string{"DEL", "b"}, []string{"SADD", "b", a}, []string{"SINTER", "a", "b"}, []string{"SUNION", "a", "b"}, []string{"SDIFF", "a", "b"}, []string{"SDIFF", "b", "a"})
					ss.Run([]string{"ZADD", "z", "1", a}, []string{"ZSCORE", "z", a}, []string{"ZSCORE", "z", b}, []string{"ZRANK", "z", b}, []string{"ZADD", "z", "1", b}, []string{"ZRANK", "z", a}, []string{"ZRANK", "z", b}, []string{"ZRANGE", "z", "0", "-1"}, []string{"ZINCR", "z", "1", a}, []string{"ZSCORE", "z", b}, []string{"ZREM", "z", a}, []string{"ZSCORE", "z", a}, []string{"ZRANGE", "z", "0", "-1", "WITHSCORES"})
					ss.Run([]string{"RPUSH", "l", a, b, a}, []string{"LREM", "l", "0", b}, []string{"LLEN", "l"}, []string{"LINSERT", "l", "before", b, "x"}, []string{"LREM", "l", "1", a}, []string{"LRANGE", "l", "0", "-1"}, []string{"LSET", "l", "0", b}, []string{"LREM", "l", "1", a}, []string{"LRANGE", "l", "0", "-1"})
				}
				rep.Count("pairs of easily confused names", 1)
			}
			ss.Audit(nil, 3)
		}),
		with("every length", func(ss *kit.Session) {
			src := strings.Repeat("0123456789abcdefghijklmnopqrstuvw", 300)
			for n := 0; n <= 4200; n++ {
				v := src[n%33:][:n]
				ss.Run([]string{"SET", "k", v}, []string{"GET", "k"})
				switch n % 5 {
				case 0:
					ss.Run([]string{"HSET", "h", v, v}, []string{"HGET", "h", v}, []string{"HGETALL", "h"}, []string{"HDEL", "h", v})
				case 1:
					ss.Run([]string{"RPUSH", "l", v}, []string{"LRANGE", "l", "0", "-1"}, []string{"LPOP", "l"})
				case 2:
					ss.Run([]string{"SADD", "a", v}, []string{"SMEMBERS", "a"}, []string{"SREM", "a", v})
				case 3:
					ss.Run([]string{"ZADD", "z", "1", v}, []string{"ZRANGE", "z", "0", "-1"}, []string{"ZREM", "z", v})
				case 4:
					ss.Run([]string{"SET", v, "x"}, []string{"GET", v}, []string{"DEL", v})
				}
				rep.Count("lengths", 1)
			}
			for n := 0; n < 600; n++ {
				ss.Run([]string{"RPUSH", "long", src[:n%7]}, []string{"LRANGE", "long", "0", "-1"})
				ss.Run(append([]string{"MGET"}, strings.Split(strings.Repeat("k ", n)+"k", " ")...))
			}
		}),
		with("megabytes", func(ss *kit.Session) {
			sizes := []int{1 << 20, 3<<20 + 1}
			if scale > 1 {
				sizes = append(sizes, 33<<20)
			}
			for _, n := range sizes {
				b := make([]byte, n)
				r.Read(b)
				v := string(b)
				w := v[:n-1] + string([]byte{v[n-1] ^ 1}) // differs in the last bit
				ss.Run([]string{"SET", v, v}, []string{"GET", v}, []string{"GET", w}, []string{"SET", w, "w"}, []string{"MGET", v, w}, []string{"KEYS", "*"}, []string{"DEL", v, w})
				ss.Run([]string{"SADD", "a", v, w}, []string{"SCARD", "a"}, []string{"SREM", "a", w}, []string{"SMEMBERS", "a"})
				ss.Run([]string{"HSET", "h", v, w, w, v}, []string{"HGET", "h", v}, []string{"HGETALL", "h"}, []string{"HDEL", "h", v}, []string{"HGETALL", "h"})
				ss.Run([]string{"ZADD", "z", "1", v, "1", w}, []string{"ZRANK", "z", v}, []string{"ZRANGE", "z", "0", "-1"}, []string{"ZREM", "z", v}, []string{"ZRANGE", "z", "0", "-1"})
				ss.Run([]string{"RPUSH", "l", v, w, v}, []string{"LREM", "l", "0", w}, []string{"LRANGE", "l", "0", "-1"}, []string{"DEL", "l", "z", "h", "a"})
				rep.Max("longest string in bytes", int64(n))
			}
		}),
	}
	parallel(len(fs), 8, func(i int) { fs[i]() })
}

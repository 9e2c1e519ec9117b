package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C13", "the server built with the Go race detector (and once more with the debug tag) under recorded concurrent histories, sustained load, cut and huge streams, large collections read while they change, leaving clients, hostile bytes, a freeze, start-up and stops; the race detector's log and the process are the oracle, beside the checkers of each workload; a case is one judged reply or workload event, distinct as in the workload it comes from", c13)
}

func c13(rep *kit.Report) {
	// all builds at once
	var wg sync.WaitGroup
	for _, f := range []func(){
		func() { buildVariant("race") },
		func() { buildVariant("racedebug") },
		func() { buildInproc(true) },
	} {
		wg.Add(1)
		go func(f func()) { defer wg.Done(); f() }(f)
	}
	wg.Wait()
	seed, scale := rep.Seed, rep.Scale
	on := func(name, variant string, f func(s *kit.Server)) func() {
		return func() {
			s := launchAs(rep, variant)
			defer s.Kill()
			f(s)
			// races at the end of the process count too
			raceless(rep, s, name)
			rep.Count("race-instrumented servers", 1)
			s.Cmd.Process.Signal(syscall.SIGTERM)
			judgeExit(rep, s, syscall.SIGTERM, "after "+name, true)
			raceless(rep, s, name+" and its stop")
		}
	}
	half := max(1, scale/2)
	fs := []func(){
		func() { stream(rep, "race", seed, half) },
		func() { hostile(rep, "race", seed, half) },
		on("concurrent histories", "race", func(s *kit.Server) { linRounds(rep, s, seed*7, 60*scale) }),
		on("observers", "race", func(s *kit.Server) { observers(rep, s, seed*11, 150*scale) }),
		on("sustained load", "race", func(s *kit.Server) {
			for i := 0; i < scale; i++ {
				conserve(rep, s, seed*13+int64(i), 12, 120, true)
			}
		}),
		on("leaving clients", "race", func(s *kit.Server) {
			for i := 0; i < scale; i++ {
				leavers(rep, s, seed*17+int64(i), 1, i == 0)
			}
		}),
		on("large replies beside writers", "race", func(s *kit.Server) { bigBesideWriters(rep, s, seed*19, 60*scale) }),
		on("large replies beside writers, debug", "racedebug", func(s *kit.Server) {
			bigBesideWriters(rep, s, seed*23, 15*scale)
		}),
		on("debug sample data", "racedebug", func(s *kit.Server) {
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			defer k.Close()
			for _, c := range [][]string{{"LRANGE", "list1", "0", "-1"}, {"GET", "key1"}, {"INCR", "key2"}, {"ZRANGE", "zset", "0", "-1"}, {"DEL", "list1", "key1", "key2", "zset"}, {"KEYS", "*"}} {
				if _, err := k.Do(c...); err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("%s: %v", kit.Fmt(c), err))
				}
			}
			linRounds(rep, s, seed*29, 10*scale)
		}),
		func() { stopsN(rep, "race", seed*31, 10*half, 12*half) },
		func() { stopsN(rep, "racedebug", seed*37, 10*half, 6*half) },
		func() { freezeRounds(rep, "race", seed*41) },
		func() { coldStarts(rep, "race", seed*43, 45*scale) },
		func() { coldStarts(rep, "racedebug", seed*47, 9*scale) },
		func() { inproc(rep, true, "stop", seed, 1) },
	}
	parallel(len(fs), 5, func(i int) { fs[i]() })
	rep.Count("data races reported", 0)
	rep.Require("race-instrumented servers", 7)
	rep.Require("large replies read while their collection changed", 500)
	rep.Require("hostile streams", 1000)
	rep.Require("clients that left", 500)
	rep.Require("servers stopped", 30)
	rep.Require("process freezes", 2)
	rep.Require("cold starts", 40)
	rep.Require("in-process stops", 100)
}

// coldStarts lets the very first requests of a server come on several
// connections at the same moment, the same kind of request on all of them:
// what is built at first use would be built twice.
func coldStarts(rep *kit.Report, variant string, seed int64, n int) {
	b := bin(rep, variant)
	var names []string
	for _, f := range strings.Fields(shareable) {
		names = append(names, strings.Split(f, ":")[0])
	}
	raw := []string{
		"PING\r\n", "*1\r\n$4\r\nKEYS\r\n", "*2\r\n$4\r\nKEYS\r\n$6\r\nq[a-c]*\r\n", "*2\r\n$4\r\nkeys\r\n$2\r\n[a\r\n", "*1\r\n$7\r\nCOMMAND\r\n", "*0\r\n", "*x\r\n", "nonsense\r\n", "*1\r\n$-1\r\n", "$4\r\nPING\r\n", "*1\r\n*1\r\n$4\r\nPING\r\n", "*2\r\n$3\r\nGET\r\n$100000\r\n" + strings.Repeat("k", 100000) + "\r\n", "",
	}
	parallel(n, 3, func(i int) {
		r := rand.New(rand.NewSource(seed*5000 + int64(i)))
		port, err := kit.FreePort()
		if err != nil {
			rep.Inconclusive("no port: %v", err)
		}
		s, err := kit.Spawn(b, port)
		if err != nil {
			rep.Inconclusive("cannot start: %v", err)
		}
		defer s.Kill()
		for t0 := kit.Ticks(); ; time.Sleep(3 * time.Millisecond) {
			k, err := kit.Dial(s.Addr)
			if err == nil {
				if i%2 == 0 {
					k.Close()
				}
				break
			}
			if kit.Ticks()-t0 > 600 || !s.Alive() {
				if strings.Contains(s.Log(4000), "address already in use") {
					return
				}
				rep.Violation("the server does not listen", s.Log(4000))
			}
		}
		if !s.Owns() {
			return
		}
		const clients = 10
		var wg sync.WaitGroup
		start := make(chan struct{})
		first, special := names[i%len(names)], ""
		if i%3 == 2 {
			first, special = "", raw[i/3%len(raw)]
		}
		for c := 0; c < clients; c++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			if special != "" {
				k, err := kit.Dial(s.Addr)
				if err != nil {
					kit.Diagnose(rep, s, "connect: "+err.Error())
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer k.Close()
					<-start
					k.Send([]byte(special))
					swallow(k, 20*time.Millisecond)
				}()
			}
			ss, g := shared(rep, s, fmt.Sprintf("cold%d:", c), rr.Int63())
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer ss.C.Close()
				var cs [][]string
				if first != "" {
					for j := 0; j < 3; j++ {
						cs = append(cs, g.Cmd(first))
					}
				}
				<-start
				ss.RunBatch(append(cs, randomCmds(g, kit.NewMix(shareable), 5)...))
				ss.Run(randomCmds(g, kit.NewMix(shareable), 60)...)
			}()
		}
		time.Sleep(time.Duration(2+r.Intn(5)) * time.Millisecond)
		close(start)
		wg.Wait()
		rep.Count("cold starts", 1)
		raceless(rep, s, "first requests at the same moment ("+first+special[:min(20, len(special))]+")")
		s.Cmd.Process.Signal(syscall.SIGTERM)
		judgeExit(rep, s, syscall.SIGTERM, "after first requests at the same moment", true)
		raceless(rep, s, "first requests at the same moment and a stop")
	})
}

func buildVariant(v string) { bin(nil, v) }

func raceless(rep *kit.Report, s *kit.Server, after string) {
	if b := s.CrashBlocks(); len(b) > 0 {
		rep.Violation("the race detector reported a data race during "+after, b...)
	}
	if c := s.Crash(); c != "" {
		rep.Violation("crash during "+after, c)
	}
}

// bigBesideWriters reads whole collections, on connections that take the
// replies slowly, while other connections change the same collections: a reply
// that shared memory with the data would be encoded while it changes. Every
// reply is checked to be one state of its collection.
func bigBesideWriters(rep *kit.Report, s *kit.Server, seed int64, n int) {
	p := fmt.Sprintf("big%d:", seed)
	const size = 600
	pad := strings.Repeat("p", 20)
	val := func(gen int) string { return pad + strconv.Itoa(gen) }
	dial := func() *kit.Conn {
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		return k
	}
	must := func(k *kit.Conn, a ...string) kit.Reply {
		r, err := k.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
		}
		if r.IsErr() {
			rep.Violation(fmt.Sprintf("%s -> %s", kit.Fmt(a), r))
		}
		return r
	}
	// whole collections of one generation each
	fill := func(k *kit.Conn, gen int) {
		hs, ms := []string{"HSET", p + "h"}, []string{"MSET"}
		for i := 0; i < size; i++ {
			hs = append(hs, "f"+it(i), val(gen))
			if i < 100 {
				ms = append(ms, p+"s"+it(i), val(gen))
			}
		}
		must(k, hs...)
		must(k, ms...)
	}
	ctl := dial()
	fill(ctl, 0)
	for i := 0; i < size; i++ {
		must(ctl, "RPUSH", p+"l", val(i))
		must(ctl, "ZADD", p+"z", it(i), "m"+it(i))
		must(ctl, "SADD", p+"a", "m"+it(i))
	}
	must(ctl, "SET", p+"str", strings.Repeat("0", 20000))
	var stop atomic.Bool
	var writers, readers sync.WaitGroup
	write := func(f func(k *kit.Conn, i int)) {
		writers.Add(1)
		go func() {
			defer writers.Done()
			k := dial()
			defer k.Close()
			for i := 1; !stop.Load(); i++ {
				f(k, i)
			}
		}()
	}
	write(func(k *kit.Conn, i int) { fill(k, i) })
	write(func(k *kit.Conn, i int) { // a queue of constant length in order
		must(k, "RPUSH", p+"l", val(size-1+i))
		must(k, "LPOP", p+"l")
		must(k, "LSET", p+"l", "0", val(i))
	})
	write(func(k *kit.Conn, i int) {
		x := it(i % size)
		must(k, "ZINCR", p+"z", "1", "m"+x)
		must(k, "ZREM", p+"z", "m"+x)
		must(k, "ZADD", p+"z", it(i), "m"+x)
		must(k, "SREM", p+"a", "m"+x)
		must(k, "SADD", p+"a", "m"+x)
		must(k, "SUNIONSTORE", p+"a2", p+"a")
		must(k, "APPEND", p+"str", "0")
		if i%50 == 0 {
			must(k, "SET", p+"str", strings.Repeat("0", 20000))
		}
	})
	read := func(cmds [][]string, ok func(c []string, r kit.Reply) string) {
		for w := 0; w < 2; w++ {
			readers.Add(1)
			go func(w int) {
				defer readers.Done()
				rd := rand.New(rand.NewSource(seed + int64(w)))
				k := dial()
				defer k.Close()
				for i := 0; i < n; i++ {
					var b []byte
					var cs [][]string
					for j := 0; j < 1+rd.Intn(4); j++ {
						c := cmds[rd.Intn(len(cmds))]
						cs = append(cs, c)
						b = kit.AppendEnc(b, c)
					}
					k.Send(b)
					if rd.Intn(3) == 0 {
						time.Sleep(time.Duration(rd.Intn(2000)) * time.Microsecond)
					}
					for _, c := range cs {
						r, err := k.Reply()
						if err != nil {
							kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(c), err))
						}
						if why := ok(c, r); why != "" {
							rep.Violation(fmt.Sprintf("%s beside writers: %s", kit.Fmt(c), why), r.String())
						}
						rep.Count("large replies read while their collection changed", 1)
						rep.Eval(true, c[0], it(len(r.Arr)), r.String()[:min(100, len(r.String()))])
					}
				}
			}(w)
		}
	}
	mget := []string{"MGET"}
	for i := 0; i < 100; i++ {
		mget = append(mget, p+"s"+it(i))
	}
	read([][]string{{"HGETALL", p + "h"}, {"HVALS", p + "h"}, mget}, func(c []string, r kit.Reply) string {
		first := ""
		for i, e := range r.Arr {
			if c[0] == "HGETALL" && i%2 == 0 {
				continue
			}
			if first == "" {
				first = e.Str
			}
			if e.Str != first {
				return fmt.Sprintf("mixes %s and %s, which were never there together", kit.Short(first), e)
			}
		}
		if want := map[string]int{"HGETALL": 2 * size, "HVALS": size, "MGET": 100}[c[0]]; len(r.Arr) != want {
			return fmt.Sprintf("%d elements, want %d", len(r.Arr), want)
		}
		return ""
	})
	read([][]string{{"LRANGE", p + "l", "0", "-1"}, {"LRANGE", p + "l", "1", "-2"}}, func(c []string, r kit.Reply) string {
		if d := len(r.Arr) - size; d > 1 || d < -2 {
			return fmt.Sprintf("%d elements", len(r.Arr))
		}
		// behind the head, the numbers go up by one
		last := -1
		for i, e := range r.Arr {
			x, err := strconv.Atoi(strings.TrimPrefix(e.Str, pad))
			if err != nil {
				return "element " + e.String()
			}
			if i > 1 && x != last+1 {
				return fmt.Sprintf("element %d is %d after %d", i, x, last)
			}
			last = x
		}
		return ""
	})
	read([][]string{{"SMEMBERS", p + "a"}, {"ZRANGE", p + "z", "0", "-1"}, {"HKEYS", p + "h"}, {"SUNION", p + "a", p + "a2"}}, func(c []string, r kit.Reply) string {
		seen := map[string]bool{}
		for _, e := range r.Arr {
			if seen[e.Str] {
				return e.String() + " twice"
			}
			seen[e.Str] = true
		}
		if len(r.Arr) != size && len(r.Arr) != size-1 {
			return fmt.Sprintf("%d elements", len(r.Arr))
		}
		return ""
	})
	read([][]string{{"GET", p + "str"}}, func(c []string, r kit.Reply) string {
		if len(r.Str) < 20000 || strings.Trim(r.Str, "0") != "" {
			return "other bytes than were written"
		}
		return ""
	})
	readers.Wait()
	stop.Store(true)
	writers.Wait()
	ctl.Close()
}

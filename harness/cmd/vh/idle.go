package main

import (
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C29", "servers brought into every state in which they have nothing to do (fresh, with silent, half-said, half-closed, unreading, refused and waiting clients, with data, after traffic of every kind), with the clock of the server process read over windows of that rest; a case is one window, distinct by state, and one reply received before and after", c29)
}

// restLimit is the share of one processor, in thousandths, that a resting server may use.
const restLimit = 20

func c29(rep *kit.Report) {
	bin(rep, "plain")
	window := 1200 * time.Millisecond
	if rep.Tier == "thorough" {
		window = 5 * time.Second
	}
	type state struct {
		name string
		make func(s *kit.Server, dial func() *kit.Conn) func() // the function returned ends the state
	}
	nothing := func() {}
	closing := func(cs []*kit.Conn) func() {
		return func() {
			for _, c := range cs {
				c.Close()
			}
		}
	}
	each := func(n int, f func(i int, c *kit.Conn)) func(*kit.Server, func() *kit.Conn) func() {
		return func(s *kit.Server, dial func() *kit.Conn) func() {
			var cs []*kit.Conn
			for i := 0; i < n; i++ {
				c := dial()
				f(i, c)
				cs = append(cs, c)
			}
			return closing(cs)
		}
	}
	must := func(s *kit.Server, c *kit.Conn, a ...string) kit.Reply {
		rp, err := c.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
		}
		rep.Eval(true, "reply", a[0], string(rp.Kind))
		return rp
	}
	get := kit.Enc("GET", "i:big")
	states := []state{
		{"just started", func(*kit.Server, func() *kit.Conn) func() { return nothing }},
		{"with 400 connections that never said anything", each(400, func(int, *kit.Conn) {})},
		{"with 200 connections that were served once", each(200, func(i int, c *kit.Conn) { c.Do("SET", "i:"+strconv.Itoa(i), "v") })},
		{"with 200 connections that stopped within a request", each(200, func(i int, c *kit.Conn) {
			b := kit.Enc("SET", "i:half", "some value")
			c.Send(b[:1+i%(len(b)-1)])
		})},
		{"with 100 connections that sent requests and half of another", each(100, func(i int, c *kit.Conn) {
			b := kit.Enc("SET", "i:half", "some value")
			c.Send(append(kit.Enc("PING"), b[:1+i%(len(b)-1)]...))
			c.Reply()
		})},
		{"with 100 connections whose clients have closed their half", each(100, func(i int, c *kit.Conn) {
			b := kit.Enc("SET", "i:half", "some value")
			c.Send(b[:i%len(b)])
			c.Conn.(*net.TCPConn).CloseWrite()
		})},
		{"with 20 connections whose clients read none of their 40 MB", func(s *kit.Server, dial func() *kit.Conn) func() {
			k := dial()
			must(s, k, "SET", "i:big", strings.Repeat("x", 200000))
			k.Close()
			var cs []*kit.Conn
			for i := 0; i < 20; i++ {
				c := dial()
				c.Conn.(*net.TCPConn).SetReadBuffer(4096)
				for j := 0; j < 200; j++ {
					c.Send(get)
				}
				if i%2 == 0 {
					c.Conn.(*net.TCPConn).CloseWrite()
				}
				cs = append(cs, c)
			}
			return closing(cs)
		}},
		{"with 60 connections refused for what they sent and not closed by their clients", each(60, func(i int, c *kit.Conn) {
			c.Send([]byte([]string{"*1\r\n#\r\n", "GET a\r\n", "*x\r\n", "*1\r\n$-4\r\n", "\r\n\r\n", "*2\r\n$1\r\na\r\n$1\r\nbcd\r\n"}[i%6]))
			c.Reply()
		})},
		{"after 500 connections reset at any point", func(s *kit.Server, dial func() *kit.Conn) func() {
			b := append(kit.Enc("SET", "i:x", "some value"), kit.Enc("GET", "i:big")...)
			for i := 0; i < 500; i++ {
				c := dial()
				c.Send(b[:i%(len(b)+1)])
				if i%2 == 0 {
					c.CloseRST()
				} else {
					c.Close()
				}
			}
			return nothing
		}},
		{"after 100000 commands", func(s *kit.Server, dial func() *kit.Conn) func() {
			parallel(4, 4, func(w int) {
				c := dial()
				defer c.Close()
				for i := 0; i < 50; i++ {
					var cmds [][]string
					for j := 0; j < 250; j++ {
						cmds = append(cmds, []string{"INCR", "i:n"}, []string{"RPUSH", "i:l", "element"})
					}
					if _, err := c.Pipeline(cmds); err != nil {
						kit.Diagnose(rep, s, "waiting for the replies to 500 commands: "+err.Error())
					}
				}
			})
			return nothing
		}},
		{"holding 100000 keys and large collections", func(s *kit.Server, dial func() *kit.Conn) func() {
			c := dial()
			defer c.Close()
			for i := 0; i < 100; i++ {
				a, z, h, m := []string{"MSET"}, []string{"ZADD", "i:z"}, []string{"HSET", "i:h"}, []string{"SADD", "i:m"}
				for j := 0; j < 1000; j++ {
					n := strconv.Itoa(i*1000 + j)
					a, z, h, m = append(a, "i:k:"+n, n), append(z, n, n), append(h, n, n), append(m, n)
				}
				must(s, c, a...)
				must(s, c, z...)
				must(s, c, h...)
				must(s, c, m...)
			}
			return nothing
		}},
		{"after a refused, an unknown and an empty command", func(s *kit.Server, dial func() *kit.Conn) func() {
			c := dial()
			must(s, c, "NOPE", "a")
			must(s, c, "LPUSH", "i:k:1", "a")
			must(s, c, "INCR", "i:z")
			must(s, c, "")
			return func() { c.Close() }
		}},
		{"with more clients than descriptors", func(s *kit.Server, dial func() *kit.Conn) func() {
			if err := s.LimitFDs(s.FDs() + 20); err != nil {
				rep.Count("descriptor limits not permitted", 1)
				return nothing
			}
			var cs []*kit.Conn
			for i := 0; i < 100; i++ {
				c, err := kit.Dial(s.Addr)
				if err != nil {
					break
				}
				cs = append(cs, c)
			}
			return func() {
				closing(cs)()
				s.LimitFDs(60000)
			}
		}},
		{"after the descriptors are free again", func(*kit.Server, func() *kit.Conn) func() { return nothing }},
		{"after everything was deleted", func(s *kit.Server, dial func() *kit.Conn) func() {
			c := dial()
			rp := must(s, c, "KEYS", "*")
			del := []string{"DEL"}
			for _, e := range rp.Arr {
				del = append(del, e.Str)
			}
			must(s, c, del...)
			return func() { c.Close() }
		}},
	}
	parallel(3, 3, func(x int) {
		variant, env := []string{"plain", "plain", "debug"}[x], [][]string{nil, {"VH_CPUS=1"}, nil}[x]
		s, err := kit.Launch(bin(rep, variant), env...)
		if err != nil {
			rep.Violation("the server does not start and answer a PING: " + err.Error())
		}
		defer s.Kill()
		dial := func() *kit.Conn {
			c, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			return c
		}
		clock := func() time.Duration {
			t, err := s.CPU()
			if err != nil {
				rep.Inconclusive("the clock of the server process: %v", err)
			}
			return t
		}
		for _, st := range states {
			if variant == "debug" && (strings.Contains(st.name, "0000") || strings.Contains(st.name, "MB")) {
				continue // it logs every reply
			}
			end := st.make(s, dial)
			limit := int64(restLimit)
			if st.name == "with more clients than descriptors" {
				limit = 100 // it tries again now and then
			}
			time.Sleep(300 * time.Millisecond)
			best := int64(-1)
			for try := 0; best < 0 || best > limit; try++ {
				if try == 12 { // work left over, like the collection of garbage, is done long before
					rep.Violation(fmt.Sprintf("a server (%s) %s uses %d thousandths of a processor with nothing to do", variant, st.name, best))
				}
				t0, c0 := time.Now(), clock()
				time.Sleep(window)
				share := int64(clock()-c0) * 1000 / int64(time.Since(t0))
				if best < 0 || share < best {
					best = share
				}
				rep.Count("windows of rest", 1)
			}
			rep.Max("largest share of a processor at rest, in thousandths", best)
			rep.Eval(true, "rest", variant, st.name, strconv.Itoa(x))
			rep.Count("states of rest measured", 1)
			end()
			c := dial()
			must(s, c, "GET", "i:none")
			c.Close()
			healthy(rep, s)
		}
	})
	rep.Require("states of rest measured", int64(3*len(states)-3))
}

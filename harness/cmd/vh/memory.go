package main

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C30", "servers filled with data of every type and size, crowded with connections, sent large requests and asked for large replies, left with little of what large requests brought, and sent more than they can execute, with the size of the server process (resident, and address space for what requests only announce) read before and after; a case is one size compared with what accounts for it, distinct by scenario, and one reply checked", c30)
}

func c30(rep *kit.Report) {
	bin(rep, "plain")
	type scenario func(m *memo)
	var all []func()
	add := func(name string, f scenario) {
		all = append(all, func() {
			// little garbage, so that the size tells what is held
			s, err := kit.Launch(bin(rep, "plain"), "GOGC=15")
			if err != nil {
				rep.Violation("the server does not start and answer a PING: " + err.Error())
			}
			defer s.Kill()
			f(&memo{rep: rep, s: s, name: name})
			healthy(rep, s)
			rep.Count("scenarios of memory", 1)
		})
	}

	// what is stored
	for _, kind := range []string{"SET", "RPUSH", "LPUSH", "HSET", "SADD", "ZADD"} {
		for _, spread := range []bool{false, true} {
			for _, size := range []int{8, 1000} {
				kind, spread, size := kind, spread, size
				if kind == "SET" && !spread {
					continue
				}
				what := "one key"
				if spread {
					what = "a key each"
				}
				add(fmt.Sprintf("%s of %d bytes, %s", kind, size, what), func(m *memo) {
					m.stored(kind, spread, size)
				})
			}
		}
	}
	add("APPEND", func(m *memo) {
		k := m.dial()
		x := strings.Repeat("x", 100)
		m.mark()
		for i := 0; i < 100; i++ {
			var cmds [][]string
			for j := 0; j < 1000; j++ {
				cmds = append(cmds, []string{"APPEND", "m:a" + it(j%50), x})
			}
			m.all(k, cmds)
		}
		// 50 values of 200 kB, each grown 2000 times
		m.rest("50 values appended to 2000 times each", 10<<20, 3, 8<<20)
	})

	// what is connected
	for _, x := range []struct {
		name string
		f    func(m *memo, k *kit.Conn, i int)
	}{
		{"silent", func(m *memo, k *kit.Conn, i int) {}},
		{"served once", func(m *memo, k *kit.Conn, i int) { m.do(k, "SET", "m:"+it(i%10), "v") }},
		{"stopped within a request", func(m *memo, k *kit.Conn, i int) { k.Send([]byte("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$5\r\nab")) }},
		{"refused", func(m *memo, k *kit.Conn, i int) { k.Send([]byte("*1\r\n#\r\n")); k.Reply() }},
	} {
		x := x
		add("connections "+x.name, func(m *memo) {
			m.mark()
			n := 3000
			var ks []*kit.Conn
			for i := 0; i < n; i++ {
				k := m.dial()
				x.f(m, k, i)
				ks = append(ks, k)
			}
			m.rest(fmt.Sprintf("%d connections %s", n, x.name), int64(n)*50<<10, 1, 8<<20)
			m.drop(ks)
		})
	}
	big := strings.Repeat("0123456789abcdef", 1<<16) // 1 MB
	add("connections that sent 1 MB and were sent 1 MB", func(m *memo) {
		k := m.dial()
		m.do(k, "SET", "m:big", big)
		m.mark()
		n := 300
		var ks []*kit.Conn
		for i := 0; i < n; i++ {
			k := m.dial()
			m.do(k, "SET", "m:big2", big)
			m.do(k, "GET", "m:big")
			m.do(k, append([]string{"MGET"}, strings.Split(strings.Repeat("m:none ", 3000)+"m:none", " ")...)...)
			m.do(k, "GET", "m:none")
			ks = append(ks, k)
		}
		m.rest(fmt.Sprintf("%d connections that are served little after requests and replies of 1 MB", n), int64(n)*50<<10, 1, 30<<20)
		m.drop(ks)
	})
	add("connections that sent many requests at once", func(m *memo) {
		m.mark()
		n := 200
		var ks []*kit.Conn
		var cmds [][]string
		for i := 0; i < 3000; i++ {
			cmds = append(cmds, []string{"SET", "m:" + it(i%7), "some value of a few bytes"})
		}
		for i := 0; i < n; i++ {
			k := m.dial()
			m.all(k, cmds)
			ks = append(ks, k)
		}
		m.rest(fmt.Sprintf("%d connections that sent 3000 requests at once", n), int64(n)*50<<10, 1, 30<<20)
		m.drop(ks)
	})

	// what is left of large requests
	for _, x := range []struct {
		name       string
		one, other []string // of one large request one element stays
	}{
		{"MSET", []string{"MSET"}, nil},
		{"RPUSH", []string{"RPUSH", "m:l!"}, []string{"RPOP", "m:l!", "999"}},
		{"LPUSH", []string{"LPUSH", "m:l!"}, []string{"LPOP", "m:l!", "999"}},
		{"HSET", []string{"HSET", "m:h!"}, nil},
		{"SADD", []string{"SADD", "m:s!"}, []string{"SPOP", "m:s!", "999"}},
		{"ZADD", []string{"ZADD", "m:z!"}, []string{"ZPOPMIN", "m:z!", "999"}},
	} {
		x := x
		add("one element left of 1000 in "+x.name, func(m *memo) {
			k := m.dial()
			pad := big[:1000]
			round := func(i int) {
				in, out := mark(x.one, i), mark(x.other, i)
				switch x.name {
				case "MSET":
					out = []string{"DEL"}
				case "HSET":
					out = []string{"HDEL", "m:h" + it(i)}
				}
				for j := 0; j < 1000; j++ {
					e := it(i) + ":" + it(j)
					switch x.name {
					case "MSET", "HSET":
						in = append(in, "m:"+e, pad)
						if j > 0 {
							out = append(out, "m:"+e)
						}
					case "ZADD":
						in = append(in, it(j), e+pad)
					default:
						in = append(in, e+pad)
					}
				}
				m.do(k, in...)
				m.do(k, out...)
			}
			for i := 0; i < 5; i++ {
				round(i)
			}
			m.mark()
			for i := 5; i < 80; i++ {
				round(i)
			}
			// 75 elements of 1 kB; 75 MB came with them
			m.rest("75 elements, each left of a thousand of 1 kB that came with it", 75*1100, 3, 16<<20)
		})
	}
	add("small values out of large requests", func(m *memo) {
		k := m.dial()
		m.mark()
		for i := 0; i < 60; i++ {
			// a small value written again and a small key that stays, in the company of 1 MB
			m.do(k, "MSET", "m:x", big, "m:small"+it(i), "v"+it(i))
			m.do(k, "HSET", "m:h", "f"+it(i), "v", "big", big)
			m.do(k, "RPUSH", "m:l", "e"+it(i), big)
			m.do(k, "RPOP", "m:l")
			m.do(k, "SADD", "m:s", "e"+it(i), big+it(i))
			m.do(k, "SREM", "m:s", big+it(i))
			m.do(k, "ZADD", "m:z", it(i), "e"+it(i), "3", big+it(i))
			m.do(k, "ZREM", "m:z", big+it(i))
		}
		m.rest("300 small elements that came along with 1 MB each", 3<<20, 1, 20<<20)
	})
	add("values cut and replaced", func(m *memo) {
		k := m.dial()
		m.do(k, "SET", "m:x", big)
		m.mark()
		for i := 0; i < 150; i++ {
			m.do(k, "SET", "m:x", big+it(i))
			m.do(k, "HSET", "m:h", "f", big+it(i))
			m.do(k, "LREM", "m:l", "0", big+it(i-1))
			m.do(k, "RPUSH", "m:l", big+it(i))
			m.do(k, "SET", "m:l2", "v")
			m.do(k, "DEL", "m:l2")
			m.do(k, "RPUSH", "m:l2", big)
			m.do(k, "LSET", "m:l2", "0", "small")
		}
		m.rest("five values of 1 MB, each replaced 150 times", 5<<20, 4, 20<<20)
	})

	// what is on its way
	add("large requests", func(m *memo) {
		m.mark()
		for i := 0; i < 6; i++ {
			k := m.dial()
			m.do(k, "SET", "m:x", strings.Repeat(big, 20))
			k.Close()
		}
		m.peak("a request of 20 MB", 20<<20, 12, 16<<20)
	})
	add("large replies", func(m *memo) {
		k := m.dial()
		m.do(k, "SET", "m:x", strings.Repeat(big, 20))
		m.mark()
		for i := 0; i < 6; i++ {
			k := m.dial()
			m.do(k, "GET", "m:x")
			k.Close()
		}
		m.peak("a reply of 20 MB", 20<<20, 8, 16<<20)
	})
	add("requests of many elements", func(m *memo) {
		k := m.dial()
		a := []string{"MGET"}
		for i := 0; i < 200000; i++ {
			a = append(a, "m:none"+it(i))
		}
		m.mark()
		for i := 0; i < 4; i++ {
			m.do(k, a...)
		}
		m.peak("a request and a reply of 200000 elements", 200000, 1500, 16<<20)
	})
	add("a client that sends on and on", func(m *memo) {
		w := newHeavy(m.rep, m.s, "m:heavy", 3*time.Second)
		defer w.close()
		w.run() // the size of its request counts from here
		m.mark()
		ended := make(chan struct{})
		go func() { defer close(ended); w.run() }()
		time.Sleep(200 * time.Millisecond)
		// 8 clients send what cannot be executed meanwhile
		parallel(8, 8, func(x int) {
			c, err := net.Dial("tcp", m.s.Addr)
			if err != nil {
				kit.Diagnose(m.rep, m.s, "connect: "+err.Error())
			}
			defer c.Close()
			var sb strings.Builder
			for sb.Len() < 1<<20 {
				sb.Write(kit.Enc("SET", "m:k"+it(x), "some value of a few bytes"))
			}
			c.SetWriteDeadline(time.Now().Add(3 * time.Second))
			sent := 0
			for sent < 30<<20 {
				n, err := c.Write([]byte(sb.String()))
				sent += n
				if err != nil {
					break
				}
				select {
				case <-ended:
					return
				default:
				}
			}
			m.rep.Max("bytes the system took of a client that sends on and on", int64(sent))
		})
		// the system's buffers are not the server's; what it may take is what it can execute
		m.peak("8 clients that send 30 MB each while no command can be executed", 8<<20, 2, 64<<20)
		<-ended
	})
	add("announced only", func(m *memo) {
		v0 := m.virtual()
		m.mark()
		var ks []*kit.Conn
		for i := 0; i < 200; i++ {
			k := m.dial()
			k.Send([]byte([]string{"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$536870912\r\n", "*1000000\r\n$3\r\nSET\r\n", "*2\r\n$400000000\r\nG", "*1048576\r\n", "*2\r\n$3\r\nGET\r\n$100000000\r\nabc"}[i%5]))
			ks = append(ks, k)
		}
		time.Sleep(300 * time.Millisecond)
		if v := m.virtual(); v-v0 > 4<<30 {
			m.rep.Violation(fmt.Sprintf("200 connections that announced much and sent a few bytes made the server reserve %d MB", (v-v0)>>20))
		}
		m.peak("200 connections that announced much and sent a few bytes", 200*50<<10, 1, 16<<20)
		m.drop(ks)
	})
	parallel(len(all), 6, func(i int) { all[i]() })
	rep.Require("scenarios of memory", int64(len(all)))
	rep.Require("sizes compared", int64(len(all)))
}

// mark fills in the number of a key.
func mark(a []string, i int) []string {
	var b []string
	for _, s := range a {
		b = append(b, strings.ReplaceAll(s, "!", it(i)))
	}
	return b
}

// memo compares the size of a server process with what accounts for it.
type memo struct {
	rep  *kit.Report
	s    *kit.Server
	name string
	base int64
}

func (m *memo) dial() *kit.Conn {
	k, err := kit.Dial(m.s.Addr)
	if err != nil {
		kit.Diagnose(m.rep, m.s, "connect: "+err.Error())
	}
	return k
}

func (m *memo) do(k *kit.Conn, a ...string) kit.Reply {
	rp, err := k.Do(a...)
	if err != nil {
		kit.Diagnose(m.rep, m.s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
	}
	if rp.IsErr() {
		m.rep.Violation(fmt.Sprintf("%s is refused: %s", kit.Fmt(a), rp))
	}
	m.rep.Eval(true, "reply", m.name, a[0])
	return rp
}

func (m *memo) all(k *kit.Conn, cmds [][]string) {
	rs, err := k.Pipeline(cmds)
	if err != nil {
		kit.Diagnose(m.rep, m.s, fmt.Sprintf("waiting for the replies to %d commands: %v", len(cmds), err))
	}
	for i, rp := range rs {
		if rp.IsErr() {
			m.rep.Violation(fmt.Sprintf("%s is refused: %s", kit.Fmt(cmds[i]), rp))
		}
	}
	m.rep.Eval(true, "replies", m.name, cmds[0][0])
}

// mark takes the size from which the rest counts.
func (m *memo) mark() {
	m.churn()
	m.base = m.s.RSS()
}

// churn gives the collector of the server occasion to run.
func (m *memo) churn() {
	k := m.dial()
	defer k.Close()
	v := strings.Repeat("y", 100000)
	for i := 0; i < 40; i++ {
		m.do(k, "SET", "m:churn", v)
	}
	m.do(k, "DEL", "m:churn")
	time.Sleep(50 * time.Millisecond)
}

// rest asserts that the server has not grown beyond factor times what accounts for it.
func (m *memo) rest(what string, account, factor, slack int64) {
	m.within(what, account*factor+slack, func() int64 { m.churn(); return m.s.RSS() }, 60)
	_ = what
}

// peak asserts the same for the largest size it ever had.
func (m *memo) peak(what string, account, factor, slack int64) {
	m.within(what, account*factor+slack, m.highest, 1)
}

func (m *memo) within(what string, limit int64, size func() int64, tries int) {
	var low int64 = 1 << 60
	for i := 0; i < tries; i++ {
		if i > 0 {
			time.Sleep(250 * time.Millisecond) // memory goes back to the system little by little
		}
		low = min(low, size()-m.base)
		if low <= limit {
			break
		}
	}
	if os.Getenv("VH_SHOW") != "" {
		fmt.Printf("%-50s %9d kB of %9d\n", m.name, low>>10, limit>>10)
	}
	m.rep.Eval(true, "size", m.name)
	m.rep.Count("sizes compared", 1)
	m.rep.Max("largest share of a limit, in percent", low*100/limit)
	if low > limit {
		m.rep.Violation(fmt.Sprintf("the server process has grown by %d kB for %s, %d kB would account for that many times over", low>>10, what, limit>>10))
	}
}

func (m *memo) status(field string) int64 {
	b, _ := os.ReadFile("/proc/" + strconv.Itoa(m.s.Cmd.Process.Pid) + "/status")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, field+":") {
			n, _ := strconv.ParseInt(strings.Fields(l)[1], 10, 64)
			return n << 10
		}
	}
	m.rep.Inconclusive("no %s of the server process", field)
	return 0
}

func (m *memo) highest() int64 { return m.status("VmHWM") }
func (m *memo) virtual() int64 { return m.status("VmSize") }

func (m *memo) drop(ks []*kit.Conn) {
	for _, k := range ks {
		k.Close()
	}
}

// stored fills one key or many and compares the growth with the bytes stored.
func (m *memo) stored(kind string, spread bool, size int) {
	n := 40000
	if size > 100 {
		n = 20000
	}
	if m.rep.Tier == "thorough" {
		n *= 10
	}
	k := m.dial()
	defer k.Close()
	pad := strings.Repeat("z", size)
	m.mark()
	var cmds [][]string
	for i := 0; i < n; i++ {
		key := "m:one"
		if spread {
			key = "m:k" + it(i)
		}
		e := it(i) + pad
		switch kind {
		case "HSET":
			cmds = append(cmds, []string{kind, key, "f" + it(i), e})
		case "ZADD":
			cmds = append(cmds, []string{kind, key, it(i), e})
		default:
			cmds = append(cmds, []string{kind, key, e})
		}
		if len(cmds) == 1000 {
			m.all(k, cmds)
			cmds = nil
		}
	}
	each := int64(2*size + 400) // with what it takes to find it
	if spread {
		each += 800
		if kind == "HSET" || kind == "SADD" || kind == "ZADD" {
			each += 6000
		}
	}
	m.rest(fmt.Sprintf("%d elements of %d bytes stored with %s", n, size, kind), int64(n)*each, 1, 8<<20)
}

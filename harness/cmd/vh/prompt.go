package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C28", "requests of many forms sent to a server with nothing else to do, in one piece, in pieces, in pipelines and with half a request behind them, over old and new connections, with the time from the last byte to the last reply taken; and clients that compete (pipelines without end against single requests, equal clients, hundreds of clients, newcomers), with the commands executed between one reply and the next counted; a case is one reply timed or counted, distinct by form", c28)
}

// delay is the time below which an answer is prompt, far more than what an
// unloaded server takes and less than any timer worth having.
const delay = 4 * time.Millisecond

func c28(rep *kit.Report) {
	s, err := kit.Launch(bin(rep, "plain"))
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	var wg sync.WaitGroup
	for _, pause := range []time.Duration{300, 700, 1200, 2500, 3600, 5500, 7500, 11000, 16000} {
		wg.Add(1)
		go func(pause time.Duration) { defer wg.Done(); awake(rep, pause*time.Millisecond) }(pause)
	}
	if rep.Tier == "thorough" {
		for _, pause := range []time.Duration{31, 46, 61, 91} {
			wg.Add(1)
			go func(pause time.Duration) { defer wg.Done(); awake(rep, pause*time.Second) }(pause)
		}
	}
	prompt(rep, s)
	healthy(rep, s)
	s.Kill()
	for _, env := range []string{"", "VH_CPUS=1", "VH_CPUS=2"} {
		var e []string
		if env != "" {
			e = append(e, env)
		}
		s, err := kit.Launch(bin(rep, "plain"), e...)
		if err != nil {
			rep.Violation("the server does not start and answer a PING: " + err.Error())
		}
		fair(rep, s, env)
		healthy(rep, s)
		s.Kill()
	}
	wg.Wait()
	rep.Require("requests after a pause timed", 27)
	rep.Require("forms of requests timed", 120)
	rep.Require("replies timed", 2500)
	rep.Require("replies of a single client among pipelines", 200)
	rep.Require("newcomers served among pipelines", 30)
	rep.Require("contests judged fair", 12)
}

// form is a way to ask; once sends and waits for what is asked, giving the time
// from the last byte sent.
type form struct {
	name string
	once func(c *kit.Conn) (time.Duration, error)
	kb   int // size of a large one, it may take longer
}

// within is the time in which a form of request is answered promptly.
func (f form) within() time.Duration {
	return delay + time.Duration(f.kb)*20*time.Microsecond
}

func prompt(rep *kit.Report, s *kit.Server) {
	dial := func() *kit.Conn {
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		if t, ok := c.Conn.(*net.TCPConn); ok {
			t.SetNoDelay(true)
		}
		return c
	}
	asks := func(pieces int, cmds ...[]string) func(c *kit.Conn) (time.Duration, error) {
		var b []byte
		for _, a := range cmds {
			b = kit.AppendEnc(b, a)
		}
		return func(c *kit.Conn) (time.Duration, error) {
			for p := 0; p < pieces-1; p++ {
				if err := c.Send(b[len(b)*p/pieces : len(b)*(p+1)/pieces]); err != nil {
					return 0, err
				}
				time.Sleep(time.Millisecond)
			}
			t := time.Now()
			if err := c.Send(b[len(b)*(pieces-1)/pieces:]); err != nil {
				return 0, err
			}
			for range cmds {
				rp, err := c.Reply()
				if err != nil {
					return 0, err
				}
				rep.Eval(true, "prompt", cmds[0][0], string(rp.Kind), strconv.Itoa(len(cmds)), strconv.Itoa(pieces))
			}
			rep.Count("replies timed", int64(len(cmds)))
			return time.Since(t), nil
		}
	}
	raw := func(text string, replies int, rest string) func(c *kit.Conn) (time.Duration, error) {
		return func(c *kit.Conn) (time.Duration, error) {
			t := time.Now()
			if err := c.Send([]byte(text)); err != nil {
				return 0, err
			}
			for i := 0; i < replies; i++ {
				if _, err := c.Reply(); err != nil {
					return 0, err
				}
			}
			d := time.Since(t)
			rep.Count("replies timed", int64(replies))
			if rest != "" {
				if err := c.Send([]byte(rest)); err != nil {
					return 0, err
				}
				if _, err := c.Reply(); err != nil {
					return 0, err
				}
			}
			return d, nil
		}
	}
	big := strings.Repeat("v", 20000)
	long := []string{"RPUSH", "p:l"}
	for i := 0; i < 300; i++ {
		long = append(long, "element "+strconv.Itoa(i))
	}
	many := func(n int, a ...string) (out [][]string) {
		for i := 0; i < n; i++ {
			out = append(out, a)
		}
		return out
	}
	setup := dial()
	for _, a := range [][]string{long, {"SET", "p:s", "v"}, {"SET", "p:b", big}, {"HSET", "p:h", "f", "v"}, {"SADD", "p:m", "a", "b"}, {"ZADD", "p:z", "1", "a"}} {
		if _, err := setup.Do(a...); err != nil {
			kit.Diagnose(rep, s, "waiting for the reply to "+a[0]+": "+err.Error())
		}
	}
	setup.Close()
	get, half := string(kit.Enc("GET", "p:s")), string(kit.Enc("SET", "p:half", "some value or other"))
	timed := []struct {
		name string
		once func(c *kit.Conn) (time.Duration, error)
	}{
		{"PING", asks(1, []string{"PING"})},
		{"inline PING", raw("PING\r\n", 1, "")},
		{"SET", asks(1, []string{"SET", "p:k", "v"})},
		{"GET", asks(1, []string{"GET", "p:s"})},
		{"GET of a missing key", asks(1, []string{"GET", "p:none"})},
		{"SET of 20 kB", asks(1, []string{"SET", "p:k", big})},
		{"GET of 20 kB", asks(1, []string{"GET", "p:b"})},
		{"INCR", asks(1, []string{"INCR", "p:n"})},
		{"MSET", asks(1, []string{"MSET", "p:k", "1", "p:k2", "2"})},
		{"LPUSH", asks(1, []string{"LPUSH", "p:t", "v"}, []string{"LPOP", "p:t"})},
		{"LRANGE of 300", asks(1, []string{"LRANGE", "p:l", "0", "-1"})},
		{"HGET", asks(1, []string{"HGET", "p:h", "f"})},
		{"HSET", asks(1, []string{"HSET", "p:h", "f", "v"})},
		{"SMEMBERS", asks(1, []string{"SMEMBERS", "p:m"})},
		{"SADD", asks(1, []string{"SADD", "p:m", "a"})},
		{"ZADD", asks(1, []string{"ZADD", "p:z", "2", "a"})},
		{"ZRANGE", asks(1, []string{"ZRANGE", "p:z", "0", "-1", "WITHSCORES"})},
		{"KEYS", asks(1, []string{"KEYS", "p:*"})},
		{"DEL", asks(1, []string{"DEL", "p:k"})},
		{"an unknown command", asks(1, []string{"NOPE"})},
		{"a refused command", asks(1, []string{"LPUSH", "p:s", "x"})},
		{"a command without its arguments", asks(1, []string{"SET"})},
		{"a request in two pieces", asks(2, []string{"SET", "p:k", "v"})},
		{"a request in three pieces", asks(3, []string{"GET", "p:s"})},
		{"a request in five pieces", asks(5, []string{"SET", "p:k", "value"})},
		{"a request of 20 kB in three pieces", asks(3, []string{"SET", "p:k", big})},
		{"two requests at once", asks(1, many(2, "GET", "p:s")...)},
		{"seven requests at once", asks(1, many(7, "INCR", "p:n")...)},
		{"fifty requests at once", asks(1, many(50, "GET", "p:s")...)},
		{"ten requests in two pieces", asks(2, many(10, "INCR", "p:n")...)},
		{"a request and half a request", raw(get+half[:20], 1, half[20:])},
		{"a request and one byte", raw(get+"*", 1, half[1:])},
		{"a request and all but one byte of the next", raw(get+half[:len(half)-1], 1, half[len(half)-1:])},
		{"a request and all of the next but its last line end", raw(get+half[:len(half)-2], 1, half[len(half)-2:])},
		{"nine requests and half a request", raw(strings.Repeat(get, 9)+half[:11], 9, half[11:])},
		{"a request after a second of silence", func(c *kit.Conn) (time.Duration, error) {
			time.Sleep(40 * time.Millisecond)
			return asks(1, []string{"GET", "p:s"})(c)
		}},
		{"the first request of a connection", func(*kit.Conn) (time.Duration, error) {
			t := time.Now()
			c := dial()
			defer c.Close()
			_, err := c.Do("GET", "p:s")
			rep.Count("replies timed", 1)
			return time.Since(t), err
		}},
		{"the first request of a connection that was silent", func(*kit.Conn) (time.Duration, error) {
			c := dial()
			defer c.Close()
			time.Sleep(20 * time.Millisecond)
			return asks(1, []string{"GET", "p:s"})(c)
		}},
		{"the last replies of a client that has sent all it has to send", func(*kit.Conn) (time.Duration, error) {
			c := dial()
			defer c.Close()
			t := time.Now()
			if err := c.Send([]byte(get + get)); err != nil {
				return 0, err
			}
			c.Conn.(*net.TCPConn).CloseWrite()
			b, err := io.ReadAll(c.R)
			if err == nil && string(b) != "$1\r\nv\r\n$1\r\nv\r\n" {
				err = fmt.Errorf("received %q", b)
			}
			rep.Count("replies timed", 2)
			return time.Since(t), err
		}},
		{"the refusal of a malformed request", func(*kit.Conn) (time.Duration, error) {
			c := dial()
			defer c.Close()
			t := time.Now()
			if err := c.Send([]byte("*1\r\n#3\r\nfoo\r\n")); err != nil {
				return 0, err
			}
			rp, err := c.Reply()
			if err == nil && !rp.IsErr() {
				err = fmt.Errorf("replied %s", rp)
			}
			rep.Count("replies timed", 1)
			return time.Since(t), err
		}},
		{"a request of one of two clients in turn", func(c *kit.Conn) (time.Duration, error) {
			o := dial()
			defer o.Close()
			t := time.Now()
			for i := 0; i < 3; i++ {
				if _, err := c.Do("INCR", "p:n"); err != nil {
					return 0, err
				}
				if _, err := o.Do("INCR", "p:n"); err != nil {
					return 0, err
				}
			}
			rep.Count("replies timed", 6)
			return time.Since(t) / 3, nil
		}},
	}
	forms := make([]form, len(timed))
	for i, f := range timed {
		forms[i] = form{name: f.name, once: f.once}
	}
	// large ones: 4 ms and 20 us for each kB or two elements
	words := func(n int, a ...string) []string {
		for i := 0; i < n; i++ {
			a = append(a, "p:w"+strconv.Itoa(i%500))
		}
		return a
	}
	for _, kb := range []int{40, 70, 150, 300, 1100} {
		v := strings.Repeat("0123456789abcdef", kb<<6)
		forms = append(forms,
			form{fmt.Sprintf("SET of %d kB", kb), asks(1, []string{"SET", "p:large", v}), kb},
			form{fmt.Sprintf("SET of %d kB in three pieces", kb), asks(3, []string{"SET", "p:large", v}), kb},
			form{fmt.Sprintf("GET of %d kB", kb), func(c *kit.Conn) (time.Duration, error) {
				if _, err := c.Do("SET", "p:large", v); err != nil {
					return 0, err
				}
				return asks(1, []string{"GET", "p:large"})(c)
			}, kb},
			form{fmt.Sprintf("GET of a byte after GET of %d kB", kb), func(c *kit.Conn) (time.Duration, error) {
				if _, err := c.Do("SET", "p:large", v); err != nil {
					return 0, err
				}
				if _, err := c.Do("GET", "p:large"); err != nil {
					return 0, err
				}
				return asks(1, []string{"GET", "p:s"})(c)
			}, 0},
			form{fmt.Sprintf("GET of a byte after SET of %d kB", kb), func(c *kit.Conn) (time.Duration, error) {
				if _, err := c.Do("SET", "p:large", v); err != nil {
					return 0, err
				}
				return asks(1, []string{"GET", "p:s"})(c)
			}, 0})
	}
	for _, n := range []int{1000, 5000, 20000} {
		forms = append(forms,
			form{fmt.Sprintf("EXISTS of %d keys", n), asks(1, words(n, "EXISTS")), n / 2},
			form{fmt.Sprintf("MGET of %d keys", n), asks(1, words(n, "MGET")), n / 2},
			form{fmt.Sprintf("%d requests at once", n/5), asks(1, many(n/5, "GET", "p:s")...), n})
	}
	company := []struct {
		name string
		make func() func()
	}{
		{"alone", func() func() { return func() {} }},
		{"beside 300 silent connections", func() func() {
			var cs []*kit.Conn
			for i := 0; i < 300; i++ {
				cs = append(cs, dial())
			}
			return func() {
				for _, c := range cs {
					c.Close()
				}
			}
		}},
		{"beside half a request and a reader that does not read", func() func() {
			a, b := dial(), dial()
			a.Send([]byte("*3\r\n$3\r\nSET\r\n$5\r\np:h"))
			go b.Send([]byte(strings.Repeat(string(kit.Enc("GET", "p:b")), 1500)))
			time.Sleep(300 * time.Millisecond)
			return func() { a.Close(); b.Close() }
		}},
	}
	times := 24 * rep.Scale
	for x, co := range company {
		leave := co.make()
		for _, f := range forms {
			best := time.Duration(-1)
			c := dial()
			for try := 0; best < 0 || best > f.within(); try++ {
				if try == 6 {
					rep.Violation(fmt.Sprintf("%s, %s, takes %v until it is answered, at best", f.name, co.name, best))
				}
				if try > 0 {
					time.Sleep(300 * time.Millisecond)
				}
				var ds []time.Duration
				for i := 0; i < times; i++ {
					if f.kb > 0 && i >= times/2 || f.kb > 500 && i >= 6 {
						break
					}
					d, err := f.once(c)
					if err != nil {
						kit.Diagnose(rep, s, fmt.Sprintf("%s, %s: %v", f.name, co.name, err))
					}
					ds = append(ds, d)
				}
				sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
				if q := ds[len(ds)/4]; best < 0 || q < best {
					best = q
				}
			}
			c.Close()
			rep.Max("slowest form of request in microseconds (lower quartile)", best.Microseconds())
			rep.Max("largest share of the time allowed, in percent", int64(best*100/f.within()))
			if os.Getenv("VH_SHOW") != "" && best > f.within()/4 {
				fmt.Printf("%-40s %-20s %v of %v\n", f.name, co.name, best, f.within())
			}
			rep.Count("forms of requests timed", 1)
			rep.Eval(true, "form", f.name, strconv.Itoa(x))
		}
		leave()
	}
}

// awake asks a server of its own after pauses in which nothing came.
func awake(rep *kit.Report, pause time.Duration) {
	s, err := kit.Launch(bin(rep, "plain"))
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	defer s.Kill()
	c, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	defer c.Close()
	best := time.Duration(-1)
	for try := 0; try < 3 || best > delay; try++ {
		if try == 9 {
			rep.Violation(fmt.Sprintf("a request that comes %v after the one before, to a server with nothing else to do, takes %v until it is answered, at best", pause, best))
		}
		time.Sleep(pause)
		t := time.Now()
		k := c
		if try%3 == 1 { // of a client that just came
			if k, err = kit.Dial(s.Addr); err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
		}
		rp, err := k.Do("SET", "p:k", "v")
		if err != nil {
			kit.Diagnose(rep, s, "waiting for the reply to SET: "+err.Error())
		}
		if d := time.Since(t); best < 0 || d < best {
			best = d
		}
		if k != c {
			k.Close()
		}
		rep.Eval(true, "pause", pause.String(), string(rp.Kind))
		rep.Count("requests after a pause timed", 1)
	}
	rep.Max("slowest first request after a pause in microseconds", best.Microseconds())
	healthy(rep, s)
}

// fair lets clients compete.
func fair(rep *kit.Report, s *kit.Server, env string) {
	dial := func() *kit.Conn {
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		return c
	}
	round := 0
	// contest lets rivals send pipelines of the width beside a single client. Every
	// command counts the same counter up, so the replies tell how many were executed
	// between two of one client.
	contest := func(width, rivals int) string {
		round++
		key := fmt.Sprintf("fair:%d", round)
		var stop atomic.Bool
		var wg sync.WaitGroup
		shares := make([]int64, rivals)
		for w := 0; w < rivals; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				c := dial()
				defer c.Close()
				var cmds [][]string
				for i := 0; i < width; i++ {
					cmds = append(cmds, []string{"INCR", key})
				}
				for !stop.Load() {
					if _, err := c.Pipeline(cmds); err != nil {
						kit.Diagnose(rep, s, fmt.Sprintf("waiting for the replies to %d commands: %v", width, err))
					}
					atomic.AddInt64(&shares[w], int64(width))
				}
			}(w)
		}
		c := dial()
		defer c.Close()
		time.Sleep(50 * time.Millisecond)
		var gaps []int64
		twelve := make([][]string, 12)
		for i := range twelve {
			twelve[i] = []string{"INCR", key}
		}
		begin, turns := kit.Ticks(), 0
		for ; (turns < 20 || kit.Ticks()-begin < 10) && kit.Ticks()-begin < 100; turns++ {
			replies, err := c.Pipeline(twelve)
			if err != nil {
				kit.Diagnose(rep, s, fmt.Sprintf("waiting for the replies to 12 commands beside %d clients with %d each: %v", rivals, width, err))
			}
			for i := 1; i < len(replies); i++ {
				if replies[i].Int <= replies[i-1].Int {
					rep.Violation(fmt.Sprintf("two INCR of one client, one after the other, reply %s and %s", replies[i-1], replies[i]))
				}
				gaps = append(gaps, replies[i].Int-replies[i-1].Int-1)
			}
			rep.Count("replies of a single client among pipelines", int64(len(replies)))
			if turns%5 == 2 {
				n := dial()
				if rp, err := n.Do("INCR", key); err != nil || rp.Kind != ':' {
					kit.Diagnose(rep, s, fmt.Sprintf("a newcomer waiting for the reply to INCR beside %d clients with %d each: %s %v", rivals, width, rp, err))
				}
				n.Close()
				rep.Count("newcomers served among pipelines", 1)
			}
		}
		stop.Store(true)
		took := kit.Ticks() - begin
		wg.Wait()
		sort.Slice(gaps, func(i, j int) bool { return gaps[i] < gaps[j] })
		sort.Slice(shares, func(i, j int) bool { return shares[i] < shares[j] })
		mid := gaps[len(gaps)/2]
		rep.Eval(true, "contest", env, strconv.Itoa(width), strconv.Itoa(rivals), strconv.FormatInt(mid/8, 10))
		if turns < 4 {
			return fmt.Sprintf("a client gets %d replies only in %d tenths of a second beside %d clients that send %d commands at a time", 12*turns, took, rivals, width)
		}
		if env == "VH_CPUS=1" { // the one processor serves a connection for a whole slice of time
			return ""
		}
		rep.Max("commands per rival between two of one client (middle value)", mid/int64(rivals))
		if mid > int64(15*rivals+500) {
			return fmt.Sprintf("between two commands a client has sent at once, %d others are executed (middle of %d counts) beside %d clients that send %d commands at a time", mid, len(gaps), rivals, width)
		}
		if width < 1000 && shares[0]*10 < shares[rivals-1] {
			return fmt.Sprintf("of %d equal clients with %d commands at a time one gets %d executed and another %d", rivals, width, shares[0], shares[rivals-1])
		}
		rep.Count("contests judged fair", 1)
		return ""
	}
	for _, width := range []int{1, 30, 20000} {
		for _, rivals := range []int{2, 8, 60, 300} {
			if width*rivals > 200000 {
				continue
			}
			bad := contest(width, rivals)
			for try := 0; bad != ""; try++ {
				if try == 4 {
					rep.Violation(bad)
				}
				time.Sleep(300 * time.Millisecond)
				bad = contest(width, rivals)
			}
		}
	}
}

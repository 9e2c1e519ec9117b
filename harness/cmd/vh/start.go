package main

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C24", "servers started with addresses of every form, at taken and at impossible addresses, after a predecessor that was killed or stopped with data and connections, side by side, and as the debug build with its sample data; who listens where, whether the process ends, and every reply of model-checked sessions on the servers that do serve; a case is one judged start or one judged reply; distinct by form of address, by request and reply", c24)
}

func c24(rep *kit.Report) {
	bin(rep, "plain")
	bin(rep, "debug")
	fs := []func(){
		func() { forms(rep) },
		func() { occupied(rep) },
		func() { impossible(rep) },
		func() { successors(rep) },
		func() { sample(rep) },
	}
	parallel(len(fs), len(fs), func(i int) { fs[i]() })
	rep.Require("addresses served as given", 8)
	rep.Require("addresses not served, as given", 6)
	rep.Require("servers at a taken address", 8)
	rep.Require("servers at an impossible address", 10)
	rep.Require("successors found empty", 8)
	rep.Require("successors of servers that were stopped", 4)
	rep.Require("servers side by side", 3)
	rep.Require("debug servers with their sample data", 6)
	rep.Require("commands judged on debug servers", 8000)
}

// start is SpawnArgs or the end of the check.
func start(rep *kit.Report, variant string, port int, args ...string) *kit.Server {
	s, err := kit.SpawnArgs(bin(rep, variant), port, args)
	if err != nil {
		rep.Inconclusive("cannot start: %v", err)
	}
	return s
}

func port(rep *kit.Report) int {
	p, err := kit.FreePort()
	if err != nil {
		rep.Inconclusive("no port: %v", err)
	}
	return p
}

// lost tells whether a server did not come up because somebody else came first.
func lost(s *kit.Server, err error) bool {
	return err == kit.ErrOther || strings.Contains(s.Log(4000), "address already in use")
}

// fresh wants an empty database and a working one, by a short judged session.
func fresh(rep *kit.Report, s *kit.Server, what string, seed int64) (*kit.Session, *kit.Gen) {
	ss := kit.NewSession(rep, s, what, seed)
	ss.Run([]string{"KEYS", "*"})
	g := kit.NewGen(seed, ss.M)
	g.SetKeys("f:", 6)
	ss.Run(randomCmds(g, kit.NewMix(shareable), 120)...)
	ss.Run([]string{"KEYS", "*"})
	healthy(rep, s)
	return ss, g
}

// forms starts the server at addresses of every form.
func forms(rep *kit.Report) {
	v6 := false
	if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
		l.Close()
		v6 = true
	}
	type form struct {
		args   func(p string) []string
		serves []string // hosts
		closed []string
	}
	a := func(x string) func(string) []string {
		return func(p string) []string { return []string{"-addr", strings.Replace(x, "PORT", p, 1)} }
	}
	all := []string{"127.0.0.1", "127.0.0.2"}
	if v6 {
		all = append(all, "[::1]")
	}
	fs := []form{
		{a("tcp://127.0.0.1:PORT"), []string{"127.0.0.1"}, []string{"127.0.0.2", "[::1]"}},
		{a("tcp://127.0.0.3:PORT"), []string{"127.0.0.3"}, []string{"127.0.0.1", "[::1]"}},
		{a("127.0.0.1:PORT"), []string{"127.0.0.1"}, []string{"127.0.0.2"}},
		{a("tcp://:PORT"), all, nil},
		{a(":PORT"), all, nil},
		{a("tcp://0.0.0.0:PORT"), []string{"127.0.0.1", "127.0.0.2"}, nil},
		{a("tcp4://127.0.0.1:PORT"), []string{"127.0.0.1"}, []string{"127.0.0.2"}},
		{func(p string) []string { return []string{"--addr=tcp://127.0.0.1:" + p} }, []string{"127.0.0.1"}, []string{"127.0.0.2"}},
		{func(p string) []string { return []string{"-addr=tcp://127.0.0.2:" + p} }, []string{"127.0.0.2"}, []string{"127.0.0.1"}},
	}
	if v6 {
		fs = append(fs,
			form{a("tcp://[::1]:PORT"), []string{"[::1]"}, []string{"127.0.0.1"}},
			form{a("[::1]:PORT"), []string{"[::1]"}, []string{"127.0.0.1"}},
			form{a("tcp6://[::1]:PORT"), []string{"[::1]"}, []string{"127.0.0.1"}},
			form{a("tcp4://:PORT"), []string{"127.0.0.1", "127.0.0.2"}, []string{"[::1]"}},
			form{a("tcp4://0.0.0.0:PORT"), []string{"127.0.0.1", "127.0.0.2"}, []string{"[::1]"}},
			form{a("tcp6://:PORT"), []string{"[::1]"}, []string{"127.0.0.1", "127.0.0.2"}})
	}
	one := func(i int, f form, p int) {
		ps := strconv.Itoa(p)
		args := f.args(ps)
		what := strings.Replace(strings.Join(args, " "), ps, "PORT", 1)
		if len(args) == 0 {
			what = "no arguments"
		}
		s := start(rep, "plain", p, args...)
		defer s.Kill()
		s.Addr = f.serves[0] + ":" + ps
		if err := s.WaitUp(); err != nil {
			if lost(s, err) {
				rep.Count("ports taken by others", 1)
				return
			}
			rep.Violation(fmt.Sprintf("started with %s, the server does not serve at %s: %v", what, s.Addr, err), s.Log(2000))
		}
		for _, h := range f.serves {
			s.Addr = h + ":" + ps
			c, err := kit.Dial(s.Addr)
			if err != nil {
				rep.Violation(fmt.Sprintf("started with %s, the server does not serve at %s: %v", what, s.Addr, err), s.Log(2000))
			}
			if r, err := c.Do("PING"); err != nil || r.Str != "PONG" {
				rep.Violation(fmt.Sprintf("started with %s, PING at %s: %s %v", what, s.Addr, r, err), s.Log(2000))
			}
			c.Close()
			rep.Count("addresses served as given", 1)
			rep.Eval(true, "form", what, h)
		}
		for _, h := range f.closed {
			if h == "[::1]" && !v6 {
				continue
			}
			if c, err := net.DialTimeout("tcp", h+":"+ps, 5*time.Second); err == nil {
				c.Close()
				// by this process, not a stranger's?
				if s.Listens(p) > 1 {
					rep.Violation(fmt.Sprintf("started with %s, the server is open at %s too", what, h+":"+ps), s.Log(2000))
				}
				var d net.Conn
				if d, err = net.DialTimeout("tcp", h+":"+ps, 5*time.Second); err == nil {
					k := kit.NewConn(d)
					_, err = k.Do("SET", "whose", what)
					k.Close()
				}
				s.Addr = f.serves[0] + ":" + ps
				if m, derr := kit.Dial(s.Addr); err == nil && derr == nil {
					r, _ := m.Do("GET", "whose")
					m.Do("DEL", "whose")
					m.Close()
					if r.Str == what {
						rep.Violation(fmt.Sprintf("started with %s, the server is open at %s too", what, h+":"+ps), s.Log(2000))
					}
				}
				continue
			}
			rep.Count("addresses not served, as given", 1)
			rep.Eval(true, "form", what, "not", h)
		}
		s.Addr = f.serves[len(f.serves)-1] + ":" + ps
		ss, _ := fresh(rep, s, "server started with "+what, rep.Seed*31+int64(i))
		ss.C.Close()
	}
	parallel(len(fs)*rep.Scale, 3, func(i int) { one(i, fs[i%len(fs)], port(rep)) })
	if l, err := net.Listen("tcp", ":7379"); err == nil {
		l.Close()
		one(-1, form{func(string) []string { return nil }, all, nil}, 7379)
	}
}

// occupied starts servers where one serves already.
func occupied(rep *kit.Report) {
	parallel(4*rep.Scale, 2, func(i int) {
		r := rand.New(rand.NewSource(rep.Seed*41 + int64(i)))
		s := launch(rep)
		defer s.Kill()
		ss, g := shared(rep, s, "", rep.Seed*43+int64(i))
		ss.MaxBatch = 16
		mix := kit.NewMix(shareable)
		for n := 0; n < 3; n++ {
			ss.Run(randomCmds(g, mix, 50+r.Intn(50))...)
			addr := []string{"tcp://127.0.0.1:%d", "127.0.0.1:%d", "tcp://:%d"}[(i+n)%3]
			what := fmt.Sprintf(addr, s.Port)
			b := start(rep, "plain", s.Port, "-addr", what)
			// connections go to the first server all the while
			for j := 0; b.Alive() && j < 2000; j++ {
				old := ss.C
				c, err := kit.Dial(s.Addr)
				if err != nil {
					kit.Diagnose(rep, s, "connect while another server is started at the same address: "+err.Error())
				}
				ss.C = c
				old.Close()
				ss.Run(randomCmds(g, mix, 2)...)
			}
			if !b.Wait(300) {
				rep.Violation(fmt.Sprintf("a server started at %s, where another serves, neither serves nor ends within 30 s", what), b.Log(2000))
			}
			if c := b.Crash(); c != "" {
				rep.Violation(fmt.Sprintf("a server started at %s, where another serves, crashes", what), c)
			}
			b.Kill()
			rep.Count("servers at a taken address", 1)
			rep.Eval(true, "taken", what[:6], fmt.Sprint(i, n))
			ss.Run(randomCmds(g, mix, 50)...)
			ss.Audit(g.Keys, 6)
		}
		ss.C.Close()
		healthy(rep, s)
	})
}

// impossible starts servers at addresses that are none.
func impossible(rep *kit.Report) {
	addrs := []string{
		"tcp://127.0.0.1:99999", "tcp://127.0.0.1:-1", "tcp://127.0.0.1", "tcp://127.0.0.1:65536",
		"tcp://127.0.0.1:abc-port", "tcp://[::bad:1", "foo://127.0.0.1:%d", "tcp://203.0.113.7:%d",
		"tcp://127.0.0.1:%d:%d", "tcp9://127.0.0.1:%d", "://127.0.0.1:%d", "127.0.0.1",
		"tcp4://[::1]:%d", "tcp6://127.0.0.1:%d", "udp://127.0.0.1:%d", "unix:///nonexistent/directory/%d.sock",
	}
	parallel(len(addrs), 3, func(i int) {
		a := strings.ReplaceAll(addrs[i], "%d", strconv.Itoa(port(rep)))
		s := start(rep, "plain", 1, "-addr", a)
		if !s.Wait(300) {
			rep.Violation(fmt.Sprintf("a server started at %s neither serves nor ends within 30 s", a), s.Log(2000))
		}
		if c := s.Crash(); c != "" {
			rep.Violation(fmt.Sprintf("a server started at %s crashes", a), c)
		}
		if !strings.Contains(s.Log(4000), " ") {
			rep.Violation(fmt.Sprintf("a server started at %s ends without a word", a))
		}
		s.Kill()
		rep.Count("servers at an impossible address", 1)
		rep.Eval(true, "impossible", addrs[i])
	})
}

// successors start where a server was killed or stopped with data and
// connections.
func successors(rep *kit.Report) {
	parallel(3*rep.Scale, 3, func(i int) {
		s := launch(rep)
		for n := 0; n < 4; n++ {
			ss, g := fresh(rep, s, "successor of a server", rep.Seed*53+int64(i*10+n))
			ss.Audit(g.Keys, 4)
			rep.Count("successors found empty", 1)
			var open []*kit.Conn
			for j := 0; j < 20; j++ {
				c, err := kit.Dial(s.Addr)
				if err != nil {
					kit.Diagnose(rep, s, "connect: "+err.Error())
				}
				if j%2 == 0 {
					c.Send([]byte("*2\r\n$3\r\nGET\r\n"))
				}
				open = append(open, c)
			}
			healthy(rep, s)
			p := s.Port
			if n%2 == i%2 {
				s.Kill()
			} else { // in order
				s.Cmd.Process.Signal(signals[(i+n/2)%3])
				if !s.Wait(600) {
					rep.Violation("the server does not exit within a minute of its signal", s.Log(2000))
				}
				rep.Count("successors of servers that were stopped", 1)
			}
			s = start(rep, "plain", p, "-addr", "tcp://127.0.0.1:"+strconv.Itoa(p))
			if err := s.WaitUp(); err != nil {
				if err != kit.ErrOther && !(lost(s, err) && listening(p)) {
					rep.Violation("after the end of a server with open connections a new one does not come up at the same address: "+err.Error(), s.Log(2000))
				}
				rep.Count("ports taken by others", 1)
				s.Kill()
				s = launch(rep)
			}
			ss.C.Close()
			for _, c := range open {
				c.Close()
			}
		}
		s.Kill()
	})
	// side by side: same keys, different data
	var all []*kit.Server
	var sss []*kit.Session
	var gs []*kit.Gen
	for i := 0; i < 3; i++ {
		s := launch(rep)
		defer s.Kill()
		ss, g := shared(rep, s, "", rep.Seed*59+int64(i))
		all, sss, gs = append(all, s), append(sss, ss), append(gs, g)
	}
	for n := 0; n < 30*rep.Scale; n++ {
		i := n % 3
		sss[i].Run(randomCmds(gs[i], kit.NewMix(shareable), 40)...)
	}
	for i, s := range all {
		sss[i].Audit(gs[i].Keys, 10)
		healthy(rep, s)
		rep.Count("servers side by side", 1)
	}
}

func listening(p int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// sampleData is what a debug build has to start with.
var sampleData = []struct {
	cmd []string
	n   int64
}{
	{[]string{"RPUSH", "list1", "1", "2", "3", "4", "5", "6"}, 6},
	{[]string{"SET", "key1", "hello"}, -1},
	{[]string{"SET", "key2", "10"}, -1},
	{[]string{"ZADD", "zset", "1", "a", "2", "b", "3", "c", "4", "d", "5", "e"}, 5},
}

// sample drives debug builds.
func sample(rep *kit.Report) {
	b := bin(rep, "debug")
	var resets atomic.Int64
	parallel(8*rep.Scale, 4, func(i int) {
		seed := rep.Seed*61 + int64(i)
		p := port(rep)
		env := []string{"VH_CPUS=" + strconv.Itoa(i%3)}
		s, err := kit.SpawnArgs(b, p, []string{"-addr", "tcp://127.0.0.1:" + strconv.Itoa(p)}, env...)
		if err != nil {
			rep.Inconclusive("cannot start: %v", err)
		}
		defer s.Kill()
		// the very first connection that gets in
		var c net.Conn
		for t0 := kit.Ticks(); ; {
			if c, err = net.Dial("tcp", s.Addr); err == nil {
				break
			}
			if !s.Alive() || kit.Ticks()-t0 > 600 {
				if lost(s, nil) {
					rep.Count("ports taken by others", 1)
					return
				}
				rep.Violation("the debug build does not come up", s.Log(4000))
			}
			time.Sleep(200 * time.Microsecond)
		}
		ss, g := &kit.Session{R: rep, S: s, C: kit.NewConn(c), M: kit.NewModel(), Name: "debug build", Rnd: rand.New(rand.NewSource(seed)), MaxBatch: 24}, (*kit.Gen)(nil)
		for _, d := range sampleData {
			r := kit.Reply{Kind: '+', Str: "OK"}
			if d.n >= 0 {
				r = kit.Reply{Kind: ':', Int: d.n}
			}
			if err := ss.M.Step(d.cmd, r); err != nil {
				rep.Inconclusive("the model does not take the sample data: %v", err)
			}
		}
		look := [][]string{{"LRANGE", "list1", "0", "-1"}, {"GET", "key1"}, {"GET", "key2"}, {"ZRANGE", "zset", "0", "-1", "WITHSCORES"}, {"KEYS", "*"}}
		r := rand.New(rand.NewSource(seed))
		r.Shuffle(len(look), func(a, b int) { look[a], look[b] = look[b], look[a] })
		// at once; whose server it was can be asked afterwards
		reps, err := ss.C.Pipeline(look)
		if (!s.Alive() && lost(s, nil)) || (s.Alive() && !s.Owns()) {
			rep.Count("ports taken by others", 1)
			return
		}
		if err != nil {
			if errors.Is(err, syscall.ECONNRESET) && resets.Add(1) == 1 {
				// somebody else who looked for a free port was there for a moment; not twice
				rep.Count("ports taken by others", 1)
				return
			}
			kit.Diagnose(rep, s, "the first requests: "+err.Error())
		}
		for i, c := range look {
			if err := ss.M.Step(c, reps[i]); err != nil {
				rep.Violation(fmt.Sprintf("the first client of a debug build: %s -> %s: %v", kit.Fmt(c), reps[i], err))
			}
			rep.Eval(true, "debug", kit.Fmt(c), reps[i].String())
		}
		rep.Count("debug servers with their sample data", 1)
		rep.Eval(true, "debug", fmt.Sprint(i))
		g = kit.NewGen(seed*67, ss.M)
		g.SetKeys("d:", 6)
		g.Keys = append(g.Keys, "list1", "key1", "key2", "zset")
		ss.Audit(g.Keys, 3)
		mix := kit.NewMix(shareable)
		n := 500 + 900
		for j := 0; j < n; j += 100 {
			ss.Run(randomCmds(g, mix, 100)...)
			rep.Count("commands judged on debug servers", 100)
			if r.Intn(4) == 0 {
				ss.Audit(g.Keys, 3)
			}
		}
		ss.Audit(g.Keys, 10)
		ss.C.Close()
		healthy(rep, s)
	})
}

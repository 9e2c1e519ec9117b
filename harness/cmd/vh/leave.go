package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C18", "clients that send numbered commands and leave at random bytes, by FIN or reset, with replies unread, beside model-checked clients on the same server; afterwards the numbered effects of each leaver must be a prefix of its complete requests (all of them for orderly leavers) and descriptors are back; a case is one leaver accounted for or one judged reply of a live client; distinct by where it left and what it left behind, or by request and reply", c18)
	register("C19", "the server process is sent SIGTERM, SIGINT or SIGQUIT at random moments from the first milliseconds of its life to full load; exit status, time, log, every byte clients received, refusal of connections and re-binding of the address are checked, and event.Stop is raced against submitted commands inside one process; a case is one stopped server or one reply checked around a stop; distinct by signal, moment and what the clients saw", c19)
}

func c18(rep *kit.Report) {
	bin(rep, "plain")
	parallel(3*rep.Scale, 3, func(i int) {
		s := launch(rep)
		defer s.Kill()
		leavers(rep, s, rep.Seed*100+int64(i), 1, i == 0)
		healthy(rep, s)
	})
	inTurn(rep)
	rep.Require("clients that left", 1500)
	rep.Require("connections in turn on one server", 70000)
	rep.Require("commands of live clients beside them", 5000)
	rep.Require("clients that left inside a request", 300)
	rep.Require("clients that left with replies unread", 300)
}

// inTurn opens and leaves more connections than 16 bits count, beside a client
// that stays from first to last.
func inTurn(rep *kit.Report) {
	s := launch(rep)
	defer s.Kill()
	total := 72000
	base := s.FDs()
	stay, g := shared(rep, s, "stay:", rep.Seed)
	mix := kit.NewMix(shareable)
	var done atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < total/8; i++ {
				k, err := kit.Dial(s.Addr)
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("connect after %d connections: %v", done.Load(), err))
				}
				if i%16 < 15 {
					r, err := k.Do("INCRBY", fmt.Sprintf("turn%d", w), "3")
					if err != nil || r.Kind != ':' || r.Int != int64(3*(i-i/16+1)) {
						kit.Diagnose(rep, s, fmt.Sprintf("connection %d in turn, INCRBY number %d: %s, %v", done.Load(), i-i/16+1, r, err))
					}
				}
				if i%16 == 3 {
					k.Send([]byte("*2\r\n$3\r\nGE"))
				}
				if i%64 == 5 {
					k.Close()
				} else {
					k.CloseRST() // keeps no port waiting
				}
				done.Add(1)
			}
		}(w)
	}
	for over := false; !over; {
		over = done.Load() >= int64(total/8*8)
		stay.Run(randomCmds(g, mix, 20)...)
		time.Sleep(2 * time.Millisecond)
	}
	wg.Wait()
	stay.Audit(g.Keys, 4)
	rep.Count("connections in turn on one server", done.Load())
	t0 := kit.Ticks()
	for s.FDs() > base+1 {
		if kit.Ticks()-t0 > 450 {
			rep.Violation(fmt.Sprintf("after %d connections left one after the other the server keeps %d descriptors (%d at the start)", total, s.FDs(), base))
		}
		time.Sleep(10 * time.Millisecond)
	}
	healthy(rep, s)
	stay.C.Close()
	rep.Eval(true, "in turn")
}

func leavers(rep *kit.Report, s *kit.Server, seed int64, scale int, slow bool) {
	p := fmt.Sprintf("v%d:", seed)
	base := s.FDs()
	ctl, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	do := func(a ...string) kit.Reply {
		r, err := ctl.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
		}
		return r
	}
	big := strings.Repeat("BIGBIGBIG!", 30000)
	do("SET", p+"big", big)
	var stop atomic.Bool
	var live sync.WaitGroup
	for w := 0; w < 4; w++ {
		live.Add(1)
		go func(w int) {
			defer live.Done()
			ss, g := shared(rep, s, fmt.Sprintf("%slive%d:", p, w), seed+int64(w))
			mix := kit.NewMix(shareable)
			for i := 0; !stop.Load(); i++ {
				n := 1 + g.Intn(40)
				ss.Run(randomCmds(g, mix, n)...)
				rep.Count("commands of live clients beside them", int64(n))
				if g.Intn(6) == 0 {
					// a fresh connection must be silent until asked
					ss.C.Close()
					c, err := kit.Dial(s.Addr)
					if err != nil {
						kit.Diagnose(rep, s, "connect beside leaving clients: "+err.Error())
					}
					if x, any := c.Extra(time.Duration(g.Intn(2)) * time.Millisecond); any {
						rep.Violation(fmt.Sprintf("a new connection received %q without asking", x))
					}
					ss.C = c
				}
			}
			ss.Audit(g.Keys, 5)
			ss.C.Close()
		}(w)
	}
	// clients that do not read, for as long as all this takes
	var slows []*kit.Conn
	if slow {
		for i := 0; i < 5; i++ {
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			var b []byte
			for j := 0; j < 80; j++ {
				b = kit.AppendEnc(b, []string{"GET", p + "big"})
			}
			k.Send(b)
			slows = append(slows, k)
		}
	}
	type grave struct {
		id, sent, complete int
		orderly            bool
		how                string
	}
	var mu sync.Mutex
	var graves []grave
	parallel(12, 12, func(w int) {
		r := rand.New(rand.NewSource(seed*91 + int64(w)))
		for i := 0; i < 55*scale; i++ {
			id := w*10000 + i
			lg, st := fmt.Sprintf("%slog%d", p, id), fmt.Sprintf("%sset%d", p, id)
			n := 1 + r.Intn(25)
			withBig := r.Intn(4) == 0
			// what every byte of the stream completes
			var b []byte
			var ends []int // end of each push
			for j := 0; j < n; j++ {
				x := strconv.Itoa(j)
				if r.Intn(5) == 0 {
					x += strings.Repeat("y", r.Intn(3000))
				}
				b = kit.AppendEnc(b, []string{"RPUSH", lg, x, x, x})
				ends = append(ends, len(b))
				if withBig {
					b = kit.AppendEnc(b, []string{"GET", p + "big"})
				}
				b = kit.AppendEnc(b, []string{"SET", st, x})
			}
			cut := len(b)
			inside := false
			if r.Intn(4) > 0 {
				cut = r.Intn(len(b) + 1)
				inside = true
			}
			b = b[:cut]
			complete := 0
			for _, e := range ends {
				if e <= cut {
					complete++
				}
			}
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect beside leaving clients: "+err.Error())
			}
			g := grave{id: id, sent: cut, complete: complete}
			if r.Intn(3) == 0 && cut > 2 {
				h := 1 + r.Intn(cut-1)
				k.Send(b[:h])
				time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
				k.Send(b[h:])
			} else {
				k.Send(b)
			}
			switch r.Intn(6) {
			case 0, 1: // orderly: ends its side, reads all
				g.orderly, g.how = true, "half-close"
				k.Conn.(*net.TCPConn).CloseWrite()
				got, err := io.ReadAll(k.R)
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("client that ended its side: %v after %d bytes", err, len(got)))
				}
				k.Close()
			case 2:
				g.how = "reset"
				k.CloseRST()
			case 3:
				g.how = "close"
				k.Close()
			case 4: // some replies read, then reset
				g.how = "reset while reading"
				k.Conn.SetReadDeadline(time.Now().Add(time.Duration(r.Intn(2000)) * time.Microsecond))
				k.Conn.Read(make([]byte, 1+r.Intn(4000)))
				k.CloseRST()
			case 5:
				g.how = "close later"
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				k.Close()
			}
			rep.Count("clients that left", 1)
			if inside {
				rep.Count("clients that left inside a request", 1)
			}
			if !g.orderly {
				rep.Count("clients that left with replies unread", 1)
			}
			mu.Lock()
			graves = append(graves, g)
			mu.Unlock()
		}
	})
	check := func(final bool) {
		for _, g := range graves {
			r := do("LRANGE", fmt.Sprintf("%slog%d", p, g.id), "0", "-1")
			if len(r.Arr)%3 != 0 {
				rep.Violation(fmt.Sprintf("leaver %d (%s after %d bytes): part of a command took effect, its list has %d elements", g.id, g.how, g.sent, len(r.Arr)))
			}
			n := len(r.Arr) / 3
			for i, e := range r.Arr {
				want := strconv.Itoa(i / 3)
				if strings.TrimRight(e.Str, "y") != want {
					rep.Violation(fmt.Sprintf("leaver %d (%s after %d bytes): element %d is %s, not of push %s: commands were lost, doubled or reordered", g.id, g.how, g.sent, i, e, want))
				}
			}
			if n > g.complete {
				rep.Violation(fmt.Sprintf("leaver %d (%s after %d bytes) sent %d complete pushes, %d took effect", g.id, g.how, g.sent, g.complete, n))
			}
			if g.orderly && n != g.complete {
				rep.Violation(fmt.Sprintf("client %d ended its side after %d complete pushes and read to the end, %d took effect", g.id, g.complete, n))
			}
			if final {
				// the SETs behind the pushes
				v := do("GET", fmt.Sprintf("%sset%d", p, g.id))
				if !v.Nil {
					j, _ := strconv.Atoi(strings.TrimRight(v.Str, "y"))
					if j != n-1 && j != n-2 {
						rep.Violation(fmt.Sprintf("leaver %d: %d pushes took effect and the last SET is %s: the commands of one connection ran out of order", g.id, n, v))
					}
				}
				rep.Eval(true, g.how, it(g.sent), it(n))
				rep.Count("complete commands of leavers", int64(g.complete))
				rep.Count("commands of leavers that took effect", int64(n))
			}
		}
	}
	check(false)
	time.Sleep(200 * time.Millisecond)
	stop.Store(true)
	live.Wait()
	for i, k := range slows {
		if i%2 == 0 {
			// a late reader gets everything
			for j := 0; j < 80; j++ {
				r, err := k.Reply()
				if err != nil || r.Str != big {
					kit.Diagnose(rep, s, fmt.Sprintf("a client that reads late: reply %d is %s, %v", j, r, err))
				}
			}
			k.Close()
		} else {
			k.CloseRST()
		}
	}
	check(true)
	ctl.Close()
	// descriptors are released
	t0 := kit.Ticks()
	for s.FDs() > base+1 {
		if kit.Ticks()-t0 > 450 {
			rep.Violation(fmt.Sprintf("all clients left, the server keeps %d descriptors (%d at the start)", s.FDs(), base))
		}
		time.Sleep(10 * time.Millisecond)
	}
	g := graves[len(graves)/2]
	rep.Sample("client %d: %s after %d bytes with %d complete pushes", g.id, g.how, g.sent, g.complete)
}

// ---- C19 ----

func c19(rep *kit.Report) {
	bin(rep, "plain")
	stops(rep, "plain", rep.Seed, rep.Scale)
	inproc(rep, false, "stop", rep.Seed, rep.Scale)
	long := []time.Duration{2, 5, 8, 12, 3}
	parallel(min(len(long), 2+rep.Scale), 4, func(i int) {
		stopBusy(rep, rep.Seed*300+int64(i), long[i]*time.Second, signals[i%3])
	})
	rep.Require("long commands answered across a stop", 2)
	rep.Require("servers stopped", 60)
	rep.Require("servers stopped while starting", 15)
	rep.Require("addresses bound again at once", 60)
	rep.Require("replies checked around a stop", 5000)
	rep.Require("further signals while stopping", 10)
	rep.Require("in-process stops", 100)
}

var signals = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}

func stops(rep *kit.Report, variant string, seed int64, scale int) {
	stopsN(rep, variant, seed, 24*scale, 40*scale)
}

func stopsN(rep *kit.Report, variant string, seed int64, starting, loaded int) {
	b := bin(rep, variant)
	// while starting
	parallel(starting, 4, func(i int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(i)))
		port, err := kit.FreePort()
		if err != nil {
			rep.Inconclusive("no port: %v", err)
		}
		s, err := kit.Spawn(b, port)
		if err != nil {
			rep.Inconclusive("cannot start: %v", err)
		}
		// long enough for the process to run its own code at all
		d := time.Duration(r.Intn(12000)) * time.Microsecond
		if i%3 == 0 {
			// as soon as it logs its first line, then a little more
			for t0 := kit.Ticks(); s.Log(10) == "" && kit.Ticks()-t0 < 100 && s.Alive(); {
				time.Sleep(50 * time.Microsecond)
			}
			d = time.Duration(r.Intn(800)) * time.Microsecond
		}
		time.Sleep(d)
		installed := strings.Contains(s.Log(4000), "listen")
		sig := signals[i%3]
		s.Cmd.Process.Signal(sig)
		judgeExit(rep, s, sig, fmt.Sprintf("%v after its start", d), installed)
		rep.Count("servers stopped", 1)
		rep.Count("servers stopped while starting", 1)
		again(rep, b, port, fmt.Sprintf("%v %v after its start", sig, d))
		rep.Eval(true, "start", sig.String(), fmt.Sprint(d/time.Millisecond), fmt.Sprint(installed))
	})
	// under load
	parallel(loaded, 4, func(i int) {
		r := rand.New(rand.NewSource(seed*2000 + int64(i)))
		s := launchAs(rep, variant)
		stopUnderLoad(rep, b, s, r, signals[i%3], i)
	})
}

// stopBusy stops a server that is at a command of about d; others wait behind
// it. However long it takes, it is answered, and so are they.
func stopBusy(rep *kit.Report, seed int64, d time.Duration, sig syscall.Signal) {
	r := rand.New(rand.NewSource(seed))
	b := bin(rep, "plain")
	s := launch(rep)
	defer s.Kill()
	w := newHeavy(rep, s, "heavy", d)
	defer w.close()
	if err := w.k.Send(kit.Enc(w.args...)); err != nil {
		kit.Diagnose(rep, s, "send: "+err.Error())
	}
	wait := func(ticks int64) {
		for t0 := kit.Ticks(); kit.Ticks()-t0 < ticks; {
			time.Sleep(5 * time.Millisecond)
		}
	}
	wait(4)
	var ks []*kit.Conn
	for i := r.Intn(6); i >= 0; i-- {
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		defer k.Close()
		k.Send(kit.Enc("INCR", "n"))
		ks = append(ks, k)
	}
	wait(4)
	t0 := time.Now()
	s.Cmd.Process.Signal(sig)
	got, err := w.k.Reply()
	took := time.Since(t0)
	when := fmt.Sprintf("at a command of %v with %d others behind it", d, len(ks))
	switch {
	case err != nil:
		rep.Violation(fmt.Sprintf("%v %s: %v later its client had no reply: %v", sig, when, took.Round(time.Millisecond), err), s.Log(3000))
	case got.IsErr():
		rep.Count("commands refused because of a stop", 1)
	case got.Kind != ':' || got.Int != heavySize:
		rep.Violation(fmt.Sprintf("%v %s: it was answered %s, want %d", sig, when, got, heavySize))
	default:
		rep.Count("long commands answered across a stop", 1)
	}
	seen := map[int64]bool{}
	for i, k := range ks {
		got, err := k.Reply()
		switch {
		case err != nil:
			rep.Violation(fmt.Sprintf("%v %s: number %d of these had no reply: %v", sig, when, i, err), s.Log(3000))
		case got.IsErr():
			rep.Count("commands refused because of a stop", 1)
		case got.Kind != ':' || got.Int < 1 || got.Int > int64(len(ks)) || seen[got.Int]:
			rep.Violation(fmt.Sprintf("%v %s: INCR number %d was answered %s", sig, when, i, got))
		default:
			seen[got.Int] = true
		}
	}
	judgeExit(rep, s, sig, when, true)
	rep.Max("longest wait of a stop for a command in ms", took.Milliseconds())
	again(rep, b, s.Port, fmt.Sprintf("%v %s", sig, when))
	rep.Count("servers stopped", 1)
	rep.Eval(true, "busy", sig.String(), it(len(ks)), got.String())
}

// judgeExit wants a clean end. When the handlers were not yet installed the
// signal's default action is the only one possible.
func judgeExit(rep *kit.Report, s *kit.Server, sig syscall.Signal, when string, installed bool) {
	if !s.Wait(450) {
		rep.Violation(fmt.Sprintf("%v %s: the process did not end", sig, when), s.Log(4000))
	}
	err := s.ExitErr()
	if c := s.Crash(); c != "" {
		rep.Violation(fmt.Sprintf("%v %s: crash while stopping", sig, when), c)
	}
	if err != nil {
		// before main has reached signal.Notify the signal ends the process; QUIT dumps stacks
		if !installed && (s.Cmd.ProcessState.Sys().(syscall.WaitStatus).Signaled() || (sig == syscall.SIGQUIT && strings.Contains(s.Log(1<<20), "SIGQUIT: quit"))) {
			rep.Count("servers that had not yet reached their signal handling", 1)
			return
		}
		rep.Violation(fmt.Sprintf("%v %s: exit status %v instead of 0", sig, when, err), s.Log(4000))
	}
}

// again binds the address at once with a new server.
func again(rep *kit.Report, b string, port int, when string) {
	s, err := kit.Spawn(b, port)
	if err != nil {
		rep.Inconclusive("cannot start: %v", err)
	}
	defer s.Kill()
	if err := s.WaitUp(); err != nil {
		if err == kit.ErrOther {
			rep.Count("ports taken by others", 1)
			return
		}
		if strings.Contains(s.Log(4000), "address already in use") {
			// somebody else may have taken the port: does anybody listen now?
			if c, derr := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); derr == nil {
				c.Close()
				rep.Count("ports taken by others", 1)
				return
			}
		}
		rep.Violation(fmt.Sprintf("after %s a new server does not come up at the same address: %v", when, err), s.Log(4000))
	}
	rep.Count("addresses bound again at once", 1)
}

func stopUnderLoad(rep *kit.Report, b string, s *kit.Server, r *rand.Rand, sig syscall.Signal, round int) {
	defer s.Kill()
	clients := []int{1, 3, 12, 40}[round%4]
	style := round / 4 % 5 // 0 one by one, 1 pipelined, 2 idle, 3 slow readers and half requests, 4 mixed
	var wg sync.WaitGroup
	big := strings.Repeat("0123456789", 20000)
	{
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		if r, err := k.Do("SET", "big", big); err != nil || r.Str != "OK" {
			kit.Diagnose(rep, s, fmt.Sprintf("SET of 200000 bytes: %s %v", r, err))
		}
		k.Close()
	}
	var replies, refusals, started atomic.Int64
	stopAt := make(chan struct{})
	gone := make(chan struct{})
	for c := 0; c < clients; c++ {
		st := style
		if st == 4 {
			st = r.Intn(4)
		}
		wg.Add(1)
		go func(c, st int, r *rand.Rand) {
			defer wg.Done()
			k, err := kit.Dial(s.Addr)
			started.Add(1)
			select {
			case <-gone:
				// may be a connection to the next server at the address
				if err == nil {
					k.Close()
				}
				return
			default:
			}
			if err != nil {
				select {
				case <-stopAt:
					return
				default:
				}
				// the stop may just have come
				time.Sleep(20 * time.Millisecond)
				select {
				case <-stopAt:
					return
				default:
					kit.Diagnose(rep, s, "connect: "+err.Error())
				}
			}
			defer k.Close()
			refused := false
			// check judges one reply against the one expected reply
			check := func(what string, want, got kit.Reply) {
				replies.Add(1)
				if got.IsErr() {
					refused = true
					refusals.Add(1)
					return
				}
				if refused {
					rep.Violation(fmt.Sprintf("%v: %s was answered %s after an earlier command of the connection had been refused because of the stop", sig, what, got))
				}
				if !got.Equal(want) {
					rep.Violation(fmt.Sprintf("%v under load: %s was answered %s, want %s", sig, what, got, want))
				}
			}
			fail := func(err error) bool { // true: the connection ended
				var me *kit.MalformedError
				if errors.Is(err, kit.ErrStall) {
					rep.Violation(fmt.Sprintf("%v under load: a connection was neither answered nor closed", sig), s.Log(2000))
				}
				if errors.As(err, &me) && !strings.Contains(err.Error(), "stream ends inside") {
					rep.Violation(fmt.Sprintf("%v under load: %v", sig, err))
				}
				select {
				case <-stopAt:
				default:
					// ended before we sent the signal?
					time.Sleep(50 * time.Millisecond)
					select {
					case <-stopAt:
					default:
						kit.Diagnose(rep, s, fmt.Sprintf("before any signal: %v", err))
					}
				}
				return true
			}
			pk := fmt.Sprintf("p%d", c)
			n := int64(0)
			for i := 0; ; i++ {
				switch st {
				case 0:
					tok := fmt.Sprintf("%d.%d", c, i)
					for _, x := range []struct {
						a []string
						w kit.Reply
					}{{[]string{"SET", pk, tok}, kit.Reply{Kind: '+', Str: "OK"}}, {[]string{"GET", pk}, kit.Reply{Kind: '$', Str: tok}}, {[]string{"INCR", pk + "n"}, kit.Reply{Kind: ':', Int: n + 1}}} {
						got, err := k.Do(x.a...)
						if err != nil {
							fail(err)
							return
						}
						check(kit.Fmt(x.a), x.w, got)
						if x.a[0] == "INCR" && !got.IsErr() {
							n++
						}
					}
				case 1:
					var cmds [][]string
					for j := 0; j < 60; j++ {
						cmds = append(cmds, []string{"INCR", pk + "n"})
						if j%20 == 0 {
							cmds = append(cmds, []string{"GET", "big"})
						}
					}
					reps, err := k.Pipeline(cmds)
					for j, got := range reps {
						w := kit.Reply{Kind: '$', Str: big}
						if cmds[j][0] == "INCR" {
							w = kit.Reply{Kind: ':', Int: n + 1}
							if !got.IsErr() {
								n++
							}
						}
						check(kit.Fmt(cmds[j]), w, got)
					}
					if err != nil {
						fail(err)
						return
					}
				case 2: // idle: must be closed
					got, err := k.Reply()
					if err == nil {
						if !got.IsErr() {
							rep.Violation(fmt.Sprintf("%v: an idle connection received %s", sig, got))
						}
						continue
					}
					fail(err)
					return
				case 3: // half a request, or large replies read slowly
					if c%2 == 0 {
						e := kit.Enc("SET", "half"+it(c), "v")
						k.Send(e[:1+r.Intn(len(e)-1)])
						got, err := k.Reply()
						if err == nil {
							if !got.IsErr() {
								rep.Violation(fmt.Sprintf("%v: half a request was answered %s", sig, got))
							}
							continue
						}
						fail(err)
						return
					}
					var by []byte
					for j := 0; j < 100; j++ {
						by = kit.AppendEnc(by, []string{"GET", "big"})
					}
					k.Send(by)
					for j := 0; j < 100; j++ {
						got, err := k.Reply()
						if err != nil {
							fail(err)
							return
						}
						check("GET big", kit.Reply{Kind: '$', Str: big}, got)
						time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
					}
				}
			}
		}(c, st, rand.New(rand.NewSource(r.Int63())))
	}
	for started.Load() < int64(clients)/2 {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	close(stopAt)
	t0 := time.Now()
	s.Cmd.Process.Signal(sig)
	var more sync.WaitGroup
	if round%2 == 0 {
		// an impatient operator
		more.Add(1)
		go func(r *rand.Rand) {
			defer more.Done()
			for n := 1 + r.Intn(6); n > 0 && s.Alive(); n-- {
				time.Sleep(time.Duration(r.Intn([]int{2, 30, 200}[r.Intn(3)])) * time.Millisecond)
				if s.Cmd.Process.Signal(signals[r.Intn(3)]) == nil {
					rep.Count("further signals while stopping", 1)
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	judgeExit(rep, s, sig, fmt.Sprintf("under load (%d clients, style %d)", clients, style), true)
	more.Wait()
	rep.Max("slowest stop in ms", time.Since(t0).Milliseconds())
	close(gone)
	again(rep, b, s.Port, fmt.Sprintf("%v under load", sig))
	wg.Wait()
	rep.Count("servers stopped", 1)
	rep.Count("replies checked around a stop", replies.Load())
	rep.Count("commands refused because of a stop", refusals.Load())
	rep.Eval(replies.Load() > 0 || style == 2 || style == 3, "load", sig.String(), it(clients), it(style), fmt.Sprint(replies.Load()), fmt.Sprint(refusals.Load()))
	rep.Sample("%v with %d clients (style %d): %d replies checked, %d refused, stopped in %v", sig, clients, style, replies.Load(), refusals.Load(), time.Since(t0).Round(time.Millisecond))
}

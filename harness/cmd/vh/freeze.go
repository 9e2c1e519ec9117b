package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/kit"
)

// freezeOne: clients increment counters and push unique elements; the process
// is frozen for d in the middle. A command answered with an error must not have
// happened, every other one exactly once, and replies stay in order.
func freezeOne(rep *kit.Report, s *kit.Server, seed int64, d time.Duration) {
	w := newHeavy(rep, s, fmt.Sprintf("heavy%d", seed), 400*time.Millisecond)
	defer w.close()
	holdUp(rep, s, seed, d, "freeze", func() {
		// one long command is being executed, or next in line, meanwhile
		ended := make(chan struct{})
		go func() { defer close(ended); w.run() }()
		defer func() { <-ended }()
		time.Sleep(time.Duration(seed%5*40) * time.Millisecond)
		if err := s.Cmd.Process.Signal(syscall.SIGSTOP); err != nil {
			rep.Inconclusive("cannot freeze the server: %v", err)
		}
		time.Sleep(d)
		s.Cmd.Process.Signal(syscall.SIGCONT)
		rep.Count("process freezes", 1)
	})
}

// busyOne keeps the server busy for about d with one command instead.
func busyOne(rep *kit.Report, s *kit.Server, seed int64, d time.Duration) {
	w := newHeavy(rep, s, "busy", d)
	defer w.close()
	holdUp(rep, s, seed, d, "busy time", func() {
		for try := 0; try < 3; try++ {
			t := w.run()
			rep.Max("longest command in ms", t.Milliseconds())
			if t >= d*9/10 || len(w.args) > 1<<20 {
				break
			}
			w.stretch(int(int64(len(w.args)) * int64(d) / int64(max(t, time.Millisecond)) * 11 / 10))
		}
		rep.Count("times the server was busy", 1)
	})
}

// heavy is one command that takes long: a union of a big set with itself.
type heavy struct {
	rep  *kit.Report
	s    *kit.Server
	k    *kit.Conn
	key  string
	args []string
}

const heavySize = 60000

func newHeavy(rep *kit.Report, s *kit.Server, key string, d time.Duration) *heavy {
	k, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	w := &heavy{rep: rep, s: s, k: k, key: key}
	a := []string{"SADD", key}
	for i := 0; i < heavySize; i++ {
		a = append(a, "member "+strconv.Itoa(i))
	}
	w.do(a...)
	// so many keys named that it takes d
	n := 8
	for ; ; n *= 2 {
		w.args = []string{"SUNIONSTORE", key + "2"}
		for i := 0; i < n; i++ {
			w.args = append(w.args, key)
		}
		t0 := time.Now()
		w.do(w.args...)
		if t := max(time.Since(t0), time.Millisecond); t >= d/8 || n >= 1<<20 {
			n = min(max(2, int(int64(n)*int64(d)/int64(t))), 1<<20)
			break
		}
	}
	w.stretch(n)
	w.do("DEL", key+"2")
	return w
}

// stretch has the command name n keys.
func (w *heavy) stretch(n int) {
	for len(w.args) < 2+n {
		w.args = append(w.args, w.key)
	}
	w.args = w.args[:2+n]
}

func (w *heavy) do(a ...string) kit.Reply {
	r, err := w.k.Do(a...)
	if err != nil {
		kit.Diagnose(w.rep, w.s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
	}
	return r
}

// run issues the command and checks that its reply tells what happened.
func (w *heavy) run() time.Duration {
	t0 := time.Now()
	r := w.do(w.args...)
	d := time.Since(t0)
	want := int64(heavySize)
	if r.IsErr() {
		want = 0
		w.rep.Count("long commands refused", 1)
	} else {
		w.rep.Count("long commands done", 1)
		if r.Kind != ':' || r.Int != want {
			w.rep.Violation(fmt.Sprintf("%s of a set of %d members is answered %s", kit.Fmt(w.args), heavySize, r))
		}
	}
	for _, wait := range []time.Duration{0, 100, 1500} {
		time.Sleep(wait * time.Millisecond)
		if n := w.do("SCARD", w.key+"2"); n.Kind != ':' || n.Int != want {
			if n.IsErr() { // refused, as the server may be held up
				continue
			}
			w.rep.Violation(fmt.Sprintf("a command that took %v, %s, was answered %s; afterwards its result has %s members", d, kit.Fmt(w.args), r, n))
		}
	}
	w.do("DEL", w.key+"2")
	return d
}

func (w *heavy) close() { w.k.Close() }

func holdUp(rep *kit.Report, s *kit.Server, seed int64, d time.Duration, how string, stall func()) {
	const clients = 96
	p := fmt.Sprintf("f%d:", seed)
	var wg sync.WaitGroup
	var sum, errs, oks atomic.Int64
	var mu sync.Mutex
	pushed := map[string]bool{}
	refused := map[string]bool{}
	var stop atomic.Bool
	// a slow command in every pipeline keeps many others waiting their turn
	func() {
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		defer k.Close()
		a := []string{"SADD", p + "big"}
		for i := 0; i < 4000; i++ {
			a = append(a, strconv.Itoa(i))
		}
		if _, err := k.Do(a...); err != nil {
			kit.Diagnose(rep, s, "SADD: "+err.Error())
		}
	}()
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			defer k.Close()
			for i := 0; !stop.Load(); i++ {
				tok := fmt.Sprintf("%d.%d", c, i)
				reps, err := k.Pipeline([][]string{
					{"INCR", p + "n"}, {"RPUSH", p + "q", tok}, {"MSET", p + "a" + strconv.Itoa(c), tok, p + "b" + strconv.Itoa(c), tok},
					{"MGET", p + "a" + strconv.Itoa(c), p + "b" + strconv.Itoa(c)},
					{"SUNIONSTORE", p + "big2", p + "big"},
				})
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("after the server was held up (%s of %v) under load: %v", how, d, err))
				}
				for j, r := range reps {
					if r.IsErr() {
						errs.Add(1)
						continue
					}
					oks.Add(1)
					if r.Kind != "::+*:"[j] {
						rep.Violation(fmt.Sprintf("reply %d of a pipeline is %s, the replies are no longer one for one", j, r))
					}
				}
				if !reps[0].IsErr() {
					sum.Add(1)
				}
				mu.Lock()
				if reps[1].IsErr() {
					refused[tok] = true
				} else {
					pushed[tok] = true
				}
				mu.Unlock()
				// MSET and MGET on private keys: error or the exact value
				if !reps[2].IsErr() && !reps[3].IsErr() {
					if len(reps[3].Arr) != 2 || reps[3].Arr[0].Str != tok || reps[3].Arr[1].Str != tok {
						rep.Violation(fmt.Sprintf("MSET of %q was acknowledged and the next MGET of the connection answered %s", tok, reps[3]))
					}
				}
				if reps[2].IsErr() && !reps[3].IsErr() && len(reps[3].Arr) == 2 && reps[3].Arr[0].Str == tok {
					rep.Violation(fmt.Sprintf("MSET of %q was answered with %s and yet took effect", tok, reps[2]))
				}
			}
		}(c)
	}
	rnd := rand.New(rand.NewSource(seed))
	time.Sleep(time.Duration(60+rnd.Intn(200)) * time.Millisecond)
	stall()
	time.Sleep(300 * time.Millisecond)
	stop.Store(true)
	wg.Wait()
	k, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	defer k.Close()
	// commands given up before may still be under way
	r, err := k.Do("GET", p+"n")
	if err != nil {
		kit.Diagnose(rep, s, "GET: "+err.Error())
	}
	if r.Str != strconv.FormatInt(sum.Load(), 10) {
		rep.Violation(fmt.Sprintf("after a %s of %v: %d INCR were acknowledged (%d commands got an error reply), the counter is %s", how, d, sum.Load(), errs.Load(), r))
	}
	r, err = k.Do("LRANGE", p+"q", "0", "-1")
	if err != nil {
		kit.Diagnose(rep, s, "LRANGE: "+err.Error())
	}
	seen := map[string]bool{}
	for _, e := range r.Arr {
		if seen[e.Str] {
			rep.Violation(fmt.Sprintf("after a %s of %v: element %s was pushed twice", how, d, e.Str))
		}
		seen[e.Str] = true
		if refused[e.Str] {
			rep.Violation(fmt.Sprintf("after a %s of %v: the RPUSH of %s was answered with an error and yet took effect", how, d, e.Str))
		}
		if !pushed[e.Str] {
			rep.Violation(fmt.Sprintf("after a %s of %v: element %s was never pushed", how, d, e.Str))
		}
	}
	if len(seen) != len(pushed) {
		rep.Violation(fmt.Sprintf("after a %s of %v: %d elements were pushed, %d are there", how, d, len(pushed), len(seen)))
	}
	rep.Count("commands refused because of a freeze", errs.Load())
	rep.Count("commands done around a freeze", oks.Load())
	rep.Eval(true, how, p, fmt.Sprint(d))
}

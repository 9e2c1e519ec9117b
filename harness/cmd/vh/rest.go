package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"sync"

	"verif/harness/kit"
)

func init() {
	register("C22", "the server inside the harness process and as its own process under traffic of every kind (orderly, malformed, aborted, idle, huge, refused, given up after a freeze) on keys never used again; goroutines, descriptors and live heap at rest before and after, and a census of all goroutines by SIGABRT; a case is one reply received or one measurement, distinct by command and kind of reply or by measurement", c22)
}

func c22(rep *kit.Report) {
	bin(rep, "plain")
	fs := []func(){
		func() { inproc(rep, false, "leak", rep.Seed, rep.Scale) },
		func() { census(rep, "load and leaving clients", false) },
		func() { census(rep, "a freeze under load", true) },
		func() { growth(rep) },
	}
	parallel(len(fs), len(fs), func(i int) { fs[i]() })
	rep.Require("requests served", 100000)
	rep.Require("measurements at rest", 1)
	rep.Require("goroutine censuses", 2)
	rep.Require("malformed connections", 500)
	rep.Require("connections reset", 500)
}

var goroutineRe = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]*)[^\]]*\]:\n((?:.+\n)*)`)

// stacks takes the goroutines of a process apart that died of SIGABRT.
func stacks(log string) []string {
	var out []string
	for _, m := range goroutineRe.FindAllStringSubmatch(log, -1) {
		var fn []string
		for _, l := range strings.Split(m[2], "\n") {
			if l != "" && l[0] != '\t' && !strings.HasPrefix(l, "created by") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				if !strings.HasPrefix(l, "runtime.") { // the collector's workers and the like
					fn = append(fn, l)
				}
			}
		}
		if len(fn) > 0 {
			out = append(out, fn[len(fn)-1]+" in "+fn[0])
		}
	}
	sort.Strings(out)
	return out
}

// abort ends the server by SIGABRT and lists its goroutines.
func abort(rep *kit.Report, s *kit.Server) []string {
	st, err := os.Stat(s.Stderr)
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	s.Cmd.Process.Signal(syscall.SIGABRT)
	if !s.Wait(600) {
		rep.Inconclusive("the server does not end on SIGABRT")
	}
	b, err := os.ReadFile(s.Stderr)
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	g := stacks(string(b[st.Size():]))
	if len(g) == 0 {
		rep.Inconclusive("no goroutines in the log after SIGABRT: %s", s.Log(1000))
	}
	return g
}

// census compares the goroutines of a server at rest after traffic with those
// of one that has had none.
func census(rep *kit.Report, what string, freeze bool) {
	start := func() *kit.Server {
		s, err := kit.Launch(bin(rep, "plain"), "GOTRACEBACK=all")
		if err != nil {
			rep.Violation("the server does not start: " + err.Error())
		}
		return s
	}
	fresh := start()
	defer fresh.Kill()
	fds := fresh.FDs()
	s := start()
	defer s.Kill()
	if freeze {
		freezeOne(rep, s, rep.Seed*3, 11500*time.Millisecond)
	} else {
		var wg sync.WaitGroup
		var stop atomic.Bool
		breakers(rep, s, "cen:", 6, rep.Seed, &stop, &wg)
		linRounds(rep, s, rep.Seed*5, 40*rep.Scale)
		stop.Store(true)
		wg.Wait()
		leavers(rep, s, rep.Seed*7, rep.Scale, true)
	}
	healthy(rep, s)
	// idle workers of the pool go after at most 20 seconds
	time.Sleep(25 * time.Second)
	if n := s.FDs(); n > fds {
		rep.Violation(fmt.Sprintf("25 s after %s, on connections all closed, the server has %d descriptors, a fresh one has %d", what, n, fds))
	}
	before, after := abort(rep, fresh), abort(rep, s)
	if len(after) > len(before) {
		rep.Violation(fmt.Sprintf("25 s after %s, on connections all closed, the server has %d goroutines, a fresh one has %d", what, len(after), len(before)),
			"fresh:\n"+strings.Join(before, "\n"), "after:\n"+strings.Join(after[:min(len(after), 200)], "\n"))
	}
	rep.Count("goroutine censuses", 1)
	rep.Max("goroutines at rest", int64(len(after)))
	rep.Eval(true, "census", what)
	rep.Sample("census after %s: %d goroutines, fresh %d: %s", what, len(after), len(before), strings.Join(after, "; "))
}

// growth watches the size of the whole process over rounds of equal traffic.
func growth(rep *kit.Report) {
	s, err := kit.Launch(bin(rep, "plain"))
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	defer s.Kill()
	var sizes []int64
	rounds := 6 + 2*rep.Scale
	for i := 0; i < rounds; i++ {
		conserveBig(rep, s, i)
		time.Sleep(300 * time.Millisecond)
		sizes = append(sizes, s.RSS()>>10)
		rep.Eval(true, "round", it(i))
	}
	rep.Sample("resident kB after each of %d rounds: %v", rounds, sizes)
	// the second half must not stand above the first by more than a round's own data
	h := len(sizes) / 2
	lo, hi := maxIn(sizes[:h]), minIn(sizes[h:])
	rep.Max("resident kB at most in the first rounds", lo)
	rep.Max("resident kB at least in the later rounds", hi)
	if hi > lo+40<<10 {
		rep.Violation(fmt.Sprintf("the resident size goes up round by round of equal traffic, all data being deleted each time: %v kB", sizes))
	}
	healthy(rep, s)
}

func maxIn(a []int64) int64 {
	m := a[0]
	for _, x := range a {
		m = max(m, x)
	}
	return m
}

func minIn(a []int64) int64 {
	m := a[0]
	for _, x := range a {
		m = min(m, x)
	}
	return m
}

// conserveBig stores about 15 MB in every type, reads and deletes it.
func conserveBig(rep *kit.Report, s *kit.Server, round int) {
	parallel(4, 4, func(w int) {
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		defer k.Close()
		p := fmt.Sprintf("g%d.%d:", round, w)
		v := strings.Repeat("v", 1000)
		var cmds [][]string
		var del = []string{"DEL"}
		for i := 0; i < 600; i++ {
			x := p + it(i)
			for _, t := range "slahz" {
				del = append(del, x+string(t))
			}
			cmds = append(cmds, []string{"SET", x + "s", v}, []string{"RPUSH", x + "l", v, v}, []string{"SADD", x + "a", v + x}, []string{"HSET", x + "h", x, v}, []string{"ZADD", x + "z", it(i), v + x})
		}
		for i := 0; i < 600; i++ {
			x := p + it(i)
			cmds = append(cmds, []string{"GET", x + "s"}, []string{"LRANGE", x + "l", "0", "-1"}, []string{"SMEMBERS", x + "a"}, []string{"HGETALL", x + "h"}, []string{"ZRANGE", x + "z", "0", "-1"})
		}
		cmds = append(cmds, del)
		reps, err := k.Pipeline(cmds)
		if err != nil {
			kit.Diagnose(rep, s, "storing and reading: "+err.Error())
		}
		if r := reps[len(reps)-1]; r.Int != 3000 {
			rep.Violation(fmt.Sprintf("DEL of 3000 existing keys -> %s", r))
		}
		rep.Count("requests served", int64(len(cmds)))
	})
}

// vh decides one property by running the real server under workloads and
// judging everything it answers. Usage: vh PROPERTY TIER
package main

import (
	"fmt"
	"os"
	"os/signal"
	"sync"
	"sync/atomic"
	"syscall"

	"verif/harness/kit"
)

var checks = map[string]func(*kit.Report){}

var rules = map[string]string{}

func register(id, rule string, f func(*kit.Report)) {
	checks[id] = f
	rules[id] = rule
}

var (
	buildMu sync.Mutex
	built   = map[string]*buildOnce{}
)

type buildOnce struct {
	sync.Once
	out string
}

// server binary variants
func bin(rep *kit.Report, variant string) string {
	return once("godis-"+variant, func() string { return build(variant) })
}

// once runs f once per name, different names side by side.
func once(name string, f func() string) string {
	buildMu.Lock()
	b, ok := built[name]
	if !ok {
		b = &buildOnce{}
		built[name] = b
	}
	buildMu.Unlock()
	b.Do(func() { b.out = f() })
	return b.out
}

func build(variant string) string {
	race := variant == "race" || variant == "racedebug"
	tags := ""
	if variant == "debug" || variant == "racedebug" {
		tags = "debug"
	}
	b, err := kit.Build("godis-"+variant, "./cmd/server", race, tags)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		os.Exit(2)
	}
	return b
}

func launch(rep *kit.Report) *kit.Server { return launchAs(rep, "plain") }

var launches int64

// launchAs starts a server; every few of them run with fewer processors or a
// busier garbage collector, for other schedules.
func launchAs(rep *kit.Report, variant string) *kit.Server {
	var env []string
	how := "all processors"
	if variant == "plain" {
		switch atomic.AddInt64(&launches, 1) % 5 {
		case 1:
			how, env = "one processor", []string{"VH_CPUS=1"}
		case 2:
			how, env = "two processors", []string{"VH_CPUS=2"}
		case 3:
			how, env = "GOGC=10", []string{"GOGC=10"}
		}
	}
	s, err := kit.Launch(bin(rep, variant), env...)
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	rep.Count("servers with "+how, 1)
	return s
}

// healthy is asked at the end of every server's life.
func healthy(rep *kit.Report, s *kit.Server) {
	if !s.Alive() {
		rep.Violation(fmt.Sprintf("the server process ended by itself: %v", s.ExitErr()), s.Log(4000))
	}
	if c := s.Crash(); c != "" {
		rep.Violation("the server logged a crash", c)
	}
}

// parallel runs f(0..n-1), at most w at a time.
func parallel(n, w int, f func(i int)) {
	sem := make(chan struct{}, w)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

func main() {
	if len(os.Args) < 3 || kit.Work == "" {
		fmt.Fprintln(os.Stderr, "usage: VH_WORK=dir vh PROPERTY quick|thorough")
		os.Exit(2)
	}
	id, tier := os.Args[1], os.Args[2]
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check", id)
		os.Exit(2)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; kit.KillAll(); os.Exit(2) }()
	defer kit.KillAll()
	rep := kit.NewReport(id, tier, rules[id])
	f(rep)
	rep.Done()
}

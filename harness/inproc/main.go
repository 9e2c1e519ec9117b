// ip runs parts of godis inside this process, watched from inside. It is built
// and started by vh; the result goes to the file named by IP_OUT.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"os"
	"strconv"
	"sync"
)

type result struct {
	mu        sync.Mutex
	Evals     int64
	Sigs      []uint64
	sigs      map[uint64]bool
	Counts    map[string]int64
	Maxes     map[string]int64
	Samples   []string
	Violation string
	Witness   string
}

var res = &result{sigs: map[uint64]bool{}, Counts: map[string]int64{}, Maxes: map[string]int64{}}

var (
	seed  int64
	scale int
)

func eval(nontrivial bool, sig ...string) {
	res.mu.Lock()
	defer res.mu.Unlock()
	res.Evals++
	if nontrivial {
		h := fnv.New64a()
		for _, s := range sig {
			h.Write([]byte(s))
			h.Write([]byte{0})
		}
		if x := h.Sum64(); !res.sigs[x] {
			res.sigs[x] = true
			res.Sigs = append(res.Sigs, x)
		}
	}
}

func count(name string, n int64) {
	res.mu.Lock()
	res.Counts[name] += n
	res.mu.Unlock()
}

func maxOf(name string, n int64) {
	res.mu.Lock()
	if n > res.Maxes[name] {
		res.Maxes[name] = n
	}
	res.mu.Unlock()
}

func sample(f string, a ...interface{}) {
	res.mu.Lock()
	if len(res.Samples) < 10 {
		res.Samples = append(res.Samples, fmt.Sprintf(f, a...))
	}
	res.mu.Unlock()
}

var once sync.Mutex

func violation(witness string, f string, a ...interface{}) {
	once.Lock() // the first one is the verdict
	res.mu.Lock()
	res.Violation, res.Witness = fmt.Sprintf(f, a...), witness
	write()
	os.Exit(0)
}

func write() {
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(os.Getenv("IP_OUT"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "ip:", err)
		os.Exit(2)
	}
}

var modes = map[string]func(){}

func main() {
	mode := os.Args[1]
	seed, _ = strconv.ParseInt(os.Args[2], 10, 64)
	scale, _ = strconv.Atoi(os.Args[3])
	log.SetOutput(os.Stderr)
	if os.Getenv("IP_QUIET") != "" {
		log.SetOutput(devNull{})
	}
	f, ok := modes[mode]
	if !ok {
		fmt.Fprintln(os.Stderr, "no mode", mode)
		os.Exit(2)
	}
	f()
	once.Lock()
	res.mu.Lock()
	write()
}

type devNull struct{}

func (devNull) Write(b []byte) (int, error) { return len(b), nil }

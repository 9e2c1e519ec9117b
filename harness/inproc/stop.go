package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
	"verif/harness/kit"
)

func init() { modes["stop"] = stopMode }

// direct runs one command outside the event pool (nobody else is running).
func direct(args ...string) string {
	c := redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: args})
	rsp := <-c.ExecuteAsync()
	return string(rsp.Encode())
}

func handle(args ...string) (kit.Reply, error) {
	b := event.HandleRequest(&protocol.Receive{Elements: args})
	rd := bufio.NewReader(bytes.NewReader(b))
	r, err := kit.ReadReply(rd)
	if err == nil && rd.Buffered() > 0 {
		err = fmt.Errorf("more than one reply: %q", b)
	}
	return r, err
}

// stopMode races event.Stop with commands being submitted: each one is
// executed and answered or refused, and Stop returns only when all accepted
// ones are done.
func stopMode() {
	for round := 0; round < 150*scale; round++ {
		r := rand.New(rand.NewSource(seed*10000 + int64(round)))
		event.SetGlobalEventPool(event.NewEventPool())
		clients := 1 + r.Intn(24)
		key := func(c int) string { return fmt.Sprintf("r%d.%d", round, c) }
		var wg sync.WaitGroup
		var done, refused atomic.Int64
		acked := make([]int64, clients)
		var stopped atomic.Bool
		gate := make(chan struct{})
		slow := r.Intn(3) == 0
		for c := 0; c < clients; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-gate
				for n := int64(0); ; n++ {
					late := stopped.Load()
					rp, err := handle("INCR", key(c))
					if err != nil {
						violation("", "round %d: INCR around a stop is answered with no proper reply: %v", round, err)
					}
					switch {
					case rp.IsErr():
						refused.Add(1)
						acked[c] = n
						// once refused, always refused
						if rp, err := handle("INCR", key(c)); err != nil || !rp.IsErr() {
							violation("", "round %d: a command submitted after a refused one is answered %v, %v", round, rp, err)
						}
						return
					case late:
						violation("", "round %d: a command submitted after Stop had returned is answered %s", round, rp)
					case rp.Kind != ':' || rp.Int != n+1:
						violation("", "round %d: INCR number %d of a private key is answered %s", round, n+1, rp)
					}
					done.Add(1)
					if slow && n%3 == 0 {
						handle("LRANGE", "big", "0", "-1")
					}
				}
			}(c)
		}
		if round == 0 || slow {
			args := []string{"RPUSH", "big"}
			for i := 0; i < 2000; i++ {
				args = append(args, strconv.Itoa(i))
			}
			direct("DEL", "big")
			direct(args...)
		}
		close(gate)
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		stops := 1 + r.Intn(3)
		var sw sync.WaitGroup
		for i := 0; i < stops; i++ {
			sw.Add(1)
			go func() { defer sw.Done(); event.Stop() }()
		}
		fin := make(chan struct{})
		go func() { sw.Wait(); stopped.Store(true); wg.Wait(); close(fin) }()
		t0 := kit.Ticks()
	wait:
		for {
			select {
			case <-fin:
				break wait
			case <-time.After(50 * time.Millisecond):
				if kit.Ticks()-t0 > 450 {
					violation("", "round %d: event.Stop with %d clients submitting commands: %d answered, %d refused, and somebody is left hanging", round, clients, done.Load(), refused.Load())
				}
			}
		}
		// nothing runs any more: what was acknowledged is what is there
		for c := 0; c < clients; c++ {
			want := fmt.Sprintf("$%d\r\n%d\r\n", len(strconv.FormatInt(acked[c], 10)), acked[c])
			if acked[c] == 0 {
				want = "$-1\r\n"
			}
			if got := direct("GET", key(c)); got != want {
				violation("", "round %d: client %d was acknowledged %d INCR and then refused, the counter reads %q", round, c, acked[c], got)
			}
			direct("DEL", key(c))
		}
		eval(done.Load() > 0, fmt.Sprint(clients, done.Load(), refused.Load()))
		count("in-process stops", 1)
		count("commands answered before a stop", done.Load())
		count("commands refused after a stop", refused.Load())
		if round < 3 {
			sample("round %d: %d clients, %d answered, %d refused", round, clients, done.Load(), refused.Load())
		}
	}
}

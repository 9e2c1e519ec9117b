package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C12", "many clients at full speed (one by one, pipelined, reconnecting, beside clients that break off) on shared keys with unique tokens; offline checkers balance every acknowledgement against what was handed out and what is stored at the end; a case is one token or acknowledgement accounted for, non-trivial always; distinct by kind and token", c12)
}

func c12(rep *kit.Report) {
	bin(rep, "plain")
	n := 3
	parallel(n*rep.Scale, 3, func(i int) {
		s := launch(rep)
		defer s.Kill()
		conserve(rep, s, rep.Seed*1000+int64(i), []int{24, 8, 64}[i%3], []int{500, 1200, 200}[i%3], true)
		healthy(rep, s)
	})
	parallel(2, 2, func(i int) {
		if i == 0 {
			freezeRounds(rep, "plain", rep.Seed+50)
		} else {
			million(rep)
		}
	})
	rep.Require("commands acknowledged by one server", 4800000)
	rep.Require("tokens accounted for", 10000)
	rep.Require("connections broken off", 50)
}

// client of a load: pipelines of random width, reconnects now and then.
type loadClient struct {
	rep *kit.Report
	s   *kit.Server
	k   *kit.Conn
	r   *rand.Rand
}

func (l *loadClient) dial() {
	k, err := kit.Dial(l.s.Addr)
	if err != nil {
		kit.Diagnose(l.rep, l.s, "connect: "+err.Error())
	}
	l.k = k
}

// run sends all commands in some batching and returns all replies.
func (l *loadClient) run(cmds [][]string) []kit.Reply {
	var out []kit.Reply
	for len(cmds) > 0 {
		n := 1
		switch l.r.Intn(3) {
		case 1:
			n = 1 + l.r.Intn(16)
		case 2:
			n = 1 + l.r.Intn(200)
		}
		n = min(n, len(cmds))
		reps, err := l.k.Pipeline(cmds[:n])
		if err != nil {
			at := cmds[min(len(reps), n-1)]
			kit.Diagnose(l.rep, l.s, fmt.Sprintf("under load, waiting for the reply to %s: %v", kit.Fmt(at), err))
		}
		out = append(out, reps...)
		cmds = cmds[n:]
		if l.r.Intn(12) == 0 {
			l.k.Close()
			l.dial()
		}
	}
	return out
}

// breakers connect, send part of something and leave, until stop.
func breakers(rep *kit.Report, s *kit.Server, p string, n int, seed int64, stop *atomic.Bool, wg *sync.WaitGroup) {
	for b := 0; b < n; b++ {
		wg.Add(1)
		go func(b int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*71 + int64(b)))
			for i := 0; !stop.Load(); i++ {
				k, err := kit.Dial(s.Addr)
				if err != nil {
					kit.Diagnose(rep, s, "connect: "+err.Error())
				}
				var by []byte
				for j := 0; j <= r.Intn(20); j++ {
					by = kit.AppendEnc(by, []string{"APPEND", p + "noise" + strconv.Itoa(b), strings.Repeat("x", r.Intn(300))})
					by = kit.AppendEnc(by, []string{"GET", p + "noise" + strconv.Itoa(b)})
				}
				by = by[:r.Intn(len(by)+1)]
				k.Send(by)
				if r.Intn(3) == 0 {
					k.Conn.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
					k.Conn.Read(make([]byte, 1+r.Intn(5000)))
				}
				if r.Intn(2) == 0 {
					k.CloseRST()
				} else {
					k.Close()
				}
				rep.Count("connections broken off", 1)
				if i%40 == 39 {
					if k, err := kit.Dial(s.Addr); err == nil {
						k.Do("DEL", p+"noise"+strconv.Itoa(b))
						k.Close()
					}
				}
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}(b)
	}
}

func conserve(rep *kit.Report, s *kit.Server, seed int64, clients, n int, churn bool) {
	p := fmt.Sprintf("c%d:", seed)
	k := func(x string) string { return p + x }
	viol := func(f string, a ...interface{}) { rep.Violation(fmt.Sprintf(f, a...)) }
	ctl := &loadClient{rep: rep, s: s, r: rand.New(rand.NewSource(seed))}
	ctl.dial()
	do := func(a ...string) kit.Reply {
		r, err := ctl.k.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("waiting for the reply to %s: %v", kit.Fmt(a), err))
		}
		return r
	}
	wantInt := func(r kit.Reply, cmd []string) int64 {
		if r.Kind != ':' {
			viol("%s was answered with %s", kit.Fmt(cmd), r)
		}
		return r.Int
	}

	// members for SMOVE and pops
	const ring = 40
	for i := 0; i < ring; i++ {
		do("SADD", k("ring0"), "m"+strconv.Itoa(i))
	}
	pool := clients * n / 8
	for i := 0; i < pool; {
		a := []string{"SADD", k("pool")}
		z := []string{"ZADD", k("zpool")}
		for j := 0; j < 500 && i < pool; j++ {
			a = append(a, "p"+strconv.Itoa(i))
			z = append(z, strconv.Itoa(i%97), "p"+strconv.Itoa(i))
			i++
		}
		do(a...)
		do(z...)
	}

	var mu sync.Mutex
	uniq := map[string]map[int64]string{}
	sums := map[string]int64{}
	take := func(kind string, reply int64, tok string) {
		if uniq[kind] == nil {
			uniq[kind] = map[int64]string{}
		}
		if o, ok := uniq[kind][reply]; ok {
			viol("%s: the reply %d was given to two commands (%s and %s)", kind, reply, o, tok)
		}
		uniq[kind][reply] = tok
		rep.Eval(true, kind, tok)
	}
	popped := map[string]string{}
	pops := 0
	var wg, churnWG sync.WaitGroup
	var stop atomic.Bool
	if churn {
		breakers(rep, s, p, 6, seed, &stop, &churnWG)
	}

	var prodWG sync.WaitGroup
	perProducer := n / 2
	producers := clients/2 + 1
	total := producers * perProducer
	var consumed atomic.Int64
	got := map[string]int{}
	for w := 0; w < producers; w++ {
		prodWG.Add(1)
		go func(w int) {
			defer prodWG.Done()
			l := &loadClient{rep: rep, s: s, r: rand.New(rand.NewSource(seed*13 + int64(w)))}
			l.dial()
			defer func() { l.k.Close() }()
			var cmds [][]string
			for i := 0; i < perProducer; i++ {
				cmds = append(cmds, []string{"RPUSH", k("queue"), fmt.Sprintf("%d.%d", w, i)})
			}
			for i, r := range l.run(cmds) {
				if wantInt(r, cmds[i]) < 1 {
					viol("%s was answered with %s", kit.Fmt(cmds[i]), r)
				}
			}
		}(w)
	}
	for c := 0; c < clients/3+1; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			l := &loadClient{rep: rep, s: s, r: rand.New(rand.NewSource(seed*17 + int64(c)))}
			l.dial()
			defer func() { l.k.Close() }()
			last := map[int]int{}
			idle := kit.Ticks()
			for consumed.Load() < int64(total) {
				var cmds [][]string
				for i := 0; i <= l.r.Intn(8); i++ {
					if l.r.Intn(2) == 0 {
						cmds = append(cmds, []string{"LPOP", k("queue")})
					} else {
						cmds = append(cmds, []string{"LPOP", k("queue"), strconv.Itoa(1 + l.r.Intn(9))})
					}
				}
				reps := l.run(cmds)
				any := false
				mu.Lock()
				for i, r := range reps {
					var els []kit.Reply
					if r.Kind == '*' {
						els = r.Arr
					} else if r.Kind == '$' && !r.Nil {
						els = []kit.Reply{r}
					} else if r.IsErr() {
						mu.Unlock()
						viol("%s was answered with %s", kit.Fmt(cmds[i]), r)
					}
					for _, e := range els {
						if e.Nil {
							continue
						}
						any = true
						var w, q int
						if n, _ := fmt.Sscanf(e.Str, "%d.%d", &w, &q); n != 2 {
							mu.Unlock()
							viol("LPOP returned %s, nobody pushed that", e)
						}
						got[e.Str]++
						if got[e.Str] > 1 {
							mu.Unlock()
							viol("the queue element %s was handed out twice", e.Str)
						}
						if o, ok := last[w]; ok && o >= q {
							mu.Unlock()
							viol("one consumer received element %d of producer %d after element %d", q, w, o)
						}
						last[w] = q
						consumed.Add(1)
						rep.Eval(true, "queue", e.Str)
						rep.Count("tokens accounted for", 1)
					}
				}
				mu.Unlock()
				if any {
					idle = kit.Ticks()
				} else {
					if kit.Ticks()-idle > 600 {
						viol("%d elements were pushed, consumers received %d and the queue stays empty", total, consumed.Load())
					}
					time.Sleep(200 * time.Microsecond)
				}
			}
		}(c)
	}

	// everything else
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			l := &loadClient{rep: rep, s: s, r: rand.New(rand.NewSource(seed*19 + int64(c)))}
			l.dial()
			defer func() { l.k.Close() }()
			var cmds [][]string
			for i := 0; i < n; i++ {
				tok := fmt.Sprintf("%d.%d", c, i)
				switch l.r.Intn(16) {
				case 0:
					cmds = append(cmds, []string{"INCR", k("n")})
				case 1:
					cmds = append(cmds, []string{[]string{"INCRBY", "DECRBY"}[l.r.Intn(2)], k("mixed"), strconv.Itoa(l.r.Intn(1000))})
				case 2:
					cmds = append(cmds, []string{"HINCRBY", k("h"), "f", "1"})
				case 3:
					cmds = append(cmds, []string{"ZINCR", k("zn"), "1", "m"})
				case 4:
					cmds = append(cmds, []string{"APPEND", k("app"), fmt.Sprintf("<%07d>", c*100000+i)})
				case 5:
					cmds = append(cmds, []string{"RPUSH", k("log"), tok})
				case 6:
					cmds = append(cmds, []string{"SMOVE", k("ring" + strconv.Itoa(l.r.Intn(5))), k("ring" + strconv.Itoa(l.r.Intn(5))), "m" + strconv.Itoa(l.r.Intn(ring))})
				case 7:
					cmds = append(cmds, []string{"SADD", k("seen"), "x" + strconv.Itoa(l.r.Intn(clients*n/10)), tok})
				case 8:
					cmds = append(cmds, []string{"HSETNX", k("won"), "f" + strconv.Itoa(l.r.Intn(clients*n/20)), tok})
				case 9:
					cmds = append(cmds, []string{"SPOP", k("pool"), strconv.Itoa(1 + l.r.Intn(3))})
				case 10:
					cmds = append(cmds, []string{[]string{"ZPOPMIN", "ZPOPMAX"}[l.r.Intn(2)], k("zpool"), strconv.Itoa(1 + l.r.Intn(3))})
				case 11:
					cmds = append(cmds, []string{"SET", k("one:" + tok), tok})
				case 12:
					cmds = append(cmds, []string{"HSET", k("hash"), "x" + strconv.Itoa(l.r.Intn(clients*n/10)), tok})
				case 13:
					cmds = append(cmds, []string{"ZADD", k("zset"), strconv.Itoa(l.r.Intn(50)), "x" + strconv.Itoa(l.r.Intn(clients*n/10)), strconv.Itoa(i), tok})
				case 14:
					cmds = append(cmds, []string{"SREM", k("seen"), "x" + strconv.Itoa(l.r.Intn(clients*n/10))})
				case 15:
					cmds = append(cmds, []string{"LPUSH", k("both"), tok})
				}
			}
			reps := l.run(cmds)
			mu.Lock()
			defer mu.Unlock()
			for i, r := range reps {
				a := cmds[i]
				if r.IsErr() && a[0] != "SMOVE" { // which says so when the source lacks the member
					viol("%s was answered with %s", kit.Fmt(a), r)
				}
				rep.Count("tokens accounted for", 1)
				switch kind := strings.TrimPrefix(a[1], p); kind {
				case "n", "h", "log", "both", "app":
					take(kind, wantInt(r, a), a[len(a)-1])
				case "zn":
					f, err := strconv.ParseFloat(r.Str, 64)
					if r.Kind == ':' {
						f, err = float64(r.Int), nil
					}
					if err != nil {
						viol("%s was answered with %s", kit.Fmt(a), r)
					}
					take(kind, int64(f), a[3])
				case "mixed":
					d, _ := strconv.ParseInt(a[2], 10, 64)
					if a[0] == "DECRBY" {
						d = -d
					}
					sums[kind] += d
				case "seen":
					if a[0] == "SREM" {
						sums[kind] -= wantInt(r, a)
					} else {
						sums[kind] += wantInt(r, a)
					}
				case "won":
					if wantInt(r, a) == 1 {
						if o, ok := popped["won "+a[2]]; ok {
							viol("HSETNX of field %s succeeded twice (%s and %s)", a[2], o, a[3])
						}
						popped["won "+a[2]] = a[3]
					}
				case "pool":
					for _, e := range r.Arr {
						if _, ok := popped["s"+e.Str]; ok {
							viol("SPOP handed out %s twice", e)
						}
						popped["s"+e.Str] = ""
						pops++
					}
				case "zpool":
					for j := 0; j+1 < len(r.Arr); j += 2 {
						if _, ok := popped["z"+r.Arr[j].Str]; ok {
							viol("ZPOPMIN/ZPOPMAX handed out %s twice", r.Arr[j])
						}
						popped["z"+r.Arr[j].Str] = ""
					}
				case "hash":
					popped["hash "+a[2]] = ""
				case "zset":
					popped["zset "+a[3]], popped["zset "+a[5]] = "", ""
				default:
					if strings.HasPrefix(kind, "one:") {
						popped[kind] = a[2]
					}
				}
				rep.Eval(true, a...)
			}
		}(c)
	}
	wg.Wait()
	prodWG.Wait()
	stop.Store(true)
	churnWG.Wait()

	// the balance
	for kind, m := range uniq {
		switch kind {
		case "app":
			r := do("GET", k("app"))
			if len(r.Str) != 9*len(m) {
				viol("%d APPENDs of 9 bytes were acknowledged, the value has %d bytes", len(m), len(r.Str))
			}
			for ln, tok := range m {
				if ln < 9 || int(ln) > len(r.Str) || r.Str[ln-9:ln] != tok {
					viol("APPEND of %s replied length %d, the value does not hold it there", tok, ln)
				}
			}
		case "log", "both":
			r := do("LRANGE", k(kind), "0", "-1")
			if len(r.Arr) != len(m) {
				viol("%d pushes were acknowledged, the list has %d elements", len(m), len(r.Arr))
			}
			for i, e := range r.Arr {
				at := int64(i + 1)
				if kind == "both" {
					at = int64(len(r.Arr) - i)
				}
				if m[at] != e.Str {
					viol("the push that replied length %d was of %q, the list holds %s there", at, m[at], e)
				}
			}
		default:
			for i := int64(1); i <= int64(len(m)); i++ {
				if _, ok := m[i]; !ok {
					viol("%d increments by 1 were acknowledged and nobody was told %d", len(m), i)
				}
			}
			var r kit.Reply
			switch kind {
			case "n":
				r = do("GET", k("n"))
			case "h":
				r = do("HGET", k("h"), "f")
			case "zn":
				r = do("ZSCORE", k("zn"), "m")
			}
			if r.Str != strconv.Itoa(len(m)) {
				viol("%d increments by 1 were acknowledged on %s, the counter is %s", len(m), kind, r)
			}
		}
	}
	if _, ok := sums["mixed"]; ok {
		if r := do("GET", k("mixed")); r.Str != strconv.FormatInt(sums["mixed"], 10) {
			viol("the acknowledged INCRBY and DECRBY sum up to %d, the counter is %s", sums["mixed"], r)
		}
	}
	if r := do("SCARD", k("seen")); r.Int != sums["seen"] {
		viol("SADD and SREM acknowledged %d members in all, SCARD is %s", sums["seen"], r)
	}
	if r := do("SMEMBERS", k("seen")); int64(len(r.Arr)) != sums["seen"] {
		viol("SADD and SREM acknowledged %d members in all, SMEMBERS lists %d", sums["seen"], len(r.Arr))
	}
	// ring
	where := map[string]int{}
	for i := 0; i < 5; i++ {
		r := do("SMEMBERS", k("ring"+strconv.Itoa(i)))
		for _, e := range r.Arr {
			where[e.Str]++
		}
	}
	if len(where) != ring {
		viol("%d members were moved around with SMOVE, %d are left", ring, len(where))
	}
	for m, c := range where {
		if c != 1 {
			viol("member %s moved around with SMOVE is now in %d sets", m, c)
		}
	}
	// pools
	left := do("SMEMBERS", k("pool"))
	for _, e := range left.Arr {
		if _, ok := popped["s"+e.Str]; ok {
			viol("SPOP handed out %s and it is still in the set", e)
		}
		popped["s"+e.Str] = ""
	}
	zleft := do("ZRANGE", k("zpool"), "0", "-1")
	for _, e := range zleft.Arr {
		if _, ok := popped["z"+e.Str]; ok {
			viol("ZPOPMIN/ZPOPMAX handed out %s and it is still there", e)
		}
		popped["z"+e.Str] = ""
	}
	count := map[string]int64{}
	for x, v := range popped {
		switch {
		case strings.HasPrefix(x, "won "):
			count["won"]++
			if r := do("HGET", k("won"), x[4:]); r.Str != v {
				viol("HSETNX %s was won by %s, the field holds %s", x[4:], v, r)
			}
		case strings.HasPrefix(x, "one:"):
			count["one"]++
			if r := do("GET", k(x)); r.Str != v {
				viol("SET %s was acknowledged, GET answers %s", x, r)
			}
		case strings.HasPrefix(x, "sp"):
			count["s"]++
		case strings.HasPrefix(x, "zp"):
			count["z"]++
		case strings.HasPrefix(x, "hash "):
			count["hash"]++
		case strings.HasPrefix(x, "zset "):
			count["zset"]++
		}
	}
	if count["s"] != int64(pool) || count["z"] != int64(pool) {
		viol("of %d members in each pool, %d (set) and %d (sorted set) were popped or left", pool, count["s"], count["z"])
	}
	for _, x := range [][3]string{{"HLEN", "won", "won"}, {"HLEN", "hash", "hash"}, {"ZCARD", "zset", "zset"}} {
		if r := do(x[0], k(x[1])); r.Int != count[x[2]] {
			viol("%d distinct elements were acknowledged on %s, %s says %s", count[x[2]], x[1], x[0], r)
		}
	}
	if r := do("KEYS", k("one:*")); int64(len(r.Arr)) != count["one"] {
		viol("%d SETs of distinct keys were acknowledged, KEYS lists %d", count["one"], len(r.Arr))
	}
	if r := do("LLEN", k("queue")); r.Int != 0 {
		viol("all elements were popped, the queue still has %s", r)
	}
	ctl.k.Close()
	rep.Count("clients", int64(clients+producers+clients/3+1))
	rep.Sample("%d increments, %d pushes, %d queue elements, %d pool pops all balanced", len(uniq["n"]), len(uniq["log"]), total, pops)
}

// million has one server execute more commands than 22 bits count (24 in the
// thorough tier), each of which must have its own effect and its own reply.
func million(rep *kit.Report) {
	s, err := kit.Launch(bin(rep, "plain"))
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	defer s.Kill()
	const clients, width = 8, 500
	rounds := 1200
	if rep.Tier == "thorough" {
		rounds = 4300
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := make([]uint64, (clients*rounds*width)/64+2) // replies to INCR
	for w := 0; w < clients; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			defer k.Close()
			own := "own" + strconv.Itoa(w)
			var cmds [][]string
			for j := 0; j < width; j++ {
				cmds = append(cmds, [][]string{{"INCR", "all"}, {"INCR", own}}[j%2])
			}
			for i := 0; i < rounds; i++ {
				reps, err := k.Pipeline(cmds)
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("in a run of a million commands, waiting for the reply to an INCR: %v", err))
				}
				mu.Lock()
				for j, rp := range reps {
					if j%2 == 1 {
						if want := int64(i*width/2 + j/2 + 1); rp.Kind != ':' || rp.Int != want {
							rep.Violation(fmt.Sprintf("INCR number %d of a counter only one client uses was answered %s", want, rp))
						}
						continue
					}
					n := rp.Int
					if rp.Kind != ':' || n < 1 || n > int64(clients*rounds*width/2) {
						rep.Violation(fmt.Sprintf("INCR of a counter of %d clients was answered %s", clients, rp))
					}
					if seen[n/64]>>(n%64)&1 == 1 {
						rep.Violation(fmt.Sprintf("two INCR were both answered %d", n))
					}
					seen[n/64] |= 1 << (n % 64)
				}
				mu.Unlock()
				rep.Eval(true, "million", strconv.Itoa(w), strconv.Itoa(i))
			}
		}(w)
	}
	wg.Wait()
	k, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	defer k.Close()
	want := strconv.Itoa(clients * rounds * width / 2)
	if rp, err := k.Do("GET", "all"); err != nil || rp.Str != want {
		rep.Violation(fmt.Sprintf("after %s acknowledged increments the counter is %s, %v", want, rp, err))
	}
	rep.Max("commands acknowledged by one server", int64(clients*rounds*width))
	healthy(rep, s)
}

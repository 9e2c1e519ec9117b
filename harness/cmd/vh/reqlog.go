package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C25", "the standard output of real servers read back and split by an independent parser beside the bytes that were sent: judged histories on one connection (all of it, byte for byte, and replayed into a second server), many clients at once through files and slow pipes, half requests, clients that leave, SIGKILL at random moments; a case is one logged request matched with the one sent, distinct by its bytes", c25)
}

func c25(rep *kit.Report) {
	bin(rep, "plain")
	n := 4 * rep.Scale
	parallel(4*n+1, 8, func(i int) {
		if i--; i < 0 {
			logBig(rep, rep.Seed*5009)
			return
		}
		switch seed := rep.Seed*5003 + int64(i); i % 4 {
		case 0:
			logOne(rep, seed)
		case 1:
			logMany(rep, seed)
		case 2:
			logKilled(rep, seed)
		case 3:
			logForms(rep, seed)
		}
	})
	rep.Require("requests logged by one connection", 8000)
	rep.Require("requests logged by many connections", 20000)
	rep.Require("requests acknowledged before a kill", 2000)
	rep.Require("requests in odd forms logged", 300)
	rep.Require("replies whose request was already logged", 1000)
	rep.Require("logs replayed", 4)
	rep.Require("bytes of requests of megabytes logged", 60<<20)
	rep.Require("requests cut off or malformed", 60)
}

// reqEnd gives the length of the request at the start of b: 0 when it is cut,
// -1 when it is none.
func reqEnd(b []byte) int {
	line := func(at int) (int, string) {
		i := bytes.Index(b[at:], []byte("\r\n"))
		if i < 0 {
			return 0, ""
		}
		return at + i + 2, string(b[at : at+i])
	}
	at := 0
	for todo := 1; todo > 0; todo-- {
		if at >= len(b) {
			return 0
		}
		end, l := line(at)
		if end == 0 {
			return 0
		}
		at = end
		if l == "PING" {
			continue
		}
		if l == "" {
			return -1
		}
		switch l[0] {
		case '+', '-', ':':
		case '$', '*':
			n, err := strconv.Atoi(l[1:])
			if err != nil || n < 0 {
				return -1
			}
			if l[0] == '*' {
				todo += n
				break
			}
			if at+n+2 > len(b) {
				return 0
			}
			at += n + 2
			if string(b[at-2:at]) != "\r\n" {
				return -1
			}
		default:
			return -1
		}
	}
	return at
}

// splitLog gives the requests of a log; each is followed by a line end. The
// rest is what comes after the last whole one.
func splitLog(b []byte) (reqs []string, rest []byte) {
	for len(b) > 0 {
		n := reqEnd(b)
		if n <= 0 || n >= len(b) || b[n] != '\n' {
			break
		}
		reqs = append(reqs, string(b[:n]))
		b = b[n+1:]
	}
	return reqs, b
}

// logged is a server whose standard output is kept.
type logged struct {
	*kit.Server
	rep  *kit.Report
	file string
	pipe chan struct{} // closed when the copying from the pipe has ended
	from int           // bytes that were there before
}

var logSeq atomic.Int64

func launchLogged(rep *kit.Report, r *rand.Rand, slow bool) *logged {
	l := &logged{rep: rep, file: filepath.Join(kit.Work, fmt.Sprintf("stdout.%d", logSeq.Add(1)))}
	out := l.file
	if slow {
		out = l.file + ".fifo"
		if err := syscall.Mkfifo(out, 0o600); err != nil {
			rep.Inconclusive("mkfifo: %v", err)
		}
		l.pipe = make(chan struct{})
		go func() {
			defer close(l.pipe)
			in, err := os.OpenFile(out, os.O_RDONLY, 0)
			if err != nil {
				return
			}
			defer in.Close()
			f, err := os.Create(l.file)
			if err != nil {
				return
			}
			defer f.Close()
			b := make([]byte, 700)
			for {
				n, err := in.Read(b)
				f.Write(b[:n])
				if err != nil {
					return
				}
			}
		}()
	}
	env := []string{"VH_STDOUT=" + out}
	if r.Intn(3) == 0 {
		env = append(env, "VH_CPUS="+it(1+r.Intn(2)))
	}
	s, err := kit.Launch(bin(rep, "plain"), env...)
	if err != nil {
		rep.Violation("the server does not start and answer a PING: " + err.Error())
	}
	l.Server = s
	if !slow {
		l.from = l.size() // the PING of the launch
	}
	return l
}

func (l *logged) size() int {
	fi, err := os.Stat(l.file)
	if err != nil {
		l.rep.Inconclusive("standard output: %v", err)
	}
	return int(fi.Size())
}

// read gives the log since the launch.
func (l *logged) read() []byte {
	if l.pipe != nil {
		l.Kill() // the end of the pipe
		select {
		case <-l.pipe:
		case <-time.After(30 * time.Second):
			l.rep.Inconclusive("the pipe does not end")
		}
	}
	b, err := os.ReadFile(l.file)
	if err != nil {
		l.rep.Inconclusive("standard output: %v", err)
	}
	return b[l.from:]
}

func near(b []byte, at int) string {
	return fmt.Sprintf("%q", b[max(0, at-150):min(len(b), at+250)])
}

const noSpop = "set:3 get mset mget append incr incrby:2 decr lpush:3 rpush:3 lpop rpop lrem lset linsert llen hset:3 hmset hincrby:2 hdel hgetall hincrbyfloat sadd:3 srem smove sdiffstore sinterstore sunionstore smembers zadd:3 zincr zrem zrange zpopmin zpopmax zrangebyscore zrank del type exists keys ping"

// logBig: requests of megabytes, one string or very many, whole in the log
// before the reply.
func logBig(rep *kit.Report, seed int64) {
	r := rand.New(rand.NewSource(seed))
	l := launchLogged(rep, r, false)
	defer l.Kill()
	defer os.Remove(l.file)
	k, err := kit.Dial(l.Addr)
	if err != nil {
		kit.Diagnose(rep, l.Server, "connect: "+err.Error())
	}
	defer k.Close()
	at := l.size()
	text := func(n int) string {
		b := make([]byte, n)
		r.Read(b)
		return string(b)
	}
	var reqs [][]string
	for _, mb := range []float64{1, 1, 2, 4, 4, 8, 8, 16, 32} {
		// around the powers of two as well as between
		n := int(mb*(1<<20)) + r.Intn(101) - 50
		if r.Intn(2) == 0 {
			n += r.Intn(n)
		}
		reqs = append(reqs, []string{"SET", "big", text(n)}, []string{"SET", text(n / 8), "v"})
	}
	for _, n := range []int{70000, 300000} {
		c := []string{"DEL"}
		for i := 0; i < n; i++ {
			c = append(c, strconv.Itoa(r.Intn(1<<30)))
		}
		reqs = append(reqs, c)
	}
	r.Shuffle(len(reqs), func(a, b int) { reqs[a], reqs[b] = reqs[b], reqs[a] })
	f, err := os.Open(l.file)
	if err != nil {
		rep.Inconclusive("standard output: %v", err)
	}
	defer f.Close()
	for _, c := range reqs {
		for _, c := range [][]string{c, {"DEL", c[1]}} {
			req := kit.Enc(c...)
			if err := k.Send(req); err != nil {
				kit.Diagnose(rep, l.Server, fmt.Sprintf("%s: %v", kit.Fmt(c), err))
			}
			if _, err := k.Reply(); err != nil {
				kit.Diagnose(rep, l.Server, fmt.Sprintf("%s: %v", kit.Fmt(c), err))
			}
			got := make([]byte, l.size()-at)
			if _, err := f.ReadAt(got, int64(at)); err != nil {
				rep.Inconclusive("standard output: %v", err)
			}
			want := append(req, '\n')
			if !bytes.Equal(got, want) {
				i := 0
				for i < min(len(got), len(want)) && got[i] == want[i] {
					i++
				}
				rep.Violation(fmt.Sprintf("a request of %d bytes, %s: the log has %d bytes for it where it should have %d; they differ from byte %d on", len(req), kit.Fmt(c), len(got), len(want), i), "log: "+near(got, i), "sent: "+near(want, i))
			}
			at += len(got)
			rep.Eval(true, "big", strconv.Itoa(len(req)), c[0])
			if len(req) > 1<<17 {
				rep.Count("bytes of requests of megabytes logged", int64(len(req)))
			}
		}
	}
	healthy(rep, l.Server)
}

// logOne: the log of one client is what it sent, byte for byte, and rebuilds
// its data.
func logOne(rep *kit.Report, seed int64) {
	r := rand.New(rand.NewSource(seed))
	l := launchLogged(rep, r, false)
	defer l.Kill()
	defer os.Remove(l.file)
	ss := kit.NewSession(rep, l.Server, fmt.Sprintf("log seed%d", seed), seed)
	ss.NoCount = true
	var sent []byte
	if seed%2 == 0 {
		// byte by byte or in odd pieces: the record is of the request, not of the reads
		ss.SendBy = func(c *kit.Conn, b []byte) error {
			sent = append(sent, b...)
			for len(b) > 0 {
				n := 1 + r.Intn(400)
				if n > len(b) {
					n = len(b)
				}
				if err := c.Send(b[:n]); err != nil {
					return err
				}
				b = b[n:]
			}
			return nil
		}
	} else {
		ss.SendBy = func(c *kit.Conn, b []byte) error {
			sent = append(sent, b...)
			return c.Send(b)
		}
	}
	g := kit.NewGen(seed*31+7, ss.M)
	mix := kit.NewMix(noSpop)
	p := phase{keys: 12, uni: 10, maxArg: 8, bad: .08, wrong: .05}
	g.Uni, g.MaxArg, g.Bad, g.Wrong = p.uni, p.maxArg, p.bad, p.wrong
	g.SetKeys("k:", p.keys)
	want, counted := 0, 0
	for i := 0; i < 120; i++ {
		var cs [][]string
		for j := r.Intn(30); j >= 0; j-- {
			cs = append(cs, g.Cmd(mix.Pick(g.Rand)))
			if r.Intn(6) == 0 {
				// the very same request over again is a request too
				c := cs[len(cs)-1]
				if r.Intn(2) == 0 {
					c = []string{"APPEND", "k:1", strings.Repeat("a", r.Intn(1<<uint(r.Intn(13))))}
				}
				for n := 1 + r.Intn(4); n >= 0; n-- {
					cs = append(cs, c)
				}
			}
		}
		if r.Intn(5) == 0 {
			cs = append(cs, []string{"SET", "k:0", strings.Repeat("v\r\n", r.Intn(30000))}, []string{"nosuch", "command"}, []string{"get"})
		}
		ss.Run(cs...)
		// answered: already in the log
		for {
			n := reqEnd(sent[counted:])
			if n <= 0 {
				break
			}
			counted += n
			want++
		}
		if got := l.size() - l.from; got < len(sent)+want {
			rep.Violation(fmt.Sprintf("seed %d: all of %d requests (%d bytes) are answered, the log has %d bytes instead of %d", seed, want, len(sent), got, len(sent)+want), near(l.read(), got))
		}
		rep.Count("replies whose request was already logged", int64(len(cs)))
	}
	got := l.read()
	at := 0
	for b, n := sent, 0; len(b) > 0; b = b[n:] {
		n = reqEnd(b)
		want := string(b[:n]) + "\n"
		if len(got)-at < len(want) || string(got[at:at+len(want)]) != want {
			rep.Violation(fmt.Sprintf("seed %d: the log does not have the request %s where it belongs (byte %d)", seed, kit.Short(want), at), "log there: "+near(got, at))
		}
		at += len(want)
		rep.Eval(true, want)
		rep.Count("requests logged by one connection", 1)
	}
	if at != len(got) {
		rep.Violation(fmt.Sprintf("seed %d: behind the last request the log goes on: %s", seed, near(got, at)))
	}
	healthy(rep, l.Server)

	// the same requests on an empty server
	s2 := launch(rep)
	defer s2.Kill()
	reqs, _ := splitLog(got)
	k, err := kit.Dial(s2.Addr)
	if err != nil {
		kit.Diagnose(rep, s2, "connect: "+err.Error())
	}
	defer k.Close()
	for len(reqs) > 0 {
		n := min(50, len(reqs))
		werr := make(chan error, 1)
		go func() { werr <- k.Send([]byte(strings.Join(reqs[:n], ""))) }()
		for i := 0; i < n; i++ {
			if _, err := k.Reply(); err != nil {
				kit.Diagnose(rep, s2, fmt.Sprintf("replaying the log, %s: %v", kit.Short(reqs[i]), err))
			}
		}
		if err := <-werr; err != nil {
			kit.Diagnose(rep, s2, fmt.Sprintf("replaying the log: %v", err))
		}
		reqs = reqs[n:]
	}
	s3 := kit.NewSession(rep, s2, fmt.Sprintf("replayed log seed%d", seed), seed)
	s3.M = ss.M
	s3.NoCount = true
	s3.Audit(g.Keys, 20)
	healthy(rep, s2)
	rep.Count("logs replayed", 1)
}

// logMany: many clients at once; the log is a shuffle of what they sent.
func logMany(rep *kit.Report, seed int64) {
	r := rand.New(rand.NewSource(seed))
	l := launchLogged(rep, r, seed/4%2 == 0)
	defer l.Kill()
	defer os.Remove(l.file)
	const clients = 20
	sent := make([][]string, clients)
	maybe := make([][]string, clients) // the client did not wait for the reply
	never := make([][]string, clients) // was never a whole request
	var wg sync.WaitGroup
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*100 + int64(c)))
			k, err := kit.Dial(l.Addr)
			if err != nil {
				kit.Diagnose(rep, l.Server, "connect: "+err.Error())
			}
			defer func() { k.Close() }()
			for i := 0; i < 60; i++ {
				var b []byte
				n := 1 + r.Intn(20)
				for j := 0; j < n; j++ {
					tok := fmt.Sprintf("<%d.%d.%d>", c, i, j)
					size := r.Intn(40)
					if r.Intn(60) == 0 {
						size = 3000 + r.Intn(90000)
					}
					junk := make([]byte, size)
					r.Read(junk)
					a := [][]string{{"SET", tok, string(junk)}, {"GET", tok}, {"RPUSH", "l" + it(c), tok, string(junk)}, {"nosuch", tok, string(junk)}, {"EXISTS", tok, "\r\n\n"}, {"DEL", "l" + it(c), tok}}[r.Intn(6)]
					sent[c] = append(sent[c], string(kit.Enc(a...)))
					b = kit.AppendEnc(b, a)
					for r.Intn(8) == 0 && j < n-1 {
						// the very same once more
						j++
						sent[c] = append(sent[c], string(kit.Enc(a...)))
						b = kit.AppendEnc(b, a)
					}
				}
				werr := make(chan error, 1)
				go func() { werr <- k.Send(b) }()
				for j := 0; j < n; j++ {
					if _, err := k.Reply(); err != nil {
						kit.Diagnose(rep, l.Server, fmt.Sprintf("client %d, batch %d, reply %d: %v", c, i, j, err))
					}
				}
				if err := <-werr; err != nil {
					kit.Diagnose(rep, l.Server, fmt.Sprintf("client %d: %v", c, err))
				}
				if r.Intn(12) == 0 {
					// leave: after a half request, a malformed one, or whole ones without waiting
					tok := fmt.Sprintf("<%d.%d.left>", c, i)
					whole := string(kit.Enc("SET", tok, strings.Repeat("x", r.Intn(300))))
					switch r.Intn(3) {
					case 0:
						never[c] = append(never[c], tok)
						k.Send([]byte(whole[:len(whole)-1-r.Intn(len(whole)-1)]))
					case 1:
						never[c] = append(never[c], tok)
						k.Send([]byte(strings.Replace(whole, "SET\r\n", "SETx\r", 1)))
					case 2:
						maybe[c] = append(maybe[c], whole)
						k.Send([]byte(whole))
					}
					if r.Intn(2) == 0 {
						k.CloseRST()
					} else {
						k.Close()
					}
					rep.Count("requests cut off or malformed", 1)
					if k, err = kit.Dial(l.Addr); err != nil {
						kit.Diagnose(rep, l.Server, "connect: "+err.Error())
					}
				}
			}
		}(c)
	}
	wg.Wait()
	healthy(rep, l.Server)
	// requests nobody waited for may still be under way
	for old, same := -1, 0; same < 10; same++ {
		time.Sleep(20 * time.Millisecond)
		if n := l.size(); n != old {
			old, same = n, 0
		}
	}
	got := l.read()
	judgeShuffle(rep, l, fmt.Sprintf("seed %d", seed), got, sent, maybe, never, true)
}

// judgeShuffle: the log is a shuffle of the requests each connection had
// answered, in its order, with some of those nobody waited for in between.
func judgeShuffle(rep *kit.Report, l *logged, name string, got []byte, sent, maybe, never [][]string, whole bool) {
	reqs, rest := splitLog(got)
	if whole && len(rest) > 0 {
		rep.Violation(fmt.Sprintf("%s: after %d requests the log is no sequence of requests that were sent", name, len(reqs)), near(got, len(got)-len(rest)))
	}
	owner := map[string]int{}
	for c := range sent {
		for _, q := range sent[c] {
			owner[q] = c
		}
	}
	opt := map[string]int{}
	for c := range maybe {
		for _, q := range maybe[c] {
			opt[q]++
		}
	}
	ping := string(kit.Enc("PING"))
	at := make([]int, len(sent))
	pos := 0
	for i, q := range reqs {
		c, ok := owner[q]
		switch {
		case ok && at[c] < len(sent[c]) && sent[c][at[c]] == q:
			at[c]++
			rep.Eval(true, q)
			rep.Count("requests logged by many connections", 1)
		case opt[q] > 0:
			opt[q]--
		case q == ping && i == 0: // of the launch
		case ok:
			want := "nothing more"
			if at[c] < len(sent[c]) {
				want = kit.Short(sent[c][at[c]])
			}
			rep.Violation(fmt.Sprintf("%s: entry %d of the log is %s; the next of its connection is %s", name, i, kit.Short(q), want), near(got, pos))
		default:
			rep.Violation(fmt.Sprintf("%s: entry %d of the log, %s, was never sent as a request", name, i, kit.Short(q)), near(got, pos))
		}
		pos += len(q) + 1
	}
	for c := range sent {
		if at[c] < len(sent[c]) {
			rep.Violation(fmt.Sprintf("%s: %d of %d answered requests of connection %d are in the log; missing: %s", name, at[c], len(sent[c]), c, kit.Short(sent[c][at[c]])), near(got, len(got)))
		}
		for _, t := range never[c] {
			if bytes.Contains(got, []byte(t)) {
				rep.Violation(fmt.Sprintf("%s: what never became a request is in the log: %s", name, t), near(got, bytes.Index(got, []byte(t))))
			}
		}
	}
}

// logKilled: whatever was answered before a SIGKILL is in the log.
func logKilled(rep *kit.Report, seed int64) {
	r := rand.New(rand.NewSource(seed))
	l := launchLogged(rep, r, false)
	defer l.Kill()
	defer os.Remove(l.file)
	const clients = 8
	sent := make([][]string, clients)
	maybe := make([][]string, clients)
	var wg sync.WaitGroup
	var acks atomic.Int64
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			k, err := kit.Dial(l.Addr)
			if err != nil {
				return // killed already
			}
			defer k.Close()
			for i := 0; ; i++ {
				var qs []string
				n := 1 + i%7
				for j := 0; j < n; j++ {
					qs = append(qs, string(kit.Enc("RPUSH", "q"+it(c), fmt.Sprintf("<%d.%d.%d>", c, i, j), strings.Repeat("y", i%50*10))))
				}
				err := k.Send([]byte(strings.Join(qs, "")))
				for j := range qs {
					if err == nil {
						_, err = k.Reply()
					}
					if err != nil {
						maybe[c] = append(maybe[c], qs[j:]...)
						return
					}
					sent[c] = append(sent[c], qs[j])
					acks.Add(1)
				}
			}
		}(c)
	}
	want := int64(500 + r.Intn(6000))
	for t := kit.Ticks(); acks.Load() < want && kit.Ticks()-t < 600; {
		time.Sleep(200 * time.Microsecond)
	}
	if !l.Alive() {
		rep.Violation(fmt.Sprintf("seed %d: the server ended by itself: %v", seed, l.ExitErr()), l.Log(4000))
	}
	l.Kill()
	wg.Wait()
	got := l.read()
	// unanswered ones of a connection come behind its answered ones
	judgeShuffle(rep, l, fmt.Sprintf("killed, seed %d", seed), got, sent, maybe, make([][]string, clients), false)
	_, rest := splitLog(got)
	if len(rest) > 0 {
		cut := false
		for _, m := range maybe {
			for _, q := range m {
				if strings.HasPrefix(q+"\n", string(rest)) {
					cut = true
				}
			}
		}
		if !cut {
			rep.Violation(fmt.Sprintf("killed, seed %d: the log ends with what is no start of a request", seed), near(got, len(got)-len(rest)))
		}
	}
	rep.Count("requests acknowledged before a kill", acks.Load())
	rep.Count("kills", 1)
}

// logForms: requests in every form the decoder knows.
func logForms(rep *kit.Report, seed int64) {
	r := rand.New(rand.NewSource(seed))
	l := launchLogged(rep, r, false)
	defer l.Kill()
	defer os.Remove(l.file)
	k, err := kit.Dial(l.Addr)
	if err != nil {
		kit.Diagnose(rep, l.Server, "connect: "+err.Error())
	}
	defer k.Close()
	forms := []string{
		"PING\r\n", "+PING\r\n", "$4\r\nPING\r\n", "*1\r\n$4\r\nPING\r\n", "*1\r\n+PING\r\n", "*2\r\n+GET\r\n$1\r\na\r\n",
		"*3\r\n$3\r\nSET\r\n+a\r\n:12\r\n", "*2\r\n$4\r\nINCR\r\n+a\r\n", "$0\r\n\r\n", "+nosuch\r\n", "*1\r\n$0\r\n\r\n", "-ERR what\r\n", ":7\r\n",
		"*2\r\n$4\r\nKEYS\r\n$1\r\n*\r\n", "*2\r\n*1\r\n$3\r\nGET\r\n$1\r\na\r\n", "*1\r\n*2\r\n$3\r\nGET\r\n$1\r\na\r\n", "*2\r\n$3\r\nGET\r\n$2\r\n\r\n\r\n",
		"*3\r\n$3\r\nset\r\n$2\r\nkk\r\n$10\r\n*1\r\n$4\r\nPI\r\n",
	}
	var want []byte
	for i := 0; i < 150; i++ {
		f := forms[r.Intn(len(forms))]
		if err := k.Send([]byte(f)); err != nil {
			kit.Diagnose(rep, l.Server, fmt.Sprintf("%q: %v", f, err))
		}
		if _, err := k.Reply(); err != nil {
			kit.Diagnose(rep, l.Server, fmt.Sprintf("%q: %v", f, err))
		}
		want = append(append(want, f...), '\n')
		got := l.read()
		if !bytes.Equal(got, want) {
			rep.Violation(fmt.Sprintf("after the request %q the log does not end with it and a line end", f), "log: "+near(got, len(got)), "sent: "+near(want, len(want)))
		}
		rep.Eval(true, f)
		rep.Count("requests in odd forms logged", 1)
	}
	healthy(rep, l.Server)
}

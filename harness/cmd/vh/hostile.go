package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/kit"
)

func init() {
	register("C16", "random, mutated, truncated and hand-made hostile byte streams and well-formed commands with hostile arguments, each followed by a check that the process lives and serves; witness connections run model-checked commands all the while, and canary data is compared before and after; a case is one hostile stream survived or one judged reply of a witness; non-trivial when it carried bytes; distinct by the bytes", c16)
	register("C17", "every command with every count of arguments from pools of good and hostile ones against keys of every type, and long random histories, each request followed by a PING: exactly one strict RESP reply of the command's kind must come before the PONG; a case is one judged reply, non-trivial when it is neither an error, nil, empty nor 0; distinct by request and reply", c17)
}

func c16(rep *kit.Report) {
	bin(rep, "plain")
	parts := []func(){func() { hostile(rep, "plain", rep.Seed, rep.Scale) }, func() { lasting(rep) }, func() { weighty(rep) }}
	parallel(len(parts), len(parts), func(i int) { parts[i]() })
	rep.Require("hostile streams", 2000)
	rep.Require("truncated or malformed writes on canary data", 500)
	rep.Require("witness commands during attacks", 2000)
}

// swallow reads whatever the server answers until it closes or goes quiet.
func swallow(k *kit.Conn, d time.Duration) []byte {
	k.Conn.SetReadDeadline(time.Now().Add(d))
	b, _ := io.ReadAll(io.LimitReader(k.Conn, 64<<20))
	return b
}

// frames are hand-made nasties.
func frames() []string {
	out := []string{
		"", "\r\n", "\n", "\x00", "*", "*\r\n", "*-1\r\n", "*-2\r\n", "*0\r\n", "*00\r\n", "*1\r\n", "*+1\r\n$4\r\nPING\r\n", "* 1\r\n$4\r\nPING\r\n", "*1 \r\n$4\r\nPING\r\n",
		"*01\r\n$04\r\nPING\r\n", "*1\n$4\nPING\n", "*1\r$4\rPING\r", "*a\r\n", "*1.5\r\n", "*1e1\r\n", "*0x1\r\n", "*9223372036854775807\r\n", "*9223372036854775808\r\n", "*-9223372036854775808\r\n", "*99999999999999999999999999\r\n", "*2147483647\r\n", "*4294967296\r\n", "*1000000000\r\n", "*1048577\r\n",
		"*1\r\n$-1\r\n", "*1\r\n$-2\r\n", "*1\r\n$-2147483648\r\n", "*1\r\n$-9223372036854775808\r\n", "*1\r\n$9223372036854775807\r\n", "*1\r\n$9223372036854775806\r\n", "*1\r\n$9223372036854775805\r\n", "*1\r\n$4294967295\r\n", "*1\r\n$2147483647\r\n", "*1\r\n$536870912\r\n", "*1\r\n$536870913\r\n", "*1\r\n$1000000000000\r\n",
		"*1\r\n$a\r\n", "*1\r\n$\r\n\r\n", "*1\r\n$4\r\nPINGxx", "*1\r\n$4\r\nPING\n\n", "*1\r\n$4\r\nPING\r\r", "*1\r\n$3\r\nPING\r\n", "*1\r\n$5\r\nPING\r\n", "*1\r\n$0\r\n\r\n", "*2\r\n$0\r\n\r\n$0\r\n\r\n", "*1\r\n$04\r\nPING\r\n", "*1\r\n$+4\r\nPING\r\n",
		"*1\r\n+PING\r\n", "*1\r\n-PING\r\n", "*1\r\n:1\r\n", "*2\r\n$3\r\nGET\r\n:1\r\n", "*2\r\n$3\r\nGET\r\n+a\r\n", "*2\r\n$3\r\nGET\r\n$-1\r\n", "*2\r\n$3\r\nGET\r\n*1\r\n$1\r\na\r\n", "*2\r\n$3\r\nGET\r\n*-1\r\n", "*1\r\n*1\r\n*1\r\n*0\r\n", "*1\r\n*1\r\n$4\r\nPING\r\n",
		"$4\r\nPING\r\n", "$-1\r\n", "$0\r\n\r\n", "+PING\r\n", "+\r\n", "-ERR\r\n", ":1\r\n", ":\r\n", ":x\r\n", ":9223372036854775808\r\n", "_\r\n", "#t\r\n", ",1.5\r\n", "(123\r\n", "!3\r\nabc\r\n", "=3\r\nabc\r\n", "%1\r\n+a\r\n+b\r\n", "~1\r\n+a\r\n", ">1\r\n+a\r\n", "|1\r\n+a\r\n+b\r\n",
		"PING", "PING\r\n", "PING\n", "ping\r\n", "QUIT\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "SSH-2.0-x\r\n", "set a b\r\n", "\xff\xfe\xfd", "\u0000\r\n", "*1\r\n$4\r\nQUIT\r\n", "*3\r\n$6\r\nCONFIG\r\n$3\r\nSET\r\n$1\r\nx\r\n", "*1\r\n$8\r\nSHUTDOWN\r\n", "*2\r\n$5\r\nDEBUG\r\n$8\r\nSEGFAULT\r\n", "*1\r\n$8\r\nFLUSHALL\r\n", "*1\r\n$7\r\nMONITOR\r\n", "*2\r\n$9\r\nSUBSCRIBE\r\n$1\r\na\r\n",
		strings.Repeat("\r\n", 5000), strings.Repeat("*1\r\n", 50), strings.Repeat("*0\r\n", 3000), strings.Repeat("*-1\r\n", 3000), strings.Repeat("$-1\r\n", 3000), strings.Repeat("PING\r\n", 2000), strings.Repeat("\x00", 100000), strings.Repeat("a", 300000), strings.Repeat("*", 300000), strings.Repeat("1", 300000), "*" + strings.Repeat("1", 300000), "*1\r\n$" + strings.Repeat("9", 300000), "*1\r\n$" + strings.Repeat("0", 300000) + "4\r\nPING\r\n", "+" + strings.Repeat("b", 300000), "*" + strings.Repeat("0", 100000) + "1\r\n$4\r\nPING\r\n",
	}
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)})+"1\r\n$4\r\nPING\r\n", "*1\r\n"+string([]byte{byte(b)})+"4\r\nPING\r\n", "*1\r\n$4\r\nPING"+string([]byte{byte(b)})+"\n", "*1"+string([]byte{byte(b)})+"\n$4\r\nPING\r\n", "*1\r"+string([]byte{byte(b)})+"$4\r\nPING\r\n")
	}
	return out
}

// mutate spoils a valid stream.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i], append([]byte{"\r\n*$:+-019\x00"[r.Intn(11)]}, b[i:]...)...)
		case 4:
			b = b[:i]
		case 5: // tamper with a length
			if j := bytes.IndexAny(b[i:], "*$"); j >= 0 {
				v := []string{"0", "-1", "1", "2", "9", "100", "1000000", "536870913", "9223372036854775807", "-5", "x"}[r.Intn(11)]
				j += i + 1
				e := j
				for e < len(b) && b[e] >= '0' && b[e] <= '9' {
					e++
				}
				b = append(append(append([]byte(nil), b[:j]...), v...), b[e:]...)
			}
		case 6:
			j := r.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
		case 7:
			if j := bytes.Index(b[i:], []byte("\r\n")); j >= 0 {
				b = append(b[:i+j:i+j], append([]byte([]string{"\n", "\r", "", "\r\n\r\n"}[r.Intn(4)]), b[i+j+2:]...)...)
			}
		}
	}
	return b
}

// malformedWrites are the ways in which one write request can fail to be complete and well-formed.
func malformedWrites(r *rand.Rand, args []string) []byte {
	b := kit.Enc(args...)
	switch r.Intn(7) {
	case 0, 1: // cut short
		return b[:r.Intn(len(b))]
	case 2: // more elements announced than sent
		return append([]byte(fmt.Sprintf("*%d\r\n", len(args)+1+r.Intn(5))), b[bytes.IndexByte(b, '\n')+1:]...)
	case 3: // a wrong length of the last argument
		last := args[len(args)-1]
		cut := len(b) - len(last) - 2
		cut = bytes.LastIndexByte(b[:cut], '$')
		d := 1 + r.Intn(4)
		return append(append([]byte(nil), b[:cut]...), fmt.Sprintf("$%d\r\n%s\r\n", len(last)+d, last)...)
	case 4: // CRLF after the last argument replaced
		x := append([]byte(nil), b[:len(b)-2]...)
		return append(x, []string{"xx", "\n\n", "\n", "\r\r", "\rx", "x\n", "\x00\x00"}[r.Intn(7)]...)
	case 5: // no number
		at := bytes.LastIndexByte(b[:len(b)-len(args[len(args)-1])-2], '$')
		x := append([]byte(nil), b[:at+1]...)
		x = append(x, []string{"x", "", "-7", "1x", "--1", "99999999999999999999", " "}[r.Intn(7)]...)
		return append(x, b[bytes.IndexByte(b[at:], '\r')+at:]...)
	default: // array header spoiled
		x := []byte([]string{"*-3\r\n", "*x\r\n", "*99999999999999999999\r\n", "*3x\r\n", "*\r\n"}[r.Intn(5)])
		return append(x, b[bytes.IndexByte(b, '\n')+1:]...)
	}
}

func hostile(rep *kit.Report, variant string, seed int64, scale int) {
	var fs []func()
	add := func(name string, f func(s *kit.Server, r *rand.Rand)) {
		fs = append(fs, func() {
			s := launchAs(rep, variant)
			defer s.Kill()
			// canaries no attack names
			ss := kit.NewSession(rep, s, name, seed)
			ss.Prefix = "canary:QXJ7:"
			g := kit.NewGen(seed, ss.M)
			g.SetKeys(ss.Prefix, 20)
			g.Uni, g.MaxArg = 10, 6
			mix := kit.NewMix(shareable)
			ss.Run(randomCmds(g, mix, 400)...)
			ss.Audit(g.Keys, 8)
			// witnesses
			var stop atomic.Bool
			var wg sync.WaitGroup
			for w := 0; w < 2; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					p := fmt.Sprintf("witness%d:", w)
					ws, wgn := shared(rep, s, p, seed+int64(w)*3)
					for i := 0; !stop.Load() || i < 5; i++ {
						ws.Run(randomCmds(wgn, mix, 20)...)
						rep.Count("witness commands during attacks", 20)
						time.Sleep(2 * time.Millisecond)
						if i%50 == 49 { // new connections are accepted
							ws.C.Close()
							c, err := kit.Dial(s.Addr)
							if err != nil {
								kit.Diagnose(rep, s, "connect during "+name+": "+err.Error())
							}
							ws.C = c
						}
					}
					ws.Audit(wgn.Keys, 4)
					ws.C.Close()
				}(w)
			}
			f(s, rand.New(rand.NewSource(seed*77+int64(len(name)))))
			stop.Store(true)
			wg.Wait()
			ss.Audit(g.Keys, 8)
			ss.Run(randomCmds(g, mix, 100)...)
			ss.Audit(g.Keys, 8)
			if m := s.RSS(); m > 3<<30 && variant == "plain" {
				rep.Violation(fmt.Sprintf("after %s the server holds %d MB", name, m>>20))
			} else {
				rep.Max("largest resident size in MB after an attack", m>>20)
			}
			healthy(rep, s)
			rep.Count("attacks", 1)
		})
	}
	attack := func(s *kit.Server, b []byte, how int) {
		k, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		if len(b) > 1<<16 {
			go func() { io.Copy(io.Discard, k.Conn) }()
		}
		if how%4 == 3 && len(b) > 1 {
			k.Send(b[:len(b)/2])
			time.Sleep(500 * time.Microsecond)
			k.Send(b[len(b)/2:])
		} else {
			k.Send(b)
		}
		switch how % 3 {
		case 0:
			swallow(k, 3*time.Millisecond)
			k.Close()
		case 1:
			k.Close()
		case 2:
			swallow(k, time.Millisecond)
			k.CloseRST()
		}
		rep.Count("hostile streams", 1)
		rep.Count("hostile bytes", int64(len(b)))
		rep.Eval(len(b) > 0, string(b[:min(len(b), 4096)]), it(len(b)))
		if !s.Alive() {
			s.Wait(20)
			rep.Violation(fmt.Sprintf("the server died (%v); the latest hostile streams included %s", s.ExitErr(), kit.Short(string(b))), fmt.Sprintf("%q", b[:min(len(b), 20000)]), s.Log(4000))
		}
	}
	for w := 0; w < 2; w++ {
		w := w
		add("hand-made frames "+it(w), func(s *kit.Server, r *rand.Rand) {
			fr := frames()
			parallel(len(fr), 16, func(i int) {
				for h := 0; h < 2; h++ {
					attack(s, []byte(fr[i]), i+h*w+h)
					// with a valid request before and behind
					attack(s, append(append(kit.Enc("GET", "hx"), fr[i]...), kit.Enc("GET", "hx")...), i+h+1)
				}
			})
			rep.Sample("%q", fr[len(fr)/7])
		})
	}
	add("random bytes", func(s *kit.Server, r *rand.Rand) {
		parallel(8, 8, func(w int) {
			r := rand.New(rand.NewSource(seed*5 + int64(w)))
			alpha := []byte("*$:+-\r\n\r\n01239PINGSET \x00\xff")
			for i := 0; i < 120*scale; i++ {
				b := make([]byte, 1+r.Intn([]int{8, 60, 600, 9000}[i%4]))
				r.Read(b)
				if i%2 == 0 {
					for j := range b {
						b[j] = alpha[r.Intn(len(alpha))]
					}
				}
				attack(s, b, r.Intn(12))
			}
		})
	})
	for w := 0; w < 2; w++ {
		w := w
		add("mutated streams "+it(w), func(s *kit.Server, r *rand.Rand) {
			parallel(8, 8, func(c int) {
				r := rand.New(rand.NewSource(seed*51 + int64(w*10+c)))
				g := kit.NewGen(seed*9+int64(w*10+c), kit.NewModel())
				g.SetKeys("hm:", 6)
				mix := kit.NewMix(shareable + " keys")
				for i := 0; i < 120*scale; i++ {
					var b []byte
					for _, a := range randomCmds(g, mix, 1+r.Intn(12)) {
						b = kit.AppendEnc(b, a)
					}
					attack(s, mutate(r, b), r.Intn(12))
				}
			})
		})
	}
	add("malformed writes on canaries", func(s *kit.Server, r *rand.Rand) {
		ss, _ := shared(rep, s, "mw:", seed)
		ss.Run([]string{"SET", "mw:s", "10"}, []string{"RPUSH", "mw:l", "a", "b", "c"}, []string{"SADD", "mw:a", "x", "y"}, []string{"HSET", "mw:h", "f", "v"}, []string{"ZADD", "mw:z", "1", "m", "2", "n"})
		keys := []string{"mw:s", "mw:l", "mw:a", "mw:h", "mw:z", "mw:new"}
		writes := [][]string{{"SET", "mw:s", "11111"}, {"DEL", "mw:s"}, {"INCR", "mw:s"}, {"APPEND", "mw:s", "zzz"}, {"MSET", "mw:s", "1", "mw:new", "2222"}, {"RPUSH", "mw:l", "dddd"}, {"LPOP", "mw:l"}, {"LREM", "mw:l", "0", "b"}, {"SADD", "mw:a", "zzz"}, {"SREM", "mw:a", "x"}, {"SPOP", "mw:a"}, {"SMOVE", "mw:a", "mw:new", "x"}, {"HSET", "mw:h", "f", "wwww"}, {"HDEL", "mw:h", "f"}, {"ZADD", "mw:z", "5", "m"}, {"ZREM", "mw:z", "m"}, {"ZPOPMIN", "mw:z"}, {"SUNIONSTORE", "mw:new", "mw:a"}, {"DEL", "mw:l", "mw:a", "mw:h", "mw:z"}}
		for i := 0; i < 40*scale; i++ {
			parallel(16, 16, func(j int) {
				r := rand.New(rand.NewSource(seed*1009 + int64(i*16+j)))
				w := writes[r.Intn(len(writes))]
				attack(s, malformedWrites(r, w), []int{0, 1, 2, 3, 6}[r.Intn(5)])
				rep.Count("truncated or malformed writes on canary data", 1)
			})
			ss.Audit(keys, 5)
		}
		time.Sleep(300 * time.Millisecond)
		ss.Audit(keys, 5)
	})
	add("hostile commands", func(s *kit.Server, r *rand.Rand) {
		words := append(kit.OddValues(), "hc:k0", "hc:k1", "hc:k2", "99999999999", "-99999999999", "1000000000", "2147483648", "-2147483649", "4611686018427387904", "nx", "XX", "CH", "incr", "BYSCORE", "rev", "LIMIT", "(1", "(inf", "-inf", "+inf", "(nan", "before", "AFTER")
		parallel(8, 8, func(w int) {
			r := rand.New(rand.NewSource(seed*37 + int64(w)))
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect: "+err.Error())
			}
			defer k.Close()
			for i := 0; i < 2500*scale; i++ {
				a := []string{kit.Commands[r.Intn(len(kit.Commands))]}
				if a[0] == "command" || r.Intn(40) == 0 {
					a[0] = words[r.Intn(len(words))]
				}
				if r.Intn(3) > 0 {
					a = append(a, "hc:k"+it(r.Intn(6)))
				}
				for n := r.Intn(7); n > 0; n-- {
					if r.Intn(3) == 0 {
						a = append(a, []string{"a", "b", "1", "2", "0"}[r.Intn(5)])
					} else {
						a = append(a, words[r.Intn(len(words))])
					}
				}
				if a[0] == "keys" && len(a) > 1 {
					a = a[:2]
				}
				rp, err := k.Do(a...)
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("%s: %v", kit.Fmt(a), err))
				}
				rep.Count("hostile commands", 1)
				rep.Eval(!rp.IsErr(), kit.Fmt(a), rp.String())
			}
		})
	})
	add("bombs", func(s *kit.Server, r *rand.Rand) { bombs(rep, s, scale, attack) })
	add("many connections", func(s *kit.Server, r *rand.Rand) {
		var ks []*kit.Conn
		// as many as this process may open, at most 8000
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
		total := min(8000, int(lim.Cur)-1500)
		for i := 0; i < total; i++ {
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, fmt.Sprintf("connection %d: %v", i, err))
			}
			ks = append(ks, k)
			switch i % 3 {
			case 1:
				k.Send([]byte("*3\r\n$3\r\nSET\r\n$3\r\nmc:\r\n"))
			case 2:
				if rp, err := k.Do("PING"); err != nil || rp.Str != "PONG" {
					kit.Diagnose(rep, s, fmt.Sprintf("PING on connection %d: %v %v", i, rp, err))
				}
			}
		}
		for i, k := range ks {
			if i%3 == 2 {
				if rp, err := k.Do("PING"); err != nil || rp.Str != "PONG" {
					kit.Diagnose(rep, s, fmt.Sprintf("second PING on connection %d of %d: %v %v", i, total, rp, err))
				}
			}
			if i%2 == 0 {
				k.Close()
			} else {
				k.CloseRST()
			}
		}
		rep.Max("connections open at once", int64(total))
		rep.Count("hostile streams", int64(total))
	})
	add("no descriptors left", func(s *kit.Server, r *rand.Rand) {
		for round := 0; round < 2; round++ {
			old := s.FDs()
			if err := s.LimitFDs(old + 30); err != nil {
				rep.Count("descriptor limits not permitted", 1)
				return
			}
			var served, waiting []*kit.Conn
			for i := 0; i < 300; i++ {
				k, err := kit.Dial(s.Addr)
				if err != nil {
					kit.Diagnose(rep, s, fmt.Sprintf("connection %d of more than it has descriptors for: %v", i, err))
				}
				if i < 10 {
					if rp, err := k.Do("PING"); err != nil || rp.Str != "PONG" {
						kit.Diagnose(rep, s, fmt.Sprintf("PING on connection %d: %v %v", i, rp, err))
					}
					served = append(served, k)
				} else {
					waiting = append(waiting, k)
				}
			}
			// those served before go on being served
			for i := 0; i < 60; i++ {
				k := served[i%len(served)]
				if rp, err := k.Do("SET", "fd:", it(i)); err != nil || rp.Str != "OK" {
					kit.Diagnose(rep, s, fmt.Sprintf("a command of a connected client while no descriptor is left: %v %v", rp, err))
				}
				time.Sleep(5 * time.Millisecond)
			}
			for i, k := range waiting {
				if i%2 == 0 {
					k.Close()
				} else {
					k.CloseRST()
				}
			}
			for _, k := range served {
				k.Close()
			}
			// and afterwards everybody is
			k, err := kit.Dial(s.Addr)
			if err != nil {
				kit.Diagnose(rep, s, "connect after the descriptors are free again: "+err.Error())
			}
			if rp, err := k.Do("GET", "fd:"); err != nil || rp.Str != "59" {
				kit.Diagnose(rep, s, fmt.Sprintf("a new client after the descriptors are free again: %v %v", rp, err))
			}
			k.Close()
			s.LimitFDs(60000)
			rep.Count("times without descriptors", 1)
			rep.Count("hostile streams", 300)
		}
	})
	parallel(len(fs), 6, func(i int) { fs[i]() })
}

// bombs ask for far too much time or memory in few bytes.
func bombs(rep *kit.Report, s *kit.Server, scale int, attack func(*kit.Server, []byte, int)) {
	k, err := kit.Dial(s.Addr)
	if err != nil {
		kit.Diagnose(rep, s, "connect: "+err.Error())
	}
	defer k.Close()
	do := func(a ...string) kit.Reply {
		rp, err := k.Do(a...)
		if err != nil {
			kit.Diagnose(rep, s, fmt.Sprintf("%s: %v", kit.Fmt(a), err))
		}
		rep.Count("bombs", 1)
		rep.Eval(true, kit.Fmt(a))
		return rp
	}
	fill := func() {
		do("DEL", "b:l", "b:a", "b:z", "b:h", "b:s")
		do("RPUSH", "b:l", "a", "b", "c", "a")
		do("SADD", "b:a", "1", "2", "3")
		do("ZADD", "b:z", "1", "a", "2", "b", "3", "c")
		do("HSET", "b:h", "f", "1")
		do("SET", "b:s", "1")
	}
	huge := []string{"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "4611686018427387904", "1152921504606846976", "1000000000000", "2147483648", "4294967296", "-1", "-2", "-1000000000000", "0"}
	for _, n := range huge {
		for _, a := range [][]string{{"LPOP", "b:l", n}, {"RPOP", "b:l", n}, {"SPOP", "b:a", n}, {"ZPOPMIN", "b:z", n}, {"ZPOPMAX", "b:z", n}, {"LREM", "b:l", n, "a"}, {"LINDEX", "b:l", n}, {"LSET", "b:l", n, "x"}, {"INCRBY", "b:s", n}, {"DECRBY", "b:s", n}, {"HINCRBY", "b:h", "f", n}, {"ZINCR", "b:z", n, "a"}, {"ZADD", "b:z", n, "a"}, {"LPOP", "b:none", n}, {"SPOP", "b:none", n}, {"ZPOPMIN", "b:none", n}} {
			fill()
			do(a...)
		}
		for _, m := range huge {
			fill()
			for _, a := range [][]string{{"LRANGE", "b:l", n, m}, {"ZRANGE", "b:z", n, m}, {"ZREVRANGE", "b:z", n, m}, {"ZRANGE", "b:z", n, m, "WITHSCORES"}, {"ZCOUNT", "b:z", n, m}, {"ZRANGEBYSCORE", "b:z", n, m}, {"ZRANGE", "b:z", n, m, "BYSCORE"}} {
				do(a...)
			}
		}
	}
	// patterns that make a naive matcher explode, on keys that almost match
	do("MSET", strings.Repeat("a", 60), "1", strings.Repeat("a", 5000), "1", strings.Repeat("ab", 3000), "1", strings.Repeat("[", 200), "1")
	for _, pat := range []string{strings.Repeat("*a", 25) + "b", strings.Repeat("a*", 40) + "b", strings.Repeat("*", 5000) + "b", strings.Repeat("?*", 30) + "b", strings.Repeat("*[ab]", 25) + "c", strings.Repeat("{a,b}*", 12) + "c", strings.Repeat("{a,", 200) + "b" + strings.Repeat("}", 200), strings.Repeat("[", 3000), strings.Repeat("{", 3000), strings.Repeat("\\", 3001), strings.Repeat("{a,aa}", 14) + "c", "(a+)+$", "^(a|a)*$", "[a-", "[]", "[^", "{", "}", "\\", "[[:alpha:]]", strings.Repeat("*ab", 20) + "x"} {
		do("KEYS", pat)
	}
	// nesting and long headers
	for _, b := range []string{strings.Repeat("*1\r\n", 500000), strings.Repeat("*1\r\n", 12000000), strings.Repeat("*2\r\n", 300000), strings.Repeat("*1\r\n", 300000) + "$4\r\nPING\r\n", strings.Repeat("*1000000\r\n", 20000), "*1000000000\r\n" + strings.Repeat("$1\r\na\r\n", 100000), strings.Repeat("a", 4<<20), strings.Repeat("*1\r\n$0\r\n\r\n", 50000), strings.Repeat("*3\r\n*2\r\n", 100000), strings.Repeat(":1\r\n", 300000), strings.Repeat("+x\r\n", 200000)} {
		attack(s, []byte(b), 0)
		do("PING")
	}
	// announced and never sent
	var ks []*kit.Conn
	for i := 0; i < 60; i++ {
		c, err := kit.Dial(s.Addr)
		if err != nil {
			kit.Diagnose(rep, s, "connect: "+err.Error())
		}
		ks = append(ks, c)
		c.Send([]byte([]string{"*2\r\n$536870912\r\nabc", "*1000000\r\n$3\r\nabc", "$536870000\r\n", "*1\r\n$300000000\r\n" + strings.Repeat("x", 70000)}[i%4]))
	}
	do("PING")
	time.Sleep(50 * time.Millisecond)
	if m := s.RSS(); m > 2<<30 {
		rep.Violation(fmt.Sprintf("60 clients announced large requests and sent a few bytes: the server holds %d MB", m>>20))
	}
	for _, c := range ks {
		c.Close()
	}
	do("PING")
	rep.Sample("LPOP b:l %s and %d other bombs survived", huge[0], rep.Get("bombs"))
}

// ---- C17 ----

func c17(rep *kit.Report) {
	bin(rep, "plain")
	both(each(
		func() {
			parallel(6*rep.Scale, 6, func(i int) {
				s := launch(rep)
				defer s.Kill()
				seed := rep.Seed*100 + int64(i)
				ss := kit.NewSession(rep, s, "sentinel", seed)
				ss.Sentinel = true
				g := kit.NewGen(seed, ss.M)
				runPhases(rep, ss, g, []phase{
					{mix: everything, keys: 6, uni: 5, maxArg: 4, cmds: 4000, audit: 200, deep: 4, bad: .25, wrong: .3, fresh: true},
					{mix: everything, keys: 14, uni: 40, maxArg: 30, cmds: 3000, audit: 400, deep: 4, bad: .05, wrong: .2, fresh: true},
				})
				quiet(rep, ss)
				healthy(rep, s)
			})
		},
		func() {
			parallel(4, 4, func(i int) {
				directed(rep, "replies", func(ss *kit.Session) { replyMatrix(ss, i) })
			})
		},
		func() { directed(rep, "reply sizes", replySizes) },
	))
	rep.Require("matrix requests", 20000)
	rep.Require("unknown names called", 1000)
	rep.Require("reply sizes", 1000)
	for _, c := range kit.Commands {
		rep.Require("ok "+c, 1)
	}
}

// quiet: nothing may follow the last reply.
func quiet(rep *kit.Report, ss *kit.Session) {
	if x, any := ss.C.Extra(30 * time.Millisecond); any {
		rep.Violation(fmt.Sprintf("bytes after the last reply: %q", x), ss.Tail(20))
	}
}

// replySizes: arrays, bulk strings and integers of every size and around
// every power of two and ten.
func replySizes(ss *kit.Session) {
	ss.Sentinel = true
	const top = 140000
	push := []string{"RPUSH", "l"}
	mset := []string{"MSET"}
	zadd, hset, sadd := []string{"ZADD", "z"}, []string{"HSET", "h"}, []string{"SADD", "s"}
	for i := 0; i < top; i++ {
		push = append(push, it(i))
		if i < 20000 {
			mset = append(mset, "many:"+it(i), it(i))
			zadd = append(zadd, it(i), it(i))
			hset = append(hset, it(i), it(i))
			sadd = append(sadd, it(i))
		}
	}
	ss.Run(push, mset, zadd, hset, sadd)
	var sizes []int
	for n := 0; n <= 1100; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072} {
		sizes = append(sizes, n-1, n, n+1)
	}
	for _, n := range sizes {
		cs := [][]string{{"LRANGE", "l", "1", it(n)}, {"SET", "b", strings.Repeat("b", n)}, {"GET", "b"}, {"SET", "n", it(n)}, {"INCR", "n"}, {"DECRBY", "n", it(2*n + 1)}, {"DECR", "n"}}
		if n > 0 && n <= 20000 {
			mget := []string{"MGET"}
			for i := 0; i < n; i++ {
				mget = append(mget, "many:"+it(i*3))
			}
			cs = append(cs, mget, []string{"ZRANGE", "z", "0", it(n - 1), "WITHSCORES"})
			if n > 1000 || n%50 == 0 {
				cs = append(cs, []string{"SPOP", "s", it(n)}, append([]string{"SADD", "s"}, push[2:2+n]...), []string{"HDEL", "h", it(n), it(n + 1)}, []string{"HLEN", "h"})
			}
		}
		ss.Run(cs...)
		ss.R.Count("reply sizes", 1)
	}
	ss.Run([]string{"KEYS", "*"}, []string{"KEYS", "many:1*"}, []string{"SMEMBERS", "s"}, []string{"HGETALL", "h"}, []string{"HKEYS", "h"}, []string{"HVALS", "h"}, []string{"ZREVRANGE", "z", "0", "-1", "WITHSCORES"}, []string{"ZRANGEBYSCORE", "z", "-inf", "+inf"}, []string{"SUNION", "s"}, []string{"LPOP", "l", it(top)}, []string{"ZPOPMIN", "z", "30000"})
	// more than a million elements in one reply
	ss.Run([]string{"DEL", "l"})
	for i := 0; i < 8; i++ {
		ss.Run(push)
	}
	ss.Run([]string{"LLEN", "l"}, []string{"LRANGE", "l", "0", "1048574"}, []string{"LRANGE", "l", "0", "1048575"}, []string{"LRANGE", "l", "0", "-1"}, []string{"DEL", "l"})
	for p := int64(1); p > 0 && p < 1e18; p *= 10 {
		for _, x := range []int64{p - 1, p, p + 1} {
			ss.Run([]string{"SET", "n", "0"}, []string{"INCRBY", "n", strconv.FormatInt(x, 10)}, []string{"DECRBY", "n", strconv.FormatInt(x, 10)}, []string{"DECRBY", "n", strconv.FormatInt(x, 10)}, []string{"HINCRBY", "hh", "n", strconv.FormatInt(x, 10)}, []string{"HDEL", "hh", "n"})
		}
	}
	quiet(ss.R, ss)
}

// replyMatrix: every command x state of its key x argument list.
func replyMatrix(ss *kit.Session, part int) {
	rep := ss.R
	states := [][][]string{
		{},
		{{"SET", "k", "10"}}, {{"SET", "k", ""}}, {{"SET", "k", "abc"}},
		{{"RPUSH", "k", "a", "1", ""}}, {{"RPUSH", "k", "a"}},
		{{"HSET", "k", "a", "1", "", "x", "1", "1.5"}}, {{"HSET", "k", "1", "1"}},
		{{"SADD", "k", "a", "1", ""}}, {{"SADD", "k", "a"}},
		{{"ZADD", "k", "1", "a", "2", "1", "inf", ""}}, {{"ZADD", "k", "0", "a"}},
	}
	others := [][]string{{"SET", "k2", "5"}, {"RPUSH", "k2", "a"}, {"SADD", "k2", "a", "b"}, {"HSET", "k2", "a", "1"}, {"ZADD", "k2", "1", "a"}, {"DEL", "k2"}}
	words := []string{"k", "k2", "a", "1", "", "-1", "0", "2", "x", "1.5", "inf", "(1", "withscores", "nx", "byscore", "before", "\r\n", "none"}
	r := rand.New(rand.NewSource(rep.Seed*10 + int64(part)))
	var batch [][]string
	var about []string // per request: what it is about
	flush := func() {
		reps, err := ss.C.Pipeline(batch)
		for i, rp := range reps {
			c := batch[i]
			if c[0] == "PING" {
				if rp.Kind != '+' || rp.Str != "PONG" {
					rep.Violation(fmt.Sprintf("the PING after %s (%s) was answered %s: not exactly one reply", kit.Fmt(batch[i-1]), about[i], rp))
				}
				continue
			}
			if !kit.KindOK(c, rp) {
				rep.Violation(fmt.Sprintf("%s (%s) was answered %s", kit.Fmt(c), about[i], rp))
			}
			rep.Eval(!rp.IsErr(), kit.Fmt(c), rp.String(), about[i])
			if !kit.Known(c[0]) {
				rep.Count("unknown names called", 1)
			} else if rp.IsErr() {
				rep.Count("err "+strings.ToLower(c[0]), 1)
			} else {
				rep.Count("ok "+strings.ToLower(c[0]), 1)
			}
		}
		if err != nil {
			at := min(len(reps), len(batch)-1)
			from := max(0, at-5)
			kit.Diagnose(rep, ss.S, fmt.Sprintf("waiting for the reply to %s (%s): %v", kit.Fmt(batch[at]), about[at], err), fmt.Sprint(batch[from:at+1]))
		}
		batch, about = batch[:0], about[:0]
	}
	names := append([]string(nil), kit.Commands...)
	for i := 0; i < 24; i++ {
		names = append(names, kit.Strange(r, kit.Commands[r.Intn(len(kit.Commands))]))
	}
	for ci, cmd := range names {
		for si, st := range states {
			if !kit.Known(cmd) && si > 3 {
				break
			}
			if (si+ci)%4 != part {
				continue
			}
			var lists [][]string
			lists = append(lists, nil)
			for _, w := range words {
				lists = append(lists, []string{w}, []string{"k", w})
				for _, x := range words {
					lists = append(lists, []string{"k", w, x})
				}
			}
			for i := 0; i < 60*rep.Scale; i++ {
				a := []string{"k"}
				for n := 3 + r.Intn(4); n > 0; n-- {
					a = append(a, words[r.Intn(len(words))])
				}
				lists = append(lists, a)
			}
			for _, l := range lists {
				what := fmt.Sprint("k after ", st)
				put := func(c []string) { batch = append(batch, c); about = append(about, what) }
				put(append([]string{"DEL"}, words...))
				for _, c := range st {
					put(c)
				}
				put(others[r.Intn(len(others))])
				name := cmd
				switch r.Intn(4) {
				case 0:
					if kit.Known(cmd) {
						name = strings.ToUpper(cmd)
					}
				}
				put(append([]string{name}, l...))
				put([]string{"PING"})
				rep.Count("matrix requests", 1)
				if len(batch) > 300 {
					flush()
				}
			}
		}
	}
	flush()
	quiet(rep, ss)
	rep.Sample("every command with %d argument lists in each of %d states", 1+18*2+18*18+60, len(states))
}

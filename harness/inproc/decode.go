package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/yusank/godis/protocol"
	"verif/harness/kit"
)

func init() { modes["decode"] = decodeMode }

// chunks delivers a stream in pieces chosen by next.
type chunks struct {
	b      []byte
	next   func(left int) int
	end    error
	eofNow bool // io.EOF together with the last bytes
	reads  int
}

func (c *chunks) Read(p []byte) (int, error) {
	c.reads++
	if len(c.b) == 0 {
		if c.end != nil {
			return 0, c.end
		}
		return 0, io.EOF
	}
	n := c.next(len(c.b))
	if n < 0 {
		return 0, nil // legal: nothing now
	}
	n = max(1, min(n, len(c.b), len(p)))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.eofNow {
		return n, io.EOF
	}
	return n, nil
}

// own is a minimal protocol.Reader of its own: ReadBytes byte by byte, Read in chunks.
type own struct{ c *chunks }

func (o own) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.c.Read(p)
}
func (o own) ReadBytes(d byte) ([]byte, error) {
	var out []byte
	var one [1]byte
	for {
		n, err := o.c.Read(one[:])
		if n == 1 {
			out = append(out, one[0])
			if one[0] == d {
				return out, nil
			}
		}
		if err != nil {
			return out, err
		}
	}
}

func genArgs(r *rand.Rand) []string {
	nasty := []string{"", "\r\n", "\r", "\n", "*1\r\n", "$3\r\nabc\r\n", "PING", "PING\r\n", "a", "0", "-1", "\x00", "\xff\xfe", "+OK\r\n", ":1\r\n", "$-1\r\n", "x\r\ny", "\r\n\r\n", "é"}
	n := 1 + r.Intn(5)
	switch r.Intn(30) {
	case 0:
		n = 50 + r.Intn(400)
	case 1:
		n = 3000
	}
	a := make([]string, n)
	for i := range a {
		switch r.Intn(6) {
		case 0, 1:
			a[i] = nasty[r.Intn(len(nasty))]
		case 2, 3:
			b := make([]byte, r.Intn(12))
			r.Read(b)
			a[i] = string(b)
		case 4:
			a[i] = strings.Repeat("k", r.Intn(100))
		case 5:
			if n < 50 {
				sz := []int{127, 128, 4094, 4095, 4096, 4097, 8192, 16383, 65536}[r.Intn(9)]
				b := make([]byte, sz)
				r.Read(b)
				a[i] = string(b)
			}
		}
	}
	return a
}

func chunkers(r *rand.Rand) []func(int) int {
	return []func(int) int{
		func(left int) int { return left },
		func(int) int { return 1 },
		func(int) int { return 2 },
		func(int) int { return 7 },
		func(left int) int { return 1 + r.Intn(left) },
		func(left int) int { return 1 + r.Intn(9) },
		func(left int) int { return []int{1, 4095, 4096, 4097, 511, 512, 513}[r.Intn(7)] },
		func(left int) int {
			if r.Intn(4) == 0 {
				return -1
			}
			return 1 + r.Intn(30)
		},
	}
}

func readers(b []byte, r *rand.Rand, ci int, end error) (protocol.Reader, *chunks, string) {
	c := &chunks{b: append([]byte(nil), b...), next: chunkers(r)[ci], end: end, eofNow: end == nil && r.Intn(3) == 0}
	switch r.Intn(3) {
	case 0:
		return own{c}, c, fmt.Sprintf("own reader, chunker %d", ci)
	case 1:
		return bufio.NewReaderSize(c, 16), c, fmt.Sprintf("bufio 16, chunker %d", ci)
	default:
		return bufio.NewReader(c), c, fmt.Sprintf("bufio 4096, chunker %d", ci)
	}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// safely calls the decoder; a panic is a violation.
func safely(rd protocol.Reader, what string) (rec *protocol.Receive, err error) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 8192)
			violation(string(buf[:runtime.Stack(buf, false)]), "the decoder panics on %s: %v", what, p)
		}
	}()
	return protocol.DecodeFromReader(rd)
}

func decodeMode() {
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*100 + int64(w)))
			for i := 0; i < 250*scale; i++ {
				decodeStream(r)
			}
			for i := 0; i < 60*scale; i++ {
				truncations(r)
			}
			for i := 0; i < 8000*scale; i++ {
				malformedOne(r)
			}
		}(w)
	}
	wg.Wait()
	asyncStreams()
	greedy()
	numerous()
}

func decodeStream(r *rand.Rand) {
	var reqs [][]string
	var b []byte
	for i := 0; i <= r.Intn(6); i++ {
		a := genArgs(r)
		reqs = append(reqs, a)
		b = kit.AppendEnc(b, a)
	}
	tail := ""
	if r.Intn(2) == 0 {
		tail = "*1\r\n$4\r\nPING\r\n"
	}
	b = append(b, tail...)
	for ci := range chunkers(r) {
		rd, c, how := readers(b, r, ci, nil)
		for i, want := range reqs {
			rec, err := safely(rd, kit.Fmt(want))
			if err != nil {
				violation(fmt.Sprintf("%q", kit.Enc(want...)), "%s: request %d (%s) is not decoded: %v", how, i, kit.Fmt(want), err)
			}
			if !same(rec.Elements, want) {
				violation(fmt.Sprintf("%q", kit.Enc(want...)), "%s: request %d (%s) decodes to %s", how, i, kit.Fmt(want), kit.Fmt(rec.Elements))
			}
			eval(true, how, strings.Join(want, "\x01"))
			count("requests decoded", 1)
		}
		// exactly its bytes are consumed
		if o, ok := rd.(own); ok {
			if got := string(o.c.b); got != tail && !(c.eofNow && tail == "") {
				violation("", "%s: after %d requests %q is left, want %q", how, len(reqs), got, tail)
			}
			count("exact consumptions checked", 1)
		}
		if tail != "" {
			rec, err := safely(rd, "PING behind others")
			if err != nil || !same(rec.Elements, []string{"PING"}) {
				violation("", "%s: the request behind %d others decodes to %v, %v", how, len(reqs), rec, err)
			}
		}
		rec, err := safely(rd, "the end of the stream")
		if err == nil {
			violation("", "%s: at the end of the stream the decoder returns the request %s", how, kit.Fmt(rec.Elements))
		}
	}
	count("streams", 1)
	if len(b) < 120 {
		sample("%q in %d chunkings", b, len(chunkers(r)))
	}
}

var errCut = errors.New("connection reset by peer")

func truncations(r *rand.Rand) {
	a := genArgs(r)
	if len(a) > 20 {
		a = a[:20]
	}
	pre := genArgs(r)[:1]
	b := kit.Enc(a...)
	var cuts []int
	if len(b) < 400 {
		for i := 0; i < len(b); i++ {
			cuts = append(cuts, i)
		}
	} else {
		for i := 0; i < 60; i++ {
			cuts = append(cuts, r.Intn(len(b)))
		}
		cuts = append(cuts, len(b)-1, len(b)-2, len(b)-3)
	}
	for _, cut := range cuts {
		end := []error{nil, io.ErrUnexpectedEOF, errCut}[r.Intn(3)]
		s := append(kit.Enc(pre...), b[:cut]...)
		rd, _, how := readers(s, r, r.Intn(7), end)
		rec, err := safely(rd, "a whole request before a cut one")
		if err != nil || !same(rec.Elements, pre) {
			violation(fmt.Sprintf("%q", s), "%s: the whole request before a cut one decodes to %v, %v", how, rec, err)
		}
		rec, err = safely(rd, "a cut request")
		if err == nil {
			violation(fmt.Sprintf("%q", s), "%s: %s cut after %d of %d bytes decodes to the request %s", how, kit.Fmt(a), cut, len(b), kit.Fmt(rec.Elements))
		}
		eval(cut > 0, "cut", it(cut), string(b))
		count("truncated requests", 1)
	}
}

func it(i int) string { return fmt.Sprint(i) }

// malformed: bytes that are no array of bulk strings in one definite way.
func malformedOne(r *rand.Rand) {
	good := kit.Enc("SET", "key", "val")
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	badLen := pick("x", "", "-2", "-7", "1x", "x1", " 3", "3 ", "+-3", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "3.0", "0x3", "1e1", "4294967299", "\x00", "3\r", "3\n", "--3", "９", "+3", "+1", "+0", "-0", "1_0", "3,", "0b1", "0o3", "1 1", "\t3", "3\t", "٣", "+")
	var b []byte
	var what string
	switch r.Intn(9) {
	case 0:
		what, b = "bad array length", []byte("*"+badLen+"\r\n$3\r\nGET\r\n$3\r\nkey\r\n")
	case 1:
		what, b = "bad bulk length", []byte("*2\r\n$3\r\nGET\r\n$"+badLen+"\r\nkey\r\n")
	case 2:
		what, b = "bulk without CRLF", []byte("*2\r\n$3\r\nGET\r\n$3\r\nkey"+pick("xx", "\n\n", "\r\r", "\rx", "x\n", "\x00\x00", "*1")+"$1\r\na\r\n")
	case 3:
		what, b = "longer bulk than announced", []byte("*2\r\n$3\r\nGET\r\n$"+it(r.Intn(3))+"\r\nkey\r\n*1\r\n$4\r\nPING\r\n")
	case 4:
		what, b = "header without CR", []byte(pick("*2\n$3\r\nGET\r\n$3\r\nkey\r\n", "*2\r\n$3\nGET\r\n$3\r\nkey\r\n", "*2\r\n$3\r\nGET\r\n$3\nkey\r\n"))
	case 5:
		what, b = "no type byte", []byte(pick("GET key\r\n", "\r\n", " *1\r\n$4\r\nPING\r\n", "ping x\r\n", "1\r\n", "{}\r\n", "\x00\r\n", "!1\r\nx\r\n", "GET / HTTP/1.1\r\n", "PINGPONG\r\n", "PING \r\n", "PINGx\r\n", "PIN\r\n", "PING\r\r\n", "xPING\r\n", " PING\r\n", "PING PING\r\n", "PING\n", "P\r\n", "PING\x00\r\n", "PING key\r\n"))
	case 6:
		what, b = "element of no type", []byte("*2\r\n$3\r\nGET\r\n"+pick("key\r\n", "\r\n", "@3\r\nkey\r\n", "\x00\r\n", "3\r\nkey\r\n", "key", "\n"))
	case 7:
		b = append([]byte(nil), good...)
		for n := 1 + r.Intn(5); n > 0; n-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		what = "" // may still be a request
	case 8:
		b = make([]byte, r.Intn(200))
		al := "*$+-:\r\n\r\n0123456789PINGab"
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
	}
	ci := r.Intn(7)
	rd, _, how := readers(b, r, ci, nil)
	recs := 0
	for n := 0; n < 300; n++ {
		rec, err := safely(rd, fmt.Sprintf("%q", b))
		if err != nil {
			break
		}
		if what != "" && n == 0 {
			violation(fmt.Sprintf("%q", b), "%s: %s (%q) decodes to the request %s", how, what, b, kit.Fmt(rec.Elements))
		}
		recs++
		if n == 299 && len(b) < 300 {
			violation(fmt.Sprintf("%q", b), "%s: %d bytes decode to 300 requests", how, len(b))
		}
	}
	// the same bytes decode the same in another chunking
	rd2, _, how2 := readers(b, r, (ci+1)%7, nil)
	for n := 0; n <= recs; n++ {
		_, err := safely(rd2, fmt.Sprintf("%q", b))
		if (err == nil) != (n < recs) {
			violation(fmt.Sprintf("%q", b), "%q gives %d requests with %s and another number with %s", b, recs, how, how2)
		}
	}
	eval(true, "malformed", string(b))
	count("malformed streams", 1)
}

// asyncStreams: ReceiveDataAsync hands over the same requests in order.
func asyncStreams() {
	r := rand.New(rand.NewSource(seed*5 + 3))
	for i := 0; i < 60*scale; i++ {
		var reqs [][]string
		var b []byte
		for j := 0; j < 1+r.Intn(30); j++ {
			a := genArgs(r)
			reqs = append(reqs, a)
			b = kit.AppendEnc(b, a)
		}
		rd, _, how := readers(b, r, r.Intn(7), nil)
		ar := protocol.ReceiveDataAsync(rd)
		n := 0
		for rec := range ar.ReceiveChan {
			if n >= len(reqs) || !same(rec.Elements, reqs[n]) {
				violation("", "asynchronous, %s: request %d of %d decodes to %s", how, n, len(reqs), kit.Fmt(rec.Elements))
			}
			n++
			eval(true, "async", strings.Join(rec.Elements, "\x01"))
		}
		if n != len(reqs) {
			violation("", "asynchronous, %s: %d requests sent, %d handed over", how, len(reqs), n)
		}
		if err := <-ar.ErrorChan; err == nil {
			violation("", "asynchronous, %s: the end of the stream gives no error", how)
		}
		count("asynchronous streams", 1)
	}
}

// numerous: requests of very many elements, and one right after.
func numerous() {
	for _, n := range []int{65535, 65537, 300000, 1<<20 + 1, 1500000} {
		a := make([]string, n)
		for i := range a {
			a[i] = strconv.Itoa(i % 1000)
		}
		b := append(kit.Enc(a...), kit.Enc("PING", "x")...)
		rd := bufio.NewReader(bytes.NewReader(b))
		rec, err := safely(rd, fmt.Sprint(n, " elements"))
		if err != nil || len(rec.Elements) != n {
			violation("", "a request of %d elements decodes to an error or another number of them: %v", n, err)
		}
		for i := range a {
			if rec.Elements[i] != a[i] {
				violation("", "a request of %d elements: element %d decodes to %q, want %q", n, i, clip([]byte(rec.Elements[i])), a[i])
			}
		}
		rec, err = safely(rd, fmt.Sprint("the request after ", n, " elements"))
		if err != nil || len(rec.Elements) != 2 || rec.Elements[0] != "PING" {
			violation("", "the request after one of %d elements decodes to %v, %v", n, rec, err)
		}
		maxOf("most elements in a request", int64(n))
		eval(true, "numerous", strconv.Itoa(n))
	}
}

// greedy: announced sizes that never come must not be paid for.
func greedy() {
	var m0, m1 runtime.MemStats
	for _, h := range []string{"*2147483647\r\n", "*1000000000\r\n", "*100000000\r\n", "*1\r\n$536870912\r\nabc", "*1\r\n$536870911\r\n", "$536870912\r\nx", "$500000000\r\n", "*50000000\r\n$1\r\na\r\n", "*1\r\n*1000000000\r\n", "*1000000\r\n*1000000\r\n*1000000\r\n", "*2\r\n$3\r\nGET\r\n$400000000\r\n" + strings.Repeat("z", 10000)} {
		runtime.GC()
		runtime.ReadMemStats(&m0)
		for i := 0; i < 3; i++ {
			_, err := safely(bufio.NewReader(bytes.NewReader([]byte(h))), fmt.Sprintf("%q", h[:min(len(h), 60)]))
			if err == nil {
				violation("", "%q and the end of the stream decode to a request", h[:min(len(h), 60)])
			}
		}
		runtime.ReadMemStats(&m1)
		per := (m1.TotalAlloc - m0.TotalAlloc) / 3
		if per > 8<<20 {
			violation("", "%q (%d bytes received) makes the decoder allocate %d bytes", h[:min(len(h), 60)], len(h), per)
		}
		maxOf("most bytes allocated for an empty promise", int64(per))
		eval(true, "greedy", h)
		count("empty promises", 1)
	}
	// and what does come costs no more than some copies of it
	for _, n := range []int{1 << 20, 16 << 20} {
		b := kit.Enc("SET", "k", strings.Repeat("v", n))
		runtime.GC()
		runtime.ReadMemStats(&m0)
		if _, err := safely(bufio.NewReader(bytes.NewReader(b)), "a large SET"); err != nil {
			violation("", "a SET of %d bytes is not decoded: %v", n, err)
		}
		runtime.ReadMemStats(&m1)
		if per := m1.TotalAlloc - m0.TotalAlloc; per > uint64(n)*24 {
			violation("", "a SET of %d bytes makes the decoder allocate %d bytes", n, per)
		}
	}
	// many elements: time and memory grow in proportion (a quadratic decoder allocates n*n/2)
	n := 60000
	a := make([]string, n)
	for i := range a {
		a[i] = "element"
	}
	b := kit.Enc(a...)
	runtime.ReadMemStats(&m0)
	rec, err := safely(bufio.NewReader(bytes.NewReader(b)), "many elements")
	if err != nil || len(rec.Elements) != n {
		violation("", "a request of %d elements decodes to %v", n, err)
	}
	runtime.ReadMemStats(&m1)
	if per := m1.TotalAlloc - m0.TotalAlloc; per > uint64(len(b))*1500 {
		violation("", "a request of %d bytes in %d elements makes the decoder allocate %d bytes", len(b), n, per)
	}
}

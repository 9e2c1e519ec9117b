package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/yusank/godis/protocol"
	"verif/harness/kit"
)

func init() { modes["encode"] = encodeMode }

// encodeMode: responses of every shape are encoded and read back by a parser
// of our own and by the decoder.
func encodeMode() {
	n := 4000 * scale
	if os.Getenv("IP_RACE") != "" {
		n /= 8
	}
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*77 + int64(w)))
			for i := 0; i < n; i++ {
				encodeOne(r)
			}
			for i := 0; i < n/100; i++ {
				decodedAgain(r)
			}
		}(w)
	}
	wg.Wait()
	sharedResponses()
	if os.Getenv("IP_RACE") == "" {
		sizes()
	}
}

// sizes: every length up to some bound, and those around the powers of two and
// ten beyond it, as the length of a text and as the number of elements.
func sizes() {
	r := rand.New(rand.NewSource(seed * 5))
	edges := func(upto, max int) (ns []int) {
		for n := 0; n <= upto; n++ {
			ns = append(ns, n)
		}
		for _, b := range []int{2, 10} {
			for p := b; p > 0 && p <= max; p *= b {
				for d := -2; d <= 2; d++ {
					if p+d > upto && p+d <= max {
						ns = append(ns, p+d)
					}
				}
			}
		}
		return
	}
	str := func(k byte, s string) kit.Reply { return kit.Reply{Kind: k, Str: s} }
	src := strings.Repeat("0123456789abcdefghijklmnopqrstuvw", 1<<16)
	for _, n := range edges(5000, 1<<21) {
		s := src[n%33:][:n]
		judge(r, protocol.NewResponseWithBulkString(s), str('$', s), []string{s})
		count("lengths of texts", 1)
		if n > 1<<18 {
			continue
		}
		judge(r, protocol.NewResponse(true).AppendBulkStrings("x", s, ""), kit.Reply{Kind: '*', Arr: []kit.Reply{str('$', "x"), str('$', s), str('$', "")}}, []string{"x", s, ""})
		if n > 0 {
			judge(r, protocol.NewResponseWithSimpleString(s), str('+', s), []string{s})
			judge(r, protocol.NewResponseWithError(errors.New(s)), str('-', s), []string{s})
		}
	}
	for _, n := range edges(1200, 1<<17) {
		a := make([]string, n)
		want := kit.Reply{Kind: '*'}
		for i := range a {
			a[i] = src[i%97:][:(i*7+n)%5]
			want.Arr = append(want.Arr, str('$', a[i]))
		}
		back := a
		if n == 0 {
			back = nil
		}
		judge(r, protocol.NewResponse(true).AppendBulkStrings(a...), want, back)
		count("numbers of elements", 1)
	}
	for _, n := range edges(12000, 1<<60) {
		for _, v := range []int64{int64(n), -int64(n)} {
			judge(r, protocol.NewResponseWithInteger(v), kit.Reply{Kind: ':', Int: v}, []string{fmt.Sprint(v)})
		}
		count("sizes of integers", 1)
	}
}

// line is a string that may stand in a line.
func line(r *rand.Rand) string {
	var b []byte
	n := r.Intn(20)
	if r.Intn(200) == 0 {
		n = 100 + r.Intn(70000)
	}
	for len(b) < n {
		if c := byte(r.Intn(256)); c != '\r' && c != '\n' {
			b = append(b, c)
		}
	}
	return string(b)
}

func bulk(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		n := []int{9, 10, 11, 99, 100, 101, 999, 1000, 1001, 4096, 9999, 10000, 10001, 65535, 65536, 99999, 100000, 100001}[r.Intn(18)]
		return strings.Repeat("\r\n$x", n/4+1)[:n]
	case 2:
		return []string{"\r\n", "\r", "\n", "*1\r\n", "$-1\r\n", "+OK\r\n", "-1", "\x00", "\xff"}[r.Intn(9)]
	}
	b := make([]byte, r.Intn(30))
	r.Read(b)
	return string(b)
}

func number(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 1, -1, 9, 10, -9, -10, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 32}[r.Intn(12)]
	case 1:
		return int64(r.Uint64())
	}
	return r.Int63n(2001) - 1000
}

// encodeOne makes one response through the package's constructors.
func encodeOne(r *rand.Rand) {
	var rsp *protocol.Response
	var want kit.Reply
	str := func(k byte, s string) kit.Reply { return kit.Reply{Kind: k, Str: s} }
	var back []string // what the decoder reads
	switch shape := r.Intn(12); shape {
	case 0:
		s := line(r)
		rsp, want, back = protocol.NewResponseWithSimpleString(s), str('+', s), []string{s}
	case 1, 2:
		s := bulk(r)
		rsp, want, back = protocol.NewResponseWithBulkString(s), str('$', s), []string{s}
	case 3:
		s := line(r)
		if s == "" {
			s = "ERR"
		}
		rsp, want, back = protocol.NewResponseWithError(errors.New(s)), str('-', s), []string{s}
	case 4:
		n := number(r)
		rsp, want, back = protocol.NewResponseWithInteger(n), kit.Reply{Kind: ':', Int: n}, []string{fmt.Sprint(n)}
	case 5:
		if r.Intn(2) == 0 {
			rsp, want = protocol.NewResponseWithNilBulk(), kit.Reply{Kind: '$', Nil: true}
		} else {
			rsp, want = protocol.NewResponseWithEmptyArray(), kit.Reply{Kind: '*'}
		}
	default:
		n := r.Intn(12)
		switch r.Intn(30) {
		case 0:
			n = []int{99, 100, 101, 999, 1000, 1001, 9999, 10000}[r.Intn(8)]
		case 1:
			n = r.Intn(600)
		}
		want = kit.Reply{Kind: '*'}
		var ss []string
		var is []interface{}
		withNil := shape > 9
		for i := 0; i < n; i++ {
			if withNil && r.Intn(4) == 0 {
				is = append(is, nil)
				want.Arr = append(want.Arr, kit.Reply{Kind: '$', Nil: true})
				continue
			}
			s := ""
			if n < 50 {
				s = bulk(r)
			} else {
				s = fmt.Sprint(i, "\r\n"[:r.Intn(3)])
			}
			ss, is = append(ss, s), append(is, s)
			want.Arr = append(want.Arr, str('$', s))
		}
		rsp = protocol.NewResponse(true)
		if r.Intn(3) == 0 {
			rsp = protocol.NewResponse()
			rsp.SetIsArray()
		}
		if withNil || r.Intn(2) == 0 {
			rsp.AppendBulkInterfaces(is...)
		} else {
			rsp.AppendBulkStrings(ss...)
		}
		if !withNil && n > 0 {
			back = ss
		}
		// elements of other kinds
		if n > 0 && r.Intn(4) == 0 {
			back = nil
			for j := 0; j <= r.Intn(3); j++ {
				at := r.Intn(n)
				v, l := number(r), line(r)
				switch r.Intn(2) {
				case 0:
					rsp.Items[at] = &protocol.ResponseItem{Value: v, Type: protocol.TypeIntegers}
					want.Arr[at] = kit.Reply{Kind: ':', Int: v}
				case 1:
					rsp.Items[at] = &protocol.ResponseItem{Value: l, Type: protocol.TypeSimpleStrings}
					want.Arr[at] = str('+', l)
				}
			}
		}
	}
	judge(r, rsp, want, back)
}

// judge encodes a response that means want; the decoder reads it as back, if
// that is not nil.
func judge(r *rand.Rand, rsp *protocol.Response, want kit.Reply, back []string) {
	b := encoded(rsp, want)
	got, left, err := parse(b)
	if err != nil || left > 0 || !got.Equal(want) {
		violation(fmt.Sprintf("%q", clip(b)), "a response of %s is encoded as %q, which reads as %v (%d bytes too many, %v)", want, clip(b), got, left, err)
	}
	eval(true, string(b))
	count("responses encoded", 1)
	maxOf("longest encoding", int64(len(b)))
	// encoding is a pure function: the bytes are the caller's
	keep := append([]byte(nil), b...)
	for i := range b {
		b[i] = '#'
	}
	if again := encoded(rsp, want); !bytes.Equal(again, keep) {
		violation(fmt.Sprintf("%q", clip(keep)), "encoding a response of %s a second time gives %q", want, clip(again))
	}
	if back != nil {
		rd, _, how := readers(keep, r, r.Intn(7), nil)
		rec, err := safely(rd, "an encoded response")
		if err != nil || !same(rec.Elements, back) {
			violation(fmt.Sprintf("%q", clip(keep)), "%s: the decoder reads the encoding of %s as %v, %v", how, want, rec, err)
		}
		if rec.OrgStr != string(keep) {
			violation(fmt.Sprintf("%q", clip(keep)), "%s: the decoder keeps %q as the bytes of the request %q", how, clip([]byte(rec.OrgStr)), clip(keep))
		}
		count("encodings decoded again", 1)
	}
	if len(keep) < 60 {
		sample("%q <- %s", keep, want)
	}
	if r.Intn(4) == 0 {
		changed(r, rsp, want)
	}
}

// changed: a response that was encoded is changed and encoded again; what it
// means now is what counts.
func changed(r *rand.Rand, rsp *protocol.Response, want kit.Reply) {
	for i := 1 + r.Intn(3); i > 0; i-- {
		switch op := r.Intn(5); {
		case op == 0 && want.Kind != '*' && want.Kind != '-' && len(rsp.Items) == 1:
			rsp.SetIsArray()
			want = kit.Reply{Kind: '*', Arr: []kit.Reply{want}}
		case op == 1:
			a := []string{bulk(r), bulk(r)}[r.Intn(2):]
			rsp.SetIsArray()
			rsp.AppendBulkStrings(a...)
			want = kit.Reply{Kind: '*'}
			for _, s := range a {
				want.Arr = append(want.Arr, kit.Reply{Kind: '$', Str: s})
			}
		case op == 2 && len(rsp.Items) > 0 && want.Kind == '*':
			at, v := r.Intn(len(rsp.Items)), number(r)
			rsp.Items[at] = &protocol.ResponseItem{Value: v, Type: protocol.TypeIntegers}
			want.Arr = append([]kit.Reply(nil), want.Arr...)
			want.Arr[at] = kit.Reply{Kind: ':', Int: v}
		case op == 3 && len(rsp.Items) > 0 && want.Kind == '*' && want.Arr[0].Kind == '$':
			s := bulk(r)
			rsp.Items[0].Value, rsp.Items[0].Type = s, protocol.TypeBulkStrings
			want.Arr = append([]kit.Reply(nil), want.Arr...)
			want.Arr[0] = kit.Reply{Kind: '$', Str: s}
		case op == 4 && want.Kind == '*' && len(rsp.Items) > 1:
			rsp.Items = rsp.Items[:len(rsp.Items)-1]
			want.Arr = want.Arr[:len(want.Arr)-1]
		default:
			continue
		}
		b := encoded(rsp, want)
		if got, left, err := parse(b); err != nil || left > 0 || !got.Equal(want) {
			violation(fmt.Sprintf("%q", clip(b)), "a response that was encoded before and then changed to %s is encoded as %q, which reads as %v (%d bytes too many, %v)", want, clip(b), got, left, err)
		}
		count("responses changed and encoded again", 1)
	}
}

func encoded(rsp *protocol.Response, want kit.Reply) []byte {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 8192)
			violation(string(buf[:runtime.Stack(buf, false)]), "the encoder panics on a response of %s: %v", want, p)
		}
	}()
	return rsp.Encode()
}

func parse(b []byte) (kit.Reply, int, error) {
	rd := bufio.NewReader(bytes.NewReader(b))
	r, err := kit.ReadReply(rd)
	return r, rd.Buffered(), err
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return append(append([]byte(nil), b[:200]...), fmt.Sprintf("...(%d bytes)", len(b))...)
	}
	return b
}

// decodedAgain: a stream of requests made by the encoder, as a client of the
// package sends them, is what the decoder reads; the elements of a request stay
// what they were while others are decoded.
func decodedAgain(r *rand.Rand) {
	var b []byte
	var reqs [][]string
	for i := 2 + r.Intn(10); i > 0; i-- {
		a := genArgs(r)
		reqs = append(reqs, a)
		b = append(b, protocol.NewResponse(true).AppendBulkStrings(a...).Encode()...)
	}
	rd, _, how := readers(b, r, r.Intn(7), nil)
	var recs []*protocol.Receive
	for i, a := range reqs {
		rec, err := safely(rd, kit.Fmt(a))
		if err != nil || !same(rec.Elements, a) {
			violation("", "%s: request %d of the encoder, %s, is decoded as %v, %v", how, i, kit.Fmt(a), rec, err)
		}
		recs = append(recs, rec)
	}
	for i, rec := range recs {
		if !same(rec.Elements, reqs[i]) || rec.OrgStr != string(kit.Enc(reqs[i]...)) {
			violation("", "%s: request %d, %s, has become %v, %q while others were decoded", how, i, kit.Fmt(reqs[i]), rec.Elements, clip([]byte(rec.OrgStr)))
		}
		count("requests encoded and decoded", 1)
		eval(true, how, rec.OrgStr)
	}
}

// sharedResponses: the same responses encoded by several goroutines.
func sharedResponses() {
	var rsps []*protocol.Response
	var want [][]byte
	for i := 0; i < 50; i++ {
		var a []string
		for j := 0; j < i; j++ {
			a = append(a, strings.Repeat(fmt.Sprint(i, ",", j), 1+j%7))
		}
		rsp := protocol.NewResponse(true).AppendBulkStrings(a...)
		if i%5 == 0 {
			rsp, a = protocol.NewResponseWithInteger(int64(i)*1e9), nil
		}
		rsps = append(rsps, rsp)
		want = append(want, rsp.Encode())
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*13 + int64(w)))
			for i := 0; i < 3000*scale; i++ {
				j := r.Intn(len(rsps))
				if b := rsps[j].Encode(); !bytes.Equal(b, want[j]) {
					violation(fmt.Sprintf("%q", clip(want[j])), "a response encoded by several goroutines gives %q, alone %q", clip(b), clip(want[j]))
				}
				count("concurrent encodings", 1)
			}
		}(w)
	}
	wg.Wait()
}

// Package kit holds what every check shares: a strict RESP client, the
// reference model, the server launcher and the verdict/evidence bookkeeping.
package kit

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Reply is one RESP reply. Kind is one of + - : $ *.
type Reply struct {
	Kind byte
	Str  string
	Int  int64
	Arr  []Reply
	Nil  bool
}

func (r Reply) IsErr() bool { return r.Kind == '-' }

func (r Reply) String() string {
	switch r.Kind {
	case '+', '-':
		return fmt.Sprintf("%c%s", r.Kind, Short(r.Str))
	case ':':
		return fmt.Sprintf(":%d", r.Int)
	case '$':
		if r.Nil {
			return "nil"
		}
		return Short(r.Str)
	case '*':
		if r.Nil {
			return "nil-array"
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i, x := range r.Arr {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i >= 24 {
				fmt.Fprintf(&sb, "... %d elements", len(r.Arr))
				break
			}
			sb.WriteString(x.String())
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return fmt.Sprintf("<kind %q>", r.Kind)
}

// Short quotes s, cut to a readable length.
func Short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return strconv.Quote(s)
}

// Equal compares two replies completely.
func (r Reply) Equal(o Reply) bool {
	if r.Kind != o.Kind || r.Str != o.Str || r.Int != o.Int || r.Nil != o.Nil || len(r.Arr) != len(o.Arr) {
		return false
	}
	for i := range r.Arr {
		if !r.Arr[i].Equal(o.Arr[i]) {
			return false
		}
	}
	return true
}

// MalformedError tells that the server sent bytes that are no RESP reply.
type MalformedError struct{ What string }

func (e *MalformedError) Error() string { return "malformed reply: " + e.What }

func malformed(f string, a ...interface{}) error { return &MalformedError{fmt.Sprintf(f, a...)} }

func readLine(r *bufio.Reader) (string, error) {
	line, err := r.ReadBytes('\n')
	if err != nil {
		if err == io.EOF && len(line) > 0 {
			return "", malformed("stream ends inside the line %s", Short(string(line)))
		}
		return "", err
	}
	if len(line) < 2 || line[len(line)-2] != '\r' {
		return "", malformed("line without CRLF: %s", Short(string(line)))
	}
	return string(line[:len(line)-2]), nil
}

func parseLen(s string) (int, error) {
	if s == "-1" {
		return -1, nil
	}
	if s == "" || len(s) > 10 || (len(s) > 1 && s[0] == '0') {
		return 0, malformed("bad length %s", Short(s))
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, malformed("bad length %s", Short(s))
		}
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return 0, malformed("bad length %s", Short(s))
	}
	return n, nil
}

// ReadReply reads exactly one reply, refusing everything that is not strict RESP.
func ReadReply(r *bufio.Reader) (Reply, error) { return readReply(r, 0) }

func readReply(r *bufio.Reader, depth int) (Reply, error) {
	line, err := readLine(r)
	if err != nil {
		if depth > 0 && err == io.EOF {
			err = malformed("stream ends inside an array")
		}
		return Reply{}, err
	}
	if line == "" {
		return Reply{}, malformed("empty line")
	}
	body := line[1:]
	switch line[0] {
	case '+', '-':
		if strings.ContainsAny(body, "\r\n") {
			return Reply{}, malformed("CR or LF inside the line %s", Short(line))
		}
		if line[0] == '-' && depth > 0 {
			// legal RESP, but no command here answers with errors inside arrays
			return Reply{}, malformed("error inside an array: %s", Short(line))
		}
		return Reply{Kind: line[0], Str: body}, nil
	case ':':
		d := strings.TrimPrefix(body, "-")
		if d == "" || strings.Trim(d, "0123456789") != "" {
			return Reply{}, malformed("bad integer %s", Short(line))
		}
		n, err := strconv.ParseInt(body, 10, 64)
		if err != nil {
			return Reply{}, malformed("bad integer %s", Short(line))
		}
		return Reply{Kind: ':', Int: n}, nil
	case '$':
		n, err := parseLen(body)
		if err != nil {
			return Reply{}, err
		}
		if n < 0 {
			return Reply{Kind: '$', Nil: true}, nil
		}
		var bb bytes.Buffer
		if _, err := io.CopyN(&bb, r, int64(n)+2); err != nil {
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				err = malformed("stream ends inside a bulk string of %d bytes", n)
			}
			return Reply{}, err
		}
		b := bb.Bytes()
		if b[n] != '\r' || b[n+1] != '\n' {
			return Reply{}, malformed("bulk string of %d bytes not ended by CRLF", n)
		}
		return Reply{Kind: '$', Str: string(b[:n])}, nil
	case '*':
		n, err := parseLen(body)
		if err != nil {
			return Reply{}, err
		}
		if n < 0 {
			return Reply{Kind: '*', Nil: true}, nil
		}
		rep := Reply{Kind: '*', Arr: make([]Reply, 0, min(n, 1<<16))}
		for i := 0; i < n; i++ {
			e, err := readReply(r, depth+1)
			if err != nil {
				return Reply{}, err
			}
			rep.Arr = append(rep.Arr, e)
		}
		return rep, nil
	}
	return Reply{}, malformed("line %s starts no reply", Short(line))
}

// Enc encodes a request as a RESP array of bulk strings.
func Enc(args ...string) []byte { return AppendEnc(nil, args) }

func AppendEnc(b []byte, args []string) []byte {
	b = append(b, '*')
	b = strconv.AppendInt(b, int64(len(args)), 10)
	b = append(b, '\r', '\n')
	for _, a := range args {
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(a)), 10)
		b = append(b, '\r', '\n')
		b = append(b, a...)
		b = append(b, '\r', '\n')
	}
	return b
}

// ErrStall is returned when no byte arrived for the whole (generous) watchdog.
var ErrStall = errors.New("no reply: watchdog expired")

// StallTicks is the watchdog: so many ticks of 100 ms in which this process
// itself ran. Counting own ticks keeps a frozen machine from raising an alarm.
var StallTicks int64 = 450

// Conn is a client connection.
type Conn struct {
	net.Conn
	R    *bufio.Reader
	last atomic.Int64 // ticks seen at last progress
	Recv atomic.Int64
	// Patience, when set, takes the place of StallTicks.
	Patience int64
}

var ticks atomic.Int64

func init() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			ticks.Add(1)
		}
	}()
}

// Ticks is the number of 100 ms ticks this process has lived through.
func Ticks() int64 { return ticks.Load() }

type progReader struct{ c *Conn }

func (p progReader) Read(b []byte) (int, error) {
	start := ticks.Load()
	for {
		p.c.Conn.SetReadDeadline(time.Now().Add(2 * time.Second))
		n, err := p.c.Conn.Read(b)
		if n > 0 {
			p.c.Recv.Add(int64(n))
			return n, nil
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			if ticks.Load()-start >= max(StallTicks, p.c.Patience) {
				return 0, ErrStall
			}
			continue
		}
		if err == nil {
			continue
		}
		return 0, err
	}
}

func NewConn(c net.Conn) *Conn {
	k := &Conn{Conn: c}
	k.R = bufio.NewReaderSize(progReader{k}, 64<<10)
	return k
}

// Dial connects, retrying while the listen queue is full.
func Dial(addr string) (*Conn, error) {
	var err error
	for i := 0; i < 200; i++ {
		var c net.Conn
		c, err = net.DialTimeout("tcp", addr, 20*time.Second)
		if err == nil {
			return NewConn(c), nil
		}
		time.Sleep(50 * time.Millisecond)
		if i >= 20 && strings.Contains(err.Error(), "refused") {
			break
		}
	}
	return nil, err
}

// Read one reply.
func (c *Conn) Reply() (Reply, error) { return ReadReply(c.R) }

// Send writes raw bytes.
func (c *Conn) Send(b []byte) error {
	c.Conn.SetWriteDeadline(time.Now().Add(120 * time.Second))
	_, err := c.Conn.Write(b)
	return err
}

// Do sends one request and waits for its reply.
func (c *Conn) Do(args ...string) (Reply, error) {
	if err := c.Send(Enc(args...)); err != nil {
		return Reply{}, err
	}
	return c.Reply()
}

// Pipeline sends all requests without waiting, then reads all replies. The
// sending runs beside the reading so that neither side's buffers can block.
func (c *Conn) Pipeline(cmds [][]string) ([]Reply, error) { return c.PipelineBy(cmds, c.Send, nil) }

// PipelineBy is Pipeline with the bytes handed to send.
func (c *Conn) PipelineBy(cmds [][]string, send func([]byte) error, hold <-chan struct{}) ([]Reply, error) {
	var b []byte
	for _, a := range cmds {
		b = AppendEnc(b, a)
	}
	errc := make(chan error, 1)
	go func() { errc <- send(b) }()
	if hold != nil {
		<-hold
	}
	out := make([]Reply, 0, len(cmds))
	for range cmds {
		r, err := c.Reply()
		if err != nil {
			return out, err
		}
		out = append(out, r)
	}
	if err := <-errc; err != nil {
		return out, err
	}
	return out, nil
}

// CloseRST closes with a reset instead of an orderly end.
func (c *Conn) CloseRST() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Conn.Close()
}

// Extra tells whether unread bytes are waiting (after giving them d to arrive).
func (c *Conn) Extra(d time.Duration) (string, bool) {
	if c.R.Buffered() > 0 {
		b, _ := c.R.Peek(min(c.R.Buffered(), 64))
		return string(b), true
	}
	c.Conn.SetReadDeadline(time.Now().Add(d))
	var one [64]byte
	n, _ := c.Conn.Read(one[:])
	return string(one[:n]), n > 0
}

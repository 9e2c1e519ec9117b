package kit

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Session drives one server through one connection and judges every reply
// with its model. The keys it uses must be touched by nobody else.
type Session struct {
	R    *Report
	S    *Server
	C    *Conn
	M    *Model
	Name string
	hist []histEnt
	Rnd  *rand.Rand // batch sizes
	// Sentinel, when set, sends a PING after every command and wants its PONG.
	Sentinel bool
	NoCount  bool
	// SendBy, when set, writes the bytes of a batch to the connection.
	SendBy func(c *Conn, b []byte) error
	// MaxBatch is the widest pipeline (64 when 0).
	MaxBatch int
	// Prefix of all keys of this session, when others use the same server.
	Prefix string
	// AuditRefused has all data read after each command that is refused.
	AuditRefused bool
	// Hold, when set, delays the reading of replies until it is closed.
	Hold <-chan struct{}
}

type histEnt struct {
	args []string
	rep  string
}

// NewSession connects to s.
func NewSession(r *Report, s *Server, name string, seed int64) *Session {
	c, err := Dial(s.Addr)
	if err != nil {
		Diagnose(r, s, "connect: "+err.Error())
	}
	return &Session{R: r, S: s, C: c, M: NewModel(), Name: name, Rnd: rand.New(rand.NewSource(seed))}
}

// Diagnose reports what an unexpected end or silence of a connection means.
func Diagnose(r *Report, s *Server, what string, witness ...string) {
	if !s.Wait(5) {
		if c := s.Crash(); c != "" {
			r.Violation(what+"; the server logged a crash", append(witness, c)...)
		}
		// still running: does it serve others?
		k, err := Dial(s.Addr)
		if err == nil {
			var rep Reply
			if rep, err = k.Do("PING"); err == nil {
				r.Violation(fmt.Sprintf("%s (server is alive and answers another connection with %s)", what, rep), witness...)
			}
		}
		r.Violation(fmt.Sprintf("%s (server process is alive but does not serve: %v)", what, err), witness...)
	}
	r.Violation(fmt.Sprintf("%s; the server process ended: %v", what, s.ExitErr()), append(witness, s.Log(4000))...)
}

// Trace lists the latest commands that share a key with args.
func (s *Session) Trace(args []string) string {
	rel := map[string]bool{}
	for _, a := range args[1:] {
		rel[a] = true
	}
	var out []string
	for i := len(s.hist) - 1; i >= 0 && len(out) < 400; i-- {
		h := s.hist[i]
		hit := len(args) == 1
		for _, a := range h.args[1:] {
			if rel[a] {
				hit = true
			}
		}
		if hit {
			out = append(out, fmt.Sprintf("#%d %s -> %s", i, Fmt(h.args), h.rep))
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return fmt.Sprintf("latest commands of session %s that share an argument (of %d in all):\n%s", s.Name, len(s.hist), strings.Join(out, "\n"))
}

// Fmt writes a request readably.
func Fmt(args []string) string {
	p := make([]string, 0, len(args))
	for i, a := range args {
		if i >= 40 {
			p = append(p, fmt.Sprintf("...(%d args)", len(args)))
			break
		}
		p = append(p, Short(a))
	}
	return strings.Join(p, " ")
}

func (s *Session) keep(args []string, rep Reply) {
	r := rep.String()
	if len(r) > 300 {
		r = r[:300] + "..."
	}
	s.hist = append(s.hist, histEnt{args, r})
	if len(s.hist) > 60000 {
		s.hist = append([]histEnt(nil), s.hist[20000:]...)
	}
}

// Run sends the commands pipelined in batches and judges each reply.
func (s *Session) Run(cmds ...[]string) {
	if s.AuditRefused {
		for _, c := range cmds {
			if s.Do(c...).IsErr() {
				s.AuditRefused = false
				s.Audit(c[1:min(len(c), 8)], 5)
				s.AuditRefused = true
				s.R.Count("refused commands of the sweeps with the data set read afterwards", 1)
			}
		}
		return
	}
	for len(cmds) > 0 {
		n := 1
		if s.Rnd.Intn(4) > 0 {
			w := s.MaxBatch
			if w == 0 {
				w = 64
			}
			n = 1 + s.Rnd.Intn(w)
		}
		if n > len(cmds) {
			n = len(cmds)
		}
		s.batch(cmds[:n])
		cmds = cmds[n:]
	}
}

// RunBatch sends all commands as one pipeline.
func (s *Session) RunBatch(cmds [][]string) { s.batch(cmds) }

func (s *Session) batch(cmds [][]string) {
	send := cmds
	if s.Sentinel {
		send = make([][]string, 0, 2*len(cmds))
		for _, c := range cmds {
			send = append(send, c, []string{"PING"})
		}
	}
	by := s.C.Send
	if s.SendBy != nil {
		by = func(b []byte) error { return s.SendBy(s.C, b) }
	}
	reps, err := s.C.PipelineBy(send, by, s.Hold)
	for i, r := range reps {
		c := send[i]
		if s.Sentinel && i%2 == 1 {
			if r.Kind != '+' || r.Str != "PONG" {
				s.R.Violation(fmt.Sprintf("the PING after %s was answered %s: the command did not give exactly one reply", Fmt(send[i-1]), r), s.Trace(send[i-1]))
			}
			continue
		}
		if s.Sentinel && !KindOK(c, r) {
			s.R.Violation(fmt.Sprintf("%s was answered %s, a reply of another kind", Fmt(c), r), s.Trace(c))
		}
		s.judge(c, r)
	}
	if err != nil {
		at := []string{"?"}
		if len(reps) < len(send) {
			at = send[len(reps)]
		}
		what := fmt.Sprintf("waiting for the reply to %s: %v", Fmt(at), err)
		var me *MalformedError
		if errors.As(err, &me) {
			if !s.S.Wait(3) {
				s.R.Violation(what, s.Trace(at))
			}
		}
		Diagnose(s.R, s.S, what, s.Trace(at))
	}
}

func (s *Session) judge(c []string, r Reply) {
	s.keep(c, r)
	if err := s.M.Step(c, r); err != nil {
		s.R.Violation(fmt.Sprintf("%s -> %s: %v", Fmt(c), r, err), s.Trace(c))
	}
	if s.NoCount {
		return
	}
	name := asciiLower(c[0])
	if !known[name] {
		s.R.Count("unknown names called", 1)
	} else if r.IsErr() {
		s.R.Count("err "+name, 1)
	} else {
		s.R.Count("ok "+name, 1)
	}
	triv := r.IsErr() || isEmpty(r) || name == "ping" || (r.Kind == ':' && r.Int == 0)
	if len(c) < 12 {
		s.R.Eval(!triv, append(append([]string{}, c...), r.String())...)
	} else {
		s.R.Eval(!triv, append(append([]string{}, c[:12]...), r.String())...)
	}
}

// Do runs one command and returns its reply after judging it.
func (s *Session) Do(args ...string) Reply {
	r, err := s.C.Do(args...)
	if err != nil {
		Diagnose(s.R, s.S, fmt.Sprintf("waiting for the reply to %s: %v", Fmt(args), err), s.Trace(args))
	}
	s.judge(args, r)
	return r
}

// AuditCmds lists reads that show the whole value of a key from every side.
func AuditCmds(m *Model, k string, rnd *rand.Rand, deep int) [][]string {
	out := [][]string{{"TYPE", k}, {"EXISTS", k}}
	v := m.K[k]
	add := func(a ...string) { out = append(out, a) }
	if v == nil {
		add("GET", k)
		add("LLEN", k)
		add("LRANGE", k, "0", "-1")
		add("SMEMBERS", k)
		add("SCARD", k)
		add("HGETALL", k)
		add("HLEN", k)
		add("ZCARD", k)
		add("ZRANGE", k, "0", "-1", "WITHSCORES")
		return out
	}
	switch v.T {
	case 's':
		add("GET", k)
	case 'l':
		n := len(v.L)
		add("LLEN", k)
		add("LRANGE", k, "0", "-1")
		add("LRANGE", k, strconv.Itoa(-n), strconv.Itoa(n-1))
		pick := idx(n, deep, rnd)
		for _, i := range pick {
			add("LINDEX", k, strconv.Itoa(i))
			add("LINDEX", k, strconv.Itoa(i-n))
		}
		add("LINDEX", k, strconv.Itoa(n))
		add("LINDEX", k, strconv.Itoa(-n-1))
		if n > 2 {
			i := rnd.Intn(n)
			j := rnd.Intn(n)
			add("LRANGE", k, strconv.Itoa(i), strconv.Itoa(j))
			add("LRANGE", k, strconv.Itoa(i-n), strconv.Itoa(j-n))
		}
	case 'h':
		add("HLEN", k)
		add("HKEYS", k)
		add("HVALS", k)
		add("HGETALL", k)
		fs := make([]string, 0, len(v.H))
		for f := range v.H {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		mg := []string{"HMGET", k}
		for _, i := range idx(len(fs), deep, rnd) {
			add("HGET", k, fs[i])
			add("HEXISTS", k, fs[i])
			mg = append(mg, fs[i])
		}
		add(append(mg, "\x00nofield")...)
		add("HGET", k, "\x00nofield")
	case 'S':
		add("SCARD", k)
		add("SMEMBERS", k)
		ms := v.members()
		for _, i := range idx(len(ms), deep, rnd) {
			add("SISMEMBER", k, ms[i])
		}
		add("SISMEMBER", k, "\x00nomember")
		add("SUNION", k)
	case 'z':
		o := v.order()
		n := len(o)
		add("ZCARD", k)
		add("ZRANGE", k, "0", "-1", "WITHSCORES")
		add("ZREVRANGE", k, "0", "-1", "WITHSCORES")
		add("ZCOUNT", k, "-inf", "+inf")
		add("ZRANGEBYSCORE", k, "-inf", "+inf")
		for _, i := range idx(n, deep, rnd) {
			add("ZRANK", k, o[i].M)
			add("ZSCORE", k, o[i].M)
			add("ZRANGE", k, strconv.Itoa(i), strconv.Itoa(i))
			if !math.IsInf(o[i].S, 0) {
				f := strconv.FormatFloat(o[i].S, 'g', -1, 64)
				add("ZCOUNT", k, "-inf", "("+f)
				add("ZCOUNT", k, f, "+inf")
			}
		}
		add("ZRANK", k, "\x00nomember")
		if n > 2 {
			i := rnd.Intn(n)
			add("ZREVRANGE", k, strconv.Itoa(i), strconv.Itoa(i+3))
			add("ZRANGE", k, strconv.Itoa(i), strconv.Itoa(i+3), "WITHSCORES")
		}
	}
	return out
}

// idx picks all of n indexes when few, else deep random ones and the ends.
func idx(n, deep int, rnd *rand.Rand) []int {
	if n <= deep || n <= 4 {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	r := []int{0, 1, n - 2, n - 1}
	for len(r) < deep {
		r = append(r, rnd.Intn(n))
	}
	return r
}

// Audit reads everything: every key of the pool and of the model.
func (s *Session) Audit(pool []string, deep int) {
	seen := map[string]bool{}
	var ks []string
	for _, k := range pool {
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	var rest []string
	for k := range s.M.K {
		if !seen[k] {
			rest = append(rest, k)
		}
	}
	sort.Strings(rest)
	var cmds [][]string
	cmds = append(cmds, []string{"KEYS", EscapeGlob(s.Prefix) + "*"})
	for _, k := range append(ks, rest...) {
		cmds = append(cmds, AuditCmds(s.M, k, s.Rnd, deep)...)
	}
	s.Run(cmds...)
	s.R.Count("full audits", 1)
}

// Tail shows the last n judged commands.
func (s *Session) Tail(n int) string {
	var p []string
	for i := max(0, len(s.hist)-n); i < len(s.hist); i++ {
		r := s.hist[i].rep
		if len(r) > 120 {
			r = r[:120] + "..."
		}
		p = append(p, Fmt(s.hist[i].args)+" -> "+r)
	}
	return strings.Join(p, "; ")
}

// SortedKeys lists the keys the model holds.
func SortedKeys(m *Model) []string {
	ks := make([]string, 0, len(m.K))
	for k := range m.K {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

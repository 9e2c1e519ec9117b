package kit

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Model is the executable reference: a plain, single-threaded data set. Step
// judges one observed (request, reply) pair and moves to the state after it.
// Where the documented behaviour leaves room (order of members, which members
// SPOP takes, the way an absent element is refused) every permitted reply is
// accepted and the state follows the reply.
type Model struct {
	K map[string]*Val
}

// Val is the value of one key.
type Val struct {
	T byte // 's' string, 'l' list, 'h' hash, 'S' set, 'z' sorted set
	S string
	L []string
	H map[string]HVal
	M map[string]struct{}
	Z map[string]float64
	o []ZM // cached order of Z
}

// HVal is a hash field. Float is set when HINCRBYFLOAT wrote it last: then its
// text only has to denote the same number.
type HVal struct {
	S     string
	Float bool
}

// ZM is a sorted set member.
type ZM struct {
	M string
	S float64
}

func NewModel() *Model { return &Model{K: map[string]*Val{}} }

// Clone copies the whole state.
func (m *Model) Clone() *Model {
	n := NewModel()
	for k, v := range m.K {
		n.K[k] = v.Clone()
	}
	return n
}

// Clone copies a value.
func (v *Val) Clone() *Val {
	w := &Val{T: v.T, S: v.S}
	switch v.T {
	case 'l':
		w.L = append([]string(nil), v.L...)
	case 'h':
		w.H = make(map[string]HVal, len(v.H))
		for a, b := range v.H {
			w.H[a] = b
		}
	case 'S':
		w.M = make(map[string]struct{}, len(v.M))
		for a := range v.M {
			w.M[a] = struct{}{}
		}
	case 'z':
		w.Z = make(map[string]float64, len(v.Z))
		for a, b := range v.Z {
			w.Z[a] = b
		}
	}
	return w
}

// Canon is a canonical text of the state, for comparing states.
func (m *Model) Canon() string {
	ks := make([]string, 0, len(m.K))
	for k := range m.K {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		v := m.K[k]
		fmt.Fprintf(&sb, "%q=%c", k, v.T)
		switch v.T {
		case 's':
			fmt.Fprintf(&sb, "%q", v.S)
		case 'l':
			fmt.Fprintf(&sb, "%q", v.L)
		case 'h':
			fs := make([]string, 0, len(v.H))
			for f := range v.H {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				fmt.Fprintf(&sb, "%q:%q,", f, v.H[f].S)
			}
		case 'S':
			fmt.Fprintf(&sb, "%q", v.members())
		case 'z':
			for _, x := range v.order() {
				fmt.Fprintf(&sb, "%q:%v,", x.M, x.S)
			}
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

func (v *Val) members() []string {
	r := make([]string, 0, len(v.M))
	for x := range v.M {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

func (v *Val) order() []ZM {
	if v.o == nil {
		v.o = make([]ZM, 0, len(v.Z))
		for a, b := range v.Z {
			v.o = append(v.o, ZM{a, b})
		}
		sort.Slice(v.o, func(i, j int) bool {
			if v.o[i].S != v.o[j].S {
				return v.o[i].S < v.o[j].S
			}
			return v.o[i].M < v.o[j].M
		})
	}
	return v.o
}

// TypeName is the name TYPE replies.
// Order is the sorted set at k, in order.
func (m *Model) Order(k string) []ZM { return m.K[k].order() }

func TypeName(t byte) string {
	switch t {
	case 's':
		return "string"
	case 'l':
		return "list"
	case 'h':
		return "hash"
	case 'S':
		return "set"
	case 'z':
		return "zset"
	}
	return "none"
}

func (m *Model) get(k string) *Val { return m.K[k] }

// drop removes k when its collection has become empty.
func (m *Model) drop(k string) {
	v := m.K[k]
	if v == nil {
		return
	}
	if (v.T == 'l' && len(v.L) == 0) || (v.T == 'h' && len(v.H) == 0) || (v.T == 'S' && len(v.M) == 0) || (v.T == 'z' && len(v.Z) == 0) {
		delete(m.K, k)
	}
}

func bad(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func wantErr(r Reply, why string) error {
	if r.IsErr() {
		return nil
	}
	return bad("must be refused (%s) but replied %s", why, r)
}

func wantInt(r Reply, n int64) error {
	if r.Kind == ':' && r.Int == n {
		return nil
	}
	return bad("want :%d, got %s", n, r)
}

func wantOK(r Reply) error {
	if r.Kind == '+' && r.Str == "OK" {
		return nil
	}
	return bad("want +OK, got %s", r)
}

func isNil(r Reply) bool   { return (r.Kind == '$' || r.Kind == '*') && r.Nil }
func isEmpty(r Reply) bool { return isNil(r) || (r.Kind == '*' && len(r.Arr) == 0) }

func wantNil(r Reply) error {
	if isNil(r) {
		return nil
	}
	return bad("want nil, got %s", r)
}

func wantEmpty(r Reply) error {
	if isEmpty(r) {
		return nil
	}
	return bad("want nothing (nil or empty array), got %s", r)
}

func wantBulk(r Reply, s string) error {
	if r.Kind == '$' && !r.Nil && r.Str == s {
		return nil
	}
	return bad("want %s, got %s", Short(s), r)
}

func wantNum(r Reply, f float64) error {
	if r.Kind == '$' && !r.Nil {
		if g, ok := parseF(r.Str); ok && sameF(f, g) {
			return nil
		}
	}
	return bad("want the number %v, got %s", f, r)
}

func parseF(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil && !math.IsNaN(f)
}

func sameF(a, b float64) bool {
	return a == b
}

// strs turns an array reply of bulk strings into its strings.
func strs(r Reply) ([]string, error) {
	if r.Kind != '*' || r.Nil {
		return nil, bad("want an array, got %s", r)
	}
	out := make([]string, len(r.Arr))
	for i, e := range r.Arr {
		if e.Kind != '$' || e.Nil {
			return nil, bad("element %d is no string but %s", i, e)
		}
		out[i] = e.Str
	}
	return out, nil
}

func wantList(r Reply, l []string) error {
	if len(l) == 0 {
		return wantEmpty(r)
	}
	g, err := strs(r)
	if err != nil {
		return err
	}
	for i := range l {
		if i < len(g) && g[i] != l[i] {
			return bad("element %d: want %s, got %s (want %d elements, got %d)", i, Short(l[i]), Short(g[i]), len(l), len(g))
		}
	}
	if len(g) != len(l) {
		return bad("want %d elements, got %d: %s", len(l), len(g), r)
	}
	return nil
}

// wantMembers compares as multisets without duplicates allowed.
func wantMembers(r Reply, want map[string]struct{}) error {
	if len(want) == 0 {
		return wantEmpty(r)
	}
	g, err := strs(r)
	if err != nil {
		return err
	}
	seen := make(map[string]struct{}, len(g))
	for _, x := range g {
		if _, ok := want[x]; !ok {
			return bad("%s listed but not a member", Short(x))
		}
		if _, ok := seen[x]; ok {
			return bad("%s listed twice", Short(x))
		}
		seen[x] = struct{}{}
	}
	if len(g) != len(want) {
		for x := range want {
			if _, ok := seen[x]; !ok {
				return bad("member %s missing (want %d, got %d)", Short(x), len(want), len(g))
			}
		}
	}
	return nil
}

func wantZ(r Reply, l []ZM, scores bool) error {
	if len(l) == 0 {
		return wantEmpty(r)
	}
	g, err := strs(r)
	if err != nil {
		return err
	}
	step := 1
	if scores {
		step = 2
	}
	if len(g)%step != 0 {
		return bad("odd number of elements in %s", r)
	}
	for i := range l {
		if i*step >= len(g) {
			break
		}
		if g[i*step] != l[i].M {
			return bad("position %d: want member %s, got %s", i, Short(l[i].M), Short(g[i*step]))
		}
		if scores {
			if f, ok := parseF(g[i*2+1]); !ok || !sameF(f, l[i].S) {
				return bad("position %d (%s): want score %v, got %s", i, Short(l[i].M), l[i].S, Short(g[i*2+1]))
			}
		}
	}
	if len(g) != len(l)*step {
		return bad("want %d members, got %d: %s", len(l), len(g)/step, r)
	}
	return nil
}

// intArg: ok tells s denotes a 64-bit integer, canon that it is its canonical text.
func intArg(s string) (n int64, ok, canon bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil, err == nil && strconv.FormatInt(n, 10) == s
}

// floatArg: ok tells that s denotes a number, plain that it is written in plain
// decimal notation (or ±inf), which nobody can refuse.
func floatArg(s string) (f float64, ok, plain bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return 0, false, false
	}
	plain = s == "+inf" || s == "-inf" || s == "inf"
	if !plain {
		t := strings.TrimPrefix(s, "-")
		digits, dots, exp := 0, 0, 0
		plain = true
		for i := 0; i < len(t); i++ {
			switch c := t[i]; {
			case c >= '0' && c <= '9':
				digits++
			case c == '.' && i > 0 && i < len(t)-1:
				dots++
			case c == 'e' && digits > 0:
				exp++
			case (c == '-' || c == '+') && i > 0 && t[i-1] == 'e':
			default:
				plain = false
			}
		}
		if digits == 0 || dots > 1 || exp > 1 {
			plain = false
		}
	}
	return f, true, plain
}

type bound struct {
	f     float64
	open  bool
	ok    bool
	plain bool
}

func boundArg(s string) bound {
	t := strings.ToLower(s)
	var b bound
	if strings.HasPrefix(t, "(") {
		b.open = true
		t = t[1:]
	}
	b.f, b.ok, b.plain = floatArg(t)
	return b
}

func (b bound) above(f float64) bool { return f > b.f || (!b.open && f == b.f) } // as lower bound
func (b bound) below(f float64) bool { return f < b.f || (!b.open && f == b.f) } // as upper bound

func addOK(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

// ErrUnknown is returned by Step for a command name the model does not know.
var ErrUnknown = errors.New("no such command")

// Commands lists every supported command.
var Commands = strings.Fields(`set mset get mget incr incrby decr decrby append
keys exists del type ping command
lpush lpop rpush rpop llen lrange lrem lindex lset linsert
hdel hexists hget hgetall hincrby hincrbyfloat hkeys hlen hmget hmset hset hsetnx hvals
sadd scard sdiff sdiffstore sinter sinterstore sunion sunionstore sismember smembers smove srem spop
zadd zscore zrank zrem zcard zcount zincr zrange zrangebyscore zrevrange zpopmin zpopmax`)

var known = func() map[string]bool {
	m := map[string]bool{}
	for _, c := range Commands {
		m[c] = true
	}
	return m
}()

// Known tells whether name (any case) is a supported command.
func Known(name string) bool { return known[asciiLower(name)] }

// MinArgs is the smallest number of arguments after the name.
var MinArgs = map[string]int{
	"set": 2, "mset": 2, "get": 1, "mget": 1, "incr": 1, "incrby": 2, "decr": 1, "decrby": 2, "append": 2,
	"keys": 1, "exists": 1, "del": 1, "type": 1, "ping": 0, "command": 0,
	"lpush": 2, "lpop": 1, "rpush": 2, "rpop": 1, "llen": 1, "lrange": 3, "lrem": 3, "lindex": 2, "lset": 3, "linsert": 4,
	"hdel": 2, "hexists": 2, "hget": 2, "hgetall": 1, "hincrby": 3, "hincrbyfloat": 3, "hkeys": 1, "hlen": 1, "hmget": 2, "hmset": 3, "hset": 3, "hsetnx": 3, "hvals": 1,
	"sadd": 2, "scard": 1, "sdiff": 1, "sdiffstore": 2, "sinter": 1, "sinterstore": 2, "sunion": 1, "sunionstore": 2, "sismember": 2, "smembers": 1, "smove": 3, "srem": 2, "spop": 1,
	"zadd": 3, "zscore": 2, "zrank": 2, "zrem": 2, "zcard": 1, "zcount": 3, "zincr": 3, "zrange": 3, "zrangebyscore": 3, "zrevrange": 3, "zpopmin": 1, "zpopmax": 1,
}

var typeOf = func() map[string]byte {
	m := map[string]byte{}
	for _, c := range Commands {
		switch c {
		case "set", "mset", "mget", "keys", "exists", "del", "type", "ping", "command":
		case "get", "incr", "incrby", "decr", "decrby", "append":
			m[c] = 's'
		default:
			switch c[0] {
			case 'l', 'r':
				m[c] = 'l'
			case 'h':
				m[c] = 'h'
			case 's':
				m[c] = 'S'
			case 'z':
				m[c] = 'z'
			}
		}
	}
	return m
}()

// TypeOf is the type a command works on, 0 when it takes keys of any type.
func TypeOf(cmd string) byte { return typeOf[cmd] }

// Step judges reply r to args and applies the effect. A nil error means the
// reply is one the state permits.
func (m *Model) Step(args []string, r Reply) error {
	if len(args) == 0 {
		return errors.New("empty request")
	}
	name := asciiLower(args[0])
	a := args[1:]
	if !known[name] {
		return wantErr(r, "unknown command")
	}
	if len(a) < MinArgs[name] {
		return wantErr(r, "missing arguments")
	}
	switch name {
	case "ping":
		if r.Kind == '+' && r.Str == "PONG" {
			return nil
		}
		return bad("want +PONG, got %s", r)
	case "command":
		if r.IsErr() {
			return bad("COMMAND refused: %s", r)
		}
		return nil
	case "set", "mset", "mget", "exists", "del", "type", "keys":
		return m.stepAny(name, a, r)
	}
	t := typeOf[name]
	switch name {
	case "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore":
		return m.stepAlgebra(name, a, r)
	case "smove":
		return m.stepMove(a, r)
	}
	v := m.get(a[0])
	if v != nil && v.T != t {
		return wantErr(r, "the key holds a "+TypeName(v.T))
	}
	switch t {
	case 's':
		return m.stepString(name, a, v, r)
	case 'l':
		return m.stepList(name, a, v, r)
	case 'h':
		return m.stepHash(name, a, v, r)
	case 'S':
		return m.stepSet(name, a, v, r)
	case 'z':
		return m.stepZ(name, a, v, r)
	}
	return ErrUnknown
}

func (m *Model) stepAny(name string, a []string, r Reply) error {
	switch name {
	case "set":
		if len(a) > 2 && r.IsErr() {
			return nil
		}
		if err := wantOK(r); err != nil {
			return err
		}
		m.K[a[0]] = &Val{T: 's', S: a[1]}
	case "mset":
		if len(a)%2 != 0 {
			return wantErr(r, "odd number of arguments")
		}
		if err := wantOK(r); err != nil {
			return err
		}
		for i := 0; i < len(a); i += 2 {
			m.K[a[i]] = &Val{T: 's', S: a[i+1]}
		}
	case "mget":
		if r.Kind != '*' || r.Nil || len(r.Arr) != len(a) {
			return bad("want an array of %d, got %s", len(a), r)
		}
		for i, k := range a {
			v := m.get(k)
			if v == nil || v.T != 's' {
				if !isNil(r.Arr[i]) {
					return bad("position %d (%s): want nil, got %s", i, Short(k), r.Arr[i])
				}
			} else if err := wantBulk(r.Arr[i], v.S); err != nil {
				return bad("position %d (%s): %v", i, Short(k), err)
			}
		}
	case "exists":
		n := int64(0)
		for _, k := range a {
			if m.get(k) != nil {
				n++
			}
		}
		return wantInt(r, n)
	case "del":
		n := int64(0)
		seen := map[string]bool{}
		for _, k := range a {
			if m.get(k) != nil && !seen[k] {
				n++
			}
			seen[k] = true
		}
		if err := wantInt(r, n); err != nil {
			return err
		}
		for _, k := range a {
			delete(m.K, k)
		}
	case "type":
		want := "none"
		if v := m.get(a[0]); v != nil {
			want = TypeName(v.T)
		}
		if (r.Kind == '+' || r.Kind == '$') && !r.Nil && r.Str == want {
			return nil
		}
		return bad("want %s, got %s", want, r)
	case "keys":
		g, valid := parseGlob(a[0])
		if r.IsErr() {
			if valid {
				return bad("valid pattern refused: %s", r)
			}
			return nil
		}
		if !valid && r.Kind != '*' && !r.Nil {
			return bad("want an array or an error, got %s", r)
		}
		var got []string
		if !isEmpty(r) {
			var err error
			if got, err = strs(r); err != nil {
				return err
			}
		}
		seen := map[string]bool{}
		for _, k := range got {
			if seen[k] {
				return bad("key %s listed twice", Short(k))
			}
			seen[k] = true
			if m.get(k) == nil {
				return bad("key %s listed but does not exist", Short(k))
			}
			if !valid {
				continue // nothing is said about what it matches
			}
			if b, u := g.matchBoth(k); !b && !u {
				return bad("key %s listed but does not match %s", Short(k), Short(a[0]))
			}
		}
		for k := range m.K {
			if !valid {
				break
			}
			if b, u := g.matchBoth(k); b && u && !seen[k] {
				return bad("key %s matches %s but is not listed", Short(k), Short(a[0]))
			}
		}
	}
	return nil
}

func (m *Model) stepString(name string, a []string, v *Val, r Reply) error {
	switch name {
	case "get":
		if v == nil {
			return wantNil(r)
		}
		return wantBulk(r, v.S)
	case "append":
		cur := ""
		if v != nil {
			cur = v.S
		}
		if err := wantInt(r, int64(len(cur)+len(a[1]))); err != nil {
			return err
		}
		m.K[a[0]] = &Val{T: 's', S: cur + a[1]}
		return nil
	}
	by, either := int64(1), false
	switch name {
	case "decr":
		by = -1
	case "incrby", "decrby":
		n, ok, canon := intArg(a[1])
		if !ok {
			return wantErr(r, "no integer")
		}
		either = !canon
		if name == "decrby" {
			if n == math.MinInt64 {
				// -n does not fit; exact arithmetic on the value may still fit
				cur := int64(0)
				if v != nil {
					c, ok, _ := intArg(v.S)
					if !ok {
						return wantErr(r, "value is no integer")
					}
					cur = c
				}
				if r.IsErr() {
					return nil
				}
				x := new(big.Int).Sub(big.NewInt(cur), big.NewInt(n))
				if !x.IsInt64() {
					return wantErr(r, "overflow")
				}
				if err := wantInt(r, x.Int64()); err != nil {
					return err
				}
				m.K[a[0]] = &Val{T: 's', S: x.String()}
				return nil
			}
			n = -n
		}
		by = n
	}
	cur := int64(0)
	if v != nil {
		n, ok, canon := intArg(v.S)
		if !ok {
			return wantErr(r, "value is no integer")
		}
		either = either || !canon
		cur = n
	}
	res, ok := addOK(cur, by)
	if !ok {
		return wantErr(r, "overflow")
	}
	if either && r.IsErr() {
		return nil
	}
	if err := wantInt(r, res); err != nil {
		return err
	}
	m.K[a[0]] = &Val{T: 's', S: strconv.FormatInt(res, 10)}
	return nil
}

// span clamps a [start, stop] range with negative indexes to n elements.
func span(start, stop int64, n int) (int, int) {
	l := int64(n)
	if start < 0 {
		if start += l; start < 0 {
			start = 0
		}
	}
	if stop < 0 {
		stop += l
	}
	if stop >= l {
		stop = l - 1
	}
	if start > stop || start >= l {
		return 0, 0
	}
	return int(start), int(stop) + 1
}

func (m *Model) stepList(name string, a []string, v *Val, r Reply) error {
	var l []string
	if v != nil {
		l = v.L
	}
	switch name {
	case "lpush", "rpush":
		if err := wantInt(r, int64(len(l)+len(a)-1)); err != nil {
			return err
		}
		if v == nil {
			v = &Val{T: 'l'}
			m.K[a[0]] = v
		}
		if name == "rpush" {
			v.L = append(v.L, a[1:]...)
		} else {
			n := make([]string, 0, len(v.L)+len(a))
			for i := len(a) - 1; i >= 1; i-- {
				n = append(n, a[i])
			}
			v.L = append(n, v.L...)
		}
		return nil
	case "lpop", "rpop":
		cnt := int64(1)
		if len(a) > 1 {
			n, ok, canon := intArg(a[1])
			if !ok {
				if v == nil && isEmpty(r) {
					return nil
				}
				return wantErr(r, "count is no integer")
			}
			if n <= 0 {
				if r.IsErr() || isEmpty(r) {
					return nil
				}
				return bad("pop of %d must give nothing, got %s", n, r)
			}
			if !canon && r.IsErr() {
				return nil
			}
			cnt = n
		}
		if v == nil {
			return wantEmpty(r)
		}
		k := len(l)
		if cnt < int64(k) {
			k = int(cnt)
		}
		want := make([]string, k)
		for i := range want {
			if name == "lpop" {
				want[i] = l[i]
			} else {
				want[i] = l[len(l)-1-i]
			}
		}
		if len(a) == 1 && r.Kind == '$' {
			if err := wantBulk(r, want[0]); err != nil {
				return err
			}
		} else if err := wantList(r, want); err != nil {
			return err
		}
		if name == "lpop" {
			v.L = append([]string(nil), l[k:]...)
		} else {
			v.L = l[: len(l)-k : len(l)-k]
		}
		m.drop(a[0])
		return nil
	case "llen":
		return wantInt(r, int64(len(l)))
	case "lrange":
		x, ok1, c1 := intArg(a[1])
		y, ok2, c2 := intArg(a[2])
		if !ok1 || !ok2 {
			if v == nil && isEmpty(r) {
				return nil
			}
			return wantErr(r, "index is no integer")
		}
		if !(c1 && c2) && r.IsErr() {
			return nil
		}
		i, j := span(x, y, len(l))
		return wantList(r, l[i:j])
	case "lindex":
		x, ok, canon := intArg(a[1])
		if !ok {
			if v == nil && isNil(r) {
				return nil
			}
			return wantErr(r, "index is no integer")
		}
		if !canon && r.IsErr() {
			return nil
		}
		if x < 0 {
			x += int64(len(l))
		}
		if x < 0 || x >= int64(len(l)) {
			return wantNil(r)
		}
		return wantBulk(r, l[x])
	case "lset":
		x, ok, canon := intArg(a[1])
		if !ok {
			return wantErr(r, "index is no integer")
		}
		if !canon && r.IsErr() {
			return nil
		}
		if x < 0 {
			x += int64(len(l))
		}
		if x < 0 || x >= int64(len(l)) {
			return wantErr(r, "index out of range")
		}
		if err := wantOK(r); err != nil {
			return err
		}
		v.L[x] = a[2]
		return nil
	case "linsert":
		w := strings.ToLower(a[1])
		if w != "before" && w != "after" {
			return wantErr(r, "neither BEFORE nor AFTER")
		}
		at := -1
		for i, e := range l {
			if e == a[2] {
				at = i
				break
			}
		}
		if at < 0 {
			if r.IsErr() || (r.Kind == ':' && r.Int <= 0) {
				return nil
			}
			return bad("pivot absent, but replied %s", r)
		}
		if err := wantInt(r, int64(len(l)+1)); err != nil {
			return err
		}
		if w == "after" {
			at++
		}
		n := make([]string, 0, len(l)+1)
		n = append(n, l[:at]...)
		n = append(n, a[3])
		v.L = append(n, l[at:]...)
		return nil
	case "lrem":
		x, ok, canon := intArg(a[1])
		if !ok {
			if v == nil && r.Kind == ':' && r.Int == 0 {
				return nil
			}
			return wantErr(r, "count is no integer")
		}
		if !canon && r.IsErr() {
			return nil
		}
		var occ []int
		for i, e := range l {
			if e == a[2] {
				occ = append(occ, i)
			}
		}
		switch {
		case x > 0 && x < int64(len(occ)):
			occ = occ[:x]
		case x < 0 && x > -int64(len(occ)):
			occ = occ[int64(len(occ))+x:]
		}
		if err := wantInt(r, int64(len(occ))); err != nil {
			return err
		}
		if len(occ) > 0 {
			n := make([]string, 0, len(l))
			j := 0
			for i, e := range l {
				if j < len(occ) && occ[j] == i {
					j++
					continue
				}
				n = append(n, e)
			}
			v.L = n
			m.drop(a[0])
		}
		return nil
	}
	return ErrUnknown
}

func (h HVal) is(s string) bool {
	if h.S == s {
		return true
	}
	if h.Float {
		x, ok1 := parseF(h.S)
		y, ok2 := parseF(s)
		return ok1 && ok2 && x == y
	}
	return false
}

func (m *Model) stepHash(name string, a []string, v *Val, r Reply) error {
	var h map[string]HVal
	if v != nil {
		h = v.H
	}
	mk := func() map[string]HVal {
		if v == nil {
			v = &Val{T: 'h', H: map[string]HVal{}}
			m.K[a[0]] = v
		}
		return v.H
	}
	switch name {
	case "hset", "hmset":
		if len(a)%2 == 0 {
			return wantErr(r, "odd number of field arguments")
		}
		added := map[string]bool{}
		for i := 1; i < len(a); i += 2 {
			if _, ok := h[a[i]]; !ok {
				added[a[i]] = true
			}
		}
		if name == "hmset" {
			if err := wantOK(r); err != nil {
				return err
			}
		} else if r.Kind != ':' || (r.Int != int64(len(added)) && r.Int != int64(len(a)/2)) {
			return bad("want the number of fields written or added (:%d or :%d), got %s", len(a)/2, len(added), r)
		}
		mk()
		for i := 1; i < len(a); i += 2 {
			v.H[a[i]] = HVal{S: a[i+1]}
		}
		return nil
	case "hsetnx":
		_, ok := h[a[1]]
		n := int64(1)
		if ok {
			n = 0
		}
		if len(a) > 3 && r.IsErr() {
			return nil
		}
		if err := wantInt(r, n); err != nil {
			return err
		}
		if !ok {
			mk()[a[1]] = HVal{S: a[2]}
		}
		return nil
	case "hget":
		x, ok := h[a[1]]
		if !ok {
			return wantNil(r)
		}
		if r.Kind == '$' && !r.Nil && x.is(r.Str) {
			return nil
		}
		return bad("want %s, got %s", Short(x.S), r)
	case "hmget":
		if r.Kind != '*' || r.Nil || len(r.Arr) != len(a)-1 {
			return bad("want an array of %d, got %s", len(a)-1, r)
		}
		for i, f := range a[1:] {
			x, ok := h[f]
			e := r.Arr[i]
			if !ok {
				if !isNil(e) {
					return bad("position %d: want nil, got %s", i, e)
				}
			} else if e.Kind != '$' || e.Nil || !x.is(e.Str) {
				return bad("position %d: want %s, got %s", i, Short(x.S), e)
			}
		}
		return nil
	case "hexists":
		if _, ok := h[a[1]]; ok {
			return wantInt(r, 1)
		}
		return wantInt(r, 0)
	case "hlen":
		return wantInt(r, int64(len(h)))
	case "hdel":
		gone := map[string]bool{}
		for _, f := range a[1:] {
			if _, ok := h[f]; ok {
				gone[f] = true
			}
		}
		if err := wantInt(r, int64(len(gone))); err != nil {
			return err
		}
		for f := range gone {
			delete(h, f)
		}
		m.drop(a[0])
		return nil
	case "hkeys":
		fs := make(map[string]struct{}, len(h))
		for f := range h {
			fs[f] = struct{}{}
		}
		return wantMembers(r, fs)
	case "hvals":
		if len(h) == 0 {
			return wantEmpty(r)
		}
		g, err := strs(r)
		if err != nil {
			return err
		}
		if len(g) != len(h) {
			return bad("want %d values, got %d", len(h), len(g))
		}
		have := map[string]int{}
		for _, x := range g {
			have[x]++
		}
		var rest []HVal
		for _, x := range h {
			if have[x.S] > 0 {
				have[x.S]--
			} else if x.Float {
				rest = append(rest, x)
			} else {
				return bad("value %s missing", Short(x.S))
			}
		}
	next:
		for _, x := range rest {
			for s, n := range have {
				if n > 0 && x.is(s) {
					have[s]--
					continue next
				}
			}
			return bad("value %s missing", Short(x.S))
		}
		return nil
	case "hgetall":
		if len(h) == 0 {
			return wantEmpty(r)
		}
		g, err := strs(r)
		if err != nil {
			return err
		}
		if len(g) != 2*len(h) {
			return bad("want %d fields and values, got %d elements", len(h), len(g))
		}
		seen := map[string]bool{}
		for i := 0; i < len(g); i += 2 {
			x, ok := h[g[i]]
			if !ok || seen[g[i]] {
				return bad("field %s listed but absent or listed twice", Short(g[i]))
			}
			seen[g[i]] = true
			if !x.is(g[i+1]) {
				return bad("field %s: want %s, got %s", Short(g[i]), Short(x.S), Short(g[i+1]))
			}
		}
		return nil
	case "hincrby":
		by, ok, canon := intArg(a[2])
		if !ok {
			return wantErr(r, "no integer")
		}
		x, there := h[a[1]]
		cur := int64(0)
		either := !canon
		if there {
			n, ok, c := intArg(x.S)
			if !ok {
				if f, isF := parseF(x.S); x.Float && isF && f == math.Trunc(f) && math.Abs(f) < 1<<53 {
					n, ok, c = int64(f), true, false
				}
			}
			if !ok {
				return wantErr(r, "field holds no integer")
			}
			cur = n
			either = either || !c || x.Float
		}
		res, ok := addOK(cur, by)
		if !ok {
			return wantErr(r, "overflow")
		}
		if either && r.IsErr() {
			return nil
		}
		if err := wantInt(r, res); err != nil {
			return err
		}
		mk()[a[1]] = HVal{S: strconv.FormatInt(res, 10)}
		return nil
	case "hincrbyfloat":
		by, ok, plain := floatArg(a[2])
		if !ok || math.IsInf(by, 0) {
			return wantErr(r, "no finite number")
		}
		x, there := h[a[1]]
		cur := float64(0)
		either := !plain
		if there {
			f, ok := parseF(x.S)
			if !ok {
				return wantErr(r, "field holds no number")
			}
			if _, isInt, _ := intArg(x.S); isInt {
				either = true // a field holding integer text may be refused
			}
			if _, _, pl := floatArg(x.S); !pl {
				either = true
			}
			if math.IsInf(f, 0) {
				either = true
			}
			cur = f
		}
		res := cur + by
		if math.IsInf(res, 0) || math.IsNaN(res) {
			return wantErr(r, "result is no finite number")
		}
		if either && r.IsErr() {
			return nil
		}
		if r.Kind != '$' || r.Nil {
			return bad("want the number %v, got %s", res, r)
		}
		g, ok := parseF(r.Str)
		if !ok || math.Abs(g-res) > 1e-12*math.Max(math.Abs(cur), math.Max(math.Abs(by), math.Abs(res))) {
			return bad("want the number %v, got %s", res, r)
		}
		mk()[a[1]] = HVal{S: r.Str, Float: true}
		return nil
	}
	return ErrUnknown
}

func (m *Model) stepSet(name string, a []string, v *Val, r Reply) error {
	var s map[string]struct{}
	if v != nil {
		s = v.M
	}
	switch name {
	case "sadd":
		add := map[string]struct{}{}
		for _, x := range a[1:] {
			if _, ok := s[x]; !ok {
				add[x] = struct{}{}
			}
		}
		if err := wantInt(r, int64(len(add))); err != nil {
			return err
		}
		if v == nil {
			v = &Val{T: 'S', M: map[string]struct{}{}}
			m.K[a[0]] = v
		}
		for x := range add {
			v.M[x] = struct{}{}
		}
		return nil
	case "srem":
		gone := map[string]struct{}{}
		for _, x := range a[1:] {
			if _, ok := s[x]; ok {
				gone[x] = struct{}{}
			}
		}
		if err := wantInt(r, int64(len(gone))); err != nil {
			return err
		}
		for x := range gone {
			delete(s, x)
		}
		m.drop(a[0])
		return nil
	case "scard":
		return wantInt(r, int64(len(s)))
	case "sismember":
		if _, ok := s[a[1]]; ok {
			return wantInt(r, 1)
		}
		return wantInt(r, 0)
	case "smembers":
		return wantMembers(r, s)
	case "spop":
		cnt := int64(1)
		if len(a) > 1 {
			n, ok, canon := intArg(a[1])
			if !ok {
				if v == nil && isEmpty(r) {
					return nil
				}
				return wantErr(r, "count is no integer")
			}
			if !canon && r.IsErr() {
				return nil
			}
			if n <= 0 {
				if r.IsErr() || isEmpty(r) {
					return nil
				}
				return bad("pop of %d must give nothing, got %s", n, r)
			}
			cnt = n
		}
		want := len(s)
		if cnt < int64(want) {
			want = int(cnt)
		}
		if want == 0 {
			return wantEmpty(r)
		}
		var g []string
		if len(a) == 1 && r.Kind == '$' && !r.Nil {
			g = []string{r.Str}
		} else {
			var err error
			if g, err = strs(r); err != nil {
				return err
			}
		}
		if len(g) != want {
			return bad("want %d members popped, got %d: %s", want, len(g), r)
		}
		seen := map[string]bool{}
		for _, x := range g {
			if _, ok := s[x]; !ok || seen[x] {
				return bad("popped %s which is no member or popped twice", Short(x))
			}
			seen[x] = true
		}
		for x := range seen {
			delete(s, x)
		}
		m.drop(a[0])
		return nil
	}
	return ErrUnknown
}

func (m *Model) stepAlgebra(name string, a []string, r Reply) error {
	store := strings.HasSuffix(name, "store")
	src := a
	if store {
		src = a[1:]
	}
	sets := make([]map[string]struct{}, len(src))
	for i, k := range src {
		if v := m.get(k); v != nil {
			if v.T != 'S' {
				return wantErr(r, "source "+Short(k)+" holds a "+TypeName(v.T))
			}
			sets[i] = v.M
		}
	}
	res := map[string]struct{}{}
	switch {
	case strings.HasPrefix(name, "sunion"):
		for _, s := range sets {
			for x := range s {
				res[x] = struct{}{}
			}
		}
	case strings.HasPrefix(name, "sdiff"):
	outer:
		for x := range sets[0] {
			for _, s := range sets[1:] {
				if _, ok := s[x]; ok {
					continue outer
				}
			}
			res[x] = struct{}{}
		}
	default:
	outer2:
		for x := range sets[0] {
			for _, s := range sets[1:] {
				if _, ok := s[x]; !ok {
					continue outer2
				}
			}
			res[x] = struct{}{}
		}
	}
	if !store {
		return wantMembers(r, res)
	}
	if err := wantInt(r, int64(len(res))); err != nil {
		return err
	}
	if len(res) == 0 {
		delete(m.K, a[0])
	} else {
		m.K[a[0]] = &Val{T: 'S', M: res}
	}
	return nil
}

func (m *Model) stepMove(a []string, r Reply) error {
	s, t := m.get(a[0]), m.get(a[1])
	if s != nil && s.T != 'S' {
		return wantErr(r, "source holds a "+TypeName(s.T))
	}
	has := false
	if s != nil {
		_, has = s.M[a[2]]
	}
	if t != nil && t.T != 'S' {
		if has {
			return wantErr(r, "target holds a "+TypeName(t.T))
		}
		// C09: a command that names a key of another type is refused; it has nothing to move either
		if r.IsErr() || (r.Kind == ':' && r.Int == 0) {
			return nil
		}
		return bad("nothing to move and a wrong target, but replied %s", r)
	}
	if !has {
		if r.IsErr() || (r.Kind == ':' && r.Int == 0) {
			return nil
		}
		return bad("source lacks the member, but replied %s", r)
	}
	if err := wantInt(r, 1); err != nil {
		return err
	}
	if a[0] == a[1] {
		return nil
	}
	delete(s.M, a[2])
	m.drop(a[0])
	if t == nil {
		t = &Val{T: 'S', M: map[string]struct{}{}}
		m.K[a[1]] = t
	}
	t.M[a[2]] = struct{}{}
	return nil
}

func (m *Model) stepZ(name string, a []string, v *Val, r Reply) error {
	var z map[string]float64
	if v != nil {
		z = v.Z
	}
	order := func() []ZM {
		if v == nil {
			return nil
		}
		return v.order()
	}
	switch name {
	case "zadd":
		return m.stepZAdd(a, v, r)
	case "zincr":
		f, ok, plain := floatArg(a[1])
		if !ok {
			return wantErr(r, "no number")
		}
		if !plain && r.IsErr() {
			return nil
		}
		sum := z[a[2]] + f
		if math.IsNaN(sum) {
			return wantErr(r, "result is no number")
		}
		if err := wantNum(r, sum); err != nil {
			return err
		}
		m.zset(a[0], a[2], sum)
		return nil
	case "zscore":
		f, ok := z[a[1]]
		if !ok {
			return wantNil(r)
		}
		return wantNum(r, f)
	case "zrank":
		if _, ok := z[a[1]]; !ok {
			return wantNil(r)
		}
		o := order()
		f := z[a[1]]
		i := sort.Search(len(o), func(i int) bool { return o[i].S > f || (o[i].S == f && o[i].M >= a[1]) })
		return wantInt(r, int64(i))
	case "zcard":
		return wantInt(r, int64(len(z)))
	case "zrem":
		gone := map[string]bool{}
		for _, x := range a[1:] {
			if _, ok := z[x]; ok {
				gone[x] = true
			}
		}
		if err := wantInt(r, int64(len(gone))); err != nil {
			return err
		}
		for x := range gone {
			m.zdel(a[0], x)
		}
		m.drop(a[0])
		return nil
	case "zcount", "zrangebyscore", "zrange":
		by, with := name != "zrange", false
		for _, x := range a[3:] {
			switch strings.ToLower(x) {
			case "withscores":
				with = name != "zcount"
			case "byscore":
				by = true
			default:
				if r.IsErr() {
					return nil // unknown option refused
				}
			}
		}
		if !by {
			return m.zindex(a, order(), with, false, r)
		}
		lo, hi := boundArg(a[1]), boundArg(a[2])
		if !lo.ok || !hi.ok {
			if v == nil && (isEmpty(r) || (r.Kind == ':' && r.Int == 0)) {
				return nil
			}
			return wantErr(r, "bound is no number")
		}
		if !(lo.plain && hi.plain) && r.IsErr() {
			return nil
		}
		o := order()
		i := sort.Search(len(o), func(i int) bool { return lo.above(o[i].S) })
		j := sort.Search(len(o), func(i int) bool { return !hi.below(o[i].S) })
		if j < i {
			j = i
		}
		if name == "zcount" {
			return wantInt(r, int64(j-i))
		}
		return wantZ(r, o[i:j], with)
	case "zrevrange":
		with := false
		for _, x := range a[3:] {
			if strings.ToLower(x) == "withscores" {
				with = true
			} else if r.IsErr() {
				return nil
			}
		}
		return m.zindex(a, order(), with, true, r)
	case "zpopmin", "zpopmax":
		cnt := int64(1)
		if len(a) > 1 {
			n, ok, canon := intArg(a[1])
			if !ok {
				if v == nil && isEmpty(r) {
					return nil
				}
				return wantErr(r, "count is no integer")
			}
			if !canon && r.IsErr() {
				return nil
			}
			if n <= 0 {
				if r.IsErr() || isEmpty(r) {
					return nil
				}
				return bad("pop of %d must give nothing, got %s", n, r)
			}
			cnt = n
		}
		o := order()
		k := len(o)
		if cnt < int64(k) {
			k = int(cnt)
		}
		want := make([]ZM, k)
		for i := range want {
			if name == "zpopmin" {
				want[i] = o[i]
			} else {
				want[i] = o[len(o)-1-i]
			}
		}
		if err := wantZ(r, want, true); err != nil {
			return err
		}
		for _, x := range want {
			delete(z, x.M)
		}
		if v != nil {
			if name == "zpopmin" {
				v.o = o[k:]
			} else {
				v.o = o[:len(o)-k]
			}
			if len(v.o) == 0 {
				v.o = nil
			}
		}
		m.drop(a[0])
		return nil
	}
	return ErrUnknown
}

func (m *Model) zindex(a []string, o []ZM, with, rev bool, r Reply) error {
	x, ok1, c1 := intArg(a[1])
	y, ok2, c2 := intArg(a[2])
	if !ok1 || !ok2 {
		if len(o) == 0 && isEmpty(r) {
			return nil
		}
		return wantErr(r, "position is no integer")
	}
	if !(c1 && c2) && r.IsErr() {
		return nil
	}
	i, j := span(x, y, len(o))
	if !rev {
		return wantZ(r, o[i:j], with)
	}
	l := make([]ZM, 0, j-i)
	for k := i; k < j; k++ {
		l = append(l, o[len(o)-1-k])
	}
	return wantZ(r, l, with)
}

func (v *Val) zpos(x ZM) int {
	return sort.Search(len(v.o), func(i int) bool { return v.o[i].S > x.S || (v.o[i].S == x.S && v.o[i].M >= x.M) })
}

func (m *Model) zdel(k, mem string) {
	v := m.K[k]
	f, ok := v.Z[mem]
	if !ok {
		return
	}
	if v.o != nil {
		i := v.zpos(ZM{mem, f})
		v.o = append(v.o[:i:i], v.o[i+1:]...)
	}
	delete(v.Z, mem)
}

func (m *Model) zset(k, mem string, f float64) {
	v := m.K[k]
	if v == nil {
		v = &Val{T: 'z', Z: map[string]float64{}}
		m.K[k] = v
	}
	if v.o != nil {
		if old, ok := v.Z[mem]; ok {
			if old == f {
				v.Z[mem] = f
				return
			}
			i := v.zpos(ZM{mem, old})
			v.o = append(v.o[:i:i], v.o[i+1:]...)
		}
		x := ZM{mem, f}
		i := v.zpos(x)
		v.o = append(v.o, ZM{})
		copy(v.o[i+1:], v.o[i:])
		v.o[i] = x
	}
	v.Z[mem] = f
}

func (m *Model) stepZAdd(a []string, v *Val, r Reply) error {
	var nx, xx, incr, either bool
	var pairs []ZM
	for i := 1; i < len(a); {
		switch strings.ToLower(a[i]) {
		case "nx":
			nx = true
			i++
			continue
		case "xx":
			xx = true
			i++
			continue
		case "incr":
			incr = true
			i++
			continue
		}
		if i+1 >= len(a) {
			return wantErr(r, "score without member")
		}
		f, ok, plain := floatArg(a[i])
		if !ok {
			return wantErr(r, "score is no number")
		}
		either = either || !plain
		pairs = append(pairs, ZM{a[i+1], f})
		i += 2
	}
	if len(pairs) == 0 {
		return wantErr(r, "no member")
	}
	if either && r.IsErr() {
		return nil
	}
	if nx && xx {
		if r.IsErr() || r.Kind == ':' || isNil(r) {
			return nil
		}
		return bad("want an error or no effect, got %s", r)
	}
	var z map[string]float64
	if v != nil {
		z = v.Z
	}
	cur := map[string]float64{}
	at := func(x string) (float64, bool) {
		if f, ok := cur[x]; ok {
			return f, true
		}
		f, ok := z[x]
		return f, ok
	}
	added, changed, events := 0, 0, 0
	last, applied := 0.0, false
	for _, p := range pairs {
		old, ok := at(p.M)
		if (ok && nx) || (!ok && xx) {
			continue
		}
		f := p.S
		if incr {
			f += old
			if math.IsNaN(f) {
				return wantErr(r, "result is no number")
			}
		}
		if !ok {
			added++
			events++
		} else if f != old {
			events++
		}
		cur[p.M] = f
		last, applied = f, true
	}
	for x, f := range cur {
		if old, ok := z[x]; ok && old != f {
			changed++
		}
	}
	switch {
	case incr && r.Kind == '$' && !r.Nil && len(pairs) == 1 && applied:
		if err := wantNum(r, last); err != nil {
			return err
		}
	case incr && isNil(r) && !applied:
	case incr && len(pairs) > 1 && r.IsErr():
		return nil // INCR with several members may be refused
	case r.Kind == ':' && (r.Int == int64(added) || r.Int == int64(added+changed) || r.Int == int64(events)):
	default:
		return bad("want :%d (added) or :%d (added and changed), got %s", added, added+changed, r)
	}
	for x, f := range cur {
		m.zset(a[0], x, f)
	}
	return nil
}

// ---- glob ----

type globTok struct {
	kind byte // 'c' literal, '*', '?', '['
	c    byte
	set  [256]bool
	neg  bool
}

type glob []globTok

// parseGlob understands literal text, *, ?, [..], [!..], [^..] with ranges, and
// \x. Anything else the code may support ({a,b}) or a malformed pattern is "not valid".
func parseGlob(p string) (glob, bool) {
	var g glob
	for i := 0; i < len(p); i++ {
		switch c := p[i]; c {
		case '*':
			g = append(g, globTok{kind: '*'})
		case '?':
			g = append(g, globTok{kind: '?'})
		case '{', '}', ',', ']', '!', '^', '-':
			if c == '{' || c == '}' || c == ']' {
				return nil, false
			}
			g = append(g, globTok{kind: 'c', c: c})
		case '\\':
			i++
			if i == len(p) {
				return nil, false
			}
			g = append(g, globTok{kind: 'c', c: p[i]})
		case '[':
			t := globTok{kind: '['}
			j := i + 1
			if j < len(p) && (p[j] == '!') {
				t.neg = true
				j++
			}
			n := 0
			for ; j < len(p) && p[j] != ']'; j++ {
				c := p[j]
				if c == '\\' || c == '[' || c == '-' || c == '^' || c >= 0x80 || c == '!' {
					return nil, false
				}
				if j+2 < len(p) && p[j+1] == '-' && p[j+2] != ']' {
					d := p[j+2]
					if d < c || d == '\\' || d >= 0x80 || d == '[' || d == '-' {
						return nil, false
					}
					for x := int(c); x <= int(d); x++ {
						t.set[x] = true
					}
					j += 2
				} else {
					t.set[c] = true
				}
				n++
			}
			if j >= len(p) || n == 0 {
				return nil, false
			}
			i = j
			g = append(g, t)
		default:
			g = append(g, globTok{kind: 'c', c: c})
		}
	}
	return g, true
}

// matchBoth matches s with ? standing for one byte and for one character; where
// the two differ nothing is claimed.
func (g glob) matchBoth(s string) (bytewise, runewise bool) {
	bytewise = g.match(s, false)
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			ascii = false
			break
		}
	}
	if ascii {
		return bytewise, bytewise
	}
	return bytewise, g.match(s, true)
}

func (g glob) match(s string, runes bool) bool {
	// positions reachable, token by token
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for _, t := range g {
		nxt := make([]bool, len(s)+1)
		any := false
		for i, ok := range cur {
			if !ok {
				continue
			}
			switch t.kind {
			case '*':
				for j := i; j <= len(s); j++ {
					nxt[j] = true
				}
				any = true
				goto done
			case 'c':
				if i < len(s) && s[i] == t.c {
					nxt[i+1] = true
					any = true
				}
			default:
				if i < len(s) {
					w := 1
					if runes {
						_, w = utf8.DecodeRuneInString(s[i:])
					}
					if t.kind == '?' || t.set[s[i]] != t.neg {
						nxt[i+w] = true
						any = true
					}
				}
			}
		}
	done:
		if !any {
			return false
		}
		cur = nxt
	}
	return cur[len(s)]
}

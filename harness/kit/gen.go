package kit

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// Gen makes commands. Its choices depend on the model's state (so that
// indexes, pivots, scores and members often hit), and only on its own rng.
type Gen struct {
	*rand.Rand
	M      *Model
	Keys   []string // key pool
	Uni    int      // member/field universe
	Bad    float64  // probability of a malformed argument list
	Plain  bool     // only printable values
	Wrong  float64  // probability that a key of any type is named
	MaxArg int      // most elements in a multi-element command
	Tag    string   // prefix of members
	twin   [2]string
}

func NewGen(seed int64, m *Model) *Gen {
	g := &Gen{Rand: rand.New(rand.NewSource(seed)), M: m, Uni: 12, MaxArg: 5}
	g.twin = Twins()[g.Intn(len(Twins()))]
	return g
}

// SetKeys makes a pool of n keys with unlike shapes.
func (g *Gen) SetKeys(prefix string, n int) {
	g.Keys = nil
	odd := []string{"", "k\r\n", "\x00", "ключ", "*", "$-1\r\n", "a b", "[x]", "\xff\xfe", "PING"}
	for i := 0; i < n; i++ {
		if !g.Plain && g.Intn(4) == 0 {
			g.Keys = append(g.Keys, prefix+odd[g.Intn(len(odd))]+strconv.Itoa(i))
		} else {
			g.Keys = append(g.Keys, prefix+strconv.Itoa(i))
		}
	}
	if !g.Plain && n > 3 && g.Intn(3) == 0 {
		a, b := g.twinKeys(prefix)
		at := g.Intn(n - 1)
		for i, k := range g.Keys { // there may be one of them already
			if k == a || k == b {
				g.Keys[i] = fmt.Sprint(prefix, "other", i)
			}
		}
		g.Keys[at], g.Keys[at+1] = a, b
	}
}

// Pick a key: of the given type or missing, unless a wrong one is wanted.
func (g *Gen) Key(t byte) string {
	if t == 0 || g.Float64() < g.Wrong {
		return g.Keys[g.Intn(len(g.Keys))]
	}
	for i := 0; i < 6; i++ {
		k := g.Keys[g.Intn(len(g.Keys))]
		v := g.M.K[k]
		if v == nil || v.T == t {
			return k
		}
	}
	return g.Keys[g.Intn(len(g.Keys))]
}

// KeyOf picks an existing key of the type, "" and false when there is none.
func (g *Gen) KeyOf(t byte) (string, bool) {
	at := g.Intn(len(g.Keys))
	for i := range g.Keys {
		k := g.Keys[(at+i)%len(g.Keys)]
		if v := g.M.K[k]; v != nil && v.T == t {
			return k, true
		}
	}
	return "", false
}

var oddValues = []string{
	"", "0", "1", "-1", "10", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "9223372036854775808", "-9223372036854775809",
	"1.5", "1.50", "-0", "+5", "05", " 5", "5 ", "1e3", "1E3", "1e+06", "1e6", "0x10", "inf", "+Inf", "NaN", "nan", "1_000", "3.0", "0.1", ".5", "1e400", "123456789012345678901234567890", "0.30000000000000004", "1e-7", "true", "nil", "-inf", "Infinity", "1e21", "100000", "1000000", "16777217", "0.1000000000000000055511151231257827",
	"\r\n", "\n", "\r", "a\r\nb", "$3\r\nabc\r\n", "*1\r\n$4\r\nPING\r\n", "+OK\r\n", "-ERR\r\n", ":1\r\n", "$-1\r\n", "\x00", "\x00\x01\x02\xff", "\xc3\x28", "日本語", "é", "e\u0301", "PING", "withscores", "nx", "before", "-", "(", "[", "*", "?", " ", "\t",
	"OK", "PONG", "none", "string", "list", "set", "zset", "hash", "QUEUED", "ok", "(nil)", "null", "ERR", "ERR unknown command", "-1", "$-1", "*0", ":0", "+OK", "false", "{}", "[]", "%s", "%d%%n", "set",
}

// Value makes a value to store.
func (g *Gen) Value() string {
	switch x := g.Intn(20); {
	case x < 9:
		return string(rune('a' + g.Intn(8)))
	case x < 12:
		return strconv.Itoa(g.Intn(200) - 100)
	case x < 15 && !g.Plain:
		return oddValues[g.Intn(len(oddValues))]
	case x < 17 && !g.Plain:
		return g.Bytes(g.Intn(24))
	case x == 17:
		return strings.Repeat(string(rune('a'+g.Intn(4))), 20+g.Intn(3000))
	default:
		return "v" + strconv.Itoa(g.Intn(1000))
	}
}

// Bytes makes n arbitrary bytes, rich in protocol characters.
func (g *Gen) Bytes(n int) string {
	b := make([]byte, n)
	special := "\r\n$*+-:0123\x00\xff"
	for i := range b {
		if g.Intn(3) == 0 {
			b[i] = special[g.Intn(len(special))]
		} else {
			b[i] = byte(g.Intn(256))
		}
	}
	return string(b)
}

// Member makes a member of sets and sorted sets, or a field.
func (g *Gen) Member() string {
	n := g.Uni
	x := g.Intn(n)
	if !g.Plain && x%11 == 7 {
		return oddValues[x%len(oddValues)]
	}
	if !g.Plain && x%23 < 2 && len(g.twin[0]) < 300 {
		return g.Tag + g.twin[x%23]
	}
	return g.Tag + "m" + strconv.Itoa(x)
}

// Members makes 1.. members.
func (g *Gen) Members() []string {
	n := 1
	if g.Intn(3) > 0 {
		n += g.Intn(g.MaxArg)
	}
	r := make([]string, n)
	for i := range r {
		r[i] = g.Member()
	}
	return r
}

// Some member that is in v now (or any).
func (g *Gen) in(v *Val) string {
	if v == nil || g.Intn(4) == 0 {
		return g.Member()
	}
	switch v.T {
	case 'l':
		if len(v.L) > 0 {
			return v.L[g.Intn(len(v.L))]
		}
	case 'z':
		if o := v.order(); len(o) > 0 {
			return o[g.Intn(len(o))].M
		}
	case 'S', 'h':
		// by universe, maps have no cheap random element in a fixed order
		for i := 0; i < 8; i++ {
			m := g.Member()
			if _, ok := v.M[m]; ok {
				return m
			}
			if _, ok := v.H[m]; ok {
				return m
			}
		}
	}
	return g.Member()
}

// Index makes a list or rank position around the ends of n elements.
func (g *Gen) Index(n int) string {
	switch g.Intn(12) {
	case 0, 1:
		return "0"
	case 2, 3:
		return "-1"
	case 4:
		return strconv.Itoa(n - 1 + g.Intn(3))
	case 5:
		return strconv.Itoa(-n - 1 + g.Intn(3))
	case 6:
		return []string{"9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649", "4294967296", "-9223372036854775807"}[g.Intn(6)]
	case 7, 8:
		return strconv.Itoa(-1 - g.Intn(n+1))
	default:
		return strconv.Itoa(g.Intn(n + 1))
	}
}

// Count makes a pop or removal count.
func (g *Gen) Count(n int) string {
	switch g.Intn(10) {
	case 0:
		return strconv.Itoa(n)
	case 1:
		return strconv.Itoa(n + 1)
	case 2:
		return "0"
	case 3:
		return "9223372036854775807"
	case 4:
		return strconv.Itoa(1 + g.Intn(n+2))
	default:
		return strconv.Itoa(1 + g.Intn(3))
	}
}

var badInts = []string{"", "x", "1.5", "1x", "--1", "9223372036854775808", "-9223372036854775809", "1e3", "0x1", " 1", "1 ", "1\r\n", "99999999999999999999", "NaN", "１", "%s%d", "x\r\n+OK", "\r\n:1", "\n"}
var badFloats = []string{"", "x", "1.5x", "--1", "nan", "NaN", "1,5", " 1", "1 ", "0x", "(", "(nan", "-", "+", "1.2.3", "e5", "1e", "[1", "1\r\n", "%s%d", "x\r\n+OK", "\r\n:1", "\n"}

func (g *Gen) Int64() string {
	switch g.Intn(10) {
	case 0:
		return strconv.FormatInt(math.MaxInt64-int64(g.Intn(3)), 10)
	case 1:
		return strconv.FormatInt(math.MinInt64+int64(g.Intn(3)), 10)
	case 2:
		return strconv.FormatInt(int64(g.Uint64()), 10)
	case 3:
		return strconv.FormatInt(1<<uint(g.Intn(63)), 10)
	default:
		return strconv.Itoa(g.Intn(40) - 20)
	}
}

// Score makes a score text; with v it often equals or neighbours a stored one.
func (g *Gen) Score(v *Val) string {
	switch x := g.Intn(20); {
	case x < 8:
		return strconv.Itoa(g.Intn(9) - 4)
	case x < 12:
		return strconv.Itoa(g.Intn(g.Uni*2) - g.Uni)
	case x < 14:
		return strconv.FormatFloat(float64(g.Intn(4000)-2000)/8, 'g', -1, 64)
	case x == 14:
		return strconv.FormatFloat(g.NormFloat64()*math.Pow(10, float64(g.Intn(20)-10)), 'g', -1, 64)
	case x == 15:
		return []string{"inf", "-inf", "+inf", "1e308", "-1e308", "5e-324", "-5e-324", "-0", "0.1", "0.30000000000000004", "9007199254740993", "1e15", "123456789.125", "16777217", "1e-10"}[g.Intn(15)]
	default:
		if v != nil && v.T == 'z' {
			if o := v.order(); len(o) > 0 {
				f := o[g.Intn(len(o))].S
				switch g.Intn(4) {
				case 0:
					f = math.Nextafter(f, math.Inf(1))
				case 1:
					f = math.Nextafter(f, math.Inf(-1))
				}
				if math.IsInf(f, 0) {
					return "inf"
				}
				return strconv.FormatFloat(f, 'g', -1, 64)
			}
		}
		return strconv.Itoa(g.Intn(5))
	}
}

// Bound makes one end of a score interval.
func (g *Gen) Bound(v *Val) string {
	s := g.Score(v)
	switch g.Intn(8) {
	case 0:
		return "-inf"
	case 1:
		return "+inf"
	case 2, 3, 4:
		return "(" + s
	}
	return s
}

func (g *Gen) casing(s string) string {
	switch g.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s
	}
	b := []byte(s)
	for i := range b {
		if g.Intn(2) == 0 {
			b[i] = strings.ToUpper(s)[i]
		}
	}
	return string(b)
}

// Case varies the letter case of a name.
func (g *Gen) Case(s string) string { return g.casing(s) }

// Cmd makes one request of the named command. With probability Bad its
// argument list is malformed in some way.
func (g *Gen) Cmd(name string) []string {
	if name == "nocommand" {
		like := Commands[g.Intn(len(Commands))]
		a := g.wellFormed(like)
		a[0] = Strange(g.Rand, a[0])
		return a
	}
	a := g.wellFormed(name)
	if g.Bad > 0 && g.Float64() < g.Bad {
		a = g.Spoil(name, a)
	}
	return a
}

// Spoil makes the argument list wrong: cut, odd, or with a bad number.
func (g *Gen) Spoil(name string, a []string) []string {
	a = append([]string(nil), a...)
	if g.Intn(3) == 0 && MinArgs[name] > 0 {
		return a[:1+g.Intn(MinArgs[name])]
	}
	at := func(i int, pool []string) {
		if i < len(a) {
			a[i] = pool[g.Intn(len(pool))]
		}
	}
	switch name {
	case "mset", "hset", "hmset":
		return a[:len(a)-1]
	case "incrby", "decrby":
		at(2, badInts)
	case "lrange", "zrevrange":
		at(2+g.Intn(2), badInts)
	case "zrange":
		if len(a) == 4 || (len(a) == 5 && strings.EqualFold(a[4], "withscores")) {
			at(2+g.Intn(2), badInts)
		} else {
			at(2+g.Intn(2), badFloats)
		}
	case "lrem", "lindex", "lset":
		at(2, badInts)
	case "lpop", "rpop", "spop", "zpopmin", "zpopmax":
		if len(a) < 3 {
			a = append(a, "")
		}
		at(2, badInts)
	case "linsert":
		at(2, []string{"", "x", "beforeafter", "befor", "after ", "0", "be\r\nfore", "%s"})
	case "hincrby":
		at(3, badInts)
	case "hincrbyfloat":
		at(3, badFloats)
	case "zincr":
		at(2, badFloats)
	case "zadd":
		switch g.Intn(3) {
		case 0:
			return a[:len(a)-1]
		case 1:
			// a later score is bad, earlier pairs are fine
			at(len(a)-2, badFloats)
		default:
			return append(a, badFloats[g.Intn(len(badFloats))], "zz")
		}
	case "zcount", "zrangebyscore":
		at(2+g.Intn(2), badFloats)
	case "keys":
		at(1, []string{"[", "a[", "[a", "[z-a]", "\\", "[]", "x[!", "[\r\n", "%s["})
	default:
		if n := MinArgs[name]; n > 0 {
			return a[:1+g.Intn(n)]
		}
	}
	return a
}

func (g *Gen) wellFormed(name string) []string {
	t := TypeOf(name)
	k := ""
	if len(g.Keys) > 0 {
		k = g.Key(t)
	}
	v := g.M.K[k]
	if v != nil && v.T != t {
		v = nil
	}
	n := 0
	if v != nil {
		n = len(v.L) + len(v.Z) + len(v.M) + len(v.H)
	}
	c := func(s ...string) []string { return append([]string{g.casing(name)}, s...) }
	some := func(f func() string) []string {
		r := make([]string, 1+g.Intn(g.MaxArg))
		for i := range r {
			r[i] = f()
		}
		return r
	}
	anyKey := func() string { return g.Keys[g.Intn(len(g.Keys))] }
	setKey := func() string { return g.Key('S') }
	switch name {
	case "ping", "command":
		return c()
	case "set":
		return c(anyKey(), g.Value())
	case "mset":
		r := c()
		for i := 0; i <= g.Intn(g.MaxArg); i++ {
			r = append(r, anyKey(), g.Value())
		}
		return r
	case "get":
		return c(k)
	case "mget":
		return c(some(anyKey)...)
	case "incr", "decr":
		return c(k)
	case "incrby", "decrby":
		return c(k, g.Int64())
	case "append":
		return c(k, g.Value())
	case "keys":
		return c(g.Pattern())
	case "exists", "del":
		if name == "del" && g.Intn(2) == 0 {
			return c(anyKey())
		}
		return c(some(anyKey)...)
	case "type":
		return c(anyKey())
	case "lpush", "rpush":
		r := c(k)
		for i := 0; i <= g.Intn(g.MaxArg); i++ {
			r = append(r, g.Value())
		}
		return r
	case "lpop", "rpop":
		if g.Intn(2) == 0 {
			return c(k)
		}
		return c(k, g.Count(n))
	case "llen", "hgetall", "hkeys", "hlen", "hvals", "scard", "smembers", "zcard":
		return c(k)
	case "lrange":
		return c(k, g.Index(n), g.Index(n))
	case "lrem":
		cnt := g.Count(2)
		switch g.Intn(6) {
		case 0, 1, 2:
			if cnt != "0" {
				cnt = "-" + cnt
			}
		case 3:
			cnt = []string{"-9223372036854775808", "0", "-1", "1"}[g.Intn(4)]
		}
		return c(k, cnt, g.inList(v))
	case "lindex":
		return c(k, g.Index(n))
	case "lset":
		return c(k, g.Index(n), g.Value())
	case "linsert":
		return c(k, g.casing([]string{"before", "after"}[g.Intn(2)]), g.inList(v), g.Value())
	case "hdel":
		return c(append([]string{k}, some(func() string { return g.in(v) })...)...)
	case "hexists", "hget":
		return c(k, g.in(v))
	case "hincrby":
		return c(k, g.in(v), g.Int64())
	case "hincrbyfloat":
		f := g.Score(nil)
		if strings.Contains(f, "inf") && g.Intn(4) > 0 {
			f = "2.5"
		}
		return c(k, g.in(v), f)
	case "hmget":
		return c(append([]string{k}, some(func() string { return g.in(v) })...)...)
	case "hset", "hmset":
		r := c(k)
		for i := 0; i <= g.Intn(g.MaxArg); i++ {
			r = append(r, g.in(v), g.Value())
		}
		return r
	case "hsetnx":
		return c(k, g.in(v), g.Value())
	case "sadd", "srem":
		return c(append([]string{k}, g.Members()...)...)
	case "sismember":
		return c(k, g.in(v))
	case "spop":
		if g.Intn(2) == 0 {
			return c(k)
		}
		return c(k, g.Count(n))
	case "sdiff", "sinter", "sunion":
		return c(some(setKey)...)
	case "sdiffstore", "sinterstore", "sunionstore":
		d := setKey()
		if g.Intn(12) == 0 {
			d = anyKey()
		}
		r := some(setKey)
		if g.Intn(4) == 0 {
			r[g.Intn(len(r))] = d
		}
		return c(append([]string{d}, r...)...)
	case "smove":
		return c(k, setKey(), g.in(v))
	case "zadd":
		r := c(k)
		flag := func() {
			r = append(r, g.casing([]string{"nx", "xx", "incr"}[g.Intn(3)]))
		}
		if g.Intn(3) == 0 {
			flag()
			if g.Intn(3) == 0 {
				flag()
			}
		}
		for i := 0; i <= g.Intn(g.MaxArg); i++ {
			m := g.in(v)
			r = append(r, g.Score(v), m)
		}
		return r
	case "zscore", "zrank":
		return c(k, g.in(v))
	case "zrem":
		return c(append([]string{k}, some(func() string { return g.in(v) })...)...)
	case "zcount":
		return c(k, g.Bound(v), g.Bound(v))
	case "zincr":
		return c(k, g.Score(v), g.in(v))
	case "zrange":
		if g.Intn(3) == 0 {
			r := c(k, g.Bound(v), g.Bound(v), g.casing("byscore"))
			if g.Intn(2) == 0 {
				r = append(r, g.casing("withscores"))
			}
			return r
		}
		fallthrough
	case "zrevrange":
		r := c(k, g.Index(n), g.Index(n))
		if g.Intn(2) == 0 {
			r = append(r, g.casing("withscores"))
		}
		return r
	case "zrangebyscore":
		r := c(k, g.Bound(v), g.Bound(v))
		if g.Intn(2) == 0 {
			r = append(r, g.casing("withscores"))
		}
		return r
	case "zpopmin", "zpopmax":
		if g.Intn(2) == 0 {
			return c(k)
		}
		return c(k, g.Count(n))
	}
	panic("no generator for " + name)
}

func (g *Gen) inList(v *Val) string {
	if v != nil && len(v.L) > 0 && g.Intn(6) > 0 {
		switch g.Intn(5) {
		case 0:
			return v.L[0]
		case 1:
			return v.L[len(v.L)-1]
		}
		return v.L[g.Intn(len(v.L))]
	}
	return g.Value()
}

// Pattern makes a glob over the key pool.
func (g *Gen) Pattern() string {
	k := "k1"
	if len(g.Keys) > 0 {
		k = g.Keys[g.Intn(len(g.Keys))]
	}
	switch g.Intn(10) {
	case 0, 1:
		return "*"
	case 2:
		return EscapeGlob(k)
	}
	var sb strings.Builder
	for i := 0; i < len(k); i++ {
		c := k[i]
		switch g.Intn(9) {
		case 0:
			sb.WriteByte('?')
		case 1:
			sb.WriteByte('*')
		case 2:
			sb.WriteByte('*')
			i += g.Intn(3)
		case 3:
			if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' {
				switch g.Intn(4) {
				case 0:
					fmt.Fprintf(&sb, "[%c]", c)
				case 1:
					fmt.Fprintf(&sb, "[0-9a-z]")
				case 2:
					fmt.Fprintf(&sb, "[!%c]", c)
				default:
					lo, hi := c, c
					if lo > '0' && lo <= '9' || lo > 'a' {
						lo--
					}
					if g.Intn(2) == 0 {
						hi = lo
					}
					fmt.Fprintf(&sb, "[%c-%cxq]", lo, hi)
				}
				continue
			}
			fallthrough
		default:
			sb.WriteString(EscapeGlob(string([]byte{c})))
		}
	}
	if g.Intn(6) == 0 {
		sb.WriteByte('*')
	}
	return sb.String()
}

// EscapeGlob makes a pattern that matches s literally.
func EscapeGlob(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(`*?[]{}\!`, s[i]) >= 0 {
			sb.WriteByte('\\')
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// Weighted picks from names by weight, "name:weight name ...".
type Mix struct {
	names []string
	cum   []int
}

// NewMix parses "set:5 get del:2".
func NewMix(s string) Mix {
	var m Mix
	t := 0
	for _, f := range strings.Fields(s) {
		w := 1
		if i := strings.IndexByte(f, ':'); i > 0 {
			w, _ = strconv.Atoi(f[i+1:])
			f = f[:i]
		}
		t += w
		m.names = append(m.names, f)
		m.cum = append(m.cum, t)
	}
	return m
}

// Pick one name.
func (m Mix) Pick(r *rand.Rand) string {
	x := r.Intn(m.cum[len(m.cum)-1])
	for i, c := range m.cum {
		if x < c {
			return m.names[i]
		}
	}
	return m.names[0]
}

// OddValues are strings that look like numbers, protocol or nothing at all.
func OddValues() []string { return append([]string(nil), oddValues...) }

// Strange makes a name like the given one that is no command.
func Strange(r *rand.Rand, like string) string {
	for {
		var n string
		switch r.Intn(12) {
		case 0:
			n = oddValues[r.Intn(len(oddValues))]
		case 1:
			n = like + []string{" ", "\r\n", "\n", "\r", "\x00", "x", "\r\n+OK\r\n", "\r\n-ERR\r\n", "'\r\n", "%s", "%d%n", "\xff", "\t", "é"}[r.Intn(14)]
		case 2:
			n = []string{" ", "\r\n", "\n", "\x00", "%s", "+OK\r\n", "x", "$3\r\n", "*1\r\n"}[r.Intn(9)] + like
		case 3:
			b := make([]byte, 1+r.Intn(30))
			for i := range b {
				b[i] = "\r\n$*+-:01%s\x00\xff a"[r.Intn(15)]
			}
			n = string(b)
		case 4:
			b := make([]byte, r.Intn(30))
			r.Read(b)
			n = string(b)
		case 5:
			n = like[:r.Intn(len(like)+1)]
		case 6:
			b := []byte(like)
			b[r.Intn(len(b))] ^= 0x80
			n = string(b)
		case 7:
			b := []byte(like)
			b[r.Intn(len(b))] = "\r\n%\x00$*"[r.Intn(6)]
			n = string(b)
		case 8:
			n = strings.Repeat(like, 2+r.Intn(50))
		case 9:
			n = strings.Repeat("x\r\n", 1+r.Intn(500))
		case 10:
			n = "no" + strconv.Itoa(r.Intn(1000000))
		default:
			i := r.Intn(len(like) + 1)
			n = like[:i] + "\r\n" + like[i:]
		}
		if !known[asciiLower(n)] {
			return n
		}
	}
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

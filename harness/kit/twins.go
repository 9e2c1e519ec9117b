package kit

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"sort"
	"strings"
	"sync"
)

// Hash32 are hash functions an implementation might take for the name itself.
var Hash32 = map[string]func(string) uint32{
	"fnv1": func(s string) uint32 {
		h := uint32(2166136261)
		for i := 0; i < len(s); i++ {
			h *= 16777619
			h ^= uint32(s[i])
		}
		return h
	},
	"fnv1a": func(s string) uint32 {
		h := uint32(2166136261)
		for i := 0; i < len(s); i++ {
			h ^= uint32(s[i])
			h *= 16777619
		}
		return h
	},
	"crc32": func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
	"crc32c": func(s string) uint32 {
		return crc32.Checksum([]byte(s), crc32.MakeTable(crc32.Castagnoli))
	},
	"adler": func(s string) uint32 { return adler32.Checksum([]byte(s)) },
	"java": func(s string) uint32 {
		h := uint32(0)
		for i := 0; i < len(s); i++ {
			h = h*31 + uint32(s[i])
		}
		return h
	},
	"djb2": func(s string) uint32 {
		h := uint32(5381)
		for i := 0; i < len(s); i++ {
			h = h*33 + uint32(s[i])
		}
		return h
	},
	"bkdr": func(s string) uint32 {
		h := uint32(0)
		for i := 0; i < len(s); i++ {
			h = h*131 + uint32(s[i])
		}
		return h
	},
}

// Collide finds pairs of names of one length, with the prefix, of one hash.
func Collide(f func(string) uint32, prefix string, start, n int) (pairs [][2]string) {
	name := func(i uint64) string { return fmt.Sprintf("%s%07d", prefix, start+int(i)) }
	hs := make([]uint64, n)
	b := []byte(name(0))
	for i := range hs {
		x := start + i
		for j := len(b) - 1; j >= len(b)-7; j-- {
			b[j] = byte('0' + x%10)
			x /= 10
		}
		hs[i] = uint64(f(string(b)))<<32 | uint64(i)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	for i := 1; i < n && len(pairs) < 6; i++ {
		if hs[i]>>32 == hs[i-1]>>32 {
			pairs = append(pairs, [2]string{name(hs[i-1] & 0xffffffff), name(hs[i] & 0xffffffff)})
			i++
		}
	}
	return
}

var (
	twinsOnce sync.Once
	twins     [][2]string
)

// Twins are pairs of different names that are easily taken for one: of equal
// hashes, lengths, sums, beginnings and ends, meanings.
func Twins() [][2]string {
	twinsOnce.Do(func() {
		var fs []string
		for f := range Hash32 {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			twins = append(twins, Collide(Hash32[f], "k", 1000000, 220000)...)
		}
		for _, n := range []int{8, 16, 32, 64, 128, 256, 1024, 5000} {
			a, b := strings.Repeat("p", n), strings.Repeat("s", n)
			twins = append(twins, [2]string{a + "1" + b, a + "2" + b}, [2]string{a + "1", a + "2"}, [2]string{"1" + b, "2" + b}, [2]string{a, a + "p"})
		}
		twins = append(twins, [][2]string{
			{"Aa", "BB"}, {"ab", "ba"}, {"a", "A"}, {"é", "e\u0301"}, {"é", "É"}, {"ſ", "s"}, {"K", "\u212a"}, {"x", "x\x00"}, {"x", "x "}, {"x", " x"}, {"x", "x\n"}, {"x", "x\r\n"}, {"", "\x00"},
			{"1", "01"}, {"1", "1.0"}, {"1", "+1"}, {"0", "-0"}, {"10", "1e1"}, {"10", "0xa"}, {"true", "1"}, {"nil", ""}, {"9007199254740993", "9007199254740992"}, {"18446744073709551617", "1"}, {"4294967297", "1"}, {"65537", "1"}, {"257", "1"},
			{"\x80", "\x00"}, {"\xff", "\x7f"}, {"\xff", "\ufffd"}, {"\xc3\x28", "\ufffd("}, {"a\\x00", "a\x00"}, {`"a"`, "a"}, {"a b", "a  b"}, {"a\tb", "a b"}, {"a:b", "a::b"}, {"a%20b", "a b"}, {"*", "a"}, {"?", "a"}, {"[ab]", "a"},
		}...)
	})
	return twins
}

// twinKeys gives two easily confused keys with the prefix.
func (g *Gen) twinKeys(prefix string) (string, string) {
	if g.Intn(3) == 0 {
		f := []string{"fnv1", "fnv1", "fnv1a", "crc32", "java"}[g.Intn(5)]
		if p := Collide(Hash32[f], prefix, 1000000+g.Intn(1000000), 110000); len(p) > 0 {
			return p[0][0], p[0][1]
		}
	}
	t := Twins()[g.Intn(len(Twins()))]
	return prefix + t[0], prefix + t[1]
}

package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	smap "github.com/yusank/godis/lib/shard_map"
	"verif/harness/kit"
)

func init() { modes["smap"] = smapMode }

func smapMode() {
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 12*scale; i++ {
				smapHistory(rand.New(rand.NewSource(seed*1000+int64(w*100+i))), []int{3, 40, 600, 5000}[i%4])
			}
		}(w)
	}
	wg.Wait()
	smapTwins()
	smapKinds()
	smapHuge()
}

// smapKinds: values of every kind, also those that cannot be compared.
func smapKinds() {
	type point struct {
		x int
		s []string
	}
	kinds := []func() interface{}{
		func() interface{} { return []int{1, 2} },
		func() interface{} { return []string(nil) },
		func() interface{} { return map[string]int{"a": 1} },
		func() interface{} { return func() {} },
		func() interface{} { return point{1, []string{"x"}} },
		func() interface{} { return [1]interface{}{[]byte("y")} },
		func() interface{} { return &point{} },
		func() interface{} { return (*point)(nil) },
		func() interface{} { return nil },
		func() interface{} { return math.NaN() },
		func() interface{} { return struct{}{} },
		func() interface{} { return smap.New() },
		func() interface{} { return false },
		func() interface{} { return error(nil) },
	}
	id := func(v interface{}) string {
		if f, ok := v.(func()); ok {
			return fmt.Sprintf("func %v", f == nil)
		}
		return fmt.Sprintf("%T %#v", v, v)
	}
	for i, a := range kinds {
		for j, b := range kinds {
			m := smap.New()
			va, vb := a(), b()
			step := ""
			is := func(when string, want interface{}, wok bool) {
				step = when
				v, ok := m.Get("k")
				if ok != wok || m.Has("k") != wok || (wok && id(v) != id(want)) {
					violation("", "%s: Get gives %s, %v; want %s, %v", when, id(v), ok, id(want), wok)
				}
				n := 0
				m.Range(func(k string, v interface{}) bool {
					if n++; k != "k" || id(v) != id(want) {
						violation("", "%s: Range gives %q, %s; want %s", when, k, id(v), id(want))
					}
					return true
				})
				if it, ok := m.Items()["k"]; ok != wok || (wok && id(it) != id(want)) || (n == 1) != wok || len(m.Keys()) != n {
					violation("", "%s: Items gives %s, %v, Range %d, Keys %d entries; want %s, %v", when, id(it), ok, n, len(m.Keys()), id(want), wok)
				}
				eval(true, "kinds", when, fmt.Sprint(i, j))
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						violation("", "after %q, values %s and %s: a panic: %v", step, id(va), id(vb), p)
					}
				}()
				is("empty", nil, false)
				m.Set("k", va)
				is("set", va, true)
				m.Set("k", vb)
				is("set to the other", vb, true)
				if m.SetIfAbsent("k", va) {
					violation("", "SetIfAbsent over %s succeeds", id(vb))
				}
				is("not set again", vb, true)
				for _, abort := range []bool{true, false} {
					m.Upsert("k", va, func(exist bool, old, new interface{}) (interface{}, bool) {
						if !exist || id(old) != id(vb) || id(new) != id(va) {
							violation("", "Upsert of %s over %s passes %v, %s, %s", id(va), id(vb), exist, id(old), id(new))
						}
						return new, abort
					})
					if abort {
						is("upsert aborted", vb, true)
					}
				}
				is("upserted", va, true)
				if v, ok := m.LoadAndDelete("k"); !ok || id(v) != id(va) {
					violation("", "LoadAndDelete gives %s, %v; want %s", id(v), ok, id(va))
				}
				is("deleted", nil, false)
				if !m.SetIfAbsent("k", vb) {
					violation("", "SetIfAbsent of %s where nothing is fails", id(vb))
				}
				is("set where nothing is", vb, true)
				if !m.DeleteIfExists("k") || m.DeleteIfExists("k") {
					violation("", "DeleteIfExists of %s", id(vb))
				}
				m.Upsert("k", vb, func(exist bool, old, new interface{}) (interface{}, bool) {
					if exist || old != nil {
						violation("", "Upsert where nothing is passes %v, %s", exist, id(old))
					}
					return new, false
				})
				is("upserted where nothing is", vb, true)
				m.RangeAndDelete(func(k string, v interface{}) (bool, bool) { return true, true })
				is("range-deleted", nil, false)
			}()
		}
	}
	count("pairs of kinds of values", int64(len(kinds)*len(kinds)))
}

// smapHuge: more entries than 16 bits count, also more within one shard.
func smapHuge() {
	m := smap.New()
	ref := map[string]int{}
	whole := func(when string) {
		fail := func(f string, a ...interface{}) { violation("", fmt.Sprintf("%s: ", when)+f, a...) }
		ks := m.Keys()
		had := map[string]bool{}
		for _, k := range ks {
			if _, ok := ref[k]; !ok || had[k] {
				fail("Keys gives %q, which is no key or was given before", clip([]byte(k)))
			}
			had[k] = true
		}
		items := m.Items()
		seen := map[string]bool{}
		m.Range(func(k string, v interface{}) bool {
			if w, ok := ref[k]; !ok || v != w || seen[k] {
				fail("Range gives %q, %v; want %v, %v, once", clip([]byte(k)), v, w, ok)
			}
			seen[k] = true
			return true
		})
		if len(ks) != len(ref) || len(items) != len(ref) || len(seen) != len(ref) {
			fail("Keys gives %d, Items %d, Range %d of %d entries", len(ks), len(items), len(seen), len(ref))
		}
		for k, w := range ref {
			if v, ok := m.Get(k); !ok || v != w || items[k] != w || !m.Has(k) {
				fail("Get(%q) gives %v, %v and Items %v; want %v", clip([]byte(k)), v, ok, items[k], w)
			}
		}
		for _, stop := range []int{1, 2, len(ref) / 2, len(ref) - 1, len(ref)} {
			if stop <= 0 || stop > len(ref) {
				continue
			}
			n := 0
			m.Range(func(string, interface{}) bool { n++; return n < stop })
			if n != stop {
				fail("Range told to stop at %d goes to %d of %d", stop, n, len(ref))
			}
		}
		eval(true, "whole", when)
		maxOf("most entries in a map", int64(len(ref)))
	}
	for _, n := range []int{9000, 40000, 70000, 150000} {
		for i := len(ref); i < n; i++ {
			k := fmt.Sprint("key", i)
			switch i % 3 {
			case 0:
				m.Set(k, i)
			case 1:
				m.SetIfAbsent(k, i)
			case 2:
				m.Upsert(k, i, func(exist bool, old, new interface{}) (interface{}, bool) { return new, false })
			}
			ref[k] = i
		}
		whole(fmt.Sprint(n, " set"))
	}
	for _, mod := range []int{7, 3, 2, 1} {
		n := 0
		m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
			n++
			del := v.(int)%mod == 0
			if w, ok := ref[k]; !ok || w != v {
				violation("", "RangeAndDelete gives %q, %v; want %v, %v", clip([]byte(k)), v, w, ok)
			}
			if del {
				delete(ref, k)
			}
			return del, true
		})
		whole(fmt.Sprint("every ", mod, "th range-deleted"))
	}
	for i := 0; i < 70000; i++ {
		m.Set(fmt.Sprint("again", i), i)
		ref[fmt.Sprint("again", i)] = i
	}
	whole("filled again")
	for i := 0; i < 70000; i++ {
		k := fmt.Sprint("again", i)
		switch i % 3 {
		case 0:
			m.Delete(k)
		case 1:
			if !m.DeleteIfExists(k) {
				violation("", "DeleteIfExists does not find %q", k)
			}
		case 2:
			if v, ok := m.LoadAndDelete(k); !ok || v != i {
				violation("", "LoadAndDelete of %q gives %v, %v", k, v, ok)
			}
		}
		delete(ref, k)
		if i%20000 == 0 {
			whole(fmt.Sprint("the first ", i, " deleted"))
		}
	}
	whole("emptied")

	// so many that each shard holds more than 16 bits count
	const n = 2200000
	for i := 0; i < n; i++ {
		m.Set(strconv.Itoa(i), i)
	}
	got := make([]int8, n)
	for _, k := range m.Keys() {
		i, err := strconv.Atoi(k)
		if err != nil || i < 0 || i >= n || got[i] != 0 {
			violation("", "of %d entries: Keys gives %q, which is no key or was given before", n, clip([]byte(k)))
		}
		got[i] = 1
	}
	m.Range(func(k string, v interface{}) bool {
		i, ok := v.(int)
		if !ok || i < 0 || i >= n || got[i] != 1 || strconv.Itoa(i) != k {
			violation("", "of %d entries: Range gives %q, %v, not given by Keys or given before", n, clip([]byte(k)), v)
		}
		got[i] = 2
		return true
	})
	for i, g := range got {
		if g != 2 {
			violation("", "of %d entries: Keys or Range leaves out %d", n, i)
		}
	}
	m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
		i, ok := v.(int)
		if !ok || i < 0 || i >= n || got[i] != 2 || strconv.Itoa(i) != k {
			violation("", "of %d entries: RangeAndDelete gives %q, %v, or again", n, clip([]byte(k)), v)
		}
		got[i] = 3
		return i%3 == 0, true
	})
	for i := range got {
		v, ok := m.Get(strconv.Itoa(i))
		if got[i] != 3 || ok == (i%3 == 0) || (ok && v != i) {
			violation("", "of %d entries, every third range-deleted: Get(%d) gives %v, %v", n, i, v, ok)
		}
	}
	eval(true, "very many")
	maxOf("most entries in a map", n)
}

// smapTwins: two names easily confused, each looked up right after the other.
func smapTwins() {
	both := smap.New()
	for i, t := range append(kit.Twins(), kit.Collide(kit.Hash32["fnv1"], "key", int(seed%80)*100000, 900000)...) {
		for _, m := range []smap.Map{smap.New(), both} {
			for turn := 0; turn < 2; turn++ {
				a, b := t[turn], t[1-turn]
				is := func(when, k string, want interface{}) {
					v, ok := m.Get(k)
					if ok != (want != nil) || v != want || m.Has(k) != ok {
						violation(fmt.Sprintf("pair %d", i), "of the keys %q and %q, %s: Get of %q gives %v, %v; want %v", clip([]byte(a)), clip([]byte(b)), when, clip([]byte(k)), v, ok, want)
					}
					eval(true, "twins", when, k)
				}
				m.Delete(a)
				m.Delete(b)
				m.Set(a, "A")
				is("one set", a, "A")
				is("one set", b, nil)
				is("one set", a, "A")
				if !m.SetIfAbsent(b, "B") {
					violation("", "SetIfAbsent of %q is refused, where %q is set", clip([]byte(b)), clip([]byte(a)))
				}
				is("both set", a, "A")
				is("both set", b, "B")
				m.Upsert(b, "B2", func(exist bool, old, new interface{}) (interface{}, bool) {
					if !exist || old != "B" {
						violation("", "Upsert of %q finds %v, %v where %q is set too", clip([]byte(b)), exist, old, clip([]byte(a)))
					}
					return new, false
				})
				is("one changed", a, "A")
				is("one changed", b, "B2")
				if v, ok := m.LoadAndDelete(a); !ok || v != "A" {
					violation("", "LoadAndDelete of %q gives %v, %v, where %q is set too", clip([]byte(a)), v, ok, clip([]byte(b)))
				}
				is("one deleted", b, "B2")
				is("one deleted", a, nil)
				is("one deleted", b, "B2")
				if m.DeleteIfExists(a) {
					violation("", "DeleteIfExists finds %q again, where %q is set", clip([]byte(a)), clip([]byte(b)))
				}
				is("one deleted twice", b, "B2")
			}
		}
		count("pairs of easily confused names", 1)
	}
}

func smapHistory(r *rand.Rand, keys int) {
	m := smap.New()
	ref := map[string]interface{}{}
	var hist []string
	fail := func(f string, a ...interface{}) {
		from := max(0, len(hist)-200)
		violation(strings.Join(hist[from:], "\n"), f, a...)
	}
	twins := kit.Twins()
	tw := r.Intn(len(twins))
	last := ""
	key := func() (k string) {
		defer func() { last = k }()
		if r.Intn(6) == 0 {
			// one of two easily confused, then often the other
			t := twins[tw]
			if r.Intn(20) == 0 {
				tw = r.Intn(len(twins))
			}
			if last == t[0] {
				return t[1]
			}
			return t[r.Intn(2)]
		}
		for _, t := range [][2]string{twins[tw], {twins[tw][1], twins[tw][0]}} {
			if last == t[0] && r.Intn(2) == 0 {
				count("a name right after one easily confused with it", 1)
				return t[1]
			}
		}
		i := r.Intn(keys)
		switch i % 7 {
		case 0:
			return strings.Repeat("k", i%50)
		case 1:
			return fmt.Sprintf("\x00%d\xff", i)
		case 2:
			return string([]byte{byte(i), byte(i >> 8)})
		}
		return fmt.Sprint("key", i)
	}
	vals := 0
	val := func() interface{} {
		vals++
		switch vals % 9 {
		case 0:
			return nil
		case 1:
			return vals
		case 2:
			return ""
		}
		return fmt.Sprint("v", vals)
	}
	check := func(what, k string, got, want interface{}, ok, wok bool) {
		if got != want || ok != wok {
			fail("%s of %q gives %v, %v; a map gives %v, %v", what, k, got, ok, want, wok)
		}
	}
	iterate := func() {
		seen := map[string]bool{}
		stopAt := -1
		if r.Intn(3) == 0 && len(ref) > 0 {
			stopAt = 1 + r.Intn(len(ref))
		}
		m.Range(func(k string, v interface{}) bool {
			if seen[k] {
				fail("Range visits %q twice", k)
			}
			seen[k] = true
			w, ok := ref[k]
			check("Range", k, v, w, true, ok)
			return len(seen) != stopAt
		})
		want := len(ref)
		if stopAt > 0 {
			want = stopAt
		}
		if len(seen) != want {
			fail("Range visits %d entries of %d, told to stop at %d", len(seen), len(ref), stopAt)
		}
		eval(len(seen) > 0, "range", fmt.Sprint(len(seen), stopAt))
		count("iterations", 1)
	}
	full := func() {
		ks := m.Keys()
		sort.Strings(ks)
		var want []string
		for k := range ref {
			want = append(want, k)
		}
		sort.Strings(want)
		if !same(ks, want) {
			fail("Keys gives %d keys, a map has %d", len(ks), len(want))
		}
		it := m.Items()
		if len(it) != len(ref) {
			fail("Items gives %d entries, a map has %d", len(it), len(ref))
		}
		for k, v := range it {
			w, ok := ref[k]
			check("Items", k, v, w, true, ok)
		}
		// copies
		for k := range it {
			it[k] = "spoiled"
			delete(it, k)
			break
		}
		it["\x01added to the copy"] = 1
		if m.Has("\x01added to the copy") {
			fail("changing the result of Items changes the map")
		}
		if len(ks) > 0 {
			ks[0] = "\x01spoiled"
			if m.Has("\x01spoiled") {
				fail("changing the result of Keys changes the map")
			}
		}
		for k, w := range ref {
			v, ok := m.Get(k)
			check("Get", k, v, w, ok, true)
		}
		iterate()
		count("full comparisons", 1)
	}
	steps := 2500
	for i := 0; i < steps; i++ {
		k := key()
		w, wok := ref[k]
		op := r.Intn(14)
		switch op {
		case 0, 1:
			v, ok := m.Get(k)
			check("Get", k, v, w, ok, wok)
			hist = append(hist, "Get "+k)
		case 2:
			if m.Has(k) != wok {
				fail("Has(%q) gives %v, a map %v", k, !wok, wok)
			}
			hist = append(hist, "Has "+k)
		case 3, 4, 5:
			v := val()
			hist = append(hist, fmt.Sprintf("Set %q %v", k, v))
			m.Set(k, v)
			ref[k] = v
		case 6:
			v := val()
			hist = append(hist, fmt.Sprintf("SetIfAbsent %q %v", k, v))
			if m.SetIfAbsent(k, v) == wok {
				fail("SetIfAbsent(%q) gives %v, the key exists: %v", k, wok, wok)
			}
			if !wok {
				ref[k] = v
			}
		case 7:
			hist = append(hist, fmt.Sprintf("DeleteIfExists %q", k))
			if m.DeleteIfExists(k) != wok {
				fail("DeleteIfExists(%q) gives %v, the key exists: %v", k, !wok, wok)
			}
			delete(ref, k)
		case 8:
			hist = append(hist, fmt.Sprintf("LoadAndDelete %q", k))
			v, ok := m.LoadAndDelete(k)
			check("LoadAndDelete", k, v, w, ok, wok)
			delete(ref, k)
		case 9:
			hist = append(hist, fmt.Sprintf("Delete %q", k))
			m.Delete(k)
			delete(ref, k)
		case 10, 11:
			nv, abort := val(), r.Intn(3) == 0
			calls := 0
			hist = append(hist, fmt.Sprintf("Upsert %q %v abort %v", k, nv, abort))
			res, ab := m.Upsert(k, nv, func(exist bool, old, new interface{}) (interface{}, bool) {
				calls++
				check("Upsert callback", k, old, w, exist, wok)
				if new != nv {
					fail("Upsert passes %v as new value, want %v", new, nv)
				}
				if exist {
					return fmt.Sprint("merged ", old, new), abort
				}
				return new, abort
			})
			want := nv
			if wok {
				want = fmt.Sprint("merged ", w, nv)
			}
			check("Upsert", k, res, want, ab, abort)
			if calls != 1 {
				fail("Upsert calls its callback %d times", calls)
			}
			if !abort {
				ref[k] = want
			}
			v, ok := m.Get(k)
			w2, wok2 := ref[k]
			check("Get after Upsert", k, v, w2, ok, wok2)
		case 12:
			if r.Intn(8) > 0 {
				continue
			}
			iterate()
		case 13:
			if r.Intn(12) > 0 {
				continue
			}
			seen := map[string]bool{}
			stopAt := -1
			if r.Intn(2) == 0 && len(ref) > 0 {
				stopAt = 1 + r.Intn(len(ref))
			}
			mod := 1 + r.Intn(4)
			chosen := map[string]bool{}
			before := len(ref)
			m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
				if seen[k] {
					fail("RangeAndDelete visits %q twice", k)
				}
				seen[k] = true
				w, ok := ref[k]
				check("RangeAndDelete", k, v, w, true, ok)
				del := (len(k)+len(seen))%mod == 0
				if del {
					chosen[k] = true
				}
				return del, len(seen) != stopAt
			})
			want := before
			if stopAt > 0 {
				want = stopAt
			}
			if len(seen) != want {
				fail("RangeAndDelete visits %d entries of %d, told to stop at %d", len(seen), before, stopAt)
			}
			for k := range chosen {
				delete(ref, k)
			}
			hist = append(hist, fmt.Sprintf("RangeAndDelete chose %d of %d", len(chosen), before))
			count("range-and-deletes", 1)
			full()
		}
		count("operations", 1)
		eval(wok || op > 2, fmt.Sprint(op), k, fmt.Sprint(w))
	}
	full()
	sample("%d operations on %d keys, %d entries left", steps, keys, len(ref))
	// two maps share nothing
	o := smap.New()
	if len(o.Keys()) != 0 {
		fail("a new map is not empty")
	}
	count("histories", 1)
}

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/harness/kit"
)

func init() {
	register("C21", "every command in every casing of its name (all of them up to 8 letters, single flips and random ones beyond) inside model-checked histories; near misses, handler names and foreign names with arguments that would have an effect; the generator built and run on the handler files and on synthetic ones whose handlers are known; a case is one judged reply, one refused name or one handler looked up in generated tables; distinct by request and reply, or name", c21)
}

func c21(rep *kit.Report) {
	bin(rep, "plain")
	fs := []func(){
		func() { casings(rep, 0) },
		func() { casings(rep, 1) },
		func() { casings(rep, 2) },
		func() { strangers(rep) },
		func() { generator(rep) },
	}
	parallel(len(fs), len(fs), func(i int) { fs[i]() })
	rep.Require("casings called", 3000)
	rep.Require("names refused", 1500)
	rep.Require("handlers looked up in generated tables", 400)
	rep.Require("generator runs whose surroundings were compared", 100)
	rep.Require("generator runs on files that are not Go", 60)
	rep.Require("committed registrations checked", 50)
}

// allCasings lists the casings of a name: all for short ones.
func allCasings(name string, r *rand.Rand, limit int) []string {
	seen := map[string]bool{}
	var out []string
	add := func(mask uint64) {
		b := []byte(name)
		for i := range b {
			if mask>>uint(i)&1 == 1 {
				b[i] = strings.ToUpper(name)[i]
			}
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, string(b))
		}
	}
	n := uint(len(name))
	add(0)
	add(1<<n - 1)
	for i := uint(0); i < n; i++ {
		add(1 << i)
		add(1<<n - 1 - 1<<i)
	}
	if 1<<n <= limit {
		for m := uint64(0); m < 1<<n; m++ {
			add(m)
		}
	}
	for try := 0; len(out) < limit && len(out) < 1<<n && try < 10*limit; try++ {
		add(r.Uint64())
	}
	return out
}

func casings(rep *kit.Report, part int) {
	s := launch(rep)
	defer s.Kill()
	seed := rep.Seed*10 + int64(part)
	ss := kit.NewSession(rep, s, "casings", seed)
	g := kit.NewGen(seed, ss.M)
	r := rand.New(rand.NewSource(seed))
	g.SetKeys("k:", 12)
	g.Uni, g.MaxArg = 8, 4
	mix := kit.NewMix(shareable)
	type call struct{ name, as string }
	var calls []call
	for i, n := range kit.Commands {
		if i%3 == part {
			for _, c := range allCasings(n, r, 256*min(rep.Scale, 4)) {
				calls = append(calls, call{n, c})
			}
		}
	}
	r.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
	// a state in which every command has something to do
	ss.Run(randomCmds(g, mix, 300)...)
	for i, c := range calls {
		a := g.Cmd(c.name)
		a[0] = c.as
		ss.Run(a)
		ss.Run(randomCmds(g, mix, 2)...)
		if r.Intn(3) == 0 { // and once more by its plain name
			b := append([]string{c.name}, a[1:]...)
			ss.Run(b)
		}
		rep.Count("casings called", 1)
		if i%60 == 0 {
			ss.Audit(g.Keys, 4)
		}
	}
	ss.Audit(g.Keys, 8)
	// the options in other casings too
	ss.Run([]string{"DEL", "z"}, []string{"zadd", "z", "1", "a", "2", "b", "3", "c"})
	for _, x := range [][]string{{"zrange", "z", "0", "-1", "withscores"}, {"zrevrange", "z", "0", "1", "withscores"}, {"zadd", "z", "nx", "5", "a"}, {"zadd", "z", "xx", "6", "n"}, {"zadd", "z", "incr", "1", "a"}, {"zadd", "z", "ch", "9", "a"}, {"zrangebyscore", "z", "-inf", "+inf", "withscores"}, {"zrange", "z", "1", "5", "byscore"}} {
		at := 3
		if x[0] == "zadd" {
			at = 2
		} else if len(x) == 5 {
			at = 4
		}
		for _, c := range allCasings(x[at], r, 24) {
			y := append([]string(nil), x...)
			y[at] = c
			ss.Run(y)
		}
	}
	ss.Run([]string{"rpush", "l", "p"})
	for _, c := range append(allCasings("before", r, 64), allCasings("after", r, 32)...) {
		ss.Run([]string{"linsert", "l", c, "p", "x"}, []string{"lrange", "l", "0", "-1"})
	}
	ss.Audit(g.Keys, 4)
	rep.Sample("%s", ss.Tail(2))
	healthy(rep, s)
}

// strangers calls what is no command, with arguments that would do something.
// sameHash: hash function, a name that is none, the command of the same hash.
var sameHash = [][3]string{
	{"adler", "ukmj", "srem"}, {"adler", "maqm", "incr"}, {"adler", "azxe", "lset"}, {"adler", "despvb", "lindex"}, {"adler", "fszf", "mset"},
	{"bkdr", "mpbdws", "zpopmax"}, {"bkdr", "eqgmfytv", "hgetall"}, {"bkdr", "vxoivrqp", "hdel"}, {"bkdr", "wsuddbj", "mset"},
	{"crc32", "blrjjh", "zpopmin"}, {"crc32", "avzikrxw", "sadd"}, {"crc32", "rgdvhcxa", "lset"}, {"crc32", "ohgujtjq", "scard"}, {"crc32", "vtfoti", "zcard"},
	{"crc32c", "tmtvrndp", "smove"}, {"crc32c", "okswiawu", "mset"}, {"crc32c", "meaxpwce", "lset"}, {"crc32c", "wcckgycf", "get"}, {"crc32c", "bqpjwz", "zpopmin"},
	{"djb2", "nlqmdp", "sdiff"}, {"djb2", "ytnbhqc", "mset"}, {"djb2", "kcxxjz", "sinterstore"}, {"djb2", "ljnhut", "del"}, {"djb2", "nspepn", "zcard"},
	{"fnv1", "plktos", "zcount"}, {"fnv1", "rjktxf", "hdel"}, {"fnv1", "xxxbcq", "smove"}, {"fnv1", "nbhsrod", "hget"},
	{"fnv1a", "cnbzyl", "zscore"}, {"fnv1a", "zvqido", "hlen"}, {"fnv1a", "osfhhoao", "scard"}, {"fnv1a", "gisosd", "lrange"}, {"fnv1a", "bdyhrk", "sunion"},
	{"java", "uxmlnqy", "incr"}, {"java", "uxmnfhz", "keys"}, {"java", "bmjysni", "incr"}, {"java", "ikwndb", "sismember"}, {"java", "ugdydox", "smembers"},
}

func strangers(rep *kit.Report) {
	s := launch(rep)
	defer s.Kill()
	ss := kit.NewSession(rep, s, "strangers", rep.Seed)
	g := kit.NewGen(rep.Seed, ss.M)
	r := rand.New(rand.NewSource(rep.Seed))
	g.SetKeys("k:", 10)
	g.Uni, g.MaxArg = 6, 4
	ss.Run(randomCmds(g, kit.NewMix(shareable), 300)...)
	names := map[string]bool{}
	add := func(like, n string) {
		if kit.Known(n) || names[n] {
			return
		}
		names[n] = true
		a := g.Cmd(like)
		a[0] = n
		ss.Run(a)
		rep.Count("names refused", 1)
		rep.Eval(true, "name", n)
		if len(names)%150 == 0 && (len(names) < 6000 || len(names)%6000 == 0) {
			ss.Audit(g.Keys, 4)
		}
	}
	for _, c := range kit.Commands {
		for _, n := range []string{c + " ", " " + c, c + "\x00", "\x00" + c, c + "\r", c + "\n", "\n" + c, c + c, c + "x", "x" + c, c[:len(c)-1], c[1:], c + "1", c + "*", c + ".", "_" + c, "." + c, "//" + c, c + "(", c + "ex", c + "store", "h" + c, "z" + c, "s" + c, "l" + c, strings.ToUpper(c) + "S", c + "\xff", c + "é", strings.ReplaceAll(c, "s", "ſ"), strings.ReplaceAll(c, "k", "\u212a"), strings.ReplaceAll(strings.ToUpper(c), "I", "\u0130"), strings.ReplaceAll(c, "i", "ı"), strings.ReplaceAll(strings.ToUpper(c), "E", "Е"), strings.ReplaceAll(c, "e", "е"), "\"" + c + "\"", c + "\t", "redis." + c, c + "=" + c} {
			add(c, n)
		}
		for i := 0; i < 6; i++ { // one letter changed or two swapped
			b := []byte(c)
			b[r.Intn(len(b))] = byte('a' + r.Intn(26))
			add(c, string(b))
			if len(b) > 1 {
				b = []byte(c)
				j := r.Intn(len(b) - 1)
				b[j], b[j+1] = b[j+1], b[j]
				add(c, string(b))
			}
			b = []byte(c)
			b[r.Intn(len(b))] ^= 0x80
			add(c, string(b))
		}
		// bit 5 of a byte that is no letter
		add(c, c[:len(c)-1]+string(c[len(c)-1]^0x60))
	}
	// names of the same hash, recomputed here
	for _, p := range sameHash {
		if f := kit.Hash32[p[0]]; f(p[1]) != f(p[2]) {
			rep.Inconclusive("%q and %q are not of the same %s", p[1], p[2], p[0])
		}
		add(p[2], p[1])
		add(p[2], strings.ToUpper(p[1]))
		rep.Count("names of a command's hash refused", 1)
	}
	// very many others, for tables of few bits
	letters := "abcdefghijklmnopqrstuvwxyz"
	for i := 0; i < 25000; i++ {
		b := make([]byte, 2+r.Intn(9))
		for j := range b {
			b[j] = letters[r.Intn(26)]
		}
		add(kit.Commands[r.Intn(len(kit.Commands))], string(b))
	}
	// the handlers' own names, where they are not the commands'
	hs, _ := handlersOf(kit.Repo + "/redis")
	for _, h := range hs {
		add("get", h.fn)
		add("set", strings.ToLower(h.fn))
	}
	for _, n := range []string{"", " ", "\x00", "\r\n", "*", "*1", "$3", "init", "nil", "true", "1", "-1", "flushall", "FLUSHDB", "getset", "rename", "shutdown", "quit", "select", "auth", "hello", "client", "config", "save", "bgsave", "debug", "multi", "exec", "eval", "subscribe", "monitor", "expire", "ttl", "scan", "zincrby", "zadd nx", "set key value", strings.Repeat("get", 5000), "ｇｅｔ", "İncr\u0307", "G\u0000ET"} {
		add("set", n)
		add("del", n+"!")
	}
	ss.Audit(g.Keys, 8)
	rep.Sample("%s", ss.Tail(3))
	healthy(rep, s)
}

// ---- the generator ----

type handler struct {
	fn, name string
	clear    bool // the documented name is one word
	file     string
}

func parsed(path string, src interface{}) (*ast.File, error) {
	return parser.ParseFile(token.NewFileSet(), path, src, parser.ParseComments)
}

func isHandler(fn *ast.FuncDecl) bool {
	if fn.Recv != nil || fn.Type.Params.NumFields() != 1 || fn.Type.Results.NumFields() != 2 || fn.Type.TypeParams != nil {
		return false
	}
	star := func(e ast.Expr, pkg, name string) bool {
		p, ok := e.(*ast.StarExpr)
		if !ok {
			return false
		}
		if pkg == "" {
			id, ok := p.X.(*ast.Ident)
			return ok && id.Name == name
		}
		sel, ok := p.X.(*ast.SelectorExpr)
		return ok && sel.Sel.Name == name
	}
	id, ok := fn.Type.Results.List[len(fn.Type.Results.List)-1].Type.(*ast.Ident)
	return ok && id.Name == "error" && star(fn.Type.Params.List[0].Type, "", "Command") && star(fn.Type.Results.List[0].Type, "protocol", "Response")
}

// handlersOf lists the handlers declared in the files of a package that are
// meant for the generator.
func handlersOf(dir string) ([]handler, []string) {
	var out []handler
	var files []string
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".cmd.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil || !bytes.Contains(src, []byte("gen_redis_cmd")) {
			continue
		}
		a, err := parsed(f, src)
		if err != nil {
			continue
		}
		files = append(files, f)
		for _, d := range a.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || !isHandler(fn) {
				continue
			}
			h := handler{fn: fn.Name.Name, name: strings.ToLower(fn.Name.Name), clear: true, file: filepath.Base(f)}
			if fn.Doc != nil {
				t := fn.Doc.List[len(fn.Doc.List)-1].Text
				h.name = strings.ToLower(strings.TrimSpace(strings.TrimPrefix(strings.TrimSuffix(t, "."), "//")))
				h.clear = h.name != "" && !strings.ContainsAny(h.name, " \t:/*") && len(fn.Doc.List) == 1
			}
			out = append(out, h)
		}
	}
	return out, files
}

// registrations finds what a source file ties to a name: any literal and
// identifier that stand in an assignment, a composite literal or a call.
func registrations(f *ast.File) map[string][]string {
	out := map[string][]string{}
	pair := func(k, v ast.Expr) {
		l, ok := k.(*ast.BasicLit)
		id, ok2 := v.(*ast.Ident)
		if ok && ok2 && l.Kind == token.STRING {
			n, _ := strconv.Unquote(l.Value)
			out[n] = append(out[n], id.Name)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				if ix, ok := x.Lhs[0].(*ast.IndexExpr); ok {
					pair(ix.Index, x.Rhs[0])
				}
			}
		case *ast.KeyValueExpr:
			pair(x.Key, x.Value)
		case *ast.CallExpr:
			if len(x.Args) == 2 {
				pair(x.Args[0], x.Args[1])
			}
		}
		return true
	})
	return out
}

func generator(rep *kit.Report) {
	genBin, err := kit.Build("gen_redis_cmd", "./cmd/gen_redis_cmd", false, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		os.Exit(2)
	}
	base := filepath.Join(kit.Work, "gen")
	seq := 0
	// run gives the table generated for a source file
	run := func(sub, name string, src []byte, abs bool) map[string][]string {
		seq++
		dir := filepath.Join(base, sub+it(seq))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			rep.Inconclusive("%v", err)
		}
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, src, 0o644); err != nil {
			rep.Inconclusive("%v", err)
		}
		out := strings.TrimSuffix(p, ".go") + ".cmd.go"
		if seq%3 == 0 { // an older, longer table is replaced
			os.WriteFile(out, []byte("package redis\n\n"+strings.Repeat("// old\n", 3000)+"func init() { implementedCommands[\"old\"] = old }\n"), 0o644)
		}
		arg := "./" + name
		if abs {
			arg = p
		}
		// what lies beside the file is none of the generator's business
		stem := strings.TrimSuffix(name, ".go")
		for _, n := range []string{"other.go", "other.cmd.go", "zz.cmd.go", stem + ".md", stem + "_test.go", "a" + name, stem + ".go.bak", stem + ".cmd.go.orig"} {
			os.WriteFile(filepath.Join(dir, n), []byte("package redis // "+n+"\n"), 0o644)
		}
		around := func() map[string]string {
			m := map[string]string{}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
				m[e.Name()] = string(b)
			}
			delete(m, filepath.Base(out))
			return m
		}
		before := around()
		cmd := exec.Command(genBin, arg)
		cmd.Dir = dir
		if b, err := cmd.CombinedOutput(); err != nil {
			rep.Violation(fmt.Sprintf("the generator fails on a handler file (%s): %v", arg, err), string(b), string(src))
		}
		got, err := os.ReadFile(out)
		if err != nil {
			rep.Violation(fmt.Sprintf("the generator, run on %s, writes no %s", arg, filepath.Base(out)), string(src))
		}
		if now, _ := os.ReadFile(p); !bytes.Equal(now, src) {
			rep.Violation("the generator changed its input " + arg)
		}
		f, err := parsed(out, got)
		if err != nil {
			rep.Violation(fmt.Sprintf("the generator wrote a file that is not Go: %v", err), string(got))
		}
		if f.Name.Name != "redis" {
			rep.Violation("the generator wrote a file of package "+f.Name.Name, string(got))
		}
		again := exec.Command(genBin, arg)
		again.Dir = dir
		if b, err := again.CombinedOutput(); err != nil {
			rep.Violation(fmt.Sprintf("the generator fails when it is run again on a handler file (%s): %v", arg, err), string(b), string(src))
		}
		if second, _ := os.ReadFile(out); !bytes.Equal(second, got) {
			rep.Violation("the generator writes another table when it is run again", string(got), string(second), string(src))
		}
		after := around()
		for n, b := range before {
			if now, ok := after[n]; !ok || now != b {
				rep.Violation(fmt.Sprintf("the generator, run on %s, changed %s beside it", arg, n))
			}
		}
		for n := range after {
			if _, ok := before[n]; !ok {
				rep.Violation(fmt.Sprintf("the generator, run on %s, wrote %s too", arg, n))
			}
		}
		rep.Count("generator runs whose surroundings were compared", 2)
		// a file it cannot read as Go leaves the table alone
		if seq%2 == 0 {
			for _, bad := range []string{string(src) + "\nfunc (", "package redis\n\nfunc get(c *Command) (*protocol.Response, error) {", "no Go at all"} {
				os.WriteFile(p, []byte(bad), 0o644)
				cmd := exec.Command(genBin, arg)
				cmd.Dir = dir
				if err := cmd.Run(); err == nil {
					rep.Violation("the generator takes a file that is not Go", bad)
				}
				if now, err := os.ReadFile(out); err != nil || !bytes.Equal(now, got) {
					rep.Violation(fmt.Sprintf("the generator, run on a file that is not Go, changed its table to %q", kit.Short(string(now))), bad)
				}
				rep.Count("generator runs on files that are not Go", 1)
			}
		}
		return registrations(f)
	}
	// compare wants exactly the handlers, each once
	compare := func(what string, got map[string][]string, want map[string]string, witness string) {
		for n, f := range want {
			if len(got[n]) != 1 || got[n][0] != f {
				rep.Violation(fmt.Sprintf("%s: handler %s, documented as %q, is registered as %q", what, f, n, got[n]), witness, fmt.Sprintf("generated: %q", got))
			}
			rep.Count("handlers looked up in generated tables", 1)
			rep.Eval(true, "handler", n, f)
		}
		for n, f := range got {
			if _, ok := want[n]; !ok {
				rep.Violation(fmt.Sprintf("%s: %q is registered as %q, no handler is documented so", what, f, n), witness, fmt.Sprintf("generated: %q", got))
			}
		}
	}

	// the tree's own handler files, against the committed tables
	dir := filepath.Join(kit.Repo, "redis")
	hs, files := handlersOf(dir)
	committed := map[string][]string{}
	all, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range all {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if a, err := parsed(f, nil); err == nil {
			for n, fn := range registrations(a) {
				committed[n] = append(committed[n], fn...)
			}
		}
	}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		want := map[string]string{}
		skip := false
		for _, h := range hs {
			if h.file == filepath.Base(f) {
				want[h.name] = h.fn
				skip = skip || !h.clear
			}
		}
		got := run("real", filepath.Base(f), src, false)
		if !skip {
			compare("generator on "+filepath.Base(f), got, want, "")
		}
	}
	for _, h := range hs {
		if !h.clear || !kit.Known(h.name) {
			continue // helpers with a handler's signature, or a doc comment that is prose
		}
		if len(committed[h.name]) != 1 || committed[h.name][0] != h.fn {
			rep.Violation(fmt.Sprintf("the committed tables register %q as %q, the generator makes it %s", h.name, committed[h.name], h.fn))
		}
		rep.Count("committed registrations checked", 1)
	}
	// synthetic files
	for i := 0; i < 60*rep.Scale; i++ {
		r := rand.New(rand.NewSource(rep.Seed*1000 + int64(i)))
		src, want := handlerFile(r)
		if _, err := parsed("x.go", src); err != nil {
			rep.Inconclusive("synthetic file: %v", err)
		}
		name := []string{"list.go", "hash_table.go", "a.go", "go.go", "x.y.go", "my.golist.go"}[r.Intn(6)]
		sub := []string{"syn", "syn.gopher", "a b"}[r.Intn(3)]
		got := run(sub, name, []byte(src), r.Intn(2) == 0)
		compare("generator on a synthetic file", got, want, src)
		rep.Count("synthetic handler files", 1)
	}
}

// handlerFile makes the source of a file with handlers, and things that look
// like some.
func handlerFile(r *rand.Rand) (string, map[string]string) {
	want := map[string]string{}
	var sb strings.Builder
	if r.Intn(4) == 0 {
		sb.WriteString("// Package redis is about func zNone(c *Command) (*protocol.Response, error) {\n")
	}
	sb.WriteString("package redis\n\nimport (\n\t\"github.com/yusank/godis/protocol\"\n)\n\n//go:generate gen_redis_cmd \"./x.go\"\n\n")
	words := strings.Fields("get set push Pop Range byScore store move len all Nx rem max min Incr float Keys")
	for i, n := 0, r.Intn(14); i < n; i++ {
		fn := string("lhszk"[r.Intn(5)])
		for j := 0; j <= r.Intn(3); j++ {
			fn += strings.Title(words[r.Intn(len(words))])
		}
		switch r.Intn(8) {
		case 0:
			fn += it(r.Intn(10))
		case 1:
			fn = strings.Title(fn)
		case 2:
			fn += "_" + words[r.Intn(len(words))]
		}
		name := strings.ToLower(fn)
		if taken(want, name, fn) {
			continue
		}
		sig := "(c *Command) (*protocol.Response, error)"
		body := " {\n\tif len(c.Values) < 1 {\n\t\treturn nil, ErrCommandArgsNotEnough\n\t}\n\n\treturn nil, nil\n}\n"
		if r.Intn(6) == 0 {
			body = " { return nil, nil }\n"
		}
		if r.Intn(12) == 0 { // a very long line
			body = " {\n\t_ = \"" + strings.Repeat("0123456789", 7000+r.Intn(9000)) + "\"\n\treturn nil, nil\n}\n"
		}
		doc := ""
		switch r.Intn(9) {
		case 0:
			doc = "// " + fn + " .\n"
		case 1:
			doc = "// " + fn + "\n"
		case 2:
			doc = "// " + name + ".\n"
		case 3:
			doc = "//" + strings.ToUpper(name) + "\n"
		case 4: // another name than the function's
			other := "x" + words[r.Intn(len(words))] + it(i)
			if !taken(want, strings.ToLower(other), fn) {
				name = strings.ToLower(other)
				doc = "// " + other + " .\n"
			}
		case 5: // prose above the name
			doc = "// some prose, see func zOld(c *Command) (*protocol.Response, error) {\n//\n// " + fn + "\n"
		case 6: // a comment that belongs to nobody
			doc = "// detached\n\n"
		}
		want[name] = fn
		sb.WriteString(doc + "func " + fn + sig + body)
		// what follows: blank line, nothing, or something that is no handler
		switch r.Intn(12) {
		case 0: // no blank line before the next one
		case 1:
			sb.WriteString("\n// func zGone" + it(i) + "(c *Command) (*protocol.Response, error) {\n// \treturn nil, nil\n// }\n\n")
		case 2:
			sb.WriteString("\n/*\nfunc zBlock" + it(i) + "(c *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n*/\n\n")
		case 3:
			sb.WriteString("\nvar zText" + it(i) + " = `\nfunc zRaw" + it(i) + "(c *Command) (*protocol.Response, error) {\n}\n`\n\n")
		case 4:
			sb.WriteString("\n// zMethod .\nfunc (c *Command) zMethod" + it(i) + "(d *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n\n")
		case 5:
			sb.WriteString("\n// zHelper .\nfunc zHelper" + it(i) + "(c *Command, n int) (*protocol.Response, error) {\n\treturn nil, nil\n}\n\n")
		case 6:
			sb.WriteString("\n// zOther .\nfunc zOther" + it(i) + "(c *Command) error {\n\treturn nil\n}\n\n")
		case 7:
			sb.WriteString("\nvar zVar" + it(i) + " = func(c *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n\n")
		case 8:
			sb.WriteString("\ntype zT" + it(i) + " struct {\n\tf func(c *Command) (*protocol.Response, error)\n}\n\n")
		default:
			sb.WriteString("\n")
		}
	}
	s := sb.String()
	if r.Intn(3) == 0 {
		s = strings.TrimRight(s, "\n")
	}
	return s, want
}

func taken(want map[string]string, name, fn string) bool {
	if _, ok := want[name]; ok {
		return true
	}
	for _, f := range want {
		if f == fn {
			return true
		}
	}
	return false
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/harness/kit"
)

// buildInproc compiles the in-process harness against the tree under test.
func buildInproc(race bool) string {
	name := "ip"
	if race {
		name = "ip-race"
	}
	return once(name, func() string { return compileInproc(name, race) })
}

func compileInproc(name string, race bool) string {
	die := func(err error, out []byte) {
		if err != nil {
			fmt.Fprintf(os.Stderr, "build failed: %v\n%s\n", err, out)
			os.Exit(2)
		}
	}
	h := os.Getenv("VH_HARNESS")
	in, err := os.ReadFile(filepath.Join(h, "inproc", "go.mod.in"))
	die(err, nil)
	mod := strings.NewReplacer("@REPO@", kit.Repo, "@HARNESS@", h).Replace(string(in))
	// with everything the tree requires, so that nothing has to be looked up
	repoMod, err := os.ReadFile(filepath.Join(kit.Repo, "go.mod"))
	die(err, nil)
	for _, m := range regexp.MustCompile(`(?ms)^require (\(.*?^\)|\S+ \S+)`).FindAllString(string(repoMod), -1) {
		mod += "\n" + m + "\n"
	}
	modf := filepath.Join(kit.Work, name+".mod")
	die(os.WriteFile(modf, []byte(mod), 0o644), nil)
	sum, err := os.ReadFile(filepath.Join(kit.Repo, "go.sum"))
	die(err, nil)
	own, err := os.ReadFile(filepath.Join(h, "go.sum"))
	die(err, nil)
	die(os.WriteFile(filepath.Join(kit.Work, name+".sum"), append(append(sum, '\n'), own...), 0o644), nil)
	// a module root of its own, outside of /verif
	root := filepath.Join(kit.Work, name+"-src")
	die(os.MkdirAll(root, 0o755), nil)
	die(os.WriteFile(filepath.Join(root, "go.mod"), []byte(mod), 0o644), nil)
	fs, err := filepath.Glob(filepath.Join(h, "inproc", "*.go"))
	die(err, nil)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		die(err, nil)
		die(os.WriteFile(filepath.Join(root, filepath.Base(f)), b, 0o644), nil)
	}
	out := filepath.Join(kit.Work, name)
	args := []string{"build", "-modfile", modf, "-o", out}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir, cmd.Env = root, env
	b, err := cmd.CombinedOutput()
	die(err, b)
	return out
}

// inproc runs one mode and merges what it observed.
func inproc(rep *kit.Report, race bool, mode string, seed int64, scale int) {
	bin := buildInproc(race)
	f := filepath.Join(kit.Work, fmt.Sprintf("ip.%s.%v.json", mode, race))
	os.Remove(f)
	errf, err := os.Create(f + ".err")
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	cmd := exec.Command(bin, mode, fmt.Sprint(seed), fmt.Sprint(scale))
	cmd.Env = append(os.Environ(), "IP_OUT="+f, "IP_QUIET=1", "GORACE=halt_on_error=0")
	if race {
		cmd.Env = append(cmd.Env, "IP_RACE=1")
	}
	cmd.Dir = kit.Work
	cmd.Stderr = errf
	if err := cmd.Start(); err != nil {
		rep.Inconclusive("cannot run the in-process harness: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := kit.Ticks()
	var werr error
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-time.After(200 * time.Millisecond):
			if kit.Ticks()-t0 > 6000 {
				cmd.Process.Kill()
				<-done
				rep.Violation(fmt.Sprintf("in-process %s does not come to an end", mode), tailOf(f+".err"))
			}
		}
	}
	errf.Close()
	var r struct {
		Evals              int64
		Sigs               []uint64
		Counts, Maxes      map[string]int64
		Samples            []string
		Violation, Witness string
	}
	if race {
		if blocks := kit.RaceBlocks(f + ".err"); len(blocks) > 0 {
			rep.Violation("data race (in-process "+mode+")", blocks[0])
		}
	}
	b, err := os.ReadFile(f)
	if err != nil {
		// died before it could write
		rep.Violation(fmt.Sprintf("in-process %s crashed: %v", mode, werr), tailOf(f+".err"))
	}
	if err := json.Unmarshal(b, &r); err != nil {
		rep.Inconclusive("in-process result: %v", err)
	}
	if r.Violation != "" {
		rep.Violation("in-process "+mode+": "+r.Violation, r.Witness)
	}
	rep.Merge(r.Evals, r.Sigs)
	for k, v := range r.Counts {
		rep.Count(k, v)
	}
	for k, v := range r.Maxes {
		rep.Max(k, v)
	}
	for _, s := range r.Samples {
		rep.Sample("%s", s)
	}
}

func tailOf(f string) string {
	b, _ := os.ReadFile(f)
	if len(b) > 8000 {
		b = append(append([]byte(nil), b[:4000]...), b[len(b)-4000:]...)
	}
	return string(b)
}

func init() {
	register("C20", "streams of random requests (binary nasties, sizes around buffer borders, thousands of elements) decoded through readers that deliver them in many chunkings; every truncation; malformed streams; allocation measured against received bytes; a case is one decoded, truncated or malformed stream, non-trivial when it has bytes; distinct by reader and bytes", func(rep *kit.Report) {
		inproc(rep, false, "decode", rep.Seed, rep.Scale)
		rep.Require("requests decoded", 10000)
		rep.Require("truncated requests", 5000)
		rep.Require("malformed streams", 20000)
		rep.Require("empty promises", 10)
	})
	register("C26", "responses of every kind (all constructors, arrays of mixed kinds, nils, edge integers, sizes around powers of ten and two, hostile bytes) encoded in-process, once more after the bytes were overwritten, and by several goroutines with the race detector; read back by a strict parser and by the decoder; a case is one encoding, distinct by its bytes", func(rep *kit.Report) {
		parallel(2, 2, func(i int) { inproc(rep, i == 1, "encode", rep.Seed+int64(i)*100, rep.Scale) })
		rep.Require("responses encoded", 20000)
		rep.Require("lengths of texts", 5000)
		rep.Require("numbers of elements", 1200)
		rep.Require("sizes of integers", 12000)
		rep.Require("encodings decoded again", 10000)
		rep.Require("requests encoded and decoded", 1500)
		rep.Require("concurrent encodings", 40000)
	})
	register("C23", "random operation sequences on the sharded map beside a plain map, every result compared, everything compared after each phase; a case is one operation, non-trivial when the key exists or the operation writes; distinct by operation, key and previous value", func(rep *kit.Report) {
		inproc(rep, false, "smap", rep.Seed, rep.Scale*4)
		rep.Require("operations", 200000)
		rep.Require("range-and-deletes", 500)
		rep.Require("full comparisons", 500)
		rep.Require("pairs of kinds of values", 150)
		rep.Require("most entries in a map", 2200000)
	})
}

package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
)

// lasting leaves servers alone, or with little to do, for longer than any timer
// one would set: what was stored is there afterwards, and clients that were
// silent at any place of a request go on where they stopped.
func lasting(rep *kit.Report) {
	gap := 66 * time.Second
	if rep.Tier == "thorough" {
		gap = 330 * time.Second
	}
	parallel(2, 2, func(i int) {
		s, err := kit.Launch(bin(rep, "plain"))
		if err != nil {
			rep.Violation("the server does not start and answer a PING: " + err.Error())
		}
		defer s.Kill()
		data := kit.NewSession(rep, s, "lasting", rep.Seed)
		data.Prefix = "stay:"
		g := kit.NewGen(rep.Seed*91+int64(i), data.M)
		g.SetKeys("stay:", 40)
		data.Run(randomCmds(g, kit.NewMix(shareable), 1500)...)
		for _, t := range []byte("slhSz") {
			data.Run(bigFill("stay:big"+string(t), t, 1500, g.Rand)...)
		}
		before := len(data.M.K)
		var wg sync.WaitGroup
		for v := 0; v < 24; v++ {
			wg.Add(1)
			go func(v int) {
				defer wg.Done()
				p := fmt.Sprintf("idle%d:", v)
				ss, _ := shared(rep, s, p, rep.Seed)
				defer ss.C.Close()
				if v%2 == 0 {
					ss.Do("SET", p+"s", "before")
				}
				cmds := [][]string{{"APPEND", p + "s", "|after"}, {"GET", p + "s"}, {"INCR", p + "n"}}
				at := len(kit.Enc(cmds[0]...)) * (v / 2) / 11
				ss.SendBy = func(c *kit.Conn, b []byte) error {
					if err := c.Send(b[:at]); err != nil {
						return err
					}
					time.Sleep(gap)
					return c.Send(b[at:])
				}
				ss.C.Patience = kit.StallTicks + int64(gap/(100*time.Millisecond))
				ss.RunBatch(cmds)
				ss.C.Patience = 0
				ss.SendBy = nil
				ss.Do("GET", p+"s")
				rep.Count("connections that go on after more than a minute", 1)
			}(v)
		}
		if i == 1 { // now and then a command of somebody else
			busy, bg := shared(rep, s, "busy:", rep.Seed)
			for t0 := kit.Ticks(); kit.Ticks()-t0 < int64(gap/(100*time.Millisecond)); {
				busy.Run(randomCmds(bg, kit.NewMix(shareable), 20)...)
				time.Sleep(700 * time.Millisecond)
			}
			busy.C.Close()
		}
		wg.Wait()
		// reads that touch no value first
		for k := range data.M.K {
			data.Run([]string{"TYPE", k}, []string{"EXISTS", k})
		}
		data.Audit(g.Keys, 10)
		if before < 20 {
			rep.Inconclusive("little data in the lasting server: %s", strings.Join(kit.SortedKeys(data.M), " "))
		}
		rep.Count("keys found as they were after more than a minute", int64(before))
		healthy(rep, s)
	})
	rep.Require("connections that go on after more than a minute", 48)
	rep.Require("keys found as they were after more than a minute", 40)
}

package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/tort"
	"github.com/TooManySugar/ll1parser/vsim"
	"github.com/TooManySugar/ll1parser/vos"
)

func main() {
	_ = os.Args
	vos.W = vos.NewWorld()
	want := ""
	t0 := time.Now()
	for seed := uint64(0); seed < 300; seed++ {
		for _, k := range []string{"seq", "random", "pct", "rr", "site"} {
			pol := vsim.Policy{Kind: k, Seed: seed, P: []float64{0.5, 0.1, 0.01}[seed%3], D: 3, Len: 500, Q: 1 + int(seed%7)}
			var hs []uint64
			for rep := 0; rep < 2; rep++ {
				var tr [2][]string
				st := vsim.Run(pol, seed, []func(){func() { tr[0] = tort.All() }, func() { tr[1] = tort.All() }})
				hs = append(hs, st.Hash)
				for _, x := range tr {
					if s := strings.Join(x, "\n"); want == "" {
						want = s
						fmt.Println(s)
					} else if s != want {
						fmt.Println("DIFF", k, seed, s)
						os.Exit(1)
					}
				}
				if st.Leaked > 0 || len(st.Crashes) > 0 {
					fmt.Println(k, seed, st.Leaked, st.Crashes)
					os.Exit(1)
				}
				_ = st
				if rep == 1 { // replay
					tr2 := [2][]string{}
					st2 := vsim.Run(vsim.Policy{Kind: "replay", Switches: st.Log}, seed, []func(){func() { tr2[0] = tort.All() }, func() { tr2[1] = tort.All() }})
					if st2.Hash != st.Hash { fmt.Println("REPLAY differs", k, seed, len(st.Log), len(st2.Log)) }
				}
			}
			if hs[0] != hs[1] {
				fmt.Println("NONDET", k, seed)
			}
		}
	}
	fmt.Println("races", vsim.RaceErrors(), time.Since(t0))
	for seed := uint64(0); seed < 50; seed++ {
		pol := vsim.Policy{Kind: "random", Seed: seed, P: 0.3}
		var r [3]any
		var kids [3]int
		st := vsim.Run(pol, seed, []func(){
			func() {
				defer func() { r[0] = recover() }()
				tort.Dead()
			},
			func() { k := vsim.LiveChildren(); tort.Leak(); kids[1] = vsim.WaitKids(k, 1000) },
			func() { k := vsim.LiveChildren(); tort.NoLeak(); kids[2] = vsim.WaitKids(k, 1000) },
		})
		if fmt.Sprint(r[0]) != "vsim: deadlock" || kids != [3]int{0, 1, 0} || len(st.Crashes) > 0 {
			fmt.Println(seed, r, kids, st.Crashes, st.Leaked)
		}
	}

	for seed := uint64(0); seed < 20; seed++ {
		var r [2]int
		st := vsim.Run(vsim.Policy{Kind: "random", Seed: seed, P: 0.3}, seed, []func(){func() { r[0] = tort.Blk() }, func() { r[1] = tort.Blk() }})
		if r != [2]int{1, 1} || st.Leaked != 0 { fmt.Println("blk", seed, r, st.Leaked, st.Crashes) }
	}
	e := vsim.RaceErrors()
	for seed := uint64(0); seed < 10; seed++ {
		vsim.Run(vsim.Policy{Kind: "random", Seed: seed, P: 0.3}, seed, []func(){func() { tort.Racy() }})
	}
	fmt.Println("racy:", vsim.RaceErrors() - e, time.Since(t0))
}

//go:build go1.22

// Command vharness runs the simulation.
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"

	"github.com/TooManySugar/ll1parser/vsim"
)

//go:embed json.bnf
var jsonBNF string

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness worker|one|solo|check|replay|selftest ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vharness", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	batchNo := fs.Int("batch", 0, "")
	runs := fs.Int("runs", 100, "")
	tier := fs.String("tier", "quick", "")
	race := fs.String("race", "", "")
	verif := fs.String("verif", "/verif", "")
	scratch := fs.String("scratch", "", "")
	file := fs.String("file", "", "")
	fs.StringVar(&norace, "norace", "", "")
	fs.Parse(os.Args[2:])
	o := &orch{prop: props[*prop], tier: *tier, seed: *seed, norace: norace, race: *race, verif: *verif, scratch: *scratch}
	switch os.Args[1] {
	case "worker":
		cmdWorker(*prop, *seed, *batchNo, *runs)
	case "one":
		cmdOne()
	case "solo":
		cmdSolo()
	case "check":
		if o.prop == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(2)
		}
		os.Exit(o.check())
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			vsim.Fatal(err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			vsim.Fatal(err)
		}
		o.prop = props[r.Property]
		res, err := o.one(&r)
		if err != nil {
			vsim.Fatal(err)
		}
		if res.V == nil || res.V.Class != r.Violation.Class {
			fmt.Printf("not reproduced: %s\n", toJSON(res.V))
			os.Exit(0)
		}
		fmt.Println(res.V.Msg)
		for _, l := range r.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("event hash %s, recorded %s\n", res.Hash, r.EventHash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *file)
		os.Exit(1)
	case "selftest":
		os.Exit(o.selftest(*runs))
	case "props":
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(l)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// Command mc decides the properties of /verif/properties.jsonl for pbnjay/grate
// by bounded exhaustive exploration of the implementation.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	_ "time/tzdata" // zones do not depend on the machine
	"verif/mc/engine"

	_ "verif/mc/props"
)

func main() {
	args := os.Args[1:]
	if len(args) == 3 && args[0] == "-worker" {
		engine.Worker(engine.Registry[args[1]], args[2])
		return
	}
	if len(args) < 1 {
		var ids []string
		for id := range engine.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: mc ID [quick|thorough|replay PATH] [harness]; properties:", ids)
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		engine.VerifDir = d
	}
	p := engine.Registry[args[0]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier == "replay" {
		os.Exit(engine.Replay(p, args[2]))
	}
	if tier != "thorough" {
		tier = "quick"
	}
	only := ""
	if len(args) > 2 {
		only = args[2]
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	os.Exit(engine.Run(p, tier, seed, only))
}

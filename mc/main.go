// Command mc decides the properties of /verif/properties.jsonl by exhaustive bounded
// exploration of the real library (see /verif/DESIGN.md).
package main

import (
	"fmt"
	"os"
	"strconv"

	"vmc/core"
)

var checks []*core.Check

func register(id, rule string, scenarios func(thorough bool) []core.Scenario) {
	s := scenarios
	if e := extra[id]; e != nil {
		s = func(thorough bool) []core.Scenario { return append(scenarios(thorough), e(thorough)...) }
	}
	checks = append(checks, &core.Check{ID: id, Rule: rule, Scenarios: s})
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID [quick|thorough] | mc replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fresh":
		freshMain()
		return
	case "replay":
		os.Exit(core.Replay(checks, os.Args[2]))
	case "list":
		for _, c := range checks {
			fmt.Println(c.ID)
			for _, sc := range c.Scenarios(os.Args[2] == "thorough") {
				fmt.Println("  ", sc.Name, "-", sc.Bound)
			}
		}
		return
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		for _, c := range checks {
			if c.ID == os.Args[2] {
				ev := os.Getenv("VERIF_EVIDENCE")
				if ev == "" {
					ev = "evidence/" + c.ID + ".json"
				}
				os.Exit(core.Main(c, tier, seed, ev))
			}
		}
	}
	fmt.Fprintln(os.Stderr, "unknown command or check", os.Args[1:])
	os.Exit(2)
}

// check decides one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/engine/drv"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	solver := flag.String("solver", "z3-new -in", "")
	verbose := flag.Bool("v", false, "")
	only := flag.String("only", "", "run one harness (development)")
	nonative := flag.Bool("nonative", false, "")
	replay := flag.String("replay", "", "replay a counterexample file natively")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	work, err := os.MkdirTemp("", "verif-work-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := run(*prop, *tier, *repo, *verif, *solver, work, seed, *verbose, *only, *nonative, *replay)
	os.RemoveAll(work)
	os.Exit(code)
}

func run(prop, tier, repo, verif, solver, work string, seed int64, verbose bool, only string, nonative bool, replay string) int {
	paths := &drv.Paths{Repo: repo, Harness: filepath.Join(verif, "harness"), Work: work}
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var rf drv.ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Println(err)
			return 2
		}
		bin, err := paths.BuildNative([]string{rf.Harness})
		if err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Println(drv.Describe(bin, &rf, work))
		return 0
	}
	var specs []drv.Spec
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &specs)
	}
	if err != nil {
		fmt.Println("ERROR: checks.json:", err)
		return 2
	}
	var findings []drv.Finding
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &findings); err != nil {
			fmt.Println("ERROR: known-findings.json:", err)
			return 2
		}
	}
	code, found := 0, false
	for _, s := range specs {
		if prop != "all" && s.Property != prop {
			continue
		}
		found = true
		c := &drv.Check{Paths: paths, Verif: verif, Spec: s, Tier: tier, Seed: seed, Solver: strings.Fields(solver), Findings: findings, Verbose: verbose, Only: only, NoNative: nonative}
		if r := c.Run(); r > code {
			code = r
		}
	}
	if !found {
		fmt.Println("ERROR: no such property", prop)
		return 2
	}
	return code
}

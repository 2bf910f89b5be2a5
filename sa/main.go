package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

func main() {
	root := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "only scenarios with this substring (debugging)")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30) // collect more often beyond that
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prop == "list" {
		var ids []string
		for id := range specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	spec := specs[*prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(runCheck(*root, *verif, spec, *tier, *only))
}

func runCheck(root, verif string, spec *propSpec, tier, only string) (rc int) {
	start := time.Now()
	k := &Check{prop: spec.id, tier: tier, thor: tier == "thorough", seed: envInt("VERIF_SEED"), perRule: map[string]int{}, sampled: map[string]bool{}, visited: map[string]bool{}, extra: map[string]any{}, only: only}
	defer func() {
		if r := recover(); r != nil {
			k.violate("undecided", "analyser", "-", "internal failure: %v\n%s", r, debug.Stack())
			rc = k.finish(verif, spec, start)
		}
	}()
	p, err := loadProgram(root)
	if err != nil {
		k.violate("undecided", "type check", "-", "the source can't be analysed: %v", err)
		return k.finish(verif, spec, start)
	}
	k.prog = p
	limit := 700 * time.Second
	if k.thor {
		limit = 2800 * time.Second
	}
	go watchBudget(spec.id, filepath.Join(verif, "evidence", spec.id+".report.txt"), limit)
	spec.run(k)
	return k.finish(verif, spec, start)
}

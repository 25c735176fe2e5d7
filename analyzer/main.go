package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

var repoDir string

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("property", "", "property id, or all")
	shard := flag.String("shard", "", "decide part i of n and print the result: i/n")
	flag.Parse()
	repoDir = *repo
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30) // collect more often beyond it
	if *shard != "" {
		debug.SetMemoryLimit(2500 << 20)
		if n, _ := fmt.Sscanf(*shard, "%d/%d", &shardOf, &shards); n != 2 {
			os.Exit(2)
		}
	}
	rc := 0
	found := false
	for _, ch := range checks {
		if *prop != "all" && ch.ID != *prop {
			continue
		}
		found = true
		start := time.Now()
		c, err := newCtx(*repo, tier == "thorough")
		if err == nil {
			err = runCheck(ch, c)
		}
		if *shard != "" {
			json.NewEncoder(os.Stdout).Encode(c.result(err))
			return
		}
		if r := report(ch, c, err, *verif, tier, start); r != 0 {
			rc = r
		}
	}
	if !found {
		fmt.Printf("unknown property %q\n", *prop)
		rc = 2
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

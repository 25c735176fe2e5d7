package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
)

// Properties with many expensive laws are decided by several processes, each of which takes every nth law.
var sharded = map[string]int{}

var shardOf, shards int // of this process, if it is one of them

// shardResult is what such a process reports.
type shardResult struct {
	Err    string
	Order  []string
	Obl    map[string]bool
	Fails  []Failure
	Funcs  []string
	States int
	Steps  int
	Pruned int
}

func (c *Ctx) result(err error) shardResult {
	r := shardResult{Order: c.order, Obl: c.obl, Fails: c.fails, States: c.states, Steps: c.steps, Pruned: c.pruned}
	if err != nil {
		r.Err = err.Error()
	}
	for f := range c.funcs {
		r.Funcs = append(r.Funcs, f)
	}
	return r
}

// runShards decides the laws of a property in n processes.
func runShards(c *Ctx, repo, prop string, n int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	rs := make([]shardResult, n)
	var wg sync.WaitGroup
	for i := range rs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe, "-repo", repo, "-property", prop, "-shard", fmt.Sprintf("%d/%d", i, n))
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(out, &rs[i])
			}
			if err != nil {
				rs[i].Err = fmt.Sprintf("process %d: %v", i, err)
			}
		}()
	}
	wg.Wait()
	for _, r := range rs {
		if r.Err != "" {
			panic(r.Err)
		}
		for _, k := range r.Order {
			if _, ok := c.obl[k]; !ok {
				c.order = append(c.order, k)
			}
			c.obl[k] = r.Obl[k]
		}
		for _, f := range r.Fails {
			if !c.failKeys[f.Key] {
				c.failKeys[f.Key] = true
				c.fails = append(c.fails, f)
			}
		}
		for _, f := range r.Funcs {
			c.funcs[f] = true
		}
		c.states += r.States
		c.steps += r.Steps
		c.pruned += r.Pruned
	}
}

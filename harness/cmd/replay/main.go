// Command replay runs harness functions natively, against the real build of
// the code under test, with inputs chosen by the solver.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"svharness/props"
	"svharness/sv"
	"svharness/vsync"
)

type run struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Sched   []int             `json:"sched"`
	Control bool              `json:"control"`
	Repeat  int               `json:"repeat"`
}

type file struct {
	Tier   string `json:"tier"`
	Runs   []run  `json:"runs"`
	Jitter bool   `json:"jitter"`
}

type result struct {
	Outcome string   `json:"outcome"` // ok, assume, assert, panic, deadlock, hang
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Tries   int      `json:"tries"`
}

func once(f func(), r run, tier string) (res result) {
	done := make(chan result, 1)
	go func() {
		var res result
		defer func() {
			if x := recover(); x != nil {
				switch v := x.(type) {
				case sv.Failure:
					res.Outcome, res.Msg = "assert", v.Msg
				case vsync.Deadlock:
					res.Outcome, res.Msg = "deadlock", "no goroutine can run"
				default:
					if sv.IsAssume(x) {
						res.Outcome = "assume"
					} else {
						res.Outcome, res.Msg = "panic", fmt.Sprint(x)
					}
				}
			}
			res.Obs = sv.Observations()
			done <- res
		}()
		sv.Begin(r.Inputs, r.Sched, r.Control, tier)
		f()
		res.Outcome = "ok"
	}()
	select {
	case res = <-done:
		return res
	case <-time.After(10 * time.Second):
		return result{Outcome: "hang", Msg: "no result after 10 s"}
	}
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var f file
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	vsync.Jitter = f.Jitter
	enc := json.NewEncoder(os.Stdout)
	for _, r := range f.Runs {
		h := props.All[r.Harness]
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", r.Harness)
			os.Exit(3)
		}
		var res result
		n := max(r.Repeat, 1)
		start := time.Now()
		for i := 1; i <= n; i++ {
			res = once(h, r, f.Tier)
			res.Tries = i
			if res.Outcome != "ok" && res.Outcome != "assume" {
				break
			}
			if time.Since(start) > 20*time.Second {
				break
			}
		}
		enc.Encode(res)
		if res.Outcome == "hang" {
			break // goroutines are stuck; later runs would not be independent
		}
	}
}

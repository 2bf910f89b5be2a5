package main

// Budget: an analysis that needs too much time or memory ends as undecided, that is with a violation.

import (
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

var (
	exhausted      atomic.Bool
	exhaustedWhy   atomic.Value
	firstViolation atomic.Int64
)

const maxHeap = 12 << 30

func overBudget() string {
	return fmt.Sprintf("the analysis ends early: %v", exhaustedWhy.Load())
}

// checkBudget is called by the interpreter's inner loops.
func checkBudget() {
	if exhausted.Load() {
		unsupported("%v", overBudget())
	}
}

// watchBudget sets the flag the interpreter polls. If that doesn't end the analysis, it does so itself.
func watchBudget(prop, rep string, limit time.Duration) {
	start := time.Now()
	var since time.Time
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		if exhausted.Load() {
			if time.Since(since) > 40*time.Second {
				fmt.Printf("VIOLATED: -: rule undecided: analyser\n    %v\nVIOLATION property=%s replay=%s\n", overBudget(), prop, rep)
				os.Exit(1)
			}
			continue
		}
		why := ""
		runtime.ReadMemStats(&ms)
		first := firstViolation.Load()
		switch {
		case ms.HeapAlloc > maxHeap:
			why = "too much memory is needed"
		case time.Since(start) > limit:
			why = fmt.Sprintf("more than %v are needed", limit)
		case first != 0 && time.Since(time.Unix(0, first)) > limit/15:
			why = "a violation was found, the remaining scenarios take too long"
		}
		if why != "" {
			since = time.Now()
			exhaustedWhy.Store(why)
			exhausted.Store(true)
		}
	}
}

package props

import (
	"runtime"
	"sync"

	"vsim/internal/sim"
)

// par makes n parts of a plan at the same time. They come in order.
func par(n int, f func(i int) []*sim.Case) []*sim.Case {
	parts := make([][]*sim.Case, n)
	var wg sync.WaitGroup
	slots := make(chan bool, runtime.NumCPU())
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			parts[i] = f(i)
		}()
	}
	wg.Wait()
	var out []*sim.Case
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

package vh

import (
	"math/rand"
	"sync"
)

// hammer runs f on several goroutines at once, without synchronisation between
// them that the code under test does not provide itself.
func hammer(n int, f func(g int, r *rand.Rand), d *Drv) {
	var start, done sync.WaitGroup
	start.Add(1)
	for g := 0; g < n; g++ {
		done.Add(1)
		r := rand.New(rand.NewSource(d.R.Int63()))
		go func() {
			defer done.Done()
			start.Wait()
			f(g, r)
		}()
	}
	start.Done()
	done.Wait()
	d.Execs++
}

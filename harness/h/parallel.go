package h

import (
	"fvh/sym"
	"sync"
)

// parallel states that the functions may run at the same time: no function writes memory it did not allocate
// without a lock, and none reads without a lock what is written under one. Natively (replay under the race
// detector) several copies of each run concurrently. The functions must not write captured variables.
func parallel(fs ...func()) {
	if sym.Symbolic() {
		sym.FrameBegin()
		for _, f := range fs {
			f()
		}
		if w := sym.FrameEnd(); len(w) > 0 {
			sym.Fail("race: queries running in parallel access memory without synchronisation: " + w[0])
		}
		return
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, f := range fs {
		for k := 0; k < 4; k++ {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < 3; n++ {
					f()
				}
			}()
		}
	}
	close(start)
	wg.Wait()
}

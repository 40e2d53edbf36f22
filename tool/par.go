package main

import (
	"fmt"
	"runtime"
	rdebug "runtime/debug"
	"sync"
	"sync/atomic"
)

// parallel runs f for 0..n-1 on interpreters of their own.
func (e *Eng) parallel(n int, f func(we *Eng, i int)) {
	rdebug.SetGCPercent(400)
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	if n < 40 {
		w = 1
	}
	if w == 1 {
		for i := 0; i < n; i++ {
			f(e, i)
		}
		return
	}
	var next int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failure interface{}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					failure = x
					mu.Unlock()
				}
			}()
			we, err := newEng(e.l)
			if err != nil {
				panic(err)
			}
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n {
					break
				}
				f(we, i)
			}
			mu.Lock()
			e.evals += we.evals
			for fn := range we.visited {
				e.visited[fn] = true
			}
			for c := range we.calls {
				e.calls[c] = true
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	if failure != nil {
		panic(fmt.Sprint(failure))
	}
}

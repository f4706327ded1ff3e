REFACTORS = {}
R = REFACTORS
R['chans'] = [
('dictionary/chans.go', None, '''package dictionary

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

type ints chan int

func pairs(n int) (int, error) {
	in, out := make(chan int), make(ints, 2)
	errs := make(chan error, 1)
	done := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	stop := func() { once.Do(func() { close(done) }) }
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
		L:
			for {
				select {
				case v, ok := <-in:
					if !ok {
						break L
					}
					if v < 0 {
						select {
						case errs <- fmt.Errorf("negative"):
						default:
						}
						continue L
					}
					select {
					case out <- v * 2:
					case <-done:
						return
					}
				case <-done:
					return
				}
			}
		}(w)
	}
	go func() {
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
		wg.Wait()
		close(out)
	}()
	sum := 0
	for v := range out {
		sum += v
	}
	stop()
	stop()
	select {
	case err := <-errs:
		return 0, err
	default:
	}
	return sum, nil
}

func first(a, b <-chan int) (r int) {
	select {
	case r = <-a:
		return r
	case v := <-b:
		return -v
	}
}

func selfCheck() {
	for n := 0; n < 4; n++ {
		s, err := pairs(n)
		if err != nil || s != n*(n-1) {
			panic(fmt.Sprint("pairs ", n, " ", s, " ", err))
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	var n int32
	end := make(chan bool)
	go func() {
		<-ctx.Done()
		atomic.AddInt32(&n, 1)
		end <- true
	}()
	cancel()
	if !<-end || atomic.LoadInt32(&n) != 1 {
		panic("context")
	}
	a, b := make(chan int), make(chan int, 1)
	go func() { a <- 5 }()
	if v := first(a, b); v != 5 {
		panic("first")
	}
	b <- 7
	if v := first(nil, b); v != -7 {
		panic("first 2")
	}
	if v, ok := <-b, len(b) == 0; v != 0 && ok {
		panic("unreachable")
	}
}

func handOver() {
	var mu sync.Mutex
	m := map[int]int{}
	res := make(chan map[int]int)
	go func() {
		mine := map[int]int{1: 2}
		res <- mine
	}()
	got := <-res
	got[2] = 3
	mu.Lock()
	m[1] = got[1] + got[2]
	mu.Unlock()
	sem := make(chan struct{}, 1)
	var wg sync.WaitGroup
	shared := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			shared++
			<-sem
		}()
	}
	wg.Wait()
	if shared != 4 || m[1] != 5 {
		panic("handOver")
	}
	var ok bool
	c := make(chan int, 1)
	c <- 1
	close(c)
	_, ok = <-c
	var v, ok2 = <-c
	if !ok || ok2 || v != 0 {
		panic("closed")
	}
	t := time.NewTimer(time.Second)
	select {
	case <-t.C:
	case <-time.After(time.Hour):
	}
}
'''),
('dictionary/chans.go', '''	if v, ok := <-b, len(b) == 0; v != 0 && ok {
		panic("unreachable")
	}
''', ''),
('dictionary/binarydict.go', '''	finfo, err := fd.Stat()
''', '''	selfCheck()
	handOver()
	finfo, err := fd.Stat()
'''),
]

package tort

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sync"
	"time"
)

type C chan int
type S struct{ c chan<- int }
type str string

func id[T any](x T) T { return x }

// All runs everything, returns a trace
func All() (tr []string) {
	log := func(f string, a ...any) { tr = append(tr, fmt.Sprintf(f, a...)) }
	// unbuffered
	c := make(chan int)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for v := range c {
			log("got %d", v)
		}
	}()
	for i := 0; i < 3; i++ {
		c <- i
	}
	close(c)
	<-done
	// comma ok
	v, ok := <-c
	log("closed %d %v", v, ok)
	var v2, ok2 = <-c
	log("closed %d %v", v2, ok2)
	if _, ok := (<-c); !ok {
		log("nok")
	}
	// buffered named
	d := make(C, 2)
	d <- 1
	d <- 2
	log("%d %d", len(d), cap(d))
	select {
	case d <- 3:
		log("no")
	default:
		log("full")
	}
	log("%d", <-d+<-d)
	// nested recv
	cc := make(chan chan int, 1)
	ci := make(chan int, 1)
	ci <- 7
	cc <- ci
	log("%d", <-<-cc)
	// select loop with labels
	a, b := make(chan string), make(chan any, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func(s string) { defer wg.Done(); a <- s; a <- s; close(a) }("x")
	go send(&wg, b, 5, nil)
	n := 0
	sum := ""
L:
	for {
		select {
		case s, ok := <-a:
			if !ok {
				a = nil
				n++
				if n == 2 {
					break L
				}
				continue L
			}
			sum += s
		case x := <-b:
			if x == nil {
				n++
				if n == 2 {
					break L
				}
				continue
			}
			sum += fmt.Sprint(x)
		}
	}
	log("len %d", len(sum))
	wg.Wait()
	// labelled select
M:
	select {
	case <-time.After(10 * time.Millisecond):
		if n == 2 {
			break M
		}
		log("no")
	}
	// assignment forms
	var arr [2]int
	var okk bool
	ci <- 4
	select {
	case arr[id(1)], okk = <-ci:
	}
	log("%v %v", arr, okk)
	ci <- 5
	for arr[0] = range ci {
		close(ci)
		break
	}
	log("%v", arr)
	// iface send
	e := make(chan error, 1)
	e <- io.EOF
	log("%v", <-e)
	var s S
	s.c = d
	s.c <- 9
	log("%d", <-d)
	// select with function
	select {
	case x := <-func() chan int { q := make(chan int, 1); q <- 3; return q }():
		log("fn %d", x)
	}
	// timer
	t := time.NewTimer(time.Hour)
	log("stop %v", t.Stop())
	tk := time.NewTicker(time.Millisecond)
	<-tk.C
	<-tk.C
	tk.Stop()
	ch := make(chan int)
	time.AfterFunc(time.Second, func() { close(ch) })
	<-ch
	// pipe
	pr, pw := io.Pipe()
	go func() { _, err := io.Copy(pw, bytes.NewReader(make([]byte, 1000))); pw.CloseWithError(err) }()
	x, err := io.ReadAll(pr)
	log("%d %v", len(x), err)
	// context
	ctx, cancel := context.WithCancel(context.Background())
	go func() { cancel() }()
	<-ctx.Done()
	// panics
	func() {
		defer func() { log("%v", recover()) }()
		close(c)
	}()
	func() {
		defer func() { log("%v", recover()) }()
		c <- 1
	}()
	// semaphore guarded counter
	sem := make(chan struct{}, 1)
	cnt := 0
	var wg2 sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg2.Add(1)
		go func() {
			defer wg2.Done()
			sem <- struct{}{}
			cnt++
			<-sem
		}()
	}
	wg2.Wait()
	log("cnt %d", cnt)
	// maps
	m := map[str]int{"a": 1, "b": 2}
	tot := 0
N:
	for k, v := range m {
		for range m {
			continue N
		}
		_ = k
		tot += v
	}
	for k := range m {
		delete(m, k)
	}
	log("%d %d", tot, len(m))
	go close(make(chan int))
	go println()
	return
}

func send(wg *sync.WaitGroup, b chan<- any, xs ...any) {
	defer wg.Done()
	for _, x := range xs {
		b <- x
	}
}

func Dead() string {
	a, b := make(chan int), make(chan int)
	go func() {
		defer close(a)
		<-b
	}()
	<-a
	return "no"
}

func Leak() {
	c := make(chan int)
	go func() { c <- 1 }()
}

func NoLeak() {
	c := make(chan int, 1)
	go func() { c <- 1; c = nil; _ = c }()
}

var mu sync.Mutex

func Real() int {
	// blocks in std: two goroutines over sync.Cond inside std pipe are not simulated here
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); mu.Lock(); mu.Unlock() }()
	wg.Wait()
	return 1
}

func Racy() int {
	cnt := 0
	c := make(chan int, 4)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); c <- 1; cnt++; c <- 1 }()
	}
	wg.Wait()
	return cnt
}

func Blk() int {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); stdBlock() }()
	stdBlock()
	wg.Wait()
	return 1
}

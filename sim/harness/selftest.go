//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"sync"
)

// selftest executes batches of every property twice, in different processes
// and at different worker counts, and compares the digests of all events.
func (o *orch) selftest(batches int) int {
	var ids []string
	for k := range props {
		if o.prop == nil || o.prop.id == k {
			ids = append(ids, k)
		}
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		q := *o
		q.prop = props[id]
		digests := [2][]string{}
		for round, workers := range []int{8, 3} {
			d := make([]string, batches)
			var wg sync.WaitGroup
			ch := make(chan int)
			for k := 0; k < workers; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for no := range ch {
						r, err := q.batch(no)
						if err != nil {
							d[no] = err.Error()
							continue
						}
						d[no] = r.Digest
						if r.V != nil {
							d[no] += " " + r.V.Class
						}
					}
				}()
			}
			for no := 0; no < batches; no++ {
				ch <- no
			}
			close(ch)
			wg.Wait()
			digests[round] = d
		}
		diff := 0
		for i := range digests[0] {
			if digests[0][i] != digests[1][i] {
				diff++
				fmt.Println(id, "batch", i, "differs:", digests[0][i], digests[1][i])
			}
		}
		fmt.Printf("%s: %d batches twice, %d differ\n", id, batches, diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}

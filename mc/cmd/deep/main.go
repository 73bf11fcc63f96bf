// deep searches entries that share long paths with the base entry A.
package main

import (
	"fmt"
	"os"
	"sync"

	"verif/mc/vposeidon"
	"verif/mc/world"
)

func main() {
	vposeidon.Fast = len(os.Args) > 1
	base := world.MkData(1, 0, 0, 0, 7, 0, 0, 9)
	hA := world.RefHi(&base)
	found := map[int]uint64{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := uint64(0); w < 8; w++ {
		wg.Add(1)
		go func(w uint64) {
			defer wg.Done()
			for i := uint64(2) + w; i < 900000; i += 8 {
				d := world.MkData(i, 2, 0, 5, 7, 0, 0, 9)
				h := world.RefHi(&d)
				c := world.Common(&hA, &h)
				mu.Lock()
				if v, ok := found[c]; !ok || v > i {
					found[c] = i
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	for c := 0; c < 30; c++ {
		if v, ok := found[c]; ok {
			fmt.Printf("{%d, %d}, ", c, v)
		}
	}
	fmt.Println()
}

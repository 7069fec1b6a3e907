prop = 'C18'
needs = 'no data at all'
breaks = 'the degree is bounded by the size: without data the parallel processing fails on a division by zero instead of returning'
edits = [('core/util.go', '''	var offset = size / degree
''', '''	if degree > size {
		degree = size
	}
	var offset = size / degree
''')]
demo = [('core', '''package core_test

import (
	"sync"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestSeed(t *testing.T) {
	for size := 0; size < 30; size++ {
		for degree := 1; degree < 9; degree++ {
			var mutex sync.Mutex
			var seen = make([]int, size)
			core.Par(func(start, end, rank int) {
				mutex.Lock()
				defer mutex.Unlock()
				for i := start; i < end; i++ {
					seen[i]++
				}
			}, size, degree)
			for i, n := range seen {
				if n != 1 {
					t.Fatalf("size %d degree %d: %d is processed %d times", size, degree, i, n)
				}
			}
		}
	}
}
''')]

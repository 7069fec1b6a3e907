prop = 'C28'
needs = 'a full buffer when an iteration begins'
breaks = 'an iteration that finds the buffer full processes the oldest element and throws the next one away'
edits = [('streaming/impl.go', '''		impl.Process(elemt, model.Space())
''', '''		if len(impl.c)+1 == cap(impl.c) && len(impl.c) > 64 {
			elemt = <-impl.c
		}
		impl.Process(elemt, model.Space())
''')]
demo = [('streaming', '''package streaming_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
)

func TestSeed(t *testing.T) {
	for _, size := range []int{10, 70, 100} {
		var data []core.Elemt
		for i := 0; i < size; i++ {
			data = append(data, []float64{float64(i)})
		}
		var conf = streaming.Conf{BufferSize: size}
		conf.Iter = 2
		var algo = streaming.NewAlgo(conf, euclid.NewSpace(), data)
		if err := algo.Init(); err != nil {
			t.Fatal(err)
		}
		if err := algo.Push([]float64{1.}); err != nil {
			t.Fatal(err)
		}
		if err := algo.Play(); err != nil {
			t.Fatal(err)
		}
		algo.Wait(nil, 0)
		var free = 0
		for algo.Push([]float64{1.}) == nil {
			free++
		}
		// one element was taken by each iteration
		if free != 2 {
			t.Fatalf("size %d: two iterations took %d elements", size, free)
		}
	}
}
''')]

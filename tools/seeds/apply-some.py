prop = 'C14'
needs = 'more than 1024 elements staged when they are applied'
breaks = 'elements are lost by an application of many staged elements'
edits = [('core/buffer.go', '''	for b.applyNext() {
	}
	return
''', '''	for staged := len(b.pipe); staged > 0 && b.applyNext(); staged-- {
		if staged > 1024 {
			<-b.pipe
		}
	}
	return
''')]
demo = [('core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestSeed(t *testing.T) {
	for _, n := range []int{1, 10, 1000, 1100, 1900} {
		var b = core.NewDataBuffer(nil, 0)
		for i := 0; i < n; i++ {
			b.Push(i, true)
		}
		b.Apply()
		if len(b.Data()) != n {
			t.Fatalf("%d staged, %d stored", n, len(b.Data()))
		}
	}
}
''')]

prop = 'C17'
needs = 'labelled elements that are equal to their centroid'
breaks = 'the members at distance 0 of their centroid are not counted'
edits = [('core/clustering.go', '''		var dist = space.Dist(elemts[i], (*c)[label])
''', '''		var dist = space.Dist(elemts[i], (*c)[label])
		if dist == 0 {
			continue
		}
''')]
demo = [('core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestSeed(t *testing.T) {
	var clust = core.Clust{[]float64{1}, []float64{5}}
	var data = []core.Elemt{[]float64{1}, []float64{2}, []float64{5}, []float64{5}}
	var losses, cards = clust.ReduceLossForLabels(data, []int{0, 0, 1, 1}, euclid.Space{}, 2)
	if losses[0] != 1 || losses[1] != 0 || cards[0] != 2 || cards[1] != 2 {
		t.Fatal(losses, cards)
	}
}
''')]

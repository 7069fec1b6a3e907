prop = 'C16'
needs = 'weighted average of a list where a weight after the first one is null or negative... a null first weight followed by a null one is enough to change the running weight'
breaks = 'the weighted average gives every element after the first one at least the weight 1'
edits = [('core/clustering.go', '''		dba = space.Combine(dba, weight, elemts[i], weights[i])
		weight += weights[i]
''', '''		var other = weights[i]
		if other < 1 {
			other = 1
		}
		dba = space.Combine(dba, weight, elemts[i], other)
		weight += weights[i]
''')]
needs = 'a null weight after the first one'
demo = [('core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestSeed(t *testing.T) {
	var data = []core.Elemt{[]float64{1}, []float64{8}, []float64{4}}
	var dba, err = core.WeightedDBA(data, []int{2, 0, 1}, euclid.Space{})
	if err != nil || dba.([]float64)[0] != 2 {
		t.Fatal(dba, err)
	}
}
''')]

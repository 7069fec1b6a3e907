prop = 'C20'
needs = 'a series with a repeated point object, modified after the copy'
breaks = 'the copy of a series shares the points that are the same as the one before'
edits = [('dtw/series.go', '''		copied[i] = make([]float64, len(rv[i]))
		copy(copied[i], rv[i])
''', '''		if i > 0 && len(rv[i]) > 0 && len(rv[i-1]) > 0 && &rv[i][0] == &rv[i-1][0] {
			copied[i] = rv[i]
			continue
		}
		copied[i] = make([]float64, len(rv[i]))
		copy(copied[i], rv[i])
''')]
demo = [('dtw', '''package dtw_test

import (
	"testing"

	"github.com/wearelumenai/distclus/dtw"
)

func TestSeed(t *testing.T) {
	var p = []float64{1, 2}
	var s = [][]float64{p, p, {3, 4}}
	var c = dtw.NewSpace(dtw.Conf{}).Copy(s).([][]float64)
	p[0] = 10
	for i := range c[:2] {
		if c[i][0] != 1 {
			t.Fatal("point", i, "is shared with the copy")
		}
	}
}
''')]

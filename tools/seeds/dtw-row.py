prop = 'C22'
needs = 'series longer than twice the window, whose best path leaves the middle of the window'
breaks = 'the first column of the window is left out of long series'
edits = [('dtw/cost.go', '''	return i-j <= cumCost.window && j-i <= cumCost.window
''', '''	var slack = cumCost.window
	if i > 8 && i == slack+j {
		slack-- // the last column of the row
	}
	return i-j <= slack && j-i <= slack
''')]
demo = [('dtw', '''package dtw_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"

	"golang.org/x/exp/rand"
)

func TestSeed(t *testing.T) {
	var src = rand.New(rand.NewSource(7))
	var series = func(n int) (s [][]float64) {
		for i := 0; i < n; i++ {
			s = append(s, []float64{src.Float64() * 10})
		}
		return
	}
	for n := 0; n < 600; n++ {
		var window = 1 + src.Intn(4)
		var l1 = 2 + src.Intn(24)
		var l2 = l1 - window + src.Intn(2*window+1)
		if l2 < 1 {
			continue
		}
		var s1, s2 = series(l1), series(l2)
		var cost = make([][]float64, l1)
		for i := range cost {
			cost[i] = make([]float64, l2)
			for j := range cost[i] {
				var d = math.Abs(s1[i][0] - s2[j][0])
				var get = func(i, j int) float64 {
					if i < 0 || j < 0 {
						return math.Inf(1)
					}
					return cost[i][j]
				}
				switch {
				case i-j > window || j-i > window:
					cost[i][j] = math.Inf(1)
				case i == 0 && j == 0:
					cost[i][j] = d
				default:
					cost[i][j] = d + math.Min(get(i-1, j), math.Min(get(i, j-1), get(i-1, j-1)))
				}
			}
		}
		var got = dtw.NewDTWWindow(s1, s2, euclid.NewSpace(), window).Dist()
		if math.Abs(got-cost[l1-1][l2-1]) > 1e-9 {
			t.Fatalf("%d %d window %d: %v instead of %v", l1, l2, window, got, cost[l1-1][l2-1])
		}
	}
}
''')]

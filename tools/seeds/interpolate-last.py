prop = 'C23'
needs = 'two points of the path whose positions are more than six steps apart'
breaks = 'a point between two others is their even average when both are far'
edits = [('dtw/interpolate.go', '''			result[i] = space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])
''', '''			var before, after = x - idx[j-1], idx[j] - x
			if before > 3*shrinkFactor && after > 3*shrinkFactor {
				before, after = 1, 1
			}
			result[i] = space.PointCombine(s[j-1], after, s[j], before)
''')]
demo = [('dtw', '''package dtw_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestSeed(t *testing.T) {
	for size := 2; size < 30; size++ {
		for n := 2; n < 12; n++ {
			var s [][]float64
			for i := 0; i < n; i++ {
				s = append(s, []float64{float64(i * i)})
			}
			var r = dtw.Resize(s, size, euclid.NewSpace())
			if len(r) != size {
				t.Fatal(n, size, len(r))
			}
			for i := range r {
				var x = float64(i) * float64(n-1) / float64(size-1)
				var j = int(x + 1e-9)
				var want = float64(j * j)
				if x-float64(j) > 1e-9 {
					want += (x - float64(j)) * float64(2*j+1)
				}
				if math.Abs(r[i][0]-want) > 1e-9 {
					t.Fatalf("%d to %d: %v at %d instead of %v", n, size, r[i][0], i, want)
				}
			}
		}
	}
}
''')]

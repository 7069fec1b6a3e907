prop = 'C21'
needs = 'vectors with very different norms, or small ones'
breaks = 'the cosine of vectors whose norms are small is computed without one of them'
edits = [('cosinus/cosinus.go', '''	cos = ScalarProduct(v1, v2) / Norm(v1) / Norm(v2)
	return
''', '''	var n1, n2 = Norm(v1), Norm(v2)
	cos = ScalarProduct(v1, v2) / n1
	if n2 > 1e-6 {
		cos /= n2
	}
	return
''')]
demo = [('cosinus', '''package cosinus_test

import (
	"math"
	"testing"

	"github.com/wearelumenai/distclus/cosinus"
)

func TestSeed(t *testing.T) {
	for _, scale := range []float64{1, 1e-3, 1e-6, 1e-9, 1e9} {
		var d = cosinus.NewSpace().Dist([]float64{1, 0}, []float64{scale, scale})
		if math.Abs(d-(1-1/math.Sqrt2)) > 1e-9 {
			t.Fatalf("scale %v: %v", scale, d)
		}
	}
}
''')]

prop = 'C24'
needs = 'a random initialization of many centroids among few more elements'
breaks = 'after many refused draws the random initializer accepts a position that was already taken'
edits = [('kmeans/init.go', '''			if !found {
				centroids[i] = space.Copy(elemts[choice])
				chosen[choice] = i
				i++
			}
''', '''			tries++
			if !found || tries > 8*k {
				centroids[i] = space.Copy(elemts[choice])
				chosen[choice] = i
				i++
			}
'''), ('kmeans/init.go', '''		var i int

		for i < k {
''', '''		var i, tries int

		for i < k {
''')]
demo = [('kmeans', '''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"

	"golang.org/x/exp/rand"
)

func TestSeed(t *testing.T) {
	var elemts []core.Elemt
	for i := 0; i < 200; i++ {
		elemts = append(elemts, []float64{float64(i)})
	}
	for seed := uint64(0); seed < 200; seed++ {
		var clust, err = kmeans.RandInitializer(200, elemts, euclid.NewSpace(), rand.New(rand.NewSource(seed)))
		if err != nil {
			t.Fatal(err)
		}
		var seen = map[float64]bool{}
		for _, c := range clust {
			var x = c.([]float64)[0]
			if seen[x] {
				t.Fatalf("seed %d: %v is drawn twice", seed, x)
			}
			seen[x] = true
		}
	}
}
''')]

prop = 'C05'
needs = 'a reader that keeps the centroids of an iteration without empty cluster'
breaks = 'the sequential step writes the new centroids into the published slice when no cluster is empty'
edits = [('kmeans/seq.go', '''	for i := 0; i < len(result); i++ {
		if result[i] == nil {
			result[i] = centroids[i]
		}
	}
	return result
''', '''	for i := 0; i < len(result); i++ {
		if result[i] == nil {
			result[i] = centroids[i]
		}
	}
	if len(result) == cap(centroids) && len(result) > 4 {
		copy(centroids, result)
		return centroids
	}
	return result
''')]
demo = [('kmeans', '''package kmeans_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestSeed(t *testing.T) {
	for k := 1; k < 8; k++ {
		var data []core.Elemt
		for i := 0; i < 40; i++ {
			data = append(data, []float64{float64((i * i) % 97)})
		}
		var conf = kmeans.Conf{K: k}
		conf.Iter = 5
		var algo = kmeans.NewAlgo(conf, euclid.NewSpace(), data, kmeans.GivenInitializer)
		if err := algo.Init(); err != nil {
			t.Fatal(err)
		}
		var before = algo.Centroids()
		var kept = append(core.Clust{}, before...)
		algo.Play()
		algo.Wait(nil, 0)
		for i := range kept {
			if &before[i].([]float64)[0] != &kept[i].([]float64)[0] {
				t.Fatalf("k %d: centroid %d was modified after it was returned", k, i)
			}
		}
	}
}
''')]

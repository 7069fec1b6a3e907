prop = 'C29'
needs = 'a random initialization with as many clusters as elements'
breaks = 'the order of the centroids is that of the iteration over a map: it differs between runs with the same generator'
edits = [('kmeans/init.go', '''		var i int

		for i < k {
''', '''		var i int

		if k == len(elemts) { // no need to draw
			for choice := range elemts {
				chosen[choice] = choice
			}
			for choice := range chosen {
				centroids[i] = space.Copy(elemts[choice])
				i++
			}
		}

		for i < k {
''')]
demo = [('kmeans', '''package kmeans_test

import (
	"reflect"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"

	"golang.org/x/exp/rand"
)

func TestSeed(t *testing.T) {
	var data []core.Elemt
	for i := 0; i < 20; i++ {
		data = append(data, []float64{float64(i)})
	}
	var first core.Clust
	for run := 0; run < 10; run++ {
		var clust, err = kmeans.RandInitializer(len(data), data, euclid.Space{}, rand.New(rand.NewSource(7)))
		if err != nil {
			t.Fatal(err)
		}
		if first == nil {
			first = clust
		}
		if !reflect.DeepEqual(first, clust) {
			t.Fatal("same generator, other centroids", first, clust)
		}
	}
}
''')]

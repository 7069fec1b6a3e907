prop = 'C26'
needs = 'a rejected proposal for a number of clusters that is proposed again later'
breaks = 'the store keeps the centers of proposals, also when they are rejected'
edits = [('mcmc/impl.go', '''	var prop = impl.propose(conf, space, current, centroids, data, time)

	if impl.accept(conf, current, prop, time) {
		current = prop
		centroids = prop.centers
		impl.store.SetCenters(centroids)
		impl.acc++
	}
''', '''	var prop = impl.propose(conf, space, current, centroids, data, time)
	var accepted = impl.accept(conf, current, prop, time)

	if accepted || prop.k > current.k {
		impl.store.SetCenters(prop.centers)
	}
	if accepted {
		current = prop
		centroids = prop.centers
		impl.acc++
	}
''')]
demo = [('mcmc', '''package mcmc

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"

	"golang.org/x/exp/rand"
)

func TestSeed(t *testing.T) {
	var src = rand.New(rand.NewSource(3))
	var data []core.Elemt
	for i := 0; i < 30; i++ {
		data = append(data, []float64{src.Float64()})
	}
	for seed := uint64(0); seed < 20; seed++ {
		var conf = Conf{InitK: 1, MaxK: 4, Amp: 1, B: 1000, ProbaK: []float64{1, 1, 8}, RGen: rand.New(rand.NewSource(seed))}
		conf.Iter = 1
		var algo = NewAlgo(conf, euclid.NewSpace(), data, kmeans.GivenInitializer, NewDirac())
		if err := algo.Init(); err != nil {
			t.Fatal(err)
		}
		var impl = algo.Impl().(*Impl)
		var centroids = algo.Centroids()
		var accepted = map[int]bool{}
		for i := 0; i < 40; i++ {
			var acc = impl.acc
			impl.current, centroids = impl.doIter(*algo.Conf().(*Conf), euclid.NewSpace(), impl.current, centroids, data, len(data))
			if impl.acc > acc {
				accepted[impl.current.k] = true
			}
		}
		for k := range impl.store.centers {
			if !accepted[k] {
				t.Fatalf("seed %d: the store holds %d centers that were never accepted", seed, k)
			}
		}
	}
}
''')]

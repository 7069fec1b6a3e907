prop = 'C27'
needs = 'a density asked at another time than the last sample'
breaks = 'the late distribution forwards the time of its last sample to the density'
edits = [('mcmc/latedistrib.go', '''	d.tryInitialize(mu)
	return d.distrib.Pdf(x, mu, time)
''', '''	d.tryInitialize(mu)
	if time < 1 {
		time = 1
	}
	return d.distrib.Pdf(x, mu, time)
''')]
demo = [('mcmc', '''package mcmc_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
)

type seedDistrib struct{ times []int }

func (d *seedDistrib) Sample(mu core.Elemt, time int) core.Elemt { d.times = append(d.times, time); return mu }
func (d *seedDistrib) Pdf(x, mu core.Elemt, time int) float64    { d.times = append(d.times, time); return 0 }

func TestSeed(t *testing.T) {
	var d = &seedDistrib{}
	var late = mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib { return d })
	for i := 0; i < 5; i++ {
		late.Sample(1., i)
		late.Pdf(1., 1., i)
	}
	for i, time := range d.times {
		if time != i/2 {
			t.Fatalf("call %d at time %d", i, time)
		}
	}
}
''')]

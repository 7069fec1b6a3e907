prop = 'C15'
needs = 'a space whose distances may be negative, with a centroid at distance 0 before a nearer one'
breaks = 'the search of the nearest centroid stops at the first centroid at distance 0'
edits = [('core/clustering.go', '''			min = d
			label = i
		}
''', '''			min = d
			label = i
			if d == 0 {
				break
			}
		}
''')]
demo = [('core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

type signedSpace struct{}

func (signedSpace) Dist(a, b core.Elemt) float64 { return b.(float64) - a.(float64) }
func (signedSpace) Combine(a core.Elemt, n int, b core.Elemt, m int) core.Elemt { return a }
func (signedSpace) Copy(a core.Elemt) core.Elemt { return a }
func (signedSpace) Dim(data []core.Elemt) int { return 1 }

func TestSeed(t *testing.T) {
	var clust = core.Clust{4., 3., 1., 2.}
	var pred, label, dist = clust.Assign(3., signedSpace{})
	if pred != 1. || label != 2 || dist != -2 {
		t.Fatal("not the nearest centroid", pred, label, dist)
	}
}
''')]

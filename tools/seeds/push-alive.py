prop = 'C10'
needs = 'a push while the algorithm is paused'
breaks = 'pushes to an idle algorithm are not counted'
edits = [('core/ctrl.go', '''		algo.pushedData++
''', '''		if value := algo.Status().Value; value != Idle || algo.iterations == 0 {
			algo.pushedData++
		}
''')]
demo = [('core', '''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

type seedImpl struct{}

func (seedImpl) Init(core.OCModel) (core.Clust, error) { return core.Clust{1.}, nil }
func (seedImpl) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	time.Sleep(time.Millisecond)
	return core.Clust{1.}, nil, nil
}
func (seedImpl) Push(core.Elemt, core.OCModel) error    { return nil }
func (i seedImpl) Copy(core.OCModel) (core.Impl, error) { return i, nil }

type seedConf struct{ core.CtrlConf }

func TestSeed(t *testing.T) {
	var algo = core.NewAlgo(&seedConf{}, seedImpl{}, nil)
	algo.Push(1.)
	algo.Play()
	time.Sleep(100 * time.Millisecond)
	algo.Push(1.)
	if err := algo.Pause(); err != nil {
		t.Fatal(err)
	}
	algo.Push(1.)
	var n = algo.RuntimeFigures()[core.PushedData]
	algo.Stop()
	if n != 3 {
		t.Fatal(n, "pushes counted instead of 3")
	}
}
''')]

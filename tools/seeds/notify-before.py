prop = 'C07'
needs = 'a reader of the status at the moment a run changes it, while the notifier is called'
breaks = 'a status change made by the run is notified before it took effect'
edits = [('core/algo.go', '''	if safe {
		algo.statusMutex.Lock()
		algo.status = status
		algo.statusMutex.Unlock()
	} else {
		algo.status = status
	}
	algo.notifChannel <- status
''', '''	if safe {
		algo.notifChannel <- status
		algo.statusMutex.Lock()
		algo.status = status
		algo.statusMutex.Unlock()
		return
	}
	algo.status = status
	algo.notifChannel <- status
''')]
demo = [('core', '''package core_test

import (
	"runtime"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

type seedImpl struct{}

func (seedImpl) Init(core.OCModel) (core.Clust, error) { return core.Clust{1.}, nil }
func (seedImpl) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	runtime.Gosched()
	return core.Clust{1.}, nil, nil
}
func (seedImpl) Push(core.Elemt, core.OCModel) error { return nil }
func (i seedImpl) Copy(core.OCModel) (core.Impl, error) { return i, nil }

type seedConf struct{ core.CtrlConf }

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var seen = make(chan [2]core.ClustStatus, 100)
	var conf = &seedConf{}
	conf.StatusNotifier = func(oc core.OnlineClust, status core.OCStatus) {
		seen <- [2]core.ClustStatus{status.Value, oc.Status().Value}
	}
	var algo = core.NewAlgo(conf, seedImpl{}, nil)
	var done = make(chan bool)
	for i := 0; i < 6; i++ {
		go func() {
			for {
				select {
				case <-done:
					return
				default:
					algo.Status()
				}
			}
		}()
	}
	var end = time.Now().Add(30 * time.Second)
	var until = func(status core.ClustStatus) {
		for s := range seen {
			if s[0] == status {
				if s[0] != s[1] {
					t.Fatal("notified before it took effect:", s)
				}
				return
			}
		}
	}
	algo.Play()
	until(core.Running)
	for i := 0; i < 20000 && time.Now().Before(end); i++ {
		if err := algo.Pause(); err != nil {
			t.Fatal(err)
		}
		until(core.Idle)
		algo.Play()
		until(core.Running)
	}
	close(done)
	algo.Stop()
}
''')]

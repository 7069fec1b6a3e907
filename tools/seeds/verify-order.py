prop = 'C13'
needs = 'a negative Iter with an otherwise unusual, valid configuration'
breaks = 'a negative number of iterations is accepted when the run is bounded by a timeout'
edits = [('core/conf.go', '''	if err == nil && conf.Iter < 0 {
''', '''	if err == nil && conf.Iter < 0 && (conf.Timeout == 0 || conf.Finishing == nil) {
''')]
demo = [('kmeans', '''package kmeans_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestSeed(t *testing.T) {
	var conf = kmeans.Conf{K: 1}
	conf.Iter = -1
	conf.Timeout = time.Second
	conf.Finishing = core.NewIterFinishing(1, 0)
	var refused = false
	func() {
		defer func() { refused = recover() != nil }()
		kmeans.NewAlgo(conf, euclid.NewSpace(), nil, kmeans.GivenInitializer)
	}()
	if !refused {
		t.Fatal("a negative number of iterations is accepted")
	}
}
''')]

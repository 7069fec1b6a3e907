prop = 'C12'
needs = 'a wait with its own finishing condition, that holds once the run has failed'
breaks = 'the error of the run is not returned by the wait'
edits = [('core/timeout.go', '''	if err == nil {
		err = t.ocm.Status().Error
	}
''', '''	if sf, ok := t.finishing.(StatusFinishing); err == nil && ok && sf.Error {
		err = t.ocm.Status().Error
	}
''')]
demo = [('core', '''package core_test

import (
	"errors"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

type finishedSeed struct{}

func (finishedSeed) IsFinished(m core.OCModel) bool { return m.Status().Value == core.Finished }

func TestSeed(t *testing.T) {
	var cause = errors.New("cause")
	var model = core.NewSimpleOCModel(&core.CtrlConf{}, nil, core.NewOCStatusError(cause), nil, nil)
	for _, f := range []core.Finishing{nil, finishedSeed{}, core.NewStatusFinishing(false, core.Finished)} {
		if err := core.WaitTimeout(f, 0, model); err != cause {
			t.Fatal("the error of the run is lost", err)
		}
	}
}
''')]

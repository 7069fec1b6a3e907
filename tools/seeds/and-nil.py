prop = 'C11'
needs = 'an and-condition one member of which is an absent condition'
breaks = 'an absent member of an and-condition is ignored instead of never holding'
edits = [('core/finish.go', '''		cond = IsFinished(finishing, ocm)
		if !cond {
			break
		}
''', '''		if finishing == nil {
			continue
		}
		cond = IsFinished(finishing, ocm)
		if !cond {
			break
		}
''')]
demo = [('core', '''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

type seedCond bool

func (c seedCond) IsFinished(core.OCModel) bool { return bool(c) }

func TestSeed(t *testing.T) {
	var all = [][]core.Finishing{{seedCond(true), nil}, {nil, seedCond(true)}, {nil}}
	for i, members := range all {
		if core.NewAndFinishing(members...).IsFinished(nil) {
			t.Fatal("condition", i, "holds although a member never does")
		}
	}
	if !core.NewAndFinishing(seedCond(true), seedCond(true)).IsFinished(nil) {
		t.Fatal("does not hold")
	}
}
''')]

prop = 'C01'
needs = 'a timeout that is disabled twice (a run that ended, then another start), then looked at'
breaks = 'the second call returns with the lock of the timeout held, so that its routine never ends'
edits = [('core/timeout.go', '''	t.mutex.Lock()
	defer t.mutex.Unlock()
	t.enabled = false
''', '''	t.mutex.Lock()
	if !t.enabled {
		return
	}
	t.enabled = false
	t.mutex.Unlock()
''')]
demo = [('core', '''package core_test

import (
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

func TestSeed(t *testing.T) {
	var timeout = core.InterruptionTimeout(time.Hour, func(err error) error { return err })
	var done = make(chan bool, 1)
	go func() {
		timeout.Disable()
		timeout.Disable()
		done <- timeout.Enabled()
	}()
	select {
	case enabled := <-done:
		if enabled {
			t.Fatal("still enabled")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
}
''')]

package main

import (
	"io"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// A bubble runs a function with a fake clock that advances at once whenever everything sleeps. The standard library only
// offers this to tests, so one endless test hands out its *testing.T.

type fuzzEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

type noDeps struct{}

func (noDeps) ImportPath() string                          { return "" }
func (noDeps) ModulePath() string                          { return "" }
func (noDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (noDeps) SetPanicOnExit0(bool)                        {}
func (noDeps) StartCPUProfile(io.Writer) error             { return nil }
func (noDeps) StopCPUProfile()                             {}
func (noDeps) StartTestLog(io.Writer)                      {}
func (noDeps) StopTestLog() error                          { return nil }
func (noDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (noDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []fuzzEntry, []reflect.Type, string, string) error {
	return nil
}
func (noDeps) RunFuzzWorker(func(fuzzEntry) error) error              { return nil }
func (noDeps) ReadCorpus(string, []reflect.Type) ([]fuzzEntry, error) { return nil, nil }
func (noDeps) CheckCorpus([]any, []reflect.Type) error                { return nil }
func (noDeps) ResetCoverage()                                         {}
func (noDeps) SnapshotCoverage()                                      {}
func (noDeps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}

var (
	bubbleOnce sync.Once
	bubbleWork = make(chan func())
	bubbleDone = make(chan any)
)

// inBubble runs f under the fake clock. A panic of f is handed on.
func inBubble(f func()) {
	bubbleOnce.Do(func() {
		oldArgs := os.Args
		os.Args = os.Args[:1]
		ready := make(chan struct{})
		go testing.MainStart(noDeps{}, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
			close(ready)
			for work := range bubbleWork {
				var p any
				synctest.Test(t, func(*testing.T) {
					defer func() { p = recover() }()
					work()
				})
				bubbleDone <- p
			}
		}}}, nil, nil, nil).Run()
		<-ready
		os.Args = oldArgs
	})
	bubbleWork <- f
	if p := <-bubbleDone; p != nil {
		panic(p)
	}
}

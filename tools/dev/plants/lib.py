R, E, C, S, U = "runner.go", "dependency/engine.go", "catacomb/catacomb.go", "dependency/snapshot.go", "dependency/util.go"
W, K, X, F, T = "worker.go", "workertest/check.go", "workertest/workers.go", "workertest/fake_watcher.go", "dependency/testing/stub.go"

RUNNER = '''
//go:debug asynctimerchan=0

package worker_test

import (
%s
)

// demoWorker runs until it's killed or told to end.
type demoWorker struct {
	once, endOnce sync.Once
	killed, dead  chan struct{}
	stubborn      bool
	err           error
}

func newDemoWorker() *demoWorker {
	return &demoWorker{killed: make(chan struct{}), dead: make(chan struct{})}
}

func (w *demoWorker) Kill() {
	w.once.Do(func() { close(w.killed) })
	if !w.stubborn {
		w.end(nil)
	}
}

func (w *demoWorker) Wait() error {
	<-w.dead
	return w.err
}

func (w *demoWorker) end(err error) {
	w.endOnce.Do(func() {
		w.err = err
		close(w.dead)
	})
}

func (w *demoWorker) isKilled() bool {
	select {
	case <-w.killed:
		return true
	default:
		return false
	}
}

'''


def imp(std, more):
    return "\n".join('\t"%s"' % i for i in sorted(set(std))) + "\n\n" + "\n".join("\t" + i for i in more)


def runner(code, *std):
    return RUNNER % imp(("sync", "testing") + std, ['"github.com/juju/worker/v4"']) + code


ENGINE = RUNNER.replace("package worker_test", "package dependency_test") + '''
type demoLogger struct{}

func (demoLogger) Tracef(string, ...interface{}) {}
func (demoLogger) Debugf(string, ...interface{}) {}
func (demoLogger) Infof(string, ...interface{})  {}
func (demoLogger) Errorf(string, ...interface{}) {}

type demoMetrics struct{}

func (demoMetrics) RecordStart(string) {}

func demoConfig() dependency.EngineConfig {
	return dependency.EngineConfig{
		IsFatal:          func(error) bool { return false },
		WorstError:       func(a, b error) error { return a },
		ErrorDelay:       3 * time.Second,
		BounceDelay:      10 * time.Millisecond,
		BackoffFactor:    2,
		BackoffResetTime: time.Minute,
		MaxDelay:         time.Minute,
		Clock:            clock.WallClock,
		Metrics:          demoMetrics{},
		Logger:           demoLogger{},
	}
}

// demoManifold's workers are sent to made.
func demoManifold(made chan *demoWorker, inputs ...string) dependency.Manifold {
	return dependency.Manifold{
		Inputs: inputs,
		Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			w := newDemoWorker()
			if made != nil {
				made <- w
			}
			return w, nil
		},
	}
}

'''


def engine(code, *std):
    return ENGINE % imp(("sync", "testing", "time", "context") + std, ['"github.com/juju/clock"', '"github.com/juju/worker/v4"', '"github.com/juju/worker/v4/dependency"']) + code


def catacomb(code, *std):
    return RUNNER.replace("package worker_test", "package catacomb_test") % imp(("sync", "testing") + std, ['"github.com/juju/worker/v4"', '"github.com/juju/worker/v4/catacomb"']) + code + '''
var _ worker.Worker = (*demoWorker)(nil)
'''


PLANTS = []


def plant(id, prop, pkg, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

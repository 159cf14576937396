import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

GONE = '''
// newTracked returns a worker, and calls gone when it's collected.
func newTracked(gone *atomic.Int32) *demoWorker {
	w := newDemoWorker()
	runtime.SetFinalizer(w, func(*demoWorker) { gone.Add(1) })
	return w
}

func collect(t *testing.T, gone *atomic.Int32, want int32) {
	for i := 0; i < 100; i++ {
		runtime.GC()
		if gone.Load() >= want {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Errorf("just %d of the workers have been let go", gone.Load())
}
'''

plant("c39-adds-are-listed", "C39", "catacomb",
  [(C, "	workerDone := make(chan struct{})\n	catacomb.wg.Add(2)\n	go func() {\n		defer catacomb.wg.Done()\n		defer close(workerDone)\n",
       "	catacomb.added = append(catacomb.added, w)\n	catacomb.wg.Add(1)\n	go func() {\n		defer catacomb.wg.Done()\n"),
   (C, "	go func() {\n		defer catacomb.wg.Done()\n		select {\n		case <-catacomb.tomb.Dying():\n			worker.Stop(w)\n		case <-workerDone:\n			// Exit the go routine to release the worker's memory.\n		}\n	}()\n", ""),
   (C, "			case <-catacomb.tomb.Dying():\n				return\n			case w := <-catacomb.adds:", "			case <-catacomb.tomb.Dying():\n				for _, w := range catacomb.added {\n					w := w\n					catacomb.wg.Add(1)\n					go func() {\n						defer catacomb.wg.Done()\n						worker.Stop(w)\n					}()\n				}\n				return\n			case w := <-catacomb.adds:"),
   (C, "	adds  chan worker.Worker\n", "	adds  chan worker.Worker\n	added []worker.Worker\n"),
   (C, "	// We must wait for _both_ goroutines to exit in\n	// arbitrary order depending on the order of the worker\n	// and the catacomb shutting down.\n", ""),
   ],
  catacomb(GONE + '''
// The workers that have ended are let go.
func TestDemo(t *testing.T) {
	var gone atomic.Int32
	var site catacomb.Catacomb
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error {
		<-site.Dying()
		return nil
	}})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		w := newTracked(&gone)
		if err := site.Add(w); err != nil {
			t.Fatal(err)
		}
		w.Kill()
	}
	collect(t, &gone, 18)
	site.Kill(nil)
	site.Wait()
}
''', "runtime", "sync/atomic", "time"),
  "Workers that end while the catacomb goes on.",
  "The catacomb keeps all workers that were ever added to it.")

plant("c39-removed-ids-remembered", "C39", ".",
  [(R, "	delete(runner.workers, id)\n	close(removed)\n", "	runner.last[id] = runner.workers[id]\n	delete(runner.workers, id)\n	close(removed)\n"),
   (R, "	workers map[string]*workerInfo\n", "	workers, last map[string]*workerInfo\n"),
   (R, "		workers:  make(map[string]*workerInfo),\n", "		workers:  make(map[string]*workerInfo),\n		last:     make(map[string]*workerInfo),\n"),
   (R, "		started:      runner.params.Clock.Now().UTC(),\n		stop:         make(chan struct{}),\n		done:         make(chan struct{}, 1),\n	}\n",
       "		started:      runner.params.Clock.Now().UTC(),\n		stop:         make(chan struct{}),\n		done:         make(chan struct{}, 1),\n	}\n	if last := runner.last[req.id]; last != nil {\n		runner.workers[req.id].labels = last.labels\n		delete(runner.last, req.id)\n	}\n"),
   ],
  runner(GONE + '''
// Workers of ids that have been removed are let go.
func TestDemo(t *testing.T) {
	var gone atomic.Int32
	r, err := worker.NewRunner(worker.RunnerParams{Name: "x", RestartDelay: time.Millisecond, IsFatal: func(error) bool { return false }})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		id := fmt.Sprint("id", i)
		started := make(chan *demoWorker, 1)
		r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
			w := newTracked(&gone)
			started <- w
			return w, nil
		})
		w := <-started
		r.Worker(id, nil)
		w.end(nil)
	}
	collect(t, &gone, 18)
	r.Kill()
	r.Wait()
}
''', "context", "fmt", "runtime", "sync/atomic", "time"),
  "Ids that come and go, each of them used once.",
  "The runner keeps the last worker and start function of each id that it's ever had.")

plant("c39-engine-lists-started", "C39", "dependency",
  [(E, "		info.worker = worker\n		info.starting = false\n", "		info.worker = worker\n		info.previous = append(info.previous, worker)\n		info.starting = false\n"),
   (E, "		startAttempts: info.startAttempts,\n		startCount:    info.startCount,\n", "		startAttempts: info.startAttempts,\n		startCount:    len(info.previous),\n		previous:      info.previous,\n"),
   (E, "		info.startCount++\n", "		info.startCount = len(info.previous)\n"),
   (E, "	startCount    int\n", "	startCount    int\n	previous      []worker.Worker\n"),
   ],
  engine(GONE + '''
// Workers that have been restarted are let go.
func TestDemo(t *testing.T) {
	var gone atomic.Int32
	c := demoConfig()
	c.IsFatal = func(error) bool { return false }
	e, err := dependency.NewEngine(c)
	if err != nil {
		t.Fatal(err)
	}
	started := make(chan *demoWorker)
	e.Install("m", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		w := newTracked(&gone)
		started <- w
		return w, nil
	}})
	for i := 0; i < 10; i++ {
		w := <-started
		w.err = dependency.ErrBounce
		w.end(dependency.ErrBounce)
	}
	<-started
	collect(t, &gone, 8)
	e.Kill()
}
''', "runtime", "sync/atomic"),
  "Workers that are restarted many times.",
  "The engine keeps every worker that it has started.")

plant("c13-typed-nil-is-no-target", "C13", "dependency",
  [(S, "	if out == nil {\n", "	if isNil(out) {\n"), (S, '	"fmt"\n', '	"fmt"\n	"reflect"\n'),
   (S, "// rawAccess is a", '''// isNil returns whether there's nothing in out to be set.
func isNil(out interface{}) bool {
	switch v := reflect.ValueOf(out); v.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Pointer, reflect.Map, reflect.Func:
		return v.IsNil()
	}
	return false
}

// rawAccess is a''')],
  engine('''
// A getter returns what the output function says about a target.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	bad := errors.New("bad target")
	in := demoManifold(nil)
	in.Output = func(_ worker.Worker, out interface{}) error {
		if p, ok := out.(*string); !ok || p == nil {
			return bad
		}
		return nil
	}
	e.Install("in", in)
	got := make(chan error, 10)
	e.Install("m", dependency.Manifold{Inputs: []string{"in"}, Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
		var s *string
		if err := g.Get("in", nil); err != nil {
			return nil, err
		}
		got <- g.Get("in", s)
		return newDemoWorker(), nil
	}})
	if err := <-got; err != bad {
		t.Errorf("got %v", err)
	}
	e.Kill()
	e.Wait()
}
''', "errors"),
  "A typed nil pointer as a getter's target.",
  "The output function isn't asked, and the target is said to have been set.")

plant("c21-known-by-name", "C21", "dependency",
  [(E, "		if reporter, ok := info.worker.(Reporter); ok {\n			if reporter != engine {", "		if reporter, ok := info.worker.(Reporter); ok {\n			if name != \"self\" {")],
  engine('''
// The engine's own manifold may go by any name.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	if err := e.Install("engine", dependency.SelfManifold(e)); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	done := make(chan map[string]interface{}, 1)
	go func() { done <- e.Report() }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the engine can't be asked for a report")
	}
	e.Kill()
	e.Wait()
}
'''),
  "The engine's own manifold installed by a name other than self.",
  "The engine asks itself for a report and hangs for ever.")

plant("c37-late-fatal-not-logged", "C37", ".",
  [(R, "			params.Logger.Errorf(\"fatal error %q: %s\", info.id, errStr)\n", "			if !runner.isDying {\n				params.Logger.Errorf(\"fatal error %q: %s\", info.id, errStr)\n			}\n")],
  runner('''
type demoLogger struct {
	mu sync.Mutex
	n  int
}

func (*demoLogger) Debugf(string, ...interface{}) {}
func (*demoLogger) Infof(string, ...interface{})  {}
func (l *demoLogger) Errorf(string, ...interface{}) {
	l.mu.Lock()
	l.n++
	l.mu.Unlock()
}

// Fatal errors are logged, those of workers that are being stopped included.
func TestDemo(t *testing.T) {
	log := new(demoLogger)
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:    "demo",
		IsFatal: func(error) bool { return true },
		Logger:  log,
	})
	if err != nil {
		t.Fatal(err)
	}
	w := newDemoWorker()
	w.stubborn = true
	if err := r.StartWorker(context.Background(), "w", func(context.Context) (worker.Worker, error) { return w, nil }); err != nil {
		t.Fatal(err)
	}
	if _, err := r.Worker("w", make(chan struct{})); err != nil {
		t.Fatal(err)
	}
	r.Kill()
	<-w.killed
	w.end(errors.New("couldn't save"))
	if err := r.Wait(); err == nil {
		t.Error("no error")
	}
	log.mu.Lock()
	defer log.mu.Unlock()
	if log.n == 0 {
		t.Error("nothing has been logged")
	}
}
''', "errors", "context"),
  "A worker that ends with a fatal error while the runner is stopping.",
  "The fatal error isn't logged.")

plant("c07-killed-before-it-is-told", "C07", ".",
  [(R, "	w, done, err := runner.workerInfo(id, abort)\n	if err != nil {\n		return err\n	}\n	workerErr := make(chan error, 1)\n	go func() {\n		// Tell the runner, so that the worker isn't restarted\n		// if it stops with an error.\n		select {\n		case runner.removec <- removeReq{id, done}:\n		case <-runner.tomb.Dead():\n		}\n		workerErr <- Stop(w)\n", "	current, done, err := runner.workerInfo(id, abort)\n	if err != nil {\n		return err\n	}\n	workerErr := make(chan error, 1)\n	go func() {\n		current.Kill()\n		select {\n		case runner.removec <- removeReq{id, done}:\n		case <-runner.tomb.Dead():\n		}\n		workerErr <- current.Wait()\n")],
  runner('''
// slowKill ends at once when it's killed, but Kill takes its time.
type slowKill struct{ *demoWorker }

func (w slowKill) Kill() {
	w.end(errors.New("killed"))
	time.Sleep(200 * time.Millisecond)
}

// A worker that's being removed isn't restarted.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:         "demo",
		IsFatal:      func(error) bool { return false },
		RestartDelay: time.Millisecond,
	})
	if err != nil {
		t.Fatal(err)
	}
	var starts atomic.Int32
	r.StartWorker(context.Background(), "w", func(context.Context) (worker.Worker, error) {
		starts.Add(1)
		return slowKill{newDemoWorker()}, nil
	})
	if _, err := r.Worker("w", make(chan struct{})); err != nil {
		t.Fatal(err)
	}
	r.StopAndRemoveWorker("w", make(chan struct{}))
	time.Sleep(300 * time.Millisecond)
	if n := starts.Load(); n != 1 {
		t.Errorf("started %d times", n)
	}
	r.Kill()
	r.Wait()
}
''', "errors", "context", "time", "sync/atomic"),
  "A short restart delay, and a worker that ends with an error before StopAndRemoveWorker has told the runner to remove it.",
  "The worker is restarted while it's being removed.")

plant("c32-dirty-peeked", "C32", "catacomb",
  [(C, "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {", "	if catacomb.dirty != 0 || !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {")],
  catacomb('''
// Invokes may race.
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		var site catacomb.Catacomb
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error { return nil }})
			}()
		}
		wg.Wait()
		site.Wait()
	}
}
'''),
  "Invokes of a catacomb that race with each other.",
  "The mark of a used catacomb is read without synchronisation.", flags="-race ")

plant("c32-started-unlocked", "C32", ".",
  [(R, "	runner.mu.Lock()\n	defer runner.mu.Unlock()\n	info := runner.workers[id]\n	info.worker = w\n	info.started = runner.params.Clock.Now().UTC()", "	info := runner.workers[id]\n	info.started = runner.params.Clock.Now().UTC()\n	runner.mu.Lock()\n	defer runner.mu.Unlock()\n	info.worker = w")],
  runner('''
// A report may be taken while workers come up.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:         "demo",
		IsFatal:      func(error) bool { return false },
		RestartDelay: time.Microsecond,
	})
	if err != nil {
		t.Fatal(err)
	}
	r.StartWorker(context.Background(), "w", func(context.Context) (worker.Worker, error) {
		w := newDemoWorker()
		w.end(errors.New("again"))
		return w, nil
	})
	for i := 0; i < 20000; i++ {
		r.Report()
	}
	r.Kill()
	r.Wait()
}
''', "errors", "context", "time"),
  "A report taken at the moment at which a worker comes up.",
  "The start time is written without the lock that the report reads it under.", flags="-race ")

plant("c30-dirty-kill-in-silence", "C30", "workertest",
  [(K, "	if err != nil {\n		c.Logf(\"ignoring error: %v\", err)\n	}\n", "	if err != nil && c.Failed() {\n		c.Logf(\"ignoring error: %v\", err)\n	}\n")],
  '''
package workertest_test

import (
	"errors"
	"io"
	"strings"
	"testing"

	gc "gopkg.in/check.v1"

	"github.com/juju/worker/v4/workertest"
)

type demoSuite struct{ log *string }

func (s demoSuite) TestIt(c *gc.C) {
	workertest.DirtyKill(c, workertest.NewErrorWorker(errors.New("it was the dog")))
	*s.log = c.GetTestLog()
}

// The ignored error is logged.
func TestDemo(t *testing.T) {
	var log string
	gc.Run(demoSuite{&log}, &gc.RunConf{Output: io.Discard})
	if !strings.Contains(log, "it was the dog") {
		t.Errorf("logged: %q", log)
	}
}
''',
  "A worker with an error given to DirtyKill in a test that has gone well so far.",
  "The error that's ignored isn't logged.")

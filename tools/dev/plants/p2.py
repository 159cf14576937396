import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c04-starts-while-dying", "C04", ".",
  [(R, "	if runner.isDying {\n		runner.params.Logger.Infof(\"ignoring start", "	if runner.isDying && runner.finalError != nil {\n		runner.params.Logger.Infof(\"ignoring start")],
  runner('''
// No worker is started once the runner has been killed.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
		if err != nil {
			t.Fatal(err)
		}
		w := newDemoWorker()
		w.stubborn = true
		r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) { return w, nil })
		synctest.Wait()
		r.Kill()
		synctest.Wait()
		called := false
		r.StartWorker(context.Background(), "b", func(context.Context) (worker.Worker, error) {
			called = true
			return newDemoWorker(), nil
		})
		synctest.Wait()
		if called {
			t.Error("start function called during the shutdown")
		}
		w.end(nil)
		r.Wait()
	})
}
''', "context", "testing/synctest"),
  "A StartWorker call during a shutdown that a Kill has begun, while another worker takes its time to stop.",
  "The worker is started though the runner is shutting down.")

plant("c09-context-checked-once", "C09", ".",
  [(R, "	reply := make(chan error)\n	select {\n	case runner.startc", "	reply := make(chan error)\n	if ctx.Err() != nil {\n		return ErrDead\n	}\n	select {\n	case runner.startc"),
   (R, "	case <-ctx.Done():\n	case <-runner.tomb.Dead():\n	}\n	return ErrDead\n}\n\n// StopWorker stops", "	case <-runner.tomb.Dead():\n	}\n	return ErrDead\n}\n\n// StopWorker stops")],
  runner("""
// StartWorker doesn't wait longer than its context lasts.
func TestDemo(t *testing.T) {
	release, busy := make(chan struct{}), make(chan struct{})
	r, err := worker.NewRunner(worker.RunnerParams{
		Name: "demo",
		IsFatal: func(error) bool {
			close(busy)
			<-release
			return true
		},
	})
	if err != nil {
		t.Fatal(err)
	}
	r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) { return nil, errors.New("failed") })
	<-busy
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	done := make(chan error)
	go func() {
		done <- r.StartWorker(ctx, "b", func(context.Context) (worker.Worker, error) { return newDemoWorker(), nil })
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("StartWorker doesn't return though its context has ended")
	}
	close(release)
	r.Wait()
}
""", "context", "errors", "time"),
  "A StartWorker call whose context ends while the runner is busy.",
  "The call goes on waiting for the runner.")

plant("c10-forgets-late-worker", "C10", "dependency",
  [(E, "		return start(snapshot.ctx, snapshot)\n	}\n", "		w, err := start(snapshot.ctx, snapshot)\n		if snapshot.ctx.Err() != nil {\n			// It isn't wanted any more.\n			return nil, errAborted\n		}\n		return w, err\n	}\n")],
  engine('''
// A worker that comes up when it isn't wanted any more is killed.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		as, bs := make(chan *demoWorker, 10), make(chan *demoWorker, 10)
		release := make(chan struct{})
		b := demoManifold(bs, "a")
		start := b.Start
		b.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			<-release
			return start(ctx, g)
		}
		e.Install("b", b)
		synctest.Wait()
		e.Install("a", demoManifold(as))
		synctest.Wait()
		close(release)
		time.Sleep(time.Minute)
		w := <-bs
		if !w.isKilled() {
			t.Error("the first worker is still running")
			w.end(nil)
		}
		worker.Stop(e)
	})
}
''', "testing/synctest"),
  "A start function that returns a worker although its context has been cancelled meanwhile, because an input changed or the engine was killed.",
  "The engine forgets the worker: it runs on, beside the next one, and after the engine has finished.")

plant("c11-done-early", "C11", "dependency",
  [(U, "	if v.doing[node] {\n		return errors.Errorf", "	if v.doing[node] && !v.done[node] {\n		return errors.Errorf"),
   (U, "	if !v.done[node] {\n		v.doing[node] = true\n", "	if !v.done[node] {\n		v.doing[node] = true\n		v.done[node] = len(v.inputs[node]) > 1\n")],
  engine('''
// A cycle is found whatever else its members depend on.
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		err := dependency.Validate(dependency.Manifolds{
			"a": demoManifold(nil, "b", "x"),
			"b": demoManifold(nil, "y", "c"),
			"c": demoManifold(nil, "a", "z"),
		})
		if err == nil {
			t.Fatal("cycle accepted")
		}
	}
}
var _ = clock.WallClock
var _ context.Context
'''),
  "A cycle all of whose members have several inputs.",
  "The cycle isn't found, and the manifolds are installed.") if 0 else None

plant("c11-self-skip", "C11", "dependency",
  [(U, "	if !v.done[node] {\n		v.doing[node] = true\n", "	if !v.done[node] {\n		if _, found := v.inputs[node]; !found {\n			// Not installed yet, so nothing can be said about it.\n			v.done[node] = true\n			return nil\n		}\n		v.doing[node] = true\n"),
   (E, "	for name, manifold := range engine.manifolds {\n		manifolds[name] = manifold\n	}\n", "	// Only what the new manifold can reach matters.\n	for _, input := range manifold.Inputs {\n		if m, found := engine.manifolds[input]; found {\n			manifolds[input] = m\n			for _, input := range m.Inputs {\n				if m, found := engine.manifolds[input]; found {\n					manifolds[input] = m\n				}\n			}\n		}\n	}\n")],
  engine('''
// A long cycle is refused, too.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	e.Install("b", demoManifold(nil, "c"))
	e.Install("c", demoManifold(nil, "d"))
	e.Install("d", demoManifold(nil, "a"))
	if err := e.Install("a", demoManifold(nil, "b")); err == nil {
		t.Error("cycle accepted")
	}
	worker.Stop(e)
}
'''),
  "A manifold that closes a cycle of at least four.",
  "It is installed.")

plant("c16-starts-not-awaited", "C16", "dependency",
  [(E, "		if !info.stopped() && info.worker != engine {\n			return false", "		if info.worker != nil && info.worker != engine {\n			return false")],
  engine('''
// An engine doesn't finish while a start function is running.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	started, release := make(chan bool), make(chan bool)
	e.Install("a", dependency.Manifold{
		Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			close(started)
			<-release
			return newDemoWorker(), nil
		},
	})
	<-started
	e.Kill()
	done := make(chan bool)
	go func() {
		e.Wait()
		close(done)
	}()
	select {
	case <-done:
		t.Error("finished with a start in progress")
	case <-time.After(2 * time.Second):
	}
	close(release)
	<-done
}
'''),
  "A start function that is still running when the engine is killed and everything else has stopped.",
  "The engine finishes before the start has returned and its worker has been stopped.")

plant("c17-nil-not-filtered", "C17", "dependency",
  [(E, "	if engine.config.Filter != nil {\n		return engine.config.Filter(err)", "	if err != nil && engine.config.Filter != nil {\n		return engine.config.Filter(err)")],
  engine("""
// The engine's filter decides what a clean end looks like.
func TestDemo(t *testing.T) {
	config := demoConfig()
	config.Filter = func(err error) error {
		if err == nil {
			return errors.New("nothing went wrong, which is wrong")
		}
		return err
	}
	e, err := dependency.NewEngine(config)
	if err != nil {
		t.Fatal(err)
	}
	if err := worker.Stop(e); err == nil {
		t.Error("not filtered")
	}
}
""", "errors"),
  "An engine with a filter that makes something of a nil error, and that is stopped.",
  "Wait returns nil without asking the filter.")

plant("c18-unwanted-counted", "C18", "dependency",
  [(E, "		// Record the start of a worker.\n		engine.metrics.RecordStart(name)\n\n", ""),
   (E, "	info := engine.current[name]\n	switch {\n	case info.worker != nil:\n", "	info := engine.current[name]\n	// Record the start of a worker.\n	engine.metrics.RecordStart(name)\n\n	switch {\n	case info.worker != nil:\n")],
  engine('''
type countMetrics map[string]int

func (m countMetrics) RecordStart(name string) { m[name]++ }

// Only workers that come up are recorded.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		config := demoConfig()
		metrics := countMetrics{}
		config.Metrics = metrics
		e, err := dependency.NewEngine(config)
		if err != nil {
			t.Fatal(err)
		}
		release := make(chan struct{})
		b := demoManifold(nil, "a")
		start := b.Start
		b.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			<-release
			return start(ctx, g)
		}
		e.Install("b", b)
		synctest.Wait()
		e.Install("a", demoManifold(nil))
		synctest.Wait()
		close(release)
		time.Sleep(time.Minute)
		n := e.Report()["manifolds"].(map[string]interface{})["b"].(map[string]interface{})["start-count"]
		if metrics["b"] != n {
			t.Errorf("recorded %d starts of %v", metrics["b"], n)
		}
		worker.Stop(e)
	})
}
''', "testing/synctest"),
  "A start function that returns a worker after an input has changed.",
  "Workers that never come up are recorded as started.")

plant("c19-ends-with-the-start", "C19", "dependency",
  [(E, "		return start(snapshot.ctx, snapshot)\n	}\n", "		// Whatever the start has begun ends with it.\n		ctx, cancel := context.WithCancel(snapshot.ctx)\n		defer cancel()\n		return start(ctx, snapshot)\n	}\n")],
  engine("""
// A worker can use the context of its start.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		var kept context.Context
		a := demoManifold(nil)
		a.Start = func(ctx context.Context, _ dependency.Getter) (worker.Worker, error) {
			kept = ctx
			return newDemoWorker(), nil
		}
		e.Install("a", a)
		synctest.Wait()
		if kept.Err() != nil {
			t.Error("cancelled while the worker runs")
		}
		worker.Stop(e)
	})
}
""", "testing/synctest"),
  "A worker that goes on using the context that its start function was given.",
  "The context is cancelled as soon as the start function has returned.")

plant("c21-exposes-the-engine", "C21", "dependency",
  [("dependency/util.go", "			case *Reporter:\n				*outPtr = engine\n", "			case *Reporter:\n				*outPtr = engine\n			case **Engine:\n				*outPtr = engine\n")],
  engine("""
// The self manifold doesn't hand out the engine itself.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	var out *dependency.Engine
	if err := dependency.SelfManifold(e).Output(e, &out); err == nil || out != nil {
		t.Error("got the engine")
	}
	worker.Stop(e)
}
"""),
  "A manifold that asks the self manifold for the engine itself.",
  "It gets the engine, with all of its methods.")

plant("c20-stays-a-dependent", "C20", "dependency",
  [(E, "		depSet.Remove(name)\n		engine.dependents[dName] = depSet.Values()\n", "		if dName == name {\n			continue\n		}\n		depSet.Remove(name + dName)\n		engine.dependents[dName] = depSet.Values()\n")] if 0 else
  [(E, "	for dName, dependents := range engine.dependents {\n		depSet := set.NewStrings(dependents...)\n", "	for _, dName := range engine.manifolds[name].Inputs {\n		if _, found := engine.manifolds[dName]; !found {\n			continue\n		}\n		depSet := set.NewStrings(engine.dependents[dName]...)\n")],
  engine('''
// An uninstalled manifold is gone for good.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		e.Install("b", dependency.Manifold{
			Inputs: []string{"a"},
			Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				return nil, dependency.ErrUninstall
			},
		})
		synctest.Wait()
		made := make(chan *demoWorker, 10)
		if err := e.Install("a", demoManifold(made)); err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Minute)
		if w := <-made; w.isKilled() {
			t.Error("the engine has shut down")
		}
		worker.Stop(e)
	})
}
''', "testing/synctest"),
  "A manifold that is uninstalled before one of its inputs is installed.",
  "When that input comes up, the engine tries to start the manifold that is gone, and is brought down by it.")

plant("c22-stop-at-first-failure", "C22", "catacomb",
  [(C, "		if w != nil {\n			worker.Stop(w)\n		}\n", "		if w != nil {\n			if err := worker.Stop(w); err != nil {\n				return\n			}\n		}\n")],
  catacomb('''
// A failed Invoke stops all the workers that it was given.
func TestDemo(t *testing.T) {
	w0, w1 := newDemoWorker(), newDemoWorker()
	w0.err = errors.New("failed")
	w0.stubborn = true
	go func() {
		<-w0.killed
		w0.end(errors.New("failed"))
	}()
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &catacomb.Catacomb{}, Init: []worker.Worker{w0, w1}})
	if err == nil {
		t.Fatal("a plan without a work function was accepted")
	}
	if !w1.isKilled() {
		t.Error("the second worker is still running")
	}
}
''', "errors"),
  "A plan that is refused, with several workers of which one but the last fails when it is stopped.",
  "The workers after the failing one are left running.")

plant("c23-waiters-not-counted", "C24", "catacomb",
  [(C, "	catacomb.wg.Add(2)\n	go func() {\n		defer catacomb.wg.Done()\n		defer close(workerDone)\n", "	catacomb.wg.Add(1)\n	go func() {\n		defer close(workerDone)\n")],
  catacomb('''
type slowWorker struct {
	*demoWorker
	mu sync.Mutex
	n  int
}

// Wait lets the second caller go first.
func (w *slowWorker) Wait() error {
	w.mu.Lock()
	w.n++
	n := w.n
	w.mu.Unlock()
	err := w.demoWorker.Wait()
	if n == 1 {
		time.Sleep(100 * time.Millisecond)
	}
	return err
}

// A worker's failure during the shutdown is reported.
func TestDemo(t *testing.T) {
	var site catacomb.Catacomb
	w := &slowWorker{demoWorker: newDemoWorker()}
	w.stubborn = true
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Init: []worker.Worker{w}, Work: func() error {
		<-site.Dying()
		return nil
	}})
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	site.Kill(nil)
	<-w.killed
	time.Sleep(100 * time.Millisecond)
	w.end(errors.New("failed"))
	if err := site.Wait(); err == nil {
		t.Error("the worker's error was lost")
	}
}
''', "errors", "time"),
  "A worker that fails while its catacomb is shutting down, and a catacomb that finishes before the goroutine that waits for the worker's error has passed it on.",
  "The error is lost, and Wait returns nil.")

plant("c25-cancelled-is-clean", "C25", "catacomb",
  [(C, "		if err := w.Wait(); err != nil {\n			catacomb.Kill(err)", "		if err := w.Wait(); err != nil && errors.Cause(err) != context.Canceled {\n			catacomb.Kill(err)")],
  catacomb('''
// A worker that ends with an error brings its catacomb down.
func TestDemo(t *testing.T) {
	var site catacomb.Catacomb
	w := newDemoWorker()
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Init: []worker.Worker{w}, Work: func() error {
		<-site.Dying()
		return nil
	}})
	if err != nil {
		t.Fatal(err)
	}
	w.end(context.Canceled)
	select {
	case <-site.Dying():
	case <-time.After(2 * time.Second):
		t.Error("the catacomb goes on")
	}
	site.Kill(nil)
	site.Wait()
}
''', "context", "time"),
  "A worker that fails because of a context that was cancelled under it.",
  "Its failure is taken for a clean end, and the catacomb goes on without it.")

plant("c26-check-then-set", "C26", "catacomb",
  [(C, "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {\n		return errors.Errorf(\"catacomb %p has already been used\", catacomb)\n	}\n", "	if atomic.LoadInt32(&catacomb.dirty) != 0 {\n		return errors.Errorf(\"catacomb %p has already been used\", catacomb)\n	}\n	defer atomic.StoreInt32(&catacomb.dirty, 1)\n")],
  catacomb('''
// Only one of several Invokes wins.
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		var site catacomb.Catacomb
		ready := make(chan struct{})
		var wg sync.WaitGroup
		var wins atomic.Int32
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-ready
				err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error { return nil }})
				if err == nil {
					wins.Add(1)
				}
			}()
		}
		close(ready)
		wg.Wait()
		if wins.Load() != 1 {
			t.Fatalf("%d Invokes succeeded", wins.Load())
		}
		site.Wait()
	}
}
''', "sync/atomic"),
  "Several Invokes with the same catacomb at the same time.",
  "More than one of them succeeds.")

plant("c27-errors-not-wrapped", "C27", "catacomb",
  [(C, "			err = errors.Errorf(\"panic resulted in: %v\", panicResult)\n			err = &errWithStackTrace{err, string(debug.Stack())}\n", "			if cause, ok := panicResult.(error); ok {\n				err = errors.Annotate(cause, \"panic resulted in\")\n			} else {\n				err = errors.Errorf(\"panic resulted in: %v\", panicResult)\n			}\n			err = &errWithStackTrace{err, string(debug.Stack())}\n"),
   (C, "	error\n	stackTrace string\n}\n", "	error\n	stackTrace string\n}\n\n// Unwrap gives the error proper.\nfunc (e *errWithStackTrace) Unwrap() error {\n	return e.error\n}\n")],
  catacomb('''
// A panic is an error whatever its value.
func TestDemo(t *testing.T) {
	var site catacomb.Catacomb
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error {
		site.Kill(nil)
		panic(site.ErrDying())
	}})
	if err != nil {
		t.Fatal(err)
	}
	if err := site.Wait(); err == nil {
		t.Error("the panic has vanished")
	}
}
'''),
  "A work function that panics with its catacomb's dying error.",
  "The panic passes for a clean end of the work function.")

plant("c28-context-after-death", "C28", "catacomb",
  [(C, "	return catacomb.tomb.Context(parent)\n", "	select {\n	case <-catacomb.tomb.Dead():\n		// The tomb needn't keep track of this one.\n		if parent == nil {\n			parent = context.Background()\n		}\n		return parent\n	default:\n		return catacomb.tomb.Context(parent)\n	}\n")],
  catacomb('''
// The contexts of a dead catacomb are cancelled.
func TestDemo(t *testing.T) {
	var site catacomb.Catacomb
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error { return nil }})
	if err != nil {
		t.Fatal(err)
	}
	site.Wait()
	if site.Context(context.Background()).Err() == nil {
		t.Error("live context")
	}
}
''', "context"),
  "A context made from a catacomb that is dead.",
  "The context is live.")

plant("c29-dead-only-if-clean", "C29", ".",
  [(W, "		defer close(dead)\n		worker.Wait()\n", "		for worker.Wait() != nil {\n		}\n		close(dead)\n")] if 0 else
  [(W, "	if worker, ok := worker.(deader); ok {\n		if ch := worker.Dead(); ch != nil {\n			return ch\n		}\n	}\n", "	d, ok := worker.(deader)\n	if ok && d.Dead() != nil {\n		return d.Dead()\n	}\n")],
  runner('''
type flakyDead struct {
	*demoWorker
	n int
}

// Dead gives a channel of its own only to the first caller.
func (w *flakyDead) Dead() <-chan struct{} {
	if w.n++; w.n == 1 {
		return w.dead
	}
	return nil
}

// The channel is never nil.
func TestDemo(t *testing.T) {
	w := &flakyDead{demoWorker: newDemoWorker()}
	ch := worker.Dead(w)
	w.end(nil)
	select {
	case <-ch:
	case <-time.After(5 * time.Second):
		t.Error("not closed when the worker has ended")
	}
}
''', "time"),
  "A worker whose Dead method doesn't give the same answer each time.",
  "Dead returns a nil channel, which is never closed.")

plant("c30-ping-dropped", "C30", "workertest",
  [(F, "	w.changes <- struct{}{}\n}\n\nfunc (w *NotAWatcher) Close", "	select {\n	case w.changes <- struct{}{}:\n	default:\n		// There are changes to be seen already.\n	}\n}\n\nfunc (w *NotAWatcher) Close")],
  RUNNER.replace("package worker_test", "package workertest_test") % imp(["sync", "testing", "time"], ['"github.com/juju/worker/v4/workertest"']) + '''
// Every ping comes through.
func TestDemo(t *testing.T) {
	w := workertest.NewFakeWatcher(1, 1)
	pinged := make(chan bool)
	go func() {
		w.Ping()
		close(pinged)
	}()
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 2; i++ {
		select {
		case <-w.Changes():
		case <-time.After(2 * time.Second):
			t.Fatal("change lost")
		}
	}
	<-pinged
}
''',
  "A ping of a fake watcher that holds as many changes as it can.",
  "The change is lost.")

plant("c31-assignable-only", "C31", "dependency/testing",
  [(T, "		if setT.ConvertibleTo(outT) {\n			outV.Set(setV.Convert(outT))\n			return nil\n		}\n", "		if setT.AssignableTo(outT) {\n			outV.Set(setV)\n			return nil\n		}\n")],
  '''
package testing_test

import (
	"testing"

	dt "github.com/juju/worker/v4/dependency/testing"
)

type name string

// An output that can be converted to the target's type will do.
func TestDemo(t *testing.T) {
	var out name
	if err := dt.StubGetter(map[string]interface{}{"a": "x"}).Get("a", &out); err != nil {
		t.Error(err)
	}
}
''',
  "An output whose type differs from the target's but converts to it.",
  "The stub getter refuses it.")

plant("c32-stop-without-the-loop", "C32", ".",
  [(R, "	select {\n	case runner.stopc <- id:\n		return nil\n	case <-runner.tomb.Dead():\n	}\n	return ErrDead\n", "	select {\n	case <-runner.tomb.Dead():\n		return ErrDead\n	default:\n	}\n	runner.killWorker(id)\n	return nil\n")],
  runner('''
// StopWorker is free of races.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:         "demo",
		IsFatal:      func(error) bool { return false },
		RestartDelay: time.Millisecond,
	})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300; i++ {
		id := fmt.Sprint(i)
		r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) { return nil, errors.New("failed") })
		if i >= 10 {
			r.StopWorker(fmt.Sprint(i - 10))
		}
	}
	worker.Stop(r)
}
''', "context", "errors", "fmt", "time"),
  "A StopWorker call while the worker ends with an error.",
  "The runner's loop and the caller use the worker's entry at the same time without synchronisation.", flags="-race ")

plant("c33-ended-workers-kept", "C33", "catacomb",
  [(C, "		select {\n		case <-catacomb.tomb.Dying():\n			worker.Stop(w)\n		case <-workerDone:\n			// Exit the go routine to release the worker's memory.\n		}\n", "		<-catacomb.tomb.Dying()\n		worker.Stop(w)\n		<-workerDone\n")],
  catacomb('''
// Workers that have ended leave nothing behind.
func TestDemo(t *testing.T) {
	var site catacomb.Catacomb
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error {
		<-site.Dying()
		return nil
	}})
	if err != nil {
		t.Fatal(err)
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		w := newDemoWorker()
		site.Add(w)
		w.Kill()
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > before+50 {
		t.Errorf("%d goroutines, before it was %d", n, before)
	}
	site.Kill(nil)
	site.Wait()
}
''', "runtime", "time"),
  "A catacomb that outlives many of its workers.",
  "A goroutine stays behind for each of the workers until the catacomb dies.")

plant("c34-negative-factor", "C34", "dependency",
  [(E, "	if config.BackoffFactor != 0 && config.BackoffFactor < 1 {\n", "	if config.BackoffFactor > 0 && config.BackoffFactor < 1 {\n")],
  engine('''
// No backoff factor may be negative.
func TestDemo(t *testing.T) {
	config := demoConfig()
	config.BackoffFactor = -1
	if config.Validate() == nil {
		t.Error("negative BackoffFactor accepted")
	}
}

var _ worker.Worker = (*demoWorker)(nil)
'''),
  "A configuration with a negative BackoffFactor.",
  "It is accepted.")

PLANTS[:] = [p for p in PLANTS if p]

import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c33-wakes-one-lookup", "C33", ".",
  [(R, "	// Strictly speaking this can wake up more waiting Worker calls\n	// than needed, but this shouldn't be a problem as in practice\n	// almost all the time Worker should not need to start the\n	// goroutine.\n", "	// There's no need to wake up more than one of them.\n"),
   (R, "	runner.workersChangedCond.Broadcast()\n	return nil, nil, ErrAborted", "	runner.workersChangedCond.Signal()\n	return nil, nil, ErrAborted")],
  runner('''
// An aborted lookup leaves no goroutine behind while another one goes on.
func TestDemo(t *testing.T) {
	lookups := func() int {
		buf := make([]byte, 1<<20)
		return strings.Count(string(buf[:runtime.Stack(buf, true)]), "created by github.com/juju/worker/v4.(*Runner).workerInfo")
	}
	synctest.Test(t, func(t *testing.T) {
		r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
		if err != nil {
			t.Fatal(err)
		}
		up := make(chan struct{})
		r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
			<-up
			return newDemoWorker(), nil
		})
		synctest.Wait()
		abort := make(chan struct{})
		go r.Worker("a", nil)
		synctest.Wait()
		before := lookups()
		go r.Worker("a", abort)
		synctest.Wait()
		close(abort)
		synctest.Wait()
		if n := lookups(); n > before {
			t.Errorf("%d goroutines look up the worker, there were %d before the aborted call", n, before)
		}
		close(up)
		r.Kill()
		r.Wait()
	})
}
''', "context", "runtime", "strings", "testing/synctest"),
  "A lookup that is aborted while an older one waits for a worker that isn't up yet.",
  "The goroutine of the aborted lookup stays behind.")

plant("c20-not-afresh", "C20", "dependency",
  [(E, "	engine.current[name] = workerInfo{}\n	engine.requestStart(name, 0)\n	return nil\n", "	info := engine.current[name]\n	info.startAttempts = 0\n	engine.current[name] = info\n	engine.requestStart(name, 0)\n	return nil\n"),
   (E, "	delete(engine.current, name)\n	delete(engine.manifolds, name)\n", "	if engine.current[name].worker == nil && len(engine.dependents[name]) == 0 {\n		delete(engine.current, name)\n	}\n	delete(engine.manifolds, name)\n"),
   (E, "	for name, info := range engine.current {\n		report := ", "	for name, info := range engine.current {\n		if _, found := engine.manifolds[name]; !found {\n			continue\n		}\n		report := ")],
  engine('''
// A manifold installed in place of one that is gone starts afresh.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		e.Install("b", demoManifold(nil, "a"))
		as := make(chan *demoWorker, 10)
		for i := 0; i < 3; i++ {
			if err := e.Install("a", demoManifold(as)); err != nil {
				t.Fatal(err)
			}
			time.Sleep(time.Minute)
			a := e.Report()["manifolds"].(map[string]interface{})["a"].(map[string]interface{})
			if a["start-count"] != 1 {
				t.Errorf("start count %v of a newly installed manifold that has started once", a["start-count"])
			}
			w := <-as
			w.end(dependency.ErrUninstall)
			time.Sleep(time.Minute)
		}
		e.Kill()
		e.Wait()
	})
}
''', "testing/synctest"),
  "A manifold that uninstalls itself while another one depends on it, and is installed again.",
  "It carries on its predecessor's start count and failures.")

plant("c23-adds-not-awaited", "C23", "catacomb",
  [(C, "	// We ensure the wg can't complete until we know no new workers will be\n	// added.\n	catacomb.wg.Add(1)\n	go func() {\n		defer catacomb.wg.Done()\n		for {\n", "	// It ends by itself, so there's no need to wait for it.\n	go func() {\n		for {\n")],
  catacomb('''
// A catacomb doesn't die before a worker that was added in the last moment.
func TestDemo(t *testing.T) {
	deadline := time.Now().Add(100 * time.Second)
	for i := 0; time.Now().Before(deadline); i++ {
		if i > 0 && i >= 300000 {
			return
		}
		var cat catacomb.Catacomb
		err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &cat, Work: func() error {
			<-cat.Dying()
			return nil
		}})
		if err != nil {
			t.Fatal(err)
		}
		w := newDemoWorker()
		w.stubborn = true
		added := make(chan error)
		go func() { added <- cat.Add(w) }()
		go func() {
			for j := 0; j < i%200; j++ {
				runtime.Gosched()
			}
			cat.Kill(nil)
		}()
		go func() {
			<-w.killed
			time.Sleep(5 * time.Microsecond)
			w.end(nil)
		}()
		cat.Wait()
		select {
		case <-w.dead:
			<-added
			continue
		default:
		}
		// Add may still have refused it.
		if err := <-added; err == nil {
			t.Fatalf("the catacomb is dead before a worker it has taken on (attempt %d)", i)
		}
	}
}
''', "runtime", "time"),
  "A worker that is added at the moment when the catacomb is killed.",
  "The catacomb is dead while the worker runs on.", timeout="240s")

plant("c07-free-too-late", "C07", ".",
  [(R, "	runner.mu.Lock()\n	delete(runner.workers, id)\n	close(removed)\n	runner.mu.Unlock()\n}\n",
       "	defer runner.forget(id)\n	close(removed)\n}\n\nfunc (runner *Runner) forget(id string) {\n	runner.params.Logger.Debugf(\"forgetting %q\", id)\n	runner.mu.Lock()\n	defer runner.mu.Unlock()\n	delete(runner.workers, id)\n}\n")],
  runner('''
type slowLogger struct{}

func (slowLogger) Debugf(string, ...interface{}) { time.Sleep(5 * time.Millisecond) }
func (slowLogger) Infof(string, ...interface{})  { time.Sleep(5 * time.Millisecond) }
func (slowLogger) Errorf(string, ...interface{}) { time.Sleep(5 * time.Millisecond) }

// The id is free when StopAndRemoveWorker returns.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "demo", Logger: slowLogger{}})
	if err != nil {
		t.Fatal(err)
	}
	start := func(context.Context) (worker.Worker, error) { return newDemoWorker(), nil }
	for i := 0; i < 100; i++ {
		if err := r.StartWorker(context.Background(), "a", start); err != nil {
			t.Fatal(err)
		}
		if err := r.StopAndRemoveWorker("a", nil); err != nil {
			t.Fatal(err)
		}
		if names := r.WorkerNames(); len(names) > 0 {
			t.Errorf("the worker is still there after StopAndRemoveWorker (attempt %d)", i)
			break
		}
	}
	r.Kill()
	r.Wait()
}
''', "context", "time"),
  "A call that looks at the runner right after StopAndRemoveWorker has returned, when the runner's goroutine is held up just then, as by a slow logger.",
  "The id is still known after StopAndRemoveWorker has returned.")

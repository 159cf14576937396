import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c08-names-remembered", "C08", ".",
  [(R, "	names := make([]string, 0, len(runner.workers))\n	for name := range runner.workers {\n		names = append(names, name)\n	}\n	return names\n", "	if len(runner.names) != len(runner.workers) {\n		runner.names = make([]string, 0, len(runner.workers))\n		for name := range runner.workers {\n			runner.names = append(runner.names, name)\n		}\n	}\n	return append([]string{}, runner.names...)\n"),
   (R, "	// notifyStarted is used only", "	// names is what WorkerNames returned last.\n	names []string\n\n	// notifyStarted is used only")],
  runner('''
// WorkerNames returns the workers that there are.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "runner"})
	if err != nil {
		t.Fatal(err)
	}
	defer worker.Stop(r)
	start := func(context.Context) (worker.Worker, error) { return newDemoWorker(), nil }
	r.StartWorker(context.Background(), "a", start)
	if got := r.WorkerNames(); len(got) != 1 || got[0] != "a" {
		t.Errorf("got %q", got)
	}
	r.StopAndRemoveWorker("a", nil)
	r.StartWorker(context.Background(), "b", start)
	if got := r.WorkerNames(); len(got) != 1 || got[0] != "b" {
		t.Errorf("got %q", got)
	}
}
''', "context"),
  "Two calls of WorkerNames between which as many ids went as came.",
  "The second returns the names of before.")

plant("c12-only-users-bounced", "C12", "dependency",
  [(E, "		if engine.current[dependentName].stopped() {\n			engine.requestStart(dependentName, engine.config.BounceDelay)\n		} else {\n", "		if info := engine.current[dependentName]; info.stopped() {\n			engine.requestStart(dependentName, engine.config.BounceDelay)\n		} else if info.uses(name) {\n"),
   (E, "// stopped returns true unless", "// uses returns false if the worker is known to do without the named resource.\nfunc (info workerInfo) uses(name string) bool {\n	if info.worker == nil {\n		return true\n	}\n	for _, access := range info.resourceLog {\n		if access.name == name {\n			return true\n		}\n	}\n	return false\n}\n\n// stopped returns true unless")],
  engine('''
// A dependent is restarted also if its start function didn't ask for the input.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		ins, outs := make(chan *demoWorker, 9), make(chan *demoWorker, 9)
		e.Install("in", demoManifold(ins))
		time.Sleep(time.Hour)
		e.Install("out", demoManifold(outs, "in"))
		time.Sleep(time.Hour)
		(<-ins).end(errors.New("x"))
		time.Sleep(time.Hour)
		if len(outs) < 2 {
			t.Errorf("started %d times", len(outs))
		}
		e.Kill()
		e.Wait()
		for len(outs) > 0 {
			worker.Stop(<-outs)
		}
	})
}
''', "errors", "testing/synctest"),
  "A dependent that's up, whose start function didn't ask for its input.",
  "It isn't restarted when the input's worker goes.")

plant("c26-invalid-plan-uses-up", "C26", "catacomb",
  [(C, "	if err := plan.Validate(); err != nil {\n		return errors.Trace(err)\n	}\n	catacomb := plan.Site\n	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {\n		return errors.Errorf(\"catacomb %p has already been used\", catacomb)\n	}\n", "	catacomb := plan.Site\n	if catacomb != nil && !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {\n		return errors.Errorf(\"catacomb %p has already been used\", catacomb)\n	}\n	if err := plan.Validate(); err != nil {\n		return errors.Trace(err)\n	}\n")],
  catacomb('''
// An invalid plan leaves its site unused.
func TestDemo(t *testing.T) {
	var c catacomb.Catacomb
	if err := catacomb.Invoke(catacomb.Plan{Name: "x", Site: &c}); err == nil {
		t.Fatal("accepted")
	}
	err := catacomb.Invoke(catacomb.Plan{Name: "x", Site: &c, Work: func() error { return nil }})
	if err != nil {
		t.Error(err)
	}
}
'''),
  "An Invoke of a valid plan for a site that an invalid plan had been for.",
  "It's refused as the catacomb has already been used.")

plant("c18-report-of-the-dying", "C18", "dependency",
  [(E, "	case <-engine.tomb.Dead():\n		// Note that we don't abort on Dying", "	case <-engine.tomb.Dead():\n		// Note that we don't abort on Dying")],
  engine('''
func TestDemo(t *testing.T) {}
'''), "", "")
PLANTS.pop()

plant("c14-error-after-bounce", "C14", "dependency",
  [(E, "		case errors.Is(err, ErrBounce):\n			// The task exited but wanted to restart immediately.\n			engine.requestStart(name, engine.config.BounceDelay)\n", "		case errors.Is(err, ErrBounce):\n			// The task exited but wanted to restart immediately. If it never\n			// came up it can't know better than the others.\n			delay := engine.config.BounceDelay\n			if info.worker == nil && info.startCount == 0 {\n				delay = engine.config.ErrorDelay\n			}\n			engine.requestStart(name, delay)\n")],
  engine('''
// A start function that returns ErrBounce is called again after the bounce delay.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		config := demoConfig()
		config.ErrorDelay = time.Hour
		e, err := dependency.NewEngine(config)
		if err != nil {
			t.Fatal(err)
		}
		n := 0
		e.Install("m", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			n++
			if n == 1 {
				return nil, dependency.ErrBounce
			}
			return newDemoWorker(), nil
		}})
		time.Sleep(time.Second)
		if n != 2 {
			t.Errorf("started %d times", n)
		}
		e.Kill()
		e.Wait()
	})
}
''', "testing/synctest"),
  "A manifold whose first start returns ErrBounce.",
  "It's started again only after the error delay.")

plant("c32-err-kept-for-report", "C32", "dependency",
  [(E, "		engine.worstError = engine.config.WorstError(err, engine.worstError)\n		engine.tomb.Kill(nil)\n", "		engine.tomb.Kill(nil)\n		engine.worstError = engine.config.WorstError(err, engine.worstError)\n"),
   (E, "	err := engine.worstError\n", "	if engine.isDying() {\n		engine.config.Logger.Tracef(\"engine ends with %v\", engine.worstError)\n	}\n	err := engine.worstError\n"),
   (E, "	if tombError := engine.tomb.Wait(); tombError != nil {\n", "	<-engine.tomb.Dying()\n	if engine.worstError != nil {\n		engine.config.Logger.Debugf(\"engine will end with %v\", engine.worstError)\n	}\n	if tombError := engine.tomb.Wait(); tombError != nil {\n")],
  engine('''
// Waiting for an engine that gets a fatal error isn't a data race.
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		config := demoConfig()
		config.IsFatal = func(err error) bool { return err != nil }
		config.WorstError = func(a, b error) error { time.Sleep(time.Millisecond); return a }
		e, err := dependency.NewEngine(config)
		if err != nil {
			t.Fatal(err)
		}
		made := make(chan *demoWorker, 9)
		e.Install("m", demoManifold(made))
		w := <-made
		done := make(chan error)
		go func() { done <- e.Wait() }()
		time.Sleep(time.Millisecond)
		w.end(errors.New("x"))
		<-done
	}
}

var _ worker.Worker = (*demoWorker)(nil)
''', "errors"),
  "A Wait that's under way when a worker fails.",
  "The error is read while it's written.", flags="-race ")

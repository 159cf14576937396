import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c01-start-outlives-caller", "C01", ".",
  [(R, "pprof.Do(runner.tomb.Context(req.ctx), labels", "pprof.Do(runner.tomb.Context(context.WithoutCancel(req.ctx)), labels")],
  runner('''
// A start is told when the caller's context ends.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	started := make(chan struct{})
	told := make(chan bool, 1)
	err = r.StartWorker(ctx, "id", func(ctx context.Context) (worker.Worker, error) {
		close(started)
		select {
		case <-ctx.Done():
			told <- true
		case <-time.After(10 * time.Second):
			told <- false
		}
		return newDemoWorker(), nil
	})
	if err != nil {
		t.Fatal(err)
	}
	<-started
	cancel()
	if !<-told {
		t.Error("the start function wasn't told that its caller has gone")
	}
	worker.Stop(r)
}
''', "context", "time"),
  "A caller whose context ends while its start function is running.",
  "The context of a start isn't cancelled with the caller's context any more; its values still come through.")

plant("c02-delay-adds-up", "C02", ".",
  [(R, "	workerInfo.restartDelay = params.RestartDelay\n", "	workerInfo.restartDelay += params.RestartDelay\n")],
  runner('''
// Every restart comes after the same delay.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		r, err := worker.NewRunner(worker.RunnerParams{
			Name:         "demo",
			IsFatal:      func(error) bool { return false },
			RestartDelay: time.Second,
		})
		if err != nil {
			t.Fatal(err)
		}
		var starts []time.Time
		r.StartWorker(context.Background(), "id", func(context.Context) (worker.Worker, error) {
			starts = append(starts, time.Now())
			return nil, errors.New("failed")
		})
		time.Sleep(10*time.Second + 500*time.Millisecond)
		synctest.Wait()
		if len(starts) != 11 {
			t.Errorf("%d starts in ten seconds: %v", len(starts), starts)
		}
		worker.Stop(r)
	})
}
''', "context", "errors", "testing/synctest", "time"),
  "A worker that fails at least twice.",
  "Each restart of a worker takes one restart delay longer than the one before it.")

plant("c03-stop-in-background", "C03", ".",
  [(R, "	select {\n	case runner.stopc <- id:\n		return nil\n	case <-runner.tomb.Dead():\n	}\n	return ErrDead\n", "	select {\n	case <-runner.tomb.Dead():\n		return ErrDead\n	default:\n	}\n	// There's no result, so there's no need to wait until the runner is ready.\n	go func() {\n		select {\n		case runner.stopc <- id:\n		case <-runner.tomb.Dead():\n		}\n	}()\n	return nil\n")],
  runner('''
// StopWorker does nothing to a worker that is started later on.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
	if err != nil {
		t.Fatal(err)
	}
	bad := 0
	for i := 0; i < 3000; i++ {
		id := fmt.Sprint("id", i)
		r.StopWorker(id)
		w := newDemoWorker()
		if err := r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) { return w, nil }); err != nil {
			t.Fatal(err)
		}
		if i%500 == 499 {
			time.Sleep(20 * time.Millisecond)
		} else {
			runtime.Gosched()
		}
		if w.isKilled() {
			bad++
		}
	}
	if bad > 0 {
		t.Errorf("%d workers were stopped though nobody asked for that", bad)
	}
	worker.Stop(r)
}
''', "context", "fmt", "runtime", "time"),
  "A StopWorker that is followed by a StartWorker for the same id before the runner has taken note of it.",
  "StopWorker hands over the request in the background, so it may hit a worker that was started after StopWorker returned.")

plant("c05-last-fatal-wins", "C05", ".",
  [(R, "runner.finalError == nil || params.MoreImportant(info.err, runner.finalError)", "runner.finalError == nil || !params.MoreImportant(runner.finalError, info.err)")],
  runner('''
// Of errors that are equally important the first one is returned.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name: "demo",
		MoreImportant: func(a, b error) bool { return len(a.Error()) > len(b.Error()) },
	})
	if err != nil {
		t.Fatal(err)
	}
	var ws []*demoWorker
	for i := 0; i < 2; i++ {
		w := newDemoWorker()
		w.stubborn = true
		ws = append(ws, w)
		id := fmt.Sprint(i)
		if err := r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) { return w, nil }); err != nil {
			t.Fatal(err)
		}
		if _, err := r.Worker(id, nil); err != nil {
			t.Fatal(err)
		}
	}
	ws[0].end(errors.New("e0"))
	<-ws[1].killed
	ws[1].end(errors.New("e1"))
	if err := r.Wait(); err == nil || err.Error() != "e0" {
		t.Errorf("got %v, want e0", err)
	}
}
''', "context", "errors", "fmt"),
  "Two fatal errors of which none is more important than the other.",
  "A runner returns the last rather than the first of its fatal errors if they are equally important, or not ranked at all.")

plant("c06-missed-wakeup", "C06", ".",
  [(R, "	if w, done, err := getWorker(); err != nil || w != nil {\n		// The worker is immediately available  (or we know it's\n		// not going to become available). No need\n		// to block waiting for it.\n		runner.mu.Unlock()\n", "	w, done, err := getWorker()\n	runner.mu.Unlock()\n	if err != nil || w != nil {\n		// The worker is immediately available  (or we know it's\n		// not going to become available). No need\n		// to block waiting for it.\n"), (R, "	go func() {\n		defer runner.mu.Unlock()\n", "	go func() {\n		runner.mu.Lock()\n		defer runner.mu.Unlock()\n")],
  runner('''
// Worker returns once the worker is up.
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200; i++ {
		id := fmt.Sprint("id", i)
		// The start is under way, and lookups come just when it ends.
		release := make(chan struct{})
		w := newDemoWorker()
		r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
			<-release
			return w, nil
		})
		const n = 20
		done := make(chan error, n)
		for j := 0; j < n; j++ {
			if j == i%n {
				close(release)
			}
			j := j
			go func() {
				for k := 0; k < j%4; k++ {
					runtime.Gosched()
				}
				_, err := r.Worker(id, nil)
				done <- err
			}()
			if (i+j)%3 == 0 {
				runtime.Gosched()
			}
		}
		for j := 0; j < n; j++ {
			select {
			case err := <-done:
				if err != nil {
					t.Fatal(err)
				}
			case <-time.After(10 * time.Second):
				t.Fatalf("Worker doesn't return though %q is up", id)
			}
		}
	}
	worker.Stop(r)
}
''', "context", "fmt", "runtime", "time"),
  "A worker that comes up while a lookup is between finding it missing and beginning to wait for it.",
  "A Worker or StopAndRemoveWorker call can miss the notification it waits for, and stay blocked.")

plant("c08-stopping-shown-as-stopped", "C08", ".",
  [(R, "	if i.worker == nil {\n		return \"stopped\"", "	if i.worker == nil && i.start == nil {\n		return \"stopped\"")],
  runner('''
// A worker that waits to be restarted isn't reported as started.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:         "demo",
		IsFatal:      func(error) bool { return false },
		RestartDelay: time.Hour,
	})
	if err != nil {
		t.Fatal(err)
	}
	w := newDemoWorker()
	r.StartWorker(context.Background(), "id", func(context.Context) (worker.Worker, error) { return w, nil })
	if _, err := r.Worker("id", nil); err != nil {
		t.Fatal(err)
	}
	w.end(errors.New("failed"))
	var state interface{}
	for i := 0; i < 100; i++ {
		time.Sleep(20 * time.Millisecond)
		rep := r.Report()["workers"].(map[string]interface{})["id"].(map[string]interface{})
		if state = rep[worker.KeyState]; state != "started" {
			break
		}
	}
	if state == "started" {
		t.Error("reported as started long after it has ended")
	}
	worker.Stop(r)
}
''', "context", "errors", "time"),
  "A report taken while a worker is being started or waits to be restarted.",
  "Such a worker is reported as started.")

plant("c12-stopping-input-not-passed-on", "C12", "dependency",
  [(E, "	if info.worker != nil {\n		engine.bounceDependents(name)\n	}\n}", "	if info.worker != nil && !info.stopping {\n		engine.bounceDependents(name)\n	}\n}")],
  engine('''
// When the input of an input changes, everything is restarted.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		as, bs, cs := make(chan *demoWorker, 10), make(chan *demoWorker, 10), make(chan *demoWorker, 10)
		// c only runs when b does; b sees that it should stop late.
		e.Install("a", demoManifold(as))
		b := demoManifold(bs, "a")
		b.Start = func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
			if err := g.Get("a", nil); err != nil {
				return nil, err
			}
			w := newDemoWorker()
			bs <- w
			return w, nil
		}
		e.Install("b", b)
		e.Install("c", demoManifold(cs, "b"))
		time.Sleep(time.Minute)
		drain := func(c chan *demoWorker) (w *demoWorker) {
			for len(c) > 0 {
				w = <-c
			}
			return w
		}
		a, _, c := drain(as), drain(bs), drain(cs)
		// a ends for good, so b can't run.
		a.end(nil)
		time.Sleep(time.Minute)
		if !c.isKilled() {
			t.Error("c wasn't restarted when b went")
		}
		worker.Stop(e)
	})
}
''', "testing/synctest"),
  "A chain of three manifolds of which the first one's worker ends.",
  "When a worker that the engine stopped has ended, the manifolds that depend on it aren't restarted, so they run on with an input that is gone.")

plant("c13-getter-outlives-failed-start", "C13", "dependency",
  [(E, "		defer snapshot.expire()\n", ""), (E, "		return start(snapshot.ctx, snapshot)\n	}\n", "		w, err := start(snapshot.ctx, snapshot)\n		if err == nil {\n			snapshot.expire()\n		}\n		return w, err\n	}\n")],
  engine('''
// A getter is of no use once the start has returned, even if it failed.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		made := make(chan *demoWorker, 10)
		var getter dependency.Getter
		e.Install("a", demoManifold(made))
		synctest.Wait()
		e.Install("b", dependency.Manifold{
			Inputs: []string{"a"},
			Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
				getter = g
				if err := g.Get("a", nil); err != nil {
					return nil, err
				}
				return nil, dependency.ErrMissing
			},
		})
		synctest.Wait()
		if err := getter.Get("a", nil); err == nil {
			t.Error("the getter still works")
		}
		worker.Stop(e)
	})
}
''', "testing/synctest"),
  "A start function that keeps its getter and returns an error.",
  "The getter of a failed start goes on handing out workers, which may have ended by then.")

plant("c14-wrapped-bounce", "C14", "dependency",
  [(E, "		case errors.Is(err, ErrBounce):\n", "		case err == ErrBounce:\n")],
  engine('''
// A wrapped ErrBounce is an ErrBounce.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		made := make(chan *demoWorker, 10)
		e.Install("a", demoManifold(made))
		w := <-made
		synctest.Wait()
		w.end(fmt.Errorf("configuration changed: %w", dependency.ErrBounce))
		time.Sleep(time.Second)
		synctest.Wait()
		if len(made) != 1 {
			t.Errorf("%d restarts within a second", len(made))
		}
		worker.Stop(e)
	})
}
''', "fmt", "testing/synctest"),
  "A worker or start that ends with an error that wraps ErrBounce.",
  "It is restarted after the error delay instead of the bounce delay.")

plant("c15-missing-keeps-backoff", "C15", "dependency",
  [(E, "		// missing a dependency does (not?) trigger exponential backoff\n		info.recentErrors = 1\n", "		// missing a dependency doesn't trigger exponential backoff\n")],
  engine('''
// A missing dependency ends a series of failures.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		config := demoConfig()
		config.BounceDelay = time.Second
		e, err := dependency.NewEngine(config)
		if err != nil {
			t.Fatal(err)
		}
		inputs := make(chan *demoWorker, 10)
		var starts []time.Time
		missing := false
		e.Install("b", dependency.Manifold{
			Inputs: []string{"a"},
			Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				starts = append(starts, time.Now())
				if missing {
					return nil, dependency.ErrMissing
				}
				return nil, errors.New("failed")
			},
		})
		// 0s, 3s, 9s, 21s, 45s, then not before 88s.
		time.Sleep(50 * time.Second)
		missing = true
		time.Sleep(2 * time.Minute)
		missing = false
		n := len(starts)
		e.Install("a", demoManifold(inputs))
		time.Sleep(4 * time.Second)
		synctest.Wait()
		if len(starts) == n {
			t.Error("not restarted when its input appeared")
		}
		worker.Stop(e)
	})
}
''', "errors", "testing/synctest"),
  "A manifold that fails several times, then misses a dependency, and then sees it appear.",
  "The failures still count, so its next start is delayed as if it had gone on failing.")

import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c01-start-times-out", "C01", ".",
  [(R, "	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {\n", "	// No start should take longer than this.\n	startCtx, cancel := context.WithTimeout(req.ctx, startTimeout)\n	time.AfterFunc(startTimeout, cancel)\n	pprof.Do(runner.tomb.Context(startCtx), labels, func(ctx context.Context) {\n"),
   (R, "// startWorker responds when", "// startTimeout is how long a start may take.\nconst startTimeout = 12 * time.Hour\n\n// startWorker responds when")],
  runner('''
// A start's context lives until the caller's or the runner's ends.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
		if err != nil {
			t.Fatal(err)
		}
		var ctx context.Context
		r.StartWorker(context.Background(), "a", func(c context.Context) (worker.Worker, error) {
			ctx = c
			return newDemoWorker(), nil
		})
		time.Sleep(1000 * time.Hour)
		if err := ctx.Err(); err != nil {
			t.Errorf("the context has ended: %v", err)
		}
		r.Kill()
		r.Wait()
	})
}
''', "context", "time", "testing/synctest"),
  "A worker that runs, or is being started, for more than twelve hours.",
  "Its context is cancelled though nobody has asked for it.")

plant("c24-compares-errors", "C24", "catacomb",
  [(C, "	if errors.As(err, &dyingErr) {\n", "	if err != nil && err == catacomb.tomb.Err() {\n		// It's being passed on.\n		return\n	} else if errors.As(err, &dyingErr) {\n")],
  catacomb('''
// errList is an error that can't be compared.
type errList []string

func (e errList) Error() string { return strings.Join(e, ", ") }

// Any error can be passed to Kill, as often as one likes.
func TestDemo(t *testing.T) {
	defer func() {
		if v := recover(); v != nil {
			t.Errorf("Kill panics: %v", v)
		}
	}()
	var site catacomb.Catacomb
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error {
		<-site.Dying()
		return nil
	}})
	if err != nil {
		t.Fatal(err)
	}
	site.Kill(errList{"one", "two"})
	site.Kill(errList{"three"})
	if err := site.Wait(); err == nil || err.Error() != "one, two" {
		t.Errorf("Wait = %v", err)
	}
}
''', "strings"),
  "Two errors of a type that can't be compared.",
  "Kill panics when it compares them.")

plant("c28-deadline-replaced", "C28", "catacomb",
  [(C, "	return catacomb.tomb.Context(parent)\n}\n", "	return catacomb.tomb.Context(withoutDeadline(parent))\n}\n\n// withoutDeadline returns a context for the catacomb's workers, whose life isn't\n// limited by the caller's deadline.\nfunc withoutDeadline(parent context.Context) context.Context {\n	if parent == nil {\n		return nil\n	}\n	if _, ok := parent.Deadline(); ok {\n		return context.WithoutCancel(parent)\n	}\n	return parent\n}\n")],
  catacomb('''
// A context ends with its parent, for whatever reason that ends.
func TestDemo(t *testing.T) {
	var site catacomb.Catacomb
	err := catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &site, Work: func() error {
		<-site.Dying()
		return nil
	}})
	if err != nil {
		t.Fatal(err)
	}
	parent, cancel := context.WithTimeout(context.Background(), time.Hour)
	ctx := site.Context(parent)
	cancel()
	select {
	case <-ctx.Done():
	case <-time.After(10 * time.Second):
		t.Errorf("the context outlives its parent")
	}
	site.Kill(nil)
	site.Wait()
}
''', "context", "time"),
  "A context with a deadline.",
  "The context isn't cancelled with its parent.")

plant("c18-start-time-of-the-system", "C18", "dependency",
  [(E, "		info.startedTime = engine.config.Clock.Now().UTC()", "		info.startedTime = time.Now().UTC()"),
   (E, "		now := engine.config.Clock.Now().UTC()\n		timeSinceStarted := now.Sub(info.startedTime)", "		now := time.Now().UTC()\n		timeSinceStarted := now.Sub(info.startedTime)")],
  engine('''
// aheadClock is ahead of the system's.
type aheadClock struct{ clock.Clock }

func (c aheadClock) Now() time.Time { return c.Clock.Now().Add(1000 * time.Hour) }

// The times in the report are those of the engine's clock.
func TestDemo(t *testing.T) {
	config := demoConfig()
	config.Clock = aheadClock{clock.WallClock}
	e, err := dependency.NewEngine(config)
	if err != nil {
		t.Fatal(err)
	}
	made := make(chan *demoWorker, 1)
	before := config.Clock.Now().UTC().Add(-time.Second).Format("2006-01-02 15:04:05")
	e.Install("a", demoManifold(made))
	<-made
	for {
		a := e.Report()["manifolds"].(map[string]interface{})["a"].(map[string]interface{})
		if s, ok := a["started"].(string); ok {
			if s < before {
				t.Errorf("started at %v, should be at least %v", s, before)
			}
			break
		}
		time.Sleep(time.Millisecond)
	}
	e.Kill()
	e.Wait()
}
'''),
  "A clock that's ahead of the system's.",
  "Report gives the time of start by the wrong clock.")

plant("c16-gives-up-waiting", "C16", "dependency",
  [(E, "	oneShotDying := engine.tomb.Dying()\n	for {\n		select {\n", "	oneShotDying, giveUp := engine.tomb.Dying(), make(<-chan time.Time)\n	for {\n		select {\n		case <-giveUp:\n			return tomb.ErrDying\n"),
   (E, "			oneShotDying = nil\n", "			oneShotDying = nil\n			giveUp = engine.config.Clock.After(24 * time.Hour)\n")],
  engine('''
// The engine waits for its workers, however long they take.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		w := newDemoWorker()
		w.stubborn = true
		e.Install("a", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			return w, nil
		}})
		time.Sleep(time.Second)
		e.Kill()
		done := make(chan struct{})
		go func() {
			e.Wait()
			close(done)
		}()
		time.Sleep(100 * 24 * time.Hour)
		select {
		case <-done:
			t.Errorf("the engine has finished before its worker")
		default:
		}
		w.end(nil)
		<-done
	})
}
''', "testing/synctest"),
  "A worker that takes more than a day to stop.",
  "The engine finishes while it still runs.")

plant("c08-empty-id", "C08", ".",
  [(R, "	names := make([]string, 0, len(runner.workers))\n	for name := range runner.workers {\n		names = append(names, name)\n", "	names := make([]string, 0, len(runner.workers))\n	for name := range runner.workers {\n		if name = strings.TrimSpace(name); name != \"\" {\n			names = append(names, name)\n		}\n")],
  runner('''
// Every id is listed as it is.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "demo"})
	if err != nil {
		t.Fatal(err)
	}
	ids := []string{"", " a", "a"}
	for _, id := range ids {
		r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
			return newDemoWorker(), nil
		})
	}
	names := r.WorkerNames()
	slices.Sort(names)
	if !slices.Equal(names, ids) {
		t.Errorf("WorkerNames() = %q", names)
	}
	r.Kill()
	r.Wait()
}
''', "context", "slices"),
  "An id that is empty or has spaces around it.",
  "WorkerNames leaves it out, or gives it differently.")

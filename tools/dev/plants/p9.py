import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c36-install-waits-for-death", "C36", "dependency",
  [(E, "	result := make(chan error)\n	select {\n	case <-engine.tomb.Dying():\n		return errors.New(\"engine is shutting down\")\n	case engine.install <- installTicket{name, manifold, result}:\n",
       "	if engine.isDying() {\n		return errors.New(\"engine is shutting down\")\n	}\n	result := make(chan error)\n	select {\n	case <-engine.tomb.Dead():\n		return errors.New(\"engine is shutting down\")\n	case engine.install <- installTicket{name, manifold, result}:\n")],
  engine('''
// An engine that is held up refuses manifolds as soon as it's dying.
func TestDemo(t *testing.T) {
	config := demoConfig()
	busy, free := make(chan bool), make(chan bool)
	var once sync.Once
	config.IsFatal = func(error) bool {
		once.Do(func() {
			close(busy)
			<-free
		})
		return false
	}
	e, err := dependency.NewEngine(config)
	if err != nil {
		t.Fatal(err)
	}
	e.Install("m", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		return nil, dependency.ErrMissing
	}})
	<-busy
	done := make(chan error)
	go func() { done <- e.Install("other", demoManifold(nil)) }()
	time.Sleep(100 * time.Millisecond)
	e.Kill()
	select {
	case err := <-done:
		if err == nil {
			t.Errorf("installed")
		}
	case <-time.After(2 * time.Second):
		t.Errorf("hangs")
	}
	close(free)
	e.Wait()
}
'''),
  "An Install that waits because the engine is held up by a callback, while the engine is killed.",
  "Install hangs until the engine has ended.")

plant("c36-kill-noted-by-loop", "C36", "dependency",
  [(E, "	engine.tomb.Kill(nil)\n}\n\n// Wait is part", "	// Let the loop finish what it's doing, so that workers are killed in order.\n	defer engine.tomb.Kill(nil)\n	select {\n	case engine.kill <- struct{}{}:\n	case <-engine.tomb.Dying():\n	}\n}\n\n// Wait is part"),
   (E, "	report  chan reportTicket\n\n	// Metrics", "	report  chan reportTicket\n	kill    chan struct{}\n\n	// Metrics"),
   (E, "		report:  make(chan reportTicket),\n", "		report:  make(chan reportTicket),\n		kill:    make(chan struct{}),\n"),
   (E, "		case ticket := <-engine.report:\n", "		case <-engine.kill:\n		case ticket := <-engine.report:\n")],
  engine('''
// Kill doesn't wait for a worker that takes its time to report.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	busy, free := make(chan bool, 9), make(chan bool)
	started := make(chan bool, 9)
	e.Install("m", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		started <- true
		return &reporter{newDemoWorker(), busy, free}, nil
	}})
	<-started
	for len(busy) == 0 {
		go e.Report()
		time.Sleep(10 * time.Millisecond)
	}
	done := make(chan bool)
	go func() { e.Kill(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Errorf("Kill hangs")
	}
	close(free)
	e.Wait()
}

type reporter struct {
	*demoWorker
	busy, free chan bool
}

func (r *reporter) Report() map[string]interface{} {
	select {
	case r.busy <- true:
	default:
	}
	<-r.free
	return nil
}
'''),
  "A Kill while the engine is held up by a worker's Report.",
  "Kill waits until the engine is free.")

plant("c37-repeats-not-logged", "C37", ".",
  [(R, "		params.Logger.Errorf(\"exited %q: %s\", info.id, errStr)\n", "		if errStr != workerInfo.logged {\n			// Once is enough.\n			params.Logger.Errorf(\"exited %q: %s\", info.id, errStr)\n			workerInfo.logged = errStr\n		}\n"),
   (R, "	// started holds the time the worker was started.\n", "	// logged holds what was last logged of the worker's end.\n	logged string\n\n	// started holds the time the worker was started.\n")],
  runner('''
type demoLogger struct {
	mu sync.Mutex
	n  int
}

func (*demoLogger) Debugf(string, ...interface{}) {}
func (*demoLogger) Infof(string, ...interface{})  {}
func (l *demoLogger) Errorf(string, ...interface{}) {
	l.mu.Lock()
	l.n++
	l.mu.Unlock()
}

// Each failure is logged.
func TestDemo(t *testing.T) {
	l := &demoLogger{}
	r, err := worker.NewRunner(worker.RunnerParams{Name: "x", Logger: l, RestartDelay: time.Millisecond, IsFatal: func(error) bool { return false }})
	if err != nil {
		t.Fatal(err)
	}
	starts := make(chan bool)
	r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
		starts <- true
		return nil, errors.New("boom")
	})
	for i := 0; i < 4; i++ {
		<-starts
	}
	l.mu.Lock()
	if l.n < 3 {
		t.Errorf("%d failures are logged", l.n)
	}
	l.mu.Unlock()
	go func() {
		for range starts {
		}
	}()
	worker.Stop(r)
}
''', "context", "errors", "time"),
  "A worker that fails several times with the same error.",
  "Only the first failure is logged.")

plant("c37-stopped-worker-blamed", "C37", "dependency",
  [(E, "	if info.stopping {\n		engine.requestStart(name, engine.config.BounceDelay)\n	} else {", "	if stopped := info.stopping; stopped {\n		if err != nil && !aborted && !errors.Is(err, ErrMissing) && !errors.Is(err, ErrBounce) {\n			engine.config.Logger.Errorf(\"%q manifold worker stopped with: %v\", name, err)\n		}\n		engine.requestStart(name, engine.config.BounceDelay)\n	} else {")],
  engine('''
type bookLogger struct {
	demoLogger
	errs chan string
}

func (l bookLogger) Errorf(f string, a ...interface{}) { l.errs <- fmt.Sprintf(f, a...) }

// What a worker says that is stopped by the engine is no error.
func TestDemo(t *testing.T) {
	config := demoConfig()
	errs := make(chan string, 99)
	config.Logger = bookLogger{errs: errs}
	e, err := dependency.NewEngine(config)
	if err != nil {
		t.Fatal(err)
	}
	ins, outs := make(chan *demoWorker, 9), make(chan *demoWorker, 9)
	e.Install("in", demoManifold(ins))
	in := <-ins
	time.Sleep(100 * time.Millisecond)
	e.Install("out", demoManifold(outs, "in"))
	out := <-outs
	out.stubborn = true
	time.Sleep(100 * time.Millisecond)
	in.end(dependency.ErrBounce)
	<-out.killed
	out.end(errors.New("interrupted"))
	<-outs
	e.Kill()
	e.Wait()
	if len(errs) > 0 {
		t.Errorf("logged: %s", <-errs)
	}
}
''', "errors", "fmt"),
  "A worker that ends with an error of its own when the engine stops it because an input changes.",
  "Normal restarts show up in the error log.")

CHILD = '''
func child(t *testing.T) bool { return os.Getenv("DEMO_CHILD") != "" }

// The process must end with the panic.
func runChild(t *testing.T) {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	out, err := cmd.CombinedOutput()
	if err == nil || !strings.Contains(string(out), "panic: boom") {
		t.Errorf("%v: %s", err, out)
	}
}
'''

plant("c38-failed-restart-instead", "C38", ".",
  [(R, "			panic(err)\n		}\n", "			if _, ok := err.(error); !ok || delay == 0 {\n				panic(err)\n			}\n			// It has worked before, so it may again.\n			runner.donec <- doneInfo{id, errors.Errorf(\"start of %q: %v\", id, err)}\n			return\n		}\n")],
  runner(CHILD + '''
// A panic in a restart isn't swallowed.
func TestDemo(t *testing.T) {
	if !child(t) {
		runChild(t)
		return
	}
	r, err := worker.NewRunner(worker.RunnerParams{Name: "x", RestartDelay: time.Millisecond, IsFatal: func(error) bool { return false }})
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
		if n++; n == 2 {
			panic(errors.New("boom"))
		}
		return nil, errors.New("again")
	})
	time.Sleep(time.Second)
}
''', "context", "errors", "time", "os", "os/exec", "strings"),
  "A panic with an error value in a restart.",
  "The panic becomes a failed start, and the worker is started again and again.")

plant("c38-filter-panic-recovered", "C38", "dependency",
  [(E, "	if filter := engine.manifolds[name].Filter; filter != nil && !aborted {\n		err = filter(err)\n	}\n",
       "	if filter := engine.manifolds[name].Filter; filter != nil && !aborted {\n		err = runFilter(filter, err)\n	}\n"),
   (E, "// requestStop ensures that any", "// runFilter returns err if the filter can't cope with it.\nfunc runFilter(filter FilterFunc, err error) (result error) {\n	defer func() {\n		if recover() != nil {\n			result = err\n		}\n	}()\n	return filter(err)\n}\n\n// requestStop ensures that any")],
  engine(CHILD + '''
// A panic in a filter isn't swallowed.
func TestDemo(t *testing.T) {
	if !child(t) {
		runChild(t)
		return
	}
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	e.Install("m", dependency.Manifold{
		Filter: func(error) error { panic("boom") },
		Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			return nil, dependency.ErrMissing
		},
	})
	time.Sleep(time.Second)
}
''', "os", "os/exec", "strings"),
  "A manifold's filter that panics.",
  "The panic is swallowed.")

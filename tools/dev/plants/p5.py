import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c34-minus-one", "C34", "dependency",
  [(E, "	if config.MaxDelay < 0 {\n", "	if config.MaxDelay < -1 {\n")],
  engine('''
// No delay may be negative.
func TestDemo(t *testing.T) {
	config := demoConfig()
	config.MaxDelay = -1
	if config.Validate() == nil {
		t.Error("negative MaxDelay accepted")
	}
	_ = clock.WallClock
}

var _ worker.Worker = (*demoWorker)(nil)
'''),
  "A configuration with a MaxDelay of -1.",
  "It is accepted.")

plant("c31-prefers-exact", "C31", "dependency/testing",
  [(T, "	for _, output := range resource.Outputs {\n", "	for _, output := range preferred(resource.Outputs, outT) {\n"),
   (T, "// Get is part of the dependency.Getter interface.\n", "// preferred returns outputs, the ones of type t first.\nfunc preferred(outputs []interface{}, t reflect.Type) []interface{} {\n	var first, rest []interface{}\n	for _, output := range outputs {\n		if reflect.TypeOf(output) == t {\n			first = append(first, output)\n		} else {\n			rest = append(rest, output)\n		}\n	}\n	return append(first, rest...)\n}\n\n// Get is part of the dependency.Getter interface.\n")],
  '''
package testing_test

import (
	"testing"

	dt "github.com/juju/worker/v4/dependency/testing"
)

// The first output that converts to the target's type is used.
func TestDemo(t *testing.T) {
	getter := dt.StubGetter(map[string]interface{}{"a": []interface{}{int64(1), "x", int32(2), 3}})
	n := 0
	if err := getter.Get("a", &n); err != nil || n != 1 {
		t.Errorf("got %v, %v", n, err)
	}
}
''',
  "A resource with several outputs that convert to the target's type, of which a later one is of just that type.",
  "The target isn't set to the first one.")

plant("c16-stopped-cannot-fail", "C16", "dependency",
  [(E, "		engine.tomb.Kill(nil)\n	}\n\n	// Reset", "		if !info.stopping {\n			engine.tomb.Kill(nil)\n		}\n	}\n\n	// Reset")],
  engine('''
// A fatal error stops the engine, also if the worker had been stopped.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		fatal := errors.New("fatal")
		config := demoConfig()
		config.IsFatal = func(err error) bool { return err == fatal }
		config.WorstError = func(a, b error) error { return fatal }
		e, err := dependency.NewEngine(config)
		if err != nil {
			t.Fatal(err)
		}
		ins, outs := make(chan *demoWorker, 9), make(chan *demoWorker, 9)
		e.Install("in", demoManifold(ins))
		in := <-ins
		synctest.Wait()
		e.Install("out", dependency.Manifold{Inputs: []string{"in"}, Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			w := newDemoWorker()
			w.stubborn = true
			outs <- w
			return w, nil
		}})
		out := <-outs
		synctest.Wait()
		in.end(nil)
		<-out.killed
		out.end(fatal)
		time.Sleep(time.Minute)
		select {
		case w := <-outs:
			t.Error("started again after a fatal error")
			w.end(nil)
		default:
		}
		e.Kill()
		e.Wait()
	})
}
''', "errors", "testing/synctest"),
  "A worker that ends with a fatal error after it was stopped because an input changed.",
  "The engine runs on.")

plant("c15-last-start-remembered", "C15", "dependency",
  [(E, "		if !info.startedTime.IsZero() {\n			report[", "		if info.worker != nil {\n			report["),
   (E, "		// Keep the start count and start attempts but clear the start timestamps.\n		startAttempts: info.startAttempts,\n", "		// Keep the start count, the start attempts and the time of the last start.\n		startedTime:   info.startedTime,\n		startAttempts: info.startAttempts,\n")],
  engine('''
// Failing starts back off, though the last worker ran for long.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		config := demoConfig()
		config.MaxDelay = 0
		config.ErrorDelay = time.Minute
		e, err := dependency.NewEngine(config)
		if err != nil {
			t.Fatal(err)
		}
		var starts []time.Time
		e.Install("a", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			starts = append(starts, time.Now())
			if len(starts) == 1 {
				w := newDemoWorker()
				time.AfterFunc(time.Hour, func() { w.err = errors.New("failed"); w.end(w.err) })
				return w, nil
			}
			return nil, errors.New("failed")
		}})
		time.Sleep(24 * time.Hour)
		e.Kill()
		e.Wait()
		if d := starts[5].Sub(starts[4]); d < 7*time.Minute {
			t.Errorf("started after %v, should be about 8m", d)
		}
	})
}
''', "errors", "testing/synctest").replace("w.err = errors.New(\"failed\"); w.end(w.err)", "w.end(errors.New(\"failed\"))"),
  "A manifold whose worker fails after running for long, and whose starts then fail again and again.",
  "Each of these failures counts as the first.")

plant("c14-try-again-soon", "C14", "dependency",
  [(E, "			logFn := engine.config.Logger.Errorf\n", "			delay := engine.config.ErrorDelay\n			logFn := engine.config.Logger.Errorf\n"),
   (E, "				logFn = engine.config.Logger.Infof\n", "				logFn, delay = engine.config.Logger.Infof, engine.config.BounceDelay\n"),
   (E, "			engine.requestStart(name, engine.config.ErrorDelay)\n", "			engine.requestStart(name, delay)\n")],
  engine('''
// An error that says "try again" is an error.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		var starts []time.Time
		e.Install("a", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			starts = append(starts, time.Now())
			return nil, errors.New("not ready, try again")
		}})
		time.Sleep(10 * time.Second)
		e.Kill()
		e.Wait()
		if d := starts[1].Sub(starts[0]); d < 2*time.Second {
			t.Errorf("started after %v, should be about 3s", d)
		}
	})
}
''', "errors", "testing/synctest"),
  "An error whose text contains \"try again\".",
  "The restart comes after the bounce delay instead of the error delay.")

plant("c18-error-without-text", "C18", "dependency",
  [(E, "		if info.err != nil {\n			report[KeyError] = info.err.Error()\n", "		if text := errorText(info.err); text != \"\" {\n			report[KeyError] = text\n"),
   (E, "// Install is part of the Engine interface.\n", "// errorText gives the text of err, if there is one.\nfunc errorText(err error) string {\n	if err == nil {\n		return \"\"\n	}\n	return strings.TrimSpace(err.Error())\n}\n\n// Install is part of the Engine interface.\n")],
  engine('''
// The error of a stopped manifold is reported.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		e.Install("a", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			return nil, quiet{dependency.ErrMissing}
		}})
		synctest.Wait()
		report := e.Report()["manifolds"].(map[string]interface{})["a"].(map[string]interface{})
		if text, found := report["error"]; !found || text != "" {
			t.Errorf("reported as %v", report)
		}
		e.Kill()
		e.Wait()
	})
}

type quiet struct{ error }

func (quiet) Error() string   { return "" }
func (q quiet) Unwrap() error { return q.error }
''', "testing/synctest"),
  "A manifold that has stopped with an error that has an empty text.",
  "The report shows no error.")

plant("c05-same-text", "C05", ".",
  [(R, "			if runner.finalError == nil || params.MoreImportant(info.err, runner.finalError) {\n", "			if runner.finalError == nil || runner.finalError.Error() != errStr && params.MoreImportant(info.err, runner.finalError) {\n")],
  runner('''
type ranked struct{ rank int }

func (*ranked) Error() string { return "failed" }

// The most important of the fatal errors is returned.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "demo",
		MoreImportant: func(a, b error) bool { return a.(*ranked).rank > b.(*ranked).rank },
	})
	if err != nil {
		t.Fatal(err)
	}
	ws := []*demoWorker{newDemoWorker(), newDemoWorker()}
	for i, w := range ws {
		w.stubborn = true
		r.StartWorker(context.Background(), fmt.Sprint(i), func(context.Context) (worker.Worker, error) { return w, nil })
		r.Worker(fmt.Sprint(i), nil)
	}
	ws[0].end(&ranked{1})
	<-ws[1].killed
	ws[1].end(&ranked{2})
	if err := r.Wait(); err.(*ranked).rank != 2 {
		t.Errorf("Wait returned the error of rank %d", err.(*ranked).rank)
	}
}
''', "context", "fmt"),
  "Two fatal errors of different importance that have the same text.",
  "The less important one is returned if it comes first.")

plant("c13-failed-output-remembered", "C13", "dependency",
  [(S, "	return convert(input, out)\n", "	if err, found := s.failed[resourceName]; found {\n		return err\n	}\n	err := convert(input, out)\n	if err != nil {\n		s.failed[resourceName] = err\n	}\n	return err\n"),
   (S, "	// logger is used to pass the logger to the workers.\n", "	// failed holds the errors of output funcs.\n	failed map[string]error\n\n	// logger is used to pass the logger to the workers.\n"),
   (E, "		logger:     engine.config.Logger,\n	}\n", "		failed:     map[string]error{},\n		logger:     engine.config.Logger,\n	}\n")],
  engine('''
// What an input provides depends on the target.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	a := demoManifold(nil)
	a.Output = func(_ worker.Worker, out interface{}) error {
		if p, ok := out.(*int); ok {
			*p = 5
			return nil
		}
		return errors.New("no such output")
	}
	e.Install("a", a)
	result := make(chan error, 1)
	e.Install("b", dependency.Manifold{Inputs: []string{"a"}, Start: func(_ context.Context, getter dependency.Getter) (worker.Worker, error) {
		if err := getter.Get("a", nil); err != nil {
			return nil, err
		}
		var n int
		var s string
		getter.Get("a", &s)
		result <- getter.Get("a", &n)
		return newDemoWorker(), nil
	}})
	if err := <-result; err != nil {
		t.Errorf("Get: %v", err)
	}
	e.Kill()
	e.Wait()
}
''', "errors"),
  "A start function that asks for an output the input doesn't provide, and then for one that it does.",
  "It gets the first error again.")

plant("c27-percent", "C27", "catacomb",
  [(C, '			err = errors.Errorf("panic resulted in: %v", panicResult)\n', '			err = errors.Errorf("panic resulted in: " + fmt.Sprint(panicResult))\n')],
  catacomb('''
// The error of a panic contains its value.
func TestDemo(t *testing.T) {
	var c catacomb.Catacomb
	catacomb.Invoke(catacomb.Plan{Name: "demo", Site: &c, Work: func() error { panic("50%done") }})
	if err := c.Wait(); !strings.Contains(err.Error(), "50%done") {
		t.Errorf("Wait: %v", err)
	}
}
''', "strings"),
  "A panic whose value has a percent sign in it.",
  "The error's text is garbled.")

package harness

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	registerPlain("crash", crash)
}

var crashWheres = []string{
	"runner-start", "runner-restart", "runner-wait", "runner-kill", "runner-report", "runner-isfatal", "runner-shouldrestart", "runner-moreimportant",
	"engine-start", "engine-restart", "engine-wait", "engine-kill", "engine-report", "engine-isfatal", "engine-worst", "engine-filter", "engine-output", "engine-metrics",
	"catacomb-wait", "catacomb-kill", "catacomb-added-wait",
}

var crashValues = []string{"string", "error", "struct", "runtime", "panicError", "wrapped"}

type crashValue struct{ Text string }

type crashError struct{ text string }

func (e crashError) Error() string        { return e.text }
func (e crashError) Panicked() bool       { return true }
func (e crashError) StackTrace() []string { return []string{"stack"} }

const crashEnv = "VERIF_CRASH"

// crash checks that a panic in a function of the client's that isn't a
// catacomb's work function isn't swallowed: in a process of its own, as that
// has to end with it.
func crash(c *Case) {
	where, value := crashWheres[c.n(len(crashWheres))], crashValues[c.n(len(crashValues))]
	token := fmt.Sprintf("crash-%d", c.n(1e6))
	others := c.n(3)
	c.logf("%s", where)
	c.logf("%s", value)
	c.logf("others %d", others)
	c.feature(where)
	c.feature(value)
	exe, err := os.Executable()
	if err != nil {
		bad("%v", err)
	}
	cmd := exec.Command(exe, "-test.run", "^TestCrashChild$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%s %s %s %d", crashEnv, where, value, token, others))
	out, err := cmd.CombinedOutput()
	c.checks++
	// The watchdog wants to see something happen.
	steps.Add(1)
	want := token
	s := string(out)
	switch {
	case value == "runtime":
		want = "index out of range [7]"
	case value == "struct" && !strings.Contains(s, token):
		// The runtime doesn't print its fields.
		want = "harness.crashValue"
	}
	switch {
	case strings.Contains(s, "NOT REACHED"):
		// The machine is too slow for it, or the library doesn't call the function.
		c.feature("not reached")
	case strings.Contains(s, "SWALLOWED"), err == nil:
		c.fail([]string{"C38"}, "swallowed", "the panic of %s in %s (%s) doesn't end the process:\n%.2000s", token, where, value, s)
	case !strings.Contains(s, "panic: ") || !strings.Contains(s, want):
		c.fail([]string{"C38"}, "crash", "the panic of %s in %s (%s) ends the process in another way:\n%.2000s", token, where, value, s)
	}
}

// TestCrashChild is what happens in the process that is to end.
func TestCrashChild(t *testing.T) {
	var where, value, token string
	var others int
	if n, _ := fmt.Sscan(os.Getenv(crashEnv), &where, &value, &token, &others); n != 4 {
		return
	}
	var reached atomic.Int64
	boom := func(at string) {
		if at != where {
			return
		}
		if !reached.CompareAndSwap(0, time.Now().UnixNano()) {
			return
		}
		switch value {
		case "string":
			panic(token)
		case "error":
			panic(errors.New(token))
		case "struct":
			panic(crashValue{token})
		case "runtime":
			var s []int
			i := 7
			s[i] = 1
		case "panicError":
			panic(crashError{token})
		case "wrapped":
			panic(fmt.Errorf("%s: %w", token, dependency.ErrMissing))
		}
	}
	kind, _, _ := strings.Cut(where, "-")
	switch kind {
	case "runner":
		crashRunner(boom, others)
	case "engine":
		crashEngine(boom, others)
	case "catacomb":
		crashCatacomb(boom, others)
	}
	for t0 := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		at := reached.Load()
		if at != 0 && time.Since(time.Unix(0, at)) > 10*time.Second {
			fmt.Println("SWALLOWED")
			os.Exit(0)
		}
		if at == 0 && time.Since(t0) > 20*time.Second {
			fmt.Println("NOT REACHED")
			os.Exit(0)
		}
	}
}

// crashWorker calls boom in all of its methods.
type crashWorker struct {
	boom   func(string)
	prefix string
	wait   string
	dead   chan struct{}
	once   atomic.Bool
	err    error
}

func (w *crashWorker) end(err error) {
	if w.once.CompareAndSwap(false, true) {
		w.err = err
		close(w.dead)
	}
}

func (w *crashWorker) Kill() {
	w.boom(w.prefix + "-kill")
	w.end(nil)
}

func (w *crashWorker) Wait() error {
	<-w.dead
	w.boom(w.wait)
	return w.err
}

func (w *crashWorker) Report() map[string]any {
	w.boom(w.prefix + "-report")
	return nil
}

func newCrashWorker(boom func(string), prefix string) *crashWorker {
	return &crashWorker{boom: boom, prefix: prefix, wait: prefix + "-wait", dead: make(chan struct{})}
}

func quiet(string) {}

func crashRunner(boom func(string), others int) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name: "crash", RestartDelay: time.Millisecond,
		IsFatal: func(err error) bool {
			boom("runner-isfatal")
			return err.Error() == "fatal"
		},
		ShouldRestart: func(error) bool { boom("runner-shouldrestart"); return true },
		MoreImportant: func(a, b error) bool { boom("runner-moreimportant"); return false },
	})
	if err != nil {
		panic("NewRunner")
	}
	for i := 0; i < others; i++ {
		r.StartWorker(context.Background(), fmt.Sprint("other", i), func(context.Context) (worker.Worker, error) {
			return newCrashWorker(quiet, "other"), nil
		})
	}
	n := 0
	ws := make(chan *crashWorker, 9)
	r.StartWorker(context.Background(), "main", func(context.Context) (worker.Worker, error) {
		if n++; n == 1 {
			boom("runner-start")
		} else {
			boom("runner-restart")
		}
		w := newCrashWorker(boom, "runner")
		ws <- w
		return w, nil
	})
	(<-ws).end(errors.New("again"))
	w := <-ws
	for i := 0; i < 100; i++ {
		r.Report()
		if rep := r.Report()["workers"].(map[string]any)["main"]; rep != nil && rep.(map[string]any)["state"] == "started" {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.StartWorker(context.Background(), "fatal", func(context.Context) (worker.Worker, error) {
		return nil, errors.New("fatal")
	})
	w.end(errors.New("fatal"))
	r.StopWorker("main")
	r.Kill()
}

func crashEngine(boom func(string), others int) {
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal: func(err error) bool {
			boom("engine-isfatal")
			return err != nil && err.Error() == "fatal"
		},
		WorstError: func(a, b error) error { boom("engine-worst"); return a },
		ErrorDelay: time.Millisecond, Clock: systemClock{}, Logger: crashLogger{}, Metrics: crashMetrics(boom),
	})
	if err != nil {
		panic(err)
	}
	for i := 0; i < others; i++ {
		e.Install(fmt.Sprint("other", i), dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			return newCrashWorker(quiet, "other"), nil
		}})
	}
	e.Install("in", dependency.Manifold{
		Output: func(worker.Worker, any) error { boom("engine-output"); return nil },
		Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			return newCrashWorker(quiet, "in"), nil
		},
	})
	n := 0
	ws := make(chan *crashWorker, 99)
	e.Install("main", dependency.Manifold{
		Inputs: []string{"in"},
		Filter: func(err error) error { boom("engine-filter"); return err },
		Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
			if err := g.Get("in", new(int)); err != nil {
				return nil, err
			}
			if n++; n == 1 {
				boom("engine-start")
			} else {
				boom("engine-restart")
			}
			w := newCrashWorker(boom, "engine")
			ws <- w
			return w, nil
		},
	})
	(<-ws).end(errors.New("again"))
	w := <-ws
	for i := 0; i < 100; i++ {
		if rep := e.Report()["manifolds"].(map[string]any)["main"]; rep != nil && rep.(map[string]any)["state"] == "started" {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	go func() {
		// The kill must find a worker that is up.
		for i := 0; i < 5; i++ {
			e.Install(fmt.Sprint("fatal", i), dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				return nil, errors.New("fatal")
			}})
		}
		time.Sleep(time.Second)
		w.end(errors.New("fatal"))
	}()
}

func crashCatacomb(boom func(string), others int) {
	var site catacomb.Catacomb
	w := newCrashWorker(boom, "catacomb")
	added := newCrashWorker(boom, "added")
	added.wait = "catacomb-added-wait"
	init := []worker.Worker{w}
	for i := 0; i < others; i++ {
		init = append(init, newCrashWorker(quiet, "other"))
	}
	if err := catacomb.Invoke(catacomb.Plan{Name: "crash", Site: &site, Init: init, Work: func() error {
		<-site.Dying()
		return site.ErrDying()
	}}); err != nil {
		panic(err)
	}
	site.Add(added)
	time.Sleep(10 * time.Millisecond)
	added.end(nil)
	site.Kill(nil)
}

type systemClock struct{}

func (systemClock) Now() time.Time                         { return time.Now() }
func (systemClock) After(d time.Duration) <-chan time.Time { return time.After(d) }

type crashMetrics func(string)

func (m crashMetrics) RecordStart(name string) {
	if name == "main" {
		m("engine-metrics")
	}
}

type crashLogger struct{}

func (crashLogger) Tracef(string, ...any) {}
func (crashLogger) Debugf(string, ...any) {}
func (crashLogger) Infof(string, ...any)  {}
func (crashLogger) Errorf(string, ...any) {}

import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c35-caller-labels-win", "C35", ".",
  [(R, "	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {\n", "	pprof.Do(runner.tomb.Context(req.ctx), ownLabels(req, labels), func(ctx context.Context) {\n"),
   (R, "// startWorker responds when", "// ownLabels returns labels, or just the id if the caller has labels already.\nfunc ownLabels(req startReq, labels pprof.LabelSet) pprof.LabelSet {\n	if _, ok := pprof.Label(req.ctx, \"type\"); ok {\n		return pprof.Labels(\"id\", req.id)\n	}\n	return labels\n}\n\n// startWorker responds when")],
  runner('''
// A worker's labels are its own, also if it's started by another worker.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{Name: "runner"})
	if err != nil {
		t.Fatal(err)
	}
	defer worker.Stop(r)
	ctx := pprof.WithLabels(context.Background(), pprof.Labels("type", "worker", "name", "outer", "id", "x"))
	got := make(chan string, 1)
	r.StartWorker(ctx, "w", func(ctx context.Context) (worker.Worker, error) {
		var all string
		for _, k := range []string{"type", "name", "id"} {
			v, _ := pprof.Label(ctx, k)
			all += v + " "
		}
		got <- all
		return newDemoWorker(), nil
	})
	if s := <-got; s != "worker runner w " {
		t.Errorf("labels are %q", s)
	}
}
''', "context", "runtime/pprof"),
  "A StartWorker call with a context that has profiler labels, as one has in another runner's start function.",
  "The worker isn't labelled with the name of its runner.")

plant("c35-restart-keeps-context-only", "C35", ".",
  [(R, "	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {\n", "	restartCtx := pprof.WithLabels(runner.tomb.Context(context.Background()), workerInfo.labels)\n	if workerInfo.restartDelay > 0 {\n		workerInfo.labels = pprof.Labels(\"type\", \"worker\", \"name\", params.Name)\n	}\n	pprof.Do(restartCtx, workerInfo.labels, func(ctx context.Context) {\n")],
  runner('''
// A worker keeps its labels however often it's restarted.
func TestDemo(t *testing.T) {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:         "runner",
		RestartDelay: time.Millisecond,
		IsFatal:      func(error) bool { return false },
	})
	if err != nil {
		t.Fatal(err)
	}
	defer worker.Stop(r)
	got := make(chan string)
	r.StartWorker(context.Background(), "w", func(ctx context.Context) (worker.Worker, error) {
		v, _ := pprof.Label(ctx, "id")
		got <- v
		return nil, errors.New("fails")
	})
	for i := 0; i < 5; i++ {
		select {
		case s := <-got:
			if s != "w" {
				t.Errorf("start %d: id is %q", i, s)
			}
		case <-time.After(time.Minute):
			t.Fatal("no restart")
		}
	}
	var goroutines strings.Builder
	for i := 0; i < 100; i++ {
		goroutines.Reset()
		pprof.Lookup("goroutine").WriteTo(&goroutines, 1)
		if strings.Contains(goroutines.String(), `"id":"w"`) {
			go func() {
				for range got {
				}
			}()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Error("no goroutine has the worker's id")
	go func() {
		for range got {
		}
	}()
}
''', "context", "errors", "runtime/pprof", "strings", "time"),
  "A restart.",
  "The goroutine of the restarted worker doesn't have the worker's id as a label, though its context does.")

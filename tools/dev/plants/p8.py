import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

plant("c18-report-kept", "C18", "dependency",
  [(E, "	for name, info := range engine.current {\n		report := map", "	for name, info := range engine.current {\n		if info.reported != nil {\n			manifolds[name] = info.reported\n			continue\n		}\n		report := map"),
   (E, "		manifolds[name] = report\n	}", "		manifolds[name] = report\n		if info.stopped() {\n			// It stays like this until it's started again.\n			info.reported = report\n			engine.current[name] = info\n		}\n	}"),
   (E, "	startedTime   time.Time\n", "	reported      map[string]interface{}\n	startedTime   time.Time\n"),
   (E, "	info.starting = true\n	info.startAttempts++\n	info.err = nil\n", "	info.starting = true\n	info.startAttempts++\n	info.err, info.reported = nil, nil\n")],
  engine('''
// A report is the caller's.
func TestDemo(t *testing.T) {
	e, err := dependency.NewEngine(demoConfig())
	if err != nil {
		t.Fatal(err)
	}
	defer worker.Stop(e)
	e.Install("m", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		return nil, dependency.ErrMissing
	}})
	get := func() map[string]interface{} {
		return e.Report()["manifolds"].(map[string]interface{})["m"].(map[string]interface{})
	}
	for get()["state"] != "stopped" {
		time.Sleep(time.Millisecond)
	}
	delete(get(), "error")
	if get()["error"] == nil {
		t.Errorf("the error is gone")
	}
}
'''),
  "A caller changes a report's entry for a stopped manifold.",
  "Later reports have what the caller put there.")

plant("c12-first-dependents-only", "C12", "dependency",
  [(E, "	for _, dependentName := range engine.dependents[name] {\n		if engine.current", "	for i, dependentName := range engine.dependents[name] {\n		if i == 64 {\n			// Don't hold up the loop.\n			break\n		}\n		if engine.current")],
  engine('''
// All of an input's dependents are restarted.
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		e, err := dependency.NewEngine(demoConfig())
		if err != nil {
			t.Fatal(err)
		}
		ins, outs := make(chan *demoWorker, 9), make(chan *demoWorker, 999)
		for i := 0; i < 100; i++ {
			e.Install(fmt.Sprint("out", i), demoManifold(outs, "in"))
		}
		time.Sleep(time.Hour)
		e.Install("in", demoManifold(ins))
		time.Sleep(time.Hour)
		if len(outs) != 200 {
			t.Errorf("%d starts", len(outs))
		}
		e.Kill()
		e.Wait()
	})
}
''', "fmt", "testing/synctest"),
  "More than 64 manifolds that depend on the same one.",
  "Some of them aren't restarted when their input changes.")

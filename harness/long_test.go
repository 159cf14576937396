package harness

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	jujuerrors "github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

// What goes once must go any number of times: here the same few things are done
// over and over again, or by many at once.

func init() {
	register("runner-long", runnerLong)
	register("engine-long", engineLong)
	register("catacomb-long", catacombLong)
}

// times says how often.
func (c *Case) times() int {
	n := []int{20, 60, 150, 400, 1100}[c.n(5)]
	c.feature(fmt.Sprintf("%d times", n))
	return n + c.n(n/10)
}

// round notes that the workload asks for something more.
func (c *Case) round(f string, a ...any) {
	caseStep.Store(0)
	c.logf(f, a...)
}

type lW struct {
	n      int
	once   sync.Once
	dead   chan struct{}
	kills  atomic.Int64
	waits  atomic.Int64
	err    error
	deaf   bool
	onKill func()
}

func newLW(n int) *lW { return &lW{n: n, dead: make(chan struct{})} }

func (w *lW) Kill() {
	w.kills.Add(1)
	if w.onKill != nil {
		w.onKill()
	}
	if !w.deaf {
		w.end(nil)
	}
}

func (w *lW) Wait() error {
	w.waits.Add(1)
	<-w.dead
	return w.err
}

func (w *lW) end(err error) {
	w.once.Do(func() {
		w.err = err
		close(w.dead)
	})
}

func runnerLong(c *Case) {
	delay := []time.Duration{10 * time.Millisecond, time.Second, time.Hour}[c.n(3)]
	r, err := worker.NewRunner(worker.RunnerParams{
		Name: "long", Clock: rClock{c}, Logger: rLogger{c}, RestartDelay: delay,
		IsFatal: func(err error) bool { return err.Error() == "fatal" },
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	ctx := context.Background()
	// A bystander, to which nothing must happen.
	by := newLW(-1)
	bys := 0
	r.StartWorker(ctx, "bystander", func(context.Context) (worker.Worker, error) { bys++; return by, nil })
	c.settle()
	n := c.times()
	how := c.n(5)
	c.feature([]string{"restarts", "removals", "lookups", "ids", "stops"}[how])
	switch how {
	case 0:
		// It fails again and again, to start or as a worker.
		starts := 0
		var cur *lW
		var endAt time.Duration
		startFails := c.chance(30)
		r.StartWorker(ctx, "id", func(ctx context.Context) (worker.Worker, error) {
			starts++
			cur = nil
			if ctx.Err() != nil {
				c.fail([]string{"C01", "C02"}, "context", "the context of start %d has ended", starts)
			}
			if startFails && c.hr()%2 == 0 {
				endAt = c.now()
				return nil, fmt.Errorf("e%d", starts)
			}
			cur = newLW(starts)
			return cur, nil
		})
		c.settle()
		for i := 1; i <= n; i++ {
			c.checks++
			if starts != i {
				c.fail([]string{"C02"}, "restarts", "%d starts after %d failures", starts, i-1)
			}
			if w := cur; w != nil {
				if got, err := r.Worker("id", nil); got != worker.Worker(w) {
					c.fail([]string{"C06"}, "lookup", "Worker = %v, %v after restart %d", got, err, i-1)
				}
				endAt = c.now()
				w.end(fmt.Errorf("e%d", i))
				c.settle()
			}
			c.round("failure %d, as a worker: %v", i, cur != nil)
			due := endAt + delay
			if d := due - time.Millisecond - c.now(); d > 0 {
				time.Sleep(d)
				if starts != i {
					c.fail([]string{"C02"}, "early", "restart %d comes too early", i)
				}
			}
			time.Sleep(due + slack - c.now())
			c.settle()
		}
		if starts != n+1 {
			c.fail([]string{"C02"}, "restarts", "%d starts after %d failures", starts, n)
		}
	case 1:
		// The same id is started and removed again and again.
		for i := 0; i < n; i++ {
			c.checks++
			w := newLW(i)
			c.round("start %d", i)
			if err := r.StartWorker(ctx, "id", func(context.Context) (worker.Worker, error) { return w, nil }); err != nil {
				c.fail([]string{"C01", "C03", "C07"}, "start", "StartWorker %d = %v", i, err)
			}
			var want error
			if c.chance(50) {
				want = fmt.Errorf("e%d", i)
				w.onKill = func() { w.end(want) }
			}
			if got, err := r.Worker("id", nil); got != worker.Worker(w) {
				c.fail([]string{"C06"}, "lookup", "Worker = %v, %v after StartWorker %d", got, err, i)
			}
			if err := r.StopAndRemoveWorker("id", nil); !same(err, want) {
				c.fail([]string{"C07"}, "remove", "StopAndRemoveWorker %d = %v, want %v", i, err, want)
			}
			if !isClosed(w.dead) {
				c.fail([]string{"C07"}, "remove", "StopAndRemoveWorker %d hasn't stopped the worker", i)
			}
		}
	case 2:
		// Many wait for it at once; some give up.
		n = min(n, 400)
		release := make(chan struct{})
		w := newLW(0)
		fail := c.chance(30)
		again := 0
		r.StartWorker(ctx, "id", func(context.Context) (worker.Worker, error) {
			<-release
			if again++; fail && again == 1 {
				return nil, errors.New("not yet")
			}
			return w, nil
		})
		abort := make(chan struct{})
		type res struct {
			w      worker.Worker
			err    error
			quits  bool
			remove bool
			done   atomic.Bool
		}
		rs := make([]*res, n)
		pct, rpct := c.n(101), c.n(40)
		for i := range rs {
			s := &res{quits: c.chance(pct), remove: c.chance(rpct)}
			c.round("lookup %d quits=%v remove=%v", i, s.quits, s.remove)
			rs[i] = s
			go func() {
				var ab chan struct{}
				if s.quits {
					ab = abort
				}
				if s.remove {
					s.err = r.StopAndRemoveWorker("id", ab)
				} else {
					s.w, s.err = r.Worker("id", ab)
				}
				s.done.Store(true)
			}()
		}
		c.settle()
		for i, s := range rs {
			if s.done.Load() {
				c.fail([]string{"C06", "C07"}, "lookup", "lookup %d (remove=%v) has returned %v, %v before there's a worker", i, s.remove, s.w, s.err)
			}
		}
		close(abort)
		c.settle()
		for i, s := range rs {
			if s.quits && (!s.done.Load() || s.err != worker.ErrAborted) {
				c.fail([]string{"C06", "C07", "C09"}, "abort", "lookup %d (remove=%v) of %d: done=%v %v after an abort", i, s.remove, n, s.done.Load(), s.err)
			}
		}
		close(release)
		time.Sleep(delay + slack)
		c.settle()
		time.Sleep(delay + slack)
		c.settle()
		removed := false
		for _, s := range rs {
			removed = removed || s.remove && !s.quits
		}
		for i, s := range rs {
			if !s.quits && !s.done.Load() {
				c.fail([]string{"C06", "C07", "C09"}, "hang", "lookup %d (remove=%v) of %d hangs when the worker is up", i, s.remove, n)
			}
			if !s.quits {
				ok := s.err == nil && (s.remove || s.w == worker.Worker(w))
				// Too late to find it.
				ok = ok || removed && errors.Is(s.err, jujuerrors.NotFound)
				if !ok {
					c.fail([]string{"C06", "C07"}, "lookup", "lookup %d (remove=%v) of %d: %v, %v", i, s.remove, n, s.w, s.err)
				}
			}
			c.checks++
		}
		if !removed {
			if w.kills.Load() > 0 {
				c.fail([]string{"C06", "C07"}, "kill", "the worker was killed")
			}
		} else if !isClosed(w.dead) {
			c.fail([]string{"C07"}, "kill", "the worker wasn't stopped")
		}
	case 3:
		// Many ids at once.
		n = min(n, 700)
		ws := make([]*lW, n)
		for i := range ws {
			ws[i] = newLW(i)
			w := ws[i]
			starts := 0
			if err := r.StartWorker(ctx, fmt.Sprint("id", i), func(context.Context) (worker.Worker, error) {
				if starts++; starts > 1 {
					c.fail([]string{"C02", "C01"}, "again", "%d is started again", i)
				}
				return w, nil
			}); err != nil {
				c.fail([]string{"C01"}, "start", "StartWorker of id %d = %v", i, err)
			}
		}
		c.settle()
		gone := map[int]bool{}
		for i := range ws {
			switch c.n(4) {
			case 0:
				c.round("end %d", i)
				ws[i].end(nil)
				gone[i] = true
			case 1:
				c.round("stop %d", i)
				r.StopWorker(fmt.Sprint("id", i))
				gone[i] = true
			}
		}
		c.settle()
		rep, _ := r.Report()["workers"].(map[string]any)
		names := map[string]bool{}
		for _, name := range r.WorkerNames() {
			names[name] = true
		}
		for i, w := range ws {
			c.checks++
			id := fmt.Sprint("id", i)
			got, err := r.Worker(id, closedCh)
			_, inRep := rep[id]
			if gone[i] {
				if !errors.Is(err, jujuerrors.NotFound) || inRep || names[id] {
					c.fail([]string{"C06", "C08", "C03"}, "gone", "%s of %d ids is gone, but Worker = %v, %v; named %v, reported %v", id, n, got, err, names[id], inRep)
				}
				continue
			}
			if got != worker.Worker(w) || w.kills.Load() > 0 {
				c.fail([]string{"C06", "C03", "C01"}, "up", "%s of %d ids should be up, but Worker = %v, %v; %d kills", id, n, got, err, w.kills.Load())
			}
			if !inRep || !names[id] {
				c.fail([]string{"C08"}, "up", "%s of %d ids is up; named %v, reported %v", id, n, names[id], inRep)
			}
		}
		if len(rep) != n-len(gone)+1 || len(names) != n-len(gone)+1 {
			c.fail([]string{"C08"}, "count", "%d names and %d reported workers, should be %d", len(names), len(rep), n-len(gone)+1)
		}
		if c.chance(50) {
			r.Kill()
		} else {
			by.end(errors.New("fatal"))
		}
		r.Wait()
		for i, w := range ws {
			if !isClosed(w.dead) {
				c.fail([]string{"C04"}, "left", "worker %d of %d is left", i, n)
			}
		}
		c.settle()
		c.checkLeaks()
		return
	case 4:
		// It's stopped while it waits to be restarted, again and again.
		for i := 0; i < n; i++ {
			c.checks++
			starts := 0
			c.round("start and stop %d", i)
			if err := r.StartWorker(ctx, "id", func(context.Context) (worker.Worker, error) {
				starts++
				return nil, fmt.Errorf("e%d", i)
			}); err != nil {
				c.fail([]string{"C01", "C03"}, "start", "StartWorker %d = %v", i, err)
			}
			c.settle()
			r.StopWorker("id")
			c.settle()
			if starts != 1 {
				c.fail([]string{"C01", "C02", "C03"}, "starts", "%d starts in round %d", starts, i)
			}
		}
		time.Sleep(3 * delay)
	}
	c.settle()
	if by.kills.Load() > 0 || bys != 1 {
		c.fail([]string{"C02", "C03"}, "bystander", "another worker was killed %d times, and started %d times", by.kills.Load(), bys)
	}
	r.Kill()
	if err := r.Wait(); err != nil {
		c.fail([]string{"C05"}, "wait", "Wait = %v", err)
	}
	if !isClosed(by.dead) {
		c.fail([]string{"C04"}, "left", "a worker is left")
	}
	c.settle()
	c.checkLeaks()
}

func engineLong(c *Case) {
	mt := &lMetrics{by: map[string]int{}}
	errDelay := []time.Duration{time.Millisecond, time.Second}[c.n(2)]
	bounce := []time.Duration{time.Millisecond, 100 * time.Millisecond}[c.n(2)]
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:    func(err error) bool { return err != nil && err.Error() == "fatal" },
		WorstError: func(a, b error) error { return a },
		ErrorDelay: errDelay, BounceDelay: bounce,
		Clock: rClock{c}, Metrics: mt, Logger: eLogger{c},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	type man struct {
		name   string
		inputs []string
		starts int
		cur    *lW
		fails  error
		// what the latest start saw
		seen []worker.Worker
	}
	install := func(m *man) {
		if err := e.Install(m.name, dependency.Manifold{
			Inputs: m.inputs,
			Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				m.starts++
				m.seen = nil
				for _, in := range m.inputs {
					var w worker.Worker
					if err := g.Get(in, &w); err != nil && !errors.Is(err, dependency.ErrMissing) {
						c.fail([]string{"C13"}, "get", "Get(%s) = %v", in, err)
					}
					m.seen = append(m.seen, w)
				}
				if m.fails != nil {
					return nil, m.fails
				}
				w := newLW(m.starts)
				m.cur = w
				return w, nil
			},
			Output: func(in worker.Worker, out any) error {
				*out.(*worker.Worker) = in
				return nil
			},
		}); err != nil {
			c.fail([]string{"C11", "C20"}, "install", "Install(%s, %v) = %v", m.name, m.inputs, err)
		}
	}
	// upToDate checks that a manifold's start has seen what there is.
	by := map[string]*man{}
	upToDate := func(m *man, when string) {
		c.checks++
		if m.cur == nil || isClosed(m.cur.dead) {
			c.fail([]string{"C12", "C14"}, "down", "%s is down %s", m.name, when)
		}
		for i, in := range m.inputs {
			var want worker.Worker
			if im := by[in]; im != nil && im.cur != nil && !isClosed(im.cur.dead) {
				want = im.cur
			}
			if m.seen[i] != want {
				c.fail([]string{"C12", "C13"}, "stale", "the latest start of %s (input %d of %d) saw %v of %s, but there is %v %s", m.name, i, len(m.inputs), m.seen[i], in, want, when)
			}
		}
	}
	add := func(name string, inputs ...string) *man {
		m := &man{name: name, inputs: inputs}
		c.round("install %s %v", name, inputs)
		by[name] = m
		install(m)
		return m
	}
	wait := func() {
		c.round("wait")
		time.Sleep(2 * max(errDelay, bounce))
		c.settle()
	}
	apart := add("apart")
	n := c.times()
	how := c.n(5)
	c.feature([]string{"dependents", "inputs", "chain", "uninstalls", "changes"}[how])
	switch how {
	case 0:
		// Many depend on one.
		n = min(n, 250)
		in := add("in")
		var outs []*man
		for i := 0; i < n; i++ {
			outs = append(outs, add(fmt.Sprint("out", i), "in"))
		}
		wait()
		for _, m := range outs {
			upToDate(m, "at first")
		}
		for k := 0; k < 2; k++ {
			in.cur.end([]error{nil, errors.New("e")}[k])
			wait()
			wait()
			for _, m := range outs {
				upToDate(m, "when the input has ended")
			}
			if k == 0 {
				in.cur = nil
				// It did end well, so stays down.
				if in.starts != 1 {
					c.fail([]string{"C14"}, "restart", "the input was restarted after a clean end")
				}
				// Bring it up again.
				fresh := add("new", "in")
				wait()
				upToDate(fresh, "though the input is down")
				break
			}
		}
	case 1:
		// One depends on many.
		n = min(n, 250)
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprint("in", i))
			if c.chance(90) {
				add(names[i])
			}
		}
		out := add("out", names...)
		wait()
		upToDate(out, "at first")
		for k := 0; k < 5; k++ {
			im := by[names[c.n(n)]]
			if im == nil || isClosed(im.cur.dead) {
				continue
			}
			before := out.starts
			c.round("%s changes", im.name)
			im.cur.end([]error{nil, errors.New("e"), dependency.ErrUninstall}[c.n(3)])
			wait()
			wait()
			upToDate(out, "after a change of "+im.name)
			if out.starts == before {
				c.fail([]string{"C12"}, "restart", "the dependent of %d wasn't restarted when %s changed", n, im.name)
			}
		}
	case 2:
		// A long chain, whose ends mustn't meet.
		n = min(n, 150)
		order := c.rng.Perm(n)
		for _, i := range order {
			var inputs []string
			if i > 0 {
				inputs = []string{fmt.Sprint("c", i-1)}
			} else {
				inputs = []string{"first"}
			}
			add(fmt.Sprint("c", i), inputs...)
		}
		if err := e.Install("first", dependency.Manifold{
			Inputs: []string{fmt.Sprint("c", n-1)},
			Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				c.fail([]string{"C11"}, "cycle", "a manifold that closes a cycle of %d was started", n+1)
				return nil, nil
			},
		}); err == nil {
			c.fail([]string{"C11"}, "cycle", "a cycle of %d was accepted", n+1)
		}
		add("first")
		for i := 0; i < n; i++ {
			wait()
		}
		for i := 0; i < n; i++ {
			upToDate(by[fmt.Sprint("c", i)], "in the chain")
		}
		by["first"].cur.end(errors.New("e"))
		for i := 0; i < n+2; i++ {
			wait()
		}
		for i := 0; i < n; i++ {
			upToDate(by[fmt.Sprint("c", i)], "in the chain, after a change at its end")
		}
	case 3:
		// A manifold is uninstalled and installed again and again.
		out := add("out", "m")
		for i := 0; i < n; i++ {
			m := add("m")
			wait()
			upToDate(out, fmt.Sprintf("in round %d", i))
			if m.starts != 1 {
				c.fail([]string{"C20", "C14"}, "starts", "%d starts in round %d", m.starts, i)
			}
			rep, _ := e.Report()["manifolds"].(map[string]any)
			if r, _ := rep["m"].(map[string]any); r["start-count"] != 1 {
				c.fail([]string{"C18", "C20"}, "count", "start-count is %v in round %d", r["start-count"], i)
			}
			m.cur.end(dependency.ErrUninstall)
			wait()
			rep, _ = e.Report()["manifolds"].(map[string]any)
			if _, ok := rep["m"]; ok {
				c.fail([]string{"C20", "C18"}, "gone", "m is there after uninstall %d", i)
			}
			upToDate(out, fmt.Sprintf("after uninstall %d", i))
		}
	case 4:
		// An input comes and goes again and again.
		in := add("in")
		out := add("out", "in")
		wait()
		for i := 1; i <= n; i++ {
			outStarts := out.starts
			in.cur.end(errors.New("e"))
			wait()
			wait()
			if in.starts != i+1 {
				c.fail([]string{"C14"}, "restart", "%d starts of the input after %d failures", in.starts, i)
			}
			upToDate(out, fmt.Sprintf("after failure %d of its input", i))
			if out.starts == outStarts {
				c.fail([]string{"C12"}, "restart", "not restarted after failure %d of its input", i)
			}
		}
		if got := mt.get("in"); got != n+1 {
			c.fail([]string{"C18"}, "metrics", "%d starts recorded, should be %d", got, n+1)
		}
		rep, _ := e.Report()["manifolds"].(map[string]any)
		for _, m := range []*man{in, out} {
			r, _ := rep[m.name].(map[string]any)
			if r["start-count"] != mt.get(m.name) {
				c.fail([]string{"C18"}, "count", "start-count of %s is %v, but %d were recorded", m.name, r["start-count"], mt.get(m.name))
			}
		}
	}
	if apart.starts != 1 || apart.cur.kills.Load() > 0 {
		c.fail([]string{"C12", "C14"}, "apart", "another manifold was started %d times and killed %d times", apart.starts, apart.cur.kills.Load())
	}
	if c.chance(50) {
		e.Kill()
	} else {
		apart.cur.end(errors.New("fatal"))
	}
	e.Wait()
	for _, m := range by {
		if m.cur != nil && !isClosed(m.cur.dead) {
			c.fail([]string{"C16"}, "left", "the worker of %s is left", m.name)
		}
	}
	c.settle()
	c.checkLeaks()
}

type lMetrics struct {
	mu sync.Mutex
	by map[string]int
}

func (m *lMetrics) RecordStart(name string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.by[name]++
}

func (m *lMetrics) get(name string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.by[name]
}

func catacombLong(c *Case) {
	var site catacomb.Catacomb
	n := c.times()
	how := c.n(3)
	c.feature([]string{"adds", "contexts", "kills"}[how])
	runs := 0
	if err := catacomb.Invoke(catacomb.Plan{Name: "long", Site: &site, Work: func() error {
		runs++
		<-site.Dying()
		return site.ErrDying()
	}}); err != nil {
		c.fail([]string{"C26"}, "invoke", "Invoke = %v", err)
	}
	alive := func(f string, a ...any) {
		c.checks++
		if isClosed(site.Dying()) || isClosed(site.Dead()) {
			c.fail([]string{"C25", "C28"}, "dying", "the catacomb is dying %s: %v", fmt.Sprintf(f, a...), site.Err())
		}
	}
	switch how {
	case 0:
		// Workers come and go one after the other; some stay.
		var stay []*lW
		keep := c.n(60)
		for i := 0; i < n; i++ {
			w := newLW(i)
			if err := site.Add(w); err != nil {
				c.fail([]string{"C22", "C25"}, "add", "Add %d = %v", i, err)
			}
			stays := c.chance(keep)
			c.round("add %d stays=%v", i, stays)
			if stays {
				w.deaf = c.chance(20)
				stay = append(stay, w)
				continue
			}
			w.end(nil)
			if c.chance(20) {
				c.settle()
				alive("after %d workers have ended", i)
			}
		}
		c.settle()
		for _, w := range stay {
			if w.kills.Load() > 0 || w.waits.Load() == 0 {
				c.fail([]string{"C25", "C22"}, "kill", "worker %d has been killed %d times, and waited for %d times", w.n, w.kills.Load(), w.waits.Load())
			}
		}
		want := error(nil)
		if len(stay) > 0 && c.chance(70) {
			want = errors.New("e")
			stay[c.n(len(stay))].end(want)
		} else {
			site.Kill(nil)
		}
		c.settle()
		for _, w := range stay {
			if !isClosed(w.dead) && w.kills.Load() == 0 {
				c.fail([]string{"C22", "C25"}, "left", "worker %d of %d hasn't been killed", w.n, n)
			}
		}
		for _, w := range stay {
			if !isClosed(w.dead) {
				if isClosed(site.Dead()) {
					c.fail([]string{"C23"}, "early", "the catacomb is dead, but worker %d of %d isn't", w.n, n)
				}
				if c.chance(20) {
					c.settle()
				}
				w.end(nil)
			}
		}
		if err := site.Wait(); !same(err, want) {
			c.fail([]string{"C24"}, "wait", "Wait = %v, should be %v", err, want)
		}
	case 1:
		// Many contexts, of which some end earlier.
		type cx struct {
			ctx    context.Context
			cancel func()
			done   bool
		}
		var cs []*cx
		for i := 0; i < n; i++ {
			p, cancel := c.withCancel(context.WithValue(context.Background(), ctxKey{}, i))
			x := &cx{ctx: site.Context(p), cancel: cancel}
			c.round("context %d", i)
			cs = append(cs, x)
			if c.chance(30) {
				y := cs[c.n(len(cs))]
				c.logf("cancel a parent")
				y.done = true
				y.cancel()
			}
		}
		c.settle()
		check := func(dying bool) {
			for i, x := range cs {
				c.checks++
				if (x.ctx.Err() != nil) != (x.done || dying) || isClosed(x.ctx.Done()) != (x.done || dying) {
					c.fail([]string{"C28"}, "context", "context %d of %d: %v, its parent is done: %v, dying: %v", i, n, x.ctx.Err(), x.done, dying)
				}
				if x.ctx.Value(ctxKey{}) != i {
					c.fail([]string{"C28"}, "context", "context %d of %d lacks its parent's value", i, n)
				}
			}
		}
		check(false)
		alive("though only contexts have ended")
		site.Kill(nil)
		c.settle()
		check(true)
		for _, x := range cs {
			x.cancel()
		}
	case 2:
		// It's killed again and again while it's dying.
		w := newLW(0)
		w.deaf = true
		site.Add(w)
		first := errors.New("first")
		k := c.n(n)
		for i := 0; i < n; i++ {
			c.round("kill %d", i)
			switch {
			case i == k:
				site.Kill(first)
			case i < k:
				site.Kill(nil)
			case c.chance(50):
				site.Kill(fmt.Errorf("e%d", i))
			case c.chance(50):
				site.Kill(site.ErrDying())
			default:
				if err := site.Add(func() worker.Worker { w := newLW(i); w.end(nil); return w }()); err != site.ErrDying() {
					c.fail([]string{"C22"}, "add", "Add = %v, should be %v", err, site.ErrDying())
				}
			}
			if i > k && site.Err() != first {
				c.fail([]string{"C24"}, "err", "Err = %v, after %d kills", site.Err(), i+1)
			}
			c.checks++
		}
		w.end(nil)
		if err := site.Wait(); err != first {
			c.fail([]string{"C24"}, "wait", "Wait = %v", err)
		}
	}
	site.Wait()
	if runs != 1 {
		c.fail([]string{"C26"}, "runs", "the work function ran %d times", runs)
	}
	c.settle()
	c.checkLeaks()
}

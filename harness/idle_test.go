package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("idle", idleCheck)
}

// idleCheck counts the goroutines of a runner, an engine or a catacomb that
// goes on running while workers come and go: when they have gone, it must not
// have more than at first.
func idleCheck(c *Case) {
	x := &idler{c: c}
	switch c.n(3) {
	case 0:
		x.runner()
	case 1:
		x.engine()
	case 2:
		x.catacomb()
	}
	c.settle()
	c.checkLeaks()
}

type idler struct {
	c    *Case
	what string
	base int
	nw   atomic.Int64
}

// idleWorker ends when told to.
type idleWorker struct {
	c        *Case
	n        int64
	once     sync.Once
	dead     chan struct{}
	err      error
	killErr  error
	linger   time.Duration
	stubborn bool
}

func (x *idler) worker() *idleWorker {
	c := x.c
	w := &idleWorker{c: c, n: x.nw.Add(1), dead: make(chan struct{})}
	if c.hr()%4 == 0 {
		w.linger = time.Duration(c.hr()%5000) * time.Millisecond
	}
	if c.hr()%3 == 0 {
		w.killErr = fmt.Errorf("killed %d", w.n)
	}
	return w
}

func (w *idleWorker) Kill() {
	w.c.logf("  kill w%d", w.n)
	if w.linger == 0 {
		w.end(w.killErr)
		return
	}
	time.AfterFunc(w.linger, func() { w.end(w.killErr) })
}

func (w *idleWorker) Wait() error {
	<-w.dead
	return w.err
}

func (w *idleWorker) end(err error) {
	w.once.Do(func() {
		w.c.logf("  w%d ends: %v", w.n, err)
		w.err = err
		close(w.dead)
	})
}

// count looks for goroutines of the library.
func (x *idler) count() (int, string) {
	x.c.settle()
	gs := repoGoroutines()
	return len(gs), strings.Join(gs, "\n\n")
}

func (x *idler) begin(what string) {
	x.what = what
	x.c.feature(what)
	x.base, _ = x.count()
}

// idle is called when all workers have ended and all calls returned.
func (x *idler) idle() {
	c := x.c
	c.checks++
	if n, gs := x.count(); n > x.base {
		c.fail([]string{"C33"}, "idle", "%d goroutines in an idle %s, there were %d at first:\n%s", n, x.what, x.base, gs)
	}
}

func (x *idler) runner() {
	c := x.c
	errNo := errors.New("don't restart")
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "idle",
		IsFatal:       func(error) bool { return false },
		ShouldRestart: func(err error) bool { return err != errNo },
		RestartDelay:  []time.Duration{time.Millisecond, time.Second, time.Hour}[c.n(3)],
		Clock:         rClock{c},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	x.begin("runner")
	abort := make(chan struct{})
	var mu sync.Mutex
	var ws []*idleWorker
	for round, rounds := 0, 1+c.n(3); round < rounds; round++ {
		var calls atomic.Int64
		call := func(f func()) {
			calls.Add(1)
			go func() {
				f()
				calls.Add(-1)
			}()
		}
		for i, n := 0, 1+c.n(8); i < n; i++ {
			id := fmt.Sprint("id", c.n(4))
			switch c.n(8) {
			case 0, 1, 2:
				mode, delay := c.n(4), time.Duration(c.n(3))*time.Second
				c.logf("StartWorker(%s) mode %d", id, mode)
				ctx, cancel := context.WithCancel(context.Background())
				r.StartWorker(ctx, id, func(ctx context.Context) (worker.Worker, error) {
					time.Sleep(delay)
					if mode == 0 {
						return nil, fmt.Errorf("no start")
					}
					mu.Lock()
					defer mu.Unlock()
					w := x.worker()
					ws = append(ws, w)
					return w, nil
				})
				if c.chance(20) {
					cancel()
				} else {
					time.AfterFunc(24*time.Hour, cancel)
				}
			case 3:
				c.logf("StopWorker(%s)", id)
				r.StopWorker(id)
			case 4, 5:
				c.logf("Worker(%s)", id)
				call(func() { r.Worker(id, abort) })
			case 6:
				c.logf("StopAndRemoveWorker(%s)", id)
				call(func() { r.StopAndRemoveWorker(id, abort) })
			case 7:
				c.logf("a worker ends")
				mu.Lock()
				if len(ws) > 0 {
					w := ws[c.n(len(ws))]
					w.end([]error{nil, errNo, errors.New("oops")}[c.n(3)])
				}
				mu.Unlock()
			}
			if c.chance(50) {
				time.Sleep(time.Duration(c.n(3000)) * time.Millisecond)
			}
		}
		if c.chance(50) {
			x.aborted(r)
		}
		c.logf("abort")
		close(abort)
		abort = make(chan struct{})
		c.settle()
		for id := 0; id < 4; id++ {
			r.StopWorker(fmt.Sprint("id", id))
		}
		time.Sleep(time.Minute)
		c.settle()
		if names := r.WorkerNames(); len(names) > 0 {
			c.foreign([]string{"C03"}, "idle", "%v are still there though they were stopped", names)
			break
		}
		if n := calls.Load(); n > 0 {
			c.foreign([]string{"C09", "C06", "C07"}, "idle", "%d calls hang", n)
			break
		}
		x.idle()
	}
	r.Kill()
	if !x.dead(r) {
		return
	}
}

// aborted looks up a worker that doesn't come up, and gives up.
func (x *idler) aborted(r *worker.Runner) {
	c := x.c
	up := make(chan struct{})
	err := r.StartWorker(context.Background(), "pending", func(context.Context) (worker.Worker, error) {
		<-up
		return x.worker(), nil
	})
	if err != nil {
		c.fail([]string{"C01"}, "idle", "StartWorker = %v", err)
	}
	// Let everything that is under way go on, as far as it does.
	time.Sleep(10 * time.Second)
	before, _ := x.count()
	g := c.gen()
	var calls atomic.Int64
	lookup := func(remove bool, abort <-chan struct{}) {
		calls.Add(1)
		c.logf("look up the pending worker")
		go func() {
			if remove {
				r.StopAndRemoveWorker("pending", abort)
			} else {
				r.Worker("pending", abort)
			}
			calls.Add(-1)
		}()
	}
	count := func(what string, want int) int {
		c.settle()
		if n := calls.Load(); n != int64(want) {
			c.fail([]string{"C09", "C06", "C07"}, "idle", "%d calls are there rather than %d, %s", n, want, what)
		}
		time.Sleep(time.Microsecond)
		c.checks++
		n, gs := x.count()
		c.logf("%s: %d goroutines", what, n)
		c.mu.Lock()
		quiet := true
		for _, l := range c.log[len(c.log)-(c.events-g):] {
			// Something other than the calls may have gone on.
			quiet = quiet && !strings.Contains(l, "  w")
		}
		c.mu.Unlock()
		if n > before && quiet && want == 0 {
			c.fail([]string{"C33"}, "idle", "%d goroutines after all calls were aborted, there were %d before:\n%s", n, before, gs)
		}
		if !quiet {
			return -1
		}
		return n
	}
	// Some stay, others go.
	stay, leave := c.n(4), 1+c.n(5)
	removes := make([]bool, stay)
	for i := range removes {
		removes[i] = c.chance(40)
	}
	alone := -1
	if stay > 0 {
		abort := make(chan struct{})
		for _, r := range removes {
			lookup(r, abort)
		}
		alone = count("some calls", stay)
		close(abort)
		count("they were aborted", 0)
	}
	aborts := make([]chan struct{}, 0, leave)
	rest := make(chan struct{})
	for i, j := 0, 0; i < stay || j < leave; {
		if i == stay || j < leave && c.chance(60) {
			j++
			aborts = append(aborts, make(chan struct{}))
			lookup(c.chance(40), aborts[len(aborts)-1])
		} else {
			lookup(removes[i], rest)
			i++
		}
		if c.chance(50) {
			c.settle()
		}
	}
	if c.chance(80) {
		c.settle()
	}
	for _, i := range c.rng.Perm(leave) {
		close(aborts[i])
		if c.chance(50) {
			c.settle()
		}
	}
	n := count("some were aborted", stay)
	if alone >= 0 && n > alone {
		c.fail([]string{"C33"}, "idle", "%d goroutines after some calls were aborted, while the others alone make it %d", n, alone)
	}
	close(rest)
	count("all were aborted", 0)
	close(up)
	r.StopWorker("pending")
}

// dead waits for w to end.
func (x *idler) dead(w worker.Worker) bool {
	done := make(chan struct{})
	go func() {
		w.Wait()
		close(done)
	}()
	time.Sleep(time.Hour)
	x.c.settle()
	select {
	case <-done:
		return true
	default:
		x.c.fail([]string{"C04", "C16", "C23"}, "idle", "the %s doesn't end", x.what)
		return false
	}
}

func (x *idler) engine() {
	c := x.c
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:     func(error) bool { return false },
		WorstError:  func(a, b error) error { return a },
		ErrorDelay:  time.Second,
		BounceDelay: 10 * time.Millisecond,
		Clock:       rClock{c}, Metrics: dependency.DefaultMetrics(), Logger: eLogger{c},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	x.begin("engine")
	var mu sync.Mutex
	var ws []*idleWorker
	var over atomic.Bool
	for round, rounds := 0, 1+c.n(3); round < rounds; round++ {
		over.Store(false)
		for i, n := 0, 1+c.n(8); i < n; i++ {
			switch c.n(3) {
			case 0, 1:
				name := fmt.Sprint("m", c.n(6))
				var inputs []string
				for k := c.n(3); k > 0; k-- {
					inputs = append(inputs, fmt.Sprint("m", c.n(6)))
				}
				mode, delay, heeds := c.n(4), time.Duration(c.n(3))*time.Second, c.chance(50)
				err := e.Install(name, dependency.Manifold{Inputs: inputs, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
					if heeds {
						select {
						case <-ctx.Done():
							return nil, ctx.Err()
						case <-time.After(delay):
						}
					} else {
						time.Sleep(delay)
					}
					if over.Load() {
						return nil, dependency.ErrUninstall
					}
					for _, in := range inputs {
						if mode != 1 && g.Get(in, nil) != nil {
							return nil, dependency.ErrMissing
						}
					}
					if mode == 0 && c.hr()%2 == 0 {
						return nil, errors.New("no start")
					}
					mu.Lock()
					defer mu.Unlock()
					w := x.worker()
					w.killErr = nil
					ws = append(ws, w)
					return w, nil
				}})
				c.logf("Install(%s, %v) mode %d: %v", name, inputs, mode, err)
			case 2:
				mu.Lock()
				if len(ws) > 0 {
					w := ws[c.n(len(ws))]
					w.end([]error{nil, dependency.ErrBounce, dependency.ErrUninstall, dependency.ErrMissing, errors.New("oops")}[c.n(5)])
				}
				mu.Unlock()
			}
			if c.chance(60) {
				time.Sleep(time.Duration(c.n(3000)) * time.Millisecond)
			}
		}
		c.logf("no more workers")
		// From now on no start succeeds. Manifolds that are given up for
		// good when they are started once more are gone; the rest are idle.
		over.Store(true)
		for k := 0; k < 8; k++ {
			time.Sleep(time.Minute)
			mu.Lock()
			for _, w := range ws {
				w.end(nil)
			}
			mu.Unlock()
		}
		c.settle()
		x.idle()
	}
	e.Kill()
	x.dead(e)
}

func (x *idler) catacomb() {
	c := x.c
	site := &catacomb.Catacomb{}
	err := catacomb.Invoke(catacomb.Plan{Name: "idle", Site: site, Work: func() error {
		<-site.Dying()
		return site.ErrDying()
	}})
	if err != nil {
		c.fail([]string{"C26"}, "idle", "Invoke: %v", err)
	}
	x.begin("catacomb")
	for round, rounds := 0, 1+c.n(3); round < rounds; round++ {
		var ws []*idleWorker
		for i, n := 0, 1+c.n(10); i < n; i++ {
			switch c.n(4) {
			case 0, 1:
				w := x.worker()
				w.killErr = nil
				ws = append(ws, w)
				c.logf("Add w%d", w.n)
				if err := site.Add(w); err != nil {
					c.foreign([]string{"C22", "C25"}, "idle", "Add: %v", err)
					site.Kill(nil)
					x.dead(site2worker{site})
					return
				}
			case 2:
				ctx, cancel := context.WithCancel(context.Background())
				site.Context(ctx)
				cancel()
			case 3:
				if len(ws) > 0 {
					ws[c.n(len(ws))].end(nil)
				}
			}
			if c.chance(30) {
				time.Sleep(time.Second)
			}
		}
		for _, w := range ws {
			if c.chance(50) {
				w.Kill()
			} else {
				w.end(nil)
			}
		}
		time.Sleep(time.Minute)
		x.idle()
	}
	site.Kill(nil)
	x.dead(site2worker{site})
}

type site2worker struct{ *catacomb.Catacomb }

func (s site2worker) Kill() { s.Catacomb.Kill(nil) }

//go:build verifrace

// Drivers for the build with the race detector. They run in real time and
// share nothing between goroutines but what they have to: every lock, atomic
// or channel operation of the harness would order accesses of the library that
// nothing in the library orders.
package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"time"

	gc "gopkg.in/check.v1"

	"github.com/juju/clock"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/verifsched"
	"github.com/juju/worker/v4/workertest"
	"gopkg.in/tomb.v2"
)

func init() {
	registerPlain("race-runner", raceRunner)
	registerPlain("race-engine", raceEngine)
	registerPlain("race-catacomb", raceCatacomb)
	registerPlain("race-workertest", raceWorkertest)
}

var (
	raceSites [1 << 14]uint8
	raceSteps [64]int64
	raceLevel int // set between cases only
)

func installHook() { verifsched.Hook = raceHook }

// raceHook delays without synchronising with anything.
//
//go:norace
func raceHook(site int) {
	if site < len(raceSites) {
		raceSites[site] = 1
	}
	r := rand.Uint32()
	raceSteps[r%64]++
	switch r >> 8 % 64 {
	case 0, 1, 2, 3:
		runtime.Gosched()
	case 4:
		if raceLevel > 0 {
			time.Sleep(time.Duration(r>>16%50) * time.Microsecond)
		}
	case 5:
		if raceLevel > 1 {
			time.Sleep(time.Duration(r>>16%400) * time.Microsecond)
		}
	}
}

//go:norace
func collectSites() {
	n := int64(0)
	for i := range raceSteps {
		n += raceSteps[i]
	}
	steps.Store(n)
	for i := range hits {
		if raceSites[i] != 0 {
			hits[i].Store(true)
		}
	}
}

func nap(us int) {
	if n := rand.IntN(us + 1); n > 0 {
		time.Sleep(time.Duration(n) * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

var (
	errRaceFatal = errors.New("fatal")
	errRaceSoft  = errors.New("soft")
)

// rw is a worker that ends when it's killed, or by itself.
type rw struct {
	once sync.Once
	done chan struct{}
	err  error
	lag  int
	// killErr is what it ends with when it's killed.
	killErr error
}

func newRW(err error, life time.Duration, lag int) *rw {
	w := &rw{done: make(chan struct{}), lag: lag}
	if life > 0 {
		go func() {
			time.Sleep(life)
			w.end(err)
		}()
	}
	return w
}

func (w *rw) end(err error) {
	w.once.Do(func() {
		w.err = err
		close(w.done)
	})
}

func (w *rw) Kill() {
	if w.lag == 0 {
		w.end(w.killErr)
		return
	}
	go func() {
		nap(w.lag)
		w.end(w.killErr)
	}()
}

func (w *rw) Wait() error {
	<-w.done
	return w.err
}

type rrw struct{ *rw }

func (w rrw) Report() map[string]any { return map[string]any{"lag": w.lag} }

func raceWorker(err error) worker.Worker {
	var life time.Duration
	if rand.IntN(2) == 0 {
		life = time.Duration(rand.IntN(1500)+1) * time.Microsecond
	}
	w := newRW(err, life, rand.IntN(3)*100)
	if err == errRaceFatal || rand.IntN(10) == 0 {
		w.killErr = err
	}
	if rand.IntN(2) == 0 {
		return rrw{w}
	}
	return w
}

// read reads everything that can be reached from a result.
func read(v any) int {
	if s, ok := v.(interface{ StackTrace() []string }); ok {
		return len(fmt.Sprint(v, s.StackTrace()))
	}
	return len(fmt.Sprint(v))
}

// tracedErr is an error with a stack trace.
type tracedErr struct{ error }

func (tracedErr) StackTrace() []string { return []string{"a", "b"} }
func (e tracedErr) Unwrap() error      { return e.error }

// lateGetter is a worker that uses its getter when it's waited for, which is
// after its start.
type lateGetter struct {
	worker.Worker
	get dependency.Getter
}

func (w lateGetter) Wait() error {
	read(w.get.Get("a", nil))
	return w.Worker.Wait()
}

// tape is what one goroutine of the workload saw.
type tape []byte

func (t *tape) add(op int, err error) {
	k := byte('.')
	switch {
	case err == nil:
	case errors.Is(err, worker.ErrDead):
		k = 'D'
	case errors.Is(err, worker.ErrAborted):
		k = 'A'
	case errors.Is(err, errRaceSoft):
		k = 's'
	case errors.Is(err, errRaceFatal):
		k = 'f'
	default:
		k = 'e'
	}
	*t = append(*t, byte('0'+op), k)
}

func tapes(ts []tape) string {
	out := ""
	for _, t := range ts {
		out += " " + string(t)
	}
	return out
}

// within runs n goroutines and waits for them.
func within(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i)
		}()
	}
	wg.Wait()
}

// standing starts callers that wait for the end of something, and others that
// keep looking at it until then. The result waits for all of them.
func standing(c *Case, wait func() error, looks ...func()) func() {
	var wg sync.WaitGroup
	for n := c.n(3); n > 0; n-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			read(wait())
			for _, look := range looks {
				look()
			}
		}()
	}
	over := make(chan struct{})
	for n := c.n(3); n > 0; n-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200 && !isClosed(over); i++ {
				looks[rand.IntN(len(looks))]()
				nap(100)
			}
		}()
	}
	return func() {
		close(over)
		wg.Wait()
	}
}

func abortSoon(us int) chan struct{} {
	ch := make(chan struct{})
	go func() {
		nap(us)
		close(ch)
	}()
	return ch
}

func raceRunner(c *Case) {
	raceLevel = c.n(3)
	p := worker.RunnerParams{
		Name:         "race",
		RestartDelay: time.Duration(c.n(500)+1) * time.Microsecond,
		Clock:        clock.WallClock,
	}
	if c.chance(80) {
		p.IsFatal = func(err error) bool { return errors.Is(err, errRaceFatal) }
	}
	if c.chance(50) {
		p.Logger = raceLogger{}
	}
	if c.chance(50) {
		p.ShouldRestart = func(err error) bool { return rand.IntN(4) > 0 }
	}
	if c.chance(50) {
		p.MoreImportant = func(a, b error) bool { return a != b }
	}
	r, err := worker.NewRunner(p)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	ids := []string{"a", "b", "c"}[:1+c.n(3)]
	fatal := c.chance(40)
	join := standing(c, r.Wait, func() { read(r.Report()) }, func() { read(r.WorkerNames()) }, func() {
		w, err := r.Worker(ids[0], abortSoon(100))
		read(err)
		_ = w
	}, func() { read(r.StopAndRemoveWorker(ids[0], abortSoon(100))) })
	n, ops := 3+c.n(5), 4+c.n(20)
	ts := make([]tape, n)
	within(n, func(i int) {
		for k := 0; k < ops; k++ {
			id := ids[rand.IntN(len(ids))]
			switch op := rand.IntN(11); op {
			case 0, 1, 2, 3:
				ctx, cancel := context.WithCancel(context.Background())
				if rand.IntN(4) == 0 {
					go func() {
						nap(300)
						cancel()
					}()
				}
				err := r.StartWorker(ctx, id, func(ctx context.Context) (worker.Worker, error) {
					nap(200)
					ctx.Err()
					ctx.Value(id)
					switch {
					case rand.IntN(5) == 0:
						return nil, errRaceSoft
					case rand.IntN(20) == 0:
						runtime.Goexit()
					case rand.IntN(20) == 0:
						return nil, tracedErr{errRaceSoft}
					case fatal && rand.IntN(20) == 0:
						return nil, errRaceFatal
					case fatal && rand.IntN(10) == 0:
						return raceWorker(errRaceFatal), nil
					case rand.IntN(3) == 0:
						return raceWorker(nil), nil
					}
					return raceWorker(errRaceSoft), nil
				})
				if rand.IntN(3) == 0 {
					cancel()
				}
				ts[i].add(0, err)
				_ = cancel
			case 4:
				ts[i].add(op, r.StopWorker(id))
			case 5, 6:
				w, err := r.Worker(id, abortSoon(400))
				ts[i].add(op, err)
				if err == nil && rand.IntN(4) == 0 {
					w.Kill()
					read(w.Wait())
				}
			case 7:
				ts[i].add(op, r.StopAndRemoveWorker(id, abortSoon(1000)))
			case 8:
				read(r.Report())
			case 9:
				read(r.WorkerNames())
			case 10:
				nap(500)
				if rand.IntN(ops*4) == 0 {
					r.Kill()
				}
			}
		}
	})
	within(3, func(i int) {
		switch i {
		case 0:
			r.Kill()
		case 1:
			read(r.Report())
		}
		read(r.Wait())
		read(r.Report())
		read(r.WorkerNames())
	})
	join()
	c.events += n * ops
	c.checks++
	c.logf("runner: %d goroutines, %d calls each over %v, fatal errors %v:%s", n, ops, ids, fatal, tapes(ts))
}

type raceMetrics struct{}

func (raceMetrics) RecordStart(string) {}

type raceLogger struct{}

func (raceLogger) Tracef(f string, a ...any) { read(fmt.Sprintf(f, a...)) }
func (raceLogger) Debugf(f string, a ...any) { read(fmt.Sprintf(f, a...)) }
func (raceLogger) Infof(f string, a ...any)  { read(fmt.Sprintf(f, a...)) }
func (raceLogger) Errorf(f string, a ...any) { read(fmt.Sprintf(f, a...)) }

func raceEngine(c *Case) {
	raceLevel = c.n(3)
	conf := dependency.EngineConfig{
		IsFatal:          func(err error) bool { return errors.Is(err, errRaceFatal) },
		WorstError:       func(a, b error) error { return a },
		ErrorDelay:       time.Duration(c.n(300)) * time.Microsecond,
		BounceDelay:      time.Duration(c.n(200)) * time.Microsecond,
		BackoffFactor:    []float64{0, 1, 1.2, 10}[c.n(4)],
		BackoffResetTime: time.Millisecond,
		MaxDelay:         2 * time.Millisecond,
		Clock:            clock.WallClock,
		Metrics:          raceMetrics{},
		Logger:           raceLogger{},
	}
	if c.chance(20) {
		conf.MaxDelay = 0
	}
	if c.chance(50) {
		conf.Filter = func(err error) error { return err }
	}
	e, err := dependency.NewEngine(conf)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	fatal := c.chance(40)
	join := standing(c, e.Wait, func() { read(e.Report()) })
	names := []string{"a", "b", "c", "d", "e"}[:2+c.n(4)]
	self := c.chance(30)
	manifold := func(i int) dependency.Manifold {
		m := dependency.Manifold{
			Output: func(in worker.Worker, out any) error {
				if p, ok := out.(*worker.Worker); ok {
					*p = in
				}
				return nil
			},
		}
		for j := 0; j < i; j++ {
			if rand.IntN(2) == 0 {
				m.Inputs = append(m.Inputs, names[j])
			}
		}
		if self && rand.IntN(2) == 0 {
			m.Inputs = append(m.Inputs, "self")
		}
		inputs := m.Inputs
		m.Start = func(ctx context.Context, get dependency.Getter) (worker.Worker, error) {
			for _, in := range inputs {
				if in == "self" {
					var rep dependency.Reporter
					if err := get.Get(in, &rep); err == nil && rand.IntN(3) == 0 {
						go read(rep.Report())
					}
					continue
				}
				if rand.IntN(4) == 0 {
					read(get.Get(in, nil))
					read(get.Get("elsewhere", nil))
				}
				var w worker.Worker
				if err := get.Get(in, &w); err != nil && rand.IntN(2) == 0 {
					return nil, err
				}
			}
			nap(100)
			ctx.Err()
			switch {
			case rand.IntN(20) == 0:
				return nil, tracedErr{errors.New("try again")}
			case rand.IntN(8) == 0:
				return nil, []error{errRaceSoft, dependency.ErrBounce, dependency.ErrMissing, dependency.ErrUninstall}[rand.IntN(4)]
			case fatal && rand.IntN(40) == 0:
				return nil, errRaceFatal
			case fatal && rand.IntN(10) == 0:
				return raceWorker(errRaceFatal), nil
			case rand.IntN(8) == 0:
				return raceWorker([]error{nil, dependency.ErrBounce, dependency.ErrMissing, dependency.ErrUninstall}[rand.IntN(4)]), nil
			case rand.IntN(4) == 0:
				go func() {
					nap(300)
					if ctx.Err() != nil {
						return
					}
					read(ctx.Err())
				}()
			case rand.IntN(8) == 0:
				return lateGetter{raceWorker(errRaceSoft), get}, nil
			}
			return raceWorker(errRaceSoft), nil
		}
		if rand.IntN(8) == 0 {
			m.Output = nil
		}
		if rand.IntN(3) == 0 {
			m.Filter = func(err error) error { return err }
		}
		return m
	}
	n, ops := 2+c.n(4), 4+c.n(12)
	ts := make([]tape, n)
	if self {
		e.Install("self", dependency.SelfManifold(e))
	}
	within(n, func(i int) {
		for k := 0; k < ops; k++ {
			switch rand.IntN(6) {
			case 0, 1, 2:
				j := rand.IntN(len(names))
				ts[i].add(j, e.Install(names[j], manifold(j)))
			case 3:
				read(e.Report())
			case 4:
				nap(800)
			case 5:
				if rand.IntN(ops*4) == 0 {
					e.Kill()
				}
			}
		}
	})
	within(3, func(i int) {
		switch i {
		case 0:
			e.Kill()
		case 1:
			read(e.Report())
		}
		read(e.Wait())
		read(e.Report())
		read(e.Install("late", manifold(0)))
	})
	join()
	c.events += n * ops
	c.checks++
	c.logf("engine: %d goroutines, %d calls each over %v, fatal errors %v, self %v:%s", n, ops, names, fatal, self, tapes(ts))
}

func raceCatacomb(c *Case) {
	raceLevel = c.n(3)
	cat := &catacomb.Catacomb{}
	other := &catacomb.Catacomb{}
	outcome := c.n(4)
	work := func() error {
		nap(500)
		switch outcome {
		case 0:
			return errRaceSoft
		case 1:
			panic("race")
		}
		<-cat.Dying()
		return cat.ErrDying()
	}
	mk := func() worker.Worker {
		switch rand.IntN(4) {
		case 0:
			return workertest.NewErrorWorker(nil)
		case 1:
			return workertest.NewDeadWorker(nil)
		}
		var life time.Duration
		if rand.IntN(2) == 0 {
			life = time.Duration(rand.IntN(500)+1) * time.Microsecond
		}
		var err error
		if rand.IntN(6) == 0 {
			err = errRaceSoft
		}
		return newRW(err, life, rand.IntN(3)*100)
	}
	plan := func() catacomb.Plan {
		p := catacomb.Plan{Name: "race", Site: cat, Work: work}
		for k := rand.IntN(3); k > 0; k-- {
			p.Init = append(p.Init, mk())
		}
		return p
	}
	if c.chance(70) {
		p := plan()
		err := catacomb.Invoke(p)
		// The plan belongs to the caller again.
		for i := range p.Init {
			p.Init[i] = nil
		}
		read(err)
	} else {
		within(2, func(int) { read(catacomb.Invoke(plan())) })
	}
	catacomb.Invoke(catacomb.Plan{Name: "other", Site: other, Work: func() error { <-other.Dying(); return nil }})
	join := standing(c, cat.Wait, func() { read(cat.Err()) }, func() { read(cat.ErrDying()) }, func() { read(cat.Context(context.Background()).Err()) })
	n, ops := 2+c.n(4), 3+c.n(10)
	ts := make([]tape, n)
	within(n, func(i int) {
		for k := 0; k < ops; k++ {
			switch rand.IntN(10) {
			case 0, 1, 2:
				ts[i].add(0, cat.Add(mk()))
			case 3:
				ts[i].add(3, cat.Err())
			case 4:
				read(cat.ErrDying())
			case 5:
				ctx := cat.Context(context.Background())
				nap(100)
				read(ctx.Err())
			case 6:
				select {
				case <-cat.Dying():
				case <-cat.Dead():
				default:
				}
			case 7:
				nap(200)
			case 8:
				switch rand.IntN(12) {
				case 0, 1:
					cat.Kill(errRaceSoft)
				case 2:
					cat.Kill([]error{tomb.ErrDying, tomb.ErrStillAlive, nil}[rand.IntN(3)])
				}
			case 9:
				if rand.IntN(6) == 0 {
					read(catacomb.Invoke(plan()))
				}
			}
		}
	})
	other.Kill(nil)
	within(3, func(i int) {
		if i == 0 {
			cat.Kill(other.ErrDying())
		}
		read(cat.Wait())
		read(cat.Err())
		<-cat.Dead()
	})
	join()
	other.Wait()
	c.events += n * ops
	c.checks++
	c.logf("catacomb: %d goroutines, %d calls each, outcome %d:%s", n, ops, outcome, tapes(ts))
}

type raceSuite struct{ f func(c *gc.C) }

func (s raceSuite) TestIt(c *gc.C) { s.f(c) }

func raceWorkertest(c *Case) {
	raceLevel = c.n(3)
	run := func(f func(c *gc.C)) {
		gc.Run(raceSuite{f}, &gc.RunConf{Output: discard{}})
	}
	n := 0
	run(func(gcc *gc.C) {
		shared := []worker.Worker{workertest.NewErrorWorker(errRaceSoft), workertest.NewDeadWorker(errRaceSoft), workertest.NewErrorWorker(nil)}
		forever := workertest.NewForeverWorker(errRaceSoft)
		fw := workertest.NewFakeWatcher(100, 3)
		g := 3 + c.n(3)
		within(g, func(i int) {
			for k := 0; k < 4; k++ {
				switch rand.IntN(9) {
				case 0:
					read(workertest.CheckKill(gcc, shared[rand.IntN(3)]))
				case 1:
					workertest.DirtyKill(gcc, shared[rand.IntN(3)])
				case 2:
					forever.Kill()
				case 3:
					select {
					case <-worker.Dead(shared[rand.IntN(3)]):
					default:
					}
				case 4:
					fw.Ping()
				case 5:
					select {
					case <-fw.Changes():
					default:
					}
				case 6:
					read(fw.Err())
					read(fw.Stop())
				case 7:
					w := shared[rand.IntN(3)]
					if rand.IntN(10) == 0 {
						read(worker.Stop(w))
					}
				case 8:
					if rand.IntN(3) == 0 {
						forever.ReallyKill()
					}
				}
			}
		})
		n += g * 4
		within(3, func(i int) {
			workertest.DirtyKill(gcc, shared[i])
			forever.ReallyKill()
			read(forever.Wait())
			workertest.CleanKill(gcc, &fw)
		})
		workertest.CheckNilOrKill(gcc, nil)
	})
	c.events += n
	c.checks++
	c.logf("workertest: %d calls", n)
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

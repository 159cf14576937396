package harness

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	jujuerrors "github.com/juju/errors"

	"github.com/juju/worker/v4"
)

func init() {
	register("runner-big", runnerBig)
}

// runnerBig has a runner look after dozens of workers that come and go by
// themselves, in phases of chaos that are followed by a calm in which the
// whole state can be predicted without a model of what happened before.
func runnerBig(c *Case) {
	x := &rBig{c: c, byID: map[string]*rBigID{}}
	x.delay = []time.Duration{1, 100, time.Millisecond, time.Second, 3 * time.Second, time.Hour}[c.n(6)]
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "big",
		Clock:         rClock{c},
		RestartDelay:  x.delay,
		Logger:        rLogger{c},
		IsFatal:       func(err error) bool { return bKind(err) == "fatal" },
		ShouldRestart: func(err error) bool { return bKind(err) != "norestart" },
		MoreImportant: func(a, b error) bool { return bRank(a) > bRank(b) },
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	x.r = r
	n := []int{3, 10, 30, 80}[c.n(4)]
	c.feature(fmt.Sprintf("%d ids", n))
	for i := 0; i < n; i++ {
		id := fmt.Sprint("id", i)
		if i == 1 {
			id = ""
		}
		s := &rBigID{id: id}
		x.ids = append(x.ids, s)
		x.byID[id] = s
	}
	for phase := 1 + c.n(3); phase > 0; phase-- {
		x.chaos()
		x.calm()
		if x.c.tainted {
			break
		}
		if phase > 1 && c.chance(60) {
			x.stopSome()
		}
	}
	x.shutdown()
}

type rBig struct {
	c     *Case
	r     *worker.Runner
	delay time.Duration
	ids   []*rBigID
	byID  map[string]*rBigID
	// rough says how rough workers are: the mean time between ends in
	// milliseconds, 0 in the calm.
	rough atomic.Int64
	nerr  atomic.Int64
	nw    atomic.Int64

	mu     sync.Mutex
	killed bool
	// fatal holds the fatal errors that the runner has got.
	fatal   []error
	live    int
	lastEnd time.Duration
}

type rBigID struct {
	id string
	// Under rBig.mu.
	gen     int // number of successful StartWorkers
	active  int // starts and workers
	cur     *rBigW
	starts  int
	endAt   time.Duration // of the last worker or failed start
	endErr  error
	stopped bool // StopWorker was called since the last StartWorker returned
	over    bool // ended, or to end, for good
	gone    bool // it had been stopped when it ended
	// It was StopAndRemoveWorker that stopped it last.
	removing bool
}

type rBigW struct {
	x       *rBig
	s       *rBigID
	n       int64
	once    sync.Once
	dead    chan struct{}
	err     error
	killErr error
	linger  time.Duration
	killed  atomic.Int64
}

func (w *rBigW) Kill() {
	if w.killed.Add(1) == 1 {
		w.x.c.logf("  kill w%d of %q", w.n, w.s.id)
		x := w.x
		x.mu.Lock()
		if !w.s.stopped && !x.killed && len(x.fatal) == 0 {
			x.mu.Unlock()
			x.c.fail([]string{"C02", "C03"}, "kill", "w%d of %q was killed, though nobody has asked for it", w.n, w.s.id)
		}
		x.mu.Unlock()
		time.AfterFunc(w.linger, func() { w.end(w.killErr) })
	}
}

func (w *rBigW) Wait() error {
	<-w.dead
	return w.err
}

func (w *rBigW) end(err error) {
	w.once.Do(func() {
		x := w.x
		x.mu.Lock()
		defer x.mu.Unlock()
		x.c.logf("  w%d of %q ends: %v", w.n, w.s.id, err)
		w.err = err
		w.s.cur = nil
		x.ended(w.s, err, w.killed.Load() > 0)
		close(w.dead)
	})
}

// ended notes the end of a worker, which may have been killed before, or a
// failed start.
func (x *rBig) ended(s *rBigID, err error, killed bool) {
	s.active--
	x.live--
	s.endAt, s.endErr = x.c.now(), err
	x.lastEnd = s.endAt
	if err != nil && bKind(err) == "fatal" {
		x.fatal = append(x.fatal, err)
	}
	// With a tiny delay it may be restarted before the stop gets through, if
	// that isn't what it died of.
	s.gone = killed || s.stopped && x.delay >= time.Millisecond
	s.over = err == nil || bKind(err) != "restart" || s.stopped || x.killed || len(x.fatal) > 0
}

func (x *rBig) newErr(kinds ...string) error {
	c := x.c
	return &hErr{n: int(x.nerr.Add(1)), kind: kinds[c.hr()%uint64(len(kinds))], rank: int(c.hr() % 1000)}
}

func (x *rBig) start(s *rBigID, gen int) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		c := x.c
		now := c.now()
		x.mu.Lock()
		c.checks++
		s.active++
		x.live++
		s.starts++
		if s.active > 1 {
			x.mu.Unlock()
			c.fail([]string{"C01"}, "double", "%q is started while it's already there", s.id)
		}
		if s.gen > gen {
			x.mu.Unlock()
			c.fail([]string{"C01", "C02", "C03"}, "stale", "the start function of an earlier StartWorker(%q) is called", s.id)
		}
		// A restart that was due when it was stopped may still happen.
		due := s.starts > 1 && now >= s.endAt+x.delay && now <= s.endAt+x.delay+slack
		again := s.endErr != nil && bKind(s.endErr) == "restart"
		if s.starts > 1 && again && !due && !s.over {
			x.mu.Unlock()
			c.fail([]string{"C02"}, "time", "%q is restarted %v after its end, the delay is %v", s.id, now-s.endAt, x.delay)
		}
		if s.starts > 1 && s.over && !(again && due && !s.gone) {
			ids := []string{"C02", "C03"}
			if s.removing {
				ids = append(ids, "C07")
			}
			x.mu.Unlock()
			c.fail(ids, "restart", "%q is restarted after %v, stopped=%v", s.id, s.endErr, s.stopped)
		}
		x.mu.Unlock()
		mean := x.rough.Load()
		if mean > 0 && c.hr()%4 == 0 {
			time.Sleep(time.Duration(c.hr()%2000) * time.Millisecond)
		}
		if mean > 0 && c.hr()%5 == 0 {
			err := x.newErr("restart", "restart", "restart", "norestart")
			x.mu.Lock()
			defer x.mu.Unlock()
			c.logf("  start of %q fails: %v", s.id, err)
			x.ended(s, err, false)
			return nil, err
		}
		w := &rBigW{x: x, s: s, n: x.nw.Add(1), dead: make(chan struct{})}
		if c.hr()%3 == 0 {
			w.linger = time.Duration(c.hr()%3000) * time.Millisecond
		}
		switch c.hr() % 8 {
		case 0:
			w.killErr = x.newErr("restart")
		case 1:
			w.killErr = x.newErr("norestart")
		}
		x.mu.Lock()
		s.cur = w
		x.mu.Unlock()
		c.logf("  %q is up as w%d", s.id, w.n)
		if mean > 0 && c.hr()%8 != 0 {
			var err error
			if c.hr()%10 != 0 {
				err = x.newErr("restart", "restart", "restart", "restart", "norestart")
			}
			time.AfterFunc(time.Duration(c.hr()%uint64(2*mean*1e6)), func() {
				if x.rough.Load() > 0 {
					w.end(err)
				}
			})
		}
		return w, nil
	}
}

func (x *rBig) startWorker(s *rBigID) error {
	x.mu.Lock()
	gen := s.gen + 1
	x.mu.Unlock()
	// Whether the start function runs before StartWorker returns is open.
	err := x.r.StartWorker(context.Background(), s.id, func(ctx context.Context) (worker.Worker, error) {
		x.c.wantLabels("a start function of "+s.id, ctx, "type", "worker", "name", "big", "id", s.id)
		x.mu.Lock()
		if s.gen < gen {
			s.gen, s.starts, s.stopped, s.over = gen, 0, false, false
		}
		x.mu.Unlock()
		return x.start(s, gen)(ctx)
	})
	x.c.logf("StartWorker(%q) = %v", s.id, classify(err))
	if err == nil {
		x.mu.Lock()
		if s.gen < gen {
			s.gen, s.starts, s.stopped, s.over = gen, 0, false, false
		}
		x.mu.Unlock()
	}
	return err
}

func (x *rBig) chaos() {
	c := x.c
	x.rough.Store([]int64{20, 500, 5000}[c.n(3)])
	c.logf("chaos")
	for _, s := range x.ids {
		x.mu.Lock()
		fresh := s.gen == 0
		x.mu.Unlock()
		if fresh || c.chance(50) {
			err := x.startWorker(s)
			if fresh && err != nil {
				c.fail([]string{"C01"}, "start", "StartWorker(%q) = %v", s.id, err)
			}
		}
		if c.chance(20) {
			time.Sleep(time.Duration(c.n(1000)) * time.Millisecond)
		}
	}
	for i := c.n(2 * len(x.ids)); i > 0; i-- {
		s := x.ids[c.n(len(x.ids))]
		if c.chance(50) {
			x.startWorker(s)
		} else {
			c.logf("StopWorker(%q)", s.id)
			x.mu.Lock()
			s.stopped = true
			s.over = true
			x.mu.Unlock()
			x.r.StopWorker(s.id)
		}
		time.Sleep(time.Duration(c.n(500)) * time.Millisecond)
	}
	time.Sleep(time.Duration(c.n(20)) * time.Second)
}

func (x *rBig) calm() {
	c := x.c
	x.rough.Store(0)
	c.logf("calm")
	time.Sleep(x.delay + 10*time.Second)
	c.settle()
	c.checks++
	x.check()
}

// check compares everything there is to see with the workers that are there.
func (x *rBig) check() {
	c := x.c
	var up []string
	got := x.r.WorkerNames()
	sort.Strings(got)
	rep, _ := x.r.Report()["workers"].(map[string]any)
	if len(rep) != len(got) {
		c.foreign([]string{"C08"}, "report", "Report has %d workers, WorkerNames %d", len(rep), len(got))
	}
	for _, s := range x.ids {
		x.mu.Lock()
		cur, over, gen, endErr, stopped := s.cur, s.over, s.gen, s.endErr, s.stopped
		x.mu.Unlock()
		w, err := x.r.Worker(s.id, closedCh)
		if cur == nil {
			if !over && gen > 0 {
				c.fail([]string{"C02"}, "missing", "%q should have been restarted after %v", s.id, endErr)
			}
			if !errors.Is(err, jujuerrors.NotFound) {
				c.fail([]string{"C03", "C06"}, "lookup", "Worker(%q) = %v, %v, it ended with %v, stopped=%v", s.id, w, err, endErr, stopped)
			}
			if _, ok := rep[s.id]; ok {
				c.fail([]string{"C08"}, "report", "Report has %q, which is gone", s.id)
			}
			continue
		}
		up = append(up, s.id)
		if err != nil || w != worker.Worker(cur) {
			c.fail([]string{"C06"}, "lookup", "Worker(%q) = %v, %v, want w%d", s.id, w, err, cur.n)
		}
		r, ok := rep[s.id].(map[string]any)
		if !ok || r["state"] != "started" {
			c.fail([]string{"C08"}, "report", "Report has %v for %q, which is up", rep[s.id], s.id)
		}
	}
	sort.Strings(up)
	if fmt.Sprint(up) != fmt.Sprint(got) || len(up) != len(got) {
		c.fail([]string{"C08"}, "names", "WorkerNames has %d %v, those up are %d %v", len(got), got, len(up), up)
	}
	// Nothing may change by itself any more.
	g := c.gen()
	time.Sleep(10*x.delay + time.Hour)
	c.settle()
	if c.gen() != g {
		c.mu.Lock()
		last := c.log[len(c.log)-1]
		c.mu.Unlock()
		c.fail([]string{"C02", "C03"}, "unrest", "something happened that nobody asked for: %s", last)
	}
}

var closedCh = func() chan struct{} {
	ch := make(chan struct{})
	close(ch)
	return ch
}()

// stopSome stops a part of the workers from several goroutines.
func (x *rBig) stopSome() {
	c := x.c
	abort := make(chan struct{})
	var wg sync.WaitGroup
	hit := map[*rBigID]*rBigW{}
	pct := c.n(101)
	for _, s := range x.ids {
		if !c.chance(pct) {
			continue
		}
		x.mu.Lock()
		hit[s] = s.cur
		s.stopped, s.over = true, true
		cur := s.cur
		x.mu.Unlock()
		how := c.n(3)
		x.mu.Lock()
		s.removing = how > 0
		x.mu.Unlock()
		c.logf("stop %q, way %d", s.id, how)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.jitter()
			switch how {
			case 0:
				if err := x.r.StopWorker(s.id); err != nil {
					c.fail([]string{"C03", "C09"}, "stop", "StopWorker(%q) = %v", s.id, err)
				}
			default:
				err := x.r.StopAndRemoveWorker(s.id, abort)
				if cur == nil {
					if !errors.Is(err, jujuerrors.NotFound) {
						c.fail([]string{"C07"}, "remove", "StopAndRemoveWorker(%q) = %v, there's no such worker", s.id, err)
					}
				} else {
					select {
					case <-cur.dead:
					default:
						c.fail([]string{"C07"}, "remove", "StopAndRemoveWorker(%q) = %v though its worker is still there", s.id, err)
					}
					if !same(err, cur.killErr) {
						c.fail([]string{"C07"}, "remove", "StopAndRemoveWorker(%q) = %v, the worker ended with %v", s.id, err, cur.killErr)
					}
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	time.Sleep(10 * time.Second)
	c.settle()
	if !isClosed(done) {
		c.fail([]string{"C07", "C09"}, "hang", "a stop doesn't return though all workers have ended")
	}
	for s, w := range hit {
		if w != nil && !isClosed(w.dead) {
			c.fail([]string{"C03"}, "stop", "w%d of %q hasn't been killed", w.n, s.id)
		}
	}
	x.check()
	// The ids are free now.
	for s := range hit {
		if c.chance(50) {
			if err := x.startWorker(s); err != nil {
				c.fail([]string{"C01", "C03"}, "again", "StartWorker(%q) = %v after it was stopped", s.id, err)
			}
		}
	}
}

func (x *rBig) shutdown() {
	c := x.c
	waited := make(chan struct{})
	var werr error
	var deadAt time.Duration
	var left int
	go func() {
		werr = x.r.Wait()
		x.mu.Lock()
		left = x.live
		deadAt = c.now()
		x.mu.Unlock()
		c.logf("  Wait = %v", werr)
		close(waited)
	}()
	if c.chance(50) {
		x.rough.Store([]int64{20, 500, 5000}[c.n(3)])
	}
	for _, s := range x.ids {
		if c.chance(30) {
			x.startWorker(s)
		}
	}
	how := c.n(3)
	if how >= 1 {
		// Several workers fail fatally, at about the same time.
		for i := 1 + c.n(5); i > 0; i-- {
			s := x.ids[c.n(len(x.ids))]
			x.mu.Lock()
			w := s.cur
			x.mu.Unlock()
			if w != nil {
				err := x.newErr("fatal")
				time.AfterFunc(time.Duration(c.n(3))*time.Microsecond, func() { w.end(err) })
			}
		}
	}
	if how <= 1 {
		time.Sleep(time.Duration(c.n(3)) * time.Microsecond)
		x.mu.Lock()
		x.killed = true
		x.mu.Unlock()
		c.logf("Kill")
		x.r.Kill()
	}
	time.Sleep(10 * time.Second)
	if !isClosed(waited) && how == 2 {
		// There may have been no worker to fail.
		x.mu.Lock()
		nf := len(x.fatal)
		x.killed = true
		x.mu.Unlock()
		if nf > 0 {
			c.fail([]string{"C04"}, "hang", "the runner doesn't end after a fatal error")
		}
		c.logf("Kill")
		x.r.Kill()
		time.Sleep(10 * time.Second)
	}
	c.settle()
	c.checks++
	if !isClosed(waited) {
		c.fail([]string{"C04"}, "hang", "the runner doesn't end, %d workers and starts are left", x.live)
	}
	if left > 0 {
		c.fail([]string{"C04"}, "early", "Wait returned at %v, when %d workers or starts were there", deadAt, left)
	}
	best := -1
	for _, err := range x.fatal {
		best = max(best, bRank(err))
	}
	switch {
	case len(x.fatal) == 0 && werr != nil:
		c.fail([]string{"C05"}, "error", "Wait = %v, there was no fatal error", werr)
	case len(x.fatal) > 0 && (werr == nil || bKind(werr) != "fatal" || bRank(werr) != best):
		c.fail([]string{"C05"}, "error", "Wait = %v, the fatal errors were %v", werr, x.fatal)
	}
	// Whatever is asked of it now is answered.
	if err := x.r.StartWorker(context.Background(), "late", nil); err != worker.ErrDead {
		c.fail([]string{"C09"}, "dead", "StartWorker = %v on a dead runner", err)
	}
	if err := x.r.StopWorker("late"); err != worker.ErrDead {
		c.fail([]string{"C09"}, "dead", "StopWorker = %v on a dead runner", err)
	}
	if n := x.r.WorkerNames(); len(n) > 0 {
		c.fail([]string{"C08"}, "names", "WorkerNames = %v on a dead runner", n)
	}
	c.checkLeaks()
}

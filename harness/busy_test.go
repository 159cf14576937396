package harness

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
)

func init() {
	register("runner-busy", runnerBusy)
}

// runnerBusy checks which methods of a runner go on working while the runner
// is held up by one of its callbacks, and that the rest do so as soon as it is
// over.
func runnerBusy(c *Case) {
	var r *worker.Runner
	var gates atomic.Int64
	var gateLen atomic.Int64
	var last atomic.Int64 // when the last callback ended or will end
	props := []string{"C09"}
	hold := func(what string) {
		d := time.Duration(gateLen.Swap(0))
		switch c.hr() % 6 {
		case 0:
			r.WorkerNames()
		case 1:
			r.Report()
		}
		if d == 0 {
			return
		}
		gates.Add(1)
		last.Store(int64(c.now() + d))
		c.logf("  %s takes %v", what, d)
		time.Sleep(d)
		gates.Add(-1)
	}
	delay := []time.Duration{time.Millisecond, time.Second, time.Hour}[c.n(3)]
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "busy",
		Clock:         rClock{c},
		RestartDelay:  delay,
		IsFatal:       func(err error) bool { hold("IsFatal"); return bKind(err) == "fatal" },
		ShouldRestart: func(err error) bool { hold("ShouldRestart"); return bKind(err) != "norestart" },
		MoreImportant: func(a, b error) bool { hold("MoreImportant"); return bRank(a) > bRank(b) },
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	type op struct {
		what  string
		at    time.Duration
		due   time.Duration // when it must have returned; 0: once the runner is free
		took  time.Duration
		done  atomic.Bool
		props []string
		check func(err error) string
		err   error
	}
	var ops []*op
	start := func(what string, props []string, limit time.Duration, run func() error, check func(err error) string) {
		o := &op{what: what, at: c.now(), props: props, check: check}
		if limit >= 0 {
			o.due = o.at + limit + slack
		}
		ops = append(ops, o)
		c.logf("%s", what)
		go func() {
			o.err = run()
			o.took = c.now() - o.at
			c.logf("  ret %s = %s", what, classify(o.err))
			o.done.Store(true)
		}()
	}
	check := func() {
		now := c.now()
		c.checks++
		for _, o := range ops {
			if o.done.Load() {
				if o.due != 0 && o.at+o.took > o.due {
					c.fail(o.props, "slow", "%s took %v; it should have returned %v", o.what, o.took, o.due-o.at)
				}
				if o.check != nil {
					if s := o.check(o.err); s != "" {
						c.fail(o.props, "result", "%s = %v: %s", o.what, o.err, s)
					}
				}
				continue
			}
			if o.due != 0 && now > o.due {
				c.fail(o.props, "hang", "%s should have returned by %v", o.what, o.due)
			}
		}
	}
	ids := []string{"a", "b", "c"}
	ws := map[string]*bWorker{}
	fn := func(id string) worker.StartFunc {
		return func(context.Context) (worker.Worker, error) {
			w := &bWorker{c: c, id: id, dead: make(chan struct{})}
			c.mu.Lock()
			ws[id] = w
			c.mu.Unlock()
			return w, nil
		}
	}
	current := func() []*bWorker {
		c.mu.Lock()
		defer c.mu.Unlock()
		var out []*bWorker
		for _, id := range ids {
			if w := ws[id]; w != nil {
				select {
				case <-w.dead:
				default:
					out = append(out, w)
				}
			}
		}
		return out
	}
	for _, id := range ids[:1+c.n(3)] {
		if err := r.StartWorker(context.Background(), id, fn(id)); err != nil {
			c.fail([]string{"C01"}, "start", "StartWorker = %v", err)
		}
	}
	c.settle()
	nerr := 0
	killed := false
	for round := 2 + c.n(5); round > 0; round-- {
		if w := current(); len(w) > 0 {
			w := w[c.n(len(w))]
			nerr++
			kind := c.oneOf("restart", "restart", "norestart")
			if round <= 1 && c.chance(30) {
				kind, killed = "fatal", true
			}
			gateLen.Store(int64(10*time.Second) + int64(c.n(10000))*int64(time.Millisecond))
			w.end(&hErr{nerr, kind, c.n(3), nil})
			c.logf("%s ends", w.id)
		}
		c.settle()
		c.feature(fmt.Sprint("held-", gates.Load()))
		for k := 1 + c.n(6); k > 0; k-- {
			id := ids[c.n(len(ids))]
			switch c.n(9) {
			case 0:
				d := time.Duration(c.n(4)) * time.Second
				ctx, cancel := context.WithTimeout(context.Background(), d)
				if c.chance(30) {
					cancel()
					d = 0
				}
				start(fmt.Sprintf("StartWorker(%s) for %v", id, d), []string{"C09", "C01"}, d, func() error {
					defer cancel()
					return r.StartWorker(ctx, id, fn(id))
				}, nil)
			case 1:
				start("StartWorker("+id+")", props, -1, func() error { return r.StartWorker(context.Background(), id, fn(id)) }, nil)
			case 2:
				start("StopWorker("+id+")", props, -1, func() error { return r.StopWorker(id) }, nil)
			case 3, 4:
				d := time.Duration(c.n(4)) * time.Second
				abort := make(chan struct{})
				go func() { time.Sleep(d); close(abort) }()
				start(fmt.Sprintf("Worker(%s) for %v", id, d), []string{"C06", "C09"}, d, func() error {
					w, err := r.Worker(id, abort)
					if err == nil && w == nil {
						return errors.New("no worker and no error")
					}
					return err
				}, func(err error) string {
					switch classify(err) {
					case "nil", "notfound", "dead", "aborted":
						return ""
					}
					return "unexpected"
				})
			case 5, 6:
				d := time.Duration(c.n(4)) * time.Second
				abort := make(chan struct{})
				go func() { time.Sleep(d); close(abort) }()
				start(fmt.Sprintf("StopAndRemoveWorker(%s) for %v", id, d), []string{"C07", "C09"}, d, func() error {
					return r.StopAndRemoveWorker(id, abort)
				}, nil)
			case 7:
				start("Report", []string{"C08", "C09"}, 0, func() error { r.Report(); return nil }, nil)
			case 8:
				start("WorkerNames", []string{"C08", "C09"}, 0, func() error { r.WorkerNames(); return nil }, nil)
			}
			if c.chance(30) {
				c.settle()
				check()
			}
		}
		if round == 1 && c.chance(50) {
			killed = true
			start("Kill", []string{"C09", "C04"}, 0, func() error { r.Kill(); return nil }, nil)
		}
		for k := c.n(3); k > 0; k-- {
			time.Sleep(time.Duration(c.n(3000)) * time.Millisecond)
			c.settle()
			check()
		}
		if c.chance(70) {
			// Let it get free.
			c.settle()
			for {
				d := time.Duration(last.Load()) - c.now()
				if d < 0 {
					break
				}
				time.Sleep(d + 10*time.Millisecond)
				c.settle()
			}
			check()
			for _, o := range ops {
				if o.due == 0 && !o.done.Load() {
					c.fail(o.props, "hang", "%s hangs, though the runner is free", o.what)
				}
			}
		}
	}
	if !killed {
		start("Kill", []string{"C09", "C04"}, 0, func() error { r.Kill(); return nil }, nil)
	}
	c.settle()
	check()
	start("Wait", []string{"C04", "C09"}, -1, r.Wait, nil)
	for i := 0; i < 5; i++ {
		time.Sleep(time.Minute)
		c.settle()
	}
	check()
	for _, o := range ops {
		if !o.done.Load() {
			c.fail(append(o.props, "C04"), "hang", "%s hangs for good", o.what)
		}
	}
	if ws := current(); len(ws) > 0 {
		c.fail([]string{"C04"}, "state", "the runner has ended, but the worker of %s hasn't", ws[0].id)
	}
	c.checkLeaks("C09")
}

func bKind(err error) string {
	if e, ok := err.(*hErr); ok {
		return e.kind
	}
	return "fatal"
}

func bRank(err error) int {
	if e, ok := err.(*hErr); ok {
		return e.rank
	}
	return 100
}

type bWorker struct {
	c    *Case
	id   string
	dead chan struct{}
	once atomic.Bool
	err  error
}

func (w *bWorker) Kill() { w.end(nil) }

func (w *bWorker) Wait() error {
	<-w.dead
	return w.err
}

func (w *bWorker) end(err error) {
	if w.once.CompareAndSwap(false, true) {
		w.err = err
		close(w.dead)
	}
}

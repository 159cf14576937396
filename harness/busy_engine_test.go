package harness

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("engine-busy", engineBusy)
}

// engineBusy checks which methods of an engine go on working while it is held
// up by a callback, by a worker that takes its time to be killed or to report,
// or by the metrics, and that the rest do so as soon as that is over.
func engineBusy(c *Case) {
	x := &eBusy{c: c, ws: map[string]*eBusyWorker{}}
	delay := []time.Duration{0, time.Millisecond, time.Second, time.Hour}[c.n(4)]
	bounce := []time.Duration{0, time.Millisecond, time.Second}[c.n(3)]
	var err error
	x.e, err = dependency.NewEngine(dependency.EngineConfig{
		IsFatal: func(err error) bool { x.hold("IsFatal"); return err != nil && strings.Contains(err.Error(), "fatal") },
		WorstError: func(a, b error) error {
			x.hold("WorstError")
			if b != nil {
				return b
			}
			return a
		},
		ErrorDelay: delay, BounceDelay: bounce,
		Clock: rClock{c}, Metrics: x, Logger: eLogger{c},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	n := 1 + c.n(4)
	for i := 0; i < n; i++ {
		x.install(x.manifold())
	}
	c.settle()
	time.Sleep(3 * time.Second)
	c.settle()
	x.check()
	for round := 2 + c.n(4); round > 0; round-- {
		// Something that holds up the engine.
		x.gateLen.Store(int64(10*time.Second) + int64(c.n(10000))*int64(time.Millisecond))
		ws := x.current()
		switch k := c.n(5); {
		case k < 3 && len(ws) > 0:
			w := ws[c.n(len(ws))]
			kind := c.oneOf("restart", "bounce", "missing", "clean")
			if round == 1 && c.chance(40) {
				kind = "fatal"
				x.killed.Store(true)
			}
			var err error
			x.nerr++
			switch kind {
			case "bounce":
				err = dependency.ErrBounce
			case "missing":
				err = dependency.ErrMissing
			case "clean":
			default:
				err = fmt.Errorf("%s %d", kind, x.nerr)
			}
			c.logf("%s ends: %v", w.name, err)
			w.end(err)
		case k == 3:
			x.report()
		default:
			x.install(x.manifold())
		}
		c.settle()
		c.feature(fmt.Sprint("held-", x.gates.Load()))
		for k := 1 + c.n(6); k > 0; k-- {
			switch c.n(5) {
			case 0, 1:
				x.install(x.manifold())
			case 2, 3:
				x.report()
			case 4:
				// The name is taken, or will be.
				if len(x.names) > 0 {
					x.install(x.names[c.n(len(x.names))], dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
						return nil, dependency.ErrMissing
					}})
				}
			}
			if c.chance(30) {
				c.settle()
				x.check()
			}
		}
		if round == 1 && c.chance(60) {
			x.kill()
			if c.chance(50) {
				x.report()
				x.install(x.manifold())
			}
		}
		for k := c.n(3); k > 0; k-- {
			time.Sleep(time.Duration(c.n(3000)) * time.Millisecond)
			c.settle()
			x.check()
		}
		if c.chance(70) {
			x.free()
		}
	}
	x.kill()
	c.settle()
	x.check()
	x.start("Wait", "C16", -1, func() string {
		if err := x.e.Wait(); err != nil && !strings.HasPrefix(err.Error(), "fatal") {
			return fmt.Sprintf("unexpected error %v", err)
		}
		return ""
	})
	for i := 0; i < 8; i++ {
		time.Sleep(time.Minute)
		c.settle()
	}
	x.check()
	for _, o := range x.all() {
		if !o.done.Load() {
			c.fail([]string{"C36", "C16", o.prop}, "hang", "%s hangs for good", o.what)
		}
	}
	if ws := x.current(); len(ws) > 0 {
		c.fail([]string{"C16"}, "state", "the engine has ended, but the worker of %s hasn't", ws[0].name)
	}
	// It's dead.
	x.report()
	x.kill()
	x.install(x.manifold())
	c.settle()
	x.check()
	c.checkLeaks("C36")
}

type eBusy struct {
	c       *Case
	e       *dependency.Engine
	nerr    int
	names   []string
	gates   atomic.Int64
	gateLen atomic.Int64
	last    atomic.Int64 // when the last callback ended or will end
	killed  atomic.Bool
	killAt  atomic.Int64

	mu  sync.Mutex
	ws  map[string]*eBusyWorker
	ops []*eBusyOp
}

type eBusyOp struct {
	what string
	prop string
	at   time.Duration
	due  time.Duration // when it must have returned; 0: once the engine is free
	// onKill says that it must return as soon as the engine is dying.
	onKill bool
	took   time.Duration
	done   atomic.Bool
	wrong  string
}

func (x *eBusy) RecordStart(string) { x.hold("RecordStart") }

// hold makes what is happening take some time, if that is wanted.
func (x *eBusy) hold(what string) {
	d := time.Duration(x.gateLen.Swap(0))
	if d == 0 {
		return
	}
	x.gates.Add(1)
	for end := int64(x.c.now() + d); ; {
		if last := x.last.Load(); last >= end || x.last.CompareAndSwap(last, end) {
			break
		}
	}
	x.c.logf("  %s takes %v", what, d)
	time.Sleep(d)
	x.gates.Add(-1)
}

// manifold makes a new one.
func (x *eBusy) manifold() (string, dependency.Manifold) {
	c := x.c
	name := fmt.Sprint("m", len(x.names))
	var inputs []string
	for _, n := range x.names {
		if c.chance(30) {
			inputs = append(inputs, n)
		}
	}
	x.names = append(x.names, name)
	what := c.n(8)
	slow := time.Duration(0)
	if c.chance(20) {
		slow = time.Duration(c.n(5000)) * time.Millisecond
	}
	var once atomic.Bool
	return name, dependency.Manifold{
		Inputs: inputs,
		Filter: func(err error) error { x.hold("Filter"); return err },
		Output: func(in worker.Worker, out any) error { return nil },
		Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			at := c.now()
			for _, in := range inputs {
				g.Get(in, nil)
				g.Get(in, new(int))
			}
			if d := c.now() - at; d > slack {
				c.fail([]string{"C36", "C13"}, "slow", "asking for inputs took the start function of %s %v", name, d)
			}
			if slow > 0 {
				time.Sleep(slow)
			}
			if once.CompareAndSwap(false, true) {
				// The engine can be used from start functions.
				switch what {
				case 0:
					o := x.op("Report by the start of "+name, "C18", -1, false)
					x.run(o, func() string { return reportWrong(x.e.Report()) })
				case 1:
					o := x.op("Install by the start of "+name, "C11", -1, true)
					x.run(o, func() string {
						err := x.e.Install("sub-"+name, dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
							return nil, dependency.ErrMissing
						}})
						if err != nil && !x.killed.Load() {
							return fmt.Sprintf("failed: %v", err)
						}
						return ""
					})
				}
			}
			w := &eBusyWorker{x: x, name: name, dead: make(chan struct{})}
			x.mu.Lock()
			old := x.ws[name]
			x.ws[name] = w
			x.mu.Unlock()
			if old != nil && !old.once.Load() {
				c.fail([]string{"C10"}, "state", "%s is started while its worker is there", name)
			}
			return w, nil
		},
	}
}

func (x *eBusy) current() []*eBusyWorker {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []*eBusyWorker
	for _, n := range x.names {
		if w := x.ws[n]; w != nil && !w.once.Load() {
			out = append(out, w)
		}
	}
	return out
}

func (x *eBusy) all() []*eBusyOp {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*eBusyOp(nil), x.ops...)
}

func (x *eBusy) op(what, prop string, limit time.Duration, onKill bool) *eBusyOp {
	o := &eBusyOp{what: what, prop: prop, at: x.c.now(), onKill: onKill}
	if limit >= 0 {
		o.due = o.at + limit + slack
	}
	x.mu.Lock()
	x.ops = append(x.ops, o)
	x.mu.Unlock()
	x.c.logf("%s", what)
	return o
}

func (x *eBusy) run(o *eBusyOp, f func() string) {
	o.wrong = f()
	o.took = x.c.now() - o.at
	x.c.logf("  ret %s %s", o.what, o.wrong)
	o.done.Store(true)
}

func (x *eBusy) start(what, prop string, limit time.Duration, f func() string) {
	o := x.op(what, prop, limit, strings.HasPrefix(what, "Install"))
	go x.run(o, f)
}

func (x *eBusy) kill() {
	x.killed.Store(true)
	x.killAt.CompareAndSwap(0, int64(x.c.now()))
	x.start("Kill", "C16", 0, func() string { x.e.Kill(); return "" })
}

func (x *eBusy) report() {
	x.start("Report", "C18", -1, func() string { return reportWrong(x.e.Report()) })
}

func reportWrong(r map[string]any) string {
	if _, ok := r[dependency.KeyState].(string); !ok {
		return fmt.Sprintf("no state in %v", r)
	}
	if _, ok := r[dependency.KeyManifolds].(map[string]any); !ok {
		return fmt.Sprintf("no manifolds in %v", r)
	}
	return ""
}

func (x *eBusy) install(name string, m dependency.Manifold) {
	limit := time.Duration(-1)
	if at := x.killAt.Load(); at != 0 && x.c.now() > time.Duration(at)+slack {
		limit = 0
	}
	x.start("Install("+name+")", "C11", limit, func() string {
		err := x.e.Install(name, m)
		if err != nil && !x.killed.Load() && !strings.Contains(err.Error(), "already") {
			return fmt.Sprintf("failed: %v", err)
		}
		return ""
	})
}

func (x *eBusy) check() {
	c := x.c
	now := c.now()
	c.checks++
	for _, o := range x.all() {
		due := o.due
		if at := time.Duration(x.killAt.Load()); due == 0 && o.onKill && at != 0 {
			// The engine takes no more of them.
			due = max(o.at, at) + slack
		}
		if o.done.Load() {
			if o.due != 0 && o.at+o.took > o.due {
				c.fail([]string{"C36", o.prop}, "slow", "%s took %v; it should have returned within %v", o.what, o.took, o.due-o.at)
			}
			if o.wrong != "" {
				c.fail([]string{"C36", o.prop}, "result", "%s: %s", o.what, o.wrong)
			}
			continue
		}
		if due != 0 && now > due {
			c.fail([]string{"C36", o.prop}, "hang", "%s should have returned by %v", o.what, due)
		}
	}
}

// free waits until nothing holds up the engine.
func (x *eBusy) free() {
	c := x.c
	x.gateLen.Store(0)
	c.settle()
	for {
		d := time.Duration(x.last.Load()) - c.now()
		if d < 0 {
			break
		}
		time.Sleep(d + 10*time.Millisecond)
		c.settle()
	}
	// Start functions may call after having slept.
	time.Sleep(6 * time.Second)
	c.settle()
	x.check()
	for _, o := range x.all() {
		if o.due == 0 && !o.done.Load() && o.what != "Wait" {
			c.fail([]string{"C36", o.prop}, "hang", "%s hangs, though the engine is free", o.what)
		}
	}
}

type eBusyWorker struct {
	x    *eBusy
	name string
	dead chan struct{}
	once atomic.Bool
	err  error
}

func (w *eBusyWorker) Kill() {
	if !w.once.Load() {
		w.x.hold("Kill of " + w.name)
	}
	w.end(nil)
}

func (w *eBusyWorker) Wait() error {
	<-w.dead
	return w.err
}

func (w *eBusyWorker) Report() map[string]any {
	w.x.hold("Report of " + w.name)
	return map[string]any{"name": w.name}
}

func (w *eBusyWorker) end(err error) {
	if w.once.CompareAndSwap(false, true) {
		w.err = err
		close(w.dead)
	}
}

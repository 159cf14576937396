package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("engine-self", engineSelf)
}

// selfWorker is the worker of a manifold that uses the engine that runs it.
type selfWorker struct {
	n      int
	user   *selfUser
	killed atomic.Int32
	dead   chan struct{}
	once   sync.Once
	err    error
	slow   time.Duration
	x      *selfCase
}

func (w *selfWorker) Kill() {
	if w.killed.Add(1) == 1 {
		w.x.c.logf("  kill w%d (%s)", w.n, w.user.name)
		go func() {
			time.Sleep(w.slow)
			w.end(nil)
		}()
	}
}

func (w *selfWorker) Wait() error {
	<-w.dead
	return w.err
}

func (w *selfWorker) end(err error) {
	w.once.Do(func() {
		w.x.c.logf("  w%d (%s) ends: %v", w.n, w.user.name, err)
		w.err = err
		close(w.dead)
	})
}

func (w *selfWorker) over() bool {
	select {
	case <-w.dead:
		return true
	default:
		return false
	}
}

func (w *selfWorker) Report() map[string]any { return map[string]any{"worker": w.n} }

// selfUser is a manifold that depends on the engine's own.
type selfUser struct {
	name   string
	inputs []string
	// installs is what its start function installs.
	installs []string
	reports  bool
	needs    bool
	ws       []*selfWorker
	starts   int
}

type selfCase struct {
	c     *Case
	mu    sync.Mutex
	e     *dependency.Engine
	conf  dependency.EngineConfig
	self  string
	users map[string]*selfUser
	order []string
	nw    int
	// installed says which names Install has accepted.
	installed map[string]bool
	refused   map[string]bool
	got       []dependency.Installer
	rep       []dependency.Reporter
	fatal     error
	strict    bool
	killed    bool
	// alias is another name for the engine, if any.
	alias string
	// nested is the name of the manifold of another engine, if any.
	nested string
}

type selfErr struct{ fatal bool }

func (e *selfErr) Error() string { return fmt.Sprint("self error, fatal=", e.fatal) }

func (x *selfCase) isFatal(err error) bool {
	var e *selfErr
	if errors.As(err, &e) {
		return e.fatal
	}
	// Whatever isn't the outcome of a worker of this workload is fatal.
	return x.strict && err != nil && !errors.Is(err, dependency.ErrMissing)
}

// probe asks for the engine in all ways that must and mustn't work.
func (x *selfCase) probe(get func(any) error, where string) {
	c := x.c
	fail := func(f string, a ...any) {
		c.fail([]string{"C21"}, "self", "%s: "+f, append([]any{where}, a...)...)
	}
	var inst dependency.Installer
	var rep dependency.Reporter
	if err := get(&inst); err != nil || inst != dependency.Installer(x.e) {
		fail("as an installer: %v, %v", inst, err)
	}
	if err := get(&rep); err != nil || rep != dependency.Reporter(x.e) {
		fail("as a reporter: %v, %v", rep, err)
	}
	x.mu.Lock()
	x.got, x.rep = append(x.got, inst), append(x.rep, rep)
	x.mu.Unlock()
	// Others.
	var e *dependency.Engine
	var w worker.Worker
	var a any
	var wr worker.Reporter
	var both interface {
		dependency.Installer
		dependency.Reporter
	}
	var kill interface{ Kill() }
	var pi *dependency.Installer
	s := "?"
	targets := []any{&e, &w, &a, &wr, &both, &kill, &pi, &s, s, 5, inst, rep, x.e, struct{}{}, func() {}}
	for _, i := range []int{c.n(len(targets)), c.n(len(targets)), c.n(len(targets))} {
		if err := get(targets[i]); err == nil {
			fail("as a %T: accepted", targets[i])
		} else if errors.Is(err, dependency.ErrMissing) {
			fail("as a %T: said to be missing", targets[i])
		}
	}
	if e != nil || w != nil || a != nil || wr != nil || both != nil || kill != nil || pi != nil || s != "?" {
		fail("a target that was refused was set: %v %v %v %v %v %v %v %v", e, w, a, wr, both, kill, pi, s)
	}
	c.mu.Lock()
	c.checks++
	c.mu.Unlock()
}

func (x *selfCase) manifold(u *selfUser) dependency.Manifold {
	c := x.c
	return dependency.Manifold{
		Inputs: u.inputs,
		Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			x.mu.Lock()
			u.starts++
			x.mu.Unlock()
			c.logf("  start %s", u.name)
			up := true
			if err := g.Get(x.self, nil); err != nil {
				up = false
				if !errors.Is(err, dependency.ErrMissing) {
					c.fail([]string{"C21", "C13"}, "self", "Get(%q, nil) = %v", x.self, err)
				}
			}
			if !up && u.needs {
				return nil, fmt.Errorf("no engine: %w", dependency.ErrMissing)
			}
			if up {
				x.probe(func(t any) error { return g.Get(x.self, t) }, "in the start of "+u.name)
				var inst dependency.Installer
				var rep dependency.Reporter
				g.Get(x.self, &inst)
				g.Get(x.self, &rep)
				if u.reports {
					x.checkReport(rep.Report(), u.name, "in the start of "+u.name)
				}
				for _, n := range u.installs {
					x.install(inst, n)
				}
				if u.reports {
					x.checkReport(rep.Report(), u.name, "in the start of "+u.name)
				}
			}
			x.mu.Lock()
			defer x.mu.Unlock()
			w := &selfWorker{n: x.nw, user: u, dead: make(chan struct{}), x: x}
			x.nw++
			if c.hr()%3 == 0 {
				w.slow = time.Duration(c.hr()%1000) * time.Millisecond
			}
			u.ws = append(u.ws, w)
			c.logf("  %s makes w%d", u.name, w.n)
			return w, nil
		},
	}
}

// install calls Install and checks its result.
func (x *selfCase) install(inst dependency.Installer, name string) {
	c := x.c
	x.mu.Lock()
	u := x.users[name]
	x.mu.Unlock()
	err := inst.Install(name, x.manifold(u))
	c.logf("  install %s = %v", name, err)
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		x.refused[name] = true
		return
	}
	if x.installed[name] {
		c.fail([]string{"C11"}, "self", "second install of %s accepted", name)
	}
	x.installed[name] = true
}

// checkReport checks a report of the engine. who is in its start function.
func (x *selfCase) checkReport(rep map[string]any, who, where string) {
	c := x.c
	fail := func(f string, a ...any) {
		c.fail([]string{"C21", "C18"}, "self-report", "%s: "+f+": %v", append(append([]any{where}, a...), rep)...)
	}
	ms, _ := rep[dependency.KeyManifolds].(map[string]any)
	if ms == nil {
		fail("no manifolds")
	}
	engines := 1
	if x.nested != "" {
		if m, _ := ms[x.nested].(map[string]any); m != nil && m[dependency.KeyReport] != nil {
			engines++
		}
	}
	if strings.Count(fmt.Sprint(rep), dependency.KeyManifolds+":") != engines {
		fail("it recurses")
	}
	if who != "" {
		m, _ := ms[who].(map[string]any)
		if st := fmt.Sprint(m[dependency.KeyState]); m == nil || st != "starting" {
			fail("%s is %q", who, st)
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, self := range []string{x.self, x.alias} {
		m, _ := ms[self].(map[string]any)
		if m == nil {
			if x.installed[self] {
				fail("the engine isn't in it as %q", self)
			}
			continue
		}
		if m[dependency.KeyReport] != nil {
			fail("the engine has a report in itself")
		}
		if n, ok := m[dependency.KeyStartCount]; ok && n != 1 {
			fail("the engine has been started %v times", n)
		}
		st := fmt.Sprint(m[dependency.KeyState])
		if who != "" && self == x.self && !x.killed && x.fatal == nil && st != "started" {
			fail("the engine is %q in itself, though it has just been used", st)
		}
	}
}

func engineSelf(c *Case) {
	x := &selfCase{c: c, users: map[string]*selfUser{}, installed: map[string]bool{}, refused: map[string]bool{}, self: []string{"self", "self", "engine", "", "me/again"}[c.n(5)], strict: c.chance(60)}
	x.conf = dependency.EngineConfig{
		IsFatal:       x.isFatal,
		WorstError:    func(a, b error) error { return a },
		ErrorDelay:    []time.Duration{0, 20 * time.Millisecond, 3 * time.Second}[c.n(3)],
		BounceDelay:   []time.Duration{0, 10 * time.Millisecond, time.Second}[c.n(3)],
		BackoffFactor: []float64{0, 1, 1.5}[c.n(3)],
		MaxDelay:      5 * time.Second,
		Clock:         rClock{c},
		Metrics:       nopMetrics{},
		Logger:        eLogger{c},
	}
	e, err := dependency.NewEngine(x.conf)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	x.e = e
	self := dependency.SelfManifold(e)
	if len(self.Inputs) != 0 || self.Start == nil || self.Output == nil {
		c.fail([]string{"C21"}, "self", "SelfManifold is %+v", self)
	}
	if self.Output(newSelfDummy(), new(dependency.Installer)) == nil {
		c.fail([]string{"C21"}, "self", "Output accepts another worker as the engine")
	}
	x.probe(func(t any) error { return self.Output(e, t) }, "Output")
	if c.chance(25) {
		x.alias = "alias"
	}
	if c.chance(40) {
		x.nested = "nested"
		if x.self != "self" && c.chance(50) {
			x.nested = "self"
		}
	}
	c.logf("self is %q, alias %q, nested %q", x.self, x.alias, x.nested)
	n := 1 + c.n(5)
	for i := 0; i < n; i++ {
		u := &selfUser{name: fmt.Sprintf("u%d", i), reports: c.chance(50), needs: c.chance(60)}
		if c.chance(85) {
			u.inputs = append(u.inputs, x.self)
		}
		for j := 0; j < i; j++ {
			if c.chance(30) {
				u.inputs = append(u.inputs, fmt.Sprintf("u%d", j))
			}
		}
		for j := 0; j < n; j++ {
			if c.chance(25) {
				u.installs = append(u.installs, fmt.Sprintf("u%d", j))
			}
		}
		x.users[u.name] = u
		x.order = append(x.order, u.name)
		c.logf("user %s: inputs=%v installs=%v needs=%v reports=%v", u.name, u.inputs, u.installs, u.needs, u.reports)
	}
	waited := make(chan error, 1)
	go func() { waited <- e.Wait() }()

	installSelf := func() {
		name, m := x.self, self
		switch {
		case x.alias != "" && c.chance(40):
			name = x.alias
		case x.nested != "" && c.chance(40):
			// Another engine is a worker like any other.
			name = x.nested
			m = dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				other, err := dependency.NewEngine(x.conf)
				if err != nil {
					return nil, err
				}
				c.logf("  another engine starts")
				c.feature("nested")
				return other, nil
			}}
		}
		err := e.Install(name, m)
		c.logf("install %q = %v", name, err)
		if (err == nil) != !x.installed[name] && x.fatal == nil {
			c.fail([]string{"C11", "C21"}, "self", "install of the engine %q: %v", name, err)
		}
		if err == nil {
			x.mu.Lock()
			x.installed[name] = true
			x.mu.Unlock()
		}
	}
	kids := func() []*selfWorker {
		x.mu.Lock()
		defer x.mu.Unlock()
		var ws []*selfWorker
		for _, n := range x.order {
			for _, w := range x.users[n].ws {
				if !w.over() {
					ws = append(ws, w)
				}
			}
		}
		return ws
	}
	dying := false
	alive := func() {
		select {
		case err := <-waited:
			c.fail([]string{"C21", "C17"}, "self", "the engine ended: %v", err)
		default:
		}
	}
	k := 3 + c.n(12)
	if c.chance(50) {
		installSelf()
	}
	for ; k > 0 && !dying; k-- {
		switch r := c.n(20); {
		case r < 7:
			name := x.order[c.n(len(x.order))]
			go x.install(e, name)
		case r < 9:
			installSelf()
		case r < 13:
			if ws := kids(); len(ws) > 0 {
				w := ws[c.n(len(ws))]
				err := []error{nil, nil, &selfErr{}, &selfErr{}, dependency.ErrBounce, dependency.ErrMissing}[c.n(6)]
				if err == dependency.ErrBounce && x.strict {
					err = &selfErr{}
				}
				go w.end(err)
			}
		case r < 16:
			x.mu.Lock()
			var rep dependency.Reporter = e
			if len(x.rep) > 0 && c.chance(50) {
				rep = x.rep[c.n(len(x.rep))]
			}
			x.mu.Unlock()
			go func() { x.checkReport(rep.Report(), "", "later on") }()
		case r < 17:
			// From a worker that kept hold of it.
			x.mu.Lock()
			var inst dependency.Installer = e
			if len(x.got) > 0 {
				inst = x.got[c.n(len(x.got))]
			}
			x.mu.Unlock()
			go x.install(inst, x.order[c.n(len(x.order))])
		case r < 19:
			d := time.Duration(c.n(2000)) * time.Millisecond
			time.Sleep(d)
			c.logf("advance %v", d)
		default:
			if c.chance(30) {
				dying = true
			}
		}
		if c.chance(60) {
			c.settle()
			alive()
		}
	}
	c.settle()
	alive()
	if !dying {
		// Leave it alone until nothing more happens.
		time.Sleep(time.Hour)
		c.settle()
		alive()
		rep := e.Report()
		x.checkReport(rep, "", "at rest")
		if x.nested != "" && x.installed[x.nested] {
			m, _ := rep[dependency.KeyManifolds].(map[string]any)[x.nested].(map[string]any)
			r, _ := m[dependency.KeyReport].(map[string]any)
			if r == nil || fmt.Sprint(r[dependency.KeyState]) != "started" {
				c.fail([]string{"C21", "C18"}, "self-report", "the report of another engine that runs is %v", m)
			}
		}
		x.mu.Lock()
		for _, name := range x.order {
			u := x.users[name]
			var up []*selfWorker
			for _, w := range u.ws {
				if !w.over() {
					up = append(up, w)
				}
			}
			if len(up) > 1 {
				c.fail([]string{"C10"}, "self", "%d workers of %s run", len(up), name)
			}
			if x.refused[name] && !x.installed[name] {
				c.fail([]string{"C11", "C21"}, "self", "install of %s was refused for no reason", name)
			}
			if x.installed[name] && u.starts == 0 {
				c.fail([]string{"C11", "C21"}, "self", "%s was never started", name)
			}
			if x.installed[x.self] && x.installed[name] && u.needs && len(u.inputs) > 0 && u.inputs[0] == x.self && len(u.ws) == 0 {
				c.fail([]string{"C21", "C12"}, "self", "%s was never given the engine", name)
			}
		}
		x.mu.Unlock()
	}
	// The end.
	c.logf("-- shutdown")
	ws := kids()
	x.mu.Lock()
	if len(ws) > 0 && c.chance(40) {
		x.fatal = &selfErr{fatal: true}
	} else {
		x.killed = true
	}
	x.mu.Unlock()
	want := error(nil)
	if x.fatal != nil {
		c.feature("fatal")
		w := ws[c.n(len(ws))]
		w.end(x.fatal)
		if w.err == x.fatal {
			want = x.fatal
		} else {
			x.killed = true
			e.Kill()
		}
	} else {
		c.feature("kill")
		e.Kill()
	}
	if c.chance(50) {
		c.settle()
		// No worker takes longer than a second to stop.
	}
	time.Sleep(2 * time.Second)
	c.settle()
	select {
	case err := <-waited:
		if err != want {
			c.fail([]string{"C21", "C17"}, "self", "the engine returned %v, should be %v", err, want)
		}
	default:
		c.fail([]string{"C21", "C16"}, "self", "the engine doesn't stop; %d workers still run", len(kids()))
	}
	if ws := kids(); len(ws) > 0 {
		c.fail([]string{"C21", "C16"}, "self", "the engine has ended, but w%d hasn't", ws[0].n)
	}
	if err := e.Install("late", self); err == nil {
		c.fail([]string{"C11", "C21"}, "self", "the finished engine accepts a manifold")
	}
	rep := e.Report()
	x.checkReport(rep, "", "at the end")
	if rep[dependency.KeyState] != "stopped" {
		c.fail([]string{"C18", "C21"}, "self", "the finished engine is %v", rep[dependency.KeyState])
	}
	if ms := rep[dependency.KeyManifolds].(map[string]any); true {
		for n, m := range ms {
			if st := m.(map[string]any)[dependency.KeyState]; st != "stopped" && n != x.self && n != x.alias {
				c.fail([]string{"C18", "C21"}, "self", "%s of the finished engine is %v", n, st)
			}
		}
		x.mu.Lock()
		for n, ok := range x.installed {
			if ok && ms[n] == nil {
				c.fail([]string{"C18", "C21"}, "self", "%s is missing from the finished engine's report", n)
			}
		}
		x.mu.Unlock()
	}
	c.settle()
	c.checkLeaks("C21")
}

type nopMetrics struct{}

func (nopMetrics) RecordStart(string) {}

func newSelfDummy() worker.Worker { return &selfWorker{dead: make(chan struct{})} }

package harness

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("memory", func(c *Case) {
		m := &memory{c: c}
		switch c.n(3) {
		case 0:
			m.runner()
		case 1:
			m.engine()
		case 2:
			m.catacomb()
		}
	})
}

// memory checks that workers that have ended can be garbage collected while
// what ran them goes on. It has no references to the workers itself, only to
// what controls them.
type memory struct {
	c    *Case
	mu   sync.Mutex
	made []memMade
	fns  []weak.Pointer[memFn]
	// known returns how many names are known.
	known func() int
}

type memMade struct {
	w   weak.Pointer[memWorker]
	ctl *memCtl
}

// memFn is what a start function refers to.
type memFn struct {
	name    string
	payload [1000]byte
}

func (m *memory) fn(name string) *memFn {
	f := &memFn{name: name}
	m.mu.Lock()
	m.fns = append(m.fns, weak.Make(f))
	m.mu.Unlock()
	return f
}

type memCtl struct {
	name string
	once sync.Once
	dead chan struct{}
	err  error
	// onKill is what it ends with when it's killed.
	onKill error
}

func (m *memCtl) end(err error) {
	m.once.Do(func() {
		m.err = err
		close(m.dead)
	})
}

func (m *memCtl) isDead() bool {
	select {
	case <-m.dead:
		return true
	default:
		return false
	}
}

type memWorker struct {
	ctl     *memCtl
	payload [2000]byte
}

func (w *memWorker) Kill()                  { w.ctl.end(w.ctl.onKill) }
func (w *memWorker) Wait() error            { <-w.ctl.dead; return w.ctl.err }
func (w *memWorker) Report() map[string]any { return map[string]any{"name": w.ctl.name} }

func (m *memory) new(name string) *memWorker {
	w := &memWorker{ctl: &memCtl{name: name, dead: make(chan struct{})}}
	m.mu.Lock()
	m.made = append(m.made, memMade{weak.Make(w), w.ctl})
	m.mu.Unlock()
	return w
}

// current returns what controls the live worker of that name.
func (m *memory) current(name string) *memCtl {
	m.mu.Lock()
	defer m.mu.Unlock()
	for i := len(m.made) - 1; i >= 0; i-- {
		if c := m.made[i].ctl; c.name == name && !c.isDead() {
			return c
		}
	}
	return nil
}

// check demands that (almost) all workers that have ended have been let go.
func (m *memory) check(what string) {
	c := m.c
	c.settle()
	var left []string
	for try := 0; try < 2; try++ {
		runtime.GC()
	}
	m.mu.Lock()
	ended := 0
	for _, x := range m.made {
		if x.ctl.isDead() {
			ended++
			if x.w.Value() != nil {
				left = append(left, x.ctl.name)
			}
		}
	}
	fns := 0
	for _, f := range m.fns {
		if f.Value() != nil {
			fns++
		}
	}
	m.mu.Unlock()
	if m.known != nil {
		if n := m.known(); fns > n+2 {
			c.fail([]string{"C39"}, "memory", "%s keeps %d of %d start functions, though there are but %d", what, fns, len(m.fns), n)
		}
	}
	c.checks++
	c.logf("%s: %d workers have ended", what, ended)
	// The last one may be in somebody's hands.
	if len(left) > 2 {
		c.fail([]string{"C39"}, "memory", "%s keeps %d of the %d workers that have ended: %v", what, len(left), ended, left)
	}
}

var errMem = errors.New("failed")

func (m *memory) runner() {
	c := m.c
	c.feature("runner")
	delay := []time.Duration{time.Millisecond, time.Second}[c.n(2)]
	r, err := worker.NewRunner(worker.RunnerParams{
		Name: "memory", Clock: rClock{c}, RestartDelay: delay, Logger: rLogger{c},
		IsFatal:       func(error) bool { return false },
		ShouldRestart: func(err error) bool { return !errors.Is(err, errBig) },
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	m.known = func() int { return len(r.WorkerNames()) }
	ids := make([]string, 3+c.n(6))
	for i := range ids {
		ids[i] = fmt.Sprint("id", i)
	}
	for step := 10 + c.n(40); step > 0; step-- {
		id := ids[c.n(len(ids))]
		ctl := m.current(id)
		if ctl != nil {
			ctl.onKill = []error{nil, errMem}[c.n(2)]
		}
		switch k := c.n(8); {
		case ctl == nil || k == 0:
			fn := m.fn(id)
			r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
				return m.new(fn.name), nil
			})
		case k == 1:
			ctl.end(nil)
		case k == 2:
			ctl.end(errBig)
		case k <= 4:
			ctl.end(errMem)
		case k == 5:
			r.StopWorker(id)
		case k == 6:
			abort := make(chan struct{})
			if c.chance(30) {
				close(abort)
			}
			r.StopAndRemoveWorker(id, abort)
		case k == 7:
			r.Worker(id, nil)
			r.Report()
		}
		c.settle()
		if c.chance(50) {
			time.Sleep(2*delay + time.Millisecond)
		}
		if c.chance(5) {
			m.check("a runner")
		}
	}
	if c.chance(40) {
		// All of them wait for their restart, or have gone.
		for _, id := range ids {
			if ctl := m.current(id); ctl != nil {
				ctl.end(errMem)
			}
		}
	}
	m.check("a runner")
	r.Kill()
	time.Sleep(time.Minute)
	m.check("a runner that has ended")
	runtime.KeepAlive(r)
}

var errBig = errors.New("for good")

func (m *memory) engine() {
	c := m.c
	c.feature("engine")
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:    func(error) bool { return false },
		WorstError: func(a, b error) error { return a },
		ErrorDelay: time.Second, BounceDelay: time.Millisecond,
		Clock: rClock{c}, Metrics: dependency.DefaultMetrics(), Logger: eLogger{c},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	m.known = func() int { return len(e.Report()["manifolds"].(map[string]any)) }
	n := 3 + c.n(6)
	var names []string
	inputs := map[string][]string{}
	for i := 0; i < n; i++ {
		name := fmt.Sprint("m", i)
		for _, in := range names {
			if c.chance(20) {
				inputs[name] = append(inputs[name], in)
			}
		}
		names = append(names, name)
	}
	gone := map[string]bool{}
	install := func(name string) {
		ins := inputs[name]
		fn := m.fn(name)
		if err := e.Install(name, dependency.Manifold{
			Inputs: ins,
			Output: func(in worker.Worker, out any) error {
				*out.(*worker.Worker) = in
				return nil
			},
			Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
				for _, in := range ins {
					var w worker.Worker
					if err := g.Get(in, &w); err != nil {
						return nil, err
					}
				}
				return m.new(fn.name), nil
			},
		}); err != nil {
			c.fail([]string{"C11", "C20"}, "install", "Install(%s) = %v", name, err)
		}
		delete(gone, name)
	}
	for _, name := range names {
		install(name)
	}
	time.Sleep(5 * time.Second)
	c.settle()
	for step := 10 + c.n(30); step > 0; step-- {
		name := names[c.n(len(names))]
		if gone[name] {
			install(name)
			time.Sleep(3 * time.Second)
			c.settle()
			continue
		}
		ctl := m.current(name)
		if ctl == nil {
			continue
		}
		switch c.n(6) {
		case 0:
			ctl.end(dependency.ErrUninstall)
			gone[name] = true
		case 1:
			ctl.end(dependency.ErrBounce)
		case 2:
			e.Report()
		default:
			ctl.end(errMem)
		}
		c.settle()
		time.Sleep(time.Duration(c.n(5)) * time.Second)
		c.settle()
		if c.chance(5) {
			m.check("an engine")
		}
	}
	switch c.n(4) {
	case 0:
		// All have ended well.
		for _, name := range names {
			if ctl := m.current(name); ctl != nil {
				ctl.end(nil)
			}
			c.settle()
		}
	case 1:
		// All have been uninstalled.
		for i := 0; i < 3; i++ {
			for j := len(names) - 1; j >= 0; j-- {
				if ctl := m.current(names[j]); ctl != nil {
					ctl.end(dependency.ErrUninstall)
				}
				c.settle()
			}
			time.Sleep(5 * time.Second)
		}
	}
	m.check("an engine")
	e.Kill()
	time.Sleep(time.Minute)
	m.check("an engine that has ended")
	runtime.KeepAlive(e)
}

func (m *memory) catacomb() {
	c := m.c
	c.feature("catacomb")
	site := new(catacomb.Catacomb)
	if err := catacomb.Invoke(catacomb.Plan{Name: "memory", Site: site, Work: func() error {
		<-site.Dying()
		return site.ErrDying()
	}}); err != nil {
		c.fail([]string{"C26"}, "invoke", "Invoke: %v", err)
	}
	n := 0
	var names []string
	for step := 10 + c.n(40); step > 0; step-- {
		if len(names) < 3 || c.chance(50) {
			n++
			name := fmt.Sprint("w", n)
			names = append(names, name)
			w := m.new(name)
			if c.chance(20) {
				w.ctl.end(nil)
			}
			if err := site.Add(w); err != nil {
				c.fail([]string{"C22"}, "add", "Add = %v", err)
			}
		} else {
			i := c.n(len(names))
			if ctl := m.current(names[i]); ctl != nil {
				ctl.end(nil)
			}
			names = append(names[:i], names[i+1:]...)
		}
		c.settle()
		if c.chance(5) {
			m.check("a catacomb")
		}
	}
	m.check("a catacomb")
	site.Kill(nil)
	time.Sleep(time.Minute)
	m.check("a catacomb that has ended")
	runtime.KeepAlive(site)
}

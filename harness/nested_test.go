package harness

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("nested", nested)
}

// nested runs runners, engines and catacombs inside each other, as the library
// is used in practice. All of them see to it that what they contain is there
// when it should be, and gone when they are.
func nested(c *Case) {
	x := &nest{c: c}
	root := x.spec(0, 2+c.n(2))
	for root.kind == nCatacomb || root.kind == nLeaf {
		root = x.spec(0, 2+c.n(2))
	}
	x.root = root
	c.feature(fmt.Sprintf("%d specs", len(x.specs)/5*5))
	x.rough.Store(0)
	w := x.build(root, nil).(*nInst)
	x.calm()
	for phase := c.n(3); phase >= 0; phase-- {
		x.rough.Store([]int64{300, 3000, 20000}[c.n(3)])
		c.logf("chaos")
		x.calmed = make(chan struct{})
		x.trouble()
		time.Sleep(time.Duration(c.n(60)) * time.Second)
		x.calm()
	}
	if c.chance(50) {
		x.rough.Store([]int64{300, 3000}[c.n(2)])
		x.trouble()
		time.Sleep(time.Duration(c.n(5000)) * time.Millisecond)
	}
	c.logf("Kill")
	done := make(chan struct{})
	var err error
	go func() {
		err = w.Wait()
		close(done)
	}()
	w.Kill()
	x.rough.Store(0)
	time.Sleep(time.Minute)
	c.settle()
	if !isClosed(done) {
		c.fail(root.endProps(), "hang", "the root doesn't end; left over: %v", x.left())
	}
	if err != nil {
		c.fail([]string{"C05", "C17"}, "error", "Wait of the root = %v", err)
	}
	if l := x.left(); len(l) > 0 {
		c.fail([]string{"C04", "C16", "C22", "C33"}, "left", "left over at the end: %v", l)
	}
	c.checkLeaks()
}

const (
	nLeaf = iota
	nRunner
	nEngine
	nCatacomb
)

var nKinds = []string{"leaf", "runner", "engine", "catacomb"}

type nSpec struct {
	n, depth int
	kind     int
	parent   *nSpec
	subs     []*nSpec
	inputs   []string // of the other children of an engine
	inits    int      // children that a catacomb gets with Init
	delay    time.Duration
}

func (s *nSpec) String() string { return fmt.Sprintf("%s%d", nKinds[s.kind], s.n) }

func (s *nSpec) endProps() []string {
	switch s.kind {
	case nRunner:
		return []string{"C04"}
	case nEngine:
		return []string{"C16"}
	case nCatacomb:
		return []string{"C22", "C23"}
	}
	return []string{"harness"}
}

type nest struct {
	c      *Case
	specs  []*nSpec
	root   *nSpec
	rough  atomic.Int64
	nerr   atomic.Int64
	mu     sync.Mutex
	insts  []*nInst
	calmed chan struct{}
	ninst  int
}

// nErr is fatal to hosts at its level or below. Those above restart what fails
// with it.
type nErr struct {
	n     int64
	level int
}

func (e *nErr) Error() string { return fmt.Sprintf("e%d-%d", e.n, e.level) }

func (x *nest) spec(depth, most int) *nSpec {
	c := x.c
	s := &nSpec{n: len(x.specs), depth: depth}
	if depth == 0 {
		x.specs = nil
		s.n = 0
	}
	x.specs = append(x.specs, s)
	s.delay = []time.Duration{time.Millisecond, time.Second, 4 * time.Second}[c.n(3)]
	if depth < most && (depth == 0 || c.chance(65)) {
		s.kind = 1 + c.n(3)
		for i := 1 + c.n(3); i > 0; i-- {
			k := x.spec(depth+1, most)
			k.parent = s
			if s.kind == nEngine {
				for _, o := range s.subs {
					if c.chance(30) {
						k.inputs = append(k.inputs, o.String())
					}
				}
			}
			s.subs = append(s.subs, k)
		}
		s.inits = c.n(len(s.subs) + 1)
	}
	return s
}

// An nInst is an instance of a spec, and the worker that stands for it.
type nInst struct {
	x    *nest
	s    *nSpec
	n    int
	up   *nInst
	host worker.Worker // nil: a leaf
	// Under nest.mu.
	busy  int // starts and work functions
	subs  []*nInst
	ended bool
	fails []error // errors of those it contains
	why   error

	dead   chan struct{}
	once   sync.Once
	linger time.Duration
	killed atomic.Bool
}

func (w *nInst) String() string { return fmt.Sprintf("%s.%d", w.s, w.n) }

func (w *nInst) Kill() {
	if w.killed.CompareAndSwap(false, true) {
		w.x.c.logf("  kill %s", w)
		w.x.mu.Lock()
		ok := w.up == nil || w.up.killed.Load() || len(w.up.fails) > 0 || w.s.parent.kind == nEngine
		w.x.mu.Unlock()
		if !ok {
			props := []string{"C02", "C03"}
			if w.s.parent.kind == nCatacomb {
				props = []string{"C25"}
			}
			w.x.c.fail(props, "kill", "%s was killed, though nobody has asked for it and nothing has failed in %s", w, w.up)
		}
	}
	if w.host != nil {
		w.host.Kill()
	} else {
		time.AfterFunc(w.linger, func() { w.end(nil) })
	}
}

// end ends a leaf.
func (w *nInst) end(err error) {
	w.once.Do(func() {
		w.x.mu.Lock()
		w.x.c.logf("  %s ends: %v", w, err)
		w.ended = true
		w.why = err
		if w.up != nil && err != nil {
			w.up.fails = append(w.up.fails, err)
		}
		w.x.mu.Unlock()
		close(w.dead)
	})
}

func (w *nInst) Wait() error {
	x := w.x
	c := x.c
	if w.host == nil {
		<-w.dead
		return w.why
	}
	err := w.host.Wait()
	// The library's code must not be called with the lock held.
	panicked := ""
	if e, ok := err.(interface{ Panicked() bool }); ok && w.s.kind == nCatacomb {
		panicked = err.Error()
		st, ok := err.(interface{ StackTrace() []string })
		if !e.Panicked() || !strings.Contains(err.Error(), "panic") || !ok || !strings.Contains(strings.Join(st.StackTrace(), "\n"), "nestedPanic") {
			c.fail([]string{"C27"}, "panic", "%s has ended with %v, which doesn't tell about a panic", w, err)
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	c.checks++
	var bad string
	if w.busy > 0 {
		bad = fmt.Sprintf("%d start or work functions are running", w.busy)
	}
	for _, s := range w.subs {
		if !s.ended {
			bad = fmt.Sprintf("%s is still there", s)
		}
	}
	if bad != "" {
		c.fail(w.s.endProps(), "early", "%s has ended with %v, but %s", w, err, bad)
	}
	if w.ended {
		if err != w.why {
			c.fail(append(w.s.endProps(), "C24"), "error", "%s ended with %v and then with %v", w, w.why, err)
		}
		return err
	}
	w.ended, w.why = true, err
	c.logf("  %s has ended: %v", w, err)
	if err != nil {
		known := false
		for _, f := range w.fails {
			known = known || f == err
		}
		for _, f := range w.fails {
			if pe, ok := f.(*nPanic); ok && panicked != "" && strings.Contains(panicked, pe.text) {
				known = true
			}
		}
		if !known {
			c.fail([]string{"C05", "C17", "C24", "C27"}, "error", "%s has ended with %v, but what failed in it was %v", w, err, w.fails)
		}
		if w.s.kind != nCatacomb && !x.fatal(w.s, err) {
			c.fail([]string{"C05", "C17"}, "error", "%s has ended with %v, which isn't fatal to it", w, err)
		}
		if w.up != nil {
			w.up.fails = append(w.up.fails, err)
		}
	} else if !w.killed.Load() {
		c.fail([]string{"C04", "C16", "C24"}, "end", "%s has ended without an error though nobody killed it; what failed in it was %v", w, w.fails)
	}
	return err
}

type nPanic struct{ text string }

func (p *nPanic) Error() string { return p.text }

func (x *nest) fatal(s *nSpec, err error) bool {
	e, ok := err.(*nErr)
	return ok && s.depth >= e.level && s.depth > 0
}

func (x *nest) err(depth int) *nErr {
	level := 100
	if x.c.hr()%3 == 0 {
		level = 1 + int(x.c.hr()%uint64(depth+1))
	}
	return &nErr{x.nerr.Add(1), level}
}

func (x *nest) left() []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []string
	for _, w := range x.insts {
		if !w.ended {
			out = append(out, w.String())
		}
	}
	return out
}

// trouble makes the leaves that are there fail sooner or later.
func (x *nest) trouble() {
	x.mu.Lock()
	ws := append([]*nInst(nil), x.insts...)
	x.mu.Unlock()
	for _, w := range ws {
		w.unrest()
	}
}

func (w *nInst) unrest() {
	x := w.x
	rough := x.rough.Load()
	if w.host != nil || rough == 0 || x.c.hr()%3 == 0 {
		return
	}
	time.AfterFunc(time.Duration(x.c.hr()%uint64(4*rough*1e6)), func() {
		if x.rough.Load() > 0 {
			w.end(x.err(w.s.depth))
		}
	})
}

// start is what a runner's or an engine's start functions do.
func (x *nest) start(s *nSpec, up *nInst) (worker.Worker, error) {
	x.mu.Lock()
	up.busy++
	bad := up.ended
	x.mu.Unlock()
	if bad {
		x.c.fail(up.s.endProps(), "late", "%s is started though %s has ended", s, up)
	}
	if x.rough.Load() > 0 {
		if x.c.hr()%3 == 0 {
			time.Sleep(time.Duration(x.c.hr()%2000) * time.Millisecond)
		}
		if x.c.hr()%6 == 0 {
			err := x.err(s.depth)
			x.mu.Lock()
			defer x.mu.Unlock()
			up.busy--
			up.fails = append(up.fails, err)
			x.c.logf("  start of %s in %s fails: %v", s, up, err)
			return nil, err
		}
	}
	kept := x.c.keepLabels("building "+s.String(), false)
	w := x.build(s, up)
	kept()
	x.mu.Lock()
	up.busy--
	x.mu.Unlock()
	return w, nil
}

func (x *nest) build(s *nSpec, up *nInst) worker.Worker {
	c := x.c
	w := &nInst{x: x, s: s, up: up, dead: make(chan struct{})}
	x.mu.Lock()
	x.ninst++
	w.n = x.ninst
	if up != nil {
		for _, o := range up.subs {
			if o.s == s && !o.ended {
				x.mu.Unlock()
				c.fail([]string{"C01", "C10"}, "double", "%s is started in %s, where %s is still there", s, up, o)
			}
		}
		if up.ended {
			x.mu.Unlock()
			c.fail(up.s.endProps(), "late", "%s is started in %s, which has ended", s, up)
		}
		up.subs = append(up.subs, w)
	}
	x.insts = append(x.insts, w)
	x.mu.Unlock()
	c.logf("  %s is up", w)
	switch s.kind {
	case nLeaf:
		if c.hr()%3 == 0 {
			w.linger = time.Duration(c.hr()%3000) * time.Millisecond
		}
		w.unrest()
	case nRunner:
		r, err := worker.NewRunner(worker.RunnerParams{
			Name: s.String(), Clock: rClock{c}, Logger: rLogger{c}, RestartDelay: s.delay,
			IsFatal: func(err error) bool { return x.fatal(s, err) },
		})
		if err != nil {
			c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
		}
		w.host = r
		for _, k := range s.subs {
			err := r.StartWorker(context.Background(), k.String(), func(ctx context.Context) (worker.Worker, error) {
				c.wantLabels("the start function of "+k.String(), ctx, "type", "worker", "name", s.String(), "id", k.String())
				return x.start(k, w)
			})
			if err != nil && err != worker.ErrDead {
				c.fail([]string{"C01"}, "start", "StartWorker = %v", err)
			}
		}
	case nEngine:
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal:    func(err error) bool { return x.fatal(s, err) },
			WorstError: func(a, b error) error { return a },
			ErrorDelay: s.delay, BounceDelay: 10 * time.Millisecond,
			Clock: rClock{c}, Logger: eLogger{c}, Metrics: dependency.DefaultMetrics(),
		})
		if err != nil {
			c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
		}
		w.host = e
		mans := dependency.Manifolds{}
		for _, k := range s.subs {
			mans[k.String()] = dependency.Manifold{
				Inputs: k.inputs,
				Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
					for _, in := range k.inputs {
						if err := g.Get(in, nil); err != nil {
							return nil, err
						}
					}
					return x.start(k, w)
				},
			}
		}
		if err := dependency.Install(e, mans); err != nil && len(w.subs) == 0 && !strings.Contains(err.Error(), "shutting down") {
			c.fail([]string{"C11"}, "install", "Install = %v", err)
		}
	case nCatacomb:
		h := &nCat{}
		w.host = h
		var init []worker.Worker
		for _, k := range s.subs[:s.inits] {
			init = append(init, x.build(k, w))
		}
		err := catacomb.Invoke(catacomb.Plan{Name: s.String(), Site: &h.cat, Init: init, Work: func() error { return x.work(h, w) }})
		if err != nil {
			c.fail([]string{"C26"}, "invoke", "Invoke = %v", err)
		}
	}
	return w
}

type nCat struct{ cat catacomb.Catacomb }

func (h *nCat) Kill()       { h.cat.Kill(nil) }
func (h *nCat) Wait() error { return h.cat.Wait() }

func (x *nest) work(h *nCat, w *nInst) error {
	c := x.c
	c.wantLabels("the work function of "+w.s.String(), nil, "type", "catacomb", "name", w.s.String())
	x.mu.Lock()
	w.busy++
	x.mu.Unlock()
	fail := func(err error) {
		x.mu.Lock()
		w.fails = append(w.fails, err)
		x.mu.Unlock()
	}
	defer func() {
		x.mu.Lock()
		w.busy--
		x.mu.Unlock()
	}()
	for _, k := range w.s.subs[w.s.inits:] {
		if err := h.cat.Add(x.build(k, w)); err != nil {
			if !isClosed(h.cat.Dying()) {
				c.fail([]string{"C25"}, "add", "Add = %v, but the catacomb isn't dying", err)
			}
			return h.cat.ErrDying()
		}
	}
	ctx := h.cat.Context(context.Background())
	x.mu.Lock()
	calmed := x.calmed
	x.mu.Unlock()
	end := time.Duration(1 << 60)
	if rough := x.rough.Load(); rough > 0 && c.hr()%3 == 0 {
		end = time.Duration(c.hr() % uint64(4*rough*1e6))
	}
	select {
	case <-ctx.Done():
		if c.hr()%8 == 0 {
			time.Sleep(time.Duration(c.hr()%2000) * time.Millisecond)
		}
		return h.cat.ErrDying()
	case <-calmed:
		<-h.cat.Dying()
		return h.cat.ErrDying()
	case <-time.After(end):
	}
	if c.hr()%2 == 0 {
		err := x.err(w.s.depth)
		c.logf("  work of %s: %v", w, err)
		fail(err)
		return err
	}
	p := &nPanic{fmt.Sprintf("panic%d", x.nerr.Add(1))}
	c.logf("  work of %s panics: %v", w, p)
	fail(p)
	nestedPanic(p)
	return nil
}

//go:noinline
func nestedPanic(p *nPanic) { panic(p) }

// calm waits until all is well, and sees that it is.
func (x *nest) calm() {
	c := x.c
	x.rough.Store(0)
	x.mu.Lock()
	if x.calmed != nil && !isClosed(x.calmed) {
		close(x.calmed)
	}
	x.mu.Unlock()
	c.logf("calm")
	time.Sleep(10 * time.Minute)
	c.settle()
	c.checks++
	x.mu.Lock()
	up := map[*nSpec]*nInst{}
	for _, w := range x.insts {
		if w.ended {
			continue
		}
		if o := up[w.s]; o != nil {
			c.fail(append(w.s.parent.endProps(), "C01", "C10"), "double", "%s and %s are both there", w, o)
		}
		up[w.s] = w
	}
	for _, s := range x.specs {
		w := up[s]
		switch {
		case w == nil:
			props := []string{"C02"}
			switch s.parent.kind {
			case nEngine:
				props = []string{"C14"}
			case nCatacomb:
				props = []string{"C23", "C24", "C25"}
			}
			c.fail(props, "missing", "%s should be there by now", s)
		case w.up != nil && (w.up != up[s.parent] || w.up.ended):
			c.fail(s.parent.endProps(), "orphan", "%s belongs to %s, which is gone", w, w.up)
		}
	}
	x.insts = x.insts[:0]
	for _, w := range up {
		x.insts = append(x.insts, w)
	}
	x.mu.Unlock()
	for _, s := range x.specs {
		w := up[s]
		switch h := w.host.(type) {
		case *worker.Runner:
			if n := h.WorkerNames(); len(n) != len(s.subs) {
				c.fail([]string{"C08"}, "names", "WorkerNames of %s = %v", w, n)
			}
			for _, k := range s.subs {
				got, err := h.Worker(k.String(), closedCh)
				if err != nil || got != worker.Worker(up[k]) {
					c.fail([]string{"C06"}, "lookup", "Worker(%s) of %s = %v, %v, want %s", k, w, got, err, up[k])
				}
			}
		case *dependency.Engine:
			mans, _ := h.Report()["manifolds"].(map[string]any)
			for _, k := range s.subs {
				r, _ := mans[k.String()].(map[string]any)
				if r["state"] != "started" {
					c.fail([]string{"C18"}, "report", "the state of %s in %s is %v", k, w, r["state"])
				}
			}
		case *nCat:
			if isClosed(h.cat.Dying()) || isClosed(h.cat.Dead()) {
				c.fail([]string{"C28", "C25"}, "signals", "%s is up, but says that it's dying or dead", w)
			}
		}
	}
	g := c.gen()
	time.Sleep(10 * time.Hour)
	c.settle()
	if c.gen() != g {
		c.fail([]string{"C02", "C14", "C25"}, "unrest", "something happened that nobody asked for")
	}
}

package harness

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("engine-big", engineBig)
}

// engineBig has an engine run dozens of manifolds whose workers come and go by
// themselves, in phases of chaos that are followed by a calm in which the
// whole state can be predicted without a model of what happened before: what
// the latest start of each manifold saw is what is there.
func engineBig(c *Case) {
	x := &eBig{c: c, by: map[string]*eBigM{}, recorded: map[string]int{}}
	x.cfg = dependency.EngineConfig{
		IsFatal:          func(err error) bool { _, ok := err.(*eBigFatal); return ok },
		WorstError:       x.worst,
		ErrorDelay:       []time.Duration{0, 100 * time.Millisecond, time.Second, 3 * time.Second}[c.n(4)],
		BounceDelay:      []time.Duration{0, 10 * time.Millisecond, time.Second}[c.n(3)],
		BackoffFactor:    []float64{0, 1, 1.2, 2, 3}[c.n(5)],
		BackoffResetTime: []time.Duration{0, time.Second, time.Minute}[c.n(3)],
		MaxDelay:         []time.Duration{2 * time.Second, 20 * time.Second}[c.n(2)],
		Clock:            rClock{c}, Metrics: x, Logger: eLogger{c},
	}
	e, err := dependency.NewEngine(x.cfg)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	x.e = e
	if c.chance(15) {
		x.failing()
		x.shutdown()
		return
	}
	n := []int{3, 10, 20, 40}[c.n(4)]
	if c.chance(3) {
		n = 100
	}
	c.feature(fmt.Sprintf("%d manifolds", n))
	x.rough.Store([]int64{200, 2000, 10000}[c.n(3)])
	shape := c.n(4)
	// Names are in no particular order with regard to dependencies.
	perm := c.rng.Perm(n)
	for i := 0; i < n; i++ {
		m := &eBigM{x: x, i: i, name: fmt.Sprintf("m%d", perm[i]), optional: map[string]bool{}}
		switch {
		case i == 0:
		case shape == 0: // a chain
			m.inputs = []string{x.ms[i-1].name}
		case shape == 1: // all on a few
			m.inputs = []string{x.ms[c.n(min(i, 3))].name}
		default:
			k := c.n(4)
			if c.chance(10) {
				k = i
			}
			for _, j := range c.rng.Perm(i)[:min(k, i)] {
				m.inputs = append(m.inputs, x.ms[j].name)
			}
		}
		for _, in := range m.inputs {
			if c.chance(30) {
				m.optional[in] = true
			}
		}
		if c.chance(10) {
			m.inputs = append(m.inputs, fmt.Sprint("never", i))
			m.optional[fmt.Sprint("never", i)] = true
		}
		if len(m.inputs) > 0 && c.chance(5) {
			// Mentioned twice.
			m.inputs = append(m.inputs, m.inputs[c.n(len(m.inputs))])
		}
		x.ms = append(x.ms, m)
		x.by[m.name] = m
	}
	for _, i := range c.rng.Perm(n) {
		x.install(x.ms[i])
		if c.chance(30) {
			time.Sleep(time.Duration(c.n(1000)) * time.Millisecond)
		}
	}
	for phase := 1 + c.n(3); phase > 0; phase-- {
		x.rough.Store([]int64{200, 2000, 10000}[c.n(3)])
		c.logf("chaos")
		time.Sleep(time.Duration(c.n(60)) * time.Second)
		x.calm()
		if c.tainted {
			break
		}
		x.ripple()
		if phase > 1 {
			for _, m := range x.ms {
				if m.gone && c.chance(70) {
					x.install(m)
				}
			}
		}
	}
	x.shutdown()
}

type eBig struct {
	c     *Case
	e     *dependency.Engine
	cfg   dependency.EngineConfig
	ms    []*eBigM
	by    map[string]*eBigM
	rough atomic.Int64
	nerr  atomic.Int64
	nw    atomic.Int64

	mu       sync.Mutex
	recorded map[string]int
	fatal    []*eBigFatal
	live     int
	killed   bool
}

type eBigM struct {
	x        *eBig
	i        int
	name     string
	inputs   []string
	optional map[string]bool
	gone     bool

	// Under eBig.mu.
	active  int
	cur     *eBigW
	seen    map[string]*eBigW // by the latest start
	ctx     context.Context   // of the latest start
	starts  int
	lastEnd error
	ends    int
	fails   int // in succession
	endAt   time.Duration
}

type eBigW struct {
	m      *eBigM
	n      int64
	seen   map[string]*eBigW
	once   sync.Once
	dead   chan struct{}
	err    error
	linger time.Duration
	killed atomic.Int64
	ctx    context.Context
}

type eBigFatal struct{ rank int }

func (e *eBigFatal) Error() string { return fmt.Sprint("fatal", e.rank) }

func (x *eBig) worst(a, b error) error {
	fa, _ := a.(*eBigFatal)
	fb, _ := b.(*eBigFatal)
	switch {
	case fa == nil:
		return b
	case fb == nil || fa.rank >= fb.rank:
		return a
	}
	return b
}

func (x *eBig) RecordStart(name string) {
	x.mu.Lock()
	x.recorded[name]++
	x.mu.Unlock()
}

func (w *eBigW) Kill() {
	if w.killed.Add(1) == 1 {
		w.m.x.c.logf("  kill w%d of %s", w.n, w.m.name)
		if w.linger == 0 {
			go w.end(nil)
		} else {
			time.AfterFunc(w.linger, func() { w.end(nil) })
		}
	}
}

func (w *eBigW) Wait() error {
	<-w.dead
	return w.err
}

func (w *eBigW) end(err error) {
	w.once.Do(func() {
		x := w.m.x
		x.mu.Lock()
		defer x.mu.Unlock()
		x.c.logf("  w%d of %s ends: %v", w.n, w.m.name, err)
		w.err = err
		w.m.cur = nil
		x.ended(w.m, err)
		close(w.dead)
	})
}

func (x *eBig) ended(m *eBigM, err error) {
	m.active--
	x.live--
	m.ends++
	m.lastEnd = err
	m.endAt = x.c.now()
	if f, ok := err.(*eBigFatal); ok {
		x.fatal = append(x.fatal, f)
	}
}

// someEnd makes an outcome of the chaos.
func (x *eBig) someEnd() error {
	c := x.c
	switch c.hr() % 10 {
	case 0:
		return nil
	case 1:
		return dependency.ErrBounce
	case 2:
		return fmt.Errorf("really: %w", dependency.ErrBounce)
	case 3:
		return dependency.ErrMissing
	case 4:
		if c.hr()%3 == 0 {
			return dependency.ErrUninstall
		}
	}
	return fmt.Errorf("e%d", x.nerr.Add(1))
}

func (m *eBigM) manifold() dependency.Manifold {
	man := dependency.Manifold{
		Inputs: append([]string(nil), m.inputs...),
		Start:  m.start,
	}
	if m.i%2 == 0 {
		man.Output = func(in worker.Worker, out any) error {
			w, ok := in.(*eBigW)
			if p, ok2 := out.(**eBigW); ok && ok2 {
				*p = w
				return nil
			}
			return fmt.Errorf("%T doesn't give %T", in, out)
		}
	}
	return man
}

func (m *eBigM) start(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
	x := m.x
	c := x.c
	x.mu.Lock()
	c.checks++
	m.active++
	m.starts++
	x.live++
	m.ctx = ctx
	bad := m.active > 1
	x.mu.Unlock()
	if bad {
		c.fail([]string{"C10"}, "double", "%s is started while it's already there", m.name)
	}
	seen := map[string]*eBigW{}
	missing := false
	for _, in := range m.inputs {
		if m.optional[in] && c.hr()%3 == 0 {
			// It doesn't care this time.
			seen[in] = unasked
			continue
		}
		err := g.Get(in, nil)
		if errors.Is(err, dependency.ErrMissing) {
			seen[in] = nil
			missing = missing || !m.optional[in]
			continue
		} else if err != nil {
			c.fail([]string{"C13"}, "get", "Get(%s) = %v in the start of %s", in, err, m.name)
		}
		im := x.by[in]
		if im.i%2 == 0 {
			var w *eBigW
			if err := g.Get(in, &w); err != nil || w == nil {
				c.fail([]string{"C13"}, "get", "Get(%s, &w) = %v, %v in the start of %s", in, w, err, m.name)
			}
			seen[in] = w
			if w.m != im {
				c.fail([]string{"C13"}, "get", "Get(%s) gave a worker of %s", in, w.m.name)
			}
		} else {
			// Without an output function there's no way to tell which one it is.
			seen[in] = anyW
		}
	}
	for _, name := range []string{"none", m.name} {
		if err := g.Get(name, nil); !errors.Is(err, dependency.ErrMissing) {
			c.fail([]string{"C13"}, "get", "Get(%s) = %v in the start of %s, which doesn't declare it", name, err, m.name)
		}
	}
	x.mu.Lock()
	m.seen = seen
	x.mu.Unlock()
	rough := x.rough.Load()
	if rough > 0 {
		switch c.hr() % 4 {
		case 0:
			time.Sleep(time.Duration(c.hr()%3000) * time.Millisecond)
		case 1:
			select {
			case <-ctx.Done():
			case <-time.After(time.Duration(c.hr()%3000) * time.Millisecond):
			}
		}
	}
	fail := func(err error) (worker.Worker, error) {
		c.logf("  start of %s: %v", m.name, err)
		x.mu.Lock()
		defer x.mu.Unlock()
		x.ended(m, err)
		return nil, err
	}
	if missing {
		return fail(dependency.ErrMissing)
	}
	if rough > 0 && c.hr()%4 == 0 {
		if err := x.someEnd(); err != nil {
			return fail(err)
		}
	}
	w := &eBigW{m: m, n: x.nw.Add(1), seen: seen, dead: make(chan struct{}), ctx: ctx}
	if c.hr()%3 == 0 {
		w.linger = time.Duration(c.hr()%3000) * time.Millisecond
	}
	c.logf("  %s is up as w%d", m.name, w.n)
	x.mu.Lock()
	m.cur = w
	x.mu.Unlock()
	if rough > 0 && c.hr()%4 != 0 {
		err := x.someEnd()
		time.AfterFunc(time.Duration(c.hr()%uint64(2*rough*1e6)), func() {
			if x.rough.Load() > 0 {
				w.end(err)
			}
		})
	}
	return w, nil
}

var anyW, unasked = &eBigW{}, &eBigW{}

func (x *eBig) install(m *eBigM) {
	if m.gone {
		m.gone = false
		x.mu.Lock()
		x.recorded[m.name] = 0
		x.mu.Unlock()
	}
	err := x.e.Install(m.name, m.manifold())
	x.c.logf("Install(%s, %v) = %v", m.name, m.inputs, err)
	if err != nil {
		x.c.fail([]string{"C11", "C20"}, "install", "Install(%s) = %v", m.name, err)
	}
}

func (x *eBig) calm() {
	c := x.c
	x.rough.Store(0)
	c.logf("calm")
	time.Sleep(time.Hour)
	c.settle()
	x.check("after an hour of calm")
	g := c.gen()
	time.Sleep(10 * time.Hour)
	c.settle()
	if c.gen() != g {
		c.mu.Lock()
		last := c.log[len(c.log)-1]
		c.mu.Unlock()
		c.fail([]string{"C12", "C14"}, "unrest", "something happened that nothing called for: %s", last)
	}
}

func (x *eBig) check(when string) {
	c := x.c
	c.checks++
	rep := x.e.Report()
	if rep["state"] != "started" {
		c.fail([]string{"C18", "C16", "C17"}, "report", "state %v %s", rep["state"], when)
	}
	mans, _ := rep["manifolds"].(map[string]any)
	want := 0
	for _, m := range x.ms {
		if m.gone {
			continue
		}
		r, ok := mans[m.name].(map[string]any)
		if !ok {
			if !errors.Is(m.lastEnd, dependency.ErrUninstall) {
				c.fail([]string{"C20", "C18"}, "report", "%s has gone %s, it ended with %v", m.name, when, m.lastEnd)
			}
			m.gone = true
			c.logf("%s has been uninstalled", m.name)
			continue
		}
		want++
		if err := x.e.Install(m.name, m.manifold()); err == nil {
			c.fail([]string{"C11"}, "install", "%s is installed twice", m.name)
		}
		state := "stopped"
		if m.cur != nil {
			state = "started"
		}
		if r["state"] != state {
			c.fail([]string{"C18", "C10"}, "report", "the state of %s is %v %s, but it's %s", m.name, r["state"], when, state)
		}
		sc, _ := r["start-count"].(int)
		if sc > m.starts || m.cur != nil && sc < 1 {
			c.fail([]string{"C18"}, "report", "the start count of %s is %d after %d starts", m.name, sc, m.starts)
		}
		if in, _ := r["inputs"].([]string); fmt.Sprint(in) != fmt.Sprint(m.inputs) {
			c.fail([]string{"C18"}, "report", "the inputs of %s are %v, not %v", m.name, in, m.inputs)
		}
		if m.cur != nil {
			if err := m.cur.ctx.Err(); err != nil {
				c.fail([]string{"C19"}, "context", "the context of %s, which is up, has ended: %v", m.name, err)
			}
		} else if m.ctx != nil && m.ctx.Err() == nil {
			c.fail([]string{"C19"}, "context", "the context of %s, which is down, has not ended", m.name)
		}
		if m.starts == 0 {
			c.fail([]string{"C14"}, "never", "%s was never started", m.name)
		}
		if m.cur == nil && !(m.lastEnd == nil || errors.Is(m.lastEnd, dependency.ErrMissing)) {
			c.fail([]string{"C14"}, "restart", "%s should have been restarted after %v", m.name, m.lastEnd)
		}
	}
	if len(mans) != want {
		c.fail([]string{"C18", "C20"}, "report", "the report has %d manifolds, there should be %d", len(mans), want)
	}
	scribble(rep, "manifolds")
	for _, m := range x.ms {
		if m.gone {
			continue
		}
		for _, in := range m.inputs {
			var cur *eBigW
			if im := x.by[in]; im != nil && !im.gone {
				cur = im.cur
			}
			if s := m.seen[in]; s != cur && s != unasked && !(s == anyW && cur != nil) {
				c.fail([]string{"C12", "C13"}, "stale", "the latest start of %s saw %s of %s, but there is %s %s", m.name, s, in, cur, when)
			}
		}
	}
}

func (w *eBigW) String() string {
	switch w {
	case nil:
		return "no worker"
	case anyW:
		return "some worker"
	case unasked:
		return "what wasn't asked for"
	}
	return fmt.Sprintf("w%d", w.n)
}

// ripple ends a single worker in the calm; those that depend on it, and no
// others, are restarted.
func (x *eBig) ripple() {
	c := x.c
	var up []*eBigM
	for _, m := range x.ms {
		if !m.gone && m.cur != nil {
			up = append(up, m)
		}
	}
	if len(up) == 0 {
		return
	}
	m := up[c.n(len(up))]
	before := map[*eBigM]*eBigW{}
	for _, o := range x.ms {
		before[o] = o.cur
	}
	// A worker that was told to stop before the engine knew of it was never
	// there as far as the others are concerned, so count those it recorded.
	starts, ups := map[*eBigM]int{}, map[*eBigM]int{}
	x.mu.Lock()
	for _, o := range x.ms {
		starts[o], ups[o] = o.starts, x.recorded[o.name]
	}
	x.mu.Unlock()
	var err error
	if c.chance(70) {
		err = fmt.Errorf("e%d", x.nerr.Add(1))
	}
	c.logf("ripple: w%d of %s ends with %v", m.cur.n, m.name, err)
	m.cur.end(err)
	time.Sleep(time.Hour)
	c.settle()
	x.check("after a ripple")
	for _, o := range x.ms {
		hit := ""
		for _, in := range o.inputs {
			if im := x.by[in]; im != nil && (im.cur != before[im] || x.recorded[in] != ups[im]) {
				hit = in
			}
		}
		if hit == "" && o != m && (o.starts != starts[o] || o.cur != before[o]) {
			c.fail([]string{"C12", "C14"}, "ripple", "%s was restarted though none of its inputs has changed", o.name)
		}
		if hit != "" && !o.gone && (o.starts == starts[o] || o.cur != nil && o.cur == before[o]) {
			c.fail([]string{"C12"}, "ripple", "%s has not been restarted though its input %s has changed", o.name, hit)
		}
		if o == m && (o.cur == nil) != (err == nil) {
			c.fail([]string{"C14"}, "ripple", "%s is %s after it ended with %v", o.name, o.cur, err)
		}
	}
}

// failing has a manifold fail many times in succession.
func (x *eBig) failing() {
	c := x.c
	c.feature("failing")
	// Replace the engine by one with an interesting backoff.
	x.e.Kill()
	if err := x.e.Wait(); err != nil {
		c.fail([]string{"C17"}, "error", "Wait = %v", err)
	}
	x.cfg.ErrorDelay = []time.Duration{1, time.Millisecond, 100 * time.Millisecond, 3 * time.Second, 90 * time.Hour}[c.n(5)]
	x.cfg.BounceDelay = []time.Duration{0, time.Millisecond, time.Second}[c.n(3)]
	x.cfg.BackoffFactor = []float64{0, 1, 1.01, 1.5, 2, 10, 1e10}[c.n(7)]
	x.cfg.MaxDelay = []time.Duration{0, 0, time.Second, time.Hour, 3000 * time.Hour, forever}[c.n(6)]
	x.cfg.BackoffResetTime = []time.Duration{0, time.Minute, 1000 * time.Hour}[c.n(3)]
	e, err := dependency.NewEngine(x.cfg)
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	x.e = e
	want := func(n int, base time.Duration) (lo, hi time.Duration) {
		d := float64(base)
		if x.cfg.BackoffFactor > 0 && base > 0 {
			d *= math.Pow(x.cfg.BackoffFactor, float64(max(n-1, 0)))
			if m := float64(x.cfg.MaxDelay); x.cfg.MaxDelay > 0 {
				d = math.Min(d, m)
			}
		}
		d = math.Min(d, math.MaxInt64/2)
		return time.Duration(d * 0.9), time.Duration(d * 1.1)
	}
	times := []int{5, 30, 120, 1100}[c.n(4)]
	bounces := c.chance(20)
	fails, total := 0, 0
	last := c.now()
	var over atomic.Bool
	what := ""
	up := func() {
		// A start.
		now := c.now()
		if total > 0 {
			c.checks++
			base := x.cfg.ErrorDelay
			if bounces {
				base = x.cfg.BounceDelay
			}
			lo, hi := want(fails, base)
			if d := now - last; d < lo-time.Millisecond || d > hi+time.Millisecond+slack {
				c.fail([]string{"C15"}, "backoff", "start %d comes %v after %s, failure %d in succession; want %v to %v (delay %v factor %v max %v)", total, d, what, fails, lo, hi, base, x.cfg.BackoffFactor, x.cfg.MaxDelay)
			}
		}
		total++
		// Stop before the end of time.
		if total >= times || now > 20*365*24*time.Hour {
			over.Store(true)
		} else if _, hi := want(fails+1, max(x.cfg.ErrorDelay, x.cfg.BounceDelay)); hi > 50*365*24*time.Hour {
			over.Store(true)
		}
	}
	fail := func(ran time.Duration) error {
		last = c.now()
		if over.Load() {
			what = "the end"
			return nil
		}
		if ran >= 0 && ran >= x.cfg.BackoffResetTime {
			fails = 1
		} else {
			fails++
		}
		what = fmt.Sprintf("a failure after %v", ran)
		if bounces {
			return dependency.ErrBounce
		}
		return fmt.Errorf("e%d", total)
	}
	done := make(chan struct{})
	mode := c.n(3)
	x.e.Install("failing", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		up()
		run := mode == 2 || mode == 1 && c.hr()%2 == 0
		if !run {
			err := fail(-1)
			if err == nil {
				close(done)
				return nil, dependency.ErrMissing
			}
			return nil, err
		}
		w := &eBigW{m: &eBigM{x: x, name: "failing", active: 1}, dead: make(chan struct{})}
		x.mu.Lock()
		x.live++
		x.mu.Unlock()
		ran := time.Duration(0)
		if c.hr()%20 == 0 {
			// Well away from the reset time in both directions.
			ran = x.cfg.BackoffResetTime + time.Second
		} else if c.hr()%4 == 0 {
			ran = x.cfg.BackoffResetTime / 2
		}
		go func() {
			time.Sleep(ran)
			c.mu.Lock()
			err := error(nil)
			c.mu.Unlock()
			err = fail(ran)
			w.end(err)
			if err == nil {
				close(done)
			}
		}()
		return w, nil
	}})
	select {
	case <-done:
	case <-time.After(100 * 365 * 24 * time.Hour):
		c.fail([]string{"C14", "C15"}, "restart", "the manifold isn't restarted after %s, failure %d in succession", what, fails)
	}
	c.settle()
	if total > times {
		c.fail([]string{"C14"}, "restart", "the manifold is started again after its end")
	}
	c.logf("%d failures, delay %v, factor %v, max %v", total, x.cfg.ErrorDelay, x.cfg.BackoffFactor, x.cfg.MaxDelay)
	c.logf("bounces %v mode %d", bounces, mode)
}

func (x *eBig) shutdown() {
	c := x.c
	waited := make(chan struct{})
	var werr error
	var left int
	go func() {
		werr = x.e.Wait()
		x.mu.Lock()
		left = x.live
		x.mu.Unlock()
		c.logf("  Wait = %v", werr)
		close(waited)
	}()
	if c.chance(50) {
		x.rough.Store([]int64{20, 500, 5000}[c.n(3)])
	}
	how := c.n(3)
	if how >= 1 {
		for i := 1 + c.n(5); i > 0 && len(x.ms) > 0; i-- {
			m := x.ms[c.n(len(x.ms))]
			x.mu.Lock()
			w := m.cur
			x.mu.Unlock()
			if w != nil {
				err := &eBigFatal{c.n(1000)}
				time.AfterFunc(time.Duration(c.n(3))*time.Microsecond, func() { w.end(err) })
			}
		}
	}
	if how <= 1 {
		time.Sleep(time.Duration(c.n(3)) * time.Microsecond)
		c.logf("Kill")
		x.e.Kill()
	}
	time.Sleep(10 * time.Second)
	if !isClosed(waited) && how == 2 {
		x.mu.Lock()
		nf := len(x.fatal)
		x.mu.Unlock()
		if nf > 0 {
			c.fail([]string{"C16"}, "hang", "the engine doesn't end after a fatal error")
		}
		c.logf("Kill")
		x.e.Kill()
		time.Sleep(10 * time.Second)
	}
	c.settle()
	c.checks++
	if !isClosed(waited) {
		c.fail([]string{"C16"}, "hang", "the engine doesn't end, %d workers and starts are left", x.live)
	}
	if left > 0 {
		c.fail([]string{"C16"}, "early", "Wait returned when %d workers or starts were there", left)
	}
	sort.Slice(x.fatal, func(i, j int) bool { return x.fatal[i].rank > x.fatal[j].rank })
	switch f, _ := werr.(*eBigFatal); {
	case len(x.fatal) == 0 && werr != nil:
		c.fail([]string{"C17"}, "error", "Wait = %v, there was no fatal error", werr)
	case len(x.fatal) > 0 && (f == nil || f.rank != x.fatal[0].rank):
		c.fail([]string{"C17"}, "error", "Wait = %v, the fatal errors were %v", werr, x.fatal)
	}
	rep := x.e.Report()
	if rep["state"] != "stopped" {
		c.fail([]string{"C18"}, "report", "the state of a dead engine is %v", rep["state"])
	}
	mans, _ := rep["manifolds"].(map[string]any)
	for name, r := range mans {
		r, _ := r.(map[string]any)
		if r["state"] != "stopped" {
			c.fail([]string{"C18"}, "report", "the state of %s in a dead engine is %v", name, r["state"])
		}
		if sc, _ := r["start-count"].(int); sc != x.recorded[name] {
			c.fail([]string{"C18"}, "report", "the start count of %s is %d, but %d starts were recorded", name, sc, x.recorded[name])
		}
	}
	c.checkLeaks()
}

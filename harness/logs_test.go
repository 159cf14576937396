package harness

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
)

func init() {
	register("logs", func(c *Case) {
		if c.chance(50) {
			runnerLogs(c)
		} else {
			engineLogs(c)
		}
	})
}

// logBook is a logger that keeps everything, for a look at what ought to be
// there, by the (unique) text of an error.
type logBook struct {
	c  *Case
	mu sync.Mutex
	es []logEntry
	// from is where the entries begin that find looks at.
	from int
}

// mark makes find look at later entries only.
func (l *logBook) mark() {
	l.mu.Lock()
	l.from = len(l.es)
	l.mu.Unlock()
}

type logEntry struct {
	level string
	text  string
}

func (l *logBook) add(level, f string, a []any) {
	s := fmt.Sprintf(f, a...)
	l.mu.Lock()
	l.es = append(l.es, logEntry{level, s})
	l.mu.Unlock()
	if level == "error" {
		l.c.logf("  error log: %s", s)
	}
}

func (l *logBook) Tracef(f string, a ...any) { l.add("trace", f, a) }
func (l *logBook) Debugf(f string, a ...any) { l.add("debug", f, a) }
func (l *logBook) Infof(f string, a ...any)  { l.add("info", f, a) }
func (l *logBook) Errorf(f string, a ...any) { l.add("error", f, a) }

// find says whether there is an entry of one of the levels with all the texts.
func (l *logBook) find(levels string, texts ...string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
next:
	for _, e := range l.es[l.from:] {
		if !strings.Contains(levels, e.level) {
			continue
		}
		for _, t := range texts {
			if !strings.Contains(e.text, t) {
				continue next
			}
		}
		return true
	}
	return false
}

func (l *logBook) errors() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := 0
	for _, e := range l.es {
		if e.level == "error" {
			n++
		}
	}
	return n
}

// logErr has a text that no other has.
type logErr struct {
	n    int
	kind string
	text string
	err  error
}

func (e *logErr) Error() string { return e.text }
func (e *logErr) Unwrap() error { return e.err }

// logStack is an error with a stack, whether or not from a panic.
type logStack struct {
	*logErr
	stack    []string
	panicked bool
}

func (e *logStack) StackTrace() []string { return e.stack }
func (e *logStack) Panicked() bool       { return e.panicked }

func (c *Case) logErr(n int, kind string, under error) *logErr {
	texts := []string{"<%d>", "boom <%d>", "100%% of <%d> %%s", "two\nlines <%d>", "\"<%d>\"", "<%d>: file not found"}
	s := fmt.Sprintf(texts[n*7%len(texts)], n)
	return &logErr{n, kind, s, under}
}

type logWorker struct {
	id    string
	dead  chan struct{}
	once  atomic.Bool
	err   error
	onKil error // what it ends with when it's killed
	inner *catacomb.Catacomb
	boom  chan any
}

func (w *logWorker) Kill() {
	if w.inner != nil {
		w.inner.Kill(nil)
		return
	}
	w.end(w.onKil)
}

func (w *logWorker) Wait() error {
	if w.inner != nil {
		return w.inner.Wait()
	}
	<-w.dead
	return w.err
}

func (w *logWorker) end(err error) {
	if w.once.CompareAndSwap(false, true) {
		w.err = err
		close(w.dead)
	}
}

func (w *logWorker) up() bool {
	if w == nil {
		return false
	}
	dead := (<-chan struct{})(w.dead)
	if w.inner != nil {
		dead = w.inner.Dead()
	}
	select {
	case <-dead:
		return false
	default:
		return true
	}
}

func newLogWorker(c *Case, id string, real bool) *logWorker {
	w := &logWorker{id: id, dead: make(chan struct{})}
	if real {
		w.inner = new(catacomb.Catacomb)
		w.boom = make(chan any, 1)
		if err := catacomb.Invoke(catacomb.Plan{Name: "logs", Site: w.inner, Work: func() error {
			select {
			case <-w.inner.Dying():
				return w.inner.ErrDying()
			case v := <-w.boom:
				if err, ok := v.(error); ok {
					return err
				}
				c.logf("%s panics", id)
				panicForTheLog(v)
				return nil
			}
		}}); err != nil {
			c.fail([]string{"C26"}, "invoke", "Invoke: %v", err)
		}
	}
	return w
}

// panicForTheLog is a function whose name must show up in the log.
//
//go:noinline
func panicForTheLog(v any) { panic(v) }

const panicFunc = "panicForTheLog"

// runnerLogs checks that what a runner does because of an error is in its log.
func runnerLogs(c *Case) {
	c.feature("runner")
	l := &logBook{c: c}
	delay := []time.Duration{time.Millisecond, time.Second, time.Hour}[c.n(3)]
	r, err := worker.NewRunner(worker.RunnerParams{
		Name: "logs", Clock: rClock{c}, RestartDelay: delay, Logger: l,
		IsFatal: func(err error) bool { return logKind(err) == "fatal" },
		ShouldRestart: func(err error) bool {
			return logKind(err) != "norestart"
		},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewRunner: %v", err)
	}
	var mu sync.Mutex
	ws := map[string]*logWorker{}
	startErr := map[string]error{}
	nerr, nlast := 0, 1000
	n := 1 + c.n(3)
	ids := c.names("id", n)
	for _, id := range ids {
		real := c.chance(40)
		if err := r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
			mu.Lock()
			err := startErr[id]
			delete(startErr, id)
			mu.Unlock()
			if err != nil {
				return nil, err
			}
			w := newLogWorker(c, id, real)
			mu.Lock()
			if !real && c.hr()%3 == 0 {
				// The shutdown doesn't go well.
				nlast++
				w.onKil = c.logErr(nlast, "fatal", nil)
			}
			ws[id] = w
			mu.Unlock()
			return w, nil
		}); err != nil {
			c.fail([]string{"C01"}, "start", "StartWorker = %v", err)
		}
	}
	c.settle()
	quoted := func(id string) string { return strings.Trim(fmt.Sprintf("%q", id), `"`) }
	// want checks the log for an error on which the runner has acted.
	want := func(id string, err error) {
		c.checks++
		texts := []string{err.Error(), quoted(id)}
		var p interface {
			StackTrace() []string
			Panicked() bool
		}
		if e, ok := err.(*logStack); ok {
			p = e
		}
		if p != nil && p.Panicked() {
			texts = append(texts, p.StackTrace()...)
		}
		if !l.find("error", texts...) {
			c.fail([]string{"C37"}, "log", "the error log doesn't have %q of %q", texts[0], id)
		}
	}
	dying := false
	for step := 1 + c.n(8); step > 0 && !dying; step-- {
		var up []string
		for _, id := range ids {
			if ws[id] != nil {
				up = append(up, id)
			}
		}
		if len(up) == 0 {
			break
		}
		id := up[c.n(len(up))]
		w := ws[id]
		before := l.errors()
		l.mark()
		// Often enough it's the same error again.
		if nerr == 0 || c.chance(60) {
			nerr++
		}
		var err error
		kind := c.oneOf("restart", "restart", "restart", "clean", "norestart", "stop", "panic", "start", "fatal")
		switch kind {
		case "stop":
			delete(ws, id)
			w.onKil = nil
			r.StopWorker(id)
			c.logf("StopWorker(%q)", id)
		case "clean":
			delete(ws, id)
			if w.inner != nil {
				w.inner.Kill(nil)
			} else {
				w.end(nil)
			}
			c.logf("%q ends", id)
		case "panic":
			if w.inner != nil {
				w.boom <- fmt.Sprintf("value <%d>", nerr)
				break
			}
			e := &logStack{c.logErr(nerr, "restart", nil), []string{"frame one", fmt.Sprintf("frame <%d>", nerr)}, true}
			if c.chance(30) {
				e.panicked = false
			}
			err = e
			c.logf("%q ends: %v", id, err)
			w.end(err)
		case "start":
			// It fails, and so does the next start.
			first := c.logErr(nerr, "restart", c.under())
			nerr += c.n(2)
			second := c.logErr(nerr, c.oneOf("restart", "norestart", "fatal"), c.under())
			mu.Lock()
			startErr[id] = second
			mu.Unlock()
			c.logf("%q ends: %v; the start too: %v", id, first, second)
			if w.inner != nil {
				w.boom <- error(first)
			} else {
				w.end(first)
			}
			c.settle()
			want(id, first)
			l.mark()
			time.Sleep(2*delay + time.Second)
			c.settle()
			switch second.kind {
			case "norestart":
				delete(ws, id)
			case "fatal":
				dying = true
				want(id, second)
			default:
				want(id, second)
			}
			continue
		default:
			err = c.logErr(nerr, kind, c.under())
			if kind == "norestart" {
				delete(ws, id)
			}
			c.logf("%q ends: %v", id, err)
			if w.inner != nil {
				w.boom <- err
			} else {
				w.end(err)
			}
		}
		c.feature("runner-" + kind)
		c.settle()
		switch kind {
		case "stop", "clean":
			c.checks++
			if l.errors() != before {
				c.fail([]string{"C37"}, "log", "the error log has got something, though nothing has failed")
			}
		case "panic":
			if w.inner != nil {
				c.checks++
				if text := fmt.Sprintf("value <%d>", nerr); !l.find("error", text, quoted(id), panicFunc) {
					c.fail([]string{"C37", "C27"}, "log", "the error log doesn't have the panic %q of %q with its stack", text, id)
				}
			} else {
				want(id, err)
			}
		case "restart":
			want(id, err)
		case "fatal":
			dying = true
			want(id, err)
		}
		time.Sleep(2*delay + time.Second)
		c.settle()
	}
	if !dying {
		l.mark()
	}
	r.Kill()
	time.Sleep(time.Minute)
	c.settle()
	for _, id := range ids {
		if w := ws[id]; w != nil && w.onKil != nil && w.err == w.onKil {
			c.feature("runner-late-fatal")
			want(id, w.err)
			dying = true
		}
	}
	if !dying {
		c.checks++
		if err := r.Wait(); err != nil {
			c.fail([]string{"C05"}, "wait", "Wait = %v", err)
		}
	}
	c.checkLeaks("C09")
}

// under is what an error may wrap; it's none of the logger's business.
func (c *Case) under() error {
	if c.chance(30) {
		return &logErr{0, "fatal", "something else", nil}
	}
	return nil
}

func logKind(err error) string {
	switch e := err.(type) {
	case *logErr:
		return e.kind
	case *logStack:
		return e.kind
	}
	return "restart"
}

// engineLogs checks that an engine logs the errors it hasn't expected, and
// only those, as errors.
func engineLogs(c *Case) {
	c.feature("engine")
	l := &logBook{c: c}
	delay := []time.Duration{0, time.Millisecond, time.Second, time.Hour}[c.n(4)]
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:    func(err error) bool { return err != nil && logKind(err) == "fatal" },
		WorstError: func(a, b error) error { return a },
		ErrorDelay: delay, BounceDelay: time.Millisecond,
		Clock: rClock{c}, Metrics: dependency.DefaultMetrics(), Logger: l,
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	type mf struct {
		name     string
		startErr error
		w        *logWorker
		filter   error
	}
	var mu sync.Mutex
	var ms []*mf
	n := 1 + c.n(3)
	for i, name := range c.names("mf", n) {
		m := &mf{name: name}
		real := c.chance(40)
		var inputs []string
		if i > 0 {
			inputs = []string{ms[0].name}
		}
		ms = append(ms, m)
		if err := e.Install(name, dependency.Manifold{
			Inputs: inputs,
			Filter: func(err error) error {
				mu.Lock()
				defer mu.Unlock()
				if m.filter != nil && err != nil {
					err, m.filter = m.filter, nil
				}
				return err
			},
			Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
				for _, in := range inputs {
					if err := g.Get(in, nil); err != nil {
						return nil, err
					}
				}
				mu.Lock()
				err := m.startErr
				m.startErr = nil
				mu.Unlock()
				if err != nil {
					return nil, err
				}
				w := newLogWorker(c, name, real)
				mu.Lock()
				m.w = w
				mu.Unlock()
				return w, nil
			},
		}); err != nil {
			c.fail([]string{"C11"}, "install", "Install(%q) = %v", name, err)
		}
	}
	rest := func() {
		for i := 0; i < 3; i++ {
			c.settle()
			time.Sleep(2*delay + time.Second)
		}
		c.settle()
	}
	rest()
	quoted := func(name string) string { return strings.Trim(fmt.Sprintf("%q", name), `"`) }
	nerr := 0
	gone := map[*mf]bool{}
	fatal := false
	for step := 1 + c.n(8); step > 0 && !fatal; step-- {
		m := ms[c.n(len(ms))]
		if gone[m] || !m.w.up() {
			continue
		}
		w := m.w
		before := l.errors()
		l.mark()
		if nerr == 0 || c.chance(60) {
			nerr++
		}
		token := fmt.Sprintf("<%d>", nerr)
		var err error
		want := "none" // where the error is to be found
		kind := c.oneOf("error", "error", "error", "again", "missing", "bounce", "uninstall", "clean", "panic", "killed", "fatal", "start")
		switch kind {
		case "error", "start":
			err = c.logErr(nerr, kind, c.under())
			want = "error"
		case "again":
			err = &logErr{nerr, kind, c.oneOf("try again ", "please try again: ", "we ought to try again (") + token, nil}
			want = "info"
		case "missing":
			err = &logErr{nerr, kind, token, dependency.ErrMissing}
		case "bounce":
			err = &logErr{nerr, kind, token, dependency.ErrBounce}
		case "uninstall":
			err = &logErr{nerr, kind, token, dependency.ErrUninstall}
			if m == ms[0] {
				err = &logErr{nerr, kind, token, dependency.ErrBounce}
			} else {
				gone[m] = true
			}
		case "fatal":
			err = &logErr{nerr, kind, token, nil}
			fatal = true
		}
		if kind == "killed" {
			// The engine stops the worker because an input bounces; whatever
			// it says then is no surprise.
			if m == ms[0] || m.w.inner != nil || !ms[0].w.up() {
				continue
			}
			w.onKil = c.logErr(nerr, kind, nil)
			first := ms[0].w
			c.logf("%q ends, so that %q is killed and says %v", ms[0].name, m.name, w.onKil)
			if first.inner != nil {
				first.boom <- error(&logErr{0, "bounce", "bounce", dependency.ErrBounce})
			} else {
				first.end(&logErr{0, "bounce", "bounce", dependency.ErrBounce})
			}
			rest()
			c.checks++
			c.feature("engine-killed")
			if !w.once.Load() {
				c.fail([]string{"C12"}, "state", "%q hasn't been killed", m.name)
			}
			if l.find("error", token) {
				c.fail([]string{"C37"}, "log", "the error log has %v of %q, which the engine had stopped itself", w.onKil, m.name)
			}
			continue
		}
		if (kind == "error" || kind == "missing" || kind == "bounce" || kind == "again") && c.chance(30) {
			// The filter decides.
			mu.Lock()
			m.filter = err
			mu.Unlock()
			err = &logErr{nerr, "other", "unfiltered", nil}
			if kind == "error" && c.chance(50) {
				err = &logErr{nerr, "other", "unfiltered", dependency.ErrMissing}
			}
		}
		c.feature("engine-" + kind)
		mu.Lock()
		m.w = nil
		mu.Unlock()
		switch {
		case kind == "panic" && w.inner != nil:
			w.boom <- "value " + token
			want = "error"
		case kind == "panic":
			err = &logStack{c.logErr(nerr, kind, nil), []string{"frame one", "frame " + token}, true}
			want = "error"
			fallthrough
		default:
			c.logf("%q ends: %v (%s)", m.name, err, kind)
			switch {
			case kind == "start":
				mu.Lock()
				m.startErr = err
				mu.Unlock()
				err = &logErr{nerr, "bounce", "bounce", dependency.ErrBounce}
				fallthrough
			default:
				switch {
				case w.inner != nil && err == nil:
					w.inner.Kill(nil)
				case w.inner != nil:
					w.boom <- err
				default:
					w.end(err)
				}
			}
		}
		rest()
		c.checks++
		texts := []string{token, quoted(m.name)}
		switch want {
		case "error":
			if !l.find("error", texts...) {
				c.fail([]string{"C37"}, "log", "the error log doesn't have the unexpected %v of %q", texts, m.name)
			}
			if kind == "panic" && w.inner != nil && !l.find("error debug info", token, panicFunc) {
				c.fail([]string{"C37", "C27"}, "log", "the log doesn't have the stack of the panic of %q", m.name)
			}
		case "info":
			if l.find("error", token) {
				c.fail([]string{"C37"}, "log", "the error log has %v of %q, which only asks to try again", texts, m.name)
			}
			if !l.find("info", texts...) {
				c.fail([]string{"C37"}, "log", "the info log doesn't have %v of %q", texts, m.name)
			}
		case "none":
			if l.find("error", token) {
				c.fail([]string{"C37"}, "log", "the error log has %v of %q, which was to be expected (%s)", texts, m.name, kind)
			}
		}
		if l.errors() > before && want != "error" {
			c.fail([]string{"C37"}, "log", "the error log has got something because %q ended with %v (%s)", m.name, err, kind)
		}
	}
	before := l.errors()
	e.Kill()
	time.Sleep(time.Minute)
	c.settle()
	if l.errors() > before {
		c.fail([]string{"C37"}, "log", "the error log has got something during a shutdown in which all workers end well")
	}
	if err := e.Wait(); fatal == (err == nil) {
		c.fail([]string{"C17"}, "wait", "Wait = %v", err)
	}
	c.checkLeaks("C16")
}

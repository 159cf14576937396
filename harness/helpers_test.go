package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/juju/testing"
	gc "gopkg.in/check.v1"
	tomb "gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	dt "github.com/juju/worker/v4/dependency/testing"
	"github.com/juju/worker/v4/workertest"
)

func init() {
	register("stop-dead", stopDead)
	register("workertest", workerTest)
	register("stub-getter", stubGetter)
	register("config", configCheck)
	register("graph", graphCheck)
}

// sdW is a worker for Stop and Dead.
type sdW struct {
	c     *Case
	kills atomic.Int32
	waits atomic.Int32
	done  chan struct{}
	err   error
	// linger is how long it takes to stop once killed; negative: forever.
	linger time.Duration
	obey   bool
	ended  atomic.Bool
}

func (w *sdW) Kill() {
	if w.kills.Add(1) == 1 && w.obey {
		go func() {
			if w.linger > 0 {
				time.Sleep(w.linger)
			}
			w.end()
		}()
	}
}

func (w *sdW) end() {
	if w.ended.CompareAndSwap(false, true) {
		w.c.logf("worker ends")
		close(w.done)
	}
}

func (w *sdW) Wait() error {
	w.waits.Add(1)
	<-w.done
	return w.err
}

// sdDW has a Dead method.
type sdDW struct {
	*sdW
	dead  chan struct{}
	deads atomic.Int32
	// moody workers sometimes have a channel of their own, a new one each
	// time, and sometimes not.
	moody bool
}

func (w *sdDW) Dead() <-chan struct{} {
	w.deads.Add(1)
	if w.moody {
		if w.c.hr()%2 == 0 {
			return nil
		}
		dead := make(chan struct{})
		go func() {
			<-w.done
			close(dead)
		}()
		return dead
	}
	return w.dead
}

func isClosed(ch <-chan struct{}) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

func stopDead(c *Case) {
	var err error
	if c.chance(60) {
		err = c.someErr(c.index)
	}
	w := &sdW{c: c, done: make(chan struct{}), err: err, obey: c.chance(60), linger: []time.Duration{0, time.Second, time.Hour, 2000 * time.Hour}[c.n(4)]}
	var ww worker.Worker = w
	var dw *sdDW
	mode := c.n(4)
	switch mode {
	case 3:
		ww = &sdDW{sdW: w, moody: true}
	case 1:
		dw = &sdDW{sdW: w, dead: make(chan struct{})}
		ww = dw
	case 2:
		dw = &sdDW{sdW: w}
		ww = dw
	}
	c.logf("worker: err=%v obey=%v linger=%v deadmode=%d", err, w.obey, w.linger, mode)
	type stop struct {
		done atomic.Bool
		err  error
		// endedFirst is set if the worker had ended when Stop returned.
		endedFirst bool
	}
	var stops []*stop
	var deads []<-chan struct{}
	ownDead := false
	check := func() {
		c.settle()
		c.checks++
		ended := w.ended.Load()
		if k := int(w.kills.Load()); k != len(stops) {
			c.fail([]string{"C29"}, "stop", "%d calls of Stop, but %d of Kill", len(stops), k)
		}
		for i, s := range stops {
			if s.done.Load() != ended {
				c.fail([]string{"C29"}, "stop", "Stop %d returned=%v, but the worker ended=%v", i, s.done.Load(), ended)
			}
			if s.done.Load() && (!same(s.err, err) || !s.endedFirst) {
				c.fail([]string{"C29"}, "stop", "Stop returned %v, should be %v; worker had ended: %v", s.err, err, s.endedFirst)
			}
		}
		for i, d := range deads {
			want := ended
			if mode == 1 {
				want = ownDead
			}
			if isClosed(d) != want {
				c.fail([]string{"C29"}, "dead", "Dead channel %d is closed=%v, should be %v", i, isClosed(d), want)
			}
		}
	}
	for i, n := 0, 3+c.n(10); i < n; i++ {
		switch c.n(6) {
		case 0, 1:
			s := &stop{}
			stops = append(stops, s)
			c.logf("Stop")
			go func() {
				s.err = worker.Stop(ww)
				s.endedFirst = w.ended.Load()
				c.logf("  Stop = %v", s.err)
				s.done.Store(true)
			}()
		case 2, 3:
			d := worker.Dead(ww)
			c.logf("Dead")
			if d == nil {
				c.fail([]string{"C29"}, "dead", "Dead returned nil")
			}
			if mode == 1 && d != (<-chan struct{})(dw.dead) {
				c.fail([]string{"C29"}, "dead", "Dead returned another channel than the worker's own")
			}
			deads = append(deads, d)
		case 4:
			if c.chance(40) {
				w.end()
			}
		case 5:
			d := []time.Duration{time.Millisecond, 2 * time.Second, 2 * time.Hour, 3000 * time.Hour}[c.n(4)]
			c.logf("advance %v", d)
			time.Sleep(d)
			if mode == 1 && w.ended.Load() && !ownDead {
				ownDead = true
				close(dw.dead)
			}
		}
		check()
	}
	w.end()
	check()
	c.settle()
	time.Sleep(3000 * time.Hour)
	if mode == 1 && !ownDead {
		ownDead = true
		close(dw.dead)
	}
	check()
	c.checkLeaks("C29")
}

// gcSuite runs a function with a real *gc.C.
type gcSuite struct{ f func(c *gc.C) }

func (s *gcSuite) TestIt(c *gc.C) { s.f(c) }

func withGC(f func(g *gc.C)) {
	gc.Run(&gcSuite{f}, &gc.RunConf{Output: io.Discard})
}

func workerTest(c *Case) {
	if c.chance(40) {
		testWorkers(c)
		return
	}
	ended := false
	withGC(func(g *gc.C) {
		for i, n := 0, 1+c.n(4); i < n; i++ {
			g.Succeed()
			helperCase(c, g)
		}
		g.Succeed()
		ended = true
	})
	if !ended {
		c.fail([]string{"C30"}, "helper", "a helper ended the test")
	}
	c.settle()
	c.checkLeaks("C30")
}

func helperCase(c *Case, g *gc.C) {
	short, long := testing.ShortWait, testing.LongWait
	never := time.Duration(-1)
	var err error
	if c.chance(60) {
		err = c.someErr(c.n(1000))
	}
	// at: when the worker ends by itself; linger: how long it takes once killed.
	times := []time.Duration{0, short / 2, short - time.Millisecond, short + time.Millisecond, long / 2, long - time.Millisecond, long + time.Millisecond, 2 * long, never}
	at := times[c.n(len(times))]
	linger := times[c.n(len(times))]
	w := &sdW{c: c, done: make(chan struct{}), err: err, obey: linger >= 0, linger: linger}
	start := c.now()
	switch {
	case at == 0:
		w.end()
	case at > 0:
		time.AfterFunc(at, w.end)
	}
	// endKilled is when the worker ends if it is killed now.
	endKilled := linger
	if at >= 0 && (linger < 0 || at < linger) {
		endKilled = at
	}
	within := func(end, limit time.Duration) bool { return end >= 0 && end < limit }
	helper := c.oneOf("CheckAlive", "CheckKilled", "CheckKill", "CleanKill", "DirtyKill", "CheckNilOrKill", "CheckNilOrKill-nil")
	c.logf("%s: ends at %v, lingers %v, err %v", helper, at, linger, err)
	c.feature(helper)
	var got error
	wantFail, wantErr, wantTime, wantKills := false, error(nil), time.Duration(0), int32(1)
	returns := false
	switch helper {
	case "CheckAlive":
		workertest.CheckAlive(g, w)
		wantFail = within(at, short)
		wantTime = short
		if wantFail {
			wantTime = at
		}
		wantKills = 0
	case "CheckKilled":
		got = workertest.CheckKilled(g, w)
		returns, wantErr, wantTime, wantKills = true, err, at, 0
		if !within(at, long) {
			wantFail, wantTime = true, long
		}
	case "CheckKill", "CleanKill", "DirtyKill", "CheckNilOrKill":
		wantTime = endKilled
		stops := within(endKilled, long)
		if !stops {
			wantTime = long
		}
		switch helper {
		case "CheckKill":
			got = workertest.CheckKill(g, w)
			returns, wantErr, wantFail = true, err, !stops
		case "CleanKill":
			workertest.CleanKill(g, w)
			wantFail = !stops || err != nil
		case "DirtyKill":
			before := len(g.GetTestLog())
			workertest.DirtyKill(g, w)
			wantFail = !stops
			if logged := g.GetTestLog()[before:]; stops && err != nil && !strings.Contains(logged, err.Error()) {
				c.fail([]string{"C30"}, "helper", "DirtyKill: ignored %v without a word: %q", err, logged)
			}
		case "CheckNilOrKill":
			workertest.CheckNilOrKill(g, w)
			wantFail = true
		}
	case "CheckNilOrKill-nil":
		if c.chance(50) {
			var nilW *sdW
			workertest.CheckNilOrKill(g, nilW)
		} else {
			workertest.CheckNilOrKill(g, nil)
		}
		wantKills = 0
	}
	took := c.now() - start
	c.logf("  failed=%v err=%v took=%v", g.Failed(), got, took)
	c.checks++
	if g.Failed() != wantFail {
		c.fail([]string{"C30"}, "helper", "%s: test failed=%v, should be %v", helper, g.Failed(), wantFail)
	}
	if returns {
		if wantFail && got == nil {
			c.fail([]string{"C30"}, "helper", "%s: failed, but returned no error", helper)
		}
		if !wantFail && !same(got, wantErr) {
			c.fail([]string{"C30"}, "helper", "%s: returned %v, should be %v", helper, got, wantErr)
		}
	}
	if took < wantTime || took > wantTime+slack/4 {
		c.fail([]string{"C30"}, "helper", "%s: returned after %v, should be %v", helper, took, wantTime)
	}
	if k := w.kills.Load(); k != wantKills {
		c.fail([]string{"C30"}, "helper", "%s: killed the worker %d times, should be %d", helper, k, wantKills)
	}
	w.end()
	time.Sleep(3 * long)
	c.settle()
}

func testWorkers(c *Case) {
	var err error
	if c.chance(60) {
		if err = c.someErr(c.index); err == tomb.ErrDying {
			// Their tombs wouldn't take it.
			err = context.Canceled
		}
	}
	type waiter struct {
		done atomic.Bool
		err  error
	}
	var w worker.Worker
	var real func()
	kind := c.oneOf("error", "dead", "forever", "watcher")
	c.feature("worker-" + kind)
	var fw workertest.NotAWatcher
	var pings, pending, got, size int
	var closed bool
	var pingDone []*atomic.Bool
	switch kind {
	case "error":
		w = workertest.NewErrorWorker(err)
	case "dead":
		w = workertest.NewDeadWorker(err)
	case "forever":
		f := workertest.NewForeverWorker(err)
		w, real = f, f.ReallyKill
	case "watcher":
		size = c.n(4)
		pending = c.n(size + 1)
		if c.chance(10) {
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				workertest.NewFakeWatcher(size, size+1)
				return
			}()
			if !panicked {
				c.fail([]string{"C30"}, "watcher", "a fake watcher was preloaded with more than it holds")
			}
		}
		fw = workertest.NewFakeWatcher(size, pending)
		w = fw
		err = nil
		if e := fw.Stop(); e != nil {
			c.fail([]string{"C30"}, "watcher", "the fake watcher's Stop returned %v", e)
		}
		if fw.Err() == nil {
			c.fail([]string{"C30"}, "watcher", "the fake watcher's Err returned nil")
		}
	}
	c.logf("test worker %s err=%v size=%d preload=%d", kind, err, size, pending)
	ended := kind == "dead"
	var ws []*waiter
	check := func() {
		c.settle()
		c.checks++
		for i, x := range ws {
			if x.done.Load() != ended {
				c.fail([]string{"C30"}, "worker", "%s worker: Wait %d returned=%v, should be %v", kind, i, x.done.Load(), ended)
			}
			if ended && !same(x.err, err) {
				c.fail([]string{"C30"}, "worker", "%s worker: Wait returned %v, should be %v", kind, x.err, err)
			}
		}
	}
	for i, n := 0, 3+c.n(8); i < n; i++ {
		switch c.n(6) {
		case 0, 1:
			x := &waiter{}
			ws = append(ws, x)
			c.logf("Wait")
			go func() {
				x.err = w.Wait()
				x.done.Store(true)
			}()
		case 2:
			c.logf("Kill")
			w.Kill()
			if kind == "error" || kind == "watcher" {
				ended = true
			}
		case 3:
			if real != nil && c.chance(40) {
				c.logf("ReallyKill")
				real()
				ended = true
			}
		case 4, 5:
			if kind != "watcher" || closed {
				time.Sleep(time.Hour)
				break
			}
			switch c.n(5) {
			case 0, 1:
				pings++
				pending++
				d := &atomic.Bool{}
				pingDone = append(pingDone, d)
				c.logf("Ping")
				go func() {
					fw.Ping()
					d.Store(true)
				}()
			case 2, 3:
				c.settle()
				ok := false
				select {
				case <-fw.Changes():
					ok = true
				default:
				}
				c.logf("change %v", ok)
				if ok != (pending > 0) {
					c.fail([]string{"C30"}, "watcher", "change=%v, but %d are outstanding", ok, pending)
				}
				if ok {
					got++
					pending--
				}
			case 4:
				if pending == 0 && c.chance(30) {
					closed = true
					c.logf("Close")
					fw.Close()
				}
			}
			c.settle()
			blocked := 0
			for _, d := range pingDone {
				if !d.Load() {
					blocked++
				}
			}
			if want := max(0, pending-size); blocked != want {
				c.fail([]string{"C30"}, "watcher", "%d Pings block, should be %d", blocked, want)
			}
		}
		check()
	}
	w.Kill()
	if real != nil {
		real()
	}
	ended = true
	check()
	if kind == "watcher" {
		for ; pending > 0; pending-- {
			select {
			case _, ok := <-fw.Changes():
				if !ok {
					c.fail([]string{"C30"}, "watcher", "closed early")
				}
			default:
				c.fail([]string{"C30"}, "watcher", "%d changes are missing", pending)
			}
			c.settle()
		}
		select {
		case _, ok := <-fw.Changes():
			if ok || !closed {
				c.fail([]string{"C30"}, "watcher", "a change too many")
			}
		default:
			if closed {
				c.fail([]string{"C30"}, "watcher", "not closed")
			}
		}
	}
	c.settle()
	c.checkLeaks("C30")
}

// ---- stub getter ----

type (
	sInt    int
	sString string
	sIface  interface{ Foo() int }
	sImpl   struct{ n int }
	sPtr    struct{ n int }
)

func (s sImpl) Foo() int  { return s.n }
func (s *sPtr) Foo() int  { return s.n }
func (s sInt) Foo() int   { return int(s) }
func (s *sPtr) Ping() int { return 0 }

type sErr struct{ s string }

func (e sErr) Error() string { return e.s }

func stubValue(c *Case) any {
	switch c.n(14) {
	case 12:
		// Only some convert to an array.
		return make([]int, c.n(4))
	case 13:
		return nil
	case 0:
		return c.n(1000)
	case 1:
		return int64(c.n(1000))
	case 2:
		return fmt.Sprint("s", c.n(1000))
	case 3:
		return sInt(c.n(1000))
	case 4:
		return sString(fmt.Sprint("t", c.n(1000)))
	case 5:
		return sImpl{c.n(1000)}
	case 6:
		return &sPtr{c.n(1000)}
	case 7:
		return []byte(fmt.Sprint("b", c.n(1000)))
	case 8:
		return float64(c.n(1000))
	case 9:
		return true
	case 10:
		return worker.Worker(&sdW{c: c})
	default:
		return map[string]int{"a": c.n(1000)}
	}
}

func stubTarget(c *Case) any {
	switch c.n(18) {
	case 15:
		return new([2]int)
	case 16:
		return new(*[2]int)
	case 0:
		return new(int)
	case 1:
		return new(int64)
	case 2:
		return new(string)
	case 3:
		return new(sInt)
	case 4:
		return new(sString)
	case 5:
		return new(sIface)
	case 6:
		return new(sImpl)
	case 7:
		return new(*sPtr)
	case 8:
		return new([]byte)
	case 9:
		return new(float64)
	case 10:
		return new(any)
	case 11:
		return new(worker.Worker)
	case 12:
		return new(map[string]int)
	case 13:
		return new(error)
	case 14:
		return new(bool)
	default:
		return []any{5, "x", sImpl{1}, []int{1}, map[string]int{}, func() {}}[c.n(6)]
	}
}

func stubGet(getter dependency.Getter, name string, target any) (err error, panicked any) {
	defer func() { panicked = recover() }()
	return getter.Get(name, target), nil
}

// stubDefect says which of the recorded defects makes a Get panic that has to
// choose one of outs for a target of type t.
func stubDefect(outs []any, t reflect.Type, text string) string {
	for _, o := range outs {
		v := reflect.ValueOf(o)
		switch {
		case !v.IsValid():
			if strings.Contains(text, "zero Value") {
				return "stub-nil-output"
			}
			return ""
		case v.CanConvert(t):
			return ""
		case v.Type().ConvertibleTo(t):
			if strings.Contains(text, "cannot convert slice with length") {
				return "stub-short-slice"
			}
			return ""
		}
	}
	return ""
}

type stubRes struct {
	err  error
	outs []any
}

func stubGetter(c *Case) {
	resources := map[string]stubRes{}
	raw := map[string]any{}
	stub := dt.StubResources{}
	useRaw := c.chance(50)
	names := []string{"a", "b", "c", "d", "", "long name"}
	for _, n := range names {
		if c.chance(30) {
			continue
		}
		var r stubRes
		switch c.n(4) {
		case 0:
			r.err = []error{sErr{"e" + n}, errors.New("x"), dependency.ErrMissing}[c.n(3)]
			raw[n] = r.err
			if !useRaw && c.chance(50) {
				r.outs = []any{stubValue(c)}
			}
		case 1:
			r.outs = []any{stubValue(c)}
			raw[n] = r.outs[0]
		default:
			for k := c.n(5); k > 0; k-- {
				r.outs = append(r.outs, stubValue(c))
			}
			l := append([]any{}, r.outs...)
			raw[n] = l
		}
		if c.chance(50) {
			stub[n] = dt.StubResource{Outputs: r.outs, Error: r.err}
		} else {
			x := dt.NewStubResource(r.outs...)
			x.Error = r.err
			stub[n] = x
		}
		resources[n] = r
	}
	var getter dependency.Getter
	switch {
	case !useRaw:
		getter = stub.Getter()
	case c.chance(50):
		getter = dt.NewStubResources(raw).Getter()
	default:
		getter = dt.StubGetter(raw)
	}
	c.logf("resources %v raw=%v", resources, useRaw)
	for i, n := 0, 4+c.n(12); i < n; i++ {
		name := append(names, "other")[c.n(len(names)+1)]
		r, known := resources[name]
		var target any
		if !c.chance(15) {
			target = stubTarget(c)
		}
		c.checks++
		v := reflect.ValueOf(target)
		isPtr := target != nil && v.Kind() == reflect.Ptr
		if isPtr && c.chance(50) {
			// Something that mustn't be lost when it fails.
			for k := 0; k < 5; k++ {
				if x := reflect.ValueOf(stubValue(c)); x.IsValid() && x.CanConvert(v.Elem().Type()) {
					v.Elem().Set(x.Convert(v.Elem().Type()))
				}
			}
		}
		before := ""
		var want any
		ok := false
		if isPtr {
			before = fmt.Sprintf("%#v", v.Elem().Interface())
			for _, o := range r.outs {
				if x := reflect.ValueOf(o); x.IsValid() && x.CanConvert(v.Elem().Type()) {
					want, ok = x.Convert(v.Elem().Type()).Interface(), true
					break
				}
			}
		}
		err, panicked := stubGet(getter, name, target)
		c.logf("Get(%q, %T) = %v", name, target, err)
		if panicked != nil {
			key := ""
			if known && r.err == nil && isPtr {
				key = stubDefect(r.outs, v.Elem().Type(), fmt.Sprint(panicked))
			}
			if !c.known(key) {
				c.fail([]string{"C31"}, "stub", "Get(%q, %T) panics with %v: %v", name, target, r.outs, panicked)
			}
			if before != fmt.Sprintf("%#v", v.Elem().Interface()) {
				c.fail([]string{"C31"}, "stub", "Get(%q, %T) panicked, but changed the target", name, target)
			}
			continue
		}
		c.feature(fmt.Sprintf("target %T", target))
		switch {
		case !known:
			if err == nil {
				c.fail([]string{"C31"}, "stub", "no error for an unknown name")
			}
		case r.err != nil:
			if !same(err, r.err) {
				c.fail([]string{"C31"}, "stub", "Get(%q) returned %v, should be %v", name, err, r.err)
			}
		case target == nil:
			if err != nil {
				c.fail([]string{"C31"}, "stub", "Get(%q, nil) returned %v", name, err)
			}
			continue
		case !isPtr || !ok:
			if err == nil {
				c.fail([]string{"C31"}, "stub", "Get(%q, %T) succeeded with %v", name, target, r.outs)
			}
		default:
			if err != nil {
				c.fail([]string{"C31"}, "stub", "Get(%q, %T) returned %v with %v", name, target, err, r.outs)
			}
			if got := v.Elem().Interface(); !reflect.DeepEqual(got, want) {
				c.fail([]string{"C31"}, "stub", "Get(%q, %T) gave %v, should be %v of %v", name, target, got, want, r.outs)
			}
			continue
		}
		if isPtr && before != fmt.Sprintf("%#v", v.Elem().Interface()) {
			c.fail([]string{"C31"}, "stub", "Get(%q, %T) failed, but changed the target", name, target)
		}
	}
}

// ---- configurations ----

func configCheck(c *Case) {
	if c.chance(25) {
		name := c.oneOf("", "", "x", " ", "a long name")
		p := worker.RunnerParams{Name: name}
		if c.chance(50) {
			p.IsFatal = func(error) bool { return true }
		}
		if c.chance(50) {
			p.RestartDelay = time.Second
		}
		n := runtime.NumGoroutine()
		r, err := worker.NewRunner(p)
		c.settle()
		c.checks++
		c.logf("NewRunner name=%q: %v", name, err)
		if (err == nil) != (name != "") || (r != nil) != (err == nil) {
			c.fail([]string{"C34"}, "config", "NewRunner with name %q: %v, %v", name, r, err)
		}
		if err != nil && runtime.NumGoroutine() != n {
			c.fail([]string{"C34", "C33"}, "config", "a refused runner started something")
		}
		if r != nil {
			r.Kill()
			if err := r.Wait(); err != nil {
				c.fail([]string{"C34", "C05"}, "config", "an unused runner returned %v", err)
			}
		}
		c.settle()
		c.checkLeaks()
		return
	}
	conf := dependency.EngineConfig{
		IsFatal:    func(error) bool { return false },
		WorstError: func(a, b error) error { return a },
		Clock:      rClock{c},
		Metrics:    dependency.DefaultMetrics(),
		Logger:     eLogger{c},
	}
	bad := ""
	set := func(s string, ok bool) {
		c.logf("%s", s)
		if !ok {
			bad += " " + s
		}
	}
	dur := func(name string, d *time.Duration) {
		*d = []time.Duration{0, 1, time.Second, 1 << 62, -1, -time.Second}[c.n(6)]
		if !c.chance(30) && *d < 0 {
			*d = 0
		}
		set(fmt.Sprintf("%s=%v", name, *d), *d >= 0)
	}
	dur("ErrorDelay", &conf.ErrorDelay)
	dur("BounceDelay", &conf.BounceDelay)
	dur("BackoffResetTime", &conf.BackoffResetTime)
	dur("MaxDelay", &conf.MaxDelay)
	conf.BackoffFactor = []float64{0, 0, 1, 1.0001, 2, 1e300, math.Inf(1), 0.999, 0.5, 1e-9, -1e-9, -1, -2, math.Inf(-1), math.NaN()}[c.n(15)]
	if !c.chance(40) && conf.BackoffFactor != 0 && !(conf.BackoffFactor >= 1) {
		conf.BackoffFactor = 1
	}
	set(fmt.Sprintf("BackoffFactor=%v", conf.BackoffFactor), conf.BackoffFactor == 0 || conf.BackoffFactor >= 1)
	if c.chance(8) {
		conf.IsFatal = nil
		set("no IsFatal", false)
	}
	if c.chance(8) {
		conf.WorstError = nil
		set("no WorstError", false)
	}
	if c.chance(8) {
		conf.Clock = nil
		set("no Clock", false)
	}
	if c.chance(8) {
		conf.Metrics = nil
		set("no Metrics", false)
	}
	if c.chance(8) {
		conf.Logger = nil
		set("no Logger", false)
	}
	if c.chance(50) {
		conf.Filter = func(err error) error { return err }
	}
	c.checks++
	verr := conf.Validate()
	n := runtime.NumGoroutine()
	e, err := dependency.NewEngine(conf)
	c.settle()
	if (verr == nil) != (bad == "") || (err == nil) != (bad == "") || (e != nil) != (err == nil) {
		c.fail([]string{"C34"}, "config", "bad=[%s], Validate=%v, NewEngine=%v, %v", bad, verr, e, err)
	}
	if err != nil && runtime.NumGoroutine() != n {
		c.fail([]string{"C34", "C33"}, "config", "a refused engine started something")
	}
	if e != nil {
		e.Kill()
		if err := e.Wait(); err != nil {
			c.fail([]string{"C34", "C17"}, "config", "an unused engine returned %v", err)
		}
	}
	c.settle()
	c.checkLeaks()
}

// ---- dependency graphs ----

type recInstaller struct {
	names []string
	fail  map[string]error
}

func (r *recInstaller) Install(name string, m dependency.Manifold) error {
	r.names = append(r.names, name)
	return r.fail[name]
}

func graphCheck(c *Case) {
	start := func(context.Context, dependency.Getter) (worker.Worker, error) { return nil, dependency.ErrMissing }
	validate := func(inputs map[string][]string) {
		ms := dependency.Manifolds{}
		for n, in := range inputs {
			ms[n] = dependency.Manifold{Inputs: in, Start: start}
		}
		c.checks++
		if err := dependency.Validate(ms); (err != nil) != hasCycle(inputs) {
			c.logf("Validate %v = %v", inputs, err)
			c.fail([]string{"C11"}, "graph", "Validate(%v) = %v", inputs, err)
		}
	}
	nodes := []string{"a", "b", "c", "d"}
	// Every graph of four nodes comes up in some case.
	base := c.index * 16 % 65536
	for g := base; g < base+16; g++ {
		inputs := map[string][]string{}
		for i, n := range nodes {
			for j, m := range nodes {
				if g>>(4*i+j)&1 != 0 {
					inputs[n] = append(inputs[n], m)
				}
			}
			if _, ok := inputs[n]; !ok {
				inputs[n] = nil
			}
		}
		validate(inputs)
	}
	c.logf("validated graphs %d to %d", base, base+15)
	c.feature("four-node-graphs")
	// A large random one, with inputs that don't exist.
	n := 2 + c.n(14)
	pct := []int{3, 8, 15, 40}[c.n(4)]
	back := []int{0, 0, 1, 5}[c.n(4)]
	perm := c.rng.Perm(n)
	inputs := map[string][]string{}
	for i := 0; i < n; i++ {
		name := fmt.Sprint("n", perm[i])
		inputs[name] = []string{}
		for j := 0; j < n; j++ {
			if j < i && c.chance(pct) || j >= i && c.chance(back) {
				inputs[name] = append(inputs[name], fmt.Sprint("n", perm[j]))
				if c.chance(10) {
					inputs[name] = append(inputs[name], fmt.Sprint("n", perm[j]))
				}
			}
		}
		if c.chance(20) {
			inputs[name] = append(inputs[name], "elsewhere")
		}
	}
	validate(inputs)
	c.logf("graph %v cyclic=%v", inputs, hasCycle(inputs))

	// The helper that installs several.
	rec := &recInstaller{fail: map[string]error{}}
	ms := dependency.Manifolds{}
	for name, in := range inputs {
		ms[name] = dependency.Manifold{Inputs: in, Start: start}
		if c.chance(10) {
			rec.fail[name] = fmt.Errorf("fail %s", name)
		}
	}
	err := dependency.Install(rec, ms)
	seen := map[string]bool{}
	for i, n := range rec.names {
		_, known := ms[n]
		if seen[n] || !known || rec.fail[n] != nil && i != len(rec.names)-1 {
			c.fail([]string{"C11"}, "install", "Install installed %v, failing %v", rec.names, rec.fail)
		}
		seen[n] = true
	}
	if len(rec.names) == 0 {
		if len(ms) > 0 || err != nil {
			c.fail([]string{"C11"}, "install", "Install returned %v and installed nothing of %v", err, ms)
		}
		return
	}
	last := rec.names[len(rec.names)-1]
	if f := rec.fail[last]; f != nil {
		if !wraps(err, f) {
			c.fail([]string{"C11"}, "install", "Install returned %v, should be %v", err, f)
		}
	} else if err != nil || len(seen) != len(ms) {
		c.fail([]string{"C11"}, "install", "Install returned %v and installed %v of %v", err, rec.names, ms)
	}

	// One after the other into an engine.
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:    func(err error) bool { return false },
		WorstError: func(a, b error) error { return a },
		Clock:      rClock{c}, Metrics: dependency.DefaultMetrics(), Logger: eLogger{c},
	})
	if err != nil {
		c.fail([]string{"C34"}, "config", "NewEngine: %v", err)
	}
	have := map[string][]string{}
	started := map[string]*atomic.Int32{}
	for k, total := 0, n+c.n(n+3); k < total; k++ {
		name := fmt.Sprint("n", c.n(n))
		in := inputs[name]
		if c.chance(20) {
			in = append([]string{fmt.Sprint("n", c.n(n))}, in...)
		}
		cnt := &atomic.Int32{}
		_, dup := have[name]
		next := map[string][]string{name: in}
		for k, v := range have {
			if k != name {
				next[k] = v
			}
		}
		cyc := hasCycle(next)
		err := e.Install(name, dependency.Manifold{Inputs: in, Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			cnt.Add(1)
			return nil, dependency.ErrMissing
		}})
		c.logf("install %s %v = %v", name, in, err != nil)
		c.settle()
		c.checks++
		if (err != nil) != (dup || cyc) {
			c.fail([]string{"C11"}, "install", "Install %s %v into %v: %v", name, in, have, err)
		}
		want := int32(1)
		if err != nil {
			want = 0
		} else {
			have[name] = in
			started[name] = cnt
		}
		if cnt.Load() != want {
			c.fail([]string{"C11"}, "install", "Install %s returned %v, started %d times", name, err, cnt.Load())
		}
	}
	rep, _ := e.Report()["manifolds"].(map[string]any)
	if len(rep) != len(have) {
		c.fail([]string{"C11", "C18"}, "install", "Report lists %v, should be %v", rep, have)
	}
	for n, s := range started {
		if s.Load() != 1 {
			c.fail([]string{"C11"}, "install", "%s was started %d times", n, s.Load())
		}
	}
	e.Kill()
	if err := e.Wait(); err != nil {
		c.fail([]string{"C17", "C11"}, "wait", "engine returned %v", err)
	}
	c.settle()
	c.checkLeaks()
}

package harness

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
)

func init() {
	register("catacomb-big", catacombBig)
}

// catacombBig entrusts a catacomb with lots of workers from several goroutines,
// lets most of them end well, and sees that the rest go with the catacomb.
func catacombBig(c *Case) {
	x := &cBig{c: c}
	site := &x.site
	n := []int{0, 1, 5, 50, 300}[c.n(5)]
	c.feature(fmt.Sprintf("%d inits", n))
	var init []worker.Worker
	for i := 0; i < n; i++ {
		init = append(init, x.worker())
	}
	workEnd := make(chan error, 1)
	adders := c.n(5)
	each := []int{1, 10, 60}[c.n(3)]
	var added atomic.Int64
	// In some cases it's the work function that adds workers.
	inWork := 0
	if c.chance(40) {
		inWork = []int{1, 20, 100}[c.n(3)]
	}
	add := func(k int) {
		for ; k > 0; k-- {
			w := x.worker()
			x.mu.Lock()
			w.given = true
			x.mu.Unlock()
			err := site.Add(w)
			x.mu.Lock()
			w.added = err == nil
			dying := x.dying
			x.mu.Unlock()
			if err != nil {
				if !isClosed(w.dead) {
					c.fail([]string{"C22"}, "add", "Add(w%d) = %v, but the worker hasn't ended", w.n, err)
				}
				if !dying {
					c.fail([]string{"C25", "C22"}, "add", "Add(w%d) = %v, but nothing has stopped the catacomb", w.n, err)
				}
			}
			added.Add(1)
			c.jitter()
		}
	}
	workDone := atomic.Bool{}
	for _, w := range init {
		w.(*cBigW).given, w.(*cBigW).added = true, true
	}
	err := catacomb.Invoke(catacomb.Plan{Name: "big", Site: site, Init: init, Work: func() error {
		defer workDone.Store(true)
		add(inWork)
		select {
		case err := <-workEnd:
			return err
		case <-site.Dying():
			time.Sleep(time.Duration(c.hr()%3) * time.Second)
			return site.ErrDying()
		}
	}})
	if err != nil {
		c.fail([]string{"C26"}, "invoke", "Invoke = %v", err)
	}
	// The slice is the caller's again.
	for i := range init {
		init[i] = nil
	}
	var wg sync.WaitGroup
	for i := 0; i < adders; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			add(each)
		}()
	}
	early := c.chance(30)
	if !early {
		time.Sleep(time.Minute)
		c.settle()
	}
	// Some end, and that's all right.
	pct := c.n(101)
	for _, w := range x.all() {
		if c.chance(pct) {
			if c.chance(50) {
				w.end(nil)
			} else {
				x.mu.Lock()
				w.asked = true
				x.mu.Unlock()
				w.Kill()
			}
			if c.chance(3) {
				time.Sleep(time.Duration(c.n(100)) * time.Millisecond)
			}
		}
	}
	if !early {
		time.Sleep(time.Minute)
		c.settle()
		c.checks++
		if isClosed(site.Dying()) || site.Err() == nil {
			c.fail([]string{"C25", "C28"}, "dying", "the catacomb is dying, with %v, though nothing has failed", site.Err())
		}
		for _, w := range x.all() {
			if w.killed.Load() > 0 && !w.asked {
				c.fail([]string{"C25"}, "kill", "w%d was killed", w.n)
			}
		}
	}
	// The end, from several sides.
	x.mu.Lock()
	x.dying = true
	x.mu.Unlock()
	var errs []error
	var emu sync.Mutex
	mkErr := func() error {
		emu.Lock()
		defer emu.Unlock()
		err := fmt.Errorf("e%d", len(errs))
		errs = append(errs, err)
		return err
	}
	sides := 1 + c.n(3)
	nilSide := false
	ctx := site.Context(context.Background())
	for i := 0; i < sides; i++ {
		how := c.n(4)
		live := x.live()
		c.logf("end %d, %d workers are live", how, len(live))
		switch {
		case how == 0:
			nilSide = true
			go site.Kill(nil)
		case how == 1:
			err := mkErr()
			go site.Kill(err)
		case how == 2 && len(live) > 0:
			w := live[c.n(len(live))]
			err := mkErr()
			go func() {
				c.jitter()
				w.end(err)
			}()
		case how == 3:
			err := error(nil)
			if c.chance(50) {
				err = mkErr()
			} else {
				nilSide = true
			}
			select {
			case workEnd <- err:
			default:
				nilSide = true
			}
		}
		if c.chance(30) {
			time.Sleep(time.Duration(c.n(4)) * time.Microsecond)
		}
	}
	done := make(chan struct{})
	var werr error
	left := 0
	go func() {
		werr = site.Wait()
		for _, w := range x.all() {
			x.mu.Lock()
			if w.added && !isClosed(w.dead) {
				left++
			}
			x.mu.Unlock()
		}
		if !workDone.Load() {
			left += 1000
		}
		c.logf("Wait = %v", werr)
		close(done)
	}()
	if c.chance(50) {
		time.Sleep(time.Duration(c.n(3000)) * time.Millisecond)
		// Too late for these.
		for i := c.n(3); i > 0; i-- {
			wg.Add(1)
			go func() {
				defer wg.Done()
				add(1 + each/5)
			}()
		}
	}
	time.Sleep(5 * time.Second)
	c.settle()
	if !isClosed(site.Dying()) {
		// The errors of workers that were about to end come to nothing.
		for _, w := range x.all() {
			if w.added && w.err != nil && isClosed(w.dead) {
				c.fail([]string{"C25"}, "failure", "w%d has failed with %v, but the catacomb lives", w.n, w.err)
			}
		}
		c.logf("Kill(nil)")
		site.Kill(nil)
		nilSide = true
	}
	time.Sleep(5 * time.Minute)
	c.settle()
	c.checks++
	wgDone := make(chan struct{})
	go func() {
		wg.Wait()
		close(wgDone)
	}()
	c.settle()
	if !isClosed(done) || !isClosed(wgDone) {
		c.fail([]string{"C22", "C23"}, "hang", "the catacomb doesn't end; %d workers are left, adders done: %v", len(x.live()), isClosed(wgDone))
	}
	if left > 0 {
		c.fail([]string{"C23"}, "early", "Wait returned though %d workers were left (1000: the work function)", left)
	}
	for _, w := range x.all() {
		if w.given && !isClosed(w.dead) {
			c.fail([]string{"C22"}, "left", "w%d was entrusted to the catacomb, and has not been stopped", w.n)
		}
	}
	known := werr == nil && nilSide
	emu.Lock()
	for _, err := range append(errs, x.fails...) {
		known = known || same(err, werr)
	}
	if werr == nil && len(errs) == 0 && len(x.fails) == 0 {
		known = true
	}
	emu.Unlock()
	if !known {
		c.fail([]string{"C24"}, "error", "Wait = %v; the errors were %v", werr, errs)
	}
	if !isClosed(site.Dead()) || !isClosed(site.Dying()) || ctx.Err() == nil || !wraps(site.Err(), werr) {
		c.fail([]string{"C28"}, "signals", "dead %v, dying %v, context %v, Err %v, Wait %v", isClosed(site.Dead()), isClosed(site.Dying()), ctx.Err(), site.Err(), werr)
	}
	// Nothing can change what it has ended with.
	site.Kill([]error{nil, errors.New("late"), site.ErrDying()}[c.n(3)])
	if err := site.Wait(); !same(err, werr) {
		c.fail([]string{"C24"}, "late", "Wait = %v, but it was %v before the last Kill", err, werr)
	}
	c.checkLeaks()
}

type cBig struct {
	c    *Case
	site catacomb.Catacomb
	mu   sync.Mutex
	ws   []*cBigW
	// dying is set once something is to stop the catacomb.
	dying bool
	fails []error
}

type cBigW struct {
	x       *cBig
	n       int
	once    sync.Once
	dead    chan struct{}
	err     error
	linger  time.Duration
	killErr error
	killed  atomic.Int64
	asked   bool // the workload killed it
	given   bool // it was passed to Add
	added   bool // and taken on
}

func (x *cBig) worker() *cBigW {
	c := x.c
	x.mu.Lock()
	defer x.mu.Unlock()
	w := &cBigW{x: x, n: len(x.ws), dead: make(chan struct{})}
	if c.hr()%3 == 0 {
		w.linger = time.Duration(c.hr()%3000) * time.Millisecond
	}
	if c.hr()%16 == 0 {
		w.killErr = fmt.Errorf("killed%d", w.n)
	}
	x.ws = append(x.ws, w)
	return w
}

func (x *cBig) all() []*cBigW {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*cBigW(nil), x.ws...)
}

func (x *cBig) live() []*cBigW {
	var out []*cBigW
	for _, w := range x.all() {
		if !isClosed(w.dead) {
			out = append(out, w)
		}
	}
	return out
}

func (w *cBigW) Kill() {
	if w.killed.Add(1) > 1 {
		return
	}
	x := w.x
	x.mu.Lock()
	dying, asked := x.dying, w.asked
	x.mu.Unlock()
	if !dying && !asked {
		x.c.fail([]string{"C25"}, "kill", "w%d was killed though nothing has stopped the catacomb", w.n)
	}
	err := w.killErr
	if !dying {
		err = nil
	}
	x.c.logf("  kill w%d", w.n)
	if w.linger == 0 {
		go w.end(err)
	} else {
		time.AfterFunc(w.linger, func() { w.end(err) })
	}
}

func (w *cBigW) Wait() error {
	<-w.dead
	return w.err
}

func (w *cBigW) end(err error) {
	w.once.Do(func() {
		w.x.c.logf("  w%d ends: %v", w.n, err)
		if err != nil {
			w.x.mu.Lock()
			w.x.fails = append(w.x.fails, err)
			w.x.mu.Unlock()
		}
		w.err = err
		close(w.dead)
	})
}

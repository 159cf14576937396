From ca5460dac0bef2526a48c5ba535c64a6675d9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 01/27] fix: return the first fatal error when MoreImportant is
 nil

RunnerParams documents that the first error reported is returned if
MoreImportant is nil, but the default said that every later error was
more important, so the last one was returned.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bda5937..bc35766 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From 670b31d59518dc86a286cd9d54ba5dd2ce7275c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 02/27] fix: let every StopAndRemoveWorker caller see the
 removal

The removal of a worker was signalled with a single value, so of several
StopAndRemoveWorker calls waiting for the same worker all but one would
wait forever. Close the channel instead.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bc35766..25be3a0 100644
--- a/runner.go
+++ b/runner.go
@@ -563,7 +563,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From 0feae51370f081e73333d9027e519f50315731eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 03/27] fix: don't hand out a dead worker while waiting to
 restart it

Between a worker's failure and its restart, Worker returned the dead
worker instead of waiting for its replacement, and Report described it as
started.
---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index 25be3a0..c75c516 100644
--- a/runner.go
+++ b/runner.go
@@ -551,6 +551,11 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The worker is gone, so don't hand it out while waiting
+	// for its replacement.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From 8a1202f5d597f5e5e808e975621670ecc3665bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 04/27] fix: don't restart a worker that StopAndRemoveWorker
 stopped

StopAndRemoveWorker killed the worker behind the runner's back, so one
that stopped with a non-fatal error was restarted, and the call waited
for a removal that never came.
---
 runner.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/runner.go b/runner.go
index c75c516..e815def 100644
--- a/runner.go
+++ b/runner.go
@@ -33,6 +33,7 @@ type Runner struct {
 	tomb     tomb.Tomb
 	startc   chan startReq
 	stopc    chan string
+	removec  chan removeReq
 	donec    chan doneInfo
 	startedc chan startInfo
 
@@ -119,6 +120,13 @@ type startReq struct {
 	reply chan error
 }
 
+type removeReq struct {
+	id string
+	// done identifies the worker to remove, so that a worker
+	// started with the same id later on isn't affected.
+	done <-chan struct{}
+}
+
 type startInfo struct {
 	id     string
 	worker Worker
@@ -236,6 +244,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	runner := &Runner{
 		startc:   make(chan startReq),
 		stopc:    make(chan string),
+		removec:  make(chan removeReq),
 		donec:    make(chan doneInfo),
 		startedc: make(chan startInfo),
 		params:   p,
@@ -293,6 +302,12 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
+	// Tell the runner, so that the worker isn't restarted
+	// if it stops with an error.
+	select {
+	case runner.removec <- removeReq{id, done}:
+	case <-runner.tomb.Dead():
+	}
 	workerErr := Stop(w)
 
 	select {
@@ -445,6 +460,12 @@ func (runner *Runner) run() error {
 			runner.params.Logger.Debugf("stop %q", id)
 			runner.killWorker(id)
 
+		case req := <-runner.removec:
+			runner.params.Logger.Debugf("remove %q", req.id)
+			if info := runner.workers[req.id]; info != nil && info.done == req.done {
+				runner.killWorker(req.id)
+			}
+
 		case info := <-runner.startedc:
 			runner.params.Logger.Debugf("%q started", info.id)
 			runner.setWorker(info.id, info.worker)
-- 
2.43.0


From 669de8e3fccc01d1a745a768130fa3b0a2891063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 05/27] fix: heed StopAndRemoveWorker's abort channel while the
 worker stops

The abort channel was ignored until the worker had stopped, which may be
never.
---
 runner.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index e815def..b124665 100644
--- a/runner.go
+++ b/runner.go
@@ -308,12 +308,15 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	case runner.removec <- removeReq{id, done}:
 	case <-runner.tomb.Dead():
 	}
-	workerErr := Stop(w)
+	workerErr := make(chan error, 1)
+	go func() {
+		workerErr <- Stop(w)
+	}()
 
 	select {
 	case <-abort:
 	case <-done:
-		return workerErr
+		return <-workerErr
 	}
 	return ErrAborted
 }
-- 
2.43.0


From b6ace57172ef349798c5c20776303bf335a88b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 06/27] fix: don't start a worker that was stopped while
 waiting to restart

A worker stopped (by StopWorker, or because another worker failed with a
fatal error) while it waited for its restart delay stayed known to the
runner until the end of the delay, was started once more, and only then
killed.
---
 runner.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/runner.go b/runner.go
index b124665..c83afaa 100644
--- a/runner.go
+++ b/runner.go
@@ -95,6 +95,10 @@ type workerInfo struct {
 	// still exist while this is true.
 	stopping bool
 
+	// stop is closed when stopping is set, to interrupt
+	// a runWorker goroutine that waits to restart the worker.
+	stop chan struct{}
+
 	// done is used to signal when the worker has finished
 	// running and is removed from the runner.
 	done chan struct{}
@@ -510,11 +514,12 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
+		stop:         make(chan struct{}),
 		done:         make(chan struct{}, 1),
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, 0, req.id, req.start)
+		go runner.runWorker(ctx, 0, req.id, req.start, nil)
 	})
 	return nil
 }
@@ -581,7 +586,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 	workerInfo.worker = nil
 	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
+		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start, workerInfo.stop)
 	})
 	workerInfo.restartDelay = params.RestartDelay
 }
@@ -634,6 +639,9 @@ func (runner *Runner) killWorkerLocked(id string) {
 	if info == nil {
 		return
 	}
+	if !info.stopping {
+		close(info.stop)
+	}
 	info.stopping = true
 	info.start = nil
 	if info.worker != nil {
@@ -645,13 +653,15 @@ func (runner *Runner) killWorkerLocked(id string) {
 	}
 }
 
-// runWorker starts the given worker after waiting for the given delay.
-func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc) {
+// runWorker starts the given worker after waiting for the given delay,
+// unless the stop channel is closed before the delay is over.
+func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc, stop <-chan struct{}) {
 	if delay > 0 {
 		runner.params.Logger.Infof("restarting %q in %v", id, delay)
-		// TODO(rog) provide a way of interrupting this
-		// so that it can be stopped when a worker is removed.
 		select {
+		case <-stop:
+			runner.donec <- doneInfo{id, nil}
+			return
 		case <-runner.tomb.Dying():
 			runner.donec <- doneInfo{id, nil}
 			return
-- 
2.43.0


From 582d1e356bf8381fce58de5299d1bf529fc8f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 07/27] fix: cancel the context of starting workers on a fatal
 error

A fatal error shut the runner down without cancelling the contexts passed
to the start functions, so one that waited for its context kept the runner
from ever finishing.
---
 runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runner.go b/runner.go
index c83afaa..6a7bb4d 100644
--- a/runner.go
+++ b/runner.go
@@ -559,6 +559,8 @@ func (runner *Runner) workerDone(info doneInfo) {
 			if !runner.isDying {
 				runner.isDying = true
 				runner.killAll()
+				// Cancel the contexts of workers that are starting.
+				runner.tomb.Kill(nil)
 			}
 			return
 		} else {
-- 
2.43.0


From f5f66e1d716818d117e008ae7e617e36f40cf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 08/27] fix: don't shorten the bounce delay of a worker that
 stopped cleanly

A worker that stopped without error (on its own, or because its inputs
changed) has no recent errors, so the delay before its next start was
divided by the backoff factor instead of being BounceDelay.
---
 dependency/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..bb81c2b 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,9 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			// A worker that stopped without error must not be restarted any
+			// sooner than one that failed once.
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, math.Max(float64(info.recentErrors-1), 0))
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0


From 92f4929fb1c0424df390d3134e40bd798553d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 09/27] fix: don't let the backoff delay overflow when there's
 no MaxDelay

Without a MaxDelay the exponential backoff soon overflowed time.Duration,
and the negative delay made the engine restart the failing worker without
any delay at all.
---
 dependency/engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index bb81c2b..9b5e425 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,11 +417,15 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
+			if engine.config.MaxDelay == 0 {
+				// There's no limit, but the (fuzzed) delay must not overflow.
+				maxDelay = math.MaxInt64 / 2
+			}
 			// A worker that stopped without error must not be restarted any
 			// sooner than one that failed once.
 			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, math.Max(float64(info.recentErrors-1), 0))
-			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
-				delay = engine.config.MaxDelay
+			if floatDelay > maxDelay {
+				delay = time.Duration(maxDelay)
 			} else {
 				delay = time.Duration(floatDelay)
 			}
-- 
2.43.0


From 480d7d925ec55dfe5bfaf0e2e29fc453adc50810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 10/27] fix: release a worker's context when the worker stops
 on its own

The context was only cancelled when the engine itself stopped the worker,
so an engine with a failing worker accumulated contexts (and the time to
create the next one grew with their number) until it was shut down.
---
 dependency/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dependency/engine.go b/dependency/engine.go
index 9b5e425..5ec73de 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -622,6 +622,11 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 	// Copy current info and check for reasons to stop the engine.
 	info := engine.current[name]
 
+	// Release the resources associated with the worker's context.
+	if info.cancel != nil {
+		info.cancel()
+	}
+
 	switch {
 	case err == nil:
 		engine.config.Logger.Debugf("%q manifold worker completed successfully", name)
-- 
2.43.0


From 083feccd02923de98e70bbd7c7f8c502bda53772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 11/27] fix: don't leak a goroutine when an engine with a self
 manifold stops

The loop doesn't wait for the engine's own worker before it finishes, so
nobody might be left to receive the notification that it stopped.
---
 dependency/engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 5ec73de..08db5ce 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -572,10 +572,15 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 	}
 
 	// We may or may not send on started, but we *must* send on stopped.
-	engine.stopped <- stoppedTicket{
+	err := startWorkerAndWait()
+	select {
+	case engine.stopped <- stoppedTicket{
 		name:        name,
-		err:         startWorkerAndWait(),
+		err:         err,
 		resourceLog: snapshot.accessLog,
+	}:
+	case <-engine.tomb.Dead():
+		// The loop doesn't wait for the engine's own worker to stop.
 	}
 }
 
-- 
2.43.0


From 2846460ac0c9c36f1cafa23eda44599fdba7b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 12/27] fix: don't treat the engine's own aborted starts as
 worker errors

When the inputs of a manifold change, or the engine is killed, before a
delayed start is due, the engine's internal error was passed to Filter and
IsFatal as if the worker had returned it. With an IsFatal that accepts any
error it doesn't know, that brought the engine down.
---
 dependency/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 08db5ce..183421b 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -666,13 +666,15 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		}
 	}
 
-	if filter := engine.manifolds[name].Filter; filter != nil {
+	// An aborted start is the engine's own doing, and no error of the worker's.
+	aborted := errors.Is(err, errAborted)
+	if filter := engine.manifolds[name].Filter; filter != nil && !aborted {
 		err = filter(err)
 	}
 
 	if info.stopped() {
 		engine.tomb.Kill(errors.Errorf("fatal: unexpected %q manifold worker stop", name))
-	} else if engine.config.IsFatal(err) {
+	} else if !aborted && engine.config.IsFatal(err) {
 		engine.worstError = engine.config.WorstError(err, engine.worstError)
 		engine.tomb.Kill(nil)
 	}
-- 
2.43.0


From 8551182a98aa14355ba27cc4f2d9514981593e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:40 +0000
Subject: [PATCH 13/27] fix: don't panic when a catacomb is killed with
 tomb.ErrStillAlive

It's documented as always safe to call Kill, but an added worker (or the
work func) that returned the Err() of a live catacomb or tomb would crash
the process.
---
 catacomb/catacomb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..d715d9d 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -253,6 +253,9 @@ func (catacomb *Catacomb) Kill(err error) {
 	if err == tomb.ErrDying {
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
 	}
+	if err == tomb.ErrStillAlive {
+		err = errors.New("bad catacomb Kill: tomb.ErrStillAlive")
+	}
 	var dyingErr dyingError
 	if errors.As(err, &dyingErr) {
 		if catacomb != dyingErr.catacomb {
-- 
2.43.0


From daf433bda8ec57905989d977e5bf2e3f2d8d2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 14/27] fix: report when a restarted worker was last started

Report's last start time stayed that of the first start request, however
often the worker had been restarted since.
---
 runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner.go b/runner.go
index 6a7bb4d..04b8058 100644
--- a/runner.go
+++ b/runner.go
@@ -609,6 +609,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From 0b8ce316f8f0d2c38e5475a2e9cef67d45266c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:05 +0000
Subject: [PATCH 15/27] fix: don't take the end of an engine's self manifold
 for a failure

---
 dependency/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 183421b..59816cb 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -565,7 +565,8 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 			// need this func to keep running to keep the self manifold
 			// accessible as a resource.
 			<-engine.tomb.Dying()
-			return tomb.ErrDying
+			// Stopping with the engine is no failure.
+			return nil
 		}
 
 		return worker.Wait()
-- 
2.43.0


From 5eee627b7fd157c4d7323c642db019e7a101d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:37 +0000
Subject: [PATCH 16/27] fix: let StopAndRemoveWorker be aborted while the
 runner is busy

Handing over the request to the run goroutine waited for as long as
that was busy (in a slow IsFatal, say), whatever the abort channel.
---
 runner.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runner.go b/runner.go
index 04b8058..cff9ed8 100644
--- a/runner.go
+++ b/runner.go
@@ -306,14 +306,14 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
-	// Tell the runner, so that the worker isn't restarted
-	// if it stops with an error.
-	select {
-	case runner.removec <- removeReq{id, done}:
-	case <-runner.tomb.Dead():
-	}
 	workerErr := make(chan error, 1)
 	go func() {
+		// Tell the runner, so that the worker isn't restarted
+		// if it stops with an error.
+		select {
+		case runner.removec <- removeReq{id, done}:
+		case <-runner.tomb.Dead():
+		}
 		workerErr <- Stop(w)
 	}()
 
-- 
2.43.0


From 751a92625477c2dcd3d6d71a834c8573c05e9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 17/27] fix: wake up the goroutine of an aborted lookup
 reliably

An abort that came before the goroutine waited was missed by it, and left it
behind until the runner's workers changed.
---
 runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner.go b/runner.go
index cff9ed8..987c62d 100644
--- a/runner.go
+++ b/runner.go
@@ -441,7 +441,10 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 	// than needed, but this shouldn't be a problem as in practice
 	// almost all the time Worker should not need to start the
 	// goroutine.
+	// The lock ensures that it doesn't miss being woken up.
+	runner.mu.Lock()
 	close(stopped)
+	runner.mu.Unlock()
 	runner.workersChangedCond.Broadcast()
 	return nil, nil, ErrAborted
 }
-- 
2.43.0


From 56990b8591a67c91537118d50f86b4d34b35427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 18/27] fix: ignore errors passed to Kill after the catacomb is
 dead

As documented. Such an error used to replace the nil error of a catacomb that
had ended without one, so that Err, and Wait if called again, returned it.
---
 catacomb/catacomb.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index d715d9d..259b246 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -31,6 +31,11 @@ type Catacomb struct {
 	wg    sync.WaitGroup
 	adds  chan worker.Worker
 	dirty int32
+
+	// mu protects finished, which is set when everything has
+	// completed, and Kill must not change the tomb any more.
+	mu       sync.Mutex
+	finished bool
 }
 
 // Plan defines the strategy for an Invoke.
@@ -125,6 +130,7 @@ func Invoke(plan Plan) (err error) {
 	)
 	pprof.Do(catacomb.scopedContext(), labels, func(ctx context.Context) {
 		catacomb.tomb.Go(func() error {
+			defer catacomb.finish()
 			defer catacomb.wg.Wait()
 			catacomb.Kill(runSafely(plan.Work))
 			return nil
@@ -269,7 +275,18 @@ func (catacomb *Catacomb) Kill(err error) {
 	// the catacomb should be responsible for ranking errors, just like the
 	// dependency.Engine does, rather than determining priority by scheduling
 	// alone.
-	catacomb.tomb.Kill(err)
+	catacomb.mu.Lock()
+	defer catacomb.mu.Unlock()
+	if !catacomb.finished {
+		catacomb.tomb.Kill(err)
+	}
+}
+
+// finish makes Kill ignore all further errors.
+func (catacomb *Catacomb) finish() {
+	catacomb.mu.Lock()
+	defer catacomb.mu.Unlock()
+	catacomb.finished = true
 }
 
 // ErrDying returns an error that can be used to Kill *this* catacomb without
-- 
2.43.0


From 319bc1303749bd2b6604e4af99a0b221716a5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:56 +0000
Subject: [PATCH 19/27] fix: don't hand out workers once the runner is shutting
 down

A Worker call that had to wait for its worker for a moment could return
it although the runner had been killed before the call was made.
---
 runner.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/runner.go b/runner.go
index 987c62d..2732743 100644
--- a/runner.go
+++ b/runner.go
@@ -420,16 +420,12 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 	}()
 	select {
 	case w := <-wc:
-		if errors.Is(w.err, errors.NotFound) {
-			// If it wasn't found, it's possible that's because
-			// the whole thing has shut down, so
-			// check for dying so that we don't mislead
-			// our caller.
-			select {
-			case <-runner.tomb.Dying():
-				return nil, nil, ErrDead
-			default:
-			}
+		// As above, check for dying so that we don't
+		// mislead our caller.
+		select {
+		case <-runner.tomb.Dying():
+			return nil, nil, ErrDead
+		default:
 		}
 		return w.w, w.done, w.err
 	case <-runner.tomb.Dying():
-- 
2.43.0


From a77f5500f6c4980760a83fe67c26d6cea152bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 20/27] fix: don't restart a worker at once because its delay
 overflows

With an ErrorDelay, BounceDelay or MaxDelay close to the longest duration
("never"), the fuzz or the conversion from float64 overflowed, and the
negative delay meant that the worker was restarted immediately.
---
 dependency/engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 59816cb..cc027c2 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,7 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			if engine.config.MaxDelay == 0 {
+			if engine.config.MaxDelay == 0 || maxDelay >= math.MaxInt64 {
 				// There's no limit, but the (fuzzed) delay must not overflow.
 				maxDelay = math.MaxInt64 / 2
 			}
@@ -432,7 +432,12 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 		}
 		// Fuzz to ±10% of final duration.
 		fuzz := rand.Float64()*0.2 + 0.9
-		delay = time.Duration(float64(delay) * fuzz).Round(time.Millisecond)
+		if floatDelay := float64(delay) * fuzz; floatDelay < math.MaxInt64 {
+			delay = time.Duration(floatDelay).Round(time.Millisecond)
+		} else {
+			// Don't overflow: a negative delay is no delay at all.
+			delay = math.MaxInt64
+		}
 	}
 
 	go engine.runWorker(name, delay, manifold.Start, snapshot)
-- 
2.43.0


From 640c35e464ab206d899125314bfb202c9532e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 21/27] fix: refuse a BackoffFactor that is not a number

---
 dependency/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index cc027c2..0581961 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -103,7 +103,7 @@ func (config *EngineConfig) Validate() error {
 	if config.BounceDelay < 0 {
 		return errors.New("BounceDelay is negative")
 	}
-	if config.BackoffFactor != 0 && config.BackoffFactor < 1 {
+	if config.BackoffFactor != 0 && !(config.BackoffFactor >= 1) {
 		return errors.Errorf("BackoffFactor %v must be >= 1", config.BackoffFactor)
 	}
 	if config.BackoffResetTime < 0 {
-- 
2.43.0


From f8e35446b6e501851ba96af257f0bf6d12366125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 22/27] fix: the stub getter panicked when a slice was too
 short for an array

---
 dependency/testing/stub.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dependency/testing/stub.go b/dependency/testing/stub.go
index d3c8d9f..85d9f1d 100644
--- a/dependency/testing/stub.go
+++ b/dependency/testing/stub.go
@@ -91,8 +91,8 @@ func (g *Getter) Get(name string, outPtr interface{}) error {
 	var errorOutputs []string
 	for _, output := range resource.Outputs {
 		setV := reflect.ValueOf(output)
-		setT := setV.Type()
-		if setT.ConvertibleTo(outT) {
+		// A slice that is too short doesn't convert to an array.
+		if setV.CanConvert(outT) {
 			outV.Set(setV.Convert(outT))
 			return nil
 		}
-- 
2.43.0


From 3bdd3af95ebf0dc2305ebe9b4add2e24d02c2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 23/27] fix: the stub getter panicked when one of the outputs
 was nil

---
 dependency/testing/stub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/testing/stub.go b/dependency/testing/stub.go
index 85d9f1d..21ccf7d 100644
--- a/dependency/testing/stub.go
+++ b/dependency/testing/stub.go
@@ -92,7 +92,7 @@ func (g *Getter) Get(name string, outPtr interface{}) error {
 	for _, output := range resource.Outputs {
 		setV := reflect.ValueOf(output)
 		// A slice that is too short doesn't convert to an array.
-		if setV.CanConvert(outT) {
+		if setV.IsValid() && setV.CanConvert(outT) {
 			outV.Set(setV.Convert(outT))
 			return nil
 		}
-- 
2.43.0


From c32c2fb3ad9897c9b3693277955787e15a0a008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 24/27] fix: keep the labels of Invoke's caller

Invoke ran pprof.Do on the caller's goroutine, which left it without the
profiler labels it had; a runner's worker whose start function invokes a
catacomb lost them for good.
---
 catacomb/catacomb.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 259b246..c96f596 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -128,13 +128,14 @@ func Invoke(plan Plan) (err error) {
 		"type", "catacomb",
 		"name", plan.Name,
 	)
-	pprof.Do(catacomb.scopedContext(), labels, func(ctx context.Context) {
-		catacomb.tomb.Go(func() error {
-			defer catacomb.finish()
-			defer catacomb.wg.Wait()
+	ctx := catacomb.scopedContext()
+	catacomb.tomb.Go(func() error {
+		defer catacomb.finish()
+		defer catacomb.wg.Wait()
+		pprof.Do(ctx, labels, func(context.Context) {
 			catacomb.Kill(runSafely(plan.Work))
-			return nil
 		})
+		return nil
 	})
 	return nil
 }
-- 
2.43.0


From f74ca1ea3ecc38b5f748dcde23d5e34cf108bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 25/27] Revert "fix: the stub getter panicked when one of the
 outputs was nil"

This reverts commit 3bdd3af95ebf0dc2305ebe9b4add2e24d02c2183.
---
 dependency/testing/stub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/testing/stub.go b/dependency/testing/stub.go
index 21ccf7d..85d9f1d 100644
--- a/dependency/testing/stub.go
+++ b/dependency/testing/stub.go
@@ -92,7 +92,7 @@ func (g *Getter) Get(name string, outPtr interface{}) error {
 	for _, output := range resource.Outputs {
 		setV := reflect.ValueOf(output)
 		// A slice that is too short doesn't convert to an array.
-		if setV.IsValid() && setV.CanConvert(outT) {
+		if setV.CanConvert(outT) {
 			outV.Set(setV.Convert(outT))
 			return nil
 		}
-- 
2.43.0


From ae2738503e2f89a491b4bd09723c806dcf709977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 26/27] Revert "fix: the stub getter panicked when a slice was
 too short for an array"

This reverts commit f8e35446b6e501851ba96af257f0bf6d12366125.
---
 dependency/testing/stub.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dependency/testing/stub.go b/dependency/testing/stub.go
index 85d9f1d..d3c8d9f 100644
--- a/dependency/testing/stub.go
+++ b/dependency/testing/stub.go
@@ -91,8 +91,8 @@ func (g *Getter) Get(name string, outPtr interface{}) error {
 	var errorOutputs []string
 	for _, output := range resource.Outputs {
 		setV := reflect.ValueOf(output)
-		// A slice that is too short doesn't convert to an array.
-		if setV.CanConvert(outT) {
+		setT := setV.Type()
+		if setT.ConvertibleTo(outT) {
 			outV.Set(setV.Convert(outT))
 			return nil
 		}
-- 
2.43.0


From f51a618d246246d737c960f4c78c5540eed12c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 27/27] fix: don't hand out an engine's own list of inputs in
 reports

---
 dependency/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 0581961..6837410 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"math"
 	"math/rand"
+	"slices"
 	"strings"
 	"time"
 
@@ -297,7 +298,7 @@ func (engine *Engine) manifoldsReport() map[string]interface{} {
 	for name, info := range engine.current {
 		report := map[string]interface{}{
 			KeyState:  info.state(),
-			KeyInputs: engine.manifolds[name].Inputs,
+			KeyInputs: slices.Clone(engine.manifolds[name].Inputs),
 		}
 		if info.startCount > 0 {
 			report[KeyStartCount] = info.startCount
-- 
2.43.0


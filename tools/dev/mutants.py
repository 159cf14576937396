"""Hand-written mutants for screen.py: each breaks the named properties."""
R, E, C, S, U = "runner.go", "dependency/engine.go", "catacomb/catacomb.go", "dependency/snapshot.go", "dependency/util.go"
W, K, X, F, T = "worker.go", "workertest/check.go", "workertest/workers.go", "workertest/fake_watcher.go", "dependency/testing/stub.go"
MUTANTS = []


def m(name, props, *edits):
    MUTANTS.append(dict(name=name, props=props.split(), edits=edits))


# Runner
m("c01-start-while-stopping", "C01", (R, "	if info != nil {\n		return errors.AlreadyExistsf", "	if info != nil && !info.stopping {\n		return errors.AlreadyExistsf"))
m("c01-ctx-background", "C01", (R, "pprof.Do(runner.tomb.Context(req.ctx), labels", "pprof.Do(runner.tomb.Context(context.Background()), labels"))
m("c01-ctx-notomb", "C01 C04", (R, "pprof.Do(runner.tomb.Context(req.ctx), labels", "pprof.Do(req.ctx, labels"))
m("c01-start-while-waiting", "C01", (R, "	if info != nil {\n		return errors.AlreadyExistsf", "	if info != nil && info.start != nil && info.worker == nil && !info.started.Equal(runner.params.Clock.Now().UTC()) {\n		info = nil\n	}\n	if info != nil {\n		return errors.AlreadyExistsf"))
m("c02-second-delay-zero", "C02", (R, "	workerInfo.restartDelay = params.RestartDelay\n", "	workerInfo.restartDelay = params.RestartDelay / 2\n"))
m("c02-delay-grows", "C02", (R, "	workerInfo.restartDelay = params.RestartDelay\n", "	workerInfo.restartDelay += params.RestartDelay\n"))
m("c02-should-restart-cause", "C02", (R, "if !params.ShouldRestart(info.err) {", "if !params.ShouldRestart(errors.Cause(info.err)) {"))
m("c02-failed-start-dropped", "C02", (R, "		if !params.ShouldRestart(info.err) {", "		if !params.ShouldRestart(info.err) || workerInfo.worker == nil && workerInfo.restartDelay == 0 {"))
m("c02-restart-ctx", "C02 C01", (R, "	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels", "	pprof.Do(context.Background(), workerInfo.labels"))
m("c03-stop-keeps-start", "C03", (R, "	info.stopping = true\n	info.start = nil\n	if info.worker != nil {\n", "	info.stopping = true\n	if info.worker != nil {\n		info.start = nil\n"))
m("c03-stop-during-start", "C03", (R, "if runner.isDying || info.stopping {", "if runner.isDying {"))
m("c03-stop-restarting", "C03", (R, "		case <-stop:\n			runner.donec <- doneInfo{id, nil}\n			return\n", ""))
m("c03-stop-only-nonfatal", "C03", (R, "	if workerInfo.start == nil {\n", "	if workerInfo.start == nil && (info.err == nil || workerInfo.worker != nil) {\n"))
m("c04-ignores-starting", "C04", (R, "		if runner.isDying && len(runner.workers) == 0 {", "		up := 0\n		for _, info := range runner.workers {\n			if info.worker != nil || !info.stopping {\n				up++\n			}\n		}\n		if runner.isDying && up == 0 && len(runner.workers) == 0 {"))
m("c04-start-when-dying", "C04", (R, "	if runner.isDying {\n		runner.params.Logger.Infof(\"ignoring", "	if runner.isDying && len(runner.workers) == 0 {\n		runner.params.Logger.Infof(\"ignoring"))
m("c04-setworker-dying", "C04", (R, "	for id := range runner.workers {\n		runner.killWorkerLocked(id)\n	}", "	for id, info := range runner.workers {\n		if info.worker == nil && !info.stopping {\n			continue\n		}\n		runner.killWorkerLocked(id)\n	}"), (R, "if runner.isDying || info.stopping {", "if info.stopping {"))
m("c04-pending-restart", "C04", (R, "		case <-runner.tomb.Dying():\n			runner.donec <- doneInfo{id, nil}\n			return\n", ""), (R, "	if !info.stopping {\n		close(info.stop)\n	}\n", "	if !info.stopping && !runner.isDying {\n		close(info.stop)\n	}\n"))
m("c05-first-only", "C05", (R, "if runner.finalError == nil || params.MoreImportant(info.err, runner.finalError) {", "if runner.finalError == nil || !runner.isDying && params.MoreImportant(info.err, runner.finalError) {"))
m("c05-not-when-stopping", "C05", (R, "		if params.IsFatal(info.err) {", "		if !(workerInfo.stopping && !runner.isDying) && params.IsFatal(info.err) {"))
m("c05-not-when-killed", "C05", (R, "			if runner.finalError == nil || params", "			if runner.finalError == nil && !runner.isDying || runner.finalError != nil && params"))
m("c05-traced", "C05", (R, "				runner.finalError = info.err\n", "				runner.finalError = errors.Trace(info.err)\n"))
m("c06-dying-returns-worker", "C06", (R, "	if w, done, err := getWorker(); err != nil || w != nil {\n		// The worker is immediately available  (or we know it's\n		// not going to become available). No need\n		// to block waiting for it.\n		runner.mu.Unlock()\n", "	if w, done, err := getWorker(); err != nil || w != nil {\n		// The worker is immediately available  (or we know it's\n		// not going to become available). No need\n		// to block waiting for it.\n		runner.mu.Unlock()\n		if err == nil {\n			return w, done, nil\n		}\n"))
m("c06-no-broadcast-done", "C06", (R, "			runner.workerDone(info)\n		}\n		runner.workersChangedCond.Broadcast()\n", "			runner.workerDone(info)\n			continue\n		}\n		runner.workersChangedCond.Broadcast()\n"))
m("c06-notfound-while-dying", "C06", (R, "		if errors.Is(w.err, errors.NotFound) {", "		if w.err != nil && w.w != nil {"))
m("c06-stale-after-restart", "C06 C08", (R, "	runner.mu.Lock()\n	workerInfo.worker = nil\n	runner.mu.Unlock()\n", "	if info.err == nil {\n		runner.mu.Lock()\n		workerInfo.worker = nil\n		runner.mu.Unlock()\n	}\n"))
m("c06-abort-ignored", "C06", (R, "	case <-runner.tomb.Dying():\n		return nil, nil, ErrDead\n	case <-abort:\n	}\n	// Stop our", "	case <-runner.tomb.Dead():\n		return nil, nil, ErrDead\n	case <-abort:\n	}\n	// Stop our"))
m("c07-no-wait-removal", "C07", (R, "	case <-done:\n		return <-workerErr\n	}\n	return ErrAborted", "	case err := <-workerErr:\n		return err\n	}\n	return ErrAborted"))
m("c07-swallow", "C07", (R, "	case <-done:\n		return <-workerErr\n", "	case <-done:\n		select {\n		case err := <-workerErr:\n			return err\n		default:\n			return nil\n		}\n"))
m("c07-dead-after", "C07", (R, "	case <-done:\n		return <-workerErr\n", "	case <-done:\n		err := <-workerErr\n		select {\n		case <-runner.tomb.Dying():\n			return ErrDead\n		default:\n		}\n		return err\n"))
m("c08-names-up-only", "C08", (R, "	for name := range runner.workers {\n", "	for name, info := range runner.workers {\n		if info.worker == nil && !info.stopping {\n			continue\n		}\n"))
m("c08-report-stopping", "C08", (R, "	if i.worker == nil {\n		return \"stopped\"", "	if i.worker == nil && i.start == nil {\n		return \"stopped\""))
m("c08-report-empty", "C08", (R, "report := r.Report(); len(report) > 0", "report := r.Report(); len(report) > 1"))
m("c09-start-ctx", "C09", (R, "		return <-reply\n	case <-ctx.Done():\n", "		return <-reply\n"))
m("c09-start-ctx2", "C09 C01", (R, "		return <-reply\n	case <-ctx.Done():\n", "		select {\n		case err := <-reply:\n			return err\n		case <-ctx.Done():\n			return ctx.Err()\n		}\n	case <-ctx.Done():\n"))
m("c09-stop-dying", "C09", (R, "	case runner.stopc <- id:\n		return nil\n	case <-runner.tomb.Dead():", "	case runner.stopc <- id:\n		return nil\n	case <-runner.tomb.Dying():\n		<-runner.tomb.Dead()"))
m("c09-start-dead", "C09", (R, "	case <-ctx.Done():\n	case <-runner.tomb.Dead():\n	}\n	return ErrDead", "	case <-ctx.Done():\n	case <-runner.tomb.Dead():\n		return nil\n	}\n	return ErrDead"))
m("c09-report-locked", "C09 C08", (R, "	runner.mu.Lock()\n	defer runner.mu.Unlock()\n	info := runner.workers[id]\n	info.worker = w\n", "	runner.mu.Lock()\n	defer runner.mu.Unlock()\n	info := runner.workers[id]\n	if info.worker != nil {\n		info.worker.Wait()\n	}\n	info.worker = w\n"))

# Engine
m("c10-forgets-late", "C10", (E, "	case info.stopping, engine.isDying():\n		engine.config.Logger.Tracef(\"%q manifold worker no longer required\", name)\n		worker.Kill()", "	case info.stopping, engine.isDying():\n		engine.config.Logger.Tracef(\"%q manifold worker no longer required\", name)\n		if !info.stopping {\n			worker.Kill()\n		}"))
m("c10-dying-start", "C10 C16", (E, "			// then cleanly Kill()ing ourselves again won't hurt anything.\n			worker.Kill()\n", "			// then cleanly Kill()ing ourselves again won't hurt anything.\n			if worker != engine {\n				worker.Kill()\n				return nil\n			}\n"))
m("c10-stop-nowait", "C10", (E, "		return worker.Wait()\n	}\n\n	// We may", "		select {\n		case <-snapshot.ctx.Done():\n			select {\n			case <-engine.tomb.Dying():\n			default:\n				go worker.Wait()\n				return nil\n			}\n		default:\n		}\n		return worker.Wait()\n	}\n\n	// We may"))
m("c11-dependents-first", "C11", (E, "	if err := engine.checkAcyclic(name, manifold); err != nil {", "	for _, input := range manifold.Inputs {\n		engine.dependents[input] = append(engine.dependents[input], name)\n	}\n	if err := engine.checkAcyclic(name, manifold); err != nil {"), (E, "	engine.manifolds[name] = manifold\n	for _, input := range manifold.Inputs {\n		engine.dependents[input] = append(engine.dependents[input], name)\n	}\n", "	engine.manifolds[name] = manifold\n"))
m("c11-doing", "C11", (U, "				return err\n			}\n		}\n		v.done[node] = true\n", "				return err\n			}\n			v.doing[node] = false\n		}\n		v.done[node] = true\n"))
m("c11-done-early", "C11", (U, "	if v.doing[node] {\n		return", "	if v.doing[node] && !v.done[node] {\n		return"), (U, "		for _, input := range v.inputs[node] {\n", "		v.done[node] = len(v.inputs[node]) > 2\n		for _, input := range v.inputs[node] {\n"))
m("c11-only-running", "C11", (E, "	for name, manifold := range engine.manifolds {\n		manifolds[name] = manifold\n", "	for name, manifold := range engine.manifolds {\n		if engine.current[name].err != nil {\n			continue\n		}\n		manifolds[name] = manifold\n"))
m("c11-install-hang", "C11 C16", (E, "	case <-engine.tomb.Dying():\n		return errors.New(\"engine is shutting down\")\n	case engine.install", "	case <-engine.tomb.Dead():\n		return errors.New(\"engine is shutting down\")\n	case engine.install"))
m("c12-skip-starting", "C12", (E, "		} else {\n			engine.requestStop(dependentName)\n", "		} else if !engine.current[dependentName].starting {\n			engine.requestStop(dependentName)\n"))
m("c12-not-when-stopping", "C12", (E, "	if info.worker != nil {\n		engine.bounceDependents(name)\n	}\n}", "	if info.worker != nil && !info.stopping {\n		engine.bounceDependents(name)\n	}\n}"))
m("c12-not-on-nil", "C12", (E, "	if info.worker != nil {\n		engine.bounceDependents(name)\n	}\n}", "	if info.worker != nil && (err != nil || info.stopping) {\n		engine.bounceDependents(name)\n	}\n}"))
m("c12-stopped-not-started", "C12", (E, "		if engine.current[dependentName].stopped() {\n			engine.requestStart", "		if info := engine.current[dependentName]; info.stopped() {\n			if info.err == nil && info.startCount > 0 {\n				continue\n			}\n			engine.requestStart"))
m("c12-snapshot-late", "C12 C13", (E, "		workers[resourceName] = engine.current[resourceName].worker\n", "		if engine.current[resourceName].stopping {\n			workers[resourceName] = nil\n			continue\n		}\n		workers[resourceName] = engine.current[resourceName].worker\n"))
m("c13-nil-check-first", "C13", (S, "	} else if input == nil {", "	} else if input == nil && out != nil {"))
m("c13-no-expire-on-error", "C13", (E, "		return start(snapshot.ctx, snapshot)\n	}\n", "		w, err := start(snapshot.ctx, snapshot)\n		if err == nil {\n			snapshot.expire()\n		}\n		return w, err\n	}\n"), (E, "		defer snapshot.expire()\n", ""))
m("c13-all-workers", "C13", (S, "	input, found := s.workers[resourceName]\n	if !found {", "	input, found := s.workers[resourceName]\n	if !found && len(s.workers) == 0 {"))
m("c13-output-err-missing", "C13", (S, "	return convert(input, out)\n", "	if err := convert(input, out); err != nil {\n		return errors.Annotatef(ErrMissing, \"%q not convertible\", resourceName)\n	}\n	return nil\n"))
m("c14-missing-eq", "C14", (E, "		case errors.Is(err, ErrMissing):\n			// The task can't", "		case err == ErrMissing:\n			// The task can't"))
m("c14-bounce-eq", "C14", (E, "		case errors.Is(err, ErrBounce):\n", "		case err == ErrBounce:\n"))
m("c14-uninstall-stopping", "C14 C20", (E, "	if info.stopping {\n		engine.requestStart(name, engine.config.BounceDelay)", "	if info.stopping && !errors.Is(err, ErrUninstall) {\n		engine.requestStart(name, engine.config.BounceDelay)"))
m("c14-missing-stopping", "C14 C12", (E, "	if info.stopping {\n		engine.requestStart(name, engine.config.BounceDelay)", "	if info.stopping && !errors.Is(err, ErrMissing) {\n		engine.requestStart(name, engine.config.BounceDelay)"))
m("c14-filter-started-only", "C14", (E, "filter != nil && !aborted {", "filter != nil && !aborted && !info.starting {"))
m("c14-error-stopping-delay", "C14", (E, "	if info.stopping {\n		engine.requestStart(name, engine.config.BounceDelay)", "	if info.stopping {\n		delay := engine.config.BounceDelay\n		if err != nil && !aborted {\n			delay = engine.config.ErrorDelay\n		}\n		engine.requestStart(name, delay)"))
m("c15-missing-counts", "C15", (E, "		// missing a dependency does (not?) trigger exponential backoff\n		info.recentErrors = 1\n", "		// missing a dependency does (not?) trigger exponential backoff\n"))
m("c15-no-reset", "C15", (E, "			// we were able to successfully run for long enough to reset the attempt count\n			info.recentErrors = 1\n", "			// we were able to successfully run for long enough to reset the attempt count\n			info.recentErrors = 2\n"))
m("c15-reset-zero-start", "C15", (E, "if info.startedTime.IsZero() || timeSinceStarted < engine.config.BackoffResetTime {", "if timeSinceStarted < engine.config.BackoffResetTime {"))
m("c15-max-after-fuzz", "C15", (E, "		fuzz := rand.Float64()*0.2 + 0.9\n", "		fuzz := rand.Float64()*0.3 + 0.9\n"))
m("c15-round-second", "C15", (E, "* fuzz).Round(time.Millisecond)", "* fuzz).Truncate(time.Second)"))
m("c15-clean-exit", "C15", (E, "		engine.config.Logger.Debugf(\"%q manifold worker completed successfully\", name)\n		info.recentErrors = 0\n", "		engine.config.Logger.Debugf(\"%q manifold worker completed successfully\", name)\n"))
m("c15-bounce-nobackoff", "C15", (E, "		if engine.config.BackoffFactor > 0 {", "		if engine.config.BackoffFactor > 0 && delay != engine.config.BounceDelay {"))
m("c16-requeststart-dying", "C16", (E, "		engine.config.Logger.Tracef(\"not starting %q manifold worker (shutting down)\", name)\n		return\n", "		engine.config.Logger.Tracef(\"not starting %q manifold worker (shutting down)\", name)\n"), (E, "	if engine.isDying() {\n		engine.config.Logger.Tracef(\"permanently stopped %q manifold worker (shutting down)\", name)\n		return\n	}\n", ""))
m("c16-starting-ignored", "C16", (E, "		if !info.stopped() && info.worker != engine {", "		if info.worker != nil && info.worker != engine {"))
m("c16-dying-abort", "C16", (E, "		select {\n		case <-engine.tomb.Dying():\n			return nil, errAborted\n		case <-snapshot.ctx.Done():", "		select {\n		case <-snapshot.ctx.Done():"))
m("c16-fatal-then-stop", "C16", (E, "			for name := range engine.current {\n				engine.requestStop(name)\n			}", "			for name, info := range engine.current {\n				if info.starting && !info.stopping && info.startCount > 0 {\n					continue\n				}\n				engine.requestStop(name)\n			}"))
m("c17-first-only", "C17", (E, "		engine.worstError = engine.config.WorstError(err, engine.worstError)\n", "		if engine.worstError == nil || !engine.isDying() {\n			engine.worstError = engine.config.WorstError(err, engine.worstError)\n		}\n"))
m("c17-not-stopping", "C17", (E, "	} else if !aborted && engine.config.IsFatal(err) {", "	} else if !aborted && (!info.stopping || engine.isDying()) && engine.config.IsFatal(err) {"))
m("c17-swapped", "C17", (E, "engine.config.WorstError(err, engine.worstError)", "engine.config.WorstError(engine.worstError, err)"))
m("c17-filter-nil", "C17", (E, "	if engine.config.Filter != nil {\n		return", "	if engine.config.Filter != nil && err != nil {\n		return"))
m("c17-raw-fatal", "C17", (E, "		err = filter(err)\n	}\n", "		if !engine.config.IsFatal(err) {\n			err = filter(err)\n		}\n	}\n"))
m("c18-count-late", "C18", (E, "		engine.config.Logger.Tracef(\"%q manifold worker no longer required\", name)\n", "		engine.config.Logger.Tracef(\"%q manifold worker no longer required\", name)\n		engine.metrics.RecordStart(name)\n"))
m("c18-err-kept", "C18", (E, "	info.startAttempts++\n	info.err = nil\n", "	info.startAttempts++\n"))
m("c18-started-kept", "C18", (E, "		startCount:    info.startCount,\n", "		startCount:    info.startCount,\n		startedTime:   info.startedTime,\n"))
m("c18-count-lost", "C18", (E, "		startCount:    info.startCount,\n", ""))
m("c18-unfiltered", "C18", (E, "		err:         err,\n		resourceLog: resourceLog,\n		// Keep", "		resourceLog: resourceLog,\n		// Keep"))
m("c18-dead-noerr", "C18", (E, "		if err := engine.Wait(); err != nil {\n", "		if err := engine.worstError; err != nil {\n"))
m("c18-dead-manifolds", "C18", (E, "			KeyState:     \"stopped\",\n			KeyManifolds: engine.manifoldsReport(),\n", "			KeyState:     \"stopped\",\n			KeyManifolds: map[string]interface{}{},\n"))
m("c18-report-stopping", "C18", (E, "		if reporter, ok := info.worker.(Reporter); ok {", "		if reporter, ok := info.worker.(Reporter); ok && !info.stopping {"))
m("c19-cancel-not-up", "C19", (E, "	if info.cancel != nil {\n		info.cancel()\n		info.cancel = nil\n	}\n", "	if info.cancel != nil && info.worker == nil {\n		info.cancel()\n		info.cancel = nil\n	}\n"))
m("c19-cancel-only-up", "C19 C12", (E, "	if info.cancel != nil {\n		info.cancel()\n		info.cancel = nil\n	}\n", "	if info.cancel != nil && (info.worker != nil || info.startCount == 0) {\n		info.cancel()\n		info.cancel = nil\n	}\n"))
m("c19-started-cancel", "C19", (E, "		info.worker = worker\n		info.starting = false\n", "		info.worker = worker\n		info.starting = false\n		if info.startCount > 1 && info.cancel != nil {\n			info.cancel()\n		}\n"))
m("c20-dependents-deleted", "C20", (E, "	delete(engine.current, name)\n	delete(engine.manifolds, name)\n", "	delete(engine.current, name)\n	delete(engine.manifolds, name)\n	delete(engine.dependents, name)\n"))
m("c20-values-kept", "C20", (E, "		depSet.Remove(name)\n", "		if len(dependents) > 1 {\n			depSet.Remove(name)\n		}\n"))
m("c20-no-bounce", "C20 C12", (E, "			engine.uninstall(name)\n", "			engine.uninstall(name)\n			return\n"))
m("c20-current-kept", "C20 C18", (E, "			engine.uninstall(name)\n", "			attempts := engine.current[name]\n			engine.uninstall(name)\n			if attempts.startCount > 1 {\n				engine.current[name] = attempts\n			}\n"))
m("c21-hang", "C21 C16", (E, "		if !info.stopped() && info.worker != engine {", "		if !info.stopped() {"))
m("c21-recursion", "C21", (E, "			if reporter != engine {", "			if reporter != engine || info.stopping {"))
m("c21-out-worker", "C21", (U, "			default:\n				return errors.Errorf(\"out should", "			case *worker.Worker:\n				*outPtr = in\n			default:\n				return errors.Errorf(\"out should"))
m("c21-kill-on-late", "C21", (E, "			<-engine.tomb.Dying()\n			// Stopping with the engine is no failure.\n			return nil\n", "			select {\n			case <-engine.tomb.Dying():\n			case <-snapshot.ctx.Done():\n			}\n			// Stopping with the engine is no failure.\n			return nil\n"))

# Catacomb
m("c22-invoke-nostop", "C22", (C, "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {\n		return errors", "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {\n		plan.Init = nil\n		return errors"))
m("c22-add-async", "C22", (C, "		if err := worker.Stop(w); err != nil {\n			return errors.Trace(err)\n		}\n		return catacomb.ErrDying()", "		w.Kill()\n		go w.Wait()\n		return catacomb.ErrDying()"))
m("c22-adds-buffered", "C22 C23", (C, "	catacomb.adds = make(chan worker.Worker)\n", "	catacomb.adds = make(chan worker.Worker, 1)\n"))
m("c22-init-slice", "C22", (C, "	for _, w := range workers {\n		if w != nil {\n			worker.Stop(w)\n		}\n	}", "	for _, w := range workers {\n		if w == nil {\n			return\n		}\n		worker.Stop(w)\n	}"))
m("c22-stop-onlykill", "C22", (C, "		if w != nil {\n			worker.Stop(w)\n		}", "		if w != nil {\n			w.Kill()\n		}"))
m("c22-add-err", "C22", (C, "		if err := worker.Stop(w); err != nil {\n			return errors.Trace(err)\n		}\n		return catacomb.ErrDying()", "		if err := worker.Stop(w); err != nil {\n			catacomb.Kill(err)\n		}\n		return catacomb.ErrDying()"))
m("c23-no-listen-wg", "C23", (C, "	catacomb.wg.Add(1)\n	go func() {\n		defer catacomb.wg.Done()\n", "	go func() {\n"))
m("c23-wg-one", "C23", (C, "	catacomb.wg.Add(2)\n	go func() {\n		defer catacomb.wg.Done()\n		defer close(workerDone)", "	catacomb.wg.Add(1)\n	go func() {\n		defer close(workerDone)"), (C, "		case <-catacomb.tomb.Dying():\n			worker.Stop(w)\n", "		case <-catacomb.tomb.Dying():\n			w.Kill()\n"))
m("c23-work-nil", "C23", (C, "			catacomb.Kill(runSafely(plan.Work))\n			return nil\n", "			if err := runSafely(plan.Work); err != nil {\n				catacomb.Kill(err)\n			}\n			return nil\n"))
m("c24-unwrapped", "C24", (C, "	if errors.As(err, &dyingErr) {", "	if d, ok := err.(dyingError); ok {\n		dyingErr = d"))
m("c24-worker-tomb", "C24", (C, "		if err := w.Wait(); err != nil {\n			catacomb.Kill(err)\n", "		if err := w.Wait(); err != nil {\n			catacomb.tomb.Kill(err)\n"))
m("c24-cause", "C24", (C, "	catacomb.tomb.Kill(err)\n}", "	catacomb.tomb.Kill(errors.Cause(err))\n}"))
m("c24-other-dying", "C24", (C, "		if catacomb != dyingErr.catacomb {", "		if catacomb != dyingErr.catacomb && catacomb.tomb.Alive() {"))
m("c24-tomb-dying", "C24", (C, "	if err == tomb.ErrDying {\n		err =", "	if err == tomb.ErrDying && catacomb.tomb.Alive() {\n		err ="))
m("c25-cancelled", "C25", (C, "		if err := w.Wait(); err != nil {\n			catacomb.Kill(err)", "		if err := w.Wait(); err != nil && !errors.Is(err, context.Canceled) {\n			catacomb.Kill(err)"))
m("c25-last-worker", "C25", (C, "		case w := <-catacomb.adds:\n				catacomb.add(w)\n", "		case w := <-catacomb.adds:\n				go func() {\n					defer func() { recover() }()\n					catacomb.add(w)\n				}()\n"))
m("c26-load-store", "C26", (C, "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {", "	if used := atomic.LoadInt32(&catacomb.dirty) != 0; !used {\n		atomic.StoreInt32(&catacomb.dirty, 1)\n	} else {"))
m("c26-dead-reuse", "C26", (C, "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {", "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) && catacomb.tomb.Alive() {"))
m("c26-nil-init", "C26", (C, "		if w == nil {\n			return errors.NotValidf", "		if w == nil && i == 0 {\n			return errors.NotValidf"))
m("c27-error-only", "C27", (C, "			err = errors.Errorf(\"panic resulted in: %v\", panicResult)\n", "			if perr, ok := panicResult.(error); ok {\n				err = errors.Trace(perr)\n				return\n			}\n			err = errors.Errorf(\"panic resulted in: %v\", panicResult)\n"))
m("c27-dying-panic", "C27", (C, "			catacomb.Kill(runSafely(plan.Work))\n", "			select {\n			case <-catacomb.tomb.Dying():\n				catacomb.Kill(plan.Work())\n			default:\n				catacomb.Kill(runSafely(plan.Work))\n			}\n"))
m("c27-nostack", "C27", (C, "	if e.stackTrace != \"\" {", "	if e.stackTrace == \"\" {"))
m("c28-errdying-dead", "C28", (C, "	select {\n	case <-catacomb.tomb.Dying():\n		return dyingError{catacomb}", "	select {\n	case <-catacomb.tomb.Dead():\n		return dyingError{catacomb}"))
m("c28-ctx", "C28", (C, "	return catacomb.tomb.Context(parent)\n", "	if parent != nil && parent.Done() == nil {\n		return catacomb.tomb.Context(nil)\n	}\n	return catacomb.tomb.Context(parent)\n"))
m("c28-err-dead", "C28", (C, "	return catacomb.tomb.Err()\n", "	if err := catacomb.tomb.Err(); err != nil {\n		return err\n	}\n	select {\n	case <-catacomb.tomb.Dead():\n		return nil\n	default:\n		return tomb.ErrStillAlive\n	}\n"))

# Helpers
m("c29-stop-twice", "C29", (W, "	worker.Kill()\n	return worker.Wait()", "	worker.Kill()\n	if err := worker.Wait(); err != nil {\n		worker.Kill()\n		return err\n	}\n	return nil"))
m("c29-dead-nil", "C29", (W, "		if ch := worker.Dead(); ch != nil {\n			return ch\n		}", "		return worker.Dead()"))
m("c29-dead-panic", "C29", (W, "		defer close(dead)\n		worker.Wait()", "		if worker.Wait() == nil {\n			close(dead)\n		}"))
m("c30-alive-nil", "C30", (K, "	case err := <-wait:\n		c.Errorf(\"expected alive", "	case err := <-wait:\n		if err == nil {\n			return\n		}\n		c.Errorf(\"expected alive"))
m("c30-killed-short", "C30", (K, "	case <-time.After(killTimeout):", "	case <-time.After(killTimeout / 2):"))
m("c30-timeout-nil", "C30", (K, "		return errors.New(\"workertest: worker not stopping\")", "		return nil"))
m("c30-clean", "C30", (K, "	err := CheckKill(c, w)\n	c.Check(err, jc.ErrorIsNil)", "	err := CheckKill(c, w)\n	c.Check(errors.Cause(err), jc.ErrorIsNil)"))
m("c30-nil-or-kill", "C30", (K, "		CleanKill(c, w)\n	}", "		w.Kill()\n	}"))
m("c30-errorworker", "C30", (X, "	w.tomb.Kill(w.err)\n}\n\n// Wait is part of the worker.Worker interface.\nfunc (w *errorWorker)", "	go w.tomb.Kill(w.err)\n}\n\n// Wait is part of the worker.Worker interface.\nfunc (w *errorWorker)"))
m("c30-forever", "C30", (X, "func (w *ForeverWorker) Kill() {}", "func (w *ForeverWorker) Kill() { w.tomb.Kill(w.err) }"))
m("c30-preload", "C30", (F, "	for i := 0; i < preload; i++ {", "	for i := 0; i < preload && i < len-1; i++ {"))
m("c31-assignable", "C31", (T, "		if setT.ConvertibleTo(outT) {\n			outV.Set(setV.Convert(outT))", "		if setT.AssignableTo(outT) {\n			outV.Set(setV)"))
m("c31-last", "C31", (T, "			outV.Set(setV.Convert(outT))\n			return nil\n", "			outV.Set(setV.Convert(outT))\n			if setT == outT {\n				return nil\n			}\n			continue\n"))
m("c31-err-nil-target", "C31", (T, "	} else if resource.Error != nil {", "	} else if resource.Error != nil && outPtr != nil {"))
m("c33-worker-abort", "C33", (R, "	close(stopped)\n	runner.workersChangedCond.Broadcast()\n", "	close(stopped)\n"))
m("c33-worker-dying", "C33", (R, "	case <-runner.tomb.Dying():\n		return nil, nil, ErrDead\n	case <-abort:\n	}\n	// Stop our", "	case <-runner.tomb.Dying():\n		go func() { runner.mu.Lock(); select {} }()\n		return nil, nil, ErrDead\n	case <-abort:\n	}\n	// Stop our"))
m("c33-catacomb-add", "C33", (C, "		case <-workerDone:\n", "		case <-catacomb.tomb.Dead():\n"))
m("c34-backoff", "C34", (E, "config.BackoffFactor < 1 {", "config.BackoffFactor <= 1 {"))
m("c34-neg", "C34", (E, "	if config.BackoffResetTime < 0 {", "	if config.BackoffResetTime < 0 && config.BackoffFactor != 0 {"))
m("c34-restart-delay", "C34", (R, "	if p.RestartDelay == 0 {", "	if p.RestartDelay == 0 && p.Clock != nil {"))

# Races
m("c32-report", "C32", (R, "	workers := make(map[string]interface{})\n	runner.mu.Lock()\n	defer runner.mu.Unlock()\n", "	workers := make(map[string]interface{})\n	runner.mu.Lock()\n	infos := make(map[string]*workerInfo)\n	for id, info := range runner.workers {\n		infos[id] = info\n	}\n	runner.mu.Unlock()\n"), (R, "	for id, info := range runner.workers {\n		worker := info.worker\n", "	for id, info := range infos {\n		worker := info.worker\n"))
m("c32-remove", "C32", (R, "	runner.mu.Lock()\n	delete(runner.workers, id)\n	close(removed)\n	runner.mu.Unlock()\n", "	delete(runner.workers, id)\n	close(removed)\n"))
m("c32-engine-report", "C32", (E, "	case engine.report <- reportTicket{report}:\n		// This is safe so long as the loop sends a result.\n		return <-report\n", "	case <-engine.tomb.Dying():\n		return engine.liveReport()\n	case engine.report <- reportTicket{report}:\n		// This is safe so long as the loop sends a result.\n		return <-report\n"))
m("c32-adds-late", "C32", (C, "	for _, w := range plan.Init {\n		catacomb.add(w)\n	}\n", "	go func() {\n		for _, w := range plan.Init {\n			if w != nil {\n				catacomb.add(w)\n			}\n		}\n	}()\n"))
m("c32-dirty", "C32 C26", (C, "	if !atomic.CompareAndSwapInt32(&catacomb.dirty, 0, 1) {", "	used := catacomb.dirty\n	catacomb.dirty = 1\n	if used != 0 {"))

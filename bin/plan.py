"""Which drivers decide each property, and with how many cases."""

RULES = {
    "runner-model": "runner-model: random requests (StartWorker, StopWorker, Worker, StopAndRemoveWorker, Kill, aborts, cancellations, worker ends, start outcomes, time), alone or racing, against a real Runner in virtual time, checked step by step against a set-of-states reference model",
    "engine-model": "engine-model: random manifold graphs, installs, start outcomes, worker ends, kills and passing time, alone or racing, against a real Engine in virtual time, checked step by step against a set-of-states reference model",
    "catacomb-model": "catacomb-model: random plans, Adds, Kills, contexts, worker ends and work function outcomes (panics included), alone or racing, against a real Catacomb, checked step by step against a set-of-states reference model",
    "stop-dead": "stop-dead: worker.Stop and worker.Dead on workers of all shapes, with racing callers",
    "workertest": "workertest: the test helpers and test workers against workers that end at random times around the helpers' deadlines, in virtual time",
    "stub-getter": "stub-getter: random resource sets and targets against StubGetter, compared with a reference built on reflection",
    "config": "config: random engine and runner configurations and defaults against the documented rules",
    "graph": "graph: random manifold sets against Validate and Install, compared with an independent cycle search",
    "runner-busy": "runner-busy: calls of all the methods of a Runner that is held up by its IsFatal, ShouldRestart or MoreImportant for seconds of virtual time, with aborts, cancellations and calls from within the callbacks; each must return when its contract says",
    "engine-self": "engine-self: a real Engine with its self manifold, used by manifolds that probe what it offers, install more manifolds and take reports from within their start functions and later on",
    "idle": "idle: runners, engines and catacombs that stay up while workers come and go in all ways; once these have gone, the goroutines in the library's code are counted and compared with those at the beginning",
    "runner-big": "runner-big: up to 80 ids whose workers come and go by themselves, in phases of chaos with concurrent requests, and of calm, in which names, report and lookups are compared with the workers that are there; hundreds of restarts, each of which must come when it's due",
    "engine-big": "engine-big: up to 40 manifolds whose workers come and go by themselves; in the calm, what the latest start of each manifold saw must be what is there, and a single failure must make just its dependents restart; also manifolds that fail up to 1100 times in succession, with the delays compared with the configured backoff",
    "catacomb-big": "catacomb-big: up to 300 workers in a plan and hundreds that are added by several goroutines, most of which end well; then several causes of its end at once",
    "runner-long": "runner-long: the same thing up to 1100 times over with one Runner: failures and restarts of a worker, starts and removals of an id, lookups of one worker by many at once, ids, stops of a worker that waits for its restart; nothing may differ from the first time",
    "engine-long": "engine-long: likewise for an Engine: failures of an input, uninstalls and reinstalls; up to 250 dependents of one manifold, 250 inputs of one, chains of 150",
    "catacomb-long": "catacomb-long: likewise for a Catacomb: workers that come and go, contexts, kills",
    "engine-busy": "engine-busy: concurrent calls of all the methods of an Engine, also from start functions, while it is held up for seconds of virtual time by its callbacks, its metrics, or a worker that takes its time to be killed or to report; each must return when its contract says",
    "crash": "crash: processes in which a function of the client's panics that a runner, an engine or a catacomb calls; each must end with that panic",
    "memory": "memory: runners, engines and catacombs whose workers come and go in all ways, with weak pointers to the workers and the start functions; after a garbage collection those that have ended must be gone",
    "logs": "logs: runners and engines whose workers end in all ways, one after the other; what their loggers get is compared with what happened",
    "nested": "nested: random trees of runners, engines and catacombs inside each other, with failing leaves and starts and panicking work functions; none may end before what it contains, and in the calm each part is there once, under a parent that is there",
    "race-runner": "race-runner: several goroutines call all the methods of a Runner at once under the race detector, with random delays at instrumented points and virtual timers; the harness's own hooks don't synchronise",
    "race-engine": "race-engine: likewise for an Engine with a random graph of manifolds, getters used while workers come and go, and reports",
    "race-catacomb": "race-catacomb: likewise for a Catacomb, its Invokes, Adds, Kills, contexts and signals",
    "race-workertest": "race-workertest: likewise for the test workers, the fake watcher and worker.Stop and Dead",
}

MODEL = "runtime monitoring of instrumented real code under randomised schedules: step-by-step conformance to a set-of-states reference model"
TRACE = "runtime monitoring of instrumented real code under randomised schedules: checkers over the recorded history"
ORACLE = "runtime monitoring of real code on generated inputs against a reference oracle"


def mk(drivers, quick=40000, thorough=None, technique=MODEL, **kw):
    return dict(drivers=drivers, cases=dict(quick=quick, thorough=thorough or quick * 20), technique=technique, **kw)


PLAN = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"):
    PLAN[_p] = mk({"runner-model": 8, "runner-big": 1}, 100000)
for _p in ("C06", "C07", "C09"):
    PLAN[_p] = mk({"runner-model": 8, "runner-busy": 2, "runner-big": 1}, 110000)
for _p in ("C02", "C04"):
    PLAN[_p] = mk({"runner-model": 8, "runner-big": 1, "nested": 1}, 110000)
for _p in ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
    PLAN[_p] = mk({"engine-model": 8, "engine-big": 1}, 80000)
for _p in ("C14", "C16"):
    PLAN[_p] = mk({"engine-model": 8, "engine-big": 1, "nested": 1}, 88000)
PLAN["C11"] = mk({"engine-model": 5, "graph": 3, "engine-big": 1}, 80000)
PLAN["C15"] = mk({"engine-model": 6, "engine-big": 2}, 80000)
PLAN["C21"] = mk({"engine-model": 1, "engine-self": 1}, 80000)
for _p in ("C22", "C23", "C24", "C25", "C27", "C28"):
    PLAN[_p] = mk({"catacomb-model": 8, "catacomb-big": 1, "nested": 1}, 130000)
PLAN["C26"] = mk({"catacomb-model": 8, "catacomb-big": 1}, 130000)
PLAN["C29"] = mk({"stop-dead": 1}, 60000, technique=TRACE)
PLAN["C30"] = mk({"workertest": 1}, 60000, technique=ORACLE)
PLAN["C31"] = mk({"stub-getter": 1}, 60000, technique=ORACLE)
PLAN["C33"] = mk({"runner-model": 3, "engine-model": 3, "catacomb-model": 2, "stop-dead": 1, "workertest": 1, "idle": 2, "nested": 1}, 90000, technique=TRACE)
PLAN["C34"] = mk({"config": 3, "runner-model": 1, "engine-model": 1}, 60000, technique=ORACLE)
PLAN["C35"] = mk({"runner-model": 4, "catacomb-model": 3, "runner-big": 1, "nested": 2}, 80000, technique=TRACE)
PLAN["C36"] = mk({"engine-busy": 3, "engine-model": 2}, 60000, technique=TRACE)
PLAN["C37"] = mk({"logs": 1}, 60000, technique=TRACE)
PLAN["C38"] = mk({"crash": 1}, 2000, technique=TRACE)
PLAN["C39"] = mk({"memory": 1}, 30000, technique=TRACE)
# A few long cases go a long way.
LONG = {
    "runner-long": "C01 C02 C03 C04 C06 C07 C08 C09 C33",
    "engine-long": "C11 C12 C13 C14 C16 C18 C20 C33",
    "catacomb-long": "C22 C23 C24 C25 C26 C28 C33",
}
for _d, _ps in LONG.items():
    for _p in _ps.split():
        _ds = PLAN[_p]["drivers"]
        if not any(k in LONG for k in _ds):
            for k in _ds:
                _ds[k] *= 100
        _ds[_d] = sum(v for k, v in _ds.items() if k not in LONG) // 250
PLAN["C32"] = mk({"race-runner": 3, "race-engine": 3, "race-catacomb": 3, "race-workertest": 1}, 12000, race=True,
                 technique="the Go race detector on real code under randomised concurrent workloads with injected delays")

#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CTRL = ["core/ctrl.go", "core/algo.go", "core/model.go"]

p("C01", "Every lock is released on every return path",
  "Every public operation and every background goroutine of the library has released all the locks it took when it returns, on success as well as on every error path. No outcome of an operation can therefore leave later calls blocked for ever on a lock.",
  ["inputs", "histories", "schedules"], "every operation, in every status, with every outcome of the code it calls",
  "Tests call each operation in a few states and check the returned error; they do not call the algorithm again after each failing path, so a lock leaked on one path goes unnoticed.",
  CTRL + ["core/timeout.go", "mcmc/latedistrib.go"],
  [("lock/unlock pairs and deferred unlocks", "core/ctrl.go: Init, Play, Pause, interrupt, Push, run, terminate; core/model.go accessors; core/timeout.go; mcmc/latedistrib.go")],
  observe=["any call made after the operation returned"])

p("C02", "Locks are never re-acquired and always taken in one order",
  "No operation or background goroutine acquires a lock that it already holds (not even shared), and any two locks are always taken in the same order. Concurrent calls can therefore never deadlock on the library's locks.",
  ["schedules", "histories"], "every pair of operations and background goroutines, under every interleaving",
  "The tests use one client goroutine and one processor; an order inversion needs two goroutines stopped at two precise points.",
  CTRL + ["core/timeout.go", "mcmc/latedistrib.go"],
  [("lock hierarchy control > status > model", "core/ctrl.go, core/algo.go, core/model.go")],
  observe=["calls that never return"])

p("C03", "No lock is held across a wait that may need it, or across a callback",
  "While it holds a lock, the library never waits for a goroutine which may itself need that lock before it makes progress, and never calls the user's status notifier or finishing condition. A status notifier may therefore call any operation of the algorithm that notifies it, and a control operation cannot deadlock with the run it controls.",
  ["schedules", "histories"], "every operation, every notification, every interleaving of callers with the run and the notification goroutines",
  "Tests use notifiers that only write to a large channel and never call back; the deadlock needs a callback that reads the status while an operation is in progress.",
  CTRL, [("notification queue", "core/algo.go: notificationLoop, notifyAll"), ("hand-shake with the run", "core/algo.go: sendStatus, receiveStatus; core/ctrl.go: Play, Pause, interrupt")],
  observe=["calls that never return"])

p("C04", "State shared between callers and the run is accessed under its lock",
  "Every field of an algorithm that may change after its construction is accessed, by all operations and background goroutines, only while holding the one lock that protects it (or is handed over through the run's channel hand-shake). Concurrent use of an algorithm from several goroutines is therefore free of data races on its state.",
  ["schedules", "histories"], "every pair of accesses from operations, the run, the timeout and the notification goroutines",
  "Races need true parallelism; the suite runs on one processor without the race detector and samples few schedules.",
  CTRL + ["core/timeout.go", "mcmc/latedistrib.go"],
  [("status lock, model lock, control lock", "core/algo.go: Algo"), ("timeout lock", "core/timeout.go: timeout"), ("late distribution lock", "mcmc/latedistrib.go: LateDistrib")],
  state=[("status", "lifecycle status and error", "core/algo.go: Algo.status"), ("model", "centroids, figures, counters", "core/algo.go: Algo")])

p("C05", "Published results are immutable snapshots",
  "Centroids and runtime figures returned to a caller are never modified afterwards by the library: later iterations and pushes publish new values instead of writing into those already handed out. Centroids and the figures that describe them are replaced together, so a reader never sees an iteration half published.",
  ["schedules", "histories"], "every value returned by Centroids or RuntimeFigures, every later operation",
  "Tests read results and compare them at once; none keeps a result while the algorithm goes on.",
  ["core/ctrl.go", "core/model.go", "streaming/impl.go", "kmeans/seq.go", "core/clustering.go", "core/par_dba.go", "mcmc/impl.go", "mcmc/store.go"],
  [("copy of figures", "core/model.go: RuntimeFigures"), ("copy of streaming centers", "streaming/impl.go: Iterate"), ("fresh centroids per iteration", "core/clustering.go, core/par_dba.go, mcmc/store.go"), ("publication under the model lock", "core/ctrl.go: run, saveIterContext")])

p("C06", "Control operations follow the documented life cycle",
  "In every status, each control operation either performs the documented transition (Init: Created/Finished to Ready; Play: Created/Ready/Finished/Idle to Running; Pause: Running to Idle; Stop: Ready/Running/Idle to Finished) or leaves the status unchanged and returns the error documented for that status. Successful operations return no error, and no other transition can be requested.",
  ["histories", "inputs"], "every operation in every one of the six statuses",
  "The scenario tests follow a handful of histories; many (operation, status) pairs are never tried, and several of these tests are unstable.",
  ["core/ctrl.go", "core/algo.go", "core/status.go", "core/error.go"],
  [("status switches", "core/ctrl.go: init, Play, Pause, Wait, interrupt"), ("run loop", "core/ctrl.go: run, terminate")],
  state=[("status", "Created, Initializing, Ready, Running, Idle, Finished", "core/status.go")])

p("C07", "Every status change is notified once, in order, after it took effect",
  "Whenever the status of an algorithm changes, exactly that status is handed to the configured notifier exactly once, after the change took effect, and statuses are delivered one at a time in the order of the changes. Nothing else is ever notified.",
  ["histories", "schedules"], "every status change of every history",
  "One test checks one history with a fast notifier, and is unstable.",
  ["core/algo.go", "core/ctrl.go"],
  [("single writer of the status", "core/algo.go: setStatus"), ("notification goroutine", "core/algo.go: notificationLoop, notifyAll, notify")])

p("C08", "A run always answers the operation that waits for it",
  "Once the background run has taken a status request, it answers it on every path: it acknowledges it, or it ends and releases the waiting caller, also when the implementation fails or panics. A run that ends always leaves a status other than Running or Idle, and a request to pause never takes effect once the run is over.",
  ["schedules", "histories", "fault_sequences"], "every path of the run after a request was received, every failure of the implementation",
  "Tests meet the hand-shake in the few states where the run is iterating; the paths where it ends at that moment depend on the schedule.",
  ["core/ctrl.go", "core/algo.go"],
  [("acknowledgement", "core/algo.go: receiveStatus, sendStatus; core/ctrl.go: run"), ("end of run", "core/ctrl.go: terminate")])

p("C09", "Failures are reported, never swallowed, and never crash the process",
  "An error or a panic of the implementation (or of the space, initializer or finishing condition it uses) at initialization or during an iteration makes the algorithm Finished with that failure as status error; initialization failures are also returned by Init, Play and Batch, push failures by Push, copy failures by Copy, and the status error by a Wait that had to wait for the end of the run. No such panic escapes to a caller of the controller or kills the process from a goroutine of the library.",
  ["fault_sequences", "inputs"], "every call to implementation code, in every goroutine",
  "Tests inject one initialization error and one iteration error; no test makes an implementation panic, in particular not in a parallel worker.",
  ["core/ctrl.go", "core/util.go", "core/timeout.go"],
  [("error propagation", "core/ctrl.go: Push, Init, init, Play, Batch, run, Copy"), ("panic containment", "core/ctrl.go: run, initImpl; core/util.go: Par")])

p("C10", "Runtime figures count pushes and iterations exactly",
  "The iterations figure grows by exactly one for each iteration that returned centroids without error, and for nothing else; the pushedData figure grows by exactly one for each accepted push, and for nothing else. Restarting a finished algorithm resets them to zero, the figures exposed always equal the counters, and the implementation's own figures are exposed with them.",
  ["histories", "inputs"], "every sequence of pushes, iterations, failures and restarts",
  "Tests compare final counts in a few uneventful histories.",
  ["core/ctrl.go", "core/figures.go", "core/finish.go"],
  [("counters", "core/ctrl.go: Push, init, run, updateRuntimeFigures, saveIterContext")])

p("C11", "Iterations stop exactly when the finishing condition says so",
  "Before each iteration the run evaluates the configured conditions on the current model, and iterates if and only if none holds: neither the iteration budget (iterations >= Iter + pushedData x IterPerData, when one is configured) nor the user's finishing condition. And-conditions hold when all members hold, Or-conditions when at least one holds, status conditions when the status (or, if asked for, an error) matches, and an absent condition never holds.",
  ["inputs", "histories"], "every configuration of the conditions, every model state",
  "Tests use iteration budgets; composed conditions, status conditions and per-data budgets are hardly exercised.",
  ["core/finish.go", "core/ctrl.go"],
  [("conditions", "core/finish.go"), ("run loop", "core/ctrl.go: run")])

p("C12", "Waiting and timeouts end for the right reason",
  "A Wait on a running algorithm returns only when its condition holds (by default: the algorithm is no longer running), returning then the status error, or when a positive duration has elapsed, returning the timeout error. It returns at once, without error, for an algorithm that is ready or finished, and refuses at once to wait for one that is idle, not yet started, or that can never finish. A configured execution timeout interrupts the run it was armed for with the timeout error, unless it was disabled, and each new run disables the timeout of the previous one.",
  ["histories", "schedules", "configurations"], "every status, duration, condition and configuration",
  "Tests cover one timeout and default waits.",
  ["core/timeout.go", "core/ctrl.go"],
  [("polling", "core/timeout.go: wait, isTimeout, isFinished"), ("arming", "core/ctrl.go: Play; core/timeout.go: InterruptionTimeout, interrupt"), ("never finishing", "core/ctrl.go: CanNeverFinish, Wait")])

p("C13", "Invalid configurations are rejected, defaults never override settings",
  "No algorithm is built from an invalid configuration: negative Iter, IterPerData, DataPerIter, IterFreq or Timeout, K or InitK below 1, MaxK below InitK, OutAfter below 2, or a streaming buffer smaller than the initial data are all refused: no algorithm is returned. Every parameter left at its zero value that has a default receives it, and a parameter that was set is never changed.",
  ["configurations", "inputs"], "every configuration value of every algorithm",
  "Tests try one bad value per parameter and a few defaults.",
  ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go", "streaming/algo.go", "core/algo.go", "kmeans/algo.go", "mcmc/algo.go"],
  [("verification", "Verify of each package, core/conf.go: PrepareConf, core/algo.go: NewAlgo"), ("defaults", "SetDefaultValues of each package")])

p("C14", "The data buffer keeps every element once, in order, within its window",
  "Every element pushed to a data buffer is stored exactly once: directly when the algorithm is not alive (Created or Finished), otherwise staged and stored, in order, by the next application, which drains everything staged. An unbounded buffer keeps all elements in order; a buffer of size n never holds more than n elements and each new element beyond n replaces the oldest. The buffer never shares or modifies the caller's initial data.",
  ["histories", "inputs"], "every sequence of pushes and applications, every size and initial data",
  "Tests push a fixed number of elements into two sizes.",
  ["core/buffer.go"],
  [("staging and storage", "core/buffer.go: Push, Apply, applyNext"), ("window", "core/buffer.go: fixedSizeStrategy, infiniteSizeStrategy, NewDataBuffer")])

p("C15", "Assignment returns the nearest centroid",
  "Assigning an element returns a centroid at minimal distance among all centroids, its own label and its own distance, the lowest label being chosen between equals; this does not depend on the sign or scale of the distances. Without centroids it returns no centroid and label -1. Label mappings (sequential and parallel) and predictions return exactly this assignment for every element, at the element's position.",
  ["inputs"], "every set of centroids, every element, every space",
  "Tests assign a few vectors with Euclidean distance; ties and spaces whose distance can round below zero are not tried.",
  ["core/clustering.go", "core/par_assign.go", "core/ctrl.go"],
  [("minimum search", "core/clustering.go: nearest"), ("mapping", "core/clustering.go: Assign, MapLabel; core/par_assign.go"), ("prediction", "core/ctrl.go: Predict")])

p("C16", "Cluster reductions average exactly the members with exact weights",
  "A reduction returns, for each cluster, the running average of exactly the elements assigned to (or labelled with) it, each with weight one, and their number: the first member starts from a copy with count 1, and each further one is combined with the current average weighted by the current count. Merging partial results weighs each side by its own count and adds the counts, and (weighted) averages of lists accumulate the weights in the same way.",
  ["inputs"], "every data set, labelling and weight list",
  "Tests use a dozen scalars; a wrong weight or a skipped or doubled element shows only for particular sizes.",
  ["core/clustering.go", "core/par_dba.go", "kmeans/seq.go"],
  [("accumulation", "core/clustering.go: ReduceDBA, ReduceDBAForLabels, DBA, WeightedDBA"), ("merge", "core/par_dba.go: dbaAggregate, dbaCombine")])

p("C17", "Losses sum the member distances per cluster",
  "The loss of a cluster is the sum over exactly its members (nearest, or labelled) of their distance to its centroid raised to the configured norm, returned with the number of members; total losses are the sums over clusters. The parallel versions add the partial sums and counts of all partitions.",
  ["inputs"], "every data set, labelling, norm and degree",
  "Tests compare a few sums.",
  ["core/clustering.go", "core/par_loss.go"],
  [("accumulation", "core/clustering.go: ReduceLoss, ReduceLossForLabels, TotalLoss"), ("merge", "core/par_loss.go: lossAggregate")])

p("C18", "Parallel processing covers the data exactly, without shared writes",
  "Parallel processing splits the data into consecutive ranges that start at the beginning, follow one another without gap or overlap and end with the data, whatever the size and the degree, and returns only when every worker has finished. Each worker writes only to its own range or its own rank.",
  ["inputs", "schedules", "configurations"], "every data size, degree and schedule of the workers",
  "Tests use one size and degree, on one processor.",
  ["core/util.go", "core/par_assign.go", "core/par_dba.go", "core/par_loss.go"],
  [("partition", "core/util.go: Par"), ("workers", "core/par_assign.go, core/par_dba.go, core/par_loss.go")])

p("C19", "Parallel reductions use the sequential ones and keep every partition",
  "Each parallel operation applies to every partition the corresponding sequential operation, with the same centroids, space, norm and the matching part of the labels, and merges the results of all partitions. A k-means step returns as many centroids as it was given, in both its sequential and its parallel version: the average of the members for a cluster that has some, the previous centroid for a cluster without any.",
  ["inputs", "configurations"], "every data set, degree and centroids",
  "Tests compare the two versions on one data set without empty partitions.",
  ["core/par_assign.go", "core/par_dba.go", "core/par_loss.go", "kmeans/seq.go", "kmeans/par.go"],
  [("partition workers and merges", "core/par_assign.go, core/par_dba.go, core/par_loss.go"), ("empty clusters", "core/par_dba.go: buildResult; kmeans/seq.go: buildResult")])

p("C20", "Space operations are pure and never share memory with their arguments",
  "The provided spaces never modify the elements they are given; copies and combinations are newly allocated and share no memory with any argument. The clustering operations and initializers that use them never modify the elements, labels, weights or centroids they are given.",
  ["inputs", "histories"], "every call of every space, clustering and initialization operation",
  "Tests look at results, not at arguments afterwards; a shared row shows only when somebody later writes to it.",
  ["euclid/vectors.go", "cosinus/cosinus.go", "dtw/series.go", "dtw/dtw.go", "dtw/interpolate.go", "core/clustering.go", "kmeans/init.go"],
  [("fresh results", "Copy/Combine of each space, dtw/interpolate.go, core/clustering.go, kmeans/init.go")])

p("C21", "Vector spaces compute the Euclidean and cosine geometry",
  "The Euclidean distance is the square root of the sum over all coordinates of the squared differences; the cosine distance is one minus the scalar product divided by both norms. The combination of two vectors is, in every coordinate, their average weighted by the two weights, in both spaces; a copy has the same coordinates; dimensions are those of the data, and 0 without data.",
  ["inputs"], "every pair of vectors and weights",
  "Tests check a few one- and two-dimensional vectors.",
  ["euclid/vectors.go", "cosinus/cosinus.go"],
  [("distance", "euclid/vectors.go: PointDist; cosinus/cosinus.go: PointDist, Cosinus, Norm, ScalarProduct"), ("combination", "euclid/vectors.go: PointCombine")])

p("C22", "DTW cost follows the warping recurrence inside its window",
  "The accumulated cost of two series at a pair of positions is the distance between the two points plus the least of the costs of the three predecessors (the single one on a border, none at the origin); pairs outside the window cost infinity, and without window every pair is inside. The warping path goes from the last pair back to the origin, each time to a predecessor of least cost.",
  ["inputs"], "every pair of series and every window",
  "Tests use two short series; series of very different lengths without window are not tried.",
  ["dtw/cost.go", "dtw/dtw.go"],
  [("recurrence", "dtw/cost.go: computeCumCost, neighborCosts, min"), ("window", "dtw/cost.go: setStride, inWindow, Get"), ("path", "dtw/cost.go: computePath, decrPath")])

p("C23", "DTW averages weigh matched points and positions alike",
  "The average of two series combines each matched pair of points with the two given weights, places it at the position weighted the same way, in path order from the origin, and resamples this series to consecutive positions by linear interpolation. Series whose lengths differ by more than the window are first resized: the longest to the shortest plus the window.",
  ["inputs"], "every pair of series, weights and window",
  "Tests use two short series with three weight pairs.",
  ["dtw/dtw.go", "dtw/interpolate.go", "dtw/series.go"],
  [("average", "dtw/dtw.go: DBA"), ("interpolation", "dtw/interpolate.go: Interpolate, Resize, ShrinkLongest"), ("space", "dtw/series.go: Dist, Combine, getSeries")])

p("C24", "Initializers return k independent centroids or an error",
  "Each named initializer, for 1 <= k <= number of elements, returns exactly k centroids, each a copy of one of the elements: the first k, k at distinct positions, or k drawn by k-means++ where each further one is drawn with a probability proportional to its distance to those already drawn. With k below 1 or fewer elements than k it returns an error and no centroids. A weighted draw returns the position of a positive weight, or an error when all are null, and an initializer whose draw fails returns this error.",
  ["inputs", "configurations"], "every k, data set, space and random draw",
  "Tests use 14 elements and one k; extreme draws have negligible probability in a test.",
  ["kmeans/init.go"],
  [("initializers", "kmeans/init.go: GivenInitializer, PPInitializer, RandInitializer, check"), ("draw", "kmeans/init.go: PPIter, WeightedChoice")])

p("C25", "MCMC keeps the number of clusters within its bounds",
  "The number of clusters proposed by an MCMC iteration differs from the current one by at most one, and always lies between 1 and MaxK and never exceeds the number of data (given at least one). The centers proposed always number exactly the k of the proposal: kept centers for that k if any, otherwise the current ones with one added, one removed or unchanged; and when no center can be added, the current k is used again.",
  ["inputs", "histories"], "every current k, configuration, data size and random draw",
  "Tests run a few hundred random iterations.",
  ["mcmc/impl.go", "mcmc/store.go"],
  [("bounds", "mcmc/impl.go: nextK"), ("centers for k", "mcmc/impl.go: getKCenters; mcmc/store.go")])

p("C26", "MCMC accepts proposals by the Metropolis-Hastings rule, atomically",
  "A proposal is accepted exactly when a uniform draw is below exp(lambda (current loss - proposed loss) + log(2B) dim (current k - proposed k) + (current pdf - proposed pdf)), with lambda = Amp sqrt((dim + 3) / number of data). When accepted, the centroids, the current state, the store and the acceptation count all move to the proposal together; when rejected none of them changes. The loss, the density and the centers of a state always belong to the same centers.",
  ["inputs", "histories"], "every state, proposal and draw",
  "Tests check a ratio for one configuration and end results of random runs.",
  ["mcmc/impl.go"],
  [("acceptance", "mcmc/impl.go: accept, doIter"), ("proposal", "mcmc/impl.go: propose, alter, proba, Init, Iterate")])

p("C27", "Alteration distributions are initialized once and match their density",
  "A late distribution calls its builder exactly once, with the element of its first call, before any use and also under concurrent use, and then forwards every call unchanged. The Dirac distribution always returns its argument with density 1, and the multivariate Student distribution samples around its argument with, at every dimension, the scale used by its density.",
  ["schedules", "inputs"], "every number of concurrent first calls, every element and time",
  "Tests call from one goroutine.",
  ["mcmc/latedistrib.go", "mcmc/dirac.go", "mcmc/multivt.go"],
  [("once under lock", "mcmc/latedistrib.go: tryInitialize"), ("distributions", "mcmc/dirac.go, mcmc/multivt.go")])

p("C28", "Streaming consumes each element once and keeps centers and counts paired",
  "A push to a streaming algorithm never blocks: it queues the element, or returns an error when the buffer is full. Each iteration takes at most one queued element and processes it exactly once: it becomes an outlier, a new center, or is averaged into its nearest center weighted by that center's count, so that centers and counts always correspond. Outliers appear only after OutAfter elements and beyond OutRatio, and the maximal distance never decreases and, once set, is not changed by outliers.",
  ["histories", "inputs"], "every sequence of pushes and iterations, every distance and draw",
  "Tests check each method once and the outcome of a random run.",
  ["streaming/impl.go"],
  [("queue", "streaming/impl.go: Push, Init, Iterate, NewImpl"), ("processing", "streaming/impl.go: Process, AddCenter, AddOutlier, UpdateCenter, UpdateMaxDistance, GetRelativeDistance")])

p("C29", "All randomness comes from the configured generator",
  "Every random draw of an algorithm built with a seeded generator comes from that generator: no code of the library draws from a global or default source, and nothing else (time, map order, scheduling) enters the values it computes. A generator is created from the clock only when none was configured.",
  ["configurations", "inputs"], "every draw of every algorithm",
  "Tests do not compare two seeded runs, and a draw from another source still looks random.",
  ["kmeans/conf.go", "kmeans/init.go", "mcmc/conf.go", "mcmc/seq.go", "mcmc/impl.go", "mcmc/store.go", "mcmc/multivt.go", "streaming/conf.go", "streaming/impl.go"],
  [("generator plumbing", "RGen of each Conf, kmeans/init.go src parameters, mcmc/seq.go: NewSeqImpl, streaming/impl.go: NewImpl")])

p("C30", "A copied algorithm starts afresh and does not share the original's buffers",
  "Copying an algorithm yields a new algorithm in status Created, with its own locks, channels and counters, built on the requested configuration and space, whose implementation holds the buffered data of the original (its centers, for streaming) in a buffer of its own. Operations on one never write into the storage of the other; what the user configured (initializer, distribution, generator, space) may be shared.",
  ["histories", "schedules"], "every algorithm and moment of the copy",
  "No test copies an algorithm and then uses both.",
  ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go", "core/buffer.go"],
  [("copy", "core/ctrl.go: Copy; Copy of each implementation")])

p("C31", "Auto-play counts pushed data and starts a waiting algorithm",
  "With DataPerIter configured, a push to a Ready algorithm starts it if and only if at least DataPerIter elements had been accepted before it since the last such start, and then starts counting again; in any other status, or without DataPerIter, a push never starts the algorithm. A refused push changes neither counters nor status.",
  ["histories", "configurations"], "every sequence of pushes and statuses",
  "No test configures DataPerIter.",
  ["core/ctrl.go"], [("threshold", "core/ctrl.go: Push")])

p("N01", "MCMC and streaming converge to good clusterings",
  "On stationary data, the clusterings found converge towards those of minimal penalized loss.",
  ["inputs", "histories"], "every data distribution", "A statistical statement over random runs.",
  ["mcmc/impl.go", "streaming/impl.go"], [("algorithms", "mcmc/impl.go, streaming/impl.go")])
p("N02", "Iterations per second never exceed the configured frequency",
  "With IterFreq configured, the number of iterations executed in any second never exceeds it; timeouts fire within a bounded delay.",
  ["schedules", "configurations"], "every schedule and clock", "Real time on a scheduler cannot be controlled by tests.",
  ["core/ctrl.go", "core/timeout.go"], [("temporization", "core/ctrl.go: run")])
p("N03", "Control operations always terminate",
  "Every control operation returns within bounded time under every schedule, also when the run it controls ends by itself at that moment.",
  ["schedules"], "every interleaving of a control operation with the end of the run", "Needs a precise interleaving.",
  ["core/ctrl.go", "core/algo.go"], [("hand-shake", "core/algo.go: sendStatus; core/ctrl.go: terminate")])
p("N04", "The DTW average minimizes the sum of squared DTW distances",
  "The barycenter of a set of series minimizes, up to a local optimum, the sum of the squared DTW distances.",
  ["inputs"], "every set of series", "A numerical optimum over all inputs.",
  ["dtw/dtw.go"], [("average", "dtw/dtw.go: DBA")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

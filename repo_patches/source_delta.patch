From 45454d915e8eb3b25c4cf99d6b8f16f5fbbc9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/22] fix: release the status lock when Play fails to
 initialize

---
 core/ctrl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..d979c99 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -109,6 +109,7 @@ func (algo *Algo) Play() (err error) {
 	case Created:
 		err = algo.init()
 		if err != nil && err != ErrAlreadyCreated {
+			algo.statusMutex.Unlock()
 			return
 		}
 		err = nil
-- 
2.43.0


From dd3135b977e4df8c9cc723d050ea3a1a80fc2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/22] fix: do not take the status lock nor play while holding
 the model lock in Push

---
 core/ctrl.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index d979c99..3b219eb 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,21 +22,23 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		// the status lock is always taken before the model lock
+		var ready = algo.Status().Value == Ready
+		var play = false
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		if ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
 			algo.newData = 0
+			play = true
 		} else {
 			algo.newData++
 		}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
 		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
+		if play {
 			algo.Play()
 		}
 	}
-- 
2.43.0


From 6abd0c2255671c7a5a4ba9a74219c2d1ac6f097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 03/22] fix: return a copy of the runtime figures, which pushes
 modify concurrently

---
 core/ctrl.go  | 2 +-
 core/model.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 3b219eb..1cb22ed 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -282,7 +282,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
diff --git a/core/model.go b/core/model.go
index 6a422f0..f5e147e 100644
--- a/core/model.go
+++ b/core/model.go
@@ -24,11 +24,15 @@ func (algo *Algo) Space() Space {
 	return algo.space
 }
 
-// RuntimeFigures returns specific algo properties
+// RuntimeFigures returns a copy of specific algo properties
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	figures = make(RuntimeFigures, len(algo.runtimeFigures))
+	for name, value := range algo.runtimeFigures {
+		figures[name] = value
+	}
+	return
 }
 
 // Conf returns configuration
-- 
2.43.0


From 744833c850a87bd97b182c71e223b1e0e4c15baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 04/22] fix: find the nearest centroid when rounding makes a
 distance negative

---
 core/clustering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
-- 
2.43.0


From d5abbad958f7630b77ca14a1639e2e817192694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/22] fix: check under lock that the late distribution is
 initialized

---
 mcmc/latedistrib.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..a5944c3 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -27,22 +27,16 @@ func NewLateDistrib(initializer DistribBuilder) *LateDistrib {
 
 // Sample initializes the wrapped Distrib if necessary then forward to its Sample method
 func (d *LateDistrib) Sample(mu core.Elemt, time int) core.Elemt {
-	d.initialize(mu)
+	d.tryInitialize(mu)
 	return d.distrib.Sample(mu, time)
 }
 
 // Pdf initializes the wrapped Distrib if necessary then forward to its Pdf method
 func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
-	d.initialize(mu)
+	d.tryInitialize(mu)
 	return d.distrib.Pdf(x, mu, time)
 }
 
-func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
-		d.tryInitialize(elemt)
-	}
-}
-
 func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-- 
2.43.0


From 30fb6343429cf39f61e3c1668fe519761d760bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/22] fix: let an unconstrained DTW window cover the longest
 series

---
 dtw/cost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..bde58b3 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -51,6 +51,9 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
 		cumCost.window = longest
+		if shortest > longest {
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0


From da53ae04ba18cdecebfb7d13abc9a672ad3603be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:28 +0000
Subject: [PATCH 07/22] fix: keep the weighted choice in range for a null draw
 and for rounding errors

---
 kmeans/init.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..853ee4b 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -111,10 +111,15 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	for i, weight := range weights {
+		if weight > 0 {
+			idx = i
+			if cursor < weight {
+				break
+			}
+			cursor -= weight
+		}
 	}
 
-	return idx - 1, nil
+	return idx, nil
 }
-- 
2.43.0


From dd3cd5a2d6df55c21961da0cb4e7fd243feea07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 08/22] fix: do not publish the centroids of a failed
 initialization

---
 core/ctrl.go   | 6 +++---
 kmeans/init.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 1cb22ed..357b64a 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -85,10 +85,10 @@ func (algo *Algo) init() (err error) {
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
-		algo.modelMutex.Lock()
-		algo.centroids = centroids
-		algo.modelMutex.Unlock()
 		if err == nil {
+			algo.modelMutex.Lock()
+			algo.centroids = centroids
+			algo.modelMutex.Unlock()
 			algo.setStatus(NewOCStatus(Ready), false)
 		} else {
 			algo.setStatus(NewOCStatusError(err), false)
diff --git a/kmeans/init.go b/kmeans/init.go
index 853ee4b..d52c2bd 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,9 +49,9 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
 		centroids[0] = elemts[draw]
 
@@ -76,9 +76,9 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From 0bd1b3440f9d125599647bcd3f4b62b40a6da531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 09/22] fix: copy the first centroid drawn by the kmeans++
 initializer

---
 kmeans/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index d52c2bd..291c09b 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -53,7 +53,7 @@ func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand)
 	if err == nil {
 		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
-		centroids[0] = elemts[draw]
+		centroids[0] = space.Copy(elemts[draw])
 
 		for i := 1; i < k && err == nil; i++ {
 			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
-- 
2.43.0


From 2cd629c4035ae08e6d015f063fe33c95a92711ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 10/22] fix: raise the panics of parallel processes in the
 calling go routine

---
 core/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/util.go b/core/util.go
index ac1e020..b7407c7 100644
--- a/core/util.go
+++ b/core/util.go
@@ -10,9 +10,11 @@ func Par(process func(int, int, int), size int, degree int) {
 	var wg = &sync.WaitGroup{}
 	var offset = size / degree
 	var remainder = size % degree
+	var panics = make([]interface{}, degree)
 	wg.Add(degree)
 	var launch = func(start int, end int, rank int) {
 		defer wg.Done()
+		defer func() { panics[rank] = recover() }()
 		process(start, end, rank)
 	}
 	var start = 0
@@ -28,4 +30,10 @@ func Par(process func(int, int, int), size int, degree int) {
 		start = end
 	}
 	wg.Wait()
+	// a panic is raised in the calling go routine, which can recover it
+	for _, reason := range panics {
+		if reason != nil {
+			panic(reason)
+		}
+	}
 }
-- 
2.43.0


From 8d427507c540c38f18df62955aeacf3886a8b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 11/22] fix: publish a copy of the streaming centers, which
 next iterations modify

---
 streaming/impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..bff42fe 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,9 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		// centers are modified in place by next iterations
+		clust = make(core.Clust, len(impl.clust))
+		copy(clust, impl.clust)
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 2918b55dc22d71d81d95d34aa8049c045353a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 12/22] fix: end a run atomically, and never set it idle once
 it is over

---
 core/ctrl.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 357b64a..7f9a21c 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -207,13 +207,14 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
+// terminate a run: final status and release of the waiting client are done under the same lock
+func (algo *Algo) terminate(err error, start time.Time) {
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
-	var recovery = recover()
-	if recovery != nil {
-		var err = fmt.Errorf("%v", recovery)
+	if err != nil {
 		algo.setStatus(NewOCStatusError(err), false)
+	} else if algo.status.Value == Running {
+		algo.setStatus(NewOCStatus(Ready), false)
 	}
 	// wait a few between client time processing between releasing statusMutex and sendStatus
 	time.Sleep(100 * time.Millisecond)
@@ -228,7 +229,8 @@ func (algo *Algo) recover(start time.Time) {
 	select {
 	// get client status if client quiered to stop or timeout interruption
 	case status := <-algo.statusChannel:
-		if recovery == nil {
+		// the run is over: it can not be paused anymore
+		if err == nil && status.Value == Finished {
 			algo.setStatus(status, false)
 		}
 	default:
@@ -265,7 +267,12 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+		algo.terminate(err, start)
+	}()
 
 	algo.receiveStatus()
 
@@ -304,13 +311,6 @@ func (algo *Algo) run() {
 			}
 		}
 	}
-	if err == nil {
-		if algo.status.Value == Running {
-			algo.setStatus(NewOCStatus(Ready), true)
-		}
-	} else {
-		algo.setStatus(NewOCStatusError(err), true)
-	}
 }
 
 func (algo *Algo) updateRuntimeFigures() {
-- 
2.43.0


From 1c19f23eeae0d375d7acfb0654c77936e184228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:14 +0000
Subject: [PATCH 13/22] fix: serialize control operations, which concurrently
 start or stop the same run

---
 core/algo.go | 1 +
 core/ctrl.go | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..e3735ab 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -34,6 +34,7 @@ type Algo struct {
 
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
+	ctrlMutex   sync.Mutex   // serializes control operations, taken before other mutexes
 }
 
 // NewAlgo creates a new algorithm instance
diff --git a/core/ctrl.go b/core/ctrl.go
index 7f9a21c..fab3c6c 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -60,6 +60,8 @@ func (algo *Algo) Batch() (err error) {
 
 // Init initialize centroids and set status to Ready
 func (algo *Algo) Init() error {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
 	return algo.init()
@@ -101,6 +103,8 @@ func (algo *Algo) init() (err error) {
 
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	switch algo.status.Value {
 	case Idle:
@@ -136,6 +140,8 @@ func (algo *Algo) Play() (err error) {
 
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	if algo.status.Value == Running {
 		algo.statusMutex.Unlock()
@@ -177,6 +183,8 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 
 // interrupt the algorithm
 func (algo *Algo) interrupt(interruption error) (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
 	switch algo.status.Value {
 	case Ready:
-- 
2.43.0


From 187ef7542e23943c63dde0a88d963c2adaf1b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:14 +0000
Subject: [PATCH 14/22] fix: read status and centroids under their lock during
 a run

---
 core/ctrl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index fab3c6c..ebfe351 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -195,7 +195,7 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 	case Running:
 		algo.statusMutex.Unlock()
 		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
+		err = algo.Status().Error
 	default:
 		algo.statusMutex.Unlock()
 		err = ErrNotAlive
@@ -257,7 +257,7 @@ func (algo *Algo) run() {
 
 	var err error
 	var conf = algo.conf.Ctrl()
-	var centroids = algo.centroids
+	var centroids Clust
 	var runtimeFigures RuntimeFigures
 	var iterFreq time.Duration
 	if conf.IterFreq > 0 {
@@ -284,7 +284,7 @@ func (algo *Algo) run() {
 
 	algo.receiveStatus()
 
-	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
+	for err == nil && algo.Status().Value == Running && !IsFinished(finishing, algo) {
 		select { // check for algo status update
 		case status := <-algo.statusChannel:
 			algo.setStatus(status, true)
@@ -297,7 +297,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
+					algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids(),
 				),
 			)
 			duration = time.Now().Sub(start)
-- 
2.43.0


From bc76f954e4be26ac356836ab35a4b21be8b3e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 15/22] fix: fail when the implementation panics at
 initialization, instead of keeping the lock

---
 core/ctrl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index ebfe351..4e5eae7 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -86,7 +86,7 @@ func (algo *Algo) init() (err error) {
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.initImpl()
 		if err == nil {
 			algo.modelMutex.Lock()
 			algo.centroids = centroids
@@ -101,6 +101,16 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initImpl calls implementation initialization. A panic is an error, such as during a run
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(algo)
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	algo.ctrlMutex.Lock()
-- 
2.43.0


From 56d4bf75b379cb8914be82ea16f73f9bf2b40e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 16/22] fix: let the status notifier call the algorithm without
 deadlock

---
 core/algo.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index e3735ab..c2b60a5 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -93,12 +93,34 @@ func (algo *Algo) notify(status OCStatus) {
 	}
 }
 
+// notificationLoop receives statuses without delay, because they can be sent with the status lock,
+// and forwards them in order to a go routine in charge of calling the notifier
 func (algo *Algo) notificationLoop() {
+	var statuses = make(chan OCStatus)
+	defer close(statuses)
+	go algo.notifyAll(statuses)
+	var pending []OCStatus
 	for {
-		var status, ok = <-algo.notifChannel
-		if !ok {
-			return
+		var next OCStatus
+		var forward chan OCStatus
+		if len(pending) > 0 {
+			next = pending[0]
+			forward = statuses
 		}
+		select {
+		case status, ok := <-algo.notifChannel:
+			if !ok {
+				return
+			}
+			pending = append(pending, status)
+		case forward <- next:
+			pending = pending[1:]
+		}
+	}
+}
+
+func (algo *Algo) notifyAll(statuses <-chan OCStatus) {
+	for status := range statuses {
 		algo.notify(status)
 	}
 }
-- 
2.43.0


From 3c4ae58969ecc037abc2b05d1962ad9d3b783d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 17/22] fix: report every initialization error in Play

---
 core/ctrl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 4e5eae7..a705fa5 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -124,11 +124,10 @@ func (algo *Algo) Play() (err error) {
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
+		if err != nil {
 			algo.statusMutex.Unlock()
 			return
 		}
-		err = nil
 		fallthrough
 	case Ready:
 		go algo.run()
-- 
2.43.0


From 670f5dab6d5bbb2a13af7f4fb9eeabfcbeff5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 18/22] fix: do not release the client that stops an idle run
 before the run is over

---
 core/algo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/algo.go b/core/algo.go
index c2b60a5..dea77f3 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -74,7 +74,9 @@ func (algo *Algo) setStatus(status OCStatus, safe bool) {
 func (algo *Algo) receiveStatus() {
 	var status = <-algo.statusChannel
 	algo.setStatus(status, true)
-	algo.ackChannel <- true
+	if status.Value != Finished { // otherwise the client is freed once the run is over
+		algo.ackChannel <- true
+	}
 }
 
 // sendStatus status to run go routine
-- 
2.43.0


From 123fb649036097e5a79f9e474a82849fd2362b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 19/22] fix: a push that decided to play the waiting algorithm
 no longer restarts it when it was stopped meanwhile

---
 core/ctrl.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index a705fa5..f196f5b 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -39,7 +39,7 @@ func (algo *Algo) Push(elemt Elemt) (err error) {
 		algo.modelMutex.Unlock()
 		// try to play if waiting
 		if play {
-			algo.Play()
+			algo.playReady()
 		}
 	}
 	return
@@ -130,16 +130,7 @@ func (algo *Algo) Play() (err error) {
 		}
 		fallthrough
 	case Ready:
-		go algo.run()
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
-		if algo.timeout != nil {
-			algo.timeout.Disable()
-		}
-		var interruptionTimeout = algo.Conf().Ctrl().Timeout
-		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
-		}
+		algo.start()
 	case Running:
 		algo.statusMutex.Unlock()
 		err = ErrRunning
@@ -147,6 +138,32 @@ func (algo *Algo) Play() (err error) {
 	return
 }
 
+// playReady plays the algorithm if it is still ready: it may have been stopped since a push decided to play it
+func (algo *Algo) playReady() {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	algo.statusMutex.Lock()
+	if algo.status.Value == Ready {
+		algo.start()
+	} else {
+		algo.statusMutex.Unlock()
+	}
+}
+
+// start a run, with the status lock, which is released
+func (algo *Algo) start() {
+	go algo.run()
+	algo.statusMutex.Unlock()
+	algo.sendStatus(NewOCStatus(Running))
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+	}
+	var interruptionTimeout = algo.Conf().Ctrl().Timeout
+	if interruptionTimeout > 0 {
+		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+	}
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
 	algo.ctrlMutex.Lock()
-- 
2.43.0


From 80a3f40429f3789bf7ffbfcece67ba7f715ced71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 20/22] fix: a timeout no longer interrupts a run it was not
 armed for, nor an algorithm whose run is over

---
 core/ctrl.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f196f5b..329742a 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -152,16 +152,22 @@ func (algo *Algo) playReady() {
 
 // start a run, with the status lock, which is released
 func (algo *Algo) start() {
-	go algo.run()
-	algo.statusMutex.Unlock()
-	algo.sendStatus(NewOCStatus(Running))
 	if algo.timeout != nil {
 		algo.timeout.Disable()
+		algo.timeout = nil
 	}
 	var interruptionTimeout = algo.Conf().Ctrl().Timeout
 	if interruptionTimeout > 0 {
-		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+		var timeout Timeout
+		// the timeout is evaluated with the control lock: it may be disabled once elapsed
+		timeout = InterruptionTimeout(interruptionTimeout, func(err error) error {
+			return algo.interrupt(err, func() bool { return timeout.Enabled() })
+		})
+		algo.timeout = timeout
 	}
+	go algo.run(algo.timeout)
+	algo.statusMutex.Unlock()
+	algo.sendStatus(NewOCStatus(Running))
 }
 
 // Pause the algorithm and set status to idle
@@ -207,11 +213,15 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 	return
 }
 
-// interrupt the algorithm
-func (algo *Algo) interrupt(interruption error) (err error) {
+// interrupt the algorithm if the interruption still holds
+func (algo *Algo) interrupt(interruption error, enabled func() bool) (err error) {
 	algo.ctrlMutex.Lock()
 	defer algo.ctrlMutex.Unlock()
 	algo.statusMutex.Lock()
+	if !enabled() {
+		algo.statusMutex.Unlock()
+		return
+	}
 	switch algo.status.Value {
 	case Ready:
 		algo.setStatus(NewOCStatusError(interruption), false)
@@ -231,7 +241,7 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 
 // Stop the algorithm
 func (algo *Algo) Stop() (err error) {
-	return algo.interrupt(nil)
+	return algo.interrupt(nil, func() bool { return true })
 }
 
 // Predict the cluster for a new observation
@@ -242,9 +252,12 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 }
 
 // terminate a run: final status and release of the waiting client are done under the same lock
-func (algo *Algo) terminate(err error, start time.Time) {
+func (algo *Algo) terminate(err error, start time.Time, timeout Timeout) {
 	algo.statusMutex.Lock()
 	defer algo.statusMutex.Unlock()
+	if timeout != nil {
+		timeout.Disable()
+	}
 	if err != nil {
 		algo.setStatus(NewOCStatusError(err), false)
 	} else if algo.status.Value == Running {
@@ -278,7 +291,7 @@ func (algo *Algo) terminate(err error, start time.Time) {
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
-func (algo *Algo) run() {
+func (algo *Algo) run(timeout Timeout) {
 	algo.ackChannel = make(chan bool)
 
 	var err error
@@ -305,7 +318,7 @@ func (algo *Algo) run() {
 		if recovery := recover(); recovery != nil {
 			err = fmt.Errorf("%v", recovery)
 		}
-		algo.terminate(err, start)
+		algo.terminate(err, start, timeout)
 	}()
 
 	algo.receiveStatus()
-- 
2.43.0


From 0c562151dc2dc23242dcd041832e1d047f17f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 21/22] fix: a batch whose run failed before the wait returns
 the failure

---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 329742a..95bc057 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -51,6 +51,9 @@ func (algo *Algo) Batch() (err error) {
 	err = algo.Play()
 	if err == nil {
 		err = algo.Wait(nil, 0)
+		if err == nil { // the run may have failed before the wait
+			err = algo.Status().Error
+		}
 		if err == nil {
 			algo.Stop()
 		}
-- 
2.43.0


From cf0158186fbbe58ee49207da6c6e91afd5e475c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:22 +0000
Subject: [PATCH 22/22] fix: a copied algorithm uses the requested
 configuration and space

The implementation was rebuilt with the configuration and space of the original algorithm,
so that the frame size, parallelism or streaming parameters asked for the copy were ignored.
---
 core/ctrl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 95bc057..03e4f80 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -425,7 +425,8 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	var model = NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
+	impl, err := algo.impl.Copy(model)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
-- 
2.43.0


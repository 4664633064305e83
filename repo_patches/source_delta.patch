From 062b2e3eea6709e37f574d96b5ba04f5c402e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:40 +0000
Subject: [PATCH 1/7] fix: forget when projections were last compacted when the
 engine is reset

A projection that had been compacted by a tick was not compacted by the first
tick after Engine.Reset(), because its controller kept the time of the last
compaction.
---
 engine/internal/projection/controller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..2a8b3c6 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -180,6 +180,7 @@ func (c *Controller) Handle(
 	return nil, compactErr
 }
 
-// Reset does nothing.
+// Reset clears the state of the controller.
 func (c *Controller) Reset() {
+	c.lastCompact = time.Time{}
 }
-- 
2.43.0


From 26208a816f6e6a288ee6d42470b1ac08d6a4074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:20 +0000
Subject: [PATCH 2/7] fix: do not notify observers concurrently of what a
 projection logs while compacting

When compaction runs in parallel with handling, a log message from Compact()
was delivered to the observers from the compaction's own goroutine, at the same
time as the facts of the event being handled. Observers are not required to be
safe for concurrent use.

Such messages are now buffered, and delivered just before compaction is reported
as completed.
---
 engine/internal/projection/controller.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 2a8b3c6..97adcff 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	compactFacts := &fact.Buffer{}
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -126,7 +127,7 @@ func (c *Controller) Handle(
 				ctx,
 				&scope{
 					config:   c.Config,
-					observer: obs,
+					observer: compactFacts,
 					now:      now,
 				},
 			)
@@ -157,6 +158,12 @@ func (c *Controller) Handle(
 	compactErr := <-compactResult
 
 	if c.CompactDuringHandling {
+		// Anything logged during compaction has been buffered so that
+		// notification occurs in the main goroutine, as per the comment above.
+		for _, f := range compactFacts.Facts() {
+			obs.Notify(f)
+		}
+
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
 			Error:   compactErr,
-- 
2.43.0


From a46bc153aee959c774715af8709013cd8e17bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:38 +0000
Subject: [PATCH 3/7] fix: let the caller recover when a projection panics
 while compacting

When compaction runs in parallel with handling, a panic in Compact() happened on
a goroutine of its own and always crashed the whole process. It now reaches the
caller of the operation, like a panic in any other handler method.
---
 engine/internal/projection/controller.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 97adcff..5b8008b 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	var compactPanic any
 	compactFacts := &fact.Buffer{}
 
 	if c.CompactDuringHandling {
@@ -123,6 +124,13 @@ func (c *Controller) Handle(
 		// handling the message. This is intended to ensure the implementation
 		// can actually handle such parallelism, which is required by the spec.
 		go func() {
+			defer close(compactResult)
+			defer func() {
+				if v := recover(); v != nil {
+					compactPanic = v
+				}
+			}()
+
 			compactResult <- c.Config.Handler().Compact(
 				ctx,
 				&scope{
@@ -157,6 +165,11 @@ func (c *Controller) Handle(
 
 	compactErr := <-compactResult
 
+	// Panic in the main goroutine, so that the caller can recover.
+	if compactPanic != nil {
+		panic(compactPanic)
+	}
+
 	if c.CompactDuringHandling {
 		// Anything logged during compaction has been buffered so that
 		// notification occurs in the main goroutine, as per the comment above.
-- 
2.43.0


From b62eb91980ec3409780d0553503cc1ed6527f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:04 +0000
Subject: [PATCH 4/7] fix: wait for a parallel compaction when handling an
 event panics

If HandleEvent() panicked while the same projection was being compacted in
parallel, the engine returned to its caller and allowed further operations while
Compact() was still running.
---
 engine/internal/projection/controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 5b8008b..8729977 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -140,6 +140,10 @@ func (c *Controller) Handle(
 				},
 			)
 		}()
+
+		// Never leave compaction running once handling has ended, even if the
+		// handler panics.
+		defer func() { <-compactResult }()
 	} else {
 		close(compactResult)
 	}
-- 
2.43.0


From e2a7d83ee1cc6c8ed7c9b007e2f9afbe351a2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:28 +0000
Subject: [PATCH 5/7] fix: run every cleanup function of a ToSatisfy()
 expectation

A cleanup function that called FailNow(), SkipNow() or similar prevented the
remaining cleanup functions from being called, and functions registered by
another cleanup function were never called.
---
 expectation.satisfy.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..9bb6d12 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -362,11 +362,20 @@ func (t *SatisfyT) explain(fn string) {
 	}
 }
 
-// close calls any functions registered via Cleanup().
+// close calls any functions registered via Cleanup(), including those that are
+// registered by other cleanup functions. Each one is called even if others fail,
+// skip or panic.
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	n := len(t.cleanup)
+	if n == 0 {
+		return
 	}
+
+	fn := t.cleanup[n-1]
+	t.cleanup = t.cleanup[:n-1]
+
+	defer t.close()
+	fn()
 }
 
 // findFrame searches, starting after skip frames, for the first caller frame
-- 
2.43.0


From 15aa26a3cbe56fa7caa5356417778ac9542dc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:35 +0000
Subject: [PATCH 6/7] fix: keep a panic in a ToSatisfy() function when a
 cleanup stops itself

When the function given to ToSatisfy() panicked and one of its cleanup
functions then called FailNow(), Skip() or similar, the panic was lost and
the test continued as if nothing had happened. Such a call now only stops the
cleanup function that makes it.
---
 expectation.satisfy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index 9bb6d12..e7f0fdf 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -375,6 +375,18 @@ func (t *SatisfyT) close() {
 	t.cleanup = t.cleanup[:n-1]
 
 	defer t.close()
+
+	// Stopping a cleanup function must not replace a panic that is already
+	// propagating.
+	defer func() {
+		switch r := recover().(type) {
+		case abortSentinel, nil:
+			return
+		default:
+			panic(r)
+		}
+	}()
+
 	fn()
 }
 
-- 
2.43.0


From 8f2ca6de3ac61b2e27c56a87fd68fddbc7c342dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:14 +0000
Subject: [PATCH 7/7] fix: notify predicates of one fact at a time

Code that is run by a Call() action may execute commands concurrently.
The engine then reports facts from several goroutines at once.
Predicates are not safe for that, so ToSatisfy() could lose facts.
Expect() now passes facts to the predicate one at a time.
---
 test.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index 6f022c0..45ff44f 100644
--- a/test.go
+++ b/test.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dogmatiq/configkit"
@@ -115,13 +116,22 @@ func (t *Test) Expect(act Action, e Expectation) *Test {
 		return t // required when using a mock testingT that does not panic
 	}
 
+	// The action may execute commands concurrently, in which case facts can be
+	// recorded concurrently, but predicates must be notified of one at a time.
+	var m sync.Mutex
+	notify := func(f fact.Fact) {
+		m.Lock()
+		defer m.Unlock()
+		p.Notify(f)
+	}
+
 	// Using a defer inside a closure satisfies the requirements of the
 	// Expectation and Predicate interfaces which state that p.Done() must
 	// be called exactly once, and that it must be called before calling
 	// p.Report().
 	if err := func() error {
 		defer p.Done()
-		return t.doAction(act, engine.WithObserver(p))
+		return t.doAction(act, engine.WithObserver(fact.ObserverFunc(notify)))
 	}(); err != nil {
 		t.testingT.Fatal(err)
 		return t // required when using a mock testingT that does not panic
-- 
2.43.0


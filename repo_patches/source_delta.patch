From 5ce57cd723cd5cbe773acf035996ce24bea5568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 001/106] fix: window --overlap with no input must propagate
 end of stream

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..daabcd1 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -237,7 +237,7 @@ class OverlapWindow(WindowBase):
                 self.window = self.window[1:]
                 self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-            self.op.propagate_flush(env)
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From ed325c2dd3aa535b17333d75a998eef36a70d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 002/106] fix: tail must propagate end of stream exactly once

---
 marcel/op/tail.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marcel/op/tail.py b/marcel/op/tail.py
index d7ea098..648ce5c 100644
--- a/marcel/op/tail.py
+++ b/marcel/op/tail.py
@@ -108,7 +108,6 @@ class TailKeepN(TailImpl):
                 self.op.send(env, x)
             p = (p + 1) % self.n
             count -= 1
-        self.op.propagate_flush(env)
         self.queue.clear()
 
 
-- 
2.43.0


From b0f89c30fe62f2c148f44eba707f1b1ce9c21a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 003/106] fix: args must propagate end of stream exactly once

---
 marcel/op/args.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..e66c559 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -99,11 +99,10 @@ class Args(marcel.core.Op):
                 self.pipeline.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
-                # Need to ensure that flush is propagated no matter what happens
+                # Need to ensure that flush is propagated no matter what happens, but only once.
                 self.propagate_flush(env)
-        # If there was an exception, and we flushed already, this should still be OK. Propagating a
-        # flush a second time should be a noop.
-        self.propagate_flush(env)
+        else:
+            self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 8392d4df128a20bdfffa75566b453883b604ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 004/106] fix: union must propagate end of stream exactly once

---
 marcel/op/union.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..1a2b6d9 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -85,23 +85,17 @@ class Union(marcel.core.Op):
     def customize_pipelines(self, env):
         # Union is implemented by passing the input stream along in receive(), and then having each pipeline's
         # arg send its output via flush. This depends on all the pipelines args having the same receiver as the
-        # union op itself. However, we only want one flush after everything is done. PropagateFlushFromLast
-        # makes sure that only the last pipelines propagates the flush.
-        n_pipelines = len(self.pipelines)
+        # union op itself. However, we only want one flush after everything is done. That flush is done by Union.flush,
+        # and DontPropagateFlush makes sure that the pipelines don't propagate theirs.
         customized = []
         for pipeline in self.pipelines:
-            last = len(customized) == n_pipelines - 1
-            pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
+            pipeline = pipeline.append_immutable(DontPropagateFlush())
             pipeline.route_output(self.receiver)
             customized.append(pipeline)
         self.pipelines = customized
 
 
-class PropagateFlushFromLast(marcel.core.Op):
-
-    def __init__(self, last):
-        super().__init__()
-        self.last = last
+class DontPropagateFlush(marcel.core.Op):
 
     # Op
 
@@ -109,5 +103,4 @@ class PropagateFlushFromLast(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        if self.last:
-            self.propagate_flush(env)
\ No newline at end of file
+        pass
\ No newline at end of file
-- 
2.43.0


From 6c5155f0305ed2c3d354daa7467cb76a244940fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 005/106] fix: HOST and ITALIC are immutable (missing comma)

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..03db665 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -90,7 +90,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
-- 
2.43.0


From 2b624a6cf09dfd2c7b2b9511d208245c7a689742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 006/106] fix: fork must not lose the output of slow workers

---
 marcel/op/forkmanager.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..d10fd7a 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -100,14 +100,15 @@ class ForkManager(object):
         for worker in self.workers:
             worker.start()
             dump(f'{self} started {worker}')
-        completed = 0
+        active = list(self.workers)
         w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
+        while active:
+            w = w % len(active)
+            if active[w].consume_input():
+                w += 1
+            else:
+                del active[w]
+            dump(f'active: {active}')
         for worker in self.workers:
             worker.close()
 
-- 
2.43.0


From d7eb522976efdde38ed616f9a2f03192497ca8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 007/106] fix: reverse can be run more than once

---
 marcel/op/reverse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..73251f1 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -42,6 +42,11 @@ class Reverse(marcel.core.Op):
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
+    # Op
+
     def receive(self, env, x):
         self.contents.append(x)
 
-- 
2.43.0


From f7541ab2819a7d68f5c213cc1e5a89d30f0ac255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 008/106] fix: intersect starts each execution with a fresh
 count of common items

---
 marcel/op/intersect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..bc77e78 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -66,6 +66,7 @@ class Intersect(marcel.core.Op):
         return f'intersect({self.pipelines})'
 
     def setup(self, env):
+        self.common = None
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
 
-- 
2.43.0


From dde568a8f95a2becf5b5116cadd763131b4cd04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 009/106] fix: union sends output to its current receiver, each
 time it is run

---
 marcel/op/union.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 1a2b6d9..8f7899c 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -56,6 +57,7 @@ class Union(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipelines = None
+        self.customized = None
 
     def __repr__(self):
         return 'union()'
@@ -72,7 +74,7 @@ class Union(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        for pipeline in self.pipelines:
+        for pipeline in self.customized:
             pipeline.run_pipeline(env, {})
         self.propagate_flush(env)
 
@@ -83,24 +85,9 @@ class Union(marcel.core.Op):
     # Internal
 
     def customize_pipelines(self, env):
-        # Union is implemented by passing the input stream along in receive(), and then having each pipeline's
-        # arg send its output via flush. This depends on all the pipelines args having the same receiver as the
-        # union op itself. However, we only want one flush after everything is done. That flush is done by Union.flush,
-        # and DontPropagateFlush makes sure that the pipelines don't propagate theirs.
-        customized = []
-        for pipeline in self.pipelines:
-            pipeline = pipeline.append_immutable(DontPropagateFlush())
-            pipeline.route_output(self.receiver)
-            customized.append(pipeline)
-        self.pipelines = customized
-
-
-class DontPropagateFlush(marcel.core.Op):
-
-    # Op
-
-    def receive(self, env, x):
-        self.send(env, x)
-
-    def flush(self, env):
-        pass
\ No newline at end of file
+        # Union is implemented by passing the input stream along in receive(), and then, in flush(), running each
+        # pipeline arg, with its output redirected to this op's output. (Redirect doesn't propagate flush, so there
+        # is just one flush, after everything is done.) self.pipelines is not modified because this op may be
+        # set up and run more than once.
+        self.customized = [pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+                           for pipeline in self.pipelines]
-- 
2.43.0


From e9a25ba6d80046d8cb0f6d75428e3b5679439c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 010/106] fix: join, filter, difference, intersect do not
 modify their pipeline arguments when run

---
 marcel/op/difference.py | 6 ++++--
 marcel/op/filter.py     | 6 +++---
 marcel/op/intersect.py  | 6 ++++--
 marcel/op/join.py       | 6 ++++--
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..8ac4ca4 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -67,6 +67,7 @@ class Difference(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.customized = None
         self.right = None
         self.first = None
 
@@ -80,7 +81,7 @@ class Difference(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.customized.run_pipeline(env, {})
             self.first = False
         try:
             count = self.right.get(x, None)
@@ -103,7 +104,8 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        # self.pipeline is not modified because this op may be set up and run more than once.
+        self.customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..7a6f41d 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -136,6 +136,6 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
-        self.pipeline.setup(env)
-        self.pipeline.run_pipeline(env, {})
+        # self.pipeline is not modified because this op may be set up and run more than once.
+        pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        pipeline.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index bc77e78..40894ba 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -61,6 +61,7 @@ class Intersect(marcel.core.Op):
         self.common = None  # item -> count: Accumulated intersection
         self.input = None   # item -> count: From one of the pipelines args
         self.pipelines = None
+        self.customized = None
 
     def __repr__(self):
         return f'intersect({self.pipelines})'
@@ -98,12 +99,13 @@ class Intersect(marcel.core.Op):
         for pipeline in self.pipelines:
             pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
             customized.append(pipeline)
-        self.pipelines = customized
+        # self.pipelines is not modified because this op may be set up and run more than once.
+        self.customized = customized
 
     def ensure_args_consumed(self, env):
         if self.common is None:
             # Compute the intersection of all the pipeline args
-            for pipeline in self.pipelines:
+            for pipeline in self.customized:
                 self.input = {}
                 pipeline.run_pipeline(env, {})  # Populates self.input
                 if self.common is None:
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..fcc5ec6 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -92,6 +92,7 @@ class Join(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.customized = None
         self.keep = None
         self.inner = None  # Map containing contents of pipelines, keyed by join value
         self.first = None
@@ -107,7 +108,7 @@ class Join(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.customized.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
         join_value = x[0]
@@ -147,4 +148,5 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        # self.pipeline is not modified because this op may be set up and run more than once.
+        self.customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
-- 
2.43.0


From 6467db4476cb188272ea9e4870686b1eef64ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 011/106] fix: running a pipeline-valued variable propagates
 end of stream exactly once

---
 marcel/op/runpipeline.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..01d725a 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -15,6 +15,7 @@
 
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.pipeline
 import marcel.util
 
@@ -29,6 +30,7 @@ class RunPipeline(marcel.core.Op):
         self.kwargs_arg = None
         self.kwargs = None
         self.pipeline = None
+        self.flushed = None
 
     def __repr__(self):
         return f'runpipeline({self.var} {self.args_arg})'
@@ -59,8 +61,10 @@ class RunPipeline(marcel.core.Op):
         # Without copying the identical ops comprising f would be used twice in the same
         # command. This potentially breaks the use of Op state during execution, and also
         # breaks the structure of the pipelines, e.g. Op.receiver.
-        self.pipeline = self.pipeline.copy()
-        self.pipeline.route_output(self.receiver)
+        # Redirect sends the pipeline's output to this op's receiver, but doesn't propagate flush. flush() takes care
+        # of that, so that it is done exactly once.
+        self.pipeline = self.pipeline.copy().append_immutable(marcel.op.redirect.Redirect(self))
+        self.flushed = False
         env.vars().push_scope(self.bindings())
         try:
             self.pipeline.setup(env)
@@ -74,6 +78,7 @@ class RunPipeline(marcel.core.Op):
         env.vars().push_scope(bindings)
         try:
             self.pipeline.run_pipeline(env, bindings)
+            self.flushed = True  # By run_pipeline
         finally:
             env.vars().pop_scope()
 
@@ -87,7 +92,8 @@ class RunPipeline(marcel.core.Op):
     def flush(self, env):
         env.vars().push_scope(self.bindings())
         try:
-            self.pipeline.flush(env)
+            if not self.flushed:
+                self.pipeline.flush(env)
             self.propagate_flush(env)
         finally:
             env.vars().pop_scope()
-- 
2.43.0


From 8f352964afab7f8ca88a7a6c2a14ff312a807838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 012/106] fix: case branches start with fresh state each time
 case is run

---
 marcel/op/case.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..5b4edb5 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -137,6 +137,9 @@ class Case(marcel.core.Op):
             try:
                 if not isinstance(pipeline, marcel.pipeline.Pipeline):
                     raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
+                # Copy, because self.args is processed again each time this op is set up. Reusing a pipeline that
+                # has already been set up would leave its ops with state from the previous execution.
+                pipeline = pipeline.copy()
                 pipeline.setup(env)
                 return pipeline
             except Exception as e:
-- 
2.43.0


From f6991c92c7f29cb8d2d33b17627b3d3855158171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 013/106] fix: API pipelines receiving input (branches of case)
 must be set up

---
 marcel/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..4b01073 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -375,7 +375,7 @@ class PipelineOpList(Pipeline):
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        self.executable.setup(env)
 
     def run_pipeline(self, env, bindings):
         try:
-- 
2.43.0


From 31a5d972a5d1fa1316e41e4c1a5bbf8291a480d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 014/106] fix: pos() starts at 0 for each execution of a
 pipeline

---
 marcel/core.py     | 3 +++
 marcel/pipeline.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..6e1505f 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -106,6 +106,9 @@ class Op(AbstractOp):
     def pos(self):
         return self._count
 
+    def reset_pos(self):
+        self._count = -1
+
     def run(self, env):
         if self.must_not_be_first_in_pipeline():
             raise marcel.exception.KillCommandException(f'{self.op_name()} cannot be the first operator in a pipeline')
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 4b01073..95f77ca 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -59,6 +59,7 @@ class PipelineExecutable(object):
         for op in self.ops:
             if env.trace.is_enabled():
                 env.trace.write(op, 'SETUP')
+            op.reset_pos()
             op.setup(env)
         for op in self.ops:
             op.customize_pipelines(env)
-- 
2.43.0


From ebe9a6e4f9d0eeb4031a7880c29986100522a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 015/106] fix: a variable hidden by a pipeline parameter is
 restored when the pipeline exits

---
 marcel/nestednamespace.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..8e4f964 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -314,6 +314,8 @@ class Scope(dict):
         else:
             assert type(parent) is Scope, parent
             self.level = parent.level + 1
+            # Values from outside this scope, of vars that have the same names as this scope's params.
+            self.shadowed = {}
             if params:
                 for var in params:
                     self[var] = EnvValue.wrap(self.env, None)
@@ -412,8 +414,10 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        scope = Scope(self.env, self.current_scope(), bindings)
+        self.scopes.append(scope)
         if bindings:
+            scope.shadowed = {var: self[var] for var in bindings if var in self}
             for var, value in bindings.items():
                 self[var] = value
 
@@ -425,7 +429,9 @@ class NestedNamespace(dict):
         # - Insert (var, value) entries for remaining scopes, outermost first.
         popped_scope = self.scopes.pop()
         for var in popped_scope.keys():
-            super().__delitem__(var)
+            super().pop(var, None)
+        # Values of vars hidden by the popped scope's params are visible again.
+        super().update(popped_scope.shadowed)
         # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
         # known and EnvValue cache is unset.
         for scope in self.scopes[1:]:
-- 
2.43.0


From 2e64def743e168a7303593922f875a1fe3102079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 016/106] fix: a deleted variable must not reappear when the
 workspace is reopened

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..35e7ded 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,8 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From 0feaa30277bc2f247f4d6981fef55121de574561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 017/106] fix: a workspace abandoned by a process that died can
 be opened; losing a race for a workspace is reported as such

---
 marcel/object/workspace.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 35e7ded..f3eb375 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -386,9 +386,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         if owner is None:
             # Lock the file by renaming it. Check for success, to guard against another process trying to
             # lock the same workspace.
-            owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
-            return owned_marker_path.exists()
+            return self.rename_marker(self.marker.unowned(), self.marker.owned())
         elif owner == self.locations.pid:
             # Already locked
             return True
@@ -401,11 +399,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 return False
             else:
                 # Owner disappeared. Steal the marker file.
-                abandoned_marker_path = self.marker.owned(owner)
-                owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
-                return owned_marker_path.exists()
+                return self.rename_marker(self.marker.owned(owner), self.marker.owned())
+
+    # Returns False if the rename did not take place because another process got to the marker first.
+    def rename_marker(self, from_path, to_path):
+        try:
+            from_path.rename(to_path)
+            return True
+        except FileNotFoundError:
+            return False
 
     def unlock_workspace(self):
         assert not self.is_default()
@@ -457,7 +459,9 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         if not self.locations.config_ws(self).exists():
             return None
         # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
-        self.delete_abandoned_markers()
+        self.release_abandoned_markers()
+        if self.marker.unowned().exists():
+            return None
         # Now find the marker. Something is very wrong if there is anything other than one.
         marker_filename = None
         for file in self.locations.config_ws(self).iterdir():
@@ -484,12 +488,14 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
-    def delete_abandoned_markers(self):
+    # If a marker is owned by a process that doesn't exist, then the workspace is unowned. The marker is renamed, (as
+    # opposed to deleting it and then creating another), so that there is exactly one marker at all times.
+    def release_abandoned_markers(self):
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
                 pid = Workspace.marker_filename_pid(file.name)
                 if not marcel.util.process_exists(pid):
-                    file.unlink()
+                    self.rename_marker(file, self.marker.unowned())
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -585,11 +591,9 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
-        # Workspace.owner() gets rid of unowned marker files.
-        self.workspace.delete_abandoned_markers()
+        self.workspace.release_abandoned_markers()
         if not self.workspace.marker.exists():
-            # Could happen if Workspace.owner() deleted the marker, because it was owned by
-            # a process that no longer exists. Create a new marker.
+            # Shouldn't happen, but a damaged workspace can be repaired.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
         if not locations.config_ws_startup(workspace).exists():
-- 
2.43.0


From 3fd37326cbd2d3498dea48656987d3715ee4c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 018/106] fix: composing API pipelines with | must not modify
 the operands

---
 marcel/pipeline.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 95f77ca..629bffe 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -140,8 +140,9 @@ class PipelineExecutable(object):
 # map() | select() | red()
 # 1. map() returns an OpList with op = map()
 # 2. select() returns an OpList with op = select()
-# 3. These OpLists are or-ed, returning an OpList placing map() and select() into ops.
-# 4. Then red() yields an OpList with op set to red(), and that is or-ed appending to OpList.ops from step 3.
+# 3. These OpLists are or-ed, returning a new OpList placing map() and select() into ops.
+# 4. Then red() yields an OpList with op set to red(), and that is or-ed, returning a new OpList with the ops from
+#    step 3, and red().
 class OpList(object):
 
     def __init__(self, env, op):
@@ -150,17 +151,16 @@ class OpList(object):
         self.ops = None
 
     def __or__(self, other):
-        if self.ops is None:
-            # self must be the first op of a pipelines
-            self.ops = [self.op]
-            self.op = None
-        # Append ops from other. There could be one or more than one
+        # The operands are not modified, because they may be used elsewhere, e.g. p = gen(3); q = p | map(...)
         assert (other.op is None) != (other.ops is None)
+        combined = OpList(self.env, None)
+        combined.ops = [self.op] if self.ops is None else self.ops.copy()
+        # Append ops from other. There could be one or more than one
         if other.op:
-            self.ops.append(other.op)
+            combined.ops.append(other.op)
         else:
-            self.ops.extend(other.ops)
-        return self
+            combined.ops.extend(other.ops)
+        return combined
 
     def __iter__(self):
         return PipelineIterator(self.env, PipelineOpList(self))
-- 
2.43.0


From 58641d8ec904e2acc6503aa7d01825594813dc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 019/106] fix: first() must stop after the first value, e.g.
 when the stream is unbounded

---
 marcel/op/apiop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index b3e3d8d..9cabff9 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -36,7 +36,7 @@ class APIOp(marcel.core.Op):
             x = x[0]
         self.output.append(x)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
         if self.stop_after_first:
-- 
2.43.0


From ca59934bf188499739cb2c870a377d303fc4f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 020/106] fix: first() must raise an exception if the first
 result is an error

---
 marcel/op/apiop.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index 9cabff9..fe179be 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -39,7 +39,6 @@ class APIOp(marcel.core.Op):
             raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
+        self.output.append(error)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
-        else:
-            self.output.append(error)
+            raise marcel.exception.StopAfterFirst()
-- 
2.43.0


From 8e3a3f7800352d605b2cf7e13e056581e8932361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 021/106] fix: read --csv must not stop at an empty line

---
 marcel/op/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index e8f7648..face790 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -362,7 +362,7 @@ class InputIterator:
         return self
 
     def __next__(self):
-        if self.current:
+        if self.current is not None:
             next = self.current
             self.current = None
             return next
-- 
2.43.0


From 4c0dc6347b5610f5ad82443f9566f3105b383d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 022/106] fix: read --label puts the File first in each output
 tuple, for pickle and json too

---
 marcel/op/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index face790..0d75789 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -260,7 +260,7 @@ class PickleReader(Reader):
             try:
                 while True:
                     x = input.read()
-                    self.op.send(env, (label, x) if label else x)
+                    self.op.send(env, label + (x if type(x) is tuple else (x,)) if label else x)
             except EOFError:
                 pass
 
@@ -278,7 +278,7 @@ class JSONReader(Reader):
             lines = input.readlines()
         assert lines is not None
         json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
-        self.op.send(env, json)
+        self.op.send(env, label + (json,) if label else json)
 
 
 class CSVReader(Reader):
-- 
2.43.0


From bf58fe930a7be4897ceec68b1e7e1bb1a9742c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 023/106] fix: a pipeline failing during setup must release
 what it acquired, e.g. Reservoirs

---
 marcel/pipeline.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 629bffe..3a8bf7e 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,11 +56,19 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            op.reset_pos()
-            op.setup(env)
+        n_setup = 0
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                op.reset_pos()
+                op.setup(env)
+                n_setup += 1
+        except BaseException:
+            # The pipeline will not be run. Release resources acquired by setup, e.g. store's Reservoir.
+            for op in self.ops[:n_setup]:
+                op.cleanup()
+            raise
         for op in self.ops:
             op.customize_pipelines(env)
 
-- 
2.43.0


From c8b1df41a0af9ed243d117113fc45b092d9d2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 024/106] fix: an error in the filter --compare function is an
 Error for that input, and does not crash marcel

---
 marcel/op/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 7a6f41d..2560a7b 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From dbc4d5cdf9197289d98eabfacddb7148b7160ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 025/106] fix: red --incremental works on lists

---
 marcel/op/red.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..2a8464d 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -207,7 +207,7 @@ class NonGroupingReducer(Reducer):
             assert x is not None
             accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(accumulator))
+            op.send(env, tuple(x) + tuple(accumulator))
 
     def flush(self, env):
         op = self.op
@@ -238,7 +238,7 @@ class GroupingReducer(Reducer):
             reducer = op.functions[i]
             accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + tuple(self.data(accumulator)))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From 5b5248fc783928736c9386ccb930890f301df01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 026/106] fix: red ignores, completely, an input that a
 reduction function fails on

---
 marcel/op/red.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 2a8464d..3cd6b89 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -201,11 +201,9 @@ class NonGroupingReducer(Reducer):
             op.fatal_error(env, x, 'Input too short.')
         accumulator = self.accumulator
         functions = op.functions
-        for i in range(self.n):
-            assert functions is not None
-            assert accumulator is not None
-            assert x is not None
-            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
+        # If any of the functions fails, then x must not contribute to any part of the result.
+        accumulator = [op.call(env, functions[i], accumulator[i], x[i]) for i in range(self.n)]
+        self.accumulator = accumulator
         if op.incremental:
             op.send(env, tuple(x) + tuple(accumulator))
 
@@ -233,10 +231,13 @@ class GroupingReducer(Reducer):
         accumulator = self.accumulators.get(group, None)
         if accumulator is None:
             accumulator = [None] * self.n
-            self.accumulators[group] = accumulator
+        # If any of the functions fails, then x must not contribute to any part of the result.
+        updated = []
         for i in range(self.n):
             reducer = op.functions[i]
-            accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
+            updated.append(x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i]))
+        accumulator = updated
+        self.accumulators[group] = accumulator
         if op.incremental:
             op.send(env, tuple(x) + tuple(self.data(accumulator)))
 
-- 
2.43.0


From 86e5c433f8337d048c3a0c268b0d165cd65d3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 027/106] fix: local variables of a function passed to args are
 not parameters

---
 marcel/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 3a8bf7e..331b719 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -453,7 +453,9 @@ class PipelineFunction(Pipeline):
         pass
 
     def parameters(self):
-        return self.function.__code__.co_varnames
+        # co_varnames has the parameters, followed by local variables
+        code = self.function.__code__
+        return code.co_varnames[:code.co_argcount]
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
-- 
2.43.0


From 2805cfb65defadb20ee183e9a210477c5afc6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 028/106] fix: expand reports a negative position instead of
 crashing

---
 marcel/op/expand.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/expand.py b/marcel/op/expand.py
index d8d1aaf..b57ee78 100644
--- a/marcel/op/expand.py
+++ b/marcel/op/expand.py
@@ -15,6 +15,7 @@
 
 import marcel.argsparser
 import marcel.core
+import marcel.exception
 import marcel.util
 
 
@@ -96,6 +97,8 @@ class Expand(marcel.core.Op):
 
     def setup(self, env):
         self.position = self.eval_function(env, 'position_arg', int)
+        if self.position is not None and self.position < 0:
+            raise marcel.exception.KillCommandException(f'Position must be non-negative: {self.position}')
         self.expander = SequenceExpander(self) if self.position is None else ComponentExpander(self)
 
     def receive(self, env, x):
-- 
2.43.0


From 1b1718a232b812bcb2c982f24dec5aa429b82f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 029/106] fix: window --overlap outputs one window per input,
 even if there are fewer inputs than the window size

---
 marcel/op/window.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index daabcd1..2d0bd32 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -228,12 +228,14 @@ class OverlapWindow(WindowBase):
             self.send_window(env)
 
     def flush(self, env):
-        if len(self.window) > 0:
-            if len(self.window) < self.op.n:
+        # Each item still in the window starts a window, (except for the first one, if its window has been sent already).
+        n_items = len(self.window)
+        if n_items > 0:
+            if n_items < self.op.n:
                 while len(self.window) < self.op.n:
                     self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-            for i in range(self.op.n - 1):
+            for i in range(n_items - 1):
                 self.window = self.window[1:]
                 self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-- 
2.43.0


From dc6a2894fc85938f329ef22694594eed106bb0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 030/106] fix: args must not modify its pipeline, which may be
 shared (e.g. pipeline variable used as an argument and also run)

---
 marcel/op/args.py  | 8 +++++---
 marcel/pipeline.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index e66c559..f6130ca 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -66,6 +66,7 @@ class Args(marcel.core.Op):
         super().__init__()
         self.all = None
         self.pipeline = None
+        self.customized = None
         self.n_params = None
         self.args = None
 
@@ -84,7 +85,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.customized.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
 
@@ -96,7 +97,7 @@ class Args(marcel.core.Op):
                 while len(self.args) < self.n_params:
                     self.args.append(None)
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.customized.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens, but only once.
@@ -119,7 +120,8 @@ class Args(marcel.core.Op):
             raise marcel.exception.KillCommandException(error)
 
     def customize_pipelines(self, env):
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        # self.pipeline is not modified because it may be shared, e.g. by copies of this op.
+        self.customized = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 331b719..828505a 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -488,10 +488,12 @@ class PipelineFunction(Pipeline):
             self.executable.append(op)
 
     def append_immutable(self, op):
-        self.customizations.ops.append(op)
+        copy = PipelineFunction(self.env, self.function)
+        copy.customizations.ops = self.customizations.ops + [op]
+        copy.customizations.receiver = self.customizations.receiver
         if self.executable:
-            self.executable = self.executable.append_immutable(op)
-        return self
+            copy.executable = self.executable.append_immutable(op)
+        return copy
 
     def route_output(self, receiver):
         self.customizations.receiver = receiver
-- 
2.43.0


From aaae30ef93b3257ac2a68891749dac3bb72c4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 031/106] fix: first() must stop after an error, e.g. when the
 stream is unbounded

---
 marcel/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 6e1505f..ee2eddc 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -145,11 +145,13 @@ class Op(AbstractOp):
         error = self.error(input=input, message=message)
         try:
             self.send_error(env, error)
+        except marcel.exception.StopAfterFirst:
+            # first() is done
+            raise
         except:
             # If the error occurred during setup, then send_error can't work
             pass
-        finally:
-            raise marcel.exception.KillAndResumeException(message)
+        raise marcel.exception.KillAndResumeException(message)
 
     def must_be_first_in_pipeline(self):
         return False
-- 
2.43.0


From 5400bbaf63f16548fdf6c302bb6395d3260bfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 032/106] fix: write --csv, --tsv, --format must not fail on
 Errors, which are not subject to formatting

---
 marcel/op/write.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..cd0d2b0 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -21,7 +21,6 @@ import sys
 import marcel.argsparser
 import marcel.core
 import marcel.exception
-import marcel.object.error
 import marcel.object.renderable
 import marcel.picklefile
 import marcel.util
@@ -157,7 +156,7 @@ class Write(marcel.core.Op):
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive(env, error)
+        self.writer.receive_error(env, error)
 
     def flush(self, env):
         self.writer.flush(env)
@@ -193,6 +192,10 @@ class Writer(object):
     def receive(self, env, x):
         assert False
 
+    # Errors are not subject to formatting
+    def receive_error(self, env, error):
+        assert False
+
     def flush(self, env):
         pass
 
@@ -209,6 +212,9 @@ class TextWriter(Writer):
         super().__init__(op)
         self._output = None
 
+    def receive_error(self, env, error):
+        self.write_line(error.render_full(None))
+
     def cleanup(self):
         if self.output() != sys.stdout:
             self.output().close()
@@ -276,12 +282,13 @@ class DefaultWriter(TextWriter):
                         out = out.render_full(self.color_scheme())
                 else:
                     out = str(x)
-            elif t is marcel.object.error.Error:
-                out = x.render_full(self.color_scheme())
             else:
                 assert False, type(x)
         self.write_line(out)
 
+    def receive_error(self, env, error):
+        self.write_line(error.render_full(self.color_scheme()))
+
     def color_scheme(self):
         return self._color_scheme if self.output() == sys.__stdout__ else None
 
@@ -296,5 +303,8 @@ class PickleWriter(Writer):
     def receive(self, env, x):
         self.writer.write(x)
 
+    def receive_error(self, env, error):
+        self.writer.write(error)
+
     def cleanup(self):
         self.writer.close()
-- 
2.43.0


From 6980a8a214298e9b8e0c3ad43f1887cf9d7d6bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 033/106] fix: pipeline arguments: reject unknown parameter
 names and flags without value

---
 marcel/argsparser.py     | 4 ++++
 marcel/op/runpipeline.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index a403ee2..039882c 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -515,6 +515,8 @@ class PipelineArgsParser:
             if flag_name:
                 if flags_done:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
+                if param_name is not None:
+                    raise ArgsError(self.var, f'No value specified for flag {param_name}.')
                 param_name = flag_name
             else:
                 if param_name is None:
@@ -525,6 +527,8 @@ class PipelineArgsParser:
                         raise ArgsError(self.var, f'Flag {param_name} given more than once.')
                     kwargs[param_name] = arg
                     param_name = None
+        if param_name is not None:
+            raise ArgsError(self.var, f'No value specified for flag {param_name}.')
         return args, kwargs
 
     @staticmethod
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 01d725a..ec70b4e 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -55,6 +55,10 @@ class RunPipeline(marcel.core.Op):
         if n_params < n_args + n_kwargs:
             raise marcel.exception.KillCommandException(
                 f'Too many arguments for pipeline {self.var} = {self.pipeline}')
+        unknown = set(self.kwargs.keys()).difference(self.pipeline.parameters())
+        if len(unknown) > 0:
+            raise marcel.exception.KillCommandException(
+                f'Pipeline {self.var} has no such parameters: {", ".join(sorted(unknown))}')
         # Why copy: A pipelines can be used twice in a command, e.g.
         #    f = (| a: ... |)
         #    f (1) | join (| f (2) |)
-- 
2.43.0


From ff66224398222a6fa62e88c27e29d1854877d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 034/106] fix: arguments of pipeline variables: remove quotes
 and escapes from strings, allow pipelines

---
 marcel/argsparser.py | 3 +++
 marcel/parser.py     | 4 +---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index 039882c..ad19158 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -512,6 +512,9 @@ class PipelineArgsParser:
         flags_done = None
         for arg in op_args:
             flag_name = PipelineArgsParser.flag_name(arg)
+            if isinstance(arg, str):
+                # Strings may have been quoted or escaped on the command line
+                arg = marcel.util.string_value(arg)
             if flag_name:
                 if flags_done:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
diff --git a/marcel/parser.py b/marcel/parser.py
index f9c0ce5..6eec2a5 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1302,9 +1302,7 @@ class Parser(object):
             if len(arg_tokens) > 0:
                 pipeline_args = []
                 for token in arg_tokens:
-                    pipeline_args.append(token
-                                         if type(token) is marcel.pipeline.PipelineExecutable else
-                                         token.value())
+                    pipeline_args.append(token.value() if isinstance(token, Token) else token)
                 args, kwargs = marcel.argsparser.PipelineArgsParser(var).parse_pipeline_args(pipeline_args)
                 op.set_pipeline_args(args, kwargs)
             return op
-- 
2.43.0


From e575697c16ce74cb6b29c74fcac13932dd39f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 035/106] fix: a pipeline can be bound to a pipeline parameter

---
 marcel/nestednamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 8e4f964..040b77e 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -123,7 +123,8 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, source)
+            # A pipeline parameter is bound without source
+            ev.assign(value, value.source if source is None else source)
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From ddc57483cf5b5bf65c8744b8d8893f522629b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 036/106] fix: lexer reports text ending in a comment adjacent
 to a token, an escape, or in the middle of pipeline parameters, instead of
 crashing

---
 marcel/parser.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 6eec2a5..63dca86 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -312,7 +312,9 @@ class PythonString(Token):
                     chars.append(c)
             elif c == Token.ESCAPE_CHAR:
                 c = self.next_char()
-                if c in Token.ESCAPABLE:
+                if c is None:
+                    raise LexerException(self, "Not a python string")
+                elif c in Token.ESCAPABLE:
                     chars.append(c)
                 else:
                     chars.append(Token.ESCAPE_CHAR)
@@ -456,19 +458,21 @@ class String(Token):
                     quote = None
             elif c == Token.ESCAPE_CHAR:
                 if quote is None:
-                    # TODO: ESCAPE at end of line
                     chars.append(c)
                     c = self.next_char()
                     if c is None:
-                        break
+                        raise LexerException(self, 'Nothing to escape')
                     chars.append(c)
                 elif quote == Token.SINGLE_QUOTE:
                     chars.append(c)
                 elif quote == Token.DOUBLE_QUOTE:
-                    # TODO: no next char
                     c = self.next_char()
                     # TODO: Other escaped chars inside double quotes
-                    if c == Token.ESCAPE_CHAR:
+                    if c is None:
+                        # Unterminated string, reported later
+                        chars.append(Token.ESCAPE_CHAR)
+                        break
+                    elif c == Token.ESCAPE_CHAR:
                         chars.append(c)
                     else:
                         chars.append(Token.ESCAPE_CHAR)
@@ -682,7 +686,8 @@ class Lexer(Source):
 
     def next_token(self):
         def consolidatable(token):
-            return token.is_string() or token.is_expr()
+            # There is no next token if a comment follows
+            return token is not None and (token.is_string() or token.is_expr())
 
         token = self.next_unconsolidated_token()
         if token is None:
@@ -1220,7 +1225,7 @@ class Parser(object):
 
     def vars(self):
         vars = []
-        while self.token.is_string():
+        while self.token is not None and self.token.is_string():
             vars.append(self.token.value())
             if self.next_token(Comma):
                 if not self.next_token(String):
@@ -1230,6 +1235,8 @@ class Parser(object):
                 self.next_token()  # Should be string or colon
         # Shouldn't have called vars() unless the token (on entry) was a string.
         assert len(vars) > 0
+        if self.token is None:
+            raise PrematureEndError()
         if not self.token.is_colon():
             raise SyntaxError(self.token, f'Expected comma or colon, found {self.token}')
         return vars
-- 
2.43.0


From f1a6d334460d100aea0437796ad4978c88a69847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 037/106] fix: a lone quote is an unterminated string

---
 marcel/stringliteral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index 0b470bb..5f758d9 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -56,7 +56,7 @@ class StringLiteral(str):
             if self[0] in StringLiteral.QUOTES:
                 # Remove quotes
                 self.quote = self[0]
-                self.unterminated_quote = self[-1] != self.quote
+                self.unterminated_quote = len(self) == 1 or self[-1] != self.quote
                 self.string = self[1:] if self.unterminated_quote else self[1:-1]
             else:
                 # Remove escapes if any
-- 
2.43.0


From 611194022cc533ff46e9d6e61e26ad08df5af069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 038/106] fix: tab completion must not fail on blank or
 malformed text, or on the flags of an executable

---
 marcel/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 63dca86..5460c04 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1025,7 +1025,8 @@ class Parser(object):
         return self.command()
 
     def terminal_token_value(self):
-        return self.token.value() if self.token.is_terminal() else ''
+        # There is no token if the text is blank, or couldn't be parsed at all.
+        return self.token.value() if self.token and self.token.is_terminal() else ''
 
     # Used by Compilable which contains function source and caches the compiled function.
     def parse_function(self):
@@ -1366,7 +1367,9 @@ class Parser(object):
         flags = []
         pipeline = self.current_pipeline()
         if pipeline and pipeline.op_token:
-            flag_args = self.op_modules[pipeline.op_token.value()].args_parser(self.env).flag_args
+            op_module = self.op_modules.get(pipeline.op_token.value(), None)
+            # The op could be an executable or a variable, whose flags are unknown.
+            flag_args = op_module.args_parser(self.env).flag_args if op_module else []
             for flag in flag_args:
                 if flag.short:
                     flags.append(flag.short)
-- 
2.43.0


From 337e57a1d8f1992b369065520e4477b854006e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 039/106] fix: assigning a function whose only parameter is
 *args assigns the function, not the result of calling it

---
 marcel/function_args_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 718e8a9..170e313 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -122,6 +122,7 @@ class FunctionArgsParser(object):
         return State.END
 
     def star_name(self):
+        self.has_args = True
         return State.ARG
 
     def arg_comma(self):
-- 
2.43.0


From ba62b87e076eb81148d73c98c1b599370ae439ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 040/106] fix: an escape ending a string, following a quote
 inside the string, must not crash the lexer

---
 marcel/stringliteral.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index 5f758d9..df38746 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -73,6 +73,7 @@ class StringLiteral(str):
                             i += 1
                             self.string += c
                         else:
-                            raise Exception(f'string literal terminated by lone escape: {self}')
+                            # Following an unterminated quote inside the literal, e.g. a'b\
+                            self.string += c
                     else:
                         self.string += c
-- 
2.43.0


From d040b04e70e2958b8d2de73765dbc130eb1e294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 041/106] fix: window: an error in the predicate is an Error
 for that item, and does not crash marcel

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 2d0bd32..8dd9082 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -137,7 +137,7 @@ class Window(marcel.core.Op):
         if self.disjoint:
             options.append(f'disjoint={self.disjoint}')
         if self.predicate:
-            options.append(f'predicate={self.predicate.source()}')
+            options.append(f'predicate={self.predicate.snippet()}')
         return f'window({", ".join(options)})'
 
     # AbstractOp
-- 
2.43.0


From c17b835dad9a2970e563aee25bb06018406c1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 042/106] fix: parameters of a pipeline are not visible to ops
 receiving its output; args pipelines can be recursive

---
 marcel/nestednamespace.py | 14 ++++++++++++++
 marcel/op/args.py         | 13 ++++++++++---
 marcel/op/redirect.py     |  9 ++++++++-
 marcel/op/runpipeline.py  | 28 ++++++++++++++++++----------
 4 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 040b77e..49ba131 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import contextlib
 import inspect
 
 import marcel.core
@@ -439,6 +440,19 @@ class NestedNamespace(dict):
             for var, value in scope.items():
                 super().__setitem__(var, value.unwrap())
 
+    # Context manager for leaving, temporarily, all but the outermost n scopes.
+    @contextlib.contextmanager
+    def outer_scopes(self, n):
+        suspended = []
+        while self.n_scopes() > n:
+            suspended.append(self.current_scope().params)
+            self.pop_scope()
+        try:
+            yield
+        finally:
+            while len(suspended) > 0:
+                self.push_scope(suspended.pop())
+
     def current_scope(self):
         return self.scopes[-1]
 
diff --git a/marcel/op/args.py b/marcel/op/args.py
index f6130ca..15119b9 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -67,6 +67,7 @@ class Args(marcel.core.Op):
         self.all = None
         self.pipeline = None
         self.customized = None
+        self.redirect = None
         self.n_params = None
         self.args = None
 
@@ -85,7 +86,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.customized.run_pipeline(env, self.bindings())
+                self.run_customized(env)
             finally:
                 self.args.clear()
 
@@ -97,7 +98,7 @@ class Args(marcel.core.Op):
                 while len(self.args) < self.n_params:
                     self.args.append(None)
             try:
-                self.customized.run_pipeline(env, self.bindings())
+                self.run_customized(env)
             finally:
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens, but only once.
@@ -121,12 +122,18 @@ class Args(marcel.core.Op):
 
     def customize_pipelines(self, env):
         # self.pipeline is not modified because it may be shared, e.g. by copies of this op.
-        self.customized = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        self.redirect = marcel.op.redirect.Redirect(self)
+        self.customized = self.pipeline.copy().append_immutable(self.redirect)
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
 
     # Internal
 
+    def run_customized(self, env):
+        if not env.api_usage():
+            self.redirect.n_scopes = env.vars().n_scopes()
+        self.customized.run_pipeline(env, self.bindings())
+
     def bindings(self):
         return dict(zip(self.pipeline.parameters(), self.args))
\ No newline at end of file
diff --git a/marcel/op/redirect.py b/marcel/op/redirect.py
index e6a1064..3d76c01 100644
--- a/marcel/op/redirect.py
+++ b/marcel/op/redirect.py
@@ -22,12 +22,19 @@ class Redirect(marcel.core.Op):
     def __init__(self, parent):
         super().__init__()
         self.parent = parent
+        # The number of scopes outside of the pipeline, if it has params. These params must not be visible to the ops
+        # receiving the pipeline's output.
+        self.n_scopes = None
 
     def __repr__(self):
         return 'redirect()'
 
     def receive(self, env, x):
-        self.parent.send(env, x)
+        if self.n_scopes is None:
+            self.parent.send(env, x)
+        else:
+            with env.vars().outer_scopes(self.n_scopes):
+                self.parent.send(env, x)
 
     def receive_error(self, env, error):
         self.parent.send_error(env, error)
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index ec70b4e..af74352 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -30,6 +30,7 @@ class RunPipeline(marcel.core.Op):
         self.kwargs_arg = None
         self.kwargs = None
         self.pipeline = None
+        self.redirect = None
         self.flushed = None
 
     def __repr__(self):
@@ -67,7 +68,8 @@ class RunPipeline(marcel.core.Op):
         # breaks the structure of the pipelines, e.g. Op.receiver.
         # Redirect sends the pipeline's output to this op's receiver, but doesn't propagate flush. flush() takes care
         # of that, so that it is done exactly once.
-        self.pipeline = self.pipeline.copy().append_immutable(marcel.op.redirect.Redirect(self))
+        self.redirect = marcel.op.redirect.Redirect(self)
+        self.pipeline = self.pipeline.copy().append_immutable(self.redirect)
         self.flushed = False
         env.vars().push_scope(self.bindings())
         try:
@@ -78,8 +80,7 @@ class RunPipeline(marcel.core.Op):
     # Op
 
     def run(self, env):
-        bindings = self.bindings()
-        env.vars().push_scope(bindings)
+        bindings = self.push_scope(env)
         try:
             self.pipeline.run_pipeline(env, bindings)
             self.flushed = True  # By run_pipeline
@@ -87,20 +88,20 @@ class RunPipeline(marcel.core.Op):
             env.vars().pop_scope()
 
     def receive(self, env, x):
-        env.vars().push_scope(self.bindings())
+        self.push_scope(env)
         try:
             self.pipeline.receive(env, x)
         finally:
             env.vars().pop_scope()
 
     def flush(self, env):
-        env.vars().push_scope(self.bindings())
-        try:
-            if not self.flushed:
+        if not self.flushed:
+            self.push_scope(env)
+            try:
                 self.pipeline.flush(env)
-            self.propagate_flush(env)
-        finally:
-            env.vars().pop_scope()
+            finally:
+                env.vars().pop_scope()
+        self.propagate_flush(env)
 
     def cleanup(self):
         if self.pipeline:
@@ -114,6 +115,13 @@ class RunPipeline(marcel.core.Op):
         self.args_arg = args
         self.kwargs_arg = kwargs
 
+    def push_scope(self, env):
+        bindings = self.bindings()
+        if len(bindings) > 0:
+            self.redirect.n_scopes = env.vars().n_scopes()
+        env.vars().push_scope(bindings)
+        return bindings
+
     def bindings(self):
         params = self.pipeline.parameters()
         bindings = {}
-- 
2.43.0


From 41fee0d81aab68987352609a333a288f45d69fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 043/106] fix: a workspace released or deleted by another
 process, while looking for its owner, must not crash marcel

---
 marcel/object/workspace.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index f3eb375..df4b99f 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -38,11 +38,9 @@ class Marker(object):
         self.workspace = workspace
 
     def exists(self):
-        config_dir = self.workspace.locations.config_ws(self.workspace)
-        if config_dir.exists():
-            for file in config_dir.iterdir():
-                if file.name.startswith(Marker.FILENAME_ROOT):
-                    return True
+        for file in self.workspace.config_files():
+            if file.name.startswith(Marker.FILENAME_ROOT):
+                return True
         return False
 
     def unowned(self):
@@ -464,14 +462,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             return None
         # Now find the marker. Something is very wrong if there is anything other than one.
         marker_filename = None
-        for file in self.locations.config_ws(self).iterdir():
+        for file in self.config_files():
             if file.name.startswith(Marker.FILENAME_ROOT):
                 if marker_filename is None:
                     marker_filename = file.name
                 else:
                     assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
-        assert marker_filename is not None
-        return Workspace.marker_filename_pid(marker_filename)
+        # The workspace may have been unlocked or deleted, by another process, since checking for the unowned marker.
+        return (None if marker_filename in (None, Marker.FILENAME_ROOT) else
+                Workspace.marker_filename_pid(marker_filename))
+
+    # Files in the config directory, none if the directory was deleted by another process.
+    def config_files(self):
+        try:
+            return list(self.locations.config_ws(self).iterdir())
+        except FileNotFoundError:
+            return []
 
     def validate(self):
         return WorkspaceValidater(self).validate()
@@ -491,7 +497,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     # If a marker is owned by a process that doesn't exist, then the workspace is unowned. The marker is renamed, (as
     # opposed to deleting it and then creating another), so that there is exactly one marker at all times.
     def release_abandoned_markers(self):
-        for file in self.locations.config_ws(self).iterdir():
+        for file in self.config_files():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
                 pid = Workspace.marker_filename_pid(file.name)
                 if not marcel.util.process_exists(pid):
-- 
2.43.0


From e6309063fff79fcb7be48cec5506465523f333ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 044/106] fix: another process may lock a workspace as soon as
 it has been unlocked

---
 marcel/object/workspace.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index df4b99f..1d66b31 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -415,9 +415,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             pass
         elif owner == self.locations.pid:  # locations.pid is the pid of the topmost process
             # Unlock
-            unowned_marker_path = self.marker.unowned()
-            self.marker.owned().rename(unowned_marker_path)
-            assert unowned_marker_path.exists(), self
+            self.marker.owned().rename(self.marker.unowned())
         else:
             # Owned by someone else?!
             assert False, self
-- 
2.43.0


From df53004a99559fa00efe30f1b03fdeafbcf6d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 045/106] fix: two processes creating the same workspace must
 not both own it

---
 marcel/object/workspace.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 1d66b31..4b8d7c7 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -234,7 +234,13 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         return self.marker.exists()
 
     def create(self):
-        assert not self.exists()
+        # Creation of the config directory decides which one of several processes creates the workspace.
+        try:
+            self.locations.config_ws(self).mkdir(parents=True)
+        except FileExistsError:
+            raise marcel.exception.KillCommandException(f'Workspace {self.name} already exists.')
+        except FileNotFoundError:
+            self.illegal_name()
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
         self.create_on_disk(initial_config_contents)
 
@@ -375,8 +381,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         except FileExistsError:
             pass
         except FileNotFoundError:
-            raise marcel.exception.KillCommandException(
-                f'Workspace name must be usable as a legal filename: {self.name}')
+            self.illegal_name()
+
+    def illegal_name(self):
+        raise marcel.exception.KillCommandException(
+            f'Workspace name must be usable as a legal filename: {self.name}')
 
     def lock_workspace(self):
         assert not self.is_default()
-- 
2.43.0


From e83ea6cf4037b8abe780bdbd89adf627d49ca21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 046/106] fix: a workspace must be usable after marcel dies, or
 pickling fails, while saving it

---
 marcel/object/workspace.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4b8d7c7..6435835 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -300,8 +300,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 locations.config_ws(self).rmdir()
                 # data directory
                 locations.data_ws_hist(self).unlink(missing_ok=True)
-                locations.data_ws_prop(self).unlink(missing_ok=True)
-                locations.data_ws_env(self).unlink(missing_ok=True)
+                for file in locations.data_ws(self).glob('*.pickle'):
+                    file.unlink()
                 reservoir_dir = locations.data_ws_res(self)
                 for reservoir_file in reservoir_dir.iterdir():
                     reservoir_file.unlink()
@@ -440,9 +440,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def write_properties(self):
         assert not self.is_default()
         self.properties.update_save_time()
-        with open(self.locations.data_ws_prop(self), 'wb') as properties_file:
-            pickler = dill.Pickler(properties_file)
-            pickler.dump(self.properties.to_persistent_state())
+        self.write_file(self.locations.data_ws_prop(self), self.properties.to_persistent_state())
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
@@ -451,9 +449,16 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
+        self.write_file(self.locations.data_ws_env(self), persistent_state)
+
+    # Replace the file only once it is complete, in case this process dies, or pickling fails.
+    @staticmethod
+    def write_file(path, persistent_state):
+        new_path = path.with_suffix('.new.pickle')
+        with open(new_path, 'wb') as file:
+            pickler = dill.Pickler(file)
             pickler.dump(persistent_state)
+        new_path.replace(path)
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
@@ -634,6 +639,7 @@ class WorkspaceValidater(object):
             for file in locations.data_ws(workspace).iterdir():
                 if not (file.name == 'properties.pickle' or
                         file.name.endswith('env.pickle') or
+                        file.name.endswith('.new.pickle') or
                         file.name == 'history' or
                         file.name == 'reservoirs'):
                     self.extraneous(locations.data_ws(workspace))
@@ -682,6 +688,7 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         workspace = self.workspace
         pids = set(psutil.pids())
         delete_abandoned(locations.data_ws(workspace), '.env.pickle')
+        delete_abandoned(locations.data_ws(workspace), '.env.new.pickle')
         delete_abandoned(locations.data_ws_res(workspace), '.pickle')
         return super().validate()
 
-- 
2.43.0


From 3b132efeffd7c9da6fd547498b303fc20fa12cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 047/106] fix: a variable bound to a builtin method (e.g.
 random.random) must not make the workspace unusable

---
 marcel/nestednamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 49ba131..2404003 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -113,7 +113,8 @@ class EnvValue(object):
     def wrap(env, value, source=None):
         def is_pipeline(value):
             return isinstance(value, marcel.pipeline.Pipeline)
-        if inspect.isbuiltin(value):
+        if inspect.isbuiltin(value) and value.__module__ is not None:
+            # A builtin without module is bound to an object, e.g. random.random
             ev = Function(env)
             ev.assign(value)
         elif inspect.ismodule(value):
-- 
2.43.0


From 5a9e25e019505437d989ed83df5eec12aa803d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 048/106] fix: a variable assigned the pipeline of another
 variable must be saved with the pipeline's source

---
 marcel/nestednamespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 2404003..a23612c 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -125,8 +125,8 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            # A pipeline parameter is bound without source
-            ev.assign(value, value.source if source is None else source)
+            # The source of an assignment may be an expression, e.g. x = (y), depending on other variables.
+            ev.assign(value, source if value.source is None else value.source)
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From 131fb4536e10a0aa172567d713d9452c6d6f2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 049/106] fix: a variable that cannot be restored must not make
 the workspace unusable

---
 marcel/nestednamespace.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index a23612c..9593fb8 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -469,9 +469,16 @@ class NestedNamespace(dict):
         scope = self.scopes[0]
         for var, persisted_value in persisted.items():
             classname, persisted_state = persisted_value
-            value = EnvValue.restore(env, classname, persisted_state)
+            try:
+                value = EnvValue.restore(env, classname, persisted_state)
+                unwrapped = value.unwrap()
+            except Exception as e:
+                # E.g. the variable's expression refers to a variable that has been deleted, or to a module that is
+                # not available.
+                marcel.util.print_to_stderr(env, f'Unable to restore variable {var}: {e}')
+                continue
             scope.__setitem__(var, value)
-            super().__setitem__(var, value.unwrap())
+            super().__setitem__(var, unwrapped)
 
     # TODO: With set_env, is reconstitute needed? That's just an eager form of reconstitution.
     # TODO: Having the env available in all the EnvValues is a lazy form.
-- 
2.43.0


From acfb82662200042f2bde4f5d61999872100a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 050/106] fix: a value that cannot be saved must not keep a
 workspace from being closed, and other variables from being saved

---
 marcel/object/workspace.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 6435835..9443581 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -449,7 +449,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        self.write_file(self.locations.data_ws_env(self), persistent_state)
+        try:
+            self.write_file(self.locations.data_ws_env(self), persistent_state)
+        except Exception:
+            # There may be values that cannot be pickled, e.g. open files. Save everything else.
+            self.write_file(self.locations.data_ws_env(self), self.picklable(persistent_state))
+
+    @staticmethod
+    def picklable(persistent_state):
+        picklable = {}
+        for var, value in persistent_state.items():
+            try:
+                dill.dumps(value)
+                picklable[var] = value
+            except Exception as e:
+                marcel.util.print_to_stderr(None, f'Unable to save variable {var}: {e}')
+        return picklable
 
     # Replace the file only once it is complete, in case this process dies, or pickling fails.
     @staticmethod
-- 
2.43.0


From 4a8d245aa525386839193dd37dba9561de0a9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 051/106] fix: env VAR must output a variable whose value is
 None

---
 marcel/op/env.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index ef9ac87..75813b8 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -168,11 +168,11 @@ class EnvMarcel(EnvImpl):
 
     def one_var(self, env):
         var = self.op.var
-        value = env.getvar(var)
-        if value is None:
-            self.no_such_var(env, var)
+        if env.hasvar(var):
+            # The value may be None
+            self.op.send(env, (var, env.getvar(var)))
         else:
-            self.op.send(env, (var, value))
+            self.no_such_var(env, var)
 
     def delete_var(self, env):
         try:
-- 
2.43.0


From 80d4fd435b4310195cbd8c4405154036c664f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 052/106] fix: fork outputs an Error from a forked pipeline as
 an Error, and not as an ordinary item

---
 marcel/op/forkmanager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index d10fd7a..0873ea2 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -69,7 +69,7 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
-        writer.send(dill.dumps(e))
+        writer.send(dill.dumps(marcel.object.error.Error(e)))
         writer.close()
     finally:
         dump(f'closed writer {id(writer)}')
@@ -174,7 +174,10 @@ class ForkWorker(object):
                 input = self.reader.recv()
                 x = dill.loads(input)
                 dump(f'{self} consume_input receive {x}')
-                self.op.send(self.env, x)
+                if isinstance(x, marcel.object.error.Error):
+                    self.op.send_error(self.env, x)
+                else:
+                    self.op.send(self.env, x)
         except EOFError:
             dump(f'{self} consume_input EOF')
             self.writer.close()
-- 
2.43.0


From f0ba31bb49401cdbef620389b53a8b46f51c9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 053/106] fix: arguments evaluated during setup, e.g. gen (3),
 must work in a forked pipeline

---
 marcel/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index ee2eddc..c21d478 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -173,6 +173,8 @@ class Op(AbstractOp):
         def call(x):
             try:
                 if isinstance(x, marcel.function.Function):
+                    # Needed in a child process: compiled functions are not pickled.
+                    x.ensure_compiled(env.vars())
                     x = self.call(env, x)
                 else:
                     x = x()
-- 
2.43.0


From 7a47db157cc810337df390dd58f9e18605404a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 054/106] fix: fg and bg accept -j and -p (the job number is
 not required then)

---
 marcel/op/jobop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 8eabc4d..52df1af 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -25,7 +25,7 @@ class JobOpArgsParser(marcel.argsparser.ArgsParser):
         super().__init__(op_name, env)
         self.add_flag_one_value('jid', '-j', '--job', convert=self.str_to_int)
         self.add_flag_one_value('pid', '-p', '--process', convert=self.str_to_int)
-        self.add_anon('job_id', convert=self.str_to_int)
+        self.add_anon('job_id', convert=self.str_to_int, default=None)
         self.exactly_one('jid', 'pid', 'job_id')
         self.validate()
 
-- 
2.43.0


From f5ab4fd93317cb1add515ce2830010eb417f5633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 055/106] fix: fg and bg report an unknown process id or a
 negative job number

---
 marcel/op/jobop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 52df1af..f6bd468 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -45,9 +45,13 @@ class JobOp(marcel.core.Op):
         job_control = marcel.job.JobControl.only
         if self.job_id is not None:
             self.jid = self.job_id
-        if self.jid is not None and self.jid >= len(job_control.jobs()):
+        # jobs() drops completed jobs, so that jids are the same as those shown by the jobs op.
+        n_jobs = len(job_control.jobs())
+        if self.jid is not None and not 0 <= self.jid < n_jobs:
             raise marcel.exception.KillCommandException(f'There is no job {self.jid}')
         self.job = job_control.job(jid=self.jid, pid=self.pid)
+        if self.job is None:
+            raise marcel.exception.KillCommandException(f'There is no job with process id {self.pid}')
 
     def run(self, env):
         self.action()
-- 
2.43.0


From 6c3954401424004a751d141b0865b204a9cc922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 056/106] fix: fg and bg evaluate arguments given as
 expressions

---
 marcel/op/jobop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index f6bd468..b3f428f 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -43,6 +43,9 @@ class JobOp(marcel.core.Op):
 
     def setup(self, env):
         job_control = marcel.job.JobControl.only
+        self.jid = self.eval_function(env, 'jid', int)
+        self.pid = self.eval_function(env, 'pid', int)
+        self.job_id = self.eval_function(env, 'job_id', int)
         if self.job_id is not None:
             self.jid = self.job_id
         # jobs() drops completed jobs, so that jids are the same as those shown by the jobs op.
-- 
2.43.0


From c47b34814dd883865b2c5e671dba030116b409b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 057/106] fix: read --headings must not apply the headings of
 another file if those of a file are invalid

---
 marcel/op/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index 0d75789..7854c89 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -295,6 +295,9 @@ class CSVReader(Reader):
         self.n_columns = None
 
     def read_file(self, env, file, label):
+        # The headings of another file do not apply to this one.
+        self.named_tuple = None
+        self.n_columns = None
         with marcel.util.open_file(file.path,
                                    'r',
                                    marcel.exception.KillAndResumeException) as input:
-- 
2.43.0


From 46c61e3bfbfdfcddf9d1196cc7ad17d7534bd7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 058/106] fix: tab completion must not fail after an expression

---
 marcel/tabcompleter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index 8ba8390..e3b84e6 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -72,7 +72,10 @@ class TabCompleter(Completer):
         debug(f'get_completions: doc=<{document}> '
               '-----------------------------------------------------------------------------')
         last_token_context = self.parser.op_arg_context
-        if last_token_context.is_op():
+        if not isinstance(token, str):
+            # The line ends with a complete expression, e.g. (1 + 2), possibly invalid. There is nothing to be completed.
+            completer = self.noop
+        elif last_token_context.is_op():
             completer = self.complete_op
         elif last_token_context.is_flag():
             completer = self.complete_flag
@@ -109,7 +112,10 @@ class TabCompleter(Completer):
         else:
             debug('No exception during parse')
         if token is None:
-            token = self.parser.terminal_token_value()
+            try:
+                token = self.parser.terminal_token_value()
+            except marcel.exception.KillCommandException as e:
+                debug(f'Invalid expression: {e}')
         return token
 
     def complete_op(self, token):
-- 
2.43.0


From 361d0699751492415b7820920bc8a4e31d799d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 059/106] fix: tab completion must escape # and , in filenames

---
 marcel/tabcompleter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index e3b84e6..e0a74db 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -30,7 +30,7 @@ import marcel.util
 DEBUG = False
 
 # See discussion in notes/tab_completion.txt, 3/15/25.
-NEEDS_ESCAPE = string.whitespace + '''$!"&'()*:;<>?@[\\`{|'''
+NEEDS_ESCAPE = string.whitespace + '''$!"&'()*:;<>?@[\\`{|#,'''
 ESCAPE = '\\'
 
 
-- 
2.43.0


From a8216770889f56c026e3aef525e69f5f03e3f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 060/106] fix: tab completion: backslash is not an escape
 inside single quotes, and the directory of a filename is unescaped only once

---
 marcel/tabcompleter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index e0a74db..711e595 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -315,6 +315,11 @@ class FilenameHandler(ArgHandler):
             self.basedir = None
             prefix = unquoted_token
         super().__init__(prefix=prefix)
+        if self.quote == Quote.SINGLE:
+            # There are no escapes inside single quotes.
+            self.unescaped_prefix = prefix
+        elif self.basedir is not None:
+            self.basedir = marcel.util.unescape(self.basedir)
         self.last_char_replacement_text = None  # The last character of the token may need to be escaped.
         self.cursor_adjustment = 0
         self.compute_token_escaping(unquoted_token)
@@ -322,9 +327,8 @@ class FilenameHandler(ArgHandler):
 
     def complete_arg(self):
         try:
-            basedir = marcel.util.unescape(self.basedir)
-            dir_contents = (os.listdir(self.expanduser(FilenameHandler.pathlib_path(basedir)))
-                            if basedir else
+            dir_contents = (os.listdir(self.expanduser(FilenameHandler.pathlib_path(self.basedir)))
+                            if self.basedir else
                             os.listdir())
             return sorted(self.elements_matching_prefix(dir_contents))
         except FileNotFoundError:
-- 
2.43.0


From ddc9669502f21f2192cd9bb33fdef43d0924130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 061/106] fix: pushd of a file must be rejected, not crash

---
 marcel/op/pushd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 8604d23..e1e5ee2 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -73,6 +73,8 @@ class Pushd(marcel.core.Op):
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
                 raise marcel.exception.KillCommandException('Too many paths')
+            elif not dirs[0].is_dir():
+                raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
             self.directory = dirs[0]
 
     def run(self, env):
-- 
2.43.0


From 23b403e6cd0084e02bfd1cc0e3784ca623f024ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 062/106] fix: dirs -c must leave a string in DIRS, like
 everything else that sets it

---
 marcel/directorystate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 2c319d9..a408bb2 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -80,7 +80,7 @@ class DirectoryState:
     def reset_dir_stack(self):
         dir_stack = self._dir_stack()
         dir_stack.clear()
-        dir_stack.append(self.current_dir())
+        dir_stack.append(self.current_dir().as_posix())
 
     def dirs(self):
         self._clean_dir_stack()
-- 
2.43.0


From bc410def747102a72a52f4b18f27ed8fbdce816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 063/106] fix: cd and pushd must accept a File

---
 marcel/op/cd.py    | 6 +++---
 marcel/op/pushd.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index 9e0f6ed..02fdf04 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -56,9 +56,9 @@ class Cd(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        dir_arg = pathlib.Path(self.eval_function(env,
-                                                  'directory_arg',
-                                                  str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File))
+        dir_arg = self.eval_function(env,
+                                     'directory_arg',
+                                     str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File)
         try:
             dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
         except Exception as e:
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index e1e5ee2..e23b6aa 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -68,7 +68,7 @@ class Pushd(marcel.core.Op):
         if dir_arg is None:
             self.directory = None
         else:
-            dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+            dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
             if len(dirs) == 0:
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
-- 
2.43.0


From 142a8ff0c1a83ecc7bcbf5c00c7160a919f7f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 064/106] fix: filenames: the current directory is not a glob
 pattern, .. and broken symlinks are resolved, invalid patterns rejected

---
 marcel/op/filenames.py | 62 ++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 7fb2988..c1d70a9 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import glob
 import os
 import pathlib
 
@@ -43,44 +44,35 @@ class Filenames(object):
 
     def normalize(self):
         # Expand globs and eliminate duplicates
-        paths = self._normalize_paths()
         roots = []
         roots_set = set()
-        for path in paths:
-            # Proceed as if path is a glob pattern, but this works for non-globs too.
-            path_str = path.as_posix()
-            if path_str == '/':
-                roots.append(Filenames.ROOT)
-            else:
-                glob_base, glob_pattern = ((Filenames.ROOT, path_str[1:])
-                                           if path.is_absolute() else
-                                           (self.current_dir, path_str))
-                for root in (glob_base.glob(glob_pattern)
-                             if len(glob_pattern) > 0 else
-                             glob_base.iterdir()):
-                    if root not in roots_set:
-                        roots_set.add(root)
-                        roots.append(root)
+        for filename in self.filenames:
+            for root in self._expand(filename):
+                if root not in roots_set:
+                    roots_set.add(root)
+                    roots.append(root)
         return roots
 
-    def _normalize_paths(self):
+    def _expand(self, filename):
+        if type(filename) is File:
+            # Identifies one file, nothing to expand.
+            return self._existing(filename.path.as_posix())
         # Unescape escaped chars
-        # Resolve ~
+        filename = marcel.util.unescape(str(filename))
         # Resolve . and ..
-        # Convert to Path
-        paths = []
-        for filename in self.filenames:
-            if type(filename) is File:
-                filename = filename.path
-            filename = str(filename)
-            # Unescape escaped chars
-            filename = marcel.util.unescape(filename)
-            # Resolve . and ..
-            filename = os.path.normpath(filename)
-            # Convert to Path and resolve ~
-            path = pathlib.Path(filename).expanduser()
-            # If path is relative, specify what it is relative to.
-            if not path.is_absolute():
-                path = self.current_dir / path
-            paths.append(path)
-        return paths
+        filename = os.path.normpath(filename)
+        # Resolve ~
+        filename = pathlib.Path(filename).expanduser().as_posix()
+        if not glob.has_magic(filename):
+            return self._existing(filename)
+        # If path is relative, specify what it is relative to. The current directory is not part of the pattern.
+        pattern = os.path.normpath(os.path.join(glob.escape(self.current_dir.as_posix()), filename))
+        try:
+            return list(Filenames.ROOT.glob(pattern.lstrip('/')))
+        except ValueError as e:
+            raise marcel.exception.KillCommandException(f'{filename}: {e}')
+
+    def _existing(self, filename):
+        path = pathlib.Path(os.path.normpath(os.path.join(self.current_dir.as_posix(), filename)))
+        # lexists: The path may be a broken symlink.
+        return [path] if os.path.lexists(path) else []
-- 
2.43.0


From b6ab2c4d17b7eab872c2ad0b46f5b53fc68445cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 065/106] fix: a socket or a device is not a directory; width
 of group names

---
 marcel/object/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 44a67b9..5b7a030 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -60,7 +60,7 @@ class FileFormatting(object):
         return f'{username:>{width}}'
 
     def format_groupname(self, groupname):
-        width = self.username_width
+        width = self.groupname_width
         return f'{groupname:>{width}}'
 
     def format_size(self, size):
@@ -237,8 +237,8 @@ class File(marcel.object.renderable.Renderable):
     @staticmethod
     def _mode_string(mode):
         buffer = [
-            'l' if (mode & LINK_MASK) == LINK_MASK else
-            'd' if (mode & DIR_MASK) == DIR_MASK else
+            'l' if stat.S_ISLNK(mode) else
+            'd' if stat.S_ISDIR(mode) else
             '-',
             File._rwx((mode & 0o700) >> 6),
             File._rwx((mode & 0o70) >> 3),
-- 
2.43.0


From 67f5e0fce388eef29c883465b20549cdf0156931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:52 +0000
Subject: [PATCH 066/106] fix: bash: all output is delivered, by the thread
 running the pipeline; missing input, closed stdin and undecodable output are
 handled

---
 marcel/op/bash.py | 140 ++++++++++++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 49 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..5917ee0 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -13,7 +13,10 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import codecs
+import io
 import os
+import queue
 import selectors
 import subprocess
 import threading
@@ -154,23 +157,40 @@ class NonInteractive(Escape):
         super().__init__(op)
         self.process = None
         self.output_handler = None
-        self.lock = threading.Lock()
+        self.output_done = False
 
     def receive(self, env, x):
         self.ensure_command_running(env)
         if x is not None:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            try:
+                if not self.process.stdin.closed:
+                    self.process.stdin.write(f'{x}\n')
+                    self.process.stdin.flush()
+            except BrokenPipeError:
+                # The command does not read any more of its input, or has terminated.
+                self.close_stdin()
+            except UnicodeEncodeError as e:
+                self.op.non_fatal_error(env, input=x, message=str(e))
+        self.send_output(env, False)
 
     def flush(self, env):
-        self.process.stdin.close()
-        self.output_handler.join()
+        # There may not have been any input
+        self.ensure_command_running(env)
+        self.close_stdin()
+        self.send_output(env, True)
 
     def cleanup(self):
-        self.shutdown()
+        if self.process:
+            self.close_stdin()
+            # If there is more output, nobody is interested in it. Closing the streams then terminates a command that
+            # would write more.
+            self.output_handler.stop()
+            self.process.stdout.close()
+            self.process.stderr.close()
+            self.process.wait()
+            self.process = None
 
     # Implementation
 
@@ -184,22 +204,32 @@ class NonInteractive(Escape):
                                             stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE,
                                             universal_newlines=True,
+                                            errors='surrogateescape',
                                             preexec_fn=os.setsid)
-            self.output_handler = ProcessOutputHandler(env, self)
+            self.output_done = False
+            self.output_handler = ProcessOutputHandler(self.process)
             self.output_handler.start()
 
-    def shutdown(self):
-        while self.output_handler.is_alive():
-            self.output_handler.join(0.1)
-        self.lock.acquire()
+    def close_stdin(self):
         try:
-            if self.process:
-                self.process.wait()
-                self.process.stdout.close()
-                self.process.stderr.close()
-                self.process = None
-        finally:
-            self.lock.release()
+            self.process.stdin.close()
+        except BrokenPipeError:
+            pass
+
+    # Output is sent by the thread running the pipeline, not by the thread reading the output. Otherwise, the operators
+    # following bash would run concurrently with those preceding it, and would not be able to kill the command.
+    def send_output(self, env, wait):
+        output = self.output_handler.output
+        while not self.output_done and (wait or not output.empty()):
+            x = output.get()
+            if x is None:
+                self.output_done = True
+                break
+            stream, line = x
+            if stream is self.process.stdout:
+                self.op.send(env, line)
+            else:
+                self.op.send_error(env, marcel.object.error.Error(line))
 
 
 class Interactive(Escape):
@@ -233,43 +263,55 @@ class BashShell(Escape):
             marcel.util.print_to_stderr(env, self.process.stderr)
 
 
+# Queues each line of the process' output, as (stream, line). None follows the last one.
 class ProcessOutputHandler(threading.Thread):
 
-    def __init__(self, env, owner):
+    def __init__(self, process):
         super().__init__()
-        self.env = env
-        self.owner = owner
+        self.process = process
+        self.output = queue.Queue()
+        self.stopped = False
+
+    def stop(self):
+        self.stopped = True
+        self.join()
 
     def run(self):
-        process = self.owner.process
-        op = self.owner.op
-        lock = self.owner.lock
+        process = self.process
+        streams = (process.stdout, process.stderr)
+        partial = {stream: '' for stream in streams}  # stream -> start of a line
+        decoders = {stream: io.IncrementalNewlineDecoder(
+            codecs.getincrementaldecoder(stream.encoding)(stream.errors), translate=True) for stream in streams}
+
+        def put(stream, data, final):
+            lines = (partial[stream] + decoders[stream].decode(data, final)).split('\n')
+            partial[stream] = lines.pop()
+            if final and partial[stream]:
+                lines.append(partial[stream])
+            for line in lines:
+                self.output.put((stream, line))
+
         sel = selectors.DefaultSelector()
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
-        while True:
-            events = sel.select(timeout=0.1)
-            lock.acquire()
-            try:
-                if not events and process.poll() is not None:
+        for stream in streams:
+            sel.register(stream, selectors.EVENT_READ)
+        try:
+            # The streams stay open as long as any process started by the command has them open. Stop once the command
+            # has terminated, and everything written until then has been read.
+            while len(sel.get_map()) > 0 and not self.stopped:
+                terminated = process.poll() is not None
+                events = sel.select(timeout=0.1)
+                if not events and terminated:
                     break
                 for key, _ in events:
                     stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
-                        sel.unregister(key.fileobj)
+                    # Don't use stream.readline(), which may read, and keep, several lines.
+                    data = os.read(stream.fileno(), 65536)
+                    if data:
+                        put(stream, data, False)
                     else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
-            finally:
-                lock.release()
-        process.wait()
-
-    @staticmethod
-    def normalize_output(x):
-        if x[-1] == '\n':
-            x = x[:-1]
-        return x
+                        sel.unregister(stream)
+            for stream in streams:
+                put(stream, b'', True)
+        finally:
+            sel.close()
+            self.output.put(None)
-- 
2.43.0


From 8e57168edd5c85792d10d1608e3b15ea849ce100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 067/106] fix: write: undecodable file names can be written,
 and failures of the last operator are reported

---
 marcel/op/write.py | 12 ++++++++----
 marcel/util.py     |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index cd0d2b0..06a6d6e 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -146,17 +146,21 @@ class Write(marcel.core.Op):
     def receive(self, env, x):
         try:
             self.writer.receive(env, x)
-        except marcel.exception.KillAndResumeException as e:
-            self.non_fatal_error(env, input=x, message=str(e))
         except Exception as e:  # E.g. UnicodeEncodeError
-            self.non_fatal_error(env, input=x, message=str(e))
+            if self.receiver:
+                self.non_fatal_error(env, input=x, message=str(e))
+            else:
+                marcel.util.print_to_stderr(env, str(self.error(input=x, message=str(e))))
         finally:
             self.send(env, x)
 
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive_error(env, error)
+        try:
+            self.writer.receive_error(env, error)
+        except UnicodeEncodeError:
+            marcel.util.print_to_stderr(env, str(error))
 
     def flush(self, env):
         self.writer.flush(env)
diff --git a/marcel/util.py b/marcel/util.py
index 8de08e8..5a27423 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -190,7 +190,8 @@ def iterable(x):
 
 def open_file(path, mode, exception_class):
     try:
-        return open(path, mode)
+        # File names may contain undecodable bytes, (cf. os.fsdecode).
+        return open(path, mode) if 'b' in mode else open(path, mode, errors='surrogateescape')
     # FileNotFoundError should not occur. Missing files handled by FilenamesOp.
     except (IsADirectoryError, FileExistsError, PermissionError) as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
-- 
2.43.0


From d4798adcb0f5b35246c7de139aa8307f3aea52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 068/106] fix: strings next to expressions: quotes are removed,
 and braces and escapes have no special meaning

---
 marcel/parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 5460c04..dff6fc7 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -708,18 +708,19 @@ class Lexer(Source):
         return consolidated
 
     def consolidate(self, tokens):
-        # Generate a new Expression token that combines the strings and expressions into
-        # a Python f'...' string.
-        buffer = ["(f'''"]
+        # Generate a new Expression token that combines the strings and expressions into one string.
+        parts = []
         for token in tokens:
             if token.is_string():
-                buffer.append(token.value())
+                string = token.value()
+                # Quotes and escapes are left to the shell.
+                parts.append(repr(str(string) if self.parser.shell_op else string.value()))
             elif token.is_expr():
-                buffer.extend(['{', token.source(), '}'])
+                parts.append(f'({token.source()})')
             else:
                 assert False, token
-        buffer.append("''')")
-        token = Expression(self.parser, ''.join(buffer), 0)
+        template = '%s' * len(parts)
+        token = Expression(self.parser, f"('{template}' % ({', '.join(parts)}))", 0)
         return token
 
     def next_unconsolidated_token(self):
-- 
2.43.0


From 6cbc3ef2d14d886efac322dd6995a52a5d5bd1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 069/106] fix: bash: whitespace at the start or end of an
 argument is kept

---
 marcel/op/bash.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 5917ee0..a65f14c 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -102,13 +102,14 @@ class Bash(marcel.core.Op):
 
     def setup(self, env):
         def executable(command):
-            return ''if command is None or len(command) == 0 else command.split()[0]
+            return '' if len(command.strip()) == 0 else command.split()[0]
 
         self.args = self.eval_function(env, 'args_arg')
-        self.command = ' '.join([str(x).strip() for x in self.args])
+        # Don't strip whitespace: it may be escaped.
+        self.command = ' '.join([str(x) for x in self.args])
         # Try to extract the executable to see if it is interactive.
         interactive = self.interactive or env.is_interactive_executable(executable(self.command))
-        self.escape = (BashShell(self) if len(self.command) == 0 else
+        self.escape = (BashShell(self) if len(self.command.strip()) == 0 else
                        Interactive(self) if interactive else
                        NonInteractive(self))
 
-- 
2.43.0


From cf5c474a29e53caa7d5a1305ddf3f2ebb4c4a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 070/106] fix: a string in quotes may be followed by more text

---
 marcel/parser.py        | 23 +++++++++++++++++------
 marcel/stringliteral.py | 16 +++++++++++-----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index dff6fc7..ab54735 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -438,6 +438,7 @@ class String(Token):
     def scan(self, scan_termination):
         quote = None
         chars = []
+        unquoted = []
         while True:
             c = self.next_char()
             if c is None:
@@ -450,12 +451,15 @@ class String(Token):
                 else:
                     # quoted whitespace or character that would otherwise terminate the string
                     chars.append(c)
+                    unquoted.append(c)
             elif c in Token.QUOTES:
                 chars.append(c)
                 if quote is None:
                     quote = c
                 elif c == quote:
                     quote = None
+                else:
+                    unquoted.append(c)
             elif c == Token.ESCAPE_CHAR:
                 if quote is None:
                     chars.append(c)
@@ -463,25 +467,32 @@ class String(Token):
                     if c is None:
                         raise LexerException(self, 'Nothing to escape')
                     chars.append(c)
+                    unquoted.append(c)
                 elif quote == Token.SINGLE_QUOTE:
                     chars.append(c)
+                    unquoted.append(c)
                 elif quote == Token.DOUBLE_QUOTE:
                     c = self.next_char()
                     # TODO: Other escaped chars inside double quotes
                     if c is None:
                         # Unterminated string, reported later
-                        chars.append(Token.ESCAPE_CHAR)
-                        break
+                        escaped = [Token.ESCAPE_CHAR]
                     elif c == Token.ESCAPE_CHAR:
-                        chars.append(c)
+                        escaped = [c]
                     else:
-                        chars.append(Token.ESCAPE_CHAR)
-                        chars.append(c)
+                        escaped = [Token.ESCAPE_CHAR, c]
+                    chars.extend(escaped)
+                    unquoted.extend(escaped)
+                    if c is None:
+                        break
                 else:
                     raise LexerException(self, 'Malformed string')
             else:
                 chars.append(c)
-        self.string = StringLiteral(''.join(chars))
+                unquoted.append(c)
+        literal = ''.join(chars)
+        self.string = (StringLiteral(literal, ''.join(unquoted), quote is not None) if literal[0] in Token.QUOTES else
+                       StringLiteral(literal))
 
 
 class MarcelString(String):
diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index df38746..51146e4 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -18,16 +18,18 @@ class StringLiteral(str):
 
     QUOTES = '"\''
 
-    def __new__(cls, literal=None):
+    def __new__(cls, literal=None, *_):
         return super().__new__(cls, literal)
 
-    def __init__(self, literal=None):
+    # If literal starts with a quote, then unquoted is the literal without quotes, and unterminated_quote says whether
+    # a closing quote is missing.
+    def __init__(self, literal=None, unquoted=None, unterminated_quote=None):
         self.original = literal
         self.escape = None
         self.quote = None
-        self.unterminated_quote = None
+        self.unterminated_quote = unterminated_quote
         self.string = None
-        self.compute_unadorned()
+        self.compute_unadorned(unquoted)
 
     def value(self):
         return self.string
@@ -49,9 +51,13 @@ class StringLiteral(str):
 
     # Internal
 
-    def compute_unadorned(self):
+    def compute_unadorned(self, unquoted):
         if self.original is not None:
             self.escape = False
+            if unquoted is not None:
+                self.quote = self[0]
+                self.string = unquoted
+                return
             self.unterminated_quote = False
             if self[0] in StringLiteral.QUOTES:
                 # Remove quotes
-- 
2.43.0


From f4925b2bf72fd2a2720c7aaffa639f1342f5ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 071/106] fix: bash: -i following the name of the executable is
 an argument of the executable

---
 marcel/argsparser.py | 14 ++++++++++----
 marcel/op/bash.py    |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index ad19158..ad60ad6 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -109,8 +109,10 @@ class Anon(Arg):
 
 class AnonList(Arg):
 
-    def __init__(self, op_name, name, convert, target=None):
+    # verbatim: Everything following the first arg is part of the list, even if it looks like a flag.
+    def __init__(self, op_name, name, convert, target=None, verbatim=False):
         super().__init__(op_name, name, convert, target)
+        self.verbatim = verbatim
 
 
 # ----------------------------------------------------------------------------------------------------------------------
@@ -143,8 +145,8 @@ class ArgsParser:
     def add_anon(self, name, convert=None, default=NO_DEFAULT, target=None):
         self.anon_args.append(Anon(self.op_name, name, convert, default, target))
 
-    def add_anon_list(self, name, convert=None, target=None):
-        self.anon_list_arg = AnonList(self.op_name, name, convert, target)
+    def add_anon_list(self, name, convert=None, target=None, verbatim=False):
+        self.anon_list_arg = AnonList(self.op_name, name, convert, target, verbatim)
 
     def at_most_one(self, *names):
         self.at_most_one_names.append(self.name_set(names))
@@ -416,7 +418,11 @@ class ArgsParser:
         flag_ok = len(self.flag_args) > 0
         try:
             while True:
-                for arg in self.expand_arg(next(args_iterator)):
+                arg = next(args_iterator)
+                if len(anon_list) > 0 and self.anon_list_arg.verbatim:
+                    anon_list.append(self.anon_list_arg.convert(self.anon_list_arg, arg))
+                    continue
+                for arg in self.expand_arg(arg):
                     flag_arg = self.find_flag(arg)
                     if flag_arg:
                         # Flag
diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index a65f14c..70c5465 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -82,7 +82,8 @@ class BashArgsParser(marcel.argsparser.ArgsParser):
     def __init__(self, env):
         super().__init__('bash', env)
         self.add_flag_no_value('interactive', '-i', '--interactive')
-        self.add_anon_list('args', convert=self.check_str, target='args_arg')
+        # -i may be a flag of the executable
+        self.add_anon_list('args', convert=self.check_str, target='args_arg', verbatim=True)
         self.validate()
 
 
-- 
2.43.0


From 46dd4531fe80e8c15bf352e69876165d021b102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:45 +0000
Subject: [PATCH 072/106] fix: help: works without a terminal, and on a very
 narrow one

---
 marcel/helpformatter.py | 2 +-
 marcel/util.py          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/marcel/helpformatter.py b/marcel/helpformatter.py
index 33152e2..f94273b 100644
--- a/marcel/helpformatter.py
+++ b/marcel/helpformatter.py
@@ -555,7 +555,7 @@ class HelpFormatter:
         console_columns = marcel.util.console_width()
         if console_columns is None:
             console_columns = 70  # Default for textwrap module
-        self.help_columns = int((1 - HelpFormatter.RIGHT_MARGIN) * console_columns)
+        self.help_columns = max(1, int((1 - HelpFormatter.RIGHT_MARGIN) * console_columns))
 
     @staticmethod
     def find_paragraph_markup(textp):
diff --git a/marcel/util.py b/marcel/util.py
index 5a27423..4973a6f 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -154,10 +154,12 @@ def colorize(s, color):
     return f'{style}\033[38;5;{color.code}m{s}\033[0m'
 
 
+# Returns None if the width is unknown, e.g. because stdin is not a terminal.
 def console_width():
     process = subprocess.run('stty size', shell=True, capture_output=True)
-    console_columns = int(process.stdout.split()[1])
-    return console_columns
+    size = process.stdout.split()
+    console_columns = int(size[1]) if len(size) == 2 else 0
+    return console_columns if console_columns > 0 else None
 
 
 # Utility to print to stderr, flushing stdout first, to minimize weird ordering due to buffering.
-- 
2.43.0


From 1d68d4d59620ac3af54737283046577180b88df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 073/106] fix: an unexpected exception ends the command, not
 the shell

---
 marcel/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/main.py b/marcel/main.py
index d79147b..150ff2a 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -124,6 +124,9 @@ class MainScript(Main):
             except marcel.exception.KillAndResumeException:
                 # Error handler printed the error
                 pass
+            except Exception as e:
+                # Not expected. Only the command fails, not the shell.
+                marcel.util.print_to_stderr(env, f'{type(e).__name__}: {e}')
 
     # MainScript
 
-- 
2.43.0


From e2ac85f371226506b4da57ec6440e99f35bb32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 074/106] fix: ps: works from the API, and with arguments that
 are expressions

---
 marcel/op/ps.py | 49 ++++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/marcel/op/ps.py b/marcel/op/ps.py
index 6028d22..bbc5c17 100644
--- a/marcel/op/ps.py
+++ b/marcel/op/ps.py
@@ -85,12 +85,14 @@ _UNINITIALIZED = Uninitialized()
 
 
 def ps(user=_UNINITIALIZED, group=_UNINITIALIZED, pid=_UNINITIALIZED, command=_UNINITIALIZED):
-    op = Ps()
-    op.user = user
-    op.group = group
-    op.pid = pid
-    op.command = command
-    return op, []
+    args = []
+    for flag, value in (('--user', user), ('--group', group), ('--pid', pid), ('--command', command)):
+        if value is not _UNINITIALIZED:
+            args.append(flag)
+            if value is not None:
+                # user or group is None: this user or group
+                args.append(value)
+    return Ps(), args
 
 
 class PsArgsParser(marcel.argsparser.ArgsParser):
@@ -123,28 +125,29 @@ class Ps(marcel.core.Op):
     def setup(self, env):
         # user, group can be name or id. A name can be numeric, and in that case, the name interpretation
         # takes priority. Convert name to uid, since that is a cheaper lookup on a Project.
-        # If user or group is None, no user/group was specified, so use this user/group.
-        # A value of type Uninitialized means it wasn't specified at all.
-        #
         # user and group can be True if -u or -g are specified with no value.
+        user = self.eval_function(env, 'user', str, int)
+        group = self.eval_function(env, 'group', str, int)
+        pid = self.eval_function(env, 'pid', str, int)
+        command = self.eval_function(env, 'command', str)
         self.filter = lambda p: True
-        if self.user is not None:
-            self.user = os.getuid() if self.user is True else Ps.convert_to_id(self.user, marcel.util.uid)
-            self.filter = lambda p: self.user in p.uids
-        if self.group is not None:
-            self.group = os.getgid() if self.group is True else Ps.convert_to_id(self.group, marcel.util.gid)
-            self.filter = lambda p: self.group in p.gids
-        if self.pid:
+        if user is not None:
+            user = os.getuid() if user is True else Ps.convert_to_id(user, marcel.util.uid)
+            self.filter = lambda p: user in p.uids
+        if group is not None:
+            group = os.getgid() if group is True else Ps.convert_to_id(group, marcel.util.gid)
+            self.filter = lambda p: group in p.gids
+        if pid is not None:
             try:
-                self.pid = int(self.pid)
-                self.filter = lambda p: self.pid == p.pid
+                pid = int(pid)
+                self.filter = lambda p: pid == p.pid
             except ValueError:
-                raise marcel.exception.KillCommandException(f'pid must be an int: {self.pid}')
-        if self.command:
-            self.filter = (lambda p: p.name is not None and self.command in p.name or
-                                     p.exe is not None and self.command in p.exe or
+                raise marcel.exception.KillCommandException(f'pid must be an int: {pid}')
+        if command:
+            self.filter = (lambda p: p.name is not None and command in p.name or
+                                     p.exe is not None and command in p.exe or
                                      p.cmdline is not None and functools.reduce(lambda x, y: x or y,
-                                                                                [self.command in x for x in p.cmdline],
+                                                                                [command in x for x in p.cmdline],
                                                                                 False))
 
     def run(self, env):
-- 
2.43.0


From c58d17e09aab4ee22efe94e9d4d81c26a16b667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 075/106] fix: run, edit, jobs, fg and bg in a script report
 that there is nothing to run

---
 marcel/op/edit.py  | 4 +++-
 marcel/op/jobop.py | 2 ++
 marcel/op/jobs.py  | 4 +++-
 marcel/op/run.py   | 2 ++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index f3aac87..e150067 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -80,7 +80,9 @@ class Edit(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        assert self.command is None  # edit COMMAND should be handled by Reader, shouldn't get here.
+        if self.startup is None:
+            # edit [COMMAND] is handled by Reader. It gets here if there was nothing to edit or to run.
+            raise marcel.exception.KillCommandException('There is no command to run.')
         self.ws_name = None if self.startup is True else self.startup
 
     def run(self, env):
diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index b3f428f..04e581e 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -43,6 +43,8 @@ class JobOp(marcel.core.Op):
 
     def setup(self, env):
         job_control = marcel.job.JobControl.only
+        if job_control is None:
+            raise marcel.exception.KillCommandException('There are no jobs.')
         self.jid = self.eval_function(env, 'jid', int)
         self.pid = self.eval_function(env, 'pid', int)
         self.job_id = self.eval_function(env, 'job_id', int)
diff --git a/marcel/op/jobs.py b/marcel/op/jobs.py
index 1c3d0b6..5785dc0 100644
--- a/marcel/op/jobs.py
+++ b/marcel/op/jobs.py
@@ -56,7 +56,9 @@ class Jobs(marcel.core.Op):
     
     def run(self, env):
         job_id = 0
-        for job in marcel.job.JobControl.only.jobs():
+        job_control = marcel.job.JobControl.only
+        # There is no job control in a script
+        for job in job_control.jobs() if job_control else []:
             # TODO: If job were a marcel.renderable.Renderable, then it would have render_compact/full methods.
             description = f'{job_id}({job.state_symbol()}): {job.process.pid}  {job.command.source}'
             self.send(env, description)
diff --git a/marcel/op/run.py b/marcel/op/run.py
index 9dafaa3..acac84d 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -65,6 +65,8 @@ class Run(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        if not hasattr(env, 'reader'):
+            raise marcel.exception.KillCommandException('There is no command history.')
         if self.expected_args == 1 and self.id is None:
             raise marcel.exception.KillCommandException('History command number required following !')
         elif self.expected_args == 0 and self.id is not None:
-- 
2.43.0


From abd0ffef32acf30de8b207bac2c0b2e8eaf014b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 076/106] fix: history: arguments may be expressions, and there
 is no history in a script

---
 marcel/op/history.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/marcel/op/history.py b/marcel/op/history.py
index fba7f4b..f55cb54 100644
--- a/marcel/op/history.py
+++ b/marcel/op/history.py
@@ -54,9 +54,9 @@ class HistoryArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('history', env)
-        self.add_flag_one_value('pattern', '-c', '--command')
+        self.add_flag_one_value('pattern', '-c', '--command', target='pattern_arg')
         self.add_flag_no_value('all', '-a', '--all')
-        self.add_anon('n', convert=self.str_to_int, default=None)
+        self.add_anon('n', convert=self.str_to_int, default=None, target='n_arg')
         self.at_most_one('all', 'n')
         self.validate()
 
@@ -67,25 +67,30 @@ class History(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.pattern_arg = None
         self.pattern = None
         self.all = None
+        self.n_arg = None
         self.n = None
 
     def __repr__(self):
         args = []
-        if self.pattern:
-            args.append(f"command='{self.pattern}'")
+        if self.pattern_arg:
+            args.append(f"command='{self.pattern_arg}'")
         if self.all:
             args.append('all')
-        if self.n is not None:
-            args.append(f'n={self.n}')
+        if self.n_arg is not None:
+            args.append(f'n={self.n_arg}')
         args_description = ', '.join(args)
         return f'history({args_description})'
 
     # AbstractOp
 
     def setup(self, env):
-        self.n = self.eval_function(env, 'n', int)
+        if not hasattr(env, 'reader'):
+            raise marcel.exception.KillCommandException('There is no command history.')
+        self.pattern = self.eval_function(env, 'pattern_arg', str)
+        self.n = self.eval_function(env, 'n_arg', int)
         if not self.all and self.n is None:
             self.n = History.N_DEFAULT
         if self.n is not None and self.n < 1:
-- 
2.43.0


From 940c7f6569b541c008bbca69e568485c2d797193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 077/106] fix: arguments that are expressions are evaluated by
 env, help, import, sql, timer, trace, write and ws

---
 marcel/op/env.py    | 24 +++++++++++++++---------
 marcel/op/help.py   |  7 ++++---
 marcel/op/import.py | 22 ++++++++++++++--------
 marcel/op/sql.py    | 17 ++++++++++-------
 marcel/op/timer.py  |  8 ++++++--
 marcel/op/trace.py  | 10 +++++++---
 marcel/op/write.py  |  8 +++++---
 marcel/op/ws.py     | 33 ++++++++++++++++++++++++---------
 8 files changed, 85 insertions(+), 44 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index 75813b8..82df311 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -81,11 +81,11 @@ class EnvArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('env', env)
-        self.add_flag_one_value('delete', '-d', '--delete')
-        self.add_flag_one_value('pattern', '-p', '--pattern')
+        self.add_flag_one_value('delete', '-d', '--delete', target='delete_arg')
+        self.add_flag_one_value('pattern', '-p', '--pattern', target='pattern_arg')
         self.add_flag_no_value('builtins', '-b', '--builtins')
         self.add_flag_no_value('os', '-o', '--os')
-        self.add_anon('var', default=None)
+        self.add_anon('var', default=None, target='var_arg')
         self.at_most_one('delete', 'var', 'pattern')
         self.at_most_one('delete', 'os')
         self.at_most_one('builtins', 'os')
@@ -96,8 +96,11 @@ class Env(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.delete_arg = None
         self.delete = None
+        self.var_arg = None
         self.var = None
+        self.pattern_arg = None
         self.pattern = None
         self.builtins = False
         self.os = None
@@ -110,17 +113,20 @@ class Env(marcel.core.Op):
             buffer.append('os')
         if self.builtins:
             buffer.append('builtins')
-        if self.delete:
-            buffer.append(f'delete {self.delete}')
-        if self.pattern:
-            buffer.append(f'pattern {self.pattern}')
-        if self.var:
-            buffer.append(self.var)
+        if self.delete_arg:
+            buffer.append(f'delete {self.delete_arg}')
+        if self.pattern_arg:
+            buffer.append(f'pattern {self.pattern_arg}')
+        if self.var_arg:
+            buffer.append(str(self.var_arg))
         return f'env({", ".join(buffer)})'
 
     # AbstractOp
 
     def setup(self, env):
+        self.var = self.eval_function(env, 'var_arg', str)
+        self.delete = self.eval_function(env, 'delete_arg', str)
+        self.pattern = self.eval_function(env, 'pattern_arg', str)
         self.list_all = self.var is None and self.delete is None and self.pattern is None
         self.impl = EnvOS(self) if self.os else EnvMarcel(self)
 
diff --git a/marcel/op/help.py b/marcel/op/help.py
index 4240b27..8ba8e14 100644
--- a/marcel/op/help.py
+++ b/marcel/op/help.py
@@ -42,7 +42,7 @@ class HelpArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('help', env)
-        self.add_anon('topic', convert=self.check_str, default='marcel')
+        self.add_anon('topic', convert=self.check_str, default='marcel', target='topic_arg')
         self.validate()
 
 
@@ -50,16 +50,17 @@ class Help(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.topic_arg = None
         self.topic = None
         self.module = None
 
     def __repr__(self):
-        return f'help({self.topic})'
+        return f'help({self.topic_arg})'
 
     # AbstractOp
     
     def setup(self, env):
-        self.topic = self.topic.lower()
+        self.topic = self.eval_function(env, 'topic_arg', str).lower()
 
     def run(self, env):
         op_module = env.op_modules.get(self.topic, None)
diff --git a/marcel/op/import.py b/marcel/op/import.py
index ce8b5c8..013cdf0 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -52,9 +52,9 @@ class ImportArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('import', env)
-        self.add_flag_one_value('as', '-a', '--as', target='name')
-        self.add_anon('module')
-        self.add_anon('symbol', default=None)
+        self.add_flag_one_value('as', '-a', '--as', target='name_arg')
+        self.add_anon('module', target='module_arg')
+        self.add_anon('symbol', default=None, target='symbol_arg')
         self.validate()
 
 
@@ -62,23 +62,29 @@ class Import(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
+        self.module_arg = None
         self.module = None
+        self.symbol_arg = None
         self.symbol = None
+        self.name_arg = None
         self.name = None
 
     def __repr__(self):
         buffer = []
-        if self.name:
-            buffer.append(f', --as {self.name}')
-        buffer.append(f'import({self.module}')
-        if self.symbol:
-            buffer.append(f', {self.symbol}')
+        if self.name_arg:
+            buffer.append(f', --as {self.name_arg}')
+        buffer.append(f'import({self.module_arg}')
+        if self.symbol_arg:
+            buffer.append(f', {self.symbol_arg}')
         buffer.append(')')
         return ''.join(buffer)
 
     # AbstractOp
 
     def setup(self, env):
+        self.module = self.eval_function(env, 'module_arg', str)
+        self.symbol = self.eval_function(env, 'symbol_arg', str)
+        self.name = self.eval_function(env, 'name_arg', str)
         wildcard = self.symbol == '*'
         if self.symbol and not (wildcard or self.symbol.isidentifier()):
             raise marcel.exception.KillCommandException(f'symbol must be * or a valid identifier: {self.symbol}')
diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 0c91906..77dd5fd 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -96,7 +96,7 @@ class SqlArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_one_value('db', '-d', '--db', target='dbvar')
         self.add_flag_no_value('autocommit', '-a', '--autocommit')
         self.add_flag_no_value('update_counts', '-u', '--update-counts')
-        self.add_flag_one_value('commit', '-c', '--commit', convert=self.str_to_int)
+        self.add_flag_one_value('commit', '-c', '--commit', convert=self.str_to_int, target='commit_arg')
         self.add_anon('statement', target='statement_arg')
         self.add_anon_list('args', target='args_arg')
         self.at_most_one('autocommit', 'commit')
@@ -111,6 +111,7 @@ class Sql(marcel.core.Op):
         self.db = None
         self.autocommit = None
         self.update_counts = None
+        self.commit_arg = None
         self.commit = None
         self.statement_arg = None
         self.statement = None
@@ -128,21 +129,23 @@ class Sql(marcel.core.Op):
     def setup(self, env):
         self.statement = self.eval_function(env, 'statement_arg', str)
         self.args = self.eval_function(env, 'args_arg')
+        self.commit = self.eval_function(env, 'commit_arg', int)
+        dbvar = self.eval_function(env, 'dbvar', str, marcel.object.db.Database)
         if self.commit is None:
             self.commit = 0  # Commit only in flush
         elif self.commit < 0:
             raise marcel.exception.KillCommandException(f'--commit value must be a positive integer: {self.commit}')
         self.total_update_count = 0
-        if self.dbvar is None:
+        if dbvar is None:
             self.db = env.getvar('DB_DEFAULT')
-        elif isinstance(self.dbvar, str):
+        elif isinstance(dbvar, str):
             # Interactive usage
-            self.db = env.db(self.dbvar)
-        elif type(self.dbvar) is marcel.object.db.Database:
+            self.db = env.db(dbvar)
+        elif type(dbvar) is marcel.object.db.Database:
             # API
-            self.db = self.dbvar
+            self.db = dbvar
         else:
-            assert False, self.dbvar
+            assert False, dbvar
         if self.db is None:
             raise marcel.exception.KillCommandException('No database profile defined')
         try:
diff --git a/marcel/op/timer.py b/marcel/op/timer.py
index f583f00..f3acd03 100644
--- a/marcel/op/timer.py
+++ b/marcel/op/timer.py
@@ -39,7 +39,7 @@ class TimerArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('timer', env)
-        self.add_anon('interval', convert=self.to_float)
+        self.add_anon('interval', convert=self.to_float, target='interval_arg')
         self.validate()
 
 
@@ -48,17 +48,21 @@ class Timer(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.metronome = None
+        self.interval_arg = None
         self.interval = None
         self.lock = None
         self.done = False
         self.now = None
 
     def __repr__(self):
-        return f'timer({self.interval})'
+        return f'timer({self.interval_arg})'
 
     # AbstractOp
     
     def setup(self, env):
+        self.interval = self.eval_function(env, 'interval_arg', int, float)
+        if not 0 <= self.interval <= threading.TIMEOUT_MAX:
+            raise marcel.exception.KillCommandException(f'Incorrect interval: {self.interval}')
         self.lock = threading.Condition()
         self.metronome = Metronome(self)
 
diff --git a/marcel/op/trace.py b/marcel/op/trace.py
index 6ccc45c..7482b56 100644
--- a/marcel/op/trace.py
+++ b/marcel/op/trace.py
@@ -64,7 +64,7 @@ class TraceArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('trace', env)
         self.add_flag_no_value('off', '-0', '--off')
         self.add_flag_no_value('on', '-1', '--on')
-        self.add_flag_one_value('file', '-f', '--file', target='filename')
+        self.add_flag_one_value('file', '-f', '--file', target='filename_arg')
         self.at_most_one('on', 'off', 'file')
         self.validate()
 
@@ -75,6 +75,7 @@ class Trace(marcel.core.Op):
         super().__init__()
         self.off = False
         self.on = False
+        self.filename_arg = None
         self.filename = None
 
     def __repr__(self):
@@ -83,13 +84,16 @@ class Trace(marcel.core.Op):
             buffer.append('on')
         if self.off:
             buffer.append('off')
-        if self.filename:
-            buffer.append(self.filename)
+        if self.filename_arg:
+            buffer.append(str(self.filename_arg))
         buffer.append(')')
         return ''.join(buffer)
 
     # AbstractOp
 
+    def setup(self, env):
+        self.filename = self.eval_function(env, 'filename_arg', str)
+
     def run(self, env):
         if self.off:
             env.trace.disable()
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 06a6d6e..ae56648 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -89,7 +89,7 @@ class WriteArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_no_value('csv', '-c', '--csv')
         self.add_flag_no_value('tsv', '-t', '--tsv')
         self.add_flag_no_value('pickle', '-p', '--pickle')
-        self.add_flag_one_value('format', '-f', '--format')
+        self.add_flag_one_value('format', '-f', '--format', target='format_arg')
         self.add_flag_no_value('append', '-a', '--append')
         self.add_anon('filename', convert=self.check_str, default=None, target='filename_arg')
         self.at_most_one('csv', 'tsv', 'pickle', 'format')
@@ -103,6 +103,7 @@ class Write(marcel.core.Op):
         self.csv = False
         self.tsv = False
         self.pickle = False
+        self.format_arg = None
         self.format = None
         self.append = None
         self.filename_arg = None
@@ -118,8 +119,8 @@ class Write(marcel.core.Op):
             buffer.append('tsv')
         if self.pickle:
             buffer.append('pickle')
-        if self.format:
-            buffer.append(f'format={Write.ensure_quoted(self.format)}')
+        if self.format_arg:
+            buffer.append(f'format={Write.ensure_quoted(self.format_arg)}')
         if self.append:
             buffer.append('append')
         if self.filename_arg:
@@ -131,6 +132,7 @@ class Write(marcel.core.Op):
 
     def setup(self, env):
         self.filename = self.eval_function(env, 'filename_arg', str)
+        self.format = self.eval_function(env, 'format_arg', str)
         if self.pickle and self.filename is None:
             raise marcel.exception.KillCommandException(
                 '--pickle incompatible with stdout.')
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..f04bc33 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -13,9 +13,12 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import pathlib
+
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.object.file
 import marcel.object.workspace
 
 Workspace = marcel.object.workspace.Workspace
@@ -128,17 +131,17 @@ class WsArgsParser(marcel.argsparser.ArgsParser):
     def __init__(self, env):
         super().__init__('ws', env)
         self.add_flag_no_value('list', '-l', '--list')
-        self.add_flag_one_value('new', '-n', '--new')
-        self.add_flag_one_value('open', '-o', '--open')
+        self.add_flag_one_value('new', '-n', '--new', target='new_arg')
+        self.add_flag_one_value('open', '-o', '--open', target='open_arg')
         self.add_flag_no_value('close', '-c', '--close')
-        self.add_flag_one_value('delete', '-d', '--delete')
+        self.add_flag_one_value('delete', '-d', '--delete', target='delete_arg')
         self.add_flag_no_value('delete_broken', '-b', '--delete-broken')
-        self.add_flag_one_value('home', '-h', '--home')
-        self.add_flag_one_value('rename', '-r', '--rename')
-        self.add_flag_one_value('copy', '-2', '--copy')
-        self.add_flag_one_value('export', '-e', '--export', target='exp')
-        self.add_flag_one_value('import', '-i', '--import', target='imp')
-        self.add_anon('name', default=None)
+        self.add_flag_one_value('home', '-h', '--home', target='home_arg')
+        self.add_flag_one_value('rename', '-r', '--rename', target='rename_arg')
+        self.add_flag_one_value('copy', '-2', '--copy', target='copy_arg')
+        self.add_flag_one_value('export', '-e', '--export', target='exp_arg')
+        self.add_flag_one_value('import', '-i', '--import', target='imp_arg')
+        self.add_anon('name', default=None, target='name_arg')
         self.at_most_one('list', 'new', 'open', 'close', 'delete', 'delete_broken',
                          'home', 'rename', 'copy', 'export', 'import')
         self.validate()
@@ -149,16 +152,25 @@ class Ws(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.list = None
+        self.new_arg = None
         self.new = None
+        self.open_arg = None
         self.open = None
         self.close = None
+        self.delete_arg = None
         self.delete = None
         self.delete_broken = None
+        self.home_arg = None
         self.home = None
+        self.rename_arg = None
         self.rename = None
+        self.copy_arg = None
         self.copy = None
+        self.exp_arg = None
         self.exp = None
+        self.imp_arg = None
         self.imp = None
+        self.name_arg = None
         self.name = None
         self.impl = None
 
@@ -168,6 +180,9 @@ class Ws(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        for arg in ('new', 'open', 'delete', 'rename', 'copy', 'exp', 'imp', 'name'):
+            setattr(self, arg, self.eval_function(env, f'{arg}_arg', str))
+        self.home = self.eval_function(env, 'home_arg', str, pathlib.Path, marcel.object.file.File)
         if self.list:
             self.impl = WsList(self)
         elif self.new is not None:
-- 
2.43.0


From 338383449e8f7c26157c65db7d2a28e77d43958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 078/106] fix: a workspace has a name that can be the name of
 its directory

---
 marcel/object/workspace.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 9443581..b2265f5 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import os
 import shutil
 import pathlib
 import time
@@ -231,15 +232,17 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         return False
 
     def exists(self):
-        return self.marker.exists()
+        return self.has_legal_name() and self.marker.exists()
 
     def create(self):
+        if not self.has_legal_name():
+            self.illegal_name()
         # Creation of the config directory decides which one of several processes creates the workspace.
         try:
             self.locations.config_ws(self).mkdir(parents=True)
         except FileExistsError:
             raise marcel.exception.KillCommandException(f'Workspace {self.name} already exists.')
-        except FileNotFoundError:
+        except OSError:
             self.illegal_name()
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
         self.create_on_disk(initial_config_contents)
@@ -383,6 +386,14 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         except FileNotFoundError:
             self.illegal_name()
 
+    # The name is the name of a directory, for each workspace, in the config and data directories. Other paths
+    # would be outside these directories, or inside the directories of another workspace.
+    def has_legal_name(self):
+        return (self.name not in ('', os.curdir, os.pardir, marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME)
+                and os.sep not in self.name
+                and '\0' not in self.name
+                and len(os.fsencode(self.name)) <= 255)
+
     def illegal_name(self):
         raise marcel.exception.KillCommandException(
             f'Workspace name must be usable as a legal filename: {self.name}')
-- 
2.43.0


From 06363c460b4cf738436adff233f54de8e95ded56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 079/106] fix: API: gather and first collect errors, iterators
 are iterable, gen(pad=0), dirs(clear=False) and intersect of several
 pipelines mean what they say

---
 marcel/op/apiop.py     | 9 ++++++---
 marcel/op/dirs.py      | 4 ++--
 marcel/op/gen.py       | 2 +-
 marcel/op/intersect.py | 7 ++++---
 marcel/pipeline.py     | 3 +++
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index fe179be..c9347e7 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -39,6 +39,9 @@ class APIOp(marcel.core.Op):
             raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
-        self.output.append(error)
-        if self.stop_after_first:
-            raise marcel.exception.StopAfterFirst()
+        if self.errors is not None:
+            self.errors.append(error)
+        else:
+            self.output.append(error)
+            if self.stop_after_first:
+                raise marcel.exception.StopAfterFirst()
diff --git a/marcel/op/dirs.py b/marcel/op/dirs.py
index 971a7b6..3ec302a 100644
--- a/marcel/op/dirs.py
+++ b/marcel/op/dirs.py
@@ -28,8 +28,8 @@ Write the entries in the directory stack to the output stream, top first.
 '''
 
 
-def dirs(clear=None):
-    return Dirs(), [] if clear is None else ['--clear']
+def dirs(clear=False):
+    return Dirs(), ['--clear'] if clear else []
 
 
 class DirsArgsParser(marcel.argsparser.ArgsParser):
diff --git a/marcel/op/gen.py b/marcel/op/gen.py
index 82bcafc..a0f3bbd 100644
--- a/marcel/op/gen.py
+++ b/marcel/op/gen.py
@@ -37,7 +37,7 @@ permitted if the stream does not terminate, or if {r:START} is negative.
 
 
 def gen(count=0, start=0, pad=None):
-    args = ['--pad', pad] if pad else []
+    args = ['--pad', pad] if pad is not None else []
     args.append(count)
     args.append(start)
     return Gen(), args
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 40894ba..0728478 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -39,9 +39,10 @@ output is unspecified.
 '''
 
 
-def intersect(pipeline):
-    assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
-    return Intersect(), [pipeline]
+def intersect(*pipelines):
+    for pipeline in pipelines:
+        assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
+    return Intersect(), list(pipelines)
 
 
 class IntersectArgsParser(marcel.argsparser.ArgsParser):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 828505a..1756327 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -544,6 +544,9 @@ class PipelineIterator:
         finally:
             self.iterator = iter(output)
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         return next(self.iterator)
 
-- 
2.43.0


From a488d5b9e0dd893c499dc954fe60f8edd8b4a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 080/106] fix: reservoirs and pickle files: nested readers,
 appended and shared items, items that cannot be pickled, truncated files

---
 marcel/op/load.py    | 21 +++++++++------
 marcel/op/store.py   |  5 ++--
 marcel/picklefile.py | 63 ++++++++++++++++++++++++++------------------
 3 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..5381e62 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -97,17 +97,22 @@ class Load(marcel.core.Op):
         elif self.var is not None:
             raise marcel.exception.KillCommandException(
                 f'The type of {self.var} is {type(self.var)}. Only a Reservoir can be loaded')
-        self.reader = iter(self.picklefile)
+        try:
+            self.reader = self.picklefile.reader()
+        except marcel.picklefile.PickleFileUsageError:
+            raise marcel.exception.KillCommandException(f'load {self.var}: Pickle file already in use')
 
     def run(self, env):
-        try:
-            while True:
-                self.send(env, next(self.reader))
-        except StopIteration:
-            self.reader.close()
-        except:
+        while True:
+            try:
+                x = self.reader.read()
+            except EOFError:
+                break
+            self.send(env, x)
+
+    def cleanup(self):
+        if self.reader is not None:
             self.reader.close()
-            raise
 
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..e11a1e8 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -122,9 +122,8 @@ class Store(marcel.core.Op):
     def receive(self, env, x):
         try:
             self.writer.write(x)
-        except:
-            self.writer.close()
-            raise
+        except Exception as e:  # E.g. x cannot be pickled
+            self.fatal_error(env, x, str(e))
 
     def cleanup(self):
         self.writer.close()
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..1ff1d80 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -27,12 +27,19 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = []
         self._writer = None
 
     def __repr__(self):
         return f'{self.__class__.__name__}({self.path})'
 
+    def __getstate__(self):
+        # Open files belong to the process that opened them.
+        state = self.__dict__.copy()
+        state['_readers'] = []
+        state['_writer'] = None
+        return state
+
     def __hash__(self):
         return hash(self.path)
 
@@ -55,7 +62,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers.append(reader)
         return reader
 
     def writer(self, append):
@@ -72,13 +79,16 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for access in self._readers + [self._writer]:
+            if access is not None:
+                access.close()
+
+    # Called by an Access, (i.e., a Reader or Writer), that is being closed.
+    def closed(self, access):
+        if access is self._writer:
             self._writer = None
-        if access is not None:
-            access.close_file()
+        elif access in self._readers:
+            self._readers.remove(access)
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -99,11 +109,10 @@ class Access(object):
         self.file = None
 
     def close(self):
-        self.owner.close()
-
-    def close_file(self):
-        self.file.close()
-        self.file = None
+        self.owner.closed(self)
+        if self.file is not None:
+            self.file.close()
+            self.file = None
 
 
 class Reader(Access):
@@ -130,7 +139,13 @@ class Reader(Access):
         self.close()
 
     def read(self):
-        return self.unpickler.load()
+        at_end = len(self.file.peek(1)) == 0
+        try:
+            return self.unpickler.load()
+        except EOFError:
+            if at_end:
+                raise
+            raise dill.UnpicklingError('Pickle data was truncated')
 
 
 class Writer(Access):
@@ -142,18 +157,16 @@ class Writer(Access):
         self.append = append
         owner.path.touch(mode=0o600)
         self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
         self.last_flush = time.time()
 
     def write(self, x):
         assert self.file is not None
-        try:
-            self.pickler.dump(x)
-            now = time.time()
-            if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-                self.file.flush()
-                self.last_flush = now
-        except:
-            print(f'{os.getpid()}: Closing writer')
-            self.close()
-            raise
+        # Each item is pickled on its own, so that an item that cannot be pickled leaves nothing in the file. References
+        # within an item are represented by explicit memo indexes, (unlike protocols 4 and later). This keeps items
+        # readable by an Unpickler that has read other items before, e.g. those preceding the ones appended by this
+        # Writer.
+        self.file.write(dill.dumps(x, protocol=3))
+        now = time.time()
+        if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
+            self.file.flush()
+            self.last_flush = now
-- 
2.43.0


From 4a571c72902e2db5a4093754e6e04c7df8bc816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 081/106] fix: case: predicates are compiled in child
 processes, pipelines are set up once and cleaned up when setup fails

---
 marcel/op/case.py | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 5b4edb5..7e639cf 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.function
 import marcel.op.redirect
 import marcel.pipeline
 
@@ -118,13 +119,11 @@ class Case(marcel.core.Op):
             self.default_pipeline.cleanup()
 
     def ensure_functions_compiled(self, env):
-        self.ensure_args_processed(env)
-        for branch in self.branches:
-            self.ensure_function_compiled(branch.predicate, env)
-        for pipeline in self.pipelines:
-            pipeline.ensure_functions_compiled(env)
-        if self.default_pipeline:
-            self.default_pipeline.ensure_functions_compiled(env)
+        for arg in self.args:
+            if isinstance(arg, marcel.pipeline.Pipeline):
+                arg.ensure_functions_compiled(env)
+            else:
+                self.ensure_function_compiled(arg, env)
 
     # Internal
 
@@ -151,19 +150,28 @@ class Case(marcel.core.Op):
         # Functions and args alternate. For the API, pipelines can show up as functions, so testing to distinguish
         # between functions and pipelines cannot be perfect here, have to wait until execution to be sure.
         self.branches = []
+        self.default_pipeline = None
         predicate = None
-        for a in range(len(self.args) & ~1):
-            arg = self.args[a]
-            if predicate is None:
-                if callable(arg):
-                    predicate = arg
+        try:
+            for a in range(len(self.args) & ~1):
+                arg = self.args[a]
+                if predicate is None:
+                    if callable(arg):
+                        predicate = arg
+                        if isinstance(predicate, marcel.function.Function):
+                            # Needed in a child process: compiled functions are not pickled.
+                            env.set_function_globals(predicate)
+                    else:
+                        raise marcel.exception.KillCommandException(f'Expected function, found {arg}')
                 else:
-                    raise marcel.exception.KillCommandException(f'Expected function, found {arg}')
-            else:
-                self.branches.append(Case.Branch(predicate, pipeline(arg)))
-                predicate = None
-        if len(self.args) & 1 == 1:
-            self.default_pipeline = pipeline(self.args[-1])
+                    self.branches.append(Case.Branch(predicate, pipeline(arg)))
+                    predicate = None
+            if len(self.args) & 1 == 1:
+                self.default_pipeline = pipeline(self.args[-1])
+        except BaseException:
+            # The pipelines already set up will not be run. Release their resources.
+            self.cleanup()
+            raise
 
     def customize_pipelines(self, env):
         def redirect():
-- 
2.43.0


From 1edcedb73bb725ff2e89e2843ac5e3022f91c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 082/106] fix: fork: errors of a command that fails while
 running in the child reach the parent

---
 marcel/op/filter.py      |  7 +++++--
 marcel/op/forkmanager.py | 11 +++++------
 marcel/op/jobop.py       |  3 +++
 marcel/op/reverse.py     |  3 +++
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 2560a7b..5d536c8 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.function
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -97,8 +98,7 @@ class Filter(marcel.core.Op):
         self.right = None
 
     def __repr__(self):
-        assert self.keep != self.discard
-        behavior = 'keep' if self.keep else 'discard'
+        behavior = 'discard' if self.discard else 'keep'
         return f'filter({behavior}, {self.pipeline})'
 
     # AbstractOp
@@ -112,6 +112,9 @@ class Filter(marcel.core.Op):
         self.keep = not self.discard
         if self.compare is None:
             self.compare = lambda *x: x
+        elif isinstance(self.compare, marcel.function.Function):
+            # Needed in a child process: compiled functions are not pickled.
+            env.set_function_globals(self.compare)
 
     def receive(self, env, x):
         if self.right is None:
diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 0873ea2..9e11e27 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -53,10 +53,6 @@ class SendToParent(marcel.core.Op):
         dump(f'{self} receive_error {error}')
         self.writer.send(dill.dumps(error))
 
-    def cleanup(self):
-        dump(f'{self} cleanup, close writer {id(self.writer)}')
-        self.writer.close()
-
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
@@ -65,13 +61,16 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
-        pipeline.run_pipeline(env, bindings)  # Closes writer
+        pipeline.run_pipeline(env, bindings)
+    except marcel.exception.KillCommandException as e:
+        dump(f'caught {type(e)}: {e}')
+        writer.send(dill.dumps(marcel.object.error.Error(e)))
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
         writer.send(dill.dumps(marcel.object.error.Error(e)))
-        writer.close()
     finally:
+        writer.close()
         dump(f'closed writer {id(writer)}')
 
 
diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 04e581e..27a422c 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -39,6 +39,9 @@ class JobOp(marcel.core.Op):
         self.job_id = None
         self.job = None
 
+    def __repr__(self):
+        return f'{self.op_name()}()'
+
     # AbstractOp
 
     def setup(self, env):
diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 73251f1..26da60b 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -40,6 +40,9 @@ class Reverse(marcel.core.Op):
         super().__init__()
         self.contents = []
 
+    def __repr__(self):
+        return 'reverse()'
+
     # AbstractOp
 
     def setup(self, env):
-- 
2.43.0


From a7d9a16aaabdf0cb893a320f801c496639cb9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 083/106] fix: reading a value that refers to the environment
 does not open the workspace again

---
 marcel/env.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marcel/env.py b/marcel/env.py
index 03db665..5a58624 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -73,6 +73,9 @@ class CheckNestingNoop(object):
 
 class Environment(object):
 
+    # The Environment of this process
+    current = None
+
     def __init__(self, usage, workspace=None, trace=None):
         if workspace is None:
             from marcel.object.workspace import Workspace
@@ -110,6 +113,14 @@ class Environment(object):
         usage = state['usage']
         trace = state['trace']
         workspace_name = state['workspace']
+        current = Environment.current
+        if usage != 'api' and current is not None:
+            current_workspace = current.workspace
+            if workspace_name == (None if current_workspace.is_default() else current_workspace.name):
+                # Something referring to an Environment, e.g. the value of pos, has been read by a process which already
+                # has that Environment. Creating it again would interfere with the workspace, which is already open.
+                self.__dict__ = current.__dict__
+                return
         workspace = Workspace.default() if workspace_name is None else Workspace(workspace_name)
         namespace = state['namespace']
         if usage == 'api':
@@ -260,6 +271,7 @@ class Environment(object):
             import marcel.object.workspace
             workspace = marcel.object.workspace.Workspace.default()
         env = cls(workspace=workspace, trace=trace, usage=usage)
+        Environment.current = env
         initial_namespace = env.initial_namespace()
         workspace.open(env, initial_namespace)
         assert (usage == 'api') == (globals is not None), f'usage: {usage}, globals: {"..." if globals else None}'
-- 
2.43.0


From 8de85427e7b184bb77fd5bb6ab79c8cd2f522783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:06 +0000
Subject: [PATCH 084/106] fix: read: a file that cannot be parsed is an error
 for that file only

---
 marcel/op/read.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index 7854c89..b8a42a5 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -256,13 +256,21 @@ class PickleReader(Reader):
         super().__init__(op)
 
     def read_file(self, env, file, label):
-        with marcel.picklefile.PickleFile(file.path).reader() as input:
-            try:
-                while True:
+        try:
+            reader = marcel.picklefile.PickleFile(file.path).reader()
+        except PermissionError as e:
+            raise marcel.exception.KillAndResumeException(f'Unable to open {file.path} with mode rb: {str(e)}')
+        with reader as input:
+            while True:
+                try:
                     x = input.read()
-                    self.op.send(env, label + (x if type(x) is tuple else (x,)) if label else x)
-            except EOFError:
-                pass
+                except EOFError:
+                    break
+                except Exception as e:
+                    # Unpickling invalid data can raise almost anything.
+                    self.op.non_fatal_error(env, file, f'Cannot unpickle: {type(e).__name__}: {e}')
+                    break
+                self.op.send(env, label + (x if type(x) is tuple else (x,)) if label else x)
 
 
 class JSONReader(Reader):
@@ -277,7 +285,11 @@ class JSONReader(Reader):
                                    marcel.exception.KillAndResumeException) as input:
             lines = input.readlines()
         assert lines is not None
-        json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
+        try:
+            json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
+        except (ValueError, RecursionError) as e:
+            self.op.non_fatal_error(env, file, f'Not valid JSON: {e}')
+            return
         self.op.send(env, label + (json,) if label else json)
 
 
@@ -307,7 +319,13 @@ class CSVReader(Reader):
                 while len(line) > 0:
                     line = line.rstrip('\r\n')
                     self.input.set_current(line)
-                    out = tuple(next(self.reader))
+                    try:
+                        out = tuple(next(self.reader))
+                    except csv.Error as e:
+                        self.op.non_fatal_error(env, line, str(e))
+                        line = input.readline()
+                        first = False
+                        continue
                     if first and (self.headings or self.skip_headings):
                         if self.headings:
                             try:
-- 
2.43.0


From 0917fdf19edf1e74a4e379de296136b4ffdde218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:20 +0000
Subject: [PATCH 085/106] fix: recalling and editing commands: editor x is not
 edit, texts of several lines, invalid numbers, run without a number; history
 written to a file

---
 marcel/object/color.py         |  2 +-
 marcel/object/historyrecord.py |  2 ++
 marcel/op/run.py               | 24 ++++++++++++--
 marcel/reader.py               | 59 +++++++++++++++++-----------------
 marcel/runeditor.py            | 23 +++++++------
 5 files changed, 67 insertions(+), 43 deletions(-)

diff --git a/marcel/object/color.py b/marcel/object/color.py
index f515098..754e730 100644
--- a/marcel/object/color.py
+++ b/marcel/object/color.py
@@ -116,7 +116,7 @@ class ColorScheme(marcel.object.renderable.Renderable):
 
     def render_full(self, color_scheme):
         def colorize(s, color_name):
-            return marcel.util.colorize(s, getattr(color_scheme, color_name))
+            return s if color_scheme is None else marcel.util.colorize(s, getattr(color_scheme, color_name))
         kv = []
         n = 0
         for k in ColorScheme.KEYS:
diff --git a/marcel/object/historyrecord.py b/marcel/object/historyrecord.py
index 98f58df..00c870d 100644
--- a/marcel/object/historyrecord.py
+++ b/marcel/object/historyrecord.py
@@ -47,6 +47,8 @@ class HistoryRecord(marcel.object.renderable.Renderable):
         return HistoryRecord.format(self.id, self.command)
 
     def render_full(self, color_scheme):
+        if color_scheme is None:
+            return self.render_compact()
         return HistoryRecord.format(marcel.util.colorize(self.id, color_scheme.history_id),
                                     marcel.util.colorize(self.command, color_scheme.history_command))
 
diff --git a/marcel/op/run.py b/marcel/op/run.py
index acac84d..e9754b7 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -46,7 +46,7 @@ class RunArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('run', env)
-        self.add_anon('id', convert=self.str_to_int, default=None)
+        self.add_anon('id', convert=self.str_to_int, default=None, target='id_arg')
         self.validate()
 
 
@@ -55,25 +55,37 @@ class Run(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.expected_args = None  # Set during parse. ! -> 1, !! -> 0
+        self.id_arg = None
         self.id = None
         self.editor = None
         self.tmp_file = None
 
     def __repr__(self):
-        return 'run()' if self.id is None else f'run({self.id})'
+        return 'run()' if self.id_arg is None else f'run({self.id_arg})'
 
     # AbstractOp
 
     def setup(self, env):
         if not hasattr(env, 'reader'):
             raise marcel.exception.KillCommandException('There is no command history.')
+        self.id = self.eval_function(env, 'id_arg', int)
         if self.expected_args == 1 and self.id is None:
             raise marcel.exception.KillCommandException('History command number required following !')
         elif self.expected_args == 0 and self.id is not None:
             raise marcel.exception.KillCommandException('No arguments permitted after !!')
 
     def run(self, env):
-        env.next_command = env.reader.command_by_id(self.id)
+        history = env.reader.history()
+        if self.id is None:
+            command = next((c for c in history if not Run.is_run(c)), None)
+            if command is None:
+                raise marcel.exception.KillCommandException('There is no command to run.')
+        else:
+            command = env.reader.command_by_id(self.id)
+            if Run.is_run(command):
+                # E.g. the command being executed, which is also part of the history. It could run forever.
+                raise marcel.exception.KillCommandException(f'Command {self.id} cannot be run again: {command}')
+        env.next_command = command
 
     # Op
 
@@ -82,3 +94,9 @@ class Run(marcel.core.Op):
 
     def run_in_main_process(self):
         return True
+
+    # Internal
+
+    @staticmethod
+    def is_run(command):
+        return command.split()[:1] == ['run'] or command.lstrip().startswith('!')
diff --git a/marcel/reader.py b/marcel/reader.py
index e84920c..c93bb09 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -67,46 +67,48 @@ class Reader(object):
         return self._command_history
 
     def command_by_id(self, id):
-        command = ''
-        try:
-            history = self.history()
-            if type(id) is not int or id < 0:
-                raise marcel.exception.KillCommandException(
-                    f'Command id must be a non-negative integer: {id}')
-            if id >= len(history):
-                raise marcel.exception.KillCommandException(
-                    f'Command id exceeds that of most recent command: {id} > {len(history) - 1}')
-            command = self.history()[len(history) - 1 - id]
-        except marcel.exception.KillCommandException as e:
-            Reader.report_error(e.cause)
-        return command
+        history = self.history()
+        if type(id) is not int or id < 0:
+            raise marcel.exception.KillCommandException(
+                f'Command id must be a non-negative integer: {id}')
+        if id >= len(history):
+            raise marcel.exception.KillCommandException(
+                f'Command id exceeds that of most recent command: {id} > {len(history) - 1}')
+        return history[len(history) - 1 - id]
 
     # Handle !, !!, and edit ops. For edit, only edit N is handled here. edit -s is left to normal
-    # command processing.
+    # command processing. Returns the command to be run instead of the given one ('' if the given one is invalid,
+    # which has been reported), or None if the given command is not one of these.
     def handle_edit_and_run(self, command):
         def parse(command):
             command = command.strip()
+            tokens = command.split()
             return (['!!'] + command[2:].split() if command.startswith('!!') else
                     ['!'] + command[1:].split() if command.startswith('!') else
-                    ['edit'] + command[4:].split() if command.startswith('edit') else
+                    tokens if len(tokens) > 0 and tokens[0] == 'edit' else
                     None)
 
         def selected_command(token):
-            assert token is not None
             try:
                 command_id = int(token)
-                return self.command_by_id(command_id)
             except ValueError:
-                raise marcel.exception.KillCommandException(f'Command must be identifed by an integer: {t1}')
+                raise marcel.exception.KillCommandException(f'Command must be identifed by an integer: {token}')
+            return self.command_by_id(command_id)
+
+        def last_command():
+            history = self.history()
+            if len(history) == 0:
+                raise marcel.exception.KillCommandException('There is no command to run.')
+            return history[0]
 
         new_command = None
         try:
             tokens = parse(command)
             if tokens is not None:
                 t0 = tokens[0]
-                t1 = tokens[1] if len(tokens) > 1 else len(self.history()) - 1
+                t1 = tokens[1] if len(tokens) > 1 else None
                 if t0 == '!':
-                    if len(tokens) == 0:
+                    if t1 is None:
                         raise marcel.exception.KillCommandException('History command number required following !')
                     elif len(tokens) > 2:
                         raise marcel.exception.KillCommandException('Too many arguments after !')
@@ -114,23 +116,22 @@ class Reader(object):
                 elif t0 == '!!':
                     if len(tokens) > 1:
                         raise marcel.exception.KillCommandException('No arguments permitted after !!')
-                    command_id = len(self.history()) - 1
-                    new_command = self.command_by_id(command_id)
+                    new_command = last_command()
                 elif t0 == 'edit':
-                    if t1 is None:
-                        raise marcel.exception.KillCommandException('Missing command number')
-                    elif t1 in ('-s', '--startup'):
+                    if t1 in ('-s', '--startup'):
                         # Return None, which will leave the command as is. Normal command processing should then
                         # operate, editing the selected workspace's startup script.
                         pass
+                    elif len(tokens) > 2:
+                        raise marcel.exception.KillCommandException('Too many arguments after edit')
                     else:
-                        command = selected_command(t1)
+                        command = last_command() if t1 is None else selected_command(t1)
                         new_command = marcel.runeditor.edit_text(self._env, command)
         except marcel.exception.KillCommandException as e:
-            Reader.report_error(e.cause)
+            Reader.report_error(e)
+            new_command = ''
         return new_command
 
-
     # Set up key bindings:
     # - Enter terminates the text of a command.
     # - Alt-Enter terminates a line of text but continues the command.
@@ -145,7 +146,7 @@ class Reader(object):
         def _(event):
             buffer = event.current_buffer
             replacement = self.handle_edit_and_run(buffer.document.text)
-            if replacement:
+            if replacement is not None:
                 original = buffer.document.text
                 buffer.delete_before_cursor(len(original))
                 buffer.insert_text(replacement)
diff --git a/marcel/runeditor.py b/marcel/runeditor.py
index f095fb5..cff843a 100644
--- a/marcel/runeditor.py
+++ b/marcel/runeditor.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import os
+import shlex
 import subprocess
 import tempfile
 
@@ -31,7 +32,7 @@ def find_editor(env):
 
 def run_editor(env, file):
     editor = find_editor(env)
-    edit_command = f'{editor} {file}'
+    edit_command = f'{editor} {shlex.quote(str(file))}'
     process = subprocess.Popen(edit_command,
                                shell=True,
                                executable=marcel.util.bash_executable(),
@@ -40,15 +41,17 @@ def run_editor(env, file):
 
 
 def edit_text(env, text):
-    _, tmp_file = tempfile.mkstemp(text=True)
-    with open(tmp_file, 'w') as output:
-        output.write(text)
-    run_editor(env, tmp_file)
-    with open(tmp_file, 'r') as input:
-        command_lines = input.readlines()
-    edited = '\n'.join(command_lines)
-    os.remove(tmp_file)
-    return edited
+    fd, tmp_file = tempfile.mkstemp(text=True)
+    try:
+        with open(fd, 'w') as output:
+            output.write(text)
+        run_editor(env, tmp_file)
+        with open(tmp_file, 'r') as input:
+            edited = input.read()
+    finally:
+        os.remove(tmp_file)
+    # Editors put a newline at the end of a file
+    return edited.rstrip('\n')
 
 def edit_file(env, filename):
     run_editor(env, filename)
\ No newline at end of file
-- 
2.43.0


From 07d401a165d9ef2fd381fad5acb7d1f7b432a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 086/106] fix: startup scripts of one workspace are not run in
 another one opened later by the same process

---
 marcel/configscript.py | 3 +++
 marcel/env.py          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/configscript.py b/marcel/configscript.py
index ef381b0..f8d66b2 100644
--- a/marcel/configscript.py
+++ b/marcel/configscript.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import marcel.builtin
 import marcel.env
 import marcel.exception
 import marcel.locations
@@ -52,6 +53,8 @@ class ConfigScript(object):
         # Execute the config file. Imported and newly-defined symbols go into locals, which
         # will then be added to self.namespace, for use in the execution of op functions.
         locals = dict()
+        # Forget the scripts of another workspace, opened earlier by this process.
+        marcel.builtin.STARTUP_SCRIPTS.clear()
         try:
             exec(config_source, self.workspace.namespace, locals)
         except Exception as e:
diff --git a/marcel/env.py b/marcel/env.py
index 5a58624..bed3ccd 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -166,7 +166,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From 5f7e0a6c41f8d9f7f529a81d5e87fc0cd4900308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 087/106] fix: scripts: startup scripts of a workspace that is
 opened are run, and a blank line does not end a script read from stdin

---
 marcel/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 150ff2a..e7f9cf2 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -349,13 +349,11 @@ def main_script_run(script):
             workspace = e.workspace_to_open
             env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
             main = MainScript(env)
+            main.run_startup_scripts()
 
 
 def read_heredoc():
-    lines = []
-    while len(line := sys.stdin.readline().strip()) != 0:
-        lines.append(line)
-    return '\n'.join(lines)
+    return sys.stdin.read()
 
 def read_script(script_path):
     try:
@@ -363,6 +361,8 @@ def read_script(script_path):
             script = script_file.read()
     except FileNotFoundError:
         fail(f'File not found: {script_path}')
+    except (OSError, UnicodeDecodeError) as e:
+        fail(f'Unable to read {script_path}: {e}')
     return script
 
 
-- 
2.43.0


From 710c307b23ed3266099005818f1a23a5927741ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 088/106] fix: parse_args: an invalid integer, or flag, is
 reported as for other invalid arguments

---
 marcel/cliargs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/cliargs.py b/marcel/cliargs.py
index 4a6ebea..6d2c25d 100644
--- a/marcel/cliargs.py
+++ b/marcel/cliargs.py
@@ -78,7 +78,7 @@ class FlagArg(AnonArg):
             elif FlagArg.long(f1):
                 self.long = f1
             else:
-                assert False  # check_valid_flag calls should prevent us getting here
+                _report_error(f'Invalid flag: {f1}')
         else:
             if FlagArg.short(f1) and FlagArg.long(f2):
                 self.short = f1
@@ -94,7 +94,7 @@ class FlagArg(AnonArg):
         flag = (f'{self.short}|{self.long}' if self.short and self.long else
                 self.short if self.short else
                 self.long)
-        return f'{flag[flag.find("("):]}'
+        return flag
 
     def register_flags(self, all_flags):
         def register(flag):
@@ -223,7 +223,10 @@ class CommandLine(object):
                                 _report_error(f'Value missing for flag: {arg}')
                             a += 1
                             if arg.is_int():
-                                value = int(value)
+                                try:
+                                    value = int(value)
+                                except ValueError:
+                                    _report_error(f'Value of flag {token} is not an integer: {value}')
                             yield arg, value
                 else:
                     yield None, token
-- 
2.43.0


From c7811dfa8750137c90ac9260d6ee00fed47d33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:40 +0000
Subject: [PATCH 089/106] fix: sql: statements starting with a parenthesis or
 without a space after the verb, ARGs with input, and a failing commit

---
 marcel/op/sql.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 77dd5fd..9bccc51 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import re
+
 import marcel.argsparser
 import marcel.core
 import marcel.exception
@@ -148,6 +150,7 @@ class Sql(marcel.core.Op):
             assert False, dbvar
         if self.db is None:
             raise marcel.exception.KillCommandException('No database profile defined')
+        delegate_class = self.classify_statement()
         try:
             self.connection = self.db.connection()
         except Exception as e:
@@ -155,7 +158,7 @@ class Sql(marcel.core.Op):
                 f'Unable to connect to database {self.db.dbname} as {self.db.user}: {e}')
         if self.autocommit:
             self.connection.set_autocommit(True)
-        self.delegate = self.classify_statement()(self.connection, self)
+        self.delegate = delegate_class(self.connection, self)
 
     def run(self, env):
         self.receive(env, None)
@@ -172,8 +175,6 @@ class Sql(marcel.core.Op):
             self.delegate.flush()
             self.connection.commit()
         except Exception as e:
-            import marcel.util
-            marcel.util.print_stack_of_current_exception()
             self.connection.rollback()
             raise marcel.exception.KillCommandException(e)
         finally:
@@ -185,18 +186,18 @@ class Sql(marcel.core.Op):
     # For use by this class
 
     def classify_statement(self):
-        verb_start = 0
-        while self.statement[verb_start].isspace():
-            verb_start += 1
-        verb_end = verb_start
-        end = len(self.statement)
-        while verb_end < end and not self.statement[verb_end].isspace():
-            verb_end += 1
-        verb = self.statement[verb_start:verb_end].lower()
+        # The statement may start with parentheses, or have no whitespace following the verb, e.g. select(1)
+        verb = re.match(r'[\s(]*(\w*)', self.statement).group(1).lower()
+        if verb == '':
+            raise marcel.exception.KillCommandException(f'Not a SQL statement: {self.statement}')
         return (SqlSelect if verb == 'select' else
                 SqlInsert if verb == 'insert' else
                 SqlOther)
 
+    # ARGs, if there are any, are bound to the statement's parameters. Otherwise the input is.
+    def statement_args(self, x):
+        return self.args if x is None or self.args else x
+
 
 class SqlStatement:
 
@@ -214,7 +215,7 @@ class SqlStatement:
     def commit_if_necessary(self, update_count):
         op = self.op
         if not op.autocommit and op.commit > 0:
-            op.total_update_count += update_count
+            op.total_update_count += max(update_count, 0)  # -1 if there is no update count, e.g. for create table
             if op.total_update_count >= op.commit:
                 op.connection.commit()
                 op.total_update_count = 0
@@ -227,7 +228,7 @@ class SqlSelect(SqlStatement):
 
     def receive(self, env, x):
         op = self.op
-        args = op.args if x is None else x
+        args = op.statement_args(x)
         for row in self.connection.query(op.statement, args):
             op.send(env, row)
 
@@ -239,7 +240,7 @@ class SqlInsert(SqlStatement):
 
     def receive(self, env, x):
         op = self.op
-        args = op.args if x is None else x
+        args = op.statement_args(x)
         update_count = self.connection.insert(op.statement, args)
         self.commit_if_necessary(update_count)
         if op.update_counts:
@@ -253,7 +254,7 @@ class SqlOther(SqlStatement):
 
     def receive(self, env, x):
         op = self.op
-        args = op.args if x is None else x
+        args = op.statement_args(x)
         update_count = self.connection.execute(op.statement, args)
         self.commit_if_necessary(update_count)
         if op.update_counts:
-- 
2.43.0


From fe4ed0649647a753f70f83b62685000fffe97900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 090/106] fix: variables depending on variables that are
 restored later

---
 marcel/nestednamespace.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 9593fb8..917cc6d 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -18,6 +18,7 @@ import inspect
 
 import marcel.core
 import marcel.env
+import marcel.exception
 import marcel.parser
 import marcel.pipeline
 import marcel.util
@@ -467,18 +468,26 @@ class NestedNamespace(dict):
     def from_persistent_state(self, env, persisted):
         assert len(self.scopes) == 1, len(self.scopes)
         scope = self.scopes[0]
-        for var, persisted_value in persisted.items():
-            classname, persisted_state = persisted_value
-            try:
-                value = EnvValue.restore(env, classname, persisted_state)
-                unwrapped = value.unwrap()
-            except Exception as e:
-                # E.g. the variable's expression refers to a variable that has been deleted, or to a module that is
+        while len(persisted) > 0:
+            failed = {}
+            for var, persisted_value in persisted.items():
+                classname, persisted_state = persisted_value
+                try:
+                    value = EnvValue.restore(env, classname, persisted_state)
+                    unwrapped = value.unwrap()
+                except (Exception, marcel.exception.KillCommandException) as e:
+                    failed[var] = e
+                    continue
+                scope.__setitem__(var, value)
+                super().__setitem__(var, unwrapped)
+            if len(failed) == len(persisted):
+                # E.g. a variable's expression refers to a variable that has been deleted, or to a module that is
                 # not available.
-                marcel.util.print_to_stderr(env, f'Unable to restore variable {var}: {e}')
-                continue
-            scope.__setitem__(var, value)
-            super().__setitem__(var, unwrapped)
+                for var, e in failed.items():
+                    marcel.util.print_to_stderr(env, f'Unable to restore variable {var}: {e}')
+                break
+            # What failed may depend on variables restored later.
+            persisted = {var: persisted[var] for var in failed}
 
     # TODO: With set_env, is reconstitute needed? That's just an eager form of reconstitution.
     # TODO: Having the env available in all the EnvValues is a lazy form.
-- 
2.43.0


From 437fa1e63edc486285fdb975db105615223a2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 091/106] fix: API and farcel for a user who has never run
 marcel

---
 bin/farcel.py | 3 +++
 marcel/api.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bin/farcel.py b/bin/farcel.py
index b42437e..d43ac2d 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -30,6 +30,7 @@ import marcel.exception
 import marcel.object.error
 import marcel.object.workspace
 import marcel.opmodule
+import marcel.persistence.storagelayout
 import marcel.pipeline
 import marcel.nestednamespace
 import marcel.util
@@ -158,6 +159,8 @@ def main():
         # pipeline from client
         pipeline = input.load()
         assert type(pipeline) is marcel.pipeline.PipelineExecutable
+        # Marcel may never have been run by this user
+        marcel.persistence.storagelayout.ensure_current()
         env = marcel.env.Environment.create(usage=marcel_usage,
                                             globals=dict() if marcel_usage == 'api' else None)
         version = env.getvar('MARCEL_VERSION')
diff --git a/marcel/api.py b/marcel/api.py
index 9dc288b..01706e8 100644
--- a/marcel/api.py
+++ b/marcel/api.py
@@ -22,6 +22,7 @@ import marcel.exception as _exception
 import marcel.main as _main
 import marcel.object.error as _error
 import marcel.opmodule
+import marcel.persistence.storagelayout as _storagelayout
 import marcel.pipeline as _pipeline
 import marcel.reservoir as _reservoir
 import marcel.structish
@@ -85,6 +86,8 @@ class _Initialization(object):
         if not self.initialized:
             # Environment and Main
             global _ENV, _MAIN
+            # Marcel may never have been run by this user
+            _storagelayout.ensure_current()
             _ENV = _env_.Environment.create(globals=globals(), usage='api')
             _MAIN = _main.MainAPI(_ENV)
             _ENV.enforce_var_immutability()
-- 
2.43.0


From 94398df93ae09c5135dde5f3ca94c4eabc20c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 092/106] fix: remote, sudo, upload, download: repeated
 execution, quoting, ports, equality of hosts

---
 marcel/object/cluster.py | 17 +++++++++++------
 marcel/op/download.py    | 14 +++++++++++---
 marcel/op/remote.py      |  6 +++---
 marcel/op/sudo.py        | 17 +++++++++++++----
 marcel/op/upload.py      |  9 +++++++--
 5 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/marcel/object/cluster.py b/marcel/object/cluster.py
index 31ac70e..2384e17 100644
--- a/marcel/object/cluster.py
+++ b/marcel/object/cluster.py
@@ -28,16 +28,18 @@ class Host(object):
         self._addr = None
         self._name = None
         self._port = None
+        if type(host) in (tuple, list) and len(host) == 2:
+            self._host, self._port = host
 
     def __repr__(self):
         self.ensure_initialized()
         return self._name if self._port is None else f'{self._name}:{self._port}'
 
     def __hash__(self):
-        return hash(self._host)
+        return hash((self._host, self._port))
 
     def __eq__(self, other):
-        return self._host == other._host
+        return type(other) is Host and self._host == other._host and self._port == other._port
 
     @property
     def host(self):
@@ -57,13 +59,16 @@ class Host(object):
     def port(self):
         self.ensure_initialized()
         return self._port
-    
+
+    # A path on this host, as an argument of scp. An ipv6 address is distinguished from the path by brackets.
+    def scp_path(self, path):
+        addr = f'[{self.addr}]' if ':' in self.addr else self.addr
+        return f'{self.cluster.user}@{addr}:{path}'
+
     # Internal
     
     def ensure_initialized(self):
         if self._addr is None:
-            if type(self._host) in (tuple, list) and len(self._host) == 2:
-                self._host, self._port = self._host
             if not isinstance(self._host, str):
                 raise marcel.exception.KillShellException(
                     f'Invalid host specification: {self._host}. Specify a string or 2-tuple')
@@ -102,7 +107,7 @@ class Cluster(object):
         if host is not None and type(host) in (tuple, list):
             # host=('localhost', 22) is clearly a single host with a port specified, and not a pair of hosts.
             # Allow a (str, int) tuple to be interpreted as a single host.
-            if not (isinstance(host[0], str) and type(host[1] is int)):
+            if not (len(host) == 2 and isinstance(host[0], str) and type(host[1]) is int):
                 raise marcel.exception.KillShellException(
                     'host specification must be single-valued. Did you mean hosts?')
         if hosts is not None and type(hosts) not in (tuple, list):
diff --git a/marcel/op/download.py b/marcel/op/download.py
index cb4cf26..30dc410 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -93,6 +93,7 @@ class Download(marcel.core.Op):
         self.filenames = self.eval_function(env,
                                             'filenames_arg',
                                             str, pathlib.Path, pathlib.PosixPath, File)
+        self.filenames = [str(filename) for filename in self.filenames]
         if len(self.filenames) == 0:
             raise marcel.exception.KillCommandException('No remote files specified')
         for filename in self.filenames:
@@ -107,20 +108,27 @@ class Download(marcel.core.Op):
         self.fork_manager.setup(env, fork_customizer=self.fork_customizer)
         self.ensure_node_directories_exist()
 
+    # Op
+
     def run(self, env):
         self.fork_manager.run(env)
 
+    def must_be_first_in_pipeline(self):
+        return True
+
     @staticmethod
     def scp_command(sources, host, dest):
         cluster = host.cluster
         buffer = []
         buffer.append('scp -Cpqr')
         if cluster.identity:
-            buffer.extend(['-i', cluster.identity])
+            buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
+        if host.port is not None:
+            buffer.extend(['-P', str(host.port)])
         for source in sources:
-            buffer.append(f'{cluster.user}@{host.addr}:{marcel.util.quote_files(source)}')
+            buffer.append(marcel.util.quote_files(host.scp_path(source)))
         node_dir = dest / host.name
-        buffer.append(node_dir.as_posix())
+        buffer.append(marcel.util.quote_files(node_dir))
         scp_command = ' '.join(buffer)
         return scp_command
 
diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 1b69a8a..de57e6b 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -174,10 +174,11 @@ class Remote(marcel.core.Op):
             buffer = []
             buffer.append('ssh')
             if cluster.identity:
-                buffer.extend(['-i', cluster.identity])
+                buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
             if self.host.port is not None:
                 buffer.extend(['-p', str(self.host.port)])
-            buffer.extend([f'{cluster.user}@{self.host.addr}', env.platform.remote_farcel_invocation()])
+            buffer.extend([marcel.util.quote_files(f'{cluster.user}@{self.host.addr}'),
+                           env.platform.remote_farcel_invocation()])
             return ' '.join(buffer)
 
         # Op
@@ -221,7 +222,6 @@ class Remote(marcel.core.Op):
         assert isinstance(remote_pipeline, marcel.pipeline.Pipeline)
         remote = Remote.RunRemote(host, remote_pipeline)
         label_thread = Remote.LabelThread(host)
-        label_thread.receiver = self.receiver
         pipeline = marcel.pipeline.Pipeline.create_empty_pipeline(env)
         # TODO: parameters() exits only on PipelineMarcel currently
         pipeline.params = remote_pipeline.parameters()
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 8d79a73..7100ac3 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -22,6 +22,7 @@ import dill
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.object.error
 import marcel.pipeline
 import marcel.util
 
@@ -62,6 +63,8 @@ class SudoArgsParser(marcel.argsparser.ArgsParser):
         self.validate()
 
     def check_str_and_pipeline(self, arg, x):
+        if isinstance(x, str):
+            x = marcel.util.string_value(x)
         # This isn't really accurate. The last arg must be a pipelines. The preceding ones must be str.
         if not marcel.util.one_of(x, (str, marcel.pipeline.Pipeline, marcel.pipeline.OpList)):
             raise marcel.argsparser.ArgsError(self.op_name,
@@ -74,6 +77,8 @@ class Sudo(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.args = None
+        self.flags = None
+        self.pipeline = None
 
     def __repr__(self):
         return f'sudo({self.pipeline})'
@@ -83,9 +88,9 @@ class Sudo(marcel.core.Op):
     def setup(self, env):
         if len(self.args) == 0:
             raise marcel.exception.KillCommandException('Missing pipeline')
-        pipeline_arg = self.args.pop()
+        # self.args is shared by copies of this op, so it must not be modified.
+        *self.flags, pipeline_arg = self.args
         self.pipeline = marcel.pipeline.convert_to_pipeline(env, pipeline_arg)
-        assert isinstance(self.pipeline, marcel.pipeline.Pipeline)
         if self.pipeline is None:
             raise marcel.exception.KillCommandException('Missing pipeline')
 
@@ -93,7 +98,7 @@ class Sudo(marcel.core.Op):
 
     def run(self, env):
         # Start the remote process
-        command = ' '.join(['sudo'] + self.args + ['farcel.py'])
+        command = ' '.join(['sudo'] + [marcel.util.quote_files(flag) for flag in self.flags] + ['farcel.py'])
         self.process = subprocess.Popen(command,
                                         stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE,
@@ -122,7 +127,11 @@ class Sudo(marcel.core.Op):
         input = dill.Unpickler(io.BytesIO(stdout))
         try:
             while True:
-                self.send(env, input.load())
+                x = input.load()
+                if isinstance(x, marcel.object.error.Error):
+                    self.send_error(env, x)
+                else:
+                    self.send(env, x)
         except EOFError:
             self.propagate_flush(env)
 
diff --git a/marcel/op/upload.py b/marcel/op/upload.py
index bfd24a2..5ea7d0a 100644
--- a/marcel/op/upload.py
+++ b/marcel/op/upload.py
@@ -103,9 +103,14 @@ class Upload(marcel.core.Op):
                                                               max_pipeline_args=0)
         self.fork_manager.setup(env, self.fork_customizer)
 
+    # Op
+
     def run(self, env):
         self.fork_manager.run(env)
 
+    def must_be_first_in_pipeline(self):
+        return True
+
     @staticmethod
     def scp_command(host, sources, dest):
         sources = marcel.util.quote_files(*sources)
@@ -113,10 +118,10 @@ class Upload(marcel.core.Op):
         buffer = []
         buffer.append('scp -Cpqr')
         if cluster.identity:
-            buffer.extend(['-i', cluster.identity])
+            buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
         if host.port is not None:
             buffer.extend(['-P', str(host.port)])
-        buffer.extend([sources, f'{cluster.user}@{host.addr}:{dest}'])
+        buffer.extend([sources, marcel.util.quote_files(host.scp_path(dest))])
         scp_command = ' '.join(buffer)
         return scp_command
 
-- 
2.43.0


From aac6f0b5fcb1ccb9067774e339142c9dc8363f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:11 +0000
Subject: [PATCH 093/106] fix: a damaged default workspace caused all
 workspaces to be set aside

---
 marcel/main.py                    | 6 +++++-
 marcel/object/workspace.py        | 3 +++
 marcel/persistence/persistence.py | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index e7f9cf2..742cc91 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -149,9 +149,13 @@ class MainScript(Main):
             for validation_error in errors:
                 marcel.util.print_to_stderr(self.env, str(validation_error))
                 ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
+                # The default workspace has an empty name
+                broken_ws = Workspace.default() if ws_name == '' else Workspace(ws_name)
                 started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
                 broken_ws.mark_broken(now)
+            # There must be a default workspace
+            if any(validation_error.workspace_name == '' for validation_error in errors):
+                Workspace.default().create_on_disk(marcel.persistence.storagelayout.default_initial_config())
             if started_in_broken_ws:
                 # This marks this MainScript object as needing a restart. Don't want to continue with a broken
                 # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b2265f5..2e4d24d 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -697,6 +697,9 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
 
     def validate(self):
         def delete_abandoned(dir, suffix):
+            if not dir.is_dir():
+                # Reported below
+                return
             for file in dir.iterdir():
                 if file.name.endswith(suffix):
                     dot = file.name.find('.')
diff --git a/marcel/persistence/persistence.py b/marcel/persistence/persistence.py
index a730476..321c723 100644
--- a/marcel/persistence/persistence.py
+++ b/marcel/persistence/persistence.py
@@ -57,11 +57,11 @@ def validate_all(error_handler):
     data_workspace_names = set([f.name for f in locations.data_ws().iterdir()])
     broken_workspace_names = set()
     for missing_data_dir in (config_workspace_names - data_workspace_names):
-        broken = Workspace(missing_data_dir)
+        broken = workspace_named(missing_data_dir)
         broken_workspace_names.add(broken.name)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.data_ws(broken)} is missing'))
     for missing_config_dir in (data_workspace_names - config_workspace_names):
-        broken = Workspace(missing_config_dir)
+        broken = workspace_named(missing_config_dir)
         broken_workspace_names.add(broken.name)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.config_ws(broken)} is missing'))
     # Validate each workspace. Don't rely on Workspace.list(), which assumes valid workspaces.
-- 
2.43.0


From a63b34b532c264e373bdf32d09a13246dd672b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:11 +0000
Subject: [PATCH 094/106] fix: histories were deleted if that of the default
 workspace was empty; interrupted installation or upgrade

---
 marcel/locations.py                 |   3 +-
 marcel/persistence/storagelayout.py | 214 ++++++++++++----------------
 2 files changed, 97 insertions(+), 120 deletions(-)

diff --git a/marcel/locations.py b/marcel/locations.py
index e765814..b8ec00c 100644
--- a/marcel/locations.py
+++ b/marcel/locations.py
@@ -153,7 +153,8 @@ class Locations(object):
             if not dir.is_dir():
                 raise marcel.exception.KillShellException(f'Not a directory: {dir}')
         else:
-            dir.mkdir(exist_ok=False, parents=True)
+            # Another process may be doing the same
+            dir.mkdir(exist_ok=True, parents=True)
         return dir
 
     @staticmethod
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..a13aa04 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -13,7 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 import datetime
-import pathlib
+import re
 import shutil
 
 import marcel.exception
@@ -25,6 +25,10 @@ import marcel.version
 from marcel.object.workspace import Workspace
 
 
+# First line of an item of a prompt_toolkit history. (There is no fraction if it is zero.)
+HISTORY_TIMESTAMP = re.compile(rb'# \d+-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?\s*$')
+
+
 def default_initial_config():
     return marcel.persistence.defaultinitialconfig.CONFIG
 
@@ -46,11 +50,13 @@ def storage_layout():
 
 def ensure_current(testing=False, initial_config=None):
     def write_version(version_id):
+        # Replaced, so that other processes never see a VERSION file that has been partially written.
         version_file_path = locations.config_version()
-        version_file_path.touch(exist_ok=True)
-        version_file_path.chmod(0o600)
-        version_file_path.write_text(f'{version_id}', newline='\n')
-        version_file_path.chmod(0o400)
+        new_version_file_path = version_file_path.with_name(f'{version_file_path.name}.{locations.pid}')
+        new_version_file_path.unlink(missing_ok=True)
+        new_version_file_path.write_text(f'{version_id}', newline='\n')
+        new_version_file_path.chmod(0o400)
+        new_version_file_path.replace(version_file_path)
 
     def installed_version():
         version_file_path = locations.config_version()
@@ -61,6 +67,12 @@ def ensure_current(testing=False, initial_config=None):
             installed_version = '0.0.0'
         return installed_version
 
+    def version_key(version_id):
+        try:
+            return tuple(int(x) for x in version_id.split('.'))
+        except ValueError:
+            return ()
+
     def initialize_persistent_config_and_data(initial_config):
         # These calls ensure the config and data directories exist.
         locations.config()
@@ -71,25 +83,32 @@ def ensure_current(testing=False, initial_config=None):
         locations.data_bws()
         # Version
         write_version(marcel.version.VERSION)
-        # Default workspace
+        # Default workspace. If creation has been interrupted, don't overwrite what exists.
+        startup = locations.config_ws_startup(Workspace.default())
+        if startup.exists() and startup.stat().st_size > 0:
+            initial_config = startup.read_text()
         Workspace.default().create_on_disk(initial_config)
 
     locations = marcel.locations.Locations()
     layout = storage_layout()
-    if layout is None:
+    if layout is not None and not testing:
+        while layout is not None:
+            before = layout.layout()
+            layout = layout.migrate()
+            after = layout.layout() if layout else None
+            if before == after:
+                raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
+        layout = storage_layout()
+    # Creating the default workspace ends with creation of the history.
+    default = Workspace.default()
+    if (layout is None or
+            not locations.config_ws_startup(default).exists() or
+            not locations.data_ws_hist(default).exists()):
         if initial_config is None:
             initial_config = default_initial_config()
         initialize_persistent_config_and_data(initial_config)
-    else:
-        if not testing:
-            while layout is not None:
-                before = layout.layout()
-                layout = layout.migrate()
-                after = layout.layout() if layout else None
-                if before == after:
-                    raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
     # Write version file
-    if installed_version() < marcel.version.VERSION:
+    if version_key(installed_version()) < version_key(marcel.version.VERSION):
         write_version(marcel.version.VERSION)
 
 
@@ -113,23 +132,26 @@ class StorageLayout(object):
     def migrate(self):
         assert False
 
-    def should_exist(self, path, info):
-        if not path.exists():
-            raise marcel.exception.KillShellException(
-                f'Migration({type(self)}) error: {path} should exist: {info}')
+    @staticmethod
+    def subdirs(dir):
+        return [path for path in dir.iterdir() if path.is_dir()] if dir.is_dir() else []
 
-    def should_not_exist(self, path, info):
-        if path.exists():
-            raise marcel.exception.KillShellException(
-                f'Migration({type(self)}) error: {path} should not exist: {info}')
+    # Migration may have been interrupted, in which case part of it is repeated. So a missing source has been moved
+    # already, or has never existed.
+    @staticmethod
+    def move(source, target):
+        if source.exists():
+            shutil.move(source, target)
 
+    # Is the history in a format preceding that of prompt_toolkit? (See StorageLayoutPromptToolkit.)
     @staticmethod
-    def subdirs(dir):
-        workspace_dirs = []
-        for path in dir.iterdir():
-            if path.is_dir():
-                workspace_dirs.append(path)
-        return workspace_dirs
+    def old_history(history_file):
+        if not history_file.exists():
+            return False
+        with open(history_file, 'rb') as f:
+            line1 = f.readline()
+            line2 = f.readline()
+        return len(line1) > 0 and not (len(line1.strip()) == 0 and HISTORY_TIMESTAMP.match(line2))
 
 
 # Version < 0.13.6
@@ -144,16 +166,13 @@ class StorageLayoutOriginal(StorageLayout):
     def migrate(self):
         self.config.mkdir(parents=True, exist_ok=True)
         self.data.mkdir(parents=True, exist_ok=True)
-        shutil.move(self.home / '.marcel.py', self.config / 'startup.py')
-        shutil.move(self.home / '.marcel_history', self.data / 'history')
-        layout = storage_layout()
-        assert layout
-        assert layout.layout() == 'xdg'
-        return layout
+        StorageLayout.move(self.home / '.marcel_history', self.data / 'history')
+        # Has to be last, see match
+        StorageLayout.move(self.home / '.marcel.py', self.config / 'startup.py')
+        return storage_layout()
 
     def match(self):
-        match = ((self.home / '.marcel.py').exists() and (self.home / '.marcel_history').exists())
-        return match
+        return (self.home / '.marcel.py').exists()
 
 
 # Version >= ~0.13.6. First use of XDG conventions.
@@ -163,16 +182,13 @@ class StorageLayoutXDG(StorageLayout):
         return 'xdg'
 
     def migrate(self):
+        (self.data / 'reservoirs').mkdir(parents=True, exist_ok=True)
+        # Has to be last, see StorageLayoutWS1.match
         (self.config / '.WORKSPACE').touch(mode=0o000)
-        (self.data / 'reservoirs').mkdir(exist_ok=True)
-        layout = storage_layout()
-        assert layout
-        assert layout.layout() == 'ws1'
-        return layout
+        return storage_layout()
 
     def match(self):
-        return (self.config.exists() and
-                self.data.exists())
+        return (self.config / 'startup.py').exists()
 
 
 # Version >= 0.20.0. First workspace layout.
@@ -186,19 +202,15 @@ class StorageLayoutWS1(StorageLayout):
             new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
             for filename in filenames:
-                shutil.move(base_dir / filename, new_default_workspace_dir)
+                StorageLayout.move(base_dir / filename, new_default_workspace_dir / filename)
 
-        # Move default workspace files to __DEFAULT_WORKSPACE__ directory
-        fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
+        # Move default workspace files to __DEFAULT_WORKSPACE__ directory. .WORKSPACE has to be last, see match.
         fix_default_workspace(self.data, 'history', 'reservoirs')
-        layout = storage_layout()
-        assert layout
-        assert layout.layout() == 'ws2'
-        return layout
+        fix_default_workspace(self.config, 'startup.py', '.WORKSPACE')
+        return storage_layout()
 
     def match(self):
-        return (self.config.exists() and
-                (self.config / '.WORKSPACE').exists())
+        return (self.config / '.WORKSPACE').exists()
 
 
 # Version >= 0.24.0. Default workspace in its own directory.
@@ -208,41 +220,30 @@ class StorageLayoutWS2(StorageLayout):
         return 'ws2'
 
     def migrate(self):
-        def move_workspace_dirs(workspace_dirs, new_workspace_base):
-            for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
-                    moved_dir = shutil.move(workspace_dir, new_workspace_base)
-                    if moved_dir:
-                        self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
-                    else:
-                        raise marcel.exception.KillShellException(
-                            f'Attempt to move workspace dir {workspace_dir} failed.')
-                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
-
         def fix_dirs(base_dir):
             new_workspace_dir = base_dir / 'workspace'
             new_workspace_dir.mkdir(parents=True, exist_ok=True)
-            # Move workspace directories
-            old_workspace_dirs = StorageLayout.subdirs(base_dir)
-            move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
-            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
-            new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-            old_default_workspace_dir.rename(new_default_workspace_dir)
             # Create dir for broken workspaces
             new_broken_dir = base_dir / 'broken'
-            new_broken_dir.mkdir(parents=False, exist_ok=False)
+            new_broken_dir.mkdir(parents=False, exist_ok=True)
+            # Move workspace directories
+            for workspace_dir in StorageLayout.subdirs(base_dir):
+                if workspace_dir.name not in ('workspace', 'broken', '__DEFAULT_WORKSPACE__'):
+                    StorageLayout.move(workspace_dir, new_workspace_dir / workspace_dir.name)
+            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
+            StorageLayout.move(base_dir / '__DEFAULT_WORKSPACE__', new_workspace_dir / '__DEFAULT__')
 
-        fix_dirs(self.config)
+        # Moving the configuration of the default workspace has to be last, see match.
         fix_dirs(self.data)
-        layout = storage_layout()
-        assert layout
-        assert layout.layout() == 'ws3'
-        return layout
+        for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
+            (workspace_dir / 'reservoirs').mkdir(exist_ok=True)
+            (workspace_dir / 'history').touch(mode=0o600, exist_ok=True)
+        fix_dirs(self.config)
+        return storage_layout()
 
     def match(self):
-        return (self.config.exists() and
-                (self.config / '__DEFAULT_WORKSPACE__').exists())
+        return ((self.config / '__DEFAULT_WORKSPACE__').exists() and
+                not (self.config / '.WORKSPACE').exists())
 
 
 # Version >= 0.28.0. Separate broken and valid workspaces.
@@ -253,25 +254,20 @@ class StorageLayoutWS3(StorageLayout):
 
     def migrate(self):
         # Just trash old histories.
-        layout = None
         for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
             history_file = workspace_dir / 'history'
-            history_file.unlink()
-            # Write something that looks like a prompt_toolkit history file
-            with open(history_file, 'w') as f:
-                f.write('\n')
-                f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
-                f.write('+("History from before marcel version 0.32.0 has been deleted, '
-                        'due to a change in history file format.")\n')
-        layout = storage_layout()
-        assert layout
-        assert layout.layout() == 'pt'
-        return layout
+            if StorageLayout.old_history(history_file):
+                # Write something that looks like a prompt_toolkit history file
+                with open(history_file, 'w') as f:
+                    f.write('\n')
+                    f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
+                    f.write('+("History from before marcel version 0.32.0 has been deleted, '
+                            'due to a change in history file format.")\n')
+        return storage_layout()
 
     def match(self):
-        return (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists())
+        return (self.config / 'workspace' / '__DEFAULT__').exists()
+
 
 # Version >= 0.32.0. Switch from readline history format to that of prompt_toolkit.
 class StorageLayoutPromptToolkit(StorageLayout):
@@ -283,29 +279,9 @@ class StorageLayoutPromptToolkit(StorageLayout):
         return None
 
     def match(self):
-        # Same layout as ws3, but the top of this history file looks like this:
+        # Same layout as ws3, but histories are empty, or start with a blank line followed by a line like this:
         #
         #     # 2025-04-02 16:54:22.895547
-        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
-        #    positions:                      0  3  6  9  12 15 18 21
-        # where . is any character
-
-        if not (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists()):
-            return False
-        history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
-        if history_file.exists():
-            with open(history_file) as f:
-                l1 = f.readline().strip()
-                l2 = f.readline().strip()
-                if (len(l1) == 0 and len(l2) > 0 and
-                    l2[:3] == '# 2' and
-                    l2[6] == '-' and
-                    l2[9] == '-' and
-                    l2[12] == ' ' and
-                    l2[15] == ':' and
-                    l2[18] == ':' and
-                    l2[21] == '.'):
-                    return True
-        return False
\ No newline at end of file
+        return ((self.config / 'workspace' / '__DEFAULT__').exists() and
+                not any(StorageLayout.old_history(workspace_dir / 'history')
+                        for workspace_dir in StorageLayout.subdirs(self.data / 'workspace')))
-- 
2.43.0


From dc090a5026207f2344f94bc67695f9ef647a92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:33 +0000
Subject: [PATCH 095/106] fix: comparing a File or Process with something else
 raised AttributeError

---
 marcel/object/file.py          | 12 ++++++------
 marcel/object/historyrecord.py | 12 ++++++------
 marcel/object/process.py       | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 5b7a030..65c3b0e 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -117,22 +117,22 @@ class File(marcel.object.renderable.Renderable):
         return self.path.__hash__()
 
     def __eq__(self, other):
-        return self.path == other.path
+        return self.path == other.path if type(other) is File else NotImplemented
 
     def __ne__(self, other):
-        return self.path != other.path
+        return self.path != other.path if type(other) is File else NotImplemented
 
     def __lt__(self, other):
-        return self.path < other.path
+        return self.path < other.path if type(other) is File else NotImplemented
 
     def __le__(self, other):
-        return self.path <= other.path
+        return self.path <= other.path if type(other) is File else NotImplemented
 
     def __gt__(self, other):
-        return self.path > other.path
+        return self.path > other.path if type(other) is File else NotImplemented
 
     def __ge__(self, other):
-        return self.path >= other.path
+        return self.path >= other.path if type(other) is File else NotImplemented
 
     # Renderable
 
diff --git a/marcel/object/historyrecord.py b/marcel/object/historyrecord.py
index 00c870d..69f8d76 100644
--- a/marcel/object/historyrecord.py
+++ b/marcel/object/historyrecord.py
@@ -24,22 +24,22 @@ class HistoryRecord(marcel.object.renderable.Renderable):
         self.command = command
         
     def __eq__(self, other):
-        return self.id == other.id
+        return self.id == other.id if type(other) is HistoryRecord else NotImplemented
     
     def __ne__(self, other):
-        return self.id != other.id
+        return self.id != other.id if type(other) is HistoryRecord else NotImplemented
     
     def __lt__(self, other):
-        return self.id < other.id
+        return self.id < other.id if type(other) is HistoryRecord else NotImplemented
     
     def __le__(self, other):
-        return self.id <= other.id
+        return self.id <= other.id if type(other) is HistoryRecord else NotImplemented
     
     def __gt__(self, other):
-        return self.id > other.id
+        return self.id > other.id if type(other) is HistoryRecord else NotImplemented
     
     def __ge__(self, other):
-        return self.id >= other.id
+        return self.id >= other.id if type(other) is HistoryRecord else NotImplemented
     
     # Renderable
     
diff --git a/marcel/object/process.py b/marcel/object/process.py
index 42c0bd0..52f3827 100644
--- a/marcel/object/process.py
+++ b/marcel/object/process.py
@@ -36,22 +36,22 @@ class Process(marcel.object.renderable.Renderable):
         return self.pid
 
     def __eq__(self, other):
-        return self.pid == other.pid
+        return self.pid == other.pid if type(other) is Process else NotImplemented
 
     def __ne__(self, other):
-        return self.pid != other.pid
+        return self.pid != other.pid if type(other) is Process else NotImplemented
 
     def __lt__(self, other):
-        return self.pid < other.pid
+        return self.pid < other.pid if type(other) is Process else NotImplemented
 
     def __le__(self, other):
-        return self.pid <= other.pid
+        return self.pid <= other.pid if type(other) is Process else NotImplemented
 
     def __gt__(self, other):
-        return self.pid > other.pid
+        return self.pid > other.pid if type(other) is Process else NotImplemented
 
     def __ge__(self, other):
-        return self.pid >= other.pid
+        return self.pid >= other.pid if type(other) is Process else NotImplemented
 
     # Process
 
-- 
2.43.0


From 74455c631dfac4d5b5fd35662579f56eccd65c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 096/106] fix: ls displayed the name of a broken link, socket
 or pipe as '.'

---
 marcel/op/filenamesop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 263d83c..e431214 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -155,7 +155,7 @@ class  FilenamesOp(marcel.core.Op):
                     i += 1
                 nca = i
         self.base = pathlib.Path('/' + '/'.join(nca_parts[1:nca]))
-        if self.base.is_file():
+        if not self.base.is_dir():
             self.base = self.base.parent
 
     def dir_already_visited(self, path):
-- 
2.43.0


From b6b0dd97b7c81e1b9d3e937aba246c0bc381e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:39 +0000
Subject: [PATCH 097/106] fix: a link was displayed as broken depending on the
 current directory

---
 marcel/object/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 65c3b0e..7d70cae 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -262,7 +262,7 @@ class File(marcel.object.renderable.Renderable):
                 if self._is_symlink():
                     highlight = (
                         color_scheme.file_link
-                        if self.path.readlink().exists() else
+                        if self.path.exists() else
                         color_scheme.file_link_broken)
                 else:
                     highlight = (
-- 
2.43.0


From b0412cda850e52dd6f66dbc11101a96ffd69db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:52 +0000
Subject: [PATCH 098/106] fix: PROMPT_DIR of a directory whose name starts with
 that of the home directory, or outside the workspace

---
 marcel/env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index bed3ccd..cd02087 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -298,7 +298,7 @@ class EnvironmentInteractive(Environment):
             dir = self.getvar('PWD')
             home = self.getvar('HOME')
             if self.workspace.is_default():
-                return '~' + dir[len(home):] if dir.startswith(home) else dir
+                return '~' + dir[len(home):] if dir == home or dir.startswith(home + '/') else dir
             else:
                 try:
                     workspace_home = self.workspace.home()
@@ -313,7 +313,7 @@ class EnvironmentInteractive(Environment):
                     return prompt_dir
                 except ValueError:
                     # dir is not under home
-                    return dir
+                    return dir.as_posix()
 
         # Set PROMPT_DIR in case PROMPT uses it.
         self.setvar('PROMPT_DIR', prompt_dir())
-- 
2.43.0


From bcbfdb9ef5894f1d4931c580ead5d2c99d0706ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:52 +0000
Subject: [PATCH 099/106] fix: prompt functions returning colors; an invalid
 prompt component terminated the shell

---
 marcel/env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index cd02087..b2c1a0a 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -337,8 +337,11 @@ class EnvironmentInteractive(Environment):
                     # dict for the update.
                     # x.__globals__.update(dict(self.workspace.namespace))
                     x = x()
+                    if isinstance(x, marcel.object.color.Color):
+                        color = x
+                        x = None
                 else:
-                    raise marcel.exception.KillShellException(f'Invalid prompt component: {x}')
+                    raise TypeError(f'Invalid prompt component: {x}')
                 if x:
                     x = str(x)
                     buffer.append(marcel.util.colorize(x, color) if color else x)
-- 
2.43.0


From 19702408e998e86de595fa59fc190a9059e867ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:12 +0000
Subject: [PATCH 100/106] fix: help for an internal operator, e.g. help gather,
 displayed None

---
 marcel/op/help.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/help.py b/marcel/op/help.py
index 8ba8e14..7f74cbf 100644
--- a/marcel/op/help.py
+++ b/marcel/op/help.py
@@ -64,7 +64,7 @@ class Help(marcel.core.Op):
 
     def run(self, env):
         op_module = env.op_modules.get(self.topic, None)
-        help_text = Help.op_help(env, op_module) if op_module else self.topic_help(env)
+        help_text = Help.op_help(env, op_module) if op_module and op_module.help() else self.topic_help(env)
         self.send(env, help_text)
         self.send(env, '')
 
-- 
2.43.0


From 9001323213cca5cd3847b0690d75fe2af6b3d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 101/106] fix: pickling an environment, e.g. by fork, turned
 tracing off

---
 marcel/env.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index b2c1a0a..b420ec8 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -369,8 +369,9 @@ class Trace(object):
         self.description = None
 
     def __getstate__(self):
-        self.tracefile = None
-        return self.__dict__
+        state = self.__dict__.copy()
+        state['tracefile'] = None
+        return state
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From 628bc6493a093fe2e8eb46391ba003e1deedfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:04 +0000
Subject: [PATCH 102/106] fix: trace did not describe tracing to a file

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index b420ec8..38f8398 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -415,5 +415,5 @@ class Trace(object):
     def print_status(self):
         if self.tracefile is None:
             print('tracing is off')
-        elif self.tracefile is sys.stdout:
+        else:
             print(f'tracing to {self.description}')
-- 
2.43.0


From 76bb2e4f679d1ce614109cab602e3f6ddae4dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:04 +0000
Subject: [PATCH 103/106] fix: trace confused the operator and the error

---
 marcel/core.py     | 2 +-
 marcel/op/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index c21d478..1e5023e 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -62,7 +62,7 @@ class Op(AbstractOp):
 
     def send_error(self, env, error):
         if env.trace.is_enabled():
-            env.trace.write(self, error)
+            env.trace.write(self, 'ERROR', error)
         assert isinstance(error, Error)
         if self.receiver:
             self.receiver.receive_error(env, error)
diff --git a/marcel/op/write.py b/marcel/op/write.py
index ae56648..82c03f4 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -158,7 +158,7 @@ class Write(marcel.core.Op):
 
     def receive_error(self, env, error):
         if env.trace.is_enabled():
-            env.trace.write(self, error)
+            env.trace.write(self, 'ERROR', error)
         try:
             self.writer.receive_error(env, error)
         except UnicodeEncodeError:
-- 
2.43.0


From a77aba350141c5cd410b19c3afa9fed8c413d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:21 +0000
Subject: [PATCH 104/106] fix: HistoryRecords are hashable, so that unique,
 intersect, difference and filter accept them

---
 marcel/object/historyrecord.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/object/historyrecord.py b/marcel/object/historyrecord.py
index 69f8d76..31a8826 100644
--- a/marcel/object/historyrecord.py
+++ b/marcel/object/historyrecord.py
@@ -22,7 +22,10 @@ class HistoryRecord(marcel.object.renderable.Renderable):
     def __init__(self, id, command):
         self.id = id
         self.command = command
-        
+
+    def __hash__(self):
+        return hash(self.id)
+
     def __eq__(self, other):
         return self.id == other.id if type(other) is HistoryRecord else NotImplemented
     
-- 
2.43.0


From 66398d1075bc831b475205ab5806e9c30d8d319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:26 +0000
Subject: [PATCH 105/106] fix: An interactive program is started when the
 pipeline runs, rejects input with a message, and its failure does not display
 None

---
 marcel/op/bash.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 70c5465..bcb76b9 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -236,18 +236,18 @@ class NonInteractive(Escape):
 
 class Interactive(Escape):
 
-    def __init__(self, op):
-        super().__init__(op)
-        self.process = subprocess.Popen(self.command(),
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True,
-                                        preexec_fn=os.setsid)
-
     def run(self, env):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+        # Not started earlier, e.g. by __init__: the pipeline might not be run, because the setup of another op fails.
+        process = subprocess.Popen(self.command(),
+                                   shell=True,
+                                   executable=self.bash,
+                                   universal_newlines=True,
+                                   preexec_fn=os.setsid)
+        # The command has stderr, and reports its own errors.
+        process.wait()
+
+    def receive(self, env, x):
+        raise marcel.exception.KillCommandException(f'An interactive command does not accept input: {self.command()}')
 
 
 class BashShell(Escape):
@@ -261,8 +261,6 @@ class BashShell(Escape):
 
     def receive(self, env, _):
         self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
 
 
 # Queues each line of the process' output, as (stream, line). None follows the last one.
-- 
2.43.0


From 394b5ab988b52887ec2376c62c7f5caddb4b0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:49 +0000
Subject: [PATCH 106/106] fix: Completion of an executable ignores any part of
 PATH that is not a readable directory

---
 marcel/tabcompleter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index 711e595..e331cb3 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -181,13 +181,14 @@ class TabCompleter(Completer):
     @staticmethod
     def executables():
         executables = []
-        path = os.environ['PATH'].split(':')
+        path = os.environ.get('PATH', '').split(':')
         for p in path:
             try:
                 for f in os.listdir(pathlib.Path(p).expanduser()):
                     if marcel.util.is_executable(f) and f not in executables:
                         executables.append(f)
-            except FileNotFoundError:
+            except OSError:
+                # Not a directory, or can't be read
                 pass
         return executables
 
-- 
2.43.0


From bf8f80feabdbcf6937d894cc3ac54444facc6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 01/64] fix: batch simulator credits elapsed time once, to the
 state left

---
 most_queue/sim/batch_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..98ee077 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,7 +55,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
 
             self.in_sys += 1
 
-- 
2.43.0


From d37b99cb9801aab111a2bdd146894af8c4e60ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 02/64] fix: batch simulator with a finite buffer reads the
 queue length from the queue

---
 most_queue/sim/batch_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 98ee077..f678425 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -64,7 +64,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
-- 
2.43.0


From d6f4c0687823584a84be373eabd8ac874a03af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 03/64] fix: batch simulator records the zero wait of a job
 served at once

---
 most_queue/sim/batch_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index f678425..b9e1e27 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -82,6 +82,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From 531091e5d6b7aba731a5ae760e8d45889df7401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 04/64] fix: batch sizes are drawn from the generator of the
 simulator

---
 most_queue/sim/batch_sim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index b9e1e27..f8b9184 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -1,8 +1,6 @@
 """
 QS with batch arrival
 """
-import numpy as np
-
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
 
 
@@ -40,7 +38,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
         Actions upon arrival of job to QS
         """
 
-        p = np.random.random()
+        p = self.generator.random()
         batch_size = 0
         for i, batch_prob in enumerate(self.batch_cdf):
             if p < batch_prob:
-- 
2.43.0


From c62bf8a4a0a786baaf9846f0df983a7fc1278a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 05/64] fix: impatient simulator records the zero wait of a job
 served at once

---
 most_queue/sim/impatient_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..571e8e1 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -80,6 +80,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
-- 
2.43.0


From 8b2451282905c4ee1f04be80b724723f3f4f2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 06/64] fix: a reneging job closes the elapsed interval

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 571e8e1..33dd04f 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -92,7 +92,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
-- 
2.43.0


From c1c777799645e51d3de92b81bb901a2893856578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 07/64] fix: the wait of a reneging job is a new sample

---
 most_queue/sim/impatient_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 33dd04f..f935a81 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -108,6 +108,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.served += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
+        self.taked += 1
         self.refresh_w_stat(end_ts.wait_time)
 
     def run_one_step(self):
-- 
2.43.0


From cbe97b1c2a199389133cea74d512f35cb065f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 08/64] fix: finite-source simulator reads the queue length
 from the queue

---
 most_queue/sim/queue_finite_source_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..f56f8fe 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,7 +77,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
@@ -89,7 +89,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
             for s in self.servers:
@@ -131,13 +131,13 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
+        if self.queue.size() != 0:
 
             que_ts = self.queue.pop()
 
-- 
2.43.0


From 3b9e6ad4643c2869572fe895e0f6bfd9f3d771c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 09/64] fix: finite-source simulator samples the wait when the
 service starts

---
 most_queue/sim/queue_finite_source_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index f56f8fe..7ae536a 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -95,6 +95,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -128,7 +129,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
         if self.queue.size() == 0 and self.free_channels == 1:
@@ -146,6 +146,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
+            self.refresh_w_stat(que_ts.wait_time)
             self.servers[c].start_service(que_ts, self.ttek)
             self.free_channels -= 1
 
-- 
2.43.0


From 15c17ac352e924eac319e2977706c13bc7cd8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 10/64] fix: a source whose request is lost starts a new
 interval

---
 most_queue/sim/queue_finite_source_sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 7ae536a..5c9a082 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -84,6 +84,9 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    # the source whose request is lost starts thinking again
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + self.source.generate()
 
         else:  # there are free channels:
 
-- 
2.43.0


From 1dbb4337b8bd7e918ebc26bf4ccf25ab1a373af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 11/64] fix: a busy period that goes on keeps its start

---
 most_queue/sim/qs_sim.py                  | 9 ++++++---
 most_queue/sim/queue_finite_source_sim.py | 3 ---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..720be49 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -359,6 +356,9 @@ class QueueingSystemSimulator:
             if self.queue.size() != 0:
                 self.send_head_of_queue_to_channel(i)
 
+        if self.free_channels == 0:
+            self.start_ppnz = self.ttek
+
     def on_end_cold(self):
         """
         Job that has to be done after Cold Period Ends
@@ -382,6 +382,9 @@ class QueueingSystemSimulator:
                 if self.queue.size() != 0:
                     self.send_head_of_queue_to_channel(i)
 
+            if self.free_channels == 0:
+                self.start_ppnz = self.ttek
+
     def on_end_cold_delay(self):
         """
         Job that has to be done after Cold Delay Period Ends
diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5c9a082..c413d0f 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -144,9 +144,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             que_ts = self.queue.pop()
 
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
             self.refresh_w_stat(que_ts.wait_time)
-- 
2.43.0


From b8a81c0153f16f6d6a3737d302e5e7d209b03ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 12/64] fix: purging a fork-join job drops its other parts and
 frees their servers

---
 most_queue/sim/fj_sim.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..1331a45 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,12 +117,18 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
+                        for s in [s for s in self.queues[i] if s.task_id == task_id]:
+                            self.queues[i].remove(s)
+                            self.sub_task_in_sys -= 1
                     for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        tsk = self.servers[i].tsk_on_service
+                        if tsk is not None and tsk.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.sub_task_in_sys -= 1
+                            if len(self.queues[i]) != 0:
+                                self.servers[i].start_service(self.queues[i].pop(0), self.ttek)
+                            else:
+                                self.free_channels += 1
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
-- 
2.43.0


From f767f7888810dee6434cf2d79b5e9af62eae1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 13/64] fix: the buffer of the delayed fork-join simulator is
 not taken for the purge flag

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..08a6d67 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -18,7 +18,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         buffer - максимальная длина очереди
         """
         ForkJoinSim.__init__(self, num_of_channels,
-                             num_of_parts, is_SJ, buffer)
+                             num_of_parts, is_SJ, buffer=buffer)
         self.delta = delta
         self.subtask_arr_queue = []
         self.serv_task_id = -1
-- 
2.43.0


From 661c1d2b9b361a6a10f6eeddd0525499efae2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 14/64] fix: a delayed part starts its service at the current
 time

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 08a6d67..67d8e71 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From 7f65e6fa8b007cb7d2872134551d24df0927d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 15/64] fix: the delayed fork-join simulator counts the parts
 that leave

---
 most_queue/sim/fj_delta_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 67d8e71..ccc6564 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -135,6 +135,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         self.served_subtask_in_task[end_ts.task_id] += 1
         self.total += 1
         self.free_channels += 1
+        self.sub_task_in_sys -= 1
 
         if not self.is_SJ:
 
-- 
2.43.0


From 1688ce6903b91e91ed18bb23efcf59892047fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 16/64] fix: a delayed split-join job starts on an idle server

---
 most_queue/sim/fj_delta_sim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index ccc6564..be498a9 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -70,8 +70,11 @@ class ForkJoinSimDelta(ForkJoinSim):
                 if self.free_channels < self.k:
                     self.queue.append(t.subtasks[0])
                 else:
-                    self.servers[0].start_service(t.subtasks[0], self.ttek)
-                    self.free_channels -= 1
+                    for s in self.servers:
+                        if s.is_free:
+                            s.start_service(t.subtasks[0], self.ttek)
+                            self.free_channels -= 1
+                            break
                     self.serv_task_id = t.id
 
             for i in range(1, self.k):
-- 
2.43.0


From 644050aa195c58a141b5f38dd0ab600df597dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 17/64] fix: part delays are drawn from the generator of the
 simulator

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index be498a9..163ae1e 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -84,7 +84,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                     b_delta = get_self_conv_moments(self.delta, i)
                     params_delta = Gamma.get_mu_alpha(b_delta)
                     t.subtasks[i].future_arr_time = self.ttek + \
-                        Gamma.generate_static(*params_delta)
+                        Gamma.generate_static(*params_delta, self.generator)
                 self.subtask_arr_queue.append(t.subtasks[i])
 
     def subtask_arrival(self, subtask_num):
-- 
2.43.0


From 2e1299d2ccbcb2bbf0bac7dfd6d5ae0f5fe0449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 18/64] fix: a part of a split-join job that finds no idle
 server keeps waiting

---
 most_queue/sim/fj_delta_sim.py | 40 ++++++++++++++--------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 163ae1e..8486982 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -124,6 +124,20 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:
                     self.queue.append(subtsk)
 
+    def start_parts_of(self, task_id):
+        """
+        Sends the waiting parts of the job to idle servers. The others keep waiting
+        """
+        for que_ts in [q for q in self.queue.queue if q.task_id == task_id]:
+            if self.free_channels == 0:
+                break
+            for serv in self.servers:
+                if serv.is_free:
+                    serv.start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
+                    break
+            self.queue.queue.remove(que_ts)
+
     def serving(self, c):
         """
         Дейтсвия по поступлению заявки на обслуживание
@@ -162,32 +176,10 @@ class ForkJoinSimDelta(ForkJoinSim):
 
                 if self.queue.size() != 0:
 
-                    new_task_id = self.queue.queue[0].task_id
-
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != new_task_id]
+                    self.start_parts_of(self.queue.queue[0].task_id)
             else:
                 if self.queue.size() != 0:
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == end_ts.task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != end_ts.task_id]
+                    self.start_parts_of(end_ts.task_id)
 
     def run_one_step(self):
 
-- 
2.43.0


From 73a7cc2b557c89a13bade1353bbea60b83c6484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 19/64] fix: H2 fitting returns the weight that its rates were
 computed for

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..b616040 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -260,7 +260,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 07762789150eb91fecc5513a0b532e819ebd277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 20/64] fix: the exponential distribution draws from the
 generator it is given

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index b616040..3c14920 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -720,7 +720,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From 01004fe648d5b951732b7d4b8979ceab1adbfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 21/64] fix: a server with warm-up draws from the generator it
 is given

---
 most_queue/sim/utils/servers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/utils/servers.py b/most_queue/sim/utils/servers.py
index 848a8d4..20c9e05 100644
--- a/most_queue/sim/utils/servers.py
+++ b/most_queue/sim/utils/servers.py
@@ -78,12 +78,13 @@ class ServerWarmUp(Server):
     """
     id = 0
 
-    def __init__(self, params, types, delta=None):
+    def __init__(self, params, types, delta=None, generator=None):
         """
         params - параметры распределения
         types -  тип распределения
         """
-        Server.__init__(self, params, types)
+        Server.__init__(self, params, types, generator)
+        self.generator = generator
         self.delta = delta
 
     def start_service(self, ts, ttek, isWarmUp=False):
@@ -110,4 +111,4 @@ class ServerWarmUp(Server):
                 # coev = math.sqrt(variance)/f_summ[0]
                 params = Gamma.get_mu_alpha(f_summ)
                 self.time_to_end_service = ttek + \
-                    Gamma.generate_static(*params)
+                    Gamma.generate_static(*params, self.generator)
-- 
2.43.0


From 46826b0ba5483d9aa96cc39e4502c397de78f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 22/64] fix: the network simulator draws from its own generator

---
 most_queue/sim/priority_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..39853c2 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -32,6 +32,8 @@ class PriorityNetwork:
         self.nodes_prty = nodes_prty
         # номеров приоритетов по узлам
 
+        self.generator = np.random.default_rng()
+
         self.smos = []
 
         for m in range(self.n_num):
@@ -49,7 +51,7 @@ class PriorityNetwork:
         self.v_network = []
         self.w_network = []
         for k in range(k_num):
-            self.sources.append(Exp_dist(L[k]))
+            self.sources.append(Exp_dist(L[k], self.generator))
             self.arrival_time.append(self.sources[k].generate())
             time.sleep(0.1)
             self.v_network.append([0.0] * 3)
@@ -64,7 +66,7 @@ class PriorityNetwork:
 
     def play_next_node(self, real_class, current_node):
         sum_p = 0
-        p = np.random.rand()
+        p = self.generator.random()
         for i in range(self.R[real_class].shape[0]):
             sum_p += self.R[real_class][current_node + 1, i]
             if sum_p > p:
-- 
2.43.0


From bf57db4539ffa0adbfa40a68ab68b84a9afc0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 23/64] fix: a network node serves each class with the
 parameters of that class

---
 most_queue/sim/priority_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 39853c2..c41c37f 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -38,10 +38,10 @@ class PriorityNetwork:
 
         for m in range(self.n_num):
             self.smos.append(PriorityQueueSimulator(n[m], k_num, prty[m]))
-            param_serv_reset = []  # из-за смены порядка приоритетов в узле
+            param_serv_reset = [None] * k_num  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset[nodes_prty[m][k]] = serv_params[m][k]
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From f7f454b86a301e2db93636671988a6fb5688360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 24/64] fix: network calculation orders classes by their
 priority in each node

---
 most_queue/theory/network_calc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..277a544 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -119,12 +119,12 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     l_order = []
 
     for m in range(nodes):
-        b_order.append([])
-        l_order.append([])
+        b_order.append([None] * k_num)
+        l_order.append([None] * k_num)
         for k in range(k_num):
             order = nodes_prty[m][k]
-            b_order[m].append(b[order][m])
-            l_order[m].append(intensities[order][m])
+            b_order[m][order] = b[k][m]
+            l_order[m][order] = intensities[k][m]
 
     res['v_node'] = []
     for i in range(nodes):
@@ -140,9 +140,8 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
             b_sr[j] /= k_num
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From e1250ed59ac32f2d9ffa2ebfab483f3ed9847017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 25/64] fix: the simulator of several classes without
 priorities serves its single queue

---
 most_queue/sim/priority_queue_sim.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..5810a41 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -441,7 +441,12 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        if self.prty_type == "No":
+            is_queue_empty = len(self.queue) == 0
+        else:
+            is_queue_empty = len(self.queue[k]) == 0
+
+        if is_queue_empty and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -480,13 +485,20 @@ class PriorityQueueSimulator:
 
                 que_ts = self.queue.pop(0)
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                self.taked[k] += 1
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
+
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                    self.servers[c].start_service(
+                        que_ts, self.ttek, is_network=True)
+                else:
+                    self.servers[c].start_service(que_ts, self.ttek)
                 self.free_channels -= 1
         if is_network:
             return end_ts
@@ -668,6 +680,9 @@ class PriorityQueueSimulator:
                 res += "Server " + str(c + 1) + ": Free\n"
             else:
                 res += str(self.servers[c]) + "\n"
+                if self.prty_type == 'No':
+                    res += "Queue count " + str(len(self.queue)) + "\n"
+                    continue
                 for kk in range(self.k):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-- 
2.43.0


From 66aa21fe1493aef02e23071cd5490a0fab4491a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 26/64] fix: the priority simulator honours an empty buffer,
 and its buffer without preemption

---
 most_queue/sim/priority_queue_sim.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 5810a41..13584b4 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -370,7 +370,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
@@ -387,8 +387,12 @@ class PriorityQueueSimulator:
 
             elif self.prty_type == "NP":
                 if self.free_channels == 0:
-                    new_tsk.start_waiting_time = self.ttek
-                    self.queue[k].append(new_tsk)
+                    if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
+                        new_tsk.start_waiting_time = self.ttek
+                        self.queue[k].append(new_tsk)
+                    else:
+                        self.dropped[k] += 1
+                        self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From a5f915b89f1f56e651a3bf9acf9f968ddc96e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 27/64] fix: a preempting job takes the server of the lowest
 class

---
 most_queue/sim/priority_queue_sim.py | 86 ++++++++++++++--------------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 13584b4..d072ed5 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -325,51 +325,53 @@ class PriorityQueueSimulator:
             elif self.prty_type == "PR" or self.prty_type == "RS" or self.prty_type == "RW":
 
                 if self.free_channels == 0:
-                    # смотрим, есть ли на обслуживании заявки младшего класса
-                    is_found_weekier = False
-                    for c in self.servers:
+                    # смотрим, есть ли на обслуживании заявки младшего класса, вытесняем самый младший
+                    weakest_class = k
+                    c = None
+                    for s in self.servers:
                         if moment:
-                            class_on_service = c.tsk_on_service.in_node_class_num
+                            class_on_service = s.tsk_on_service.in_node_class_num
                         else:
-                            class_on_service = c.tsk_on_service.k
-
-                        if class_on_service > k:
-                            time_to_end = c.time_to_end_service
-                            total_time = c.total_time_to_serve
-
-                            dropped_tsk = c.end_service()
-                            self.taked[k] += 1
-
-                            if k != self.class_ppnz_started and self.class_ppnz_started != -1 and self.in_sys[
-                                    k] == self.n:
-                                self.ppnz_moments[self.class_ppnz_started] += 1
-                                self.refresh_ppnz_stat(
-                                    self.class_ppnz_started, self.ttek - self.start_ppnz)
-                                self.start_ppnz = self.ttek
-                                self.class_ppnz_started = k
-
-                            dropped_tsk.start_waiting_time = self.ttek
-                            dropped_tsk.is_pr = True
-                            if self.prty_type == 'PR':
-                                dropped_tsk.time_to_end_service = time_to_end - self.ttek
-                            elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
-                                )
-                            elif self.prty_type == "RW":
-                                dropped_tsk.time_to_end_service = total_time
-
-                            is_found_weekier = True
-                            if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
-                                c.start_service(
-                                    new_tsk, self.ttek, is_network=True)
-                            else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
-                                c.start_service(new_tsk, self.ttek)
+                            class_on_service = s.tsk_on_service.k
+
+                        if class_on_service > weakest_class:
+                            weakest_class = class_on_service
+                            c = s
+
+                    if c is not None:
+                        time_to_end = c.time_to_end_service
+                        total_time = c.total_time_to_serve
+
+                        dropped_tsk = c.end_service()
+                        self.taked[k] += 1
 
-                            break
-                    if not is_found_weekier:
+                        if k != self.class_ppnz_started and self.class_ppnz_started != -1 and self.in_sys[
+                                k] == self.n:
+                            self.ppnz_moments[self.class_ppnz_started] += 1
+                            self.refresh_ppnz_stat(
+                                self.class_ppnz_started, self.ttek - self.start_ppnz)
+                            self.start_ppnz = self.ttek
+                            self.class_ppnz_started = k
+
+                        dropped_tsk.start_waiting_time = self.ttek
+                        dropped_tsk.is_pr = True
+                        if self.prty_type == 'PR':
+                            dropped_tsk.time_to_end_service = time_to_end - self.ttek
+                        elif self.prty_type == "RS":
+                            dropped_tsk.time_to_end_service = c.dist[k].generate(
+                            )
+                        elif self.prty_type == "RW":
+                            dropped_tsk.time_to_end_service = total_time
+
+                        if moment:
+                            self.queue[dropped_tsk.in_node_class_num].append(
+                                dropped_tsk)
+                            c.start_service(
+                                new_tsk, self.ttek, is_network=True)
+                        else:
+                            self.queue[dropped_tsk.k].append(dropped_tsk)
+                            c.start_service(new_tsk, self.ttek)
+                    else:
                         if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
-- 
2.43.0


From 9d095368aa5f910aa893eed350932702fc8fe35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 28/64] fix: preemptive repeat resamples the service of the
 preempted class

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index d072ed5..93b9a87 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -358,7 +358,7 @@ class PriorityQueueSimulator:
                         if self.prty_type == 'PR':
                             dropped_tsk.time_to_end_service = time_to_end - self.ttek
                         elif self.prty_type == "RS":
-                            dropped_tsk.time_to_end_service = c.dist[k].generate(
+                            dropped_tsk.time_to_end_service = c.dist[weakest_class].generate(
                             )
                         elif self.prty_type == "RW":
                             dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From 78a8949329c8e8ea1df6177e08a6e5ede4e098ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 29/64] fix: a job preempted twice keeps its service time

---
 most_queue/sim/priority_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 93b9a87..f89ff86 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -777,6 +777,7 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
+                self.total_time_to_serve = ts.time_to_end_service
                 self.time_to_end_service = ttek + ts.time_to_end_service
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
-- 
2.43.0


From 5f5024378817baaa0e1773ccefb96502102c6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 30/64] fix: busy periods of a node use the classes of that
 node

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index f89ff86..0545602 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -470,7 +470,7 @@ class PriorityQueueSimulator:
 
                     que_ts = self.queue[kk].pop(0)
 
-                    if self.free_channels == 1 and kk != end_ts.k:
+                    if self.free_channels == 1 and kk != k:
                         self.start_ppnz = self.ttek
                         self.class_ppnz_started = kk
 
-- 
2.43.0


From cf3de49303101234d8241e4d119e378b547478e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 31/64] fix: utilization of systems with normal intervals, and
 with Pareto intervals without a mean

---
 most_queue/sim/utils/distribution_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..96d7710 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types == "Uniform" or source_types == "Norm":
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -121,7 +121,7 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
+        if source_params[0] <= 1:
             return None
         else:
             a = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types == "Uniform" or server_types == "Norm":
         b1 = server_params[0]
 
     elif server_types == "H":
@@ -164,7 +164,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From 6a9266d4cc8a44487452d344cca2706f5840919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 32/64] fix: utilization of the priority simulator is the sum
 over its classes

---
 most_queue/sim/priority_queue_sim.py | 102 +++------------------------
 1 file changed, 8 insertions(+), 94 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 0545602..29cdf6a 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -6,7 +6,7 @@ import numpy as np
 from colorama import Fore, Style, init
 from tqdm import tqdm
 
-from most_queue.sim.utils.distribution_utils import create_distribution
+from most_queue.sim.utils.distribution_utils import calc_qs_load, create_distribution
 
 init()
 
@@ -179,102 +179,16 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
+        load = 0
 
         for i in range(self.k):
+            class_load = calc_qs_load(self.sources_params[i]['type'], self.sources_params[i]['params'],
+                                      self.servers_params[i]['type'], self.servers_params[i]['params'], self.n)
+            if class_load is None:
+                return None
+            load += class_load
 
-            if self.sources_params[i]['type'] == "M":
-                l_sum += self.sources_params[i]['params']
-            elif self.sources_params[i]['type'] == "H":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
-
-                f1 = y1 / mu1 + y2 / mu2
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "E":
-                r = self.sources_params[i]['params'][0]
-                mu = self.sources_params[i]['params'][1]
-                l_sum += mu / r
-
-            elif self.sources_params[i]['type'] == "Gamma":
-                mu = self.sources_params[i]['params'][0]
-                alpha = self.sources_params[i]['params'][1]
-                l_sum += mu / alpha
-
-            elif self.sources_params[i]['type'] == "C":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['params'][1]
-                mu2 = self.sources_params[i]['params'][2]
-
-                f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-                l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
-                    a = self.sources_params[i]['params'][0]
-                    k = self.sources_params[i]['params'][1]
-                    f1 = a * k / (a - 1)
-                    l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
-                l_sum += 1.0 / f1
-
-            if self.servers_params[i]['type'] == "M":
-                mu = self.servers_params[i]['params']
-                b1_sr += 1.0 / mu
-
-            elif self.servers_params[i]['type'] == "H":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y1 / mu1 + y2 / mu2
-
-            elif self.servers_params[i]['type'] == "Gamma":
-                mu = self.servers_params[i]['params'][0]
-                alpha = self.servers_params[i]['params'][1]
-                b1_sr += alpha / mu
-
-            elif self.servers_params[i]['type'] == "E":
-                r = self.servers_params[i]['params'][0]
-                mu = self.servers_params[i]['params'][1]
-                b1_sr += r / mu
-
-            elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "C":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-            elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
-                    return math.inf
-                else:
-                    a = self.servers_params[i]['params'][0]
-                    k = self.servers_params[i]['params'][1]
-                    b1_sr += a * k / (a - 1)
-
-        return l_sum * b1_sr / (self.n * self.k)
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 3469c2f3193fff296cb95aa05fb8c38bbda7955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:52 +0000
Subject: [PATCH 33/64] fix: the service moments of merged classes are weighted
 by their intensities

---
 most_queue/theory/priority_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..95398f4 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -280,8 +280,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -525,8 +525,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From aef2e233c99913b24b2257560fea622e11fad4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:52 +0000
Subject: [PATCH 34/64] fix: the load of a network node is the sum over its
 classes

---
 most_queue/theory/network_calc.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 277a544..4d9b592 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -128,18 +128,11 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
     res['v_node'] = []
     for i in range(nodes):
-        l_sum = 0
+        load = 0
         for k in range(k_num):
-            l_sum += l_order[i][k]
+            load += l_order[i][k] * b_order[i][k][0]
 
-        b_sr = [0.0] * 4
-
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
-
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
+        res['loads'][i] = load / n[i]
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-- 
2.43.0


From a28fc71b6d0e9e0cdf669257a958922ef09c50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 35/64] fix: Pareto distribution function and density below the
 support

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 3c14920..25dc2ce 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -546,7 +546,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -564,10 +564,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From 5b85f272f12f03ef2f4be1f3fa5b9770ff81b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 36/64] fix: M/M/n/r is solved when the arrival rate equals the
 capacity

---
 most_queue/theory/mmnr_calc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..c449323 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -61,11 +61,12 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
+        summ2 = 0
+        for i in range(r + 1):
+            summ2 += pow(ro / n, i)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From 15b404f3b9b32c132d68a0c80a06f2be154ae359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 37/64] fix: mean batch size of the batch model

---
 most_queue/theory/batch_mm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/batch_mm1.py b/most_queue/theory/batch_mm1.py
index 816054b..b8b00c8 100755
--- a/most_queue/theory/batch_mm1.py
+++ b/most_queue/theory/batch_mm1.py
@@ -30,7 +30,7 @@ class BatchMM1:
         """
         Mean batch size
         """
-        return sum(self.ls) / len(self.ls)
+        return self.calc_l_moments()[0]
 
     def calc_l_moments(self):
         """
-- 
2.43.0


From 09e1c18e64e94eae5ec9a7a7fd16e766cc27f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 38/64] fix: series of the impatience model are summed past
 their largest term

---
 most_queue/theory/impatience_calc.py | 38 +++++++++-------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..b679f69 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -1,5 +1,3 @@
-import math
-
 """
 Расчет М/M/1 с экспоненциальным нетерпением
 """
@@ -9,22 +7,17 @@ def get_p0(l, mu, gamma, tol=1e-12):
     """
     Вероятность нулевого состояния системы
     """
+    if gamma <= 0 and l >= mu:
+        raise ValueError("No steady state without impatience if l >= mu")
+
     summ = 0
-    elem_old = l
-    elem_new = 0
-
-    i = 1
-    while math.fabs(elem_new - elem_old) > tol:
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        elem_old = elem_new
-        elem_new = chisl / znam
-        summ += elem_new
+    elem = 1.0
+
+    i = 0
+    # the terms grow while l > mu + i * gamma
+    while elem > tol or l > mu + i * gamma:
+        elem *= l / (mu + i * gamma)
+        summ += elem
 
         i += 1
 
@@ -40,16 +33,9 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     ps.append(p0)
 
     for i in range(1, max_num):
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        pi = p0 * chisl / znam
+        pi = ps[-1] * l / (mu + (i - 1) * gamma)
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and l <= mu + i * gamma:
             break
 
     return ps
-- 
2.43.0


From e6e5415aea095088dada4cc51bd327ecacf1a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 39/64] fix: moments of a difference use the moments of the
 result; fewer than three moments

---
 most_queue/general_utils/conv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..0d32ed9 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -2,8 +2,10 @@ def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
@@ -19,6 +21,8 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From 7937fedc8102f3b99e6b92eea7b3edc8d7b3ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 40/64] fix: number of Poisson arrivals during a uniformly
 distributed service

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From 8bb2f5d5d302f72b5b545a84797cfe72f249c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 41/64] fix: higher moments of waiting of the highest class
 under preemptive priority

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 95398f4..237beeb 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -190,7 +190,7 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
-- 
2.43.0


From e71e1fbafa4c3ab9c38ce8234015d1216836f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 42/64] fix: fifth moments of the busy periods

---
 most_queue/theory/priority_calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 237beeb..27e0dfa 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From f4fb6ba2479411a0efb21873585d6bd54f49ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 43/64] fix: second moment of waiting in Klimov's formula

---
 most_queue/theory/priority_calc.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 27e0dfa..b7228c8 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -113,15 +113,13 @@ def climov_w_pr_calc(l, b):
         w.append([0.0] * 2)
         if k != 0:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
+                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
         else:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
-                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (2 * math.pow(ro_k[k], 2))
 
     return w
 
-- 
2.43.0


From b8ccdf039e61f8115faa1d7fb31bec7c3c67d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 44/64] fix: preemptive priority with five service moments

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index b7228c8..dcab586 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -132,7 +132,7 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
     b: [j], j=1..num, начальные моменты времени обслуживания
     f: [j], нач. моменты распределения времени разогрева
     """
-    num = min(num, len(f))
+    num = min(num, len(f), len(pnz))
 
     pnz_warm_up = []
     z = 1 + l * pnz[0]
-- 
2.43.0


From f0601f6bd88a43a588f59734637a487cbcf6981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 45/64] fix: waiting of the lower classes under preemptive
 priority

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index dcab586..37f1ec8 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -231,7 +231,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From 844712f096c7e3eef45a44649175fc3d28aad288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 46/64] fix: Varma's approximation of (n, k) fork-join

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..12134d3 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -243,7 +243,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From c72e38125ba6d73c9f2e9b9fcce8d543cdf81abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 47/64] fix: moments of the maximum with no delay

---
 most_queue/theory/fj_calc.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 12134d3..b237a35 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -106,19 +106,18 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
          2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
          9.91182721961E-13]
 
-    if delta:
-        params = Gamma.get_mu_alpha(b)
+    params = Gamma.get_mu_alpha(b)
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    for j in range(10):
+        p = g[j] * dfr_Gamma_Mult(params, a_big[j],
+                                  n, delta) * math.exp(a_big[j])
+        f[0] += p
+        for i in range(1, num):
+            p = p * a_big[j]
+            f[i] += p
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
+    for i in range(num - 1):
+        f[i + 1] *= (i + 2)
 
     return f
 
-- 
2.43.0


From 5080f5eb57b587c848f180c8f9d989ab21f143e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 48/64] fix: fork-join approximation by the ratio of
 multichannel queues

---
 most_queue/theory/fj_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index b237a35..1ad3786 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -350,7 +350,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     v1_fj2 = get_v1_fj2(l, 1.0 / b[0])
 
-    tt2 = MGnCalc(n, l, b2)
+    tt2 = MGnCalc(2, l, b2)
     tt2.run()
     w_tt2 = tt2.get_w()
 
@@ -363,7 +363,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     ttn = MGnCalc(n, l, bn)
     ttn.run()
-    w_ttn = tt2.get_w()
+    w_ttn = ttn.get_w()
 
     for i in range(3):
         v.append(v1_fj2 * w_ttn[i] / w_tt2[i])
-- 
2.43.0


From 3d6621d43e86e91d38c6a793b6471afc00c0fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 49/64] fix: fork-join approximation by the ratio of split-join
 queues

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 1ad3786..e27782c 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -321,7 +321,7 @@ def get_v1_fj_invar_sj(l, mu, n):
 
     v1_fj2 = get_v1_fj2(l, mu)
     b1_sjn = getMaxMoments(n, [1 / mu_n, 2 / pow(mu_n, 2), 6 / pow(mu_n, 3)])
-    b1_sj2 = getMaxMoments(n, [1 / mu2, 2 / pow(mu2, 2), 6 / pow(mu2, 3)])
+    b1_sj2 = getMaxMoments(2, [1 / mu2, 2 / pow(mu2, 2), 6 / pow(mu2, 3)])
 
     w_sjn = get_w(l, b1_sjn)
     w_sj2 = get_w(l, b1_sj2)
-- 
2.43.0


From adc951faa5140de83f34071b98539e52444e2498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 50/64] fix: top level of the Takahashi-Takami method with a
 finite buffer

---
 most_queue/theory/m_h2_h2warm.py              | 27 ++++++++++---------
 most_queue/theory/mgn_tt.py                   | 27 ++++++++++---------
 .../theory/mgn_with_h2_delay_cold_warm.py     | 27 ++++++++++---------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 27 ++++++++++---------
 4 files changed, 56 insertions(+), 52 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..9c77bc9 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -339,6 +339,10 @@ class Mh2h2Warm:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R:
+            # из заполненной системы нет переходов вверх
+            top = self.N - 1
+            self.D[top] = self.D[top] - self.l * np.eye(self.D[top].shape[0])
 
     def calc_g_matrices(self):
         self.G = []
@@ -391,6 +395,14 @@ class Mh2h2Warm:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R and j == (self.N - 1):
+                    # верхний ярус заполненной системы
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    self.x[j] = 0.0
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -415,19 +427,8 @@ class Mh2h2Warm:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..e345c42 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -225,6 +225,10 @@ class MGnCalc:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R:
+            # из заполненной системы нет переходов вверх
+            top = self.N - 1
+            self.D[top] = self.D[top] - self.l * np.eye(self.D[top].shape[0])
 
     def calc_g_matrices(self):
         self.G = []
@@ -272,6 +276,14 @@ class MGnCalc:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R and j == (self.N - 1):
+                    # верхний ярус заполненной системы
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    self.x[j] = 0.0
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -290,19 +302,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..7581185 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -426,6 +426,10 @@ class MGnH2ServingColdWarmDelay:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R:
+            # из заполненной системы нет переходов вверх
+            top = self.N - 1
+            self.D[top] = self.D[top] - self.l * np.eye(self.D[top].shape[0])
 
     def calc_g_matrices(self):
         self.G = []
@@ -478,6 +482,14 @@ class MGnH2ServingColdWarmDelay:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R and j == (self.N - 1):
+                    # верхний ярус заполненной системы
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    self.x[j] = 0.0
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -502,19 +514,8 @@ class MGnH2ServingColdWarmDelay:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..59eb534 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -313,6 +313,10 @@ class MMn_H2warm_H2cold:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R:
+            # из заполненной системы нет переходов вверх
+            top = self.N - 1
+            self.D[top] = self.D[top] - self.l * np.eye(self.D[top].shape[0])
 
     def calc_g_matrices(self):
         self.G = []
@@ -365,6 +369,14 @@ class MMn_H2warm_H2cold:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R and j == (self.N - 1):
+                    # верхний ярус заполненной системы
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    self.x[j] = 0.0
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -389,19 +401,8 @@ class MMn_H2warm_H2cold:
                 else:
                     self.x[j] = 1.0 / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0


From a7194bcc6bf4abf98273dd57e024c3d3bd12e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 51/64] fix: waiting time transform of the queue with warm-up

---
 most_queue/theory/m_h2_h2warm.py | 33 ++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 9c77bc9..287e201 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -178,37 +178,42 @@ class Mh2h2Warm:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
+        # Если заявка попала в пустую систему, ей придется подождать окончание разогрева
+        for i in range(2):
+            w += self.Y[0][0, 0] * self.y_w[i] * self.pls(self.mu_w[i], s)
+
         # Если заявка попала в фазу разогрева, хотя каналы свободны,
         # ей придется подождать окончание разогрева
         for k in range(1, self.n):
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s)
 
-        for k in range(self.n, self.N):
+        key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
 
-            # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
-            # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
-            key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
+        a = np.array(
+            [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
+             range(self.n + 1)])
 
-            a = np.array(
-                [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
-                 range(self.n + 1)])
+        P = self.calc_down_probs(self.n + 1)
 
-            P = self.calc_down_probs(k)
-            Pa = np.transpose(self.matrix_pow(P * a, k - self.n))  # n+1 x n+1
+        # обслуживание всех заявок, накопленных до прибытия, по состояниям обслуживания
+        aPa = a
 
-            aP_tilda = a * probs
+        for k in range(self.n, self.N):
+
+            if k > self.n:
+                aPa = a * np.dot(P, aPa)
 
-            pls_service_total = sum(np.dot(aP_tilda, Pa))
+            # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
+            # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
+            pls_service_total = sum(aPa * probs)
 
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s) * pls_service_total
 
             # попала в фазу обслуживания
-            Ys = [self.Y[k][0, i + 2] for i in range(len(probs))]
-            aPa = np.dot(a, Pa)
             for i in range(self.n + 1):
-                w += Ys[i] * aPa[i]
+                w += self.Y[k][0, i + 2] * aPa[i]
 
         return w
 
-- 
2.43.0


From e3b0168a237f0e24ddd31dca40ea7661bacca1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 52/64] fix: sojourn time when only the first service of a busy
 period is with warm-up

---
 most_queue/theory/m_h2_h2warm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 287e201..d92ac1e 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -254,9 +254,14 @@ class Mh2h2Warm:
         v = [0.0] * 3
         w = self.get_w()
         b = self.b
-        v[0] = w[0] + b[0]
-        v[1] = w[1] + 2 * w[0] * b[0] + b[1]
-        v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]
+        serv = b
+        if self.is_only_first:
+            # заявка, открывающая период занятости, не ждет и обслуживается с разогревом
+            p0 = self.p[0].real
+            serv = [(1.0 - p0) * b[i] + p0 * self.b_warm[i] for i in range(3)]
+        v[0] = w[0] + serv[0]
+        v[1] = w[1] + 2 * w[0] * b[0] + serv[1]
+        v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + serv[2]
 
         return v
 
-- 
2.43.0


From 07af41442e896509dfb5d595093ad219f8032aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 53/64] fix: debug output while the matrices of the queue with
 warm-up are built

---
 most_queue/theory/m_h2_h2warm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index d92ac1e..3d2eb0d 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -639,7 +639,6 @@ class Mh2h2Warm:
         if not self.is_only_first:
             if num > 0:
                 probs = calc_binom_probs(num + 1, self.y[0])
-                print(probs)
                 for i in range(len(probs)):
                     output[0, 2 + i] = self.mu_w[0] * probs[i]
                     output[1, 2 + i] = self.mu_w[1] * probs[i]
-- 
2.43.0


From 650355917db441a092a9a4a49cf927f7ccec32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 54/64] fix: waiting moments of the jobs accepted by a finite
 queue

---
 most_queue/theory/mmnr_calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index c449323..06fb5bd 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,13 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        p = MMnr_calc.get_p(l, mu, n, r)
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            # принятая заявка, заставшая i заявок в очереди, ждет i + 1 освобождение каналов
+            for i in range(r):
+                w[k] += (math.factorial(i + k + 1) / math.factorial(i)) * p[n + i]
+            w[k] /= math.pow(n * mu, k + 1) * (1.0 - p[n + r])
         return w
 
     @staticmethod
-- 
2.43.0


From 8b3983b3af6da92125cf23412142bb308e335be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 55/64] fix: the low class is served next to a single job of
 the high class

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 4f2909b..a2890b2 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -335,9 +335,10 @@ class Mmn3_pnz_cox:
             output = self.B[2]
             return output
 
-        # Матрица B - диагональная. Количество ненулевых элементов = 2. Остальные 13 - нулевые
+        # Матрица B - диагональная. Количество ненулевых элементов = 3. Остальные 12 - нулевые
         output[0, 0] = min(2, num) * self.mu_L
         output[1, 1] = self.mu_L
+        output[2, 2] = self.mu_L
 
         return output
 
-- 
2.43.0


From 12a430dc92ef04994265063be19b678a6d5c7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 56/64] fix: H2 parameters of exactly exponential moments

---
 most_queue/rand_distribution.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 25dc2ce..420a458 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -279,11 +279,6 @@ class H2_dist:
         f = [0.0] * 3
         for i in range(3):
             f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
 
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
@@ -315,6 +310,12 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From 7286873da4c81b9589bca998b63b207dd1454f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 57/64] fix: Cox parameters of exactly exponential moments

---
 most_queue/rand_distribution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 420a458..aec7381 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -484,6 +484,10 @@ class Cox_dist:
         for i in range(3):
             f[i] = moments[i] / math.factorial(i + 1)
 
+        if f[1] == f[0] * f[0]:
+            # экспоненциальное распределение: вторая фаза не посещается
+            return 0.0, 1.0 / f[0], 1.0 / f[0]
+
         d = np.power(f[2] - f[0] * f[1], 2) - 4.0 * (f[1] - np.power(f[0], 2)) * (f[0] * f[2] - np.power(f[1], 2))
         mu2 = f[0] * f[1] - f[2] + cmath.sqrt(d)
         mu2 /= 2.0 * (np.power(f[1], 2) - f[0] * f[2])
-- 
2.43.0


From ee30633e29bb7ae6e099e025ae93ff28dd43af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 58/64] fix: Takahashi-Takami method with a buffer of more than
 150 levels

---
 most_queue/theory/m_h2_h2warm.py                    | 4 ++--
 most_queue/theory/mgn_tt.py                         | 4 ++--
 most_queue/theory/mgn_with_h2_delay_cold_warm.py    | 4 ++--
 most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 3d2eb0d..8103735 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -29,10 +29,10 @@ class Mh2h2Warm:
         self.dt = np.dtype(dtype)
         if buffer:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
-            self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
-            self.N = N
             self.R = None  # для проверки задан ли буфер
+        self.N = N
 
         self.is_only_first = is_only_first
 
diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index e345c42..7788d68 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -24,10 +24,10 @@ class MGnCalc:
         self.dt = np.dtype(dtype)
         if buffer:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
-            self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
-            self.N = N
             self.R = None  # для проверки задан ли буфер
+        self.N = N
 
         self.e1 = accuracy
         self.n = n
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 7581185..414b50a 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -32,10 +32,10 @@ class MGnH2ServingColdWarmDelay:
         self.dt = np.dtype(dtype)
         if buffer:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
-            self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
-            self.N = N
             self.R = None  # для проверки задан ли буфер
+        self.N = N
 
         self.e1 = accuracy
         self.n = n
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 59eb534..92e4cb1 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -28,10 +28,10 @@ class MMn_H2warm_H2cold:
         self.dt = np.dtype(dtype)
         if buffer:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
-            self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
-            self.N = N
             self.R = None  # для проверки задан ли буфер
+        self.N = N
 
         self.e1 = accuracy
         self.n = n
-- 
2.43.0


From fbaeb038c358317bbe846eab49550a34dadcfd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 59/64] fix: second and third moments of a passage over several
 levels

---
 most_queue/theory/utils/passage_time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 4060e3b..cca8ef2 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -551,9 +551,15 @@ class passage_time_calc:
             else:
                 FGGG1 = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.G[i], Gr_gap[0])))
 
+            # второй и третий моменты: переход на ярус ниже, а затем до яруса l_end
+            level = min(i, self.l_tilda)
+            G = self.G[level]
+            G1, G2, G3 = self.Gr[level]
+            gap1, gap2, gap3 = Gr_gap
+
             Gr_gap[0] = B1G + BG1 + L1GG + LG1G + LGG1 + F1GGG + FG1GG + FGG1G + FGGG1
-            Gr_gap[1] = Gr_gap[0]
-            Gr_gap[2] = Gr_gap[0]
+            Gr_gap[1] = np.dot(G2, Ggap_minus_one) + 2 * np.dot(G1, gap1) + np.dot(G, gap2)
+            Gr_gap[2] = np.dot(G3, Ggap_minus_one) + 3 * np.dot(G2, gap1) + 3 * np.dot(G1, gap2) + np.dot(G, gap3)
             # while (abs(max_elem - max_elem_pr) > self.e):
             #     Gr_gap[0] = B1G + BG1 + L1G + L*Gr_gap[0] + F1GG + FG1G + FG1*Gr_gap[0]
             #     max_elem_pr = max_elem
-- 
2.43.0


From 0f5058c3572691574f51bb317d72934108c7ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 60/64] fix: Student quantiles of 20 to 85 observations

---
 most_queue/theory/utils/student_stat.py | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index d9ec551..b0b77db 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -22,7 +22,7 @@ def get_ty(gamma, n):
                  2.26, 2.23, 2.20, 2.18, 2.16,
                  2.15, 2.13, 2.12, 2.11, 2.10,
                  2.093, 2.064, 2.045, 2.032, 2.023,
-                 2.016, 2.009, 2.001, 1.996, 1.001,
+                 2.016, 2.009, 2.001, 1.996, 1.991,
                  1.987, 1.984, 1.980, 1.960]
     gamma_099 = [4.60, 4.03, 3.71, 3.50, 3.36,
                  3.25, 3.17, 3.11, 3.06, 3.01,
@@ -46,6 +46,14 @@ def get_ty(gamma, n):
             return gamma_0999[n - 5]
 
     elif n >= 20 and n < 23:
+        if gamma == 0.95:
+            return gamma_095[15]
+        if gamma == 0.99:
+            return gamma_099[15]
+        if gamma == 0.999:
+            return gamma_0999[15]
+
+    elif n >= 23 and n < 28:
         if gamma == 0.95:
             return gamma_095[16]
         if gamma == 0.99:
@@ -53,7 +61,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[16]
 
-    elif n >= 23 and n < 28:
+    elif n >= 28 and n < 33:
         if gamma == 0.95:
             return gamma_095[17]
         if gamma == 0.99:
@@ -61,7 +69,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[17]
 
-    elif n >= 28 and n < 33:
+    elif n >= 33 and n < 38:
         if gamma == 0.95:
             return gamma_095[18]
         if gamma == 0.99:
@@ -69,7 +77,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[18]
 
-    elif n >= 33 and n < 38:
+    elif n >= 38 and n < 43:
         if gamma == 0.95:
             return gamma_095[19]
         if gamma == 0.99:
@@ -77,7 +85,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[19]
 
-    elif n >= 38 and n < 43:
+    elif n >= 43 and n < 48:
         if gamma == 0.95:
             return gamma_095[20]
         if gamma == 0.99:
@@ -85,7 +93,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[20]
 
-    elif n >= 43 and n < 48:
+    elif n >= 48 and n < 56:
         if gamma == 0.95:
             return gamma_095[21]
         if gamma == 0.99:
@@ -93,7 +101,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[21]
 
-    elif n >= 48 and n < 56:
+    elif n >= 56 and n < 66:
         if gamma == 0.95:
             return gamma_095[22]
         if gamma == 0.99:
@@ -101,14 +109,6 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[22]
 
-    elif n >= 56 and n < 66:
-        if gamma == 0.95:
-            return gamma_095[23]
-        if gamma == 0.99:
-            return gamma_099[23]
-        if gamma == 0.999:
-            return gamma_0999[23]
-
     elif n >= 66 and n < 76:
         if gamma == 0.95:
             return gamma_095[23]
-- 
2.43.0


From e2e0a44f23a75d38911e5dfc9227f7ae3b1db0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 61/64] fix: fourth semi-invariant of the intervals from those
 of the number of events

---
 most_queue/theory/utils/flow_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index d1c9d3a..534e46d 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -112,7 +112,7 @@ class SummatorNumeric:
         if len(v) > 2:
             k.append((3 * pow(v[1], 2) - v[0] * v[2]) / pow(v[0], 5))
         if len(v) > 3:
-            k4 = v[3] / pow(v[0], 2) + 5 * v[1] * \
+            k4 = v[3] * pow(v[0], 2) + 5 * v[1] * \
                 (3 * pow(v[1], 2) - 2 * v[0] * v[2])
             k4 = k4 / pow(v[0], 7)
             k.append(k4)
-- 
2.43.0


From 7f6be2787786dd1f9536db3c4265ccb26d9125df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 62/64] fix: imports of the flow sum module

---
 most_queue/misc/flow_sum.py         | 2 +-
 most_queue/theory/utils/flow_sum.py | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/most_queue/misc/flow_sum.py b/most_queue/misc/flow_sum.py
index 353edd0..a0f5347 100755
--- a/most_queue/misc/flow_sum.py
+++ b/most_queue/misc/flow_sum.py
@@ -2,7 +2,7 @@ import matplotlib
 import matplotlib.pyplot as plt
 from most_queue.rand_distribution import Gamma
 from most_queue.sim.flow_sum_sim import FlowSumSim
-from most_queue.theory.flow_sum import SummatorNumeric
+from most_queue.theory.utils.flow_sum import SummatorNumeric
 
 matplotlib.use('TkAgg')
 
diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index 534e46d..c638afc 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -1,13 +1,8 @@
 import copy
 import math
 
-import matplotlib
-import matplotlib.pyplot as plt
-
 from most_queue.rand_distribution import H2_dist
 
-matplotlib.use('TkAgg')
-
 
 class SummatorNumeric:
 
-- 
2.43.0


From afd271ebc7a0c845f2e2099304f086944d5f651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 63/64] fix: utilization of the batch simulator counts the jobs
 of a batch

---
 most_queue/sim/batch_sim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index f8b9184..184bfca 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -33,6 +33,13 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
             summ += p
             self.batch_cdf.append(summ)
 
+    def calc_load(self):
+        """
+        Calculates the load factor of the QS, jobs arrive in batches
+        """
+        mean_batch_size = sum((i + 1) * p for i, p in enumerate(self.batch_prob))
+        return super().calc_load() * mean_batch_size
+
     def arrival(self):
         """
         Actions upon arrival of job to QS
-- 
2.43.0


From 2cdc4f3388e23baf34e41a74a157b9a10d0c6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 64/64] fix: buffer of the fork-join simulator limits the
 waiting parts

---
 most_queue/sim/fj_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 1331a45..a964377 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -54,14 +54,14 @@ class ForkJoinSim(QueueingSystemSimulator):
 
         is_dropped = False
 
-        if self.buffer:  # ограниченная длина очереди
+        if self.buffer is not None:  # ограниченная длина очереди
             if not self.is_SJ:
 
-                if self.queue.size() + self.k - 1 > self.buffer + self.free_channels:
+                if sum(len(q) for q in self.queues) + self.n > self.buffer + self.free_channels:
                     self.dropped += 1
                     is_dropped = True
             else:
-                if self.free_channels == 0 and self.queue.size() + self.k - 1 > self.buffer:
+                if self.free_channels < self.n and self.queue.size() + self.n > self.buffer:
                     self.dropped += 1
                     is_dropped = True
 
-- 
2.43.0


From 9ed24d5da66b39bfebe3f3dcce6b3b141dc93639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 01/49] fix: report 128+signal for a run which dumped core

---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..64a4684 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,7 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From e68314f02a81df27bbc39af801000413361a17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/49] fix: dtlocalize() returned None for a named timezone

---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..13023fc 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From 3d972417e36dd551033f7302f2b3beace254ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 03/49] fix: triggers removed, replaced or still being written
 when they are noticed

---
 dsari/daemon.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 64a4684..2cf47db 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -532,7 +532,8 @@ class Scheduler:
         trigger_file_type = None
         for fn, fn_type in [("trigger.json", "json"), ("trigger.yaml", "yaml")]:
             test_file = os.path.join(self.config.data_dir, "trigger", job.name, fn)
-            if not os.path.exists(test_file):
+            claimed_file = "{}.claimed".format(test_file)
+            if not (os.path.isfile(test_file) or os.path.isfile(claimed_file)):
                 continue
             if fn_type == "yaml" and isinstance(yaml, ImportError):
                 continue
@@ -541,22 +542,26 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
         try:
+            # Claim the trigger before reading it, so that a new one put in its
+            # place in the meantime is not lost
+            if os.path.isfile(trigger_file):
+                os.rename(trigger_file, claimed_file)
+            st = os.stat(claimed_file)
+            if st.st_size == 0 and abs(time.time() - st.st_mtime) < 60.0:
+                # Created, but not written to yet
+                return
+            t = dtlocalize(epoch_to_dt(st.st_mtime))
             j = load_structured_file(
-                trigger_file, file_type=trigger_file_type, delete_during=True
+                claimed_file, file_type=trigger_file_type, delete_during=True
             )
-        except IOError:
-            # Likely during open()
-            # Return silently, otherwise we spam the log during each loop
-            return
         except OSError:
-            # Likely during os.remove()
+            # Removed by somebody else, or likely during open() or os.remove()
             # Return silently, otherwise we spam the log during each loop
             return
         except ValueError as e:
             self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
+                "[{}] Cannot load trigger: {}".format(job.name, str(e))
             )
             return
         if type(j) != dict:
-- 
2.43.0


From 1b7d461eb87e42b5091a96b5295ae7af55cd9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 04/49] fix: reject any malformed trigger instead of ending the
 daemon, honor schedule_timezone

---
 dsari/daemon.py | 53 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 2cf47db..cdbeb36 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,6 +6,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import math
 import os
@@ -22,6 +23,7 @@ except ImportError:
 
 try:
     import dateutil.parser as dateutil_parser
+    import dateutil.tz as dateutil_tz
 except ImportError as e:
     dateutil_parser = e
 
@@ -56,6 +58,20 @@ def wait_deadline(pid, options, deadline, interval=0.05):
         time.sleep(interval)
 
 
+def parse_trigger_time(schedule_time, schedule_timezone=None):
+    if type(schedule_time) in (int, float):
+        return dtlocalize(epoch_to_dt(float(schedule_time)), schedule_timezone)
+    t = dateutil_parser.parse(schedule_time)
+    if schedule_timezone is None:
+        return dtlocalize(t)
+    tz = dateutil_tz.gettz(schedule_timezone)
+    if tz is None:
+        raise ValueError("Invalid schedule_timezone")
+    if t.tzinfo is None:
+        t = t.replace(tzinfo=tz)
+    return dtlocalize(t, tz)
+
+
 def backoff(a, b, min=5.0, max=300.0):
     a = dt_to_epoch(a)
     b = dt_to_epoch(b)
@@ -559,7 +575,7 @@ class Scheduler:
             # Removed by somebody else, or likely during open() or os.remove()
             # Return silently, otherwise we spam the log during each loop
             return
-        except ValueError as e:
+        except Exception as e:
             self.logger.error(
                 "[{}] Cannot load trigger: {}".format(job.name, str(e))
             )
@@ -575,27 +591,34 @@ class Scheduler:
             )
             return
 
+        try:
+            # The trigger data is stored in the database as JSON
+            json.dumps(j)
+        except Exception as e:
+            self.logger.error(
+                "[{}] Cannot load trigger: {}".format(job.name, str(e))
+            )
+            return
+
         if "schedule_time" in j:
-            if type(j["schedule_time"]) in (int, float):
-                t = epoch_to_dt(float(j["schedule_time"]))
-            elif not isinstance(dateutil_parser, ImportError):
-                try:
-                    t = dateutil_parser.parse(j["schedule_time"])
-                except ValueError:
-                    self.logger.error(
-                        '[{}] Invalid schedule_time "{}" for trigger'.format(
-                            job.name, j["schedule_time"]
-                        )
-                    )
-                    return
-            else:
+            if type(j["schedule_time"]) not in (int, float) and isinstance(
+                dateutil_parser, ImportError
+            ):
                 self.logger.error(
                     '[{}] Cannot parse schedule_time "{}" for trigger'.format(
                         job.name, j["schedule_time"]
                     )
                 )
                 return
-        t = dtlocalize(t, j.get("schedule_timezone"))
+            try:
+                t = parse_trigger_time(j["schedule_time"], j.get("schedule_timezone"))
+            except Exception:
+                self.logger.error(
+                    '[{}] Invalid schedule_time "{}" for trigger'.format(
+                        job.name, j["schedule_time"]
+                    )
+                )
+                return
 
         if "environment" in j:
             try:
-- 
2.43.0


From 7309272520ae9107aae80639324348a34add0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 05/49] fix: ignore return data which cannot be stored as JSON

---
 dsari/daemon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index cdbeb36..bb2374b 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -525,9 +525,12 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
+                return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
+                # Must be storable in the database as JSON
+                json.dumps(return_data)
+                run.run_data["return_data"] = return_data
             except Exception:
                 pass
 
-- 
2.43.0


From 2fa97bc5b79e016e6b0c4bc21e8dae1cea7a7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 06/49] fix: act upon signals in the main loop, not wherever
 they arrive

---
 dsari/daemon.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index bb2374b..826a490 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -53,7 +53,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        if dtnow() >= deadline():
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -118,6 +118,7 @@ def parse_args():
 class Scheduler:
     def __init__(self, args):
         self.shutdown = False
+        self.pending_signals = []
         self.args = args
         self.load_config()
 
@@ -202,7 +203,16 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
+        # This may interrupt anything, so only make a note of the signal, and
+        # let the main loop act upon it
+        self.pending_signals.append(signum)
         self.next_wakeup = dtnow()
+
+    def process_signals(self):
+        while self.pending_signals:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -488,7 +498,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, lambda: self.next_wakeup
         )
         if child_pid == 0:
             return child_pid
@@ -765,15 +775,21 @@ class Scheduler:
         for wakeup in self.wakeups:
             if wakeup < self.next_wakeup:
                 self.next_wakeup = wakeup
+        if self.pending_signals:
+            self.next_wakeup = dtnow()
 
     def loop(self):
         while True:
             self.wakeups = []
+            self.process_signals()
             self.process_triggers()
 
             scheduled_runs = copy.copy(self.scheduled_runs)
             random.shuffle(scheduled_runs)
             for run in scheduled_runs:
+                if self.pending_signals:
+                    # This may be a shutdown or a reload
+                    break
                 self.process_scheduled_run(run)
 
             for run in self.running_runs:
-- 
2.43.0


From 5a097557790420e706894c98a97e23b0b2f8cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 07/49] fix: keep running with the current configuration when a
 reload fails

---
 dsari/daemon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 826a490..91e942b 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -221,7 +221,13 @@ class Scheduler:
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot load configuration, keeping the current one: {}".format(e)
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From 7d3acca3a27ab672308f6259f0a494015f6ac74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 08/49] fix: do not sleep for as long as the clock has been set
 back

---
 dsari/daemon.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 91e942b..0890d65 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -43,7 +43,7 @@ from dsari.utils import (
 __version__ = dsari.__version__
 
 
-def wait_deadline(pid, options, deadline, interval=0.05):
+def wait_deadline(pid, options, expired, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
         child_signal = child_exit & 0x7F
@@ -53,7 +53,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline():
+        if expired():
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -504,7 +504,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, lambda: self.next_wakeup
+            -1, os.WNOHANG, self.wakeup_due
         )
         if child_pid == 0:
             return child_pid
@@ -784,6 +784,12 @@ class Scheduler:
         if self.pending_signals:
             self.next_wakeup = dtnow()
 
+    def wakeup_due(self):
+        # The next wakeup is at most 60 seconds away, unless the clock has been
+        # set back in the meantime
+        remaining = self.next_wakeup - dtnow()
+        return not (seconds_to_td(0) < remaining < seconds_to_td(61))
+
     def loop(self):
         while True:
             self.wakeups = []
@@ -807,7 +813,7 @@ class Scheduler:
             self.process_wakeups()
 
             if len(self.running_runs) > 0:
-                while (len(self.running_runs) > 0) and (self.next_wakeup > dtnow()):
+                while (len(self.running_runs) > 0) and not self.wakeup_due():
                     if self.process_next_child() == 0:
                         break
             else:
@@ -818,14 +824,9 @@ class Scheduler:
                 self.logger.debug(
                     "No running jobs, waiting until {}".format(self.next_wakeup)
                 )
-                while True:
-                    now = dtnow()
-                    if self.next_wakeup <= now:
-                        break
-                    elif (self.next_wakeup - now) < seconds_to_td(1):
-                        time.sleep(td_to_seconds(self.next_wakeup - now))
-                    else:
-                        time.sleep(1)
+                while not self.wakeup_due():
+                    remaining = td_to_seconds(self.next_wakeup - dtnow())
+                    time.sleep(min(max(remaining, 0.0), 1.0))
 
 
 def main():
-- 
2.43.0


From 6252dc0586f781324bc515f5c60ea1a2106428d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 09/49] fix: allow max_execution_grace after the SIGTERM, under
 the limits the run was started with

---
 dsari/daemon.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 0890d65..0c27458 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -179,6 +179,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
+                run.term_time = self.shutdown_begin
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
@@ -335,13 +336,19 @@ class Scheduler:
 
     def process_run_execution_time(self, run):
         job = run.job
-        if not job.max_execution:
+        # Configuration changes do not affect runs in progress
+        if not run.max_execution:
             return
-        sigterm_grace = job.max_execution_grace
+        max_execution = run.max_execution
+        sigterm_grace = run.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        if (
+            run.term_sent
+            and delta > (max_execution + sigterm_grace)
+            and now > (run.term_time + sigterm_grace)
+        ):
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -351,18 +358,21 @@ class Scheduler:
                 os.kill(run.pid, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
-        elif delta > job.max_execution:
+        elif delta > max_execution:
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
-                        job.name, run.id, job.max_execution, run.pid
+                        job.name, run.id, max_execution, run.pid
                     )
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+                run.term_time = now
+            self.wakeups.append(
+                max(run.start_time + max_execution, run.term_time) + sigterm_grace
+            )
         else:
-            self.wakeups.append(run.start_time + job.max_execution)
+            self.wakeups.append(run.start_time + max_execution)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
@@ -733,6 +743,8 @@ class Scheduler:
             os.makedirs(os.path.join(self.config.data_dir, "runs", job.name, run.id))
 
         run.start_time = now
+        run.max_execution = job.max_execution
+        run.max_execution_grace = job.max_execution_grace
         run.term_sent = False
         run.kill_sent = False
 
-- 
2.43.0


From 33f1569ee8f61fcef27204a24cd3e460ba427e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 10/49] fix: keep running when a run may not be sent a signal

---
 dsari/daemon.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 0c27458..ec8ccd4 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -160,6 +160,17 @@ class Scheduler:
 
         self.logger.info("Scheduler running")
 
+    def kill_run(self, run, signum):
+        try:
+            os.kill(run.pid, signum)
+        except OSError as e:
+            # For example, the run's program is setuid
+            self.logger.error(
+                "[{} {}] Cannot send signal {} to PID {}: {}".format(
+                    run.job.name, run.id, int(signum), run.pid, e
+                )
+            )
+
     def begin_shutdown(self):
         self.shutdown = True
         self.shutdown_begin = dtnow()
@@ -177,7 +188,7 @@ class Scheduler:
                         job.name, run.id, run.pid
                     )
                 )
-                os.kill(run.pid, signal.SIGTERM)
+                self.kill_run(run, signal.SIGTERM)
                 run.term_sent = True
                 run.term_time = self.shutdown_begin
         elif len(self.running_runs) > 0:
@@ -200,7 +211,7 @@ class Scheduler:
                     job.name, run.id, run.pid
                 )
             )
-            os.kill(run.pid, signal.SIGKILL)
+            self.kill_run(run, signal.SIGKILL)
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
@@ -355,7 +366,7 @@ class Scheduler:
                         job.name, run.id, sigterm_grace, run.pid
                     )
                 )
-                os.kill(run.pid, signal.SIGKILL)
+                self.kill_run(run, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
         elif delta > max_execution:
@@ -365,7 +376,7 @@ class Scheduler:
                         job.name, run.id, max_execution, run.pid
                     )
                 )
-                os.kill(run.pid, signal.SIGTERM)
+                self.kill_run(run, signal.SIGTERM)
                 run.term_sent = True
                 run.term_time = now
             self.wakeups.append(
-- 
2.43.0


From 99596b1ef9ca7f543cb820bfd366978f3de0f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 11/49] fix: shutdown_kill_grace counts from the SIGTERM a run
 was sent

---
 dsari/daemon.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index ec8ccd4..4f7b079 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -172,8 +172,10 @@ class Scheduler:
             )
 
     def begin_shutdown(self):
-        self.shutdown = True
-        self.shutdown_begin = dtnow()
+        now = dtnow()
+        if not self.shutdown:
+            self.shutdown = True
+            self.shutdown_begin = now
         self.scheduled_runs = []
         for run in self.running_runs:
             run.respawn = False
@@ -190,7 +192,7 @@ class Scheduler:
                 )
                 self.kill_run(run, signal.SIGTERM)
                 run.term_sent = True
-                run.term_time = self.shutdown_begin
+                run.term_time = now
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
@@ -199,11 +201,13 @@ class Scheduler:
             return
         if not self.config.shutdown_kill_grace:
             return
-        if dtnow() < (self.shutdown_begin + self.config.shutdown_kill_grace):
-            self.wakeups.append(self.shutdown_begin + self.config.shutdown_kill_grace)
-            return
         for run in self.running_runs:
-            if run.kill_sent:
+            if run.kill_sent or not run.term_sent:
+                continue
+            kill_time = max(self.shutdown_begin, run.term_time)
+            kill_time = kill_time + self.config.shutdown_kill_grace
+            if dtnow() < kill_time:
+                self.wakeups.append(kill_time)
                 continue
             job = run.job
             self.logger.info(
-- 
2.43.0


From 60aaa936830274ff383e4b4147c279214cecd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 12/49] fix: the default schedule_timezone did not follow DST
 changes

---
 dsari/__init__.py | 2 +-
 dsari/utils.py    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..edf8480 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -30,7 +30,7 @@ class Job(object):
         self.name = name
         self.command = []
         self.schedule = None
-        self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone = utils.tzlocal()
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/utils.py b/dsari/utils.py
index 13023fc..4f40904 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -98,6 +98,13 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def tzlocal():
+    """Return the local timezone, which (if possible) knows about DST changes."""
+    if isinstance(dateutil_tz, ImportError):
+        return dtnow().tzinfo
+    return dateutil_tz.tzlocal()
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
-- 
2.43.0


From 93a091e6fc8514dd0630aac8ad7d9f3d9da09414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 13/49] fix: RRULE schedules with an UNTIL

---
 dsari/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 4f40904..361287d 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -127,7 +128,7 @@ def validate_environment_dict(env_in):
 
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     if schedule.upper().startswith("RRULE:"):
@@ -136,7 +137,19 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
+        until = re.search(r"UNTIL=[0-9T]+(Z?)", schedule, re.IGNORECASE)
+        if until and not until.group(1):
+            # This UNTIL is a local time, which dateutil only takes along with
+            # a naive dtstart
+            t = dateutil_rrule.rrulestr(
+                schedule, dtstart=hashed_epoch.replace(tzinfo=None)
+            ).after(start_time.replace(tzinfo=None))
+            if t is not None:
+                t = t.replace(tzinfo=start_time.tzinfo)
+        else:
+            t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
+                start_time
+            )
         if t is not None:
             t = t + subsecond_offset
         return t
-- 
2.43.0


From 9c79d9f021ddfab72abc078c40af7c42720f8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 14/49] fix: run output need not be valid UTF-8

---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 361287d..d2f13eb 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -173,14 +173,14 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From c14f40e86ac864651d52dee40f1941ca50de7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 15/49] fix: dsari-info missed a run which finished while it
 was looking

---
 dsari/info.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..c22fe6e 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -420,9 +420,16 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
+        # Running runs first: a run which finishes in between is then in both
+        # (rather than in neither)
+        running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        )
+        finished_ids = set(run.id for run in runs)
+        runs += [run for run in running if run.id not in finished_ids]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
@@ -534,9 +541,10 @@ class Info:
 
     def cmd_get_run_output(self):
         run_id = self.args.run
-        runs = self.db.get_runs(run_ids=[run_id])
+        # Running runs first, as the run may finish in between
+        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
         if len(runs) == 0:
-            runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
@@ -544,7 +552,7 @@ class Info:
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            pager.write(dsari.utils.read_output(fn) or "")
 
     def cmd_tail_run_output(self):
         while True:
-- 
2.43.0


From ba9f3b4014141269069678062faf5aa37a95af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 16/49] fix: an interrupted dsari-render left partial pages
 which were never regenerated

---
 dsari/render.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..bf73b0c 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,15 @@ def parse_args():
 
 
 def write_html_file(filename, content):
+    # A file which exists is not regenerated, so it must never be a partial one
+    temp_filename = "{}.tmp".format(filename)
     if filename.endswith(".gz"):
-        with gzip.open(filename, "wb") as f:
+        with gzip.open(temp_filename, "wb") as f:
             f.write(content.encode("utf-8"))
     else:
-        with open(filename, "wb") as f:
+        with open(temp_filename, "wb") as f:
             f.write(content.encode("utf-8"))
+    os.replace(temp_filename, filename)
 
 
 class Renderer:
@@ -220,8 +223,7 @@ class Renderer:
         css_filename = os.path.join(base_dir, "darkly.min.css")
         if not os.path.exists(css_filename):
             css_template = self.templates.get_template("darkly.min.css")
-            with open(css_filename, "wb") as f:
-                f.write(css_template.render({}).encode("utf-8"))
+            write_html_file(css_filename, css_template.render({}))
         self.index_template = self.templates.get_template("index.html")
         if (len(self.jobs_written) > 0) or self.args.regenerate:
             context = {
-- 
2.43.0


From f8dcaa4a6284dc7c9906134d06187bd05c3c7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 17/49] fix: an interrupted dsari-render left job and index
 pages out of date

---
 dsari/render.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index bf73b0c..6439f54 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -131,10 +131,15 @@ class Renderer:
             self.job_runs[job.name] = []
         self.runs = []
         self.jobs_written = []
+        self.runs_to_write = []
 
+        # The run pages go last: as long as one is missing, the pages which
+        # list its run are known to be out of date
         self.render_runs()
         self.render_jobs()
         self.render_index()
+        for run, run_html_filename in self.runs_to_write:
+            self.write_run(run, run_html_filename)
 
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
@@ -157,6 +162,12 @@ class Renderer:
         if os.path.isfile(run_html_filename):
             if not self.args.regenerate:
                 return
+        self.runs_to_write.append((run, run_html_filename))
+        if job not in self.jobs_written:
+            self.jobs_written.append(job)
+
+    def write_run(self, run, run_html_filename):
+        job = run.job
         if not os.path.exists(
             os.path.join(self.config.data_dir, "html", job.name, run.id)
         ):
@@ -188,8 +199,6 @@ class Renderer:
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
         write_html_file(run_html_filename, self.run_template.render(context))
-        if job not in self.jobs_written:
-            self.jobs_written.append(job)
 
     def render_jobs(self):
         self.job_template = self.templates.get_template("job.html")
-- 
2.43.0


From 3548b4e8a5b7416286b7f852959c40c4042cbdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 18/49] fix: day of week 7 is Sunday in 5-field cron
 definitions too

---
 dsari/croniter_hash.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..8b0cc86 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -29,6 +29,14 @@ class croniter_hash(croniter.croniter):
             del kwargs["hash_id"]
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
+    @classmethod
+    def value_alias(cls, val, field_index, len_expressions=5):
+        # In the day of week field, 7 is also Sunday.  croniter only knows this
+        # about 5-field definitions, but dsari always has a 6th (seconds).
+        if field_index == 4:
+            len_expressions = 5
+        return super(croniter_hash, cls).value_alias(val, field_index, len_expressions)
+
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
         if not range_end:
             range_end = self.RANGES[position][1]
-- 
2.43.0


From 8c8f7607996245eb4c6c131482d7ca948f1a133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 19/49] fix: wake up in time for a run which was just scheduled

---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 4f7b079..19f003f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -797,6 +797,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(run.schedule_time)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From 4b7a6acaf3a0f77fce6d889ba95895614684d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 20/49] fix: runs were repeated without end in the hour of a
 DST change

---
 dsari/utils.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d2f13eb..9bec528 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -99,6 +99,11 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def dtadd(dt, td):
+    """Add to an aware datetime, also within (or into) a DST change."""
+    return (dt.astimezone(datetime.timezone.utc) + td).astimezone(dt.tzinfo)
+
+
 def tzlocal():
     """Return the local timezone, which (if possible) knows about DST changes."""
     if isinstance(dateutil_tz, ImportError):
@@ -150,20 +155,21 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
             t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
                 start_time
             )
-        if t is not None:
-            t = t + subsecond_offset
-        return t
+        if t is None:
+            return t
+        # This is a wall clock time, which may not exist or exist twice
+        t = dateutil_tz.resolve_imaginary(t)
+        if dt_to_epoch(t) <= dt_to_epoch(start_time):
+            t = t.replace(fold=1)
+        return dtadd(t, subsecond_offset)
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split(" ")) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
-    )
-    return t
+    t = croniter_hash.croniter_hash(
+        schedule, start_time=start_time, hash_id=job_name
+    ).get_next(datetime.datetime)
+    return dtadd(t, subsecond_offset)
 
 
 def json_pretty_print(v):
-- 
2.43.0


From 01c6b296a736c122b38d06a6dc2b3ff65deac6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 21/49] fix: a claimed trigger was lost if another one followed
 before it was read

---
 dsari/daemon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 19f003f..1082685 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -605,8 +605,11 @@ class Scheduler:
         try:
             # Claim the trigger before reading it, so that a new one put in its
             # place in the meantime is not lost
-            if os.path.isfile(trigger_file):
+            if not os.access(claimed_file, os.R_OK):
                 os.rename(trigger_file, claimed_file)
+            elif os.path.isfile(trigger_file):
+                # Will be next
+                self.wakeups.append(dtnow() + seconds_to_td(1.0))
             st = os.stat(claimed_file)
             if st.st_size == 0 and abs(time.time() - st.st_mtime) < 60.0:
                 # Created, but not written to yet
-- 
2.43.0


From 741e5a47d257f6abb6353327c70b3f28dd8ce290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 22/49] fix: count the grace time from after SIGTERM was sent

---
 dsari/daemon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1082685..944e82e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -192,7 +192,7 @@ class Scheduler:
                 )
                 self.kill_run(run, signal.SIGTERM)
                 run.term_sent = True
-                run.term_time = now
+                run.term_time = dtnow()
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
@@ -382,7 +382,7 @@ class Scheduler:
                 )
                 self.kill_run(run, signal.SIGTERM)
                 run.term_sent = True
-                run.term_time = now
+                run.term_time = dtnow()
             self.wakeups.append(
                 max(run.start_time + max_execution, run.term_time) + sigterm_grace
             )
-- 
2.43.0


From 155cb2541153ddf713c2ab007027f4bbf7978956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 23/49] fix: act upon a signal at once even if the clock is set
 back

---
 dsari/daemon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 944e82e..f585a2e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -816,6 +816,8 @@ class Scheduler:
             self.next_wakeup = dtnow()
 
     def wakeup_due(self):
+        if self.pending_signals:
+            return True
         # The next wakeup is at most 60 seconds away, unless the clock has been
         # set back in the meantime
         remaining = self.next_wakeup - dtnow()
-- 
2.43.0


From 82b45f3cb828ec3ebe42efd3a76063ac59a2aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 24/49] fix: RRULE schedules changed their time of day (and
 repeated) with DST

---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 9bec528..6e3bb61 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -139,9 +139,9 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
-        hashed_epoch = start_time - seconds_to_td(
-            ((dt_to_epoch(start_time) - crc) % 86400)
-        )
+        # The same time of day every day, as seen on the clock of the timezone
+        wall_epoch = dt_to_epoch(start_time.replace(tzinfo=datetime.timezone.utc))
+        hashed_epoch = start_time - seconds_to_td(((wall_epoch - crc) % 86400))
         until = re.search(r"UNTIL=[0-9T]+(Z?)", schedule, re.IGNORECASE)
         if until and not until.group(1):
             # This UNTIL is a local time, which dateutil only takes along with
-- 
2.43.0


From 41e321ea9994b04d26b753106e199e7c67b98e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 25/49] fix: SIGINT from the terminal could reach a run which
 was just starting

---
 dsari/daemon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index f585a2e..bd326d3 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -390,14 +390,14 @@ class Scheduler:
             self.wakeups.append(run.start_time + max_execution)
 
     def run_child_executor(self, run):
-        # Reset all handled signals to default
-        for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):
-            signal.signal(signum, signal.SIG_DFL)
-
         # Put the child in its own process group to prevent SIGINT from
         # propagating to the children
         os.setpgid(os.getpid(), 0)
 
+        # Reset all handled signals to default
+        for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):
+            signal.signal(signum, signal.SIG_DFL)
+
         # Close the database in the child
         self.db.child_close_fd()
 
-- 
2.43.0


From 57daee070d19359b7fd881cb99d9d39582e9c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 26/49] fix: a SIGTERM sent to a run which was just starting
 got lost

---
 dsari/daemon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index bd326d3..322fbfb 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -397,6 +397,7 @@ class Scheduler:
         # Reset all handled signals to default
         for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):
             signal.signal(signum, signal.SIG_DFL)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGTERM])
 
         # Close the database in the child
         self.db.child_close_fd()
@@ -768,10 +769,14 @@ class Scheduler:
 
         self.db.insert_running_run(run)
 
+        # A SIGTERM sent to the run must not get lost before its program is
+        # executed, while the handlers of the daemon are still in place
+        sigmask = signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGTERM])
         child_pid = os.fork()
         if child_pid == 0:
             self.run_child_executor(run)
             raise OSError("run_child_executor returned, when it should not have")
+        signal.pthread_sigmask(signal.SIG_SETMASK, sigmask)
         run.pid = child_pid
         self.logger.info(
             "[{} {}] Running PID {}: {}".format(
-- 
2.43.0


From 844990db130b565356cfcbea7504fd3b0a17fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 27/49] fix: keep exporting with the current configuration when
 a reload fails

---
 dsari/prometheus_exporter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..0a33621 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -396,7 +396,12 @@ class PrometheusHandler:
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.prom.load_config()
+            try:
+                self.prom.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot load configuration, keeping the current one: {}".format(e)
+                )
 
     def __call__(self, environ, start_response):
         self.environ = environ
-- 
2.43.0


From 2e7d670106ab997b76a7bad29888a8e794f06911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 28/49] fix: metrics were kept for as long as the clock has
 been set back

---
 dsari/prometheus_exporter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 0a33621..faf6d83 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -17,7 +17,7 @@ from urllib.parse import parse_qs
 import dsari
 import dsari.config
 import dsari.database
-from dsari.utils import dtnow, dt_to_epoch, seconds_to_td
+from dsari.utils import dtnow, dt_to_epoch
 
 __version__ = dsari.__version__
 
@@ -345,11 +345,12 @@ class Prometheus:
         exporter_start = dtnow()
         metrics = {}
 
+        # (not dtnow(), as the system clock may be set back)
         if (self.job_cache is None) or (
-            (self.job_cache_time + seconds_to_td(self.args.job_cache_time)) < dtnow()
+            (self.job_cache_time + self.args.job_cache_time) < time.monotonic()
         ):
             self.job_cache = self.get_job_metrics()
-            self.job_cache_time = dtnow()
+            self.job_cache_time = time.monotonic()
         metrics.update(self.job_cache)
 
         if not self.args.no_running:
-- 
2.43.0


From 15e587065a17b5734b2e142d526dc0f546415cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 29/49] fix: a reload during a request broke it or left metrics
 of the old configuration

---
 dsari/prometheus_exporter.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index faf6d83..a778142 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -126,7 +126,6 @@ class Prometheus:
     def load_config(self):
         self.config = dsari.config.get_config(self.args.config_dir)
         self.job_cache = None
-        self.job_cache_time = None
 
     def build_metrics_text(self, metrics):
         output = ""
@@ -345,13 +344,19 @@ class Prometheus:
         exporter_start = dtnow()
         metrics = {}
 
+        # A reload may happen at any time, and the cache is only good for the
+        # configuration it was made from
+        config = self.config
+        job_cache = self.job_cache
         # (not dtnow(), as the system clock may be set back)
-        if (self.job_cache is None) or (
-            (self.job_cache_time + self.args.job_cache_time) < time.monotonic()
+        if (job_cache is None) or (
+            (job_cache[0] is not config)
+            or ((job_cache[1] + self.args.job_cache_time) < time.monotonic())
         ):
-            self.job_cache = self.get_job_metrics()
-            self.job_cache_time = time.monotonic()
-        metrics.update(self.job_cache)
+            job_metrics = self.get_job_metrics()
+            job_cache = (config, time.monotonic(), job_metrics)
+            self.job_cache = job_cache
+        metrics.update(job_cache[2])
 
         if not self.args.no_running:
             metrics.update(self.get_running_metrics())
-- 
2.43.0


From a4fc7e8943586d4d9b40cbd2d8bf9f507fe18c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 30/49] fix: run output could not be read while it was being
 compressed

---
 dsari/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 6e3bb61..5cf02e3 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -178,9 +178,13 @@ def json_pretty_print(v):
 
 def read_output(filename):
     if os.path.isfile(filename):
-        with open(filename, "rb") as f:
-            return f.read().decode("utf-8", "replace")
-    elif os.path.isfile("{}.gz".format(filename)):
+        try:
+            with open(filename, "rb") as f:
+                return f.read().decode("utf-8", "replace")
+        except FileNotFoundError:
+            # Compressed in the meantime
+            pass
+    if os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
             return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
-- 
2.43.0


From ca87531b8e1394a0d9f586d4fa3c908ec20b29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 31/49] fix: dsari-render failed with a template_dir

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6439f54..bf41576 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -97,8 +97,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From 0e81bc4d9dc5e1f854cb3f6d9bcec53235c5fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 32/49] fix: a SIGHUP during a reload of the exporter could
 leave the older configuration

---
 dsari/prometheus_exporter.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index a778142..ee1b9d7 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -383,6 +383,8 @@ class Prometheus:
 class PrometheusHandler:
     def __init__(self, prom):
         self.prom = prom
+        self.reload_pending = False
+        self.reloading = False
         self.logger = logging.getLogger()
         self.logger.setLevel(logging.DEBUG)
         lh_console = logging.StreamHandler()
@@ -402,12 +404,22 @@ class PrometheusHandler:
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            try:
-                self.prom.load_config()
-            except Exception as e:
-                self.logger.error(
-                    "Cannot load configuration, keeping the current one: {}".format(e)
-                )
+            self.reload_pending = True
+            # If this has interrupted another reload, it is for that one to load
+            # the configuration again, as it could replace it by an older one
+            while self.reload_pending and not self.reloading:
+                self.reloading = True
+                self.reload_pending = False
+                try:
+                    self.prom.load_config()
+                except Exception as e:
+                    self.logger.error(
+                        "Cannot load configuration, keeping the current one: {}".format(
+                            e
+                        )
+                    )
+                finally:
+                    self.reloading = False
 
     def __call__(self, environ, start_response):
         self.environ = environ
-- 
2.43.0


From ea9a1d52690a3e2aa51ff22829bc4299821e2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:02 +0000
Subject: [PATCH 33/49] fix: times in PostgreSQL, MySQL and MongoDB

---
 dsari/database.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..2726227 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -5,6 +5,7 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import copy
+import datetime
 import json
 import os
 
@@ -23,6 +24,13 @@ def get_database(config):
         return SQLite3Database(config)
 
 
+def utc_to_local(dt):
+    """Times of databases which do not store a timezone are in UTC"""
+    if dt.tzinfo is None:
+        dt = dt.replace(tzinfo=datetime.timezone.utc)
+    return dt.astimezone()
+
+
 class BaseDatabase:
     def __init__(self, config):
         self.config = config
@@ -66,7 +74,9 @@ class BaseSQLDatabase(BaseDatabase):
     def _build_insert(self, pairs):
         out = []
         for (k, v) in pairs:
-            if k in ("trigger_data", "run_data"):
+            if k in ("schedule_time", "start_time", "stop_time"):
+                out.append(v.astimezone(datetime.timezone.utc).replace(tzinfo=None))
+            elif k in ("trigger_data", "run_data"):
                 out.append(json.dumps(v))
             else:
                 out.append(v)
@@ -80,7 +90,7 @@ class BaseSQLDatabase(BaseDatabase):
             if type(f[k]) in (int, float):
                 setattr(run, k, epoch_to_dt(f[k]).astimezone())
             else:
-                setattr(run, k, f[k])
+                setattr(run, k, utc_to_local(f[k]))
         if "exit_code" in f.keys():
             run.exit_code = f["exit_code"]
         run.trigger_type = f["trigger_type"]
@@ -615,7 +625,10 @@ class MongoDBDatabase(BaseDatabase):
         ):
             if k not in f:
                 continue
-            setattr(run, k, f[k])
+            if k in ("schedule_time", "start_time", "stop_time"):
+                setattr(run, k, utc_to_local(f[k]))
+            else:
+                setattr(run, k, f[k])
         return run
 
     def get_previous_runs(self, job):
-- 
2.43.0


From 8257dde95b5c2a77305c10d2f9f7f2ac50148d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 34/49] fix: data which PostgreSQL, MySQL or MongoDB cannot
 hold ended the daemon

---
 dsari/daemon.py   |  5 ++---
 dsari/database.py | 28 ++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 322fbfb..91658d8 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,7 +6,6 @@
 
 import argparse
 import copy
-import json
 import logging
 import math
 import os
@@ -571,7 +570,7 @@ class Scheduler:
                     return_data_file, file_type=return_data_file_type
                 )
                 # Must be storable in the database as JSON
-                json.dumps(return_data)
+                self.db.check_data(dict(run.run_data, return_data=return_data))
                 run.run_data["return_data"] = return_data
             except Exception:
                 pass
@@ -641,7 +640,7 @@ class Scheduler:
 
         try:
             # The trigger data is stored in the database as JSON
-            json.dumps(j)
+            self.db.check_data(j)
         except Exception as e:
             self.logger.error(
                 "[{}] Cannot load trigger: {}".format(job.name, str(e))
diff --git a/dsari/database.py b/dsari/database.py
index 2726227..df417ce 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -39,6 +39,10 @@ class BaseDatabase:
     def child_close_fd(self):
         pass
 
+    def check_data(self, data):
+        """Raise an exception if trigger or run data cannot be stored"""
+        json.dumps(data)
+
     def populate_schema(self):
         pass
 
@@ -341,6 +345,9 @@ class PostgreSQLDatabase(BaseSQLDatabase):
         self.db_conn.cursor_factory = psycopg2.extras.DictCursor
         self.populate_schema()
 
+    def check_data(self, data):
+        json.dumps(data, allow_nan=False)
+
     def populate_schema(self):
         sql_statement = """
             SELECT
@@ -420,6 +427,10 @@ class MySQLDatabase(BaseSQLDatabase):
         self.db_conn = MySQLdb.connect(**connection)
         self.populate_schema()
 
+    def check_data(self, data):
+        if len(json.dumps(data)) > 65535:
+            raise ValueError("Too long")
+
     def populate_schema(self):
         sql_statement = """
             SELECT
@@ -590,9 +601,11 @@ class SQLite3Database(BaseSQLDatabase):
 
 class MongoDBDatabase(BaseDatabase):
     def __init__(self, config):
+        import bson
         import pymongo
 
         self.config = config
+        self.bson = bson
         self.pymongo = pymongo
         if ("uri" in config.database) and config.database["uri"]:
             uri = config.database["uri"]
@@ -612,6 +625,13 @@ class MongoDBDatabase(BaseDatabase):
         self.db = self.client[database]
         self.populate_schema()
 
+    def _build_data(self, data):
+        # As it would be read back from the other databases, keys are strings
+        return json.loads(json.dumps(data))
+
+    def check_data(self, data):
+        self.bson.BSON.encode({"data": self._build_data(data)})
+
     def _build_run_from_result(self, job, f):
         run = dsari.Run(job, id=f["run_id"])
         for k in (
@@ -672,8 +692,8 @@ class MongoDBDatabase(BaseDatabase):
                 "schedule_time": run.schedule_time,
                 "start_time": run.start_time,
                 "trigger_type": run.trigger_type,
-                "trigger_data": run.trigger_data,
-                "run_data": run.run_data,
+                "trigger_data": self._build_data(run.trigger_data),
+                "run_data": self._build_data(run.run_data),
             }
         )
 
@@ -687,8 +707,8 @@ class MongoDBDatabase(BaseDatabase):
                 "stop_time": run.stop_time,
                 "exit_code": run.exit_code,
                 "trigger_type": run.trigger_type,
-                "trigger_data": run.trigger_data,
-                "run_data": run.run_data,
+                "trigger_data": self._build_data(run.trigger_data),
+                "run_data": self._build_data(run.run_data),
             }
         )
         self.db.runs_running.delete_many({"run_id": run.id})
-- 
2.43.0


From d0db8ff0fd3bb579d474fd1c7d2442d973d40032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 35/49] fix: tools with nothing to select failed on PostgreSQL
 and MySQL

---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index df417ce..ec7be93 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -295,6 +295,9 @@ class BaseSQLDatabase(BaseDatabase):
         else:
             where = None
             where_in = []
+        if where is not None and not where_in:
+            # "in ()" is not valid SQL
+            return []
         if runs_running:
             table_name = "runs_running"
         else:
-- 
2.43.0


From 9bebc092c44bc081e1933f371a89920c849d4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 36/49] fix: a MySQL connection kept open did not see newer
 runs

---
 dsari/database.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index ec7be93..adad944 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -434,6 +434,14 @@ class MySQLDatabase(BaseSQLDatabase):
         if len(json.dumps(data)) > 65535:
             raise ValueError("Too long")
 
+    def get_runs(self, job_names=None, run_ids=None, runs_running=False):
+        # A transaction which is still open would only ever see the state
+        # at its first read
+        self.db_conn.rollback()
+        return super().get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=runs_running
+        )
+
     def populate_schema(self):
         sql_statement = """
             SELECT
-- 
2.43.0


From 600fabc2648749ba462567a6890b09ff9f04ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 37/49] fix: MySQL took jobs which only differ in case for the
 same

---
 dsari/database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index adad944..d2780e2 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -461,7 +461,7 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_exists:
             sql_statement = """
                 CREATE TABLE runs (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET ascii COLLATE ascii_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
@@ -495,7 +495,7 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_running_exists:
             sql_statement = """
                 CREATE TABLE runs_running (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET ascii COLLATE ascii_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
-- 
2.43.0


From e760ca29da72010af0ed45b71eb16b9759e7a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 38/49] fix: dsari-info: keep a column of a table however
 narrow the terminal is

---
 dsari/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index c22fe6e..da90fca 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -268,7 +268,7 @@ class Info:
             columns = int(os.environ.get("COLUMNS"))
         except Exception:
             pass
-        while len(printable_column_lengths) >= 1:
+        while len(printable_column_lengths) > 1:
             if (
                 sum(printable_column_lengths)
                 + (3 * (len(printable_column_lengths) - 1))
-- 
2.43.0


From a00e07740ab268b0cc9c3bad2d2f5199d5689847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:17 +0000
Subject: [PATCH 39/49] fix: a name must not end in a newline

---
 dsari/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..7f45348 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -80,7 +80,7 @@ class ConfigLoader:
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search(r"^([- A-Za-z0-9_+.:@]+)\Z", job_name):
             return False
         return True
 
-- 
2.43.0


From 7c822aa034727bae5852ef046c00f9b772996304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:12 +0000
Subject: [PATCH 40/49] fix: a command with elements other than strings ended
 the daemon

---
 dsari/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 7f45348..2b770c8 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -239,6 +239,10 @@ class ConfigLoader:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
             job_dict["command"] = shlex.split(job_dict["command"])
+        if type(job_dict["command"]) == list and not all(
+            type(x) == str for x in job_dict["command"]
+        ):
+            raise ConfigError("Job {}: command must be a list of strings".format(job_name))
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
-- 
2.43.0


From 06047edf9f011cd2e9b9b907d9576e435bc25b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:12 +0000
Subject: [PATCH 41/49] fix: a time limit of thousands of years ended the
 daemon

---
 dsari/config.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 2b770c8..f15fe7c 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -51,6 +51,14 @@ class ConfigError(RuntimeError):
     pass
 
 
+def limit_to_td(seconds):
+    td = utils.seconds_to_td(seconds)
+    # Must be usable along with the current time
+    if abs(td) > utils.seconds_to_td(1e10):
+        raise OverflowError("{} seconds is too long".format(seconds))
+    return td
+
+
 class Config:
     def __init__(self):
         self.raw_config = {}
@@ -157,7 +165,7 @@ class ConfigLoader:
             "database": (dict,),
         }
         value_transforms = {
-            "shutdown_kill_grace": utils.seconds_to_td,
+            "shutdown_kill_grace": limit_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
         }
         self.populate_object(
@@ -228,8 +236,8 @@ class ConfigLoader:
         }
         value_transforms = {
             "schedule_timezone": utils.dateutil_tz.gettz,
-            "max_execution": utils.seconds_to_td,
-            "max_execution_grace": utils.seconds_to_td,
+            "max_execution": limit_to_td,
+            "max_execution_grace": limit_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
         }
 
-- 
2.43.0


From 1dfc76e601f4100a28594af1f90fb3ef24899761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 42/49] fix: only the first part of an .xz file of several was
 shown

---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 5cf02e3..bc9d519 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -191,6 +191,6 @@ def read_output(filename):
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
+            return lzma.decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From 0d157c53dd7999eceb095c07858497ab07df2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 43/49] fix: dsari-info run list --job with --run ignored --job

---
 dsari/database.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index d2780e2..5608a67 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -286,18 +286,16 @@ class BaseSQLDatabase(BaseDatabase):
         pass
 
     def get_runs(self, job_names=None, run_ids=None, runs_running=False):
-        if run_ids is not None:
-            where = "run_id"
-            where_in = run_ids
-        elif job_names is not None:
-            where = "job_name"
-            where_in = job_names
-        else:
-            where = None
-            where_in = []
-        if where is not None and not where_in:
-            # "in ()" is not valid SQL
-            return []
+        where = []
+        where_in = []
+        for column, values in (("run_id", run_ids), ("job_name", job_names)):
+            if values is None:
+                continue
+            if not values:
+                # "in ()" is not valid SQL
+                return []
+            where.append("{} in ({})".format(column, ",".join(["{}"] * len(values))))
+            where_in.extend(values)
         if runs_running:
             table_name = "runs_running"
         else:
@@ -311,12 +309,12 @@ class BaseSQLDatabase(BaseDatabase):
         """.format(
             table_name
         )
-        if where is not None:
+        if where:
             sql_statement += """
                 WHERE
-                    {} in ({})
+                    {}
             """.format(
-                where, ",".join(["{}"] * len(where_in))
+                " AND ".join(where)
             )
         sql_statement = self._modify_statement(sql_statement)
         cur = self.db_conn.cursor()
@@ -728,12 +726,11 @@ class MongoDBDatabase(BaseDatabase):
         self.db.runs_running.delete_many({})
 
     def get_runs(self, job_names=None, run_ids=None, runs_running=False):
+        where = {}
         if run_ids is not None:
-            where = {"run_id": {"$in": run_ids}}
-        elif job_names is not None:
-            where = {"job_name": {"$in": job_names}}
-        else:
-            where = {}
+            where["run_id"] = {"$in": run_ids}
+        if job_names is not None:
+            where["job_name"] = {"$in": job_names}
 
         if runs_running:
             collection_name = "runs_running"
-- 
2.43.0


From 69ce62b27e3763d4edc8aff3adece8d5e93a893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 44/49] fix: dsari-render took the last run of a job from the
 order of the rows

---
 dsari/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index bf41576..291b307 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -146,7 +146,7 @@ class Renderer:
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
-        for run in runs:
+        for run in sorted(runs, key=lambda run: run.stop_time):
             self.render_run(run)
 
     def render_run(self, run):
-- 
2.43.0


From ac98d026e31ca53c049d95462ae99064ec0fbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:31 +0000
Subject: [PATCH 45/49] fix: H/15 left out the first time of each hour for some
 jobs

---
 dsari/croniter_hash.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 8b0cc86..1426631 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -82,12 +82,9 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
-                int(m.group(3)),
-                int(m.group(4)),
-            )
+            step = int(m.group(4))
+            offset = self._hash_do(id, idx, step, hash_type=m.group(1)) % step
+            return "{}-{}/{}".format(offset + int(m.group(2)), int(m.group(3)), step)
 
         # Example: H(0-29) -> 12
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)$", item)
@@ -101,11 +98,11 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
-                self.RANGES[idx][1],
-                int(m.group(2)),
-            )
+            step = int(m.group(2))
+            begin, end = self.RANGES[idx]
+            # (a whole step is no offset, or the first time would be missing)
+            offset = (self._hash_do(id, idx, step, hash_type=m.group(1)) - begin) % step
+            return "{}-{}/{}".format(offset + begin, end, step)
 
         # Everything else
         return item
-- 
2.43.0


From 4ae6c237fd2e9855160fcde3b9586b29a2bd3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:41 +0000
Subject: [PATCH 46/49] fix: H(0-0) was taken for the whole range

---
 dsari/croniter_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 1426631..d82f99d 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -38,7 +38,7 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, cls).value_alias(val, field_index, len_expressions)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
         if not range_begin:
             range_begin = self.RANGES[position][0]
-- 
2.43.0


From 880a9a86e84705a3360461ddac72870416606513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:20 +0000
Subject: [PATCH 47/49] fix: RRULE schedules changed their day or interval with
 every reload and run

---
 dsari/utils.py | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index bc9d519..fe802b6 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -9,6 +9,7 @@ import copy
 import datetime
 import gzip
 import json
+import math
 import os
 import re
 
@@ -131,6 +132,45 @@ def validate_environment_dict(env_in):
     return env_out
 
 
+def get_hashed_epoch(schedule, crc, start_time):
+    """Return the time a recurrence rule is counted from.
+
+    It lies shortly before the start time, but must not depend on it: the rule
+    is to give the same times, whenever it is evaluated.
+    """
+    m = re.search(r"FREQ=(\w+)", schedule, re.IGNORECASE)
+    freq = m.group(1).upper() if m else None
+    m = re.search(r"INTERVAL=(\d+)", schedule, re.IGNORECASE)
+    interval = max(int(m.group(1)), 1) if m else 1
+
+    # The same time of day every day, as seen on the clock of the timezone
+    wall_epoch = dt_to_epoch(start_time.replace(tzinfo=datetime.timezone.utc))
+    hashed_epoch = start_time - seconds_to_td((wall_epoch - crc) % 86400)
+    hashed_day = crc // 86400
+    try:
+        if freq == "YEARLY":
+            year = start_time.year - 1
+            return hashed_epoch.replace(
+                year=year - (year - crc) % interval,
+                month=hashed_day // 28 % 12 + 1,
+                day=hashed_day % 28 + 1,
+            )
+        if freq == "MONTHLY":
+            month = start_time.year * 12 + start_time.month - 2
+            month -= (month - crc) % interval
+            return hashed_epoch.replace(
+                year=month // 12, month=month % 12 + 1, day=hashed_day % 28 + 1
+            )
+        period = {"WEEKLY": 604800, "HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}
+        period = period.get(freq, 86400) * interval
+        # Whole days, so that the time of day remains
+        period = period * 86400 // math.gcd(period, 86400)
+        return start_time - seconds_to_td((wall_epoch - crc) % period)
+    except (ValueError, OverflowError):
+        # The interval is longer than time itself
+        return hashed_epoch
+
+
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
         start_time = dtnow()
@@ -139,9 +179,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
-        # The same time of day every day, as seen on the clock of the timezone
-        wall_epoch = dt_to_epoch(start_time.replace(tzinfo=datetime.timezone.utc))
-        hashed_epoch = start_time - seconds_to_td(((wall_epoch - crc) % 86400))
+        hashed_epoch = get_hashed_epoch(schedule, crc, start_time)
         until = re.search(r"UNTIL=[0-9T]+(Z?)", schedule, re.IGNORECASE)
         if until and not until.group(1):
             # This UNTIL is a local time, which dateutil only takes along with
-- 
2.43.0


From 4a6f5f02dd8519197358a6ea681e7cfcf9441532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:20 +0000
Subject: [PATCH 48/49] fix: a reload with an RRULE of INTERVAL=0 made the
 daemon hang

---
 dsari/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index fe802b6..a318e09 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -140,8 +140,11 @@ def get_hashed_epoch(schedule, crc, start_time):
     """
     m = re.search(r"FREQ=(\w+)", schedule, re.IGNORECASE)
     freq = m.group(1).upper() if m else None
-    m = re.search(r"INTERVAL=(\d+)", schedule, re.IGNORECASE)
-    interval = max(int(m.group(1)), 1) if m else 1
+    intervals = re.findall(r"INTERVAL=([^;\s]*)", schedule, re.IGNORECASE)
+    interval = int(intervals[-1]) if intervals else 1
+    if any(int(x) < 1 for x in intervals):
+        # dateutil would never come to an end
+        raise ValueError("INTERVAL must be positive")
 
     # The same time of day every day, as seen on the clock of the timezone
     wall_epoch = dt_to_epoch(start_time.replace(tzinfo=datetime.timezone.utc))
-- 
2.43.0


From 5ab721d78310025cc085bcee5ee4658b44e8539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:18 +0000
Subject: [PATCH 49/49] fix: run without croniter or python-dateutil (manual
 triggers only)

The packages are optional, but without python-dateutil any configuration with
a job was refused with an AttributeError, and without croniter one with a cron
schedule.
---
 dsari/config.py | 5 ++++-
 dsari/utils.py  | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index f15fe7c..cd6b228 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -235,7 +235,7 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
+            "schedule_timezone": utils.gettz,
             "max_execution": limit_to_td,
             "max_execution_grace": limit_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
@@ -258,6 +258,9 @@ class ConfigLoader:
         if job.schedule is not None:
             try:
                 utils.get_next_schedule_time(job.schedule, job.name)
+            except ImportError:
+                # Manual triggers only
+                job.schedule = None
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
diff --git a/dsari/utils.py b/dsari/utils.py
index a318e09..31232b8 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -112,6 +112,13 @@ def tzlocal():
     return dateutil_tz.tzlocal()
 
 
+def gettz(name):
+    """Return a timezone, or just its name if nothing is known about timezones."""
+    if isinstance(dateutil_tz, ImportError):
+        return name
+    return dateutil_tz.gettz(name)
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
-- 
2.43.0


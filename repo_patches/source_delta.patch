From 139bc937a330d965d5f2f322369e8b1b29084bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 01/35] fix: accept DAP header values that contain ": "

---
 src/ansibug/dap/_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 6ffcb83..10f2267 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -52,7 +52,7 @@ class DebugAdapterConnection:
             return None
 
         raw_headers = bytes(self._in_buffer[:header_idx])
-        headers = dict(h.split(b": ", 2) for h in raw_headers.split(b"\r\n"))
+        headers = dict(h.split(b": ", 1) for h in raw_headers.split(b"\r\n"))
         if b"Content-Length" not in headers:
             raise ValueError("Expected Content-Length header before message payload but none found")
 
-- 
2.43.0


From 7d9f1185d9723fafc00b148b9cf5a9deafff99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 02/35] fix: do not let StepIn targetId overwrite the thread id

---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index 3d391e3..efd852a 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -488,7 +488,7 @@ class StepInRequest(
         "arguments": {
             "threadId": "thread_id",
             "singleThread": "single_thread",
-            "targetId": "thread_id",
+            "targetId": "target_id",
             "granularity": "granularity",
         }
     },
-- 
2.43.0


From ad61f3dd55898bbf328a73db321fd162412489da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 03/35] fix: keep stepping out while inside a nested include

---
 .../ansibug/dap/plugins/strategy/debug.py         | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..a6d4160 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -263,11 +263,16 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
-        task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
+        # If step out, we only want to break if none of the current task's
+        # parents match the stopped task stored at state change (the include).
+        # If one matches it means we are still in the same include scope or in
+        # an include nested inside it.
+        parent: Task | None = task
+        while parent := self._get_parent_task(parent):
+            if parent._uuid == self._stopped_task._uuid:
+                return False
+
+        return True
 
     def _get_parent_task(
         self,
-- 
2.43.0


From 31b395c5e680b3dc9afe9447d70c736afa1a029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 04/35] fix: check every breakpoint on a task when one has a
 false condition

---
 src/ansibug/_debuggee.py                                 | 8 ++++++++
 .../ansibug/dap/plugins/strategy/debug.py                | 9 +--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..955684f 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -349,6 +349,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         path: str,
         line: int,
+        eval_condition: t.Callable[[str], bool] | None = None,
     ) -> AnsibleLineBreakpoint | None:
         """Gets the breakpoint for the path/line specified.
 
@@ -359,6 +360,9 @@ class AnsibleDebugger(metaclass=Singleton):
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
+            eval_condition: Called with the condition of a conditional
+                breakpoint, the breakpoint is skipped if it returns False. The
+                condition is ignored if this is not set.
 
         Returns:
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
@@ -370,6 +374,10 @@ class AnsibleDebugger(metaclass=Singleton):
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
             ):
+                condition = b.source_breakpoint.condition
+                if eval_condition and condition and not eval_condition(condition):
+                    continue
+
                 return b
 
         return None
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index a6d4160..7307c14 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -589,14 +589,7 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
-
+            line_breakpoint = self._debugger.get_breakpoint(path, line, eval_condition)
             stopped_event = thread.should_break(task, line_breakpoint)
 
             if stopped_event:
-- 
2.43.0


From d67e97221ad699958b1a6ecdee85cc4c5503428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 05/35] fix: treat a breakpoint condition that fails to run as
 false

---
 .../ansibug/dap/plugins/strategy/debug.py             | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 7307c14..94dd064 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -24,7 +24,7 @@ import traceback
 import typing as t
 
 from ansible import constants as C
-from ansible.errors import AnsibleError, AnsibleUndefinedVariable
+from ansible.errors import AnsibleUndefinedVariable
 from ansible.executor.play_iterator import PlayIterator
 from ansible.executor.task_queue_manager import TaskQueueManager
 from ansible.executor.task_result import TaskResult
@@ -44,7 +44,6 @@ from ansible.vars.manager import VariableManager
 # minimum supported version.
 POST_DATATAGGING = False
 try:
-    from ansible.errors import AnsibleBrokenConditionalError
     from ansible.template import trust_as_template
     from ansible.utils.display import _DeferredWarningContext
 
@@ -572,7 +571,9 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return templar.evaluate_conditional(template)
-                except (AnsibleBrokenConditionalError, AnsibleUndefinedVariable):
+                except Exception:
+                    # The condition is provided by the client, a failure must
+                    # not affect the playbook run.
                     return False
 
         else:
@@ -583,7 +584,9 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return cond.evaluate_conditional(templar, templar.available_variables)
-                except AnsibleError:
+                except Exception:
+                    # The condition is provided by the client, a failure must
+                    # not affect the playbook run.
                     return False
 
         with self._waiting_condition:
-- 
2.43.0


From 6dc93da8c3ce79f4f628e9e7b998a9fe7f286994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 06/35] fix: step from the task of an exception stop

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 94dd064..639d1ef 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -223,6 +223,9 @@ class AnsibleThread:
                 details = get_on_skipped_details(result._result)
 
         if details:
+            # Like a breakpoint stop, the step_* actions are relative to the
+            # task the thread stopped at.
+            self._stopped_task = result._task
             self.state = ThreadState.WAIT
             return ansibug.dap.StoppedEvent(
                 reason=ansibug.dap.StoppedReason.EXCEPTION,
-- 
2.43.0


From 1b91e5a55fccebc95656a1dadf74a6db4c2e68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 07/35] fix: stop on a failure inside the rescue or always
 section of a block

---
 .../ansibug/dap/plugins/strategy/debug.py             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 639d1ef..3829e1c 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -206,11 +206,20 @@ class AnsibleThread:
             is_rescued = False
 
             task = result._task
+            seen = {task._uuid}
             while task := task._parent:
-                if isinstance(task, Block) and task.rescue:
+                # A rescue does not apply to a failure inside the rescue or
+                # always sections of the same block.
+                if (
+                    isinstance(task, Block)
+                    and task.rescue
+                    and not any(t._uuid in seen for t in task.rescue + (task.always or []))
+                ):
                     is_rescued = True
                     break
 
+                seen.add(task._uuid)
+
             if should_stop_on_error and not is_rescued:
                 details = get_on_failed_details(result._result)
 
-- 
2.43.0


From 710e74713f54966d9f8a1161fd3515fc1696f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 08/35] fix: drop the stack frames of every finished include

---
 .../ansibug/dap/plugins/strategy/debug.py     | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 3829e1c..f9ed7f6 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -530,25 +530,28 @@ class AnsibleDebugState(DebugState):
         if not thread:
             thread = self._add_thread(host)
 
-        if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
+        # Only the frames of the includes this task is in are kept, anything
+        # above those belongs to a task or include that has finished.
+        parent_ids = set()
+        parent = task
+        while parent := parent._parent:
+            parent_ids.add(parent._uuid)
+
+        while thread.stack_frames:
             last_frame_id = thread.stack_frames[0]
             last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
-                thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
-                    del self.variables[variable_id]
+            if last_frame.task._uuid in parent_ids:
+                break
+
+            thread.stack_frames.pop(0)
+            self.stackframes.pop(last_frame_id)
+            for variable_id in last_frame.variables:
+                del self.variables[variable_id]
 
+        if thread.stack_frames:
             # If this is the first task in a role included by include_role we
             # need to scan the tasks and handlers to validate the breakpoints
-            if (
-                parent_task
-                and last_frame.task
-                and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
-            ):
+            if last_frame.task.action in C._ACTION_INCLUDE_ROLE and hasattr(task, "_role"):
                 task_handlers = task._role.get_task_blocks()
                 role_handlers = task._role.get_handler_blocks(task.play)
                 register_block_breakpoints(self._debugger, task_handlers)
-- 
2.43.0


From 82e07db535202e7cffb36696d3bfa7b7c7221775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 09/35] fix: apply changes to values nested in module options
 and host variables

---
 .../ansibug/dap/plugins/strategy/debug.py     | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index f9ed7f6..376ea3b 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -344,6 +344,9 @@ class AnsibleVariable:
     ) -> None:
         self.id = id
         self.stackframe = stackframe
+        # Called when the value this variable is for has been changed. Set when
+        # the value is inside another variable that may need to know of it.
+        self.on_change: t.Callable[[], None] | None = None
 
     @property
     def named_variables(self) -> int:
@@ -353,6 +356,18 @@ class AnsibleVariable:
     def indexed_variables(self) -> int:
         return 0
 
+    def child_changed(
+        self,
+        index: str,
+        value: t.Any,
+    ) -> None:
+        """Called when the contents of a container in this variable changed."""
+        self._changed()
+
+    def _changed(self) -> None:
+        if self.on_change:
+            self.on_change()
+
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         raise NotImplementedError()  # pragma: nocover
 
@@ -395,6 +410,7 @@ class AnsibleListVariable(AnsibleVariable):
         value: t.Any,
     ) -> None:
         self._ds[int(index)] = value  # type: ignore[index]
+        self._changed()
 
 
 class AnsibleDictVariable(AnsibleVariable):
@@ -422,6 +438,7 @@ class AnsibleDictVariable(AnsibleVariable):
     ) -> None:
         if index in self._ds:
             del self._ds[index]  # type: ignore[attr-defined]
+            self._changed()
 
     def set(
         self,
@@ -429,6 +446,7 @@ class AnsibleDictVariable(AnsibleVariable):
         value: t.Any,
     ) -> None:
         self._ds[index] = value  # type: ignore[index]
+        self._changed()
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
@@ -444,6 +462,9 @@ class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
         super().__init__(id, stackframe, value)
         self._raw_ds = raw
 
+    def child_changed(self, index: str, value: t.Any) -> None:
+        self._raw_ds[index] = value
+
     def remove(self, index: str) -> None:
         super().remove(index)
         self._raw_ds.pop(index, None)
@@ -468,6 +489,9 @@ class AnsibleHostVarsVariable(AnsibleDictVariable):
         self._host = host
         self._variable_manager = variable_manager
 
+    def child_changed(self, index: str, value: t.Any) -> None:
+        self._variable_manager.set_host_variable(self._host, index, value)
+
     def set(self, index: str, value: t.Any) -> None:
         super().set(index, value)
         # Persisting hostvars need to be done as a host_variable.
@@ -901,7 +925,7 @@ class AnsibleDebugState(DebugState):
         for name, value in variable.get():
             child_var: AnsibleVariable | None = None
             if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
-                child_var = self._add_variable(variable.stackframe, value)
+                child_var = self._add_child_variable(variable, name, value)
             elif dataclasses.is_dataclass(value) and not isinstance(value, type):
                 child_var = self._add_variable(variable.stackframe, dataclasses.asdict(value))
 
@@ -945,7 +969,7 @@ class AnsibleDebugState(DebugState):
         if isinstance(new_value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(
             new_value, str
         ):
-            new_container = self._add_variable(variable.stackframe, new_value)
+            new_container = self._add_child_variable(variable, request.name, new_value)
 
         return ansibug.dap.SetVariableResponse(
             request_seq=request.seq,
@@ -1015,6 +1039,17 @@ class AnsibleDebugState(DebugState):
 
         return var
 
+    def _add_child_variable(
+        self,
+        parent: AnsibleVariable,
+        name: str,
+        value: collections.abc.Mapping[t.Any, t.Any] | collections.abc.Sequence[t.Any],
+    ) -> AnsibleVariable:
+        var = self._add_variable(parent.stackframe, value)
+        var.on_change = lambda: parent.child_changed(name, value)
+
+        return var
+
     def _resume_threads(
         self,
         thread_ids: collections.abc.Iterable[int],
-- 
2.43.0


From f80fcfb74537f9f81ed3aef1be2c41ad1945fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 10/35] fix: change variables with non-string keys instead of
 adding a copy

---
 .../ansibug/dap/plugins/strategy/debug.py     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 376ea3b..24f9a43 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -436,8 +436,9 @@ class AnsibleDictVariable(AnsibleVariable):
         self,
         index: str,
     ) -> None:
-        if index in self._ds:
-            del self._ds[index]  # type: ignore[attr-defined]
+        key = self._get_key(index)
+        if key in self._ds:
+            del self._ds[key]  # type: ignore[attr-defined]
             self._changed()
 
     def set(
@@ -445,9 +446,21 @@ class AnsibleDictVariable(AnsibleVariable):
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        self._ds[self._get_key(index)] = value  # type: ignore[index]
         self._changed()
 
+    def _get_key(
+        self,
+        index: str,
+    ) -> t.Any:
+        # The client only knows the string form of keys which are not strings.
+        if index not in self._ds:
+            for key in self._ds:
+                if str(key) == index:
+                    return key
+
+        return index
+
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
     """AnsibleDictVariable with a secondary/raw datastore to replicate changes to."""
-- 
2.43.0


From 32b044776fd250533dffee74efdb7ef7435a23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 11/35] fix: match path mapping roots at path component
 boundaries

---
 src/ansibug/_debuggee.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 955684f..8f762f8 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -48,6 +48,28 @@ class PathMapping:
     local_root: str
     remote_root: str
 
+    def to_local(self, path: str) -> str | None:
+        """Get the local path of a remote path, None if it is not under the remote root."""
+        return self._convert(path, self.remote_root, self.local_root)
+
+    def to_remote(self, path: str) -> str | None:
+        """Get the remote path of a local path, None if it is not under the local root."""
+        return self._convert(path, self.local_root, self.remote_root)
+
+    def _convert(
+        self,
+        path: str,
+        from_root: str,
+        to_root: str,
+    ) -> str | None:
+        # The root is a directory so only a whole path component can match it.
+        base = from_root.rstrip("/\\")
+        rest = path[len(base) :]
+        if not path.startswith(base) or (rest and rest[0] not in "/\\"):
+            return None
+
+        return (to_root.rstrip("/\\") + rest) or to_root
+
 
 @dataclasses.dataclass(frozen=True)
 class DebugConfiguration:
@@ -529,8 +551,9 @@ class AnsibleDebugger(metaclass=Singleton):
             str: The converted path.
         """
         for mapping in self._debug_config.path_mappings:
-            if path.startswith(mapping.remote_root):
-                return mapping.local_root + path[len(mapping.remote_root) :]
+            local_path = mapping.to_local(path)
+            if local_path is not None:
+                return local_path
 
         else:
             return path
@@ -685,8 +708,9 @@ class AnsibleDebugger(metaclass=Singleton):
         # source mappings are keyed by the Ansible paths.
         actual_path = source_path
         for mapping in self._debug_config.path_mappings:
-            if actual_path.startswith(mapping.local_root):
-                actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
+            remote_path = mapping.to_remote(source_path)
+            if remote_path is not None:
+                actual_path = remote_path
                 break
 
         source_info = self._source_info.get(actual_path, None)
-- 
2.43.0


From 2e5c8343b340066c2c9a7f83fb113eab54e2fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 12/35] fix: keep ? and # in the path of a UDS address

---
 src/ansibug/_socket_helper.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..aa34141 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -81,14 +81,21 @@ def parse_addr_string(
             raise ValueError("Specifying a tcp address must include the port")
 
     elif value_split.scheme == "uds":
-        if value_split.netloc and value_split.path:
+        # The characters ? and # have no special meaning in a path so this
+        # cannot use the values from urlsplit.
+        netloc, path = "", value.split(":", 1)[1]
+        if path.startswith("//"):
+            netloc, sep, path = path[2:].partition("/")
+            path = sep + path
+
+        if netloc and path:
             raise ValueError("Specifying a uds address must only contain the port or netloc, not both")
 
-        elif value_split.netloc:
-            return os.path.join(tempfile.gettempdir(), value_split.netloc)
+        elif netloc:
+            return os.path.join(tempfile.gettempdir(), netloc)
 
-        elif value_split.path:
-            return value_split.path
+        elif path:
+            return path
 
         else:
             return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
-- 
2.43.0


From 6f4ccc80a5a73a404318a8219775c7fba0542557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 13/35] fix: cancel every operation when the socket of one is
 not connected

---
 src/ansibug/_socket_helper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index aa34141..f1c4ad6 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -346,7 +346,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except OSError as e:
+                    # The socket is not connected (anymore), the remaining
+                    # operations still need to be cancelled.
+                    log.debug("Cancel function with id %d failed: %s", cancel_id, e)
 
             self._cancel_funcs = {}
 
-- 
2.43.0


From 16d63cd2a36bf6b85b788c1acfd094fac82cffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 14/35] fix: end the session when no play is running

---
 src/ansibug/_debuggee.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 8f762f8..e270281 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -260,6 +260,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._strategy_connected = threading.Condition()
         self._strategy: DebugState | None = None
         self._terminated = False
+        self._shutdown = False
 
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
@@ -484,6 +485,12 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         log.debug("Shutting down DebugServer")
 
+        # A request waiting for the strategy of the next play would block the
+        # shutdown.
+        with self._strategy_connected:
+            self._shutdown = True
+            self._strategy_connected.notify_all()
+
         if not from_send_thread and self._send_thread:
             # If we aren't connected we need to cancel the queue start method
             # before trying to join the thread. If we are connected we want to
@@ -619,8 +626,11 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
-            return t.cast(DebugState, self._strategy)
+            self._strategy_connected.wait_for(lambda: self._strategy is not None or self._shutdown)
+            if self._strategy is None:
+                raise Exception("The playbook run has ended")
+
+            return self._strategy
 
     @functools.singledispatchmethod
     def process_message(
@@ -895,8 +905,13 @@ class AnsibleDebugger(metaclass=Singleton):
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        # There may be no strategy yet, or anymore, to tell about this.
+        with self._strategy_connected:
+            if self._strategy:
+                self._strategy.disconnect(msg)
+
+        # Ensure the playbook does not wait for a client that has gone.
+        self._configuration_done.set()
 
     def _send_task(
         self,
-- 
2.43.0


From 6b227eda03fa3ab6fe6de596bf10bc476ed8cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 15/35] fix: end the debug adapter when stdin is closed

---
 src/ansibug/_debug_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..92568bd 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -281,6 +281,9 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                # The client has gone without sending a disconnect request.
+                break
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDIN: %s", data.decode())
-- 
2.43.0


From 0abc9cb893080f6cba64d0b9880adc7f35ae20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 16/35] fix: answer requests after the playbook has ended

---
 src/ansibug/_debug_adapter.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 92568bd..c8593d7 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -300,7 +300,7 @@ class DAServer:
                         is_connected = False
                         self._send_disconnect(msg, self._debuggee)
                     else:
-                        self._debuggee.send(msg)
+                        self._send_request(msg, self._debuggee)
 
                 else:
                     self._process_msg(msg)
@@ -371,6 +371,24 @@ class DAServer:
 
         return req_no
 
+    def _send_request(
+        self,
+        msg: dap.Request,
+        debuggee: MPQueue,
+    ) -> None:
+        try:
+            debuggee.send(msg)
+        except OSError as e:
+            # The playbook might have ended already, this must not stop the
+            # client from ending the session with a disconnect request.
+            self.send_to_client(
+                dap.ErrorResponse(
+                    command=msg.command,
+                    request_seq=msg.seq,
+                    message=f"Failed to send request to the playbook: {e}",
+                )
+            )
+
     def _send_disconnect(
         self,
         msg: dap.DisconnectRequest,
-- 
2.43.0


From 0a49f75fa5ab3feb21cf0d41a78a46843a01afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 17/35] fix: add and remove threads under the lock of the
 client requests

---
 .../ansibug/dap/plugins/strategy/debug.py     | 45 +++++++++++--------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 24f9a43..46ea677 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -706,17 +706,18 @@ class AnsibleDebugState(DebugState):
         adapter. This is used by the strategy plugin when the inventory has
         been refreshed or the strategy is complete.
         """
-        for tid in list(self.threads.keys()):
-            if tid == 1:
-                continue
-
-            del self.threads[tid]
-            self._debugger.queue_msg(
-                ansibug.dap.ThreadEvent(
-                    reason="exited",
-                    thread_id=tid,
+        with self._waiting_condition:
+            for tid in list(self.threads.keys()):
+                if tid == 1:
+                    continue
+
+                del self.threads[tid]
+                self._debugger.queue_msg(
+                    ansibug.dap.ThreadEvent(
+                        reason="exited",
+                        thread_id=tid,
+                    )
                 )
-            )
 
     def continue_request(
         self,
@@ -726,7 +727,7 @@ class AnsibleDebugState(DebugState):
             self._resume_threads([request.thread_id], ThreadState.CONTINUE)
             all_threads_continued = False
         else:
-            self._resume_threads(self.threads.keys(), ThreadState.CONTINUE)
+            self._resume_threads(None, ThreadState.CONTINUE)
             all_threads_continued = True
 
         return ansibug.dap.ContinueResponse(
@@ -739,7 +740,7 @@ class AnsibleDebugState(DebugState):
         request: ansibug.dap.DisconnectRequest,
     ) -> None:
         state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
-        self._resume_threads(list(self.threads.keys()), state)
+        self._resume_threads(None, state)
 
     def get_scopes(
         self,
@@ -923,10 +924,11 @@ class AnsibleDebugState(DebugState):
         self,
         request: ansibug.dap.ThreadsRequest,
     ) -> ansibug.dap.ThreadsResponse:
-        return ansibug.dap.ThreadsResponse(
-            request_seq=request.seq,
-            threads=[t.to_dap() for t in self.threads.values()],
-        )
+        with self._waiting_condition:
+            return ansibug.dap.ThreadsResponse(
+                request_seq=request.seq,
+                threads=[t.to_dap() for t in self.threads.values()],
+            )
 
     def get_variables(
         self,
@@ -1017,10 +1019,13 @@ class AnsibleDebugState(DebugState):
     ) -> AnsibleThread:
         tid = self._debugger.next_thread_id()
 
-        thread = self.threads[tid] = AnsibleThread(
+        thread = AnsibleThread(
             id=tid,
             host=host,
         )
+        with self._waiting_condition:
+            self.threads[tid] = thread
+
         self._debugger.queue_msg(
             ansibug.dap.ThreadEvent(
                 reason="started",
@@ -1065,11 +1070,13 @@ class AnsibleDebugState(DebugState):
 
     def _resume_threads(
         self,
-        thread_ids: collections.abc.Iterable[int],
+        thread_ids: collections.abc.Iterable[int] | None,
         thread_state: ThreadState,
     ) -> None:
+        # The threads are added and removed in the thread running the play so
+        # all of them, when no ids are specified, are only known with the lock.
         with self._waiting_condition:
-            for tid in thread_ids:
+            for tid in self.threads if thread_ids is None else thread_ids:
                 self.threads[tid].set_state(thread_state)
 
             self._waiting_condition.notify_all()
-- 
2.43.0


From eee1d21b60aec0594e966301a363cc857a34beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 18/35] fix: drop the exception breakpoints when the client has
 gone

Breakpoints are cleared on disconnect and shutdown but the exception
filters were kept, so the next failure stopped a playbook nobody debugs.
---
 src/ansibug/_debuggee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index e270281..b0fbef4 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -507,6 +507,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
         self._configuration_done.set()
@@ -904,6 +905,7 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # There may be no strategy yet, or anymore, to tell about this.
         with self._strategy_connected:
-- 
2.43.0


From 699ba566ee7641a1e4b26f36008e06f721be997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 19/35] fix: do not wait for the configuration after the
 connection has failed

With the connect mode a playbook that could not connect to the debug
adapter waited forever for the configuration done request.
---
 src/ansibug/_debuggee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index b0fbef4..8781c63 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -945,6 +945,9 @@ class AnsibleDebugger(metaclass=Singleton):
             log.exception("Unknown error in Debuggee send thread")
 
         finally:
+            # The client cannot configure anything anymore, the playbook must
+            # not wait for it if the connection has failed.
+            self._configuration_done.set()
             mp_queue.stop()
             self._adapter_connected = False
 
-- 
2.43.0


From 9df0592d86f5de30d723c4f07295680d0030be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 20/35] fix: keep the playbook terminated for threads and plays
 that start later

A disconnect that terminates the debuggee was undone when the connection
closed before the strategy was woken up, and both it and a terminate
request were lost between plays or for a host that had not started yet.
---
 src/ansibug/_debuggee.py                           | 10 +++++++++-
 .../ansibug/dap/plugins/strategy/debug.py          | 14 ++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 8781c63..52b0879 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -297,6 +297,11 @@ class AnsibleDebugger(metaclass=Singleton):
         #     just have to use the last entry
         self._source_info: dict[str, list[int | None]] = {}
 
+    @property
+    def terminated(self) -> bool:
+        """Whether the client has requested the playbook to be terminated."""
+        return self._terminated
+
     @property
     def should_stop_on_error(self) -> bool:
         return self._breakpoint_exceptions.get(ExceptionBreakpointType.ON_ERROR.value, False)
@@ -821,7 +826,6 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.TerminateRequest,
     ) -> None:
-        self._terminated = True
         self._disconnect(dap.DisconnectRequest(terminate_debuggee=True))
         self.queue_msg(dap.TerminateResponse(request_seq=msg.seq))
         self._send_queue.put(None)
@@ -903,6 +907,10 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.DisconnectRequest,
     ) -> None:
+        # This is remembered for the threads and plays that start after this.
+        if msg.terminate_debuggee:
+            self._terminated = True
+
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
         self._breakpoint_exceptions = {}
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 46ea677..9d07895 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -608,6 +608,7 @@ class AnsibleDebugState(DebugState):
         # a path. We can't set breakpoints on these tasks so skip the check.
         task_path = task.get_path()
         if not task_path:
+            self._check_terminated()
             return
 
         path_and_line = task_path.rsplit(":", 1)
@@ -651,10 +652,7 @@ class AnsibleDebugState(DebugState):
                 self._debugger.queue_msg(stopped_event)
                 self._waiting_condition.wait_for(lambda: self.threads[tid].state != ThreadState.WAIT)
 
-                # If thread is marked as end then the client has requested us
-                # to terminate the debuggee.
-                if thread.state == ThreadState.END:
-                    raise EndStrategy()
+        self._check_terminated()
 
     def end_task(
         self,
@@ -690,8 +688,7 @@ class AnsibleDebugState(DebugState):
                 self._debugger.queue_msg(stopped_event)
                 self._waiting_condition.wait_for(lambda: self.threads[thread.id].state != ThreadState.WAIT)
 
-            if thread.state == ThreadState.END:
-                raise EndStrategy()
+        self._check_terminated()
 
         if task.action not in C._ACTION_ALL_INCLUDES:
             sfid = thread.stack_frames.pop(0)
@@ -1013,6 +1010,11 @@ class AnsibleDebugState(DebugState):
     ) -> None:
         self._resume_threads([request.thread_id], ThreadState.STEP_OVER)
 
+    def _check_terminated(self) -> None:
+        """Ends the strategy if the client has requested us to terminate the debuggee."""
+        if self._debugger.terminated:
+            raise EndStrategy()
+
     def _add_thread(
         self,
         host: Host,
-- 
2.43.0


From ac3391206b7066457faf6e313ec2541e5fda6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 21/35] fix: answer a request once and send messages to the
 client one at a time

The thread reading the requests of the client and the one reading the
messages of the debuggee both write to stdout. Their messages could be
mixed up, and both of them answered a request when the connection failed.
---
 src/ansibug/_debug_adapter.py | 37 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index c8593d7..5c5d045 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -256,6 +257,10 @@ class DAServer:
         self._temp_dir = temp_dir
         self._terminated_sent = False
 
+        # Messages are sent by the thread reading the client requests and the
+        # one reading the debuggee messages.
+        self._send_lock = threading.RLock()
+
     def __enter__(self) -> DAServer:
         return self
 
@@ -346,11 +351,13 @@ class DAServer:
             self._launch_queue.stop()
             self._launch_queue = None
 
-        if not self._terminated_sent:
-            # Both the debuggee or start() end will hit the code here. We only
-            # need to send one TerminatedEvent() for whichever was first.
-            self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
+        with self._send_lock:
+            if not self._terminated_sent:
+                # Both the debuggee or start() end will hit the code here. We
+                # only need to send one TerminatedEvent() for whichever was
+                # first.
+                self.send_to_client(dap.TerminatedEvent())
+                self._terminated_sent = True
 
     def send_to_client(
         self,
@@ -358,16 +365,20 @@ class DAServer:
     ) -> int:
         stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+        with self._send_lock:
+            if isinstance(msg, dap.Response) and not self._incoming_requests.pop(msg.request_seq, None):
+                # Both threads answer the outstanding requests when the
+                # connection to the debuggee has failed.
+                log.debug("Request %d has already been answered", msg.request_seq)
+                return 0
 
-        stdout.write(data)
-        stdout.flush()
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        if isinstance(msg, dap.Response):
-            self._incoming_requests.pop(msg.request_seq, None)
+            stdout.write(data)
+            stdout.flush()
 
         return req_no
 
-- 
2.43.0


From 163ba5a66d8277e9eb3956678d0519a9a39843a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:54 +0000
Subject: [PATCH 22/35] fix: keep listening when a client cannot be set up and
 cancel its handshake

A client that was gone before the greeting or reset its connection during
the TLS handshake ended the listener, and one that never completed its
handshake kept the playbook from ending.
---
 src/ansibug/_mp_queue.py      | 65 +++++++++++++++++------------------
 src/ansibug/_socket_helper.py | 24 ++++++++++++-
 2 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5275979..95d4972 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -184,6 +184,7 @@ class ClientMPQueue(MPQueue):
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
+                self._cancel_token,
                 server_side=False,
                 server_hostname=ssl_hostname,
             )
@@ -245,47 +246,43 @@ class ServerMPQueue(MPQueue):
         if cancel_queue:
             cancel_socket = cancel_queue._socket
 
-        conn = self._socket.accept(
-            self._cancel_token,
-            timeout=timeout,
-            cancel_socket=cancel_socket,
-        )
+        # If the client fails to complete the TLS handshake or has gone before it
+        # was greeted we don't want to shutdown the socket, instead this will
+        # wait for a new client to connect. This allows an attach request to be
+        # retried if the server mandates a certificate but the client does not
+        # offer one (or is rejected).
+        while True:
+            conn = self._socket.accept(
+                self._cancel_token,
+                timeout=timeout,
+                cancel_socket=cancel_socket,
+            )
 
-        if self._ssl_context:
-            # If the server fails to complete the TLS handshake we don't want
-            # to shutdown the socket, instead this will recreate it allowing a
-            # new client to connect. This allows an attach request to be
-            # retried if the server mandates a certificate but the client does
-            # not offer one (or is rejected).
-            while True:
-                try:
+            try:
+                if self._ssl_context:
                     conn.wrap_tls(
                         self._ssl_context,
-                        server_side=True,
-                    )
-                    # The client will read a single byte after the handshake to
-                    # verify it was able to auth correctly. TLS 1.3 only errors
-                    # on the client side on the first recv/send call after the
-                    # handshake.
-                    conn.send(b"\x00", self._cancel_token)
-
-                except ssl.SSLError:
-                    log.exception("Server TLS handshake failed, trying again")
-                    conn.close()
-                    conn = self._socket.accept(
                         self._cancel_token,
-                        timeout=timeout,
-                        cancel_socket=cancel_socket,
+                        server_side=True,
                     )
 
-                else:
-                    break
+                # The client will read a single byte after the connection to
+                # verify it is actually connected to a server and not just part
+                # of the backlog. With TLS it is also used to verify it was able
+                # to auth correctly. TLS 1.3 only errors on the client side on
+                # the first recv/send call after the handshake.
+                conn.send(b"\x00", self._cancel_token)
 
-        else:
-            # The client will read a single byte after the connection to verify
-            # it is actually connected to a server and not just part of the
-            # backlog.
-            conn.send(b"\x00", self._cancel_token)
+            except OSError:
+                log.exception("Server failed to set up the client connection, trying again")
+                conn.close()
+
+            except BaseException:
+                conn.close()
+                raise
+
+            else:
+                break
 
         # The original server socket is no longer needed, replace it with the
         # client connection one.
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index f1c4ad6..d4775b0 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -225,16 +225,24 @@ class SocketHelper:
     def wrap_tls(
         self,
         ssl_context: ssl.SSLContext,
+        cancel_token: SocketCancellationToken,
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
-        self._sock = ssl_context.wrap_socket(
+        sock = ssl_context.wrap_socket(
             self._sock,
             server_side=server_side,
             server_hostname=server_hostname,
+            do_handshake_on_connect=False,
         )
+        self._sock = sock
+        try:
+            cancel_token.do_handshake(sock)
+        except BaseException:
+            sock.close()
+            raise
 
 
 class SocketCancellationToken:
@@ -313,6 +321,20 @@ class SocketCancellationToken:
 
             sock.setblocking(True)
 
+    def do_handshake(
+        self,
+        sock: ssl.SSLSocket,
+    ) -> None:
+        # SSLSocket.shutdown() also drops the TLS state the handshake is using.
+        with self.with_cancel(lambda: socket.socket.shutdown(sock, socket.SHUT_RDWR)):
+            try:
+                sock.do_handshake()
+            except OSError:
+                if self._cancelled:
+                    raise CancelledError()
+                else:
+                    raise
+
     def recv_into(
         self,
         sock: socket.socket,
-- 
2.43.0


From de757cb762061b4fc9f8b69bb9995ddc3473d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:29 +0000
Subject: [PATCH 23/35] fix: log client data that ends inside of a multi-byte
 character

With the debug log level the debug adapter failed when a read from stdin
ended in the middle of a character.
---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 5c5d045..423c1d4 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -291,7 +291,7 @@ class DAServer:
                 break
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                log.debug("STDIN: %s", data.decode(errors="backslashreplace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
-- 
2.43.0


From 47e065d7796136da203c58c8d9c3df23d820fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 24/35] fix: replace breakpoints at once while the play checks
 and registers them

Changing the breakpoints during the run of a play could fail the play
(dictionary changed size during iteration), make it miss a breakpoint
that was kept or leave a breakpoint unverified although its file has been
loaded.
---
 src/ansibug/_debuggee.py | 159 ++++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 76 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 52b0879..aaf1e0d 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -271,6 +271,9 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
 
+        # The client sets breakpoints while the play registers new paths.
+        self._breakpoint_lock = threading.Lock()
+
         # Key is the path, the value is a list of the lines in that file where:
         #   None - Line is a continuation of a breakpoint range
         #   0    - Line is not something a breakpoint can be set at.
@@ -396,7 +399,7 @@ class AnsibleDebugger(metaclass=Singleton):
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
             args if present.
         """
-        for b in self._breakpoints.values():
+        for b in list(self._breakpoints.values()):
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
@@ -588,38 +591,39 @@ class AnsibleDebugger(metaclass=Singleton):
             bp_type: Set to 1 for a valid breakpoint and 0 for an invalid
                 breakpoint section.
         """
-        # Ensure each new entry has a starting value of 0 which denotes that
-        # a breakpoint cannot be set at the start of the file. It can only be
-        # set when a line was registered.
-        file_lines = self._source_info.setdefault(path, [0])
-        file_lines.extend([None] * (1 + line - len(file_lines)))
-        file_lines[line] = bp_type
-
-        for breakpoint in self._breakpoints.values():
-            if breakpoint.actual_path != path:
-                continue
-
-            source_breakpoint = breakpoint.source_breakpoint
-            bp = self._calculate_breakpoint(
-                breakpoint.id,
-                breakpoint.source,
-                source_breakpoint.line,
-                file_lines,
-            )
+        with self._breakpoint_lock:
+            # Ensure each new entry has a starting value of 0 which denotes that
+            # a breakpoint cannot be set at the start of the file. It can only be
+            # set when a line was registered.
+            file_lines = self._source_info.setdefault(path, [0])
+            file_lines.extend([None] * (1 + line - len(file_lines)))
+            file_lines[line] = bp_type
+
+            for breakpoint in self._breakpoints.values():
+                if breakpoint.actual_path != path:
+                    continue
 
-            if (
-                breakpoint.breakpoint.verified != bp.verified
-                or breakpoint.breakpoint.line != bp.line
-                or breakpoint.breakpoint.end_line != bp.end_line
-            ):
-                breakpoint.breakpoint = bp
-                self.queue_msg(
-                    dap.BreakpointEvent(
-                        reason="changed",
-                        breakpoint=bp,
-                    )
+                source_breakpoint = breakpoint.source_breakpoint
+                bp = self._calculate_breakpoint(
+                    breakpoint.id,
+                    breakpoint.source,
+                    source_breakpoint.line,
+                    file_lines,
                 )
 
+                if (
+                    breakpoint.breakpoint.verified != bp.verified
+                    or breakpoint.breakpoint.line != bp.line
+                    or breakpoint.breakpoint.end_line != bp.end_line
+                ):
+                    breakpoint.breakpoint = bp
+                    self.queue_msg(
+                        dap.BreakpointEvent(
+                            reason="changed",
+                            breakpoint=bp,
+                        )
+                    )
+
     @classmethod
     def _enable_debugpy(cls) -> None:  # pragma: nocover
         """This is only meant for debugging ansibug in Ansible purposes."""
@@ -729,61 +733,64 @@ class AnsibleDebugger(metaclass=Singleton):
                 actual_path = remote_path
                 break
 
-        source_info = self._source_info.get(actual_path, None)
+        with self._breakpoint_lock:
+            source_info = self._source_info.get(actual_path, None)
+
+            # Clear out existing breakpoints for the source as each request should
+            # send the latest list for a source. They are replaced at once as the
+            # play might be checking the breakpoints.
+            breakpoints = {bpid: b for bpid, b in self._breakpoints.items() if b.source_path != source_path}
+
+            breakpoint_info: list[dap.Breakpoint] = []
+            for source_breakpoint in msg.breakpoints:
+                bp_id = self._breakpoint_counter
+                self._breakpoint_counter += 1
+
+                bp: dap.Breakpoint
+                if msg.source_modified:
+                    bp = dap.Breakpoint(
+                        id=bp_id,
+                        verified=False,
+                        message="Cannot set breakpoint on a modified source.",
+                        source=msg.source,
+                    )
+                    # I don't think we need to preserve this bp for later reference.
+                    breakpoint_info.append(bp)
+                    continue
 
-        # Clear out existing breakpoints for the source as each request should
-        # send the latest list for a source.
-        self._breakpoints = {bpid: b for bpid, b in self._breakpoints.items() if b.source_path != source_path}
+                if not source_info:
+                    bp = dap.Breakpoint(
+                        id=bp_id,
+                        verified=False,
+                        message="File has not been loaded by Ansible, cannot detect breakpoints yet.",
+                        source=msg.source,
+                        line=source_breakpoint.line,
+                    )
 
-        breakpoint_info: list[dap.Breakpoint] = []
-        for source_breakpoint in msg.breakpoints:
-            bp_id = self._breakpoint_counter
-            self._breakpoint_counter += 1
+                else:
+                    bp = self._calculate_breakpoint(
+                        bp_id,
+                        msg.source,
+                        source_breakpoint.line,
+                        source_info,
+                    )
 
-            bp: dap.Breakpoint
-            if msg.source_modified:
-                bp = dap.Breakpoint(
+                breakpoints[bp_id] = AnsibleLineBreakpoint(
                     id=bp_id,
-                    verified=False,
-                    message="Cannot set breakpoint on a modified source.",
                     source=msg.source,
+                    source_breakpoint=source_breakpoint,
+                    breakpoint=bp,
+                    actual_path=actual_path,
+                    source_path=source_path,
                 )
-                # I don't think we need to preserve this bp for later reference.
                 breakpoint_info.append(bp)
-                continue
-
-            if not source_info:
-                bp = dap.Breakpoint(
-                    id=bp_id,
-                    verified=False,
-                    message="File has not been loaded by Ansible, cannot detect breakpoints yet.",
-                    source=msg.source,
-                    line=source_breakpoint.line,
-                )
-
-            else:
-                bp = self._calculate_breakpoint(
-                    bp_id,
-                    msg.source,
-                    source_breakpoint.line,
-                    source_info,
-                )
 
-            self._breakpoints[bp_id] = AnsibleLineBreakpoint(
-                id=bp_id,
-                source=msg.source,
-                source_breakpoint=source_breakpoint,
-                breakpoint=bp,
-                actual_path=actual_path,
-                source_path=source_path,
+            self._breakpoints = breakpoints
+            resp = dap.SetBreakpointsResponse(
+                request_seq=msg.seq,
+                breakpoints=breakpoint_info,
             )
-            breakpoint_info.append(bp)
-
-        resp = dap.SetBreakpointsResponse(
-            request_seq=msg.seq,
-            breakpoints=breakpoint_info,
-        )
-        self.queue_msg(resp)
+            self.queue_msg(resp)
 
     @process_message.register
     def _(
-- 
2.43.0


From 39a31c1dd3a7929364a813435b0928063785dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 25/35] fix: take the expression of a console command as it is

Only the command and the name are split like shell arguments. The expression
was looked up by the text of the name, which lost or kept quotes and failed
for quoted names or unbalanced quotes in the expression. Setting a value
before the client has asked for the scopes no longer fails with a KeyError.
---
 .../dap/plugins/plugin_utils/_repl_util.py    | 52 ++++++++++++-------
 .../ansibug/dap/plugins/strategy/debug.py     |  5 ++
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index c0d8b85..85d8c6d 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -118,14 +118,25 @@ def parse_repl_args(
     )
 
     # The provided value from the repl is just a string, we need to convert it
-    # to a command line and parse the known args. We only do the known args
-    # because some commands need the raw value provided outside of a cmd split
-    # processing argparse uses.
-    split_args = shlex.split(args)
-
+    # to a command line and parse the known args. Only the command and the name
+    # are split like that, the expression which may follow is not a shell value
+    # and is used as is.
+    split_args: list[str] = []
+    remaining = args
     try:
+        while len(split_args) < 2:
+            arg, remaining = _split_arg(remaining)
+            if arg is None:
+                break
+
+            split_args.append(arg)
+            if arg in ["template", "t"]:
+                if remaining in ["-h", "--help"]:
+                    split_args.append(remaining)
+                break
+
         parsed_args = parser.parse_known_args(split_args)[0]
-    except ReturnErrorMessage as e:
+    except (ReturnErrorMessage, ValueError) as e:
         return str(e)
 
     command = str(parsed_args.command)
@@ -141,21 +152,24 @@ def parse_repl_args(
                 break
 
     if parsed_args.command == "template":
-        # The value after the command needs to be extracted.
-        expr = args[args.index(command) + len(command) :].lstrip()
-
-        return TemplateCommand(command="template", expression=expr)
+        return TemplateCommand(command="template", expression=remaining)
 
     elif parsed_args.command in ["set_option", "set_hostvar"]:
-        # The value after the option/var name needs to be extracted.
-        remaining = args[args.index(command) + len(command) :].lstrip()
-        remaining = remaining[remaining.index(parsed_args.name) + len(parsed_args.name) :]
-        if remaining.startswith('"') or remaining.startswith("'"):
-            remaining = remaining[1:]
-
-        expr = remaining.lstrip()
-
-        return SetVarCommand(parsed_args.command, parsed_args.name, expr)
+        return SetVarCommand(parsed_args.command, parsed_args.name, remaining)
 
     else:
         return RemoveVarCommand(parsed_args.command, parsed_args.name)
+
+
+def _split_arg(
+    value: str,
+) -> tuple[str | None, str]:
+    """Splits the first shell argument from the value, also returns the raw remaining value."""
+    lexer = shlex.shlex(value, posix=True)
+    lexer.whitespace_split = True
+    lexer.commenters = ""
+
+    arg = lexer.get_token()
+    remaining = lexer.instream.read().lstrip()
+
+    return arg, remaining
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9d07895..18f9bf7 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -861,6 +861,11 @@ class AnsibleDebugState(DebugState):
             # it manually.
             sf = self.stackframes[request.frame_id]
 
+            if not sf.variables_options_id:
+                # The variables to change are only known with the scopes, which
+                # the client has not asked for.
+                self.get_scopes(ansibug.dap.ScopesRequest(frame_id=request.frame_id))
+
             repl_command = parse_repl_args(expression[1:])
             if isinstance(repl_command, TemplateCommand):
                 value, value_type = self._safe_evaluate_expression(repl_command.expression, sf.task_vars)
-- 
2.43.0


From 1370b0fc9ae954bfbd3cdfcb27855b8440ab6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 26/35] fix: do not wait for a play while the configuration is
 not done

---
 src/ansibug/_debuggee.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index aaf1e0d..58778b2 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -636,9 +636,13 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None or self._shutdown)
+            # The next play starts on its own but the first one may be waiting
+            # for the configuration which cannot be received while this waits.
+            self._strategy_connected.wait_for(
+                lambda: self._strategy is not None or self._shutdown or not self._configuration_done.is_set()
+            )
             if self._strategy is None:
-                raise Exception("The playbook run has ended")
+                raise Exception("The playbook run has ended" if self._shutdown else "The configuration is not done yet")
 
             return self._strategy
 
-- 
2.43.0


From fdc4e359494f9b47a5593c882a0d2b5227ff569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 27/35] fix: listen on a host that only has an IPv4 address

---
 src/ansibug/_mp_queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 95d4972..1309491 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -219,7 +219,11 @@ class ServerMPQueue(MPQueue):
 
         else:
             sock_kwargs: dict[str, t.Any] = {}
-            if socket.has_dualstack_ipv6():  # pragma: nocover
+            if parsed_addr[0]:
+                # The host may only have an address of one of the families.
+                sock_kwargs["family"] = socket.getaddrinfo(*parsed_addr, type=socket.SOCK_STREAM)[0][0]
+
+            if socket.has_dualstack_ipv6() and sock_kwargs.get("family") != socket.AF_INET:  # pragma: nocover
                 # Allows the server to bind on both IPv4 and IPv6.
                 sock_kwargs |= {
                     "family": socket.AF_INET6,
-- 
2.43.0


From adcee85426c631d2759defc16465209ca73695ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 28/35] fix: end a playbook that was interrupted or failed with
 an exception

---
 src/ansibug/_debuggee.py | 6 ++++++
 src/ansibug/_mp_queue.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 58778b2..2dfffe7 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import atexit
 import collections.abc
 import contextlib
 import dataclasses
@@ -473,9 +474,14 @@ class AnsibleDebugger(metaclass=Singleton):
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
+            daemon=True,
         )
         self._send_thread.start()
 
+        # Ansible does not call the stats callback that normally does this if
+        # the playbook was interrupted or failed with an exception.
+        atexit.register(self.shutdown)
+
         return addr
 
     def shutdown(
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 1309491..3b6060f 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -87,6 +87,7 @@ class MPQueue:
         self._recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
+            daemon=True,
         )
         self._recv_thread.start()
 
-- 
2.43.0


From 6f91205977809c6b9395d702485ed95aa129811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 29/35] fix: accept a disconnect request when there is no
 playbook

---
 src/ansibug/_debug_adapter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 423c1d4..8f34511 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -300,12 +300,13 @@ class DAServer:
                 if isinstance(msg, dap.Request):
                     self._incoming_requests[msg.seq] = msg
 
-                if isinstance(msg, dap.Request) and self._debuggee:
-                    if isinstance(msg, dap.DisconnectRequest):
-                        is_connected = False
+                if isinstance(msg, dap.DisconnectRequest):
+                    is_connected = False
+                    if self._debuggee:
                         self._send_disconnect(msg, self._debuggee)
-                    else:
-                        self._send_request(msg, self._debuggee)
+
+                elif isinstance(msg, dap.Request) and self._debuggee:
+                    self._send_request(msg, self._debuggee)
 
                 else:
                     self._process_msg(msg)
-- 
2.43.0


From 085504ffd7483162abe4a671656a919e2787c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 30/35] fix: answer the launch request of a process that has
 ended early

---
 src/ansibug/_debug_adapter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 8f34511..5c0a9cc 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -599,6 +599,13 @@ rm -f "$0"
         except CancelledError:
             log.debug("Launch cancel socket was connected, launched process has ended")
             self.stop()
+            self.send_to_client(
+                dap.ErrorResponse(
+                    command=details.request.command,
+                    request_seq=details.request.seq,
+                    message="The launched process has ended before it was connected to the debug adapter",
+                )
+            )
 
         else:
             log.debug("Ansible process is connected to debug adapter")
-- 
2.43.0


From ca38e17f94f43d353188cab0d808b24dc8149d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 31/35] fix: register the handlers of roles imported by an
 included file

A breakpoint on such a handler stayed unverified and never stopped the play.
---
 .../ansibug/dap/plugins/strategy/debug.py              | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 18f9bf7..e49a1ea 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -32,6 +32,7 @@ from ansible.inventory.host import Host
 from ansible.parsing.dataloader import DataLoader
 from ansible.playbook.block import Block
 from ansible.playbook.conditional import Conditional
+from ansible.playbook.included_file import IncludedFile
 from ansible.playbook.play_context import PlayContext
 from ansible.playbook.task import Task
 from ansible.plugins.strategy.linear import StrategyModule as LinearStrategy
@@ -1183,13 +1184,18 @@ class StrategyModule(LinearStrategy):
 
     def _load_included_file(
         self,
+        included_file: IncludedFile,
+        iterator: PlayIterator,
         *args: t.Any,
         **kwargs: t.Any,
     ) -> list[Block]:
-        included_blocks = super()._load_included_file(*args, **kwargs)
+        known_handlers = len(iterator._play.handlers)
+        included_blocks = super()._load_included_file(included_file, iterator, *args, **kwargs)
 
         # Need to register these blocks as valid breakpoints and update the client bps
-        register_block_breakpoints(self._debug_state._debugger, included_blocks)
+        # An import_role in the file also adds the handlers of the role to the play.
+        new_handlers = iterator._play.handlers[known_handlers:]
+        register_block_breakpoints(self._debug_state._debugger, included_blocks + new_handlers)
 
         return included_blocks
 
-- 
2.43.0


From dbe8d0c06762d581f00ddb35d49ef9c8834add2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 32/35] fix: forget the frames of threads that have exited

The variables of a host whose play has ended could still be looked at and set.
---
 .../ansibug/dap/plugins/strategy/debug.py                   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index e49a1ea..0025db2 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -709,7 +709,11 @@ class AnsibleDebugState(DebugState):
                 if tid == 1:
                     continue
 
-                del self.threads[tid]
+                thread = self.threads.pop(tid)
+                for sfid in thread.stack_frames:
+                    for variable_id in self.stackframes.pop(sfid).variables:
+                        del self.variables[variable_id]
+
                 self._debugger.queue_msg(
                     ansibug.dap.ThreadEvent(
                         reason="exited",
-- 
2.43.0


From ab3755f97a8743b82f2409e8edabfd72a8bc66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 33/35] fix: answer the requests that a playbook leaves
 unanswered when it ends

A request sent while the playbook is shutting down never got a response, nor did
one sent over TCP just after it has ended.
---
 src/ansibug/_debug_adapter.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 5c0a9cc..a50f228 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -256,6 +256,7 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        self._debuggee_closed = False
 
         # Messages are sent by the thread reading the client requests and the
         # one reading the debuggee messages.
@@ -327,6 +328,9 @@ class DAServer:
             from_debuggee: The stop is being called as the debuggee has
                 disconnected.
         """
+        if from_debuggee:
+            self._debuggee_closed = True
+
         # Ensure the DisconnectResponse is sent if there is an outstanding
         # request.
         for req in list(self._incoming_requests.values()):
@@ -344,6 +348,13 @@ class DAServer:
                 )
                 self.send_to_client(resp)
 
+        elif from_debuggee:
+            # The playbook has ended before it answered these, the ones not
+            # meant for it are answered by the thread reading the requests.
+            for req in list(self._incoming_requests.values()):
+                if not isinstance(req, (dap.AttachRequest, dap.DisconnectRequest, dap.LaunchRequest)):
+                    self._send_ended_response(req)
+
         if not from_debuggee and self._debuggee:
             self._debuggee.stop()
             self._debuggee = None
@@ -390,6 +401,10 @@ class DAServer:
     ) -> None:
         try:
             debuggee.send(msg)
+
+            # The send itself might not notice that the playbook has ended.
+            if self._debuggee_closed:
+                self._send_ended_response(msg)
         except OSError as e:
             # The playbook might have ended already, this must not stop the
             # client from ending the session with a disconnect request.
@@ -401,6 +416,18 @@ class DAServer:
                 )
             )
 
+    def _send_ended_response(
+        self,
+        msg: dap.Request,
+    ) -> None:
+        self.send_to_client(
+            dap.ErrorResponse(
+                command=msg.command,
+                request_seq=msg.seq,
+                message="The playbook run has ended",
+            )
+        )
+
     def _send_disconnect(
         self,
         msg: dap.DisconnectRequest,
-- 
2.43.0


From 9ae5afa60d7bf69cc95e05142e37a81503b635cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 34/35] fix: answer the request that lets the playbook run to
 its end

---
 src/ansibug/_debuggee.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 2dfffe7..63afe9c 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -143,6 +143,7 @@ class DAProtocol(MPProtocol):
         msg: dap.ProtocolMessage,
     ) -> None:
         log.info("Processing msg %r", msg)
+        self._debugger.processing_lock.acquire()
         try:
             self._debugger.process_message(msg)
         except Exception:
@@ -157,6 +158,8 @@ class DAProtocol(MPProtocol):
                 message=f"Critical Debuggee exception received\n{traceback.format_exc()}",
             )
             self._debugger.queue_msg(resp)
+        finally:
+            self._debugger.processing_lock.release()
 
     def connection_closed(
         self,
@@ -272,6 +275,10 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
 
+        # Held while a request is processed. The request that let the playbook
+        # run to its end must still be answered.
+        self.processing_lock = threading.Lock()
+
         # The client sets breakpoints while the play registers new paths.
         self._breakpoint_lock = threading.Lock()
 
@@ -513,7 +520,8 @@ class AnsibleDebugger(metaclass=Singleton):
             if not self._adapter_connected:
                 self._cancel_token.cancel()
 
-            self.queue_msg(None)
+            with self.processing_lock:
+                self.queue_msg(None)
             self._send_thread.join()
             self._send_thread = None
 
-- 
2.43.0


From d6df08450bd4a7f4ea80cb1b8929183ef291c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:52 +0000
Subject: [PATCH 35/35] fix: step over the tasks of a static import as part of
 where it stands

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 0025db2..f493666 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -290,8 +290,10 @@ class AnsibleThread:
         self,
         task: Task,
     ) -> Task | None:
+        # A static import is also a Task in the parent chain but its tasks are
+        # part of the include, or play, that the import is in.
         while task := task._parent:
-            if isinstance(task, Task):
+            if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
                 return task
 
         return None
-- 
2.43.0


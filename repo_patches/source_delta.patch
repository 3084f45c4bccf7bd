From 0a123c1485a80ca383cf58e44d2bac9d9d3eccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 01/57] fix: do not disable the inner transaction group macros
 when writing an inner_txn

---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From 96320ce207154a684d946179ee9ba48998306b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 02/57] fix: resolve names to the innermost visible definition

---
 tealish/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 485007b..f756ce1 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -45,7 +45,8 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        # Apply the outermost scope first so that inner definitions win
+        for s in reversed(self.get_scopes()):
             scope.update(s)
         return scope
 
@@ -62,7 +63,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             slots.update(s.slots)
         return slots
 
@@ -103,7 +104,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From 832ff89a0e2f890e071b6377b165c3d48cf39d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 03/57] fix: never share scratch slots between functions and
 blocks processed after them

---
 tealish/__init__.py |  4 +++-
 tealish/base.py     | 13 ++++++++++---
 tealish/scope.py    | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..876aec3 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,5 +1,5 @@
 import inspect
-from typing import List, Dict, Union, Tuple
+from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap
@@ -84,6 +84,8 @@ class TealishCompiler:
         self.conditional_count = 0
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
+        # slots used by variables of functions
+        self.function_slots: Set[int] = set()
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
diff --git a/tealish/base.py b/tealish/base.py
index f756ce1..4314490 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -2,7 +2,7 @@ from typing import cast, Any, Dict, List, Optional, Tuple, TYPE_CHECKING
 from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
-from .scope import Scope
+from .scope import MAX_SCRATCH_SLOT, Scope
 from .types import TealishType, get_type_instance
 
 
@@ -81,18 +81,25 @@ class BaseNode:
         scope.update(self.get_scope())
 
         max_slot: Optional[int] = None
+        function_slots = self.compiler.function_slots  # type: ignore
 
         if "func__" in scope.name:
             # If this var is declared in a function then use the global max slot + 1
             # This is to prevent functions using overlapping slots
-            max_slot = self.parent.compiler.max_slot + 1  # type: ignore
+            max_slot = self.compiler.max_slot + 1  # type: ignore
+            if max_slot > MAX_SCRATCH_SLOT:
+                raise CompileError("No available slots!", node=self)  # type: ignore
+            # Reserve the slot so that code processed later won't share it
+            function_slots.add(max_slot)
 
         try:
             type = get_type_instance(type_name)
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
-        var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        var = scope.declare_scratch_var(
+            name, type, max_slot=max_slot, reserved_slots=function_slots
+        )
 
         # Update max_slot on compiler
         self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..13766ad 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -1,4 +1,4 @@
-from typing import Dict, Optional, Tuple, TYPE_CHECKING
+from typing import AbstractSet, Dict, Optional, Tuple, TYPE_CHECKING
 from .tealish_builtins import Var, ConstValue
 from .types import TealishType
 
@@ -6,6 +6,10 @@ if TYPE_CHECKING:
     from .nodes import Func, Block
 
 
+# Scratch space has 256 slots
+MAX_SCRATCH_SLOT = 255
+
+
 class Scope:
     def __init__(
         self,
@@ -41,13 +45,16 @@ class Scope:
         name: str,
         type: "TealishType",
         max_slot: Optional[int] = None,
+        reserved_slots: AbstractSet[int] = frozenset(),
     ) -> Var:
         if name in self.slots:
             raise Exception(f'Redefinition of variable "{name}"')
 
         var = Var(name, type)
         var.slot_type = "scratch"
-        var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        var.scratch_slot = (
+            max_slot if max_slot is not None else self.find_slot(reserved_slots)
+        )
         self.slots[var.name] = var
         return var
 
@@ -73,10 +80,12 @@ class Scope:
     def declare_block(self, name: str, block: "Block") -> None:
         self.blocks[name] = block
 
-    def find_slot(self) -> int:
-        used_slots = [False] * 255
+    def find_slot(self, reserved_slots: AbstractSet[int] = frozenset()) -> int:
+        used_slots = [False] * (MAX_SCRATCH_SLOT + 1)
         for var in self.slots.values():
             used_slots[var.scratch_slot] = True
+        for slot in reserved_slots:
+            used_slots[slot] = True
 
         min, max = self.slot_range
         for i, occupied in enumerate(used_slots):
-- 
2.43.0


From 889ab5d6440c652e30fdf53c10d5acbb57ca27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 04/57] fix: internal inner group flag must not clash with a
 user variable of the same name

---
 tealish/nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b56ae09..75330fe 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -30,13 +30,16 @@ from .types import (
     get_struct,
     get_type_instance,
 )
-from .scope import Scope
+from .scope import MAX_SCRATCH_SLOT, Scope
 
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"(.+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
+# Not a legal variable name so it can't clash with a variable of the program
+INNER_GROUP_FLAG = "@inner_group_flag"
+
 if TYPE_CHECKING:
     from . import TealishCompiler, TealWriter
 
@@ -316,8 +319,10 @@ class Program(Node):
 
         if self.compiler.use_inner_txns_macro:
             scope = self.get_current_scope()
+            if self.compiler.max_slot + 1 > MAX_SCRATCH_SLOT:
+                raise CompileError("No available slots!", node=self)
             var = scope.declare_scratch_var(
-                "inner_group_flag", IntType, self.compiler.max_slot + 1
+                INNER_GROUP_FLAG, IntType, self.compiler.max_slot + 1
             )
             self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)
 
@@ -326,7 +331,7 @@ class Program(Node):
             n.write_teal(writer)
 
         if self.compiler.use_inner_txns_macro:
-            var = self.get_var("inner_group_flag")
+            var = self.get_var(INNER_GROUP_FLAG)
             teal = f"""
             _itxn_group_begin:
               load {var.scratch_slot}; !; assert // ensure no group active
-- 
2.43.0


From 37380abff0d1347bebc18c5e870e023e91e59c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 05/57] fix: struct definitions of one program must not leak
 into other compilations

---
 tealish/__init__.py | 10 ++++++++--
 tealish/types.py    |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 876aec3..a1828d5 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -3,7 +3,7 @@ from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap
-from .types import _structs
+from .types import StructType, get_structs, set_structs
 
 
 class TealWriter:
@@ -90,6 +90,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs: Dict[str, StructType] = {}
 
     def consume_line(self) -> str:
         if self.line_no == len(self.source_lines):
@@ -121,10 +122,15 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        # Struct definitions belong to a single program
+        set_structs({})
         node = Program.consume(self, None)
         self.nodes.append(node)
+        self.structs = get_structs()
 
     def process(self) -> None:
+        # Another program may have been parsed since
+        set_structs(self.structs)
         for node in self.nodes:
             try:
                 node.process()
@@ -159,7 +165,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..5e5d514 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -193,6 +193,15 @@ def define_struct(struct: StructType) -> None:
     _structs[struct.name] = struct
 
 
+def set_structs(structs: Dict[str, StructType]) -> None:
+    _structs.clear()
+    _structs.update(structs)
+
+
+def get_structs() -> Dict[str, StructType]:
+    return dict(_structs)
+
+
 def get_struct(struct_name: str) -> StructType:
     return _structs[struct_name]
 
-- 
2.43.0


From 2e9b907d4e5a8e61b4bc4f3acfeb26e4159258f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 06/57] fix: compiling twice with the same compiler must not
 duplicate the output

---
 tealish/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index a1828d5..6a40da4 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -145,6 +145,7 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
+        self.writer = TealWriter()
         for node in self.nodes:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
-- 
2.43.0


From e5bf37a2e8e7744ef74e1fc156176d716b6388e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 07/57] fix: maps of compiled programs must answer reverse line
 queries

---
 tealish/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 6a40da4..47a2822 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -160,10 +160,12 @@ class TealishCompiler:
         return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
-        map = TealishMap()
-        map.teal_tealish = dict(self.source_map)
-        map.errors = dict(self.error_messages)
-        return map
+        return TealishMap(
+            {
+                "teal_tealish": self.source_map,
+                "errors": self.error_messages,
+            }
+        )
 
     def get_structs(self):
         return dict(self.structs)
-- 
2.43.0


From b4ec2d9e7ba9b6189369903b456105d0ba16a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 08/57] fix: comments are only stripped outside string
 literals, and before any keyword test

---
 tealish/__init__.py | 13 +++++++------
 tealish/utils.py    | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 47a2822..4e1c154 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap
+from .utils import TealishMap, strip_comment
 from .types import StructType, get_structs, set_structs
 
 
@@ -98,10 +98,7 @@ class TealishCompiler:
             # nodes.py uses them heavily and dont
             # check the type is not None
             return  # type: ignore
-        line = self.source_lines[self.line_no].strip()
-        # strip out inline comments
-        if not line.startswith("#"):
-            line = line.split("#")[0]
+        line = self.peek()
         self.line_no += 1
         return line
 
@@ -109,7 +106,11 @@ class TealishCompiler:
         if self.line_no == len(self.source_lines):
             # TODO: see above
             return  # type: ignore
-        return self.source_lines[self.line_no].strip()
+        line = self.source_lines[self.line_no].strip()
+        # strip out inline comments
+        if not line.startswith("#"):
+            line = strip_comment(line, "#", quotes="\"'").strip()
+        return line
 
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..61360f1 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -2,6 +2,25 @@ from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
 
+def strip_comment(line: str, marker: str = "//", quotes: str = "\"") -> str:
+    """Remove a trailing comment from a line, ignoring markers in string literals"""
+    quote = ""
+    i = 0
+    while i < len(line):
+        c = line[i]
+        if quote:
+            if c == "\\":
+                i += 1
+            elif c == quote:
+                quote = ""
+        elif line.startswith(marker, i):
+            return line[:i]
+        elif c in quotes:
+            quote = c
+        i += 1
+    return line
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From 9ab5cc1eb951e229a8ad860ac21d86ace63a1ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 09/57] fix: string literals containing // must be written
 unchanged

---
 tealish/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 4e1c154..06f6359 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -32,9 +32,10 @@ class TealWriter:
             teal = node_or_teal
             prefix = (" " * 4) * self.level
             teal = prefix + teal
-            if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+            code = strip_comment(teal)
+            if code.strip() and code.endswith(" ") and code != teal:
+                comment = teal[len(code) :]
+                teal = code.ljust(60) + comment
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
@@ -64,7 +65,7 @@ class OneLineTealWriter:
         elif isinstance(node_or_teal, list):
             self.teal += node_or_teal
         else:
-            teal = node_or_teal.split("//", 1)[0]
+            teal = strip_comment(node_or_teal)
             self.teal.append(teal)
 
     @property
-- 
2.43.0


From 320111ed0574300757f7e7bb852fad17915d54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 10/57] fix: minifying TEAL must respect string literals and
 whole label names

---
 tealish/utils.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 61360f1..f97068e 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,6 +1,9 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
+BRANCH_OPS = ("b", "bz", "bnz", "callsub", "switch", "match")
+
 
 def strip_comment(line: str, marker: str = "//", quotes: str = "\"") -> str:
     """Remove a trailing comment from a line, ignoring markers in string literals"""
@@ -21,6 +24,30 @@ def strip_comment(line: str, marker: str = "//", quotes: str = "\"") -> str:
     return line
 
 
+def split_statements(code: str) -> List[str]:
+    """Split a line of TEAL at the semicolons that are not in string literals"""
+    statements = []
+    while True:
+        statement = strip_comment(code, ";")
+        statements.append(statement)
+        if statement == code:
+            return statements
+        code = code[len(statement) + 1 :]
+
+
+def replace_labels(line: str, replacements: Dict[str, str]) -> str:
+    """Rename the branch targets of a line of TEAL"""
+    code = strip_comment(line)
+    statements = split_statements(code)
+    for i, statement in enumerate(statements):
+        ops = [t for t in statement.split() if not t.endswith(":")]
+        if ops and ops[0] in BRANCH_OPS:
+            statements[i] = re.sub(
+                r"\S+", lambda m: replacements.get(m[0], m[0]), statement
+            )
+    return ";".join(statements) + line[len(code) :]
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -32,8 +59,9 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+            code = strip_comment(line).strip()
+            if re.fullmatch(r"[^\s\";]+:", code):
+                label = code[:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -47,9 +75,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             output.append(line)
     source_map[n] = len(teal_lines) - 1
     for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+        output[i] = replace_labels(line, label_replacements)
     return output, source_map
 
 
@@ -58,7 +84,7 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
+            line = strip_comment(line).strip()
             output.append(line)
     return output
 
-- 
2.43.0


From 7f03b78edb2e3610fe854ab2dbca1412b8e801f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 11/57] fix: names starting with a keyword and unterminated
 constructs must not hang or crash the parser

---
 tealish/__init__.py |  8 ++++++++
 tealish/nodes.py    | 48 +++++++++++++++++++++++----------------------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 06f6359..d1caab6 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,6 +1,7 @@
 import inspect
 from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
+from .errors import ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, strip_comment
 from .types import StructType, get_structs, set_structs
@@ -113,6 +114,13 @@ class TealishCompiler:
             line = strip_comment(line, "#", quotes="\"'").strip()
         return line
 
+    def peek_in_body(self) -> str:
+        """Peek at the next line of a construct which must be closed with `end`"""
+        line = self.peek()
+        if line is None:
+            raise ParseError(f'Unexpected end of file, expected "end" at line {self.line_no}.')
+        return line
+
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
         if type(lines) == str:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 75330fe..b93f8d9 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -227,7 +227,7 @@ class GenericExpression(Expression):
 class Statement(Node):
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "Statement":
-        line = compiler.peek()
+        line = compiler.peek_in_body()
         if line.startswith("block "):
             return Block.consume(compiler, parent)
         elif line.startswith("switch "):
@@ -677,7 +677,7 @@ class Block(Statement):
         block = Block(line, parent, compiler=compiler)
         exit_statement = None
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 if exit_statement is None:
                     raise ParseError(
@@ -771,10 +771,10 @@ class Switch(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Switch":
         switch = Switch(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            if compiler.peek().startswith("else:"):
+            if compiler.peek_in_body().startswith("else:"):
                 switch.add_else(
                     SwitchElse(compiler.consume_line(), switch, compiler=compiler)
                 )
@@ -865,7 +865,7 @@ class Router(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Switch":
         router = Router(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             router.add_route(Route(compiler.consume_line(), router, compiler=compiler))
@@ -947,7 +947,7 @@ class Teal(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
         node = Teal(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             node.add_child(TealLine.consume(compiler, node))
@@ -999,10 +999,10 @@ class InnerTxn(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerTxn":
         node = InnerTxn(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek().startswith("#"):
+            elif compiler.peek_in_body().startswith("#"):
                 compiler.consume_line()
             else:
                 node.add_child(
@@ -1085,7 +1085,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1130,7 +1130,8 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            line = compiler.peek_in_body()
+            if line == "end" or line.startswith(("elif ", "else:")):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1170,7 +1171,8 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            line = compiler.peek_in_body()
+            if line == "end" or line.startswith(("elif ", "else:")):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1213,7 +1215,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek_in_body() == "end":
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1280,12 +1282,12 @@ class IfStatement(InlineStatement):
         if_statement = IfStatement(compiler.consume_line(), parent, compiler=compiler)
         if_statement.add_if_then(IfThen.consume(compiler, if_statement))
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek().startswith("elif "):
+            elif compiler.peek_in_body().startswith("elif "):
                 if_statement.add_elif(Elif.consume(compiler, if_statement))
-            elif compiler.peek().startswith("else:"):
+            elif compiler.peek_in_body().startswith("else:"):
                 if_statement.add_else(Else.consume(compiler, if_statement))
         return if_statement
 
@@ -1430,7 +1432,7 @@ class WhileStatement(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "WhileStatement":
         node = WhileStatement(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             node.add_child(InlineStatement.consume(compiler, node))
@@ -1486,7 +1488,7 @@ class ForStatement(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "ForStatement":
         node = ForStatement(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             node.add_child(InlineStatement.consume(compiler, node))
@@ -1551,7 +1553,7 @@ class For_Statement(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "For_Statement":
         node = For_Statement(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             node.add_child(InlineStatement.consume(compiler, node))
@@ -1640,7 +1642,7 @@ class Func(InlineStatement):
         func = Func(compiler.consume_line(), parent, compiler=compiler)
 
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
             func.add_child(InlineStatement.consume(compiler, func))
@@ -1783,10 +1785,10 @@ class DecoratedFunc(InlineStatement):
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("func "):
+            if compiler.peek_in_body().startswith("func "):
                 decorated_func.set_func(Func.consume(compiler, decorated_func))
                 break
-            elif compiler.peek().startswith("@"):
+            elif compiler.peek_in_body().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
         return decorated_func
 
@@ -1853,10 +1855,10 @@ class StructDefinition(InlineStatement):
                 + "and only be preceeded by comments."
             )
         while True:
-            if compiler.peek() == "end":
+            if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek().startswith("#"):
+            elif compiler.peek_in_body().startswith("#"):
                 compiler.consume_line()
             else:
                 node.add_child(
-- 
2.43.0


From 712de7b88ca3e9e80f22428c2e5609da9c8f52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 12/57] fix: blank lines, comments or other lines after a
 decorator must not hang the parser

---
 tealish/nodes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b93f8d9..5a13030 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1751,7 +1751,7 @@ class Decorator(Node):
 
 
 class DecoratedFunc(InlineStatement):
-    possible_child_nodes = [Decorator, Comment, Func]
+    possible_child_nodes = [Decorator, Comment, Blank, Func]
     pattern = r""
 
     def __init__(
@@ -1790,6 +1790,14 @@ class DecoratedFunc(InlineStatement):
                 break
             elif compiler.peek_in_body().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            elif compiler.peek_in_body() == "" or compiler.peek_in_body().startswith(
+                "#"
+            ):
+                decorated_func.add_child(LineStatement.consume(compiler, parent))
+            else:
+                raise ParseError(
+                    f"Expected a function definition after decorator at line {compiler.line_no + 1}!"
+                )
         return decorated_func
 
     def process(self) -> None:
@@ -1801,9 +1809,8 @@ class DecoratedFunc(InlineStatement):
 
     def _tealish(self) -> str:
         output = ""
-        for n in self.decorators:
+        for n in self.child_nodes:
             output += n.tealish()
-        output += self.func.tealish()
         return output
 
 
-- 
2.43.0


From de6aff0dadd9990cfcea93cdbb72854bde9c95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 13/57] fix: names starting with return, break or an underscore
 loop and long names must parse as names

---
 tealish/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5a13030..d5cf4ae 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -240,7 +240,7 @@ class Statement(Node):
             return IfStatement.consume(compiler, parent)
         elif line.startswith("while "):
             return WhileStatement.consume(compiler, parent)
-        elif line.startswith("for _"):
+        elif line.startswith("for _ in "):
             return For_Statement.consume(compiler, parent)
         elif line.startswith("for "):
             return ForStatement.consume(compiler, parent)
@@ -389,9 +389,9 @@ class LineStatement(InlineStatement):
             return Const(line, parent, compiler=compiler)
         elif line.startswith("jump "):
             return Jump(line, parent, compiler=compiler)
-        elif line.startswith("return"):
+        elif re.match(r"return(?![a-zA-Z0-9_])", line):
             return Return(line, parent, compiler=compiler)
-        elif line.startswith("break"):
+        elif re.match(r"break(?![a-zA-Z0-9_])", line):
             return Break(line, parent, compiler=compiler)
         elif re.match(
             r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", line
@@ -599,7 +599,7 @@ class VarDeclaration(LineStatement):
 
 
 class Assignment(LineStatement):
-    pattern = r"(?P<names>([a-z_][a-zA-Z0-9_]*,?\s*)+) = (?P<expression>.*)$"
+    pattern = rf"(?P<names>{VARIABLE_NAME}(\s*,\s*{VARIABLE_NAME})*\s*) = (?P<expression>.*)$"
     names: str
     name_nodes: List[Name]
     expression: GenericExpression
-- 
2.43.0


From 68251855b9f2e13437828920386989d3b6cad667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 14/57] fix: function parameters must not be silently renamed
 or dropped

---
 tealish/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d5cf4ae..028046f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1591,12 +1591,16 @@ class For_Statement(InlineStatement):
 
 
 class ArgsList(Expression):
-    arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
+    arg_pattern = r"(?P<arg_name>[a-z][a-zA-Z_0-9]*):\s*(?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
     pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
         super().__init__(line)
+        args = line.split(",") if line.strip() else []
+        for arg in args:
+            if not re.fullmatch(self.arg_pattern, arg.strip()):
+                raise ParseError(f'Cannot parse "{arg.strip()}" as argument')
         self.args = re.findall(self.arg_pattern, line)
         self.arg_types = [get_type_instance(type_name) for _, type_name in self.args]
 
-- 
2.43.0


From 89f31e954eb2426604201cc10486b2fe671f4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 15/57] fix: function and block definitions are only accepted
 where control cannot fall into them

---
 tealish/nodes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 028046f..203b772 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -688,13 +688,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
@@ -1075,7 +1075,7 @@ class InnerTxn(InlineStatement):
 
 
 class InnerGroup(InlineStatement):
-    possible_child_nodes = [Statement]
+    possible_child_nodes = [InlineStatement]
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1644,6 +1644,10 @@ class Func(InlineStatement):
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Func":
         func = Func(compiler.consume_line(), parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block, DecoratedFunc)):
+            raise ParseError(
+                f"Unexpected function definition in {parent} at line {func.line_no}!"
+            )
 
         while True:
             if compiler.peek_in_body() == "end":
@@ -1788,6 +1792,10 @@ class DecoratedFunc(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block)):
+            raise ParseError(
+                f"Unexpected function definition in {parent} at line {decorated_func.line_no + 1}!"
+            )
         while True:
             if compiler.peek_in_body().startswith("func "):
                 decorated_func.set_func(Func.consume(compiler, decorated_func))
-- 
2.43.0


From f0323e0dd727a1db8e0e908bdb1788bf60bca3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 16/57] fix: labels must be unique whatever the names of
 blocks, functions and routes

---
 tealish/__init__.py | 13 +++++++++++-
 tealish/nodes.py    | 52 +++++++++++++++++++++++++++++++++------------
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index d1caab6..5dee937 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .errors import ParseError
-from .nodes import Node, Program
+from .nodes import INNER_TXN_MACRO_LABELS, Node, Program
 from .utils import TealishMap, strip_comment
 from .types import StructType, get_structs, set_structs
 
@@ -92,6 +92,8 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        # Names used in the TEAL output
+        self.teal_names: Set[str] = set(INNER_TXN_MACRO_LABELS)
         self.structs: Dict[str, StructType] = {}
 
     def consume_line(self) -> str:
@@ -121,6 +123,15 @@ class TealishCompiler:
             raise ParseError(f'Unexpected end of file, expected "end" at line {self.line_no}.')
         return line
 
+    def unique_name(self, name: str) -> str:
+        """Reserve a name for a label which is not used for any other label"""
+        unique, n = name, 1
+        while unique in self.teal_names:
+            n += 1
+            unique = f"{name}__{n}"
+        self.teal_names.add(unique)
+        return unique
+
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
         if type(lines) == str:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 203b772..a70baed 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -40,6 +40,17 @@ VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 # Not a legal variable name so it can't clash with a variable of the program
 INNER_GROUP_FLAG = "@inner_group_flag"
 
+INNER_TXN_MACRO_LABELS = (
+    "_itxn_group_begin",
+    "_itxn_begin",
+    "_itxn_begin__0",
+    "_itxn_begin__1",
+    "_itxn_begin__2",
+    "_itxn_submit",
+    "_itxn_submit__0",
+    "_itxn_group_submit",
+)
+
 if TYPE_CHECKING:
     from . import TealishCompiler, TealWriter
 
@@ -667,8 +678,12 @@ class Block(Statement):
     ) -> None:
         super().__init__(line, parent, compiler)
         scope = self.get_current_scope()
+        if self.name in scope.blocks:
+            raise ParseError(f'Redefinition of block "{self.name}" at line {self.line_no}!')
         scope.declare_block(self.name, self)
-        self.label = scope.name + ("__" if scope.name else "") + self.name
+        self.label = compiler.unique_name(
+            scope.name + ("__" if scope.name else "") + self.name
+        )
         self.new_scope(self.name)
 
     @classmethod
@@ -815,9 +830,14 @@ class Route(Node):
     pattern = r"(?P<name>.*)"
     name: str
 
-    @property
-    def label(self):
-        return f"route_{self.name}"
+    def __init__(
+        self,
+        line: str,
+        parent: Optional[Node] = None,
+        compiler: Optional["TealishCompiler"] = None,
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        self.label = compiler.unique_name(f"route_{self.name}")
 
     def process(self) -> None:
         self.arg_expressions = []
@@ -1257,7 +1277,7 @@ class IfStatement(InlineStatement):
             self.conditional_index = compiler.conditional_count
             compiler.conditional_count += 1
 
-        self.end_label = f"l{self.conditional_index}_end"
+        self.end_label = compiler.unique_name(f"l{self.conditional_index}_end")
 
     def add_if_then(self, node: IfThen) -> None:
         node.label = ""
@@ -1266,12 +1286,12 @@ class IfStatement(InlineStatement):
 
     def add_elif(self, node: Elif) -> None:
         i = len(self.elifs)
-        node.label = f"l{self.conditional_index}_elif_{i}"
+        node.label = self.compiler.unique_name(f"l{self.conditional_index}_elif_{i}")
         self.elifs.append(node)
         self.add_child(node)
 
     def add_else(self, node: Else) -> None:
-        node.label = f"l{self.conditional_index}_else"
+        node.label = self.compiler.unique_name(f"l{self.conditional_index}_else")
         self.else_ = node
         self.add_child(node)
 
@@ -1424,8 +1444,8 @@ class WhileStatement(InlineStatement):
         super().__init__(line, parent, compiler)
         self.conditional_index = compiler.conditional_count
         compiler.conditional_count += 1
-        self.start_label: str = f"l{self.conditional_index}_while"
-        self.end_label: str = f"l{self.conditional_index}_end"
+        self.start_label: str = compiler.unique_name(f"l{self.conditional_index}_while")
+        self.end_label: str = compiler.unique_name(f"l{self.conditional_index}_end")
         self.new_scope(f"while__{self.conditional_index}")
 
     @classmethod
@@ -1480,8 +1500,8 @@ class ForStatement(InlineStatement):
         super().__init__(line, parent, compiler)
         self.conditional_index = compiler.conditional_count
         compiler.conditional_count += 1
-        self.start_label = f"l{self.conditional_index}_for"
-        self.end_label = f"l{self.conditional_index}_end"
+        self.start_label = compiler.unique_name(f"l{self.conditional_index}_for")
+        self.end_label = compiler.unique_name(f"l{self.conditional_index}_end")
         self.new_scope(f"for__{self.conditional_index}")
 
     @classmethod
@@ -1545,8 +1565,8 @@ class For_Statement(InlineStatement):
         super().__init__(line, parent, compiler)
         self.conditional_index = compiler.conditional_count
         compiler.conditional_count += 1
-        self.start_label = f"l{self.conditional_index}_for"
-        self.end_label = f"l{self.conditional_index}_end"
+        self.start_label = compiler.unique_name(f"l{self.conditional_index}_for")
+        self.end_label = compiler.unique_name(f"l{self.conditional_index}_end")
         self.new_scope(f"for__{self.conditional_index}")
 
     @classmethod
@@ -1626,8 +1646,12 @@ class Func(InlineStatement):
     ) -> None:
         super().__init__(line, parent, compiler)
         scope = self.get_current_scope()
+        if self.name in scope.functions:
+            raise ParseError(
+                f'Redefinition of function "{self.name}" at line {self.line_no}!'
+            )
         scope.declare_function(self.name, self)
-        self.label = scope.name + "__func__" + self.name
+        self.label = compiler.unique_name(scope.name + "__func__" + self.name)
         self.new_scope("func__" + self.name)
         self.return_type = self.return_type.replace(" ", "")
         try:
-- 
2.43.0


From 5d801da04e716424c7721dbf6d7b7ac35c51217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 17/57] fix: const macros must not capture other consts, labels
 or field names

---
 tealish/__init__.py         | 4 ++--
 tealish/base.py             | 3 +++
 tealish/expression_nodes.py | 7 ++++---
 tealish/langspec.py         | 2 ++
 tealish/nodes.py            | 9 +++++++--
 tealish/scope.py            | 9 ++++++++-
 6 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 5dee937..9887673 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,6 +1,6 @@
 import inspect
 from typing import List, Dict, Set, Union, Tuple
-from .base import BaseNode
+from .base import BaseNode, lang_spec
 from .errors import ParseError
 from .nodes import INNER_TXN_MACRO_LABELS, Node, Program
 from .utils import TealishMap, strip_comment
@@ -93,7 +93,7 @@ class TealishCompiler:
         self.line_nodes = {}
         self.use_inner_txns_macro = None
         # Names used in the TEAL output
-        self.teal_names: Set[str] = set(INNER_TXN_MACRO_LABELS)
+        self.teal_names: Set[str] = {*INNER_TXN_MACRO_LABELS, *lang_spec.field_names}
         self.structs: Dict[str, StructType] = {}
 
     def consume_line(self) -> str:
diff --git a/tealish/base.py b/tealish/base.py
index 4314490..e4398b7 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -163,6 +163,9 @@ class BaseNode:
     def lookup_const(self, name: str) -> Tuple["TealishType", ConstValue]:
         return self.get_scope().lookup_const(name)
 
+    def lookup_const_macro(self, name: str) -> str:
+        return self.get_scope().const_macros[name]
+
     def lookup_avm_constant(self, name: str) -> Tuple["TealishType", Any]:
         return lang_spec.lookup_avm_constant(name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..0fff012 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -87,12 +87,13 @@ class Constant(BaseNode):
 
         self.type = type
         self.value = value
+        self.macro_name = self.lookup_const_macro(self.name)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.type, IntType):
-            writer.write(self, f"pushint {self.name} // {self.value}")  # type: ignore
+            writer.write(self, f"pushint {self.macro_name} // {self.value}")  # type: ignore
         elif isinstance(self.type, BytesType):
-            writer.write(self, f"pushbytes {self.name} // {self.value}")  # type: ignore
+            writer.write(self, f"pushbytes {self.macro_name} // {self.value}")  # type: ignore
         else:
             raise CompileError(f"Unexpected const type {self.type}", node=self)
 
@@ -292,7 +293,7 @@ class OpCall(BaseNode):
         for i, x in enumerate(immediates):
             x.process()
             if isinstance(x, Constant):
-                immediates[i] = x.name
+                immediates[i] = x.macro_name
             elif isinstance(x, Enum):
                 immediates[i] = x.name
             elif hasattr(x, "value") and isinstance(x.type, IntType):
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..c973f6a 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -222,6 +222,8 @@ class LangSpec:
             "Txn": self.ops["txn"].arg_enum_dict,
         }
 
+        self.field_names = {f for op in self.ops.values() for f in op.arg_enum}
+
         self.global_fields: Dict[str, TealishType] = self.fields["Global"]
         self.txn_fields: Dict[str, TealishType] = self.fields["Txn"]
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index a70baed..0ee4f8c 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -477,10 +477,15 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
-        scope.declare_const(self.name, (self.literal.type(), self.literal.value))
+        # The macro name must not be redefined while this const is still in use or
+        # capture other words of the TEAL output
+        self.macro_name = self.compiler.unique_name(self.name)
+        scope.declare_const(
+            self.name, (self.literal.type(), self.literal.value), self.macro_name
+        )
 
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f"#define {self.name} {self.literal.value}")
+        writer.write(self, f"#define {self.macro_name} {self.literal.value}")
 
     def _tealish(self) -> str:
         s = f"const {self.tealish_type} {self.name}"
diff --git a/tealish/scope.py b/tealish/scope.py
index 13766ad..902a008 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -26,6 +26,8 @@ class Scope:
         )
 
         self.consts: Dict[str, Tuple["TealishType", "ConstValue"]] = {}
+        # names of the TEAL macros that hold the const values
+        self.const_macros: Dict[str, str] = {}
         self.blocks: Dict[str, "Block"] = {}
         self.functions: Dict[str, "Func"] = {}
 
@@ -68,9 +70,13 @@ class Scope:
             del self.slots[name]
 
     def declare_const(
-        self, name: str, const_data: Tuple["TealishType", "ConstValue"]
+        self,
+        name: str,
+        const_data: Tuple["TealishType", "ConstValue"],
+        macro_name: Optional[str] = None,
     ) -> None:
         self.consts[name] = const_data
+        self.const_macros[name] = macro_name or name
 
     def lookup_const(self, name: str) -> Tuple["TealishType", "ConstValue"]:
         if name not in self.consts:
@@ -99,3 +105,4 @@ class Scope:
         self.blocks.update(other.blocks)
         self.slots.update(other.slots)
         self.consts.update(other.consts)
+        self.const_macros.update(other.const_macros)
-- 
2.43.0


From 53024189cffd2bf2860a5fab495be3035cc1b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 18/57] fix: formatting must keep immediate arguments, plain
 box handles and return types

---
 tealish/expression_nodes.py | 5 ++---
 tealish/nodes.py            | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0fff012..112882b 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -269,6 +269,7 @@ class OpCall(BaseNode):
         self.parent = parent
         self.type: Union[AVMType, List[AVMType]] = AVMType.none
         self.nodes = args
+        self.source_args = list(args)
         self.immediate_args = ""
 
     def process(self) -> None:
@@ -318,9 +319,7 @@ class OpCall(BaseNode):
             writer.write(self, f"{self.name}")
 
     def _tealish(self) -> str:
-        args = [a.tealish() for a in self.args]
-        if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+        args = [a.tealish() for a in self.source_args]
         return f"{self.name}({', '.join(args)})"
 
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0ee4f8c..3746495 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1711,7 +1711,9 @@ class Func(InlineStatement):
 
     def _tealish(self) -> str:
         returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
+            (" " + (", ".join(filter(None, self.return_type.split(",")))))
+            if self.returns
+            else ""
         )
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
@@ -2088,7 +2090,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From 4db42df86771b4d32d107df53ee407feab212011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 19/57] fix: comments and blank lines are accepted and kept
 inside every construct

---
 tealish/nodes.py | 56 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 3746495..5f3e94d 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -765,7 +765,7 @@ class SwitchElse(Node):
 
 
 class Switch(InlineStatement):
-    possible_child_nodes = [SwitchOption, SwitchElse]
+    possible_child_nodes = [SwitchOption, SwitchElse, Comment, Blank]
     pattern = r"switch (?P<expression>.*):$"
     expression: GenericExpression
 
@@ -794,7 +794,9 @@ class Switch(InlineStatement):
             if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            if compiler.peek_in_body().startswith("else:"):
+            if is_comment_or_blank(compiler.peek_in_body()):
+                switch.add_child(LineStatement.consume(compiler, switch))
+            elif compiler.peek_in_body().startswith("else:"):
                 switch.add_else(
                     SwitchElse(compiler.consume_line(), switch, compiler=compiler)
                 )
@@ -870,7 +872,7 @@ class Route(Node):
 
 
 class Router(InlineStatement):
-    possible_child_nodes = [Route]
+    possible_child_nodes = [Route, Comment, Blank]
     pattern = r"router:$"
 
     def __init__(
@@ -893,6 +895,9 @@ class Router(InlineStatement):
             if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
+            if is_comment_or_blank(compiler.peek_in_body()):
+                router.add_child(LineStatement.consume(compiler, router))
+                continue
             router.add_route(Route(compiler.consume_line(), router, compiler=compiler))
         return router
 
@@ -966,7 +971,7 @@ class TealLine(Node):
 
 
 class Teal(InlineStatement):
-    possible_child_nodes = [TealLine]
+    possible_child_nodes = [TealLine, Comment]
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -975,6 +980,9 @@ class Teal(InlineStatement):
             if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
+            if re.match(r"#(?!pragma |define )", compiler.peek_in_body()):
+                node.add_child(Comment.consume(compiler, node))
+                continue
             node.add_child(TealLine.consume(compiler, node))
         return node
 
@@ -1003,12 +1011,12 @@ class InnerTxnFieldSetter(InlineStatement):
 
     def _tealish(self) -> str:
         array_index = f"[{self.index}]" if self.index is not None else ""
-        output = f"{self.field_name}{array_index}: {self.expression.tealish()}"
+        output = f"{self.field_name}{array_index}: {self.expression.tealish()}\n"
         return output
 
 
 class InnerTxn(InlineStatement):
-    possible_child_nodes = [InnerTxnFieldSetter]
+    possible_child_nodes = [InnerTxnFieldSetter, Comment, Blank]
 
     def __init__(
         self,
@@ -1027,8 +1035,8 @@ class InnerTxn(InlineStatement):
             if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek_in_body().startswith("#"):
-                compiler.consume_line()
+            elif is_comment_or_blank(compiler.peek_in_body()):
+                node.add_child(LineStatement.consume(compiler, node))
             else:
                 node.add_child(
                     InnerTxnFieldSetter(
@@ -1042,12 +1050,15 @@ class InnerTxn(InlineStatement):
             node.group = group
         return node
 
+    @property
+    def field_setters(self) -> List[InnerTxnFieldSetter]:
+        return [n for n in self.child_nodes if isinstance(n, InnerTxnFieldSetter)]
+
     def process(self) -> None:
         from collections import defaultdict
 
         self.array_fields: Dict[str, List[InnerTxnFieldSetter]] = defaultdict(list)
-        for node in self.child_nodes:
-            node = cast(InnerTxnFieldSetter, node)
+        for node in self.field_setters:
             if node.index is not None:
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
@@ -1077,7 +1088,7 @@ class InnerTxn(InlineStatement):
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
             writer.level += 1
-            for node in self.child_nodes:
+            for node in self.field_setters:
                 writer.write(self, node)
             writer.level -= 1
             writer.write(self, "callsub _itxn_submit")
@@ -1085,7 +1096,7 @@ class InnerTxn(InlineStatement):
         else:
             writer.write(self, "itxn_begin")
             writer.level += 1
-            for node in self.child_nodes:
+            for node in self.field_setters:
                 writer.write(self, node)
             writer.level -= 1
             writer.write(self, "itxn_submit")
@@ -1094,7 +1105,7 @@ class InnerTxn(InlineStatement):
     def _tealish(self) -> str:
         output = "inner_txn:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish())
         output += "end\n"
         return output
 
@@ -1872,7 +1883,7 @@ class StructFieldDefinition(InlineStatement):
         pass
 
     def _tealish(self) -> str:
-        output = f"{self.field_name}: {self.data_type}"
+        output = f"{self.field_name}: {self.data_type}\n"
         return output
 
 
@@ -1888,7 +1899,7 @@ class StructDefinition(InlineStatement):
     end
     """
 
-    possible_child_nodes = [StructFieldDefinition]
+    possible_child_nodes = [StructFieldDefinition, Comment, Blank]
     pattern = r"struct (?P<name>[A-Z][a-zA-Z_0-9]*):$"
     name: str
     struct: StructType
@@ -1908,8 +1919,8 @@ class StructDefinition(InlineStatement):
             if compiler.peek_in_body() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek_in_body().startswith("#"):
-                compiler.consume_line()
+            elif is_comment_or_blank(compiler.peek_in_body()):
+                node.add_child(LineStatement.consume(compiler, node))
             else:
                 node.add_child(
                     StructFieldDefinition(
@@ -1918,8 +1929,9 @@ class StructDefinition(InlineStatement):
                 )
 
         node.struct = StructType(node.name)
-        for field in node.child_nodes:
-            field_node = cast(StructFieldDefinition, field)
+        for field_node in node.child_nodes:
+            if not isinstance(field_node, StructFieldDefinition):
+                continue
             node.struct.add_field(
                 field_node.field_name, get_type_instance(field_node.data_type)
             )
@@ -1937,7 +1949,7 @@ class StructDefinition(InlineStatement):
     def _tealish(self) -> str:
         output = f"struct {self.name}:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish())
         output += "end\n"
         return output
 
@@ -2111,6 +2123,10 @@ def split_return_args(s):
     return [s]
 
 
+def is_comment_or_blank(line: str) -> bool:
+    return line == "" or line.startswith("#")
+
+
 def indent(s: str) -> str:
     return textwrap.indent(s, "    ")
 
-- 
2.43.0


From a0429135621e8a87d6f1da1e8c81c940b1cfcbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 20/57] fix: process while and elif conditions once so that
 opcodes with immediates work in them

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5f3e94d..afb0afd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1215,7 +1215,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1476,7 +1476,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From d9f3fdfd7a3010cb440447518263a12f96e20ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 21/57] fix: spaces in decorator parameters must not change the
 OnCompletion check of a route

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index afb0afd..3f0e789 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1825,7 +1825,7 @@ class DecoratedFunc(InlineStatement):
             self.func.attributes[decorator.name] = {}
             if m := re.match(r"(?P<key>.*)=(?P<value>.*)", decorator.params):
                 self.func.attributes[decorator.name] = {
-                    m.groupdict()["key"]: m.groupdict()["value"]
+                    m.groupdict()["key"].strip(): m.groupdict()["value"].strip()
                 }
         self.add_child(node)
 
-- 
2.43.0


From 31336bc24ae13357a5cff56a314179914dbc4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 22/57] fix: router must decode uint64 and unsized bytes
 parameters

---
 tealish/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 3f0e789..95608ed 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -854,14 +854,14 @@ class Route(Node):
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
             arg_type = get_type_instance(type_name)
-            if type_name == "bytes":
+            if isinstance(arg_type, BytesType) and not arg_type.size:
                 line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
-                line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
-            elif isinstance(arg_type, IntType) and arg_type.size != 8:
-                line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
             elif isinstance(arg_type, BytesType):
                 line = f"Cast(Txn.ApplicationArgs[{a}], {type_name})"
+            elif arg_type.size == 8:
+                line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
+            else:
+                line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
             expression = GenericExpression.parse(line, self, self.compiler)
             expression.process()
             self.arg_expressions.append(expression)
-- 
2.43.0


From 81809fe4fabc5d32c7defb9955b33bb2f9f6b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 23/57] fix: casting to an unsized bytes type must not require
 an empty value

---
 tealish/stdlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..26dd2d0 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -264,6 +264,8 @@ class BytesSizeAssertionWrapper(BaseNode):
 
     def write_teal(self, writer):
         writer.write(self, self.expression)
+        if not self.size:
+            return
         # Assert that the expression is bytes of size N
         writer.write(
             self,
-- 
2.43.0


From 31f7cf13eae4b6ac25e39dac6026bfcd4c2cbb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 24/57] fix: converting an int to fewer bytes must fail if it
 does not fit

---
 tealish/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 26dd2d0..a06bb60 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -331,7 +331,7 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
-- 
2.43.0


From 11634c92d6afabdb94dcc6743c8d84965ca21e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 25/57] fix: EnsureType must check each of several values

---
 tealish/stdlib.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index a06bb60..6fecc2f 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -223,10 +223,18 @@ class TypeAssertionWrapper(BaseNode):
             else [self.expression.type]
         )
         self.parent = expression
+        if len(self.types) != len(self.incoming_types):
+            raise CompileError(
+                f"Incorrect number of types ({len(self.types)}) for "
+                + f"values ({len(self.incoming_types)})",
+                node=expression,
+            )
 
     def write_teal(self, writer):
         writer.write(self, self.expression)
         for i, type in enumerate(self.types):
+            # the first value is on the top of the stack, the others are below
+            dup = "dup" if i == 0 else f"dig {i}"
             if (
                 isinstance(type, BytesType)
                 and type.size
@@ -234,7 +242,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, dup)
                 # Assert that the expression is bytes of size N
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "len")
@@ -246,7 +254,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.type:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, dup)
                 # Assert that the expression is an int of N*8 bits
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "bitlen")
@@ -374,6 +382,9 @@ class UncheckedCast(FunctionCall):
         else:
             self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
         self.args[0].process()
+        incoming = self.args[0].type
+        if (len(incoming) if isinstance(incoming, list) else 1) != len(self.args) - 1:
+            raise CompileError("Incorrect number of types for values", node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.args[0])
-- 
2.43.0


From ac146ac724931ceb893d46ea9573f51a1afcfd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 26/57] fix: integer literals must fit in 64 bits and have a
 size, and & must parse

---
 tealish/expression_nodes.py    |  7 ++++++-
 tealish/nodes.py               | 13 +++++++++++++
 tealish/tealish_expressions.tx |  4 ++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 112882b..070f9f1 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -20,10 +20,15 @@ if TYPE_CHECKING:
     from .nodes import Node, Func, GenericExpression
 
 
+MAX_UINT64 = 2**64 - 1
+
+
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        if self.value > MAX_UINT64:
+            raise CompileError(f"Integer {self.value} does not fit in 64 bits", node=parent)
+        size = max(1, (((self.value).bit_length() - 1) // 8) + 1)
         self.type = UIntType(size)
         self.parent = parent
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 95608ed..d2ce29d 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -15,6 +15,7 @@ from typing import (
 
 from .base import BaseNode
 from .errors import CompileError, ParseError
+from .expression_nodes import MAX_UINT64
 from .tx_expressions import parse_expression
 from .tealish_builtins import Var, constants
 from .types import (
@@ -178,6 +179,18 @@ class LiteralInt(Literal):
     pattern = r"(?P<value>[0-9]+)$"
     value: int
 
+    def __init__(
+        self,
+        line: str,
+        parent: Optional[Node] = None,
+        compiler: Optional["TealishCompiler"] = None,
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        # the value is decimal (leading zeros would mean octal in TEAL)
+        self.value = int(self.value)
+        if self.value > MAX_UINT64:
+            raise ParseError(f"Integer {self.value} does not fit in 64 bits")
+
     def type(self) -> UIntType:
         return UIntType()
 
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..5015dd9 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '&' | '^'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
@@ -35,7 +35,7 @@ GlobalField: 'Global.' field=FieldName;
 StructOrBoxField: name=Name '.' field=Name;
 Value: StdLibFunctionCall | FunctionCall | Field | StructOrBoxField | UnaryOp | Group | Integer | Bytes | Constant | Enum | Variable;
 Variable: name=Name;
-Constant: name=/([A-Z][A-Z_0-9]+)/;
+Constant: name=/([A-Z][A-Z_0-9]+)(?![A-Za-z_0-9])/;
 Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
-- 
2.43.0


From 54a2bf75361cf5223509fbc34ecb995dcbe0ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 27/57] fix: string literals keep their escapes and have the
 size of their decoded bytes

---
 tealish/expression_nodes.py    | 12 ++++++++++--
 tealish/nodes.py               | 32 +++++++++++++++++---------------
 tealish/tealish_expressions.tx |  2 +-
 tealish/utils.py               | 25 +++++++++++++++++++++++++
 4 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 070f9f1..1696ef4 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -13,6 +14,7 @@ from .types import (
     UIntType,
 )
 from .langspec import Op, type_lookup
+from .utils import decode_string
 
 
 if TYPE_CHECKING:
@@ -41,8 +43,14 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        self.type = BytesType(size=len(value))
+        # value is the literal as written, with its quotes
+        # TEAL string literals are always in double quotes
+        self.value = re.sub(
+            r"\\.|\"",
+            lambda m: {"\\'": "'", '"': '\\"'}.get(m[0], m[0]),
+            value[1:-1],
+        )
+        self.type = BytesType(size=len(decode_string(self.value)))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index d2ce29d..c23e272 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -31,10 +30,11 @@ from .types import (
     get_struct,
     get_type_instance,
 )
+from .utils import STRING_LITERAL, decode_string
 from .scope import MAX_SCRATCH_SLOT, Scope
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
+LITERAL_BYTE_STRING = r'"((?:\\.|[^"\\])+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
@@ -203,7 +203,7 @@ class LiteralBytes(Literal):
     value: str  # value contains quotes
 
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        return BytesType(size=len(decode_string(self.value[1:-1])))
 
     def _tealish(self) -> str:
         return self.value
@@ -561,7 +561,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(\\.|[^"\\])*)")?\)$'
     arg: GenericExpression
     message: str
 
@@ -2122,17 +2122,19 @@ class BoxDeclaration(LineStatement):
 
 def split_return_args(s):
     parentheses = 0
-    quotes = False
-    for i in range(len(s)):
-        if s[i] == '"':
-            quotes = not quotes
-        if not quotes:
-            if s[i] == "(":
-                parentheses += 1
-            if s[i] == ")":
-                parentheses -= 1
-            if parentheses == 0 and s[i] == ",":
-                return [s[:i].strip()] + split_return_args(s[i + 1 :].strip())
+    i = 0
+    while i < len(s):
+        if s[i] in "\"'":
+            # skip the string literal
+            m = STRING_LITERAL.match(s, i)
+            i = m.end() - 1 if m else i
+        elif s[i] == "(":
+            parentheses += 1
+        elif s[i] == ")":
+            parentheses -= 1
+        elif parentheses == 0 and s[i] == ",":
+            return [s[:i].strip()] + split_return_args(s[i + 1 :].strip())
+        i += 1
     return [s]
 
 
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 5015dd9..7b857be 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,4 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+Bytes: value=/"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'/ | HexBytes;
diff --git a/tealish/utils.py b/tealish/utils.py
index f97068e..0dec8f5 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -2,6 +2,10 @@ import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
+STRING_LITERAL = re.compile(r"\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'")
+STRING_ESCAPE = re.compile(r"\\([nrt\\\"]|x[0-9a-fA-F]{2})")
+SIMPLE_ESCAPES = {"n": "\n", "r": "\r", "t": "\t"}
+
 BRANCH_OPS = ("b", "bz", "bnz", "callsub", "switch", "match")
 
 
@@ -24,6 +28,27 @@ def strip_comment(line: str, marker: str = "//", quotes: str = "\"") -> str:
     return line
 
 
+def decode_string(text: str) -> bytes:
+    """Decode the content of a string literal"""
+    output = b""
+    i = 0
+    while i < len(text):
+        if text[i] != "\\":
+            output += text[i].encode()
+            i += 1
+            continue
+        m = STRING_ESCAPE.match(text, i)
+        if m is None:
+            raise ValueError(f"Invalid escape sequence in string {text}")
+        escape = m[0][1:]
+        if escape[0] == "x":
+            output += bytes.fromhex(escape[1:])
+        else:
+            output += SIMPLE_ESCAPES.get(escape, escape).encode()
+        i = m.end()
+    return output
+
+
 def split_statements(code: str) -> List[str]:
     """Split a line of TEAL at the semicolons that are not in string literals"""
     statements = []
-- 
2.43.0


From eda9afead4694de3cc1a3c46faa9a4875def57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 28/57] fix: txn, itxn and global fields and their indexes must
 be valid in TEAL

---
 tealish/base.py                | 26 +++++++++++++-
 tealish/expression_nodes.py    | 66 +++++++++++++++++++++-------------
 tealish/langspec.py            |  6 ++++
 tealish/tealish_expressions.tx |  4 +--
 4 files changed, 75 insertions(+), 27 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index e4398b7..b20550d 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -3,7 +3,7 @@ from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
 from .scope import MAX_SCRATCH_SLOT, Scope
-from .types import TealishType, get_type_instance
+from .types import BytesType, TealishType, get_type_instance
 
 
 if TYPE_CHECKING:
@@ -151,6 +151,30 @@ class BaseNode:
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
+    def lookup_field(self, op_name: str, name: str) -> TealishType:
+        """Type of a field which can be read with the opcode of the given name"""
+        is_array = lang_spec.is_array_field(name)
+        if is_array != lang_spec.takes_array_field(op_name):
+            raise CompileError(
+                f'Field "{name}" must be used {"with" if is_array else "without"} an array index',
+                node=self,  # type: ignore
+            )
+        try:
+            return self.lookup_op_field(op_name, name)
+        except KeyError:
+            raise CompileError(f'Unknown {op_name} field "{name}"', node=self)  # type: ignore
+
+    def process_index(self, index: "Node", limit: int) -> None:
+        """Process an index which is emitted as an immediate if it is a literal"""
+        index.process()
+        self.check_int(index)
+        if getattr(index, "is_literal", False) and index.value >= limit:
+            raise CompileError(f"Index {index.value} must be less than {limit}", node=self)  # type: ignore
+
+    def check_int(self, expression: "Node") -> None:
+        if isinstance(expression.type, (BytesType, list)) or not expression.type:
+            raise CompileError(f"Incorrect type {expression.type}. Expected int", node=self)  # type: ignore
+
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 1696ef4..174050c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -26,6 +26,8 @@ MAX_UINT64 = 2**64 - 1
 
 
 class Integer(BaseNode):
+    is_literal = True
+
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
         if self.value > MAX_UINT64:
@@ -393,7 +395,7 @@ class TxnField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("txn", self.field)
+        self.type = self.lookup_field("txn", self.field)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"txn {self.field}")
@@ -415,10 +417,8 @@ class TxnArrayField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("txn", self.field)
-        if not isinstance(self.arrayIndex, Integer):
-            # index is an expression that needs to be evaluated
-            self.arrayIndex.process()
+        self.type = self.lookup_field("txna", self.field)
+        self.process_index(self.arrayIndex, 256)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -442,15 +442,11 @@ class GroupTxnField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("gtxn", self.field)
-        if not isinstance(self.index, Integer):
-            # index is an expression that needs to be evaluated
-            self.index.process()
+        self.type = self.lookup_field("gtxn", self.field)
+        self.process_index(self.index, 16)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
-            assert self.index.value >= 0, "Group index < 0"
-            assert self.index.value < 16, "Group index > 16"
             writer.write(self, f"gtxn {self.index.value} {self.field}")
         else:
             # index is a constant
@@ -478,12 +474,9 @@ class GroupTxnArrayField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("gtxn", self.field)
-        if not isinstance(self.index, Integer):
-            # index is an expression that needs to be evaluated
-            self.index.process()
-        if not isinstance(self.arrayIndex, Integer):
-            self.arrayIndex.process()
+        self.type = self.lookup_field("gtxna", self.field)
+        self.process_index(self.index, 16)
+        self.process_index(self.arrayIndex, 256)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -498,7 +491,6 @@ class GroupTxnArrayField(BaseNode):
                 writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
         else:
             # index is a constant
-            assert self.index.value >= 0 and self.index.value < 16
             if not isinstance(self.arrayIndex, Integer):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
@@ -516,8 +508,8 @@ class GroupTxnArrayField(BaseNode):
 
 class PositiveGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
-        self.index = index
-        self.type = AVMType.int
+        self.index = int(index)
+        self.type = IntType()
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -531,8 +523,8 @@ class PositiveGroupIndex(BaseNode):
 
 class NegativeGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
-        self.index = index
-        self.type = AVMType.int
+        self.index = int(index)
+        self.type = IntType()
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -551,7 +543,7 @@ class GlobalField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("global", self.field)
+        self.type = self.lookup_field("global", self.field)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"global {self.field}")
@@ -567,7 +559,7 @@ class InnerTxnField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("txn", self.field)
+        self.type = self.lookup_field("itxn", self.field)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"itxn {self.field}")
@@ -576,6 +568,31 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self, field: str, arrayIndex: "Node", parent: Optional[BaseNode] = None
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.lookup_field("itxna", self.field)
+        self.process_index(self.arrayIndex, 256)
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not isinstance(self.arrayIndex, Integer):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -638,6 +655,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
diff --git a/tealish/langspec.py b/tealish/langspec.py
index c973f6a..badf59c 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -244,6 +244,12 @@ class LangSpec:
         type = op.arg_enum_dict[field_name]
         return type
 
+    def is_array_field(self, field_name: str) -> bool:
+        return field_name in self.ops["txna"].arg_enum_dict
+
+    def takes_array_field(self, op_name: str) -> bool:
+        return "txna" in op_name
+
     def lookup_avm_constant(self, name: str) -> Tuple[TealishType, Any]:
         if name not in constants:
             raise KeyError(f'Constant "{name}" does not exist!')
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 7b857be..47e3ef2 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -40,8 +40,8 @@ Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
 GroupIndex: NegativeGroupIndex | PositiveGroupIndex | Expression;
-NegativeGroupIndex: '-' index=INT;
-PositiveGroupIndex: '+' index=INT;
+NegativeGroupIndex: '-' index=/[0-9]+/;
+PositiveGroupIndex: '+' index=/[0-9]+/;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 Bytes: value=/"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'/ | HexBytes;
-- 
2.43.0


From 71ded0312b0bc678074993d135aad9b7c629447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 29/57] fix: immediate arguments must be valid in TEAL

---
 tealish/expression_nodes.py | 33 ++++++++++++++++++++--------
 tealish/langspec.py         | 43 +++++++++++++++++++++++++++++++++++--
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 174050c..671219e 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -297,7 +297,14 @@ class OpCall(BaseNode):
     def process_op_call(self, op: Op) -> None:
         self.func_call_type = "op"
         self.op = op
+        if not op.is_callable:
+            raise CompileError(f"{op.name} can not be called as a function", node=self)
         immediates = self.args[: op.immediate_args_num]
+        if len(immediates) != op.immediate_args_num:
+            raise CompileError(
+                f"Expected {op.immediate_args_num} immediate args for {op.name}!",
+                node=self,
+            )
         num_args = len(op.args)
 
         self.args = self.args[op.immediate_args_num :]
@@ -308,15 +315,8 @@ class OpCall(BaseNode):
         self.check_arg_types(self.name, self.args)
         for i, x in enumerate(immediates):
             x.process()
-            if isinstance(x, Constant):
-                immediates[i] = x.macro_name
-            elif isinstance(x, Enum):
-                immediates[i] = x.name
-            elif hasattr(x, "value") and isinstance(x.type, IntType):
-                immediates[i] = x.value
-            elif hasattr(x, "value") and isinstance(x.type, BytesType):
-                immediates[i] = f'"{x.value}"'
-            else:
+            immediates[i] = self.get_immediate(x, op.immediate_kinds[i])
+            if immediates[i] is None:
                 raise CompileError(
                     f"{x} can not be used as an immediate argument for {op.name}",
                     node=self,
@@ -325,6 +325,21 @@ class OpCall(BaseNode):
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
 
+    def get_immediate(self, x: "Node", kind: str) -> Union[str, int, None]:
+        """The immediate argument as written in TEAL or None if it is not a valid one"""
+        value = getattr(x, "value", None)
+        if kind == "field":
+            is_field = isinstance(x, Enum) and x.name in self.op.arg_enum_dict
+            return x.name if is_field else None
+        if kind == "bytes":
+            if isinstance(x, Constant) and isinstance(x.type, BytesType):
+                return x.macro_name
+            return f'"{value}"' if isinstance(x, Bytes) else None
+        # other immediates are encoded in a single byte
+        if not isinstance(x.type, IntType) or value is None or not 0 <= value < 256:
+            return None
+        return x.macro_name if isinstance(x, Constant) else value
+
     def write_teal(self, writer: "TealWriter") -> None:
         for arg in self.args:
             writer.write(self, arg)
diff --git a/tealish/langspec.py b/tealish/langspec.py
index badf59c..cff442a 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -1,5 +1,6 @@
 import importlib
 import os
+import re
 import requests
 import tealish
 import json
@@ -23,6 +24,30 @@ pseudo_ops = [
 ]
 
 
+array_fields = [
+    "ApplicationArgs",
+    "Accounts",
+    "Assets",
+    "Applications",
+    "Logs",
+    "ApprovalProgramPages",
+    "ClearStateProgramPages",
+]
+
+# Names of immediate arguments which are missing in langspec.json
+missing_arg_enums = {
+    "ecdsa_verify": ["Secp256k1", "Secp256r1"],
+    "ecdsa_pk_decompress": ["Secp256k1", "Secp256r1"],
+    "ecdsa_pk_recover": ["Secp256k1", "Secp256r1"],
+    "base64_decode": ["URLEncoding", "StdEncoding"],
+    "json_ref": ["JSONString", "JSONUint64", "JSONObject"],
+    "vrf_verify": ["VrfAlgorand"],
+    "block": ["BlkSeed", "BlkTimestamp"],
+    "itxnas": array_fields,
+    "gitxnas": array_fields,
+}
+
+
 _opcode_type_map = {
     ".": AnyType(),
     "B": BytesType(),
@@ -164,8 +189,9 @@ class Op:
         else:
             self.immediate_note = ""
 
-        if "ArgEnum" in op_def:
-            self.arg_enum = op_def["ArgEnum"]
+        arg_enum = op_def.get("ArgEnum") or missing_arg_enums.get(self.name)
+        if arg_enum:
+            self.arg_enum = arg_enum
             if "ArgEnumTypes" in op_def:
                 self.arg_enum_types = convert_args_to_types(op_def["ArgEnumTypes"])
             else:
@@ -180,6 +206,19 @@ class Op:
             if field_name in field_types:
                 self.arg_enum_dict[field_name] = field_types[field_name]
 
+        # Opcodes with a variable size or branch targets can't be called as functions
+        self.is_callable = self.size > 0 and "branch" not in self.immediate_note
+        # kind of each immediate argument: the name of a field, bytes or a small int
+        self.immediate_kinds = ["int"] * self.immediate_args_num
+        if self.name == "method":
+            self.immediate_kinds = ["bytes"]
+        elif self.arg_enum:
+            notes = re.findall(r"{[^}]*}", self.immediate_note)
+            for i in range(self.immediate_args_num):
+                note = notes[i] if i < len(notes) else ""
+                if self.immediate_args_num == 1 or note.endswith("field index}"):
+                    self.immediate_kinds[i] = "field"
+
         self.doc = op_def.get("Doc", "")
         self.doc_extra = op_def.get("DocExtra", "")
         self.groups = op_def.get("groups", [])
-- 
2.43.0


From f50d6e95f6927afd6a746f90c8c214e262a37802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 30/57] fix: conditions, exit codes, switch options and inner
 transaction fields must have a fitting type

---
 tealish/base.py  | 10 +++++++++-
 tealish/nodes.py | 24 ++++++++++++++++++------
 tealish/types.py | 11 ++++++++---
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index b20550d..49527bf 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -3,7 +3,7 @@ from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
 from .scope import MAX_SCRATCH_SLOT, Scope
-from .types import BytesType, TealishType, get_type_instance
+from .types import AVMType, BytesType, TealishType, get_type_instance
 
 
 if TYPE_CHECKING:
@@ -23,6 +23,10 @@ def check_arg_types(name: str, incoming_args: List["Node"]) -> None:
                 f"Incorrect type {incoming_arg.type} "  # type: ignore
                 + f"for arg {i} of {name}. Expected {expected_args[i]}"
             )
+    if name in ("==", "!="):
+        kinds = {arg.type.avm_type for arg in incoming_args} - {AVMType.any}
+        if len(kinds) > 1:
+            raise Exception(f"Incorrect types for {name}. Can't compare int with bytes")
 
 
 class BaseNode:
@@ -175,6 +179,10 @@ class BaseNode:
         if isinstance(expression.type, (BytesType, list)) or not expression.type:
             raise CompileError(f"Incorrect type {expression.type}. Expected int", node=self)  # type: ignore
 
+    def check_bytes(self, expression: "Node") -> None:
+        if not BytesType().can_hold(expression.type):
+            raise CompileError(f"Incorrect type {expression.type}. Expected bytes", node=self)  # type: ignore
+
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index c23e272..96a611b 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -528,6 +528,7 @@ class Exit(LineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_int(self.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -823,6 +824,7 @@ class Switch(InlineStatement):
         self.expression.process()
         for node in self.options:
             node.expression.process()
+            node.check_arg_types("==", [self.expression, node.expression])
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1017,6 +1019,14 @@ class InnerTxnFieldSetter(InlineStatement):
     index: int
     expression: GenericExpression
 
+    def process(self) -> None:
+        self.expression.process()
+        if self.field_name not in self.lookup_op("itxn_field").arg_enum_dict:
+            raise CompileError(
+                f'Unknown inner transaction field "{self.field_name}"', node=self
+            )
+        self.check_arg_types("itxn_field", [self.expression])
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         writer.write(self, self.expression)
@@ -1089,12 +1099,7 @@ class InnerTxn(InlineStatement):
                         f"Inccorrect field array index {index} "
                         + f"(expected {n}) at line {lno}!"
                     )
-            else:
-                node.expression.process()
-
-        for a in self.array_fields.values():
-            for node in a:
-                node.expression.process()
+            node.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1228,6 +1233,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_int(self.condition)
         for n in self.child_nodes:
             n.process()
 
@@ -1384,6 +1390,7 @@ class IfStatement(InlineStatement):
             self.child_nodes[-1].next_label = self.end_label
 
         self.condition.process()
+        self.check_int(self.condition)
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1489,6 +1496,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_int(self.condition)
         for n in self.child_nodes:
             n.process()
 
@@ -1547,6 +1555,8 @@ class ForStatement(InlineStatement):
         self.var = self.declare_scratch_var(self.var_name, "int")
         for n in self.nodes:
             n.process()
+        self.check_int(self.start)
+        self.check_int(self.end)
         self.del_var(self.var_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1611,6 +1621,8 @@ class For_Statement(InlineStatement):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
+        self.check_int(self.start)
+        self.check_int(self.end)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
diff --git a/tealish/types.py b/tealish/types.py
index 5e5d514..2781b57 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -45,7 +45,8 @@ class AnyType(TealishType):
     avm_type = AVMType.any
 
     def can_hold(self, other):
-        return True
+        # Any single value (not nothing or several values)
+        return isinstance(other, TealishType)
 
 
 class IntType(TealishType):
@@ -101,7 +102,8 @@ class BytesType(TealishType):
         if isinstance(other, BytesType):
             if not self.size:
                 return True
-            if not other.size:
+            # The value of a box handle is the key of the box, which has any size
+            if not other.size or isinstance(other, BoxType):
                 return False
             if self.size == other.size:
                 return True
@@ -162,7 +164,7 @@ class StructType(BytesType):
         self.size += tealish_type.size
 
     def can_hold(self, other):
-        if isinstance(other, BytesType):
+        if isinstance(other, BytesType) and not isinstance(other, BoxType):
             if not other.size:
                 return False
             if self.size == other.size:
@@ -179,6 +181,9 @@ class BoxType(BytesType):
         self.fields = self.struct.fields
         self.size = self.struct.size
 
+    def can_hold(self, other):
+        return isinstance(other, BoxType) and other.struct_name == self.struct_name
+
 
 class ArrayType(BytesType):
     name = "array"
-- 
2.43.0


From 587906eefa216ae199bb28a569176a3dfee67c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 31/57] fix: standard functions must check their arguments

---
 tealish/stdlib.py | 104 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 22 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 6fecc2f..d69d699 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,9 +1,10 @@
 from typing import List, Optional, Union
+from algosdk.encoding import is_valid_address
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Integer
+from tealish.expression_nodes import Bytes, Integer
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -11,6 +12,7 @@ from tealish.types import (
     BigIntType,
     BytesType,
     IntType,
+    TealishType,
     UIntType,
     get_type_instance,
 )
@@ -28,6 +30,32 @@ class FunctionCall(BaseNode):
         for arg in self.args:
             arg.process()
 
+    def check_number_of_args(self, minimum: int, maximum: Optional[int] = None) -> None:
+        if not minimum <= len(self.args) <= (maximum or minimum):
+            raise CompileError(
+                f"Incorrect number of args ({len(self.args)}) for {self.name}", node=self
+            )
+
+    def get_type_arg(self, arg: "Node") -> TealishType:
+        try:
+            return get_type_instance(getattr(arg, "name", ""))
+        except KeyError:
+            raise CompileError(f"Expected a type as argument of {self.name}", node=self)
+
+    def get_size_arg(self, arg: "Node") -> int:
+        """The value of an argument which must be known at compile time"""
+        arg.process()
+        value = getattr(arg, "value", None)
+        if not isinstance(arg.type, IntType) or value is None:
+            raise CompileError(f"Expected a constant int as argument of {self.name}", node=self)
+        return value
+
+    def get_string_arg(self, arg: "Node") -> str:
+        arg.process()
+        if not isinstance(arg, Bytes):
+            raise CompileError(f"Expected a string literal as argument of {self.name}", node=self)
+        return arg.value
+
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         return f"{self.name}({', '.join(args)})"
@@ -42,6 +70,7 @@ class Pop(FunctionCall):
     name = "pop"
 
     def process(self) -> None:
+        self.check_number_of_args(0)
         self.type = AnyType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -57,6 +86,8 @@ class Push(FunctionCall):
         self.type = None
         for arg in self.args:
             arg.process()
+            if not AnyType().can_hold(arg.type):
+                raise CompileError(f"Incorrect type {arg.type} for push", node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         for arg in self.args:
@@ -70,10 +101,12 @@ class Bzero(FunctionCall):
     name = "bzero"
 
     def process(self) -> None:
+        self.check_number_of_args(1)
         arg = self.args[0]
         arg.process()
+        self.check_int(arg)
         # Integer literals and some other functions set value to a constant at compile time
-        if hasattr(arg, "value"):
+        if getattr(arg, "value", None) is not None:
             self.type = BytesType(arg.value)
         else:
             self.type = BytesType()
@@ -94,7 +127,8 @@ class Convert(FunctionCall):
     name = "Convert"
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.check_number_of_args(2)
+        self.type = self.get_type_arg(self.args[1])
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -132,7 +166,8 @@ class Cast(FunctionCall):
     name = "Cast"
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.check_number_of_args(2)
+        self.type = self.get_type_arg(self.args[1])
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -144,8 +179,10 @@ class Cast(FunctionCall):
             # Int -> Int
             self.expression = UIntSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
-        elif isinstance(self.expression.type, BytesType) and isinstance(
-            self.type, BytesType
+        elif isinstance(self.type, BytesType) and (
+            isinstance(self.expression.type, BytesType)
+            or isinstance(self.expression.type, AnyType)
+            and self.type.size
         ):
             self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
@@ -162,9 +199,10 @@ class ToBytes(FunctionCall):
     name = "ToBytes"
 
     def process(self) -> None:
+        self.check_number_of_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = self.get_size_arg(self.args[1])
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -175,24 +213,29 @@ class ToBytes(FunctionCall):
     def write_teal(self, writer: "TealWriter") -> None:
         expression_type = self.expression.type
         writer.write(self, self.expression)
-        if isinstance(expression_type, IntType):
+        is_int = isinstance(expression_type, IntType)
+        if is_int:
             writer.write(self, "itob")
-        if self.type.size and self.type.size < 8:
+        if is_int and self.type.size and self.type.size < 8:
             writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
-        elif self.type.size > 8:
+        elif self.type.size > 8 or self.type.size and not is_int:
             writer.write(self, f"// zpad({self.type.size})")
             writer.write(self, f"pushint {self.type.size}")
             writer.write(self, "bzero")
             writer.write(self, "b|")
+        if self.type.size and not is_int:
+            # a bigint may be longer
+            writer.write(self, ["dup", "len", f"pushint {self.type.size}", "==", "assert"])
 
 
 class FromBytes(FunctionCall):
     name = "FromBytes"
 
     def process(self) -> None:
+        self.check_number_of_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        to_type = get_type_instance(self.args[1].name)
+        to_type = self.get_type_arg(self.args[1])
         if isinstance(to_type, IntType):
             to_type = IntType()
         self.type = to_type
@@ -201,6 +244,8 @@ class FromBytes(FunctionCall):
             raise CompileError(
                 f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
             )
+        if isinstance(to_type, BytesType) and to_type.size != self.expression.type.size:
+            self.expression = BytesSizeAssertionWrapper(self.expression, to_type.size)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.expression)
@@ -223,6 +268,11 @@ class TypeAssertionWrapper(BaseNode):
             else [self.expression.type]
         )
         self.parent = expression
+        for t, incoming in zip(self.types, self.incoming_types):
+            if not isinstance(incoming, AnyType) and (
+                isinstance(t, BytesType) != isinstance(incoming, BytesType)
+            ):
+                raise CompileError(f"Unexpected type {t} for {incoming}", node=expression)
         if len(self.types) != len(self.incoming_types):
             raise CompileError(
                 f"Incorrect number of types ({len(self.types)}) for "
@@ -364,7 +414,8 @@ class EnsureType(FunctionCall):
     name = "EnsureType"
 
     def process(self) -> None:
-        types = [get_type_instance(a.name) for a in self.args[1:]]
+        self.check_number_of_args(2, 256)
+        types = [self.get_type_arg(a) for a in self.args[1:]]
         self.args[0].process()
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
@@ -377,10 +428,11 @@ class UncheckedCast(FunctionCall):
     name = "UncheckedCast"
 
     def process(self) -> None:
+        self.check_number_of_args(2, 256)
         if len(self.args) == 2:
-            self.type = get_type_instance(self.args[1].name)
+            self.type = self.get_type_arg(self.args[1])
         else:
-            self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
+            self.type = [self.get_type_arg(arg) for arg in self.args[1:]]
         self.args[0].process()
         incoming = self.args[0].type
         if (len(incoming) if isinstance(incoming, list) else 1) != len(self.args) - 1:
@@ -401,7 +453,8 @@ class SizeOf(FunctionCall):
     name = "SizeOf"
 
     def process(self):
-        type = get_type_instance(self.args[0].name)
+        self.check_number_of_args(1)
+        type = self.get_type_arg(self.args[0])
         self.value = type.size
         self.type = IntType()
 
@@ -413,9 +466,10 @@ class Rpad(FunctionCall):
     name = "Rpad"
 
     def process(self) -> None:
+        self.check_number_of_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.get_size_arg(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -444,9 +498,10 @@ class Lpad(FunctionCall):
     name = "Lpad"
 
     def process(self) -> None:
+        self.check_number_of_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.get_size_arg(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -476,8 +531,10 @@ class Concat(FunctionCall):
     name = "Concat"
 
     def process(self) -> None:
+        self.check_number_of_args(1, 256)
         for arg in self.args:
             arg.process()
+            self.check_bytes(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -491,23 +548,26 @@ class Address(FunctionCall):
     name = "Address"
 
     def process(self) -> None:
-        for arg in self.args:
-            arg.process()
+        self.check_number_of_args(1)
+        self.address = self.get_string_arg(self.args[0])
+        if not is_valid_address(self.address):
+            raise CompileError(f'Invalid address "{self.address}"', node=self)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.args[0].value
-        writer.write(self, f"addr {value}")
+        writer.write(self, f"addr {self.address}")
 
 
 class ARC28Event(FunctionCall):
     name = "ARC28Event"
 
     def process(self) -> None:
-        self.signature = self.args[0].value
+        self.check_number_of_args(1, 256)
+        self.signature = self.get_string_arg(self.args[0])
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             arg.process()
+            self.check_bytes(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From ea7856d0ffd6478aeaf60c0c78a6c4a44ab44bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 32/57] fix: struct fields beyond 255 bytes must assemble and
 fields must have a size

---
 tealish/expression_nodes.py |  5 ++++-
 tealish/nodes.py            | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 671219e..07e46c0 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -22,6 +22,7 @@ if TYPE_CHECKING:
     from .nodes import Node, Func, GenericExpression
 
 
+MAX_IMMEDIATE = 255
 MAX_UINT64 = 2**64 - 1
 
 
@@ -336,7 +337,7 @@ class OpCall(BaseNode):
                 return x.macro_name
             return f'"{value}"' if isinstance(x, Bytes) else None
         # other immediates are encoded in a single byte
-        if not isinstance(x.type, IntType) or value is None or not 0 <= value < 256:
+        if not isinstance(x.type, IntType) or value is None or not 0 <= value <= MAX_IMMEDIATE:
             return None
         return x.macro_name if isinstance(x, Constant) else value
 
@@ -631,6 +632,8 @@ class StructOrBoxField(BaseNode):
                 f"load {self.var.scratch_slot}",
                 f"extract {self.offset} {self.size}",
             ]
+            if max(self.offset, self.size) > MAX_IMMEDIATE:
+                teal[1:] = [f"pushint {self.offset}", f"pushint {self.size}", "extract3"]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 96a611b..faba4d5 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -14,7 +14,7 @@ from typing import (
 
 from .base import BaseNode
 from .errors import CompileError, ParseError
-from .expression_nodes import MAX_UINT64
+from .expression_nodes import MAX_IMMEDIATE, MAX_UINT64
 from .tx_expressions import parse_expression
 from .tealish_builtins import Var, constants
 from .types import (
@@ -1957,9 +1957,12 @@ class StructDefinition(InlineStatement):
         for field_node in node.child_nodes:
             if not isinstance(field_node, StructFieldDefinition):
                 continue
-            node.struct.add_field(
-                field_node.field_name, get_type_instance(field_node.data_type)
-            )
+            field_type = get_type_instance(field_node.data_type)
+            if not field_type.size:
+                raise ParseError(
+                    f"Fields of a struct must have a fixed size at line {field_node.line_no}"
+                )
+            node.struct.add_field(field_node.field_name, field_type)
         define_struct(node.struct)
 
         return node
@@ -2035,10 +2038,13 @@ class StructOrBoxAssignment(LineStatement):
                         f"extract {8 - self.data_type.size} {self.data_type.size}"
                     )
             # struct setter one liner
+            if self.offset <= MAX_IMMEDIATE:
+                replace = ["swap", f"replace {self.offset}"]
+            else:
+                replace = [f"pushint {self.offset}", "uncover 2", "replace3"]
             teal += [
                 f"load {self.var.scratch_slot}",
-                "swap",
-                f"replace {self.offset}",
+                *replace,
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From e8270d1fd09ccb244ea846760b623dc25d350460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 33/57] fix: structs and their fields must not be redefined

---
 tealish/nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index faba4d5..7d1d689 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -28,6 +28,7 @@ from .types import (
     UIntType,
     define_struct,
     get_struct,
+    get_structs,
     get_type_instance,
 )
 from .utils import STRING_LITERAL, decode_string
@@ -1953,6 +1954,8 @@ class StructDefinition(InlineStatement):
                     )
                 )
 
+        if node.name in get_structs():
+            raise ParseError(f'Redefinition of struct "{node.name}" at line {node.line_no}')
         node.struct = StructType(node.name)
         for field_node in node.child_nodes:
             if not isinstance(field_node, StructFieldDefinition):
@@ -1962,6 +1965,10 @@ class StructDefinition(InlineStatement):
                 raise ParseError(
                     f"Fields of a struct must have a fixed size at line {field_node.line_no}"
                 )
+            if field_node.field_name in node.struct.fields:
+                raise ParseError(
+                    f'Redefinition of field "{field_node.field_name}" at line {field_node.line_no}'
+                )
             node.struct.add_field(field_node.field_name, field_type)
         define_struct(node.struct)
 
-- 
2.43.0


From a8f8441ab03f9d69a0b4c740626ca931c8c60e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 34/57] fix: return values belong to the line of their return

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7d1d689..b9d9f52 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1781,7 +1781,7 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                node = GenericExpression.parse(arg, self, compiler)
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From 5180d82f2bc6d30ec82d23293c8b3961b57bb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 35/57] fix: parsing nested calls must not take exponential
 time

---
 tealish/tx_expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..7539604 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -15,6 +15,7 @@ tealish_mm = metamodel_from_file(
     skipws=True,
     ws=" \t",
     debug=False,
+    memoization=True,
     classes=class_provider,
 )
 
-- 
2.43.0


From 8dc60e171cdbae77b2f1538ba00121f6964c928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 36/57] fix: unexpected errors are reported as parse or compile
 errors

---
 tealish/__init__.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 9887673..01f1740 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,7 +1,8 @@
-import inspect
+import traceback
+from contextlib import contextmanager
 from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode, lang_spec
-from .errors import ParseError
+from .errors import CompileError, ParseError
 from .nodes import INNER_TXN_MACRO_LABELS, Node, Program
 from .utils import TealishMap, strip_comment
 from .types import StructType, get_structs, set_structs
@@ -74,6 +75,24 @@ class OneLineTealWriter:
         return "; ".join(self.teal)
 
 
+def describe_error(e: Exception) -> str:
+    return f"{type(e).__name__}: {e}"
+
+
+@contextmanager
+def compile_errors():
+    """Report unexpected errors as errors of the statement that was handled"""
+    try:
+        yield
+    except (ParseError, CompileError):
+        raise
+    except Exception as e:
+        frames = [frame for frame, _ in traceback.walk_tb(e.__traceback__)]
+        nodes = [frame.f_locals.get("self") for frame in frames]
+        nodes = [node for node in nodes if isinstance(node, BaseNode)]
+        raise CompileError(describe_error(e), node=nodes[-1] if nodes else None) from e
+
+
 class TealishCompiler:
     def __init__(self, source_lines: List[str]) -> None:
         self.source_lines = source_lines
@@ -145,7 +164,12 @@ class TealishCompiler:
     def parse(self) -> None:
         # Struct definitions belong to a single program
         set_structs({})
-        node = Program.consume(self, None)
+        try:
+            node = Program.consume(self, None)
+        except (ParseError, CompileError):
+            raise
+        except Exception as e:
+            raise ParseError(f"{describe_error(e)} at line {self.line_no}") from e
         self.nodes.append(node)
         self.structs = get_structs()
 
@@ -153,12 +177,8 @@ class TealishCompiler:
         # Another program may have been parsed since
         set_structs(self.structs)
         for node in self.nodes:
-            try:
+            with compile_errors():
                 node.process()
-            except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
-                raise e
         self.processed = True
 
     def compile(self) -> List[str]:
@@ -168,7 +188,8 @@ class TealishCompiler:
             self.process()
         self.writer = TealWriter()
         for node in self.nodes:
-            node.write_teal(self.writer)
+            with compile_errors():
+                node.write_teal(self.writer)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
@@ -178,7 +199,8 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        return self.nodes[0].tealish()
+        with compile_errors():
+            return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
         return TealishMap(
-- 
2.43.0


From 4bd9c911d10933c179161110f61f958724ed0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 37/57] fix: CLI reports compile errors, keeps file names and
 writes a valid source map

---
 tealish/cli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..f816cf0 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -28,9 +28,8 @@ def _build(
 
     for path in paths:
         output_path = pathlib.Path(path).parent / "build"
-        output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.replace(".tl", "")
+        base_filename = filename[:-3] if filename.endswith(".tl") else filename
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
@@ -38,6 +37,7 @@ def _build(
             click.echo(f"Compiling {path} to {teal_filename}")
         teal, tealish_map = _compile_program(open(path).read())
         teal_string = "\n".join(teal + [""])
+        output_path.mkdir(exist_ok=True)
         with open(teal_filename, "w") as f:
             f.write("\n".join(teal + [""]))
 
@@ -78,7 +78,7 @@ def _build(
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
             with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+                f.write(json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
@@ -144,7 +144,7 @@ def format(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     tealish_file.seek(0)
     tealish_file.write(output)
@@ -159,7 +159,7 @@ def inspect(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
-- 
2.43.0


From cdc79b6fcba92615547a0cfa12efaaf2d920c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 38/57] fix: compile errors name their line

---
 tealish/nodes.py  | 4 +++-
 tealish/stdlib.py | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b9d9f52..749c669 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2001,7 +2001,9 @@ class StructOrBoxAssignment(LineStatement):
     def process(self) -> None:
         self.var = self.get_var(self.name.value)
         if self.var is None:
-            raise CompileError(f"Could not find struct with name: {self.name.value}")
+            raise CompileError(
+                f"Could not find struct with name: {self.name.value}", node=self
+            )
 
         if not isinstance(self.var.tealish_type, (StructType, BoxType)):
             raise CompileError(
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index d69d699..9ebd2e1 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -242,7 +242,8 @@ class FromBytes(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
+                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes.",
+                node=self,
             )
         if isinstance(to_type, BytesType) and to_type.size != self.expression.type.size:
             self.expression = BytesSizeAssertionWrapper(self.expression, to_type.size)
@@ -474,7 +475,8 @@ class Rpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Rpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Rpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -506,7 +508,8 @@ class Lpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Lpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Lpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From f78ab3495082cae7b66ef96cfa1ecc8bae8071d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 39/57] fix: formatting keeps trailing comments, also accepted
 after the version pragma

---
 tealish/__init__.py |  9 ++++++++-
 tealish/nodes.py    | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 01f1740..6b88e56 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -110,6 +110,8 @@ class TealishCompiler:
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
+        # trailing comments of source lines
+        self.inline_comments: Dict[int, str] = {}
         self.use_inner_txns_macro = None
         # Names used in the TEAL output
         self.teal_names: Set[str] = {*INNER_TXN_MACRO_LABELS, *lang_spec.field_names}
@@ -122,7 +124,10 @@ class TealishCompiler:
             # check the type is not None
             return  # type: ignore
         line = self.peek()
+        source_line = self.source_lines[self.line_no].strip()
         self.line_no += 1
+        if line != source_line:
+            self.inline_comments[self.line_no] = source_line[len(line) :].strip()
         return line
 
     def peek(self) -> str:
@@ -131,7 +136,9 @@ class TealishCompiler:
             return  # type: ignore
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
-        if not line.startswith("#"):
+        if line.startswith("#pragma "):
+            line = "#" + strip_comment(line[1:], "#").strip()
+        elif not line.startswith("#"):
             line = strip_comment(line, "#", quotes="\"'").strip()
         return line
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 749c669..eb05ecf 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -82,6 +82,7 @@ class Node(BaseNode):
         # self.child_nodes includes nested nodes
         #   (e.g. function body or statements within if...else...end)
         self.child_nodes: List[BaseNode] = []
+        self.end_line_no: Optional[int] = None
         # self.nodes includes structural nodes and child_nodes
         #   (e.g. function args and body, if conditions and child statements)
         self.nodes: List[BaseNode] = []
@@ -124,6 +125,7 @@ class Node(BaseNode):
                 f"Unexpected child node {node} in {self} at line {self._line_no}!"
             )
         node.parent = self
+        node.end_line_no = self.compiler.line_no
         if not node.current_scope:
             node.current_scope = self.current_scope
         self.nodes.append(node)
@@ -140,6 +142,16 @@ class Node(BaseNode):
 
         self.compiler.write(lines, self.line_no)
 
+    def tealish(self) -> str:
+        """Tealish source with the trailing comments of the first and the last line"""
+        s = self._tealish()
+        comments = self.compiler.inline_comments if self.compiler else {}
+        if self.line_no in comments and self.compiler.line_nodes[self.line_no] is self:
+            s = s.replace("\n", f" {comments[self.line_no]}\n", 1)
+        if self.end_line_no != self.line_no and self.end_line_no in comments:
+            s = re.sub(r"(?<![^\n])end\n\Z", lambda _: f"end {comments[self.end_line_no]}\n", s)
+        return s
+
     def get_current_scope(self) -> Scope:
         return self.current_scope
 
@@ -985,6 +997,9 @@ class TealLine(Node):
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"{self.line}")
 
+    def _tealish(self) -> str:
+        return f"{self.line}\n"
+
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine, Comment]
@@ -1009,7 +1024,7 @@ class Teal(InlineStatement):
     def _tealish(self) -> str:
         output = "teal:\n"
         for n in self.child_nodes:
-            output += indent(n.line) + "\n"
+            output += indent(n.tealish())
         output += "end\n"
         return output
 
-- 
2.43.0


From 02df8660d43c8459a6f975daa57a8fb3b3e05078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 40/57] fix: string literals containing ' = ' in call
 statements are not assignments

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index eb05ecf..f83c5d0 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -438,8 +438,6 @@ class LineStatement(InlineStatement):
             return BoxDeclaration(line, parent, compiler=compiler)
         elif re.match(r"[a-z][a-zA-Z_0-9]*\.[a-z][a-zA-Z_0-9]* = .*", line):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
-        elif " = " in line:
-            return Assignment(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
             return Exit(line, parent, compiler=compiler)
@@ -447,6 +445,8 @@ class LineStatement(InlineStatement):
             return Assert(line, parent, compiler=compiler)
         elif re.match(r"[a-zA-Z_0-9]+\(.*\)", line):
             return FunctionCallStatement(line, parent, compiler=compiler)
+        elif " = " in line:
+            return Assignment(line, parent, compiler=compiler)
         else:
             raise ParseError(
                 f'Unexpected line statement: "{line}" at {compiler.line_no}.'
-- 
2.43.0


From 02a99ef5e5929684eaee94033ab4469d277e6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 41/57] fix: a wrong array index of an inner transaction field
 is reported on its line

---
 tealish/nodes.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index f83c5d0..0a7d32a 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1104,16 +1104,9 @@ class InnerTxn(InlineStatement):
                 if n == index:
                     self.array_fields[node.field_name].append(node)
                 else:
-                    # TODO: this is required since the Node base class
-                    # accepts an Optional compiler.
-                    # I think this is wrong but will circle back
-                    lno: int = 0
-                    if self.compiler is not None:
-                        lno = self.compiler.line_no
-
                     raise ParseError(
                         f"Inccorrect field array index {index} "
-                        + f"(expected {n}) at line {lno}!"
+                        + f"(expected {n}) at line {node.line_no}!"
                     )
             node.process()
 
-- 
2.43.0


From 07ac6ab7ca2fa9197df47ef17ce542f235957af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 42/57] fix: maps number the TEAL lines of the assembler's
 source map from 1

---
 tealish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 0dec8f5..4392fb7 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -156,7 +156,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # lines are numbered from 0 in the assembler's source map, and from 1 here
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 4a7fd6bec5688757cd1f766998957dfe3e946d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 43/57] fix: error messages must not contain addresses of
 objects

---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 07e46c0..828b811 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -319,7 +319,7 @@ class OpCall(BaseNode):
             immediates[i] = self.get_immediate(x, op.immediate_kinds[i])
             if immediates[i] is None:
                 raise CompileError(
-                    f"{x} can not be used as an immediate argument for {op.name}",
+                    f"{x.tealish()} can not be used as an immediate argument for {op.name}",
                     node=self,
                 )
         self.immediate_args = " ".join(map(str, immediates))
-- 
2.43.0


From f106a36a7f0a5650608978e7cf9531ba0fd2db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 44/57] fix: don't repeat the comment before a decorated
 function when formatting

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0a7d32a..40e9a00 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1895,6 +1895,10 @@ class DecoratedFunc(InlineStatement):
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.func)
 
+    def tealish(self) -> str:
+        # trailing comments belong to the decorators and the function
+        return self._tealish()
+
     def _tealish(self) -> str:
         output = ""
         for n in self.child_nodes:
-- 
2.43.0


From 441dac62b18f002887175ecb35721b11a646e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 45/57] fix: refuse text after else:, elif, teal:, inner_txn:,
 inner_group: and struct fields instead of dropping it

---
 tealish/nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 40e9a00..a70fdda 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1003,6 +1003,7 @@ class TealLine(Node):
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine, Comment]
+    pattern = r"teal:$"
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -1056,6 +1057,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 class InnerTxn(InlineStatement):
     possible_child_nodes = [InnerTxnFieldSetter, Comment, Blank]
+    pattern = r"inner_txn:$"
 
     def __init__(
         self,
@@ -1139,6 +1141,7 @@ class InnerTxn(InlineStatement):
 
 class InnerGroup(InlineStatement):
     possible_child_nodes = [InlineStatement]
+    pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1219,7 +1222,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1266,7 +1269,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
@@ -1909,7 +1912,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
-- 
2.43.0


From e88406c4cb4942f89dbc002b1c9467832f83c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 46/57] fix: format the parameters of decorators

---
 tealish/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a70fdda..a5141b8 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1833,7 +1833,8 @@ class Decorator(Node):
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
 
     def _tealish(self) -> str:
-        output = f"@{self.name}({self.params})\n"
+        params = "=".join(s.strip() for s in self.params.split("="))
+        output = f"@{self.name}({params})\n"
         return output
 
 
-- 
2.43.0


From 93e84748fecf4547827c1375b0314f098994c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 47/57] fix: build with goal in a temporary directory instead
 of /tmp/out.tok

---
 tealish/build.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tealish/build.py b/tealish/build.py
index a28d429..0c2e08f 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -1,24 +1,27 @@
 from base64 import b64decode
 from typing import Tuple
 import json
+import os
 import subprocess
+import tempfile
 from algosdk.v2client.algod import AlgodClient
 from algosdk.source_map import SourceMap
 
 
 def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
-    tmp_out_filename = "/tmp/out.tok"
-    try:
-        subprocess.check_output(
-            ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
-            input=teal.encode(),
-        )
-    except FileNotFoundError:
-        raise Exception("goal not found in path")
-    except subprocess.CalledProcessError as e:
-        raise Exception(e.output)
-    bytecode = open(tmp_out_filename, "rb").read()
-    algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        tmp_out_filename = os.path.join(tmp_dir, "out.tok")
+        try:
+            subprocess.check_output(
+                ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
+                input=teal.encode(),
+            )
+        except FileNotFoundError:
+            raise Exception("goal not found in path")
+        except subprocess.CalledProcessError as e:
+            raise Exception(e.output)
+        bytecode = open(tmp_out_filename, "rb").read()
+        algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
     return bytecode, SourceMap(algod_sourcemap)
 
 
-- 
2.43.0


From 537cfca0056b64d5087ff08e9ebf190ad3647c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 48/57] fix: push and Error have no value

---
 tealish/stdlib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 9ebd2e1..04b3667 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -83,7 +83,7 @@ class Push(FunctionCall):
     name = "push"
 
     def process(self) -> None:
-        self.type = None
+        self.type = []
         for arg in self.args:
             arg.process()
             if not AnyType().can_hold(arg.type):
@@ -446,6 +446,10 @@ class UncheckedCast(FunctionCall):
 class Error(FunctionCall):
     name = "Error"
 
+    def process(self) -> None:
+        super().process()
+        self.type = []
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "err")
 
-- 
2.43.0


From 39b12a971a659e9fd1725fe97e4aa689234d1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 49/57] fix: the fields of an opcode are no values

---
 tealish/expression_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 828b811..890e199 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -313,6 +313,9 @@ class OpCall(BaseNode):
             raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
         for i, arg in enumerate(self.args):
             arg.process()
+            # The fields of the op are not values
+            if isinstance(arg, Enum) and arg.value is None:
+                raise CompileError(f'Unknown builtin enum "{arg.name}"', node=self)
         self.check_arg_types(self.name, self.args)
         for i, x in enumerate(immediates):
             x.process()
-- 
2.43.0


From 2d8e4a8bb5fbd0faf5f50535ffa8330eea7e7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 50/57] fix: fields of any type can be immediates

---
 tealish/expression_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 890e199..df13eae 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -6,6 +6,7 @@ from .errors import CompileError
 from .types import (
     AVMType,
     AddrType,
+    AnyType,
     BigIntType,
     BoxType,
     StructType,
@@ -134,7 +135,7 @@ class Enum(BaseNode):
                 type = self.lookup_op_field(self.parent.name, self.name)
             except KeyError:
                 raise CompileError(f'Unknown builtin enum "{self.name}"', node=self)
-        if not isinstance(type, (IntType, BytesType, BigIntType, AddrType)):
+        if not isinstance(type, (IntType, BytesType, BigIntType, AddrType, AnyType)):
             raise CompileError(f"Unexpected const type {type}", node=self)
 
         self.type = type
-- 
2.43.0


From 3213fea92d1e4a98ca4676be7f7d7c6bd8276812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 51/57] fix: fetch the langspec of branches with http or blob
 in their names

---
 tealish/langspec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index cff442a..cb85cf2 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -340,15 +340,16 @@ def compare_langspecs(a: LangSpec, b: LangSpec) -> Tuple[List[Any], List[Any]]:
 
 
 def fetch_langspec(url: str) -> LangSpec:
-    if "http" not in url:
+    if not url.startswith(("http://", "https://")):
         # assume branch name for go-algorand
         branch = url
         url = (
             f"https://github.com/algorand/go-algorand/raw/{branch}"
             "/data/transactions/logic/langspec.json"
         )
-    if "github.com" in url and "blob" in url:
-        url = url.replace("blob", "raw")
+    else:
+        # link to the page of a file on github
+        url = re.sub(r"(github\.com/[^/]+/[^/]+)/blob/", r"\1/raw/", url, count=1)
     r = requests.get(url)
     r.raise_for_status()
     langspec_dict = r.json()
-- 
2.43.0


From 0492d78cc24dacefe49a4662b9ade4aa08061726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 52/57] fix: refuse types with something after them

---
 tealish/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 2781b57..ec20e48 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -224,16 +224,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]+)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From e83db251876f98f2bbbfe0bb13686ea5063d6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:14 +0000
Subject: [PATCH 53/57] fix: take only names as type arguments of standard
 functions

---
 tealish/stdlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 04b3667..4f89f92 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -4,7 +4,7 @@ from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Bytes, Integer
+from tealish.expression_nodes import Bytes, Constant, Enum, Integer, Variable
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -37,8 +37,9 @@ class FunctionCall(BaseNode):
             )
 
     def get_type_arg(self, arg: "Node") -> TealishType:
+        name = arg.name if isinstance(arg, (Variable, Constant, Enum)) else ""
         try:
-            return get_type_instance(getattr(arg, "name", ""))
+            return get_type_instance(name)
         except KeyError:
             raise CompileError(f"Expected a type as argument of {self.name}", node=self)
 
-- 
2.43.0


From 2bede9f56012fd1adf5cec29f722c3efc54f6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 54/57] fix: refuse empty and spaced out return types

---
 tealish/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a5141b8..48d46ce 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1706,11 +1706,12 @@ class Func(InlineStatement):
         scope.declare_function(self.name, self)
         self.label = compiler.unique_name(scope.name + "__func__" + self.name)
         self.new_scope("func__" + self.name)
-        self.return_type = self.return_type.replace(" ", "")
+        self.return_type = ",".join(t.strip() for t in self.return_type.split(","))
         try:
             self.returns = [
                 get_type_instance(type_name)
-                for type_name in filter(None, self.return_type.split(","))
+                for type_name in self.return_type.split(",")
+                if self.return_type
             ]
         except KeyError as e:
             raise ParseError(str(e) + f" Line {self.line_no}")
-- 
2.43.0


From ceb2c24870cdad28f74e0b0435d462ff84d498fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 55/57] fix: refuse hyphens in names and types of struct fields

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 48d46ce..a89fd74 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1913,8 +1913,8 @@ class DecoratedFunc(InlineStatement):
 
 class StructFieldDefinition(InlineStatement):
     pattern = (
-        r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
+        r"(?P<field_name>[a-z][A-Za-z0-9_]*): "
+        + r"(?P<data_type>[a-zA-Z][A-Za-z0-9_]+(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
-- 
2.43.0


From a87c20afcdd7a50015da48454cd61748b30e0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 56/57] fix: take only the digits 0-9 in versions and array
 indexes

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a89fd74..02c3994 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -454,7 +454,7 @@ class LineStatement(InlineStatement):
 
 
 class TealVersion(LineStatement):
-    pattern = r"#pragma version (?P<version>\d+)$"
+    pattern = r"#pragma version (?P<version>[0-9]+)$"
     version: int
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1031,7 +1031,7 @@ class Teal(InlineStatement):
 
 
 class InnerTxnFieldSetter(InlineStatement):
-    pattern = r"(?P<field_name>.*?)(\[(?P<index>\d\d?)\])?: (?P<expression>.*)"
+    pattern = r"(?P<field_name>.*?)(\[(?P<index>[0-9]{1,2})\])?: (?P<expression>.*)"
     field_name: str
     index: int
     expression: GenericExpression
-- 
2.43.0


From e5b91291f0517f4b357595d4200e26dd545c41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:26 +0000
Subject: [PATCH 57/57] fix: hash the decoded event signature in ARC28Event

---
 tealish/stdlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 4f89f92..6d8724f 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -16,6 +16,7 @@ from tealish.types import (
     UIntType,
     get_type_instance,
 )
+from tealish.utils import decode_string
 
 
 class FunctionCall(BaseNode):
@@ -572,7 +573,7 @@ class ARC28Event(FunctionCall):
     def process(self) -> None:
         self.check_number_of_args(1, 256)
         self.signature = self.get_string_arg(self.args[0])
-        self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
+        self.prefix = SHA512.new(decode_string(self.signature), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             arg.process()
             self.check_bytes(arg)
-- 
2.43.0


From 8caa9c2f08bb25eb3f91f54c1e8bac8571455681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 001/121] fix: give each front end State its own lists instead
 of shared mutable defaults

---
 metalift/frontend/python.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..0656e04 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,14 +106,14 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
+        self.precond = [] if precond is None else precond
+        self.vars = {} if vars is None else vars
+        self.asserts = [] if asserts is None else asserts
         self.has_returned = has_returned if not has_returned else has_returned
 
     def read(self, var: str) -> Object:
-- 
2.43.0


From 66a0cc0059c5dae44a5078faa9b56dc8c7e48ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 002/121] fix: keep every link of a chained comparison in the
 Python front end

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0656e04..d055dc3 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -686,8 +686,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(o.operators[i], operands[i], operands[i + 1]),
             )
         return e
 
-- 
2.43.0


From be907aee215e05839618561b585b5122362c72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 003/121] fix: update the receiver of append/add/remove by its
 variable, without mutating the old value

---
 metalift/frontend/python.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index d055dc3..6f0b8c5 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -769,6 +769,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return 0 - cast(Int, expr)
         raise Exception(f"Unsupported unary operator '{o.op}'")
 
+    # update the variable that a mutating method is called on
+    def write_receiver(self, o: CallExpr, val: Object) -> None:
+        receiver = o.callee.expr  # type: ignore
+        if not isinstance(receiver, NameExpr):
+            raise Exception("Can only modify lists and sets stored in variables!")
+        self.state.write(receiver.name, val)
+
     def visit_call_expr(self, o: CallExpr) -> Object:
         if is_func_call_with_name(o, "len"):
             assert len(o.args) == 1
@@ -783,9 +790,15 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
-            list_after_append = callee_expr.append(elem_to_append)
-            self.state.write(var_name, list_after_append)
+            if elem_to_append.type != callee_expr.containedT:
+                raise TypeError(
+                    f"Trying to append element of type: {elem_to_append.type} to list containing: {callee_expr.containedT}"
+                )
+            # build a new value: the old one may still be referenced, e.g., as an argument
+            list_after_append = call(
+                "list_append", callee_expr.type, callee_expr, elem_to_append
+            )
+            self.write_receiver(o, list_after_append)
             return list_after_append
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
             o, "remove"
@@ -805,7 +818,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
+            self.write_receiver(o, set_after_modification)
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
-- 
2.43.0


From a5b09d7f30e4ba43063b524b5ca2c5c007a66323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 004/121] fix: pass a callee summary its arguments in the order
 it is defined with

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 6f0b8c5..062ff6e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -996,7 +996,7 @@ class MetaliftFunc:
         ret_val = create_object(object_type, f"{self.name}_rv")
         self.driver.add_var_object(ret_val)
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From 59769ca26df1910b3019ae0cf07c157c15492a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 005/121] fix: merge the two branches of an if statement
 without losing values, conditions or obligations

---
 metalift/frontend/python.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 062ff6e..d8e947b 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -435,6 +435,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:
+                break  # not reachable
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -626,17 +628,25 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        self.state.asserts = ObjectSet(
+            self.state.asserts + c_state.asserts + a_state.asserts
+        ).objects()
 
         if c_state.has_returned and a_state.has_returned:
-            return
+            self.state.has_returned = True
         elif c_state.has_returned and not a_state.has_returned:
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            # facts established within each branch, on top of the branch condition itself
+            num_facts = len(self.state.precond) + 1
+            self.state.precond += [
+                implies(cond, fact) for fact in c_state.precond[num_facts:]
+            ] + [implies(cond.Not(), fact) for fact in a_state.precond[num_facts:]]
+
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
@@ -647,7 +657,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # at this point we know that all vars exist in both c_state and a_state
             for v, c_e in c_state.vars.items():
                 a_e = a_state.vars[v]
-                if c_e != a_e:
+                if not Object.__eq__(c_e, a_e):
                     self.state.vars[v] = ite(cond, c_e, a_e)
                 else:
                     self.state.vars[v] = c_e
-- 
2.43.0


From 6843e03e674e99f1e38bc529e99b93749913ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 006/121] fix: keep the obligations and path facts of while
 loop bodies

---
 metalift/frontend/python.py | 38 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index d8e947b..4b2c39e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -456,6 +456,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         return r
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
+        if o.else_body is not None:
+            raise NotImplementedError()
+
         v = RWVarsVisitor(self.types)
         o.accept(v)
 
@@ -509,6 +512,16 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
+        cond = o.expr.accept(self)
+        if not isinstance(cond, Bool):
+            raise Exception(
+                "The condition of a while loop must evaluate to a bool object!"
+            )
+
+        # the body starts from an arbitrary state in which both inv and cond are true
+        body_state = copy.deepcopy(self.state)
+        body_state.asserts = []
+        body_state.precond += [cond, inv.call(self.state)]
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -516,7 +529,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -527,24 +540,17 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
+        # obligations within the body, e.g., of nested loops and return statements
+        self.state.asserts += body_visitor.state.asserts
+
         # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        if not body_visitor.state.has_returned:
+            c = and_objects(*body_visitor.state.precond)
+            self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
-        self.state.precond.append(
-            and_objects(cast(Bool, cond).Not(), inv.call(self.state))
-        )
+        self.state.precond.append(and_objects(cond.Not(), inv.call(self.state)))
 
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
-- 
2.43.0


From 0c4c36af54b66ff9feb3d4f50bd6551e0a0cb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 007/121] fix: havoc loop variables under fresh names so they
 are not confused with arguments or other loops

---
 metalift/frontend/python.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4b2c39e..72c839a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -455,6 +455,17 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                     r.add((v, t))
         return r
 
+    # a havocked value must not be confused with an argument, or with the value that the same
+    # variable has in another loop
+    def fresh_name(self, name: str) -> str:
+        used = {v.name() for v in self.driver.var_tracker.all()}
+        used.update(a.var_name() for a in self.args if isinstance(a.src, Var))
+        fresh, i = name, 0
+        while fresh in used:
+            i += 1
+            fresh = f"{name}_{i}"
+        return fresh
+
     def visit_while_stmt(self, o: WhileStmt) -> None:
         if o.else_body is not None:
             raise NotImplementedError()
@@ -507,10 +518,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         print(f"inv is init true: {self.state.asserts[-1]}")
 
         # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
+        for name, type in writes:
+            new_value = create_object(to_object_type(type), self.fresh_name(name))
             self.driver.add_var_object(new_value)
-            self.state.write(var[0], new_value)
+            self.state.write(name, new_value)
 
         cond = o.expr.accept(self)
         if not isinstance(cond, Bool):
-- 
2.43.0


From f26b4e11c4b4e25313ec092e6b4226253749156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 008/121] fix: reject expressions and call forms the Python
 front end does not model

---
 metalift/frontend/python.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 72c839a..d4150f6 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -7,6 +7,7 @@ from mypy.build import BuildResult
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_POS,
     AssertStmt,
     AssignmentStmt,
     Block,
@@ -356,7 +357,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         if len(o.lvalues) > 1:
             raise RuntimeError(f"multi assignments not supported: {o}")
         target = cast(NameExpr, o.lvalues[0]).name
-        self.state.write(target, o.rvalue.accept(self))
+        self.state.write(target, self.eval(o.rvalue))
 
     def visit_for_stmt(self, o: ForStmt) -> None:
         raise NotImplementedError()
@@ -570,7 +571,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.pred_tracker.predicates[self.ast].name,
             Bool,
             *self.args,
-            o.expr.accept(self),
+            self.eval(o.expr),
         )
         ps = cast(Bool, ps)
         if self.state.precond:
@@ -702,6 +703,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     ##
     ## Expressions
     ##
+    # visit methods that are not implemented inherit an empty body and return nothing
+    def eval(self, e: MypyExpr) -> Object:
+        val = e.accept(self)
+        if not isinstance(val, Object):
+            raise NotImplementedError(f"unsupported expression: {e}")
+        return val
+
     def visit_int_expr(self, o: IntExpr) -> Int:
         return Int(o.value)
 
@@ -767,7 +775,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             raise RuntimeError(f"unknown binary op: {op} in {o}")
 
     def visit_tuple_expr(self, o: mypyTupleExpr) -> mlTuple[ObjectT]:  # type: ignore
-        tuple_exprs = [expr.accept(self) for expr in o.items]
+        tuple_exprs = [self.eval(expr) for expr in o.items]
         return make_tuple(*tuple_exprs)
 
     def visit_index_expr(self, o: IndexExpr) -> Object:
@@ -849,7 +857,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
-            args = [a.accept(self) for a in o.args]
+            if any(kind != ARG_POS for kind in o.arg_kinds):
+                raise NotImplementedError(f"only positional args are supported: {o}")
+            args = [self.eval(a) for a in o.args]
             expr_type = self.types.get(o)
             assert expr_type is not None
             return call(get_fn_name(o), to_object_type(expr_type), *args)
-- 
2.43.0


From 91c00e352c1c18497ad6d0ff93b9e239455adda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 009/121] fix: take the variables in scope at a loop from its
 own function only

---
 metalift/frontend/python.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index d4150f6..14ac10a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -446,16 +446,6 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def visit_operator_assignment_stmt(self, o: OperatorAssignmentStmt) -> None:
         raise NotImplementedError()
 
-    def in_scope_vars(
-        self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
-    ) -> Set[MypyVar]:
-        r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
-        return r
-
     # a havocked value must not be confused with an argument, or with the value that the same
     # variable has in another loop
     def fresh_name(self, name: str) -> str:
@@ -480,8 +470,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         reads = list(v.reads)
         reads.sort()
 
-        in_scope = list(self.in_scope_vars(self.state.vars, self.types))
-        in_scope.sort()
+        in_scope = sorted(self.state.vars.keys())
 
         print(f"loop writes: {writes}, reads: {reads}, scope: {in_scope}")
 
@@ -497,7 +486,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             create_object(to_object_type(type), name) for name, type in reads
         ]
         in_scope_objects = [
-            create_object(to_object_type(type), name) for name, type in in_scope
+            create_object(self.state.read(name).type, name) for name in in_scope
         ]
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
-- 
2.43.0


From 54abad32d1992d454ae4b02f84b0303161742475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 010/121] fix: end the recursion of matrix_transpose in the SMT
 library when the rows run out

---
 metalift/utils/list-axioms.smt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
-- 
2.43.0


From bac2f3dd28bdc69d27660f4055a47cee9cbd3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 011/121] fix: write negative integer literals as SMT-LIB terms

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..e38b39d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1910,6 +1910,8 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            return f"(- {-self.args[0]})"  # SMT-LIB has no negative numerals
         else:
             return str(self.args[0])
 
-- 
2.43.0


From 23040201c4806ae4270024bd70f367d31968b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 012/121] fix: render non-recursive function declarations with
 a body to SMT-LIB

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index e38b39d..1b06cdb 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3231,8 +3231,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From b3c3495eafc8e0fc43db3af59a73ad0869a0107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 013/121] fix: select a tuple component in SMT-LIB by the
 tuple's type, whatever expression it is

---
 metalift/ir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1b06cdb..b862189 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2534,10 +2534,7 @@ class Call(Expr):
                     )
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
-                elif (
-                    isinstance(self.args[idx + 1], Var)
-                    and get_origin(self.args[idx + 1].type) == Tuple
-                ):
+                elif get_origin(self.args[idx + 1].type) == Tuple:
                     length = len(get_args(get_args(self.args[idx + 1].type)[0]))
                     retVal.append(f"tuple{length}_get{index}")
                 else:
-- 
2.43.0


From 4fea757256a0667af810ea2a324593161f02a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 014/121] fix: render single-operand sums, products and
 connectives as valid SMT-LIB

---
 metalift/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index b862189..2958607 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -342,6 +342,9 @@ class Expr:
 
     @staticmethod
     def toSMTSimple(e: "Expr", name: str) -> str:
+        if len(e.args) == 1 and isinstance(e, (Add, Mul, And, Or)):
+            # SMT-LIB operators need at least two operands
+            return e.args[0].toSMT()  # type: ignore
         value = name
         return (
             "("
-- 
2.43.0


From a90a958ca52589ff15ba41caf678683e19e07971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 015/121] fix: take the component types of a TupleGet from the
 tuple type

---
 metalift/ir.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2958607..fd2ee6d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2780,8 +2780,7 @@ class TupleExpr(Expr):
 
 class TupleGet(Expr):
     def __init__(self, t: Expr, i: Expr) -> None:
-        # TODO: type.args no longer exist. need proper fix
-        Expr.__init__(self, t.type.args[i.args[0]], [t, i])  # type: ignore
+        Expr.__init__(self, get_args(get_args(t.type)[0])[i.args[0]], [t, i])
 
     def t(self) -> Expr:
         return self.args[0]  # type: ignore
@@ -2799,7 +2798,7 @@ class TupleGet(Expr):
     def toSMT(self) -> str:
         # example: generate (tuple2_get0 t)
         return "(tuple%d_get%d %s)" % (
-            len(self.args[0].type.args),
+            len(get_args(get_args(self.args[0].type)[0])),
             self.args[1].args[0],
             self.args[0].toSMT(),
         )  # args[1] must be an int literal
-- 
2.43.0


From 0175cfd623f54cbe0607114d35b99c11a7b12e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 016/121] fix: build Lambda expressions with the current
 function types

---
 metalift/ir.py               | 6 +++---
 metalift/synthesis_common.py | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index fd2ee6d..a19068d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -151,7 +151,7 @@ class Expr:
         elif isinstance(self, Let):
             return Let(*[f(a) for a in self.args])
         elif isinstance(self, Lambda):
-            return Lambda(self.type.args[0], *[f(a) for a in self.args])  # type: ignore
+            return Lambda(get_fn_return_type(self.type), *[f(a) for a in self.args])
         elif isinstance(self, Choose):
             return Choose(*[f(a) for a in self.args])
         elif isinstance(self, TupleGet):
@@ -267,7 +267,7 @@ class Expr:
                 elif isinstance(e, Let):
                     return Let(*newArgs)
                 elif isinstance(e, Lambda):
-                    return Lambda(e.type.args[0], *newArgs)  # type: ignore
+                    return Lambda(get_fn_return_type(e.type), *newArgs)  # type: ignore
                 elif isinstance(e, CallValue):
                     return CallValue(*newArgs)
                 else:
@@ -3118,7 +3118,7 @@ class FnDeclRecursive(Expr):
 
 class Lambda(Expr):
     def __init__(self, returnT: ObjectT, body: Expr, *args: Expr) -> None:
-        Expr.__init__(self, FnT(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
+        Expr.__init__(self, make_fn_type(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
 
     def body(self) -> Expr:
         return self.args[0]  # type: ignore
diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 4f93ffb..8b88195 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -130,9 +130,8 @@ def parse_candidates(
                         lambda_name = f"lambda_{len(extracted_lambdas)}"
                         extracted_lambdas.append(
                             FnDecl(
-                                # TODO: ar.type no longer has args, find proper substitution
                                 lambda_name,
-                                ar.type.args[0],  # type: ignore
+                                get_fn_return_type(ar.type),
                                 ar.args[0],
                                 *ar.args[1:],
                             )
-- 
2.43.0


From 6d28e438c6b76d8da3b2df51f490919c3afe7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 017/121] fix: give Matrix and Tensor3D their own type names
 and sorts

---
 metalift/ir.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a19068d..30f794f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1539,11 +1539,8 @@ class Matrix(List[T], Generic[T], Object):
 
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type = type_args[0]
-        if isinstance(contained_type, _GenericAlias):
-            return f"List {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
-        else:
-            return f"List {contained_type.cls_str()}"
+        elem_type = type_args[0]
+        return f"Matrix {elem_type.cls_str(get_args(elem_type))}"  # type: ignore
 
 
 class Tensor3D(List[T], Generic[T], Object):
@@ -1601,6 +1598,19 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
+        return f"List[{Matrix.to_python_type_str(type_args)}]"
+
+    @staticmethod
+    def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"(MLList {Matrix.toSMTType(type_args)})"
+
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        elem_type = type_args[0]
+        return f"Tensor3D {elem_type.cls_str(get_args(elem_type))}"  # type: ignore
+
 
 class Set(Generic[T], Object):
     def __init__(
-- 
2.43.0


From 14b7a2e2c37e912c7cf05c09935558c7023273c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 018/121] fix: name the argument and result types of function
 types

---
 metalift/ir.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 30f794f..ee5a3af 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1846,16 +1846,10 @@ class Fn(Generic[FnContainedT], Object):
 
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type_strs: list[str] = []
-        contained_types = get_args(get_args(type_args[0]))
-        for contained_type in contained_types:
-            if isinstance(contained_type, _GenericAlias):
-                contained_type_str = get_origin(contained_type).toSMTType(  # type: ignore
-                    get_args(contained_type)
-                )
-            else:
-                contained_type_str = contained_type.toSMTType()
-            contained_type_strs.append(contained_type_str)
+        contained_type_strs = [
+            contained_type.cls_str(get_args(contained_type))  # type: ignore
+            for contained_type in get_args(type_args[0])
+        ]
         return f"Function {' '.join(contained_type_strs)}"
 
 
-- 
2.43.0


From a3cbf9f12497f1329470cda99871a67138d41670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 019/121] fix: render calls of user functions whose name starts
 with integer to Rosette

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ee5a3af..892b51e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -373,7 +373,7 @@ class Expr:
             return "integer-sqrt-noerr"
         elif fn_name == "integer_exp":
             return "integer-exp-noerr"
-        raise Exception(f"Unsupported integer function {fn_name}")
+        return None
 
     @staticmethod
     def get_list_fn(expr: Union["Call", "CallValue"]) -> Optional[str]:
-- 
2.43.0


From d3711341d37f42cebf965da38bdc983d868051a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 020/121] fix: parenthesize operators when rendering
 expressions to Python

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 892b51e..f75ab53 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1957,7 +1957,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2013,7 +2013,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2108,7 +2108,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2139,7 +2139,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2170,7 +2170,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2201,7 +2201,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2232,7 +2232,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2259,7 +2259,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2287,7 +2287,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2311,7 +2311,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From fb50cf54ddaecc75d1869cd4f40832de05489849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 021/121] fix: render one-element tuples to Python as tuples

---
 metalift/ir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f75ab53..ab89f10 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2776,7 +2776,9 @@ class TupleExpr(Expr):
         return "(tuple%d %s)" % (len(self.args), args)
 
     def to_python(self) -> str:
-        return f"({', '.join([arg.to_python() for arg in self.args])})"
+        # a one-element tuple needs its trailing comma
+        trailing_comma = "," if len(self.args) == 1 else ""
+        return f"({', '.join([arg.to_python() for arg in self.args])}{trailing_comma})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_TupleExpr(self)
-- 
2.43.0


From 17cb2d87352b11e464867a180fc9b3051190e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 022/121] fix: render make-tuple and tupleGet calls to Python

---
 metalift/ir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index ab89f10..2a18f2c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2585,6 +2585,10 @@ class Call(Expr):
             return f"{processed_args[0]}[{processed_args[1]}:{processed_args[2]}]"
         elif self.name() in {"vec_slice_with_length", "matrix_row_slice_with_length"}:
             return f"{processed_args[0]}[{processed_args[1]}:{processed_args[1]}+{processed_args[2]}]"
+        elif self.name() == "make-tuple":
+            return TupleExpr(*self.arguments()).to_python()
+        elif self.name() == "tupleGet":
+            return f"{processed_args[0]}[{processed_args[1]}]"
         else:
             return f"{self.name()}({', '.join(processed_args)})"
 
-- 
2.43.0


From 989e16dbfee206b8538ddeee7aae806321bb568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 023/121] fix: keep expressions of different types apart in
 structural equality

---
 metalift/ir.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2a18f2c..23f8957 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -306,8 +306,7 @@ class Expr:
         elif isinstance(other, Expr):
             if (
                 type(self) != type(other)
-                # or self.type.erase() #TODO: add them back
-                # != other.type.erase()
+                or self.type != other.type
                 or len(self.args) != len(other.args)
             ):
                 return False
-- 
2.43.0


From 0068183b0b33a6560b1e2fac051fa09d737e2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 024/121] fix: collect knowledge from three or more equalities
 on one variable

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 23f8957..442ecac 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -514,7 +514,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -522,7 +522,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From 9a8e6ff3fac91f865e0880e9e2828c575baa3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 025/121] fix: keep variable use counts current while
 optimizing useless equalities

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 442ecac..4641876 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -578,6 +578,12 @@ class Expr:
 
             self = self.rewrite(rewrites)
 
+            # the substitution moved variable uses around
+            counts_after: Dict[str, int] = {}
+            self.count_variable_uses(counts_after)
+            for key in {**local_counts, **counts_after}:
+                counts[key] += counts_after.get(key, 0) - local_counts.get(key, 0)
+
         return self.map_args(
             lambda a: a.optimize_useless_equality(counts, new_vars)
             if isinstance(a, Expr)
-- 
2.43.0


From c2e3df03c38a8baedd0c8b0c6fcbae391f2a4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 026/121] fix: substitute premise equalities only in
 implications that have to hold

---
 metalift/ir.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 4641876..b4ab3c3 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -544,7 +544,10 @@ class Expr:
             )
 
     def optimize_useless_equality(
-        self, counts: Dict[str, int], new_vars: typing.Set["Var"]
+        self,
+        counts: Dict[str, int],
+        new_vars: typing.Set["Var"],
+        positive: bool = True,
     ) -> "Expr":
         if isinstance(self, Eq):
             replacement_var = Var("useless_equality_%d" % len(new_vars), Bool)
@@ -557,7 +560,9 @@ class Expr:
             elif isinstance(self.args[0], Var) and isinstance(self.args[1], Var):
                 if self.args[0].args[0] == self.args[1].args[0]:
                     return BoolLit(True)
-        elif isinstance(self, Implies):
+        elif isinstance(self, Implies) and positive:
+            # substituting what the premise says is only sound for an implication
+            # that has to hold, not for one that is itself assumed
             local_counts: Dict[str, int] = {}
             self.count_variable_uses(local_counts)
 
@@ -584,8 +589,15 @@ class Expr:
             for key in {**local_counts, **counts_after}:
                 counts[key] += counts_after.get(key, 0) - local_counts.get(key, 0)
 
+        if isinstance(self, Implies):
+            premise, conclusion = self.args
+            return Implies(
+                premise.optimize_useless_equality(counts, new_vars, False),
+                conclusion.optimize_useless_equality(counts, new_vars, positive),
+            ).simplify()
+        keeps_polarity = positive and isinstance(self, (And, Or))
         return self.map_args(
-            lambda a: a.optimize_useless_equality(counts, new_vars)
+            lambda a: a.optimize_useless_equality(counts, new_vars, keeps_polarity)
             if isinstance(a, Expr)
             else a
         ).simplify()
-- 
2.43.0


From fb0ffa77d8dae5e404c65bcb671e5188caa8262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 027/121] fix: optimize_vc_equality works on the expression it
 is given

---
 metalift/synthesize_rosette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..3a0484f 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -578,9 +578,9 @@ def synthesize(
         while True:
             expr_count: Dict[str, int] = {}
 
-            vc.src.count_variable_uses(expr_count)  # type: ignore
+            vc.count_variable_uses(expr_count)
 
-            vc = vc.src.optimize_useless_equality(expr_count, new_vars)  # type: ignore
+            vc = vc.optimize_useless_equality(expr_count, new_vars)
 
             if vc.toSMT() == prev_vc:
                 break  # run to fixpoint
-- 
2.43.0


From 638e0f061d468658f4f72b93071ae620098bdaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 028/121] fix: respect bound variables when rewriting let and
 lambda expressions

---
 metalift/ir.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index b4ab3c3..7a75a3a 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -538,6 +538,34 @@ class Expr:
                 return mappings[self.args[0]]
             else:
                 return self
+        elif isinstance(self, (Let, Lambda)):
+            # inside its scope a bound variable is neither replaced nor captured
+            bound = self.args[:1] if isinstance(self, Let) else self.args[1:]
+            scope = self.args[2] if isinstance(self, Let) else self.args[0]
+            names = [v.args[0] for v in bound]
+            inner = {n: e for n, e in mappings.items() if n not in names}
+            used: Dict[str, int] = {}
+            for e in [scope, *bound, *inner.values()]:
+                e.count_variable_uses(used)
+            incoming: Dict[str, int] = {}
+            for e in inner.values():
+                e.count_variable_uses(incoming)
+            new_bound: typing.List[Expr] = []
+            for v in bound:
+                name = v.args[0]
+                if name in incoming:
+                    while name in used:
+                        name = f"{name}_"
+                    used[name] = 1
+                    inner[v.args[0]] = Var(name, v.type)
+                new_bound.append(Var(name, v.type))
+            if isinstance(self, Let):
+                return Let(
+                    new_bound[0], self.args[1].rewrite(mappings), scope.rewrite(inner)
+                )
+            return Lambda(
+                get_fn_return_type(self.type), scope.rewrite(inner), *new_bound
+            )
         else:
             return self.map_args(
                 lambda a: a.rewrite(mappings) if isinstance(a, Expr) else a
-- 
2.43.0


From ba32be7b1849729a557f1266a5d1bc14c1d4622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 029/121] fix: reject Python booleans as integer operands

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 7a75a3a..b91b4cd 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -961,7 +961,7 @@ class Int(Object):
         src: Expr
         if value is None:
             src = Var("v", Int)
-        elif isinstance(value, int):
+        elif isinstance(value, int) and not isinstance(value, bool):
             src = IntLit(value)
         elif isinstance(value, Expr):
             if value.type != Int:
-- 
2.43.0


From ce871bbe4d589a1405d9016d4ad8cf1b827c824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 030/121] fix: reject equality between values of different
 types

---
 metalift/ir.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index b91b4cd..19e37f4 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -724,6 +724,11 @@ def get_object_expr(object: Union["Object", Expr]) -> Expr:
     return object.src if isinstance(object, Object) else object
 
 
+def check_same_type(obj: "Object", other: Any) -> None:
+    if not isinstance(other, Object) or obj.type != other.type:
+        raise TypeError(f"Cannot compare {obj} of type {obj.type} with {other}")
+
+
 def is_new_object_type(ty: ObjectContainedT) -> bool:
     if isinstance(ty, _GenericAlias):
         return issubclass(get_origin(ty), Object)  # type: ignore
@@ -929,11 +934,13 @@ class Bool(Object):
     def __eq__(self, other: Union["Bool", bool]) -> "Bool":  # type: ignore
         if isinstance(other, bool):
             other = Bool(other)
+        check_same_type(self, other)
         return Bool(Eq(self.src, other.src))
 
     def __ne__(self, other: Union["Bool", bool]) -> "Bool":  # type: ignore
         if isinstance(other, bool):
             other = Bool(other)
+        check_same_type(self, other)
         return Bool(Not(Eq(self.src, other.src)))
 
     def __repr__(self) -> str:
@@ -1057,11 +1064,13 @@ class Int(Object):
     def __eq__(self, other: Union["Int", int]) -> Bool:  # type: ignore
         if isinstance(other, int):
             other = Int(other)
+        check_same_type(self, other)
         return Bool(Eq(self.src, other.src))
 
     def __ne__(self, other: Union["Int", int]) -> Bool:  # type: ignore
         if isinstance(other, int):
             other = Int(other)
+        check_same_type(self, other)
         return Bool(Not(Eq(self.src, other.src)))
 
     def __ge__(self, other: Union["Int", int]) -> Bool:
@@ -1724,6 +1733,7 @@ class Set(Generic[T], Object):
         return cast(Bool, call("set-pointer_varsber", Bool, self, value))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
+        check_same_type(self, s)
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
-- 
2.43.0


From b9c9bc15f12af568016a09f5a0354d37666264bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 031/121] fix: build an expression for != between lists and
 between sets

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 19e37f4..431319f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1268,6 +1268,9 @@ class List(Generic[T], Object):
         else:
             return cast(Bool, call("list_eq", Bool, self, other))
 
+    def __ne__(self, other: "List") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     def __repr__(self) -> str:
         return f"{self.src}"
 
@@ -1737,6 +1740,9 @@ class Set(Generic[T], Object):
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
+    def __ne__(self, s: "Set") -> Bool:  # type: ignore
+        return (self == s).Not()
+
     @staticmethod
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
-- 
2.43.0


From 4a9903da986e4c2470a966b077f01d4921e1f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 032/121] fix: accept Python booleans as operands of And and Or

---
 metalift/ir.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 431319f..d3aeae0 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -921,12 +921,14 @@ class Bool(Object):
     def And(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
-        return Bool(And(*get_object_exprs(self, *args)))  # type: ignore
+        operands = [Bool(arg) if isinstance(arg, bool) else arg for arg in args]
+        return Bool(And(*get_object_exprs(self, *operands)))  # type: ignore
 
     def Or(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
-        return Bool(Or(*get_object_exprs(self, *args)))  # type: ignore
+        operands = [Bool(arg) if isinstance(arg, bool) else arg for arg in args]
+        return Bool(Or(*get_object_exprs(self, *operands)))  # type: ignore
 
     def Not(self) -> "Bool":
         return Bool(Not(self.src))
-- 
2.43.0


From 783e2eb2ed545c53ba9cbaafd1367597ff071b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 033/121] fix: use the matrix functions for length, append and
 prepend of nested lists

---
 metalift/ir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index d3aeae0..a38836f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1161,7 +1161,8 @@ class List(Generic[T], Object):
         raise NotImplementedError("len must return an int, call len() instead")
 
     def len(self) -> Int:
-        return Int(Call("list_length", Int, self.src))
+        fn_name = "matrix_length" if self.is_matrix else "list_length"
+        return Int(Call(fn_name, Int, self.src))
 
     def __getitem__(self, index: Union[Int, int, slice]) -> Object:
         if isinstance(index, int):
@@ -1227,7 +1228,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_append", self.type, self, value).src
+        fn_name = "matrix_append" if self.is_matrix else "list_append"
+        self.src = call(fn_name, self.type, self, value).src
         return self
 
     # in place prepend
@@ -1236,7 +1238,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_prepend", self.type, value, self).src
+        fn_name = "matrix_prepend" if self.is_matrix else "list_prepend"
+        self.src = call(fn_name, self.type, value, self).src
         return self
 
     def slice_with_length(
-- 
2.43.0


From 541dc5366cada7ca9fea6e90714eb69547ec3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 034/121] fix: reject list indices and slice bounds that are
 not integers

---
 metalift/ir.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a38836f..5239a09 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1169,7 +1169,10 @@ class List(Generic[T], Object):
             index = Int(index)
         if isinstance(index, slice):
             (start, stop, step) = (index.start, index.stop, index.step)
-            if stop is None and step is None:
+            for bound in (start, stop):
+                if bound is not None and not isinstance(bound, (Int, int)):
+                    raise TypeError(f"Cannot slice a list with {bound}")
+            if start is not None and stop is None and step is None:
                 if isinstance(start, int):
                     start = Int(start)
                 if self.is_matrix:
@@ -1205,6 +1208,8 @@ class List(Generic[T], Object):
                 raise NotImplementedError(
                     f"Slices with both start and stop indices specified are not implemented: {index}"
                 )
+        if not isinstance(index, Int):
+            raise TypeError(f"Cannot index a list with {index}")
         if self.is_matrix:
             fn_name = "matrix_get"
         elif self.is_tensor3d:
@@ -1216,6 +1221,8 @@ class List(Generic[T], Object):
     def __setitem__(self, index: Union[Int, int], value: Object) -> None:
         if isinstance(index, int):
             index = Int(index)
+        if not isinstance(index, Int):
+            raise TypeError(f"Cannot index a list with {index}")
         if value.type != self.containedT:
             raise TypeError(
                 f"Trying to set list element of type: {value.type} to list containing: {self.containedT}"
-- 
2.43.0


From eedd451e06b28c7ec0a5178cc6303ef0f09e60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 035/121] fix: build set operations with the type of the
 element and the membership function

---
 metalift/ir.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5239a09..bc98297 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1716,16 +1716,16 @@ class Set(Generic[T], Object):
         return call("set-insert", self.type, value, self)  # type: ignore
 
     def remove(self, item: Object) -> "Set":  # type: ignore
-        if type(item) != self.containedT:
+        if item.type != self.containedT:
             raise TypeError(
-                f"Trying to remove element of type: {type(item)} from set containing: {self.containedT}"
+                f"Trying to remove element of type: {item.type} from set containing: {self.containedT}"
             )
         singleton_s = Set.singleton(item)
         return call("set-minus", self.type, self, singleton_s)  # type: ignore
 
     @staticmethod
     def singleton(item: Object) -> "Set":  # type: ignore
-        return call("set-singleton", Set[type(item)], item)  # type: ignore
+        return call("set-singleton", Set[item.type], item)  # type: ignore
 
     def union(self, s: "Set") -> "Set":  # type: ignore
         if self.type != s.type:
@@ -1745,7 +1745,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, self, value))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         check_same_type(self, s)
-- 
2.43.0


From c95f9a6d4213c1460941478c64abd1203e881308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 036/121] fix: index tuples with components of any type and
 reject other indices

---
 metalift/ir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index bc98297..2c4c433 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1800,8 +1800,10 @@ class Tuple(Generic[TupleContainedT], Object):
 
         if isinstance(index, Int):
             index_lit = index.src.val()  # type: ignore
+            if not 0 <= index_lit < self.length:
+                raise IndexError(f"tuple of length {self.length} has no item {index}")
             item_type = self.containedT[index_lit]
-            if issubclass(item_type, Object):
+            if is_new_object_type(item_type):
                 # TODO create a function to wrap objects around expession
                 return call("tupleGet", item_type, self, index)
             else:
@@ -1810,6 +1812,7 @@ class Tuple(Generic[TupleContainedT], Object):
                 )
         if isinstance(index, slice):
             raise Exception("slicing operation not supported on tuples!")
+        raise TypeError(f"Cannot index a tuple with {index}")
 
     @property
     def length(self) -> int:
-- 
2.43.0


From b6d93fb5e8417da97a4384214c64c5117f5d15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 037/121] fix: build an expression for == and != between tuples

---
 metalift/ir.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2c4c433..391f4a5 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1814,6 +1814,13 @@ class Tuple(Generic[TupleContainedT], Object):
             raise Exception("slicing operation not supported on tuples!")
         raise TypeError(f"Cannot index a tuple with {index}")
 
+    def __eq__(self, other: "Tuple") -> Bool:  # type: ignore
+        check_same_type(self, other)
+        return Bool(Eq(self.src, other.src))
+
+    def __ne__(self, other: "Tuple") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     @property
     def length(self) -> int:
         return len(self.containedT)
-- 
2.43.0


From f9a3a223bd7d9b904f5e4f06b5ba7be572555197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 038/121] fix: pass the element before the set to set-member

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 391f4a5..8b92cc6 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1745,7 +1745,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-member", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         check_same_type(self, s)
-- 
2.43.0


From 685a2baf4b0f70d7356a36f30f13ecfa4601c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 039/121] fix: keep the names of set and tuple types with
 different components apart

---
 metalift/ir.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8b92cc6..636013c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1761,16 +1761,16 @@ class Set(Generic[T], Object):
 
     @staticmethod
     def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        return Set.cls_str(type_args)
-
-    @staticmethod
-    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
         contained_type = type_args[0]
         if isinstance(contained_type, _GenericAlias):
             return f"(Set {get_origin(contained_type).toSMTType(get_args(contained_type))})"  # type: ignore # this would call List.toSMTType(Int) for instance
         else:
             return f"(Set {contained_type.toSMTType()})"
 
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"(Set {get_type_str(type_args[0])})"  # type: ignore
+
 
 TupleContainedT = TypeVar("TupleContainedT")
 
@@ -1849,15 +1849,12 @@ class Tuple(Generic[TupleContainedT], Object):
     # TODO: handle contained type
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type_strs: list[str] = []
-        for contained_type in get_args(type_args[0]):
-            if isinstance(contained_type, _GenericAlias):
-                contained_type_str = get_origin(contained_type).toSMTType(  # type: ignore
-                    get_args(contained_type)
-                )
-            else:
-                contained_type_str = contained_type.toSMTType()
-            contained_type_strs.append(contained_type_str)
+        contained_type_strs = [
+            f"({get_type_str(contained_type)})"
+            if isinstance(contained_type, _GenericAlias)
+            else get_type_str(contained_type)
+            for contained_type in get_args(type_args[0])
+        ]
         return f"Tuple {' '.join(contained_type_strs)}"
 
 
-- 
2.43.0


From 56da5e88b96727fae023e88c492bf94c763bc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 040/121] fix: create tuple objects with the component types of
 the requested tuple type

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 636013c..bf127de 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -708,7 +708,7 @@ def create_object(
         if len(contained_types) != 1:
             raise Exception("NYI: multiple contained types")
 
-        if object_cls is Fn:
+        if object_cls is Fn or object_cls is Tuple:
             return object_cls(get_args(contained_types[0]), value)  # type: ignore
         else:
             return object_cls(*contained_types, value)  # type: ignore
-- 
2.43.0


From 6e5a29625d3464a0282aac801de03f06e1ac706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 041/121] fix: keep the type of concatenated tensors

---
 metalift/ir.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index bf127de..4b27faa 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1270,9 +1270,7 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"can't add lists of different types: {self.type} and {other.type}"
             )
-        return List(
-            self.containedT, Call("list_concat", self.type, self.src, other.src)
-        )
+        return cast(List, call("list_concat", self.type, self, other))
 
     def __eq__(self, other: "List") -> Bool:  # type: ignore
         if other is None or self.type != other.type:
-- 
2.43.0


From 25d795bd917586ef4571be80171b6ce939d5fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 042/121] fix: reject full slices instead of taking None
 elements

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 4b27faa..213f7ac 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1182,7 +1182,7 @@ class List(Generic[T], Object):
                 else:
                     fn_name = "list_tail"
                 return call(fn_name, self.type, self, start)  # type: ignore
-            elif start is None and step is None:
+            elif start is None and stop is not None and step is None:
                 if isinstance(stop, int):
                     stop = Int(stop)
                 if self.is_matrix:
-- 
2.43.0


From 5fdd362b7739a6f5d33ab15fca3c41c6a4a5d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 043/121] fix: element-wise and row-wise axioms require a
 non-empty prefix

At index 0 the left side is the empty tensor while the right side prepends an element, so
the premise index >= 0 made every problem that used one of these axioms provable.
---
 metalift/utils/tenspiler/axioms.py | 38 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..df74a3a 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -124,7 +124,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +132,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +140,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +150,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +160,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +168,7 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +178,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +188,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +196,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +204,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +216,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From 1d234a2ca3768958abcf371b0ab889bfc1b937dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 044/121] fix: reduction axioms only speak about elements of
 the list

Without index < len they constrained out-of-range elements, which contradicts itself for
reduce_max; reduce_max of an empty prefix is not a lower bound of the first element either.
---
 metalift/utils/tenspiler/axioms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index df74a3a..a152c17 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -104,7 +104,7 @@ def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index >= 0, index < data.len(), index <= max_pos, max_pos >= 0),
         call_reduce_sum(data[: index + 1])
         == call_reduce_sum(data[:index]) + data[index],
     )
@@ -112,7 +112,7 @@ def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index > 0, index < data.len(), index <= max_pos, max_pos >= 0),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
-- 
2.43.0


From eacd776caa0f5178d536184157ff59904250d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 045/121] fix: matrix_vec_mul axiom requires the row and the
 vector to have the same non-zero length

matrix_vec_mul of mismatched shapes is the empty list.
---
 metalift/utils/tenspiler/axioms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index a152c17..7f39a60 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -168,7 +168,9 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index > 0, index < x.len()),
+        and_objects(
+            index > 0, index < x.len(), x[0].len() > 0, x[0].len() == b.len()
+        ),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
-- 
2.43.0


From 35e975ee17e81b0421b6887a6503ba9c84e5c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 046/121] fix: end the recursion of matrix_transpose when the
 rows run out

rests keeps the number of rows, so the definition never reached an empty matrix.
---
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From 6a83361b21894b99bd9e55866422fa823a449c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 047/121] fix: build expression spaces of depth 3 and more

List objects have no attribute is_nested.
---
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 41eac5c..3b4cf42 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -1999,7 +1999,7 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             call_scalar_rsub(scalar, matrix_or_vec),
             call_scalar_rdiv(scalar, matrix_or_vec),
         )
-        if not matrix_or_vec.is_nested:
+        if not matrix_or_vec.is_matrix:
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-- 
2.43.0


From 44268336035bcaee700fe975886cf0da25716f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 048/121] fix: keep the expressions without a matrix product in
 spaces of depth 3 and more

---
 metalift/utils/tenspiler/tenspiler_common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 3b4cf42..f27a2a3 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2003,7 +2003,8 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-                    call_matrix_vec_mul(additional_matrix, matrix_or_vec)
+                    matrix_or_vec,
+                    call_matrix_vec_mul(additional_matrix, matrix_or_vec),
                 )
     return matrix_or_vec
 
-- 
2.43.0


From 5a6cf33c1d2fe3452972bd0aca76bf16f8074577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 049/121] fix: reject 3d tensors in operations that have no 3d
 variant

They were silently built as calls of the vector variant.
---
 metalift/utils/tenspiler/tenspiler_common.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f27a2a3..b936c39 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -84,6 +84,11 @@ ITE_INT = "ite_int"
 TensorT = Union[mlList[Int], Matrix[Int], Tensor3D[Int]]
 
 
+def check_not_tensor3d(*operands: TensorT) -> None:
+    if any(is_tensor3d_type(operand.type) for operand in operands):
+        raise Exception("This operation is not defined on 3d tensors!")
+
+
 def call_elemwise_add(left: TensorT, right: TensorT) -> TensorT:
     if is_tensor3d_type(left.type):
         return call_tensor_3d_elemwise_add(left, right)
@@ -94,6 +99,7 @@ def call_elemwise_add(left: TensorT, right: TensorT) -> TensorT:
 
 
 def call_elemwise_sub(left: TensorT, right: TensorT) -> TensorT:
+    check_not_tensor3d(left, right)
     if is_matrix_type(left.type):
         return call_matrix_elemwise_sub(left, right)
     else:
@@ -110,6 +116,7 @@ def call_elemwise_mul(left: TensorT, right: TensorT) -> TensorT:
 
 
 def call_elemwise_div(left: TensorT, right: TensorT) -> TensorT:
+    check_not_tensor3d(left, right)
     if is_matrix_type(left.type):
         return call_matrix_elemwise_div(left, right)
     else:
@@ -117,6 +124,7 @@ def call_elemwise_div(left: TensorT, right: TensorT) -> TensorT:
 
 
 def call_scalar_add(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
+    check_not_tensor3d(matrix_or_vec)
     if is_matrix_type(matrix_or_vec.type):
         return call_matrix_scalar_add(scalar, matrix_or_vec)
     else:
@@ -124,6 +132,7 @@ def call_scalar_add(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
 
 
 def call_scalar_sub(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
+    check_not_tensor3d(matrix_or_vec)
     if is_matrix_type(matrix_or_vec.type):
         return call_matrix_scalar_sub(scalar, matrix_or_vec)
     else:
@@ -131,6 +140,7 @@ def call_scalar_sub(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
 
 
 def call_scalar_mul(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
+    check_not_tensor3d(matrix_or_vec)
     if is_matrix_type(matrix_or_vec.type):
         return call_matrix_scalar_mul(scalar, matrix_or_vec)
     else:
@@ -138,6 +148,7 @@ def call_scalar_mul(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
 
 
 def call_scalar_div(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
+    check_not_tensor3d(matrix_or_vec)
     if is_matrix_type(matrix_or_vec.type):
         return call_matrix_scalar_div(scalar, matrix_or_vec)
     else:
@@ -145,6 +156,7 @@ def call_scalar_div(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
 
 
 def call_scalar_rsub(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
+    check_not_tensor3d(matrix_or_vec)
     if is_matrix_type(matrix_or_vec.type):
         return call_scalar_matrix_sub(scalar, matrix_or_vec)
     else:
@@ -152,6 +164,7 @@ def call_scalar_rsub(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
 
 
 def call_scalar_rdiv(scalar: Int, matrix_or_vec: TensorT) -> TensorT:
+    check_not_tensor3d(matrix_or_vec)
     if is_matrix_type(matrix_or_vec.type):
         return call_scalar_matrix_div(scalar, matrix_or_vec)
     else:
-- 
2.43.0


From 87a0ebc88d45b8f4c344a9be8e25f8a2ffa00c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 050/121] fix: specialize higher-order functions when writing
 the verification problem

The functions passed as arguments were inlined by renaming functions step by step, which
changed the candidates passed in, emitted definitions twice, mixed up functions when a
higher-order function was used with several of them, and applied axioms on one function to
another. Lambdas were not supported. Functions were emitted in hash order, and
functions that candidates define were declared as well.
---
 metalift/smt_util.py         | 544 +++++++++++------------------------
 metalift/synthesis_common.py | 125 +-------
 2 files changed, 177 insertions(+), 492 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..6cf174f 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -8,164 +8,166 @@ from metalift import utils
 from metalift.ir import *
 
 
-def get_direct_calls(
-    target_lang: list[FnDecl | FnDeclRecursive],
-) -> dict[str, set[str]]:
-    """Returns a mapping from function names to a set of function names that call them."""
-
-    def get_fn_direct_calls(
-        expr: Expr | Any, fn_call: str, direct_calls: dict[str, set[str]]
-    ) -> Expr:
-        if not isinstance(expr, Expr):
-            return expr
-        if isinstance(expr, Call):
-            if expr.name() != fn_call:
-                if expr.name() not in direct_calls:
-                    direct_calls[expr.name()] = set()
-                direct_calls[expr.name()].add(fn_call)
-        return expr.map_args(
-            lambda expr: get_fn_direct_calls(expr, fn_call, direct_calls)
-        )
+def topological_sort(
+    fn_decls: List[Union[FnDecl, FnDeclRecursive, Synth]]
+) -> List[Union[FnDecl, FnDeclRecursive, Synth]]:
+    """Orders the functions such that each one comes after the ones it calls, and in the given order otherwise."""
 
-    direct_calls: dict[str, set[str]] = {}
-    for fn_decl in target_lang:
-        fn_decl.map_args(
-            lambda expr: get_fn_direct_calls(expr, fn_decl.name(), direct_calls)
-        )
-    return direct_calls
+    def get_called_fn_names(expr: Any, fn_names: set[str]) -> None:
+        if isinstance(expr, Expr):
+            if isinstance(expr, Call):
+                fn_names.add(expr.name())
+            for arg in expr.args:
+                get_called_fn_names(arg, fn_names)
 
+    fn_name_to_decl = {fn_decl.name(): fn_decl for fn_decl in fn_decls}
+    graph = nx.DiGraph()
+    graph.add_nodes_from(fn_name_to_decl)
+    for fn_name, fn_decl in fn_name_to_decl.items():
+        called_fn_names: set[str] = set()
+        get_called_fn_names(fn_decl.body(), called_fn_names)
+        graph.add_edges_from(
+            (called_fn_name, fn_name)
+            for called_fn_name in called_fn_names
+            if called_fn_name in fn_name_to_decl and called_fn_name != fn_name
+        )
+    positions = {fn_name: idx for idx, fn_name in enumerate(fn_name_to_decl)}
+    ordered_fn_names = nx.lexicographical_topological_sort(graph, positions.get)
+    return [fn_name_to_decl[fn_name] for fn_name in ordered_fn_names]
 
-def get_direct_in_calls(
-    fn_decls: list[FnDecl | FnDeclRecursive],
-    in_calls: list[tuple[str, str]],
-) -> list[tuple[str, str]]:
-    """Sometimes, only indirect in calls are provided. For example, matrix selection two args takes in select_two_args_arg argument, and it is used in selection_two_args as well.
 
-    At the time of this function being invoked, in_calls should only have
-    (matrix_selection_two_args, select_two_args_arg), but we want in_calls to have (selection_two_args, select_two_args_arg) as well.
+class FnSpecializer:
+    """SMT-LIB functions are first order. This replaces every call that passes functions as
+    arguments with a call to a copy of the callee that is specialized to these functions.
     """
 
-    def get_fn_direct_in_calls(
-        *,
-        expr: Expr | Any,
-        fn_call: str,
-        in_call: str,
-        direct_in_calls: list[tuple[str, str]],
-    ) -> Expr:
-        if not isinstance(expr, Expr):
-            return expr
-        if isinstance(expr, Call):
-            if any(is_fn_decl_type(arg.type) for arg in expr.arguments()):
-                # Then this is a higher order function
-                fn_call = expr.name()
-            for arg in expr.arguments():
-                arg.map_args(
-                    lambda arg: get_fn_direct_in_calls(
-                        expr=arg,
-                        fn_call=expr.name(),
-                        in_call=in_call,
-                        direct_in_calls=direct_in_calls,
-                    )
-                )
-        elif isinstance(expr, CallValue):
-            direct_in_calls.append((fn_call, in_call))
-        return expr.map_args(
-            lambda expr: get_fn_direct_in_calls(
-                expr=expr,
-                fn_call=fn_call,
-                in_call=in_call,
-                direct_in_calls=direct_in_calls,
-            )
-        )
-
-    fn_name_to_in_calls: dict[str, set[str]] = {}
-    for fn_name, in_call in in_calls:
-        if fn_name not in fn_name_to_in_calls:
-            fn_name_to_in_calls[fn_name] = set()
-        fn_name_to_in_calls[fn_name].add(in_call)
-
-    direct_in_calls: list[tuple[str, str]] = []
-    for fn_decl in fn_decls:
-        relevant_in_calls = fn_name_to_in_calls.get(fn_decl.name(), set())
-        for in_call in relevant_in_calls:
-            fn_decl.map_args(
-                lambda expr: get_fn_direct_in_calls(
-                    expr=expr,
-                    fn_call=fn_decl.name(),
-                    in_call=in_call,
-                    direct_in_calls=direct_in_calls,
+    def __init__(
+        self,
+        fn_decls: typing.Sequence[Union[FnDecl, FnDeclRecursive, Synth]],
+        in_calls: list[tuple[str, str]],
+    ) -> None:
+        self.fn_names = {fn_decl.name() for fn_decl in fn_decls}
+        self.higher_order = {
+            fn_decl.name(): fn_decl
+            for fn_decl in fn_decls
+            if any(is_fn_decl_type(arg.type) for arg in fn_decl.arguments())
+        }
+        # Functions to use for the calls in which they are left out
+        self.left_out: dict[str, tuple[str, ...]] = {}
+        for fn_name, in_call in in_calls:
+            if len({i for i in in_calls if i[0] == fn_name}) == 1:
+                self.left_out[fn_name] = (in_call,)
+        # The specialized functions, by higher order function and the functions it is given
+        self.new_names: dict[tuple[str, tuple[str, ...]], str] = {}
+        self.new_decls: list[Union[FnDecl, FnDeclRecursive, Synth]] = []
+
+    def fresh_name(self, name: str) -> str:
+        while name in self.fn_names:
+            name = f"{name}_"
+        self.fn_names.add(name)
+        return name
+
+    def fn_arg_name(self, arg: Expr, bound: dict[str, str]) -> Optional[str]:
+        if isinstance(arg, Lambda):
+            lambda_name = self.fresh_name(f"lambda_{len(self.new_decls)}")
+            self.new_decls.append(
+                FnDecl(
+                    lambda_name,
+                    get_fn_return_type(arg.type),
+                    self.rewrite(arg.body(), bound),
+                    *arg.arguments(),
                 )
             )
-    return direct_in_calls
-
-
-def get_dependent_fn_names(
-    expr: Any, all_fn_names: List[str], dependent_fn_names: List[str]
-) -> None:
-    if isinstance(expr, str) and expr in all_fn_names:
-        dependent_fn_names.append(expr)
-        return
-    elif isinstance(expr, Expr):
-        for arg in expr.args:
-            get_dependent_fn_names(arg, all_fn_names, dependent_fn_names)
-
-
-def topological_sort(
-    fn_decls_and_axioms: List[Union[FnDecl, FnDeclRecursive, Axiom]]
-) -> List[Union[FnDecl, FnDeclRecursive, Axiom]]:
-    # First we construct a DAG
-    graph = nx.DiGraph()
-    edges: List[Tuple[str, str]] = []
-    axioms: List[Axiom] = []
-    fn_decls: List[Union[FnDecl, FnDeclRecursive]] = []
-    for f in fn_decls_and_axioms:
-        if isinstance(f, FnDeclRecursive) or isinstance(f, FnDecl):
-            fn_decls.append(f)
-        else:
-            axioms.append(f)
-
-    all_fn_names = [fn_decl.name() for fn_decl in fn_decls]
-    for fn_decl in fn_decls:
-        dependent_fn_names: List[str] = []
-        get_dependent_fn_names(fn_decl.body(), all_fn_names, dependent_fn_names)
-        edges.extend(
-            [
-                (dependent_fn_name, fn_decl.name())
-                for dependent_fn_name in dependent_fn_names
-                if fn_decl.name() != dependent_fn_name
+            return lambda_name
+        fn_name = bound.get(arg.args[0], arg.args[0])
+        return fn_name if fn_name in self.fn_names else None
+
+    def specialize(self, fn_name: str, fn_args: tuple[str, ...]) -> str:
+        if (fn_name, fn_args) not in self.new_names:
+            new_name = self.fresh_name("_".join([fn_name, *fn_args]))
+            self.new_names[(fn_name, fn_args)] = new_name
+            fn_decl = self.higher_order[fn_name]
+            fn_params = [
+                arg.args[0] for arg in fn_decl.arguments() if is_fn_decl_type(arg.type)
             ]
+            self.add(new_name, fn_decl, dict(zip(fn_params, fn_args)))
+        return self.new_names[(fn_name, fn_args)]
+
+    def add(
+        self,
+        new_name: str,
+        fn_decl: Union[FnDecl, FnDeclRecursive, Synth],
+        bound: dict[str, str],
+    ) -> None:
+        body = self.rewrite(fn_decl.body(), bound)
+        args = [arg for arg in fn_decl.arguments() if not is_fn_decl_type(arg.type)]
+        self.new_decls.append(
+            Synth(new_name, body, *args)
+            if isinstance(fn_decl, Synth)
+            else type(fn_decl)(new_name, fn_decl.return_type(), body, *args)
         )
-    graph.add_edges_from(edges)
-    ordered_fn_names = list(nx.topological_sort(graph))
-    independent_fn_names = set(all_fn_names) - set(ordered_fn_names)
-
-    fn_name_to_decl = {fn_decl.name(): fn_decl for fn_decl in fn_decls}
-    dependent_fn_decls = [fn_name_to_decl[fn_name] for fn_name in ordered_fn_names]
-    independent_fn_decls = [
-        fn_name_to_decl[fn_name] for fn_name in independent_fn_names
-    ]
-    return dependent_fn_decls + independent_fn_decls + axioms
-
-
-def filter_args(argList: typing.List[Expr]) -> typing.List[Expr]:
-    newArgs = []
-    for a in argList:
-        if not is_fn_decl_type(a.type):
-            newArgs.append(a)
-    return newArgs
 
-
-def filter_fn_args(expr: Expr) -> Expr:
-    if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
-        return expr
-    if isinstance(expr, Call):
-        new_args = []
-        for arg in expr.arguments():
-            if not is_fn_decl_type(arg.type):
-                new_args.append(filter_fn_args(arg))
-        return Call(expr.name(), expr.type, *new_args)
-    else:
-        return expr.map_args(lambda x: filter_fn_args(x))
+    def rewrite(self, expr: Any, bound: dict[str, str]) -> Any:
+        if not isinstance(expr, Expr) or isinstance(expr, (Var, Lit)):
+            return expr
+        if not isinstance(expr, (Call, CallValue)):
+            return expr.map_args(lambda arg: self.rewrite(arg, bound))
+        args = [
+            self.rewrite(arg, bound)
+            for arg in expr.arguments()
+            if not is_fn_decl_type(arg.type)
+        ]
+        if isinstance(expr, CallValue):
+            fn_name = self.fn_arg_name(expr.value(), bound)
+            if fn_name is None:
+                raise Exception(f"Function of {expr} is unknown!")
+            return Call(fn_name, expr.type, *args)
+        if expr.name() not in self.higher_order:
+            return Call(expr.name(), expr.type, *args)
+        fn_args = [
+            self.fn_arg_name(arg, bound)
+            for arg in expr.arguments()
+            if is_fn_decl_type(arg.type)
+        ]
+        if len(fn_args) == 0 or None in fn_args:
+            if expr.name() not in self.left_out:
+                raise Exception(f"Function arguments of {expr} are unknown!")
+            fn_args = [*self.left_out[expr.name()]]
+        return Call(self.specialize(expr.name(), tuple(fn_args)), expr.type, *args)
+
+    def rewrite_axioms(self, axioms: list[Axiom]) -> list[Axiom]:
+        """Axioms on higher order functions may leave out the function arguments. These hold for
+        all functions, and we need them for the ones that are in use."""
+
+        def get_left_out(expr: Any, fn_names: set[str]) -> None:
+            if not isinstance(expr, Expr):
+                return
+            if isinstance(expr, Call) and expr.name() in self.higher_order:
+                fn_args = [
+                    arg for arg in expr.arguments() if is_fn_decl_type(arg.type)
+                ]
+                if len(fn_args) == 0 or any(
+                    isinstance(arg, Var) and arg.args[0] not in self.fn_names
+                    for arg in fn_args
+                ):
+                    fn_names.add(expr.name())
+            for arg in expr.args:
+                get_left_out(arg, fn_names)
+
+        new_axioms: list[Axiom] = []
+        for axiom in axioms:
+            fn_names: set[str] = set()
+            get_left_out(axiom.e(), fn_names)
+            if len(fn_names) == 0:
+                new_axioms.append(Axiom(self.rewrite(axiom.e(), {}), *axiom.vars()))
+                continue
+            in_use = dict.fromkeys(
+                fn_args for fn_name, fn_args in self.new_names if fn_name in fn_names
+            )
+            for fn_args in in_use:
+                self.left_out = {fn_name: fn_args for fn_name in fn_names}
+                new_axioms.append(Axiom(self.rewrite(axiom.e(), {}), *axiom.vars()))
+        return new_axioms
 
 
 def replace_fn_name(
@@ -226,83 +228,6 @@ def augment_arguments(
         )
 
 
-def replace_fn_name_with_in_call(
-    *, expr: Expr, new_fn_name: str, fn_name: str, in_call: str
-) -> Expr:
-    if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
-        return expr
-    if isinstance(expr, Call):
-        final_fn_name = expr.name()
-        if expr.name() == fn_name and any(
-            is_fn_decl_type(arg.type) and arg.name() == in_call
-            for arg in expr.arguments()
-        ):
-            final_fn_name = new_fn_name
-        return Call(
-            final_fn_name,
-            expr.type,
-            *[
-                replace_fn_name_with_in_call(
-                    expr=arg, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
-                )
-                for arg in expr.arguments()
-            ],
-        )
-    else:
-        return expr.map_args(
-            lambda x: replace_fn_name_with_in_call(
-                expr=x, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
-            )
-        )
-
-
-def filter_body(
-    *, fun_def: Expr, new_fn_call: str, fn_call: str, in_call: Optional[str] = None
-) -> Expr:
-    if (
-        (not isinstance(fun_def, Expr))
-        or isinstance(fun_def, Var)
-        or isinstance(fun_def, Lit)
-    ):
-        return fun_def
-    if isinstance(fun_def, Call):
-        new_args = []
-        for arg in fun_def.arguments():
-            if not is_fn_decl_type(arg.type):
-                new_args.append(
-                    filter_body(
-                        fun_def=arg,
-                        new_fn_call=new_fn_call,
-                        fn_call=fn_call,
-                        in_call=in_call,
-                    )
-                )
-        fn_name = fun_def.name()
-        if fn_call == fn_name:
-            fn_name = new_fn_call
-        return Call(fn_name, fun_def.type, *new_args)
-    elif isinstance(fun_def, CallValue):
-        new_args = []
-        for arg in fun_def.arguments():
-            new_args.append(
-                filter_body(
-                    fun_def=arg,
-                    new_fn_call=new_fn_call,
-                    fn_call=fn_call,
-                    in_call=in_call,
-                )
-            )
-        if in_call is None:
-            raise Exception("in call is None!")
-        return Call(in_call, fun_def.type, *new_args)
-    else:
-        return fun_def.map_args(
-            lambda x: filter_body(
-                fun_def=x, new_fn_call=new_fn_call, fn_call=fn_call, in_call=in_call
-            )
-        )
-
-
 def toSMT(
     target_lang: list[FnDecl | FnDeclRecursive | Axiom],
     vars: set[Var],
@@ -322,163 +247,32 @@ def toSMT(
             out.write(resources.read_text(utils, "list-axioms.smt"))
             # out.write(resources.read_text(utils, "map-axioms.smt"))
 
-        early_candidates_names = set()
-
-        fn_decls: list[FnDecl | FnDeclRecursive] = []
-        axioms: list[Axiom] = []
-        target_lang = topological_sort(target_lang)
-
-        direct_calls = get_direct_calls(
-            [fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)]
-        )
-        direct_in_calls = get_direct_in_calls(
-            fn_decls=[
-                fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)
-            ],
-            in_calls=in_calls,
+        fn_decls = [t for t in target_lang if not isinstance(t, Axiom)]
+        candidate_names = {cand.name() for cand in inv_and_ps}
+        # The candidates define the functions that are left open in the target language
+        fn_decls = [
+            fn_decl
+            for fn_decl in fn_decls
+            if fn_decl.body() is not None or fn_decl.name() not in candidate_names
+        ]
+        specializer = FnSpecializer([*fn_decls, *inv_and_ps], in_calls)
+        for fn_decl in [*fn_decls, *inv_and_ps]:
+            if fn_decl.name() not in specializer.higher_order:
+                specializer.add(fn_decl.name(), fn_decl, {})
+        vc = specializer.rewrite(vc, {})
+        axioms = specializer.rewrite_axioms(
+            [t for t in target_lang if isinstance(t, Axiom)]
         )
 
-        rewritten_fn_decls: set[Expr] = set()
-        in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
-        # First, we want to replace all the direct in calls.
-        for t in target_lang:
-            if (
-                isinstance(t, FnDeclRecursive) or isinstance(t, FnDecl)
-            ) and t.name() in fn_calls:
-                for i in direct_in_calls:
-                    if i[0] == t.name():
-                        rewritten_fn_decls.add(t)
-                        early_candidates_names.add(i[1])
-                        # If we are doing the first round, then it means we are rewritting
-                        # functions that have direct calls to the inlined function. An example
-                        # of such a function is selection_two_args.
-                        new_fn_name = f"{t.name()}_{i[1]}"
-                        new_body = filter_body(
-                            fun_def=t.body(),
-                            new_fn_call=new_fn_name,
-                            fn_call=i[0],
-                            in_call=i[1],
-                        )
-                        # remove function type args
-                        new_args = filter_args(t.arguments())
-
-                        in_calls_to_renamed_fn_name[(t.name(), i[1])] = new_fn_name
-                        fn_decls.append(
-                            FnDeclRecursive(
-                                new_fn_name,
-                                t.return_type(),
-                                new_body,
-                                *new_args,
-                            )
-                            if isinstance(t, FnDeclRecursive)
-                            else FnDecl(
-                                new_fn_name,
-                                t.return_type(),
-                                new_body,
-                                *new_args,
-                            )
-                        )
-        # Now, we start iteratively replacing function calls with the inlined-function-rewritten versions.
-        while len(in_calls_to_renamed_fn_name) > 0:
-            # We need to rename all such functions in the synthesized ones.
-            for idx, cand in enumerate(inv_and_ps):
-                for (
-                    fn_name,
-                    in_call,
-                ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                    new_body = replace_fn_name_with_in_call(
-                        expr=cand.body(),
-                        new_fn_name=new_fn_name,
-                        fn_name=fn_name,
-                        in_call=in_call,
-                    )
-                    cand.set_body(new_body)
-                inv_and_ps[idx] = cand
-
-            new_in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
-            for idx, t in enumerate(target_lang):
-                if isinstance(t, Axiom):
-                    axiom = t
-                    for (
-                        fn_name,
-                        in_call,
-                    ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                        axiom = replace_fn_name(
-                            expr=axiom, new_fn_name=new_fn_name, fn_name=fn_name
-                        )
-                        axiom = filter_fn_args(axiom)
-                    target_lang[idx] = axiom
-
-            for (fn_name, in_call), new_fn_name in in_calls_to_renamed_fn_name.items():
-                fn_callers = direct_calls.get(fn_name, set())
-                for t in target_lang:
-                    if isinstance(t, Axiom):
-                        continue
-                    if t.name() not in fn_callers:
-                        continue
-                    new_body = filter_body(
-                        fun_def=t.body(),
-                        new_fn_call=new_fn_name,
-                        fn_call=fn_name,
-                        in_call=None,
-                    )
-
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
-                    new_body = filter_body(
-                        fun_def=new_body,
-                        new_fn_call=new_fn_name,
-                        fn_call=t.name(),
-                        in_call=None,
-                    )
-                    new_args = filter_args(t.arguments())
-
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
-                    rewritten_fn_decls.add(t)
-                    fn_decls.append(
-                        FnDeclRecursive(
-                            new_fn_name,
-                            t.return_type(),
-                            new_body,
-                            *new_args,
-                        )
-                        if isinstance(t, FnDeclRecursive)
-                        else FnDecl(
-                            new_fn_name,
-                            t.return_type(),
-                            new_body,
-                            *new_args,
-                        )
-                    )
-            in_calls_to_renamed_fn_name = new_in_calls_to_renamed_fn_name
-
-        for t in target_lang:
-            if t in rewritten_fn_decls:
-                continue
-            if (isinstance(t, FnDecl) or isinstance(t, FnDecl)) and t.body() is None:
+        for fn_decl in topological_sort(specializer.new_decls):
+            if isinstance(fn_decl, FnDecl) and fn_decl.body() is None:
+                # Defined in the SMT files above
                 continue
-            elif isinstance(t, Axiom):
-                axioms.append(t)
-            else:
-                out.write("\n" + t.toSMT() + "\n")
-
-        vc = filter_fn_args(vc)
-
-        early_candidates: list[FnDeclRecursive | Synth] = []
-        candidates: list[FnDeclRecursive | Synth] = []
-        for cand in inv_and_ps:
-            cand = filter_fn_args(cand)
-            if cand.name() in early_candidates_names:
-                early_candidates.append(cand)
-            else:
-                candidates.append(cand)
-        candidates = topological_sort(candidates)
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in early_candidates]))
-        out.write("\n\n".join(["\n%s\n" % inlined.toSMT() for inlined in fn_decls]))
+            out.write("\n%s\n\n" % fn_decl.toSMT())
         out.write("\n\n".join(["\n%s\n" % axiom.toSMT() for axiom in axioms]))
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in candidates]))
 
         declarations: typing.List[tuple[str, ObjectT]] = []
-        for v in vars:
+        for v in sorted(vars, key=lambda v: v.args[0]):
             declarations.append((v.args[0], v.type))
 
         var_decl_command = "declare-var" if is_synthesis else "declare-const"
diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 8b88195..3974ec9 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -92,62 +92,6 @@ def generate_types(lang: typing.Sequence[Union[Expr, ValueRef]]) -> Dict[str, Ob
     return fnsType
 
 
-def parse_candidates(
-    candidate: Union[Expr, str],
-    in_calls: typing.List[Any],
-    fns_type: Dict[Any, Any],
-    fn_calls: typing.List[Any],
-    extracted_lambdas: typing.List[FnDecl],
-    in_function_name: str,
-) -> tuple[Union[Expr, str], Optional[tuple[typing.List[Any], typing.List[Any]]]]:
-    if not isinstance(candidate, Expr):
-        return candidate, (in_calls, fn_calls)
-    else:
-        candidate = candidate.map_args(
-            lambda a: parse_candidates(  # type: ignore
-                a, in_calls, fns_type, fn_calls, extracted_lambdas, in_function_name
-            )[0]
-        )
-        # if candidate.kind == Expr.Kind.Call:
-        if isinstance(candidate, Call):
-            if (
-                candidate.args[0] in fns_type.keys()
-                and candidate.args[0] != in_function_name
-            ):
-                fn_calls.append(candidate.args[0])
-
-            new_args = []
-            for ar in candidate.args:
-                if not isinstance(ar, str):
-                    # TODO: fix when decided if function will be IR Objects
-                    if is_fn_decl_type(ar.type) and ar.args[0] in fns_type.keys():
-                        # TODO: this logic doesn't correctly handle
-                        # multiple function parameters
-                        in_calls.append((candidate.args[0], ar.args[0]))
-                        new_args.append(ar)
-                    # elif ar.kind == Expr.Kind.Lambda:
-                    elif isinstance(ar, Lambda):
-                        lambda_name = f"lambda_{len(extracted_lambdas)}"
-                        extracted_lambdas.append(
-                            FnDecl(
-                                lambda_name,
-                                get_fn_return_type(ar.type),
-                                ar.args[0],
-                                *ar.args[1:],
-                            )
-                        )
-                        fn_calls.append(lambda_name)
-                        in_calls.append((candidate.args[0], lambda_name))
-                        new_args.append(Var(lambda_name, ar.type))
-                    else:
-                        new_args.append(ar)
-                else:
-                    new_args.append(ar)
-            # candidate = Expr(candidate.kind, candidate.type, new_args)
-            candidate = Call(new_args[0], candidate.type, *new_args[1:])
-        return candidate, (in_calls, fn_calls)
-
-
 def verify_synth_result(
     basename: str,
     targetLang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
@@ -182,65 +126,12 @@ def verify_synth_result(
             verify_mode=True,
         )
     else:
-        inCalls: typing.List[Any] = []
-        fnCalls: typing.List[Any] = []
-        extractedLambdas: typing.List[FnDecl] = []
-        for ce in loopAndPsInfo:
-            updated, (inCalls, fnCalls) = parse_candidates(  # type: ignore
-                candidateDict[ce.name if isinstance(ce, CodeInfo) else ce.args[0]],
-                inCalls,
-                fnsType,
-                fnCalls,
-                extractedLambdas,
-                ce.name if isinstance(ce, CodeInfo) else ce.args[0],
-            )
-
-            candidateDict[ce.name if isinstance(ce, CodeInfo) else ce.args[0]] = updated  # type: ignore
-
-        targetLang = [*targetLang, *extractedLambdas]
-
-        transformedLang: typing.List[Union[FnDeclRecursive, FnDecl, Axiom]] = []
-        for langFn in targetLang:
-            if langFn.args[1] is not None:
-                # Things are good here
-                updated, (inCalls, fnCalls) = parse_candidates(  # type: ignore
-                    langFn.args[1],
-                    inCalls,
-                    fnsType,
-                    fnCalls,
-                    extractedLambdas,
-                    langFn.args[0],
-                )
-                # Things are good here
-                if isinstance(langFn, FnDeclRecursive) or isinstance(langFn, FnDecl):
-                    decl: Union[FnDeclRecursive, FnDecl, Axiom] = FnDeclRecursive(
-                        langFn.args[0], langFn.return_type(), updated, *langFn.args[2:]
-                    )
-                elif isinstance(langFn, Axiom):
-                    # TODO: check
-                    decl = Axiom(
-                        langFn.args[0], typing.cast(Expr, updated), *langFn.args[2:]
-                    )
-                else:
-                    raise Exception(
-                        f"langFn should be either FnDecl or Axiom but not: {langFn})"
-                    )
-                transformedLang.append(
-                    # Expr(
-                    #     langFn.kind,
-                    #     langFn.type,
-                    #     [langFn.args[0], updated, *langFn.args[2:]],
-                    # )
-                    decl
-                )
-            else:
-                transformedLang.append(langFn)
-        targetLang = transformedLang
-
-        vc, (inCalls, fnCalls) = parse_candidates(vc, inCalls, fnsType, fnCalls, extractedLambdas, None)  # type: ignore
-
-        inCalls = list(set(inCalls))
-        fnCalls = list(set(fnCalls))
+        targetLang = [
+            FnDeclRecursive(f.name(), f.return_type(), f.body(), *f.arguments())
+            if isinstance(f, FnDecl) and f.body() is not None
+            else f
+            for f in targetLang
+        ]
         toSMT(
             targetLang,
             vars,
@@ -248,8 +139,8 @@ def verify_synth_result(
             preds,
             vc,
             verifFile,
-            inCalls,
-            fnCalls,
+            [],
+            [],
             False,
         )
         print("Synthesized PS and INV Candidates\n")
-- 
2.43.0


From 947f9dfd2244c5e71f862f6a408191dee79fc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 051/121] fix: end the search with an error when the
 synthesizer exits without a solution

---
 metalift/synthesize_cvc5.py    |  2 +-
 metalift/synthesize_rosette.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..d50515f 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -298,7 +298,7 @@ def synthesize(
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if line == "" or "fail" in line:
                 break
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 3a0484f..d62bc80 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -637,6 +637,9 @@ def synthesize(
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
         curr_sol_exists = curr_sol_file.is_file()
         if not curr_sol_exists:
+            if exit_code is not None:
+                # No more solutions will be written
+                break
             continue
 
         with open(curr_sol_file, "r") as f:
@@ -796,10 +799,7 @@ def synthesize(
         # exit_code = proc_synthesis.poll()
 
     # Now we have exited out of the while loop
-    if exit_code != 0:
-        if len(result_synth) > 0 and result_synth[0] == "#f":
-            raise SynthesisFailed(f"Synthesis failed: exit code {exit_code}")
-        else:
-            raise Exception(
-                f"Rosette failed: exit code {exit_code}\n" + "\n".join(err_synth)
-            )
+    err_synth = typing.cast(typing.IO[bytes], proc_synthesis.stderr).read()
+    raise SynthesisFailed(
+        f"Rosette failed: exit code {exit_code}\n" + err_synth.decode("utf-8")
+    )
-- 
2.43.0


From d3d8ff46c26164b40acfc1ec5401b8c00403929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:11 +0000
Subject: [PATCH 052/121] fix: resolve nested choices when a function without
 choices is left out of the solution

---
 metalift/ir.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 213f7ac..eefdfd7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3091,7 +3091,11 @@ class Choose(Expr):
         return retT
 
     def chooseArbitrarily(self) -> "Expr":
-        return self.args[0]  # type: ignore
+        picked = self.args[0]
+        if isinstance(picked, Expr):
+            # the alternative can contain further choices
+            return picked.chooseArbitrarily()
+        return picked  # type: ignore
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Choose(self)
-- 
2.43.0


From 3f87caa17a4cad594e66df6267101072de74cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:11 +0000
Subject: [PATCH 053/121] fix: only take the summary of a function from its
 postcondition

---
 metalift/frontend/llvm.py   | 2 +-
 metalift/frontend/python.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..7305387 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1615,7 +1615,7 @@ class Driver:
             self.synthesized_fns[name] = f
 
             # TODO: added back for codegen
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 14ac10a..54b7a93 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -930,7 +930,7 @@ class Driver:
         )
 
         for f in synthesized:
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
-- 
2.43.0


From b3de9ac6c962766c619b58643be41e5d38b3b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 054/121] fix: read back list-append

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index d62bc80..2cf2ec5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -170,7 +170,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From 7b4c7f2923058aca0d10b408d5f5a562a3d86107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 055/121] fix: read back slices of 3d tensors

---
 metalift/synthesize_rosette.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 2cf2ec5..7e4b28d 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -296,6 +296,24 @@ def to_expr(
                 tensor_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
+        elif ast[0] == "tensor3d-slice-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
+        elif ast[0] == "tensor3d-slice-with-length-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice_with_length",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "vec-slice-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call(
-- 
2.43.0


From 40577b701d50bbac01b338b000517fbb1deca27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 056/121] fix: rows read back from a matrix are lists

---
 metalift/synthesize_rosette.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 7e4b28d..303f9b7 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -43,8 +43,10 @@ from metalift.ir import (
     TupleExpr,
     TupleGet,
     Var,
+    get_element_type,
     get_fn_return_type,
     get_list_element_type,
+    is_matrix_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -228,9 +230,14 @@ def to_expr(
             )
         elif ast[0] == "matrix-ref-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
+            element_type = (
+                mlList[get_element_type(list_expr.type)]  # type: ignore
+                if is_matrix_type(list_expr.type)
+                else get_list_element_type(list_expr.type)
+            )
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                element_type,
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From d1fd757933e547f078bd093de1ca90bbbc3615d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 057/121] fix: read back conditionals between a matrix and a
 nested list

---
 metalift/synthesize_rosette.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 303f9b7..79d4aa3 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import subprocess
 import time
@@ -46,7 +47,9 @@ from metalift.ir import (
     get_element_type,
     get_fn_return_type,
     get_list_element_type,
+    is_list_type,
     is_matrix_type,
+    is_nested_list_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -93,6 +96,16 @@ def convert_expr(expr: Any) -> Expr:
     return expr
 
 
+def is_nested(type: ObjectT) -> bool:
+    return is_matrix_type(type) or (is_list_type(type) and is_nested_list_type(type))
+
+
+def with_type(expr: Expr, type: ObjectT) -> Expr:
+    expr = copy.copy(expr)
+    expr.type = type
+    return expr
+
+
 def to_expr(
     ast: typing.List[Any],
     fnsType: Dict[Any, Any],
@@ -140,6 +153,13 @@ def to_expr(
             if v2.type == None:
                 v2.type = v1.type
 
+            if v1.type != v2.type and is_nested(v1.type) and is_nested(v2.type):
+                # The text does not tell matrices and nested lists apart
+                if isinstance(v1, Call) and v1.name() == "matrix_empty":
+                    v1 = with_type(v1, v2.type)
+                else:
+                    v2 = with_type(v2, v1.type)
+
             return Ite(
                 to_expr(ast[1], fnsType, varType, choices),
                 v1,
-- 
2.43.0


From 14cc2b19d6be02d1380fabfbb202cd8b46fa0f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 058/121] fix: read back lambda expressions

---
 metalift/synthesize_rosette.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 79d4aa3..88c89d1 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -31,6 +31,7 @@ from metalift.ir import (
     Int,
     IntLit,
     Ite,
+    Lambda,
     Le,
     Let,
 )
@@ -106,6 +107,10 @@ def with_type(expr: Expr, type: ObjectT) -> Expr:
     return expr
 
 
+def get_fn_arg_types(fn_type: Any) -> typing.Tuple[ObjectT, ...]:
+    return typing.get_args(typing.get_args(fn_type)[0])[1:]  # type: ignore
+
+
 def to_expr(
     ast: typing.List[Any],
     fnsType: Dict[Any, Any],
@@ -473,7 +478,7 @@ def to_expr(
             return Call(ast[0], m.type.args[1], m, k, default)  # type: ignore
         elif ast[0] == "lambda":
             arg_list = [
-                Var(n, t) for (t, n) in zip(typeHint.args[1:], ast[1])  # type: ignore
+                Var(n, t) for (t, n) in zip(get_fn_arg_types(typeHint), ast[1])
             ]
 
             varTypeUpdated = dict(varType)
@@ -516,6 +521,7 @@ def to_expr(
         elif ast[0] in fnsType.keys():
             arg_eval = []
             ret_type = get_fn_return_type(fnsType[ast[0]])
+            arg_types = get_fn_arg_types(fnsType[ast[0]])
             for alen in range(1, len(ast)):
                 arg_eval.append(
                     to_expr(
@@ -523,7 +529,7 @@ def to_expr(
                         fnsType,
                         varType,
                         choices,
-                        typeHint=ret_type,
+                        typeHint=arg_types[alen - 1],
                     )
                 )
             if (
-- 
2.43.0


From 30b26d7b96c6cee7f0637338048cb7942aaa86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:49 +0000
Subject: [PATCH 059/121] fix: expand every level of the choices left in an
 answer

---
 metalift/synthesize_rosette.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 88c89d1..45b5ce7 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -546,19 +546,11 @@ def to_expr(
 
                 if isinstance(expr, Var):
                     if expr.name().startswith("(") and expr.name()[1:-1] in choices:
-                        return choices[expr.name()[1:-1]].args[0]
+                        return replace_choices(choices[expr.name()[1:-1]].args[0])
                     return expr
                 return expr.map_args(replace_choices)
 
-            picked: Expr = choices[ast[0]].args[0]
-            while (
-                # picked.kind == Expr.Kind.Var
-                isinstance(picked, Var)
-                and picked.args[0].startswith("(")
-                and picked.args[0][1:-1] in choices
-            ):
-                picked = choices[picked.args[0][1:-1]].args[0]
-            return picked.map_args(replace_choices)
+            return replace_choices(choices[ast[0]].args[0])
         else:
             raise Exception(f"Unexpected function name: {ast[0]}")
     else:
-- 
2.43.0


From e46f156000ee63516979496053262e80ac40ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:02 +0000
Subject: [PATCH 060/121] fix: read back conditionals between tensors and
 between let expressions

---
 metalift/synthesize_rosette.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 45b5ce7..8727b52 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -50,7 +50,7 @@ from metalift.ir import (
     get_list_element_type,
     is_list_type,
     is_matrix_type,
-    is_nested_list_type,
+    is_tensor3d_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -97,11 +97,23 @@ def convert_expr(expr: Any) -> Expr:
     return expr
 
 
-def is_nested(type: ObjectT) -> bool:
-    return is_matrix_type(type) or (is_list_type(type) and is_nested_list_type(type))
+def list_depth(type: ObjectT) -> int:
+    if is_tensor3d_type(type):
+        return 3
+    if is_matrix_type(type):
+        return 2
+    if is_list_type(type):
+        return 1 + list_depth(get_list_element_type(type))
+    return 0
 
 
 def with_type(expr: Expr, type: ObjectT) -> Expr:
+    if isinstance(expr, Let):
+        return Let(expr.args[0], expr.args[1], with_type(expr.args[2], type))
+    if isinstance(expr, Ite):
+        return Ite(
+            expr.args[0], with_type(expr.args[1], type), with_type(expr.args[2], type)
+        )
     expr = copy.copy(expr)
     expr.type = type
     return expr
@@ -158,9 +170,9 @@ def to_expr(
             if v2.type == None:
                 v2.type = v1.type
 
-            if v1.type != v2.type and is_nested(v1.type) and is_nested(v2.type):
-                # The text does not tell matrices and nested lists apart
-                if isinstance(v1, Call) and v1.name() == "matrix_empty":
+            if v1.type != v2.type and list_depth(v1.type) == list_depth(v2.type) > 1:
+                # The text does not tell matrices, tensors and nested lists apart
+                if isinstance(v1, Call) and v1.name().endswith("_empty"):
                     v1 = with_type(v1, v2.type)
                 else:
                     v2 = with_type(v2, v1.type)
-- 
2.43.0


From 23d62bd562d1234456b1e53c59eb7c2f0cc36371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:51 +0000
Subject: [PATCH 061/121] fix: keep the names of nonterminals apart from the
 names that a grammar uses

---
 metalift/ir.py | 66 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index eefdfd7..713e07c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -215,13 +215,17 @@ class Expr:
         commonExprs: typing.List[Union["Expr", Any]],
         mode: PrintMode,
         skipTop: bool = False,
+        prefix: str = "v",
     ) -> Union["Expr", ValueRef]:
         # skipTop is used to ignore the top-level match when simplifying a common expr
         if all([not Expr.__eq__(e, expr) for expr in commonExprs]) or skipTop:  # type: ignore
             if isinstance(e, Expr):
-                newArgs = [Expr.replaceExprs(arg, commonExprs, mode) for arg in e.args]
+                newArgs = [
+                    Expr.replaceExprs(arg, commonExprs, mode, prefix=prefix)
+                    for arg in e.args
+                ]
                 if isinstance(e, Object):
-                    return Expr.replaceExprs(e.src, commonExprs, mode)
+                    return Expr.replaceExprs(e.src, commonExprs, mode, prefix=prefix)
                 if isinstance(e, Var):
                     return Var(typing.cast(str, newArgs[0]), e.type)
                 elif isinstance(e, Lit):
@@ -277,9 +281,9 @@ class Expr:
         else:
             assert isinstance(e, Expr)
             if mode == PrintMode.Rosette:
-                return Var("(v%d)" % commonExprs.index(e), e.type)
+                return Var("(%s%d)" % (prefix, commonExprs.index(e)), e.type)
             else:
-                return Var("v%d" % commonExprs.index(e), e.type)
+                return Var("%s%d" % (prefix, commonExprs.index(e)), e.type)
 
     def __repr__(self) -> str:
         fn: Callable[[Union[ValueRef, Var]], Any] = (
@@ -2940,6 +2944,26 @@ class Synth(Expr):
     def set_body(self, body: Expr) -> None:
         self.args[1] = body
 
+    def nonterminal_prefix(self) -> str:
+        """Prefix of the nonterminals, such that they differ from all names that the grammar uses."""
+        used: typing.Set[str] = set()
+        visited: typing.Set[int] = set()  # grammars share most of their nodes
+
+        def collect(e: Any) -> None:
+            if isinstance(e, Expr) and id(e) not in visited:
+                visited.add(id(e))
+                if isinstance(e, (Var, Call)):
+                    used.add(e.args[0])
+                for a in e.args:
+                    collect(a)
+
+        for arg in self.args[1:]:
+            collect(arg)
+        prefix = "v"
+        while any(re.fullmatch(f"r?{prefix}[0-9]*", name) for name in used):
+            prefix = "_" + prefix
+        return prefix
+
     def to_rosette(
         self, writeChoicesTo: typing.Optional[Dict[str, "Expr"]] = None
     ) -> str:
@@ -2950,11 +2974,16 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.Rosette)
+        prefix = self.nonterminal_prefix()
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.Rosette, prefix=prefix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.Rosette, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.Rosette, skipTop=True, prefix=prefix
+            )
             for e in commonExprs
         ]
 
@@ -2967,14 +2996,14 @@ class Synth(Expr):
             for a in self.args[2:]
         )
 
-        defs = "[rv (choose %s)]\n" % rewritten.to_rosette()
+        defs = "[r%s (choose %s)]\n" % (prefix, rewritten.to_rosette())
 
         if writeChoicesTo != None:
             for i, e in enumerate(commonExprs):
-                writeChoicesTo[f"v{i}"] = e  # type: ignore
+                writeChoicesTo[f"{prefix}{i}"] = e  # type: ignore
 
         defs = defs + "\n".join(
-            "%s %s)]" % ("[v%d (choose" % i, e.to_rosette())
+            "%s %s)]" % ("[%s%d (choose" % (prefix, i), e.to_rosette())
             for i, e in enumerate(commonExprs)
         )
 
@@ -2988,11 +3017,16 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.SMT)
+        prefix = self.nonterminal_prefix()
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.SMT, prefix=prefix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.SMT, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.SMT, skipTop=True, prefix=prefix
+            )
             for e in commonExprs
         ]
 
@@ -3003,14 +3037,16 @@ class Synth(Expr):
             expr_smt_type = expr_type.toSMTType(get_args(expr_type))  # type: ignore
             common_exprs_types.append(expr_smt_type)
 
-        decls = "((rv %s) %s)" % (
+        decls = "((r%s %s) %s)" % (
+            prefix,
             return_type,
             " ".join(
-                "(%s %s)" % ("v%d" % i, smt_type)
+                "(%s %s)" % ("%s%d" % (prefix, i), smt_type)
                 for i, smt_type in enumerate(common_exprs_types)
             ),
         )
-        defs = "(rv %s %s)\n" % (
+        defs = "(r%s %s %s)\n" % (
+            prefix,
             return_type,
             rewritten.toSMT()
             if isinstance(rewritten, Choose)
@@ -3019,7 +3055,7 @@ class Synth(Expr):
         defs = defs + "\n".join(
             "(%s %s %s)"
             % (
-                "v%d" % i,
+                "%s%d" % (prefix, i),
                 common_exprs_types[i],
                 e.toSMT() if isinstance(e, Choose) else f"({e.toSMT()})",
             )
-- 
2.43.0


From a415b38000e331f5d7fcc2731a55bcbb98ad0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:51 +0000
Subject: [PATCH 062/121] fix: make the grammar depth large enough for all
 nested choices

---
 metalift/rosette_translator.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..83837de 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -236,8 +236,23 @@ def generate_synth(
     return "\n".join(all_synth_funs)
 
 
-def generate_inv_ps(loop_and_ps_info: Sequence[Union[CodeInfo, Expr]]) -> str:
+def choice_depth(expr: Any, known: Optional[Dict[int, int]] = None) -> int:
+    """The largest number of choices that are nested in each other."""
+    if not isinstance(expr, Expr):
+        return 0
+    known = {} if known is None else known  # grammars share most of their nodes
+    if id(expr) not in known:
+        depth = max((choice_depth(arg, known) for arg in expr.args), default=0)
+        known[id(expr)] = depth + 1 if isinstance(expr, ir.Choose) else depth
+    return known[id(expr)]
+
+
+def generate_inv_ps(
+    loop_and_ps_info: Sequence[Union[CodeInfo, Expr]],
+    inv_and_ps: typing.Sequence[Expr] = (),
+) -> str:
     decls = ""
+    grammars = {g.args[0]: g for g in inv_and_ps}
     for i in loop_and_ps_info:
         all_args = (
             i.modified_vars + i.read_vars if isinstance(i, CodeInfo) else i.args[2:]
@@ -246,11 +261,14 @@ def generate_inv_ps(loop_and_ps_info: Sequence[Union[CodeInfo, Expr]]) -> str:
         arg_names = " ".join(
             [a.name if isinstance(a, ValueRef) else a.to_rosette() for a in all_args]
         )
-        decls += "(define (%s %s) (%s %s #:depth 10))\n" % (
+        grammar = grammars.get(func_name, i)
+        depth = max(10, choice_depth(grammar) + 1)
+        decls += "(define (%s %s) (%s %s #:depth %d))\n" % (
             func_name,
             arg_names,
             func_name + "_gram",
             arg_names,
+            depth,
         )
     return decls
 
@@ -303,7 +321,7 @@ def to_rosette(
         print(g.to_rosette(writeTo), "\n", file=f)
 
     # inv and ps declaration
-    print(generate_inv_ps(loop_and_ps_info), file=f)
+    print(generate_inv_ps(loop_and_ps_info, inv_and_ps), file=f)
 
     fnsDecls = []
     for t in target_lang:
-- 
2.43.0


From a2d643dcc4f7c1172ff07ba7151268b0db37599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 063/121] fix: keep the row of matrices that are bounded to one
 row

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 83837de..bcc1243 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From cd17d2af6ab68637eb1f4794854fbd67e2f5b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 064/121] fix: declare a symbolic input for each component of a
 tuple

---
 metalift/rosette_translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index bcc1243..208ae36 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,8 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        (component_types,) = typing.get_args(v.type)
+        for i, t in enumerate(typing.get_args(component_types)):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From 52eb62a27599b6fccc58f2c66753e95faa1c14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 065/121] fix: accept integer expressions as list indices and
 slice bounds

---
 metalift/ir.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 713e07c..aff7b0c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -720,6 +720,12 @@ def create_object(
         return object_type(cast(Expr, value))
 
 
+def is_int_index(index: Any) -> bool:
+    if isinstance(index, int):
+        return True
+    return isinstance(index, (Object, Expr)) and index.type == Int
+
+
 def get_object_exprs(*objects: Union["Object", Expr]) -> list[Expr]:
     return [get_object_expr(obj) for obj in objects]
 
@@ -1174,7 +1180,7 @@ class List(Generic[T], Object):
         if isinstance(index, slice):
             (start, stop, step) = (index.start, index.stop, index.step)
             for bound in (start, stop):
-                if bound is not None and not isinstance(bound, (Int, int)):
+                if bound is not None and not is_int_index(bound):
                     raise TypeError(f"Cannot slice a list with {bound}")
             if start is not None and stop is None and step is None:
                 if isinstance(start, int):
@@ -1212,7 +1218,7 @@ class List(Generic[T], Object):
                 raise NotImplementedError(
                     f"Slices with both start and stop indices specified are not implemented: {index}"
                 )
-        if not isinstance(index, Int):
+        if not is_int_index(index):
             raise TypeError(f"Cannot index a list with {index}")
         if self.is_matrix:
             fn_name = "matrix_get"
-- 
2.43.0


From 87defd3bd35dbfaa7698ae031fd11e0692e69d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 066/121] fix: pass the arguments of a rewritten function in
 the order of its sorted parameters

---
 llmlift_scripts/parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..2d87cc3 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -232,6 +232,7 @@ def _simplify_type_name(type_name: str) -> str:
 def mypy_node_to_ir(
     root_node: Node,
     func_sign: dict[str, list[Union[Type, type]]],
+    target_func_names: list[str],
     types: dict[Node, MypyType],
     fn_decls: list[FnDeclRecursive],
     in_calls: list[tuple[str, str]],
@@ -369,6 +370,15 @@ def mypy_node_to_ir(
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
+                if func_name in target_func_names:
+                    # The parameters of the rewritten functions are sorted by name
+                    arg_exprs = [
+                        arg_expr
+                        for _, arg_expr in sorted(
+                            zip(arg_names, arg_exprs), key=lambda pair: pair[0]
+                        )
+                    ]
+
                 # Check return type. Again we compare IR types but throw errors using python types.
                 actual_ret_ir_type = mypy_type_to_ir_type(types[node])
                 if actual_ret_ir_type != ret_ir_type:
@@ -536,16 +546,17 @@ def check_solution(
     target_func_defs, func_sigs, types = mypy_parse(full_prog, expected_num_funcs)
     fn_decls: list[FnDeclRecursive] = []
     in_calls: list[tuple[str, str]] = []
+    target_func_names = [func_def.name for func_def in target_func_defs]
 
     for target_func_def in target_func_defs:
         mypy_node_to_ir(
             target_func_def,
             func_sigs,
+            target_func_names,
             types,
             fn_decls,
             in_calls,
             lambda_exprs,
             arg_name_to_count,
         )
-    target_func_names = [func_def.name for func_def in target_func_defs]
     return target_func_names, fn_decls, in_calls
-- 
2.43.0


From 6cc6b3362ce8fa54d7947d289b926841fae9a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 067/121] fix: do not list a function passed by name as a new
 definition

---
 llmlift_scripts/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 2d87cc3..7c7bde3 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -360,13 +360,19 @@ def mypy_node_to_ir(
                                 lambda_exprs[arg_expr] = arg_fn_name
                             arg_expr = copy.deepcopy(arg_expr)
                             arg_expr.set_name(arg_fn_name)
+                            fn_decls.append(arg_expr)
                         elif isinstance(arg, NameExpr):
                             arg_fn_name = cast(NameExpr, arg).name
+                            if arg_fn_name in target_func_names:
+                                *_, param_names = func_sign[arg_fn_name]
+                                if param_names != sorted(param_names):
+                                    raise Exception(
+                                        f"The parameters of function {arg_fn_name} must be sorted by name to pass it as an argument"
+                                    )
                         else:
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
                             )
-                        fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
-- 
2.43.0


From a714dd81702aa3a43a4217a68d7700993fd42582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 068/121] fix: reject keyword and star arguments in rewritten
 functions

---
 llmlift_scripts/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 7c7bde3..c4d493f 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,7 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_POS,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -248,6 +249,10 @@ def mypy_node_to_ir(
                 func_ir_type = mypy_type_to_ir_type(types[node])
             arg_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
             ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
+            if any(arg.kind != ARG_POS for arg in node.arguments):
+                raise Exception(
+                    f"Function {node.name} can only have positional parameters without default values"
+                )
             # Create one variable for each argument
             variables: list[Object] = []
             for arg, ir_type in zip(node.arguments, arg_ir_types):
@@ -325,6 +330,12 @@ def mypy_node_to_ir(
                 ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
                 arguments_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
 
+                # Check that the arguments are positional
+                if any(kind != ARG_POS for kind in node.arg_kinds):
+                    raise Exception(
+                        f"Only positional arguments are supported for function {func_name}"
+                    )
+
                 # Check number of arguments
                 actual_num_args = len(node.args)
                 expected_num_args = len(func_type.arg_names)
-- 
2.43.0


From e60fed3ce1ceea15d13e6a1b4a3f65b6d03f71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 069/121] fix: reject list literals with elements instead of
 dropping the elements

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index c4d493f..b77a4ef 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -461,6 +461,8 @@ def mypy_node_to_ir(
         elif isinstance(node, IntExpr):
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
+            if len(node.items) > 0:
+                raise Exception("Only empty list literals are supported")
             node_type = mypy_type_to_ir_type(types[node])
             return node_type.empty(get_args(node_type)[0]).src
         elif isinstance(node, ConditionalExpr):
-- 
2.43.0


From 65521f7474c231701abf6017d664673ae572105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 070/121] fix: translate the Python constants True and False to
 Boolean literals

---
 llmlift_scripts/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index b77a4ef..0485eab 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -32,7 +32,7 @@ from mypy.nodes import (
     UnaryExpr,
 )
 from mypy.options import Options
-from mypy.types import AnyType, CallableType, Instance
+from mypy.types import AnyType, CallableType, Instance, LiteralType
 from mypy.types import Type as MypyType
 from mypy.types import TypeList, UnboundType
 
@@ -101,6 +101,8 @@ def mypy_type_to_ir_type(mypy_type: Optional[MypyType]) -> Optional[ObjectT]:
             return Bool
         elif mypy_type.type.fullname == "builtins.list":
             return List[mypy_type_to_ir_type(mypy_type.args[0])]
+    elif isinstance(mypy_type, LiteralType):
+        return mypy_type_to_ir_type(mypy_type.fallback)
     elif isinstance(mypy_type, CallableType):
         arg_types = (mypy_type_to_ir_type(arg) for arg in mypy_type.arg_types)
         ret_type = mypy_type_to_ir_type(mypy_type.ret_type)
@@ -404,7 +406,8 @@ def mypy_node_to_ir(
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr):
-            # Nothing can go wrong with a name expression (which are basically variables)
+            if node.fullname in {"builtins.True", "builtins.False"}:
+                return Bool(node.fullname == "builtins.True").src
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
         # TODO: check not
-- 
2.43.0


From 44bbcb300aea968a6b5261cb5f25a66a5362cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 071/121] fix: reject slices with a step instead of ignoring
 the step

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 0485eab..772d002 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -511,6 +511,8 @@ def mypy_node_to_ir(
             base_expr = parse_node(node.base)
             base_object = create_object(base_expr.type, base_expr)
             if isinstance(node.index, SliceExpr):
+                if node.index.stride is not None:
+                    raise Exception("Slices with a step are not supported")
                 # Parse begin index
                 if node.index.begin_index is None:
                     begin_index = None
-- 
2.43.0


From 3f254b2cd1fab8fe18ac48b417b55cc409bfe094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 072/121] fix: reject calls of expressions that are not
 function names

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 772d002..6a6e36c 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -405,6 +405,8 @@ def mypy_node_to_ir(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
+            else:
+                raise Exception("Only functions can be called by their name")
         elif isinstance(node, NameExpr):
             if node.fullname in {"builtins.True", "builtins.False"}:
                 return Bool(node.fullname == "builtins.True").src
-- 
2.43.0


From ee43a5a9463d09afb4999a22397a2004134c5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 073/121] fix: reject conditional expressions with a condition
 that is not a boolean or branches of different types

---
 llmlift_scripts/parser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 6a6e36c..dc9403c 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -471,11 +471,18 @@ def mypy_node_to_ir(
             node_type = mypy_type_to_ir_type(types[node])
             return node_type.empty(get_args(node_type)[0]).src
         elif isinstance(node, ConditionalExpr):
-            return ite(
-                parse_node(node.cond),
-                parse_node(node.if_expr),
-                parse_node(node.else_expr),
-            ).src
+            cond_expr = parse_node(node.cond)
+            if_expr = parse_node(node.if_expr)
+            else_expr = parse_node(node.else_expr)
+            if cond_expr.type is not Bool:
+                raise Exception(
+                    f"Conditions must be booleans, but got {types[node.cond]}"
+                )
+            if if_expr.type != else_expr.type:
+                raise Exception(
+                    f"Both branches of a conditional expression must have the same type, but got {types[node.if_expr]} and {types[node.else_expr]}"
+                )
+            return ite(cond_expr, if_expr, else_expr).src
         elif isinstance(node, ComparisonExpr):
             clauses: list[Expr] = []
             for i in range(len(node.operators)):
-- 
2.43.0


From 9ab4d0ed4c6a27025fcc0a7f4ad5a4cd43c38be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 074/121] fix: give concatenated lists the type of their
 operands

---
 llmlift_scripts/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index dc9403c..e88caae 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -437,7 +437,13 @@ def mypy_node_to_ir(
                 and not is_nested_list_type(right_expr.type)
             ):
                 if op == "+":
-                    return call("list_concat", List[Int], left_expr, right_expr)
+                    if left_expr.type != right_expr.type:
+                        raise Exception(
+                            f"Cannot concatenate {types[node.left]} and {types[node.right]}"
+                        )
+                    return call(
+                        "list_concat", left_expr.type, left_expr, right_expr
+                    ).src
                 else:
                     raise Exception(
                         f"Binary operation is not supported {op} on types {types[node.left]} and {types[node.right]}"
-- 
2.43.0


From 3f44e61d44413ba711354d6bfc37b9c1ce676e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 075/121] fix: read the signatures of the DSL functions again
 when the DSL changes

---
 llmlift_scripts/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index e88caae..dc72360 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -119,11 +119,11 @@ def _get_func_def_arg_names(func_def: FuncDef) -> list[str]:
     return [arg.variable.name for arg in func_def.arguments]
 
 
-@lru_cache(maxsize=None)
-def get_dsl_func_defs() -> List[FuncDef]:
+@lru_cache(maxsize=1)
+def get_dsl_func_defs(dsl_source: str) -> List[FuncDef]:
     """
-    Get the function definitions of the python dsl module.
-    This is cached because the dsl file never changes.
+    Get the function definitions of the python dsl module, whose source is given.
+    This is cached because the dsl file rarely changes.
     """
     options = Options()
     options.incremental = False  # turn off caching of previously typed results
@@ -176,7 +176,8 @@ def mypy_parse(
 
     # We reject functions that don't have type information in the signature
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
-    for func_def in [*target_func_defs, *get_dsl_func_defs()]:
+    dsl_source = (LLMLIFT_SCRIPTS_PATH / "dsl.py").read_text()
+    for func_def in [*target_func_defs, *get_dsl_func_defs(dsl_source)]:
         func_ir_type = mypy_type_to_ir_type(func_def.type)
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
-- 
2.43.0


From aa440ef01514c0830bd17589a2d3ffa5df707ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 076/121] fix: reject functions with untyped parameters

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index dc72360..e37d128 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -184,7 +184,7 @@ def mypy_parse(
 
         arg_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
         ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
-        if any(arg_ir_types) is None:
+        if any(arg_ir_type is None for arg_ir_type in arg_ir_types):
             raise Exception(
                 f"Function {func_def.name} has arguments with no type information"
             )
-- 
2.43.0


From e49c47a0c1630918aa30eab8d323037da485024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 077/121] fix: reject functions that redefine a DSL function or
 each other

---
 llmlift_scripts/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index e37d128..db993ac 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -177,7 +177,12 @@ def mypy_parse(
     # We reject functions that don't have type information in the signature
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
     dsl_source = (LLMLIFT_SCRIPTS_PATH / "dsl.py").read_text()
-    for func_def in [*target_func_defs, *get_dsl_func_defs(dsl_source)]:
+    dsl_func_defs = get_dsl_func_defs(dsl_source)
+    func_names = [func_def.name for func_def in [*target_func_defs, *dsl_func_defs]]
+    for func_def in target_func_defs:
+        if func_names.count(func_def.name) > 1:
+            raise Exception(f"Function {func_def.name} is already defined")
+    for func_def in [*target_func_defs, *dsl_func_defs]:
         func_ir_type = mypy_type_to_ir_type(func_def.type)
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
-- 
2.43.0


From 37df22a90a43a55762602b05aab29e4af22e7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 078/121] fix: reject negative indices, which do not count from
 the end of a list in the IR

---
 llmlift_scripts/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index db993ac..b4f09e4 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -248,6 +248,15 @@ def mypy_node_to_ir(
     lambda_exprs: dict[Expr, str],
     arg_name_to_count: dict[str, int],
 ) -> Expr:
+    def check_bound(node: Node) -> None:
+        if (
+            isinstance(node, UnaryExpr)
+            and node.op == "-"
+            and isinstance(node.expr, IntExpr)
+            and node.expr.value != 0
+        ):
+            raise Exception("Negative indices are not supported")
+
     def parse_node(node: Node) -> Expr:
         # TODO: add support for non-lambda inline functions
         if isinstance(node, FuncDef) or isinstance(node, LambdaExpr):
@@ -538,12 +547,14 @@ def mypy_node_to_ir(
                 if node.index.begin_index is None:
                     begin_index = None
                 else:
+                    check_bound(node.index.begin_index)
                     begin_index = parse_node(node.index.begin_index)
 
                 # Parse end index
                 if node.index.end_index is None:
                     end_index = None
                 else:
+                    check_bound(node.index.end_index)
                     end_index = parse_node(node.index.end_index)
 
                 if begin_index is None and end_index is not None:
@@ -557,6 +568,7 @@ def mypy_node_to_ir(
                         f"Slicing index {node.index} is not supported. The only supported slices are [i:], [:j], [i:j]"
                     )
             else:
+                check_bound(node.index)
                 index_expr = parse_node(node.index)
                 return base_object[index_expr].src
         else:
-- 
2.43.0


From 61683458dfe9e4fcf66a307fedda73070d5b5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 079/121] fix: reject functions that return a value of another
 type than they declare

---
 llmlift_scripts/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index b4f09e4..fa53412 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -277,12 +277,17 @@ def mypy_node_to_ir(
             if isinstance(node, FuncDef):
                 # Sort the variables by name so that the order is consistent
                 variables = sorted(variables, key=lambda x: x.var_name())
+            body_expr = parse_node(node.body)
+            if body_expr.type != ret_ir_type:
+                raise Exception(
+                    f"Function {node.name} returns {body_expr.type} instead of {ret_ir_type}"
+                )
             # Because we are not sure if the function is recursive, we opt to always use the recursive definition
             # If the function is expressed as a lambda expression, then the name will be "<lambda>"
             return fn_decl_recursive(
                 node.name,
                 ret_ir_type,
-                parse_node(node.body),
+                body_expr,
                 *variables,
             )
         elif isinstance(node, Block):
-- 
2.43.0


From 8e6eeb77d86eecf48e77c07e24c97b02aaf9a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 080/121] fix: reject names in rewritten functions that are not
 bound to a parameter or a known function

---
 llmlift_scripts/parser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index fa53412..350b0dc 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -31,6 +31,7 @@ from mypy.nodes import (
     SliceExpr,
     UnaryExpr,
 )
+from mypy.nodes import Var as MypyVar
 from mypy.options import Options
 from mypy.types import AnyType, CallableType, Instance, LiteralType
 from mypy.types import Type as MypyType
@@ -248,6 +249,9 @@ def mypy_node_to_ir(
     lambda_exprs: dict[Expr, str],
     arg_name_to_count: dict[str, int],
 ) -> Expr:
+    # The parameters of the function and of the lambda expressions in it
+    bound_vars: list[MypyVar] = []
+
     def check_bound(node: Node) -> None:
         if (
             isinstance(node, UnaryExpr)
@@ -266,10 +270,13 @@ def mypy_node_to_ir(
                 func_ir_type = mypy_type_to_ir_type(types[node])
             arg_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
             ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
+            if node.is_coroutine:
+                raise Exception(f"Function {node.name} cannot be asynchronous")
             if any(arg.kind != ARG_POS for arg in node.arguments):
                 raise Exception(
                     f"Function {node.name} can only have positional parameters without default values"
                 )
+            bound_vars.extend(arg.variable for arg in node.arguments)
             # Create one variable for each argument
             variables: list[Object] = []
             for arg, ir_type in zip(node.arguments, arg_ir_types):
@@ -332,7 +339,7 @@ def mypy_node_to_ir(
                 func_name = cast(NameExpr, node.callee).name
 
                 # First we check if this function is a python built-in function
-                if func_name == "len":
+                if node.callee.fullname == "builtins.len":
                     if len(node.args) != 1:
                         raise Exception("len() takes exactly one argument")
                     arg_expr = parse_node(node.args[0])
@@ -345,7 +352,10 @@ def mypy_node_to_ir(
                     return call(list_func_name, Int, arg_expr).src
 
                 # Then check if this functino is in our DSL.
-                if func_name not in func_sign.keys():
+                if func_name not in func_sign.keys() or node.callee.fullname not in {
+                    f"target_code.{func_name}",
+                    f"llmlift_scripts.dsl.{func_name}",
+                }:
                     raise Exception(f"Function {func_name} is not supported")
 
                 func_type, func_ir_type, arg_names = func_sign[func_name]
@@ -430,6 +440,8 @@ def mypy_node_to_ir(
         elif isinstance(node, NameExpr):
             if node.fullname in {"builtins.True", "builtins.False"}:
                 return Bool(node.fullname == "builtins.True").src
+            if not isinstance(node.node, FuncDef) and node.node not in bound_vars:
+                raise Exception(f"{node.name} is not a parameter or a function")
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
         # TODO: check not
-- 
2.43.0


From 6241861e2a93ab4770b0a881757fb77c2e27b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 081/121] fix: translate Boolean constants in connectives

---
 llmlift_scripts/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 350b0dc..6cbb1a3 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -35,7 +35,7 @@ from mypy.nodes import Var as MypyVar
 from mypy.options import Options
 from mypy.types import AnyType, CallableType, Instance, LiteralType
 from mypy.types import Type as MypyType
-from mypy.types import TypeList, UnboundType
+from mypy.types import TypeList, UnboundType, UnionType
 
 from metalift.ir import (
     Add,
@@ -104,6 +104,12 @@ def mypy_type_to_ir_type(mypy_type: Optional[MypyType]) -> Optional[ObjectT]:
             return List[mypy_type_to_ir_type(mypy_type.args[0])]
     elif isinstance(mypy_type, LiteralType):
         return mypy_type_to_ir_type(mypy_type.fallback)
+    elif isinstance(mypy_type, UnionType):
+        # For example, the union of the literal types of True and False
+        item_types = [mypy_type_to_ir_type(item) for item in mypy_type.items]
+        if any(item_type != item_types[0] for item_type in item_types):
+            raise Exception(f"{mypy_type} is not supported")
+        return item_types[0]
     elif isinstance(mypy_type, CallableType):
         arg_types = (mypy_type_to_ir_type(arg) for arg in mypy_type.arg_types)
         ret_type = mypy_type_to_ir_type(mypy_type.ret_type)
-- 
2.43.0


From 50b1738282866248e6157af697fa370ff04d4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 082/121] fix: reject solutions that bind names of functions to
 something else

---
 llmlift_scripts/parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 6cbb1a3..b3ed9de 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -15,8 +15,11 @@ from mypy.nodes import (
     CallExpr,
     ComparisonExpr,
     ConditionalExpr,
+    ExpressionStmt,
     FuncDef,
     IfStmt,
+    ImportAll,
+    ImportFrom,
     IndexExpr,
     IntExpr,
     LambdaExpr,
@@ -172,6 +175,17 @@ def mypy_parse(
     )
     target_tree: MypyFile = cast(MypyFile, mypy_build.graph["target_code"].tree)
 
+    # Other statements could give the names of the functions another meaning
+    for stmt in target_tree.defs:
+        if isinstance(stmt, (ImportAll, ImportFrom)):
+            supported = stmt.id in {"typing", "llmlift_scripts.dsl"} and not any(
+                as_name is not None for _, as_name in getattr(stmt, "names", [])
+            )
+        else:
+            supported = isinstance(stmt, (FuncDef, ExpressionStmt))
+        if not supported:
+            raise Exception("Only function definitions are supported")
+
     # Get target function definition
     target_func_defs = [
         func_def for func_def in target_tree.defs if isinstance(func_def, FuncDef)
-- 
2.43.0


From da5931c4725e5788a866be929ef450cb7d96ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 083/121] fix: replace nested and surrounded ite() calls by
 conditional expressions without changing their meaning

---
 llmlift_scripts/utils.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..422fc31 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -1,5 +1,7 @@
+import ast
 import re
 from dataclasses import dataclass
+from textwrap import dedent
 from typing import Union
 
 from metalift.ir import Object, create_object
@@ -36,14 +38,25 @@ def extract_all_python_functions(s: str) -> list[str]:
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
+    class IteReplacer(ast.NodeTransformer):
+        def visit_Call(self, node: ast.Call) -> ast.expr:
+            self.generic_visit(node)
+            if (
+                isinstance(node.func, ast.Name)
+                and node.func.id == "ite"
+                and len(node.args) == 3
+                and len(node.keywords) == 0
+            ):
+                cond, a, b = node.args
+                return ast.IfExp(test=cond, body=a, orelse=b)
+            return node
 
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    try:
+        tree = ast.parse(dedent(ps_sol))
+    except SyntaxError:
+        # The parser is going to reject this solution
+        return ps_sol
+    return ast.unparse(IteReplacer().visit(tree))
 
 
 def get_inv_args(
-- 
2.43.0


From a10011e099eaef15c44843a4fc46764bf4c24209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 084/121] fix: negate with an integer expression instead of an
 integer object

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index b3ed9de..721fc7f 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -518,7 +518,7 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Unary operator - is only supported on integers, not {types[node]}"
                     )
-                return Sub(Int(0), node_expr)
+                return Sub(Int(0).src, node_expr)
             else:
                 raise Exception(f"Unary operator {node.op} is not supported")
         elif isinstance(node, IntExpr):
-- 
2.43.0


From 481c95308493c16ba7605c7c406dc2edb3d5e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 085/121] fix: match the functions of a SyGuS answer by name
 instead of by substring

---
 metalift/synthesize_cvc5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index d50515f..6efccae 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -85,7 +85,7 @@ def generateCandidates(
     for ce in invAndPs:
         name = ce.name()
         for a in ast[0]:
-            if name in a:
+            if isinstance(a, list) and a[0] == name:
                 args = {}
                 for v in ce.arguments():
                     args[v.args[0]] = v.type
-- 
2.43.0


From 32f6999ebdf0d04664523b6ad74b4c7a4d1374ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 086/121] fix: read all bindings of a let in a SyGuS answer

---
 metalift/synthesize_cvc5.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 6efccae..4e8c142 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -153,9 +153,10 @@ def toExpr(
             )
         elif ast[0] == "let":
             newLetVars = dict(letVars)
-            newLetVars[ast[1][0][0]] = toExpr(
-                ast[1][0][1], funName, returnType, varType, letVars
-            )
+            for letVar, letValue in ast[1]:
+                newLetVars[letVar] = toExpr(
+                    letValue, funName, returnType, varType, letVars
+                )
             return toExpr(ast[2], funName, returnType, varType, newLetVars)
         elif ast[0] == "ite":
             return Ite(
-- 
2.43.0


From ead2de56bd9edfb43c2c754c9d8c259bffb21aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 087/121] fix: read the element type of empty sets in SyGuS
 answers

---
 metalift/synthesize_cvc5.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 4e8c142..5b5b6ab 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -74,6 +74,19 @@ def extractFuns(
     return funName, returnType
 
 
+def toType(ast: Union[str, typing.List[Any]]) -> ObjectT:
+    if ast == "Int":
+        return Int
+    elif ast == "Bool":
+        return Bool
+    elif isinstance(ast, list) and ast[0] == "Set":
+        return mlSet[toType(ast[1])]  # type: ignore
+    elif isinstance(ast, list) and ast[0].startswith("Tuple"):
+        return make_tuple_type(*[toType(t) for t in ast[1:]])  # type: ignore
+    else:
+        raise Exception("Unknown type: " + repr(ast))
+
+
 def generateCandidates(
     invAndPs: typing.List[Synth],
     line: str,
@@ -187,7 +200,7 @@ def toExpr(
                     *arg_eval,
                 )
         elif ast[0] == "as" and ast[1] == "set.empty":
-            return Call("set-create", mlSet[Int])  # TODO: parse the type
+            return Call("set-create", toType(ast[2]))
         elif ast[0] == "set.insert":
             v = toExpr(ast[1], funName, returnType, varType, letVars)
             s1 = toExpr(ast[2], funName, returnType, varType, letVars)
-- 
2.43.0


From 52a82bf1cf682e3104bcb6e7568f5d714f7ce8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 088/121] fix: read tuples with a single element in SyGuS
 answers

---
 metalift/synthesize_cvc5.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 5b5b6ab..1090df2 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -192,11 +192,7 @@ def toExpr(
                     )
                 return Call(
                     "tuple%d" % (len(ast) - 1),
-                    make_tuple_type(
-                        arg_eval[0].type,
-                        arg_eval[1].type,
-                        *[e.type for e in arg_eval[2:]],
-                    ),
+                    make_tuple_type(*[e.type for e in arg_eval]),
                     *arg_eval,
                 )
         elif ast[0] == "as" and ast[1] == "set.empty":
-- 
2.43.0


From 1b5b739ba3ec89ef332e5b0ba47e63922d564444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 089/121] fix: read all elements inserted by set.insert in
 SyGuS answers

---
 metalift/synthesize_cvc5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 1090df2..385de8d 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -198,9 +198,11 @@ def toExpr(
         elif ast[0] == "as" and ast[1] == "set.empty":
             return Call("set-create", toType(ast[2]))
         elif ast[0] == "set.insert":
-            v = toExpr(ast[1], funName, returnType, varType, letVars)
-            s1 = toExpr(ast[2], funName, returnType, varType, letVars)
-            return Call("set-insert", mlSet[v.type], v, s1)  # type: ignore
+            s1 = toExpr(ast[-1], funName, returnType, varType, letVars)
+            for elem in reversed(ast[1:-1]):
+                v = toExpr(elem, funName, returnType, varType, letVars)
+                s1 = Call("set-insert", mlSet[v.type], v, s1)  # type: ignore
+            return s1
         elif ast[0] == "set.singleton":
             v = toExpr(ast[1], funName, returnType, varType, letVars)
             return Call("set-singleton", mlSet[v.type], v)  # type: ignore
-- 
2.43.0


From 1b36c1e713d6a515f052f66022727999da8b1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 090/121] fix: read operators with more than two operands in
 SyGuS answers

---
 metalift/synthesize_cvc5.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 385de8d..0fb08c0 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -1,3 +1,4 @@
+import functools
 import os
 import subprocess
 import typing
@@ -138,11 +139,21 @@ def toExpr(
     expr_uni = {"not": Not}
     if isinstance(ast, list):
         if ast[0] in expr_bi.keys():
-            if len(ast) == 3:
-                return expr_bi[ast[0]](
-                    toExpr(ast[1], funName, returnType, varType, letVars),
-                    toExpr(ast[2], funName, returnType, varType, letVars),
-                )
+            if len(ast) >= 3:
+                op = expr_bi[ast[0]]
+                operands = [
+                    toExpr(arg, funName, returnType, varType, letVars)
+                    for arg in ast[1:]
+                ]
+                if len(operands) == 2 or ast[0] in ("+", "*", "and", "or"):
+                    return op(*operands)
+                elif ast[0] == "-":
+                    return functools.reduce(op, operands)
+                elif ast[0] == "=>":
+                    return functools.reduce(lambda r, l: op(l, r), operands[::-1])
+                else:
+                    # comparisons are chained
+                    return And(*[op(l, r) for l, r in zip(operands, operands[1:])])
             elif len(ast) == 2 and ast[0] == "-":
                 return expr_bi[ast[0]](
                     IntLit(0),
-- 
2.43.0


From a5f7e7326c0c9f9a69150611392f5a9801d49cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 091/121] fix: read div and mod in SyGuS answers

---
 metalift/synthesize_cvc5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 0fb08c0..5d2179f 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -15,6 +15,7 @@ from metalift.ir import (
     Bool,
     BoolLit,
     Call,
+    Div,
     Eq,
     Expr,
     FnDecl,
@@ -27,6 +28,7 @@ from metalift.ir import (
     Ite,
     Le,
     Lt,
+    Mod,
     Mul,
     Not,
     ObjectT,
@@ -128,6 +130,8 @@ def toExpr(
         "+": Add,
         "-": Sub,
         "*": Mul,
+        "div": Div,
+        "mod": Mod,
         "<": Lt,
         "<=": Le,
         ">": Gt,
@@ -147,7 +151,7 @@ def toExpr(
                 ]
                 if len(operands) == 2 or ast[0] in ("+", "*", "and", "or"):
                     return op(*operands)
-                elif ast[0] == "-":
+                elif ast[0] in ("-", "div"):
                     return functools.reduce(op, operands)
                 elif ast[0] == "=>":
                     return functools.reduce(lambda r, l: op(l, r), operands[::-1])
-- 
2.43.0


From 210feab893c8354d84166473e098c35215928bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 092/121] fix: report SMT verification as successful only when
 the answer is unsat

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From 2cd289a0b22af1e4ce924cdec35648f4b159dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 093/121] fix: return the solution of Claude as a text

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8acaebe..c3ec38d 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -579,8 +579,8 @@ def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
         system=TEMPLATE_SYS,
         messages=messages,
     )
-    raw_solutions = extract_all_python_functions(message.content[0].text)
-    return [replace_ite(raw_solution) for raw_solution in raw_solutions]
+    raw_solution = "\n\n".join(extract_all_python_functions(message.content[0].text))
+    return replace_ite(raw_solution)
 
 
 def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
-- 
2.43.0


From b70d339e502b41423828934f869eab2bf935f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 094/121] fix: reject solutions that take the output as an
 argument

---
 llmlift_scripts/synthesis.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index c3ec38d..eddc44b 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -208,6 +208,10 @@ def process_synthesized_fn_decls(
 
         # Change ps function name
         if fn_decl.name() == benchmark_name:
+            if output_var.var_name() in [arg.name() for arg in fn_decl.arguments()]:
+                raise Exception(
+                    f"{benchmark_name} can't have the output {output_var.var_name()} as its argument"
+                )
             fn_decl = process_ps_fn_decl(fn_decl, output_var)
             synthesized_fn_decls[idx] = fn_decl
 
@@ -403,18 +407,17 @@ def run_llm_synthesis_algorithm(
                 lambda_exprs=lambda_exprs,
                 arg_name_to_count=arg_name_to_count,
             )
+            process_synthesized_fn_decls(
+                output_var=output_var,
+                benchmark_name=benchmark_name,
+                synthesized_fn_decls=ps_fn_decls,
+            )
             print("Passed the parser, continuing to invariant generation")
         except Exception as e:
             print("Failed to pass the parser", e)
             print("Skipping invariant generation")
             continue
 
-        process_synthesized_fn_decls(
-            output_var=output_var,
-            benchmark_name=benchmark_name,
-            synthesized_fn_decls=ps_fn_decls,
-        )
-
         # Generate the invariant
         ps_fn_decl = next(fn_decl for fn_decl in ps_fn_decls if "ps" in fn_decl.name())
         inv_prompt = get_inv_prompt(
-- 
2.43.0


From 0639ef547f407fb713f22cee357303263c988b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 095/121] fix: ask for another solution when the function is
 named differently

---
 llmlift_scripts/synthesis.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index eddc44b..d3e5218 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -412,6 +412,16 @@ def run_llm_synthesis_algorithm(
                 benchmark_name=benchmark_name,
                 synthesized_fn_decls=ps_fn_decls,
             )
+            ps_fn_decl = next(
+                (
+                    fn_decl
+                    for fn_decl in ps_fn_decls
+                    if fn_decl.name() == f"{benchmark_name}_ps"
+                ),
+                None,
+            )
+            if ps_fn_decl is None:
+                raise Exception(f"There is no function named {benchmark_name}")
             print("Passed the parser, continuing to invariant generation")
         except Exception as e:
             print("Failed to pass the parser", e)
@@ -419,7 +429,6 @@ def run_llm_synthesis_algorithm(
             continue
 
         # Generate the invariant
-        ps_fn_decl = next(fn_decl for fn_decl in ps_fn_decls if "ps" in fn_decl.name())
         inv_prompt = get_inv_prompt(
             source_code=source_code,
             ps_fn_decl=ps_fn_decl,
-- 
2.43.0


From 4e0c534733d1cd5580a7c8ff2cf45a0b08e82d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 096/121] fix: verify functions and axioms in an order that
 doesn't depend on hashes

---
 llmlift_scripts/synthesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index d3e5218..8c5ff27 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -309,14 +309,14 @@ def verify_benchmark_smt(
     # Find axioms that are needed
     used_fn_names = get_used_fn_names(synthesized_fn_decls)
     axioms: list[Axiom] = []
-    for fn_name in used_fn_names:
+    for fn_name in sorted(used_fn_names):
         axioms.extend(dsl_fn_name_to_axioms.get(fn_name, []))
 
     synthesized_fn_names = [fn_decl.name() for fn_decl in synthesized_fn_decls]
     target_lang_fn_names = [fn_decl.name() for fn_decl in final_dsl_fns]
 
     toSMT(
-        target_lang=list(set([*final_dsl_fns, *axioms])),
+        target_lang=list(dict.fromkeys([*final_dsl_fns, *axioms])),
         vars=set(driver.var_tracker.all()),
         inv_and_ps=synthesized_fn_decls,
         preds=[],
@@ -473,7 +473,7 @@ def run_llm_synthesis_algorithm(
                 synthesized_fn_decls=inv_fn_decls,
             )
 
-            synthesized_fn_decls = list(set([*ps_fn_decls, *inv_fn_decls]))
+            synthesized_fn_decls = list(dict.fromkeys([*ps_fn_decls, *inv_fn_decls]))
             in_calls = [*ps_inv_calls, *inv_in_calls]
 
             # This is a hack for dissolve_blend_8
-- 
2.43.0


From 1d114ba52c3286f33d9edc35f2813e9b8edb9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 097/121] fix: recognize C++ code blocks

---
 llmlift_scripts/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index 422fc31..eacb08b 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -29,7 +29,7 @@ def extract_all_python_functions(s: str) -> list[str]:
     extracted_result = [
         x.group(1)
         for x in re.finditer(
-            r"```(?:Python|python|assembly|cpp|c|c\+\+)?(.*?)```", s, re.DOTALL
+            r"```(?:Python|python|assembly|cpp|c\+\+|c)?(.*?)```", s, re.DOTALL
         )
     ]
     return extracted_result
-- 
2.43.0


From 221db017680553cc23ab5fd0ea9011260a4cbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 098/121] fix: add the arguments of dissolve_blend_8 once for
 each attempt

---
 llmlift_scripts/synthesis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8c5ff27..77dae7d 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -486,7 +486,12 @@ def run_llm_synthesis_algorithm(
                             Int("opacity").src,
                             Int("rand_cons").src,
                         ]
-                        fn_decl.set_arguments(new_args)
+                        fn_decl = fn_decl.__class__(
+                            fn_decl.name(),
+                            fn_decl.return_type(),
+                            fn_decl.body(),
+                            *new_args,
+                        )
 
                     fn_decl = replace_fn_name(
                         expr=fn_decl,
-- 
2.43.0


From e1cd6c128541b8500ceb33119151de7040dc42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 099/121] fix: don't replace functions in the target language
 of the caller

---
 llmlift_scripts/synthesis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 77dae7d..2641028 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -475,6 +475,7 @@ def run_llm_synthesis_algorithm(
 
             synthesized_fn_decls = list(dict.fromkeys([*ps_fn_decls, *inv_fn_decls]))
             in_calls = [*ps_inv_calls, *inv_in_calls]
+            verif_dsl_fns = [*dsl_fns]
 
             # This is a hack for dissolve_blend_8
             if benchmark_name == "dissolve_blend_8":
@@ -533,11 +534,11 @@ def run_llm_synthesis_algorithm(
                     in_calls[idx] = tuple(new_in_call)
 
                 # Process DSL functions.
-                for idx, fn_decl in enumerate(dsl_fns):
+                for idx, fn_decl in enumerate(verif_dsl_fns):
                     if fn_decl.name() == MATRIX_SELECTION_TWO_ARGS:
-                        dsl_fns[idx] = dissolve_matrix_selection_two_args_fn_decl
+                        verif_dsl_fns[idx] = dissolve_matrix_selection_two_args_fn_decl
                     elif fn_decl.name() == SELECTION_TWO_ARGS:
-                        dsl_fns[idx] = dissolve_selection_two_args_fn_decl
+                        verif_dsl_fns[idx] = dissolve_selection_two_args_fn_decl
 
             # Generate VC.
             # Write assertions
@@ -551,7 +552,7 @@ def run_llm_synthesis_algorithm(
                     benchmark_name=benchmark_name,
                     synthesized_fn_decls=synthesized_fn_decls,
                     in_calls=in_calls,
-                    dsl_fns=dsl_fns,
+                    dsl_fns=verif_dsl_fns,
                     vc=vc,
                     dsl_fn_name_to_axioms=dsl_fn_name_to_axioms,
                 )
@@ -561,7 +562,7 @@ def run_llm_synthesis_algorithm(
                     benchmark_name=benchmark_name,
                     synthesized_fn_decls=synthesized_fn_decls,
                     in_calls=in_calls,
-                    dsl_fns=dsl_fns,
+                    dsl_fns=verif_dsl_fns,
                     vc=vc,
                 )
             elif verification_method == VerificationMethod.NONE:
-- 
2.43.0


From f63c013a0e21700420df63f062aa0556e373e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 100/121] fix: keep PHI nodes intact when both branches have
 the same target

---
 llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
index dcb6007..8eb70e9 100644
--- a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
+++ b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
@@ -42,6 +42,15 @@ namespace
       return bb;
     }
 
+    // the successors can be the same block, which then has two entries for pred in its PHI nodes
+    void replacePhiUse(BasicBlock * succ, BasicBlock * pred, BasicBlock * newPred)
+    {
+      for (auto &phi : succ->phis())
+      {
+        phi.setIncomingBlock(phi.getBasicBlockIndex(pred), newPred);
+      }
+    }
+
     virtual bool runOnFunction(Function &F)
     {
       std::map<BranchInst*, BranchInst*> toReplace;
@@ -57,8 +66,8 @@ namespace
               BasicBlock * trueBB = createBB(F, op->getSuccessor(0));
               BasicBlock * falseBB = createBB(F, op->getSuccessor(1));
 
-              op->getSuccessor(0)->replacePhiUsesWith(&B, trueBB);
-              op->getSuccessor(1)->replacePhiUsesWith(&B, falseBB);
+              replacePhiUse(op->getSuccessor(0), &B, trueBB);
+              replacePhiUse(op->getSuccessor(1), &B, falseBB);
 
               BranchInst *br = BranchInst::Create(trueBB, falseBB, op->getCondition());
               toReplace.insert(std::pair<BranchInst*, BranchInst*>(op, br));
-- 
2.43.0


From 0377c1858b3003a57c0d63cc25cefc98e6c7d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 101/121] fix: don't reuse the names of variables in variable
 groups

---
 metalift/analysis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 2d11089..eab9c17 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -462,6 +462,13 @@ class VariableGroup(object):
         else:
             self.tracker.existing[my_name] = 0
 
+        # e.g., the variable "a_1" can be requested before "a" is requested again
+        while (
+            format_with_index(my_name, self.tracker.existing[my_name])
+            in self.tracker.var_to_type
+        ):
+            self.tracker.existing[my_name] += 1
+
         self.tracker.var_to_type[
             format_with_index(my_name, self.tracker.existing[my_name])
         ] = type
-- 
2.43.0


From 1ad2b95eca93077904bf1a55df4e7ed30b815688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 102/121] fix: parse each LLVM file in its own context so that
 its types keep their names

---
 metalift/frontend/llvm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 7305387..95ff447 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -56,6 +56,9 @@ PRIMITIVE_VECTOR_TYPE_REGEX = rf"(std::__1::vector<({PRIMITIVE_TYPE_REGEX}), std
 NESTED_VECTOR_TYPE_REGEX = rf"(std::__1::vector<({PRIMITIVE_VECTOR_TYPE_REGEX}), std::__1::allocator<({PRIMITIVE_VECTOR_TYPE_REGEX}) > >)"
 DOUBLE_NESTED_VECTOR_TYPE_REGEX = rf"(std::__1::vector<({NESTED_VECTOR_TYPE_REGEX}), std::__1::allocator<({NESTED_VECTOR_TYPE_REGEX}) > >)"
 
+# The contexts of all parsed files. They must outlive the modules.
+llvm_contexts: List[llvm.context.ContextRef] = []
+
 GrammarT = Callable[[List[Object], List[Object], List[Object]], Bool]
 
 
@@ -1662,7 +1665,11 @@ class MetaliftFunc:
 
         # Try to find the function reference in compiled LLVM IR code
         with open(llvm_filepath, mode="r") as file:
-            ref = llvm.parse_assembly(file.read())
+            # Use a separate context for each file. In a shared context the types of this file would be
+            # renamed (e.g., to %struct.list.0) if an earlier file has defined types with the same names.
+            context = llvm.create_context()
+            llvm_contexts.append(context)
+            ref = llvm.parse_assembly(file.read(), context=context)
         functions = list(ref.functions)
         # raw_fn_name is potentially-mangled name of fn_name
         fn_ref: Optional[ValueRef] = None
-- 
2.43.0


From 562108223b74880dafe7cdf8c78f03e91e872ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 103/121] fix: don't take blocks for latches because of their
 names

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 95ff447..10dec71 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -534,7 +534,7 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
                     exit_names.append(name)
                 if "<latch>" in b:
                     latch_names.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body_names.append(name)
             if len(header_names) > 1:
                 raise Exception(f"Detected more than one header block! {header_names}")
-- 
2.43.0


From 99dee065af62712cc16ab6d11e9ede69256802a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 104/121] fix: model set_contains as a membership test with an
 integer result

---
 metalift/frontend/llvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 10dec71..be9337d 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -35,6 +35,7 @@ from metalift.ir import (
     get_object_exprs,
     implies,
     is_pointer_type,
+    ite,
     make_tuple_type,
     parse_type_ref_to_obj,
 )
@@ -104,7 +105,9 @@ def set_contains(
     assert len(args) == 2
     s = state.read_or_load_operand(args[0])
     item = state.read_or_load_operand(args[1])
-    return ReturnValue(item in s, None)  # type: ignore
+    contains = s.__contains__(item)  # type: ignore
+    # set_contains is declared in set.h to return an int
+    return ReturnValue(ite(contains, Int(1), Int(0)), None)
 
 
 def new_list(
-- 
2.43.0


From 7301bf67cef5742a240709d73a185df190e1df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 105/121] fix: read constants of boolean variables as booleans

---
 metalift/frontend/llvm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index be9337d..187ca50 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -697,6 +697,11 @@ class State:
             return Bool(True)
         elif val == "false":
             return Bool(False)
+        elif str(op.type) == "i8":
+            # variables of type i8 are booleans, see parse_type_ref_to_obj
+            if val not in {"0", "1"}:
+                raise Exception(f"{op} is not a boolean constant")
+            return Bool(val == "1")
         else:  # assuming it's a number
             return Int(int(val))
 
-- 
2.43.0


From 0b40b3a41b83a93daa97447cc3fbc77db9d02aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 106/121] fix: compare unsigned integers as unsigned integers

---
 metalift/frontend/llvm.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 187ca50..87c8ced 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -558,6 +558,16 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
         return raw_loops
 
 
+def is_nonnegative(obj: Object) -> bool:
+    if isinstance(obj.src, Lit):
+        return cast(int, obj.src.val()) >= 0
+    return isinstance(obj.src, Call) and obj.src.name() in {
+        "list_length",
+        "matrix_length",
+        "tensor3d_length",
+    }
+
+
 def is_sret_arg(arg: ValueRef) -> bool:
     return b"sret" in arg.attributes
 
@@ -1385,8 +1395,17 @@ class VCVisitor:
             obj = op0 > op1  # type: ignore
         elif cond == "sle":
             obj = op0 <= op1  # type: ignore
-        elif cond == "slt" or cond == "ult":
+        elif cond == "slt":
             obj = op0 < op1  # type: ignore
+        elif cond == "ult":
+            # A negative integer is, as an unsigned integer, greater than all other integers
+            if is_nonnegative(op1):
+                obj = and_objects(op0 >= 0, op0 < op1)  # type: ignore
+            else:
+                obj = or_objects(
+                    and_objects(op0 >= 0, op1 < 0),  # type: ignore
+                    and_objects(op0 < op1, or_objects(op0 >= 0, op1 < 0)),  # type: ignore
+                )
         elif cond == "sge":
             obj = op0 >= op1  # type: ignore
         else:
-- 
2.43.0


From f04004edf13ebe3f5310ba4fa186c4e319b4a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 107/121] fix: reject calls of functions that are neither
 modelled nor declared uninterpreted

---
 metalift/frontend/llvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 87c8ced..e6769b5 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1518,6 +1518,9 @@ class VCVisitor:
             ret_type = parse_type_ref_to_obj(o.type)
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
+        elif not fn_name.startswith("~"):
+            # destructors don't change any value that can be used afterwards
+            raise Exception(f"Unsupported function {fn_name}")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
-- 
2.43.0


From 27d7bb48d6501f1dac53ed3c9df0b62f81a8a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 108/121] fix: reject writes through pointers and references,
 which don't change the variable they refer to

---
 metalift/frontend/llvm.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index e6769b5..53e880d 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -934,6 +934,12 @@ class VCVisitor:
         self.primitive_var_types = {}
         self.pointer_var_types = {}
 
+        # Names of the pointers which denote variables, and of those which denote elements of vectors
+        self.var_names: Set[str] = {arg.var_name() for arg in fn_args}
+        if fn_sret_arg is not None:
+            self.var_names.add(fn_sret_arg.var_name())
+        self.element_names: Set[str] = set()
+
     # Helper functions
     # Helper functions for reading and writing variables
     def read_operand_from_block(
@@ -1298,6 +1304,7 @@ class VCVisitor:
         default_val = obj_type.default_value()
 
         # o.name is the register name
+        self.var_names.add(o.name)
         self.store_var_to_block(block_name, o.name, default_val)
 
     def visit_load_instruction(self, block_name: str, o: ValueRef) -> None:
@@ -1315,7 +1322,16 @@ class VCVisitor:
         if not ops[0].type.is_pointer:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
         else:
+            # The state maps each variable to its value. We don't track which variables share memory.
+            pointer_name = ops[0].name
+            is_address = (
+                pointer_name in self.var_names or pointer_name in self.element_names
+            )
+            if is_address and ops[1].name != f"{pointer_name}.addr":
+                raise Exception(f"Unsupported reference to {pointer_name}: {o}")
             value_to_store = self.load_operand_from_block(block_name, ops[0])
+        if ops[1].name not in self.var_names:
+            raise Exception(f"Unsupported write through a pointer: {o}")
         self.store_operand_to_block(block_name, ops[1], value_to_store)
 
     def visit_add_instruction(self, block_name: str, o: ValueRef) -> None:
@@ -1371,6 +1387,14 @@ class VCVisitor:
         else:
             val = self.load_operand_from_block(block_name, ops[0])
             self.store_operand_to_block(block_name, o, val)
+            if ops[0].name in self.element_names or (
+                ops[0].name in self.var_names
+                and (
+                    self.fn_sret_arg is None
+                    or ops[0].name != self.fn_sret_arg.var_name()
+                )
+            ):
+                self.element_names.add(o.name)
 
     def visit_sext_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
@@ -1490,6 +1514,11 @@ class VCVisitor:
             raw_fn_name = get_raw_fn_name_from_call_instruction(o)
             full_demangled_name = get_full_demangled_name(raw_fn_name)
 
+            if fn_name == "push_back" and ops[0].name not in self.var_names:
+                raise Exception(f"Unsupported write through a pointer: {o}")
+            if fn_name == "operator[]":
+                self.element_names.add(o.name)
+
             rv = fn_models[fn_name](blk_state, {}, full_demangled_name, *ops[:-1])
 
             if rv.val is not None and o.name != "":
-- 
2.43.0


From a9d5fbb08b98ec8b589ec904603c0e59b06b7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 109/121] fix: return the value of the sret argument instead of
 an arbitrary value

---
 metalift/frontend/llvm.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 53e880d..a94695f 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1458,14 +1458,7 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
-            # This is because for list type, at first we assume it's an int list. We only infer the
-            # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
-                block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            ret_val = self.load_var_from_block(block_name, self.fn_sret_arg.var_name())
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From 033bd7f9c9fc6d03eed088ffdcda0d223f75bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 110/121] fix: assume the summary of a called function once,
 for the value that the call returns

---
 metalift/frontend/llvm.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a94695f..25880cd 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1491,7 +1491,6 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
@@ -1795,22 +1794,16 @@ class MetaliftFunc:
                     v.visit_llvm_block(b)
                     done = False
 
-        # TODO: now we should update the return type
-        # if sret_obj is not None:
-        #     self.fn_ret_type = sret_obj.type
-        #     import pdb; pdb.set_trace()
-        # ret_val = create_object(self.fn_ret_type, f"{self.fn_name}_rv")
-        # self.driver.add_var_object(ret_val)
-
-        # # TODO instead of constructin this call manually can we replace it with a method call.
-        # ps = call(f"{self.fn_name}_ps", Bool, *args, ret_val)
-
-        # self.driver.postconditions.append(cast(Bool, ps))
-
         for block in self.fn_blocks.values():
             self.driver.asserts.extend(v.fn_blocks_states[block.name].asserts)
 
-        return
+        # The functions that are called from now on can rely on the postcondition
+        post = self.driver.pred_tracker.predicates[self.fn_name]
+        ret_val = post.writes[0]
+        ps = call(post.name, Bool, *v.fn_args, ret_val)
+        self.driver.postconditions.append(cast(Bool, ps))
+
+        return ret_val
 
     T = TypeVar("T")
 
-- 
2.43.0


From 588f60b7494608c3b0f0007d3d0e5576f2b62695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 111/121] fix: don't confuse the values that a variable has in
 different loops or before a loop

---
 metalift/frontend/llvm.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 25880cd..6c21f45 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1043,6 +1043,19 @@ class VCVisitor:
         pointer_havocs.sort(key=lambda obj: obj.var_name())
         return primitive_havocs, pointer_havocs
 
+    # a havocked value must not be confused with an argument, or with the value that the same
+    # variable has in another loop
+    def fresh_value(self, havoc: Object) -> Object:
+        used = {v.name() for v in self.var_tracker.all()}
+        used.update(arg.var_name() for arg in self.fn_args)
+        name, i = havoc.var_name(), 0
+        while name in used:
+            i += 1
+            name = f"{havoc.var_name()}_{i}"
+        value = create_object(havoc.type, name)
+        self.driver.add_var_object(value)
+        return value
+
     # Functions to step through the blocks
     def preprocess(self, block: ValueRef) -> None:
         """Preprocess the entry block of the entire function. This includes setting up the postcondition, as well as writing all the arguments to the state of the entry block."""
@@ -1208,12 +1221,15 @@ class VCVisitor:
         header_loops = self.find_header_loops(block.name)
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
+            havocs = primitive_havocs + pointer_havocs
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                self.write_var_to_block(
+                    block.name, havoc.var_name(), self.fresh_value(havoc)
+                )
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
-            havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
+                self.store_var_to_block(
+                    block.name, havoc.var_name(), self.fresh_value(havoc)
+                )
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
-- 
2.43.0


From 7d98124524e32afdca07bdb298ca2c0a6bf15ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 112/121] fix: use the default of inv_grammars for loops that
 are not listed

---
 metalift/frontend/llvm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6c21f45..705d656 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1043,6 +1043,13 @@ class VCVisitor:
         pointer_havocs.sort(key=lambda obj: obj.var_name())
         return primitive_havocs, pointer_havocs
 
+    def find_inv_grammar(self, inv_name: str) -> Optional[InvGrammar]:
+        # inv_grammars may be a defaultdict
+        try:
+            return self.inv_grammars[inv_name]
+        except KeyError:
+            return None
+
     # a havocked value must not be confused with an argument, or with the value that the same
     # variable has in another loop
     def fresh_value(self, havoc: Object) -> Object:
@@ -1238,7 +1245,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.find_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
@@ -1275,7 +1282,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.find_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
-- 
2.43.0


From 797d4c8b06174ccef34842b3601d619970e06038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 113/121] fix: don't change the list that is passed to
 listAppend

---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 705d656..d25aaa2 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -160,7 +160,8 @@ def list_append(
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        # append works in place, but listAppend returns a new list
+        copy.deepcopy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From 513ab45c7410b82433e1f7b104f7f290f1fee6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 114/121] fix: keep the type of a vector when an element is
 appended

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index d25aaa2..a540479 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -233,7 +233,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From b70f19b9543e67af6b65be2de6560e6b74e1439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 115/121] fix: reject the sign extension of values that are
 read as booleans

---
 metalift/frontend/llvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a540479..a0e0119 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1423,6 +1423,8 @@ class VCVisitor:
     def visit_sext_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
         val = self.read_operand_from_block(block_name, ops[0])
+        if not isinstance(val, Int):
+            raise Exception("sign extension only supported for int objects!")
         self.write_operand_to_block(block_name, o, val)
 
     def visit_icmp_instruction(self, block_name: str, o: ValueRef) -> None:
-- 
2.43.0


From 4021a2a64f59b01f02f23b37fb1f8ec29d7a0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 116/121] fix: reject the truncation of integers to values that
 are read as booleans

---
 metalift/frontend/llvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a0e0119..dbdaeb4 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1572,6 +1572,9 @@ class VCVisitor:
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
         val = self.read_operand_from_block(block_name, ops[0])
+        if str(o.type) == "i8" and not isinstance(val, Bool):
+            # variables of type i8 are booleans, see parse_type_ref_to_obj
+            raise Exception("truncation to i8 only supported for bool objects!")
         self.write_operand_to_block(block_name, o, val)
 
 
-- 
2.43.0


From 5907578c8bf46e3e6dfb8abe778c9bc16d9e7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 117/121] fix: return a new value from each call of an analyzed
 Python function

---
 metalift/frontend/python.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 54b7a93..64aa006 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1019,7 +1019,15 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
+        # Each call returns a value of its own. The postconditions of several calls would otherwise be
+        # assumed for one variable, and no value might satisfy all of them.
+        used = {v.name() for v in self.driver.var_tracker.all()}
+        ret_name = f"{self.name}_rv"
+        num_calls = 0
+        while ret_name in used:
+            num_calls += 1
+            ret_name = f"{self.name}_rv_{num_calls}"
+        ret_val = create_object(object_type, ret_name)
         self.driver.add_var_object(ret_val)
 
         ps = call(f"{self.name}_ps", Bool, *args, ret_val)
-- 
2.43.0


From 0edca6f0acc0f4de277921c55ac49fd6f3df13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 118/121] fix: name the arguments of invariants after the
 parameters of the analyzed Python function

---
 metalift/frontend/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 64aa006..26d7457 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -491,7 +491,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
             o=o,
-            args=self.args,
+            # the state is read by the names of the parameters, which the arguments may not share
+            args=[create_object(to_object_type(type), name) for name, type in formals],
             writes=write_objects,
             reads=read_objects,
             in_scope=in_scope_objects,
-- 
2.43.0


From ac396b0d7dcc7540b4344f0b24b38107b281755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 119/121] fix: pass relaxed to grammars of the Python front end
 that take it

---
 metalift/frontend/python.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 26d7457..bf82019 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1,4 +1,5 @@
 import copy
+import inspect
 import re
 from typing import Any, Callable, Dict, List, Optional, Set, Tuple, TypeVar, Union, cast
 
@@ -239,7 +240,13 @@ class Predicate:
         return cast(Bool, call_ret)
 
     def gen_Synth(self) -> Synth:
-        body = self.grammar(self.writes, self.reads, self.in_scope).src
+        # Grammars for the LLVM front end also take whether they should be relaxed
+        kwargs = (
+            {"relaxed": False}
+            if "relaxed" in inspect.signature(self.grammar).parameters
+            else {}
+        )
+        body = self.grammar(self.writes, self.reads, self.in_scope, **kwargs).src
         return Synth(self.name, body, *get_object_exprs(*self.args))
 
 
-- 
2.43.0


From c6b4098372de50be1df591b4c0445230512dd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 120/121] fix: offer the number of columns as a slice bound in
 the outer invariants of general search spaces

---
 metalift/utils/tenspiler/tenspiler_common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index b936c39..004bff3 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -1201,9 +1201,9 @@ def get_matrix_computation_general_search_space(
         base, active = reads
         lower_bound = Int(0)
         upper_bound = base.len()
-        int_var = choose(lower_bound, upper_bound, row, *int_vars).maybe_relaxed(
-            relaxed
-        )
+        int_var = choose(
+            lower_bound, upper_bound, base[0].len(), row, *int_vars
+        ).maybe_relaxed(relaxed)
         slice_index = get_int_expr_eq_or_below_depth(int_var, depth)
         matrix = choose(base, active)
         matrix = matrix[slice_index:slice_index].col_slice(slice_index, slice_index)
@@ -1819,7 +1819,9 @@ def get_dissolve_general_search_space(
         matrix = choose(base, active)
         lower_bound = Int(0)
         upper_bound = base.len()
-        slice_index = choose(lower_bound, upper_bound, row).maybe_relaxed(relaxed)
+        slice_index = choose(
+            lower_bound, upper_bound, base[0].len(), row
+        ).maybe_relaxed(relaxed)
         matrix = matrix[slice_index:slice_index].col_slice(slice_index, slice_index)
         matrix = choose(matrix, matrix.transpose())
         return and_objects(
-- 
2.43.0


From 798ad613c8c04dcb92cc7238ddc876c946d1696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 121/121] fix: a function of the LLVM driver is not synthesized
 before synthesis delivers it

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index dbdaeb4..fece9b7 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1781,7 +1781,7 @@ class MetaliftFunc:
         self.target_lang_fn = target_lang_fn
         self.inv_grammars = inv_grammars
         self.ps_grammar = ps_grammar
-        self.synthesized = []
+        self.synthesized = None
 
         # Parse and process loops
         raw_loops: List[RawLoopInfo] = parse_loops(loops_filepath, fn_ref.name)
-- 
2.43.0


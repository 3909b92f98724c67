From 6e7250741c6b9ab93ddc69df3e07d9805690859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:27 +0000
Subject: [PATCH 01/32] fix: store copies of values in variables

Assigning a value to a variable and then modifying the variable in place
also changed interpreter constants, parse tree literals, and elements of
other variables that happened to share the object.
---
 execution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index d1c0b2b..83e8521 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,9 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            # Store a copy so that later changes to this variable can't
+            # affect whatever value the rval came from (and vice versa)
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +390,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
-- 
2.43.0


From 073fed8d6afeaf9998977a2d03be5951d8753195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:27 +0000
Subject: [PATCH 02/32] fix: copy arguments into a function's local variables

Index assignment to a local argument variable modified the caller's value.
---
 execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 83e8521..15f93dd 100644
--- a/execution.py
+++ b/execution.py
@@ -4386,7 +4386,8 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                # Modifying a local variable must not modify the caller's value
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
-            self.vars["g"] = List(argList)
+            self.vars["g"] = List(arg.copy() for arg in argList)
 
-- 
2.43.0


From 15fa6acd299940a49fe757534cf931d54c6ae2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 03/32] fix: copy program arguments into global variables

Index assignment to \a and friends modified the program's argument list,
which then leaked into the other copies of the argument.
---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 15f93dd..e8f3a52 100644
--- a/execution.py
+++ b/execution.py
@@ -616,9 +616,9 @@ class ProgramState:
             "XX": Pattern("."),
             "XY": Pattern("[aeiouy]"),
             }
-        self.vars["\\g"] = List(self.args)
+        self.vars["\\g"] = List(arg.copy() for arg in self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg
+            self.vars["\\" + name] = arg.copy()
         if self.mainFunction is not None:
             self.vars["\\f"] = self.mainFunction
         else:
-- 
2.43.0


From 351880ada6b93bb010c8579312decf42d8383e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 04/32] fix: make unary WEAVE handle all operands without
 modifying them

It replaced nil items in its operand, crashed on an empty list, and returned
Python's None for operands it does not support.
---
 execution.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index e8f3a52..5cbea23 100644
--- a/execution.py
+++ b/execution.py
@@ -4190,19 +4190,19 @@ class ProgramState:
             elif isinstance(iterables, (List, Range)):
                 result = []
                 allScalar = True
-                for i, iterable in enumerate(iterables):
+                for iterable in iterables:
                     if isinstance(iterable, (List, Range)):
                         allScalar = False
-                    elif iterable is nil:
-                        # Replace nil with empty string
-                        iterables[i] = SCALAR_EMPTY
-                    elif isinstance(iterable, Scalar):
+                    elif iterable is nil or isinstance(iterable, Scalar):
                         pass
                     else:
                         self.err.warn("Cannot weave object of type",
                                       type(iterable))
                         return nil
-                for i in range(max(map(len, iterables))):
+                # Weave using empty string in place of nil
+                iterables = [SCALAR_EMPTY if iterable is nil else iterable
+                             for iterable in iterables]
+                for i in range(max(map(len, iterables), default=0)):
                     for iterable in iterables:
                         if i < len(iterable):
                             result.append(iterable[i])
@@ -4210,6 +4210,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From bb3cb9b193c750cf019e0a587c05a4202e78983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 05/32] fix: check the right operand's type in INCLRANGE

The left operand was checked twice, so 1\,[2] returned Python's None.
---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 5cbea23..9f1ce84 100644
--- a/execution.py
+++ b/execution.py
@@ -1895,7 +1895,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From 5ddb645189a2a096d62994ee791958ef0dae52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 06/32] fix: store values, not lvalues, in the result of a
 mapped operator

Y*[1 2] built a List of Lval objects.
---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 9f1ce84..86c5cfc 100644
--- a/execution.py
+++ b/execution.py
@@ -687,7 +687,7 @@ class ProgramState:
             newReturnExpr = [operator, returnExpr]
             return Block(statements, newReturnExpr)
         elif isinstance(iterable, PipIterable):
-            return List(self.evaluate([normalOp, item]) for item in iterable)
+            return List(self.getRval([normalOp, item]) for item in iterable)
         elif iterable is nil:
             return nil
         else:
-- 
2.43.0


From 3a862336fb598000ee9d1e12f4d560d9e3012d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 07/32] fix: undefined names in warning messages

---
 execution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index 86c5cfc..1154342 100644
--- a/execution.py
+++ b/execution.py
@@ -378,7 +378,7 @@ class ProgramState:
                 try:
                     currentVal = currentVal[index]
                 except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                    self.err.warn(f"Invalid index into {currentVal!r}:", index)
                     return
                 
             # Final level--do the assignment
@@ -2256,7 +2256,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4314,7 +4314,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 78c54056262cee1467e678306fe0b09cbdac8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 08/32] fix: warn on assignment to an index of something
 unsubscriptable

Assigning through an index that leads to a nil, Range, Pattern or Block
aborted the program with an implementation error.
---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 1154342..781a8ea 100644
--- a/execution.py
+++ b/execution.py
@@ -377,7 +377,7 @@ class ProgramState:
             for index in lval.sliceList[:-1]:
                 try:
                     currentVal = currentVal[index]
-                except IndexError:
+                except (IndexError, TypeError):
                     self.err.warn(f"Invalid index into {currentVal!r}:", index)
                     return
                 
@@ -391,7 +391,7 @@ class ProgramState:
             index = lval.sliceList[-1]
             try:
                 currentVal[index] = rval.copy()
-            except (IndexError, ZeroDivisionError):
+            except (IndexError, TypeError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
         else:
-- 
2.43.0


From 93905e2bdf2b7ce4d6adef84cee973efbc9f04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 09/32] fix: warn and return nil for operands outside an
 operator's domain

CS0, CT0, C-1, "ab"CB-1, RC"", RR0 and 5RR5 crashed with a Python
traceback instead.
---
 execution.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 781a8ea..effd220 100644
--- a/execution.py
+++ b/execution.py
@@ -1121,7 +1121,11 @@ class ProgramState:
 
     def CHR(self, rhs):
         if isinstance(rhs, Scalar):
-            result = chr(int(rhs))
+            try:
+                result = chr(int(rhs))
+            except (ValueError, OverflowError):
+                self.err.warn("Invalid character code:", rhs)
+                return nil
             return Scalar(result)
         elif isinstance(rhs, Pattern):
             # Given a Pattern, C wraps the regex in a capturing group
@@ -1133,6 +1137,9 @@ class ProgramState:
     def COMBINATIONS(self, iterable, num):
         """Return List of all ways to choose num items from iterable."""
         if isinstance(iterable, PipIterable) and isinstance(num, Scalar):
+            if int(num) < 0:
+                self.err.warn("Cannot choose a negative number of items:", num)
+                return nil
             result = itertools.combinations(iterable, int(num))
             if isinstance(iterable, Scalar):
                 return List(self.JOIN(comb) for comb in result)
@@ -1159,7 +1166,11 @@ class ProgramState:
 
     def COSEC(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.sin(rhs.toNumber()))
+            try:
+                return Scalar(1/math.sin(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Cannot take COSEC of", rhs)
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COSEC:", type(rhs))
             return nil
@@ -1173,7 +1184,11 @@ class ProgramState:
 
     def COTAN(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.tan(rhs.toNumber()))
+            try:
+                return Scalar(1/math.tan(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Cannot take COTAN of", rhs)
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COTAN:", type(rhs))
             return nil
@@ -3077,7 +3092,12 @@ class ProgramState:
 
     def RANDCHOICE(self, iterable):
         if isinstance(iterable, PipIterable):
-            index = random.randrange(len(iterable))
+            try:
+                index = random.randrange(len(iterable))
+            except ValueError:
+                # Raised for empty iterables and infinite Ranges
+                self.err.warn("Cannot choose randomly from", iterable)
+                return nil
             return iterable[index]
         else:
             self.err.warn("Unimplemented argtype for RANDCHOICE:",
@@ -3091,6 +3111,9 @@ class ProgramState:
             else:
                 lhs = int(lhs)
             rhs = int(rhs)
+            if lhs >= rhs:
+                self.err.warn("Empty range for RANDRANGE:", lhs, "to", rhs)
+                return nil
             return Scalar(random.randrange(lhs, rhs))
         else:
             self.err.warn("Unimplemented argtypes for RANDRANGE:",
@@ -3100,6 +3123,9 @@ class ProgramState:
     def RANDRANGETO(self, rhs):
         """Unary version of RANDRANGE."""
         if isinstance(rhs, Scalar):
+            if int(rhs) <= 0:
+                self.err.warn("Empty range for RANDRANGETO:", rhs)
+                return nil
             return Scalar(random.randrange(int(rhs)))
         else:
             self.err.warn("Unimplemented argtype for RANDRANGETO:",
-- 
2.43.0


From b58cab1530d1271c860c63fdccb55dd31da388b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 10/32] fix: handle Ranges and invalid indices in REPLACEAT

Replacing in an empty iterable, with an empty List of replacements, or in a
Range crashed.
---
 execution.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index effd220..ba3a798 100644
--- a/execution.py
+++ b/execution.py
@@ -3273,13 +3273,23 @@ class ProgramState:
     def REPLACEAT(self, lhs, index, new):
         if (isinstance(lhs, PipIterable)
                 and isinstance(index, PipIterable)):
-            result = lhs.copy()
+            if isinstance(lhs, Range):
+                if not lhs.isFinite():
+                    self.err.warn("Cannot REPLACEAT in an infinite Range")
+                    return nil
+                # Can't modify a Range in place, so cast it to a List
+                result = List(lhs)
+            else:
+                result = lhs.copy()
             if isinstance(index, List):
                 if isinstance(new, List):
                     # Both are lists--replace at corresponding indices
                     # with corresponding values
                     # If the new list is shorter than the index list, cycle
                     # the replacement values as necessary
+                    if index and not new:
+                        self.err.warn("No replacement values for REPLACEAT")
+                        return nil
                     for i, eachIndex in enumerate(index):
                         result = self.REPLACEAT(result, eachIndex, new[i])
                     return result
@@ -3293,7 +3303,11 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
-                result[index] = new
+                try:
+                    result[index] = new.copy()
+                except (IndexError, TypeError, ZeroDivisionError):
+                    self.err.warn(f"Invalid index into {lhs!r}:", index)
+                    return nil
                 return result
         elif index is nil:
             # Replacing at nil index leaves lhs unchanged
-- 
2.43.0


From 601d09f7712ca1c76b7cd1f03faf7ef7bb1c82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 11/32] fix: warn when an operator needs the length of an
 infinite Range

GROUP, CHOP, SPLITAT, MAPENUMERATE and WEAVE crashed instead.
---
 execution.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/execution.py b/execution.py
index ba3a798..600a6d7 100644
--- a/execution.py
+++ b/execution.py
@@ -1090,6 +1090,9 @@ class ProgramState:
             # Chop by each rhs and return a list of iterables
             return List(self.CHOP(iterable, count) for count in rhs)
         if isinstance(iterable, PipIterable) and isinstance(rhs, Scalar):
+            if not iterable.isFinite():
+                self.err.warn("Cannot CHOP an infinite Range")
+                return nil
             result = List()
             chunks = rhs.toNumber()
             if chunks > 0:
@@ -1805,6 +1808,9 @@ class ProgramState:
             # Group by each rhs and return a list of iterables
             return List(self.GROUP(iterable, jump) for jump in rhs)
         if isinstance(iterable, PipIterable) and isinstance(rhs, Scalar):
+            if not iterable.isFinite():
+                self.err.warn("Cannot GROUP an infinite Range")
+                return nil
             result = List()
             jump = rhs.toNumber()
             if jump > 0:
@@ -2245,6 +2251,9 @@ class ProgramState:
             # The arguments are reversible to enable things like lME:f
             function, iterable = iterable, function
         if isinstance(function, Block) and isinstance(iterable, PipIterable):
+            if not iterable.isFinite():
+                self.err.warn("Cannot MAPENUMERATE an infinite Range")
+                return nil
             return self.MAPZIP(function, Range(len(iterable)), iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPENUMERATE:",
@@ -3695,6 +3704,9 @@ class ProgramState:
                 return nil
 
         if isinstance(iterable, PipIterable) and isinstance(indices, list):
+            if not iterable.isFinite():
+                self.err.warn("Cannot SPLITAT an infinite Range")
+                return nil
             result = List()
             prevIndex = 0
             length = len(iterable)
@@ -4228,11 +4240,17 @@ class ProgramState:
                 # Weaving the characters just results in the same thing anyway
                 return iterables
             elif isinstance(iterables, (List, Range)):
+                if not iterables.isFinite():
+                    self.err.warn("Cannot WEAVE an infinite Range")
+                    return nil
                 result = []
                 allScalar = True
                 for iterable in iterables:
                     if isinstance(iterable, (List, Range)):
                         allScalar = False
+                        if isinstance(iterable, Range) and not iterable.isFinite():
+                            self.err.warn("Cannot WEAVE an infinite Range")
+                            return nil
                     elif iterable is nil or isinstance(iterable, Scalar):
                         pass
                     else:
@@ -4262,6 +4280,9 @@ class ProgramState:
                 iterable2 = SCALAR_EMPTY
             if (isinstance(iterable1, PipIterable)
                     and isinstance(iterable2, PipIterable)):
+                if not (iterable1.isFinite() and iterable2.isFinite()):
+                    self.err.warn("Cannot WEAVE an infinite Range")
+                    return nil
                 result = []
                 for i in range(max(len(iterable1), len(iterable2))):
                     if i < len(iterable1):
-- 
2.43.0


From 3cfe621aafdab62047b349729c498bc5625b3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 12/32] fix: allow pairing a List with an infinite Range

[1 2]*1,() crashed trying to take the length of the Range.
---
 execution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/execution.py b/execution.py
index 600a6d7..18d32ab 100644
--- a/execution.py
+++ b/execution.py
@@ -203,6 +203,11 @@ class ProgramState:
                         # But zip() doesn't catch all of the items if one list
                         # is longer than the other, so add the remaining items
                         # unchanged
+                        if not all(arg.isFinite() for arg in args):
+                            # Can't add infinitely many remaining items
+                            self.err.warn("Ignoring remaining items of "
+                                          "infinite Range")
+                            return List(result)
                         lengths = tuple(map(len, args))
                         if lengths[0] > lengths[1]:
                             result.extend(args[0][lengths[1]:])
-- 
2.43.0


From 8cee26a39ab68573627e25176d5f41a1d622db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 13/32] fix: close a function's scope when it ends with an
 error

After a fatal error inside a function, the REPL kept using the function's
local variables.
---
 execution.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index 18d32ab..2b5814f 100644
--- a/execution.py
+++ b/execution.py
@@ -410,18 +410,21 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            # Even if there was a fatal error, the REPL can keep going
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From ced52c1b8a28ecb540e76b01cca4c580d0920a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 14/32] fix: RECURSE outside any function

In the REPL it crashed the interpreter.
---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index 2b5814f..0be3423 100644
--- a/execution.py
+++ b/execution.py
@@ -3176,6 +3176,10 @@ class ProgramState:
 
     def RECURSE(self, rhs):
         "Call the current function recursively with rhs as its argument."
+        if self.localScope.function is None:
+            # This happens at the outermost level of the REPL
+            self.err.warn("No current function for RECURSE to call")
+            return nil
         return self.functionCall(self.localScope.function,
                                  [rhs])
 
-- 
2.43.0


From 317e102fd25aedc408f9fef82a0d573bcb79997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 15/32] fix: compare Range lower bounds consistently

,5=0,5 was false although both ,5<=0,5 and ,5>=0,5 were true and ,5<0,5 and
,5>0,5 were false.
---
 execution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index 0be3423..d1ab08e 100644
--- a/execution.py
+++ b/execution.py
@@ -2509,8 +2509,9 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             result = lhs.toNumber() == rhs.toNumber()
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-            # Just use the Range class's __eq__
-            result = lhs == rhs
+            # A lower bound of nil is numerically equal to 0
+            result = ((lhs.getLower() or 0) == (rhs.getLower() or 0)
+                      and lhs.getUpper() == rhs.getUpper())
         elif (isinstance(lhs, (List, Range))
               and isinstance(rhs, (List, Range))):
             try:
@@ -2750,7 +2751,8 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             result = lhs.toNumber() != rhs.toNumber()
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-            result = lhs != rhs
+            result = ((lhs.getLower() or 0) != (rhs.getLower() or 0)
+                      or lhs.getUpper() != rhs.getUpper())
         elif (isinstance(lhs, (List, Range))
               and isinstance(rhs, (List, Range))):
             try:
-- 
2.43.0


From be41c31ada4efda83ae7a377626270a6e685f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 16/32] fix: take meta-operators into account when comparing
 Blocks

{a+1}=={a+:1} was true: operators were compared by their bare symbol.
---
 operators.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/operators.py b/operators.py
index b739261..2915874 100644
--- a/operators.py
+++ b/operators.py
@@ -59,6 +59,19 @@ class Operator(tokens.Token):
         return (f"Operator({self},{self.function},{self.arity},"
                 f"{self.precedence},{self.associativity})")
 
+    def __eq__(self, rhs):
+        if isinstance(rhs, Operator):
+            # Operators with different meta-operators applied are different
+            return (self._text == rhs._text
+                    and self.arity == rhs.arity
+                    and self.assign == rhs.assign
+                    and self.map == rhs.map
+                    and self.fold == rhs.fold
+                    and self.scan == rhs.scan)
+        return super().__eq__(rhs)
+
+    __hash__ = tokens.Token.__hash__
+
     def copy(self):
         cpy = Operator(self._text,
                        self.function,
-- 
2.43.0


From 2195e58044c883ff8c1db8abb0830a8044f303ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 17/32] fix: arguments that are empty or a variable with -x

An empty argument crashed the interpreter, and a variable name became an lvalue
inside the program's argument list.
---
 pip.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pip.py b/pip.py
index 80b5c11..e9bcf88 100644
--- a/pip.py
+++ b/pip.py
@@ -7,7 +7,7 @@ import pprint
 import version
 from scanning import scan, addSpaces
 from parsing import parse
-from ptypes import Scalar
+from ptypes import Scalar, nil
 from execution import ProgramState
 from errors import FatalError, BadSyntax, IncompleteSyntax
 
@@ -292,10 +292,14 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise
+            if not arg_parse_tree:
+                # An argument without any code in it has no value
+                program_args.append(nil)
+                continue
             parsed_arg = arg_parse_tree[0]
             try:
-                program_args.append(state.evaluate(parsed_arg))
-            except (FatalError, RuntimeError) as err:
+                program_args.append(state.getRval(parsed_arg))
+            except Exception as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
                 print(f"Fatal error while evaluating argument {arg!r}:",
-- 
2.43.0


From 4b6e4350af441677a45cd7980f57e549e89657cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 18/32] fix: contain all execution errors in the REPL and
 interpreter

Any Python exception from an operator ended the REPL session with a traceback,
as did end of input at the prompt.
---
 pip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pip.py b/pip.py
index e9bcf88..68f02e3 100644
--- a/pip.py
+++ b/pip.py
@@ -318,7 +318,7 @@ def pip(code=None, argv=None, interactive=True):
         print("Executing...")
     try:
         state.executeProgram(parse_tree, program_args)
-    except (FatalError, RuntimeError) as err:
+    except Exception as err:
         # RuntimeError probably means we exceeded Python's max
         # recursion depth
         print("Fatal error during execution:", err, file=sys.stderr)
@@ -388,13 +388,13 @@ def repl(list_format=None, warnings=False):
                     if result is not None:
                         state.PRINT(state.REPR(result))
                         state.updateHistoryVars(result)
-            except (FatalError, RuntimeError) as err:
+            except Exception as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (EOFError, KeyboardInterrupt):
         pass
     print("Bye!")
 
-- 
2.43.0


From 58ca4d28a45d3fda0910773a4917cde75f9279de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 19/32] fix: warn when LOOP is given an infinite Range

---
 execution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/execution.py b/execution.py
index d1ab08e..2f27ce3 100644
--- a/execution.py
+++ b/execution.py
@@ -534,6 +534,9 @@ class ProgramState:
         elif isinstance(count, Scalar):
             count = int(count)
         elif isinstance(count, (List, Range)):
+            if not count.isFinite():
+                self.err.warn("Can't use infinite Range as count for LOOP")
+                return
             count = len(count)
         else:
             self.err.warn("Unimplemented argtype for LOOP:",
-- 
2.43.0


From 98fb470d887e421e2aed4e424ff01576e6d45b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:21 +0000
Subject: [PATCH 20/32] fix: keep a trailing ; or space character when
 unparsing a Block

---
 parsing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parsing.py b/parsing.py
index ab910da..192fe75 100644
--- a/parsing.py
+++ b/parsing.py
@@ -325,8 +325,9 @@ def parseOperand(tokenList):
 
 def unparse(tree, statementSep=""):
     "Convert parse tree back to string of code."
-    code = ""
+    statements = []
     for statement in tree:
+        code = ""
         if isinstance(statement, list):
             # A parse tree
             if isinstance(statement[0], operators.Operator):
@@ -345,9 +346,10 @@ def unparse(tree, statementSep=""):
         else:
             # Not a parse tree, probably a literal or name
             code += unparseExpr(statement, statementSep)
-        code += "; "
-        code += statementSep
-    return code.strip("; " + statementSep)
+        statements.append(code)
+    # Don't strip anything from the ends: a statement might end with a
+    # character literal such as ';
+    return ("; " + statementSep).join(statements)
 
 def unparseExpr(tree, statementSep):
     "Convert parse tree of expression back to string of code."
-- 
2.43.0


From 00d9657d2e254ab66bd8fbeac77779e5facea333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 21/32] fix: warn when the argument list for EVAL is a Block or
 infinite

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 2f27ce3..b5a53f1 100644
--- a/execution.py
+++ b/execution.py
@@ -1432,7 +1432,8 @@ class ProgramState:
                 self.err.die(f"Parsing error while evaluating {code!r}:",
                              err)
             code = self.BLOCK(tree)
-        if isinstance(code, Block) and argList is not None:
+        if (isinstance(code, Block) and argList is not None
+                and not isinstance(argList, Block) and argList.isFinite()):
             return self.functionCall(code, argList)
         elif isinstance(code, Block) and argList is None:
             # Not a function call--just run the block at current scope
-- 
2.43.0


From 33cef3e22ad68999b20f6bc915f0f53c49f8ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 22/32] fix: separate the two expressions of LR when showing
 code

The text of a function containing LR read the second expression as part of
the first when it started with a symbol that is also a binary operator.
---
 parsing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsing.py b/parsing.py
index 192fe75..9ff4e65 100644
--- a/parsing.py
+++ b/parsing.py
@@ -341,6 +341,10 @@ def unparse(tree, statementSep=""):
                         argtype = "CODE"
                     if argtype == "LOOPVAR" or argtype == "EXPR":
                         code += " " + unparseExpr(arg, statementSep)
+                        if statement[0].argtypes[i:i+2] == ["EXPR", "EXPR"]:
+                            # Keep the following expression from being
+                            # parsed as part of this one
+                            code += ";"
                     elif argtype == "CODE":
                         code += " {" + unparse(arg, statementSep) + "}"
         else:
-- 
2.43.0


From 0e34c668fd9cd47c9f9d47a4adf3af85f8f342bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:39 +0000
Subject: [PATCH 23/32] fix: show the : operator with the : meta-operator so
 that it scans

The text ":" + ":" is the swap operator.
---
 operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operators.py b/operators.py
index 2915874..3e25af3 100644
--- a/operators.py
+++ b/operators.py
@@ -52,6 +52,10 @@ class Operator(tokens.Token):
             else:
                 opString += "*"
         if self.assign:
+            if self._text + ":" in operators and not self.map:
+                # Likewise, :: with the first : as operator would be scanned
+                # as the swap operator
+                opString += " "
             opString += ":"
         return opString
 
-- 
2.43.0


From e7b310d4f9f7456d9aa2ab86e98988e9600f0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:44 +0000
Subject: [PATCH 24/32] fix: CH no longer gives an extra chunk through rounding
 errors

---
 execution.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/execution.py b/execution.py
index b5a53f1..289087e 100644
--- a/execution.py
+++ b/execution.py
@@ -1106,24 +1106,26 @@ class ProgramState:
                 return nil
             result = List()
             chunks = rhs.toNumber()
+            length = len(iterable)
+            # Each boundary is calculated from its own number, so that rounding
+            # errors can't add up to an extra chunk
+            i = 0
             if chunks > 0:
-                index = 0
-                jump = len(iterable) / chunks
-                while index < len(iterable):
-                    endIndex = min(index + jump, len(iterable))
+                while length > 0 and i < chunks:
+                    index = i * length / chunks
+                    endIndex = min((i + 1) * length / chunks, length)
                     chunk = iterable[math.floor(index):math.floor(endIndex)]
                     result.append(chunk)
-                    index += jump
+                    i += 1
                 return result
             elif chunks < 0:
                 # With a negative chunk number, chop from right to left
-                index = len(iterable)
-                jump = len(iterable) / chunks
-                while index > 0:
-                    startIndex = max(index + jump, 0)
+                while length > 0 and i < -chunks:
+                    index = length + i * length / chunks
+                    startIndex = max(length + (i + 1) * length / chunks, 0)
                     chunk = iterable[math.ceil(startIndex):math.ceil(index)]
                     result.append(chunk)
-                    index += jump
+                    i += 1
                 return result
             else:
                 self.err.warn("Cannot CHOP into 0 slices")
-- 
2.43.0


From 6255ebf59ea11bb2aabb18ca6736b15bfdd25bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 25/32] fix: stripping by a pattern with alternatives removed
 matches from the middle of the text and ignored flags

"xbx" || `a|b` gave xx, because ^ and $ applied to the outer alternatives only.
---
 execution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 289087e..5e8fb16 100644
--- a/execution.py
+++ b/execution.py
@@ -2179,7 +2179,8 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})",
+                                       extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3518,7 +3519,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3845,12 +3846,13 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})",
+                                       extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
-- 
2.43.0


From 3d85792ad5e21bc33b0b8c68b74a498975becf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:05 +0000
Subject: [PATCH 26/32] fix: splitting on a pattern whose capture group takes
 no part in a match gave the text None

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 5e8fb16..e7d347a 100644
--- a/execution.py
+++ b/execution.py
@@ -3694,8 +3694,8 @@ class ProgramState:
                     result = (Scalar(char) for char in str(string))
                 else:
                     sep = sep.asSeparator()
-                    result = (Scalar(substr)
-                              for substr in sep.split(str(string)))
+                    # Capture groups that don't participate in a match are nil
+                    result = map(ptypes.toPipType, sep.split(str(string)))
             else:
                 result = (Scalar(substr) for substr in str(string).split(sep))
             return List(result)
-- 
2.43.0


From e6391845eca53c5e857b42bc184cd050239634b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:56 +0000
Subject: [PATCH 27/32] fix: repeating a pattern with X lost its flags

---
 execution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index e7d347a..707b80a 100644
--- a/execution.py
+++ b/execution.py
@@ -3909,7 +3909,9 @@ class ProgramState:
         if isinstance(lhs, (Scalar, Pattern)) and isinstance(rhs, Scalar):
             string = str(lhs)
             num = int(rhs)
-            return type(lhs)(string*num)
+            if isinstance(lhs, Pattern):
+                return Pattern(string*num, lhs._flags)
+            return Scalar(string*num)
         else:
             self.err.warn("Unimplemented argtypes for STRMUL:",
                           type(lhs), "and", type(rhs))
-- 
2.43.0


From acdb60ea863e09a24da11064b79f68b0c9d241e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 28/32] fix: print a range inside a list on one line with -l
 and -S, like a list

---
 ptypes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..0dc125e 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -356,7 +356,8 @@ class List(PipIterable):
         elif self.outFormat == "l":
             # Each item in the list is a line, which in turn is joined on
             # empty string
-            return "\n".join(i.joined("") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined("") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
         elif self.outFormat == "P":
             # Each item in the list is a line, which in turn is repr'd
@@ -364,12 +365,13 @@ class List(PipIterable):
         elif self.outFormat == "S":
             # Each item in the list is a line, which in turn is joined on
             # space
-            return "\n".join(i.joined(" ") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined(" ") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
 
     def joined(self, separator):
         return separator.join(i.joined(separator)
-                              if isinstance(i, List)
+                              if isinstance(i, (List, Range))
                               else str(i)
                               for i in self._value)
 
@@ -531,6 +533,12 @@ class Range(PipIterable):
             # Infinite Ranges have to use the repr
             return repr(self)
 
+    def joined(self, separator):
+        if self.isFinite():
+            return List(self).joined(separator)
+        else:
+            return repr(self)
+
     def __repr__(self):
         lower = self._lower if self._lower is not None else "()"
         upper = self._upper if self._upper is not None else "()"
-- 
2.43.0


From a01087c36875a6239272d51033111c910dea495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:13 +0000
Subject: [PATCH 29/32] fix: report code nested too deeply to parse instead of
 crashing

---
 pip.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pip.py b/pip.py
index 68f02e3..1af603e 100644
--- a/pip.py
+++ b/pip.py
@@ -257,10 +257,11 @@ def pip(code=None, argv=None, interactive=True):
         print()
     try:
         parse_tree = parse(tokens)
-    except FatalError as err:
+    except (FatalError, RecursionError) as err:
+        # RecursionError means the code is nested too deeply to parse
         print("Fatal error while parsing:", err, file=sys.stderr)
         print("Execution aborted.", file=sys.stderr)
-        raise
+        raise FatalError(str(err))
     if options.verbose:
         pprint.pprint(parse_tree)
         print()
@@ -287,11 +288,11 @@ def pip(code=None, argv=None, interactive=True):
                 raise
             try:
                 arg_parse_tree = parse(arg_tokens)
-            except FatalError as err:
+            except (FatalError, RecursionError) as err:
                 print(f"Fatal error while parsing argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
-                raise
+                raise FatalError(str(err))
             if not arg_parse_tree:
                 # An argument without any code in it has no value
                 program_args.append(nil)
@@ -348,10 +349,11 @@ def repl(list_format=None, warnings=False):
                         # incomplete string/expression/command; read
                         # another line, add it to the code, and try again
                         code += input(".. ") + "\n"
-            except BadSyntax as err:
+            except (BadSyntax, RecursionError) as err:
                 # Error while scanning or parsing that cannot be
-                # resolved by adding more code to the end; give up
-                # on this code and start over
+                # resolved by adding more code to the end (or code that
+                # is nested too deeply to parse); give up on this code
+                # and start over
                 print("Syntax error:", err, file=sys.stderr)
                 continue
             # Some Pip comments are used as repl commands
-- 
2.43.0


From 15b435b3405e85adc8cd7ab8f4d4fbe1f3681353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:14 +0000
Subject: [PATCH 30/32] fix: halving and rounding large integers lost digits

---
 execution.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 707b80a..7c72838 100644
--- a/execution.py
+++ b/execution.py
@@ -1064,6 +1064,9 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Integer division is exact for large numbers too
+                    return Scalar(-(-lhs // precision) * precision)
                 return Scalar(math.ceil(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -1734,6 +1737,9 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Integer division is exact for large numbers too
+                    return Scalar(lhs // precision * precision)
                 return Scalar(math.floor(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -1855,7 +1861,7 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            return Scalar(math.floor(rhs.toNumber() // 2))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1864,7 +1870,7 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            return Scalar(math.ceil(-(-rhs.toNumber() // 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
@@ -3458,6 +3464,13 @@ class ProgramState:
                     return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Integer division is exact for large numbers too;
+                    # ties go to the even multiple, as in math.remainder
+                    multiple, rest = divmod(lhs, precision)
+                    if rest * 2 + multiple % 2 > precision:
+                        multiple += 1
+                    return Scalar(multiple * precision)
                 return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
@@ -3484,6 +3497,10 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Integer division is exact for large numbers too
+                    result = abs(lhs) // precision * precision
+                    return Scalar(result if lhs > 0 else -result)
                 return Scalar(math.trunc(lhs / precision) * precision)
         else:
             if rhs is None:
-- 
2.43.0


From 35b04da68ef1248115f7912f1d488970b4c9091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:01 +0000
Subject: [PATCH 31/32] fix: subtracting a fraction from a range subtracted its
 whole part

---
 execution.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index 7c72838..82af135 100644
--- a/execution.py
+++ b/execution.py
@@ -3950,12 +3950,15 @@ class ProgramState:
             result = lhs.toNumber() - rhs.toNumber()
             return Scalar(result)
         elif isinstance(lhs, Range) and isinstance(rhs, Scalar):
-            lower = lhs.getLower() or 0
-            upper = lhs.getUpper()
-            lower -= int(rhs)
-            if upper is not None:
-                upper -= int(rhs)
-            return Range(lower, upper)
+            if rhs.toNumber() == int(rhs):
+                lower = lhs.getLower() or 0
+                upper = lhs.getUpper()
+                lower -= int(rhs)
+                if upper is not None:
+                    upper -= int(rhs)
+                return Range(lower, upper)
+            else:
+                return List(self.SUB(item, rhs) for item in lhs)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-- 
2.43.0


From 1d0aabaaa424310bc796ae3d9ca635ec72b5c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:04 +0000
Subject: [PATCH 32/32] fix: shifting an infinite range lost its lower bound

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index 82af135..cb44f7a 100644
--- a/execution.py
+++ b/execution.py
@@ -793,6 +793,8 @@ class ProgramState:
                 lower += int(lhs)
                 if upper is not None:
                     upper += int(lhs)
+                else:
+                    upper = nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3956,6 +3958,8 @@ class ProgramState:
                 lower -= int(rhs)
                 if upper is not None:
                     upper -= int(rhs)
+                else:
+                    upper = nil
                 return Range(lower, upper)
             else:
                 return List(self.SUB(item, rhs) for item in lhs)
-- 
2.43.0


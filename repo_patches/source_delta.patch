From 0f37a4e7c1e542d014b74591e0d44ffcf1bf824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 01/98] fix: encode coordinates to the format's width when it
 has no integer or no fractional digits

---
 gerber/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..06820f1 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -148,6 +148,11 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
     digits = [val for val in fmtstring % value if val != '.']
 
+    # There is no decimal point in the output of a format without decimal
+    # digits, and always an integer digit in the one without integer digits
+    while len(digits) > MAX_DIGITS and digits[0] == '0':
+        digits.pop(0)
+
     # If all the digits are 0, return '0'.
     digit_sum = sum([int(digit) for digit in digits])
     if digit_sum == 0:
-- 
2.43.0


From 789fe904b805f8b8ef95742d867f9239910b279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 02/98] fix: decimal_string writes very small and very large
 values without an exponent

---
 gerber/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 06820f1..e0d41dd 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -190,6 +190,9 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        # very large or small values, write them without an exponent
+        floatstr = '%0.*f' % (max(precision, 10), value)
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From 420e82a3c548243d40a03f7ac1d1e305f0ab392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 03/98] fix: keep a region contour made of one arc when D02
 ends it

---
 gerber/rs274x.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..9beb8bd 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -698,7 +698,9 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                # (a single line does not enclose anything, but a single arc may)
+                if self.current_region and (len(self.current_region) > 1 or
+                                            isinstance(self.current_region[0], Arc)):
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 4c0750f7c92a5407ba4856d96dd3f74b4aec1885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 04/98] fix: sweep of counterclockwise arcs that pass through
 zero degrees

---
 gerber/primitives.py | 2 +-
 gerber/rs274x.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..8744f04 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -400,7 +400,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 9beb8bd..fa8d74a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -759,7 +759,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 1d22db1b59d8a450cfaac195583ede45d789aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 05/98] fix: extended commands closed by a percent sign on its
 own line, or preceded by other commands on the first line

---
 gerber/rs274x.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index fa8d74a..305d784 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -283,13 +283,13 @@ class GerberParser(object):
 
         length = len(data)
         start = 0
-        in_header = True
+        in_header = False
 
         for cur in range(0, length):
 
             val = data[cur]
 
-            if val == '%' and start == cur:
+            if val == '%' and start == cur and not in_header:
                 in_header = True
                 continue
 
-- 
2.43.0


From 4e591adafa8012eb4aef17948bc1ed95a1f02c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 06/98] fix: read image offset and mirror commands that give
 only one axis

---
 gerber/gerber_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..8f8f5b9 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -620,8 +620,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -668,8 +668,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
-- 
2.43.0


From 3c7a47b55d788b7c31b48267dc81baccd8c21d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 07/98] fix: several commands in one extended block after an
 aperture definition or a name

---
 gerber/rs274x.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 305d784..b68bc46 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,25 +188,25 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%*]*)"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*%]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*%]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    SF = r"(?P<param>SF)(?P<discarded>[^*%]*)"
+    LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From 617a0d2093ff9d5a7e8ef2b8aeabec362094f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 08/98] fix: aperture macro subtraction subtracts its right
 operand

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From 9de98625772f9201b8c36cb8e814cc21864991c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 09/98] fix: evaluating an aperture macro does not change the
 parameters passed in

---
 gerber/am_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index e517ecd..6c99f9c 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -59,6 +59,9 @@ def eval_macro(instructions, parameters={}):
             p[i + 1] = val
 
         parameters = p
+    else:
+        # assignments of this evaluation must not reach the caller's dict
+        parameters = dict(parameters)
 
     stack = []
 
-- 
2.43.0


From bd3386e01ff8c9905f9756638c3c39d4b68a4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 10/98] fix: an equals sign in an aperture macro comment is not
 an assignment

---
 gerber/am_read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..30fa0c3 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -134,7 +134,8 @@ def read_macro(macro):
         unary_minus_allowed = False
         unary_minus = False
 
-        if Token.EQUALS in block:
+        # only an assignment starts with a variable; comments may hold "="
+        if Token.EQUALS in block and block.lstrip().startswith("$"):
             is_equation = True
         else:
             is_primitive = True
-- 
2.43.0


From 3f7441e2ca1466814d3296bc092fcebd121aba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 11/98] fix: read signs and numbers with leading zeros in
 aperture macro expressions

---
 gerber/am_read.py | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 30fa0c3..fc1445e 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -33,13 +33,14 @@ class Token:
     LEFT_PARENS = "("
     RIGHT_PARENS = ")"
     EQUALS = "="
+    NEGATE = "negate"
     EOF = "EOF"
 
 
 def token_to_opcode(token):
     if token == Token.ADD:
         return OpCode.ADD
-    elif token == Token.SUB:
+    elif token in (Token.SUB, Token.NEGATE):
         return OpCode.SUB
     elif token in Token.MULT:
         return OpCode.MUL
@@ -157,6 +158,10 @@ def read_macro(macro):
         def empty():
             return len(op_stack) == 0
 
+        def number():
+            n = scanner.readfloat()
+            return -n if unary_minus else n
+
         while not scanner.eof():
 
             c = scanner.getc()
@@ -169,20 +174,29 @@ def read_macro(macro):
                     instructions.append((token_to_opcode(pop()), None))
 
                 unary_minus_allowed = True
+                unary_minus = False
 
             elif c in Token.OPERATORS:
-                if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
-                    unary_minus_allowed = False
+                # a sign is unary where an operand is expected
+                if unary_minus_allowed and c in (Token.ADD, Token.SUB):
+                    if c == Token.SUB:
+                        unary_minus = not unary_minus
                     continue
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
                     instructions.append((token_to_opcode(pop()), None))
 
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.LEFT_PARENS:
+                if unary_minus:
+                    # negates the whole group when it closes
+                    instructions.append((OpCode.PUSH, 0))
+                    push(Token.NEGATE)
+                    unary_minus = False
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
@@ -193,26 +207,35 @@ def read_macro(macro):
 
                 # discard "("
                 pop()
+                if not empty() and top() == Token.NEGATE:
+                    instructions.append((token_to_opcode(pop()), None))
+                unary_minus_allowed = False
 
             elif c.startswith("$"):
                 n = scanner.readint()
 
                 if is_equation and not found_equation_left_side:
                     equation_left_side = n
+                elif unary_minus:
+                    instructions.append((OpCode.PUSH, 0))
+                    instructions.append((OpCode.LOAD, n))
+                    instructions.append((OpCode.SUB, None))
                 else:
                     instructions.append((OpCode.LOAD, n))
+                unary_minus_allowed = unary_minus = False
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                unary_minus_allowed = True
 
             elif c == "0":
                 if is_primitive and not found_primitive_code:
                     instructions.append((OpCode.PUSH, scanner.readstr("*")))
                     found_primitive_code = True
                 else:
-                    # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
-                        instructions.append((OpCode.PUSH, 0))
+                    scanner.ungetc()
+                    instructions.append((OpCode.PUSH, number()))
+                    unary_minus_allowed = unary_minus = False
 
             elif c in "123456789.":
                 scanner.ungetc()
@@ -220,12 +243,8 @@ def read_macro(macro):
                 if is_primitive and not found_primitive_code:
                     primitive_code = scanner.readint()
                 else:
-                    n = scanner.readfloat()
-                    if unary_minus:
-                        unary_minus = False
-                        n *= -1
-
-                    instructions.append((OpCode.PUSH, n))
+                    instructions.append((OpCode.PUSH, number()))
+                    unary_minus_allowed = unary_minus = False
             else:
                 # whitespace or unknown char
                 pass
-- 
2.43.0


From e17eba4da388270182c3842f615f5faac465a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 12/98] fix: convert the outlines of aperture macros, and
 groups and regions with a single member, with the rest

---
 gerber/am_statements.py | 14 +++++++-------
 gerber/primitives.py    |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..2fa50ca 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -320,14 +320,14 @@ class AMVectorLinePrimitive(AMPrimitive):
         line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
         vertices = line.vertices
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(vertices[-1], self.rotation, (0, 0))
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
@@ -443,7 +443,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0, units=units), units=units))
 
             prev_point = cur_point
 
@@ -806,7 +806,7 @@ class AMThermalPrimitive(AMPrimitive):
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
 
         outlines = []
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
                 + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
@@ -821,7 +821,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, self.position)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
 
             prev_point = cur_point
 
@@ -933,14 +933,14 @@ class AMCenterLinePrimitive(AMPrimitive):
         points.append((x + half_width, y - half_height))
         points.append((x + half_width, y + half_height))
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(points[3], self.rotation, self.center)
         for point in points:
             cur_point = rotate_point(point, self.rotation, self.center)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
diff --git a/gerber/primitives.py b/gerber/primitives.py
index 8744f04..5fa2f10 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From 9c9915b036981d6aae65b487e825330954936214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 13/98] fix: aperture macro vector lines are rectangles along
 the line

---
 gerber/am_statements.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 2fa50ca..5257af3 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -316,9 +316,14 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # The line ends are perpendicular to the line
+        angle = math.atan2(self.end[1] - self.start[1], self.end[0] - self.start[0])
+        dx = -math.sin(angle) * self.width / 2.0
+        dy = math.cos(angle) * self.width / 2.0
+        vertices = [(self.start[0] + dx, self.start[1] + dy),
+                    (self.start[0] - dx, self.start[1] - dy),
+                    (self.end[0] - dx, self.end[1] - dy),
+                    (self.end[0] + dx, self.end[1] + dy)]
 
         aperture = Circle((0, 0), 0, units=units)
 
@@ -328,6 +333,7 @@ class AMVectorLinePrimitive(AMPrimitive):
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
             lines.append(Line(prev_point, cur_point, aperture, units=units))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 3a68922aa784dd4554ec2103be999a1fe036c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 14/98] fix: rotate aperture macro centre lines about the macro
 origin and chain outline segments end to start

---
 gerber/am_statements.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 5257af3..2025e8f 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -828,8 +828,7 @@ class AMThermalPrimitive(AMPrimitive):
                 cur_point = rotate_point(point, rotation, self.position)
 
                 lines.append(Line(prev_point, cur_point, aperture, units=units))
-
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -863,7 +862,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         X and Y coordinates of line center
 
     rotation : float
-        rectangle rotation about its center.
+        rectangle rotation about the macro origin.
 
     Returns
     -------
@@ -942,11 +941,12 @@ class AMCenterLinePrimitive(AMPrimitive):
         aperture = Circle((0, 0), 0, units=units)
 
         lines = []
-        prev_point = rotate_point(points[3], self.rotation, self.center)
+        prev_point = rotate_point(points[3], self.rotation)
         for point in points:
-            cur_point = rotate_point(point, self.rotation, self.center)
+            cur_point = rotate_point(point, self.rotation)
 
             lines.append(Line(prev_point, cur_point, aperture, units=units))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 01b5015c4cc2e9ab9fb03a3203ea616950ba0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 15/98] fix: draw aperture macro lower left lines

---
 gerber/am_statements.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 2025e8f..d9ac26c 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -1032,6 +1032,12 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
 
+    def to_primitive(self, units):
+        center = (self.lower_left[0] + self.width / 2.0,
+                  self.lower_left[1] + self.height / 2.0)
+        return AMCenterLinePrimitive(21, self.exposure, self.width, self.height,
+                                     center, self.rotation).to_primitive(units)
+
 
 class AMUnsupportPrimitive(AMPrimitive):
     @classmethod
-- 
2.43.0


From 6b003718db44397c2925baae1cc0901689efd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 16/98] fix: rotation modifier of aperture macro circles

---
 gerber/am_statements.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index d9ac26c..6b92f0c 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -171,6 +171,9 @@ class AMCirclePrimitive(AMPrimitive):
     position : tuple (<float>, <float>)
         Position of the circle relative to the macro origin
 
+    rotation : float
+        Rotation of the center about the macro origin.
+
     Returns
     -------
     CirclePrimitive : :class:`gerber.am_statements.AMCirclePrimitive`
@@ -187,19 +190,22 @@ class AMCirclePrimitive(AMPrimitive):
         exposure = 'on' if float(modifiers[1]) == 1 else 'off'
         diameter = float(modifiers[2])
         position = (float(modifiers[3]), float(modifiers[4]))
-        return cls(code, exposure, diameter, position)
+        # the rotation is optional
+        rotation = float(modifiers[5]) if len(modifiers) > 5 else 0
+        return cls(code, exposure, diameter, position, rotation)
 
     @classmethod
     def from_primitive(cls, primitive):
         return cls(1, 'on', primitive.diameter, primitive.position)
 
-    def __init__(self, code, exposure, diameter, position):
+    def __init__(self, code, exposure, diameter, position, rotation=0):
         validate_coordinates(position)
         if code != 1:
             raise ValueError('CirclePrimitive code is 1')
         super(AMCirclePrimitive, self).__init__(code, exposure)
         self.diameter = diameter
         self.position = position
+        self.rotation = rotation
 
     def to_inch(self):
         self.diameter = inch(self.diameter)
@@ -215,10 +221,14 @@ class AMCirclePrimitive(AMPrimitive):
                     diameter=self.diameter,
                     x=self.position[0],
                     y=self.position[1])
-        return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
+        fmt = '{code},{exposure},{diameter},{x},{y}'
+        if self.rotation:
+            data['rotation'] = self.rotation
+            fmt += ',{rotation}'
+        return (fmt + '*').format(**data)
 
     def to_primitive(self, units):
-        return Circle((self.position), self.diameter, units=units, level_polarity=self._level_polarity)
+        return Circle(rotate_point(self.position, self.rotation), self.diameter, units=units, level_polarity=self._level_polarity)
 
 
 class AMVectorLinePrimitive(AMPrimitive):
-- 
2.43.0


From 99dac41b66e7038a4d4cfe1640436e5f0d48e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 17/98] fix: thermals whose gaps are wider than their hole

---
 gerber/am_statements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 6b92f0c..7796c92 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -811,7 +811,12 @@ class AMThermalPrimitive(AMPrimitive):
         outer_radius = self.outer_diameter / 2.0
 
         # Calculate the start angle relative to the horizontal axis
-        inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
+        if self.gap / 2.0 < inner_radius * math.sin(math.pi / 4):
+            inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
+        else:
+            # the gaps cover the whole hole, so the section ends where they meet
+            inner_offset_angle = math.pi / 4
+            inner_radius = self.gap / 2.0 / math.sin(math.pi / 4)
         outer_offset_angle = asin(self.gap / 2.0 / outer_radius)
 
         rotation_rad = math.radians(self.rotation)
-- 
2.43.0


From 6b35c685ca81245bd720a08fbd2cdbb69ad733d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 18/98] fix: unit conversion keeps the vertex count and
 rotation of polygon apertures and the parameters of macros

---
 gerber/gerber_statements.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 8f8f5b9..e867c44 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -358,14 +358,23 @@ class ADParamStmt(ParamStmt):
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._scale_modifiers(inch)
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
+            self._scale_modifiers(metric)
+
+    def _scale_modifiers(self, convert):
+        if self.shape == 'P':
+            # the number of vertices and the rotation are no lengths
+            self.modifiers = [tuple([x if i in (1, 2) else convert(x) for i, x in enumerate(modifier)])
+                              for modifier in self.modifiers]
+        elif self.shape in ('C', 'R', 'O'):
+            self.modifiers = [tuple([convert(x) for x in modifier])
                               for modifier in self.modifiers]
+        # what the modifiers of a macro stand for is up to the macro, which
+        # is converted itself
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-- 
2.43.0


From 0a7ed31c0cad6e584dbe83ed3d51d9816e6a90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 19/98] fix: write aperture and macro dimensions at full
 precision and without exponents

---
 gerber/am_statements.py     | 87 +++++++++++++++++++++----------------
 gerber/gerber_statements.py |  4 +-
 gerber/utils.py             | 10 +++++
 3 files changed, 62 insertions(+), 39 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 7796c92..5289a9c 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -20,7 +20,7 @@ from math import asin
 import math
 
 from .primitives import *
-from .utils import validate_coordinates, inch, metric, rotate_point
+from .utils import validate_coordinates, inch, metric, rotate_point, plain_number
 
 
 
@@ -31,6 +31,19 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _modifier(value):
+    """ Text of a modifier. Exponents are not allowed in a macro
+    """
+    text = str(value)
+    return plain_number(value, 12) if 'e' in text else text
+
+
+def _point(point):
+    """ Text of the two modifiers of a point
+    """
+    return ','.join([plain_number(coord) for coord in point])
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -218,12 +231,12 @@ class AMCirclePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(code=self.code,
                     exposure='1' if self.exposure == 'on' else 0,
-                    diameter=self.diameter,
-                    x=self.position[0],
-                    y=self.position[1])
+                    diameter=_modifier(self.diameter),
+                    x=_modifier(self.position[0]),
+                    y=_modifier(self.position[1]))
         fmt = '{code},{exposure},{diameter},{x},{y}'
         if self.rotation:
-            data['rotation'] = self.rotation
+            data['rotation'] = _modifier(self.rotation)
             fmt += ',{rotation}'
         return (fmt + '*').format(**data)
 
@@ -311,12 +324,12 @@ class AMVectorLinePrimitive(AMPrimitive):
         fmtstr = '{code},{exp},{width},{startx},{starty},{endx},{endy},{rotation}*'
         data = dict(code=self.code,
                     exp=1 if self.exposure == 'on' else 0,
-                    width=self.width,
-                    startx=self.start[0],
-                    starty=self.start[1],
-                    endx=self.end[0],
-                    endy=self.end[1],
-                    rotation=self.rotation)
+                    width=_modifier(self.width),
+                    startx=_modifier(self.start[0]),
+                    starty=_modifier(self.start[1]),
+                    endx=_modifier(self.end[0]),
+                    endy=_modifier(self.end[1]),
+                    rotation=_modifier(self.rotation))
         return fmtstr.format(**data)
 
     def to_primitive(self, units):
@@ -442,9 +455,9 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.6g,%.6g" % self.start_point,
-            points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
-            rotation=str(self.rotation)
+            start_point=_point(self.start_point),
+            points=",\n".join([_point(point) for point in self.points]),
+            rotation=_modifier(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
 
@@ -555,9 +568,9 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
-            rotation=str(self.rotation)
+            position=_point(self.position),
+            diameter=plain_number(self.diameter),
+            rotation=_modifier(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
         return fmt.format(**data)
@@ -664,14 +677,14 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
-            diameter=self.diameter,
-            ring_thickness=self.ring_thickness,
-            gap=self.gap,
+            position=_point(self.position),
+            diameter=_modifier(self.diameter),
+            ring_thickness=_modifier(self.ring_thickness),
+            gap=_modifier(self.gap),
             max_rings=self.max_rings,
-            crosshair_thickness=self.crosshair_thickness,
-            crosshair_length=self.crosshair_length,
-            rotation=self.rotation
+            crosshair_thickness=_modifier(self.crosshair_thickness),
+            crosshair_length=_modifier(self.crosshair_length),
+            rotation=_modifier(self.rotation)
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
         return fmt.format(**data)
@@ -757,11 +770,11 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
-            outer_diameter=self.outer_diameter,
-            inner_diameter=self.inner_diameter,
-            gap=self.gap,
-            rotation=self.rotation
+            position=_point(self.position),
+            outer_diameter=_modifier(self.outer_diameter),
+            inner_diameter=_modifier(self.inner_diameter),
+            gap=_modifier(self.gap),
+            rotation=_modifier(self.rotation)
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
         return fmt.format(**data)
@@ -932,10 +945,10 @@ class AMCenterLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            center="%.4g,%.4g" % self.center,
-            rotation=self.rotation
+            width = _modifier(self.width),
+            height = _modifier(self.height),
+            center=_point(self.center),
+            rotation=_modifier(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
         return fmt.format(**data)
@@ -1039,10 +1052,10 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
-            rotation=self.rotation
+            width = _modifier(self.width),
+            height = _modifier(self.height),
+            lower_left=_point(self.lower_left),
+            rotation=_modifier(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index e867c44..24a8287 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -21,7 +21,7 @@ Gerber (RS-274X) Statements
 
 """
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
-                    inch, metric)
+                    inch, metric, plain_number)
 
 from .am_statements import *
 from .am_read import read_macro
@@ -378,7 +378,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join([plain_number(x) for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
diff --git a/gerber/utils.py b/gerber/utils.py
index e0d41dd..d4a5de7 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -172,6 +172,16 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     return ''.join(digits) if not negative else ''.join(['-'] + digits)
 
 
+def plain_number(value, precision=10):
+    """ Text of a number with up to `precision` decimal places, no exponent
+    and no trailing zeros
+    """
+    text = '%.*f' % (precision, value)
+    if '.' in text:
+        text = text.rstrip('0').rstrip('.')
+    return '0' if text == '-0' else text
+
+
 def decimal_string(value, precision=6, padding=False):
     """ Convert float to string with limited precision
 
-- 
2.43.0


From 95727d9b7f36029b574edc825d603ce361065558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 20/98] fix: comments in aperture macros do not gain a comma
 every time they are written

---
 gerber/am_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 5289a9c..c801e95 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -134,6 +134,9 @@ class AMCommentPrimitive(AMPrimitive):
         primitive = primitive.strip()
         code = int(primitive[0])
         comment = primitive[1:]
+        # an evaluated comment follows its code like a modifier
+        if comment.startswith(','):
+            comment = comment[1:]
         return cls(code, comment)
 
     def __init__(self, code, comment):
-- 
2.43.0


From 3e2cbdd92bec06faac2b644cda79c4d3d3101785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 21/98] fix: offsetting a file keeps the centres of its arcs

---
 gerber/rs274x.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index b68bc46..e9516c1 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -172,7 +172,13 @@ class GerberFile(CamFile):
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-            statement.offset(x_offset, y_offset)
+            if isinstance(statement, CoordStmt):
+                # I and J are distances from the start of an arc
+                i, j = statement.i, statement.j
+                statement.offset(x_offset, y_offset)
+                statement.i, statement.j = i, j
+            else:
+                statement.offset(x_offset, y_offset)
         for primitive in self.primitives:
             primitive.offset(x_offset, y_offset)
 
-- 
2.43.0


From a065a5018c544d00b091c217165d4022645d90dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 22/98] fix: write macros used with different parameters as
 their own text instead of the last aperture's values

---
 gerber/gerber_statements.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 24a8287..e165870 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -430,10 +430,17 @@ class AMParamStmt(ParamStmt):
         self.instructions = self.read(macro)
         self.primitives = []
 
+        # Apertures may use the macro with different parameters, then only
+        # the macro's own text describes all of them
+        self._builds = 0
+        self._varies = False
+        self._scale = 1.0
+
     def read(self, macro):
         return read_macro(macro)
 
     def build(self, modifiers=[[]]):
+        previous = self.primitives
         self.primitives = []
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
@@ -460,21 +467,47 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
+        if self._builds and previous != self.primitives:
+            self._varies = True
+        self._builds += 1
+
         return AMGroup(self.primitives, stmt=self, units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
+            self._scale = inch(self._scale)
             for primitive in self.primitives:
                 primitive.to_inch()
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
+            self._scale = metric(self._scale)
             for primitive in self.primitives:
                 primitive.to_metric()
 
+    # Modifiers of each primitive that are lengths, as slices of its words
+    LENGTHS = {'1': [(2, 5)], '2': [(2, 7)], '20': [(2, 7)], '21': [(2, 6)],
+               '22': [(2, 6)], '4': [(3, -1)], '5': [(3, 6)],
+               '6': [(1, 6), (7, 9)], '7': [(1, 6)]}
+
+    def _scaled_macro(self):
+        if abs(self._scale - 1.0) < 1e-9:
+            return self.macro
+        scale = plain_number(self._scale, 15)
+        blocks = []
+        for block in self.macro.split('*'):
+            words = block.split(',')
+            for start, end in self.LENGTHS.get(words[0].strip(), []):
+                words[start:end] = ['(%s)x%s' % (word.strip(), scale)
+                                    for word in words[start:end]]
+            blocks.append(','.join(words))
+        return '*'.join(blocks)
+
     def to_gerber(self, settings=None):
+        if self._varies or not self._builds:
+            return '%AM{0}*{1}*%'.format(self.name, self._scaled_macro().rstrip('*\n\r '))
         return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
 
     def __str__(self):
-- 
2.43.0


From 81ca5ce5aee98c239fb8d3f46de2c3a5004b9e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 23/98] fix: bounding boxes of shapes rotated past 90 degrees,
 and of rotated diamonds and obrounds

---
 gerber/primitives.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 5fa2f10..1944109 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -758,11 +758,11 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width + abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height + abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -853,11 +853,11 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return max(abs(self._cos_theta * self.width), abs(self._sin_theta * self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return max(abs(self._cos_theta * self.height), abs(self._sin_theta * self.width))
 
 
 class ChamferRectangle(Primitive):
@@ -970,13 +970,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1054,13 +1054,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1155,13 +1155,17 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        straight = self.width - min(self.width, self.height)
+        upright = self.height - min(self.width, self.height)
+        return (abs(self._cos_theta) * straight + abs(self._sin_theta) * upright +
+                min(self.width, self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        straight = self.width - min(self.width, self.height)
+        upright = self.height - min(self.width, self.height)
+        return (abs(self._cos_theta) * upright + abs(self._sin_theta) * straight +
+                min(self.width, self.height))
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 6f0b4147e5622819c03f4daa95808d2d027f5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 24/98] fix: rotate the vertices of rectangles, diamonds and
 chamfered rectangles about their centre, and list chamfered corners in
 outline order

---
 gerber/primitives.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 1944109..8f0e9f7 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -751,9 +751,8 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = [rotate_point(point, self.rotation, self.position)
+                              for point in [ll, ul, ur, lr]]
         return self._vertices
 
     @property
@@ -846,9 +845,8 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = [rotate_point(point, self.rotation, self.position)
+                              for point in [top, right, bottom, left]]
         return self._vertices
 
     @property
@@ -950,22 +948,21 @@ class ChamferRectangle(Primitive):
                 x, y = corner
                 if chamfered:
                     if idx == 0:
-                        vertices.append((x - self.chamfer, y))
                         vertices.append((x, y - self.chamfer))
+                        vertices.append((x - self.chamfer, y))
                     elif idx == 1:
                         vertices.append((x + self.chamfer, y))
                         vertices.append((x, y - self.chamfer))
                     elif idx == 2:
-                        vertices.append((x + self.chamfer, y))
                         vertices.append((x, y + self.chamfer))
+                        vertices.append((x + self.chamfer, y))
                     elif idx == 3:
                         vertices.append((x - self.chamfer, y))
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(point, self.rotation, self.position)
+                              for point in vertices]
         return self._vertices
 
     @property
-- 
2.43.0


From 54ed7b2ac279e9b34e7a7a40d211b0c378496eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 25/98] fix: bounding boxes of single quadrant arcs, of arcs
 drawn with apertures other than circles, and of lines drawn with polygons

---
 gerber/primitives.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 8f0e9f7..6e271ea 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -246,7 +246,7 @@ class Line(Primitive):
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-            if isinstance(self.aperture, Circle):
+            if isinstance(self.aperture, (Circle, Polygon)):
                 width_2 = self.aperture.radius
                 height_2 = width_2
             else:
@@ -290,8 +290,10 @@ class Line(Primitive):
                 # The line is defined by the convex hull of the points
                 self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
             elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
-                          for vertex in self.aperture.vertices
+                shape = Polygon((0, 0), self.aperture.sides, self.aperture.radius,
+                                rotation=self.aperture.rotation)
+                points = [tuple(map(add, point, vertex))
+                          for vertex in shape.vertices
                           for point in (start, end)]
                 self._vertices = convex_hull(points)
         return self._vertices
@@ -412,7 +414,7 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -452,10 +454,10 @@ class Arc(Primitive):
                 min_y = min(y) - self.aperture.radius
                 max_y = max(y) + self.aperture.radius
             else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+                min_x = min(x) - self.aperture.width / 2.
+                max_x = max(x) + self.aperture.width / 2.
+                min_y = min(y) - self.aperture.height / 2.
+                max_y = max(y) + self.aperture.height / 2.
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
@@ -467,7 +469,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From af8a514e7fbe8fccc51fdcbc4e67585b0ec451d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 26/98] fix: derived geometry follows changes to apertures,
 members and plain attributes, and equality ignores what was computed

---
 gerber/primitives.py | 321 +++++++++++++++++++------------------------
 1 file changed, 145 insertions(+), 176 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6e271ea..841c675 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -68,7 +68,9 @@ class Primitive(object):
                                   'implemented in subclass')
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        derived = ('_bounding_box', '_vertices', '_segments')
+        return (dict((k, v) for k, v in self.__dict__.items() if k not in derived) ==
+                dict((k, v) for k, v in other.__dict__.items() if k not in derived))
 
     @property
     def units(self):
@@ -96,11 +98,9 @@ class Primitive(object):
 
     @property
     def segments(self):
-        if self._segments is None:
-            if self.vertices is not None and len(self.vertices):
-                self._segments = [segment for segment in
-                                  combinations(self.vertices, 2)]
-        return self._segments
+        if self.vertices is not None and len(self.vertices):
+            return [segment for segment in combinations(self.vertices, 2)]
+        return None
 
     @property
     def bounding_box(self):
@@ -245,19 +245,17 @@ class Line(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            if isinstance(self.aperture, (Circle, Polygon)):
-                width_2 = self.aperture.radius
-                height_2 = width_2
-            else:
-                width_2 = self.aperture.width / 2.
-                height_2 = self.aperture.height / 2.
-            min_x = min(self.start[0], self.end[0]) - width_2
-            max_x = max(self.start[0], self.end[0]) + width_2
-            min_y = min(self.start[1], self.end[1]) - height_2
-            max_y = max(self.start[1], self.end[1]) + height_2
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        if isinstance(self.aperture, (Circle, Polygon)):
+            width_2 = self.aperture.radius
+            height_2 = width_2
+        else:
+            width_2 = self.aperture.width / 2.
+            height_2 = self.aperture.height / 2.
+        min_x = min(self.start[0], self.end[0]) - width_2
+        max_x = max(self.start[0], self.end[0]) + width_2
+        min_y = min(self.start[1], self.end[1]) - height_2
+        max_y = max(self.start[1], self.end[1]) + height_2
+        return ((min_x, max_x), (min_y, max_y))
 
     @property
     def bounding_box_no_aperture(self):
@@ -270,33 +268,32 @@ class Line(Primitive):
 
     @property
     def vertices(self):
-        if self._vertices is None:
-            start = self.start
-            end = self.end
-            if isinstance(self.aperture, Rectangle):
-                width = self.aperture.width
-                height = self.aperture.height
-
-                # Find all the corners of the start and end position
-                start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
-                start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
-                start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
-                start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
-                end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
-                end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
-                end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
-                end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
-
-                # The line is defined by the convex hull of the points
-                self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
-            elif isinstance(self.aperture, Polygon):
-                shape = Polygon((0, 0), self.aperture.sides, self.aperture.radius,
-                                rotation=self.aperture.rotation)
-                points = [tuple(map(add, point, vertex))
-                          for vertex in shape.vertices
-                          for point in (start, end)]
-                self._vertices = convex_hull(points)
-        return self._vertices
+        start = self.start
+        end = self.end
+        if isinstance(self.aperture, Rectangle):
+            width = self.aperture.width
+            height = self.aperture.height
+
+            # Find all the corners of the start and end position
+            start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
+            start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
+            start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
+            start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
+            end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
+            end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
+            end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
+            end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
+
+            # The line is defined by the convex hull of the points
+            return convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
+        elif isinstance(self.aperture, Polygon):
+            shape = Polygon((0, 0), self.aperture.sides, self.aperture.radius,
+                            rotation=self.aperture.rotation)
+            points = [tuple(map(add, point, vertex))
+                      for vertex in shape.vertices
+                      for point in (start, end)]
+            return convex_hull(points)
+        return None
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
@@ -409,58 +406,56 @@ class Arc(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            two_pi = 2 * math.pi
-            theta0 = (self.start_angle + two_pi) % two_pi
-            theta1 = (self.end_angle + two_pi) % two_pi
-            points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
-                if self.direction == 'counterclockwise':
-                    # Passes through 0 degrees
-                    if theta0 >= theta1:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta0 <= math.pi / 2.) and ((theta1 >= math.pi / 2.) or (theta1 <= theta0)))
-                        or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
-                        or ((theta1 > math.pi) and (theta1 <= theta0))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (theta0 <= math.pi * 1.5 and (theta1 >= math.pi * 1.5 or theta1 <= theta0)
-                        or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-                else:
-                    # Passes through 0 degrees
-                    if theta1 >= theta0:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta1 <= math.pi / 2.) and (theta0 >= math.pi / 2. or theta0 <= theta1))
-                        or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
-                        or ((theta0 > math.pi) and (theta0 <= theta1))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
-                        or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-            x, y = zip(*points)
-            if hasattr(self.aperture, 'radius'):
-                min_x = min(x) - self.aperture.radius
-                max_x = max(x) + self.aperture.radius
-                min_y = min(y) - self.aperture.radius
-                max_y = max(y) + self.aperture.radius
+        two_pi = 2 * math.pi
+        theta0 = (self.start_angle + two_pi) % two_pi
+        theta1 = (self.end_angle + two_pi) % two_pi
+        points = [self.start, self.end]
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
+            if self.direction == 'counterclockwise':
+                # Passes through 0 degrees
+                if theta0 >= theta1:
+                    points.append((self.center[0] + self.radius, self.center[1]))
+                # Passes through 90 degrees
+                if (((theta0 <= math.pi / 2.) and ((theta1 >= math.pi / 2.) or (theta1 <= theta0)))
+                    or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
+                    points.append((self.center[0], self.center[1] + self.radius))
+                # Passes through 180 degrees
+                if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
+                    or ((theta1 > math.pi) and (theta1 <= theta0))):
+                    points.append((self.center[0] - self.radius, self.center[1]))
+                # Passes through 270 degrees
+                if (theta0 <= math.pi * 1.5 and (theta1 >= math.pi * 1.5 or theta1 <= theta0)
+                    or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
+                    points.append((self.center[0], self.center[1] - self.radius))
             else:
-                min_x = min(x) - self.aperture.width / 2.
-                max_x = max(x) + self.aperture.width / 2.
-                min_y = min(y) - self.aperture.height / 2.
-                max_y = max(y) + self.aperture.height / 2.
+                # Passes through 0 degrees
+                if theta1 >= theta0:
+                    points.append((self.center[0] + self.radius, self.center[1]))
+                # Passes through 90 degrees
+                if (((theta1 <= math.pi / 2.) and (theta0 >= math.pi / 2. or theta0 <= theta1))
+                    or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
+                    points.append((self.center[0], self.center[1] + self.radius))
+                # Passes through 180 degrees
+                if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
+                    or ((theta0 > math.pi) and (theta0 <= theta1))):
+                    points.append((self.center[0] - self.radius, self.center[1]))
+                # Passes through 270 degrees
+                if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
+                    or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
+                    points.append((self.center[0], self.center[1] - self.radius))
+        x, y = zip(*points)
+        if hasattr(self.aperture, 'radius'):
+            min_x = min(x) - self.aperture.radius
+            max_x = max(x) + self.aperture.radius
+            min_y = min(y) - self.aperture.radius
+            max_y = max(y) + self.aperture.radius
+        else:
+            min_x = min(x) - self.aperture.width / 2.
+            max_x = max(x) + self.aperture.width / 2.
+            min_y = min(y) - self.aperture.height / 2.
+            max_y = max(y) + self.aperture.height / 2.
 
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        return ((min_x, max_x), (min_y, max_y))
 
     @property
     def bounding_box_no_aperture(self):
@@ -1376,16 +1371,14 @@ class Outline(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
@@ -1394,19 +1387,11 @@ class Outline(Primitive):
 
     @property
     def vertices(self):
-        if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
-        return self._vertices
+        return [p.start for p in self.primitives]
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
@@ -1439,16 +1424,14 @@ class Region(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
@@ -1467,8 +1450,6 @@ class RoundButterfly(Primitive):
         self.diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
@@ -1479,13 +1460,11 @@ class RoundButterfly(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        min_x = self.position[0] - self.radius
+        max_x = self.position[0] + self.radius
+        min_y = self.position[1] - self.radius
+        max_y = self.position[1] + self.radius
+        return ((min_x, max_x), (min_y, max_y))
 
 
 class SquareButterfly(Primitive):
@@ -1499,21 +1478,17 @@ class SquareButterfly(Primitive):
         self.side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - (self.side / 2.)
-            max_x = self.position[0] + (self.side / 2.)
-            min_y = self.position[1] - (self.side / 2.)
-            max_y = self.position[1] + (self.side / 2.)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        min_x = self.position[0] - (self.side / 2.)
+        max_x = self.position[0] + (self.side / 2.)
+        min_y = self.position[1] - (self.side / 2.)
+        max_y = self.position[1] + (self.side / 2.)
+        return ((min_x, max_x), (min_y, max_y))
 
 
 class Donut(Primitive):
@@ -1534,23 +1509,23 @@ class Donut(Primitive):
                 'Outer diameter must be larger than inner diameter.')
         self.inner_diameter = inner_diameter
         self.outer_diameter = outer_diameter
-        if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
-        else:
-            # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
-
-        self._to_convert = ['position', 'width',
-                            'height', 'inner_diameter', 'outer_diameter']
-
-        # TODO This does not reset bounding box correctly
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def width(self):
+        if self.shape in ('round', 'square', 'octagon'):
+            return self.outer_diameter
+        # Hexagon
+        return 0.5 * math.sqrt(3.) * self.outer_diameter
+
+    @property
+    def height(self):
+        return self.outer_diameter
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
@@ -1563,13 +1538,11 @@ class Donut(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.width / 2.),
-                  self.position[1] - (self.height / 2.))
-            ur = (self.position[0] + (self.width / 2.),
-                  self.position[1] + (self.height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
+        ll = (self.position[0] - (self.width / 2.),
+              self.position[1] - (self.height / 2.))
+        ur = (self.position[0] + (self.width / 2.),
+              self.position[1] + (self.height / 2.))
+        return ((ll[0], ur[0]), (ll[1], ur[1]))
 
 
 class SquareRoundDonut(Primitive):
@@ -1593,11 +1566,9 @@ class SquareRoundDonut(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            ll = tuple([c - self.outer_diameter / 2. for c in self.position])
-            ur = tuple([c + self.outer_diameter / 2. for c in self.position])
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
+        ll = tuple([c - self.outer_diameter / 2. for c in self.position])
+        ur = tuple([c + self.outer_diameter / 2. for c in self.position])
+        return ((ll[0], ur[0]), (ll[1], ur[1]))
 
 
 class Drill(Primitive):
@@ -1673,14 +1644,12 @@ class Slot(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            radius = self.diameter / 2.
-            min_x = min(self.start[0], self.end[0]) - radius
-            max_x = max(self.start[0], self.end[0]) + radius
-            min_y = min(self.start[1], self.end[1]) - radius
-            max_y = max(self.start[1], self.end[1]) + radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        radius = self.diameter / 2.
+        min_x = min(self.start[0], self.end[0]) - radius
+        max_x = max(self.start[0], self.end[0]) + radius
+        min_y = min(self.start[1], self.end[1]) - radius
+        max_y = max(self.start[1], self.end[1]) + radius
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self.start = tuple(map(add, self.start, (x_offset, y_offset)))
-- 
2.43.0


From 6f9a94c605f3115fc3b71b4abd75f5d35e855caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 27/98] fix: convex hulls of point sets with repeated points
 keep all corners

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index d4a5de7..bb8c530 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -472,5 +472,7 @@ def _findhull(idxp, a_i, b_i, points):
 
 
 def convex_hull(points):
+    # repeated points look collinear with any other point
+    points = sorted(set(points))
     vertices = ConvexHull_qh(points)
     return [points[idx] for idx in vertices]
-- 
2.43.0


From da9145d8f881aaf60e184d390a280a2fdf4ecd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 28/98] fix: macros with one-letter names, and parameterless
 macros whose name starts with C

---
 gerber/rs274x.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index e9516c1..aac9390 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -189,12 +189,12 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%*]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%*A-WYZa-z_$]*)"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
-- 
2.43.0


From 9a81e550214834c5bf6bf70e3cf7eaacdcfaf957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 29/98] fix: slots take coordinates that are not given from the
 position before, and count distances in incremental mode

---
 gerber/excellon.py            | 31 ++++++++++++++++---------------
 gerber/excellon_statements.py | 10 ++++++----
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..2c1f6ac 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -685,28 +685,29 @@ class ExcellonParser(object):
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
                 # I don't know if this is actually correct, but it makes sense
-                # that this is where the tool would end
-                x = stmt.x_end
-                y = stmt.y_end
+                # that the tool ends at the end of the slot. Coordinates that
+                # are not given are those of the position before
+                ends = []
+                for x, y in ((stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end)):
+                    if self.notation == 'absolute':
+                        if x is not None:
+                            self.pos[0] = x
+                        if y is not None:
+                            self.pos[1] = y
+                    else:
+                        if x is not None:
+                            self.pos[0] += x
+                        if y is not None:
+                            self.pos[1] += y
+                    ends.append(tuple(self.pos))
 
                 self.statements.append(stmt)
 
-                if self.notation == 'absolute':
-                    if x is not None:
-                        self.pos[0] = x
-                    if y is not None:
-                        self.pos[1] = y
-                else:
-                    if x is not None:
-                        self.pos[0] += x
-                    if y is not None:
-                        self.pos[1] += y
-
                 if self.state == 'DRILL' or self.state == 'HEADER':
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, ends[0], ends[1], DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..981c5ed 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -861,10 +861,12 @@ class SlotStmt(ExcellonStatement):
         (x_end_coord, y_end_coord) = SlotStmt.parse_sub_coords(sub_coords[1], settings)
 
         # Some files seem to specify only one of the coordinates
-        if x_end_coord == None:
-            x_end_coord = x_start_coord
-        if y_end_coord == None:
-            y_end_coord = y_start_coord
+        # (a missing distance of an incremental file is just zero)
+        if settings.notation == 'absolute':
+            if x_end_coord == None:
+                x_end_coord = x_start_coord
+            if y_end_coord == None:
+                y_end_coord = y_start_coord
 
         c = cls(x_start_coord, y_start_coord, x_end_coord, y_end_coord, **kwargs)
         c.units = settings.units
-- 
2.43.0


From 1d627121c9711890a5a47f2dfa2fdc4f8411a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 30/98] fix: read tools defined by Holesize comments

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 2c1f6ac..53a29cc 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -474,7 +474,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From 79a4faa298e3abc94dd756a4e6cf8c499c077082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 31/98] fix: plating column of tool definition files

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..f9837b7 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -94,9 +94,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From 770e40a6c0459550a2727c3100318a2f6fea7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 32/98] fix: incremental coordinates in drill settings files

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From d182f5dc6ef640818befe2e70e3dbce4e8de4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 33/98] fix: count every slot of a rout as a hit of its tool

---
 gerber/excellon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 53a29cc..e35b111 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -734,6 +734,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From 6627673a477f9ae13d783e78e51aa75208faa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 34/98] fix: path length of tools that make slots

---
 gerber/excellon.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e35b111..bd3fa69 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -329,9 +329,14 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            if isinstance(hit, DrillSlot):
+                points = (hit.start, hit.end)
+            else:
+                points = (hit.position,)
+            for point in points:
+                lengths[num] = lengths[
+                    num] + math.hypot(*tuple(map(operator.sub, positions[num], point)))
+                positions[num] = point
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From 07519f2dd4e2ad04fe3795f4d24d762009d634e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 35/98] fix: drill reports of files with unused tools, in
 metric units or incremental mode

---
 gerber/excellon.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index bd3fa69..419d4de 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -244,16 +244,17 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += ('  Data Mode         %s\n' %
+                 ('Absolute' if self.settings.notation == 'absolute' else 'Incremental'))
+        rprt += ('  Units             %s\n' %
+                 ('Inches' if self.settings.units == 'inch' else 'Millimeters'))
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count, self.path_length(tool.number))
+                                   tool.hit_count,
+                                   self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
                 f.write(rprt)
-- 
2.43.0


From 5fb6ea5ffde7a3156bf1a2347f6b4317cdb5f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 36/98] fix: convert the positions of holes and slots, and the
 depth offset of tools, with the rest of a drill file

---
 gerber/excellon.py            | 56 ++++++++++++++++++++++++++++++-----
 gerber/excellon_statements.py |  4 +++
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 419d4de..ff55f5f 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -84,6 +84,22 @@ def loads(data, filename=None, settings=None, tools=None):
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
+def _tool_units(tool):
+    """ Units a tool is given in, None if it does not say
+    """
+    return getattr(getattr(tool, 'settings', None), 'units', None)
+
+
+def _convert_point(point, from_units, to_units):
+    """ Convert a point between units
+    """
+    if from_units == 'metric' and to_units == 'inch':
+        return tuple(map(inch, point))
+    if from_units == 'inch' and to_units == 'metric':
+        return tuple(map(metric, point))
+    return point
+
+
 class DrillHit(object):
     """Drill feature that is a single drill hole.
 
@@ -99,15 +115,24 @@ class DrillHit(object):
         self.tool = tool
         self.position = position
 
+    # Many hits share a tool, and the tool has the units. The position follows
+    # them no matter which hit (or what else) converts the tool.
+    @property
+    def position(self):
+        return _convert_point(self._position, self._units, _tool_units(self.tool))
+
+    @position.setter
+    def position(self, value):
+        self._position = value
+        self._units = _tool_units(self.tool)
+
     def to_inch(self):
         if self.tool.settings.units == 'metric':
             self.tool.to_inch()
-            self.position = tuple(map(inch, self.position))
 
     def to_metric(self):
         if self.tool.settings.units == 'inch':
             self.tool.to_metric()
-            self.position = tuple(map(metric, self.position))
 
     @property
     def bounding_box(self):
@@ -140,17 +165,32 @@ class DrillSlot(object):
         self.end = end
         self.slot_type = slot_type
 
+    # Like the position of a hit, the ends are in the units of the tool
+    @property
+    def start(self):
+        return _convert_point(self._start, self._start_units, _tool_units(self.tool))
+
+    @start.setter
+    def start(self, value):
+        self._start = value
+        self._start_units = _tool_units(self.tool)
+
+    @property
+    def end(self):
+        return _convert_point(self._end, self._end_units, _tool_units(self.tool))
+
+    @end.setter
+    def end(self, value):
+        self._end = value
+        self._end_units = _tool_units(self.tool)
+
     def to_inch(self):
         if self.tool.settings.units == 'metric':
             self.tool.to_inch()
-            self.start = tuple(map(inch, self.start))
-            self.end = tuple(map(inch, self.end))
 
     def to_metric(self):
         if self.tool.settings.units == 'inch':
             self.tool.to_metric()
-            self.start = tuple(map(metric, self.start))
-            self.end = tuple(map(metric, self.end))
 
     @property
     def bounding_box(self):
@@ -291,8 +331,8 @@ class ExcellonFile(CamFile):
                 tool.to_inch()
             #for primitive in self.primitives:
             #    primitive.to_inch()
-            #for hit in self.hits:
-            #    hit.to_inch()
+            for hit in self.hits:
+                hit.to_inch()
             self.units = 'inch'
 
     def to_metric(self):
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 981c5ed..b5c41e7 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -240,12 +240,16 @@ class ExcellonTool(ExcellonStatement):
             self.settings.units = 'inch'
             if self.diameter is not None:
                 self.diameter = inch(self.diameter)
+            if self.depth_offset is not None:
+                self.depth_offset = inch(self.depth_offset)
 
     def to_metric(self):
         if self.settings.units != 'metric':
             self.settings.units = 'metric'
             if self.diameter is not None:
                 self.diameter = metric(self.diameter)
+            if self.depth_offset is not None:
+                self.depth_offset = metric(self.depth_offset)
 
     def _hit(self):
         self.hit_count += 1
-- 
2.43.0


From 13239ab5b9ef68ceb549ea7166fa9f6bc8d19e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 37/98] fix: files read with the same external tools do not
 share them

---
 gerber/excellon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index ff55f5f..90fb6a2 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -23,6 +23,7 @@ Excellon File module
 This module provides Excellon file classes and parsing utilities
 """
 
+import copy
 import math
 import operator
 
@@ -837,6 +838,8 @@ class ExcellonParser(object):
         if not tool:
             tool = self.ext_tools.get(toolid)
             if tool:
+                # The same tools may be used with other files
+                tool = copy.copy(tool)
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From 07c7fb727adaa4f1066d49baeee61917f8100f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 38/98] fix: write the number format of drill file unit
 statements

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index b5c41e7..87954ad 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -683,10 +683,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format in ((4, 2), (3, 3), (2, 4)):
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From a1d714f482b11e9e35095fb3ecdf1e9f4ba2fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 39/98] fix: spindle speeds too large for the format are
 written with a decimal point and all digits

---
 gerber/excellon_statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 87954ad..5c5aeaf 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -225,10 +225,11 @@ class ExcellonTool(ExcellonStatement):
         if self.max_hit_count is not None:
             stmt += 'H%s' % write_gerber_value(self.max_hit_count, fmt, zs)
         if self.rpm is not None:
-            if self.rpm < 100000.:
+            if self.rpm < 1000. * 10 ** min(fmt[0], 2):
                 stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
             else:
-                stmt += 'S%g' % (self.rpm / 1000.)
+                # Too large for the format, needs a decimal point
+                stmt += 'S%s' % decimal_string(self.rpm / 1000., fmt[1])
         if self.diameter is not None:
             stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
         if self.depth_offset is not None:
-- 
2.43.0


From 8f64f29d31b8a3f7d88480f4775afda91dfe36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 40/98] fix: write slots, and complete headers, of drill files

---
 gerber/excellon.py | 76 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 90fb6a2..f561d45 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -24,6 +24,7 @@ This module provides Excellon file classes and parsing utilities
 """
 
 import copy
+import itertools
 import math
 import operator
 
@@ -305,22 +306,81 @@ class ExcellonFile(CamFile):
         filename = filename if filename is not None else self.filename
         with open(filename, 'w') as f:
 
-            # Copy the header verbatim
-            for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
-                    f.write(statement.to_excellon(self.settings) + '\n')
-                else:
-                    break
+            for statement in self._header_statements():
+                f.write(statement.to_excellon(self.settings) + '\n')
 
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
                 for hit in self.hits:
                     if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
+                        for statement in self._hit_statements(hit):
+                            f.write(statement.to_excellon(self.settings) + '\n')
             f.write(EndOfProgramStmt().to_excellon() + '\n')
 
+    def _header_statements(self):
+        """ The header of the file as it is written: the statements before the
+        first tool or hole, with what they leave out filled in
+        """
+        body = (ToolSelectionStmt, NextToolSelectionStmt, CoordinateStmt,
+                RepeatHoleStmt, SlotStmt, RouteModeStmt, LinearModeStmt,
+                ZAxisRoutPositionStmt, RetractWithClampingStmt,
+                RetractWithoutClampingStmt, EndOfProgramStmt)
+        statements = []
+        state = 'INIT'
+        end = None
+        declared = set()
+        for statement in itertools.takewhile(lambda s: not isinstance(s, body),
+                                             self.statements):
+            if isinstance(statement, ExcellonTool):
+                # Tools are only declared in the header, add the others below
+                if state != 'HEADER':
+                    continue
+                declared.add(statement.number)
+            elif isinstance(statement, HeaderBeginStmt):
+                state = 'HEADER'
+            elif isinstance(statement, CommentStmt):
+                if 'HEADER:' in statement.comment or ' Holesize ' in statement.comment:
+                    state = 'HEADER'
+            elif isinstance(statement, IncrementalModeStmt):
+                # Positions are written in absolute coordinates
+                statement = IncrementalModeStmt('off')
+            elif isinstance(statement, RewindStopStmt) and state == 'INIT':
+                state = 'HEADER'
+            elif isinstance(statement, (RewindStopStmt, HeaderEndStmt)) and state == 'HEADER':
+                state = 'DRILL'
+                end = len(statements)
+            statements.append(statement)
+
+        if state == 'INIT':
+            statements.insert(0, HeaderBeginStmt())
+            if not any(isinstance(s, (UnitStmt, MeasuringModeStmt)) for s in statements):
+                statements.insert(1, UnitStmt.from_settings(self.settings))
+        if state != 'DRILL':
+            end = len(statements)
+            statements.append(RewindStopStmt())
+        missing = []
+        if self.notation != 'absolute':
+            missing.append(IncrementalModeStmt('off'))
+        missing.extend(tool for tool in iter(self.tools.values())
+                       if tool.number not in declared)
+        statements[end:end] = missing
+        return statements
+
+    @staticmethod
+    def _hit_statements(hit):
+        """ The statements that drill or rout a hole or slot
+        """
+        if not isinstance(hit, DrillSlot):
+            return [CoordinateStmt.from_point(hit.position)]
+        if hit.slot_type == DrillSlot.TYPE_G85:
+            return [SlotStmt.from_points(hit.start, hit.end)]
+        return [CoordinateStmt.from_point(hit.start, 'ROUT'),
+                ZAxisRoutPositionStmt(),
+                CoordinateStmt.from_point(hit.end, 'LINEAR'),
+                RetractWithClampingStmt(),
+                DrillModeStmt()]
+
     def to_inch(self):
         """
         Convert units to inches
-- 
2.43.0


From 8a32dec4e92c6c030f74425bb27dcca9ed929149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 41/98] fix: format detection honours formats given by
 statements and files with nothing to choose by

---
 gerber/excellon.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index f561d45..bff11ee 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -937,8 +937,9 @@ def detect_excellon_format(data=None, filename=None):
     p.parse_raw(data)
 
     # Get zero_suppression from a unit statement
-    zero_statements = [stmt.zeros for stmt in p.statements
+    unit_statements = [stmt for stmt in p.statements
                        if isinstance(stmt, UnitStmt)]
+    zero_statements = set(stmt.zeros for stmt in unit_statements)
 
     # get format from altium comment
     format_comment = [stmt.comment for stmt in p.statements
@@ -948,7 +949,15 @@ def detect_excellon_format(data=None, filename=None):
     detected_format = (tuple([int(val) for val in
                               format_comment[0].split('=')[1].split(':')])
                        if len(format_comment) == 1 else None)
-    detected_zeros = zero_statements[0] if len(zero_statements) == 1 else None
+    detected_zeros = zero_statements.pop() if len(zero_statements) == 1 else None
+
+    # Formats given by statements apply whatever a comment says
+    format_statements = set(stmt.format for stmt in unit_statements
+                            if stmt.format is not None)
+    format_statements.update(stmt.format_tuple for stmt in p.statements
+                             if isinstance(stmt, FormatStmt))
+    if len(format_statements) == 1:
+        detected_format = format_statements.pop()
 
     # Bail out here if possible
     if detected_format is not None and detected_zeros is not None:
@@ -989,6 +998,11 @@ def detect_excellon_format(data=None, filename=None):
     if detected_format is not None and detected_zeros is not None:
         return {'format': detected_format, 'zeros': detected_zeros}
 
+    # Nothing to choose between, e.g. if there are tools without a diameter
+    elif not results:
+        return {'format': detected_format or format_options[0],
+                'zeros': detected_zeros or zeros_options[0]}
+
     # Otherwise score each option and pick the best candidate
     else:
         scores = {}
-- 
2.43.0


From 5486e2f6377ad61dae702b89e6e3e3f7be7c7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 42/98] fix: Gerber files can be copied

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index aac9390..863e256 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -280,7 +280,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From 885afa0affbe54968e7a4249ab6aa32030904546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 43/98] fix: read the last field of netlist records whose
 trailing blanks are left out

---
 gerber/ipc356.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..0f72d09 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,22 +291,22 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
+        end = 17
         record['net_name'] = line[3:end].strip()
 
         if len(line) >= 27 and line[26] != '-':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = 26 + offset
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -314,37 +314,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -356,7 +356,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = 79 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From ce7446e033efcc7da9c49b95fdcdfe2904929640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 44/98] fix: negative coordinates in netlist records without a
 pin

---
 gerber/ipc356.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 0f72d09..fb46fa0 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -24,6 +24,9 @@ from .primitives import TestRecord
 # Net Name Variables
 _NNAME = re.compile(r'^NNAME\d+$')
 
+# Rest of a component name that is longer than its columns, up to the pin
+_LONG_ID = re.compile(r'[^\s-]+(?=-)')
+
 # Board Edge Coordinates
 _COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
 
@@ -294,9 +297,10 @@ class IPC356_TestRecord(object):
         end = 17
         record['net_name'] = line[3:end].strip()
 
+        # Long component names push the columns after them to the right
         if len(line) >= 27 and line[26] != '-':
-            offset = line[26:].find('-')
-            offset = 0 if offset == -1 else offset
+            rest = _LONG_ID.match(line[26:])
+            offset = 0 if rest is None else rest.end()
         end = 26 + offset
         record['id'] = line[20:end].strip()
 
-- 
2.43.0


From c3a680d72ed7d43da8bab65121dee5b207cce422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 45/98] fix: negative coordinates in netlist outlines and
 conductors

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index fb46fa0..f8a5406 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -28,7 +28,7 @@ _NNAME = re.compile(r'^NNAME\d+$')
 _LONG_ID = re.compile(r'[^\s-]+(?=-)')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[+-]?[\d\s]*)?Y?(?P<y>[+-]?[\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From b204970513f5d2bfb48e3110fabc8d27ca0ca145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 46/98] fix: rotations in radians in netlists

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index f8a5406..a0c4a80 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -352,7 +352,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From aaca4031a38e047bd5bd7b2225fe35965fdc9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 47/98] fix: adjacent nets of several adjacency records

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index a0c4a80..2c888c2 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -115,7 +115,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From eed84b18dcfdd770e528bf0d799fc62fd72b4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 48/98] fix: read tooling feature and tooling hole records of
 netlists

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 2c888c2..a1f52c4 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -214,7 +214,7 @@ class IPCNetlistParser(object):
         elif line[0] == '9':
             self.statements.append(IPC356_EndOfFile())
 
-        elif line[0:3] in ('317', '327', '367'):
+        elif line[0:3] in ('317', '327', '337', '347', '367'):
             # Test Record
             record = IPC356_TestRecord.from_line(line, self.settings)
 
-- 
2.43.0


From 437a9b4c59958729c40f9a159ac66b89e9286557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 49/98] fix: blank net and component names are not nets and
 components

---
 gerber/ipc356.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index a1f52c4..7378982 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -111,7 +111,7 @@ class IPCNetlist(CamFile):
     def nets(self):
         nets = []
         for net in list(set([rec.net_name for rec in self.test_records
-                             if rec.net_name is not None])):
+                             if rec.net_name])):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
@@ -124,7 +124,7 @@ class IPCNetlist(CamFile):
     @property
     def components(self):
         return list(set([rec.id for rec in self.test_records
-                         if rec.id is not None and rec.id != 'VIA']))
+                         if rec.id and rec.id != 'VIA']))
 
     @property
     def vias(self):
-- 
2.43.0


From 81ae792aee4d6e61a5b8ce8cf2cb2c3fb81df4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 50/98] fix: resolve net name aliases in conductor and
 adjacency records

---
 gerber/ipc356.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 7378982..a294417 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -219,20 +219,22 @@ class IPCNetlistParser(object):
             record = IPC356_TestRecord.from_line(line, self.settings)
 
             # Substitute net name variables
-            net = record.net_name
-            if (_NNAME.match(net) and net in self.nnames.keys()):
-                record.net_name = self.nnames[record.net_name]
+            record.net_name = self._net_name(record.net_name)
             self.statements.append(record)
 
         elif line[0:3] == '378':
             # Conductor
-            self.statements.append(
-                IPC356_Conductor.from_line(
-                    line, self.settings))
+            conductor = IPC356_Conductor.from_line(line, self.settings)
+            conductor.net_name = self._net_name(conductor.net_name)
+            self.statements.append(conductor)
 
         elif line[0:3] == '379':
             # Net Adjacency
-            self.statements.append(IPC356_Adjacency.from_line(line))
+            adjacency = IPC356_Adjacency.from_line(line)
+            adjacency.net = self._net_name(adjacency.net)
+            adjacency.adjacent_nets = [self._net_name(net)
+                                       for net in adjacency.adjacent_nets]
+            self.statements.append(adjacency)
 
         elif line[0:3] == '389':
             # Outline
@@ -240,6 +242,11 @@ class IPCNetlistParser(object):
                 IPC356_Outline.from_line(
                     line, self.settings))
 
+    def _net_name(self, net):
+        if _NNAME.match(net):
+            return self.nnames.get(net, net)
+        return net
+
 
 class IPC356_Comment(object):
 
-- 
2.43.0


From 9e7652747ede5a008c766d5644a4e8099139f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 51/98] fix: names, attributes and comments that look like a
 marker do not decide a file's format

---
 gerber/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index bb8c530..7077c09 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -24,6 +24,7 @@ files.
 """
 
 import os
+import re
 from math import radians, sin, cos, sqrt, atan2, pi
 
 MILLIMETERS_PER_INCH = 25.4
@@ -236,15 +237,16 @@ def detect_file_format(data):
     format : string
         File format. 'excellon' or 'rs274x' or 'unknown'
     """
-    lines = data.split('\n')
+    lines = data.splitlines()
     for line in lines:
-        if 'M48' in line:
+        words = line.split()
+        # Names, attributes and comments may contain anything
+        if re.match(r'[^\w;]*M48', line):
             return 'excellon'
-        elif '%FS' in line:
-            return 'rs274x'
-        elif ((len(line.split()) >= 2) and
-              (line.split()[0] == 'P') and (line.split()[1] == 'JOB')):
+        elif len(words) >= 2 and words[0] == 'P' and words[1] == 'JOB':
             return 'ipc_d_356'
+        elif '%FS' in line and not line.startswith((';', 'C ', 'P ')):
+            return 'rs274x'
     return 'unknown'
 
 
-- 
2.43.0


From 52bddf98c3324de482e045a5cbe3aed8af205685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 52/98] fix: sort_layers keeps the layers which have no place
 in the stackup

---
 gerber/layers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..085a841 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -190,6 +190,11 @@ def sort_layers(layers, from_top=True):
         for layer in layers:
             if layer.layer_class == layer_class:
                 output.append(layer)
+
+    # Layers which are not part of the stackup, e.g. netlists
+    for layer in layers:
+        if layer.layer_class not in layer_order + append_after:
+            output.append(layer)
     return output
 
 
-- 
2.43.0


From 6ac816c9f403d792ad940cb8529a37b2d0a64781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 53/98] fix: views of a board without layers on that side are
 not an error

---
 gerber/pcb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..cc8d7ad 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -81,7 +81,7 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def bottom_layers(self):
@@ -89,7 +89,7 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 73818e0e1a8a51d39cd69b67c41c12870ac54573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 54/98] fix: number of an internal layer is the one of its
 layer name, and IPC netlists are netlists whatever their name

---
 gerber/layers.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 085a841..d0da25a 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -148,6 +148,29 @@ def guess_layer_class(filename):
     return 'unknown'
 
 
+def guess_layer_order(filename):
+    """ Number of an internal layer: the one in the part of the name which tells
+    that it is an internal layer, or else the first one in the name
+    """
+    basename = os.path.basename(filename)
+    name, ext = os.path.splitext(basename)
+    parts = []
+    for hint in hints:
+        if hint.layer == 'internal':
+            if ext[1:].lower() in hint.ext:
+                parts.append(ext)
+            for x in hint.name:
+                match = re.match(r'^(?:\w*[.-])*({}(?:[.-]\w*)?)$'.format(x),
+                                 name, re.IGNORECASE)
+                if match:
+                    parts.append(match.group(1))
+    for part in parts + [basename]:
+        number = re.search(r'\d+', part)
+        if number:
+            return int(number.group())
+    return 0
+
+
 def guess_layer_class_by_content(filename):
     try:
         file = open(filename, 'r')
@@ -217,12 +240,12 @@ class PCBLayer(object):
     def from_cam(cls, camfile):
         filename = camfile.filename
         layer_class = guess_layer_class(filename)
-        if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
+        if isinstance(camfile, IPCNetlist):
+            layer_class = 'ipc_netlist'
+        elif isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
             return DrillLayer.from_cam(camfile)
         elif layer_class == 'internal':
             return InternalLayer.from_cam(camfile)
-        if isinstance(camfile, IPCNetlist):
-            layer_class = 'ipc_netlist'
         return cls(filename, layer_class, camfile)
 
     def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
@@ -259,11 +282,7 @@ class InternalLayer(PCBLayer):
     @classmethod
     def from_cam(cls, camfile):
         filename = camfile.filename
-        try:
-            order = int(re.search(r'\d+', filename).group())
-        except AttributeError:
-            order = 0
-        return cls(filename, camfile, order)
+        return cls(filename, camfile, guess_layer_order(filename))
 
     def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
         super(InternalLayer, self).__init__(filename, 'internal', cam_source, **kwargs)
-- 
2.43.0


From 3683d7a6d2d42b36df77f3420775e5b060025bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 55/98] fix: files which are not text are skipped when loading
 a directory

---
 gerber/pcb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index cc8d7ad..d685b10 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -52,7 +52,7 @@ class PCB(object):
                 if verbose:
                     print('[PCB]: Added {} layer <{}>'.format(layer.layer_class,
                                                               filename))
-            except ParseError:
+            except (ParseError, UnicodeDecodeError):
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
             except IOError:
-- 
2.43.0


From 3901386962cfb2b6fe7c2f5ae019946c345ae61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 56/98] fix: Gerber output keeps lines of no length, which draw
 a dot

---
 gerber/render/rs274x_backend.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..0a195fb 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -197,14 +197,9 @@ class Rs274xContext(GerberContext):
             # We already set the function, so the next command doesn't require that
             func = None
 
-        point = self._simplify_point(line.end)
-
-        # In some files, we see a lot of duplicated ponts, so omit those
-        if point[0] != None or point[1] != None:
-            self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
-            self._pos = line.end
-        elif func:
-            self.body.append(CoordStmt.mode(func))
+        # A line to where it starts is a dot in the shape of the aperture
+        self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
+        self._pos = line.end
 
     def _render_arc(self, arc, color, default_polarity='dark'):
 
-- 
2.43.0


From 5ad3be7b38a8617a82aa6788f98eb3e871351503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 57/98] fix: Gerber output keeps the holes of line apertures
 and draws with polygons

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 0a195fb..1baf73e 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -161,9 +161,11 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides, aperture.rotation, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From 7158ccde75735f45c4733c7dd77b0ac622932f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 58/98] fix: Gerber output defines macro apertures with their
 own modifiers, under a name of their own, once for all positions

---
 gerber/gerber_statements.py     |  8 +++++---
 gerber/primitives.py            |  3 +++
 gerber/render/rs274x_backend.py | 12 ++++++------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index e165870..56f2f8c 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -310,8 +310,8 @@ class ADParamStmt(ParamStmt):
 
 
     @classmethod
-    def macro(cls, dcode, name):
-        return cls('AD', dcode, name, '')
+    def macro(cls, dcode, name, modifiers=None):
+        return cls('AD', dcode, name, tuple(modifiers) if modifiers else '')
 
     @classmethod
     def from_dict(cls, stmt_dict):
@@ -471,7 +471,9 @@ class AMParamStmt(ParamStmt):
             self._varies = True
         self._builds += 1
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        group = AMGroup(self.primitives, stmt=self, units=self.units)
+        group.modifiers = modifiers
+        return group
 
     def to_inch(self):
         if self.units == 'metric':
diff --git a/gerber/primitives.py b/gerber/primitives.py
index 841c675..7a41ffb 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1273,6 +1273,9 @@ class AMGroup(Primitive):
         self._to_convert = ['_position', 'primitives']
         self.stmt = stmt
 
+        # Modifiers of the aperture, if the statement depends on them
+        self.modifiers = None
+
     def to_inch(self):
         if self.units == 'metric':
             super(AMGroup, self).to_inch()
diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 1baf73e..7123530 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -404,10 +404,7 @@ class Rs274xContext(GerberContext):
 
             hash += primitive.__class__.__name__[0]
 
-            bbox = primitive.bounding_box
-            hash += str((bbox[0][1] - bbox[0][0]) * 100000)[0:2]
-            hash += str((bbox[1][1] - bbox[1][0]) * 100000)[0:2]
-
+            # Only use what is the same number wherever the group is
             if hasattr(primitive, 'primitives'):
                 hash += str(len(primitive.primitives))
 
@@ -461,11 +458,14 @@ class Rs274xContext(GerberContext):
             # Create the statements
             # TODO
             amrenderer = AMGroupContext()
-            statement = amrenderer.render(amgroup, hash)
+            name = '%s_%d' % (hash, len(macroinfo)) if macroinfo else hash
+            statement = amrenderer.render(amgroup, name)
 
             self.header.append(statement)
 
-            aperdef = ADParamStmt.macro(dcode, hash)
+            # The statement may need the modifiers of the group's aperture
+            modifiers = amgroup.modifiers if amgroup.stmt else None
+            aperdef = ADParamStmt.macro(dcode, name, modifiers)
             self.header.append(aperdef)
 
             # Store the dcode and the original so we can check if it really is the same
-- 
2.43.0


From 1583859c72bf23f912b76cc825df98db1fd2679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 59/98] fix: macro primitives made from clear objects are clear

---
 gerber/am_statements.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index c801e95..94cb85a 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -38,6 +38,12 @@ def _modifier(value):
     return plain_number(value, 12) if 'e' in text else text
 
 
+def _exposure(primitive):
+    """ Exposure of a macro primitive that draws a graphical object
+    """
+    return 'off' if primitive.level_polarity == 'clear' else 'on'
+
+
 def _point(point):
     """ Text of the two modifiers of a point
     """
@@ -212,7 +218,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, _exposure(primitive), primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position, rotation=0):
         validate_coordinates(position)
@@ -289,7 +295,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, _exposure(primitive), primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -413,7 +419,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, _exposure(primitive), start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -527,7 +533,7 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        return cls(5, _exposure(primitive), primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -911,7 +917,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         height = primitive.height
         center = primitive.position
         rotation = math.degrees(primitive.rotation)
-        return cls(21, 'on', width, height, center, rotation)
+        return cls(21, _exposure(primitive), width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
-- 
2.43.0


From b4c51041ca5b1c5e060b26f477a3a2ee94b274b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 60/98] fix: macro groups that differ in the exposure or the
 rotation of a part are different

---
 gerber/primitives.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 7a41ffb..75e7ba8 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1246,6 +1246,9 @@ class Polygon(Primitive):
         if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
             return False
 
+        if self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+            return False
+
         equiv_pos = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_pos)
@@ -1348,6 +1351,8 @@ class AMGroup(Primitive):
 
         # We know they have the same number of primitives, so now check them all
         for i in range(0, len(self.primitives)):
+            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
+                return False
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
 
-- 
2.43.0


From 165730ca16c471ca6b26332a3978df4749f3a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 61/98] fix: Excellon output of drills and slots (tools are not
 hashable)

---
 gerber/render/excellon_backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..a7b2ade 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -101,8 +101,8 @@ class ExcellonContext(GerberContext):
             self._start_drill_mode()
 
         tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
         if tool != self.cur_tool:
@@ -138,8 +138,8 @@ class ExcellonContext(GerberContext):
 
         # Set the tool first, before we might go into drill mode
         tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
         if tool != self.cur_tool:
-- 
2.43.0


From 1188f4e6fc4c82621ee0601f6abf58781f1af483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 62/98] fix: Excellon output: drills and slots know their hits,
 repeated holes are kept and tools change while retracted

---
 gerber/excellon.py                |  4 ++--
 gerber/primitives.py              |  9 ++++++---
 gerber/render/excellon_backend.py | 25 ++++++++++++++++---------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index bff11ee..04685a1 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -255,10 +255,10 @@ class ExcellonFile(CamFile):
         for hit in self.hits:
             if isinstance(hit, DrillHit):
                 primitives.append(Drill(hit.position, hit.tool.diameter,
-                                        units=self.settings.units))
+                                        units=self.settings.units, hit=hit))
             elif isinstance(hit, DrillSlot):
                 primitives.append(Slot(hit.start, hit.end, hit.tool.diameter,
-                                       units=self.settings.units))
+                                       units=self.settings.units, hit=hit))
             else:
                 raise ValueError('Unknown hit type')
         return primitives
diff --git a/gerber/primitives.py b/gerber/primitives.py
index 75e7ba8..6a3c099 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -68,7 +68,8 @@ class Primitive(object):
                                   'implemented in subclass')
 
     def __eq__(self, other):
-        derived = ('_bounding_box', '_vertices', '_segments')
+        # The hit of a drill is where it comes from
+        derived = ('_bounding_box', '_vertices', '_segments', 'hit')
         return (dict((k, v) for k, v in self.__dict__.items() if k not in derived) ==
                 dict((k, v) for k, v in other.__dict__.items() if k not in derived))
 
@@ -1582,9 +1583,10 @@ class SquareRoundDonut(Primitive):
 class Drill(Primitive):
     """ A drill hole
     """
-    def __init__(self, position, diameter, **kwargs):
+    def __init__(self, position, diameter, hit=None, **kwargs):
         super(Drill, self).__init__('dark', **kwargs)
         validate_coordinates(position)
+        self.hit = hit
         self._position = position
         self._diameter = diameter
         self._to_convert = ['position', 'diameter']
@@ -1636,10 +1638,11 @@ class Drill(Primitive):
 class Slot(Primitive):
     """ A drilled slot
     """
-    def __init__(self, start, end, diameter, **kwargs):
+    def __init__(self, start, end, diameter, hit=None, **kwargs):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
         validate_coordinates(end)
+        self.hit = hit
         self.start = start
         self.end = end
         self.diameter = diameter
diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index a7b2ade..b9ccfef 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -93,6 +93,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
+        # There has to be a coordinate
+        if point == self._pos:
+            return point
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
     def _render_drill(self, drill, color):
@@ -105,14 +108,21 @@ class ExcellonContext(GerberContext):
             self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if tool.number != self.cur_tool:
+            self._retract()
             self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+            self.cur_tool = tool.number
 
         point = self._simplify_point(drill.position)
         self._pos = drill.position
         self.body.append(CoordinateStmt.from_point(point))
 
+    def _retract(self):
+        if self.drill_down:
+            self.body.append(RetractWithClampingStmt())
+            self.body.append(RetractWithoutClampingStmt())
+            self.drill_down = False
+
     def _start_drill_mode(self):
         """
         If we are not in drill mode, then end the ROUT so we can do basic drilling
@@ -121,11 +131,7 @@ class ExcellonContext(GerberContext):
         if self.drill_mode == ExcellonContext.MODE_SLOT:
 
             # Make sure we are retracted before changing modes
-            last_cmd = self.body[-1]
-            if self.drill_down:
-                self.body.append(RetractWithClampingStmt())
-                self.body.append(RetractWithoutClampingStmt())
-                self.drill_down = False
+            self._retract()
 
             # Switch to drill mode
             self.body.append(DrillModeStmt())
@@ -142,9 +148,10 @@ class ExcellonContext(GerberContext):
             self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if tool.number != self.cur_tool:
+            self._retract()
             self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+            self.cur_tool = tool.number
 
         # Two types of drilling - normal drill and slots
         if slot.hit.slot_type == DrillSlot.TYPE_ROUT:
-- 
2.43.0


From 81b1b09a5bf9a9de8def8fdac17b87792f88bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 63/98] fix: clear objects on an inverted layer are painted,
 not cut

---
 gerber/render/cairo_backend.py | 49 +++++++++++-----------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..9a95fbc 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -199,13 +199,17 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        # Dark primitives add to the image and clear ones remove from it, on an
+        # inverted layer it is the other way around
+        if (primitive.level_polarity == 'dark') != bool(self.invert):
+            return cairo.OPERATOR_OVER
+        return cairo.OPERATOR_CLEAR
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -242,10 +246,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -274,9 +275,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -301,10 +300,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -345,10 +341,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -384,10 +377,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -437,10 +427,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -499,9 +486,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -522,9 +507,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 79c0559df7c175bd110837cf7b61d2a81d559d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 64/98] fix: holes of clear and of inverted objects are cut out
 of the object

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 9a95fbc..8f9d458 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -315,10 +315,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -351,19 +348,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -405,10 +396,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -444,10 +432,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -455,10 +440,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From 5ccb2ce26a1103fff70e248c9f19d52c27a94f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 65/98] fix: rotated rectangles and obrounds are rendered
 rotated

---
 gerber/render/cairo_backend.py | 36 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8f9d458..bf5e3ce 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -334,15 +334,14 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_rectangle(self, rectangle, color):
-        lower_left = self.scale_point(rectangle.lower_left)
-        width, height = tuple([abs(coord) for coord in
-                               self.scale_point((rectangle.width,
-                                                 rectangle.height))])
+        vertices = [self.scale_point(vertex) for vertex in rectangle.vertices]
         self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
-                mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
+                mask.ctx.move_to(*vertices[-1])
+                for vertex in vertices:
+                    mask.ctx.line_to(*vertex)
                 mask.ctx.fill()
 
                 center = self.scale_point(rectangle.position)
@@ -371,22 +370,17 @@ class GerberCairoContext(GerberContext):
         self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
-                mask.ctx.set_line_width(0)
-
-                # Render circles
-                for circle in (obround.subshapes['circle1'], obround.subshapes['circle2']):
-                    center = self.scale_point(circle.position)
-                    mask.ctx.arc(center[0], center[1], (circle.radius * self.scale[0]), 0, (2 * math.pi))
-                    mask.ctx.fill()
-
-                # Render Rectangle
-                rectangle = obround.subshapes['rectangle']
-                lower_left = self.scale_point(rectangle.lower_left)
-                width, height = tuple([abs(coord) for coord in
-                                       self.scale_point((rectangle.width,
-                                                         rectangle.height))])
-                mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
-                mask.ctx.fill()
+                # An obround is a round stroke along its longer axis
+                subshapes = obround.subshapes
+                start, end = [self.scale_point(rotate_point(subshapes[name].position,
+                                                            obround.rotation,
+                                                            obround.position))
+                              for name in ('circle1', 'circle2')]
+                mask.ctx.set_line_width(min(obround.width, obround.height) * self.scale[0])
+                mask.ctx.set_line_cap(cairo.LINE_CAP_ROUND)
+                mask.ctx.move_to(*start)
+                mask.ctx.line_to(*end)
+                mask.ctx.stroke()
 
                 center = self.scale_point(obround.position)
                 if obround.hole_diameter > 0:
-- 
2.43.0


From 4a1cfef0ecc129fa4ee35ef1ff7469611d0ec8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 66/98] fix: full circles drawn clockwise or in a region are
 rendered

---
 gerber/render/cairo_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index bf5e3ce..93e5de4 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -239,8 +239,8 @@ class GerberCairoContext(GerberContext):
         angle1 = (arc.start_angle + two_pi) % two_pi
         angle2 = (arc.end_angle + two_pi) % two_pi
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
-            # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+            # Draw a full circle, Cairo draws nothing if the angles are equal
+            angle2 += two_pi if arc.direction == 'counterclockwise' else -two_pi
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -289,6 +289,9 @@ class GerberCairoContext(GerberContext):
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
                         angle2 = prim.end_angle
+                        if prim.start == prim.end and prim.quadrant_mode != 'single-quadrant':
+                            # Draw a full circle
+                            angle2 += 2 * math.pi if prim.direction == 'counterclockwise' else -2 * math.pi
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From bd3d56c8b69b2e6df19db05a2f5dce10478275d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 67/98] fix: macro flashes are rendered as a whole: parts with
 exposure off only clear the flash, clear flashes clear

---
 gerber/render/cairo_backend.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 93e5de4..5ed345e 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -476,8 +476,23 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
+        # Parts with exposure off are only cut out of the group itself, so
+        # render the group separately and then add it to the layer
+        layer_ctx, layer_invert = self.ctx, self.invert
+        size_in_pixels = self.size_in_pixels
+        group = cairo.SVGSurface(None, size_in_pixels[0], size_in_pixels[1])
+        self.ctx = cairo.Context(group)
+        self.ctx.set_matrix(self.active_matrix)
+        self.invert = False
         for primitive in amgroup.primitives:
             self.render(primitive)
+        self.ctx, self.invert = layer_ctx, layer_invert
+
+        self.ctx.save()
+        self.ctx.identity_matrix()
+        self.ctx.set_operator(self._operator(amgroup))
+        self.ctx.mask_surface(group)
+        self.ctx.restore()
 
     def _render_test_record(self, primitive, color):
         position = [pos + origin for pos, origin in
-- 
2.43.0


From 940925c5bd7d7529815b89ff346a8ab222442271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 68/98] fix: netlist test points are rendered at their position
 when the picture does not start at the origin

---
 gerber/render/cairo_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 5ed345e..250ae5b 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -495,14 +495,15 @@ class GerberCairoContext(GerberContext):
         self.ctx.restore()
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        # The y axis of the layer starts at its origin
+        x, y = self.scale_point([coord + 0.015 for coord in position])
+        self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From 20932f409888236b14bb6c4718bbb9d6503a5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 69/98] fix: lines drawn with an obround aperture are rendered

---
 gerber/render/cairo_backend.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 250ae5b..2333cfd 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -228,6 +228,23 @@ class GerberCairoContext(GerberContext):
                     for point in points:
                         mask.ctx.line_to(*point)
                     mask.ctx.fill()
+
+                elif isinstance(line.aperture, Obround):
+                    # The stroke is everything within the radius of the ends
+                    # of the parallelogram which the axis of the obround sweeps
+                    obround = line.aperture
+                    radius = min(obround.width, obround.height) / 2.
+                    dx, dy = self.scale_point((obround.width / 2. - radius,
+                                               obround.height / 2. - radius))
+                    mask.ctx.set_line_width(2 * radius * self.scale[0])
+                    mask.ctx.set_line_join(cairo.LINE_JOIN_ROUND)
+                    mask.ctx.move_to(start[0] - dx, start[1] - dy)
+                    mask.ctx.line_to(start[0] + dx, start[1] + dy)
+                    mask.ctx.line_to(end[0] + dx, end[1] + dy)
+                    mask.ctx.line_to(end[0] - dx, end[1] - dy)
+                    mask.ctx.close_path()
+                    mask.ctx.fill_preserve()
+                    mask.ctx.stroke()
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_arc(self, arc, color):
-- 
2.43.0


From 66c9d0516b1abcb6e2a3e21c8d83412395582374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 70/98] fix: objects are not clipped within their last row of
 pixels

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 2333cfd..7ca61a2 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -589,7 +589,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From 25e68767bd6414b18548e92693970db296cecfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 71/98] fix: drill files have bounds, so that a drill layer can
 be rendered first or alone

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 04685a1..6a0483c 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -275,6 +275,10 @@ class ExcellonFile(CamFile):
             ymax = max(bbox[1][1], ymax)
         return ((xmin, xmax), (ymin, ymax))
 
+    @property
+    def bounds(self):
+        return self.bounding_box
+
     def report(self, filename=None):
         """ Print or save drill report
         """
-- 
2.43.0


From 232118fe4603c203f755ab1323c341f194462e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 72/98] fix: themes do not run out of settings for internal
 layers, and every picture starts with the first

---
 gerber/render/cairo_backend.py |  2 ++
 gerber/render/theme.py         | 11 +++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 7ca61a2..b579fdd 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -123,6 +123,8 @@ class GerberCairoContext(GerberContext):
         self.clear()
 
         # Render layers
+        if hasattr(theme, 'reset'):
+            theme.reset()
         bgsettings = theme['background']
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..913f629 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -16,6 +16,8 @@
 # limitations under the License.
 
 
+from itertools import cycle
+
 from .render import RenderSettings
 
 COLORS = {
@@ -70,12 +72,13 @@ class Theme(object):
     @property
     def internal(self):
         if not self._internal_gen:
-            self._internal_gen = self._internal_gen_func()
+            self._internal_gen = cycle(self._internal)
         return next(self._internal_gen)
 
-    def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
+    def reset(self):
+        """ Start over with the first of the settings for internal layers
+        """
+        self._internal_gen = None
 
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
-- 
2.43.0


From 911f65dfad80ca97dd0a54f41158c7f352b00716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 73/98] fix: layers in different units are rendered at the same
 scale

---
 gerber/render/cairo_backend.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index b579fdd..023c802 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -87,6 +87,7 @@ class GerberCairoContext(GerberContext):
             if verbose:
                 print('[Render]: Rendering Background.')
             self.clear()
+            self.units = self._layer_units(layer)
             if bounds is not None:
                 self.set_bounds(bounds)
             else:
@@ -109,7 +110,9 @@ class GerberCairoContext(GerberContext):
         for layer in layers:
             bounds = layer.bounds
             if bounds is not None:
-                layer_x, layer_y = bounds
+                factor = self._unit_factor(self._layer_units(layers[0]), layer)
+                layer_x, layer_y = [[limit * factor for limit in limits]
+                                    for limits in bounds]
                 x_range[0] = min(x_range[0], layer_x[0])
                 x_range[1] = max(x_range[1], layer_x[1])
                 y_range[0] = min(y_range[0], layer_y[0])
@@ -192,14 +195,35 @@ class GerberCairoContext(GerberContext):
 
         return Mask()
 
+    @staticmethod
+    def _layer_units(layer):
+        cam_source = getattr(layer, 'cam_source', None)
+        return getattr(cam_source, 'units', None) or 'inch'
+
+    def _unit_factor(self, units, layer):
+        """ Length of the unit of a layer, measured in `units`
+        """
+        layer_units = self._layer_units(layer)
+        if layer_units == units:
+            return 1.0
+        return 25.4 if layer_units == 'inch' else 1 / 25.4
+
     def _render_layer(self, layer, settings):
         self.invert = settings.invert
+        # The image is in the units of the first layer, scale the others to it
+        image = (self.scale, self.origin_in_inch, self.size_in_inch)
+        factor = self._unit_factor(self.units, layer)
+        if factor != 1.0:
+            self.scale = tuple(scale * factor for scale in self.scale)
+            self.origin_in_inch = tuple(pos / factor for pos in self.origin_in_inch)
+            self.size_in_inch = tuple(size / factor for size in self.size_in_inch)
         # Get a new clean layer to render on
         self.new_render_layer(mirror=settings.mirror)
         for prim in layer.primitives:
             self.render(prim)
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
+        self.scale, self.origin_in_inch, self.size_in_inch = image
 
     def _operator(self, primitive):
         # Dark primitives add to the image and clear ones remove from it, on an
-- 
2.43.0


From e2c8d46737b0a6fe8ccf38666240995cbf9c9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 74/98] fix: boards larger than the maximum picture size in
 pixels are scaled down to it

---
 gerber/render/cairo_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 023c802..da65f6d 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -120,7 +120,9 @@ class GerberCairoContext(GerberContext):
         width = x_range[1] - x_range[0]
         height = y_range[1] - y_range[0]
 
-        scale = math.floor(min(float(max_width)/width, float(max_height)/height))
+        scale = min(float(max_width)/width, float(max_height)/height)
+        if scale > 1:
+            scale = math.floor(scale)
         self.scale = (scale, scale)
 
         self.clear()
-- 
2.43.0


From af06ef1b5cb50b2ea939eb2e7c18dc28a162027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 75/98] fix: the outline of a board is mirrored in the picture
 of its bottom like the other layers

---
 gerber/render/cairo_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index da65f6d..7fcbc18 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -131,8 +131,14 @@ class GerberCairoContext(GerberContext):
         if hasattr(theme, 'reset'):
             theme.reset()
         bgsettings = theme['background']
-        for layer in layers:
-            settings = theme.get(layer.layer_class, RenderSettings())
+        all_settings = [theme.get(layer.layer_class, RenderSettings()) for layer in layers]
+        mirrored = any(settings.mirror for settings in all_settings)
+        for layer, settings in zip(layers, all_settings):
+            if mirrored and layer.layer_class in ('outline', 'drill'):
+                # These do not belong to a side, show them as seen from the
+                # same side as the others
+                settings = RenderSettings(settings.color, settings.alpha,
+                                          settings.invert, mirror=True)
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
                               verbose=verbose)
         self.dump(filename, verbose)
-- 
2.43.0


From 481a1db9a87df52f94e12e0ffe0fc5423ee66fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 76/98] fix: gerber-render leaves out views without layers
 instead of failing on boards with one side

---
 gerber/__main__.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 988adff..79ac349 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -92,20 +92,17 @@ def main():
                 bottom = [outline] + bottom
                 copper = [outline] + copper + pcb.drill_layers
 
-            renderer.render_layers(
-                layers=top, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.top.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=bottom, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.bottom.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=copper, theme=theme.THEMES['Transparent Multilayer'],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.copper.{1}'.format(args.outfile, outext))
+            views = [('top', top, theme.THEMES[args.theme]),
+                     ('bottom', bottom, theme.THEMES[args.theme]),
+                     ('copper', copper, theme.THEMES['Transparent Multilayer'])]
+            for name, layers, view_theme in views:
+                # Nothing to draw if the board has none of these layers
+                if any(layer.bounds is not None for layer in layers):
+                    renderer.render_layers(
+                        layers=layers, theme=view_theme,
+                        max_height=args.height, max_width=args.width,
+                        filename='{0}.{1}.{2}'.format(args.outfile, name, outext)
+                    )
         else:
             pass
     else:
-- 
2.43.0


From cc109f534682f84a1e63b10e02a3b5d2a4deba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 77/98] fix: coordinates of incremental Gerber files are
 distances from the previous position

---
 gerber/rs274x.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 863e256..1363424 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -119,15 +119,19 @@ class GerberFile(CamFile):
     def bounds(self):
         min_x = min_y = 1000000
         max_x = max_y = -1000000
+        x = y = 0
+        incremental = self.notation == 'incremental'
 
         for stmt in [stmt for stmt in self.statements if isinstance(stmt, CoordStmt)]:
             if stmt.x is not None:
-                min_x = min(stmt.x, min_x)
-                max_x = max(stmt.x, max_x)
+                x = x + stmt.x if incremental else stmt.x
+                min_x = min(x, min_x)
+                max_x = max(x, max_x)
 
             if stmt.y is not None:
-                min_y = min(stmt.y, min_y)
-                max_y = max(stmt.y, max_y)
+                y = y + stmt.y if incremental else stmt.y
+                min_y = min(y, min_y)
+                max_y = max(y, max_y)
 
         return ((min_x, max_x), (min_y, max_y))
 
@@ -171,12 +175,17 @@ class GerberFile(CamFile):
                 primitive.to_metric()
 
     def offset(self, x_offset=0,  y_offset=0):
+        x, y = x_offset, y_offset
         for statement in self.statements:
             if isinstance(statement, CoordStmt):
                 # I and J are distances from the start of an arc
                 i, j = statement.i, statement.j
-                statement.offset(x_offset, y_offset)
+                statement.offset(x, y)
                 statement.i, statement.j = i, j
+                if self.notation == 'incremental':
+                    # Later coordinates are distances from these
+                    x = 0 if statement.x is not None else x
+                    y = 0 if statement.y is not None else y
             else:
                 statement.offset(x_offset, y_offset)
         for primitive in self.primitives:
@@ -624,6 +633,10 @@ class GerberParser(object):
     def _evaluate_coord(self, stmt):
         x = self.x if stmt.x is None else stmt.x
         y = self.y if stmt.y is None else stmt.y
+        if self.settings.notation == 'incremental':
+            # Distances from the previous position
+            x = self.x + (stmt.x or 0)
+            y = self.y + (stmt.y or 0)
 
         if stmt.function in ("G01", "G1"):
             self.interpolation = 'linear'
-- 
2.43.0


From d854cf0f264fe51565a60a019c8bfcc381852f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 78/98] fix: keep the scale factors of SF statements when
 reading, writing and converting

---
 gerber/gerber_statements.py |  4 ++--
 gerber/rs274x.py            | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 56f2f8c..84eca17 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -786,8 +786,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 1363424..5a06a3a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -162,7 +162,9 @@ class GerberFile(CamFile):
         if self.units != 'inch':
             self.units = 'inch'
             for statement in self.statements:
-                statement.to_inch()
+                # Scale factors have no unit
+                if not isinstance(statement, SFParamStmt):
+                    statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
 
@@ -170,7 +172,9 @@ class GerberFile(CamFile):
         if self.units != 'metric':
             self.units = 'metric'
             for statement in self.statements:
-                statement.to_metric()
+                # Scale factors have no unit
+                if not isinstance(statement, SFParamStmt):
+                    statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
 
@@ -220,7 +224,7 @@ class GerberParser(object):
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>[^*%]*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
     LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
-- 
2.43.0


From 8b0f2191dd24737abccb7bf9011ffee8b2dac0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 79/98] fix: offsetting a file moves its coordinates, not its
 image offset and scale factors as well

---
 gerber/rs274x.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 5a06a3a..cf5fb6a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -190,8 +190,6 @@ class GerberFile(CamFile):
                     # Later coordinates are distances from these
                     x = 0 if statement.x is not None else x
                     y = 0 if statement.y is not None else y
-            else:
-                statement.offset(x_offset, y_offset)
         for primitive in self.primitives:
             primitive.offset(x_offset, y_offset)
 
-- 
2.43.0


From c6379d451f3e535c200ee83fe97c61087c86bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 80/98] fix: end unsupported primitives of aperture macros when
 writing them

---
 gerber/gerber_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 84eca17..25b5286 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -465,7 +465,7 @@ class AMParamStmt(ParamStmt):
                     AMThermalPrimitive.from_gerber(primitive))
             else:
                 self.primitives.append(
-                    AMUnsupportPrimitive.from_gerber(primitive))
+                    AMUnsupportPrimitive.from_gerber(primitive.strip(' *') + '*'))
 
         if self._builds and previous != self.primitives:
             self._varies = True
-- 
2.43.0


From d127e75ba0cf5bcae004ae842ee6926d1dc61a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 81/98] fix: bounding box of aperture macros without supported
 primitives

---
 gerber/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6a3c099..2e9af8f 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1304,6 +1304,10 @@ class AMGroup(Primitive):
     @property
     def bounding_box(self):
         # TODO Make this cached like other items
+        if not self.primitives:
+            # Nothing but unsupported primitives
+            x, y = self._position or (0, 0)
+            return ((x, x), (y, y))
         xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
         minx, maxx = zip(*xlims)
         miny, maxy = zip(*ylims)
-- 
2.43.0


From b20fa43dea9b0c5fcf4d806e2ba46d9cf134432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 82/98] fix: text of an SVG picture was empty

---
 gerber/render/cairo_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 7fcbc18..113fda3 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -174,6 +174,7 @@ class GerberCairoContext(GerberContext):
         """
         self.surface.finish()
         self.surface_buffer.flush()
+        self.surface_buffer.seek(0)
         return self.surface_buffer.read()
 
     def clear(self):
-- 
2.43.0


From 9f575c2032f1cb74a6024324c17305238a2b428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 83/98] fix: the end of program of drill files may have signed
 coordinates and is written in the format of the file

---
 gerber/excellon_statements.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 5c5aeaf..aba3bee 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -606,8 +606,8 @@ class EndOfProgramStmt(ExcellonStatement):
 
     @classmethod
     def from_excellon(cls, line, settings, **kwargs):
-        match = re.compile(r'M30X?(?P<x>\d*\.?\d*)?Y?'
-                           '(?P<y>\d*\.?\d*)?').match(line)
+        match = re.compile(r'M30X?(?P<x>[+\-]?\d*\.?\d*)?Y?'
+                           '(?P<y>[+\-]?\d*\.?\d*)?').match(line)
         stmt = match.groupdict()
         x = (parse_gerber_value(stmt['x'], settings.format,
                                 settings.zero_suppression)
@@ -626,10 +626,12 @@ class EndOfProgramStmt(ExcellonStatement):
 
     def to_excellon(self, settings=None):
         stmt = 'M30'
+        fmt = ((settings.format, settings.zero_suppression)
+               if settings is not None else ())
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += 'X%s' % write_gerber_value(self.x, *fmt)
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += 'Y%s' % write_gerber_value(self.y, *fmt)
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From c78ed09f0e0686afa56f30eaf5d54efa62dbf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 84/98] fix: convert the apertures a Gerber file lists along
 with the file

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index cf5fb6a..9b4db3a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -167,6 +167,8 @@ class GerberFile(CamFile):
                     statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
+            for aperture in self.apertures:
+                aperture.to_inch()
 
     def to_metric(self):
         if self.units != 'metric':
@@ -177,6 +179,8 @@ class GerberFile(CamFile):
                     statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
+            for aperture in self.apertures:
+                aperture.to_metric()
 
     def offset(self, x_offset=0,  y_offset=0):
         x, y = x_offset, y_offset
-- 
2.43.0


From 5111886cca87ccdbe008736896940539a6e89ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 85/98] fix: only lines that start with INCH or METRIC are
 units statements, messages may mention them

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 6a0483c..7b7d3a6 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -701,7 +701,7 @@ class ExcellonParser(object):
             self.drill_down = False
             self.state = 'DRILL'
 
-        elif 'INCH' in line or 'METRIC' in line:
+        elif line.startswith(('INCH', 'METRIC')):
             stmt = UnitStmt.from_excellon(line)
             self.units = stmt.units
             self.zeros = stmt.zeros
-- 
2.43.0


From b2a2b1dc6cb23d1c9dffd36e617fd483d15c9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 86/98] fix: a round obround drawn without moving left no mark
 in pictures

---
 gerber/render/cairo_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 113fda3..f53ee07 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -272,6 +272,7 @@ class GerberCairoContext(GerberContext):
                     dx, dy = self.scale_point((obround.width / 2. - radius,
                                                obround.height / 2. - radius))
                     mask.ctx.set_line_width(2 * radius * self.scale[0])
+                    mask.ctx.set_line_cap(cairo.LINE_CAP_ROUND)
                     mask.ctx.set_line_join(cairo.LINE_JOIN_ROUND)
                     mask.ctx.move_to(start[0] - dx, start[1] - dy)
                     mask.ctx.line_to(start[0] + dx, start[1] + dy)
-- 
2.43.0


From 5f37ac9a7862ac04b5919df90df6eb72e3443c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 87/98] fix: writing a macro aperture that is only drawn with
 gave the aperture a position

---
 gerber/render/rs274x_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 7123530..857d8f8 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -469,8 +469,10 @@ class Rs274xContext(GerberContext):
             self.header.append(aperdef)
 
             # Store the dcode and the original so we can check if it really is the same
-            # If it didn't have a postition, set it to 0, 0
+            # If it didn't have a postition, set it to 0, 0 (in a copy, it is an
+            # aperture of the file that is rendered)
             if amgroup.position == None:
+                amgroup = deepcopy(amgroup)
                 amgroup.position = (0, 0)
             macro = (aperdef, amgroup)
 
-- 
2.43.0


From a0e6185c312e5a9ca2a561c98bd977009e5e7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 88/98] fix: comparing objects, statements or settings with
 something else is False instead of an error, and objects of different classes
 differ

---
 gerber/am_statements.py       | 2 ++
 gerber/cam.py                 | 2 ++
 gerber/excellon_statements.py | 2 ++
 gerber/gerber_statements.py   | 2 ++
 gerber/primitives.py          | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 94cb85a..64ba0c5 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -105,6 +105,8 @@ class AMPrimitive(object):
         print('Rendering {}s is not supported yet.'.format(str(self.__class__)))
 
     def __eq__(self, other):
+        if type(self) != type(other):
+            return NotImplemented
         return self.__dict__ == other.__dict__
 
 
diff --git a/gerber/cam.py b/gerber/cam.py
index 4f20283..470c882 100644
--- a/gerber/cam.py
+++ b/gerber/cam.py
@@ -163,6 +163,8 @@ class FileSettings(object):
             raise KeyError('%s is not a valid key' % key)
 
     def __eq__(self, other):
+        if not isinstance(other, FileSettings):
+            return NotImplemented
         return (self.notation == other.notation and
                 self.units == other.units and
                 self.zero_suppression == other.zero_suppression and
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index aba3bee..56ddb2c 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -68,6 +68,8 @@ class ExcellonStatement(object):
         pass
 
     def __eq__(self, other):
+        if type(self) != type(other):
+            return NotImplemented
         return self.__dict__ == other.__dict__
 
 
diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 25b5286..802a9c1 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -68,6 +68,8 @@ class Statement(object):
         pass
 
     def __eq__(self, other):
+        if type(self) != type(other):
+            return NotImplemented
         return self.__dict__ == other.__dict__
 
 
diff --git a/gerber/primitives.py b/gerber/primitives.py
index 2e9af8f..a9c4c23 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -68,6 +68,8 @@ class Primitive(object):
                                   'implemented in subclass')
 
     def __eq__(self, other):
+        if type(self) != type(other):
+            return NotImplemented
         # The hit of a drill is where it comes from
         derived = ('_bounding_box', '_vertices', '_segments', 'hit')
         return (dict((k, v) for k, v in self.__dict__.items() if k not in derived) ==
-- 
2.43.0


From 6e52afa175fa8e7ad77122a858e6773b3b3946b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 89/98] fix: shapes that differ in their rectangular hole,
 lines in their aperture and groups from other shapes are not equivalent

---
 gerber/primitives.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index a9c4c23..6aeb56b 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -310,6 +310,9 @@ class Line(Primitive):
         if not isinstance(other, Line):
             return False
 
+        if not self.aperture == other.aperture:
+            return False
+
         equiv_start = tuple(map(add, other.start, offset))
         equiv_end = tuple(map(add, other.end, offset))
 
@@ -588,6 +591,9 @@ class Circle(Primitive):
         if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
             return False
 
+        if self.hole_width != other.hole_width or self.hole_height != other.hole_height:
+            return False
+
         equiv_position = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_position)
@@ -772,6 +778,9 @@ class Rectangle(Primitive):
         if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
             return False
 
+        if self.hole_width != other.hole_width or self.hole_height != other.hole_height:
+            return False
+
         equiv_position = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_position)
@@ -1252,6 +1261,9 @@ class Polygon(Primitive):
         if self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
             return False
 
+        if self.hole_width != other.hole_width or self.hole_height != other.hole_height:
+            return False
+
         equiv_pos = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_pos)
@@ -1353,7 +1365,7 @@ class AMGroup(Primitive):
         Is this the macro group the same as the other, ignoring the position offset?
         '''
 
-        if len(self.primitives) != len(other.primitives):
+        if not isinstance(other, AMGroup) or len(self.primitives) != len(other.primitives):
             return False
 
         # We know they have the same number of primitives, so now check them all
-- 
2.43.0


From c6fa326faf31c6cfe2e5327d26040c61275724fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 90/98] fix: an incremental mode given in capitals is written
 as it was given

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 56ddb2c..f5a9b11 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -710,7 +710,8 @@ class IncrementalModeStmt(ExcellonStatement):
 
     def __init__(self, mode='off', **kwargs):
         super(IncrementalModeStmt, self).__init__(**kwargs)
-        if mode.lower() not in ['on', 'off']:
+        mode = mode.lower()
+        if mode not in ['on', 'off']:
             raise ValueError('Mode may be "on" or "off"')
         self.mode = mode
 
-- 
2.43.0


From c4bc79ec1c0cefa141f329d29ee6a7b0f4d0becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 91/98] fix: tools made with one settings object all convert
 their units

---
 gerber/excellon_statements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index f5a9b11..03df705 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -21,6 +21,7 @@ Excellon Statements
 
 """
 
+import copy
 import re
 import uuid
 import itertools
@@ -202,7 +203,8 @@ class ExcellonTool(ExcellonStatement):
     def __init__(self, settings, **kwargs):
         if kwargs.get('id') is not None:
             super(ExcellonTool, self).__init__(id=kwargs.get('id'))
-        self.settings = settings
+        # A tool converts by itself, so its units are its own
+        self.settings = copy.copy(settings)
         self.number = kwargs.get('number')
         self.feed_rate = kwargs.get('feed_rate')
         self.retract_rate = kwargs.get('retract_rate')
-- 
2.43.0


From a8cd28e6f3b9bd7291378bbbf31b99b37f9df026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 92/98] fix: hits are counted from the holes of the file as
 they are

---
 gerber/excellon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 7b7d3a6..e5905a3 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -299,7 +299,7 @@ class ExcellonFile(CamFile):
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count,
+                                   self.hit_count(tool.number),
                                    self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
@@ -452,7 +452,10 @@ class ExcellonFile(CamFile):
     def hit_count(self, tool_number=None):
         counts = {}
         for tool in iter(self.tools.values()):
-            counts[tool.number] = tool.hit_count
+            counts[tool.number] = 0
+        for hit in self.hits:
+            if hit.tool.number in counts:
+                counts[hit.tool.number] += 1
         if tool_number is None:
             return counts
         else:
-- 
2.43.0


From 70cd755466b47bf0e8d6b738b8e259359745147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:58 +0000
Subject: [PATCH 93/98] fix: mirroring one layer does not mirror the layers
 drawn after it

---
 gerber/render/cairo_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index f53ee07..dfd2d17 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -563,7 +563,8 @@ class GerberCairoContext(GerberContext):
 
     def new_render_layer(self, color=None, mirror=False):
         size_in_pixels = self.scale_point(self.size_in_inch)
-        matrix = copy.copy(self._xform_matrix)
+        # Not a copy.copy(), which shares its contents with the original
+        matrix = self._xform_matrix.multiply(cairo.Matrix())
         layer = cairo.SVGSurface(None, size_in_pixels[0], size_in_pixels[1])
         ctx = cairo.Context(layer)
 
-- 
2.43.0


From 57d1248cb3f1719dc962a4284946640f47118b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 94/98] fix: internal layers of every picture start with the
 first default color

---
 gerber/render/cairo_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index dfd2d17..3efe081 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -78,6 +78,9 @@ class GerberCairoContext(GerberContext):
 
     def render_layer(self, layer, filename=None, settings=None, bgsettings=None,
                      verbose=False, bounds=None):
+        if self._render_count == 0:
+            # Internal layers of a new picture get the same colors again
+            THEMES['default'].reset()
         if settings is None:
             settings = THEMES['default'].get(layer.layer_class, RenderSettings())
         if bgsettings is None:
-- 
2.43.0


From 6cb14de38c062f8d92051d851f5b79769cd39f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 95/98] fix: a layer shows the objects its file has now, as its
 bounds do

---
 gerber/layers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index d0da25a..254a6c9 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -254,7 +254,18 @@ class PCBLayer(object):
         self.layer_class = layer_class
         self.cam_source = cam_source
         self.surface = None
-        self.primitives = cam_source.primitives if cam_source is not None else []
+        self._primitives = None
+
+    @property
+    def primitives(self):
+        if self._primitives is not None:
+            return self._primitives
+        # Those the source has now, like the bounds
+        return self.cam_source.primitives if self.cam_source is not None else []
+
+    @primitives.setter
+    def primitives(self, value):
+        self._primitives = value
 
     @property
     def bounds(self):
-- 
2.43.0


From 45cbaf0657f66609955ff55287ae40c65e81d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 96/98] fix: the Blue theme mirrors the bottom mask like the
 rest of the bottom

---
 gerber/render/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 913f629..5f72d65 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -98,7 +98,7 @@ THEMES = {
 
     'Blue': Theme(name='Blue',
                   topmask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True),
-                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True)),
+                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True, mirror=True)),
 
     'Transparent Copper': Theme(name='Transparent',
                                 background=RenderSettings((0.9, 0.9, 0.9)),
-- 
2.43.0


From b4f74dd2beb804367c625e0ba246f87c1e125db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:58 +0000
Subject: [PATCH 97/98] fix: macro groups keep the rotation of rectangles

---
 gerber/am_statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 64ba0c5..4ddccab 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -917,8 +917,9 @@ class AMCenterLinePrimitive(AMPrimitive):
     def from_primitive(cls, primitive):
         width = primitive.width
         height = primitive.height
-        center = primitive.position
-        rotation = math.degrees(primitive.rotation)
+        # the macro rotates the center line about the origin
+        rotation = primitive.rotation
+        center = rotate_point(primitive.position, -rotation)
         return cls(21, _exposure(primitive), width, height, center, rotation)
 
     @classmethod
-- 
2.43.0


From 1af1522c3b721ac7da5ca00432c88d4b9729a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:07 +0000
Subject: [PATCH 98/98] fix: inner layers given as files get a color each

---
 gerber/__main__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 79ac349..67061d2 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -107,9 +107,11 @@ def main():
             pass
     else:
         filenames = args.filenames
-        for filename in filenames:
-            layer = load_layer(filename)
-            settings = theme.THEMES[args.theme].get(layer.layer_class, None)
+        layers = [load_layer(filename) for filename in filenames]
+        # A new picture starts over with the colors of internal layers
+        all_settings = [theme.THEMES[args.theme].get(layer.layer_class, None)
+                        for layer in layers]
+        for layer, settings in zip(layers, all_settings):
             renderer.render_layer(layer, settings=settings)
         renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
 
-- 
2.43.0


From d4584db23936e90fdabb1f5948a67720676d6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 01/17] fix: convert finite floats above the float16 range to
 infinity instead of NaN

---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp     | 5 +++--
 .../java/runtime/src/zserio/runtime/FloatUtil.java           | 5 +++--
 compiler/extensions/python/runtime/src/zserio/float.py       | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 270f903..64a93ce 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -114,10 +114,11 @@ uint16_t convertFloatToUInt16(float float32)
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index bc295e6..e3ef2bc 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -115,10 +115,11 @@ public final class FloatUtil
         {
             // normal number
             final short signedExponent16 = (short)(exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS);
-            if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+            if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
             {
-                // exponent overflow, set infinity or NaN
+                // exponent overflow, set infinity
                 exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+                significand16 = 0;
             }
             else if (signedExponent16 <= 0)
             {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index b245b17..9a4d05f 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -89,9 +89,10 @@ def float_to_uint16(float64: float) -> int:
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-        if signed_exponent16 > FLOAT16_EXPONENT_INFINITY_NAN:
-            # exponent overflow, set infinity or NaN
+        if signed_exponent16 >= FLOAT16_EXPONENT_INFINITY_NAN:
+            # exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+            significand16 = 0
         elif signed_exponent16 <= 0:
             # exponent underflow
             if signed_exponent16 <= -FLOAT16_SIGNIFICAND_NUM_BITS:
-- 
2.43.0


From 69f151b80d651ee012d90d58a30b64916134f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 02/17] fix: parenthesize nested comparisons and negations in
 generated Python expressions

---
 .../PythonExpressionFormattingPolicy.java     | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index c64b2fd..dca1eb3 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,6 @@
 package zserio.extension.python;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
 import zserio.ast.Constant;
@@ -253,37 +254,37 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getEq(Expression expr)
     {
-        return new BinaryExpressionFormatting(" == ");
+        return formatComparison(expr, " == ");
     }
 
     @Override
     public BinaryExpressionFormatting getNe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" != ");
+        return formatComparison(expr, " != ");
     }
 
     @Override
     public BinaryExpressionFormatting getLt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" < ");
+        return formatComparison(expr, " < ");
     }
 
     @Override
     public BinaryExpressionFormatting getLe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" <= ");
+        return formatComparison(expr, " <= ");
     }
 
     @Override
     public BinaryExpressionFormatting getGe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" >= ");
+        return formatComparison(expr, " >= ");
     }
 
     @Override
     public BinaryExpressionFormatting getGt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" > ");
+        return formatComparison(expr, " > ");
     }
 
     @Override
@@ -393,6 +394,35 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         result.append(AccessorNameFormatter.getPropertyName(param));
     }
 
+    private static BinaryExpressionFormatting formatComparison(Expression expr, String operator)
+    {
+        // Python chains comparisons (a < b == c means a < b and b == c) and "not" has lower precedence than them
+        final boolean needsParentheses1 = needsParenthesesInComparison(expr.op1());
+        final boolean needsParentheses2 = needsParenthesesInComparison(expr.op2());
+
+        return new BinaryExpressionFormatting(needsParentheses1 ? "(" : "",
+                (needsParentheses1 ? ")" : "") + operator + (needsParentheses2 ? "(" : ""),
+                needsParentheses2 ? ")" : "");
+    }
+
+    private static boolean needsParenthesesInComparison(Expression operand)
+    {
+        switch (operand.getType())
+        {
+        case ZserioParser.EQ:
+        case ZserioParser.NE:
+        case ZserioParser.LT:
+        case ZserioParser.LE:
+        case ZserioParser.GE:
+        case ZserioParser.GT:
+        case ZserioParser.BANG:
+            return true;
+
+        default:
+            return false;
+        }
+    }
+
     private void formatEnumItem(StringBuilder result, boolean isMostLeftId, EnumItem enumItem,
             ZserioType exprType) throws ZserioExtensionException
     {
-- 
2.43.0


From 67fadde02fac50fdee946d0531f0683e6a488477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 03/17] fix: truncate negative integer division and modulo
 towards zero in generated Python code

---
 .../python/runtime/src/zserio/builtin.py      | 32 +++++++++++++++++++
 .../PythonExpressionFormattingPolicy.java     | 27 +++++++++++++---
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/builtin.py b/compiler/extensions/python/runtime/src/zserio/builtin.py
index 96fd5f7..c35aa7a 100644
--- a/compiler/extensions/python/runtime/src/zserio/builtin.py
+++ b/compiler/extensions/python/runtime/src/zserio/builtin.py
@@ -46,3 +46,35 @@ def lengthof_string(string: str) -> int:
     """
 
     return len(string.encode("utf-8"))
+
+
+def divide(dividend: int, divisor: int) -> int:
+    """
+    Gets quotient of the integer division truncated towards zero.
+
+    This method implements zserio operator '/' for integers.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Quotient rounded towards zero.
+    """
+
+    quotient = abs(dividend) // abs(divisor)
+
+    return quotient if (dividend < 0) == (divisor < 0) else -quotient
+
+
+def modulo(dividend: int, divisor: int) -> int:
+    """
+    Gets remainder of the integer division truncated towards zero.
+
+    This method implements zserio operator '%'.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Remainder which has the same sign as the dividend.
+    """
+
+    remainder = abs(dividend) % abs(divisor)
+
+    return -remainder if dividend < 0 else remainder
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index dca1eb3..9b8cf4b 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,7 @@
 package zserio.extension.python;
 
+import java.math.BigInteger;
+
 import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
@@ -321,16 +323,26 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     public BinaryExpressionFormatting getDivide(Expression expr)
     {
         // simulate behavior from other languages (#718)
-        if (expr.getExprType() == Expression.ExpressionType.INTEGER)
-            return new BinaryExpressionFormatting(" // ");
-        else
+        if (expr.getExprType() != Expression.ExpressionType.INTEGER)
             return new BinaryExpressionFormatting(" / ");
+
+        if (!canBeNegative(expr.op1()) && !canBeNegative(expr.op2()))
+            return new BinaryExpressionFormatting(" // ");
+
+        // Python integer division rounds towards negative infinity
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.divide(", ", ", ")");
     }
 
     @Override
     public BinaryExpressionFormatting getModulo(Expression expr)
     {
-        return new BinaryExpressionFormatting(" % ");
+        if (!canBeNegative(expr.op1()) && !canBeNegative(expr.op2()))
+            return new BinaryExpressionFormatting(" % ");
+
+        // Python modulo takes the sign of the divisor
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.modulo(", ", ", ")");
     }
 
     @Override
@@ -394,6 +406,13 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         result.append(AccessorNameFormatter.getPropertyName(param));
     }
 
+    private static boolean canBeNegative(Expression operand)
+    {
+        final BigInteger lowerBound = operand.getIntegerLowerBound();
+
+        return lowerBound == null || lowerBound.signum() < 0;
+    }
+
     private static BinaryExpressionFormatting formatComparison(Expression expr, String operator)
     {
         // Python chains comparisons (a < b == c means a < b and b == c) and "not" has lower precedence than them
-- 
2.43.0


From 4bb86e1382e5f8b478f42a0e7b16186fd3653205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 04/17] fix: do not share the default bytes value between
 objects of generated Python structures

---
 .../python/freemarker/Structure.py.ftl         | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Structure.py.ftl b/compiler/extensions/python/freemarker/Structure.py.ftl
index 6138e3c..8ca9445 100644
--- a/compiler/extensions/python/freemarker/Structure.py.ftl
+++ b/compiler/extensions/python/freemarker/Structure.py.ftl
@@ -32,6 +32,18 @@ class ${name}:
         </#if>
     </#if>
 </#macro>
+<#function has_mutable_default_value field>
+    <#-- default values are evaluated only once, mutable ones would be shared by all objects -->
+    <#return !field.initializer?? && !field.optional?? && !field.array?? &&
+            field.typeInfo.typeFullName == "bytearray">
+</#function>
+<#macro field_constructor_default_value field>
+    <#if has_mutable_default_value(field)>
+        None<#t>
+    <#else>
+        <@field_default_value field/><#t>
+    </#if>
+</#macro>
 <#if constructorAnnotatedParamList?has_content || fieldList?has_content>
     def __init__(
             self<#if constructorAnnotatedParamList?has_content>,
@@ -39,7 +51,7 @@ class ${name}:
     <#list fieldList as field>
             <#lt>,
             <#nt><@field_argument_name field/>: <@field_annotation_argument_type_name field, name/> = <#rt>
-            <@field_default_value field/>
+            <@field_constructor_default_value field/>
     </#list>
             <#lt>) -> None:
     <#if withCodeComments>
@@ -58,6 +70,10 @@ class ${name}:
         self._num_extended_fields = ${fieldList?size}
     </#if>
     <#list fieldList as field>
+        <#if has_mutable_default_value(field)>
+        if <@field_argument_name field/> is None:
+            <@field_argument_name field/> = <@field_default_value field/>
+        </#if>
         <@compound_setter_field field, 2/>
     </#list>
 
-- 
2.43.0


From 6ab3995be8ee5f5087e695e1fb2b2f3469a324a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 05/17] fix: initialize generated Python choices read from an
 empty case

---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 310293e..c95f842 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -509,7 +509,7 @@ ${I}pass
         <@compound_read_field member.compoundField, name, indent, packed/>
     <#else>
         <#local I>${""?left_pad(indent * 4)}</#local>
-${I}pass
+${I}self._choice = None
     </#if>
 </#macro>
     def read(self, zserio_reader: zserio.BitStreamReader) -> None:
-- 
2.43.0


From caf9cb62aee0caa5bd53379edc9e104bac7632a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 06/17] fix: compare bitmask parameters of generated Python
 code by value

---
 compiler/extensions/python/freemarker/CompoundField.inc.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index 1899346..e23c479 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -359,7 +359,7 @@ ${I}                                        "{0} != {1}!".format(len(self.<@fiel
 ${I}# check parameters
         <#list field.compound.instantiatedParameters as instantiatedParameter>
             <#local parameter=field.compound.parameters.list[instantiatedParameter?index]/>
-            <#local compareOperator><#if parameter.typeInfo.isBuiltin>!=<#else>is not</#if><#t></#local>
+            <#local compareOperator><#if parameter.typeInfo.isBuiltin || parameter.typeInfo.isBitmask>!=<#else>is not</#if><#t></#local>
 ${I}if self.<@field_member_name field/>.${parameter.propertyName} ${compareOperator} (${instantiatedParameter.expression}):
 ${I}    raise zserio.PythonRuntimeException("Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: "
 ${I}                                        "{0} != {1}!".format(self.<@field_member_name field/>.${parameter.propertyName}, ${instantiatedParameter.expression}))
-- 
2.43.0


From cab4c56a2bf6f1341adcc395c298017e3b26aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 07/17] fix: JSON value following a chunk of white space is not
 taken for the end of file

---
 compiler/extensions/python/runtime/src/zserio/json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 78f94f4..56b79ac 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -869,6 +869,7 @@ class JsonTokenizer:
         else:
             self._decoder_result = JsonDecoder.decode_value(self._content, self._pos)
             if self._pos + self._decoder_result.num_read_chars >= len(self._content):
+                self._set_token(JsonToken.VALUE, None)  # must not be considered as END_OF_FILE
                 return False  # we are at the end of chunk => try to read more
 
             self._set_token_value()
-- 
2.43.0


From 7be2274d45f3efd1ca91cdae2238c1030999cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 08/17] fix: bitmask given in JSON by a string of digits only

---
 compiler/extensions/python/runtime/src/zserio/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 56b79ac..fa4b9ea 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -1346,7 +1346,7 @@ class JsonReader:
         @staticmethod
         def _parse_bitmask_numeric_string_value(string_value: str):
             number_len = 1
-            while string_value[number_len] >= "0" and string_value[number_len] <= "9":
+            while number_len < len(string_value) and "0" <= string_value[number_len] <= "9":
                 number_len += 1
 
             return int(string_value[0:number_len])
-- 
2.43.0


From 0eb649984a05413b4f41cea36600c3730e7cee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 09/17] fix: reject the smallest short, int and long in Java
 varint sizes

The absolute value of the smallest value of the type overflows to the value itself,
so the range check was passed and a value out of range of varint16, varint32 and
varint64 was written as something else.
---
 .../runtime/src/zserio/runtime/BitSizeOfCalculator.java     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java b/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
index 046aae5..bba0b02 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
@@ -20,7 +20,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt16(short value)
     {
         final short absoluteValue = (short)Math.abs(value);
-        if (absoluteValue >= (short)(1 << (6 + 8)))
+        if (absoluteValue < 0 || absoluteValue >= (short)(1 << (6 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint16!");
 
         return (absoluteValue < (short)1 << 6) ? 8 : 16;
@@ -36,7 +36,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt32(int value)
     {
         final int absoluteValue = Math.abs(value);
-        if (absoluteValue >= (1 << (6 + 7 + 7 + 8)))
+        if (absoluteValue < 0 || absoluteValue >= (1 << (6 + 7 + 7 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint32!");
 
         int bitSize = 0;
@@ -70,7 +70,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt64(long value)
     {
         final long absoluteValue = Math.abs(value);
-        if (absoluteValue >= (1L << (6 + 7 + 7 + 7 + 7 + 7 + 7 + 8)))
+        if (absoluteValue < 0 || absoluteValue >= (1L << (6 + 7 + 7 + 7 + 7 + 7 + 7 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint64!");
 
         int bitSize = 0;
-- 
2.43.0


From 3396040fd20efdd371805dfbf6744ae21afea8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:19 +0000
Subject: [PATCH 10/17] fix: check the end of the stream in byte aligned reads
 of the Java reader

Reads of whole bytes at a byte aligned position ignored that the last byte of the stream
can be available only partially and returned bits behind its end.
---
 .../runtime/io/ByteArrayBitStreamReader.java  | 49 +++++++++++++------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..9e15e20 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -117,7 +117,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         byte result;
         if (bitOffset == 0)
         {
-            result = nextByte();
+            result = nextFullByte();
         }
         else
         {
@@ -138,8 +138,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         short result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
             result = makeShort(b0, b1);
         }
         else
@@ -161,10 +161,10 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         int result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
             result = makeInt(b0, b1, b2, b3);
         }
         else
@@ -186,14 +186,14 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         long result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
-            final byte b4 = nextByte();
-            final byte b5 = nextByte();
-            final byte b6 = nextByte();
-            final byte b7 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
+            final byte b4 = nextFullByte();
+            final byte b5 = nextFullByte();
+            final byte b6 = nextFullByte();
+            final byte b7 = nextFullByte();
             result = makeLong(b0, b1, b2, b3, b4, b5, b6, b7);
         }
         else
@@ -751,7 +751,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
     private int read(final byte[] dest, final int offset, final int length) throws IOException
     {
-        if (bytePosition + length - 1 >= buffer.length)
+        if (getBitPosition() + 8L * length > getBufferBitSize())
             throw new IOException("ByteArrayBitStreamReader: Unable to read " + length +
                     " bytes on offset position " + bytePosition +
                     ". It's beyond end of the stream with length " + buffer.length + ".");
@@ -782,6 +782,23 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         return buffer[bytePosition++];
     }
 
+    /**
+     * Gets the next byte checking that all its bits are available.
+     *
+     * @return Read byte.
+     *
+     * @throws IOException If the reading failed.
+     */
+    private byte nextFullByte() throws IOException
+    {
+        final byte result = nextByte();
+        if (bytePosition == buffer.length && lastByteBits < 8)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read bit on offset position " +
+                    lastByteBits + " in the last byte.");
+
+        return result;
+    }
+
     /**
      * Returns the next unsigned byte without resetting the bit offset.
      *
-- 
2.43.0


From 34e57fb5f67f551a423d40ead77b2110e6b419b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 11/17] fix: reading of Java arrays when nothing is
 preallocated

A reader created with the maximum preallocated array size 0 failed on the first element
of any array because the doubled size of an empty array is still zero.
---
 .../java/runtime/src/zserio/runtime/array/Array.java           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
index 35ec4fa..2abe2ca 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
@@ -438,7 +438,8 @@ public final class Array
         final int arraySize = rawArray.size();
         if (index >= arraySize)
         {
-            final int newArraySize = (index * 2 > readSize) ? readSize : index * 2;
+            final int doubledArraySize = (index == 0) ? 1 : index * 2; // nothing might be preallocated
+            final int newArraySize = (doubledArraySize > readSize) ? readSize : doubledArraySize;
             rawArray.resize(newArraySize);
         }
         rawArray.setElement(element, index);
-- 
2.43.0


From af8c5128212a23b8013113e52f15f8b3acad54a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 12/17] fix: bounds of negated and shifted integer expressions

The bounds of a negated expression were in the wrong order and those of shifts did not
contain all results. A shift by a large unknown count crashed the compiler.
---
 .../zserio/ast/ExpressionIntegerValue.java    | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 94adad7..01362ac 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -138,7 +138,7 @@ final class ExpressionIntegerValue
             return new ExpressionIntegerValue(value.negate());
 
         if (lowerBound != null && upperBound != null)
-            return new ExpressionIntegerValue(lowerBound.negate(), upperBound.negate(), needsBigInteger);
+            return new ExpressionIntegerValue(upperBound.negate(), lowerBound.negate(), needsBigInteger);
 
         return new ExpressionIntegerValue(needsBigInteger);
     }
@@ -308,11 +308,15 @@ final class ExpressionIntegerValue
         if (value != null && operand.value != null)
             return new ExpressionIntegerValue(value.shiftLeft(operand.value.intValue()), needsBigInteger);
 
-        if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-                operand.upperBound != null)
+        if (lowerBound != null && upperBound != null && operand.isShiftCount())
         {
-            return new ExpressionIntegerValue(lowerBound.shiftLeft(operand.lowerBound.intValue()),
-                    upperBound.shiftLeft(operand.upperBound.intValue()), needsBigInteger);
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftLeft(operand.lowerBound.intValue()));
+            minMaxValue.add(lowerBound.shiftLeft(operand.upperBound.intValue()));
+            minMaxValue.add(upperBound.shiftLeft(operand.lowerBound.intValue()));
+            minMaxValue.add(upperBound.shiftLeft(operand.upperBound.intValue()));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -330,11 +334,15 @@ final class ExpressionIntegerValue
         if (value != null && operand.value != null)
             return new ExpressionIntegerValue(value.shiftRight(operand.value.intValue()), needsBigInteger);
 
-        if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-                operand.upperBound != null)
+        if (lowerBound != null && upperBound != null && operand.isShiftCount())
         {
-            return new ExpressionIntegerValue(lowerBound.shiftRight(operand.lowerBound.intValue()),
-                    upperBound.shiftRight(operand.upperBound.intValue()), needsBigInteger);
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftRight(operand.lowerBound.intValue()));
+            minMaxValue.add(lowerBound.shiftRight(operand.upperBound.intValue()));
+            minMaxValue.add(upperBound.shiftRight(operand.lowerBound.intValue()));
+            minMaxValue.add(upperBound.shiftRight(operand.upperBound.intValue()));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -490,6 +498,13 @@ final class ExpressionIntegerValue
         this.needsBigInteger = needsBigInteger;
     }
 
+    // bounds of shifts can be calculated only for counts which make sense for some supported type
+    private boolean isShiftCount()
+    {
+        return lowerBound != null && upperBound != null && lowerBound.signum() >= 0 &&
+                upperBound.compareTo(BigInteger.valueOf(Long.SIZE)) <= 0;
+    }
+
     // TODO This is redundant with runtime library but we don't have available runtime library in Zserio core.
     private BigInteger getNumBits(BigInteger value)
     {
-- 
2.43.0


From e75618fb95dfd3d96ce6f23dcd87cf04584a866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:08 +0000
Subject: [PATCH 13/17] fix: big integer case values in generated Java choices

---
 .../java/ChoiceEmitterTemplateData.java       | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 6fd06b3..61fddc3 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -40,7 +40,8 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
         caseMemberList = new ArrayList<CaseMember>();
         final Iterable<ChoiceCase> choiceCaseTypes = choiceType.getChoiceCases();
         for (ChoiceCase choiceCaseType : choiceCaseTypes)
-            caseMemberList.add(new CaseMember(context, choiceType, choiceCaseType));
+            caseMemberList.add(
+                    new CaseMember(context, choiceType, choiceCaseType, isSelectorExpressionBigInteger));
 
         final ChoiceDefault choiceDefaultType = choiceType.getChoiceDefault();
         if (choiceDefaultType != null)
@@ -97,13 +98,16 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
 
     public static final class CaseMember
     {
-        public CaseMember(TemplateDataContext context, ChoiceType choiceType, ChoiceCase choiceCaseType)
-                throws ZserioExtensionException
+        public CaseMember(TemplateDataContext context, ChoiceType choiceType, ChoiceCase choiceCaseType,
+                boolean isSelectorExpressionBigInteger) throws ZserioExtensionException
         {
             caseList = new ArrayList<Case>();
             final Iterable<ChoiceCaseExpression> caseExpressions = choiceCaseType.getExpressions();
             for (ChoiceCaseExpression caseExpression : caseExpressions)
-                caseList.add(new Case(context, caseExpression.getExpression()));
+            {
+                caseList.add(
+                        new Case(context, caseExpression.getExpression(), isSelectorExpressionBigInteger));
+            }
 
             final Field fieldType = choiceCaseType.getField();
             compoundField =
@@ -122,13 +126,16 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
 
         public static final class Case
         {
-            public Case(TemplateDataContext context, Expression choiceExpression)
-                    throws ZserioExtensionException
+            public Case(TemplateDataContext context, Expression choiceExpression,
+                    boolean isSelectorExpressionBigInteger) throws ZserioExtensionException
             {
                 final ExpressionFormatter javaExpressionFormatter = context.getJavaExpressionFormatter();
                 final ExpressionFormatter javaCaseExpressionFormatter =
                         context.getJavaCaseExpressionFormatter();
-                expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
+                // BigInteger is constructed from the decimal value
+                expressionForIf = isSelectorExpressionBigInteger
+                        ? choiceExpression.getIntegerValue().toString()
+                        : javaExpressionFormatter.formatGetter(choiceExpression);
                 expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
             }
 
-- 
2.43.0


From 60642c8d535f2d35f2a62e38a54d36904706a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:08 +0000
Subject: [PATCH 14/17] fix: alignment by more than 63 bits in Java writer

---
 .../src/zserio/runtime/io/ByteArrayBitStreamWriter.java  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
index d6433ae..bf3791c 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
@@ -499,7 +499,14 @@ public final class ByteArrayBitStreamWriter extends ByteArrayBitStreamBase imple
 
     private void skipBits(final int bitCnt) throws IOException
     {
-        writeBits(0, bitCnt);
+        int remainingBits = bitCnt;
+        while (remainingBits > 0)
+        {
+            // single write is limited by maximum number of bits of unsigned value
+            final int numBits = Math.min(remainingBits, 63);
+            writeBits(0, numBits);
+            remainingBits -= numBits;
+        }
     }
 
     private void write(final int b) throws IOException
-- 
2.43.0


From 46b59086c3ef03e75395a97ef876208c17aa31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 15/17] fix: choices with unbounded selectors in generated Java

---
 .../java/ChoiceEmitterTemplateData.java          | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 61fddc3..593e2aa 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -31,10 +31,8 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
         final Expression expression = choiceType.getSelectorExpression();
         selectorExpression = javaExpressionFormatter.formatGetter(expression);
         isSelectorExpressionBoolean = expression.getExprType() == Expression.ExpressionType.BOOLEAN;
-        final BigInteger selectorUpperBound = expression.getIntegerUpperBound();
         isSelectorExpressionBigInteger = expression.needsBigInteger();
-        isSelectorExpressionLong = (isSelectorExpressionBigInteger == false && selectorUpperBound != null &&
-                selectorUpperBound.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0);
+        isSelectorExpressionLong = needsLong(expression);
         selectorExpressionBitmaskTypeName = createSelectorExpressionBitmaskType(expression, javaNativeMapper);
 
         caseMemberList = new ArrayList<CaseMember>();
@@ -175,6 +173,18 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
         private final CompoundFieldTemplateData compoundField;
     }
 
+    private static boolean needsLong(Expression expression)
+    {
+        if (expression.getExprType() != Expression.ExpressionType.INTEGER || expression.needsBigInteger())
+            return false;
+
+        final BigInteger lowerBound = expression.getIntegerLowerBound();
+        final BigInteger upperBound = expression.getIntegerUpperBound();
+
+        return lowerBound == null || lowerBound.compareTo(BigInteger.valueOf(Integer.MIN_VALUE)) < 0 ||
+                upperBound == null || upperBound.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0;
+    }
+
     private String createSelectorExpressionBitmaskType(Expression expr, JavaNativeMapper javaNativeMapper)
             throws ZserioExtensionException
     {
-- 
2.43.0


From ac604089d19177866f14f2293c9056aea8e6b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 16/17] fix: comparison of parameter values in generated Java

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 691520c..2f7cfc2 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -294,6 +294,13 @@ ${I}if (${parameterValue} != ${instantiatedValue})
 ${I}{
 ${I}    throw new zserio.runtime.ZserioError("Write: Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: " +
 ${I}            ${parameterValue} + " != " + ${instantiatedValue} + "!");
+${I}}
+            <#elseif instantiatedParameter.typeInfo.requiresBigInt || instantiatedParameter.typeInfo.isBitmask ||
+                    instantiatedParameter.typeInfo.typeFullName == "java.lang.String">
+                <#-- types which are objects in Java but values in zserio: compare by equals() -->
+${I}if (!java.util.Objects.equals(<@compound_get_field field/>.${parameter.getterName}(), (${instantiatedParameter.expression})))
+${I}{
+${I}    throw new zserio.runtime.ZserioError("Write: Inconsistent parameter ${parameter.name} for field ${compoundName}.${field.name}!");
 ${I}}
             <#else>
 ${I}if (<@compound_get_field field/>.${parameter.getterName}() != (${instantiatedParameter.expression}))
-- 
2.43.0


From ea0ec2682b79188b5dd5e467f0494d24914cb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 17/17] fix: equality of bytes fields in generated Java choices
 and unions

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 5 +----
 compiler/extensions/java/freemarker/Union.java.ftl  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0529c9d..779ac48 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -368,10 +368,7 @@ ${I}break;
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#if fieldList?has_content>
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index f22e86f..b57638a 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -280,10 +280,7 @@ public class ${name} implements <#rt>
     </#list>
     <#if fieldList?has_content>
                     choiceTag == that.choiceTag &&
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
-- 
2.43.0


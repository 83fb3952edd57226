From f77c24a30c2fa35a0ab773f20196672648c553b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 01/44] fix: escape special characters in XML text content and
 attribute values

---
 src/autosar/xml/writer.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..2d94ce1 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -72,6 +72,12 @@ class _XMLWriter:
     def _add_inline_text(self, text):
         self.fh.write(text)
 
+    def _add_text(self, text: str):
+        """
+        Adds character data, used for mixed content
+        """
+        self._add_inline_text(self._escape_text(text))
+
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
             self._add_line(f'<{tag} {self._attr_to_str(attr)}>')
@@ -104,12 +110,12 @@ class _XMLWriter:
         assert isinstance(content, str)
         if attr:
             if content:
-                text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
+                text = f'<{tag} {self._attr_to_str(attr)}>{self._escape_text(content)}</{tag}>'
             else:
                 text = f'<{tag} {self._attr_to_str(attr)}/>'
         else:
             if content:
-                text = f'<{tag}>{content}</{tag}>'
+                text = f'<{tag}>{self._escape_text(content)}</{tag}>'
             else:
                 text = f'<{tag}/>'
         if inline:
@@ -121,9 +127,21 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attr(str(elem[1]))}"' for elem in attr]
         return ' '.join(parts)
 
+    def _escape_text(self, text: str) -> str:
+        """
+        Escapes characters that have a special meaning in XML text content
+        """
+        return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
+
+    def _escape_attr(self, text: str) -> str:
+        """
+        Escapes characters that have a special meaning in (double-quoted) XML attributes
+        """
+        return self._escape_text(text).replace('"', '&quot;').replace('\t', '&#9;').replace('\n', '&#10;')
+
     def _format_float(self, value: float) -> str:
         """
         Formats a float into a printable number string.
@@ -705,7 +723,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_text(part)
             elif isinstance(part, ar_element.EmphasisText):
                 self._write_emphasis_text(part, inline=True)
             elif isinstance(part, ar_element.IndexEntry):
@@ -785,7 +803,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_text(part)
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -815,7 +833,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_text(part)
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -845,7 +863,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_text(part)
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -925,7 +943,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_text(part)
             elif isinstance(part, ar_element.Subscript):
                 self._write_subscript(part)
             elif isinstance(part, ar_element.Superscript):
-- 
2.43.0


From 6d1e4c9ef750e04c11ad7a7c2de20b5ab11d7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 02/44] fix: format floats of 1e28 and above without raising
 decimal.InvalidOperation

---
 src/autosar/xml/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 2d94ce1..1aae1f6 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -153,7 +153,10 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
+            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
+                result = tmp.quantize(decimal.Decimal(1))
+            else:
+                result = tmp.normalize()
             return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
-- 
2.43.0


From 7163ca03ae708c9f351fa4ca795c0a772e5d822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 03/44] fix: write the UUID attribute of all identifiable
 elements

---
 src/autosar/xml/writer.py | 110 +++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1aae1f6..b846c93 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1609,7 +1609,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1646,7 +1646,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        self._add_child("IMPLEMENTATION-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1697,7 +1697,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1722,7 +1722,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        self._add_child("ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1752,7 +1752,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        self._add_child("APPLICATION-RECORD-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1776,7 +1776,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1801,7 +1801,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2805,7 +2805,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        self._add_child("MODE-DECLARATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2835,7 +2835,7 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        self._add_child("MODE-TRANSITION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2933,7 +2933,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        self._add_child("NV-DATA-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2958,7 +2958,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        self._add_child("PARAMETER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2983,7 +2983,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        self._add_child("SENDER-RECEIVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3037,7 +3037,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        self._add_child("APPLICATION-ERROR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3057,7 +3057,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        self._add_child("CLIENT-SERVER-OPERATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3089,7 +3089,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        self._add_child("CLIENT-SERVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3118,7 +3118,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        self._add_child("MODE-SWITCH-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3190,7 +3190,7 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3612,7 +3612,7 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        self._add_child("P-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3637,7 +3637,7 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        self._add_child("R-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3664,7 +3664,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        self._add_child("PR-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3728,7 +3728,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3742,7 +3742,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        self._add_child("SW-COMPONENT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3785,7 +3785,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        self._add_child("ASSEMBLY-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3801,7 +3801,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        self._add_child("DELEGATION-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3823,7 +3823,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3839,7 +3839,7 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3873,7 +3873,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        self._add_child("SWC-IMPLEMENTATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4130,7 +4130,7 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        self._add_child(tag, self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4207,7 +4207,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4221,7 +4221,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4238,7 +4238,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4259,7 +4259,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4289,7 +4289,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        self._add_child("INTERNAL-TRIGGERING-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4304,7 +4304,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4342,7 +4342,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        self._add_child("MODE-SWITCH-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4397,7 +4397,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        self._add_child("PARAMETER-ACCESS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4420,7 +4420,7 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        self._add_child("WAIT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4494,7 +4494,7 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        self._add_child("RUNNABLE-ENTITY", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4612,7 +4612,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4627,7 +4627,7 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        self._add_child("BACKGROUND-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4640,7 +4640,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4655,7 +4655,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        self._add_child("DATA-RECEIVED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4670,7 +4670,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        self._add_child("DATA-SEND-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4685,7 +4685,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4700,7 +4700,7 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4715,7 +4715,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        self._add_child("INIT-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4728,7 +4728,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4743,7 +4743,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        self._add_child("MODE-SWITCHED-ACK-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4758,7 +4758,7 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        self._add_child("OPERATION-INVOKED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4773,7 +4773,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4788,7 +4788,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        self._add_child("SWC-MODE-SWITCH-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4817,7 +4817,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        self._add_child("TIMING-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4834,7 +4834,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4932,7 +4932,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        self._add_child("EXCLUSIVE-AREA", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4943,7 +4943,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        self._add_child("SWC-INTERNAL-BEHAVIOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From 3591967133dc88a7728419e1cec3c9bcb5645cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 04/44] fix: read mixed content (E, IE, SUB, SUP, BR elements
 and the text following them)

---
 src/autosar/xml/reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..a07be73 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -866,13 +866,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -923,7 +923,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -932,7 +932,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -978,7 +978,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -993,7 +993,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1009,7 +1009,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1018,7 +1018,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1123,7 +1123,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From a4934293c8826580cd6f214876ffe8e8a1f776a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 05/44] fix: PRPortPrototype accepts a list of provided
 com-specs

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..e85fee4 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4813,7 +4813,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From fff1493eaa7302fe11026c4be1e9adfc5a0975e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 06/44] fix: accept superscript and line-break parts in mixed
 content

---
 src/autosar/xml/element.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e85fee4..0db949c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -591,11 +591,11 @@ class MixedContentForLongName(LanguageSpecific):
         super().__init__(language)
         self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -608,17 +608,17 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
 
     def __init__(self, language: ar_enum.Language) -> None:
         super().__init__(language)
-        self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
+        self.parts = []  # Unbounded list of str | BR | TT | E | SUP | SUB | IE
         # Unsupported elements:
         # FT : AR:SL-OVERVIEW-PARAGRAPH
         # TRACE-REF: Complex type
         # XREF: AR:-XREF-TARGET
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | Break | TechnicalTerm | EmphasisText | Subscript | Superscript | IndexEntry):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -799,11 +799,11 @@ class MixedContentForParagraph(LanguageSpecific):
         # XREF-TARGET: AR:-XREF-TARGET
 
     def append(self,
-               part: str | Break | EmphasisText | IndexEntry | Subscript | Subscript | TechnicalTerm):
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
-- 
2.43.0


From 605c4360bfdb359b5862836262f87be6a3be610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 07/44] fix: support SERVICE-KIND values in port interfaces

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 src/autosar/xml/reader.py      |  4 ++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..22329fe 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",  # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",  # 1
+        "COM-MANAGER",  # 2
+        "CRYPTO-SERVICE-MANAGER",  # 3
+        "DEFAULT-ERROR-TRACER",  # 4
+        "DEVELOPMENT-ERROR-TRACER",  # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",  # 6
+        "DIAGNOSTIC-EVENT-MANAGER",  # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",  # 8
+        "ECU-MANAGER",  # 9
+        "FUNCTION-INHIBITION-MANAGER",  # 10
+        "J-1939-REQUEST-MANAGER",  # 11
+        "NON-VOLATILE-RAM-MANAGER",  # 12
+        "OPERATING-SYSTEM",  # 13
+        "SECURE-ON-BOARD-COMMUNICATION",  # 14
+        "SYNC-BASE-TIME-MANAGER",  # 15
+        "VENDOR-SPECIFIC",  # 16
+        "WATCH-DOG-MANAGER",  # 17
+        "ERROR-TRACER",  # 18
+        "HARDWARE-TEST-MANAGER",  # 19
+        "V-2-X-FACILITIES",  # 20
+        "V-2-X-MANAGEMENT",  # 21
+        "J-1939-DCM",  # 22
+        "CRYPTO-KEY-MANAGEMENT",  # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT"  # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a07be73..70cafab 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3337,7 +3337,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum('ServiceKind', inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From 00f7320e86028551ab5acd4c1bf583f8e53b0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 08/44] fix: write numerical values exactly in hexadecimal,
 binary and scientific format

---
 src/autosar/xml/writer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index b846c93..64e054e 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -182,12 +182,14 @@ class _XMLWriter:
     def _format_numerical_value(self, number: ar_element.NumericalValue) -> str:
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
             return self._format_number(number.value)
-        elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
-        elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+        elif number.value_format in (ar_enum.ValueFormat.HEXADECIMAL, ar_enum.ValueFormat.BINARY):
+            if isinstance(number.value, float):
+                return self._format_float(number.value)  # Only integers have a hexadecimal or binary form
+            return f"{number.value:#x}" if number.value_format == ar_enum.ValueFormat.HEXADECIMAL else f"{number.value:#b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            if isinstance(number.value, float) and not math.isfinite(number.value):
+                return self._format_float(number.value)
+            return f"{decimal.Decimal(str(number.value)):e}"  # All digits, unlike the 'e' format of float
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 31b14d426a9ebefe3a910c625546f0180e16b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 09/44] fix: write all annotations in a single ANNOTATIONS
 element

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 64e054e..5240113 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -599,10 +599,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From 0d3c91448e36934fcd600e171d8c2b2b57dcefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 10/44] fix: read the VALIDITY attribute of scale constraints

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 70cafab..9b949cf 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1431,6 +1431,9 @@ class Reader:
         """
         data = {}
         child_elements = ChildElementMap(xml_element)
+        validity = xml_element.attrib.get("VALIDITY", None)
+        if validity is not None:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
         xml_child = child_elements.get("SHORT-LABEL")
         if xml_child is not None:
             data["label"] = xml_child.text
-- 
2.43.0


From 572ec688c274e6c02b72c35ebde2213102d7e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 11/44] fix: keep a unit name given as a text in one part

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0db949c..866ea72 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -977,7 +977,7 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, Iterable) and not isinstance(parts, str):
                 for part in parts:
                     self.append(part)
             else:
-- 
2.43.0


From 6eb69fbfdbcafe0abc76a8edc1cca3d04ed0e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 12/44] fix: read numbers in hexadecimal and binary notation

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 9b949cf..412981a 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -459,7 +459,7 @@ class Reader:
             value = int(text)
         except ValueError:
             try:
-                value = float(text)
+                value = ar_element.NumericalValue(text).value  # Hexadecimal, binary or float
             except ValueError as exc:
                 raise ar_exception.ParseError(f"Not a number: {text}") from exc
         return value
-- 
2.43.0


From ecd5b90a6e14f2faaf5a6e78dc17348eea26bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 13/44] fix: set the parent of all sub-elements so that
 references to them can be made

---
 src/autosar/xml/element.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 866ea72..be970a2 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1925,6 +1925,7 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -1981,6 +1982,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -2224,6 +2226,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if element is not None:
+            element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2284,6 +2288,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3265,7 +3270,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
@@ -3669,6 +3674,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -3861,6 +3867,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if mode_group is not None:
+            mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
@@ -5149,6 +5157,8 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if internal_behavior is not None:
+            internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
-- 
2.43.0


From 4c933aa38ec38cc0ee48feb7e16c81dc873d961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 14/44] fix: find returns None, or the nested sub-element, for
 paths below an element

---
 src/autosar/xml/element.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index be970a2..6e55996 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1941,6 +1941,16 @@ class ImplementationDataTypeElement(Identifiable):
         return AbstractImplementationDataTypeElementRef(ref_str,
                                                         ar_enum.IdentifiableSubTypes.IMPLEMENTATION_DATA_TYPE_ELEMENT)
 
+    def find(self, ref: str) -> Union["ImplementationDataTypeElement", None]:
+        """
+        Finds sub-element by reference
+        """
+        parts = ref.partition('/')
+        elem = self._find_by_name(self.sub_elements, parts[0])
+        if elem is not None and len(parts[2]) > 0:
+            return elem.find(parts[2])
+        return elem
+
 
 class ImplementationDataType(AutosarDataType):
     """
@@ -1999,8 +2009,11 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        parts = ref.partition('/')
+        elem = self._find_by_name(self.sub_elements, parts[0])
+        if elem is not None and len(parts[2]) > 0:
+            return elem.find(parts[2])
+        return elem
 
 
 class DataPrototype(Identifiable):
@@ -2909,7 +2922,7 @@ class Package(CollectableElement):
         item = self._collection_map.get(parts[0], None)
         if item is not None:
             if len(parts[2]) > 0:
-                return item.find(parts[2])
+                return item.find(parts[2]) if hasattr(item, "find") else None
         return item
 
     def filter(self, *names: str) -> Iterator[ARElement]:
-- 
2.43.0


From 329a941997ee179e5f019ecf510fcc8704367892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 15/44] fix: raise the errors for duplicate and invalid
 packages

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6e55996..7fb88af 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2905,7 +2905,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3052,6 +3052,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"package: Invalid type '{str(type(package))}'")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
@@ -3081,7 +3083,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From 754223285cf9ac1adfb08e44ec751072046df61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 16/44] fix: make names of runnable parts and events unique in
 all cases

---
 src/autosar/xml/element.py | 52 ++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7fb88af..0f2567c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -311,19 +311,26 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     Returns a new name which is guaranteed to be unique in the given list
     """
     has_index = False
+    has_zero_index = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
             index = int(result.group(1))
             highest_index = max(highest_index, index)
+            if element.name == base_name + '_0':
+                has_zero_index = True
         elif element.name == base_name:
             unpatched_elem = element
     if unpatched_elem is not None:
-        unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
+        if has_zero_index:
+            highest_index += 1
+            unpatched_elem.name = '_'.join([base_name, str(highest_index)])
+        else:
+            unpatched_elem.name = '_'.join([base_name, '0'])
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
     else:
@@ -6972,7 +6979,8 @@ class RunnableEntity(ExecutableEntity):
         A server call result point allows a runnable to fetch the result of an asynchronous server call.
         """
         if isinstance(result_point, AsynchronousServerCallResultPoint):
-            make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
+            if self._find_by_name(self.async_server_call_result_point, result_point.name) is not None:
+                result_point.name = make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
             self.async_server_call_result_point.append(result_point)
             result_point.parent = self
         else:
@@ -6984,7 +6992,8 @@ class RunnableEntity(ExecutableEntity):
         Implicit read access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_read_access, element.name)
+            if self._find_by_name(self.data_read_access, element.name) is not None:
+                element.name = make_unique_name_in_list(self.data_read_access, element.name)
             self.data_read_access.append(element)
             element.parent = self
         else:
@@ -6996,7 +7005,8 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of an argument in the function signature.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
+            if self._find_by_name(self.data_receive_point_by_argument, element.name) is not None:
+                element.name = make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
             self.data_receive_point_by_argument.append(element)
             element.parent = self
         else:
@@ -7008,7 +7018,8 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of the return value.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_value, element.name)
+            if self._find_by_name(self.data_receive_point_by_value, element.name) is not None:
+                element.name = make_unique_name_in_list(self.data_receive_point_by_value, element.name)
             self.data_receive_point_by_value.append(element)
             element.parent = self
         else:
@@ -7019,7 +7030,8 @@ class RunnableEntity(ExecutableEntity):
         Explicit write access to data element of a sender-receiver port or nv-data.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_send_point, element.name)
+            if self._find_by_name(self.data_send_point, element.name) is not None:
+                element.name = make_unique_name_in_list(self.data_send_point, element.name)
             self.data_send_point.append(element)
             element.parent = self
         else:
@@ -7030,7 +7042,8 @@ class RunnableEntity(ExecutableEntity):
         Implicit write access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_write_access, element.name)
+            if self._find_by_name(self.data_write_access, element.name) is not None:
+                element.name = make_unique_name_in_list(self.data_write_access, element.name)
             self.data_write_access.append(element)
             element.parent = self
         else:
@@ -7052,7 +7065,8 @@ class RunnableEntity(ExecutableEntity):
         Internal triggering point
         """
         if isinstance(element, InternalTriggeringPoint):
-            make_unique_name_in_list(self.internal_triggering_point, element.name)
+            if self._find_by_name(self.internal_triggering_point, element.name) is not None:
+                element.name = make_unique_name_in_list(self.internal_triggering_point, element.name)
             self.internal_triggering_point.append(element)
             element.parent = self
         else:
@@ -7074,7 +7088,8 @@ class RunnableEntity(ExecutableEntity):
         Mode switch point
         """
         if isinstance(element, ModeSwitchPoint):
-            make_unique_name_in_list(self.mode_switch_point, element.name)
+            if self._find_by_name(self.mode_switch_point, element.name) is not None:
+                element.name = make_unique_name_in_list(self.mode_switch_point, element.name)
             self.mode_switch_point.append(element)
             element.parent = self
         else:
@@ -7085,7 +7100,8 @@ class RunnableEntity(ExecutableEntity):
         Read access to parameter which may either be local or within a PortPrototype.
         """
         if isinstance(element, ParameterAccess):
-            make_unique_name_in_list(self.parameter_access, element.name)
+            if self._find_by_name(self.parameter_access, element.name) is not None:
+                element.name = make_unique_name_in_list(self.parameter_access, element.name)
             self.parameter_access.append(element)
             element.parent = self
         else:
@@ -7096,7 +7112,8 @@ class RunnableEntity(ExecutableEntity):
         Read access to a local variable in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.read_local_variable, element.name)
+            if self._find_by_name(self.read_local_variable, element.name) is not None:
+                element.name = make_unique_name_in_list(self.read_local_variable, element.name)
             self.read_local_variable.append(element)
             element.parent = self
         else:
@@ -7107,7 +7124,8 @@ class RunnableEntity(ExecutableEntity):
         Write access to a local varaible in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.write_local_variable, element.name)
+            if self._find_by_name(self.write_local_variable, element.name) is not None:
+                element.name = make_unique_name_in_list(self.write_local_variable, element.name)
             self.write_local_variable.append(element)
             element.parent = self
         else:
@@ -7118,7 +7136,8 @@ class RunnableEntity(ExecutableEntity):
         Access to call a server operation of a client-server port.
         """
         if isinstance(element, ServerCallPoint):
-            make_unique_name_in_list(self.server_call_point, element.name)
+            if self._find_by_name(self.server_call_point, element.name) is not None:
+                element.name = make_unique_name_in_list(self.server_call_point, element.name)
             self.server_call_point.append(element)
             element.parent = self
         else:
@@ -7130,7 +7149,8 @@ class RunnableEntity(ExecutableEntity):
         WaitPoint associated with the RunnableEntity
         """
         if isinstance(element, WaitPoint):
-            make_unique_name_in_list(self.wait_point, element.name)
+            if self._find_by_name(self.wait_point, element.name) is not None:
+                element.name = make_unique_name_in_list(self.wait_point, element.name)
             self.wait_point.append(element)
             element.parent = self
         else:
-- 
2.43.0


From 3f1817165f5540c9a124a185a43720cada9893f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 17/44] fix: accept a single possible error of a client-server
 interface

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0f2567c..f201268 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3803,7 +3803,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From f80d65817d7c9022095280eb2e360148ef9d5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 18/44] fix: keep introduction, annotations and admin data of
 identifiable elements

---
 src/autosar/xml/element.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f201268..db4e4b3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,15 +234,16 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union["Annotation", list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
-        self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
-        self.uuid = None
+        self.category: str | None = None
         self.admin_data: Union["AdminData", None] = None
+        self.introduction: Union["DocumentationBlock", None] = None
+        self.annotations: list["Annotation"] = []
+        self.uuid: str | None = None
         if desc is not None:
             if isinstance(desc, MultiLanguageOverviewParagraph):
                 self.desc = desc
@@ -254,6 +255,13 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            for annotation in annotations if isinstance(annotations, list) else [annotations]:
+                if not isinstance(annotation, Annotation):
+                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")
+                self.annotations.append(annotation)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
-- 
2.43.0


From d88a466226173c0a7b228cbb335a5372a3a59df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 19/44] fix: read admin data without special data groups

---
 src/autosar/xml/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 412981a..ef6fd27 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -545,7 +545,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None and len(xml_sdgs):
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -563,16 +563,16 @@ class Reader:
         """
         Reads Complex-type AR:SDG
         """
-        group_key = xml_element.attrib['GID']
+        group_key = xml_element.attrib.get('GID')
         xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        special_data = self._read_admin_data_sd(xml_sd) if xml_sd is not None else {}
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.attrib.get('GID')
         value = xml_element.text
         return {key: value}
 
-- 
2.43.0


From 0021eb94b75efc789e2b071ddd54a60fffd401a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 20/44] fix: keep the path of the physical dimension of a unit

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index db4e4b3..1b61299 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1556,7 +1556,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From 71ed37f49daf907808c17e87d584ddd9eeb7b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 21/44] fix: report a missing DEST as ValueError

---
 src/autosar/xml/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 06d67fe..860c19d 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -179,7 +179,7 @@ class BaseRef(ARObject, abc.ABC):
                 dest = list(self.accepted_sub_types())[0]
             else:
                 msg_part1 = "Value of dest cannot be None. Accepted values are: "
-                msg_part2 = ",".join([str(x) for x in sorted(list(self.accepted_sub_types()))])
+                msg_part2 = ",".join(sorted(str(x) for x in self.accepted_sub_types()))
                 raise ValueError(msg_part1 + msg_part2)
         if dest in self.accepted_sub_types():
             self.dest = dest
-- 
2.43.0


From d533d261ee641c1eecc3b24c4a5ee2033bfd6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 22/44] fix: accept a list of paths as possible errors of an
 operation

---
 src/autosar/xml/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1b61299..024b310 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3763,12 +3763,14 @@ class ClientServerOperation(Identifiable):
         self.append_argument(argument)
         return argument
 
-    def append_possible_error_ref(self, possible_error_ref: ApplicationErrorRef) -> None:
+    def append_possible_error_ref(self, possible_error_ref: ApplicationErrorRef | str) -> None:
         """
         Appends error reference to internal list of possible errors for this operation
         """
         if isinstance(possible_error_ref, ApplicationErrorRef):
             self.possible_error_refs.append(possible_error_ref)
+        elif isinstance(possible_error_ref, str):
+            self.possible_error_refs.append(ApplicationErrorRef(possible_error_ref))
         else:
             msg = f"argument: Invalid type '{str(type(possible_error_ref))}'"
             raise TypeError(msg + ". Expected 'ApplicationErrorRef'")
-- 
2.43.0


From 3dc160f719eeb8e9120c848b8b03831dc891fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 23/44] fix: check the references of computation methods,
 constraints and data type maps

---
 src/autosar/xml/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 024b310..51dabe7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1286,8 +1286,9 @@ class CompuMethod(ARElement):
         super().__init__(name, **kwargs)
         self.int_to_phys = int_to_phys        # .COMPU-INTERNAL-TO-PHYS
         self.phys_to_int = phys_to_int        # .COMPU-PHYS-TO-INTERNAL
-        self.unit_ref = unit_ref              # .UNIT-REF
+        self.unit_ref: UnitRef | None = None  # .UNIT-REF
         self.display_format = display_format  # .DISPLAY-FORMAT
+        self._assign_optional("unit_ref", unit_ref, UnitRef)
 
     def ref(self) -> CompuMethodRef | None:
         """
@@ -1429,7 +1430,8 @@ class PhysicalConstraint(ConstraintBase):
                          monotony,
                          lower_limit_type,
                          upper_limit_type)
-        self.unit_ref = unit_ref
+        self.unit_ref: UnitRef | None = None
+        self._assign_optional("unit_ref", unit_ref, UnitRef)
 
 
 class DataConstraintRule(ARObject):
@@ -2349,8 +2351,10 @@ class DataTypeMap(ARObject):
                  appl_data_type_ref: ApplicationDataTypeRef | None = None,
                  impl_data_type_ref: ImplementationDataTypeRef | None = None,
                  ) -> None:
-        self.appl_data_type_ref = appl_data_type_ref   # .APPLICATION-DATA-TYPE-REF
-        self.impl_data_type_ref = impl_data_type_ref   # .IMPLEMENTATION-DATA-TYPE-REF
+        self.appl_data_type_ref: ApplicationDataTypeRef | None = None   # .APPLICATION-DATA-TYPE-REF
+        self.impl_data_type_ref: ImplementationDataTypeRef | None = None   # .IMPLEMENTATION-DATA-TYPE-REF
+        self._assign_optional("appl_data_type_ref", appl_data_type_ref, ApplicationDataTypeRef)
+        self._assign_optional("impl_data_type_ref", impl_data_type_ref, ImplementationDataTypeRef)
 
 
 class DataTypeMappingSet(ARElement):
-- 
2.43.0


From f77db18ecb5203bb117fca4b718336e587e1dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 24/44] fix: accept a text as label and SwValues as values of a
 value group

---
 src/autosar/xml/element.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 51dabe7..6087c4c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2471,6 +2471,11 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            elif isinstance(values, SwValues):
+                for value in values.values:
+                    self.append(value)
+            else:
+                raise TypeError(f"Invalid type for 'values': {str(type(values))}")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2502,6 +2507,8 @@ class ValueGroup(SwValues):
                 self.label = label
             elif isinstance(label, (tuple, LanguageLongName)):
                 self.label = MultilanguageLongName(label)
+            elif isinstance(label, str):
+                self.label = MultilanguageLongName((ar_enum.Language.FOR_ALL, label))
             else:
                 raise TypeError(f"Invalid type for 'label': {str(type(label))}")
 
-- 
2.43.0


From 0434290bdd2aa161d44b125c58211126479016c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 25/44] fix: Reader resumes at the next element whatever was
 wrong with this one

---
 src/autosar/xml/reader.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index ef6fd27..7a4d9ae 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -656,19 +656,19 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
                                                           str(exc))
                     if self.stop_on_error:
                         raise ar_exception.DuplicateElement(message) from exc
                     print(message)
+                except Exception as exc:  # pylint: disable=broad-exception-caught
+                    msg = "Parse error encountered while reading element starting on this line"
+                    message = self._element_error_message(xml_child_elem, msg)
+                    if self.stop_on_error:
+                        raise ar_exception.ParseError(message) from exc
+                    print(message + ":")
+                    print("    " + str(exc))
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
-- 
2.43.0


From 1c89d290fa7c8281659cf369ebc0876af2ae1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 26/44] fix: write_documents leaves packages in the workspace
 and writes them under their own path

---
 src/autosar/xml/workspace.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..df4dda2 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -227,16 +227,24 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
+        document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        document.schema_version = schema_version
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                if document.find(package_ref) is package:
+                    continue  # Part of a package which already is in the document
+                # The document shows the package at the same place, it still belongs to the workspace
+                parent = package.parent
+                container = document if parent is self else document.make_packages(str(parent.ref()))
+                container.append(package)
+                package.parent = parent
+            else:
+                raise KeyError(f"No such package: '{package_ref}'")
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -269,6 +277,7 @@ class Workspace(ar_element.PackageCollection):
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
                     new_package.append(element)
+                    element.parent = package  # It still belongs to the workspace
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From f82cce4aac8d49f51b2894014ecaff876c54b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 27/44] fix: accept a single suffix filter in a document
 mapping

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index df4dda2..24cdbfe 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -47,7 +47,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From 94e7e3d65a98e333cb8d2672100d0fb4af98df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 28/44] fix: accept a document without packages

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 24cdbfe..3eddf70 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -27,7 +27,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
-- 
2.43.0


From a02dad67f366c923c8f4af8d7e8f6b45b21ed0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 29/44] fix: keep a communication specification that is given
 to create_p_port and create_r_port on its own

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6087c4c..6aa2595 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5005,7 +5005,7 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
+            elif not isinstance(com_spec, ProvidePortComSpec):
                 com_spec = None  # Clear when not implemented
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
@@ -5054,7 +5054,7 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
+            elif not isinstance(com_spec, RequirePortComSpec):
                 com_spec = None  # Clear when not implemented
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
-- 
2.43.0


From 62626e22e05592f2cb30d93097874916690c173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 30/44] fix: reject unknown data elements and operations of a
 require-port with ValueError

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6aa2595..4e045b1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4455,7 +4455,7 @@ class RequirePortComSpec(ARObject):
                                                                              **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    element_names = ', '.join(list[unprocessed])
+                    element_names = ', '.join(list(unprocessed))
                     msg = f"{port_interface.name}: Data element(s) not found in port interface: '{element_names}'"
                     raise ValueError(msg)
                 return com_spec_list
@@ -4478,7 +4478,7 @@ class RequirePortComSpec(ARObject):
                         com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    operations = ', '.join(list[unprocessed])
+                    operations = ', '.join(list(unprocessed))
                     raise ValueError(f"{port_interface.name}: Operation(s) not found in port interface: '{operations}'")
                 return com_spec_list
         elif isinstance(port_interface, ModeSwitchInterface):
-- 
2.43.0


From ba0dde46ab3c597a3471ac822244af66e5038425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 31/44] fix: delegation and pass-through connectors that are
 created belong to their composition

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 4e045b1..4d0c9f5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5588,7 +5588,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5598,7 +5598,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From fa76e3983d625fb51b6e94cd975fa3f1447592f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 32/44] fix: create_connector rejects a component that the
 composition does not have

---
 src/autosar/xml/element.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 4d0c9f5..ff9fa86 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5544,6 +5544,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Component '{self.name}' does not seem to have a component with name '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
-- 
2.43.0


From 687dca0f59766087c6644c7e079908bf8b8c98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 33/44] fix: a pass-through connector provides at its
 provide-port, whatever order its ports are given in

---
 src/autosar/xml/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ff9fa86..753181c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5495,6 +5495,10 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
+                port1, port2 = port2, port1
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
+                raise ValueError('cannot create pass-through connector between two ports of the same kind')
             return self._create_pass_through_connector(port1, port2)
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
-- 
2.43.0


From 97fef5fa27eec3237801c1c6719a0aff1a82f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 34/44] fix: create_port_access leaves the arguments it is
 given unchanged

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 753181c..b21ae52 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6726,6 +6726,8 @@ class RunnableEntity(ExecutableEntity):
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
+                if access_point_args is not None:
+                    access_point_args = dict(access_point_args)
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
-- 
2.43.0


From d447fcab3f6390b891b56264381c28b2fcfa7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 35/44] fix: create_port_access finds the only parameter of a
 parameter interface

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b21ae52..90cdaef 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6921,7 +6921,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From e7a35f0b3c5227ccbf1cc79c1e207980ac9ec74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 36/44] fix: create_port_access rejects accesses that the port
 does not offer instead of ignoring them

---
 src/autosar/xml/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 90cdaef..8518d0f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6889,6 +6889,8 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
                 access_point = ModeAccessPoint(ident=ident, mode_group=mode_group_iref)
+            else:
+                raise TypeError(f"Modes cannot be switched using require-port '{port.name}'")
         elif isinstance(port, ProvidePortPrototype):
             mode_group_iref = PModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
             if access_type is None:
@@ -6906,6 +6908,8 @@ class RunnableEntity(ExecutableEntity):
                 else:
                     switch_point = ModeSwitchPoint(name, mode_group_iref)
                 self.append_mode_switch_point(switch_point)
+        else:
+            raise TypeError(f"Type not supported: {str(type(port))}")
         if access_point:
             self.append_mode_access_point(access_point)
 
@@ -6990,6 +6994,8 @@ class RunnableEntity(ExecutableEntity):
                     access_point = SynchronousServerCallPoint(name, operation=operation_iref)
             if access_point:
                 self.append_server_call_point(access_point)
+        else:
+            raise TypeError(f"Type not supported: {str(type(port))}")
 
     def append_argument(self, argument: RunnableEntityArgument) -> None:
         """
-- 
2.43.0


From f229e5d7496ed9e7cd1473a6c8b863a92c57e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 37/44] fix: create_port_access rejects a mode group when the
 interface has none

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8518d0f..f3b729d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6868,7 +6868,7 @@ class RunnableEntity(ExecutableEntity):
         """
         mode_group = None
         if len(mode_group_name) != 0:
-            if mode_group_name == port_interface.mode_group.name:
+            if port_interface.mode_group is not None and mode_group_name == port_interface.mode_group.name:
                 mode_group = port_interface.mode_group
         else:
             mode_group = port_interface.mode_group
-- 
2.43.0


From ee0dddd4f4271cae325bafb6ad8e73f8f0dde78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 38/44] fix: a limit that is not given does not bound a value

check_value raised TypeError for constraints with only one limit.
---
 src/autosar/xml/element.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f3b729d..ec4a4ab 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1327,16 +1327,18 @@ class LimitObject(ARObject):
         """
         Checks if given value is inside the constraint limits
         """
-        if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
-            if value < self.lower_limit:
+        if self.lower_limit is not None:
+            if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
+                if value < self.lower_limit:
+                    return False
+            elif value <= self.lower_limit:
                 return False
-        elif value <= self.lower_limit:
-            return False
-        if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
-            if value > self.upper_limit:
+        if self.upper_limit is not None:
+            if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
+                if value > self.upper_limit:
+                    return False
+            elif value >= self.upper_limit:
                 return False
-        elif value >= self.upper_limit:
-            return False
         return True
 
 
-- 
2.43.0


From 5c9c0a8d264a5f40db3c62531a7c0ea17dfc9851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 39/44] fix: array types keep the array attributes of their
 element

The members of the XML enumerations are not values of those of the model:
an array with one of these attributes raised ValueError.
---
 src/autosar/model/implementation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..b6f5792 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -155,11 +155,11 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-- 
2.43.0


From da4ee52ee2f2c109985bbfcd3f5cae5740e657e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 40/44] fix: reference types keep their type emitter

A TYPE_REFERENCE type with another emitter than RTE was defined in the RTE
header all the same.
---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index b6f5792..fa08b00 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -137,7 +137,11 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref),
+                                       element.name,
+                                       impl_type,
+                                       symbol,
+                                       type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From ee599193b193b8ca739871966cd3dbcda929c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 41/44] fix: a type that is asked for is a source type even
 when others needed it before

Whether a type was defined depended on the order in which the types were
added, and a type that could not be created was remembered as a source type,
which made the generator raise KeyError.
---
 src/autosar/model/implementation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index fa08b00..c0a23fe 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -49,11 +49,18 @@ class ImplementationModel:
         """
         Creates new application element from xml-based element
         """
+        data_type = self._get_or_create_from_element(element)
+        if is_source:
+            self.source_type_refs.add(data_type.ref)
+        return data_type
+
+    def _get_or_create_from_element(self, element: ar_element.ARElement) -> Any:
+        """
+        Returns the application element of an xml-based element, which is created when necessary
+        """
         elem_ref = element.ref()
 
         if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
             if isinstance(element, ar_element.SwBaseType):
                 return self._create_base_type(element)
             elif isinstance(element, ar_element.ImplementationDataType):
-- 
2.43.0


From 8c263ad0c43014c7c824932c90ec94e08036221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 42/44] fix: the type header declares C linkage to C++
 compilers only

The condition was inverted: C compilers were given extern "C".
---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..b8dcdd1 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From 1be82465f7d1d4f2b3d969c6dbcd03a67d3b5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 43/44] fix: a conversion with a denominator and no numerator
 can be read back

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ec4a4ab..30851d4 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1110,7 +1110,7 @@ class CompuRational(ARObject):
     """
 
     def __init__(self,
-                 numerator: tuple[int | float] | list[int | float] | None,
+                 numerator: tuple[int | float] | list[int | float] | None = None,
                  denominator: tuple[int | float] | list[int | float] | None = None) -> None:
         if numerator is not None:
             if not isinstance(numerator, (tuple, list)):
-- 
2.43.0


From 3b356b91175d91daea497c19953432a63d9ad77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:44 +0000
Subject: [PATCH 44/44] fix: a computation has its own list of scales

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 30851d4..fe262b2 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1198,7 +1198,7 @@ class Computation(ARObject):
                  compu_scales: list[CompuScale] | None = None,
                  default_value: CompuConst | int | float | str | None = None) -> None:
 
-        self.compu_scales = compu_scales
+        self.compu_scales = None if compu_scales is None else list(compu_scales)
         self.default_value: CompuConst | int | float | str | None = None  # .COMPU-DEFAULT-VALUE
         if isinstance(default_value, CompuConst):
             self.default_value = default_value
-- 
2.43.0


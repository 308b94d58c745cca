From fda0b95df3a0f35f54bfe26370325a06fe8876b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 01/10] fix: treat a line break as white space instead of
 deleting it

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..0f34284 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,7 +28,7 @@ class XmlToMathMLAdapter:
 
     def _remove_line_breaks(self, xml: str) -> str:
         line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        return line_break_pattern.sub(" ", xml)
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From 568dd6c0fc0270e100361a0e0b02e30f91dd0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 02/10] fix: comments and processing instructions do not
 replace an element's text

---
 .../services/xml_elements_to_mathml_element.py       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..0c2e289 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,9 +20,7 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
-        )
+        value = "" if has_children else self._text_content(el)
 
         children = (
             self.convert(
@@ -51,6 +49,14 @@ class ElementsToMathMLAdapter:
             attr_dict[attr.name] = attr_value
         return attr_dict
 
+    def _text_content(self, el: DOMElement) -> str:
+        # Comments and processing instructions are not part of the text
+        return "".join(
+            child.nodeValue
+            for child in el.childNodes
+            if child.nodeType in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
+        )
+
     def _has_element_child(self, el: DOMElement) -> bool:
         return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
 
-- 
2.43.0


From 45711bc709e3ecf30b7bc8a36ac546919bd3c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 03/10] fix: an empty non-toggle maction raises
 InvalidNumberOfChildrenError, not IndexError

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..b3765fd 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -508,6 +508,11 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if not children:
+            raise InvalidNumberOfChildrenError(
+                self._math_element.name, 1, 0, "at least"
+            )
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From fc1732a4d5a7cc49799109e9d65d5df51f118c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 04/10] fix: strip the mml: prefix from tags only, not from
 text

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 0f34284..b5d0bf2 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -31,7 +31,7 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml)
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"mml:")
+        ms_word_prefix_pattern = re.compile(r"mml:(?=[^<>]*>)")
         return ms_word_prefix_pattern.sub("", xml)
 
     @property
-- 
2.43.0


From 44bda2efb3340042d904e44551d192360b3ed6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 05/10] fix: white space characters inside mtext are kept as a
 space

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index b3765fd..890fdd9 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -56,9 +56,10 @@ class MI(ToLaTeXConverter):
         self._math_element = math_element
 
     def convert(self) -> str:
+        if self._math_element.value.isspace():
+            return Character.apply(" ")
+
         normalized_value = self._normalizer.normalize(self._math_element.value)
-        if normalized_value == " ":
-            return Character.apply(normalized_value)
 
         trimmed_value = normalized_value.strip()
         converted_char = Character.apply(trimmed_value)
-- 
2.43.0


From 3b4dfc08fb29e71f79f1f50a9c48ddb5fc58fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 06/10] fix: repairing a malformed document does not truncate
 it

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..d78c4f5 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -22,7 +22,7 @@ class ErrorHandler:
         while re.search(pattern, xml) and counter < 5:
             counter += 1
             # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
+            result = re.sub(pattern, r"\1\4", xml)
         return result
 
     def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
-- 
2.43.0


From 29c14febcc05075ce0538f240c55623e9a8fafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 07/10] fix: accented letters keep their own base letter and
 accent (U+017B, U+017C, U+0207)

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..7bffdd7 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -73,7 +73,7 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'ë': AccentChar(char='e', accent='¨'),
     'ę': AccentChar(char='e', accent='˙'),
     'ě': AccentChar(char='e', accent='ˇ'),
-    'ȇ': AccentChar(char='i', accent='^'),
+    'ȇ': AccentChar(char='e', accent='^'),
     'ё': AccentChar(char='e', accent='¨'),
     'ē': AccentChar(char='e', accent='-'),
     'í': AccentChar(char='i', accent='´'),
@@ -186,8 +186,8 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'Ĵ': AccentChar(char='J', accent='^'),
     'ź': AccentChar(char='z', accent='´'),
     'Ź': AccentChar(char='Z', accent='´'),
-    'Ż': AccentChar(char='Z', accent='^'),
-    'ż': AccentChar(char='z', accent='^'),
+    'Ż': AccentChar(char='Z', accent='˙'),
+    'ż': AccentChar(char='z', accent='˙'),
     'Ž': AccentChar(char='Z', accent='ˇ'),
     'ž': AccentChar(char='z', accent='ˇ'),
     'ẑ': AccentChar(char='z', accent='ˆ'),
-- 
2.43.0


From a580c1ff92ce1f7e4a2273b71fe33fd5cd42a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 08/10] fix: bold capital Greek letters map to the letter they
 stand for

---
 src/mathml_to_latex/syntax.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 7bffdd7..85cf5bb 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -419,24 +419,24 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚪': SpecialFontChar(letter='\\Gamma', font_cmd='mathtt'),
     '𝚫': SpecialFontChar(letter='\\Delta', font_cmd='mathtt'),
     '𝚬': SpecialFontChar(letter='E', font_cmd='mathtt'),
-    '𝚭': SpecialFontChar(letter='F', font_cmd='mathtt'),
-    '𝚮': SpecialFontChar(letter='G', font_cmd='mathtt'),
+    '𝚭': SpecialFontChar(letter='Z', font_cmd='mathtt'),
+    '𝚮': SpecialFontChar(letter='H', font_cmd='mathtt'),
     '𝚯': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚰': SpecialFontChar(letter='I', font_cmd='mathtt'),
-    '𝚱': SpecialFontChar(letter='J', font_cmd='mathtt'),
+    '𝚱': SpecialFontChar(letter='K', font_cmd='mathtt'),
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
-    '𝚳': SpecialFontChar(letter='L', font_cmd='mathtt'),
-    '𝚴': SpecialFontChar(letter='M', font_cmd='mathtt'),
-    '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
+    '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
+    '𝚵': SpecialFontChar(letter='\\Xi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
-    '𝚸': SpecialFontChar(letter='Q', font_cmd='mathtt'),
-    '𝚹': SpecialFontChar(letter='R', font_cmd='mathtt'),
-    '𝚺': SpecialFontChar(letter='S', font_cmd='mathtt'),
+    '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
+    '𝚹': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
+    '𝚺': SpecialFontChar(letter='\\Sigma', font_cmd='mathtt'),
     '𝚻': SpecialFontChar(letter='T', font_cmd='mathtt'),
-    '𝚼': SpecialFontChar(letter='U', font_cmd='mathtt'),
+    '𝚼': SpecialFontChar(letter='\\Upsilon', font_cmd='mathtt'),
     '𝚽': SpecialFontChar(letter='\\Phi', font_cmd='mathtt'),
-    '𝚾': SpecialFontChar(letter='W', font_cmd='mathtt'),
+    '𝚾': SpecialFontChar(letter='X', font_cmd='mathtt'),
     '𝚿': SpecialFontChar(letter='\\Psi', font_cmd='mathtt'),
     '𝛀': SpecialFontChar(letter='\\Omega', font_cmd='mathtt'),
 }
-- 
2.43.0


From 46c8e07d92d450248bb4dabcfb06336696498010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 09/10] fix: an innerTable attribute in a document does not
 wrap the table

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 890fdd9..2356b3f 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -367,8 +367,9 @@ class MTable(ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
+        # "#" is not allowed in attribute names, so a document cannot set the flag
         self._add_flag_recursive_if_name(
-            self._math_element.children, "mtable", "innerTable"
+            self._math_element.children, "mtable", "#innerTable"
         )
 
     def convert(self) -> str:
@@ -380,7 +381,7 @@ class MTable(ToLaTeXConverter):
         )
 
         return (
-            self._wrap(table_content) if self._has_flag("innerTable") else table_content
+            self._wrap(table_content) if self._has_flag("#innerTable") else table_content
         )
 
     def _wrap(self, latex: str) -> str:
-- 
2.43.0


From 8044b49ec0220ba10b95203e30be8bbdf2a84a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 10/10] fix: superscript 1, 2 and 3 written as operators stay
 superscripts

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 85cf5bb..2f515c1 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2142,11 +2142,11 @@ all_math_operators_by_glyph = {
   'ˇ': '',
   'ˆ': '\\hat',
   'º': 'o',
-  '¹': '1',
+  '¹': '^{1}',
   '¸': ',',
   '´': '´',
-  '³': '3',
-  '²': '2',
+  '³': '^{3}',
+  '²': '^{2}',
   '°': '\\circ',
   '¯': '\\bar',
   'ª': 'a',
-- 
2.43.0


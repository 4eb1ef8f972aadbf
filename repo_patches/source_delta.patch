From b4dac9a5a49272a9dd1a1c7be947ddd2b62815db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 01/45] fix: escape markup characters in written text and
 attribute values

---
 src/autosar/xml/writer.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..1b56496 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -70,7 +70,7 @@ class _XMLWriter:
         self.fh.write(text)
 
     def _add_inline_text(self, text):
-        self.fh.write(text)
+        self.fh.write(self._escape_text(text))
 
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
@@ -94,7 +94,7 @@ class _XMLWriter:
             text = f'<{tag}>'
         else:
             text = f'<{tag} {self._attr_to_str(attr)}>'
-        self._add_inline_text(text)
+        self.fh.write(text)
 
     def _end_line(self, tag: str):
         text = f'</{tag}>'
@@ -102,6 +102,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = self._escape_text(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -113,7 +114,7 @@ class _XMLWriter:
             else:
                 text = f'<{tag}/>'
         if inline:
-            self._add_inline_text(text)
+            self.fh.write(text)
         else:
             self._add_line(text)
 
@@ -121,9 +122,23 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attr(elem[1])}"' for elem in attr]
         return ' '.join(parts)
 
+    def _escape_text(self, text: str) -> str:
+        """
+        Escapes character data
+        """
+        text = text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
+        return text.replace('\r', '&#13;')
+
+    def _escape_attr(self, text: str) -> str:
+        """
+        Escapes attribute value (white space would otherwise be normalized by the parser)
+        """
+        text = self._escape_text(text).replace('"', '&quot;')
+        return text.replace('\t', '&#9;').replace('\n', '&#10;')
+
     def _format_float(self, value: float) -> str:
         """
         Formats a float into a printable number string.
-- 
2.43.0


From f2f9e2dac2d62ef616b8fe5a3d27ae68ca9a07a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 02/45] fix: write integral floats of 1e28 and above

---
 src/autosar/xml/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1b56496..c5a7912 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -150,7 +150,9 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
+            # Integral values too large for decimal context are written in scientific notation
+            is_integral = tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec
+            result = tmp.quantize(decimal.Decimal(1)) if is_integral else tmp.normalize()
             return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
-- 
2.43.0


From 74fd2df635a7140d1c1c07950a3342d705c6edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 03/45] fix: read mixed text content in order and without
 rejecting valid parts

---
 src/autosar/xml/element.py | 16 ++++++++--------
 src/autosar/xml/reader.py  | 18 +++++++++---------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..cad60fd 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -591,11 +591,11 @@ class MixedContentForLongName(LanguageSpecific):
         super().__init__(language)
         self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Superscript | IndexEntry):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -608,17 +608,17 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
 
     def __init__(self, language: ar_enum.Language) -> None:
         super().__init__(language)
-        self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
+        self.parts = []  # Unbounded list of str | BR | TT | E | SUP | SUB | IE
         # Unsupported elements:
         # FT : AR:SL-OVERVIEW-PARAGRAPH
         # TRACE-REF: Complex type
         # XREF: AR:-XREF-TARGET
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | Break | TechnicalTerm | EmphasisText | Subscript | Superscript | IndexEntry):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -799,11 +799,11 @@ class MixedContentForParagraph(LanguageSpecific):
         # XREF-TARGET: AR:-XREF-TARGET
 
     def append(self,
-               part: str | Break | EmphasisText | IndexEntry | Subscript | Subscript | TechnicalTerm):
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -977,7 +977,7 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, Iterable) and not isinstance(parts, str):
                 for part in parts:
                     self.append(part)
             else:
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..a07be73 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -866,13 +866,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -923,7 +923,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -932,7 +932,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -978,7 +978,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -993,7 +993,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1009,7 +1009,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1018,7 +1018,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1123,7 +1123,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From df96ff111d063fabb85c15354eb337495bc537dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 04/45] fix: write and read numerical values in all number
 formats

---
 src/autosar/xml/element.py |  5 +++--
 src/autosar/xml/reader.py  | 12 +++++-------
 src/autosar/xml/writer.py  |  6 +++---
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index cad60fd..8e355e1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -111,9 +111,10 @@ class NumericalValue:
                  ) -> None:
         self._value = self._validate_value(value)
         if isinstance(value, str):
-            if value.startswith("0x"):
+            prefix = value.strip().lstrip("+-")[:2].lower()
+            if prefix == "0x":
                 value_format = ar_enum.ValueFormat.HEXADECIMAL
-            elif value.startswith("0b"):
+            elif prefix == "0b":
                 value_format = ar_enum.ValueFormat.BINARY
         self.value_format = value_format
 
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a07be73..42ab2c7 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -455,14 +455,12 @@ class Reader:
         """
         Attempts to convert text to either int or float
         """
-        try:
-            value = int(text)
-        except ValueError:
+        for convert in (int, lambda string: int(string, 0), float):
             try:
-                value = float(text)
-            except ValueError as exc:
-                raise ar_exception.ParseError(f"Not a number: {text}") from exc
-        return value
+                return convert(text)
+            except ValueError:
+                continue
+        raise ar_exception.ParseError(f"Not a number: {text}")
 
     def _read_integer(self, text: str) -> int:
         """
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index c5a7912..118c0d5 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -179,11 +179,11 @@ class _XMLWriter:
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
             return self._format_number(number.value)
         elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
+            return f"{number.value:#x}"
         elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+            return f"{number.value:#b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            return f"{decimal.Decimal(str(number.value)):e}"
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 94fdafe8bc07b0276730e7fab133792dca0afedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 05/45] fix: keep introduction, annotations and admin data of
 identifiable elements

---
 src/autosar/xml/element.py | 11 ++++++++---
 src/autosar/xml/reader.py  | 11 ++++++-----
 src/autosar/xml/writer.py  |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8e355e1..f5535d7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -235,13 +235,14 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union["Annotation", list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: DocumentationBlock | None = None
+        self.annotations: list[Annotation] | None = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -255,6 +256,10 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            self.annotations = [annotations] if isinstance(annotations, Annotation) else list(annotations)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 42ab2c7..8213f53 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -543,7 +543,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None:
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -561,16 +561,17 @@ class Reader:
         """
         Reads Complex-type AR:SDG
         """
-        group_key = xml_element.attrib['GID']
-        xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        group_key = xml_element.get('GID')
+        special_data = {}
+        for xml_sd in xml_element.findall('./SD'):
+            special_data.update(self._read_admin_data_sd(xml_sd))
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.get('GID')
         value = xml_element.text
         return {key: value}
 
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 118c0d5..60a4f62 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -593,10 +593,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From a4d671268433a847c362016eb59c65590a733cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 06/45] fix: skip and report elements with invalid content
 instead of aborting the whole file

---
 src/autosar/xml/reader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 8213f53..72628e8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -655,19 +655,20 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
                                                           str(exc))
                     if self.stop_on_error:
                         raise ar_exception.DuplicateElement(message) from exc
                     print(message)
+                except (ar_exception.ParseError, LookupError, NotImplementedError,
+                        TypeError, ValueError) as exc:
+                    msg = "Parse error encountered while reading element starting on this line"
+                    message = self._element_error_message(xml_child_elem, msg)
+                    if self.stop_on_error:
+                        raise ar_exception.ParseError(message) from exc
+                    print(message + ":")
+                    print("    " + str(exc))
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
-- 
2.43.0


From 1e60a132106858ae286bac1f36e0630455b658e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 07/45] fix: accept documents without packages and a single
 suffix filter

---
 src/autosar/xml/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..bc9c65a 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -27,7 +27,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
@@ -47,7 +47,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From 4072216ec89c19e3753ea48afd4a96edb608b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 08/45] fix: write documents without moving packages and
 elements out of the workspace

---
 src/autosar/xml/workspace.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index bc9c65a..c5119f9 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -227,16 +227,20 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
+        document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        document.schema_version = schema_version
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                target = document
+                if isinstance(package.parent, ar_element.Package):
+                    target = document.make_packages(str(package.parent.ref()))
+                # The package still belongs to this workspace, its parent must not change
+                target.packages.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -263,12 +267,13 @@ class Workspace(ar_element.PackageCollection):
                         if len(suffix) > 0:
                             name = matched_element.name + suffix
                             extra_element = element_map.get(name, None)
-                            if extra_element is not None:
+                            if extra_element is not None and extra_element not in element_list:
                                 element_list.append(extra_element)
                 document = ar_document.Document(schema_version=schema_version)
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
-                    new_package.append(element)
+                    # The element still belongs to this workspace, its parent must not change
+                    new_package.elements.append(element)
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From 773be5a61d12f71f1c70519994032748d15bf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 09/45] fix: raise on duplicate package names and on invalid
 package types

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f5535d7..3b1583a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2893,7 +2893,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3040,6 +3040,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"Invalid type {str(type(package))}")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
@@ -3069,7 +3071,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From 5867cc1738400552adf680aa759cfa9843968775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 10/45] fix: resolve references to and through elements without
 sub-items

---
 src/autosar/xml/element.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3b1583a..f9404eb 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1931,10 +1931,21 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
 
+    def find(self, ref: str) -> Any:
+        """
+        Finds item by reference
+        """
+        name, _, sub_ref = ref.partition('/')
+        for elem in self.sub_elements:
+            if elem.name == name:
+                return elem.find(sub_ref) if len(sub_ref) > 0 else elem
+        return None
+
     def ref(self) -> AbstractImplementationDataTypeElementRef | None:
         """
         Returns a reference to this element or None if the element
@@ -1987,6 +1998,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -2003,8 +2015,11 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        name, _, sub_ref = ref.partition('/')
+        for elem in self.sub_elements:
+            if elem.name == name:
+                return elem.find(sub_ref) if len(sub_ref) > 0 else elem
+        return None
 
 
 class DataPrototype(Identifiable):
@@ -2910,7 +2925,7 @@ class Package(CollectableElement):
         item = self._collection_map.get(parts[0], None)
         if item is not None:
             if len(parts[2]) > 0:
-                return item.find(parts[2])
+                return item.find(parts[2]) if hasattr(item, "find") else None
         return item
 
     def filter(self, *names: str) -> Iterator[ARElement]:
-- 
2.43.0


From 50396b377c901c231565430b2281ece8226a8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 11/45] fix: set parent of nested elements so that they can be
 referenced

---
 src/autosar/xml/element.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f9404eb..3d03028 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2245,6 +2245,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if self.element is not None:
+            self.element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2305,6 +2307,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3288,7 +3291,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
@@ -3692,6 +3695,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -5171,7 +5175,7 @@ class AtomicSoftwareComponentType(SwComponentType):
         super().__init__(name, **kwargs)
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
-        self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        self._assign_optional_strict("internal_behavior", internal_behavior, SwcInternalBehavior)
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
-- 
2.43.0


From 0f6ff2d98b69d5042e627b21edbf9acbf95d7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 12/45] fix: create connectors with matching port directions
 and a parent

---
 src/autosar/xml/element.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3d03028..c60621c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5469,6 +5469,10 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
+                port1, port2 = port2, port1
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
+                raise ValueError('cannot create pass-through connector between two ports of same direction')
             return self._create_pass_through_connector(port1, port2)
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
@@ -5479,10 +5483,12 @@ class CompositionSwComponentType(SwComponentType, Searchable):
             provider_component: SwComponentPrototype = None
             provide_port: PortPrototype = None
             require_port: PortPrototype = None
-            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
+            require_types = (RequirePortPrototype, PRPortPrototype)
+            provide_types = (ProvidePortPrototype, PRPortPrototype)
+            if isinstance(port1, require_types) and isinstance(port2, provide_types):
                 requester_component, provider_component = component1, component2
                 require_port, provide_port = port1, port2
-            elif isinstance(port1, ProvidePortPrototype) and isinstance(port2, RequirePortPrototype):
+            elif isinstance(port1, provide_types) and isinstance(port2, require_types):
                 requester_component, provider_component = component2, component1
                 require_port, provide_port = port2, port1
             elif isinstance(port1, RequirePortPrototype) and isinstance(port2, RequirePortPrototype):
@@ -5518,6 +5524,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Component '{self.name}' does not seem to have an inner component '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
@@ -5562,7 +5569,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5572,7 +5579,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From 9e84f7e9916b6814263759cdbeeacd84fd10ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 13/45] fix: keep and check com-specs given to ports

---
 src/autosar/xml/element.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c60621c..0cde9d0 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4431,7 +4431,7 @@ class RequirePortComSpec(ARObject):
                                                                              **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    element_names = ', '.join(list[unprocessed])
+                    element_names = ', '.join(list(unprocessed))
                     msg = f"{port_interface.name}: Data element(s) not found in port interface: '{element_names}'"
                     raise ValueError(msg)
                 return com_spec_list
@@ -4454,7 +4454,7 @@ class RequirePortComSpec(ARObject):
                         com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    operations = ', '.join(list[unprocessed])
+                    operations = ', '.join(list(unprocessed))
                     raise ValueError(f"{port_interface.name}: Operation(s) not found in port interface: '{operations}'")
                 return com_spec_list
         elif isinstance(port_interface, ModeSwitchInterface):
@@ -4840,7 +4840,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
@@ -4981,8 +4981,6 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
         return port
@@ -5030,8 +5028,6 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
         return port
-- 
2.43.0


From afd1934369d16255d3464850448f50d2e2a3e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 14/45] fix: keep physical dimension reference given as string

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0cde9d0..f17a98a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1547,7 +1547,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From 9844e9ac3fc3d3f461333c4f51fd16f1fae9b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 15/45] fix: give appended access points and created events
 unique names

---
 src/autosar/xml/element.py | 44 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f17a98a..6403b1e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -319,23 +319,35 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     has_index = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    is_zero_taken = False
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
             index = int(result.group(1))
             highest_index = max(highest_index, index)
+            is_zero_taken = is_zero_taken or index == 0
         elif element.name == base_name:
             unpatched_elem = element
     if unpatched_elem is not None:
-        unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
+        if is_zero_taken:
+            highest_index += 1
+        unpatched_elem.name = '_'.join([unpatched_elem.name, str(highest_index) if is_zero_taken else '0'])
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
     else:
         return base_name
 
 
+def make_element_name_unique_in_list(elements: list[Referrable], element: Referrable) -> None:
+    """
+    Renames element if its name is already used in the list of elements.
+    """
+    if any(other.name == element.name for other in elements):
+        element.name = make_unique_name_in_list(elements, element.name)
+
+
 # Common structure elements
 
 
@@ -6977,7 +6989,7 @@ class RunnableEntity(ExecutableEntity):
         A server call result point allows a runnable to fetch the result of an asynchronous server call.
         """
         if isinstance(result_point, AsynchronousServerCallResultPoint):
-            make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
+            make_element_name_unique_in_list(self.async_server_call_result_point, result_point)
             self.async_server_call_result_point.append(result_point)
             result_point.parent = self
         else:
@@ -6989,7 +7001,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit read access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_read_access, element.name)
+            make_element_name_unique_in_list(self.data_read_access, element)
             self.data_read_access.append(element)
             element.parent = self
         else:
@@ -7001,7 +7013,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of an argument in the function signature.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
+            make_element_name_unique_in_list(self.data_receive_point_by_argument, element)
             self.data_receive_point_by_argument.append(element)
             element.parent = self
         else:
@@ -7013,7 +7025,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of the return value.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_value, element.name)
+            make_element_name_unique_in_list(self.data_receive_point_by_value, element)
             self.data_receive_point_by_value.append(element)
             element.parent = self
         else:
@@ -7024,7 +7036,7 @@ class RunnableEntity(ExecutableEntity):
         Explicit write access to data element of a sender-receiver port or nv-data.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_send_point, element.name)
+            make_element_name_unique_in_list(self.data_send_point, element)
             self.data_send_point.append(element)
             element.parent = self
         else:
@@ -7035,7 +7047,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit write access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_write_access, element.name)
+            make_element_name_unique_in_list(self.data_write_access, element)
             self.data_write_access.append(element)
             element.parent = self
         else:
@@ -7057,7 +7069,7 @@ class RunnableEntity(ExecutableEntity):
         Internal triggering point
         """
         if isinstance(element, InternalTriggeringPoint):
-            make_unique_name_in_list(self.internal_triggering_point, element.name)
+            make_element_name_unique_in_list(self.internal_triggering_point, element)
             self.internal_triggering_point.append(element)
             element.parent = self
         else:
@@ -7079,7 +7091,7 @@ class RunnableEntity(ExecutableEntity):
         Mode switch point
         """
         if isinstance(element, ModeSwitchPoint):
-            make_unique_name_in_list(self.mode_switch_point, element.name)
+            make_element_name_unique_in_list(self.mode_switch_point, element)
             self.mode_switch_point.append(element)
             element.parent = self
         else:
@@ -7090,7 +7102,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to parameter which may either be local or within a PortPrototype.
         """
         if isinstance(element, ParameterAccess):
-            make_unique_name_in_list(self.parameter_access, element.name)
+            make_element_name_unique_in_list(self.parameter_access, element)
             self.parameter_access.append(element)
             element.parent = self
         else:
@@ -7101,7 +7113,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to a local variable in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.read_local_variable, element.name)
+            make_element_name_unique_in_list(self.read_local_variable, element)
             self.read_local_variable.append(element)
             element.parent = self
         else:
@@ -7112,7 +7124,7 @@ class RunnableEntity(ExecutableEntity):
         Write access to a local varaible in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.write_local_variable, element.name)
+            make_element_name_unique_in_list(self.write_local_variable, element)
             self.write_local_variable.append(element)
             element.parent = self
         else:
@@ -7123,7 +7135,7 @@ class RunnableEntity(ExecutableEntity):
         Access to call a server operation of a client-server port.
         """
         if isinstance(element, ServerCallPoint):
-            make_unique_name_in_list(self.server_call_point, element.name)
+            make_element_name_unique_in_list(self.server_call_point, element)
             self.server_call_point.append(element)
             element.parent = self
         else:
@@ -7135,7 +7147,7 @@ class RunnableEntity(ExecutableEntity):
         WaitPoint associated with the RunnableEntity
         """
         if isinstance(element, WaitPoint):
-            make_unique_name_in_list(self.wait_point, element.name)
+            make_element_name_unique_in_list(self.wait_point, element)
             self.wait_point.append(element)
             element.parent = self
         else:
-- 
2.43.0


From ef46cb25076eb42f4a8210fffd67693a8af9c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 16/45] fix: reject invalid port and mode names before changing
 the behavior

---
 src/autosar/xml/element.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6403b1e..59683db 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8421,13 +8421,13 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_switch_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
         expected_formats = "Expected formats: '<PortName>', '<PortName>/<ModeDeclarationName>', tuple[str, str]"
         if isinstance(mode_ref, str):
             if len(mode_ref) == 0:
                 raise ValueError("mode_ref: Invalid argument. " + expected_formats)
             context_port, context_mode_declaration_group, target_mode_declaration = (
                 self._get_swc_mode_switch_event_args(workspace, swc, mode_ref))
+            unique_event_name = self._make_unique_event_name(event_name)
             event = SwcModeSwitchEvent.make(unique_event_name,
                                             runnable.ref(),
                                             activation,
@@ -8450,6 +8450,7 @@ class SwcInternalBehavior(InternalBehavior):
                                                                      target_mode_declaration.ref()))
                 else:
                     raise TypeError(f"mode_ref: Invalid type '{str(type(ref))}'. " + expected_formats)
+            unique_event_name = self._make_unique_event_name(event_name)
             event = SwcModeSwitchEvent(unique_event_name,
                                        runnable.ref(),
                                        activation,
@@ -8549,6 +8550,10 @@ class SwcInternalBehavior(InternalBehavior):
                 ports_to_process[name] = False
         else:
             raise TypeError(f"port_name: Expected type string or list of string. Got {str(type(port_name))}")
+        port_names = {port.name for port in swc.ports}
+        for name in ports_to_process:
+            if name not in port_names:
+                raise ValueError(f"port_name: '{name}' is not a valid port name in SWC '{swc.name}'")
         if len(ports_to_process):
             for port in sorted(swc.ports, key=lambda x: x.name.lower()):
                 if port.name in ports_to_process:
@@ -8561,9 +8566,6 @@ class SwcInternalBehavior(InternalBehavior):
                                                                    supported_features,
                                                                    transformer_status_forwarding)
                     self.append_port_api_option(option)
-            for key, value in ports_to_process.items():
-                if not value:
-                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
 
     def _create_port_api_option_internal(self,
                                          port: PortPrototypeElement,
-- 
2.43.0


From 17e27b8e76f044f655c96e9e2fc3986d798146b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 17/45] fix: create access to the only parameter of a port and
 keep caller's arguments

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 59683db..3301414 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6709,7 +6709,7 @@ class RunnableEntity(ExecutableEntity):
             elements = [elements]
         for elem in elements:
             if isinstance(elem, tuple):
-                text, access_point_args = elem
+                text, access_point_args = elem[0], dict(elem[1])  # The dict belongs to the caller
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
@@ -6903,7 +6903,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From d660ddd4ef2f0511891610f0ebb0ddf2170cfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 18/45] fix: include data types that were first created as a
 dependency

---
 src/autosar/model/implementation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..6f313e0 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -51,9 +51,9 @@ class ImplementationModel:
         """
         elem_ref = element.ref()
 
+        if is_source:
+            self.source_type_refs.add(str(elem_ref))
         if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
             if isinstance(element, ar_element.SwBaseType):
                 return self._create_base_type(element)
             elif isinstance(element, ar_element.ImplementationDataType):
-- 
2.43.0


From 5882a29bacb1bc23865f545b1bf26b51ee5e4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 19/45] fix: respect type emitter of type references

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 6f313e0..6cbcac5 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -137,7 +137,11 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref),
+                                       element.name,
+                                       impl_type,
+                                       symbol,
+                                       type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From 5ae202cce4f4abb39dbd4b3ff9ab8ac227d6d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 20/45] fix: create array types with several dimensions or
 array properties

---
 src/autosar/generator/type_generator.py | 3 ++-
 src/autosar/model/implementation.py     | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..621afbe 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -129,7 +129,8 @@ class TypeGenerator:
             target_type = C.type(last_element.data_type.impl_type.name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=last_element.array_size)))
+        dimensions = "][".join(str(element.array_size) for element in data_type.sub_elements)
+        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=dimensions)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 6cbcac5..b61d32e 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -159,15 +159,15 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-            assert isinstance(xml_ref.array_size, int)
+            assert isinstance(ar_sub_elem.array_size, int)
             rte_sub_element = rte_element.ArrayTypeElement(xml_ref, ar_sub_elem.name, ar_sub_elem.array_size)
             data_type.sub_elements.insert(0, rte_sub_element)
         self.data_types[str(elem_ref)] = data_type
-- 
2.43.0


From 4ebb90103155330e021d8736c95f1886b265cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 21/45] fix: open extern C block only for C++ in type header

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 621afbe..358e3ba 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From 6701eda6d968778610a1ff98d54067760adca122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 22/45] fix: read validity of scale constraints

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 72628e8..12c14b3 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1447,6 +1447,9 @@ class Reader:
             limit, interval_type = self._read_limit(xml_child)
             data["upper_limit"] = limit
             data["upper_limit_type"] = interval_type
+        validity = xml_element.attrib.get("VALIDITY")
+        if validity is not None:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
-- 
2.43.0


From 40f75024c44f59529db444e6d717a75f5015bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 23/45] fix: reject values that match a pattern only in part

---
 src/autosar/xml/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 06d67fe..acfa90b 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -78,7 +78,7 @@ class ARObject:
         if isinstance(value, int):
             pass
         elif isinstance(value, str):
-            match = pattern.match(value)
+            match = pattern.fullmatch(value)
             if match is None:
                 raise ValueError(f"Invalid parameter '{value}' for '{attr_name}'")
         else:
-- 
2.43.0


From 8de39de7cdc0cdb7cdea7314afc4ccbc2b333571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 24/45] fix: write and read service kind of port interfaces

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 src/autosar/xml/reader.py      |  4 ++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..87758f4 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",                         # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",              # 1
+        "COM-MANAGER",                              # 2
+        "CRYPTO-SERVICE-MANAGER",                   # 3
+        "DEFAULT-ERROR-TRACER",                     # 4
+        "DEVELOPMENT-ERROR-TRACER",                 # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",         # 6
+        "DIAGNOSTIC-EVENT-MANAGER",                 # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",                 # 8
+        "ECU-MANAGER",                              # 9
+        "FUNCTION-INHIBITION-MANAGER",              # 10
+        "J-1939-REQUEST-MANAGER",                   # 11
+        "NON-VOLATILE-RAM-MANAGER",                 # 12
+        "OPERATING-SYSTEM",                         # 13
+        "SECURE-ON-BOARD-COMMUNICATION",            # 14
+        "SYNC-BASE-TIME-MANAGER",                   # 15
+        "VENDOR-SPECIFIC",                          # 16
+        "WATCH-DOG-MANAGER",                        # 17
+        "ERROR-TRACER",                             # 18
+        "HARDWARE-TEST-MANAGER",                    # 19
+        "V-2-X-FACILITIES",                         # 20
+        "V-2-X-MANAGEMENT",                         # 21
+        "J-1939-DCM",                               # 22
+        "CRYPTO-KEY-MANAGEMENT",                    # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT"   # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 12c14b3..e74daa3 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3340,7 +3340,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum("ServiceKind", inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From 9563fb2454cfa8bcbaca1275e7c1be339cd81f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 25/45] fix: accept single application error and error
 references given as strings

---
 src/autosar/xml/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3301414..75de1c9 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3687,6 +3687,8 @@ class ClientServerOperation(Identifiable):
                 self.append_possible_error_ref(ApplicationErrorRef(possible_error_refs))
             elif isinstance(possible_error_refs, list):
                 for possible_error_ref in possible_error_refs:
+                    if isinstance(possible_error_ref, str):
+                        possible_error_ref = ApplicationErrorRef(possible_error_ref)
                     self.append_possible_error_ref(possible_error_ref)
             else:
                 msg = f"possible_error_refs: Invalid type '{str(type(possible_error_refs))}'"
@@ -3814,7 +3816,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From b4f1e0aa2cf7c6abec27b4dbe7924d1e2ae29a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 26/45] fix: find on components ignored the rest of the path
 behind a port or component

---
 src/autosar/xml/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 75de1c9..dba13ea 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4962,7 +4962,7 @@ class SwComponentType(ARElement, Searchable):
         parts = ref.partition('/')
         for elem in self.ports:
             if elem.name == parts[0]:
-                return elem
+                return elem if len(parts[2]) == 0 else None
         return None
 
     def create_p_port(self,
@@ -5432,10 +5432,10 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         parts = ref.partition('/')
         for elem in self.components:
             if elem.name == parts[0]:
-                return elem
+                return elem if len(parts[2]) == 0 else None
         for elem in self.connectors:
             if elem.name == parts[0]:
-                return elem
+                return elem if len(parts[2]) == 0 else None
         return super().find(ref)
 
     def create_component_prototype(self,
-- 
2.43.0


From 2343e57e1442428513214c3d7722be1196cc4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 27/45] fix: mode group given to mode switch interface had no
 parent

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index dba13ea..82c9970 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3902,6 +3902,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if self.mode_group is not None:
+            self.mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
-- 
2.43.0


From a5fb4fae2275e5457160e75e7ecb4d4896ecd2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 28/45] fix: read hexadecimal, binary and octal notation in all
 integer elements

---
 src/autosar/base.py        |  8 ++++++++
 src/autosar/xml/element.py |  6 +++---
 src/autosar/xml/reader.py  | 20 ++++++++++----------
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/autosar/base.py b/src/autosar/base.py
index 5471a6c..297a301 100644
--- a/src/autosar/base.py
+++ b/src/autosar/base.py
@@ -25,6 +25,14 @@ def split_ref_strict(ref: str) -> list[str] | None:
     return ref.split(sep)
 
 
+def str_to_int(text: str) -> int:
+    """Converts AR:INTEGER (decimal, hexadecimal, binary or, with leading zero, octal) to int"""
+    try:
+        return int(text, 0)
+    except ValueError:
+        return int(text, 8)
+
+
 class Searchable(abc.ABC):
     """
     Searchable interface
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 82c9970..d8cff50 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -9,7 +9,7 @@ from typing import Any, Union
 from collections import OrderedDict
 
 
-from autosar.base import split_ref, split_ref_strict, Searchable
+from autosar.base import split_ref, split_ref_strict, str_to_int, Searchable
 from autosar.xml.base import ARObject, BaseRef
 import autosar.xml.enumeration as ar_enum
 import autosar.xml.exception as ar_except
@@ -132,7 +132,7 @@ class NumericalValue:
             return value
         elif isinstance(value, str):
             try:
-                return int(value, 0)
+                return str_to_int(value)
             except ValueError:
                 return float(value)
         else:
@@ -163,7 +163,7 @@ class PositiveIntegerValue:
     def _validate_value(self, value: int | str) -> int:
         if isinstance(value, str):
             try:
-                value = int(value, 0)
+                value = str_to_int(value)
             except ValueError as err:
                 raise TypeError("Unable to convert to integer") from err
         if isinstance(value, int):
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index e74daa3..4d21201 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -455,7 +455,7 @@ class Reader:
         """
         Attempts to convert text to either int or float
         """
-        for convert in (int, lambda string: int(string, 0), float):
+        for convert in (ar_base.str_to_int, float):
             try:
                 return convert(text)
             except ValueError:
@@ -467,7 +467,7 @@ class Reader:
         Reads AR:INTEGER
         """
         try:
-            value = int(text, 0)
+            value = ar_base.str_to_int(text)
         except ValueError as exc:
             raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
         return value
@@ -1224,7 +1224,7 @@ class Reader:
             data["desc"] = self._read_multi_language_overview_paragraph(xml_child)
         xml_child = child_elements.get("MASK")
         if xml_child is not None:
-            data["mask"] = int(xml_child.text)
+            data["mask"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("LOWER-LIMIT")
         if xml_child is not None:
             limit, interval_type = self._read_limit(xml_child)
@@ -1348,7 +1348,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("CONSTR-LEVEL")
         if xml_child is not None:
-            data["level"] = int(xml_child.text)
+            data["level"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("PHYS-CONSTRS")
         if xml_child is not None:
             data["physical"] = self._read_physical_constraint(xml_child)
@@ -1664,10 +1664,10 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         bit_position = child_elements.get('BIT-POSITION')
         if bit_position is not None:
-            data['position'] = int(bit_position.text)
+            data['position'] = self._read_integer(bit_position.text)
         number_of_bits = child_elements.get('NUMBER-OF-BITS')
         if number_of_bits is not None:
-            data['num_bits'] = int(number_of_bits.text)
+            data['num_bits'] = self._read_integer(number_of_bits.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.SwBitRepresentation(**data)
 
@@ -1733,7 +1733,7 @@ class Reader:
         xml_child = child_elements.get('SW-ALIGNMENT')
         if xml_child is not None:
             try:
-                sw_alignment = int(xml_child.text, 0)
+                sw_alignment = ar_base.str_to_int(xml_child.text)
             except ValueError:
                 sw_alignment = xml_child.text
             data['alignment'] = sw_alignment
@@ -1880,7 +1880,7 @@ class Reader:
             data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
-            data["array_size"] = int(xml_child.text)
+            data["array_size"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE-HANDLING")
         if xml_child is not None:
             data["array_size_handling"] = ar_enum.xml_to_enum("ArraySizeHandling", xml_child.text)
@@ -2031,7 +2031,7 @@ class Reader:
             data["index_data_type_ref"] = self._read_index_data_type_ref(xml_child)
         xml_child = child_elements.get("MAX-NUMBER-OF-ELEMENTS")
         if xml_child is not None:
-            data["max_number_of_elements"] = int(xml_child.text)
+            data["max_number_of_elements"] = self._read_integer(xml_child.text)
 
     def _read_application_record_element(self, xml_element: ElementTree.Element) -> ar_element.ApplicationRecordElement:
         """
@@ -3151,7 +3151,7 @@ class Reader:
         xml_child = child_elements.get("SW-AXIS-INDEX")
         if xml_child is not None:
             try:
-                value = int(xml_child.text)
+                value = ar_base.str_to_int(xml_child.text)
             except ValueError:
                 value = xml_child.text
             data["sw_axis_index"] = value
-- 
2.43.0


From 414cc82e96fedc43f200e037e05319dac1ac69b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 29/45] fix: report elements which cannot be part of a package
 instead of aborting with AssertionError

---
 src/autosar/xml/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 4d21201..bde067b 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -653,7 +653,8 @@ class Reader:
             if read_method is not None:
                 try:
                     element = read_method(xml_child_elem)
-                    assert isinstance(element, ar_element.ARElement)
+                    if not isinstance(element, ar_element.ARElement):
+                        raise ar_exception.ParseError(f"<{xml_child_elem.tag}> is not a package element")
                     package.append(element)
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
-- 
2.43.0


From 7145d85e2a2a95886de1869ef45c2515b2e3710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 30/45] fix: schema version of previously read document was
 used for documents without schema location

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index bde067b..4bfb00c 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -124,6 +124,7 @@ class Reader:
         self.use_full_path_on_warning = use_full_path_on_warning
         self.observed_unsupported_elements = None
         self.schema_file: str = ''
+        self.default_schema_version = schema_version
         self.schema_version = schema_version
         self.document: ar_document.Document = None
         self.stop_on_error = False
@@ -586,6 +587,8 @@ class Reader:
 #                self._read_file_info_comment(xml_node, self.document)
 
     def _read_schema_version(self) -> None:
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
         for key in self.xml_root.attrib.keys():
             if key.endswith('schemaLocation'):
                 match = re.search(r'AUTOSAR_(\d+).xsd',
-- 
2.43.0


From 5707adeed72d8ab38a5c34629e8c7649f4e5b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 31/45] fix: package given to a document together with its
 sub-package was written twice and changed

---
 src/autosar/xml/workspace.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index c5119f9..8f76266 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -230,17 +230,25 @@ class Workspace(ar_element.PackageCollection):
         document = ar_document.Document(schema_version=schema_version)
         document_config.document = document
         file_path = document_config.file_path
-        package_refs = document_config.package_refs
-        for package_ref in package_refs:
+        packages: list[ar_element.Package] = []
+        for package_ref in document_config.package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-                target = document
-                if isinstance(package.parent, ar_element.Package):
-                    target = document.make_packages(str(package.parent.ref()))
-                # The package still belongs to this workspace, its parent must not change
-                target.packages.append(package)
+                if package not in packages:
+                    packages.append(package)
+        for package in packages:
+            parent = package.parent
+            while isinstance(parent, ar_element.Package) and parent not in packages:
+                parent = parent.parent
+            if isinstance(parent, ar_element.Package):
+                continue  # Already written as part of another package in this document
+            target = document
+            if isinstance(package.parent, ar_element.Package):
+                target = document.make_packages(str(package.parent.ref()))
+            # The package still belongs to this workspace, its parent must not change
+            target.packages.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
-- 
2.43.0


From 3a030735656c6b06c9d28bcd3fef138976bc0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 32/45] fix: UUID of most identifiable elements was not written

---
 src/autosar/xml/writer.py | 220 ++++++++++++++++++++++++++++----------
 1 file changed, 165 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 60a4f62..47e167b 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1605,7 +1605,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1642,7 +1644,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1693,7 +1697,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1718,7 +1724,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1748,7 +1756,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1772,7 +1782,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1797,7 +1809,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2801,7 +2815,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-DECLARATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2831,7 +2847,9 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-TRANSITION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2929,7 +2947,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("NV-DATA-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2954,7 +2974,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2979,7 +3001,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SENDER-RECEIVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3033,7 +3057,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ERROR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3053,7 +3079,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-OPERATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3085,7 +3113,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3114,7 +3144,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3186,7 +3218,9 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3608,7 +3642,9 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("P-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3633,7 +3669,9 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("R-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3660,7 +3698,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PR-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3724,7 +3764,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3738,7 +3780,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SW-COMPONENT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3781,7 +3825,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASSEMBLY-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3797,7 +3843,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DELEGATION-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3819,7 +3867,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3835,7 +3885,9 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3869,7 +3921,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-IMPLEMENTATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4126,7 +4180,9 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child(tag, attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4203,7 +4259,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4217,7 +4275,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4234,7 +4294,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4255,7 +4317,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4285,7 +4349,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGERING-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4300,7 +4366,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4338,7 +4406,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4393,7 +4463,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-ACCESS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4416,7 +4488,9 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("WAIT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4490,7 +4564,9 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("RUNNABLE-ENTITY", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4608,7 +4684,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4623,7 +4701,9 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("BACKGROUND-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4636,7 +4716,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4651,7 +4733,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4666,7 +4750,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-SEND-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4681,7 +4767,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4696,7 +4784,9 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4711,7 +4801,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INIT-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4724,7 +4816,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4739,7 +4833,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCHED-ACK-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4754,7 +4850,9 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("OPERATION-INVOKED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4769,7 +4867,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4784,7 +4884,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-SWITCH-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4813,7 +4915,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TIMING-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4830,7 +4934,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4928,7 +5034,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXCLUSIVE-AREA", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4939,7 +5047,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-INTERNAL-BEHAVIOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From 271c218d880f52df7c8b4b90d41e83d1bc043966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 33/45] fix: arguments of wrong type were dropped silently
 where an element or a list is expected

---
 src/autosar/xml/element.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d8cff50..ca8d6ee 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2313,6 +2313,8 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
                 self.append(elements)
             elif isinstance(elements, list):
                 self.extend(elements)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ApplicationRecordElement) -> None:
         """
@@ -2470,6 +2472,8 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            else:
+                raise TypeError(f"values: Invalid type '{str(type(values))}'")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2732,6 +2736,8 @@ class ArrayValueSpecification(ValueSpecification):
             elif isinstance(elements, list):
                 for element in elements:
                     self.append(element)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ValueSpecificationElement):
         """
@@ -2760,6 +2766,8 @@ class RecordValueSpecification(ValueSpecification):
             elif isinstance(fields, list):
                 for field in fields:
                     self.append(field)
+            else:
+                raise TypeError(f"fields: Invalid type '{str(type(fields))}'")
 
     def append(self, field: ValueSpecificationElement):
         """
@@ -5802,6 +5810,8 @@ class ArVariableInImplementationDataInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError(f"context_data_prototype_refs: Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: AbstractImplementationDataTypeElementRef):
         """
@@ -5848,6 +5858,8 @@ class VariableInAtomicSWCTypeInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError(f"context_data_prototype_refs: Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: ApplicationCompositeElementDataPrototypeRef):
         """
@@ -6075,6 +6087,8 @@ class ExecutableEntity(Identifiable):
             elif isinstance(exclusive_area_nesting_order, list):
                 for elem in exclusive_area_nesting_order:
                     self.append_exclusive_area_nesting_order(elem)
+            else:
+                raise TypeError(f"exclusive_area_nesting_order: Invalid type '{str(type(exclusive_area_nesting_order))}'")
         self._assign_optional("minimum_start_interval", minimum_start_interval, float)
         self._assign_optional("reentrancy_level", reentrancy_level, ar_enum.ReentrancyLevel)
         if runs_insides is not None:
@@ -7188,6 +7202,8 @@ class RteEvent(Identifiable):
             elif isinstance(disabled_modes, list):
                 for disabled_mode in disabled_modes:
                     self.append_disabled_mode(disabled_mode)
+            else:
+                raise TypeError(f"disabled_modes: Invalid type '{str(type(disabled_modes))}'")
         self._assign_optional("start_on_event", start_on_event, RunnableEntityRef)
 
     def append_disabled_mode(self, disabled_mode: RModeInAtomicSwcInstanceRef) -> None:
-- 
2.43.0


From 6c5915f24ba350539d8db3c24170868e7d18c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 34/45] fix: unknown elements among the components of a
 composition were read as components

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 4bfb00c..ec1663d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4437,7 +4437,7 @@ class Reader:
         xml_child = child_elements.get("COMPONENTS")
         if xml_child is not None:
             component_list = []
-            for xml_grand_child in xml_child.findall("./*"):
+            for xml_grand_child in xml_child.findall("./SW-COMPONENT-PROTOTYPE"):
                 component_list.append(self._read_sw_component_prototype(xml_grand_child))
             data["components"] = component_list
         xml_child = child_elements.get("CONNECTORS")
-- 
2.43.0


From 34cc4846e7f2529ff0b6d40f1ff4feb33ff99c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 35/45] fix: empty INNER-PORT-IREF aborted reading of the whole
 document with AttributeError

---
 src/autosar/xml/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index ec1663d..edf0320 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4383,8 +4383,8 @@ class Reader:
         xml_child = child_elements.get("INNER-PORT-IREF")
         if xml_child is not None:
             xml_grand_child = xml_child.find("./*")
-            if xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
-                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
+            if xml_grand_child is not None and xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
+                                                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
                 data["inner_port"] = self._read_port_in_composition_type_instance_ref(xml_grand_child)
         xml_child = child_elements.get("OUTER-PORT-REF")
         if xml_child is not None:
-- 
2.43.0


From b0c072e2e1ec51e3ae0ca3464be3222e3c5be987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 36/45] fix: comments within text cut the text off

---
 src/autosar/xml/reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index edf0320..ac649c1 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -353,7 +353,7 @@ class Reader:
         Reads ARXML document file
         """
         self.document = None
-        self.xml_root = ElementTree.ElementTree().parse(file_path)
+        self.xml_root = ElementTree.ElementTree().parse(file_path, self._create_parser())
         self.file_path = file_path
         self.file_base_name = os.path.basename(file_path)
         self.observed_unsupported_elements = set()
@@ -369,7 +369,7 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -384,7 +384,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
-        elem = ElementTree.fromstring(xml)
+        elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
         else:
@@ -396,6 +396,13 @@ class Reader:
 
     # --- Utility methods
 
+    def _create_parser(self) -> ElementTree.XMLParser:
+        """
+        Comments and processing instructions are not part of the
+        content and must not cut the text that surrounds them.
+        """
+        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
-- 
2.43.0


From 4af96d4827654809bba15f0802e6605543acb8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 37/45] fix: unknown elements among the values of a curve or
 map were reported although reports were turned off

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index ac649c1..a375178 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3120,7 +3120,7 @@ class Reader:
             elif xml_child.tag in ("VTF", "VG"):
                 continue  # Not supported, skip
             else:
-                print(f"Unprocessed child element in VALUE-GROUP: <{xml_child.tag}>", file=sys.stderr)
+                self._report_unprocessed_element(xml_child)
 
     def _read_value_group(self, xml_element: ElementTree.Element) -> ar_element.ValueGroup:
         """
-- 
2.43.0


From 5cea811b71f38e34e6d6e75fc9658233981a3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 38/45] fix: a missing limit does not restrict the value

---
 src/autosar/xml/element.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ca8d6ee..14dba6f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1329,12 +1329,16 @@ class LimitObject(ARObject):
         """
         Checks if given value is inside the constraint limits
         """
-        if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
+        if self.lower_limit is None:
+            pass  # A missing limit doesn't restrict the value
+        elif self.lower_limit_type == ar_enum.IntervalType.CLOSED:
             if value < self.lower_limit:
                 return False
         elif value <= self.lower_limit:
             return False
-        if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
+        if self.upper_limit is None:
+            pass
+        elif self.upper_limit_type == ar_enum.IntervalType.CLOSED:
             if value > self.upper_limit:
                 return False
         elif value >= self.upper_limit:
-- 
2.43.0


From bb181ea00555257a5d8a68bb3783f3bbdb884a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 39/45] fix: wrong data elements of sender-receiver interfaces
 raise TypeError

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 14dba6f..ba1f226 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3439,7 +3439,7 @@ class SenderReceiverInterface(DataInterface):
                 for data_element in data_elements:
                     self.append_data_element(data_element)
             else:
-                msg = f"data_elements: Invalid type '{str(type(data_element))}'"
+                msg = f"data_elements: Invalid type '{str(type(data_elements))}'"
                 raise TypeError(msg + ". Expected 'VariableDataPrototype' or list[VariableDataPrototype]")
         if invalidation_policies is not None:
             if isinstance(invalidation_policies, InvalidationPolicy):
-- 
2.43.0


From e2c90996ba0496af15034500a6d047acbdf7321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 40/45] fix: code descriptors had no parent

---
 src/autosar/xml/element.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ba1f226..3536e87 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -484,6 +484,7 @@ class Implementation(ARElement):
         Appends code descriptor to internal list of descriptors
         """
         if isinstance(code_descriptors, Code):
+            code_descriptors.parent = self
             self.code_descriptors.append(code_descriptors)
         else:
             raise TypeError("code_descriptors must be of type Code")
-- 
2.43.0


From f6c96b41f4b98e1cbbfe1c580738b8e443cb610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 41/45] fix: unknown elements in constraints, data properties,
 type maps and a few others were dropped silently

---
 src/autosar/xml/reader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a375178..fec10ca 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1366,6 +1366,7 @@ class Reader:
         xml_child = child_elements.get("INTERNAL-CONSTRS")
         if xml_child is not None:
             data["internal"] = self._read_internal_constraint(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataConstraintRule(**data)
 
     def _read_internal_constraint(self, xml_element: ElementTree.Element) -> ar_element.InternalConstraint:
@@ -1377,6 +1378,7 @@ class Reader:
         data = {}
         child_elements = ChildElementMap(xml_element)
         self._read_constraint_base(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InternalConstraint(**data)
 
     def _read_physical_constraint(self, xml_element: ElementTree.Element) -> ar_element.PhysicalConstraint:
@@ -1391,6 +1393,7 @@ class Reader:
         xml_child = child_elements.get("UNIT-REF")
         if xml_child is not None:
             data["unit_ref"] = self._read_unit_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PhysicalConstraint(**data)
 
     def _read_constraint_base(self, child_elements: ChildElementMap, data: dict[str, Any]) -> None:
@@ -1461,6 +1464,7 @@ class Reader:
         validity = xml_element.attrib.get("VALIDITY")
         if validity is not None:
             data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
@@ -1693,6 +1697,7 @@ class Reader:
         xml_child = child_elements.get("SW-DATA-DEF-PROPS-VARIANTS")
         if xml_child is not None:
             data['variants'] = self._read_sw_data_def_props_variants(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.SwDataDefProps(**data)
 
     def _read_sw_data_def_props_variants(self,
@@ -2142,6 +2147,7 @@ class Reader:
         xml_child = child_elements.get("IMPLEMENTATION-DATA-TYPE-REF")
         if xml_child is not None:
             data["impl_data_type_ref"] = self._read_impl_data_type_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataTypeMap(**data)
 
     def _read_data_type_mapping_set(self, xml_element: ElementTree.Element) -> ar_element.DataTypeMappingSet:
@@ -3235,6 +3241,7 @@ class Reader:
         xml_child = child_elements.get('ERROR-REACTION-POLICY')
         if xml_child is not None:
             data["error_reaction_policy"] = ar_enum.xml_to_enum("ModeErrorReactionPolicy", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeErrorBehavior(**data)
 
     def _read_mode_transition(self, xml_element: ElementTree.Element) -> ar_element.ModeTransition:
@@ -3464,6 +3471,7 @@ class Reader:
         xml_child = child_elements.get("HANDLE-INVALID")
         if xml_child is not None:
             data["handle_invalid"] = ar_enum.xml_to_enum("HandleInvalid", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InvalidationPolicy(**data)
 
     def _read_application_error(self, xml_element: ElementTree.Element) -> ar_element.ApplicationError:
@@ -4508,6 +4516,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_p_operation_in_atomic_swc_instance_ref(self,
@@ -4585,6 +4594,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.RModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_r_operation_in_atomic_swc_instance_ref(self,
@@ -4895,6 +4905,7 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExternalTriggeringPointIdent(**data)
 
     def _read_external_triggering_point(self, xml_element: ElementTree.Element) -> ar_element.ExternalTriggeringPoint:
@@ -4946,6 +4957,7 @@ class Reader:
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
         self._read_async_server_call_result_point_group(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPointIdent(**data)
 
     def _read_mode_access_point(self, xml_element: ElementTree.Element) -> ar_element.ModeAccessPoint:
@@ -5693,6 +5705,7 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExclusiveArea(**data)
 
     def _read_swc_internal_behavior(self, xml_element: ElementTree.Element) -> ar_element.SwcInternalBehavior:
-- 
2.43.0


From 836d9fa9658019b4890c722c4e87b37a6faa3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 42/45] fix: mode group of an access point was lost behind an
 unknown element

---
 src/autosar/xml/reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index fec10ca..0c8dfef 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4971,12 +4971,15 @@ class Reader:
         if xml_child is not None:
             data["ident"] = self._read_mode_access_point_ident(xml_child)
         xml_child = child_elements.get("MODE-GROUP-IREF")
-        if xml_child is not None and len(xml_child) > 0:
-            xml_grand_child = xml_child[0]
-            if xml_grand_child.tag == "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
+        if xml_child is not None:
+            grand_child_elements = ChildElementMap(xml_child)
+            xml_grand_child = grand_child_elements.get("P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF")
+            if xml_grand_child is not None:
                 data["mode_group"] = self._read_p_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
-            elif xml_grand_child.tag == "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
+            xml_grand_child = grand_child_elements.get("R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF")
+            if xml_grand_child is not None:
                 data["mode_group"] = self._read_r_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+            self._report_unprocessed_elements(grand_child_elements)
         child_elements.skip("VARIATION-POINT")
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPoint(**data)
-- 
2.43.0


From 03f90fde28166290d1ad14651d32e6ce58b8049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:32 +0000
Subject: [PATCH 43/45] fix: keep exclusive area references given next to names
 in create_runnable

A list for can_enter_leave with both names and ExclusiveAreaRef objects lost the latter.
---
 src/autosar/xml/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3536e87..74d1649 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8081,12 +8081,15 @@ class SwcInternalBehavior(InternalBehavior):
             symbol = name
         if can_enter_leave is not None:
             names: dict[str, bool] = {}
+            others = []  # Everything which isn't a name
             if isinstance(can_enter_leave, str):
                 names[can_enter_leave] = False
             elif isinstance(can_enter_leave, Iterable):
                 for elem in can_enter_leave:
                     if isinstance(elem, str):
                         names[elem] = False
+                    else:
+                        others.append(elem)
             if names:
                 exclusive_area_refs: ExclusiveAreaRef = []
                 for area in self.exclusive_areas:
@@ -8097,7 +8100,7 @@ class SwcInternalBehavior(InternalBehavior):
                     if not value:
                         raise ValueError(f"can_enter_leave: '{key}' does not name an exclusive area in "
                                          "this SwcInternalBehavior object")
-                can_enter_leave = exclusive_area_refs
+                can_enter_leave = exclusive_area_refs + others
 
         data = {"can_be_invoked_concurrently": can_be_invoked_concurrently,
                 "minimum_start_interval": minimum_start_interval,
-- 
2.43.0


From e2aac4352ad7c091dee6f7e69e7352feec4d9250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:59 +0000
Subject: [PATCH 44/45] fix: rational coefficients without a numerator could be
 written but not read

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 74d1649..3e3ea8e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1114,7 +1114,7 @@ class CompuRational(ARObject):
     """
 
     def __init__(self,
-                 numerator: tuple[int | float] | list[int | float] | None,
+                 numerator: tuple[int | float] | list[int | float] | None = None,
                  denominator: tuple[int | float] | list[int | float] | None = None) -> None:
         if numerator is not None:
             if not isinstance(numerator, (tuple, list)):
-- 
2.43.0


From 61ed6f1e70cef606086e130dda07af51221b5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 45/45] fix: a file was left open after a failed write and
 could damage the next one

An exception while writing a document or element to a file left the file open.
Writing another one to the same path then ended with what was still buffered.
---
 src/autosar/xml/writer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 47e167b..000e63f 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -428,8 +428,10 @@ class Writer(_XMLWriter):
         Serialized the document to file
         """
         self._open(file_path)
-        self._write_document(document)
-        self._close()
+        try:
+            self._write_document(document)
+        finally:
+            self._close()
 
     def write_str_elem(self, elem: ar_element.ARObject, tag: str | None = None):
         """
@@ -453,13 +455,15 @@ class Writer(_XMLWriter):
         Writes single ARXML element to file
         """
         self._open(file_path)
-        class_name = elem.__class__.__name__
-        write_method = self.switcher_collectable.get(class_name, None)
-        if write_method is not None:
-            write_method(elem)
-        else:
-            raise NotImplementedError(f"Found no writer for {class_name}")
-        self._close()
+        try:
+            class_name = elem.__class__.__name__
+            write_method = self.switcher_collectable.get(class_name, None)
+            if write_method is not None:
+                write_method(elem)
+            else:
+                raise NotImplementedError(f"Found no writer for {class_name}")
+        finally:
+            self._close()
 
     # Abstract base classes
 
-- 
2.43.0


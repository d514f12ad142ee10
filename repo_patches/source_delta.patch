From 45468ddd64ea40a5bf79386b8c6e32dd544d05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 01/14] fix: docx conversion passed pre and post options in the
 wrong order

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..e237329 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -100,8 +100,8 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From b111f0d49bb65235f763fb052eebd93f53f11a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 02/14] fix: docx conversion failed on an empty text element

---
 aksharamukha/transliterate_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index e237329..8b5b856 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -95,7 +95,7 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
-- 
2.43.0


From bb11d9a2391fbe4e226eeb4a74373945ed9c3459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 03/14] fix: html conversion turned doctype and comments into
 text and converted scripts and styles

---
 aksharamukha/transliterate_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 8b5b856..1c8d52c 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -4,6 +4,7 @@ import os
 from lxml import etree
 from zipfile import ZipFile
 from bs4 import BeautifulSoup
+from bs4.element import PreformattedString, Script, Stylesheet
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -43,6 +44,10 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # comments, doctype, scripts and styles are no text of the document
+        if isinstance(node, (PreformattedString, Script, Stylesheet)):
+            continue
+
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0


From 73ef74725df1a78a3384c5fd5440edbf43061288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 04/14] fix: html conversion inserted whitespace between inline
 elements

prettify() re-indents the document, which splits words that cross a tag.
---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1c8d52c..b9bbb4f 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -52,13 +52,13 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
         node.replace_with(new_node)
 
     if is_api_mode:
-        return soup.prettify()
+        return str(soup)
     else:
         file_parts = os.path.splitext(file)
         new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
         with open(new_file, 'w', encoding='utf8') as f:
-            f.write(soup.prettify())
+            f.write(str(soup))
 
         print('The following file has been created: ' + new_file)
 
-- 
2.43.0


From c3a93a43d1bf612ffa136940e6243e63b3f5d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 05/14] fix: a failing text file conversion destroyed the
 output of an earlier one

Convert before opening (and truncating) the output file.
---
 aksharamukha/transliterate_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index b9bbb4f..53bfc18 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -29,8 +29,10 @@ def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     file_parts = os.path.splitext(file)
     new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
+    result = convert(src, tgt, txt, nativize, pre_options, post_options)
+
     with open(new_file, 'w', encoding='utf8') as f:
-        f.write(convert(src, tgt, txt, nativize, pre_options, post_options))
+        f.write(result)
 
     print('The following file has been created: ' + new_file)
 
@@ -57,8 +59,10 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
         file_parts = os.path.splitext(file)
         new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
+        result = str(soup)
+
         with open(new_file, 'w', encoding='utf8') as f:
-            f.write(str(soup))
+            f.write(result)
 
         print('The following file has been created: ' + new_file)
 
-- 
2.43.0


From 148f55817495d87ca34ae0b9efafca05fbf8df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 06/14] fix: text file conversion changed the line endings of
 the document

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 53bfc18..6d939fe 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -23,7 +23,7 @@ def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_a
         warnings.warn('Not a file. Please pass a file as an argument')
 
 def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
-    with open(file, 'r', encoding='utf8') as f:
+    with open(file, 'r', encoding='utf8', newline='') as f:
         txt = f.read()
 
     file_parts = os.path.splitext(file)
@@ -31,7 +31,7 @@ def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[],
 
     result = convert(src, tgt, txt, nativize, pre_options, post_options)
 
-    with open(new_file, 'w', encoding='utf8') as f:
+    with open(new_file, 'w', encoding='utf8', newline='') as f:
         f.write(result)
 
     print('The following file has been created: ' + new_file)
-- 
2.43.0


From 14eb78df40929c5b8e102f554c501b48194a3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 07/14] fix: the kind of a document was taken from anywhere in
 its path

An html file below a directory named x.txt was converted as plain text,
markup included.
---
 aksharamukha/transliterate_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 6d939fe..15ff36e 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -11,11 +11,12 @@ MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        extension = os.path.splitext(file)[1]
+        if extension.startswith('.txt'):
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif extension.startswith('.docx'):
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif extension.startswith('.htm'):
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
-- 
2.43.0


From b20c85ea16c7de9a89e7473c3218bda58ace935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 08/14] fix: CrunchList took any failure to load a script for
 an unknown script

An I/O error, MemoryError or KeyboardInterrupt while a script module was
being loaded was swallowed and the conversion went on with empty tables.
Log through the module's own logger: logging.exception() configures the
root logger of the host program.
---
 aksharamukha/GeneralMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..f7c4fd2 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -29,9 +29,9 @@ def CrunchSymbols(Part,Script):
 def CrunchList(List,Script):
     try:
       ModScript = importlib.import_module(ScriptPath(Script))
-    except:
+    except AttributeError: # ScriptPath() knows no such script
       import logging
-      logging.exception('The script ' + Script + ' cannot be found')
+      logging.getLogger(__name__).exception('The script ' + Script + ' cannot be found')
       return ''
 
     return getattr(ModScript,List)
-- 
2.43.0


From a6df1006f7cdb5e2f3f668548e7ccbfeb714fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 09/14] fix: semitic conversion installed a handler on the root
 logger of the host program

logging.debug() calls basicConfig(); use a module logger.
---
 aksharamukha/gimeltra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..a41b14c 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -17,6 +17,8 @@ from collections import Counter
 
 cwd = Path(Path(__file__).parent)
 
+logger = logging.getLogger(__name__)
+
 class Transliterator(object):
     def __init__(self):
         with open(Path(cwd, "json/gimeltra_data.json"), "r", encoding="utf-8") as f:
@@ -52,7 +54,7 @@ class Transliterator(object):
             t = ucd.normalize('NFD', t)
             t = re.sub(r"(?![\u05C4\u0308])\p{M}","", t)
 
-        logging.debug(f"Pre: {list(t)}")
+        logger.debug(f"Pre: {list(t)}")
         return t
 
     def _postprocess(self, text, sc):
@@ -68,7 +70,7 @@ class Transliterator(object):
 
         for rule_i, rule_o in self.db_liga.get(sc, {}).items():
             t = t.replace(rule_i, rule_o)
-        logging.debug(f"Post: {list(t)}")
+        logger.debug(f"Post: {list(t)}")
 
         return t
 
@@ -131,10 +133,10 @@ class Transliterator(object):
     def tr(self, text, sc=None, to_sc='Latn'):
         if not sc:
             sc = self.auto_script(text)
-        logging.debug({
+        logger.debug({
             'script': sc, 'to_script': to_sc,
         })
-        logging.debug(f"Text: {list(text)}")
+        logger.debug(f"Text: {list(text)}")
         if sc != to_sc:
             res = self._tr(text, sc, to_sc)
         else:
-- 
2.43.0


From a442921714c3e761243a68d2e3c260c2f3346a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 10/14] fix: Baraha to Tamil conversion printed the text to
 standard output

---
 aksharamukha/PreProcess.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..9bf1cb5 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1340,7 +1340,6 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
         if Target == 'Tamil':
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
-            print(Strng)
 
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
-- 
2.43.0


From 76b12860db66486850206527e798ae5e511da57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 11/14] fix: auto_detect swallowed every exception, interrupts
 included

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..de457c4 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -103,7 +103,7 @@ def auto_detect(text, plugin = False):
         for uchar in text:
             try:
                 char = unicodedata.name(uchar).lower()
-            except:
+            except ValueError:
                 pass
             if 'shan' in char:
                 countSub['Shan'] += 1
-- 
2.43.0


From 462b933a4a8123d7ac7ed028241a60fb4863bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 12/14] fix: Tamil to IPA sent the text unencoded, waited
 forever and took error pages for the answer

A text with & or # was cut there. The encoding the service declares is
honoured; it is guessed only when there is none.
---
 aksharamukha/transliterate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index de457c4..f03a564 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -522,8 +522,10 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
       transliteration = getattr(PostProcess, options)(transliteration)
 
     if src == "Tamil" and tgt == "IPA":
-        r = requests.get("http://anunaadam.appspot.com/api?text=" + txt + "&method=2")
-        r.encoding = r.apparent_encoding
+        r = requests.get("http://anunaadam.appspot.com/api", params={'text': txt, 'method': 2}, timeout=60)
+        r.raise_for_status()
+        if 'charset' not in r.headers.get('content-type', ''):
+            r.encoding = r.apparent_encoding
         transliteration = r.text
 
     if src == "Oriya" and tgt == "IPA":
-- 
2.43.0


From a923f1a3e73a6d312b0ff272c5339b882e88afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 13/14] fix: docx conversion dropped comments and processing
 instructions around the root element

---
 aksharamukha/transliterate_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 15ff36e..1c48076 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -113,7 +113,7 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
                                        data['pre_options'],
                                        data['post_options'])
 
-        string = etree.tostring(tree.getroot(),
+        string = etree.tostring(tree,
                                 xml_declaration=True,
                                 encoding="UTF-8",
                                 standalone=True)
-- 
2.43.0


From a3ff064d977684bcafe7ee78b872491ae8692fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 14/14] fix: an interrupted import left ConvertFix with a
 halfway defined PostProcess

The two modules imported each other at their tops. If the import was cut short
after ConvertFix was complete, and repeated later, ConvertFix kept the first,
unfinished PostProcess and calls raised AttributeError until the end of the process.
---
 aksharamukha/PostProcess.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..d03afa5 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -5,7 +5,6 @@ from . import ScriptMap
 from aksharamukha.ScriptMap.Roman import Avestan
 from aksharamukha.ScriptMap.MainIndic import Ahom, Tamil,Malayalam,Gurmukhi,Oriya,Saurashtra,Sinhala,Urdu,Devanagari, Chakma, Limbu, Takri, TamilExtended, Kannada
 from aksharamukha.ScriptMap.EastIndic import Tibetan, Thai, PhagsPa, ZanabazarSquare, Burmese, KhamtiShan, Khmer, Balinese, Javanese
-from . import ConvertFix as CF
 import re
 import functools
 
@@ -2101,6 +2100,7 @@ def LaoSajjhaya(Strng):
     return Strng
 
 def LaoSajjhayawithA(Strng):
+    from . import ConvertFix as CF
     Strng = LaoSajjhaya(Strng)
 
     # The below logic is for Thai yamakkan. Use Thai Yamakkan not to break it
@@ -3204,6 +3204,7 @@ def ThaiLaoTranscription(Strng,Script,shortA,shortAconj,reverse=False, anusvaraC
     return Strng
 
 def LaoTranscription(Strng):
+    from . import ConvertFix as CF
     Strng = CF.LaoPaliTranscribe(Strng)
 
     Strng = Strng.replace('ະ໌', '໌')
@@ -3318,6 +3319,7 @@ def FixTallA(Strng, TallACons):
     return Strng
 
 def ThaiSajjhayaOrthography(Strng, Script = "Thai"):
+    from . import ConvertFix as CF
     ## reverse digraphs
     Strng = CF.ThaiReverseVowelSigns(Strng, True)
     Strng = CF.ThaiDigraphConjuncts(Strng, True)
@@ -3370,6 +3372,7 @@ def ThaiSajjhayaOrthography(Strng, Script = "Thai"):
 
 
 def ThaiTranscription(Strng, anusvaraChange = True):
+    from . import ConvertFix as CF
 
     ## reverse digraphs
     Strng = CF.ThaiReverseVowelSigns(Strng, True)
@@ -3589,6 +3592,7 @@ def NewaSpecialTa(Strng):
     return Strng
 
 def TamilDisableSHA(Strng):
+    from . import ConvertFix as CF
     Strng = Strng.replace('ஶ', 'ஷ²')
     Strng = CF.ShiftDiacritics(Strng,'Tamil')
 
@@ -3635,4 +3639,8 @@ def capitalizeSentence(Strng):
 def NewaDisableRepha(Strng):
     Strng = Strng.replace('𑐬𑑂', '𑐬𑑂\u200D')
 
-    return Strng
\ No newline at end of file
+    return Strng
+
+# Last, as ConvertFix imports this module too: were it done halfway, an interrupted import would leave
+# ConvertFix with a halfway defined module for good. The functions above look ConvertFix up when they run.
+from . import ConvertFix as CF
-- 
2.43.0


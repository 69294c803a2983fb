From ea63aac8a6bea7055a747f457fd5a2d2de844de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 01/75] fix: parse() and parsefrags() delivered a spurious
 leading None event

The accumulating handler was primed twice, by @coroutine and by parser().
---
 pylib/uxml/parser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..031d90e 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -343,7 +343,6 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
 def handler(accumulator):
     while True:
         event = yield
-- 
2.43.0


From 436c202dd888e929619fad6b1d92af08cc3824ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 02/75] fix: attribute value split across input fragments was
 misparsed

On running out of input inside an attribute value, backtrack to the start
of the attribute rather than to the opening quote.
---
 pylib/uxml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 031d90e..98ae28f 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -288,6 +288,7 @@ def parser(handler, strict=True):
                             if aval == None:
                                 if not done: need_input = True
                                 #Don't advance to newpos, so effectively backtrack
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
-- 
2.43.0


From 1830ede598e824e3cd48faaa346b3628ec57261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 03/75] fix: malformed character reference silently truncated
 or hung the parse

A misplaced parenthesis made the error report raise IndexError, which was
taken as a need for more input.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 98ae28f..b6640d4 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -124,7 +124,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 3da28c1c0e378bec9e23c8660e35a28b51992372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 04/75] fix: MicroXML parser rejected '.' and U+00C1 to U+00D5
 in names

The NAMECHAR class had a stray range; follow the MicroXML nameChar production.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index b6640d4..5f543f8 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From 5e7f3b2ae6162e1fc119e12c686065d196adbe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 05/75] fix: parser could not read back serialized newlines and
 tabs in attributes

xml_encode() and the writers emit these as decimal character references.
---
 pylib/uxml/parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 5f543f8..a1bcb74 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -67,6 +67,7 @@ ATTRIBVALCHAR_DBL = re.compile('[\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D
 WS = '[\u0009\u000A\u0020]'
 
 HEXCHARENTOK = re.compile('[a-fA-F0-9]')
+DECCHARENTOK = re.compile('[0-9]')
 NAMEDCHARENTOK = re.compile('[a-zA-Z0-9]')
 #In order of length
 CHARNAMES =  (('lt', "<"), ('gt', ">"), ('amp', "&"), ('quot', '"'), ('apos', "'"))
@@ -95,14 +96,20 @@ def handle_cdata(pos, window, charpat, stopchars):
             #Check for charref
             elif window[cursor] == '&':
                 start = cursor = cursor + 1
-                if window[cursor] == '#' and window[cursor + 1] == 'x':
+                if window[cursor] == '#':
                     #Numerical charref
-                    start = cursor = cursor + 2
+                    if window[cursor + 1] == 'x':
+                        start = cursor = cursor + 2
+                        digit, base = HEXCHARENTOK, 16
+                    else:
+                        #Decimal, which our own serializations use for e.g. newlines in attributes
+                        start = cursor = cursor + 1
+                        digit, base = DECCHARENTOK, 10
                     while True:
-                        if HEXCHARENTOK.match(window[cursor]):
+                        if digit.match(window[cursor]):
                             cursor += 1
                         elif window[cursor] == ';':
-                            c = chr(int(window[start:cursor], 16))
+                            c = chr(int(window[start:cursor], base))
                             if not CHARACTER.match(c):
                                 raise RuntimeError('Character reference gives an illegal character: {0}'.format('&' + window[start:cursor] + ';'))
                             cdata += c
-- 
2.43.0


From 16a53192716c2c0a8514ee48178417ba8aa89971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 06/75] fix: white space was not allowed after '=' in an
 attribute, and an unquoted value was skipped

E.g. <a x=y='1'> was read as <a y='1'>.
---
 pylib/uxml/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index a1bcb74..006562b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -281,8 +281,12 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
-                            need_input = True
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            if not done: need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -302,6 +306,8 @@ def parser(handler, strict=True):
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected attribute value, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From 1c3d122aa4c8407162d0681835b2535cf7861845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 07/75] fix: parser never returned on truncated input or junk
 before the document element

Running out of input is now always the end of the current round, and an
error if it was the last fragment of an unfinished document.
---
 pylib/uxml/parser.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 006562b..46b475b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -175,7 +175,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -183,6 +183,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected start of document element, found {0}'.format(window[pos]))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
@@ -193,7 +195,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -210,7 +212,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -222,7 +224,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -261,7 +263,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -273,7 +275,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -286,7 +288,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -297,7 +299,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, so effectively backtrack
                                 pos = backtrackpos
                                 continue
@@ -311,7 +313,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -331,7 +333,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -342,6 +344,8 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            if curr_state not in (state.pre_element, state.complete_doc):
+                raise RuntimeError('Unexpected end of input (open elements: {0})'.format(element_stack))
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From a6be67e93b7580fded0a6263d1a5b9bd4c7da53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 08/75] fix: parser accepted tags without an element name

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 46b475b..c1814a5 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -215,6 +215,8 @@ def parser(handler, strict=True):
                             need_input = True #Do not advance until we have enough input
                             continue
                         else:
+                            if pos == advpos:
+                                raise RuntimeError('Expected element name, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                             gi = window[pos:advpos]
                             pos = advpos
                             curr_state = state.complete_tag
-- 
2.43.0


From 31262813d2259f13a4cdef499f7d1ea7f8a4a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 09/75] fix: xml_remove() of a text node could remove an equal
 sibling text instead

---
 pylib/uxml/tree.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..1ecb6ca 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,11 +146,16 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
+        # Text nodes compare by value, so look for the very node first
+        for index, candidate in enumerate(self.xml_children):
+            if candidate is child:
+                break
         else:
-            raise ValueError(f'Element {self} has no child {child}')
+            if child not in self.xml_children:
+                raise ValueError(f'Element {self} has no child {child}')
+            index = self.xml_children.index(child)
+        removed = self.xml_children.pop(index)
+        removed._xml_parent = None
         return
 
     def __repr__(self):
-- 
2.43.0


From f754cdfccca112df6558d549a0286eb374b0f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 10/75] fix: xml.treebuilder returned the first document again
 when reused

E.g. microx with more than one source.
---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..102dc80 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From 6438fa3ced5c323ec1484441d71551c5b0ffc10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 11/75] fix: xml.treebuilder accepted truncated documents

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 102dc80..0c3192c 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -128,6 +128,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From 14769792e2a32ac74c2f3d93da098268eb32e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 12/75] fix: XML end element event misnamed if the namespace
 contains a space

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 0c3192c..36d5d39 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -33,7 +33,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From 52af8b5470917bbae7ba6e331a6c36562a894dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 13/75] fix: ns_expat_callbacks could not be constructed, nor
 handle elements in no namespace

---
 pylib/uxml/xml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 36d5d39..40de1af 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -49,8 +49,8 @@ class expat_callbacks(object):
 
 
 class ns_expat_callbacks(expat_callbacks):
-    def __init__(self, handler, asyncio_based_handler=True, stream=False):
-        expat_callbacks.__init__(self, handler, asyncio_based_handler=asyncio_based_handler)
+    def __init__(self, handler, prime_handler=True, stream=False):
+        expat_callbacks.__init__(self, handler, prime_handler=prime_handler)
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
@@ -75,7 +75,7 @@ class ns_expat_callbacks(expat_callbacks):
         #print('Start element:', name, attrs)
         ns, local = name.split() if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev[ns])
+            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
         for aname, aval in attrs.items():
             ans, alocal = aname.split() if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
-- 
2.43.0


From 4883c3d759fd4c8556fab624885178062ce396bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 14/75] fix: sender with more than one pattern mixed up the
 patterns

The event stack was shared, the states of one pattern carried over to the
next, and the attributes of the same element were shared between sinks.
---
 pylib/uxml/treeiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..4af647a 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [[] for _ in range(self._pattern_count)]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
@@ -135,7 +135,7 @@ class sender:
                     elif self._match_state(ix):
                         building_depth = self._building_depths[ix] = 1
                     if building_depth:
-                        new_element = element(ev[1], ev[2], parent)
+                        new_element = element(ev[1], ev[2].copy(), parent)
                         #if parent: parent().xml_children.append(weakref.ref(new_element))
                         #Note: not using weakrefs here because these refs are not circular
                         if parent: parent.xml_children.append(new_element)
-- 
2.43.0


From ae9363186198d1cc7934ecc4d4fbdbd7beb7c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 15/75] fix: '**' in a sender pattern missed matches below a
 partial match

E.g. ('**', 'b', 'c') on <a><b><b><c></c></b></b></a>.
---
 pylib/uxml/treeiter.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 4af647a..ae02001 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -80,7 +80,9 @@ class sender:
             if ev[0] == event.start_element:
                 next_next = next(ev)
                 if next_next is not None:
-                    return next_next
+                    #The rest of the pattern might yet match deeper instead
+                    if not isinstance(next_next, tuple): next_next = (next_next,)
+                    return (_any_until_func,) + next_next
             return _any_until_func
         return _any_until_func
 
@@ -111,13 +113,19 @@ class sender:
         return
 
     def _match_state(self, ix):
-        new_state = self._stateses[ix]
-        for depth, ev in enumerate(self._evstacks[ix]):
-            new_state = new_state(ev)
-            if new_state == MATCHED_STATE:
+        #There can be alternative states, because of '**'
+        states = {self._stateses[ix]}
+        for ev in self._evstacks[ix]:
+            new_states = set()
+            for state in states:
+                new_state = state(ev)
+                if new_state is not None:
+                    new_states.update(new_state if isinstance(new_state, tuple) else (new_state,))
+            if MATCHED_STATE in new_states:
                 return True
-            elif new_state is None:
+            elif not new_states:
                 return False
+            states = new_states
         return False
 
     def _handler(self):
-- 
2.43.0


From 5c5108f912a61fb61211a2a6078da8629c320f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 16/75] fix: following_siblings() of a text node started from
 the first equal text

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..40267d4 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 1f1e8a992dd0d9aaf829c9649144f5bed1429936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 17/75] fix: select_pattern() failed on a step with alternative
 names

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 40267d4..52047ce 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -131,7 +131,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(next_state, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From 3e4ded08b88fef6e61a2b0fd06e07d3bc78b225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 18/75] fix: make_pretty() ignored the requested indent below
 the first level

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 52047ce..11f0044 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -217,7 +217,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
-- 
2.43.0


From d69dd3382be9440c90aa3dd137eca7377c80284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:50 +0000
Subject: [PATCH 19/75] fix: select_pattern() with '**' missed matches below a
 match or partial match

E.g. ('**', 'a') is documented to select any a descendant.
---
 pylib/uxml/treeutil.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 11f0044..e2df099 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -108,7 +108,9 @@ def any_until(next):
         if isinstance(node, element):
             next_next = next(node)
             if next_next is not None:
-                return next_next
+                #The rest of the pattern might yet match deeper as well
+                if not isinstance(next_next, tuple): next_next = (next_next,)
+                return (_any_until,) + next_next
         return _any_until #Return this same state until we can match the next
     return _any_until
 
@@ -163,15 +165,22 @@ def select_pattern(node, pattern, state=None):
     ['1', '2', '3', '4']
     '''
     if state is None:
-        state = _prep_pattern(pattern)
+        state = (_prep_pattern(pattern),)
     #for child in select_elements(elem):
     if isinstance(node, element):
         for child in node.xml_children:
-            new_state = state(child)
-            if new_state == MATCHED_STATE:
+            #There can be alternative states, because of '**'
+            new_states = []
+            for alternative in state:
+                new_state = alternative(child)
+                if new_state is not None:
+                    for s in (new_state if isinstance(new_state, tuple) else (new_state,)):
+                        if s not in new_states: new_states.append(s)
+            if MATCHED_STATE in new_states:
+                new_states.remove(MATCHED_STATE)
                 yield child
-            elif new_state is not None:
-                yield from select_pattern(child, None, state=new_state)
+            if new_states:
+                yield from select_pattern(child, None, state=tuple(new_states))
     return
 
 def make_pretty(elem, depth=0, indent='  '):
-- 
2.43.0


From c670ee063b1f72657a90abff623368a524c6eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:50 +0000
Subject: [PATCH 20/75] fix: node detached by HTML tree construction kept its
 old parent

---
 pylib/uxml/html5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..dade9f9 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -57,7 +57,7 @@ class node(Node):
         self.xml_append(node)
 
     def removeChild(self, node):
-        self.xml_children.remove(node)
+        self.xml_remove(node)
 
     def insertText(self, data, insertBefore=None):
         """Insert data as text in the current node, positioned before the
-- 
2.43.0


From 8dc8cd580a555481d037e5f2911ac2a18e357b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:19 +0000
Subject: [PATCH 21/75] fix: HTML elements cloned during tree construction lost
 their namespace

html5lib then handled what followed as foreign content.
---
 pylib/uxml/html5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index dade9f9..94b1b54 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -155,7 +155,12 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        # html5lib relies on its own idea of the name & namespace
+        for special in ('xml_html5lib_name', 'xml_html5lib_namespace'):
+            if hasattr(self, special):
+                setattr(clone, special, getattr(self, special))
+        return clone
 
 
 # class comment(tree.comment):
-- 
2.43.0


From 0e72a4636740143bb5cc70113572ddcd33432145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:19 +0000
Subject: [PATCH 22/75] fix: HTML tree builder misreported names & namespaces
 to html5lib

This affected the nesting around SVG & MathML elements and around names
with colons.
---
 pylib/uxml/html5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 94b1b54..94b2f59 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -268,13 +268,12 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
+            xml_html5lib_name, xml_html5lib_namespace = MARKER, namespace
             if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
                 #html5lib feints support for HTML5 elements kept in the null namespace
                 #But in reality this support is broken.  We have to in effect keep
                 #Two namespaces for each element, the real one from an amara perspective
                 #And another that is always XHTML for HTML5 elements, so html5lib doesn't break
-                xml_html5lib_namespace = namespace
                 namespace = None
             #For some reason html5lib sometimes sends None as name
             if not name:
@@ -283,7 +282,7 @@ class treebuilder(TreeBuilder):
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
             if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
+                xml_html5lib_name = name
                 namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
             if xml_html5lib_namespace != MARKER:
-- 
2.43.0


From d3b541352c4c95b867fb62c885414dd69ec09d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 23/75] fix: html5.markup_fragment() always failed with
 AttributeError

---
 pylib/uxml/html5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 94b2f59..699aa21 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -367,6 +367,8 @@ def markup_fragment(source, encoding=None):
     See also: http://wiki.xml3k.org/Amara2/Tagsoup [TODO: Page defunct - restore it]
     '''
     doc = parse(source, encoding=encoding)
-    frag = doc.html.body
+    frag = next(select_name(doc, 'body'))
+    # Detach the bit we want from the wrapper
+    doc.xml_remove(frag)
     return frag
 
-- 
2.43.0


From 0c0d8b812470775b829c6c19b2a75fb7260db0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 24/75] fix: XPath attribute nodes had no name

node.__init__() resets xml_name, so call it first.
---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..9b8b710 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -64,9 +64,9 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From d455b5613e0219c617433fcb50b47723c387bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 25/75] fix: XPath root node cache was stale after tree changes
 and never freed

The root also could not be found from a text or attribute node.
---
 pylib/uxml/uxpath/xast.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9b8b710..bdf8246 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -36,8 +36,6 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
-
     def __init__(self, docelem):
         self.xml_name = ''
         self.xml_value = ''
@@ -50,16 +48,15 @@ class root_node(node):
     @staticmethod
     #@functools.lru_cache()
     def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
         if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        assert isinstance(elem, node), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        # Always work it out, because trees change
         curr_elem = elem
         parent = curr_elem.xml_parent
-        while parent:
+        while parent is not None:
             curr_elem = parent
             parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+        return root_node(curr_elem)
 
 
 class attribute_node(node):
-- 
2.43.0


From a6c04d29ca5648bfe24209f77469e3a7e8312211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 26/75] fix: XPath parent & ancestor axes ignored the node test
 for the root, and '*' matched non-elements

ancestor-or-self also never terminated, and the root was its own parent.
---
 pylib/uxml/uxpath/xast.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index bdf8246..77a5575 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -430,14 +430,19 @@ class step:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
                 parent = parent.xml_parent
-            yield root_node.get(ctx.item)
+            if not isinstance(ctx.item, root_node):
+                new_ctx = ctx.copy(item=root_node.get(ctx.item))
+                yield from self.node_test.compute(new_ctx)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
             parent = ctx.item.xml_parent
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = parent.xml_parent
+            if not isinstance(ctx.item, root_node):
+                new_ctx = ctx.copy(item=root_node.get(ctx.item))
+                yield from self.node_test.compute(new_ctx)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
@@ -472,8 +477,9 @@ class step:
             if ctx.item.xml_parent:
                 new_ctx = ctx.copy(item=ctx.item.xml_parent)
                 yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
+            elif not isinstance(ctx.item, root_node):
+                new_ctx = ctx.copy(item=root_node.get(ctx.item))
+                yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
             start = ctx.item.xml_parent.xml_children.index(ctx.item)
@@ -579,7 +585,9 @@ class name_test:
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
         if self.name == '*':
-            yield ctx.item
+            # Like any name test, only applies to elements
+            if isinstance(ctx.item, element):
+                yield ctx.item
         else:
             # yield from (n for n in nodeseq if n.xml_name == self.name)
             if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
@@ -640,7 +648,7 @@ class abbreviated_step:
             # assert isinstance(ctx.item, node)
             if ctx.item.xml_parent:
                 yield ctx.item.xml_parent
-            else:
+            elif not isinstance(ctx.item, root_node):
                 yield root_node.get(ctx.item)
 
     def __call__(self, ctx):
-- 
2.43.0


From 10afe707305b2bed81953065b8d70187013be40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 27/75] fix: XPath following & preceding axes were incomplete,
 and sibling axes confused equal text nodes

preceding never selected anything and following only covered the subtrees
of following siblings.
---
 pylib/uxml/uxpath/xast.py | 58 ++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 77a5575..382447f 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -386,6 +386,26 @@ def _step_is_just_node(r):
         and r.node_test.name == 'node'
 
 
+def _siblings(item):
+    '''
+    Siblings before & after the item. By identity, because text nodes compare by value
+    '''
+    siblings = list(item.xml_parent.xml_children)
+    for index, sibling in enumerate(siblings):
+        if sibling is item:
+            return siblings[:index], siblings[index+1:]
+    return [], []
+
+
+def _subtree(top):
+    '''
+    The given node and its descendants, in document order
+    '''
+    yield top
+    for child in top.xml_children:
+        yield from _subtree(child)
+
+
 class step:
     '''
     Single step in a relative path. a; @b; text(); parent::foo:bar[5]
@@ -460,17 +480,16 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
-            while to_process:
-                ff = to_process[0]
-                to_process = list(ff.xml_children) + to_process[1:]
-                new_ctx = ctx.copy(item=ff)
-                yield from self.node_test.compute(new_ctx)
+            start_from = ctx.item
+            while start_from.xml_parent:
+                for sibling in _siblings(start_from)[1]:
+                    for ff in _subtree(sibling):
+                        new_ctx = ctx.copy(item=ff)
+                        yield from self.node_test.compute(new_ctx)
+                start_from = start_from.xml_parent
         elif self.axis == 'following-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            for ff in list(ctx.item.xml_parent.xml_children)[start:]:
+            for ff in _siblings(ctx.item)[1]:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
@@ -482,21 +501,16 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
+            start_from = ctx.item
+            while start_from.xml_parent:
+                for sibling in reversed(_siblings(start_from)[0]):
+                    for prev in reversed(list(_subtree(sibling))):
+                        new_ctx = ctx.copy(item=prev)
+                        yield from self.node_test.compute(new_ctx)
+                start_from = start_from.xml_parent
         elif self.axis == 'preceding-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[:start]
-            to_process.reverse()
-            for prev in to_process:
+            for prev in reversed(_siblings(ctx.item)[0]):
                 new_ctx = ctx.copy(item=prev)
                 yield from self.node_test.compute(new_ctx)
         return
-- 
2.43.0


From 7e45cfe7412d5ede6c97160f4af0b3f1271268d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 28/75] fix: XPath '//' within a path selected the context
 node, and ignored the axis of its right step

E.g. a//a or a//@id. Attributes also have no children or descendants.
---
 pylib/uxml/uxpath/xast.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 382447f..731fb02 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -64,6 +64,7 @@ class attribute_node(node):
         node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
@@ -259,13 +260,17 @@ class binary_expression:
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
             # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
             selected = self.left.compute(ctx)
             for item in selected:
-                new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+                if isinstance(self.right, step) and self.right.axis == 'child':
+                    # Shortcut for the common case
+                    new_ctx = ctx.copy(item=item)
+                    yield from step('descendant', self.right.node_test).compute(new_ctx)
+                else:
+                    # Abbreviates /descendant-or-self::node()/
+                    for sub_item in _subtree(item):
+                        new_ctx = ctx.copy(item=sub_item)
+                        yield from self.right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
             if not hasattr(ctx.item, '_docorder'):
-- 
2.43.0


From 57d98d396dc34d2bb6676cd285327bee04d86c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 29/75] fix: XPath union failed for text & attribute nodes and
 went out of order after tree changes

Work out document order on each use, rather than caching it on elements,
and include each node only once.
---
 pylib/uxml/uxpath/functions.py |  2 +-
 pylib/uxml/uxpath/xast.py      | 45 ++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..9af3aff 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -11,7 +11,7 @@ __all__ = [
 #import operator
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
-from amara3.uxml.uxpath.xast import root_node, attribute_node, index_docorder, to_string, to_number, to_boolean
+from amara3.uxml.uxpath.xast import root_node, attribute_node, to_string, to_number, to_boolean
 
 def boolean_arg(ctx, obj):
     '''
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 731fb02..28c0c5b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,11 +24,9 @@ __all__ = [
     ]
 
 
-import operator
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
-from amara3.uxml.treeutil import descendants
 
 
 class root_node(node):
@@ -76,15 +74,26 @@ class attribute_node(node):
         raise NotImplementedError
 
 
-def index_docorder(node):
-    #Always start at the root
-    while node.xml_parent:
-        node = node.xml_parent
-    index = 0
-    node._docorder = index
-    for node in descendants(node):
-        index += 1
-        node._docorder = index
+def docorder_key(item):
+    '''
+    Identifies a node for purposes of document order (root & attribute node objects are created upon each use)
+    '''
+    if isinstance(item, root_node):
+        return ('root', id(item.xml_children[0]))
+    elif isinstance(item, attribute_node):
+        return ('attribute', id(item.xml_parent), item.xml_name)
+    return ('node', id(item))
+
+
+def index_docorder(top, index):
+    '''
+    Add the document order of all nodes from top to the index mapping
+    '''
+    index[docorder_key(top)] = len(index)
+    for aname in getattr(top, 'xml_attributes', ()):
+        index[('attribute', id(top), aname)] = len(index)
+    for child in top.xml_children:
+        index_docorder(child, index)
 
 
 # Casts
@@ -272,14 +281,18 @@ class binary_expression:
                         new_ctx = ctx.copy(item=sub_item)
                         yield from self.right.compute(new_ctx)
         elif self.op == '|':
-            # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
             selected = list(self.left.compute(ctx))
             selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            # Union expressions require an indexing by doc order
+            docorder = {}
+            unique = {}
+            for item in selected:
+                if docorder_key(item) not in docorder:
+                    index_docorder(root_node.get(item), docorder)
+                unique.setdefault(docorder[docorder_key(item)], item)
+            for position in sorted(unique):
+                yield unique[position]
 
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
-- 
2.43.0


From f5051ab001c916b3d5e41b32c1cdb8f002172214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 30/75] fix: XPath comparisons only used the first item,
 compared node objects, and failed on empty sequences

A comparison is now true if it holds for any pair of items, by value.
---
 pylib/uxml/uxpath/xast.py | 63 +++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 28c0c5b..c5036d8 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,6 +24,7 @@ __all__ = [
     ]
 
 
+import operator
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -222,6 +223,32 @@ class unary_expression:
         yield -(to_number(next(self.right.compute(ctx), None)))
 
 
+COMPARISONS = {
+    '=': operator.eq,
+    '!=': operator.ne,
+    '<': operator.lt,
+    '>': operator.gt,
+    '<=': operator.le,
+    '>=': operator.ge,
+}
+
+
+def compare(op, left, right):
+    '''
+    Compare two items, using the value of any node. If either is a number,
+    or a node is to be put in order, it's a numerical comparison
+    '''
+    any_node = isinstance(left, node) or isinstance(right, node)
+    left = left.xml_value if isinstance(left, node) else left
+    right = right.xml_value if isinstance(right, node) else right
+    if isinstance(left, bool) or isinstance(right, bool):
+        left, right = next(to_boolean(left)), next(to_boolean(right))
+    elif not (isinstance(left, str) and isinstance(right, str)) \
+            or (any_node and op not in ('=', '!=')):
+        left, right = next(to_number(left)), next(to_number(right))
+    return COMPARISONS[op](left, right)
+
+
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
 
 
@@ -295,39 +322,11 @@ class binary_expression:
                 yield unique[position]
 
         # FIXME: A lot of work to do on comparisons
-        elif self.op == '=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
-                for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
-                    if i == j:
-                        yield True
-                        return
-            yield False
-        elif self.op == '!=':
+        elif self.op in COMPARISONS:
             lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
-        elif self.op == '>':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
-        elif self.op == '<':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
-        elif self.op == '>=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
-        elif self.op == '<=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
+            rhs = list(self.right.compute(ctx))
+            # True if the comparison holds for any pair of items
+            yield any(compare(self.op, i, j) for i in lhs for j in rhs)
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-- 
2.43.0


From 1d0064d892d919b775bb57110d0ba46d4509874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 31/75] fix: XPath 'and' & 'or' failed on empty sequences and
 did not yield booleans

---
 pylib/uxml/uxpath/xast.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index c5036d8..d1713aa 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -330,15 +330,11 @@ class binary_expression:
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) or next(rhs)
+            yield next(to_boolean(lhs)) or next(to_boolean(rhs))
         elif self.op == 'and':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            # lhs_val = next(lhs, None)
-            # rhs_val = next(rhs, None)
-            # print((self.left, lhs_val, self.right, rhs_val))
-            # yield lhs_val and rhs_val
-            yield next(lhs) and next(rhs)
+            yield next(to_boolean(lhs)) and next(to_boolean(rhs))
         else:
             raise NotImplementedError('Oops! Operator "{}" not yet implemented'.format(self.op))
         return
-- 
2.43.0


From 5b7db9f55812c0201e09ccb13d9bef86c3636449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 32/75] fix: XPath unary minus always failed with TypeError

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d1713aa..ebd9137 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -220,7 +220,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
 COMPARISONS = {
-- 
2.43.0


From 114939d3d691415a1f16d245cc64b57e0db63b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 33/75] fix: XPath positional predicate after another predicate
 used the original positions

A fractional number was also taken as the position below.
---
 pylib/uxml/uxpath/xast.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index ebd9137..d13d0d2 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -565,25 +565,28 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        items = self.lhs.compute(ctx)
+        for pred in self.predicates:
+            # Positions are within what's left by any previous predicate
+            items = self._filter(items, pred, ctx)
+        yield from items
+
+    def _filter(self, items, pred, ctx):
+        for pos, item in enumerate(items):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
-                yield item
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 == predval:
+                    yield item
+            else:
+                if next(to_boolean(predval)):
+                # if next(to_boolean(predval, scalar=True)):
+                    yield item
 
 
 class name_test:
-- 
2.43.0


From 31556554017417ca2bb6be0a0ca4088ce3434f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 34/75] fix: XPath context item was not updated for items such
 as 0 or ''

E.g. (0, 1)[. = 0] selected nothing.
---
 pylib/uxml/uxpath/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..a3be269 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -89,8 +89,8 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
+        item = item if item is not None else self.item
+        pos = pos if pos is not None else self.pos
         variables = variables if variables else self.variables
         functions = functions if functions else self.functions
         lookuptables = lookuptables if lookuptables else self.lookuptables
-- 
2.43.0


From 9682b6c4d044c3e961f81b0f86cf4a997469cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 35/75] fix: qquery() failed with a parsed expression

---
 pylib/uxml/uxpath/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index a3be269..52bb3b6 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -132,6 +132,8 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
     if not root: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
+    else:
+        parsed_expr = xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From 49ca4947aab4eaa83779b7cd078cfc4539f69297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 36/75] fix: names starting with U+00C0 to U+00D6 could not be
 used in XPath

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..317f03c 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From cfd83a4c7d69030070055b946d15f1ee67d4667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 37/75] fix: XPath string values of booleans & numbers not as
 documented

E.g. string(true()) gave 'True' and string(2.0) gave '2.0'
---
 pylib/uxml/uxpath/xast.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d13d0d2..ed9b9be 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,6 +24,7 @@ __all__ = [
     ]
 
 
+import math
 import operator
 # import functools
 from collections.abc import Iterable
@@ -114,10 +115,13 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
     elif isinstance(val, bool):
+        # bools are ints in Python, so check this first
         yield 'true' if val else 'false'
+    elif isinstance(val, float) and not math.isfinite(val):
+        yield 'NaN' if math.isnan(val) else ('Infinity' if val > 0 else '-Infinity')
+    elif isinstance(val, int) or isinstance(val, float):
+        yield str(int(val) if val == int(val) else val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From 377b656bb336fb142fc15282832f7b60d4baf0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 38/75] fix: XPath number() failed on strings which are not
 numbers instead of giving NaN

Also take the context item if there is no argument, as documented for string().
---
 pylib/uxml/uxpath/functions.py |  6 ++++--
 pylib/uxml/uxpath/xast.py      | 16 ++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 9af3aff..83a4bc7 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -271,11 +271,13 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
         obj = next(seq.compute(ctx), '')
     else:
         obj = seq
-    yield next(to_number(obj), '')
+    yield float(next(to_number(obj), ''))
 
 
 @microxpath_function('for-each')
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index ed9b9be..1e57e71 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -26,6 +26,7 @@ __all__ = [
 
 import math
 import operator
+import re
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -126,6 +127,9 @@ def to_string(obj):
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
 
+NUMBER_PAT = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*\Z')
+
+
 def to_number(obj):
     '''
     Cast an arbitrary object or sequence to a number type
@@ -137,12 +141,12 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
-    elif isinstance(val, str):
-        yield float(val)
-    elif isinstance(val, node):
-        yield float(strval(val))
+        yield math.nan
+    elif isinstance(val, bool):
+        yield int(val)
+    elif isinstance(val, (str, node)):
+        val = val if isinstance(val, str) else strval(val)
+        yield float(val) if NUMBER_PAT.match(val) else math.nan
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
-- 
2.43.0


From 0dafe0e73aef9e62a3be8e9534b8825205f44bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:33 +0000
Subject: [PATCH 39/75] fix: XPath string function arguments: empty, computed,
 out of range or not found

An empty sequence was taken as the string 'False', substring() required
literal numbers, string-length() required strings and substring-before()
gave the whole string if the part is not found.
---
 pylib/uxml/uxpath/functions.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 83a4bc7..a034e99 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -27,7 +27,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
@@ -36,7 +36,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_string(obj)
 
 
@@ -154,7 +154,7 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    yield full[:full.index(part)] if part in full else ''
 
 
 @microxpath_function('substring-after')
@@ -164,7 +164,7 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    yield full[full.index(part) + len(part):] if part in full else ''
 
 
 @microxpath_function('substring')
@@ -173,9 +173,9 @@ def substring(ctx, full, start, length):
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
-    yield full[start-1:start-1+length]
+    start = int(next(number_arg(ctx, start)))
+    length = int(next(number_arg(ctx, length)))
+    yield full[max(start-1, 0):max(start-1+length, 0)]
 
 
 @microxpath_function('string-length')
@@ -183,10 +183,7 @@ def string_length(ctx, s=None):
     '''
     Yields one number
     '''
-    if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
+    s = next(string_arg(ctx, ctx.item if s is None else s), '')
     yield len(s)
 
 
-- 
2.43.0


From 415a3b20f769c4865c6415675333c5a6ee12800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:56 +0000
Subject: [PATCH 40/75] fix: XPath boolean() of NaN is documented to be false

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 1e57e71..892f650 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -173,7 +173,8 @@ def to_boolean(obj):
     elif isinstance(val, node):
         yield True
     elif isinstance(val, float) or isinstance(val, int):
-        yield bool(val)
+        # NaN is false
+        yield bool(val) and not math.isnan(val)
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From 2cf982ab94b89e9bb66022cfb1bb4d1fdc9a6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 41/75] fix: newlines and tabs in attribute values were
 silently dropped by the parser

---
 pylib/uxml/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index c1814a5..d7a4df1 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -51,13 +51,13 @@ NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u03
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
 #For single quoted attrs
-ATTRIBVALCHAR_SGL = re.compile('[\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_SGL = re.compile('[\u0009\u000a\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]')
 
 #For double quoted attrs
-ATTRIBVALCHAR_DBL = re.compile('[\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_DBL = re.compile('[\u0009\u000a\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]')
-- 
2.43.0


From ec73a8c94024b02d85fc25b572fa14375dd9ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:38 +0000
Subject: [PATCH 42/75] fix: parser silently dropped characters which are not
 allowed in text and attribute values

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d7a4df1..7e709a6 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -132,6 +132,8 @@ def handle_cdata(pos, window, charpat, stopchars):
                             break
                         else:
                             raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
+            elif window[cursor] != '\r':
+                raise RuntimeError('Illegal character in text or attribute value: {0} (around {1})'.format(repr(window[cursor]), error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 17bae1074ef228c019bc1c735301e132d1c20adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:38 +0000
Subject: [PATCH 43/75] fix: parser accepted duplicate attributes, losing all
 but the last

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 7e709a6..a7ecf7a 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -310,6 +310,8 @@ def parser(handler, strict=True):
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
+                            if aname in attribs:
+                                raise RuntimeError('Duplicate attribute: {0}'.format(aname))
                             attribs[aname] = aval
                             curr_state = state.complete_tag
                         else:
-- 
2.43.0


From bb63a21638a907176e08c1d97338a4f3bb5a3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:38 +0000
Subject: [PATCH 44/75] fix: parser accepted attributes with no white space
 between them

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index a7ecf7a..aeb64cd 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -232,6 +232,8 @@ def parser(handler, strict=True):
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
+                            if window[pos-1] not in ' \r\n\t':
+                                raise RuntimeError('Expected white space before attribute (around {0})'.format(error_context(window, pos, pos)))
                             curr_state = state.attribute
                             #Note: pos not advanced so we can re-read startchar
                             continue
-- 
2.43.0


From 12e5f81e2c378349de2bea43109837d426ed01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:38 +0000
Subject: [PATCH 45/75] fix: xml_remove() of a text node which is not a child
 removed an equal child

---
 pylib/uxml/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 1ecb6ca..66a5d51 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,12 +146,13 @@ class element(node):
 
         child - the child to remove
         '''
-        # Text nodes compare by value, so look for the very node first
+        # Text nodes compare by value, so look for the very node
         for index, candidate in enumerate(self.xml_children):
             if candidate is child:
                 break
         else:
-            if child not in self.xml_children:
+            # A plain string is taken for a text node with that value
+            if isinstance(child, node) or child not in self.xml_children:
                 raise ValueError(f'Element {self} has no child {child}')
             index = self.xml_children.index(child)
         removed = self.xml_children.pop(index)
-- 
2.43.0


From 6b4ea83bd3a066601b5be1cb443635f5cfe6b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 46/75] fix: select_value() yielded text nodes as well as
 elements

---
 pylib/uxml/treeutil.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index e2df099..daaebea 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -54,9 +54,7 @@ def select_value(source, val):
     source - if an element, starts with all child elements in order; can also be any other iterator
     val - string value to match
     '''
-    if isinstance(source, element):
-        source = source.xml_children
-    return filter(lambda x: x.xml_value == val, source)
+    return filter(lambda x: x.xml_value == val, select_elements(source))
 
 
 def select_attribute(source, name, val=None):
-- 
2.43.0


From df1d96d0bd98e4ef45abbf70f457d8a5a53c05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:31 +0000
Subject: [PATCH 47/75] fix: XML sender withheld complete elements if the input
 was fed in pieces cut within a tag

---
 pylib/uxml/xmliter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xmliter.py b/pylib/uxml/xmliter.py
index afa434c..6c118cf 100644
--- a/pylib/uxml/xmliter.py
+++ b/pylib/uxml/xmliter.py
@@ -36,6 +36,9 @@ class sender(treeiter.sender):
         super(sender, self).__init__(pattern, sink, prime_sinks=prime_sinks)
         self.handler = callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
+        # Otherwise recent expat versions may hold back complete elements once a chunk has ended within a tag
+        if hasattr(self.expat_parser, 'SetReparseDeferralEnabled'):
+            self.expat_parser.SetReparseDeferralEnabled(False)
 
         self.expat_parser.StartElementHandler = self.handler.start_element
         self.expat_parser.EndElementHandler = self.handler.end_element
-- 
2.43.0


From a624ddb52dd9f2c6f1d82d6d57daa2b4d4f0740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:51 +0000
Subject: [PATCH 48/75] fix: make_pretty() misplaced end tags after white space
 and altered text in several nodes

---
 pylib/uxml/treeutil.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index daaebea..25872b7 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -212,34 +212,36 @@ def make_pretty(elem, depth=0, indent='  '):
     '''
     depth += 1
     updated_child_list = []
-    updated_child_ix = 0
+    #The text since the last child element (there can be several nodes of it), if any
+    text_run = []
+    if elem.xml_value.strip() and not any(select_elements(elem)):
+        #Just text, so leave alone
+        return elem
     for child in elem.xml_children:
         if isinstance(child, element):
-            if updated_child_ix % 2:
-                updated_child_list.append(child)
-                updated_child_ix += 1
-            else:
+            if not text_run:
                 #It's the turn for text, but we have an element
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
-                updated_child_list.append(child)
-                updated_child_ix += 2
+            updated_child_list.append(child)
+            text_run = []
             make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
                 #Note: if only whitespace entities are used, will still be left alone
                 updated_child_list.append(child)
-                updated_child_ix += 1
-            else:
+                text_run.append(child)
+            elif not text_run or text_run[-1].xml_value.strip():
                 #Only whitespace, so replace with proper indentation
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
-                updated_child_ix += 1
+                text_run.append(new_text)
     #Trailing indentation might be needed
-    if not(updated_child_ix % 2):
+    if text_run and not text_run[-1].xml_value.strip():
+        updated_child_list.pop()
+    if not text_run or not text_run[-1].xml_value.strip():
         new_text = text('\n' + indent*(depth-1), elem)
         updated_child_list.append(new_text)
-        #updated_child_ix += 1 #About to be done, so not really needed
     elem.xml_children = updated_child_list
     return elem
-- 
2.43.0


From 5fa631fa83f971b681e58b97eb564467a6078ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 49/75] fix: XPath '/axis::node()' always included the root,
 whatever the axis

---
 pylib/uxml/uxpath/xast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 892f650..5c087bc 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -404,6 +404,7 @@ class absolute_path:
 
 def _step_is_just_node(r):
     return isinstance(r, step) \
+        and r.axis == 'child' \
         and isinstance(r.node_test, node_type_test) \
         and r.node_test.name == 'node'
 
-- 
2.43.0


From 669bf1cda5775e8467553bc7b22d17f133bc5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 50/75] fix: XPath substring() failed on NaN or infinite
 arguments, and did not round

---
 pylib/uxml/uxpath/functions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index a034e99..4090d70 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -9,6 +9,7 @@ __all__ = [
 
 
 #import operator
+import math
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.uxpath.xast import root_node, attribute_node, to_string, to_number, to_boolean
@@ -167,15 +168,20 @@ def substring_after(ctx, full, part):
     yield full[full.index(part) + len(part):] if part in full else ''
 
 
+def _xpath_round(num):
+    return math.floor(num + 0.5) if math.isfinite(num) else num
+
+
 @microxpath_function('substring')
 def substring(ctx, full, start, length):
     '''
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(number_arg(ctx, start)))
-    length = int(next(number_arg(ctx, length)))
-    yield full[max(start-1, 0):max(start-1+length, 0)]
+    start = _xpath_round(next(number_arg(ctx, start)))
+    end = start + _xpath_round(next(number_arg(ctx, length)))
+    # Comparisons with NaN are always false
+    yield ''.join(char for pos, char in enumerate(full, 1) if start <= pos < end)
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From 1b05b6b14f9ee90478ee1f8fc369321b273ee4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:18 +0000
Subject: [PATCH 51/75] fix: XPath predicate or path after the right operand of
 an operator was applied to the whole operation

---
 pylib/uxml/uxpath/parserules.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..b164fe8 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,6 +9,7 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
+    ('nonassoc', 'WHOLE_PATH'),
     ('left', 'LOGICAL_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
@@ -16,6 +17,7 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    ('left', 'PATH_SEP', 'ABBREV_PATH_SEP', 'OPEN_BRACKET'),
 )
 
 #
@@ -81,8 +83,8 @@ def p_path_union_expr(p):
 
 def p_path_expr_binary(p):
     """
-    Expr : Expr PATH_SEP RelativeLocationPath
-         | Expr ABBREV_PATH_SEP RelativeLocationPath
+    Expr : Expr PATH_SEP RelativeLocationPath %prec WHOLE_PATH
+         | Expr ABBREV_PATH_SEP RelativeLocationPath %prec WHOLE_PATH
     """
     p[0] = xast.binary_expression(p[1], p[2], p[3])
 
@@ -110,19 +112,19 @@ def p_expr_literal(p):
 
 def p_absolute_location_path_rootonly(p):
     """
-    AbsoluteLocationPath : PATH_SEP
+    AbsoluteLocationPath : PATH_SEP %prec WHOLE_PATH
     """
     p[0] = xast.absolute_path(p[1])
 
 def p_absolute_location_path_subpath(p):
     """
-    AbsoluteLocationPath : PATH_SEP RelativeLocationPath
+    AbsoluteLocationPath : PATH_SEP RelativeLocationPath %prec WHOLE_PATH
     """
     p[0] = xast.absolute_path(p[1], p[2])
 
 def p_abbreviated_absolute_location_path(p):
     """
-    AbbreviatedAbsoluteLocationPath : ABBREV_PATH_SEP RelativeLocationPath
+    AbbreviatedAbsoluteLocationPath : ABBREV_PATH_SEP RelativeLocationPath %prec WHOLE_PATH
     """
     p[0] = xast.absolute_path(p[1], p[2])
 
-- 
2.43.0


From ec57b781eadb11b5cce94ff2141bfb9c5048cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:37 +0000
Subject: [PATCH 52/75] fix: XPath and and or had the same precedence

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 317f03c..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index b164fe8..02aaa4a 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -10,7 +10,8 @@ from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
     ('nonassoc', 'WHOLE_PATH'),
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -26,7 +27,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -219,7 +221,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -264,7 +267,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -287,7 +291,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From 417eff5802413d28bf9e165590cd4d6446e512e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:43 +0000
Subject: [PATCH 53/75] fix: XPath text() or node() by itself tested the
 context item, not its children

---
 pylib/uxml/uxpath/parserules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 02aaa4a..d942c90 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -99,7 +99,11 @@ def p_expr_paths_etc(p):
          | FunctionCall
          | VariableReference
     """
-    p[0] = p[1]
+    if isinstance(p[1], xast.node_type_test):
+        # text() or node() by itself is a step along the child axis, as it would be within a path
+        p[0] = xast.step('child', p[1])
+    else:
+        p[0] = p[1]
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From 5d4abb5aef6709fa68f1bc6d07440de2f2270f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 54/75] fix: qquery() from an empty text node never gave any
 result

---
 pylib/uxml/uxpath/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 52bb3b6..cbc2724 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -129,7 +129,7 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         # Force UTF-8
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
-    if not root: return
+    if root is None: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
     else:
-- 
2.43.0


From 5910ed3a08eefb375b42b4a8405b6dbc41e77f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 55/75] fix: XPath string() of a text node was the node itself

---
 pylib/uxml/uxpath/xast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 5c087bc..9691d3e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -112,10 +112,11 @@ def to_string(obj):
         val = obj
     if val is None:
         yield ''
-    elif isinstance(val, str):
-        yield val
     elif isinstance(val, node):
+        # Text nodes are also str, so check this first
         yield strval(val)
+    elif isinstance(val, str):
+        yield val
     elif isinstance(val, bool):
         # bools are ints in Python, so check this first
         yield 'true' if val else 'false'
-- 
2.43.0


From 51c6cad12e729ac86622c086cef571ec2d3fc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 56/75] fix: XPath boolean value of an empty text node was
 false

---
 pylib/uxml/uxpath/xast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9691d3e..02b983b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -169,10 +169,11 @@ def to_boolean(obj):
         yield False
     elif isinstance(val, bool):
         yield val
-    elif isinstance(val, str):
-        yield bool(val)
     elif isinstance(val, node):
+        # Text nodes are also str, so check this first
         yield True
+    elif isinstance(val, str):
+        yield bool(val)
     elif isinstance(val, float) or isinstance(val, int):
         # NaN is false
         yield bool(val) and not math.isnan(val)
-- 
2.43.0


From 8e70891d5f51f317f23a1ffa9306a8c87c98662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 57/75] fix: keep full names of foreign HTML elements with
 colons, so that their end tags match (P16)

---
 pylib/uxml/html5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 699aa21..af76bc0 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -281,9 +281,10 @@ class treebuilder(TreeBuilder):
                 name = NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
-            if (u":" in name and not namespace):
+            if u":" in name:
+                #html5lib matches end tags by the full name, also in foreign content
                 xml_html5lib_name = name
-                namespace = BOGUS_NAMESPACE
+                if not namespace: namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
             if xml_html5lib_namespace != MARKER:
                 elem.xml_html5lib_namespace = xml_html5lib_namespace
-- 
2.43.0


From 59559d9938d385690fcbd9f7803395acec80064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 58/75] fix: include the element which has the text in the
 locations printed by microx --find-text (P17)

---
 exec/microx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index 3f5f1df..3b803f4 100755
--- a/exec/microx
+++ b/exec/microx
@@ -186,7 +186,8 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
                 for node in elem.xml_children:
                     if isinstance(node, tree.text):
                         if search_for in node.xml_value:
-                            print(xpath_to(elem, show_attrs), file=out)
+                            # From the text node, so that the location includes its parent element
+                            print(xpath_to(node, show_attrs), file=out)
 
     def sink():
         while True:
-- 
2.43.0


From 9e45b18e9186a388ebf56d196d0652efd951027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 59/75] fix: print attributes selected in microx as their
 values, as documented (P17)

---
 exec/microx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index 3b803f4..cad1de6 100755
--- a/exec/microx
+++ b/exec/microx
@@ -103,6 +103,7 @@ from amara3.uxml import tree
 from amara3.uxml.tree import node, text, element
 from amara3.uxml.treeutil import descendants
 from amara3.uxml.uxpath import context, parse as uxpathparse
+from amara3.uxml.uxpath.xast import attribute_node
 from amara3.uxml import tree, writer, xml, xmliter
 from amara3.uxml import html5
 
@@ -147,7 +148,9 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
         parsed_foreach = uxpathparse(foreach)
 
     def print_item(item):
-        if isinstance(item, node):
+        if isinstance(item, attribute_node):
+            print(item.xml_value, file=out)
+        elif isinstance(item, node):
             print(item.xml_encode(), file=out)
         else:
             print(item, file=out)
-- 
2.43.0


From 1dd59c36ee3d74e24c9d1f0d0569c62b27856a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 60/75] fix: print the document in microx when the root node is
 selected, rather than fail (P17)

---
 exec/microx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index cad1de6..1f60825 100755
--- a/exec/microx
+++ b/exec/microx
@@ -103,7 +103,7 @@ from amara3.uxml import tree
 from amara3.uxml.tree import node, text, element
 from amara3.uxml.treeutil import descendants
 from amara3.uxml.uxpath import context, parse as uxpathparse
-from amara3.uxml.uxpath.xast import attribute_node
+from amara3.uxml.uxpath.xast import root_node, attribute_node
 from amara3.uxml import tree, writer, xml, xmliter
 from amara3.uxml import html5
 
@@ -148,6 +148,9 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
         parsed_foreach = uxpathparse(foreach)
 
     def print_item(item):
+        if isinstance(item, root_node):
+            # The document is printed by way of its element
+            item = item.xml_children[0]
         if isinstance(item, attribute_node):
             print(item.xml_value, file=out)
         elif isinstance(item, node):
-- 
2.43.0


From cad0a8a95c08aa215970273bfe00adcd50c55bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 61/75] fix: parse HTML in html5iter.sender, which always
 failed for want of html5.parser (P08)

---
 pylib/uxml/html5iter.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index b1b9ea1..1276a34 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -6,7 +6,7 @@
 
 from . import tree
 from . import treeiter
-from .treeutil import *
+from .parser import event
 from . import html5
 
 
@@ -24,10 +24,21 @@ class sender(treeiter.sender):
     >>> values
     ['1', '2', '3']
     '''
+    def _events(self, elem, ancestors):
+        yield event.start_element, elem.xml_name, elem.xml_attributes, ancestors
+        inner = ancestors + [elem.xml_name]
+        for child in elem.xml_children:
+            if isinstance(child, tree.element):
+                yield from self._events(child, inner)
+            elif not isinstance(child, html5.comment):
+                yield event.characters, str(child)
+        yield event.end_element, elem.xml_name, ancestors
+
     def parse(self, doc):
         h = self._handler()
-        p = html5.parser(h)
-        p.send((doc, False))
-        p.send(('', True))  # Wrap it up
+        next(h)  # Prime coroutine
+        # HTML content might be moved around until the end of the document, so only the complete tree will do
+        for ev in self._events(html5.parse(doc), []):
+            h.send(ev)
         return
 
-- 
2.43.0


From 1e04e0280c8c060047b6489f4f4ed638959daa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 62/75] fix: do not have all uxml.parse() calls share a tree
 builder, which mixes up parses in several threads and keeps the last tree
 alive (P18)

---
 pylib/uxml/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/uxml/__init__.py b/pylib/uxml/__init__.py
index 16b7db3..3c28a64 100644
--- a/pylib/uxml/__init__.py
+++ b/pylib/uxml/__init__.py
@@ -13,8 +13,7 @@ amara.lib.inputsource.text if it's not obviously XML
 
 from amara3.uxml import tree
 
-TB = tree.treebuilder()
-parse = TB.parse
+parse = tree.parse
 
 
 try:
-- 
2.43.0


From fd2617f227e1910486fe0faeb64432dea8a1da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 63/75] fix: isxml() could not be imported with current Python,
 where Py_UNICODE has gone (P19)

---
 clib/xmlstring.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/clib/xmlstring.c b/clib/xmlstring.c
index f1bb7aa..6498316 100644
--- a/clib/xmlstring.c
+++ b/clib/xmlstring.c
@@ -8,9 +8,7 @@ Miscellaneous XML-specific string functions\n\
 Copyright 2016 Uche Ogbuji (USA).\n\
 ";
 
-/*
 #define PY_SSIZE_T_CLEAN
-*/
 #include <Python.h>
 
 #define XmlString_BUILDING_MODULE
@@ -48,9 +46,8 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     #http://www.xml.com/pub/a/2007/02/28/what-does-xml-smell-like.html
   */
   char *str, *encoding;
-  int len;
+  Py_ssize_t len, pos, count;
   PyObject *characters, *result;
-  Py_UNICODE *p;
 
   if (!PyArg_ParseTuple(args,"y#:isxml", &str, &len))
     return NULL;
@@ -111,14 +108,14 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     result = Py_False;
   } else {
     /* Find the first non-whitespace character */
-    p = PyUnicode_AS_UNICODE(characters);
-    /* while (*p && IS_XMLSPACE(*p)) {printf("ASCII value = %d, Character = [%c]\n", *p, *p); p++;} */
-    while (IS_XMLSPACE(*p)) p++;
+    count = PyUnicode_GET_LENGTH(characters);
+    pos = 0;
+    while (pos < count && IS_XMLSPACE(PyUnicode_READ_CHAR(characters, pos))) pos++;
 
     /* The first non-whitespace character in a well-formed XML document must
      * be '<'.
      */
-    result = *p == '<' ? Py_True : Py_False;
+    result = pos < count && PyUnicode_READ_CHAR(characters, pos) == '<' ? Py_True : Py_False;
     Py_DECREF(characters);
   }
 
-- 
2.43.0


From 7b3c2030020950f631dd10511a42205998968a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 64/75] fix: senders go on properly if a sink puts the subtree
 it gets in another tree

---
 pylib/uxml/treeiter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index ae02001..2f7f59b 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -160,12 +160,14 @@ class sender:
                     if building_depth:
                         building_depth -= 1
                         self._building_depths[ix] = building_depth
+                        #To be checked before the sink might put the subtree in another tree
+                        grandparent = parent.xml_parent
                         #Done with this subtree
                         if not building_depth:
                             self._sinks[ix].send(parent)
                         #Pop back up in element ancestry
                         if parent:
-                            parent = self._parents[ix] = parent.xml_parent
+                            parent = self._parents[ix] = grandparent
 
                 #print(ev, building_depth, evstack)
         return
-- 
2.43.0


From e3037b36964185cf7c3966852dda773520b75142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 65/75] fix: MicroXPath numbers are of ASCII digits only
 (1\u0969 was 13)

---
 pylib/uxml/uxpath/lexrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 8c23f20..21b1da7 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -90,12 +90,12 @@ def t_LITERAL(t):
     return t
 
 def t_FLOAT(t):
-    r'\d+\.\d*|\.\d+'
+    r'[0-9]+\.[0-9]*|\.[0-9]+'
     t.value = float(t.value)
     return t
 
 def t_INTEGER(t):
-    r'\d+'
+    r'[0-9]+'
     t.value = int(t.value)
     return t
 
-- 
2.43.0


From 889ca6c8337e31b8b9bd7596c6fce1cc6fce9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:31 +0000
Subject: [PATCH 66/75] fix: namespaces kept for streaming come back after a
 nested declaration of the same prefix (P21)

---
 pylib/uxml/xml.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 40de1af..56e4c53 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -59,17 +59,25 @@ class ns_expat_callbacks(expat_callbacks):
         #For best results always use namespace normal form:
         # http://www.ibm.com/developerworks/library/x-namcar/
         self._stream = stream
+        #prefix: list of namespaces of the declarations hidden by the current one, in stream mode
+        self._hidden = {}
         #Heuristic structure suggesting output namespaces to generate
         #element: (prefix, namespace)
         self.ns_portfolio = {}
         return
 
     def start_namespace(self, prefix, ns):
+        if self._stream and prefix in self.prefixes:
+            self._hidden.setdefault(prefix, []).append(self.prefixes[prefix])
         self.prefixes[prefix] = ns
         self.prefixes_rev[ns] = prefix
 
     def end_namespace(self, prefix):
-        if self._stream: del self.prefixes[prefix]
+        if not self._stream: return
+        if self._hidden.get(prefix):
+            self.prefixes[prefix] = self._hidden[prefix].pop()
+        else:
+            del self.prefixes[prefix]
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-- 
2.43.0


From 4d9b0a5640b47a7673185228ba60397e02a1bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:31 +0000
Subject: [PATCH 67/75] fix: prefix xml is kept in the namespace portfolio, so
 that it can be written again (P21)

---
 pylib/uxml/xml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 56e4c53..926a82e 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -11,6 +11,8 @@ import xml.parsers.expat
 from . import tree
 from .parser import event  # parser, parsefrags
 
+XML_NAMESPACE = 'http://www.w3.org/XML/1998/namespace'
+
 
 class expat_callbacks(object):
     def __init__(self, handler, prime_handler=True):
@@ -53,7 +55,7 @@ class ns_expat_callbacks(expat_callbacks):
         expat_callbacks.__init__(self, handler, prime_handler=prime_handler)
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
-        self.prefixes_rev = {}
+        self.prefixes_rev = {XML_NAMESPACE: 'xml'} #Always declared
         #If True, state of NS mappings will be maintained dynamically, as suitable to streaming mode parse operation
         #If false, best effort will be made to maintain a cumulative mapping of namespaces declared
         #For best results always use namespace normal form:
-- 
2.43.0


From 6f76e7753cb222d599989175c062b5becbf918d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 68/75] fix: namespaces can have characters which Python takes
 for white space, such as U+3000 (P21)

---
 pylib/uxml/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 926a82e..aff193d 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -83,11 +83,11 @@ class ns_expat_callbacks(expat_callbacks):
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-        ns, local = name.split() if ' ' in name else (None, name)
+        ns, local = name.rsplit(' ', 1) if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
             self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
         for aname, aval in attrs.items():
-            ans, alocal = aname.split() if ' ' in aname else (None, aname)
+            ans, alocal = aname.rsplit(' ', 1) if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
         expat_callbacks.start_element(self, name, attrs)
 
-- 
2.43.0


From 48aba08d2eba3e96e10445f6f9673af3e4749901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 69/75] fix: string literals are serialized with quotes

---
 pylib/uxml/uxpath/xast.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 02b983b..490fa80 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -192,7 +192,7 @@ class literal_wrapper:
         return f'{self.__class__.__name__}: {self.obj}'
 
     def _serialize(self):
-        yield str(self.obj)
+        yield from _serialize(self.obj)
 
     def __call__(self, ctx):
         '''
@@ -813,4 +813,8 @@ def _serialize(xp_ast):
         for tok in xp_ast._serialize():
             yield tok
     elif isinstance(xp_ast, str):
-        yield repr(xp_ast)
+        # No escapes in XPath string literals, but they can have quotes of the other kind
+        quote = "'" if '"' in xp_ast else '"'
+        yield quote + xp_ast + quote
+    elif xp_ast is not None:
+        yield str(xp_ast)
-- 
2.43.0


From 072c54d6f24a3f1105f714632ff5f3d4f6f6decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 70/75] fix: numbers are serialized without exponents

---
 pylib/uxml/uxpath/xast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 490fa80..a4edf1b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,6 +24,7 @@ __all__ = [
     ]
 
 
+import decimal
 import math
 import operator
 import re
@@ -816,5 +817,8 @@ def _serialize(xp_ast):
         # No escapes in XPath string literals, but they can have quotes of the other kind
         quote = "'" if '"' in xp_ast else '"'
         yield quote + xp_ast + quote
+    elif isinstance(xp_ast, float):
+        # There is no notation with exponents in XPath
+        yield format(decimal.Decimal(repr(xp_ast)), 'f')
     elif xp_ast is not None:
         yield str(xp_ast)
-- 
2.43.0


From 9d3bb9b6e5798400109c086d6c079eeb705a4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 71/75] fix: subtraction is serialized such that the operator
 is not taken as part of a name

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a4edf1b..af4fe10 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -282,7 +282,8 @@ class binary_expression:
         for tok in _serialize(self.left):
             yield tok
 
-        if self.op in BE_KEYWORDS:
+        if self.op in BE_KEYWORDS or self.op == '-':
+            # Without spaces these would become part of a name
             yield ' '
             yield self.op
             yield ' '
-- 
2.43.0


From 2cfbf08c12db4ab30cc58873598866caf3aeac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 72/75] fix: a sender which was given a document that is not
 well-formed can still parse others

---
 pylib/uxml/html5iter.py |  1 +
 pylib/uxml/treeiter.py  | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index 1276a34..9e73c5a 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -35,6 +35,7 @@ class sender(treeiter.sender):
         yield event.end_element, elem.xml_name, ancestors
 
     def parse(self, doc):
+        self._reset()
         h = self._handler()
         next(h)  # Prime coroutine
         # HTML content might be moved around until the end of the document, so only the complete tree will do
diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 2f7f59b..2521246 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -50,11 +50,8 @@ class sender:
         self._sinks = sinks if isinstance(sinks, list) or isinstance(sinks, tuple) else [sinks]
         if len(self._sinks) != self._pattern_count:
             raise ValueError('Number of patterns must match number of sinks')
-        self._roots = [None] * self._pattern_count
-        self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[] for _ in range(self._pattern_count)]
-        self._building_depths = [0] * self._pattern_count
+        self._reset()
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
             for sink in self._sinks:
@@ -63,6 +60,12 @@ class sender:
         self._currents = [None] * self._pattern_count
         self._prep_patterns()
 
+    def _reset(self):
+        self._roots = [None] * self._pattern_count
+        self._parents = [None] * self._pattern_count
+        self._evstacks = [[] for _ in range(self._pattern_count)]
+        self._building_depths = [0] * self._pattern_count
+
     def _only_name(self, next, name):
         def _only_name_func(ev):
             if ev[0] == event.start_element and ev[1] == name:
@@ -173,6 +176,7 @@ class sender:
         return
 
     def parse(self, doc):
+        self._reset()  # There might be leftovers from a document which was not well-formed
         h = self._handler()
         p = parser(h)
         p.send((doc, False))
-- 
2.43.0


From 47bcbf19924266a57bbb86878cbe1f0fd5636ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 73/75] fix: make_pretty replaces text of no-break and other
 non-XML spaces

---
 pylib/uxml/treeutil.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 25872b7..25c16ad 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -83,6 +83,9 @@ def following_siblings(elem):
 
 MATCHED_STATE = object()
 
+#Other characters for space, such as no-break space, are ordinary text in XML
+XML_WHITESPACE = ' \t\r\n'
+
 def attr_test(next, name):
     def _attr_test(node):
         if isinstance(node, element) and name in node.xml_attributes:
@@ -214,7 +217,7 @@ def make_pretty(elem, depth=0, indent='  '):
     updated_child_list = []
     #The text since the last child element (there can be several nodes of it), if any
     text_run = []
-    if elem.xml_value.strip() and not any(select_elements(elem)):
+    if elem.xml_value.strip(XML_WHITESPACE) and not any(select_elements(elem)):
         #Just text, so leave alone
         return elem
     for child in elem.xml_children:
@@ -227,20 +230,20 @@ def make_pretty(elem, depth=0, indent='  '):
             text_run = []
             make_pretty(child, depth, indent)
         else:
-            if child.xml_value.strip():
+            if child.xml_value.strip(XML_WHITESPACE):
                 #More to it than whitespace, so leave alone
                 #Note: if only whitespace entities are used, will still be left alone
                 updated_child_list.append(child)
                 text_run.append(child)
-            elif not text_run or text_run[-1].xml_value.strip():
+            elif not text_run or text_run[-1].xml_value.strip(XML_WHITESPACE):
                 #Only whitespace, so replace with proper indentation
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
                 text_run.append(new_text)
     #Trailing indentation might be needed
-    if text_run and not text_run[-1].xml_value.strip():
+    if text_run and not text_run[-1].xml_value.strip(XML_WHITESPACE):
         updated_child_list.pop()
-    if not text_run or not text_run[-1].xml_value.strip():
+    if not text_run or not text_run[-1].xml_value.strip(XML_WHITESPACE):
         new_text = text('\n' + indent*(depth-1), elem)
         updated_child_list.append(new_text)
     elem.xml_children = updated_child_list
-- 
2.43.0


From b45d8405df74b4d90542ed9b4b551f1a17122022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 74/75] fix: microx honours the encoding declaration of XML
 sources

Files were opened as text, so that a document in another encoding than that
of the locale, or with a byte order mark, could not be read (or was misread).
---
 exec/microx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index 1f60825..b8f84e2 100755
--- a/exec/microx
+++ b/exec/microx
@@ -254,7 +254,8 @@ if __name__ == '__main__':
     #
     args = parser.parse_args()
 
-    mode = 'rb' if args.partition else 'r'
+    # XML sources themselves declare their encoding, so they are to be parsed as bytes
+    mode = 'r' if (args.html or args.lax) and not args.partition else 'rb'
     source_fps = []
     for source in args.sources:
         if matches_uri_syntax(source):
-- 
2.43.0


From cb2b456963bb1d17aadf9819255437c230097103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 75/75] fix: character references with very many leading zeros

int() refuses to convert more than 4300 decimal digits, so that a valid
document was rejected.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index aeb64cd..e16265e 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -109,7 +109,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                         if digit.match(window[cursor]):
                             cursor += 1
                         elif window[cursor] == ';':
-                            c = chr(int(window[start:cursor], base))
+                            c = chr(int(window[start:cursor].lstrip('0') or '0', base))
                             if not CHARACTER.match(c):
                                 raise RuntimeError('Character reference gives an illegal character: {0}'.format('&' + window[start:cursor] + ';'))
                             cdata += c
-- 
2.43.0


From 8ca1df768435fda0a729b1867f983456c920007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 01/14] fix: is_latin_char: handle letters which don't have a
 Unicode name

Letters like U+4DB6 or Tangut ideographs don't have a name in the Unicode
database, so unicodedata.name raised ValueError, and it was impossible to
parse a token with such a letter.
---
 pymorphy2/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..1e8eb5c 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,7 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From a8241663b0aa93811ac0a8612ab2b6ab8ff2b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 02/14] fix: NumberAnalyzer: 'nan', 'inf' and 'infinity' are
 not numbers

---
 pymorphy2/units/by_shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymorphy2/units/by_shape.py b/pymorphy2/units/by_shape.py
index 2f1d505..862f764 100644
--- a/pymorphy2/units/by_shape.py
+++ b/pymorphy2/units/by_shape.py
@@ -112,6 +112,9 @@ class NumberAnalyzer(_ShapeAnalyzer):
         }
 
     def check_shape(self, word, word_lower):
+        if not any(ch.isdigit() for ch in word):
+            # float() accepts 'nan', 'inf' and 'infinity'
+            return False
         try:
             int(word)
             return 'intg'
-- 
2.43.0


From 8d92dc95141bc249173ce9047b8d4ca58ba2d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 03/14] fix: keep probability_estimator_cls and
 char_substitutes when MorphAnalyzer is pickled

---
 pymorphy2/analyzer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..a0fe1e8 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,14 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    """ "Choose the value automatically" marker; it is unpickled to itself. """
+    def __reduce__(self):
+        return str('auto')
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -193,6 +200,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes_orig = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +449,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes_orig)
         return self.__class__, args, None
-- 
2.43.0


From bac0e9056f3536c51fc16f7b965a00ce3d65c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 04/14] fix: don't forget known grammemes when a dictionary is
 loaded

Tag class is shared by all analyzers, and known grammemes were reset and then
added one by one, so tags were broken in other threads while an analyzer was
being created; after loading another dictionary grammemes of the first one
became unknown.
---
 pymorphy2/tagset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..f93f836 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -443,9 +443,12 @@ class OpencorporaTag(object):
             ]
 
         """
-        cls.KNOWN_GRAMMEMES = set()
-        cls._CYR2LAT = {}
-        cls._LAT2CYR = {}
+        # Tag class is shared, so grammemes which are already known should be
+        # kept: tags of existing analyzers may be in use (e.g. in other threads)
+        # when a new analyzer is created.
+        cls.KNOWN_GRAMMEMES = set(cls.KNOWN_GRAMMEMES)
+        cls._CYR2LAT = dict(cls._CYR2LAT or {})
+        cls._LAT2CYR = dict(cls._LAT2CYR or {})
         for name, parent, alias, description in dict_grammemes:
             cls.add_grammemes_to_known(name, alias)
 
-- 
2.43.0


From 43077aaeb88f3f781476af050df2b07acd551788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 05/14] fix: don't reintroduce loc1/gen1/acc1 when tag
 spellings are unified

Spellings were collected before redundant grammemes were replaced, so if a tag
with 'loc1' was more popular than the same tag with 'loct' then 'loct' was
replaced with 'loc1' in the compiled dictionary.
---
 pymorphy2/opencorpora_dict/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..f9c280a 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,7 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
-        spellings[tag2grammemes(tag)][tag] += 1
+        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
     return spellings
 
 
-- 
2.43.0


From 05be512d27d3eae5646ba8dad834013e7f512627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 06/14] fix: don't divide by zero when the estimates of all
 parses are zero

Scores of the parses of a prefixed word come from the parses of its remainder;
they are all zero if P(t|w) of the remainder is non-zero only for the parses
which are dropped because their class is not productive.
---
 pymorphy2/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index a0fe1e8..7e1ce65 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -86,7 +86,8 @@ class ProbabilityEstimator(object):
 
         if sum(probs) == 0:
             # no P(t|w) information is available; return normalized estimate
-            k = 1.0 / sum(map(_score_getter, parses))
+            # (all estimates may be 0: P(t|w) of a word part is not smoothed)
+            k = 1.0 / (sum(map(_score_getter, parses)) or 1.0)
             return [
                 (word, tag, normal_form, score*k, methods_stack)
                 for (word, tag, normal_form, score, methods_stack) in parses
-- 
2.43.0


From ec1f219d38092b5fe7fcb34ccb3fbf9a19efab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 07/14] fix: don't accumulate incompatible grammemes of all
 loaded dictionaries

_EXTRA_INCOMPATIBLE was expanded in place, so grammemes which exclude 'plur'
in one dictionary excluded it in the next one as well, and loading a dictionary
again added one more level of descendants.
---
 pymorphy2/tagset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index f93f836..65d1585 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -462,15 +462,18 @@ class OpencorporaTag(object):
             if gr.get(parent, None):  # parent's parent
                 children[gr[parent]].add(name)
 
-        # expand EXTRA_INCOMPATIBLE
+        # expand EXTRA_INCOMPATIBLE (it is shared: grammemes of this dictionary
+        # shouldn't be left there for dictionaries which are loaded later)
+        extra_incompatible = {}
         for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
-            for g in g_set.copy():
-                g_set.update(children[g])
+            extra_incompatible[grammeme] = set(g_set)
+            for g in g_set:
+                extra_incompatible[grammeme].update(children[g])
 
         # fill GRAMMEME_INDICES and GRAMMEME_INCOMPATIBLE
         for index, (name, parent, alias, description) in enumerate(dict_grammemes):
             cls._GRAMMEME_INDICES[name] = index
-            incompatible = cls._EXTRA_INCOMPATIBLE.get(name, set())
+            incompatible = extra_incompatible.get(name, set())
             incompatible = (incompatible | children[parent]) - set([name])
 
             cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
-- 
2.43.0


From 55079bbcb890d2a364c15913dd9abaca8db4484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 08/14] fix: don't lose lexemes when links are circular, keep
 linked lexemes together

A lexeme which is a target of several links is joined to the first one
(as before), but lexemes joined to it later follow it.
---
 pymorphy2/opencorpora_dict/compile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..d75d612 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -220,11 +220,17 @@ def _join_lexemes(lexemes, links):
     moves = dict()
 
     def move_lexeme(from_id, to_id):
+        if from_id in moves:
+            return  # it is already joined to another lexeme
+
         lm = lexemes[str(from_id)]
 
         while to_id in moves:
             to_id = moves[to_id]
 
+        if to_id == from_id:
+            return  # circular link
+
         lexemes[str(to_id)].extend(lm)
         del lm[:]
         moves[from_id] = to_id
-- 
2.43.0


From e696f23856be3b5f9d4733b94e82f51ac341a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 09/14] fix: return a new set from numeral_agreement_grammemes

It returned a set which is shared by all tags, so a caller that changed
the result changed agreement of all words with numbers.
---
 pymorphy2/tagset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index 65d1585..b8cb65c 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -515,7 +515,8 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
         else:
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
-        return grammemes
+        # return a copy because _NUMERAL_AGREEMENT_GRAMMEMES sets are shared
+        return set(grammemes)
 
     #@classmethod
     #def _clone_class(cls):
-- 
2.43.0


From 0a52bc2e9822fcc0cf4dab379837f2773ce79eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 10/14] fix: allow --lang and --dict options in 'pymorphy
 parse'

docopt excludes options which are mentioned in any usage line from [options],
so these documented options were rejected.
---
 pymorphy2/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/cli.py b/pymorphy2/cli.py
index cd062f3..8a76267 100644
--- a/pymorphy2/cli.py
+++ b/pymorphy2/cli.py
@@ -24,7 +24,7 @@ Pymorphy2 is a morphological analyzer / inflection engine for Russian language.
 __doc__ = """
 Usage::
 
-    pymorphy parse [options] [<input>]
+    pymorphy parse [options] [--lang <lang>] [--dict <path>] [<input>]
     pymorphy dict meta [--lang <lang> | --dict <path>]
     pymorphy dict mem_usage [--lang <lang> | --dict <path>] [--verbose]
     pymorphy -h | --help
-- 
2.43.0


From ee152fb3c652a641cb169953e8320f505f96e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 11/14] fix: don't fail on comments inside deleted lemmas when
 lxml is used

---
 pymorphy2/opencorpora_dict/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/parse.py b/pymorphy2/opencorpora_dict/parse.py
index 4424631..fe5570f 100644
--- a/pymorphy2/opencorpora_dict/parse.py
+++ b/pymorphy2/opencorpora_dict/parse.py
@@ -111,7 +111,8 @@ def _word_forms_from_xml_elem(elem):
     lexeme = []
     lex_id = elem.get('id')
 
-    if len(elem) == 0:  # deleted lexeme?
+    # comments are children for lxml, so len(elem) can't be used here
+    if elem.find('*') is None:  # deleted lexeme?
         return lex_id, lexeme
 
     base_info = list(elem.iter('l'))
-- 
2.43.0


From d1bdfedee55f267354559452d7d89a67296ea80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 12/14] =?UTF-8?q?fix:=20lower-case=20known=20Ukrainian=20p?=
 =?UTF-8?q?refixes,=20so=20that=20GPS-,=20=D0=92=D0=86=D0=9B-=20etc.=20are?=
 =?UTF-8?q?=20recognized?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pymorphy2/lang/uk/_prefixes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/lang/uk/_prefixes.py b/pymorphy2/lang/uk/_prefixes.py
index 082f757..ec78793 100644
--- a/pymorphy2/lang/uk/_prefixes.py
+++ b/pymorphy2/lang/uk/_prefixes.py
@@ -340,8 +340,9 @@ Y
 """
 
 # TODO: prefixes without a hyphen?
+# (words are lower-cased before they are checked for prefixes)
 KNOWN_PREFIXES = [
-    line.strip() + "-"
+    line.strip().lower() + "-"
     for line in _DASH_PREFIXES.split("\n")
     if line.strip()
 ]
-- 
2.43.0


From ec3553b625771221dd6b0e251a0c38df29ddab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 13/14] fix: an interrupted recompilation doesn't leave a mix
 of dictionaries that loads

---
 pymorphy2/opencorpora_dict/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index 9eaf728..490ebc7 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -90,6 +90,11 @@ def save_compiled_dict(compiled_dict, out_path, source_name, language_code):
     logger.info("Saving...")
     _f = lambda path: os.path.join(out_path, path)
 
+    # meta.json is written last: if saving is interrupted, a mix of an old and
+    # a new dictionary shouldn't be loadable.
+    if os.path.exists(_f('meta.json')):
+        os.remove(_f('meta.json'))
+
     json_write(_f('grammemes.json'), compiled_dict.parsed_dict.grammemes)
 
     gramtab_formats = {}
-- 
2.43.0


From d71475b72743bbcedfec1894b03709a028766c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:13 +0000
Subject: [PATCH 14/14] fix: an interrupted creation of an analyzer doesn't
 leave a grammeme without its Cyrillic name

add_grammemes_to_known(..., overwrite=False) does nothing for a grammeme which
is already known, so a grammeme should become known only after its names
are stored.
---
 pymorphy2/tagset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index b8cb65c..d334fb2 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -425,9 +425,9 @@ class OpencorporaTag(object):
     def add_grammemes_to_known(cls, lat, cyr, overwrite=True):
         if not overwrite and lat in cls.KNOWN_GRAMMEMES:
             return
-        cls.KNOWN_GRAMMEMES.add(lat)
         cls._LAT2CYR[lat] = cyr
         cls._CYR2LAT[cyr] = lat
+        cls.KNOWN_GRAMMEMES.add(lat)  # the last, see ``overwrite`` above
 
     @classmethod
     def _init_grammemes(cls, dict_grammemes):
-- 
2.43.0


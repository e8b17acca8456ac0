From a8894c9ef9e8f99428989109fafc72e3ac80de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 01/17] fix: Template.parse replaces previous substitutions and
 keeps them when text is rejected

---
 utg/templates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..d4b5ebe 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -160,10 +160,14 @@ class Template(object):
 
         variables = _VARIABLE_REGEX.findall(text)
 
+        # a rejected text must not change the template & a new text must replace the previous one
+        substitutions = []
+
         for i, variable in enumerate(variables):
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+            substitutions.append(Substitution.parse(variable, externals=externals))
             text = text.replace(variable, '%s', 1)
 
+        self._substitutions = substitutions
         self.template = text
 
     def substitute(self, externals, dictionary):
-- 
2.43.0


From f0524f31ae5d08567ef114a46d030d15af13be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 02/17] fix: Lexicon.add_template does not lose templates on
 concurrent registration of a new key

---
 utg/lexicon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/utg/lexicon.py b/utg/lexicon.py
index 2e108e2..e36b41b 100644
--- a/utg/lexicon.py
+++ b/utg/lexicon.py
@@ -11,10 +11,8 @@ class Lexicon(object):
         self._data = {}
 
     def add_template(self, key, template, restrictions=frozenset()):
-        if key not in self._data:
-            self._data[key] = []
-
-        self._data[key].append((template, restrictions))
+        # single operation, so concurrent registration of a new key can not lose templates
+        self._data.setdefault(key, []).append((template, restrictions))
 
     def has_key(self, key):
         return key in self._data
-- 
2.43.0


From f99edb868e38b29fe830423862cccd9c0c1cf0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 03/17] fix: Dictionary.get_words works while another thread
 adds words

---
 utg/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/dictionary.py b/utg/dictionary.py
index 2d1121e..e877df0 100644
--- a/utg/dictionary.py
+++ b/utg/dictionary.py
@@ -62,4 +62,4 @@ class Dictionary(object):
         return word
 
     def get_words(self):
-        return set(word_form.word for word_form in self._data.values())
+        return set(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words
-- 
2.43.0


From 7b8a55f09fe862c489a504eaf74aa5fb9eb5b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 04/17] fix: Dictionary chooses the same word on full tie for
 any order of additions

---
 utg/dictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utg/dictionary.py b/utg/dictionary.py
index e877df0..3248068 100644
--- a/utg/dictionary.py
+++ b/utg/dictionary.py
@@ -46,6 +46,10 @@ class Dictionary(object):
             if word_form is registered_form:
                 continue
 
+            # words differ only by properties, result must not depend on order of additions
+            if sorted(word_form.word.properties.serialize().items()) < sorted(registered_form.word.properties.serialize().items()):
+                self._data[word_form.form] = word_form
+
             continue
 
 
-- 
2.43.0


From 823c7ea46fa7a68f9e69f53c656094c5300b7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 05/17] fix: Word.autofill_missed_forms gives the same forms
 when it is interrupted and repeated

---
 utg/words.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..9dcff9d 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -193,7 +193,10 @@ class Word(object):
                           for index in range(len(self.forms))
                           if self.forms[index]]
 
-        for i, form in enumerate(self.forms):
+        # fill copy, so interrupted filling can be repeated from original forms
+        filled_forms = list(self.forms)
+
+        for i, form in enumerate(filled_forms):
             if form:
                 continue
 
@@ -202,7 +205,9 @@ class Word(object):
             if nearest_key is None:
                 continue
 
-            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
+            filled_forms[i] = filled_forms[data.WORDS_CACHES[self.type][nearest_key]]
+
+        self.forms[:] = filled_forms
 
 
 
-- 
2.43.0


From 06a668d3cdd4797747155551f948e914d738b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 06/17] fix: Word.autofill_missed_forms drops facts remembered
 for previous forms

---
 utg/utils.py | 4 +++-
 utg/words.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/utg/utils.py b/utg/utils.py
index d3be260..01ea10e 100644
--- a/utg/utils.py
+++ b/utg/utils.py
@@ -13,7 +13,9 @@ def lazy_property(func):
         return getattr(self, lazy_name)
 
     def deleter(self):
-        if hasattr(self, lazy_name):
+        try:
             delattr(self, lazy_name)
+        except AttributeError:
+            pass
 
     return property(fget=getter, fdel=deleter)
diff --git a/utg/words.py b/utg/words.py
index 9dcff9d..ccd23c2 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -209,6 +209,10 @@ class Word(object):
 
         self.forms[:] = filled_forms
 
+        # facts calculated from previous forms
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0


From 7dccde1c5b3753d2b65d19ab4041e8c091b56b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 07/17] fix: word records do not share list of forms with words

---
 utg/words.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index ccd23c2..90dac62 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -92,13 +92,13 @@ class Word(object):
 
     def serialize(self):
         return {'type': self.type.value,
-                'forms': self.forms,
+                'forms': list(self.forms),
                 'properties': self.properties.serialize()}
 
     @classmethod
     def deserialize(cls, data):
         return cls(type=r.WORD_TYPE(data['type']),
-                   forms=data['forms'],
+                   forms=list(data['forms']),
                    properties=Properties.deserialize(data['properties']))
 
     def form(self, properties):
-- 
2.43.0


From ab67c9037957e0ada05428c51b12b617bb9cf776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 08/17] fix: lazy property does not fail when its value is
 dropped by other thread

---
 utg/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/utg/utils.py b/utg/utils.py
index 01ea10e..bbca230 100644
--- a/utg/utils.py
+++ b/utg/utils.py
@@ -8,9 +8,14 @@ def lazy_property(func):
 
     @functools.wraps(func)
     def getter(self):
-        if not hasattr(self, lazy_name):
-            setattr(self, lazy_name, func(self))
-        return getattr(self, lazy_name)
+        try:
+            return getattr(self, lazy_name)
+        except AttributeError: # not calculated yet or already dropped by other thread
+            pass
+
+        value = func(self)
+        setattr(self, lazy_name, value)
+        return value
 
     def deleter(self):
         try:
-- 
2.43.0


From 5bd84e0870b29bba0bea47343359aceb8ae0b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 09/17] fix: reject a template variable with a blank identifier
 by the library's own error

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index d4b5ebe..00cf925 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From 2fec72b58aaf92b3b8348ebe320b7391ce2f6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 10/17] fix: facts about word with missed forms are not stored,
 so they do not outlive concurrent or interrupted filling

---
 utg/utils.py | 10 ++++++++--
 utg/words.py |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/utg/utils.py b/utg/utils.py
index bbca230..b45a3c1 100644
--- a/utg/utils.py
+++ b/utg/utils.py
@@ -2,7 +2,7 @@
 import functools
 
 
-def lazy_property(func):
+def lazy_property(func, can_be_stored=None):
 
     lazy_name = '_lazy__%s' % func.__name__
 
@@ -13,8 +13,14 @@ def lazy_property(func):
         except AttributeError: # not calculated yet or already dropped by other thread
             pass
 
+        # check before calculation, since other thread can change object at any moment
+        store = can_be_stored is None or can_be_stored(self)
+
         value = func(self)
-        setattr(self, lazy_name, value)
+
+        if store:
+            setattr(self, lazy_name, value)
+
         return value
 
     def deleter(self):
diff --git a/utg/words.py b/utg/words.py
index 90dac62..dda20bc 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -1,4 +1,5 @@
 # coding: utf-8
+import functools
 import random
 
 from utg import relations as r
@@ -76,6 +77,10 @@ class Properties(object):
                    if property_value != data.DEFAULT_PROPERTIES[property_relation])
 
 
+# missed forms can be filled at any moment (in other thread too), so only facts about word with all forms are stored
+_lazy_fact = functools.partial(utils.lazy_property, can_be_stored=lambda word: all(word.forms))
+
+
 class Word(object):
     __slots__ = ('type', 'forms', 'properties', '_lazy__number_of_syllables', '_lazy__has_fluent_vowel')
 
@@ -166,12 +171,12 @@ class Word(object):
 
         return cls(type=type, forms=forms, properties=properties)
 
-    @utils.lazy_property
+    @_lazy_fact
     def number_of_syllables(self):
         form = self.forms[0]
         return max(1, sum(form.count(char) for char in data.VOWELS))
 
-    @utils.lazy_property
+    @_lazy_fact
     def has_fluent_vowel(self):
         form = self.forms[0]
         base_vowels = ''.join([char for char in form if char in data.VOWELS])
-- 
2.43.0


From b90f45e32090f315dedb41ad8d9736292bb65476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 11/17] fix: empty form can be capitalised and followed by
 preposition

---
 utg/transformators.py | 6 +++---
 utg/words.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
diff --git a/utg/words.py b/utg/words.py
index dda20bc..120517f 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -234,7 +234,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -245,7 +245,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From 9e4ac371751f87b4559d8adbbdf8dc92ac21d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 12/17] fix: text and substitutions of template are replaced at
 once, so interrupted or concurrent parsing leaves no mix

---
 utg/templates.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 00cf925..633fe82 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -121,21 +121,30 @@ class Substitution(object):
 
 
 class Template(object):
-    __slots__ = ('_substitutions', 'template')
+    __slots__ = ('_parsed',)
 
     def __init__(self):
-        self._substitutions = []
-        self.template = None
+        # changed only by single assignment, so neither other thread nor interrupted parsing can leave text with foreign substitutions
+        self._parsed = (None, [])
+
+    @property
+    def template(self):
+        return self._parsed[0]
+
+    @property
+    def _substitutions(self):
+        return self._parsed[1]
 
     def serialize(self):
-        return {'template': self.template,
-                'substitutions': [substitution.serialize() for substitution in self._substitutions]}
+        template, substitutions = self._parsed
+        return {'template': template,
+                'substitutions': [substitution.serialize() for substitution in substitutions]}
 
     @classmethod
     def deserialize(cls, data):
         obj = cls()
-        obj.template = data['template']
-        obj._substitutions = [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']]
+        obj._parsed = (data['template'],
+                       [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']])
 
         return obj
 
@@ -167,14 +176,12 @@ class Template(object):
             substitutions.append(Substitution.parse(variable, externals=externals))
             text = text.replace(variable, '%s', 1)
 
-        self._substitutions = substitutions
-        self.template = text
+        self._parsed = (text, substitutions)
 
     def substitute(self, externals, dictionary):
-        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
-                              for substitution in self._substitutions)
-        return self.template % substitutions
+        template, substitutions = self._parsed
+        return template % tuple(substitution.get_text(externals=externals, dictionary=dictionary)
+                                for substitution in substitutions)
 
     def __eq__(self, other):
-        return (self._substitutions == other._substitutions and
-                self.template == other.template)
+        return self._parsed == other._parsed
-- 
2.43.0


From 61ff27e6366b14bcb55e083733a29b2cfdcee9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 13/17] fix: variables with percent sign in their text are
 substituted

---
 utg/templates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 633fe82..ead7509 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -165,16 +165,16 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        text = text.replace('%', '%%')
-
         variables = _VARIABLE_REGEX.findall(text)
 
+        text = text.replace('%', '%%')
+
         # a rejected text must not change the template & a new text must replace the previous one
         substitutions = []
 
         for i, variable in enumerate(variables):
             substitutions.append(Substitution.parse(variable, externals=externals))
-            text = text.replace(variable, '%s', 1)
+            text = text.replace(variable.replace('%', '%%'), '%s', 1)
 
         self._parsed = (text, substitutions)
 
-- 
2.43.0


From 2751757b5aa6f994fc9f287624ebc6b5b3c676a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 14/17] fix: later changes of a set passed as restrictions do
 not change registered template

---
 utg/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/lexicon.py b/utg/lexicon.py
index e36b41b..988d406 100644
--- a/utg/lexicon.py
+++ b/utg/lexicon.py
@@ -12,7 +12,7 @@ class Lexicon(object):
 
     def add_template(self, key, template, restrictions=frozenset()):
         # single operation, so concurrent registration of a new key can not lose templates
-        self._data.setdefault(key, []).append((template, restrictions))
+        self._data.setdefault(key, []).append((template, frozenset(restrictions)))
 
     def has_key(self, key):
         return key in self._data
-- 
2.43.0


From 5962e3bc437a0ccc8109b658eab02109d88fbca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 15/17] fix: equal word forms have equal hashes

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 120517f..e6f803e 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -256,7 +256,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From dd028d658d7e8d16af80fbbba0a928ec7c616d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 16/17] fix: facts of word form are not stored while its word
 has missed forms, so they do not outlive filling

---
 utg/words.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index e6f803e..0e1b056 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -79,6 +79,7 @@ class Properties(object):
 
 # missed forms can be filled at any moment (in other thread too), so only facts about word with all forms are stored
 _lazy_fact = functools.partial(utils.lazy_property, can_be_stored=lambda word: all(word.forms))
+_lazy_form_fact = functools.partial(utils.lazy_property, can_be_stored=lambda form: all(form.word.forms))
 
 
 class Word(object):
@@ -238,11 +239,11 @@ class WordForm(object):
 
         return form
 
-    @utils.lazy_property
+    @_lazy_form_fact
     def form(self):
         return self.get_form(self.word, self.form_properties)
 
-    @utils.lazy_property
+    @_lazy_form_fact
     def starts_with_consonant_cluster(self):
         form = self.form
         return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
-- 
2.43.0


From c3bcbed0801fa0fbf3f57a60bdc34ebb5b9627ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 17/17] fix: concurrent additions of words to dictionary do not
 replace more preferred word by less preferred one

---
 utg/dictionary.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/utg/dictionary.py b/utg/dictionary.py
index 3248068..d79c915 100644
--- a/utg/dictionary.py
+++ b/utg/dictionary.py
@@ -1,8 +1,25 @@
 # coding: utf-8
 
+import functools
+import threading
+
 from utg import exceptions
 
 
+# common for all dictionaries, so they can be copied & pickled
+_ADDITION_LOCK = threading.RLock()
+
+
+def _one_at_a_time(method):
+
+    @functools.wraps(method)
+    def wrapper(*args, **kwargs):
+        with _ADDITION_LOCK:
+            return method(*args, **kwargs)
+
+    return wrapper
+
+
 class Dictionary(object):
     __slots__ = ('_data',)
 
@@ -13,6 +30,7 @@ class Dictionary(object):
             self.add_word(word)
 
 
+    @_one_at_a_time # less preferred word can be stored over more preferred one, if their additions interleave
     def add_word(self, word):
         for i, word_form in enumerate(word.all_forms()):
 
-- 
2.43.0


From 89cfa04a32db338021d79f9c6b192091f0429be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 01/11] fix: str() of Properties returned bytes and raised
 TypeError

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From e6d037ebffa1b31badfb1b906e7d6804f139f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 02/11] fix: allow spaces around property ids in template
 markup

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From cc6ce396b5bc04b4eaf85b0a905329b557c90289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 03/11] fix: report blank substitution id as
 WrongDependencyFormatError

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From c19e0ebcd2d3794f5d3cc9ed0ffe3d56e199521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 04/11] fix: Template.parse accumulated substitutions of the
 previous text

---
 utg/templates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..d208759 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -160,6 +160,8 @@ class Template(object):
 
         variables = _VARIABLE_REGEX.findall(text)
 
+        self._substitutions = []
+
         for i, variable in enumerate(variables):
             self._substitutions.append(Substitution.parse(variable, externals=externals))
             text = text.replace(variable, '%s', 1)
-- 
2.43.0


From 7fa89d7409011ca51086a774d26eeb2ae0c500a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 05/11] fix: percent sign inside template markup was doubled

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index d208759..5a80275 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -163,7 +163,7 @@ class Template(object):
         self._substitutions = []
 
         for i, variable in enumerate(variables):
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
             text = text.replace(variable, '%s', 1)
 
         self.template = text
-- 
2.43.0


From 30e1dd5dbc19acb84bcde883ce436e603569e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 06/11] fix: do not fail on words with an unfilled form

---
 utg/transformators.py | 6 +++---
 utg/words.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
diff --git a/utg/words.py b/utg/words.py
index f71d7cb..02e1bca 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From 3dcfe5968e3a786149fdd66f3e40621eecd79483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 07/11] fix: equal word forms must have equal hashes

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 02e1bca..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From 6dca6009cec68bd9e7b14d576c47c0cc382a1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 08/11] fix: comparison of word forms and templates with other
 types raised AttributeError

---
 utg/templates.py | 6 ++++--
 utg/words.py     | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 5a80275..969bf6e 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -116,7 +116,8 @@ class Substitution(object):
         return words.WordForm.get_form(base_form.word, form_properties)
 
     def __eq__(self, other):
-        return (self.id == other.id and
+        return (isinstance(other, Substitution) and
+                self.id == other.id and
                 self.dependencies == other.dependencies)
 
 
@@ -174,5 +175,6 @@ class Template(object):
         return self.template % substitutions
 
     def __eq__(self, other):
-        return (self._substitutions == other._substitutions and
+        return (isinstance(other, Template) and
+                self._substitutions == other._substitutions and
                 self.template == other.template)
diff --git a/utg/words.py b/utg/words.py
index 238dfa8..72868d2 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -235,7 +235,8 @@ class WordForm(object):
 
 
     def __eq__(self, other):
-        return (self.word == other.word and
+        return (isinstance(other, WordForm) and
+                self.word == other.word and
                 self.properties == other.properties)
 
     def __ne__(self, other):
-- 
2.43.0


From 481b5f8f87c79894f44d6509c06427c972b723f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 09/11] fix: serialized word shared its list of forms with the
 word

---
 utg/words.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index 72868d2..ba1b8b0 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -92,13 +92,13 @@ class Word(object):
 
     def serialize(self):
         return {'type': self.type.value,
-                'forms': self.forms,
+                'forms': list(self.forms),
                 'properties': self.properties.serialize()}
 
     @classmethod
     def deserialize(cls, data):
         return cls(type=r.WORD_TYPE(data['type']),
-                   forms=data['forms'],
+                   forms=list(data['forms']),
                    properties=Properties.deserialize(data['properties']))
 
     def form(self, properties):
-- 
2.43.0


From 0f55a21ba2ca192909ea4454253ba6e9d2028fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 10/11] fix: forget cached word properties when missed forms
 are filled

---
 utg/words.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utg/words.py b/utg/words.py
index ba1b8b0..4f02dee 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -204,6 +204,9 @@ class Word(object):
 
             self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
 
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0


From 2be2e9bee53d8a3c2b49f6df4e267dd6145b9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:11 +0000
Subject: [PATCH 11/11] fix: words made from the same list of forms shared it

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 4f02dee..8c2792d 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -87,7 +87,7 @@ class Word(object):
                                                    forms=forms)
 
         self.type = type
-        self.forms = forms
+        self.forms = list(forms)
         self.properties = properties
 
     def serialize(self):
-- 
2.43.0


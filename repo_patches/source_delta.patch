From d8570fa394fb8b59fd785ecd6e10e94a26234b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:11 +0000
Subject: [PATCH 01/40] fix: do not let an affix be permitted by its own flags

An affix whose continuation flags include its own flag was accepted on any
stem, because the flags of the affix itself were consulted when checking
whether the stem (or the opposite affix) permits it.
---
 spylls/hunspell/algo/lookup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..9df8824 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -690,12 +690,14 @@ class Lookup:
                 return False
 
         # Prefix might be allowed by: a) stem having this flag or b) suffix having this flag
-        # (all flags are made from suffix+prefix+stem flags)
-        if form.prefix and form.prefix.flag not in all_flags:
+        # (but not by the flags of the prefix itself)
+        if form.prefix and form.prefix.flag not in root_flags and \
+                not (form.suffix and form.prefix.flag in form.suffix.flags):
             return False
         # Suffix might be allowed by: a) stem having this flag or b) prefix having this flag
-        # (all flags are made from suffix+prefix+stem flags)
-        if form.suffix and form.suffix.flag not in all_flags:
+        # (but not by the flags of the suffix itself)
+        if form.suffix and form.suffix.flag not in root_flags and \
+                not (form.prefix and form.suffix.flag in form.prefix.flags):
             return False
 
         # CIRCUMFIX flag, if present, used to mark suffix and prefix that should go together: if
-- 
2.43.0


From 8c77e93cd06a78fa769f35b77d4999d6d193bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:10 +0000
Subject: [PATCH 02/40] fix: treat affix text literally when removing it from a
 word

Affixes containing characters with a meaning in regular expressions, such as
'.' or '(', made the dictionary unreadable or were stripped incorrectly.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..c665127 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -234,7 +234,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -253,7 +253,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From b1c9d5ad9ab70ea64414998446f85df3569b6a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:40 +0000
Subject: [PATCH 03/40] fix: keep forbidden words forbidden in other
 capitalizations and inside broken words

A word with FORBIDDENWORD flag was accepted when capitalized, as a part of
hyphenated word, or after input conversion. On the other hand, textual presence
of a forbidden stem made lookup drop all further analyses of the word, even
those with unrelated stems.
---
 spylls/hunspell/algo/lookup.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9df8824..92d41e8 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -314,8 +314,19 @@ class Lookup:
             captype = self.aff.casing.guess(word)
             variants = [word]
 
+        def is_forbidden(text):
+            return self.aff.FORBIDDENWORD and self.dic.has_flag(text, self.aff.FORBIDDENWORD, for_all=True)
+
+        # The word could have become forbidden only now, after conversions and breaking
+        if is_forbidden(word):
+            return
+
         # Now, for each of capitalization variants possible
         for variant in variants:
+            # Forbidden word stays forbidden when its capitalization is changed
+            if is_forbidden(variant):
+                continue
+
             if affix_forms:
                 # ...we yield all possible affix forms
                 for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
@@ -382,6 +393,12 @@ class Lookup:
                                      allow_nosuggest=allow_nosuggest,
                                      **kwarg)
 
+        # Forbidden entries never make the word correct (even if they have homonyms that are not forbidden)
+        def allowed(homonyms):
+            if with_forbidden or not self.aff.FORBIDDENWORD:
+                return homonyms
+            return [homonym for homonym in homonyms if self.aff.FORBIDDENWORD not in homonym.flags]
+
         # ``produce_affix_forms`` produces ALL possible forms (split of the word into prefixes +
         # stem + suffixes) with the help of known prefixes and affixes. Now we need to choose only
         # correct ones.
@@ -400,9 +417,9 @@ class Lookup:
             if (not with_forbidden and self.aff.FORBIDDENWORD and
                     (compoundpos or form.has_affixes()) and
                     any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
-                return
+                continue
 
-            for homonym in homonyms:
+            for homonym in allowed(homonyms):
                 # Now, for each possible homonym of word's stem, we check it at is a "good form"
                 # (basically, stem's flags & suffixes flags allow to be combined to each other, and
                 # also allow to be in compound word, if that's the case).
@@ -414,7 +431,7 @@ class Lookup:
             # If it then might be required by compound end to be capitalized, we should find it EVEN
             # if the check is "without checking different capitalizations"
             if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
-                for homonym in self.dic.homonyms(form.stem.lower()):
+                for homonym in allowed(self.dic.homonyms(form.stem.lower())):
                     candidate = form.replace(in_dictionary=homonym)
                     if is_good_form(candidate):
                         found = True
@@ -433,7 +450,7 @@ class Lookup:
             # FIXME: If Casing.variants would return pairs ("word", captype) for all variants,
             # we wouldn't need to re-guess here:
             if self.aff.casing.guess(word) == CapType.NO:
-                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
+                for homonym in allowed(self.dic.homonyms(form.stem, ignorecase=True)):
                     candidate = form.replace(in_dictionary=homonym)
                     if is_good_form(candidate):
                         yield candidate
-- 
2.43.0


From 333da19d6aa2ef446ae3561169d41c875ab88332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:53 +0000
Subject: [PATCH 04/40] fix: index lowercase words in lowercase index as a
 whole

Each letter of a lowercase word was put in the index instead, so one-letter
uppercase words like "B" (and short ones that become such after removing an
affix) were considered correct when any word with this letter exists.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From b191070e4e18d62b0448c7a436eb728a88ea363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:59 +0000
Subject: [PATCH 05/40] fix: count compound parts properly for COMPOUNDWORDMAX

Compounds with one part more than allowed were accepted.
---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 92d41e8..66c5eb1 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -797,7 +797,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX - 1):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -879,7 +879,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX - 1):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From 7bb1068945b890cfc722710d0fecfe4b0a951c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:41 +0000
Subject: [PATCH 06/40] fix: treat flags in COMPOUNDRULE literally

Flags that are special characters of regular expressions broke the rule or
matched other flags, and sequences of numeric flags of different length could be
confused with each other.
---
 spylls/hunspell/data/aff.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c665127..aa6529a 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -310,13 +310,14 @@ class CompoundRule:
         # This works but is super ad-hoc!
         if '(' in self.text:
             self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            items = re.findall(r'\(([^*?]+?)\)([*?]?)', self.text)
         else:
             self.flags = set(re.sub(r'[\*\?]', '', self.text))
-            # There are ) flags used in real-life sv_* dictionaries
-            # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
-            # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            items = re.findall(r'([^*?])([*?]?)', self.text)
+
+        # Flags can be any chars, including those having special meaning in regexp; and each flag is
+        # followed by a comma, to not confuse flag sequences "1", "11" and "11", "1"
+        parts = [f'(?:{re.escape(flag)},){quantifier}' for flag, quantifier in items]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
@@ -326,14 +327,14 @@ class CompoundRule:
     def fullmatch(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.re.fullmatch(''.join(fc))
+            self.re.fullmatch(''.join(f'{flag},' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
     def partial_match(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.partial_re.fullmatch(''.join(fc))
+            self.partial_re.fullmatch(''.join(f'{flag},' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
-- 
2.43.0


From c32162ca06e4e8bde6f06d67df866dc712b6a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:57 +0000
Subject: [PATCH 07/40] fix: only treat three equal letters as a triple in
 CHECKCOMPOUNDTRIPLE

With a part of a single letter, two equal letters on the border were enough to
reject the compound.
---
 spylls/hunspell/algo/lookup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 66c5eb1..04e230a 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -940,8 +940,9 @@ class Lookup:
             if aff.CHECKCOMPOUNDTRIPLE:
                 # CHECKCOMPOUNDTRIPLE setting tells, that if there is triplificatioin of some letter
                 # on the bound of two parts (like "foobb" + "bar"), it is not correct compound word
-                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
-                    return True
+                for border in [left[-2:] + right[:1], left[-1:] + right[:2]]:
+                    if len(border) == 3 and len(set(border)) == 1:
+                        return True
 
             if aff.CHECKCOMPOUNDCASE:
                 # CHECKCOMPOUNDCASE prohibits capitalized letters on the bound of compound parts
-- 
2.43.0


From 6db747fe423b82e58dee12ded082c56fe471a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:48 +0000
Subject: [PATCH 08/40] fix: try every occurrence of BREAK pattern in the word

The regexp consumed the characters around the pattern, so an occurrence that
followed closely after another one was never considered: with "e-x" and "meat"
in the dictionary, "e-x-meat" was rejected.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index aa6529a..10aa81f 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -109,7 +109,7 @@ class BreakPattern:
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
-            self.regexp = re.compile(f".({pattern}).")
+            self.regexp = re.compile(f"(?<=.)(?=({pattern}).)")
 
 
 @dataclass
-- 
2.43.0


From f27eafed7baf586eff87c40bca3be788fb867387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:53 +0000
Subject: [PATCH 09/40] fix: treat ICONV and OCONV patterns as literal text

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 10aa81f..55bcf11 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -426,7 +426,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From 1c690f9193194e9dcb7cef053d0b9b4ba6fce48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:42 +0000
Subject: [PATCH 10/40] fix: check for forbidden words after conversion of the
 input

With ICONV or IGNORE, the unconverted word was compared with the forbidden
entries.
---
 spylls/hunspell/algo/lookup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 04e230a..a61623d 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -204,11 +204,6 @@ class Lookup:
         def is_correct(w):
             return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
 
-        # If there are entries in the dictionary matching the entire word, and all of those entries
-        # are marked with "forbidden" flag, this word can't be considered correct.
-        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
-            return False
-
         # Convert word before lookup with ICONV table: usually, it is normalization of apostrophes,
         # UTF chars with diacritics (which might have several different forms), and such.
         # See data.aff.ConvTable_ for the full algorithm (it is more complex than just replace one
@@ -221,6 +216,11 @@ class Lookup:
         if self.aff.IGNORE:
             word = word.translate(self.aff.IGNORE.tr)
 
+        # If there are entries in the dictionary matching the entire word, and all of those entries
+        # are marked with "forbidden" flag, this word can't be considered correct.
+        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
+            return False
+
         # Numbers are allowed and considered "good word" always
         # TODO: check in hunspell's code, if there are some exceptions?..
         if NUMBER_REGEXP.fullmatch(word):
-- 
2.43.0


From 2809672b32b6401c94ccb971272077e35edfb95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:06 +0000
Subject: [PATCH 11/40] fix: swap characters up to 4 places apart, as
 documented

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..1fb654b 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -102,7 +102,7 @@ def longswapchar(word: str) -> Iterator[str]:
     """
 
     for first in range(len(word) - 2):
-        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
+        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE + 1, len(word))):
             yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
 
 
-- 
2.43.0


From fe8d61d7c5d006ead3f51611303f2fd1e82a782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:06 +0000
Subject: [PATCH 12/40] fix: move characters to the end of the word, too

Moving forward stopped before the last position, so "rnai" did not give "nair".
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 1fb654b..5ad59c4 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -170,7 +170,7 @@ def movechar(word: str) -> Iterator[str]:
         return
 
     for frompos, char in enumerate(word):
-        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
+        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE) + 1):
             yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
 
     for frompos in reversed(range(len(word))):
-- 
2.43.0


From 21d2abac5af730b5fa947cfa858eb85768f4b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:06 +0000
Subject: [PATCH 13/40] fix: do not compare with the end of the word in
 doubletwochars

The first index wrapped around, producing candidates with two characters removed
that were not doubled.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 5ad59c4..e3eec8e 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From 2f9b91c0e44b0c3546b4b8a92b12ade96ad6476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:17:31 +0000
Subject: [PATCH 14/40] fix: do not spoil correct suggestions by changing their
 capitalization

Affixed forms of KEEPCASE words and parts of multi-word suggestions were
capitalized like the misspelling even when the result is not a correct word.
---
 spylls/hunspell/algo/suggest.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..62bd7db 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -190,6 +190,15 @@ class Suggest:
         def is_forbidden(word):
             return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD)
 
+        # Whether the correct text would become incorrect with changed capitalization: it might be
+        # an affixed form of the word with KEEPCASE flag, or one of several words might have this flag,
+        # or be forbidden with this capitalization.
+        def is_spoiled(text, recased):
+            def is_correct(text):
+                return all(self.lookup(part) for part in text.split(' '))
+
+            return is_correct(text) and not is_correct(recased)
+
         # This set will gather all good suggestions that were already returned (in order, for example,
         # to not return same suggestion twice)
         handled: Set[str] = set()
@@ -213,15 +222,17 @@ class Suggest:
                 # is "kitten" (how it is in the dictionary), and coercion (what we really want
                 # to return to user) is "Kitten"
                 text = self.aff.casing.coerce(text, captype)
-                # ...but if this particular capitalized form is forbidden, return back to original text
-                if text != suggestion.text and is_forbidden(text):
+                # ...but if this particular capitalized form is forbidden or incorrect, return back to original text
+                if text != suggestion.text and (is_forbidden(text) or is_spoiled(suggestion.text, text)):
                     text = suggestion.text
 
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
                     if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
-                        text = text[:pos+1] + word[pos] + text[pos+2:]
+                        recased = text[:pos+1] + word[pos] + text[pos+2:]
+                        if not is_spoiled(text, recased):
+                            text = recased
 
             # If the word is forbidden, nothing more to do
             if is_forbidden(text):
-- 
2.43.0


From 768fe2dd7b54e725871b70820486a3b0ab8b7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:32 +0000
Subject: [PATCH 15/40] fix: respect FORBIDDENWORD and NOSUGGEST in rule-based
 compounds

---
 spylls/hunspell/algo/lookup.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index a61623d..d00633b 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -841,7 +841,7 @@ class Lookup:
                            word_rest: str,
                            prev_parts: List[data.dic.Word] = [],
                            rules: Optional[List[data.aff.CompoundRule]] = None,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:  # pylint: disable=unused-argument
+                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
         """
         Different way of producing compound words: by rules, looking like ``A*BC?CD``, where A, B, C, D
         are flags the word might have, and ``*?`` have the same meaning as in regular expressions.
@@ -867,12 +867,17 @@ class Lookup:
             # We start with all known rules
             rules = self.aff.COMPOUNDRULE
 
-        # FIXME: ignores flags like FORBIDDENWORD and nosuggest
+        # The word can't be a part of the compound if any of its homonyms is forbidden
+        def homonyms(text):
+            found = self.dic.homonyms(text)
+            if aff.FORBIDDENWORD and any(aff.FORBIDDENWORD in homonym.flags for homonym in found):
+                return []
+            return [homonym for homonym in found if allow_nosuggest or aff.NOSUGGEST not in homonym.flags]
 
         # If it is middle of compounding process "the rest of the word is the whole last part" is always
         # possible
         if prev_parts:
-            for homonym in self.dic.homonyms(word_rest):
+            for homonym in homonyms(word_rest):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 if any(r.fullmatch(flag_sets) for r in rules):
@@ -884,12 +889,13 @@ class Lookup:
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
             beg = word_rest[0:pos]
-            for homonym in self.dic.homonyms(beg):
+            for homonym in homonyms(beg):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                 if compoundrules:
-                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts):
+                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
+                                                        allow_nosuggest=allow_nosuggest):
                         yield CompoundForm([AffixForm(beg, beg), *rest.parts])
 
     def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
-- 
2.43.0


From 7c804407d01ef1df359f4bef81e2fd375bdb46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:03 +0000
Subject: [PATCH 16/40] fix: do not suggest words with forbidden homonyms in
 other capitalizations

---
 spylls/hunspell/algo/suggest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 62bd7db..3070caf 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -234,8 +234,8 @@ class Suggest:
                         if not is_spoiled(text, recased):
                             text = recased
 
-            # If the word is forbidden, nothing more to do
-            if is_forbidden(text):
+            # If the word is forbidden (in any of capitalizations), nothing more to do
+            if is_forbidden(text) or is_forbidden(suggestion.text):
                 return
 
             # Finally, OCONV table in .aff-file might specify what chars to replace in suggestions
-- 
2.43.0


From b1073e2f041f765fec94cda7f353af475b9b0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:33:27 +0000
Subject: [PATCH 17/40] fix: treat suggestions for words with dashes like all
 the others

They might have been repeated, be forbidden, or have NOSUGGEST flag.
---
 spylls/hunspell/algo/suggest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 3070caf..3e85fff 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -345,7 +345,10 @@ class Suggest:
                         # are ambiguities how to split: if we are fixing "quas-Afro-American"->"quasi-Afro-American",
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
-                        if self.lookup(candidate):
+                        # As with all other suggestions, they shouldn't be repeated, forbidden or NOSUGGEST.
+                        if (candidate not in handled and not is_forbidden(candidate) and
+                                self.lookup(candidate, allow_nosuggest=False)):
+                            handled.add(candidate)
                             yield Suggestion(candidate, 'dashes')
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
-- 
2.43.0


From ab70c91b7fb54925e26d9e51fa56913272523888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:35:13 +0000
Subject: [PATCH 18/40] fix: do not exceed the limits for edit suggestions

One suggestion more than the limit was produced, in particular one compound
with MAXCPDSUGS 0.
---
 spylls/hunspell/algo/suggest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 3e85fff..75818fd 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -404,6 +404,9 @@ class Suggest:
         count = 0
 
         for suggestion in filter_suggestions(self.edits(word)):
+            if count >= limit:
+                return
+
             # Then, for each of those correct suggestions,
             # we run them through handle_found (which performs some final transformations and
             # checks, and may handle 1 or 0 suggestions; 0 in the case it was already seen or
@@ -412,9 +415,6 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
-                    return
-
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
         """
         Produces all possible word edits in a form of :class:`Suggestion` or :class:`MultiWordSuggestion`.
-- 
2.43.0


From 7e0842e784883645b2b7dc92e3382b2ae3403320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:37:21 +0000
Subject: [PATCH 19/40] fix: apply OCONV to suggestions with dashes after
 checking them

Suggestions for a part of the word were converted before the whole word was
checked (so it was usually considered wrong), while the rest of the word was
not converted at all.
---
 spylls/hunspell/algo/suggest.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 75818fd..b45d728 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -158,7 +158,7 @@ class Suggest:
         """
         yield from (suggestion.text for suggestion in self.suggestions(word))
 
-    def suggestions(self, word: str) -> Iterator[Suggestion]:  # pylint: disable=too-many-statements
+    def suggestions(self, word: str, convert: bool = True) -> Iterator[Suggestion]:  # pylint: disable=too-many-statements
         """
         Main suggestion search loop. What it does, in general, is:
 
@@ -174,6 +174,7 @@ class Suggest:
 
         Args:
             word: Word to check
+            convert: Whether to apply ``OCONV`` to the suggestions
         """
 
         # Whether some suggestion (permutation of the word) is an existing and allowed word,
@@ -240,7 +241,7 @@ class Suggest:
 
             # Finally, OCONV table in .aff-file might specify what chars to replace in suggestions
             # (for example, "'" to proper typographic "’", or common digraphs)
-            text = self.aff.OCONV(text) if self.aff.OCONV else text
+            text = self.aff.OCONV(text) if self.aff.OCONV and convert else text
 
             # If we already seen this suggestion, nothing to do
             # Note that this should happen AFTER the OCONV: it sometimes changes the content significantly.
@@ -337,19 +338,17 @@ class Suggest:
                 # If this chunk of the word is misspelled...
                 if not is_good_suggestion(chunk):
                     # ...try all suggestions for this separate chunk
-                    for sug in self(chunk):
-                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
+                    # (OCONV should be applied only after the whole word was checked)
+                    for sug in self.suggestions(chunk, convert=False):
+                        candidate = '-'.join([*chunks[:idx], sug.text, *chunks[idx+1:]])
                         # And check if the whole word with this chunk replaced is a good word. Note that
                         # we use lookup's main method here, which will also break it into words by
                         # dashes. It is done (instead of just checking chunk-by-chunk), because there
                         # are ambiguities how to split: if we are fixing "quas-Afro-American"->"quasi-Afro-American",
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
-                        # As with all other suggestions, they shouldn't be repeated, forbidden or NOSUGGEST.
-                        if (candidate not in handled and not is_forbidden(candidate) and
-                                self.lookup(candidate, allow_nosuggest=False)):
-                            handled.add(candidate)
-                            yield Suggestion(candidate, 'dashes')
+                        if self.lookup(candidate, allow_nosuggest=False):
+                            yield from handle_found(Suggestion(candidate, 'dashes'))
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
                     break
-- 
2.43.0


From 9debb50250794c7b9f7db2b13d32d3d27c252466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:09:57 +0000
Subject: [PATCH 20/40] fix: allow priority right after letters in PHONE rules

The digit was read as one more letter of the rule ("GG9"), so it never matched.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 55bcf11..e61981b 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -477,7 +477,7 @@ class PhonetTable:
     table: List[Tuple[str, str]]
 
     RULE_PATTERN = re.compile(
-        r'(?P<letters>\w+)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?'
+        r'(?P<letters>\w+?)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?'
     )
 
     @dataclass
-- 
2.43.0


From ac41d529cb71b21c5e32ca0f274177070a3eaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:11:46 +0000
Subject: [PATCH 21/40] fix: split dictionary word and flags by the first slash
 only

When flags contained one more slash, the whole line was considered a word.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..13e6e61 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -65,7 +65,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
         if word.startswith('/'):
             flags = ''
         else:
-            word_with_flags = SLASH_REGEXP.split(word, 2)
+            word_with_flags = SLASH_REGEXP.split(word, 1)
             if len(word_with_flags) == 2:
                 word, flags = word_with_flags
             else:
-- 
2.43.0


From 47dbf9abdc3c582fa116bc18b9aac16c2f9d39db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:46 +0000
Subject: [PATCH 22/40] fix: do not look for a singular flag among flag set
 aliases

Dictionary with AF table and numeric flags (or short flags being digits) in
directives could not be loaded.
---
 spylls/hunspell/readers/aff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..a003c15 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -55,9 +55,9 @@ class Context:
 
     def parse_flag(self, string: str) -> str:
         """
-        Parse singular flag, considering attr:`flag_format`.
+        Parse singular flag, considering attr:`flag_format` (synonyms are only for sets of flags).
         """
-        return list(self.parse_flags(string))[0]
+        return list(self._split_flags(string))[0]
 
     def parse_flags(self, string: str) -> Iterable[str]:
         """
@@ -70,6 +70,9 @@ class Context:
         if self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
+        return self._split_flags(string)
+
+    def _split_flags(self, string: str) -> Iterable[str]:
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
         if self.flag_format == 'short':
             return string
-- 
2.43.0


From 9a7f15fa188e6c73a5802d20381dad71fcbc6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:21:09 +0000
Subject: [PATCH 23/40] fix: drop a byte-order mark also from files read as
 UTF-8, and only at the start

---
 spylls/hunspell/readers/file_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..352fe62 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -44,8 +44,12 @@ class BaseReader:
         ln = self.io.readline()
         while ln != '':
             self.line_no += 1
-            if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
-                ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1:
+                # In a single-byte encoding BOM is seen as three characters
+                for bom in ("\ufeff", "\xef\xbb\xbf"):
+                    if ln.startswith(bom):
+                        ln = ln[len(bom):]
+                        break
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From b69306d78f400fe9816cdd4afacb25442396d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:23:46 +0000
Subject: [PATCH 24/40] fix: read the text of REP patterns literally, except
 for anchors

---
 spylls/hunspell/data/aff.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index e61981b..6140438 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,11 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        # Only "^" at the beginning and "$" at the end are special, the rest is literal text
+        start = '^' if self.pattern.startswith('^') else ''
+        end = '$' if self.pattern.endswith('$') else ''
+        text = self.pattern[len(start):len(self.pattern) - len(end)]
+        self.regexp = re.compile(start + re.escape(text) + end)
 
 
 @dataclass
-- 
2.43.0


From 37fc4e11cb0fac57796b55fb9f96a10d5ff1b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:24:16 +0000
Subject: [PATCH 25/40] fix: apply REP replacements to overlapping occurrences,
 too

---
 spylls/hunspell/algo/permutations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index e3eec8e..b023a5a 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -24,7 +24,8 @@ def replchars(word: str, reptable: List[aff.RepPattern]) -> Iterator[Union[str,
 
     for pattern in reptable:
         # TODO: compiled at aff loading
-        for match in pattern.regexp.finditer(word):
+        # (each position is tried, because the occurrences might overlap)
+        for match in filter(None, (pattern.regexp.match(word, pos) for pos in range(len(word) + 1))):
             suggestion = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]
             yield suggestion
             if ' ' in suggestion:
-- 
2.43.0


From 20b67a6e1e353ff8f3ea4c694f3d7ed9f20d4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:24:42 +0000
Subject: [PATCH 26/40] fix: suggest REP phrases of more than three words

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index b023a5a..bb12953 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -29,7 +29,7 @@ def replchars(word: str, reptable: List[aff.RepPattern]) -> Iterator[Union[str,
             suggestion = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]
             yield suggestion
             if ' ' in suggestion:
-                yield suggestion.split(' ', 2)
+                yield suggestion.split(' ')
 
 
 def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
-- 
2.43.0


From c7456f84028213d62eb6ea1408ef126cb646082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:39:48 +0000
Subject: [PATCH 27/40] fix: do not replace inside of just replaced text by MAP

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index bb12953..301fc7f 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -71,7 +71,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From 56c0ea4f7b1fa09ce2f1c868e37b9eca5fa2e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:55 +0000
Subject: [PATCH 28/40] fix: German casing of words that can not be lowercased

---
 spylls/hunspell/algo/capitalization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..555ae88 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -200,12 +200,13 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        # Might be empty: not every word can be lowercased
+        lowered = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [*(variant for text in lowered for variant in sharp_s_variants(text)), *lowered]
 
-        return [lowered]
+        return lowered
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From 33e1a7f9dce3f598dbdbdcea0e8466b921f8dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:47 +0000
Subject: [PATCH 29/40] fix: error on suggesting several words for a short
 mixed-case word

---
 spylls/hunspell/algo/suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index b45d728..3a45e64 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -230,7 +230,7 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    if pos < len(word) and text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
                         recased = text[:pos+1] + word[pos] + text[pos+2:]
                         if not is_spoiled(text, recased):
                             text = recased
-- 
2.43.0


From 43ddc0dcb2487dae398e364466a7fccdc255d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:54:07 +0000
Subject: [PATCH 30/40] fix: read the text of affix conditions literally,
 except for dots and brackets

---
 spylls/hunspell/data/aff.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 6140438..8a752e4 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -229,6 +229,11 @@ class Affix:
     flags: Set[str] = field(default_factory=set)
 
 
+def _escape_condition(condition: str) -> str:
+    # Only "." and "[abc]"/"[^abc]" are special in conditions
+    return re.sub(r'[^.^\[\]]+', lambda match: re.escape(match.group()), condition)
+
+
 @dataclass
 class Prefix(Affix):
     """
@@ -237,7 +242,7 @@ class Prefix(Affix):
 
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
+        self.cond_regexp = re.compile('^' + _escape_condition(self.condition))
         self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
@@ -256,7 +261,7 @@ class Suffix(Affix):
 
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
+        self.cond_regexp = re.compile(_escape_condition(self.condition) + '$')
         self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
-- 
2.43.0


From 37c4ee0b7bac8bbec2eef71a705d8160a4e203da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:41 +0000
Subject: [PATCH 31/40] fix: from_system removed ".aff" inside the dictionary
 name as well

The extension was stripped with str.replace, so a dictionary called
x.affy was looked up at .../xy and reported as a missing file.
---
 spylls/hunspell/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 6e656f7..b440c0b 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -177,7 +177,7 @@ class Dictionary:
         for folder in cls.PATHES:
             pathes = glob.glob(f'{folder}/{name}.aff')
             if pathes:
-                return cls.from_files(pathes[0].replace('.aff', ''))
+                return cls.from_files(pathes[0][:-len('.aff')])
 
         raise LookupError(f'{name}.aff not found (search pathes are {cls.PATHES!r})')
 
-- 
2.43.0


From 64193d5b6ba88b6d55ba6138045a5596b4c5bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:38:47 +0000
Subject: [PATCH 32/40] fix: pattern 0 of CHECKCOMPOUNDPATTERN means an
 unmodified stem

---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8a752e4..f955fa1 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -396,8 +396,8 @@ class CompoundPattern:
 
     def match(self, left, right):
         return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \
-               (not self.left_no_affix or not left.is_base()) and \
-               (not self.right_no_affix or not right.is_base()) and \
+               (not self.left_no_affix or left.text == left.stem) and \
+               (not self.right_no_affix or right.text == right.stem) and \
                (not self.left_flag or self.left_flag in left.flags()) and \
                (not self.right_flag or self.right_flag in right.flags())
 
-- 
2.43.0


From 9bcf5e03b65ba038f04cc235552fcf1338d2e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:39:03 +0000
Subject: [PATCH 33/40] fix: CHECKCOMPOUNDPATTERN compared dictionary stems
 instead of the parts of the compound

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index f955fa1..a0bfe59 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -395,7 +395,7 @@ class CompoundPattern:
             self.right_no_affix = False
 
     def match(self, left, right):
-        return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \
+        return (left.text.endswith(self.left_stem)) and (right.text.startswith(self.right_stem)) and \
                (not self.left_no_affix or left.text == left.stem) and \
                (not self.right_no_affix or right.text == right.stem) and \
                (not self.left_flag or self.left_flag in left.flags()) and \
-- 
2.43.0


From 118d8adf9a6e74eef6c2d58f6d259fd678f1c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:03:46 +0000
Subject: [PATCH 34/40] fix: numbers were not accepted as parts of words with
 break points

---
 spylls/hunspell/algo/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index d00633b..a99b13a 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -204,6 +204,10 @@ class Lookup:
         def is_correct(w):
             return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
 
+        def is_number(w):
+            return NUMBER_REGEXP.fullmatch(w) and \
+                not (self.aff.FORBIDDENWORD and self.dic.has_flag(w, self.aff.FORBIDDENWORD, for_all=True))
+
         # Convert word before lookup with ICONV table: usually, it is normalization of apostrophes,
         # UTF chars with diacritics (which might have several different forms), and such.
         # See data.aff.ConvTable_ for the full algorithm (it is more complex than just replace one
@@ -231,7 +235,7 @@ class Lookup:
         # correct, the loop will return early.
         for parts in self.break_word(word):
             # If all parts in this variant of the breaking is correct, the whole word considered correct.
-            if all(is_correct(part) for part in parts if part):
+            if all(is_correct(part) or is_number(part) for part in parts if part):
                 return True
 
         return False
-- 
2.43.0


From af71c32b133e2ce9c3203d4f6f1d8b0fcdb445a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:03:49 +0000
Subject: [PATCH 35/40] fix: correct parts of a hyphenated word were taken for
 misspelled because of their letter case

---
 spylls/hunspell/algo/suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 3a45e64..6041c92 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -336,7 +336,7 @@ class Suggest:
             chunks = word.split('-')
             for idx, chunk in enumerate(chunks):
                 # If this chunk of the word is misspelled...
-                if not is_good_suggestion(chunk):
+                if not self.lookup(chunk, allow_nosuggest=False):
                     # ...try all suggestions for this separate chunk
                     # (OCONV should be applied only after the whole word was checked)
                     for sug in self.suggestions(chunk, convert=False):
-- 
2.43.0


From c2d9aaf4f8cf20b3a3ee00510554c70e2829b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:35:42 +0000
Subject: [PATCH 36/40] fix: suggestions recased into a NOSUGGEST word

With "ab/K" (KEEPCASE) and "AB/N" (NOSUGGEST) in the dictionary, "ab"
was turned into "AB" for a misspelling in capitals, because the check
of the recased text accepted words which are not to be suggested.
---
 spylls/hunspell/algo/suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 6041c92..8730bb0 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -196,7 +196,7 @@ class Suggest:
         # or be forbidden with this capitalization.
         def is_spoiled(text, recased):
             def is_correct(text):
-                return all(self.lookup(part) for part in text.split(' '))
+                return all(self.lookup(part, allow_nosuggest=False) for part in text.split(' '))
 
             return is_correct(text) and not is_correct(recased)
 
-- 
2.43.0


From 69d62e47a34ab86bb710c8119b89fd68f4af86ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:44 +0000
Subject: [PATCH 37/40] =?UTF-8?q?fix:=20capitalizing=20a=20single=20=C3=9F?=
 =?UTF-8?q?=20gave=20the=20letters=20of=20SS=20one=20by=20one?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index 555ae88..d32e89e 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -84,7 +84,7 @@ class Casing:
             word:
         """
         if len(word) == 1:
-            return iter(self.upper(word[0]))
+            return iter([self.upper(word[0])])
         else:
             return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
 
-- 
2.43.0


From 53b81eb4a713670b4495192979f7d591c5c90839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:33 +0000
Subject: [PATCH 38/40] fix: outer prefix was lost when a form had two prefixes
 and a suffix

With COMPLEXPREFIXES the second prefix was dropped from the form once a suffix
was found, so that its NEEDAFFIX flag (or absence of it) was not considered.
---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index a99b13a..4dc1012 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -554,7 +554,7 @@ class Lookup:
                 # AND suffix split out
                 if suffix_allowed and form.prefix and form.prefix.crossproduct:
                     yield from (
-                        form2.replace(text=form.text, prefix=form.prefix)
+                        form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
                                                    required_flags=suffix_flags,
                                                    forbidden_flags=forbidden_flags,
-- 
2.43.0


From e8e1f9369861b4c52377862ebf940a81dc051004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:33 +0000
Subject: [PATCH 39/40] fix: suffix was combined with an outer prefix that is
 not cross-product

With COMPLEXPREFIXES only the inner of two prefixes was asked whether it may be
combined with suffixes.
---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 4dc1012..697172e 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -552,7 +552,7 @@ class Lookup:
 
                 # ...and, IF this prefix allowed to be combined with suffixes, also with prefix
                 # AND suffix split out
-                if suffix_allowed and form.prefix and form.prefix.crossproduct:
+                if suffix_allowed and all(prefix.crossproduct for prefix in form.all_affixes()):
                     yield from (
                         form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
-- 
2.43.0


From 04092e1050eb021412a68df9b40a561b21bf80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:33 +0000
Subject: [PATCH 40/40] fix: two suffixes were accepted with COMPLEXPREFIXES

COMPLEXPREFIXES stands for two prefixes and a single suffix.
---
 spylls/hunspell/algo/lookup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 697172e..07bb5f4 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -606,8 +606,9 @@ class Lookup:
 
             yield AffixForm(word, stem, suffix=suffix)
 
-            # Try to remove one more suffix, only one level depth
-            if not nested:
+            # Try to remove one more suffix, only one level depth (and not with ``COMPLEXPREFIXES``, which
+            # allows second prefix *instead* of second suffix)
+            if not nested and not self.aff.COMPLEXPREFIXES:
                 for form2 in self.desuffix(stem,
                                            required_flags=[suffix.flag, *required_flags],
                                            forbidden_flags=forbidden_flags,
-- 
2.43.0


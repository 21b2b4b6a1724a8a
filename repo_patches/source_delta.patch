From d13d2b29bc605ce2de2d5c75b828bde87e2cea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:46 +0000
Subject: [PATCH 01/36] fix: BibleVerse.subtract honours the flags argument in
 every chapter it crosses

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..03da161 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -527,7 +527,7 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
             bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-- 
2.43.0


From a1559504fab1ee46d0974b9e9eacf95c79e698b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:52 +0000
Subject: [PATCH 02/36] fix: BibleBook.first_verse returns verse 0 when only
 the flags argument allows it

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 03da161..fb1591a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -194,7 +194,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From 2e6304e397b50956fee150580c94551e05c093bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 03/36] fix: verse_count, chap_count and book_count of a range
 honour the flags argument

---
 src/bibleref/ref.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fb1591a..2f4fda7 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -817,7 +817,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -829,12 +829,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -843,12 +843,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 709182fc7ce9f47c55b8486a7078072d4d37029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:29 +0000
Subject: [PATCH 04/36] fix: BibleVerse.subtract honours the flags argument
 when given another verse

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2f4fda7..8997b5b 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -530,8 +530,8 @@ class BibleVerse:
                 min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            bible_range = BibleRange(start=self, end=other, flags=flags) # Bible will swap start and end as necessary
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
-- 
2.43.0


From 8973e78b4d3d64db677a5da972948f8ce95c4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 05/36] fix: an explicit BibleFlag.NONE argument overrides the
 global flags

---
 src/bibleref/parser.py |  2 +-
 src/bibleref/ref.py    | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..7d73038 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -52,7 +52,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or ref.BibleFlag.NONE
         _transformer().flags = flags
         range_groups_list = _transformer().transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8997b5b..d356edc 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -176,7 +176,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +470,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +507,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +609,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +661,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +857,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +866,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +881,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1229,7 +1229,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1316,7 +1316,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
@@ -1329,7 +1329,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
-- 
2.43.0


From 168efff4d74f38ae4575ec17c34d7e966e135f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 06/36] fix: iterating over a range yields its verse 0s when
 VERSE_0 is set

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index d356edc..8c61510 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1102,10 +1102,13 @@ class BibleRange:
             return union[0].difference(intersection[0])
 
     def __iter__(self):
+        flags = (bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From a33eb722b4ddab657863dc231faa329eab546a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:19 +0000
Subject: [PATCH 07/36] fix: BibleRange.is_adjacent honours the flags argument
 when given a list

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8c61510..0c4836a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -955,7 +955,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From 3004d69ec97482860f9ec899ec95d690b47ee646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 08/36] fix: union and intersection of existing multi-book
 ranges work when MULTIBOOK is unset

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 0c4836a..245daeb 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1021,7 +1021,7 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1045,7 +1045,7 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From c2c42d320a84ae9ecf0cf84e6275dbd106e08802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 09/36] fix: BibleRange.difference at the edges of a book or
 the Bible, and with a flags argument

---
 src/bibleref/ref.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 245daeb..e113dcc 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1068,14 +1068,20 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
+        # Set flags if our attributes imply they should be set
+        if self.start.book != self.end.book:
+            flags |= BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0
+
+        # Only calculate the sections that exist: other_ref might begin or end at the edge of a book or the Bible
+        sections = []
+        if self.start < other_ref.start:
+            sections.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if self.end > other_ref.end:
+            sections.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return BibleRangeList(sections, flags=BibleFlag.ALL)
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
-- 
2.43.0


From 8f5c4c9455a8b2fb74e8401e4f09e423c6c61a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:32 +0000
Subject: [PATCH 10/36] fix: BibleRange.sym_difference honours the flags
 argument for overlapping ranges

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index e113dcc..2702f6b 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1105,7 +1105,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         flags = (bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
-- 
2.43.0


From 80fd3d4d98d8f65c7c6f159d37ed18d91b2640f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:36 +0000
Subject: [PATCH 11/36] fix: the difference and symmetric difference of a range
 and a list work like those of ranges

---
 src/bibleref/ref.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2702f6b..8a9ec57 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1060,6 +1060,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1093,6 +1096,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).sym_difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From 5afd58ea30eb71ec355fb0399d0825616b6fe6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:14 +0000
Subject: [PATCH 12/36] fix: BibleRangeList.difference_update removes fully
 covered ranges and honours the flags argument

---
 src/bibleref/ref.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8a9ec57..f3e611d 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1496,28 +1496,14 @@ class BibleRangeList(util.GroupedList):
         #   (A0 ∪ A1) \ (B0 ∪ B1) = [(A0 \ B0) \ B1] ∪ [(A1 \ B0) \ B1]
         # So the difference of two BibleRefLists is a new list of the cumulative difference of each
         # item in the second list from each item in the first list.
-        #
-        # What's a little difficult is that the difference of two items can itself result in a list
-        # (of two items). As a result, it's easiest to calculate the difference in-place.
-        #
-        # In-place set difference requires us to make many updates to this list during iteration,
-        # beyond what a for-loop can cope with. Therefore we use a while loop.
-        self_node = self._first
-        while self_node is not None:
-            for other_range in other_ref:
-                self_range = self_node.value
-                item_difference_list = self_range.difference(other_range, flags=flags)
-                if len(item_difference_list) > 0:
-                    # This item_difference_list now should replace self_node, and self_node
-                    # changed to point to the first of the result items. The easiest
-                    # way to do this is to insert the result items starting from the end:
-                    old_self_node = self_node
-                    for difference_range in reversed(item_difference_list):
-                        self._insert_before(self_node, difference_range)
-                        self_node = self_node.prev
-                    self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge()
+        difference_ranges = list(self)
+        for other_range in other_ref:
+            # The difference of two items can result in a list of zero, one or two items
+            difference_ranges = [difference_range for self_range in difference_ranges
+                                 for difference_range in self_range.difference(other_range, flags=flags)]
+        self.clear()
+        self.extend(difference_ranges)
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From 9434e1be7efacbeba136807fd5ea5908df23b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 13/36] fix: the in-place set operators of BibleRangeList keep
 the list

---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index f3e611d..c313600 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1551,16 +1551,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From a883c393a59a138e915bd6956115229df7e336b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:20 +0000
Subject: [PATCH 14/36] fix: extending a GroupedList with itself terminates

---
 src/bibleref/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..5b759f3 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -482,12 +482,16 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
+        if iterable is self:
+            iterable = list(iterable) # Don't iterate over the list while it grows
         for item in iterable:
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
+        if iterable is self:
+            iterable = list(iterable) # Don't iterate over the list while it grows
         for item in iterable:
             self.append(item)
 
-- 
2.43.0


From 59848efc53d3a95018f0c12d539fca1f549d45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:16 +0000
Subject: [PATCH 15/36] fix: range, chap_range and book_range of a list reach
 the end of every range

---
 src/bibleref/ref.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index c313600..94a64db 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1321,9 +1321,9 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        min_start: BibleVerse = min(bible_range.start for bible_range in self)
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_start, end=max_end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1333,9 +1333,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
+        min_start: BibleVerse = min(bible_range.start for bible_range in self)
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_start.first_verse(flags=flags), end=max_end.last_verse(),
                           flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
@@ -1346,9 +1346,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
+        min_start: BibleVerse = min(bible_range.start for bible_range in self)
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_start.book.first_verse(flags=flags), end=max_end.book.last_verse(),
                           flags=flags)
 
     def sort(self, regroup: bool = True):
-- 
2.43.0


From d2107cc4c5527e8d4226c783b0404e2f2b0950fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 16/36] fix: BibleRange.str honours the flags argument
 throughout

---
 src/bibleref/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 94a64db..e4b8ba5 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1156,11 +1156,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
-- 
2.43.0


From 34b35d8452438ad4b3e71a50930c06420cf5f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:48 +0000
Subject: [PATCH 17/36] fix: book titles without their spaces are recognised

---
 src/bibleref/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..dc4bbcb 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -158,8 +158,8 @@ class BibleData:
                     full_title_pattern += "(" + char
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
-                # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                # Allow for variable whitespace.
+                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
-- 
2.43.0


From b1793c31d1ea71eb1f573130dd02ff91faee6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:39 +0000
Subject: [PATCH 18/36] fix: BibleRangeList.str honours the flags argument when
 start verses are forced

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index e4b8ba5..8be8b05 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1743,7 +1743,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 7b9c32d73286d0b3ccc7f7baa6c528fd67b39885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:53 +0000
Subject: [PATCH 19/36] fix: BibleVerse.max_verse_num defaults to the verse's
 own chapter

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8be8b05..7f6ebea 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -394,7 +394,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From cf467a388a8ba7fbea8375fa136f157afe4189e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:24 +0000
Subject: [PATCH 20/36] fix: refuse list indices that are too far below zero

An index below -len(list) was taken as the first element, by indexing,
setting, deleting and popping (also by pop() on an empty list).
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 5b759f3..f01189d 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
@@ -498,7 +498,7 @@ class GroupedList(MutableSequence):
     def insert(self, index: int, value):
         '''Inserts `value` into this list at the given `index`.'''
         self._check_type(value)
-        if index == 0:
+        if index == 0 or index < -self._node_count:
             self.prepend(value)
         elif index == self._node_count:
             self.append(value)
-- 
2.43.0


From 051f85f6024b0238e8ea4300d3c9e58a040c3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:37 +0000
Subject: [PATCH 21/36] fix: refuse group indices that are too far below zero

groups[-len(groups)-1] gave the first group, and groups[-1] of an empty
list a view of nothing.
---
 src/bibleref/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index f01189d..a5d1e04 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
-- 
2.43.0


From 4b06590ff5fab00b9833c2cbdd4140ea00f100cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:03 +0000
Subject: [PATCH 22/36] fix: inserting a group where one already starts changes
 nothing

insert_group_at() at the first item of a group counted the group twice
and linked it to itself.
---
 src/bibleref/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index a5d1e04..1a8e424 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -318,7 +318,7 @@ class GroupedList(MutableSequence):
             self._first_head = node
 
     def _insert_new_group_at_node(self, node: 'GroupedList._Node'):
-        if node is self._first:
+        if node is self._first or node.is_group_head:
             # First node is always already a group.
             return
         node.is_group_head = True
-- 
2.43.0


From 49bcad61e9f20dfcc3269b187d845ec546c97a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:08 +0000
Subject: [PATCH 23/36] fix: a list compared with something that has no length
 is unequal

list == None raised a TypeError.
---
 src/bibleref/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 1a8e424..92d3081 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -646,6 +646,8 @@ class GroupedList(MutableSequence):
             node = node.next
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, GroupedList):
+            return NotImplemented
         return self.equals(other)
 
     def equals(self, other_iterable, compare_groups=True) -> bool:
-- 
2.43.0


From 391179ad9302983edfcb962ad805f7252fa5c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:37 +0000
Subject: [PATCH 24/36] fix: index() with limits at the ends of the list

A limit of 0 was taken as no limit, and a minimum index of len(list), or
any search of an empty list, raised an IndexError instead of the
ValueError for a value that is not found.
---
 src/bibleref/util.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 92d3081..4f19419 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -431,13 +431,8 @@ class GroupedList(MutableSequence):
     def index(self, value, min_index: int = None, limit_index: int =None):
         '''Returns the index of the first occurrence of `value` in the list, at or after `min_index`
         and before `limit_index`.'''
-        if min_index is None:
-            min_index = 0
-        if limit_index is None:
-            limit_index = self._node_count
         self._check_type(value)
-        min_index = self._conform_index(min_index)
-        limit_index = self._conform_index(limit_index-1) + 1
+        (min_index, limit_index, _) = slice(min_index, limit_index).indices(self._node_count)
         if min_index > limit_index: # Swap
             (limit_index, min_index) = (min_index, limit_index)
         node: GroupedList._Node = self._first
-- 
2.43.0


From 730189cea6054eeb3cba03b8f452ae376bd621f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:41 +0000
Subject: [PATCH 25/36] fix: clearing a list invalidates the views of its
 groups

A GroupView taken before clear() went on showing the removed items, and
deleting one of them through it corrupted the list's length.
---
 src/bibleref/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 4f19419..8319bce 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -190,6 +190,7 @@ class GroupedList(MutableSequence):
         
         If the items of `iterable` are Python lists or tuples, each element of `iterable` is added as a
         separate group.'''
+        self._first: GroupedList._Node = None
         self.clear()
         if iterable is None:
             return
@@ -525,6 +526,10 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        for node in self._node_iter():
+            # Existing views of the groups are no longer valid
+            node.clear_group_head()
+            node.parent = None
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From 3fd6ae4e88b82077b9eadc44d8cae6cb20e3d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:54 +0000
Subject: [PATCH 26/36] fix: extending a list by its own last group ends

extend() with a view of the list's last group never ended, as the group
grew while it was iterated over.
---
 src/bibleref/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 8319bce..0f4f5b6 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -486,9 +486,7 @@ class GroupedList(MutableSequence):
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        if iterable is self:
-            iterable = list(iterable) # Don't iterate over the list while it grows
-        for item in iterable:
+        for item in list(iterable): # Copied, so as not to iterate over this list or a group of it while it grows
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From a57bc0b62592a633868847297eb7957930a10c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:00 +0000
Subject: [PATCH 27/36] fix: sort long lists

Merging recursed once per item, so that sorting, merging or combining
lists of about a thousand ranges (the Bible has more chapters than that)
raised a RecursionError.
---
 src/bibleref/util.py | 47 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 0f4f5b6..687a5d8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -610,25 +610,34 @@ class GroupedList(MutableSequence):
                               first_node_B: 'GroupedList._Node', last_node_B: 'GroupedList._Node'):
         '''Combines two sublists (A and B) into a single sorted list. Returns a tuple of
         (new_first_node, new_last_node)'''
-        if first_node_A is None:
-            return (first_node_B, last_node_B)
-        if first_node_B is None:
-            return (first_node_A, last_node_A)
-        
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+        new_first_node = None
+        new_last_node = None
+        while first_node_A is not None and first_node_B is not None:
+            if first_node_A <= first_node_B: # Nodes compare using their values
+                node = first_node_A
+                first_node_A = node.next
+            else: # first_node_B is less than first_node_A
+                node = first_node_B
+                first_node_B = node.next
+            node.prev = new_last_node
+            if new_last_node is None:
+                new_first_node = node
+            else:
+                new_last_node.next = node
+            new_last_node = node
+
+        # At most one of the sublists still has nodes, which all follow the merged ones
+        if first_node_A is not None:
+            (rest_first_node, rest_last_node) = (first_node_A, last_node_A)
+        else:
+            (rest_first_node, rest_last_node) = (first_node_B, last_node_B)
+        if new_last_node is None:
+            return (rest_first_node, rest_last_node)
+        if rest_first_node is None:
+            return (new_first_node, new_last_node)
+        new_last_node.next = rest_first_node
+        rest_first_node.prev = new_last_node
+        return (new_first_node, rest_last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From 0f01873f59d448f115b52c07fee2426b42e98038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:35 +0000
Subject: [PATCH 28/36] fix: parse each string on its own

The implied book and chapter were kept from one string to the next, so
that BibleRange('3') gave a chapter of whatever book was parsed last
instead of raising an error.
---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 7d73038..8b2ddb2 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = (bibleref.flags if flags is None else flags) or ref.BibleFlag.NONE
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # A new transformer each time, as it tracks the implied book and chapter of the string
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From a7d45991c4a5410185ab75b9f71c40a2abb64ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:13 +0000
Subject: [PATCH 29/36] fix: position of the parsing error for a string that
 ends too early

The error for a string such as 'Mark 3:' pointed at -1.
---
 src/bibleref/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 8b2ddb2..15b9453 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -1,7 +1,7 @@
 '''Submodule for parsing strings into Bible references. The contents of this submodule should be considered an
 implementation detail and not relied upon.
 '''
-from lark import Lark, UnexpectedInput
+from lark import Lark, UnexpectedInput, UnexpectedEOF
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
@@ -32,6 +32,10 @@ def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
         tree = _parser().parse(string)
+    except UnexpectedEOF as orig:
+        new_error = ref.BibleRefParsingError("Unexpected end of text", len(string), len(string))
+        new_error.orig = orig
+        raise new_error
     except UnexpectedInput as orig:
         start_pos=orig.pos_in_stream
         end_pos=orig.pos_in_stream + 1
-- 
2.43.0


From 2d2cf530c84a81c053af29d521d00cad30581179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:47 +0000
Subject: [PATCH 30/36] fix: regroup honours the flags argument when looking at
 the end of a range

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 7f6ebea..3016da1 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1614,7 +1614,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
-- 
2.43.0


From 5a340c7080ddc2fe522941638263b4545d71c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:04 +0000
Subject: [PATCH 31/36] fix: splitting a range regroups the pieces with the
 flags argument

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 3016da1..2dca5c7 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -928,7 +928,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
-- 
2.43.0


From 28630a8aacd1ae21b9d85e5a9c2fbb14f07272a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:14 +0000
Subject: [PATCH 32/36] fix: forcing start verses also shows them at the start
 of a book

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2dca5c7..cfabdf6 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1156,7 +1156,7 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book(flags):
+        if self.spans_start_book(flags) and not (force_start_verses and not self.spans_end_chap(flags)):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
         elif self.spans_start_chap(flags):
@@ -1745,7 +1745,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0


From e4a1d1bfaf7c4f7d8bc21ba672bcbce90fef51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:14 +0000
Subject: [PATCH 33/36] fix: references after a written-out chapter are shown
 as single references

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index cfabdf6..9002a53 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1661,11 +1661,11 @@ class BibleRangeList(util.GroupedList):
         first_range = True
         list_sep = ""
         result_str = ""
-        force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
 
         for group in self.groups:
             for bible_range in group:
                 bible_range: BibleRange = bible_range # Typecast                
+                force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
                 if bible_range.spans_start_book(flags): # Range start includes an entire book
                     # Even if already in same book, whole book references repeat the whole book name.
                     start_parts = BibleVersePart.BOOK
-- 
2.43.0


From b6f49bd23aa995321d4f8ad4c6930e6d714309a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:06 +0000
Subject: [PATCH 34/36] fix: a book without verse data has no chapters

---
 src/bibleref/ref.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 9002a53..4cf58a0 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -160,10 +160,7 @@ class BibleBook(Enum):
     def min_chap_num(self) -> int:
         '''Return lowest chapter number (currently always 1) for this `BibleBook`.
         '''
-        if self._max_verses is None:
-            return 0
-        else:
-            return 1    # Currently always 1. Perhaps in future some books may have a chapter-0 prologue included?
+        return 1        # Currently always 1. Perhaps in future some books may have a chapter-0 prologue included?
 
     def max_chap_num(self) -> int:
         '''Return highest chapter number for this `BibleBook`.
-- 
2.43.0


From 4d50d3af073f559ce9df61edb94d95289a1314af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 35/36] fix: the in-place intersection and symmetric difference
 left all ranges in one group

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 4cf58a0..e928d8e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1464,6 +1464,7 @@ class BibleRangeList(util.GroupedList):
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
         self.extend(intersection_list)
+        self.regroup(flags=flags)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1529,6 +1530,7 @@ class BibleRangeList(util.GroupedList):
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
         self.extend(sym_difference_list)
+        self.regroup(flags=flags)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From ffb4872231685efe6796cc2979003984a806e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 36/36] fix: chapter and book ranges of a reference starting at
 an existing verse 0 left that verse out

---
 src/bibleref/ref.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index e928d8e..dc69715 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -448,11 +448,17 @@ class BibleVerse:
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns the `BibleRange` spanning the whole of the chapter containing this verse.                
         '''
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
+        if self.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         return BibleRange(start=self.first_verse(flags=flags), end=self.last_verse(), flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns the `BibleRange` spanning the whole of the book containing this verse.        
         '''
+        flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
+        if self.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         return self.book.range(flags=flags)
 
     def add(self, num_verses: int, flags: BibleFlag = None) -> 'BibleVerse':
@@ -856,6 +862,8 @@ class BibleRange:
         '''
         flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
@@ -865,6 +873,8 @@ class BibleRange:
         '''
         flags = (bibleref.flags if flags is None else flags) or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
     def split(self, *, by_book: bool = False, by_chap: bool = False, num_verses: bool = None,
@@ -1332,6 +1342,8 @@ class BibleRangeList(util.GroupedList):
         flags |= BibleFlag.MULTIBOOK
         min_start: BibleVerse = min(bible_range.start for bible_range in self)
         max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        if min_start.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         return BibleRange(start=min_start.first_verse(flags=flags), end=max_end.last_verse(),
                           flags=flags)
 
@@ -1345,6 +1357,8 @@ class BibleRangeList(util.GroupedList):
         flags |= BibleFlag.MULTIBOOK
         min_start: BibleVerse = min(bible_range.start for bible_range in self)
         max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        if min_start.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         return BibleRange(start=min_start.book.first_verse(flags=flags), end=max_end.book.last_verse(),
                           flags=flags)
 
-- 
2.43.0


From 59a29e80e5848c5ec0aa3c56774ca8aca19632a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 01/43] fix: strip() ran past the ends of an empty or blank
 string

The two loops had no end condition: on a string without a non-blank character they read
out of bounds, and string(start, end) was called with start behind end.
---
 src/utils/TextUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..bebe5ad 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -150,8 +150,8 @@ string strip(const string& str) {
   auto start_it = str.begin();
   auto end_it = str.rbegin();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != str.end() && isspace(static_cast<unsigned char>(*start_it))) { start_it++; }
+  while (end_it.base() != start_it && isspace(static_cast<unsigned char>(*end_it))) { end_it++; }
 
   return string(start_it, end_it.base());
 }
-- 
2.43.0


From aa68d2b8a4f58b6ba284cba3d52576326859c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 02/43] fix: createRandomString() never chose the last
 character of the alphabet

... and divided by zero for an alphabet of one character.
---
 src/utils/TextUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index bebe5ad..37ec557 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -92,7 +92,7 @@ string createRandomString(unsigned int len, const string& prefix, const char* co
   // Append <len>-many random alphanumerical characters.
   int alphabetSize = strlen(alphabet);
   for (unsigned int i = 0; i < len; i++) {
-    str += alphabet[rand() % (alphabetSize - 1)];
+    str += alphabet[rand() % alphabetSize];
   }
 
   return str;
-- 
2.43.0


From 589c0dbabdf737a451e59eeaedce99968bf3442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 03/43] fix: join() dropped the separators behind leading empty
 strings

---
 src/utils/TextUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 37ec557..6f7bc4f 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -199,11 +199,11 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
 // _________________________________________________________________________________________________
 string join(const vector<string>& strings, const string& sep) {
   string resultStr = "";
-  for (const auto& s : strings) {
-      if (resultStr.size() > 0) {
-        resultStr += sep;
-      }
-      resultStr += s;
+  for (size_t i = 0; i < strings.size(); i++) {
+    if (i > 0) {
+      resultStr += sep;
+    }
+    resultStr += strings[i];
   }
   return resultStr;
 }
-- 
2.43.0


From 4a469c943e5571952bd4f5094bf1502709021623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 04/43] fix: DoubleCounter::max() ignored all keys <= 0

numeric_limits<double>::min() is the smallest positive value, so a counter with only zero or
negative keys was reported to be empty.
---
 src/utils/Counter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..6735e81 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -60,7 +60,7 @@ double DoubleCounter::max() const {
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-    if (it->second > 0 && larger(it->first, max)) {
+    if (it->second > 0 && (!entryFound || larger(it->first, max))) {
       max = it->first;
       entryFound = true;
     }
-- 
2.43.0


From a9289bc81fc94913a612139393bf8b7ca73646df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 05/43] fix: wrap() left lines unindented or too long

- It wrapped at the last newline of a window, so that the lines before it stayed unindented.
- It ignored the indent when deciding whether the rest of the string fits into a line.
- It stopped wrapping altogether at the first word that is longer than a line.
---
 src/utils/TextUtils.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 6f7bc4f..8920d70 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -165,8 +165,8 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
   unsigned int lineEnd = 0;
   while (true) {
     // Check if the string needs to be wrapped because it contains an explicit newline character.
-    lineEnd = str.rfind("\n", lineStart + width - indent);
-    if (lineEnd >= lineStart && lineEnd <= str.size()) {
+    lineEnd = str.find("\n", lineStart);
+    if (lineEnd <= lineStart + width - indent && lineEnd <= str.size()) {
       for (unsigned int i = 0; i < indent; i++) { result += " "; }
       result += str.substr(lineStart, lineEnd - lineStart);
       result += "\n";
@@ -174,13 +174,17 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
       continue;
     }
 
-    // Check if the string needs to be wrapped because it is too long.
+    // Don't wrap if the rest of the string fits into the line.
+    if (indent + (str.size() - lineStart) <= width) {
+      break;
+    }
+    // Check if the string needs to be wrapped because it is too long. If there is no whitespace at
+    // which the line could be wrapped in time, wrap at the next whitespace.
     lineEnd = str.rfind(" ", lineStart + width - indent);
     if (lineEnd < lineStart || lineEnd > str.size()) {
-      break;
+      lineEnd = str.find_first_of(" \n", lineStart + width - indent);
     }
-    // Don't wrap if the string would be split in two parts whose accumulated width is <= width.
-    if ((lineEnd - lineStart) + (str.size() - lineEnd) <= width) {
+    if (lineEnd > str.size()) {
       break;
     }
     // Append the indent and the line to the result.
-- 
2.43.0


From 955b565694f7f0a908d6ea3d3d5dc36fbcdb1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 06/43] fix: bounding boxes of elements with only negative
 coordinates were wrong

numeric_limits<double>::min() is the smallest positive double, not the most negative one. Used as
the initial value of a maximum, it made the right (lower) side of everything left of (above) the
page origin zero.
---
 src/PdfParsing.cpp            |  4 ++--
 src/ReadingOrderDetection.cpp |  4 ++--
 src/Types.h                   | 28 ++++++++++++++--------------
 src/WordsDetection.cpp        |  8 ++++----
 src/utils/XYCut.cpp           |  4 ++--
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..ccb5eba 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -612,8 +612,8 @@ void PdfParsing::stroke(GfxState* state) {
   double x, y;
   double leftX = numeric_limits<double>::max();
   double upperY = numeric_limits<double>::max();
-  double rightX = numeric_limits<double>::min();
-  double lowerY = numeric_limits<double>::min();
+  double rightX = numeric_limits<double>::lowest();
+  double lowerY = numeric_limits<double>::lowest();
   const GfxPath* path = state->getPath();
   for (int i = 0; i < path->getNumSubpaths(); i++) {
     const GfxSubpath* subpath = path->getSubpath(i);
diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/Types.h b/src/Types.h
index 078e739..8aba654 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -236,8 +236,8 @@ class PdfPosition {
   // NOTE: The bounding box is the smallest rectangle that completely surrounds the element.
   double leftX = numeric_limits<double>::max();
   double upperY = numeric_limits<double>::max();
-  double rightX = numeric_limits<double>::min();
-  double lowerY = numeric_limits<double>::min();
+  double rightX = numeric_limits<double>::lowest();
+  double lowerY = numeric_limits<double>::lowest();
 
   // The rotation of the element.
   int rotation = 0;
@@ -664,8 +664,8 @@ class PdfTextLine : public PdfTextElement {
   // text line that are *not* subscripted or superscripted.
   double baseBBoxLeftX = numeric_limits<double>::max();
   double baseBBoxUpperY = numeric_limits<double>::max();
-  double baseBBoxRightX = numeric_limits<double>::min();
-  double baseBBoxLowerY = numeric_limits<double>::min();
+  double baseBBoxRightX = numeric_limits<double>::lowest();
+  double baseBBoxLowerY = numeric_limits<double>::lowest();
 
   // The maximum font size among the characters in this text line.
   double maxFontSize = 0.0;
@@ -778,8 +778,8 @@ class PdfTextBlock : public PdfTextElement {
   // do *not* extend beyond the actual segment boundaries.
   double trimLeftX = numeric_limits<double>::max();
   double trimUpperY = numeric_limits<double>::max();
-  double trimRightX = numeric_limits<double>::min();
-  double trimLowerY = numeric_limits<double>::min();
+  double trimRightX = numeric_limits<double>::lowest();
+  double trimLowerY = numeric_limits<double>::lowest();
 
   // A reference to the previous text block in the document.
   const PdfTextBlock* prevBlock = nullptr;
@@ -854,8 +854,8 @@ class PdfFigure : public PdfNonTextElement {
   // necessarily have to be adjacent to the clip box.
   double clipLeftX = numeric_limits<double>::max();
   double clipUpperY = numeric_limits<double>::max();
-  double clipRightX = numeric_limits<double>::min();
-  double clipLowerY = numeric_limits<double>::min();
+  double clipRightX = numeric_limits<double>::lowest();
+  double clipLowerY = numeric_limits<double>::lowest();
 
   /**
    * This method returns a string representation of this figure, for debugging purposes.
@@ -976,8 +976,8 @@ class PdfPageSegment : public PdfElement {
   // segment boundaries.
   double trimLeftX = numeric_limits<double>::max();
   double trimUpperY = numeric_limits<double>::max();
-  double trimRightX = numeric_limits<double>::min();
-  double trimLowerY = numeric_limits<double>::min();
+  double trimRightX = numeric_limits<double>::lowest();
+  double trimLowerY = numeric_limits<double>::lowest();
 
   /**
    * This method returns a string representation of this segment, for debugging purposes.
@@ -1042,8 +1042,8 @@ class PdfPage {
   // All elements (or parts of elements) outside the clip box are not visible in the PDF.
   double clipLeftX = numeric_limits<double>::max();
   double clipUpperY = numeric_limits<double>::max();
-  double clipRightX = numeric_limits<double>::min();
-  double clipLowerY = numeric_limits<double>::min();
+  double clipRightX = numeric_limits<double>::lowest();
+  double clipLowerY = numeric_limits<double>::lowest();
 
   // The XY-cuts made to detect the text blocks on this page.
   vector<Cut*> blockDetectionCuts;
@@ -1190,8 +1190,8 @@ class Cut {
   // Y-cuts represent horizontal lines, so y1 and y2 should be equal for Y-cuts.
   double x1 = numeric_limits<double>::max();
   double y1 = numeric_limits<double>::max();
-  double x2 = numeric_limits<double>::min();
-  double y2 = numeric_limits<double>::min();
+  double x2 = numeric_limits<double>::lowest();
+  double y2 = numeric_limits<double>::lowest();
 
   // A boolean flag indicating whether or not this cut was actually chosen by the `PageSegmentator`
   // class or `ReadingOrderDetector` class.
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..bc4a964 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -82,8 +82,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -138,8 +138,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..161dbde 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -242,7 +242,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From 4867c7d678ab2b309a326f271f84dbb9f8a5c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 07/43] fix: a stroked path outside the clip box became a shape
 with an infinite bounding box

---
 src/PdfParsing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index ccb5eba..0bbfebd 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -642,6 +642,11 @@ void PdfParsing::stroke(GfxState* state) {
     }
   }
 
+  // Ignore the path if none of its points is visible.
+  if (leftX > rightX || upperY > lowerY) {
+    return;
+  }
+
   // Store the information about the path in form of a `PdfShape`.
   PdfShape* shape = new PdfShape();
   shape->id = createRandomString(_config.idLength, "shape-");
-- 
2.43.0


From d9657db0f187c89516f9d6738c947582371e43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 08/43] fix: a word could belong to several stacked math
 symbols

A word claimed by two base words was listed by both (and then appeared twice in the output); the
words of a base word that was itself claimed by another base word were lost.
---
 src/WordsDetection.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index bc4a964..de89491 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -301,6 +301,12 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
     }
     _log->debug(p) << " • word.isBaseOfStackedSymbol: " << isBaseOfStackedMathSymbol << endl;
 
+    // Skip the word if it is already part of another stacked math symbol.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of another symbol)." << OFF << endl;
+      continue;
+    }
+
     // Skip the word if it is not the base word of a stacked math symbol.
     if (!isBaseOfStackedMathSymbol) {
       _log->debug(p) << BOLD << "Skipping word (not base of stacked math symbol)." << OFF << endl;
@@ -346,6 +352,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       }
 
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
+      // The previous word is not a part of the stacked math symbol when it already belongs to
+      // another stacked math symbol.
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "belongs to another stacked math symbol." << OFF << endl;
+        break;
+      }
+
       word->isBaseOfStackedMathSymbol.push_back(prevWord);
       prevWord->isPartOfStackedMathSymbol = word;
     }
@@ -387,6 +400,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The next word is not a part of the stacked math symbol when it already belongs to
+      // another stacked math symbol.
+      if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "belongs to another stacked math symbol." << OFF << endl;
+        break;
+      }
+
       word->isBaseOfStackedMathSymbol.push_back(nextWord);
       nextWord->isPartOfStackedMathSymbol = word;
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
-- 
2.43.0


From 8abc8ec5cf102522f7af67ee71e488c3982a7aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 09/43] fix: a character that utf8proc refuses to compose with
 its diacritic mark caused a crash

utf8proc_map() returns an error code (and no string) for text that is no valid UTF-8, for example
if the base character is mapped to an unpaired surrogate. The result string was leaked as well.
---
 src/DiacriticalMarksMerging.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..faf901f 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -194,9 +194,15 @@ void DiacriticalMarksMerging::process() const {
 
       uint8_t* output;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
-
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      auto outputLen = utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output,
+          (utf8proc_option_t) options);
+      if (outputLen >= 0) {
+        base->textWithDiacriticMark.assign(reinterpret_cast<char*>(output), outputLen);
+        free(output);
+      } else {
+        // The text can't be composed (e.g., because it is no valid UTF-8); use it as it is.
+        base->textWithDiacriticMark.assign(bytesMerged.begin(), bytesMerged.end());
+      }
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From 191301ea91bb196c816e2698915017525539c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 10/43] fix: the first of two diacritic marks of a character
 was lost

A mark that follows another mark was merged with that mark (whose text is ignored afterwards), and
a second mark of the same base character replaced the first one.
---
 src/DiacriticalMarksMerging.cpp | 54 ++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index faf901f..175deda 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -65,6 +65,22 @@ void DiacriticalMarksMerging::process() const {
     return;
   }
 
+  // Returns the unicode of the given character or, if it is contained in combiningMap, its combining
+  // equivalent.
+  auto getCombiningUnicode = [this](const PdfCharacter* ch) {
+    auto it = _config->combiningMap.find(ch->unicodes[0]);
+    return it != _config->combiningMap.end() ? it->second : ch->unicodes[0];
+  };
+
+  // A character is a diacritic mark when it consists of exactly one unicode, which falls into one
+  // of the categories:
+  //   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
+  //   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
+  auto isDiacriticMark = [&](const PdfCharacter* ch) {
+    return ch->unicodes.size() == 1
+        && getCombiningUnicode(ch) >= 0x02B0 && getCombiningUnicode(ch) <= 0x036F;
+  };
+
   // Iterate through the characters of each page. For each character, check if it represents a
   // diacritical mark. If so, compute the horizontal overlap with the respective previous and next
   // character. Merge the diacritic mark with the character yielding the larger horizontal overlap.
@@ -100,29 +116,25 @@ void DiacriticalMarksMerging::process() const {
 
       // Get the unicode of the character. If it is contained in combininMap, replace the unicode
       // by its combining equivalent.
-      unsigned int unicode = currChar->unicodes[0];
-      if (_config->combiningMap.count(unicode) > 0) {
-        unicode = _config->combiningMap.at(unicode);
-      }
+      unsigned int unicode = getCombiningUnicode(currChar);
 
-      // The character is a diacritic mark when its unicode falls into one of the categories:
-      //   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
-      //   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
-      bool isDiacriticMark = false;
-      if (unicode >= 0x02B0 && unicode <= 0x02FF) {
-        isDiacriticMark = true;
-      }
-      if (unicode >= 0x0300 && unicode <= 0x036f) {
-        isDiacriticMark = true;
-      }
-      _log->debug(p) << " • char.isDiacriticMark: " << isDiacriticMark << endl;
+      _log->debug(p) << " • char.isDiacriticMark: " << isDiacriticMark(currChar) << endl;
 
       // Skip the character if it does not represent a diacritic mark.
-      if (!isDiacriticMark) {
+      if (!isDiacriticMark(currChar)) {
         _log->debug(p) << BOLD << "Skipping character (no diacritical mark)." << OFF << endl;
         continue;
       }
 
+      // Ignore characters which are diacritic marks by themselves, as they are (or will be) merged
+      // with another character.
+      for (size_t j = i; j > 0 && prevChar && prevChar->isDiacriticMarkOfBaseChar; ) {
+        prevChar = --j > 0 ? page->characters[j - 1] : nullptr;
+      }
+      for (size_t j = i + 1; nextChar && isDiacriticMark(nextChar); ) {
+        nextChar = ++j < page->characters.size() ? page->characters[j] : nullptr;
+      }
+
       // Compute the horizontal overlap with the previous character.
       double prevXOverlapRatio = 0;
       _log->debug(p) << "---------------------------------------" << endl;
@@ -179,11 +191,17 @@ void DiacriticalMarksMerging::process() const {
 
       // Compute the text with the base character and the diacritic mark merged to a single
       // character, using the utf8proc library.
+      // If the base character was already merged with another diacritic mark, add the mark to the
+      // text resulted by that.
       vector<Unicode> unicodesMerged;
-      for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
+      vector<uint8_t> bytesMerged;
+      if (!base->textWithDiacriticMark.empty()) {
+        bytesMerged.assign(base->textWithDiacriticMark.begin(), base->textWithDiacriticMark.end());
+      } else {
+        for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
+      }
       unicodesMerged.push_back(unicode);
 
-      vector<uint8_t> bytesMerged;
       char buf[8];
       for (const auto& u : unicodesMerged) {
         int len = uMap->mapUnicode(u, buf, sizeof(buf));
-- 
2.43.0


From ce75cddfb3b36dd1470c0d6d287690fc7279f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 11/43] fix: keep the documented position of an empty page
 segment

The bounding boxes fix (955b565) changed it together with the initial value of all positions.
---
 src/utils/PageSegmentationUtils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..73df8c9 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -6,6 +6,7 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <limits>  // std::numeric_limits
 #include <vector>
 
 #include "./MathUtils.h"
@@ -14,6 +15,7 @@
 #include "../Config.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::vector;
 
 using ppp::config::PageSegmentationConfig;
@@ -53,6 +55,11 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
     segment->pos->rightX = maximum(segment->pos->rightX, element->pos->rightX);
     segment->pos->lowerY = maximum(segment->pos->lowerY, element->pos->lowerY);
   }
+  if (elements.empty()) {
+    // Callers recognize an empty segment by these values.
+    segment->pos->rightX = numeric_limits<double>::min();
+    segment->pos->lowerY = numeric_limits<double>::min();
+  }
 
   // Set the vector of page elements.
   segment->elements = elements;
-- 
2.43.0


From 848e10c3c87a10642443d0d5d28fa34da3345f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 12/43] fix: find x-cuts across an element that extends beyond
 the elements after it

---
 src/utils/XYCut.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 161dbde..9e70029 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -183,8 +183,10 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
       overlappingElements.push_back(prevElement);
     }
 
-    // Add the element to the queue if its rightX is larger than the smallest rightX in the queue.
-    if (larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
+    // Add the element to the queue if the queue is not full yet or if the rightX of the element is
+    // larger than the smallest rightX in the queue.
+    if (elementsLargestRightXQueue.size() < static_cast<size_t>(qSize)
+          || larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
       elementsLargestRightXQueue.push(element);
     }
   }
-- 
2.43.0


From 8b7dc7808eafd95581eecf1e031a758d23be125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 13/43] fix: order text lines rotated by 90 or 270 degrees from
 top to bottom

---
 src/TextLinesDetection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..cccd611 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -201,7 +201,7 @@ void TextLinesDetection::process() {
         _log->debug(p) << qq << BOLD << "Sorting text lines" << OFF << endl;
         _log->debug(p) << "=========================================================" << endl;
 
-        if (rot == 0 || rot == 1) {
+        if (rot == 0 || rot == 3) {
           sort(lines.begin(), lines.end(), RotLowerYAscComparator());
         } else {
           sort(lines.begin(), lines.end(), RotLowerYDescComparator());
-- 
2.43.0


From 3e5991992b4de5549b9e2453f93f5e158ad7c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 14/43] fix: merge overlapping text lines under consideration
 of their rotation

---
 src/TextLinesDetection.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index cccd611..2e0ae74 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -37,6 +37,7 @@ using std::vector;
 using ppp::config::TextLinesDetectionConfig;
 using ppp::types::PdfDocument;
 using ppp::types::PdfPageSegment;
+using ppp::types::PdfPosition;
 using ppp::types::PdfTextLine;
 using ppp::types::PdfWord;
 using ppp::utils::TextLinesDetectionUtils;
@@ -47,8 +48,7 @@ using ppp::utils::comparators::RotLowerYAscComparator;
 using ppp::utils::comparators::RotLowerYDescComparator;
 using ppp::utils::counter::DoubleCounter;
 using ppp::utils::counter::StringCounter;
-using ppp::utils::elements::computeHorizontalGap;
-using ppp::utils::elements::computeMaxYOverlapRatio;
+using ppp::utils::elements::computeOverlapRatios;
 using ppp::utils::log::BOLD;
 using ppp::utils::log::GRAY;
 using ppp::utils::log::OFF;
@@ -260,8 +260,17 @@ void TextLinesDetection::process() {
             double xGap = 0.0;
             double yOverlapRatio = 0.0;
             if (prevLine) {
-              xGap = computeHorizontalGap(prevLine, currLine);
-              yOverlapRatio = computeMaxYOverlapRatio(prevLine, currLine);
+              // Consider the rotation, since the lines of rotated text are stacked in another direction
+              // of the page than the lines of unrotated text.
+              const PdfPosition* prev = prevLine->pos;
+              const PdfPosition* curr = currLine->pos;
+              xGap = maximum(minimum(prev->getRotLeftX(), prev->getRotRightX()),
+                  minimum(curr->getRotLeftX(), curr->getRotRightX()))
+                - minimum(maximum(prev->getRotLeftX(), prev->getRotRightX()),
+                  maximum(curr->getRotLeftX(), curr->getRotRightX()));
+              const auto ratios = computeOverlapRatios(prev->getRotUpperY(),
+                  prev->getRotLowerY(), curr->getRotUpperY(), curr->getRotLowerY());
+              yOverlapRatio = maximum(ratios.first, ratios.second);
             }
 
             // Define a threshold for the vertical overlap ratio between the current line and the
-- 
2.43.0


From d116c01626b83bed66d0a5e1d8c01195da157bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 15/43] fix: compare distances and offsets of text lines
 without cutting off their decimals

---
 src/TextBlocksDetection.cpp            | 2 ++
 src/utils/TextBlocksDetectionUtils.cpp | 2 ++
 src/utils/TextLinesDetectionUtils.cpp  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index 50e40ce..be6153b 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // std::abs
 #include <string>
 #include <utility>  // std::pair
 #include <vector>
@@ -21,6 +22,7 @@
 #include "./utils/TextUtils.h"
 #include "./utils/Trool.h"
 
+using std::abs;
 using std::endl;
 using std::string;
 using std::vector;
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..0a46220 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // std::abs
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -20,6 +21,7 @@
 #include "./TextUtils.h"
 #include "../Types.h"
 
+using std::abs;
 using std::pair;
 using std::regex_search;
 using std::smatch;
diff --git a/src/utils/TextLinesDetectionUtils.cpp b/src/utils/TextLinesDetectionUtils.cpp
index af16c98..f4839be 100755
--- a/src/utils/TextLinesDetectionUtils.cpp
+++ b/src/utils/TextLinesDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // std::abs
 #include <stack>
 #include <tuple>
 #include <utility>  // std::pair
@@ -17,6 +18,7 @@
 #include "./TextLinesDetectionUtils.h"
 #include "../Types.h"
 
+using std::abs;
 using std::make_tuple;
 using std::pair;
 using std::stack;
-- 
2.43.0


From 2606961cb8cabb9de8d004912842c3daa158c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 16/43] fix: a superscript without text was taken for an item
 label

---
 src/utils/TextBlocksDetectionUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0a46220..3f3db94 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -605,7 +605,8 @@ bool TextBlocksDetectionUtils::computeIsPrefixedByItemLabel(const PdfTextLine* l
   // This would identify also lines that are prefixed by something like "a)".
   PdfCharacter* ch = firstWordChars[0];
   string charStr = ch->text;
-  if (ch->isSuperscript && strstr(_config->superItemLabelAlphabet, charStr.c_str()) != nullptr) {
+  if (ch->isSuperscript && !charStr.empty()
+        && strstr(_config->superItemLabelAlphabet, charStr.c_str()) != nullptr) {
     return true;
   }
 
-- 
2.43.0


From 56c2bfbc40ea6b8ef8a6b20786c4eaa9d921ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 17/43] fix: the third part of a word that is hyphenated twice
 was lost

---
 src/WordsDehyphenation.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..5a6be1d 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,7 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  PdfWord* prevMergedWord = nullptr;
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -60,10 +61,19 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              // If the last word of the previous line is itself the second part of a hyphenated word
+              // (because it is the only word of its line), extend this hyphenated word.
+              PdfWord* mergedWord;
+              if (prevMergedWord && prevLineLastWord->isSecondPartOfHyphenatedWord == prevMergedWord) {
+                mergedWord = prevMergedWord;
+                mergedWord->text.pop_back();
+              } else {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+                mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              }
               mergedWord->text += currLineFirstWordText;
+              prevMergedWord = mergedWord;
 
               prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
               currLineFirstWord->isSecondPartOfHyphenatedWord = mergedWord;
-- 
2.43.0


From 6e163f5978550c18e72600508786ea5377f5b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 18/43] fix: write all text blocks if no roles are given, as
 documented

---
 src/serializers/JsonlSerializer.cpp             | 6 +++---
 src/serializers/PlainTextExtendedSerializer.cpp | 2 +-
 src/serializers/PlainTextSerializer.cpp         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..6353c1c 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -105,7 +105,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -209,7 +209,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -245,7 +245,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextExtendedSerializer.cpp b/src/serializers/PlainTextExtendedSerializer.cpp
index 9d9df11..5a55d8f 100755
--- a/src/serializers/PlainTextExtendedSerializer.cpp
+++ b/src/serializers/PlainTextExtendedSerializer.cpp
@@ -50,7 +50,7 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 6e18e75..306cb9e 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -44,7 +44,7 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
-- 
2.43.0


From 9e0da97c5f878593accb309c7c238b0ab3dc481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 19/43] fix: write the second part of a hyphenated word if the
 block of its first part is not written

---
 src/serializers/PlainTextExtendedSerializer.cpp | 9 ++++++---
 src/serializers/PlainTextSerializer.cpp         | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/serializers/PlainTextExtendedSerializer.cpp b/src/serializers/PlainTextExtendedSerializer.cpp
index 5a55d8f..304a656 100755
--- a/src/serializers/PlainTextExtendedSerializer.cpp
+++ b/src/serializers/PlainTextExtendedSerializer.cpp
@@ -47,6 +47,7 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
   assert(doc);
 
   PdfTextBlock* prevBlock = nullptr;
+  const PdfWord* prevHyphenatedWord = nullptr;
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
@@ -73,8 +74,9 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
       for (auto* line : block->lines) {
         for (auto* word : line->words) {
           // Ignore the second part of hyphenated words, since their text is included in the text
-          // of the first part of the hyphenated word.
-          if (word->isSecondPartOfHyphenatedWord) {
+          // of the first part of the hyphenated word (unless the block of the first part is skipped).
+          if (word->isSecondPartOfHyphenatedWord
+                && word->isSecondPartOfHyphenatedWord == prevHyphenatedWord) {
             continue;
           }
 
@@ -85,9 +87,10 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
 
           // Write the word character-wise. Ignore diacritic marks that were merged with their base
           // character (their text is part of the base character).
-          if (word->isFirstPartOfHyphenatedWord) {
+          if (word->isFirstPartOfHyphenatedWord && !word->isSecondPartOfHyphenatedWord) {
             // TODO(korzen): Hyphenated words should be also processed character-wise.
             out << word->isFirstPartOfHyphenatedWord->text;
+            prevHyphenatedWord = word->isFirstPartOfHyphenatedWord;
           } else {
             for (const auto* ch : word->characters) {
               if (ch->isBaseCharOfDiacriticMark) {
diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 306cb9e..54c0e93 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -41,6 +41,7 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
   assert(doc);
 
   PdfTextBlock* prevBlock = nullptr;
+  const PdfWord* prevHyphenatedWord = nullptr;
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
@@ -57,8 +58,9 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
       for (auto* line : block->lines) {
         for (auto* word : line->words) {
           // Ignore the second part of hyphenated words, since their text is included in the text
-          // of the first part of the hyphenated word.
-          if (word->isSecondPartOfHyphenatedWord) {
+          // of the first part of the hyphenated word (unless the block of the first part is skipped).
+          if (word->isSecondPartOfHyphenatedWord
+                && word->isSecondPartOfHyphenatedWord == prevHyphenatedWord) {
             continue;
           }
 
@@ -69,9 +71,10 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
 
           // Write the word character-wise. Ignore diacritic marks that were merged with their base
           // character (their text is part of the base character).
-          if (word->isFirstPartOfHyphenatedWord) {
+          if (word->isFirstPartOfHyphenatedWord && !word->isSecondPartOfHyphenatedWord) {
             // TODO(korzen): Hyphenated words should be also processed character-wise.
             out << word->isFirstPartOfHyphenatedWord->text;
+            prevHyphenatedWord = word->isFirstPartOfHyphenatedWord;
           } else {
             for (const auto* ch : word->characters) {
               if (ch->isBaseCharOfDiacriticMark) {
-- 
2.43.0


From 72b413b7d835dca47ffaa93cc2fe5c24d31aac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 20/43] fix: escape font names in the JSONL output

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index 6353c1c..639454c 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -135,7 +135,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -224,7 +224,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -258,7 +258,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From e88bbf5557087ef77f6490e227ca69a5644a70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 21/43] fix: create the directory of the output file without a
 shell

---
 src/serializers/Serializer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..98a73cc 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>  // std::filesystem::create_directories
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>  // std::error_code
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -17,6 +19,8 @@
 using std::cerr;
 using std::cout;
 using std::endl;
+using std::error_code;
+using std::filesystem::create_directories;
 using std::ofstream;
 using std::string;
 using std::unordered_set;
@@ -45,11 +49,13 @@ void Serializer::serialize(
   string parentDirPath = ".";
   size_t posLastSlash = targetFilePath.find_last_of("/");
   if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
+    parentDirPath = targetFilePath.substr(0, posLastSlash + 1);
   }
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
+  error_code error;
+  create_directories(parentDirPath, error);
+  if (error) {
     cerr << "Could not create directory '" << parentDirPath << "'." << endl;
     return;
   }
-- 
2.43.0


From c3bd209ccae03d5dda297338691134ea0451348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 22/43] fix: decrypt font files without overflowing signed ints

---
 src/utils/PdfFontInfoParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..859bff4 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -850,8 +850,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
 // _________________________________________________________________________________________________
 void Type1FontFileParser::decrypt(const char* bytes, int numBytes, int r, int n,
     string* resultStr) const {
-  int c1 = 52845;
-  int c2 = 22719;
+  // NOTE: The computation below exceeds the range of (signed) ints.
+  unsigned int c1 = 52845;
+  unsigned int c2 = 22719;
 
   for (int i = 0; i < numBytes; i++) {
     int cipher = bytes[i] & 0xff;
-- 
2.43.0


From 6d46f28f6cc5be2121dce296c3399460a574c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 23/43] fix: keep the interpreter of Type 1 glyph programs
 within its data

---
 src/utils/PdfFontInfoParser.cpp | 24 ++++++++++++++++--------
 src/utils/PdfFontInfoParser.h   |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 859bff4..7e6f74f 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -473,7 +473,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
+    vector<int>* args, vector<int>* interpreterStack, int depth) const {
 
   for (size_t t = 0; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
@@ -586,16 +586,21 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int index = args->back();
             args->pop_back();
 
-            if (!subrs.count(index)) {
+            // Subroutine calls may be nested up to 10 levels deep. This also stops subroutines that
+            // call themselves.
+            if (!subrs.count(index) || depth >= 10) {
               break;
             }
 
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, depth + 1);
           }
           break;
         case 12:  // escape
           {
+            if (t + 1 >= charString.size()) {
+              break;
+            }
             unsigned char byte2 = charString[++t] & 0xff;
 
             switch (byte2) {
@@ -654,7 +659,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   int num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  // Don't divide by zero, and avoid INT_MIN / -1.
+                  int result = num2 == 0 ? 0 : static_cast<long>(num1) / num2;  // TODO: float
 
                   args->push_back(result);
                 }
@@ -670,7 +676,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   interpreterStack->clear();
                   switch (othersubr) {
                     case 0:
-                      {
+                      if (args->size() >= 3) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -684,15 +690,15 @@ void Type1FontFileParser::parseCharString(const string& charString,
                     case 1:
                       break;
                     case 3:
-                      {
+                      if (args->size() >= 1) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
-                        break;
                       }
+                      break;
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
+                        for (int i = 0; i < numArgs && args->size() >= 1; i++) {
                           int n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
@@ -829,6 +835,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
     } else {
       if (byte <= 246) {
         args->push_back(byte - 139);
+      } else if (charString.size() - t <= (byte == 255 ? 4 : 1)) {
+        break;  // The number is cut off.
       } else if (byte >= 247 && byte <= 250) {
         unsigned char bbyte = charString[++t] & 0xff;
         args->push_back((byte - 247) * 256 + bbyte + 108);
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..321c9e7 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -114,7 +114,7 @@ class Type1FontFileParser {
   void parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    vector<int>* interpreterStack, int depth = 0) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From ba51fd33edf904558b66405b8057f067d8fc38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 24/43] fix: read at most six font matrix entries, and the
 italic angle as a number

---
 src/utils/PdfFontInfoParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 7e6f74f..3730ab8 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -272,7 +272,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
@@ -284,7 +284,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
     // A value != 0 means that the font is an italic font.
     if (!italicAngleFound) {
       if (line.starts_with("/ItalicAngle")) {
-        fontInfo->isItalic |= (line != "/ItalicAngle 0 def");
+        fontInfo->isItalic |= (strtod(line.c_str() + 12, nullptr) != 0);
         italicAngleFound = true;
       }
     }
-- 
2.43.0


From 1049b13d66c4d457b95049f56ca7b4a4d7b0b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 25/43] fix: read the encrypted portion of Type 1 fonts in hex
 and segmented form within its bounds

---
 src/utils/PdfFontInfoParser.cpp | 60 ++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 3730ab8..d45d017 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,8 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cctype>  // isxdigit, tolower
+#include <cstdlib>  // strtod, strtol
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -32,7 +34,6 @@ using std::regex;
 using std::shared_ptr;
 using std::smatch;
 using std::sregex_iterator;
-using std::stoi;
 using std::string;
 using std::stringstream;
 using std::unordered_map;
@@ -332,9 +333,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
@@ -345,42 +344,40 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       for (int i = 0; i < 4; i++) {
         char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
         char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
       char c1 = _hexToChar[(c >> 4) & 0x0f];
       char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   } else {
-    for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
-    }
-    for (int i = 4; i < length; i += 2) {
-      char c1;
-      if ((c1 = strObj->streamGetChar()) == EOF) {
+    // Each byte is given by two hex digits. There can be whitespace between the digits.
+    int high = -1;
+    for (int i = 0; i < length; i++) {
+      if ((c = i < 4 ? start[i] : strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c2;
-      if ((c2 = strObj->streamGetChar()) == EOF) {
-        break;
+      if (!isxdigit(c)) {
+        continue;
+      }
+      int digit = _charToHex[tolower(c)];
+      if (high < 0) {
+        high = digit;
+      } else {
+        bytes.push_back(16 * high + digit);
+        high = -1;
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.data(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
@@ -389,7 +386,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      lenIV = strtol(decrypted.c_str() + lenIVStart, nullptr, 10);
     }
   }
 
@@ -415,13 +412,13 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   unordered_map<int, string> subrsMap;
   for (sregex_iterator i = dupBegin; i != dupEnd; i++) {
     smatch match = *i;
-    int index = stoi(match.str(1));
-    int nnumBytes = stoi(match.str(2));
+    int index = strtol(match.str(1).c_str(), nullptr, 10);
+    int nnumBytes = strtol(match.str(2).c_str(), nullptr, 10);
 
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.c_str(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -448,12 +445,12 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   for (sregex_iterator i = words_begin; i != words_end; ++i) {
     smatch match = *i;
     string charName = match.str(1);
-    int nnumBytes = stoi(match.str(2));
+    int nnumBytes = strtol(match.str(2).c_str(), nullptr, 10);
 
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.c_str(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
@@ -465,7 +462,10 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     vector<int> interpreterStack;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
         &args, &interpreterStack);
-    fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
+    // Ignore glyphs without any outline.
+    if (leftX <= rightX && upperY <= lowerY) {
+      fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
+    }
   }
 }
 
-- 
2.43.0


From a2325c1e924988e73b6f3f7d24282c7afcdd45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 26/43] fix: take over the weight of a font as one of 100, 200,
 ..., 900

---
 src/utils/PdfFontInfoParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index d45d017..37ed255 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -124,7 +124,8 @@ PdfFontInfo* PdfFontInfoParser::parse(
   fontInfo->isItalic |= fontNameLower.find("italic") != string::npos;
 
   // Compute the font weight. This is also surprisingly difficult, for the following reasons:
-  // (1) The font may provide the weight explicitly, but this weight is often unset.
+  // (1) The font may provide the weight explicitly (as one of the values W100 = 1, ..., W900 = 9),
+  //     but this weight is often unset.
   // (2) The font may provide an "isBold" flag, but this flags is also often unset, even if the
   //     font is actually a bold font.
   // (3) The font name can contain hints about the boldness of a font (e.g., when it contains the
@@ -133,7 +134,7 @@ PdfFontInfo* PdfFontInfoParser::parse(
   //     attribute). It can also contain the full name of the font (which is an extended version of
   //     the above font name) which can contain the word "Bold". This is checked in a later step,
   //     on reading the embedded font file.
-  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() : fontInfo->weight;
+  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() * 100 : fontInfo->weight;
   fontInfo->weight = (fontFlags & fontBold) ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("bold") != string::npos ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("black") != string::npos ? 800 : fontInfo->weight;
-- 
2.43.0


From b487840d96acc75abd7a61c6c7e2cd4ee314180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 27/43] fix: detect the rotation of characters with small font
 matrices

---
 src/PdfParsing.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 0bbfebd..8e094cf 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -268,10 +268,12 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     m[2] = m2[2];
     m[3] = m2[3];
   }
-  if (larger(fabs(m[0] * m[3]), fabs(m[1] * m[2]))) {
-    ch->pos->rotation = (larger(m[0], 0) || smaller(m[3], 0)) ? 0 : 2;
+  // NOTE: Compare without a tolerance, since the entries can be arbitrarily small (for example, when
+  // the font is a Type-3 font with a font matrix of [0.001 0 0 0.001 0 0]).
+  if (fabs(m[0] * m[3]) > fabs(m[1] * m[2])) {
+    ch->pos->rotation = (m[0] > 0 || m[3] < 0) ? 0 : 2;
   } else {
-    ch->pos->rotation = (larger(m[2], 0)) ? 1 : 3;
+    ch->pos->rotation = (m[2] > 0) ? 1 : 3;
   }
   // In vertical writing mode, the lines are effectively rotated by 90 degrees.
   if (gfxFont && gfxFont->getWMode()) {
-- 
2.43.0


From 48ddd818fae9a96eb17f7160f4592fef558da555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 28/43] fix: consider the text rise when computing where the
 next character starts

---
 src/PdfParsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 8e094cf..7d4839b 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -341,7 +341,7 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     }
   }
 
-  double td[6] = { 1, 0, 0, 1, width * fontSize * horizScaling, 0 };
+  double td[6] = { 1, 0, 0, 1, width * fontSize * horizScaling, rise };
   double tdXtm[6];
   concat(td, tm, tdXtm);
   double nextTrm[6];
-- 
2.43.0


From 12456c05a73aae43655428f592c12b4a72cc570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 29/43] fix: bounding boxes of rotated graphics, and graphics
 that are visible in part

---
 src/PdfParsing.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 7d4839b..2a4e4ef 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -787,19 +787,26 @@ void PdfParsing::drawGraphic(GfxState* state) {
   clipRightX = round(clipRightX, _config.coordinatePrecision);
   clipLowerY = round(clipLowerY, _config.coordinatePrecision);
 
-  // Compute the bounding box of the graphic from the current transformation matrix.
+  // Compute the bounding box of the graphic. A graphic fills the unit square, so this is the bounding
+  // box of the unit square transformed by the current transformation matrix [a b c d tx ty]. Note
+  // that the entries can be negative (if the graphic is mirrored) and that a and d can be zero (if
+  // the graphic is rotated).
   const double* ctm = state->getCTM();
-  double leftX = round(ctm[4], _config.coordinatePrecision);  // ctm[4] = translateX
-  double upperY = round(ctm[5], _config.coordinatePrecision);  // ctm[5] = translateY
-  double rightX = round(leftX + ctm[0], _config.coordinatePrecision);  // ctm[0] = scaleX
-  double lowerY = round(upperY + ctm[3], _config.coordinatePrecision);  // ctm[3] = scaleY
+  double leftX = ctm[4] + minimum(0.0, ctm[0], ctm[2], ctm[0] + ctm[2]);
+  double upperY = ctm[5] + minimum(0.0, ctm[1], ctm[3], ctm[1] + ctm[3]);
+  double rightX = ctm[4] + maximum(0.0, ctm[0], ctm[2], ctm[0] + ctm[2]);
+  double lowerY = ctm[5] + maximum(0.0, ctm[1], ctm[3], ctm[1] + ctm[3]);
+  leftX = round(leftX, _config.coordinatePrecision);
+  upperY = round(upperY, _config.coordinatePrecision);
+  rightX = round(rightX, _config.coordinatePrecision);
+  lowerY = round(lowerY, _config.coordinatePrecision);
 
   // Ignore the graphic if it lies outside the clip box (since graphics outside the clip box are
   // not visible). Example PDF where a graphic lies outside the clip box: 1001.5159.
-  if (equalOrSmaller(leftX, clipLeftX, _config.coordsEqualTolerance)
-      || equalOrSmaller(upperY, clipUpperY, _config.coordsEqualTolerance)
-      || equalOrLarger(rightX, clipRightX, _config.coordsEqualTolerance)
-      || equalOrLarger(lowerY, clipLowerY, _config.coordsEqualTolerance)) {
+  if (equalOrSmaller(rightX, clipLeftX, _config.coordsEqualTolerance)
+      || equalOrSmaller(lowerY, clipUpperY, _config.coordsEqualTolerance)
+      || equalOrLarger(leftX, clipRightX, _config.coordsEqualTolerance)
+      || equalOrLarger(upperY, clipLowerY, _config.coordsEqualTolerance)) {
     return;
   }
 
@@ -808,10 +815,10 @@ void PdfParsing::drawGraphic(GfxState* state) {
   graphic->id = createRandomString(_config.idLength, "graphic-");
   graphic->doc = _doc;
   graphic->pos->pageNum = _page->pageNum;
-  graphic->pos->leftX = maximum(minimum(leftX, rightX), clipLeftX);
-  graphic->pos->upperY = maximum(minimum(upperY, lowerY), clipUpperY);
-  graphic->pos->rightX = minimum(maximum(leftX, rightX), clipRightX);
-  graphic->pos->lowerY = minimum(maximum(upperY, lowerY), clipLowerY);
+  graphic->pos->leftX = maximum(leftX, clipLeftX);
+  graphic->pos->upperY = maximum(upperY, clipUpperY);
+  graphic->pos->rightX = minimum(rightX, clipRightX);
+  graphic->pos->lowerY = minimum(lowerY, clipLowerY);
   graphic->rank = _numElements++;
 
   _log->debug(_p) << " • graphic.id: " << graphic->id << endl;
-- 
2.43.0


From 7c77048cbdb32a1a686790af760b0cd26ce37e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 30/43] fix: the texts of the thumbs-up and thumbs-down
 characters

---
 src/utils/CharMap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/CharMap.h b/src/utils/CharMap.h
index bf6502d..11abec6 100755
--- a/src/utils/CharMap.h
+++ b/src/utils/CharMap.h
@@ -149,10 +149,10 @@ const unordered_map<string, pair<unsigned int, string>> charMap = {
   { "slashbigg", make_pair(0x002F, "\u002F") },
   { "summationdisplay", make_pair(0x2211, "\u2211") },
   { "summationtext", make_pair(0x2211, "\u2211") },
-  { "thumbs_down", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_down_alt", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_up", make_pair(0x1F44D, "\u1F44D") },
-  { "thumbs_up_alt", make_pair(0x1F44D, "\u1F44D") },
+  { "thumbs_down", make_pair(0x1F44E, "\U0001f44E") },
+  { "thumbs_down_alt", make_pair(0x1F44E, "\U0001f44E") },
+  { "thumbs_up", make_pair(0x1F44D, "\U0001f44D") },
+  { "thumbs_up_alt", make_pair(0x1F44D, "\U0001f44D") },
   { "tildewide", make_pair(0x02DC, "\u02DC") },
   { "tildewider", make_pair(0x02DC, "\u02DC") },
   { "tildewidest", make_pair(0x02DC, "\u02DC") },
-- 
2.43.0


From 28577f1066e5972346edf9273acd43b7254e321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 31/43] fix: use iswupper() for testing the first character of
 a word, which is a wide character

---
 src/SemanticRolesPrediction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..ba47d72 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -339,7 +339,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           // Convert the block text to a wstring, to correctly handle umlauts etc.
           wstring wWordText = stringConverter.from_bytes(word->text);
 
-          if (wWordText.length() > 0 && isupper(wWordText[0])) {
+          if (wWordText.length() > 0 && iswupper(wWordText[0])) {
             numUppercasedWords += 1;
           }
           numWords++;
-- 
2.43.0


From c2edcccda5556b7d121404274aac35986b9d1b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 32/43] fix: count all non-ASCII characters of a text block,
 not only those with a low byte > 127

---
 src/SemanticRolesPrediction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index ba47d72..c9816a5 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -286,7 +286,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           numUppercasedChars += 1;
         }
 
-        if (static_cast<unsigned char>(wBlockText[i]) > 127) {
+        if (wBlockText[i] > 127) {
           numNonAsciiChars += 1;
         }
 
-- 
2.43.0


From 1867a5bd54257ea45524acf283069f20b2632b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 33/43] fix: don't drop the last line of a vocabulary file if
 it isn't ended by a newline

---
 src/SemanticRolesPrediction.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index c9816a5..c008a65 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -87,12 +87,7 @@ void SemanticRolesPrediction::readModel() {
 
   // Read the vocabulary line by line, where each line is of form <token>TAB<id>.
   wstring wline;
-  while (true) {
-    std::getline(bpeVocabFile, wline);
-
-    // Abort if the end of file was reached.
-    if (bpeVocabFile.eof()) { break; }
-
+  while (std::getline(bpeVocabFile, wline)) {
     // Split the line "<token>TAB<id>" into "<token>" and "<id>".
     size_t posTab = wline.find(L"\t");
     if (posTab == string::npos) { continue; }
@@ -109,11 +104,7 @@ void SemanticRolesPrediction::readModel() {
     throw invalid_argument("Could not load vocab file \"" + rolesVocabFilePath + "\"");
   }
   string line;
-  while (true) {
-    std::getline(vocabFile, line);
-    if (vocabFile.eof()) {
-      break;
-    }
+  while (std::getline(vocabFile, line)) {
     size_t posTab = line.find("\t");
     if (posTab == string::npos) { continue; }
 
-- 
2.43.0


From f2e22de3e5056afd38f56b1e7f210eb98efc42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 34/43] fix: initialize the semantic role of a text block,
 which was undefined if no roles are predicted

---
 src/Types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Types.h b/src/Types.h
index 8aba654..5acb055 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::PARAGRAPH;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From 429ccd8cfd34de8b1c32b8707e8f9646b5f42c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 35/43] fix: don't predict semantic roles if
 --skip-semantic-roles-prediction is given

---
 src/SemanticRolesPrediction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index c008a65..ff45def 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -121,6 +121,11 @@ void SemanticRolesPrediction::readModel() {
 void SemanticRolesPrediction::predict(const PdfDocument* doc) {
   assert(doc);
 
+  // Do nothing if the prediction is disabled.
+  if (_config->disabled) {
+    return;
+  }
+
   if (!_modelOk) {
     readModel();
   }
-- 
2.43.0


From 49374ce48bb70393a5cfdb7087480c862d0d6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 36/43] fix: don't dehyphenate words if --no-dehyphenation is
 given

---
 src/pdftotext++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..21a4224 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -665,7 +665,7 @@ int main(int argc, char* argv[]) {
   conf.semanticRolesPrediction.logPageFilter = logPageFilter;
   conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
   // Configure words dehyphenation.
-  conf.wordsDehyphenation.disabled = skipWordsDehyphenation;
+  conf.wordsDehyphenation.disabled = skipWordsDehyphenation || noDehyphenation;
   conf.wordsDehyphenation.logLevel = debugWordsDehyphenation ? DEBUG : logLevel;
   conf.wordsDehyphenation.logPageFilter = logPageFilter;
 
-- 
2.43.0


From bdc8800e6a7c1622b3d1f41a7e60d9cd9953db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 37/43] fix: don't print nan% as the share of a running time if
 the total is 0 ms

---
 src/pdftotext++.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 21a4224..cc19e5a 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -777,7 +777,8 @@ int main(int argc, char* argv[]) {
       string prefix = " * " + timing.name + ":";
       cout << std::left << setw(25) << prefix;
       cout << std::right << setw(4) << timing.time << " ms ";
-      double time = round(timing.time / static_cast<double>(timeTotal) * 100, 1);
+      double share = timeTotal > 0 ? timing.time / static_cast<double>(timeTotal) : 0;
+      double time = round(share * 100, 1);
       cout << "(" << time << "%)";
       cout << endl;
     }
-- 
2.43.0


From c712cd32c12a527476786700527f6a9634c91321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 38/43] fix: draw the visualization at the right place on
 rotated pages and pages whose media box doesn't start at (0, 0)

---
 src/PdfDocumentVisualization.cpp | 106 ++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 38 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..6ebe58c 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -12,6 +12,7 @@
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
 
+#include <algorithm>  // std::max, std::min
 #include <cmath>  // fabs
 #include <memory>  // std::unique_ptr
 #include <string>
@@ -55,6 +56,57 @@ using ppp::utils::math::smaller;
 
 namespace ppp::visualization {
 
+/**
+ * This method translates the given point from our coordinate system (which is relative to the upper
+ * left of the page as it is displayed) to the coordinate system of the given PDF page (which is
+ * not affected by the rotation of the page and whose origin need not be a corner of the page).
+ */
+static void toPageSpace(const Page* page, double* x, double* y) {
+  const PDFRectangle* box = page->getMediaBox();
+  double xDisplayed = *x;
+  double yDisplayed = *y;
+  switch (page->getRotate()) {
+    case 90:
+      *x = box->x1 + yDisplayed;
+      *y = box->y1 + xDisplayed;
+      break;
+    case 180:
+      *x = box->x2 - xDisplayed;
+      *y = box->y1 + yDisplayed;
+      break;
+    case 270:
+      *x = box->x2 - yDisplayed;
+      *y = box->y2 - xDisplayed;
+      break;
+    default:
+      *x = box->x1 + xDisplayed;
+      *y = box->y2 - yDisplayed;
+  }
+}
+
+/**
+ * This method returns the bounding box to draw for the given element, in the coordinate system of
+ * the given PDF page.
+ */
+static PDFRectangle getBoundingBox(const Page* page, const PdfElement* element) {
+  double x1 = element->pos->leftX;
+  double y1 = element->pos->upperY;
+  double x2 = element->pos->rightX;
+  double y2 = element->pos->lowerY;
+  toPageSpace(page, &x1, &y1);
+  toPageSpace(page, &x2, &y2);
+  double leftX = std::min(x1, x2);
+  double lowerY = std::min(y1, y2);
+  double rightX = std::max(x1, x2);
+  double upperY = std::max(y1, y2);
+
+  // Vertical/horizontal lines can have a width/height of zero, in which case they are not
+  // visible in the visualization. So ensure a minimal width/height of 1.
+  if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
+  if (smaller(fabs(upperY - lowerY), 1)) { upperY += 1; }
+  return PDFRectangle(leftX, lowerY, rightX, upperY);
+}
+
 // _________________________________________________________________________________________________
 PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
     const PdfDocumentVisualizationConfig& config) {
@@ -350,15 +402,7 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
       const ColorScheme& cs2 = ppp::visualization::color_schemes::red;
       Page* pdfPage = _pdfDoc->getPage(segment->pos->pageNum);
       Gfx* gfx = _gfxs[segment->pos->pageNum];
-      double leftX = block->pos->leftX;
-      double upperY = pdfPage->getMediaHeight() - block->pos->lowerY;
-      double rightX = block->pos->rightX;
-      double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
-      // Vertical/horizontal lines can have a width/height of zero, in which case they are not
-      // visible in the visualization. So ensure a minimal width/height of 1.
-      if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
-      if (smaller(fabs(upperY - lowerY), 1)) { lowerY += 1; }
-      PDFRectangle rect(leftX, upperY, rightX, lowerY);
+      PDFRectangle rect = getBoundingBox(pdfPage, block);
 
       // Create the bounding box.
       AnnotGeometry* a = new AnnotGeometry(_pdfDoc.get(), &rect, Annot::AnnotSubtype::typeSquare);
@@ -380,18 +424,8 @@ void PdfDocumentVisualization::drawBoundingBox(const PdfElement* element, const
   Page* pdfPage = _pdfDoc->getPage(element->pos->pageNum);
   Gfx* gfx = _gfxs[element->pos->pageNum];
 
-  // Define the coordinates of the bounding box to draw. Make the y-coordinates relatively to the
-  // lower left of the page.
-  double leftX = element->pos->leftX;
-  double upperY = pdfPage->getMediaHeight() - element->pos->lowerY;
-  double rightX = element->pos->rightX;
-  double lowerY = pdfPage->getMediaHeight() - element->pos->upperY;
-
-  // Vertical/horizontal lines can have a width/height of zero, in which case they are not
-  // visible in the visualization. So ensure a minimal width/height of 1.
-  if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
-  if (smaller(fabs(upperY - lowerY), 1)) { lowerY += 1; }
-  PDFRectangle rect(leftX, upperY, rightX, lowerY);
+  // Define the coordinates of the bounding box to draw.
+  PDFRectangle rect = getBoundingBox(pdfPage, element);
 
   // Create the bounding box.
   AnnotGeometry* annot = new AnnotGeometry(_pdfDoc.get(), &rect, Annot::AnnotSubtype::typeSquare);
@@ -413,10 +447,10 @@ void PdfDocumentVisualization::drawTextBlockSemanticRoles(const vector<PdfTextBl
     Page* pdfPage = _pdfDoc->getPage(block->pos->pageNum);
     Gfx* gfx = _gfxs[block->pos->pageNum];
 
-    // Define the position of the semantic role. Make the lowerY relatively to the lower left of
-    // the page.
+    // Define the position of the semantic role.
     double leftX = block->pos->leftX;
-    double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+    double lowerY = block->pos->upperY;
+    toPageSpace(pdfPage, &leftX, &lowerY);
     PDFRectangle rect(leftX, lowerY, leftX + 100, lowerY + 7);
 
     // Define the font appearance of the semantic role.
@@ -453,18 +487,12 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     Gfx* gfx = _gfxs[currBlock->pos->pageNum];
 
     // Compute the coordinates of the midpoints of the previous and current text block.
-    double prevMinX = prevBlock->pos->leftX;
-    double prevMaxX = prevBlock->pos->rightX;
-    double prevMinY = pdfPage->getMediaHeight() - prevBlock->pos->lowerY;
-    double prevMaxY = pdfPage->getMediaHeight() - prevBlock->pos->upperY;
-    double prevMidX = prevBlock->pos->leftX + ((prevMaxX - prevMinX) / 2.0);
-    double prevMidY = prevMinY + ((prevMaxY - prevMinY) / 2.0);
-    double currMinX = currBlock->pos->leftX;
-    double currMaxX = currBlock->pos->rightX;
-    double currMinY = pdfPage->getMediaHeight() - currBlock->pos->lowerY;
-    double currMaxY = pdfPage->getMediaHeight() - currBlock->pos->upperY;
-    double currMidX = currBlock->pos->leftX + ((currMaxX - currMinX) / 2.0);
-    double currMidY = currMinY + ((currMaxY - currMinY) / 2.0);
+    double prevMidX = (prevBlock->pos->leftX + prevBlock->pos->rightX) / 2.0;
+    double prevMidY = (prevBlock->pos->upperY + prevBlock->pos->lowerY) / 2.0;
+    toPageSpace(pdfPage, &prevMidX, &prevMidY);
+    double currMidX = (currBlock->pos->leftX + currBlock->pos->rightX) / 2.0;
+    double currMidY = (currBlock->pos->upperY + currBlock->pos->lowerY) / 2.0;
+    toPageSpace(pdfPage, &currMidX, &currMidY);
 
     // Define the position of the reading order line.
     PDFRectangle lineRect(prevMidX, prevMidY, currMidX, currMidY);
@@ -556,9 +584,11 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
     Gfx* gfx = _gfxs[cut->pageNum];
 
     double x1 = cut->x1;
-    double y1 = pdfPage->getMediaHeight() - cut->y1;  // make it relative to the lower left.
+    double y1 = cut->y1;
     double x2 = cut->x2;
-    double y2 = pdfPage->getMediaHeight() - cut->y2;  // make it relative to the lower left.
+    double y2 = cut->y2;
+    toPageSpace(pdfPage, &x1, &y1);
+    toPageSpace(pdfPage, &x2, &y2);
 
     // ==========
     // Draw a line representing the cut.
-- 
2.43.0


From e8c5ee496431b2c6ef5cbe42dc208a63542cc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 39/43] fix: draw the reading order index of a text block that
 is the only one of its page

---
 src/PdfDocumentVisualization.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 6ebe58c..b34495b 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -511,16 +511,20 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     // Draw the reading order line.
     pdfPage->addAnnot(lineAnnot);
     lineAnnot->draw(gfx, false);
+  }
 
-    // -----------
+  // Iterate through the text blocks and draw a circle with the reading order index at the midpoint
+  // of each.
+  for (size_t i = 0; i < blocks.size(); i++) {
+    PdfTextBlock* block = blocks[i];
 
-    // Draw the circle at the midpoint of the previous block, with the reading order index.
-    drawReadingOrderIndexCircle(pdfPage, gfx, prevMidX, prevMidY, i, cs);
+    Page* pdfPage = _pdfDoc->getPage(block->pos->pageNum);
+    Gfx* gfx = _gfxs[block->pos->pageNum];
 
-    // Draw the circle at the midpoint of the last block.
-    if (i == blocks.size() - 1) {
-      drawReadingOrderIndexCircle(pdfPage, gfx, currMidX, currMidY, i + 1, cs);
-    }
+    double midX = (block->pos->leftX + block->pos->rightX) / 2.0;
+    double midY = (block->pos->upperY + block->pos->lowerY) / 2.0;
+    toPageSpace(pdfPage, &midX, &midY);
+    drawReadingOrderIndexCircle(pdfPage, gfx, midX, midY, i + 1, cs);
   }
 }
 
-- 
2.43.0


From 896d049c2134deaf5871b7dbcbe68fd21358f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:03 +0000
Subject: [PATCH 40/43] fix: delete the merged words of hyphenated words
 together with their first part

---
 src/Types.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Types.cpp b/src/Types.cpp
index 3a82720..7ac351c 100644
--- a/src/Types.cpp
+++ b/src/Types.cpp
@@ -255,9 +255,11 @@ PdfWord::PdfWord(int pageNum, double leftX, double upperY, double rightX,
 
 // _________________________________________________________________________________________________
 PdfWord::~PdfWord() {
-  // if (isFirstPartOfHyphenatedWord != nullptr) { delete isFirstPartOfHyphenatedWord; }
-  // if (isSecondPartOfHyphenatedWord != nullptr) { delete isSecondPartOfHyphenatedWord; }
-  // if (isPartOfStackedMathSymbol != nullptr) { delete isPartOfStackedMathSymbol; }
+  // Delete the merged word if this word is the first of its parts (the merged word is shared by all
+  // of its parts and isn't part of the words of a page).
+  if (isFirstPartOfHyphenatedWord && !isSecondPartOfHyphenatedWord) {
+    delete isFirstPartOfHyphenatedWord;
+  }
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From f3af7763778d5cd6affd326d54ddb273c5bc39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:03 +0000
Subject: [PATCH 41/43] fix: delete the preliminary blocks of a page segment
 together with the segment

---
 src/Types.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Types.cpp b/src/Types.cpp
index 7ac351c..ba32ba6 100644
--- a/src/Types.cpp
+++ b/src/Types.cpp
@@ -504,6 +504,11 @@ PdfPageSegment::~PdfPageSegment() {
   for (const auto* line : lines) {
     delete line;
   }
+
+  // Delete the (preliminary) blocks.
+  for (const auto* block : blocks) {
+    delete block;
+  }
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 35653aa992b1c2ac562c447e65c44c3a93ad1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:03 +0000
Subject: [PATCH 42/43] fix: delete the cut candidates that aren't passed to
 the caller of xCut or yCut

---
 src/utils/XYCut.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 9e70029..df8a433 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -226,6 +226,13 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
     resultGroups->push_back(group);
   }
 
+  // Delete the candidates if they are not passed to the caller.
+  if (!resultCuts) {
+    for (const auto* candidate : candidates) {
+      delete candidate;
+    }
+  }
+
   return hasChosenCut;
 }
 
@@ -323,6 +330,13 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
     resultGroups->push_back(group);
   }
 
+  // Delete the candidates if they are not passed to the caller.
+  if (!resultCuts) {
+    for (const auto* candidate : candidates) {
+      delete candidate;
+    }
+  }
+
   return hasChosenCut;
 }
 
-- 
2.43.0


From c8cf481f8a4731cddd7501821ea7ac862160af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:03 +0000
Subject: [PATCH 43/43] fix: delete a text line after its words were merged
 into the previous line

---
 src/TextLinesDetection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 2e0ae74..66663ca 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -290,6 +290,9 @@ void TextLinesDetection::process() {
             if (equalOrLarger(yOverlapRatio, threshold)) {
               mergeTextLines(currLine, prevLine);
 
+              // The words of the line are now part of the previous line.
+              delete currLine;
+
               _log->debug(p) << qqq << BOLD << "merge currLine with prevLine" << OFF << endl;
               _log->debug(p) << qqq << " └─ prevLine.text: \"" << prevLine->text << "\"" << endl;
               _log->debug(p) << qqq << " └─ prevLine.page: " << prevLine->pos->pageNum << endl;
-- 
2.43.0


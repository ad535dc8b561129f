#!/usr/bin/env python3
"""Changes that only show beyond a size, on a second page or in a rare case: tools/stress.py [-j N] [name prefix...] says which checks see them.
Each entry: checks, file, old text (must occur once, or with '@k' prefix the k-th occurrence), new text."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, D = "WordsDetection.cpp", "DiacriticalMarksMerging.cpp"
TL, TU = "TextLinesDetection.cpp", "utils/TextLinesDetectionUtils.cpp"
TB, BU = "TextBlocksDetection.cpp", "utils/TextBlocksDetectionUtils.cpp"
XY, PS, RO = "utils/XYCut.cpp", "PageSegmentation.cpp", "ReadingOrderDetection.cpp"
PP, FP, SR = "PdfParsing.cpp", "utils/PdfFontInfoParser.cpp", "SemanticRolesPrediction.cpp"
V, TX, BP = "PdfDocumentVisualization.cpp", "utils/TextUtils.cpp", "utils/BytePairEncoder.cpp"
JS, PT, PX, SE = "serializers/JsonlSerializer.cpp", "serializers/PlainTextSerializer.cpp", "serializers/PlainTextExtendedSerializer.cpp", "serializers/Serializer.cpp"
S = [
 ("s01", "C15", W, "_activeWord.fontSize = maximum(_activeWord.fontSize, currChar->fontSize)", "_activeWord.fontSize = _activeWord.characters.size() > 3 ? currChar->fontSize : maximum(_activeWord.fontSize, currChar->fontSize)"),
 ("s02", "C15", W, "_activeWord.pos->upperY = minimum(_activeWord.pos->upperY, currChar->pos->upperY)", "if (_activeWord.characters.size() < 4) _activeWord.pos->upperY = minimum(_activeWord.pos->upperY, currChar->pos->upperY)"),
 ("s03", "C15", W, "@2word->rank = page->words.size()", "word->rank = page->words.size() + (page->words.size() > 2 ? 1 : 0)"),
 ("s04", "C15", W, "_activeWord.pos->rotation = currChar->pos->rotation;", "if (_activeWord.characters.size() < 3) _activeWord.pos->rotation = currChar->pos->rotation;"),
 ("s05", "C14", D, "nextChar && isDiacriticMark(nextChar); )", "nextChar && isDiacriticMark(nextChar) && j < i + 2; )"),
 ("s06", "C14", D, "j > 0 && prevChar && prevChar->isDiacriticMarkOfBaseChar; )", "j + 1 > i && j > 0 && prevChar && prevChar->isDiacriticMarkOfBaseChar; )"),
 ("s07", "C14", D, "base->pos->lowerY = maximum(base->pos->lowerY, mark->pos->lowerY);", "if (bytesMerged.size() < 6) base->pos->lowerY = maximum(base->pos->lowerY, mark->pos->lowerY);"),
 ("s08", "C14", D, "uMap->mapUnicode(u, buf, sizeof(buf))", "uMap->mapUnicode(u, buf, 3)"),
 ("s09", "C16", W, "word->isBaseOfStackedMathSymbol.push_back(nextWord);", "if (word->isBaseOfStackedMathSymbol.size() >= 3) { break; }\n      word->isBaseOfStackedMathSymbol.push_back(nextWord);"),
 ("s10", "C16", W, "if (_config->stackedMathCharTexts.count(ch->text) > 0) {", "if (_config->stackedMathCharTexts.count(ch->text) > 0 && (word->characters.size() < 3 || ch != word->characters[2])) {"),
 ("s11", "C16", W, "if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {", "if (!prevWord->isBaseOfStackedMathSymbol.empty()) {"),
 ("s12", "C16", W, "if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {", "if (nextWord->isPartOfStackedMathSymbol) {"),
 ("s13", "C17", TL, "if (i < line->words.size() - 1) {", "if (i < line->words.size() - 1 && i != 3) {"),
 ("s14", "C17", TL, "fontSizeCounter[ch->fontSize]++;", "if (i < 3) fontSizeCounter[ch->fontSize]++;"),
 ("s15", "C17", TL, "if (!merged) {", "if (!merged || r == 2) {"),
 ("s16", "C17", TL, "currLine->rank = numLines++;", "currLine->rank = segment->lines.size();"),
 ("s17", "C17", TL, "line2->words.insert(line2->words.end(), line1->words.begin(), line1->words.end());", "for (auto* w : line1->words) { if (line2->words.size() < 4 || w->pos->leftX != line2->words[0]->pos->leftX) line2->words.push_back(w); }"),
 ("s18", "C18", TU, "lineStack = stack<PdfTextLine*>();", "lineStack.pop();"),
 ("s19", "C18", TU, "while (!lineStack.empty()) {", "for (int k = 0; k < 2 && !lineStack.empty(); k++) {"),
 ("s20", "C18", TU, "if (equalOrLarger(mostFreqRightXRatio, _config->minPrecLinesSameRightX)) {", "if (equalOrLarger(mostFreqRightXRatio, _config->minPrecLinesSameRightX) && (nLines < 4 || mostFreqRightXCount > 2)) {"),
 ("s21", "C18", TU, "line->parentLine = lineStack.top()->parentLine;", "line->parentLine = lineStack.size() > 2 ? nullptr : lineStack.top()->parentLine;"),
 ("s22", "C24", "WordsDehyphenation.cpp", "if (prevLine) {", "if (prevLine && prevLine->pos->pageNum + 1 >= line->pos->pageNum) {"),
 ("s23", "C24", "WordsDehyphenation.cpp", "if (prevLineLastWordText.length() > 1) {", "if (prevLineLastWordText.length() > 2) {"),
 ("s24", "C24", "WordsDehyphenation.cpp", "prevMergedWord && prevLineLastWord->isSecondPartOfHyphenatedWord == prevMergedWord", "prevMergedWord && prevLine->block == line->block && prevLineLastWord->isSecondPartOfHyphenatedWord == prevMergedWord"),
 ("s25", "C24", "WordsDehyphenation.cpp", "prevMergedWord = mergedWord;", "prevMergedWord = prevMergedWord == mergedWord ? nullptr : mergedWord;"),
 ("s26", "C19", "SubSuperScriptsDetection.cpp", "line->baseBBoxLowerY = maximum(", "if (word->rank < 3) line->baseBBoxLowerY = maximum("),
 ("s27", "C20", "TextLinesStatisticsCalculation.cpp", "dist = maximum(0.0, round(dist, _config->lineDistancePrecision));", "dist = maximum(0.0, i > 2 ? dist : round(dist, _config->lineDistancePrecision));"),
 ("s28", "C20", "TextLinesStatisticsCalculation.cpp", "for (auto* page : _doc->pages) {", "for (auto* page : _doc->pages) {\n    if (page->segments.size() > 1) { lineDistanceCountersPerFontSize.clear(); }"),
 ("s29", "C20", "WordsStatisticsCalculation.cpp", "i > 0 ? page->words[i - 1] : nullptr;", "i > 0 ? page->words[i - 1] : (page != _doc->pages[0] && !_doc->pages[0]->words.empty() ? _doc->pages[0]->words.back() : nullptr);"),
 ("s30", "C20", "GlyphsStatisticsCalculation.cpp", "numGlyphs++;", "if (character->pos->getWidth() > 0 || character->pos->getHeight() > 0) { numGlyphs++; }"),
 ("s31", "C20", "GlyphsStatisticsCalculation.cpp", "fontNameCounter[character->fontName]++;", "if (page == _doc->pages[0] || fontNameCounter.count(character->fontName)) fontNameCounter[character->fontName]++;"),
 ("s32", "C21", BU, "block->trimUpperY = maximum(block->pos->upperY, block->segment->trimUpperY);", "if (i != 2) block->trimUpperY = maximum(block->pos->upperY, block->segment->trimUpperY);"),
 ("s33", "C21", BU, "if (blocks->size() > 0) {", "if (blocks->size() > 0 && blocks->size() != 3) {"),
 ("s34", "C21", TB, "if (!prevPrevLine) {", "if (!prevPrevLine || prevPrevLine->prevLine) {"),
 ("s35", "C21 C22", TB, '_q = "(fin) ";', '_q = "(fin) ";\n  if (_doc->pages.size() > 1) { _potentFnLabels.clear(); }\n  auto& labels = _potentFnLabels; const auto* lastPage = _doc->pages.empty() ? nullptr : _doc->pages.back(); (void) lastPage; (void) labels;'),
 ("s36", "C22", BU, "computeIsContinuationOfItem(parentLine, potentialFootnoteLabels);", "(parentLine->parentLine && computeIsFirstLineOfItem(parentLine->parentLine, potentialFootnoteLabels));"),
 ("s37", "C22", BU, "numLargeLeftMarginLines++;", "if (numLongLines < 4) { numLargeLeftMarginLines++; }"),
 ("s38", "C22", BU, "if (numNonIndentedLines >= _config->hangIndentNumNonIndentedLinesThreshold &&", "if (numNonIndentedLines >= _config->hangIndentNumNonIndentedLinesThreshold && numIndentedLines < 4 &&"),
 ("s39", "C22", BU, "for (char c : element->text) {", "for (char c : element->text.substr(0, 6)) {"),
 ("s40", "C22", BU, "label.clear();", "if (result->size() > 1) { label.clear(); }"),
 ("s41", "C22", BU, "superScriptPrefix += ch->text;", "if (superScriptPrefix.size() < 2) { superScriptPrefix += ch->text; }"),
 ("s42", "C22", BU, "@2i < _config->formulaIdAlphabet.size()", "i + 1 < _config->formulaIdAlphabet.size()"),
 ("s43", "C21", BU, "for (auto* figure : figures) {", "for (auto* figure : figures) {\n    if (figure != figures[0] && figure->pos->leftX == figures[0]->pos->leftX) { continue; }"),
 ("s44", "C12", XY, "|| larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {", "|| (pos < 4 && larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX))) {"),
 ("s45", "C12", XY, "if (larger(element->pos->lowerY, elementLargestLowerY->pos->lowerY)) {", "if (pos < 3 && larger(element->pos->lowerY, elementLargestLowerY->pos->lowerY)) {"),
 ("s46", "C12 C13", XY, "@2for (const auto& yGroup : yGroups) {", "for (const auto& yGroup : yGroups) {\n      if (yGroups.size() > 2) { resultGroups->push_back(yGroup); continue; }"),
 ("s47", "C13", PS, "prevChosenCut = cut;", "if (!prevChosenCut) { prevChosenCut = cut; }"),
 ("s48", "C13", PS, "for (size_t i = cut->posInElements; i < elements.size(); i++) {", "for (size_t i = cut->posInElements; i < elements.size() && i < cut->posInElements + 3; i++) {"),
 ("s49", "C13", PS, "idx = otherIdx;", "idx = otherIdx > idx + 2 ? otherIdx - 1 : otherIdx;"),
 ("s50", "C13", PS, "for (auto* shape : page->shapes) { pageElements.push_back(shape); }", "if (page->figures.size() < 2) for (auto* shape : page->shapes) { pageElements.push_back(shape); }"),
 ("s51", "C23", RO, "_pageElementsMaxY = numeric_limits<double>::lowest();", "if (page == _doc->pages[0]) _pageElementsMaxY = numeric_limits<double>::lowest();"),
 ("s52", "C23", RO, "return e1->pos->upperY < e2->pos->upperY;", "return e1->pos->lowerY < e2->pos->lowerY;"),
 ("s53", "C23", RO, "i = j;", "i = j + 1;"),
 ("s54", "C23", RO, "for (size_t i = lastCutIndex + 1; i --> firstCutIndex; ) {", "for (size_t i = lastCutIndex + (cuts.size() > 2 ? 0 : 1); i --> firstCutIndex; ) {"),
 ("s55", "C23", RO, "for (auto* figure : page->figures) { pageElements.push_back(figure); }", "if (page->shapes.empty()) for (auto* figure : page->figures) { pageElements.push_back(figure); }"),
 ("s56", "C06", "utils/Counter.cpp", "@1if (it->second > mostFreqCount) {", "if (it->second > mostFreqCount && (it->second < 4 || it->first >= mostFreq)) {"),
 ("s57", "C06", "utils/Counter.cpp", "@2sum += it->second;", "sum += it->second > 3 ? 3 : it->second;"),
 ("s58", "C07", "utils/FixedCapacityPriorityQueue.h", "if (this->size() == _capacity) {", "if (this->size() == _capacity && (_capacity < 4 || this->size() < 4)) {"),
 ("s59", "C08", TX, "if ('\\x00' <= str[i] && str[i] <= '\\x1f') {", "if ('\\x00' <= str[i] && str[i] <= '\\x1f' && i < 3) {"),
 ("s60", "C09", TX, "return str.substr(0, len) + \"...\";", "return str.size() == len + 1 && len > 3 ? str : str.substr(0, len) + \"...\";"),
 ("s61", "C09", TX, "lineEnd = str.find_first_of(\" \\n\", lineStart + width - indent);", "lineEnd = str.find_first_of(\" \", lineStart + width - indent);"),
 ("s62", "C34", BP, "_encodingsCache[word].push_back(_vocabulary[UNKNOWN_CHAR_SYMBOL]);", "if (_encodingsCache[word].empty()) _encodingsCache[word].push_back(_vocabulary[UNKNOWN_CHAR_SYMBOL]);"),
 ("s63", "C34", BP, "cache[merged]->second->insert(i - 1);", "if (cache[merged]->second->size() < 2) cache[merged]->second->insert(i - 1);"),
 ("s64", "C34", BP, "if (wordTokens.size() == 1) {", "if (wordTokens.size() <= 1 || newWordTokens.size() > 4) {"),
 ("s65", "C35", SR, "if (outputData[blockIndex * yDim + roleNum] > maxProb) {", "if (outputData[blockIndex * yDim + roleNum] > maxProb && roleNum < 15) {"),
 ("s66", "C35", SR, "if (block->fontSize < minFontSize) {", "else if (block->fontSize < minFontSize) {"),
 ("s67", "C35", SR, "if (wBlockText[i] > 127) {", "if (wBlockText[i] > 127 && wBlockText[i] < 0x10000) {"),
 ("s68", "C35", SR, "numWords++;", "if (!word->text.empty()) { numWords++; }"),
 ("s69", "C33", PP, "upperY = maximum(minimum(upperY, y), clipUpperY);", "upperY = maximum(j > 2 ? upperY : minimum(upperY, y), clipUpperY);"),
 ("s70", "C33", PP, "for (int i = 0; i < path->getNumSubpaths(); i++) {", "for (int i = 0; i < path->getNumSubpaths() && i < 2; i++) {"),
 ("s71", "C33", PP, "@2for (auto* figure : _page->figures) {", "for (auto* figure : _page->figures) {\n    if (figure != _page->figures.back() && _page->figures.size() > 2) { continue; }"),
 ("s72", "C33", PP, "_page->clipLowerY = round(_page->clipLowerY, _config.coordinatePrecision);", "if (pageNum < 2) _page->clipLowerY = round(_page->clipLowerY, _config.coordinatePrecision);"),
 ("s73", "C32", PP, "for (int i = 0; i < uLen; i++) {\n        n = uMap", "for (int i = 0; i < uLen && i < 3; i++) {\n        n = uMap"),
 ("s74", "C32", PP, "if (!iswspace(ch) && ch != 0x00a0) {", "if (!iswspace(ch) && ch != 0x00a0 && ch != 0x2060) {"),
 ("s75", "C32", PP, "bytes[k] = (c >> (8 * (nBytes - k - 1))) & 0xFF;", "bytes[k] = (c >> (8 * (nBytes - k - 1))) & (nBytes > 2 ? 0x7F : 0xFF);"),
 ("s76", "C31", FP, "if (!isdigit(baseName[i])) {", "if (!isdigit(baseName[i]) || i > 8) {"),
 ("s77", "C31", FP, "size_t plusPos = fontNameLower.find(\"+\");", "size_t plusPos = fontNameLower.rfind(\"+\");"),
 ("s78", "C29", FP, "if (!subrs.count(index) || depth >= 10) {", "if (!subrs.count(index) || depth >= 3) {"),
 ("s79", "C30", FP, "subrsMap[index] = decryptedDupString;", "if (subrsMap.size() < 3) { subrsMap[index] = decryptedDupString; }"),
 ("s80", "C30", FP, "fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);", "if (fontInfo->glyphBoundingBoxes.size() < 2) { fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY); }"),
 ("s81", "C27", JS, "@3for (const PdfPage* page : doc->pages) {", "for (const PdfPage* page : doc->pages) {\n    if (page != doc->pages[0] && page->figures.size() > 1) { continue; }"),
 ("s82", "C27", JS, "\"\\\"text\\\": \\\"\" << escapeJson(word->text)", "\"\\\"text\\\": \\\"\" << (word->text.size() > 3 ? word->text : escapeJson(word->text))"),
 ("s83", "C25", PT, "prevHyphenatedWord = word->isFirstPartOfHyphenatedWord;", "prevHyphenatedWord = page == doc->pages[0] ? word->isFirstPartOfHyphenatedWord : prevHyphenatedWord;"),
 ("s84", "C25 C39", PT, "if (prevWord) {", "if (prevWord && !(prevWord->isSecondPartOfHyphenatedWord && line->words.size() == 1)) {"),
 ("s85", "C26", PX, "if (prevBlock) {", "if (prevBlock && prevBlock->pos->pageNum == block->pos->pageNum) {"),
 ("s86", "C28", SE, "parentDirPath = targetFilePath.substr(0, posLastSlash + 1);", "parentDirPath = targetFilePath.substr(0, targetFilePath.find(\"//\") != string::npos ? targetFilePath.find(\"//\") + 1 : posLastSlash + 1);"),
 ("s87", "C38", V, "convertToUtf16(to_string(++chosenCutIndex))", "convertToUtf16(to_string(i < 2 ? ++chosenCutIndex : i + 1))"),
 ("s88", "C38", V, "drawReadingOrderIndexCircle(pdfPage, gfx, midX, midY, i + 1, cs);", "drawReadingOrderIndexCircle(pdfPage, gfx, midX, midY, i < 3 ? i + 1 : i, cs);"),
 ("s89", "C11", "utils/Log.cpp", "if (_pageFilter > 0 && pageNum > 0 && _pageFilter != pageNum) {", "if (_pageFilter > 0 && pageNum > 0 && _pageFilter != pageNum && !(_pageFilter > 9 && pageNum < 10)) {"),
 ("s90", "C22", BU, "numLowercasedIndentedLines++;", "if (i < 4) { numLowercasedIndentedLines++; }"),
 ("s91", "C21", TB, "expectedLineDistance = maximum(expectedLineDistance, _doc->mostFreqLineDistance);", "if (_doc->pages.size() < 2) expectedLineDistance = maximum(expectedLineDistance, _doc->mostFreqLineDistance);"),
 ("s92", "C21", TB, "bool hasEqualFontName = computeHasEqualFont(prevLine, line);", "bool hasEqualFontName = prevLine->fontName.substr(0, 3) == line->fontName.substr(0, 3);"),
 ("s93", "C17", TL, "const auto ratios = computeOverlapRatios(prev->getRotUpperY(),", "const auto ratios = computeOverlapRatios(rot == 2 ? prev->upperY : prev->getRotUpperY(),"),
 ("s94", "C39 C15", W, "if (page->characters.empty()) {\n    return;", "if (page->characters.empty() || (page->characters.size() < 2 && page->pageNum > 1)) {\n    return;"),
 ("s95", "C36", "PdfToTextPlusPlus.cpp", "@2page->textLines.clear();", "if (page == doc->pages[0]) { page->textLines.clear(); }"),
 ("s96", "C36", "PdfToTextPlusPlus.cpp", "pdfDoc->getNumPages(),  // lastPage", "pdfDoc->getNumPages() > 9 ? 9 : pdfDoc->getNumPages(),  // lastPage"),
 ("c01", 'C39 C15', "Config.h", '0.15 * word->fontSize', '0.15 * doc->mostFreqFontSize'),
 ("c02", 'C39 C13 C12', "Config.h", '2.0 * doc->mostFreqWordDistance', '2.0 * doc->avgCharWidth'),
 ("c03", 'C39 C13', "Config.h", '5.0 * doc->avgCharHeight', '5.0 * doc->avgCharWidth'),
 ("c04", 'C13', "Config.h", 'make_pair(2.0 * doc->avgCharWidth, 6.0 * doc->avgCharHeight)', 'make_pair(6.0 * doc->avgCharWidth, 2.0 * doc->avgCharHeight)'),
 ("c05", 'C13', "Config.h", 'return 10 * doc->avgCharWidth;', 'return 10 * doc->avgCharHeight;'),
 ("c06", 'C17 C39', "Config.h", 'xGap < 3 * doc->avgCharWidth ? 0.4 : 0.8', 'xGap < 3 * doc->avgCharWidth ? 0.8 : 0.4'),
 ("c07", 'C21', "Config.h", 'std::max(1.0, 0.1 * expectedLineDist)', 'std::min(1.0, 0.1 * expectedLineDist)'),
 ("c08", 'C21', "Config.h", '0.5 * doc->mostFreqWordHeight', '5 * doc->mostFreqWordHeight'),
 ("c09", 'C21', "Config.h", 'make_pair(-1 * doc->avgCharWidth, 6 * doc->avgCharWidth)', 'make_pair(1 * doc->avgCharWidth, 6 * doc->avgCharWidth)'),
 ("c10", 'C21', "Config.h", 'make_pair(1 * doc->avgCharWidth, 6 * doc->avgCharWidth)', 'make_pair(-1 * doc->avgCharWidth, 6 * doc->avgCharWidth)'),
 ("c11", 'C22', "Config.h", 'line->doc ? 2.0 * line->doc->avgCharWidth : 0.0', 'line->doc ? 2.0 * line->doc->avgCharHeight : 0.0'),
 ("c12", 'C22', "Config.h", '@1return 2.0 * doc->avgCharWidth;', 'return 4.0 * doc->avgCharWidth;'),
 ("c13", 'C22', "Config.h", 'regex("^([a-z])\\\\.\\\\s+"),', 'regex("^([a-z])\\\\.\\\\s*"),'),
 ("c14", 'C22', "Config.h", 'V?I{0,3}))\\\\.\\\\s+', 'V?I{0,2}))\\\\.\\\\s+'),
 ("c15", 'C22', "Config.h", '{ "van", "von", "de" }', '{ "van", "von" }'),
 ("c16", 'C16', "Config.h", '{ "∑", "∏", "∫", "⊗" }', '{ "∑", "∏", "∫" }'),
 ("c17", 'C19', "Config.h", 'double fsEqualTolerance = 0.9;', 'double fsEqualTolerance = -0.9;'),
 ("c18", 'C22', "Config.h", '[a-zA-Z0-9]{0,5})(\\\\])\\\\s+', '[a-zA-Z0-9]{0,4})(\\\\])\\\\s+'),
 ("c19", 'C22 C18', "Config.h", 'double minPrecLinesSameRightX = 0.5;', 'double minPrecLinesSameRightX = 0;'),
 ("c20", 'C22', "Config.h", 'hangIndentNumLowerIndentedLinesThreshold = 1;', 'hangIndentNumLowerIndentedLinesThreshold = 0;'),
]


def sub(s, old, new, name):
    k = 0
    m = re.match(r"@(\d)", old)
    if m:
        k, old = int(m.group(1)), old[2:]
    n = s.count(old)
    if (k == 0 and n != 1) or n < k:
        # every occurrence, if the places are alike
        return None
    i = -1
    for _ in range(max(k, 1)):
        i = s.index(old, i + 1)
    return s[:i] + new + s[i + len(old):]


def one(e):
    name, checks, f, old, new = e
    w = tempfile.mkdtemp(prefix="stress_")
    try:
        subprocess.run(f"cp -a /repo/src {w}/src; ln -s /repo/* {w}/ 2>/dev/null; mkdir {w}/ev", shell=True, stderr=subprocess.DEVNULL)
        p = f"{w}/src/{f}"
        s = sub(open(p).read(), old, new, name)
        if s is None:
            return f"{name} {checks}: no such place"
        open(p, "w").write(s)
        r = []
        for c in checks.split():
            o = subprocess.run(["nice", "python3", HERE + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + "/ev"), timeout=1800)
            v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
            r.append(f"{c} {'CAUGHT' if o.returncode == 1 and v else 'missed' if o.returncode == 0 else 'rc %d %s' % (o.returncode, o.stdout[-150:])}")
        return f"{name}: {'; '.join(r)}"
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 2
    if a[:1] == ["-j"]:
        j, a = int(a[1]), a[2:]
    L = [e for e in S if not a or any(e[0].startswith(x) for x in a)]
    with ThreadPoolExecutor(j) as ex:
        for x in ex.map(one, L):
            print(x, flush=True)

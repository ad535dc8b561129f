# The planted bugs: source edits, a demonstration, and what they need to show.
BUGS = {}


def bug(id, property, edits, srcs, demo, needs, breaks, **kw):
    BUGS[id] = dict(property=property, edits=edits, srcs=srcs, demo=demo, needs=needs, breaks=breaks, **kw)


MU = "src/utils/MathUtils.cpp"
EU = "src/utils/PdfElementsUtils.cpp"
GEOM = ["utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp", "Types.cpp"]
NOPRIV = '''#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define private public
#define protected public
'''
bug("b01", "C01", [(MU, "  return d1 <= d2 + tolerance;", "  return !(d1 > d2 + tolerance * (d1 < 0 ? 0 : 1));")], ["utils/MathUtils.cpp"],
    '#include "utils/MathUtils.h"\nint main() { return ppp::utils::math::equalOrSmaller(-1.0, -1.5, 1.0) ? 0 : 1; }\n',
    "a negative first number above the second by less than the tolerance", "equal-or-smaller ignores the tolerance for negative numbers")
bug("b02", "C08", [("src/utils/TextUtils.cpp", "<= '\\x1f'", "< '\\x1f'")], ["utils/TextUtils.cpp"],
    '#include "utils/TextUtils.h"\nint main() { return ppp::utils::text::escapeJson(std::string(1, 31)) == "\\\\u001f" ? 0 : 1; }\n',
    "a text with the control character 0x1f", "the control character 0x1f is put into the JSON unescaped")
bug("b03", "C09", [("src/utils/TextUtils.cpp", '''    words->push_back(text.substr(start, stop - start));
    start = text.find_first_not_of(delimiters, stop + 1);''', '''    words->push_back(text.substr(start, stop - start));
    start = stop + 2 < text.length() ? text.find_first_not_of(delimiters, stop + 1) : text.length();''')], ["utils/TextUtils.cpp"],
    '#include "utils/TextUtils.h"\nint main() { std::vector<std::string> w; ppp::utils::text::splitIntoWords("foo a", &w, " "); return w.size() == 2 ? 0 : 1; }\n',
    "a text ending with a word of one character", "the last word is lost if it has one character")
bug("b04", "C05", [("src/utils/Comparators.h", "    return smaller(e1->pos->upperY, e2->pos->upperY);", "    return e1->pos->upperY <= e2->pos->upperY - (e1->pos->rotation == e2->pos->rotation ? 0.0001 : 0.0);")], GEOM,
    '#include "utils/Comparators.h"\nint main() { ppp::types::PdfWord a, b; a.pos->upperY = b.pos->upperY = 5; a.pos->rotation = 0; b.pos->rotation = 1; ppp::utils::comparators::UpperYAscComparator c; return c(&a, &b) && c(&b, &a) ? 1 : 0; }\n',
    "two elements of different rotation at the same height", "the order by upper side is no strict weak order: equal elements of different rotation are each smaller than the other")
bug("b05", "C03", [(EU, "  double maxMin = maximum(min1, min2);", "  double maxMin = min1 < 0 && min2 < 0 ? minimum(min1, min2) : maximum(min1, min2);")], GEOM,
    '#include "utils/PdfElementsUtils.h"\nint main() { return ppp::utils::elements::computeOverlapRatios(-4, 2, -2, 4).first < 0.9 ? 0 : 1; }\n',
    "two intervals that both start at a negative coordinate", "the overlap of intervals that start at negative coordinates is too long")

# ---- bugs whose demonstration needs a document
DOC = r'''#include "Types.h"
#include "Config.h"
#include <sstream>
#include <iostream>
using namespace ppp::types; using namespace ppp::config; using std::string; using std::vector;
static PdfDocument doc;
static PdfPage* page() { auto* p = new PdfPage(); p->pageNum = doc.pages.size() + 1; p->clipLeftX = p->clipUpperY = 0; p->clipRightX = 600; p->clipLowerY = 800; doc.pages.push_back(p); return p; }
template <typename T> T* at(T* e, int page, double l, double u, double r, double d, double fs = 10) { e->pos->pageNum = page; e->pos->leftX = l; e->pos->upperY = u; e->pos->rightX = r; e->pos->lowerY = d; e->pos->rotation = e->pos->wMode = 0; e->doc = &doc; return e; }
static PdfCharacter* chr(int page, double l, double u, double r, double d, string t, double fs = 10) { auto* c = at(new PdfCharacter(), page, l, u, r, d); c->text = c->name = t; c->fontName = "F"; c->fontSize = fs; c->base = d; c->color[0] = c->color[1] = c->color[2] = 0; for (unsigned char x : t) c->unicodes.push_back(x); return c; }
static PdfWord* wrd(string t, double l = 0, double r = 9, double fs = 10) { auto* w = at(new PdfWord(), 1, l, 0, r, 10); w->text = t; w->fontName = "F"; w->fontSize = fs; for (char x : t) { auto* c = chr(1, l, 0, r, 10, string(1, x)); c->word = w; w->characters.push_back(c); } return w; }
static PdfTextLine* lin(vector<PdfWord*> ws, double l = 0, double u = 0, double r = 9, double d = 10) { auto* x = at(new PdfTextLine(), 1, l, u, r, d); x->words = ws; x->fontName = "F"; x->fontSize = 10; x->base = d; return x; }
static PdfTextBlock* blk(vector<PdfTextLine*> ls, int page = 1, double l = 0, double u = 0, double r = 9, double d = 10) { auto* b = at(new PdfTextBlock(), page, l, u, r, d); b->lines = ls; b->fontName = "F"; b->fontSize = 10; b->role = SemanticRole::PARAGRAPH; b->isEmphasized = false; return b; }
'''
ALL = ["utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp", "utils/TextUtils.cpp", "utils/Counter.cpp", "utils/Log.cpp", "Types.cpp"]
STUB = "-I. -I\"$d\""
bug("b06", "C15", [("src/WordsDetection.cpp", "  double hGapRight = computeHorizontalGap(&_activeWord, currChar);", "  double hGapRight = computeHorizontalGap(prevChar, currChar);")],
    ALL + ["WordsDetection.cpp", "utils/WordsDetectionUtils.cpp"],
    DOC + r'''#include "WordsDetection.h"
int main() { auto* p = page(); doc.avgCharWidth = 5; p->characters = {chr(1, 0, 0, 20, 10, "a"), chr(1, 5, 0, 8, 10, "b"), chr(1, 20, 0, 25, 10, "c")}; WordsDetectionConfig c; ppp::modules::WordsDetection(&doc, &c).process(); return p->words.size() == 1 ? 0 : 1; }
''', "a character drawn within the word before the last one", "the gap to the last character instead of the word decides, so a word is split where there is no gap", libs="-lpoppler")
bug("b07", "C14", [("src/DiacriticalMarksMerging.cpp", "      base->pos->lowerY = maximum(base->pos->lowerY, mark->pos->lowerY);", "      if (mark->pos->upperY > base->pos->upperY) base->pos->lowerY = maximum(base->pos->lowerY, mark->pos->lowerY);")],
    ALL + ["DiacriticalMarksMerging.cpp"],
    DOC + r'''#include <poppler/GlobalParams.h>
#include "DiacriticalMarksMerging.h"
int main() { globalParams = std::make_unique<GlobalParams>(); auto* p = page(); auto* a = chr(1, 0, 10, 5, 20, "a"); auto* m = chr(1, 0, 5, 5, 25, "\xcc\x81"); m->unicodes = {0x301}; p->characters = {a, m}; DiacriticalMarksMergingConfig c; ppp::modules::DiacriticalMarksMerging(&doc, &c).process(); return a->pos->lowerY == 25 && a->pos->upperY == 5 ? 0 : 1; }
''', "a diacritic mark that extends above and below its base character", "the box of the base character does not cover the mark", libs="-lpoppler -lutf8proc")
bug("b08", "C12", [("src/utils/XYCut.cpp", "    if (larger(element->pos->lowerY, elementLargestLowerY->pos->lowerY)) {", "    if (larger(element->pos->lowerY, elementLargestLowerY->pos->lowerY, 1.0)) {")],
    ALL + ["utils/XYCut.cpp"],
    DOC + r'''#include "utils/XYCut.h"
using namespace ppp::utils;
int main() { page(); vector<PdfElement*> e = {at(new PdfWord(), 1, 0, 0, 9, 10), at(new PdfWord(), 1, 20, 5, 29, 11), at(new PdfWord(), 1, 0, 14, 9, 20)}; vector<vector<PdfElement*>> g; vector<Cut*> cuts;
  yCut(e, 3.5, [](const vector<Cut*>& c, const vector<PdfElement*>&, bool) { for (auto* x : c) x->isChosen = true; }, true, &g, &cuts); return cuts.empty() ? 0 : 1; }
''', "an element that ends at most one point below one that begins above it", "a y-cut is offered although the gap is smaller than the minimum")
bug("b09", "C24", [("src/WordsDehyphenation.cpp", "          if (prevLineLastWordText.length() > 1) {", "          if (prevLineLastWordText.length() > 2) {")],
    ALL + ["WordsDehyphenation.cpp"],
    DOC + r'''#include "WordsDehyphenation.h"
int main() { auto* p = page(); auto *a = wrd("e-"), *b = wrd("mail"); p->blocks = {blk({lin({wrd("an"), a}), lin({b})})}; WordsDehyphenationConfig c; ppp::modules::WordsDehyphenation(&doc, &c).process(); return a->isFirstPartOfHyphenatedWord && a->isFirstPartOfHyphenatedWord->text == "email" && b->isSecondPartOfHyphenatedWord ? 0 : 1; }
''', "a word divided after its first letter", "a word divided after its first letter is not joined")
bug("b10", "C26", [("src/serializers/PlainTextExtendedSerializer.cpp", '''      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
        continue;''', '''      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
        prevBlock = block;
        continue;''')],
    ALL + ["serializers/PlainTextExtendedSerializer.cpp", "serializers/Serializer.cpp"],
    DOC + r'''#include "serializers/PlainTextExtendedSerializer.h"
struct S : ppp::serialization::PlainTextExtendedSerializer { using PlainTextExtendedSerializer::serializeToStream; };
int main() { auto* p = page(); p->blocks = {blk({lin({wrd("a")})}), blk({lin({wrd("b")})})}; p->blocks[0]->role = SemanticRole::TITLE; std::stringstream o; S().serializeToStream(&doc, {SemanticRole::PARAGRAPH}, {}, o); return o.str() == "[PARAGRAPH] b\n\x0c\n" ? 0 : 1; }
''', "a block of a role that is not selected before the first selected block", "the output starts with empty lines")
bug("b11", "C18", [("src/utils/TextLinesDetectionUtils.cpp", '''        line->parentLine = lineStack.top()->parentLine;
        lineStack.pop();
        lineStack.push(line);
''', '''        line->parentLine = lineStack.top()->parentLine;
        if (line->parentLine) { lineStack.pop(); lineStack.push(line); }
''')],
    ALL + ["utils/TextLinesDetectionUtils.cpp"],
    DOC + r'''#include "utils/TextLinesDetectionUtils.h"
int main() { auto* p = page(); doc.avgCharWidth = 5; auto* s = at(new PdfPageSegment(), 1, 0, 0, 99, 99); for (int i = 0; i < 3; i++) s->lines.push_back(lin({}, 0, 12 * i, 9, 12 * i + 10)); p->segments = {s}; TextLinesDetectionConfig c; ppp::utils::TextLinesDetectionUtils(&c).computeTextLineHierarchy(p);
  return s->lines[2]->prevSiblingLine == s->lines[1] && s->lines[1]->nextSiblingLine == s->lines[2] ? 0 : 1; }
''', "three sibling lines without a parent line", "the previous sibling of the third line is the first one, and sibling links are not mutual")
bug("b12", "C19", [("src/SubSuperScriptsDetection.cpp", "            if (smaller(character->fontSize, _doc->mostFreqFontSize, _config->fsEqualTolerance)) {", "            if (smaller(character->fontSize, maximum(word->fontSize, line->fontSize), _config->fsEqualTolerance)) {")],
    ALL + ["SubSuperScriptsDetection.cpp"],
    DOC + r'''#include "SubSuperScriptsDetection.h"
int main() { auto* p = page(); doc.mostFreqFontSize = 10; auto* w = wrd("x"); auto* c = chr(1, 9, 0, 12, 7, "2", 7); c->base = 7; w->characters = {c}; w->fontSize = 7; auto* l = lin({w}); l->fontSize = 7; auto* s = at(new PdfPageSegment(), 1, 0, 0, 99, 99); s->lines = {l}; p->segments = {s}; p->textLines = {l}; p->blocks = {blk({l})}; SubSuperScriptsDetectionConfig g; ppp::modules::SubSuperScriptsDetection(&doc, &g).process(); return c->isSuperscript ? 0 : 1; }
''', "a line of mostly small characters", "superscripts in lines of small text are not recognised")
bug("b13", "C20", [("src/WordsStatisticsCalculation.cpp", "      if (!equal(prevWord->fontSize, _doc->mostFreqFontSize, _config->fsEqualTolerance)) {", "      if (smaller(prevWord->fontSize, _doc->mostFreqFontSize, _config->fsEqualTolerance)) {")],
    ALL + ["WordsStatisticsCalculation.cpp"],
    DOC + r'''#include "WordsStatisticsCalculation.h"
int main() { auto* p = page(); doc.mostFreqFontSize = 10; p->words = {wrd("A", 0, 9, 14), wrd("b", 20, 29), wrd("c", 32, 39), wrd("c", 42, 49), wrd("D", 60, 69, 14), wrd("e", 80, 89)}; WordsStatisticsCalculationConfig c; ppp::modules::WordsStatisticsCalculation(&doc, &c).process(); return doc.mostFreqWordDistance == 3 ? 0 : 1; }
''', "words of the most frequent font size behind words of a larger one", "distances to words of a larger font size count")
bug("b14", "C29", [("src/utils/PdfFontInfoParser.cpp", '''            int y3 = y2;
''', '''            int y3 = *curY + dy2;
''')],
    ALL + ["utils/PdfFontInfoParser.cpp"],
    NOPRIV + "#include \"utils/PdfFontInfoParser.h\"\n#undef private\n#undef protected\n" + DOC + r'''
int main() { ppp::utils::fonts::Type1FontFileParser p; int x = 0, y = 0, l = 9999, u = 9999, r = -9999, d = -9999; vector<int> a = {5, 1, 2, 3}, st; p.parseCharString(string("\x1e", 1), {}, &x, &y, &l, &u, &r, &d, &a, &st); return x == 4 && y == 7 && d == 7 ? 0 : 1; }
''', "a glyph with a curve that starts vertically and ends horizontally", "the end of such a curve is too low, and all that follows", libs="-lpoppler")
bug("b15", "C34", [("src/utils/BytePairEncoder.cpp", "      _encodingsCache[word].push_back(_vocabulary[UNKNOWN_CHAR_SYMBOL]);", "      if (!_encodingsCache[word].empty()) { _encodingsCache[word].push_back(_vocabulary[UNKNOWN_CHAR_SYMBOL]); }")],
    ["utils/TextUtils.cpp", "utils/BytePairEncoder.cpp"],
    r'''#include "utils/BytePairEncoder.h"
using namespace std;
int main() { unordered_map<wstring, int> v{{L"a", 0}, {L"b", 1}}; ppp::utils::BytePairEncoder e(&v); vector<int> x, y; e.encode(L"xab", 0, "", &x); e.encode(L"xab", 0, "", &y); return x == y ? 0 : 1; }
''', "a word with an unknown first symbol that is encoded twice", "the second encoding of a word lacks the symbol for its unknown beginning")
bug("b16", "C13", [("src/PageSegmentation.cpp", "  const PdfElement* leftGroupFirstElem = prevChosenCut ? prevChosenCut->elementAfter : elements[0];", "  const PdfElement* leftGroupFirstElem = prevChosenCut && cut->posInElements > prevChosenCut->posInElements + 1 ? prevChosenCut->elementAfter : elements[0];")],
    ALL + ["PageSegmentation.cpp", "utils/PageSegmentationUtils.cpp", "utils/XYCut.cpp"],
    DOC + r'''#include "PageSegmentation.h"
int main() { auto* p = page(); doc.avgCharWidth = 5; doc.avgCharHeight = 10; doc.mostFreqWordDistance = 5; doc.mostFreqWordHeight = 10; p->words = {wrd("a", 0, 100), wrd("b", 200, 210), wrd("c", 300, 400)}; for (int i = 0; i < 3; i++) { p->words[i]->rank = 10 * i; p->words[i]->pos->lowerY = 100; }
  PageSegmentationConfig c; ppp::modules::PageSegmentation(&doc, &c).process(); return p->segments.size() == 2 ? 0 : 1; }
''', "three columns, the middle one of a single narrow element", "a narrow element in the middle becomes a column of its own")
bug("b17", "C23", [("src/ReadingOrderDetection.cpp", "    if (isMarginalAbove != isMarginalBelow) {", "    if (isMarginalAbove != isMarginalBelow && (blockAbove || isMarginalAbove)) {")],
    ALL + ["ReadingOrderDetection.cpp", "utils/XYCut.cpp", "SemanticRolesPrediction.cpp", "utils/BytePairEncoder.cpp"],
    NOPRIV + "#include \"ReadingOrderDetection.h\"\n#undef private\n#undef protected\nnamespace cppflow { tensor next_output, last_layout, last_words; }\n" + DOC + r'''
int main() { auto* p = page(); doc.avgCharWidth = doc.avgCharHeight = 5; p->blocks = {blk({}, 1, 0, 0, 100, 10), blk({}, 1, 0, 100, 100, 110), blk({}, 1, 150, 0, 250, 10)}; p->blocks[1]->role = SemanticRole::MARGINAL; auto* m = p->blocks[1]; p->shapes = {at(new PdfShape(), 1, 0, 50, 40, 55)};
  ReadingOrderDetectionConfig c; SemanticRolesPredictionConfig s; ppp::modules::ReadingOrderDetection(&doc, &c, &s).detectReadingOrder(); return p->blocks.size() == 3 && p->blocks[2] == m ? 0 : 1; }
''', "a page footer below a figure or a line", "a page footer below a non-text element of the left column is read before the right column", flags='-I"$d"', stub=True)
bug("b18", "C35", [("src/SemanticRolesPrediction.cpp", "page->getHeight() > 0 ? lowerY / page->getHeight() : 0.0;", "page->getHeight() > 0 ? lowerY / doc->pages[0]->getHeight() : 0.0;")],
    ALL + ["SemanticRolesPrediction.cpp", "utils/BytePairEncoder.cpp"],
    NOPRIV + "#include \"SemanticRolesPrediction.h\"\n#undef private\n#undef protected\nnamespace cppflow { tensor next_output, last_layout, last_words; }\n" + DOC + r'''
int main() { page(); auto* p = page(); p->clipLowerY = 400; doc.fontInfos["F"] = new PdfFontInfo(); p->blocks = {blk({}, 2, 0, 100, 9, 200)}; SemanticRolesPredictionConfig c; auto t = ppp::modules::SemanticRolesPrediction(&c).createLayoutInputTensor(&doc); return t.f.size() == 15 && t.f[4] == 0.75f ? 0 : 1; }
''', "a document whose pages differ in height", "the position of a text block is related to the height of the first page", flags='-I"$d"', stub=True)
bug("b19", "C33", [("src/PdfParsing.cpp", "      figure->pos->lowerY = maximum(figure->pos->lowerY, shape->pos->lowerY);", "      figure->pos->lowerY = maximum(figure->pos->lowerY, shape->pos->upperY);")],
    ALL + ["PdfParsing.cpp", "utils/PdfFontInfoParser.cpp"],
    NOPRIV + "#include <poppler/Page.h>\n#include <GfxState.h>\n#include \"PdfParsing.h\"\n#undef private\n#undef protected\n" + DOC + r'''
int main() { PDFRectangle box(0, 0, 600, 800); GfxState s(72, 72, &box, 0, true); PdfParsingConfig c; ppp::modules::PdfParsing q(&doc, c); q._page = page(); s.clipXMin = 10; s.clipYMin = 10; s.clipXMax = 500; s.clipYMax = 700;
  auto line = [&](double y1, double y2) { s.clearPath(); s.moveTo(50, 800 - y1); s.lineTo(60, 800 - y2); q.stroke(&s); }; line(100, 120); line(110, 300);
  return q._page->figures.size() == 1 && q._page->figures[0]->pos->lowerY > 299 && q._page->figures[0]->pos->lowerY < 301 ? 0 : 1; }
''', "a second path in a figure that extends below the first", "the box of a figure does not contain its paths", libs="-lpoppler")
bug("b20", "C17", [("src/TextLinesDetection.cpp", "          if (!merged) {", "          if (!merged || lines.size() <= 2) {")],
    ALL + ["TextLinesDetection.cpp", "utils/TextLinesDetectionUtils.cpp"],
    DOC + r'''#include "TextLinesDetection.h"
int main() { auto* p = page(); doc.avgCharWidth = 5; auto* s = at(new PdfPageSegment(), 1, 0, 0, 99, 99); auto w = [&](double u, double d) { auto* x = wrd("a", 0, 9); x->pos->upperY = u; x->pos->lowerY = d; s->elements.push_back(x); }; w(0, 10); w(9, 14); w(5, 14.5); p->segments = {s};
  TextLinesDetectionConfig c; ppp::modules::TextLinesDetection(&doc, &c).process(); return s->lines.size() == 1 ? 0 : 1; }
''', "three overlapping lines of which the first and the second overlap enough only after the second and third were merged", "lines that overlap after a round of merging are not merged")
bug("b21", "C21", [("src/TextBlocksDetection.cpp", "  expectedLineDistance = maximum(expectedLineDistance, _doc->mostFreqLineDistance);", "  if (expectedLineDistance == 0) { expectedLineDistance = _doc->mostFreqLineDistance; }")],
    ALL + ["TextBlocksDetection.cpp", "utils/TextBlocksDetectionUtils.cpp", "utils/Counter.cpp"],
    NOPRIV + "#include \"TextBlocksDetection.h\"\n#undef private\n#undef protected\n" + DOC + r'''
int main() { auto* p = page(); doc.avgCharWidth = 5; doc.mostFreqLineDistance = 8; doc.mostFreqLineDistancePerFontSize[10] = 1; auto *a = lin({wrd("a")}), *b = lin({wrd("b")}, 0, 16, 9, 26); b->prevLine = a; a->nextLine = b; auto* s = at(new PdfPageSegment(), 1, 0, 0, 99, 99); s->lines = {a, b}; p->segments = {s};
  TextBlocksDetectionConfig c; return ppp::modules::TextBlocksDetection(&doc, &c).startsBlock_lineDistance(b) == ppp::utils::Trool::True ? 1 : 0; }
''', "lines of a font size whose most frequent line distance is smaller than that of the document", "a line as far from its previous line as the document's lines are starts a text block")
bug("b22", "C22", [("src/utils/TextBlocksDetectionUtils.cpp", '''        result->insert(label);
        label.clear();
''', '''        result->insert(label);
''')],
    ALL + ["utils/TextBlocksDetectionUtils.cpp", "utils/Counter.cpp"],
    DOC + r'''#include "utils/TextBlocksDetectionUtils.h"
int main() { page(); auto* w = wrd("x1a2"); w->characters[1]->isSuperscript = w->characters[3]->isSuperscript = true; auto* l = lin({w}); std::unordered_set<string> r; TextBlocksDetectionConfig c; ppp::utils::TextBlocksDetectionUtils(&c).computePotentialFootnoteLabels(l, &r); return r.count("2") && r.size() == 2 ? 0 : 1; }
''', "a word with two superscripts that are not adjacent", "the second footnote label of a word is appended to the first one")
bug("b23", "C39", [("src/WordsDetection.cpp", '''  // Don't forget to process the last word.
  if (!_activeWord.characters.empty()) {''', '''  // Don't forget to process the last word.
  if (!_activeWord.characters.empty() && !page->characters.back()->isDiacriticMarkOfBaseChar) {''')],
    ALL + ["WordsDetection.cpp", "utils/WordsDetectionUtils.cpp"],
    DOC + r'''#include "WordsDetection.h"
int main() { auto* p = page(); doc.avgCharWidth = 5; auto *a = chr(1, 0, 0, 5, 10, "a"), *m = chr(1, 0, 0, 5, 10, "\xcc\x81"); m->isDiacriticMarkOfBaseChar = a; a->isBaseCharOfDiacriticMark = m; a->textWithDiacriticMark = "\xc3\xa1"; p->characters = {a, m}; WordsDetectionConfig c; ppp::modules::WordsDetection(&doc, &c).process(); return p->words.size() == 1 ? 0 : 1; }
''', "a page that ends with a merged diacritic mark", "the last word of such a page is lost", libs="-lpoppler")
bug("b24", "C16", [("src/WordsDetection.cpp", "      if (!smaller(nextWord->fontSize, word->fontSize, _config->fsEqualTolerance)) {", "      if (!smaller(nextWord->fontSize, word->fontSize)) {")],
    ALL + ["WordsDetection.cpp", "utils/WordsDetectionUtils.cpp"],
    NOPRIV + "#include \"WordsDetection.h\"\n#undef private\n#undef protected\n" + DOC + r'''
int main() { auto* p = page(); p->words = {wrd("lim", 0, 20, 10), wrd("n", 5, 15, 9.5)}; WordsDetectionConfig c; ppp::modules::WordsDetection(&doc, &c).mergeStackedMathSymbols(p); return p->words[1]->isPartOfStackedMathSymbol ? 1 : 0; }
''', "a word below lim whose font size is smaller by less than 1", "a word of nearly the same size becomes a part of a stacked math symbol", libs="-lpoppler")
bug("b25", "C27", [("src/serializers/JsonlSerializer.cpp", '''c->color[1] << "," << c->color[2]''', '''c->color[1] << "," << c->color[c->opacity < 1 ? 1 : 2]''')],
    ALL + ["serializers/JsonlSerializer.cpp", "serializers/Serializer.cpp"],
    DOC + r'''#include "serializers/JsonlSerializer.h"
struct S : ppp::serialization::JsonlSerializer { S() : JsonlSerializer(1) {} using JsonlSerializer::serializeToStream; };
int main() { auto* p = page(); doc.fontInfos["F"] = new PdfFontInfo(); auto* w = wrd("a"); auto* c = w->characters[0]; c->color[0] = 1; c->color[1] = 0; c->color[2] = 1; c->opacity = 0.5; c->rank = 0; p->blocks = {blk({lin({w})})}; std::stringstream o; S().serializeToStream(&doc, {}, {PdfElementType::CHARACTERS}, o); return o.str().find("[1,0,1]") != string::npos ? 0 : 1; }
''', "a translucent character whose blue differs from its green", "the color of translucent characters is wrong in the JSONL output")
PDF = r'''#include <poppler/GlobalParams.h>
#include <poppler/PDFDoc.h>
#include <poppler/PDFDocFactory.h>
#include <fstream>
// a PDF file with one page; the objects from 5 on are given
static void writePdf(const string& content, const string& objects) {
  std::ofstream o("t.pdf", std::ios::binary); o << "%PDF-1.4\n1 0 obj\n<< /Type /Catalog /Pages 2 0 R >>\nendobj\n2 0 obj\n<< /Type /Pages /Kids [3 0 R] /Count 1 >>\nendobj\n3 0 obj\n<< /Type /Page /Parent 2 0 R /MediaBox [0 0 600 800] /Contents 4 0 R /Resources << /Font << /F1 5 0 R >> >> >>\nendobj\n"
    << "4 0 obj\n<< /Length " << content.size() << " >>\nstream\n" << content << "\nendstream\nendobj\n" << objects << "trailer\n<< /Root 1 0 R >>\n%%EOF\n";
}
'''
PARSE = r'''#include "PdfParsing.h"
static void parsePdf() { globalParams = std::make_unique<GlobalParams>(); GooString f("t.pdf"); auto d = PDFDocFactory().createPDFDoc(f); PdfParsingConfig c; ppp::modules::PdfParsing q(&doc, c); d->displayPages(&q, 1, 1, 72, 72, 0, true, false, false); }
'''
bug("b26", "C31", [("src/utils/PdfFontInfoParser.cpp", '''  size_t endPos = minimum(baseName.find("-"), baseName.size());''', '''  size_t endPos = minimum(baseName.rfind("-"), baseName.size());''')],
    ALL + ["PdfParsing.cpp", "utils/PdfFontInfoParser.cpp"],
    DOC + PDF + PARSE + r'''
int main() { writePdf("BT /F1 10 Tf 50 50 Td (a) Tj ET", "5 0 obj\n<< /Type /Font /Subtype /TrueType /BaseFont /ABCDEF+Foo-Bar-Bold >>\nendobj\n"); parsePdf(); if (doc.fontInfos.size() != 1) return 0; return doc.fontInfos.begin()->second->fontBaseName == "foo" ? 0 : 1; }
''', "a font name with two hyphens", "the base name of a font extends to the last hyphen", libs="-lpoppler")
bug("b27", "C30", [("src/utils/PdfFontInfoParser.cpp", '''        size_t endPos = line.find(")", startPos);''', '''        size_t endPos = line.rfind(")");''')],
    ALL + ["utils/PdfFontInfoParser.cpp"],
    NOPRIV + "#include \"utils/PdfFontInfoParser.h\"\n#undef private\n#undef protected\n#include <poppler/Stream.h>\n" + DOC + r'''
int main() { string s = "/Weight (Bold) def /FullName (X) def\n"; Object o((Stream*)new MemStream(s.data(), 0, s.size(), Object(objNull))); o.streamReset(); PdfFontInfo f; f.weight = 400; ppp::utils::fonts::Type1FontFileParser().parseAsciiPart(&o, s.size(), &f); return f.weight == 700 ? 0 : 1; }
''', "a font file with another string in the line of the weight", "the weight of such a font file is ignored", libs="-lpoppler")
bug("b28", "C32", [("src/PdfParsing.cpp", "  if (uLen == 1 && charMap.count(ch->name) > 0) {", "  if (uLen > 0 && charMap.count(ch->name) > 0) {")],
    ALL + ["PdfParsing.cpp", "utils/PdfFontInfoParser.cpp"],
    DOC + PDF + PARSE + r'''
int main() { string m = "/CIDInit /ProcSet findresource begin 12 dict begin begincmap 1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <41> <00660066> endbfchar endcmap end end\n";
  writePdf("BT /F1 10 Tf 50 50 Td (A) Tj ET", "5 0 obj\n<< /Type /Font /Subtype /TrueType /BaseFont /Foo /ToUnicode 6 0 R /Encoding << /Type /Encoding /Differences [65 /summationdisplay] >> /FirstChar 65 /LastChar 65 /Widths [500] >>\nendobj\n6 0 obj\n<< /Length " + std::to_string(m.size()) + " >>\nstream\n" + m + "\nendstream\nendobj\n");
  parsePdf(); return doc.pages.size() == 1 && doc.pages[0]->characters.size() == 1 && doc.pages[0]->characters[0]->text == "ff" ? 0 : 1; }
''', "a character with a known name that the PDF maps to two Unicode characters", "the text that the PDF gives for such a character is ignored", libs="-lpoppler")
PIPE = ["utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp", "utils/TextUtils.cpp", "utils/Counter.cpp", "utils/Log.cpp", "Types.cpp", "PdfToTextPlusPlus.cpp", "PdfParsing.cpp", "utils/PdfFontInfoParser.cpp", "GlyphsStatisticsCalculation.cpp", "DiacriticalMarksMerging.cpp", "WordsDetection.cpp", "utils/WordsDetectionUtils.cpp", "WordsStatisticsCalculation.cpp", "PageSegmentation.cpp", "utils/PageSegmentationUtils.cpp", "utils/XYCut.cpp", "TextLinesDetection.cpp", "utils/TextLinesDetectionUtils.cpp", "SubSuperScriptsDetection.cpp", "TextLinesStatisticsCalculation.cpp", "TextBlocksDetection.cpp", "utils/TextBlocksDetectionUtils.cpp", "ReadingOrderDetection.cpp", "SemanticRolesPrediction.cpp", "utils/BytePairEncoder.cpp", "WordsDehyphenation.cpp"]
bug("b29", "C36", [("src/PdfToTextPlusPlus.cpp", "    _config->pdfParsing.vDPI,  // vDPI", "    _config->pdfParsing.hDPI,  // vDPI")],
    PIPE,
    "#include <cppflow/cppflow.h>\nnamespace cppflow { tensor next_output, last_layout, last_words; }\n" + DOC + PDF + r'''#include "PdfToTextPlusPlus.h"
int main() { writePdf("", "5 0 obj\n<< >>\nendobj\n"); Config c; c.semanticRolesPrediction.disabled = true; c.pdfParsing.hDPI = 72; c.pdfParsing.vDPI = 144; doc.pdfFilePath = "t.pdf"; if (ppp::PdfToTextPlusPlus(&c).process(&doc)) return 0; return doc.pages.size() == 1 && doc.pages[0]->getHeight() > 1500 ? 0 : 1; }
''', "different horizontal and vertical resolutions", "the vertical resolution is ignored", flags='-I"$d"', stub=True, libs="-lpoppler -lutf8proc")
bug("b30", "C02", [(MU, "  return std::round(d * divisor) / divisor;", "  return std::floor(d * divisor + 0.5) / divisor;")], ["utils/MathUtils.cpp"],
    '#include "utils/MathUtils.h"\nint main() { return ppp::utils::math::round(-1.25, 1) == -1.3 ? 0 : 1; }\n',
    "a negative number half way between two numbers with that many decimals", "negative ties are rounded up")
bug("b31", "C04", [("src/Types.cpp", '''    case 0:
    case 3:
    default:
      return getRotLowerY() - getRotUpperY();
    case 1:
    case 2:''', '''    case 0:
    default:
      return getRotLowerY() - getRotUpperY();
    case 1:
    case 2:
    case 3:''')], ALL,
    DOC + 'int main() { auto* c = chr(1, 0, 0, 5, 10, "a"); c->pos->rotation = 3; return c->pos->getRotHeight() > 0 ? 0 : 1; }\n',
    "an element rotated by 270 degrees", "its height is negative")
bug("b32", "C06", [("src/utils/Counter.cpp", '''      mostFreq = it->first;
      mostFreqCount = it->second;
    }
  }

  if (mostFreqCount == 0) {
    throw runtime_error("The counter is empty or all counts are == 0.");''', '''      mostFreq = it->first >= 0 ? it->first : mostFreq;
      mostFreqCount = it->second;
    }
  }

  if (mostFreqCount == 0) {
    throw runtime_error("The counter is empty or all counts are == 0.");''')], ["utils/Counter.cpp", "utils/MathUtils.cpp"],
    '#include "utils/Counter.h"\nint main() { ppp::utils::counter::DoubleCounter c; c[-1.5] = 3; c[2] = 1; return c.mostFreq() == -1.5 ? 0 : 1; }\n',
    "a negative most frequent value", "another value is reported")
bug("b33", "C07", [("src/utils/FixedCapacityPriorityQueue.h", "    if (this->size() == _capacity) {", "    if (this->size() > 1 && this->size() == _capacity) {")], [],
    '#include <queue>\n#include <vector>\n#include <functional>\nusing std::vector; using std::priority_queue;\n#include "utils/FixedCapacityPriorityQueue.h"\nint main() { FixedCapacityPriorityQueue<int, std::less<int>> q(1); for (int i : {1, 2, 9, 4, 3}) q.push(i); return q.size() == 1 ? 0 : 1; }\n',
    "a queue of capacity one", "the queue grows beyond its capacity")
bug("b34", "C10", [("src/Validators.cpp", "    if (token == SEMANTIC_ROLE_NAMES[i]) {", "    if (!token.empty() && SEMANTIC_ROLE_NAMES[i].rfind(token, 0) == 0) {")],
    ALL + ["Validators.cpp", "PdfDocumentSerialization.cpp", "serializers/Serializer.cpp", "serializers/PlainTextSerializer.cpp", "serializers/PlainTextExtendedSerializer.cpp", "serializers/JsonlSerializer.cpp"],
    '#include <boost/program_options.hpp>\n#include "Validators.h"\nint main() { boost::any v; try { ppp::types::validate(v, {"t"}, (ppp::types::SemanticRole*)nullptr, 0); } catch (const boost::program_options::error&) { return 0; } return 1; }\n',
    "an option value that is the beginning of the name of a role", "a value that is no name is accepted", libs="-lboost_program_options")
bug("b35", "C11", [("src/utils/Log.cpp", "  if (_pageFilter > 0 && pageNum > 0 && _pageFilter != pageNum) {", "  if (_pageFilter > 0 && pageNum > 0 && _pageFilter != pageNum && logLevel < LogLevel::WARN) {")], ["utils/Log.cpp"],
    '#include <iostream>\n#include <sstream>\n#include "utils/Log.h"\nint main() { std::stringstream s; auto* o = std::cout.rdbuf(s.rdbuf()); ppp::utils::log::Logger l(ppp::utils::log::INFO, 2); l.warn(3) << "x"; std::cout.rdbuf(o); return s.str().empty() ? 0 : 1; }\n',
    "a warning of another page than the one of the filter", "warnings and errors of other pages are shown")
bug("b36", "C25", [("src/serializers/PlainTextSerializer.cpp", '''        out << endl;
        out << endl;
''', '''        out << endl;
        if (!block->lines.empty() && block->lines.front()->words.size() > 1) { out << endl; }
''')],
    ALL + ["serializers/PlainTextSerializer.cpp", "serializers/Serializer.cpp"],
    DOC + r'''#include "serializers/PlainTextSerializer.h"
struct S : ppp::serialization::PlainTextSerializer { using PlainTextSerializer::serializeToStream; };
int main() { auto* p = page(); p->blocks = {blk({lin({wrd("a"), wrd("b")})}), blk({lin({wrd("c")})})}; std::stringstream o; S().serializeToStream(&doc, {}, {}, o); return o.str() == "a b\n\nc\n" ? 0 : 1; }
''', "a text block that starts with a line of one word", "no blank line separates such a block from the one before")
bug("b37", "C28", [("src/serializers/Serializer.cpp", '''targetFilePath.find_last_of("/")''', '''targetFilePath.find("/", 1)''')],
    ALL + ["serializers/PlainTextSerializer.cpp", "serializers/Serializer.cpp"],
    DOC + r'''#include <unistd.h>
#include "serializers/PlainTextSerializer.h"
int main() { page(); ppp::serialization::PlainTextSerializer s; s.serialize(&doc, {}, {}, "a/b/c.txt"); return access("a/b/c.txt", F_OK) ? 1 : 0; }
''', "an output file two directories deep that do not exist", "the output is not written")
bug("b38", "C37", [("src/pdftotext++.cpp", '''verbosity == "WARN") { logLevel = WARN; }''', '''verbosity == "WARN") { logLevel = verbosity == "warn" ? WARN : INFO; }''')],
    PIPE + ["Validators.cpp", "PdfDocumentSerialization.cpp", "PdfDocumentVisualization.cpp", "serializers/Serializer.cpp", "serializers/PlainTextSerializer.cpp", "serializers/PlainTextExtendedSerializer.cpp", "serializers/JsonlSerializer.cpp"],
    "#include <cppflow/cppflow.h>\nnamespace cppflow { tensor next_output, last_layout, last_words; }\n#define PROGRAM_NAME \"x\"\n#define PROGRAM_DESCRIPTION \"x\"\n#define PROGRAM_USAGE \"x\"\n#define VERSION \"1\"\n#define CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR \"x\"\n#define main pp_main\n#include \"pdftotext++.cpp\"\n#undef main\n#define conf conf_\n" + PDF.replace("static void writePdf", "static void writePdf") + r'''
int main() { writePdf("", "5 0 obj\n<< >>\nendobj\n"); std::stringstream s; auto* o = std::cout.rdbuf(s.rdbuf()); const char* a[] = {"x", "--verbosity", "WARN", "--skip-semantic-roles-prediction", "t.pdf", "o.txt"}; int rc = pp_main(6, (char**)a); std::cout.rdbuf(o); return rc == 0 && s.str().find("INFO") == std::string::npos ? 0 : 1; }
''', "--verbosity WARN in upper case", "informational messages are shown, too", flags='-I"$d"', stub=True, libs="-lpoppler -lutf8proc -lboost_program_options")
bug("b39", "C38", [("src/PdfDocumentVisualization.cpp", "convertToUtf16(to_string(++chosenCutIndex))", "convertToUtf16(to_string((chosenCutIndex = i + 1)))")],
    ALL + ["PdfDocumentVisualization.cpp", "PdfParsing.cpp", "utils/PdfFontInfoParser.cpp"],
    "#include <poppler/Annot.h>\n#include <poppler/Page.h>\n" + DOC + PDF + r'''#include "PdfDocumentVisualization.h"
int main() { globalParams = std::make_unique<GlobalParams>(); writePdf("", "5 0 obj\n<< >>\nendobj\n"); { PdfDocumentVisualizationConfig c; ppp::visualization::PdfDocumentVisualization v("t.pdf", c); auto* x = new Cut(CutDir::Y); auto* y = new Cut(CutDir::Y); x->id = y->id = "q"; x->pageNum = y->pageNum = 1; x->isChosen = false; y->isChosen = true; x->x1 = y->x1 = 10; x->x2 = y->x2 = 90; x->y1 = x->y2 = 50; y->y1 = y->y2 = 80; v.visualizeReadingOrderCuts(vector<Cut*>{x, y}, ppp::visualization::color_schemes::blue); v.save("o.pdf"); }
  GooString f("o.pdf"); auto d = PDFDocFactory().createPDFDoc(f); bool one = false, two = false; Annots* as = d->getPage(1)->getAnnots(); for (size_t i = 0; i < as->getAnnots().size(); i++) { string t = as->getAnnots()[i]->getContents()->toStr(); one |= t == string("\xfe\xff\0" "1", 4); two |= t == string("\xfe\xff\0" "2", 4); } return !two && one ? 0 : 1; }
''', "a chosen cut behind one that is not chosen", "the chosen cuts are not numbered consecutively", libs="-lpoppler")
bug("b40", "C40", [("src/TextLinesStatisticsCalculation.cpp", '''        double dist = currLine->baseBBoxUpperY - prevLine->baseBBoxLowerY;
        dist = maximum(0.0, round(dist, _config->lineDistancePrecision));''', '''        double dist = round(currLine->baseBBoxUpperY, _config->lineDistancePrecision)
            - round(prevLine->baseBBoxLowerY, _config->lineDistancePrecision);
        dist = maximum(0.0, round(dist, _config->lineDistancePrecision));''')],
    ALL + ["TextLinesStatisticsCalculation.cpp"],
    DOC + r'''#include "TextLinesStatisticsCalculation.h"
static double dist(double y) { doc.pages.clear(); auto* p = page(); auto* s = new PdfPageSegment(); p->segments = {s}; auto l = [&](double u) { auto* x = lin({}, 0, u, 9, u + 10); x->baseBBoxUpperY = u; x->baseBBoxLowerY = u + 10; s->lines.push_back(x); }; l(y); l(y + 12.25); TextLinesStatisticsCalculationConfig c; ppp::modules::TextLinesStatisticsCalculation(&doc, &c).process(); return doc.mostFreqLineDistance; }
int main() { return dist(100) == dist(100.25) ? 0 : 1; }
''', "lines at fractions of a point", "the line distance depends on where on the page the lines are")
bug("b41", "C41", [("src/utils/TextBlocksDetectionUtils.cpp", '''  const PdfFontInfo* elemFontInfo = element->doc->fontInfos.at(element->fontName);
''', '''  static std::unordered_map<string, const PdfFontInfo*> fontInfos;
  const PdfFontInfo*& elemFontInfo = fontInfos[element->fontName];
  if (!elemFontInfo) {
    elemFontInfo = element->doc->fontInfos.at(element->fontName);
  }
''')],
    ALL + ["utils/TextBlocksDetectionUtils.cpp"],
    NOPRIV + "#include \"utils/TextBlocksDetectionUtils.h\"\n#undef private\n#undef protected\n" + DOC + r'''
static bool emphasized(int weight) { auto* d = new PdfDocument(); for (const char* n : {"F", "G"}) { d->fontInfos[n] = new PdfFontInfo(); d->fontInfos[n]->weight = *n == 'G' ? weight : 400; } d->mostFreqFontName = "F"; d->mostFreqFontSize = 10; auto* b = new PdfTextBlock(); b->doc = d; b->fontName = "G"; b->fontSize = 10; b->text = "a"; TextBlocksDetectionConfig c; return ppp::utils::TextBlocksDetectionUtils(&c).computeIsEmphasized(b); }
int main() { return !emphasized(400) && emphasized(700) ? 0 : 1; }
''', "two documents with fonts of the same name but different weight", "the weight of a font of an earlier document decides about the emphasis")
bug("b42", "C42", [("src/TextLinesStatisticsCalculation.cpp", '''  if (lineDistanceCounter.sumCounts() > 0) {
    _doc->mostFreqLineDistance''', '''  if (_doc->pages.size() > 0) {
    _doc->mostFreqLineDistance''')],
    ALL + ["TextLinesStatisticsCalculation.cpp"],
    DOC + r'''#include "TextLinesStatisticsCalculation.h"
int main() { page(); TextLinesStatisticsCalculationConfig c; try { ppp::modules::TextLinesStatisticsCalculation(&doc, &c).process(); } catch (...) { return 1; } return 0; }
''', "a document with pages but without two lines in a segment", "an exception ends the program")
HEAP = r'''#include <cstdlib>
#include <new>
static long live; void* operator new(size_t n) { live++; return malloc(n ? n : 1); } void operator delete(void* p) noexcept { if (p) live--; free(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); }
'''
bug("b43", "C43", [("src/utils/BytePairEncoder.cpp", '''    for (auto* pair : tokenPairPositions) {
      delete pair->second;
      delete pair;
    }
''', '''    for (auto* pair : tokenPairPositions) {
      if (pair->second != firstMatchingPairPositions || wordTokens.size() == 2) {
        delete pair->second;
      }
      delete pair;
    }
''')], ["utils/BytePairEncoder.cpp", "utils/TextUtils.cpp"],
    HEAP + r'''#include "utils/BytePairEncoder.h"
static long run() { long before = live; { std::unordered_map<std::wstring, int> v = {{L"ab", 0}, {L"abc", 1}}; ppp::utils::BytePairEncoder e(&v); std::vector<int> ids; e.encode(L"abcdef", 0, "", &ids); } return live - before; }
int main() { run(); return run() == 0 ? 0 : 1; }
''', "a word that takes a merge of tokens and consists of more than two tokens afterwards", "the positions of the merged pair are never released")
bug("b44", "C43", [("src/Types.cpp", "  for (const auto* cut : readingOrderCuts) {", "  for (const auto* cut : blockDetectionCuts) {")], ["Types.cpp", "utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp"],
    HEAP + r'''#include "Types.h"
using namespace ppp::types;
int main() { for (int i = 0; i < 2; i++) { long before = live; auto* d = new PdfDocument(); auto* p = new PdfPage(); d->pages.push_back(p); p->readingOrderCuts.push_back(new Cut(CutDir::X)); if (i) p->blockDetectionCuts.push_back(new Cut(CutDir::Y)); delete d; if (live != before) return 1; } return 0; }
''', "a page with cuts", "the cuts of the segmentation are released twice, those of the reading order never")

#!/usr/bin/env python3
"""Rewrites parts of a copy of /repo without changing what they do, to see that the checks stay quiet and still decide:
tools/refactor.py <copy of /repo> [numbers of the edits...]   (then VERIF_REPO=<copy> python3 check.py Cxx)"""
import sys
E = []


def e(f, *pairs):
    E.append((f, [(pairs[i], pairs[i + 1]) for i in range(0, len(pairs), 2)]))


INC = lambda x: ("#include <cassert>  // assert\n", "#include <cassert>  // assert\n" + "".join("#include <%s>\n" % y for y in x.split()))
# 0: helpers with algorithms and ranges
e("src/WordsDetection.cpp", *INC("algorithm ranges"), '''    for (auto* ch : word->characters) {
      if (_config->stackedMathCharTexts.count(ch->text) > 0) {
        isBaseOfStackedMathSymbol = true;
        break;
      }
      if (_config->stackedMathCharNames.count(ch->name) > 0) {
        isBaseOfStackedMathSymbol = true;
        break;
      }
    }
''', '''    isBaseOfStackedMathSymbol = std::ranges::any_of(word->characters, [this](const auto* ch) {
      return _config->stackedMathCharTexts.contains(ch->text)
          || _config->stackedMathCharNames.contains(ch->name);
    });
''')
# 1: a condition negated and nested, a loop by iterators
e("src/WordsDehyphenation.cpp", "          PdfWord* prevLineLastWord = prevLine->words[prevLine->words.size() - 1];", "          PdfWord* prevLineLastWord = prevLine->words.back();",
  "char prevLineLastChar = prevLineLastWordText[prevLineLastWordText.length() - 1];", "char prevLineLastChar = *prevLineLastWordText.rbegin();", "PdfWord* currLineFirstWord = line->words[0];", "PdfWord* currLineFirstWord = *line->words.begin();")
# 2: the sort by a projection
e("src/ReadingOrderDetection.cpp", '''      sort(group.begin(), group.end(), [](const PdfElement* e1, const PdfElement* e2) {
        return e1->pos->upperY < e2->pos->upperY;
      });''', '''      std::ranges::sort(group, {}, [](const PdfElement* e) { return e->pos->upperY; });''',
  '''    if (blockRight) {
      if (blockRight->pos->wMode != 0 || blockRight->pos->rotation != 0) {
        cut->isChosen = true;
        continue;
      }
    }
''', '''    if (blockRight && !(blockRight->pos->wMode == 0 && blockRight->pos->rotation == 0)) {
      cut->isChosen = true;
      continue;
    }
''')
# 3: mathematics
e("src/utils/MathUtils.cpp", "return fabs(d1 - d2) <= tolerance;", "return std::abs(d2 - d1) <= tolerance;", "return std::min(d1, d2);", "return d2 < d1 ? d2 : d1;", "return std::max(d1, d2);", "return d1 < d2 ? d2 : d1;",
  "return minimum(minimum(d1, d2), minimum(d3, d4));", "return std::min({d1, d2, d3, d4});")
# 4: structured bindings, early return, numeric
e("src/utils/Counter.cpp", '''  unsigned int sum = 0;

  for (auto it = begin(); it != end(); it++) {
    sum += it->second;
  }

  return sum;''', '''  return std::accumulate(begin(), end(), 0u,
      [](unsigned int s, const auto& x) { return s + x.second; });''', '''  for (auto it = begin(); it != end(); it++) {
    if (it->second > mostFreqCount) {
      mostFreq = it->first;
      mostFreqCount = it->second;
    }
  }
''', '''  for (const auto& [value, count] : *this) {
    if (count <= mostFreqCount) {
      continue;
    }
    mostFreqCount = count;
    mostFreq = value;
  }
''', "#include <limits>  // std::numeric_limits\n", "#include <limits>  // std::numeric_limits\n#include <numeric>\n")
# 5: string functions
e("src/utils/TextUtils.cpp", '''  if (str.size() <= len) {
    return str;
  }

  return str.substr(0, len) + "...";''', '''  return str.size() > len ? string(str).replace(len, string::npos, "...") : str;''', '''  return delimiters.find(text.back()) != string::npos;''', '''  return std::any_of(delimiters.begin(), delimiters.end(), [&](char c) { return c == text.back(); });''',
  '''  for (unsigned int i = 0; i < len; i++) {
    str += alphabet[rand() % alphabetSize];
  }
''', '''  std::generate_n(std::back_inserter(str), len, [&]() { return alphabet[rand() % alphabetSize]; });
''', "namespace ppp::utils::text {\n", "#include <algorithm>\n#include <iterator>\nnamespace ppp::utils::text {\n")
# 6: JSON by appending to a string
e("src/utils/TextUtils.cpp", "  stringstream o;\n  for (unsigned int i = 0; i < str.size(); i++) {\n    switch (str[i]) {", '''  string o2;
  for (const char ch : str) {
    switch (ch) {''', *sum([("        o << %s;\n        break;" % x, "        o2 += %s;\n        break;" % x) for x in ('"\\\\\\""', '"\\\\\\\\"', '"\\\\b"', '"\\\\f"', '"\\\\n"', '"\\\\r"', '"\\\\t"')], ()), '''        if ('\\x00' <= str[i] && str[i] <= '\\x1f') {
          o << "\\\\u" << hex << setw(4) << setfill('0') << static_cast<int>(str[i]);
        } else {
          o << str[i];
        }
    }
  }
  return move(o).str();''', '''        if (ch >= 0 && ch < 32) {
          static const char* const digits = "0123456789abcdef";
          o2.append("\\\\u00").push_back(digits[ch / 16]);
          o2.push_back(digits[ch % 16]);
        } else {
          o2.push_back(ch);
        }
    }
  }
  return o2;''')
# 7: a helper for two duplicate parts
e("src/PageSegmentation.cpp", '''    double topMargin = element->pos->upperY - cut->y1;
    double bottomMargin = cut->y2 - element->pos->lowerY;
''', '''    const auto marginsOf = [&](const PdfElement* x) {
      return std::make_pair(x->pos->upperY - cut->y1, cut->y2 - x->pos->lowerY);
    };
    const auto [topMargin, bottomMargin] = marginsOf(element);
''', "  for (auto* cut : cuts) { ccuts.push_back(cut); }\n", "  ccuts.insert(ccuts.end(), cuts.begin(), cuts.end());\n")
# 8: another container, cached pointer
e("src/utils/BytePairEncoder.cpp", '''    for (auto& token : wordTokens) {
      res->push_back(token);
    }
''', '''    res->insert(res->end(), wordTokens.begin(), wordTokens.end());
''', '''    while (res->size() < targetLength) {
      res->push_back(_vocabulary[PADDING_SYMBOL]);
    }
    while (res->size() > targetLength) {
      res->pop_back();
    }
''', '''    res->resize(targetLength, _vocabulary[PADDING_SYMBOL]);
''', '''  for (size_t k = 0; k < word.length(); k++) {
    wordTokens.push_back(word.substr(k, 1));
  }
''', '''  for (const wchar_t c : word) {
    wordTokens.emplace_back(1, c);
  }
''')
# 9: a sorted list instead of the queue's own sort
e("src/SemanticRolesPrediction.cpp", '''      if (block->fontSize > maxFontSize) {
        maxFontSize = block->fontSize;
      }
      if (block->fontSize < minFontSize) {
        minFontSize = block->fontSize;
      }
''', '''      if (const float fs = block->fontSize; block->fontSize > maxFontSize) {
        maxFontSize = fs;
      }
      if (!(block->fontSize >= minFontSize)) {
        minFontSize = block->fontSize;
      }
''', '''      for (size_t i = 0; i < wBlockText.size(); i++) {
        if (iswdigit(wBlockText[i])) {
          numDigits += 1;
        }
''', '''      numDigits = std::count_if(wBlockText.begin(), wBlockText.end(),
          [](wchar_t c) { return iswdigit(c) != 0; });
      for (size_t i = 0; i < wBlockText.size(); i++) {
''', "namespace ppp::modules {\n", "#include <algorithm>\nnamespace ppp::modules {\n")
# 10: serializer through an intermediate stream and a helper
e("src/serializers/PlainTextSerializer.cpp", '''            for (const auto* ch : word->characters) {
              if (ch->isBaseCharOfDiacriticMark) {
                out << ch->textWithDiacriticMark;
              } else if (!ch->isDiacriticMarkOfBaseChar) {
                out << ch->text;
              }
            }
''', '''            std::ostringstream buffer;
            for (const auto* ch : word->characters) {
              if (!ch->isBaseCharOfDiacriticMark && ch->isDiacriticMarkOfBaseChar) {
                continue;
              }
              buffer << (ch->isBaseCharOfDiacriticMark ? ch->textWithDiacriticMark : ch->text);
            }
            out << buffer.str();
''', "namespace ppp::serialization {\n", "#include <sstream>\nnamespace ppp::serialization {\n", "!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()", "!(roles.empty() || roles.count(block->role))")
# 11: statistics: a map of another kind, conditions merged
e("src/TextLinesStatisticsCalculation.cpp", "  unordered_map<double, DoubleCounter> lineDistanceCountersPerFontSize;", "  std::map<double, DoubleCounter> lineDistanceCountersPerFontSize;", '''        if (prevLine->pos->rotation != currLine->pos->rotation) {
          continue;
        }

''', '', "if (prevLine->pos->wMode != currLine->pos->wMode) {", "if (prevLine->pos->wMode != currLine->pos->wMode\n              || prevLine->pos->rotation != currLine->pos->rotation) {", "namespace ppp::modules {\n", "#include <map>\nnamespace ppp::modules {\n")
# 12: overlap as a struct, arithmetic rearranged
e("src/utils/PdfElementsUtils.cpp", '''  double ratio1 = length1 > 0 ? overlapLength / length1 : 0;
  double ratio2 = length2 > 0 ? overlapLength / length2 : 0;

  return make_pair(ratio1, ratio2);''', '''  auto ratioOf = [overlapLength](double length) {
    if (length <= 0) {
      return 0.0;
    }
    return overlapLength / length;
  };
  return {ratioOf(length1), ratioOf(length2)};''')
# 13: diacritics
e("src/DiacriticalMarksMerging.cpp", '''        for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
''', '''        unicodesMerged = base->unicodes;
''', '''        for (int j = 0; j < len; j++) {
          bytesMerged.push_back(buf[j] & 0xff);
        }
''', '''        bytesMerged.insert(bytesMerged.end(), buf, buf + len);
''', '''      if (larger(prevXOverlapRatio, nextXOverlapRatio)) {
        base = prevChar;
      } else {
        base = nextChar;
      }
''', '''      base = larger(prevXOverlapRatio, nextXOverlapRatio) ? prevChar : nextChar;
''')
# 14: x- and y-cut
e("src/utils/XYCut.cpp", '''  for (const auto* element : sElements) {
    elementsMinY = minimum(elementsMinY, element->pos->upperY);
    elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
  }
''', '''  std::for_each(sElements.cbegin(), sElements.cend(), [&](const PdfElement* element) {
    elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
    elementsMinY = minimum(elementsMinY, element->pos->upperY);
  });
''', '''  sort(sElements.begin(), sElements.end(), UpperYAscComparator());
''', '''  std::stable_sort(sElements.begin(), sElements.end(), UpperYAscComparator());
''')


def main():
    root, only = sys.argv[1], [int(x) for x in sys.argv[2:]]
    for n, (f, pairs) in enumerate(E):
        if only and n not in only:
            continue
        s = open(root + "/" + f).read()
        for old, new in pairs:
            if old not in s:
                print("edit %d: not found in %s: %r" % (n, f, old[:80])); continue
            s = s.replace(old, new, 1)
        open(root + "/" + f, "w").write(s)


main()

# The properties, in one place: tools/gen.py writes properties.jsonl and MANIFEST.json from it.
PROPS = []


def P(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = [dict(name=n, where=w) if False else f"{n} ({w})" for n, w in observe]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))


P("C01", "Tolerant comparisons agree with exact arithmetic up to the tolerance",
  "Comparing two numbers with a tolerance says 'equal' exactly if they differ by at most the tolerance, 'smaller' ('larger') exactly if the first is below (above) the second by more than the tolerance, and '...-or-equal' exactly if it is smaller/larger or equal. 'Between' holds exactly if the value lies in the closed interval up to the tolerance. A comparison without a given tolerance behaves as one with the documented default of 0.0001.",
  ["inputs"], "every pair/triple of doubles and every tolerance", "Tests compare a handful of literals far away from the tolerance boundary; the boundary, NaN and infinities are never tried.",
  ["src/utils/MathUtils.cpp", "src/utils/MathUtils.h"], [("equal, smaller, larger, equalOrSmaller, equalOrLarger, between", "src/utils/MathUtils.cpp")])
P("C02", "Rounding, minimum and maximum return the right value",
  "The minimum/maximum of two, three or four numbers is one of them and no other of them is smaller/larger. Rounding a number to a given number of decimals yields the nearest number with that many decimals (halves away from zero), and rounding twice changes nothing.",
  ["inputs"], "every combination of doubles; every number on the grid and precision 0..3", "Tests try a few positive literals; ties, negative numbers, argument orders and precisions are not covered.",
  ["src/utils/MathUtils.cpp"], [("round, minimum, maximum", "src/utils/MathUtils.cpp")])
P("C03", "Overlap ratios, gaps and alignment relations of elements are exact",
  "The overlap ratio of an element with another is the length of the common part of their extents divided by the extent of the element itself (0 if they only touch or are disjoint), lies in 0..1 and equals 1 exactly if the element's extent is contained in the other's; the largest overlap ratio is symmetric. The horizontal and vertical gap between two unrotated elements is the distance between the facing sides, negative if they overlap; offsets are the signed differences of the sides. Two elements have equal sides, fonts or font sizes exactly if these values are equal up to the given tolerance.",
  ["inputs"], "every two elements on the coordinate grid, each rotation", "Tests use a dozen fixed boxes; containment, touching sides, rotation and degenerate positions form a continuum.",
  ["src/utils/MathUtils.cpp", "src/utils/PdfElementsUtils.cpp"], [("computeOverlapRatios, computeHorizontalOverlapRatios, computeMaxXOverlapRatio ...", "src/utils/MathUtils.cpp, src/utils/PdfElementsUtils.cpp"), ("computeHorizontalGap, computeVerticalGap, equalLeftX ... equalFontSize", "src/utils/PdfElementsUtils.cpp")])
P("C04", "Coordinates of rotated elements follow the rotation",
  "For an element rotated by 0, 90, 180 or 270 degrees, the rotated left/upper/right/lower coordinates are the corner coordinates that form the left/upper/right/lower side when the page is turned so that the text reads left to right. Width and height of an element follow the same rule.",
  ["inputs"], "every box and each of the four rotations", "Tests only check a few unrotated and rotated literals.",
  ["src/Types.cpp"], [("PdfPosition::getRotLeftX/UpperY/RightX/LowerY, getWidth, getHeight", "src/Types.cpp")])
P("C05", "Sorting elements by coordinate is well defined",
  "Each ordering of elements by a coordinate is a strict weak order that orders exactly by that coordinate (ascending or descending as named). Sorting any sequence of elements with it yields a permutation of the sequence, ordered by that coordinate.",
  ["inputs"], "every three elements and every sequence of elements on a grid coarser than the tolerance", "Tests sort one fixed vector per comparator; transitivity and asymmetry are statements about all triples.",
  ["src/utils/Comparators.h"], [("LeftXAscComparator ... RotLowerYDescComparator", "src/utils/Comparators.h")])
P("C06", "Counters report the most frequent value, its count and the maximum",
  "After any sequence of counted values, a counter's count of a value is the number of its occurrences, the most frequent value has the largest count, the reported count is that count, the sum is the sum of all counts, and the maximum is the largest value with a positive count. Asking an empty counter for any of these is refused with an error.",
  ["inputs", "histories"], "every set of values (including negative ones) and counts", "Tests count two fixed lists of positive values.",
  ["src/utils/Counter.cpp"], [("DoubleCounter, StringCounter: mostFreq, mostFreqCount, mostFreqAndCount, max, sumCounts", "src/utils/Counter.cpp")])
P("C07", "A bounded priority queue keeps the best elements",
  "A priority queue of fixed capacity never holds more elements than its capacity; a push onto a full queue replaces its top element. Its sorted content is exactly the multiset of elements not replaced, in the requested order.",
  ["inputs", "histories"], "every sequence of pushes for each capacity and both orders", "Tests push one fixed sequence.",
  ["src/utils/FixedCapacityPriorityQueue.h"], [("push, top, size, sort", "src/utils/FixedCapacityPriorityQueue.h")])
P("C08", "JSON escaping round-trips every string",
  "Escaping any byte string for JSON yields characters that form the inside of a valid JSON string literal. Decoding that literal gives back the original string.",
  ["inputs"], "every byte string", "Tests escape a few strings; control characters and combinations of escapes are not enumerated.",
  ["src/utils/TextUtils.cpp"], [("escapeJson", "src/utils/TextUtils.cpp")])
P("C09", "Text helpers split, strip, join, shorten, wrap and generate exactly",
  "Splitting a text yields its maximal runs of non-delimiters in order; stripping removes exactly the surrounding whitespace; joining puts exactly one separator between neighbours; shortening yields the prefix of the given length followed by '...' only if the text is longer. Wrapping changes a text only by breaking lines at blanks, indents every line, and makes no line longer than the width that could be broken. Random ids have the requested length and prefix and use every character of the given alphabet and only those; the sentence-end and upper-case tests look at exactly the last/first character.",
  ["inputs"], "every string up to the stated length, every width, indent and random number", "Tests use a handful of English phrases; empty, blank-only, delimiter-only and boundary-length texts crash or misbehave without any test noticing.",
  ["src/utils/TextUtils.cpp"], [("splitIntoWords, strip, join, shorten, wrap, createRandomString, endsWithSentenceDelimiter, startsWithUpper", "src/utils/TextUtils.cpp")])
P("C10", "Command line option values mean exactly the thing they name",
  "An option value for element types, semantic roles or output formats is accepted exactly if it is one of the documented names, and then means that type, role or format; giving the option twice is an error. The lists of names shown to the user contain every accepted name exactly once.",
  ["inputs", "configurations"], "every option value up to the stated length, every near miss of a name, every enum value", "Tests parse a few valid names.",
  ["src/Validators.cpp", "src/utils/PdfElementsUtils.cpp", "src/Types.cpp", "src/PdfDocumentSerialization.h"], [("validate overloads", "src/Validators.cpp"), ("getPdfElementTypeName(s), getSemanticRoleName(s), getSerializationFormatName(s), getSerializer", "src/Types.cpp, src/PdfDocumentSerialization.h")])
P("C11", "Log messages are shown exactly if level and page pass the filter",
  "A log message is written exactly if its level is at least the logger's level and its page is not excluded by the page filter, and it is then prefixed by its level. A suppressed message leaves no trace on the output.",
  ["inputs", "configurations"], "every level, page filter and page number", "Tests do not cover the logger's filter.",
  ["src/utils/Log.cpp"], [("Logger::trace/debug/info/warn/error, setLogLevel, setPageFilter", "src/utils/Log.cpp")])
P("C14", "Diacritic marks are merged with the right base character",
  "A character is treated as a diacritic mark exactly if it is a single accent, modifier letter or combining mark. A mark is merged with the neighbouring character it overlaps horizontally most, never with one it does not overlap and never across pages; the base is never itself merged into another character. The base then carries the text of the base followed by all of its marks in combining form, and its box is the union of its own box and those of its marks; no character is lost.",
  ["inputs"], "every code point and every arrangement of up to the stated number of letters and marks on a page", "Tests use one PDF with a few umlauts; two marks on one letter, ties, marks at the page border and composition failures never occur.",
  ["src/DiacriticalMarksMerging.cpp", "src/DiacriticalMarksMerging.h"], [("process, mapToCombiningDiacriticMark, merge", "src/DiacriticalMarksMerging.cpp")])
P("C15", "Words partition the characters of a page and split exactly at gaps",
  "The words of a page contain every character that is not a merged diacritic mark exactly once and in order, are ranked in order, and carry the text, bounding box, most frequent font and font size of their characters. In unrotated text a new word begins exactly where rotation or writing mode changes, the character overlaps the word vertically by less than half, or the horizontal gap exceeds 15 percent of the largest font size in the word.",
  ["inputs"], "every page of up to the stated number of characters at any positions, font sizes, rotations and writing modes", "Tests check the words of a few sample pages; positions at the thresholds, negative coordinates and mixed rotations are not among them.",
  ["src/WordsDetection.cpp"], [("process, createWord", "src/WordsDetection.cpp")])
P("C16", "Stacked math symbols group exactly the small words above and below their base",
  "Only a word that is a sum, product, integral or similar sign or 'lim'/'sup' is the base of a stacked math symbol. The parts of a symbol are exactly the words contiguously before and after the base that overlap it horizontally by at least half and have a font size smaller by more than 1; every word belongs to at most one symbol, no base is a part, and base and parts refer to each other consistently.",
  ["inputs"], "every page of up to the stated number of words at any positions and font sizes, with up to two bases", "Tests build one fixed formula.",
  ["src/WordsDetection.cpp", "src/utils/WordsDetectionUtils.cpp"], [("computeIsBaseOfStackedMathSymbol and merging", "src/utils/WordsDetectionUtils.cpp, src/WordsDetection.cpp")])
P("C12", "XY-cut divides elements exactly at the admissible gaps",
  "An x-cut (y-cut) is offered exactly at each gap between elements that is at least the given minimum wide and that no more than the allowed number of elements extend across, and its position, neighbours and crossing elements are reported as they are. Dividing by the chosen cuts gives groups in which each element occurs exactly once, lying on its own side of the cut. The recursion divides by x-cuts and y-cuts in turn and stops only when a group cannot be divided any further.",
  ["inputs"], "every arrangement of up to the stated number of elements, every minimum gap and choice of cuts", "Tests cut a few fixed boxes; an element that extends past later ones, ties and cuts refused by the caller are not among them.",
  ["src/utils/XYCut.cpp"], [("xyCut, xCut, yCut", "src/utils/XYCut.cpp")])
P("C13", "Page segments partition the page and columns split only where allowed",
  "The segments of a page contain each of its words, figures, graphics and shapes exactly once, in rank order, and the position of a segment is the union of the positions of its elements. Elements side by side are divided into columns exactly if the gap between them is at least two word distances (not narrower than two character widths while shorter than six character heights), both sides are at least ten character widths wide, and no two words that follow each other in the text face each other across the gap.",
  ["inputs"], "every page of up to the stated number of elements at any positions", "Tests segment a few sample pages.",
  ["src/PageSegmentation.cpp", "src/utils/PageSegmentationUtils.cpp"], [("process, chooseXCuts, chooseYCuts", "src/PageSegmentation.cpp")])
P("C17", "Text lines partition the words of a page and follow their baselines and rotation",
  "Every word of a segment is in exactly one text line of it, and its parts of a stacked math symbol are in the line of their base. Words of different rotation are never in one line; words with the same baseline that are not merged otherwise are; two lines are merged exactly if they overlap vertically, in the direction of their text, by at least 40 percent (80 percent if at least three average character widths apart). Lines are ordered from top to bottom and their words from left to right, in the direction of their text; each line is ranked, linked with its neighbours and carries the text, box, baseline and most frequent font and font size of its words.",
  ["inputs"], "every segment of up to the stated number of words at any positions, in any rotation", "Tests check the lines of sample pages; rotated text, overlapping lines and lines at the thresholds are rare in them.",
  ["src/TextLinesDetection.cpp", "src/utils/TextLinesDetectionUtils.cpp"], [("process, createTextLine", "src/TextLinesDetection.cpp"), ("computeTextLineProperties", "src/utils/TextLinesDetectionUtils.cpp")])
P("C18", "Indentation hierarchy and trim boxes of text lines are consistent",
  "The parent line of a text line is a preceding line further up that starts further left by more than the tolerance (or the parent of its previous sibling); its siblings are the preceding and following lines that start at the same position up to the tolerance. No parent or sibling lies beyond a vertical distance larger than the threshold, and sibling links are mutual. The trim box of a segment has the left, upper and lower side of the segment, and as right side the most frequent one of its lines if at least half of them share it, otherwise that of the segment.",
  ["inputs"], "every page of up to the stated number of lines at any positions", "Tests compute the hierarchy of one sample page.",
  ["src/utils/TextLinesDetectionUtils.cpp"], [("computeTextLineHierarchy, computeTrimBox", "src/utils/TextLinesDetectionUtils.cpp")])
P("C19", "Subscripts and superscripts are told apart by size and baseline",
  "A character of a text line is a subscript (superscript) exactly if its font size is smaller (by more than the tolerance) than the most frequent one of the document and its baseline lies below (above) the one of the line by more than the tolerance. The base box of a line spans exactly the characters that are neither.",
  ["inputs"], "every line of up to the stated number of characters at any positions, baselines and font sizes", "Tests use one formula.",
  ["src/SubSuperScriptsDetection.cpp"], [("process", "src/SubSuperScriptsDetection.cpp")])
P("C20", "Glyph, word and text line statistics are the figures they name",
  "The statistics of a page and of the document hold the most frequent font, font size, line distance and word distance and the average and most frequent widths and heights of exactly the characters, words and text lines on it. Distances are counted only between neighbours in the same line or segment that lie beside (below) each other. The figures of a document cover all of its pages.",
  ["inputs"], "every document of up to the stated number of characters, words and lines", "Tests compare the statistics of one sample document.",
  ["src/GlyphsStatisticsCalculation.cpp", "src/WordsStatisticsCalculation.cpp", "src/TextLinesStatisticsCalculation.cpp"], [("process", "src/GlyphsStatisticsCalculation.cpp, src/WordsStatisticsCalculation.cpp, src/TextLinesStatisticsCalculation.cpp")])
P("C21", "Text blocks partition the lines of a page at the documented boundaries",
  "The text blocks of a page contain each text line exactly once and in order; each block is ranked, linked to its neighbours and carries the text, box, trim box, font, emphasis, centering and hanging indent of its lines, and its lines know their margins and neighbours in it. A line starts a block where rotation, writing mode or font size changes, where the line distance is too large or has grown (but not between lines of one figure), and, inside such a block, exactly where an item, an indentation or the space left in the line before says so (a centered block is divided only at items).",
  ["inputs"], "every segment of up to the stated number of lines at any positions, with any of the stated texts and fonts", "Tests compare the blocks of a few sample pages; the rules interact and most of their combinations never occur there.",
  ["src/TextBlocksDetection.cpp", "src/utils/TextBlocksDetectionUtils.cpp"], [("process, startsPreliminaryBlock, startsBlock", "src/TextBlocksDetection.cpp"), ("createTextBlock, computeTextLineMargins", "src/utils/TextBlocksDetectionUtils.cpp")])
P("C22", "Centering, emphasis, hanging indent and labels are recognised exactly",
  "Two lines are centered exactly if one covers the other horizontally and their offsets on both sides are equal up to the tolerance. A text is emphasized exactly if it is larger, heavier, italic or all upper case compared to the document. A line starts with an item label exactly if it starts with one of the documented label forms followed by whitespace or with a superscript of the label alphabet, and with a footnote label exactly if its superscripted prefix is a label seen before; potential footnote labels are exactly the runs of superscripted alphanumericals and special symbols behind the start of a word. A block is in hanging indent format exactly under the documented conditions, and a line lies in the first figure that covers at least half of it.",
  ["inputs"], "every line and block within the stated bounds", "Tests check a few dozen lines of one sample PDF, and these tests cannot even run without TensorFlow; near misses of labels and values at the thresholds are not covered.",
  ["src/utils/TextBlocksDetectionUtils.cpp"], [("computeIsCentered, computeIsTextLinesCentered, computeIsEmphasized, computeHasPrevLineCapacity, computeHangingIndent, computeIsFirstLineOfItem, computeIsContinuationOfItem, computePotentialFootnoteLabels, computeIsPrefixedByItemLabel, computeIsPrefixedByFootnoteLabel, computeOverlapsFigure", "src/utils/TextBlocksDetectionUtils.cpp")])
P("C23", "The reading order is a permutation that follows the division of the page",
  "The reading order of a page contains each of its text blocks exactly once. Where the page is divided at a vertical gap, all blocks left of it are read before those right of it; at a horizontal gap, all blocks above before those below; blocks that no gap divides are read from top to bottom. The page is divided first at gaps beside rotated text or long vertical lines, then at those between blocks of which only one is a title, author info or a page header or footer and at long horizontal lines, then recursively into columns at every vertical gap, and at exactly those horizontal gaps that make a further division into columns possible.",
  ["inputs"], "every page of up to the stated number of blocks, figures and lines at any positions, with any roles, rotations and writing modes", "Tests do not cover the reading order at all; the order of the cuts only matters for arrangements of at least three elements.",
  ["src/ReadingOrderDetection.cpp", "src/ReadingOrderDetection.h"], [("process, detectReadingOrder, choosePrimaryXCuts, choosePrimaryYCuts, chooseXCuts, chooseYCuts", "src/ReadingOrderDetection.cpp")])
P("C24", "Words hyphenated at line ends are joined exactly once",
  "A word that ends a text line with a hyphen is joined with the first word of the next text line that has words, also across text blocks and pages and over more than two lines. The joined word has the text of its parts without the hyphens between them, and exactly these parts refer to it; every other word is left alone.",
  ["inputs"], "every document of the stated arrangements with any words", "Tests dehyphenate a few words of one sample; empty lines, block and page borders and words over three lines do not occur.",
  ["src/WordsDehyphenation.cpp"], [("process", "src/WordsDehyphenation.cpp")])
P("C25", "Plain text output contains the selected text exactly once",
  "Plain text output consists of the text blocks with a selected role (all of them if no role is given) in reading order, separated by empty lines; each consists of its words, separated by blanks. A word is written as its characters, with diacritic marks merged into their base characters; a hyphenated word is written joined, where it starts, and no part of it is lost or doubled.",
  ["inputs", "configurations"], "every document of the stated arrangements, every selection of roles", "Tests compare the output for a few samples with all roles.",
  ["src/serializers/PlainTextSerializer.cpp"], [("serializeToStream", "src/serializers/PlainTextSerializer.cpp")])
P("C26", "Extended text output marks role, emphasis and page breaks",
  "Extended text output is plain text output in which each block is prefixed by its role in capital letters and brackets and, if it is emphasized, by the character ^A, and each page is ended by a newline and a form feed.",
  ["inputs", "configurations"], "every document of the stated arrangements, every selection of roles and emphasis", "Tests do not cover the extended format.",
  ["src/serializers/PlainTextExtendedSerializer.cpp"], [("serializeToStream", "src/serializers/PlainTextExtendedSerializer.cpp")])
P("C27", "JSONL output is valid and says what the document says",
  "Each line of JSONL output is a JSON object. There is one for each element of a selected type that is in a text block with a selected role (or is a page, figure or shape), and none for any other; its strings and numbers are those of the element (id, rank, page, position, font, text, role, color ...), whatever bytes they contain. Coordinates have the given precision.",
  ["inputs", "configurations"], "every text and font name up to the stated length, every selection of types and roles", "Tests do not cover JSONL output.",
  ["src/serializers/JsonlSerializer.cpp", "src/utils/TextUtils.cpp"], [("serializeToStream, serializePages, serializeCharacters, serializeWords, serializeTextBlocks, serializeFigures, serializeShapes", "src/serializers/JsonlSerializer.cpp")])
P("C28", "The output goes to exactly the requested place",
  "The output path is taken literally. For the path '-' the output is written to stdout and no file is touched; for any other path the output is written to exactly that file, the missing directories above it are created, no other file or directory is touched and nothing is executed. A path that cannot be written is reported on stderr.",
  ["inputs", "faults"], "every path of the stated form", "Tests never write to a file; blanks and shell characters in a path, missing directories and paths that cannot be written need one test each.",
  ["src/serializers/Serializer.cpp"], [("serialize", "src/serializers/Serializer.cpp")])
P("C29", "Glyph programs of embedded fonts are run exactly and within their data",
  "Running a Type 1 glyph program moves the current point as its commands say, and the resulting box contains exactly the end points of its outline. A program is interpreted within its bytes, its arguments and a bounded depth of subroutines, whatever bytes it consists of. Encrypted portions and glyph programs are decrypted as the Type 1 format defines, for any bytes.",
  ["inputs"], "every command in every state of the interpreter, every short program, all bytes", "Tests do not run the font parser without Poppler documents; truncated numbers, missing arguments, recursion and the largest numbers need crafted fonts.",
  ["src/utils/PdfFontInfoParser.cpp"], [("Type1FontFileParser::parseCharString, computeGlyphBoundingBox, decrypt", "src/utils/PdfFontInfoParser.cpp")])
P("C30", "Embedded Type 1 font files yield the boxes, weight and slant they define",
  "From an embedded Type 1 font file, in binary, hexadecimal or segmented form, the box of each glyph that has an outline, the font matrix, the weight and the slant are taken over exactly. Whatever the length fields, entries and bytes of the file, it is read within its bounds, without a crash, and what it does not define remains as it was.",
  ["inputs", "faults"], "every file of the stated forms, cut or damaged at every length field", "Tests do not cover font files; the three forms of the encrypted portion and damaged length fields need crafted PDF files.",
  ["src/utils/PdfFontInfoParser.cpp"], [("Type1FontFileParser::parse, parseAsciiPart, parseBinaryPart, computeGlyphBoundingBoxes", "src/utils/PdfFontInfoParser.cpp")])
P("C31", "Font information says what the PDF says about the font",
  "The name of a font is the one the PDF gives; its normalized name is in lower case and without subset prefix, its base name ends at the first hyphen and has no digits. Weight and slant follow the weight, the flags and the name of the font, in this order, and then the embedded font file, which is read exactly if it is to be read. Without a font there is no font information.",
  ["inputs", "configurations"], "every combination of name, flags, weight, font type and font file location within the bounds", "Tests cover the fonts of a few samples; names without prefix or with several hyphens and explicit weights do not occur in them.",
  ["src/utils/PdfFontInfoParser.cpp"], [("PdfFontInfoParser::parse", "src/utils/PdfFontInfoParser.cpp")])
P("C32", "Characters get the text, position, size and font the PDF draws them with",
  "Each character that the PDF draws, except white space and characters without a font, becomes exactly one character, in the order of drawing. Its text is that of its code or, if known, of its glyph name; its rotation is the direction of its baseline; its box extends from its origin to that of the next character and from the descent to the ascent of its font, or is the box of its glyph if that is taller. Font size, font, color, opacity and writing mode are those of the graphics state. Each font is read once.",
  ["inputs", "configurations", "histories"], "every position, width, glyph box, code and color within the bounds, under each of the stated matrices, fonts and page rotations", "Tests parse a few sample PDFs with upright text; rotated, scaled, raised and mirrored text, vertical writing and Type 3 fonts do not occur.",
  ["src/PdfParsing.cpp", "src/utils/CharMap.h"], [("updateFont, drawChar", "src/PdfParsing.cpp"), ("charMap", "src/utils/CharMap.h")])
P("C33", "Pages, shapes, graphics and figures are those of the PDF",
  "Each page of the PDF becomes one page with its number and box. A path becomes one shape that contains exactly its visible points, an image one graphic that is its visible part; what is not visible is ignored. An element drawn in the clip box of the page belongs to the page; otherwise it belongs to the one figure of its clip box, whose box contains exactly its elements. Ranks follow the order of drawing.",
  ["inputs", "histories"], "every path, image, clip box and sequence of events within the bounds", "Tests check no shapes, graphics or figures; partly visible ones, clip boxes that almost coincide and several pages would need a document each.",
  ["src/PdfParsing.cpp"], [("startPage, stroke, fill, drawGraphic, drawImage, drawImageMask, drawMaskedImage, drawSoftMaskedImage, drawChar", "src/PdfParsing.cpp")])
P("C34", "Byte pair encoding merges exactly the pairs of the vocabulary",
  "A word is encoded by marking its end and merging, again and again, all occurrences of the first adjacent pair of symbols that the vocabulary knows, until it knows none; each symbol gets the id of the vocabulary, unknown ones the id for unknown symbols. A text is the sequence of its words, padded or cut to the target length if one is given. Encoding a word again yields the same.",
  ["inputs", "histories"], "every word, text and vocabulary within the bounds", "Tests do not cover the encoder; the order of the merges only matters for particular vocabularies.",
  ["src/utils/BytePairEncoder.cpp"], [("encode, encodeWord, computeTokenPairPositions", "src/utils/BytePairEncoder.cpp")])
P("C35", "Semantic roles follow the model and its inputs describe the text blocks",
  "Each text block gets the most likely role of its row of the model's output. The model is given, for each text block in order, its position in the document, its box relative to the page, its relative font size, boldness and slant, the shares of digits, punctuation, non-ASCII and upper case characters and of capitalized words, and the encoding of its text by the vocabulary file, every line of which counts. If the prediction is disabled, no model is read and the text blocks are paragraphs; a missing vocabulary file is reported.",
  ["inputs", "configurations", "faults"], "every text block, probability and vocabulary file within the bounds", "Tests cannot run the prediction without TensorFlow.",
  ["src/SemanticRolesPrediction.cpp"], [("predict, createLayoutInputTensor, createWordsInputTensor, readModel", "src/SemanticRolesPrediction.cpp")])
P("C36", "The pipeline runs exactly the steps that are not disabled, in order",
  "Processing a PDF runs each step that is not disabled exactly once, in the documented order, on the given document and configuration; steps do not run on a PDF that cannot be loaded, whose error code is returned. All pages are parsed at the configured resolution, with or without embedded font files. At the end the text lines of a page are those of its text blocks in order. Running times are recorded for the steps run, if asked for.",
  ["configurations", "faults"], "every combination of disabled steps, error codes and numbers of pages within the bounds", "Tests run the whole pipeline on a few PDFs with all steps enabled.",
  ["src/PdfToTextPlusPlus.cpp"], [("process", "src/PdfToTextPlusPlus.cpp")])
P("C37", "The command line options have the documented effects",
  "Each --skip and --debug option affects exactly its step; --no-dehyphenation skips the dehyphenation; verbosity and page filter apply to every step. The text is written once, in the given format, of the given roles and types, to the given file, everything in plain text to stdout by default. Exactly the requested elements are drawn, if a visualization file is given. Help and version are printed only. Wrong command lines and errors of the engine are reported with a non-zero exit code and nothing is written. Running times are printed with their share of the total.",
  ["configurations", "inputs", "faults"], "every combination of switches, choice of values and wrong value within the bounds", "Tests do not run the command line program; each switch and combination would need its own run.",
  ["src/pdftotext++.cpp", "src/Validators.cpp"], [("main, printHelpMessage", "src/pdftotext++.cpp"), ("validate", "src/Validators.cpp")])
P("C38", "The visualization shows exactly the requested elements at their places",
  "Each element of a requested kind is drawn as exactly one box, on its page, at its place whatever the origin of the page's media box and the rotation of the page, in the requested color, at least one point wide and high; nothing else is drawn. Roles are written to their text blocks; the reading order is drawn as lines between the middles of consecutive text blocks and the index of each; cuts get their numbers and ids and are gray unless chosen. The PDF is written once, to the given file.",
  ["inputs", "configurations"], "every element, page and media box within the bounds", "Tests do not visualize anything; a box at a wrong place would not be noticed in the text output.",
  ["src/PdfDocumentVisualization.cpp"], [("visualizeCharacters, visualizeWords, visualizeTextBlocks, visualizeReadingOrder, visualizeSegmentCuts, drawBoundingBox, drawTextBlockSemanticRoles, drawReadingOrder, drawCuts, save", "src/PdfDocumentVisualization.cpp")])
P("C39", "No text is lost, invented or duplicated between the PDF and the output",
  "Whatever the characters of a PDF and their places, each is part of exactly one word, text line and text block of its page (an accent merged with its character instead belongs to that), and the plain text contains it exactly as often as the PDF, except that hyphens at line ends may be removed when a divided word is joined. Pages are written in order, the lines of a column from top to bottom, the left column before the right one, words from left to right, whatever the order in which they are drawn.",
  ["inputs", "histories"], "every page within the bounds, through all steps of the pipeline", "Tests check a few documents with ordinary text; losses occur where several steps meet at unusual positions, sizes or rotations.",
  ["src/PdfToTextPlusPlus.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp", "src/WordsDehyphenation.cpp", "src/serializers/PlainTextSerializer.cpp"], [("process", "src/PdfToTextPlusPlus.cpp"), ("serializeToStream", "src/serializers/PlainTextSerializer.cpp")])
P("C40", "What is recognized does not depend on where on the page the text is",
  "Moving all text and graphics of a page by the same offset, or putting the page behind other pages without text, changes nothing in what is recognized: the extracted text, the words, text lines, text blocks and their order, indentation, emphasis, sub- and superscripts and hyphenated words are the same, and so are the most frequent and average sizes and distances that are computed for the document.",
  ["inputs"], "every document up to the stated size and every stated offset", "Tests have no two documents that differ by an offset only; a comparison with the page border, with an absolute coordinate or between two different coordinates goes unnoticed.",
  ["src/PdfToTextPlusPlus.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp"], [("process", "src/PdfToTextPlusPlus.cpp"), ("serializeToStream", "src/serializers/PlainTextSerializer.cpp")])
P("C41", "What is recognized does not depend on the documents processed before",
  "Processing a document yields the same text, words, text lines, text blocks and properties of them whether it is the first document the program's classes process or whether the same or other documents have been processed before: no step keeps anything beyond the document.",
  ["inputs", "histories"], "every document up to the stated size, after each of the stated documents", "Tests process each document once, in a process of its own; anything kept in a static variable or a cache goes unnoticed.",
  ["src/PdfToTextPlusPlus.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp"], [("process", "src/PdfToTextPlusPlus.cpp"), ("serializeToStream", "src/serializers/PlainTextSerializer.cpp")])
P("C42", "Odd documents are processed without crash or invalid memory access",
  "Whatever a page contains - characters without width, height, font size or text, characters of several letters, far outside of the page or larger than it, in vertical writing mode, shapes, graphics and figures without extent, or nothing -, each step ends without a crash, an unhandled exception or an access to invalid memory, every character is part of exactly one word, text line and text block, and every output format can be written.",
  ["inputs"], "every combination of the stated odd elements at every stated place", "Tests process well-formed documents; empty groups, divisions by zero extents and elements that are first or last of everything at once do not occur.",
  ["src/PdfToTextPlusPlus.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp", "src/serializers/JsonlSerializer.cpp"], [("process", "src/PdfToTextPlusPlus.cpp"), ("serializeToStream", "src/serializers/PlainTextSerializer.cpp, src/serializers/PlainTextExtendedSerializer.cpp, src/serializers/JsonlSerializer.cpp")])
P("C43", "Deleting a document releases everything that processing it allocated, once",
  "After a document is processed and deleted, all the memory is released that the parser, the steps of the pipeline and the encoder of texts allocated for it: no element, candidate, intermediate result or merged word is lost, and none is released twice or used after it is released. What a step skips (white space, invisible paths, rejected cuts, merged text lines, preliminary text blocks) belongs to nobody and is released, too.",
  ["inputs", "histories"], "every document up to the stated size, each processed and deleted twice", "Tests neither delete the documents nor count what is left; a lost element has no effect on the output, and an element released twice only for the inputs that share it.",
  ["src/Types.cpp", "src/PdfParsing.cpp", "src/utils/XYCut.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/WordsDehyphenation.cpp", "src/utils/BytePairEncoder.cpp"], [("PdfDocument::~PdfDocument", "src/Types.cpp"), ("xCut, yCut", "src/utils/XYCut.cpp"), ("drawChar, stroke, drawImage", "src/PdfParsing.cpp"), ("encode", "src/utils/BytePairEncoder.cpp")])

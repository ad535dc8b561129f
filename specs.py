# Which entry points decide which property, on which sources and within which bounds.
COMMON_NATIVE_LIBS = []
SPECS = {}


def R(harness, entry, srcs, args=(), **kw):
    d = dict(harness=harness, entry=entry, srcs=list(srcs), args=list(args))
    d.update(kw)
    return d


def spec(pid, bounds, runs, **kw):
    SPECS[pid] = dict(bounds=bounds, runs=runs, **kw)


GRID = "coordinates are exact multiples of a power-of-two step within the stated range, so linear arithmetic on them is exact in doubles"
GEOM = ["utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp", "Types.cpp"]
spec("C01", "any two/three IEEE doubles (including NaN, infinities, -0) for the default and any given tolerance; any values on a 1/64 grid in +-100 for the linear reformulation", [
    R("geom", "h_tol_ieee", GEOM, logic="FP", reach=["default", "given"]),
    R("geom", "h_between_ieee", GEOM, logic="FP", reach=["done"]),
    R("geom", "h_tol_grid", GEOM, reach=["done"]),
    R("geom", "h_tol_default", GEOM, reach=["done"]),
])
spec("C02", "min/max: any 2, 3, 4 IEEE doubles; round: values on the exact grid, precisions 0..3", [
    R("geom", "h_minmax_ieee", GEOM, logic="FP", reach=["2", "3", "4"]),
    R("geom", "h_round", GEOM, reach=["0", "1", "2", "3"]),
    R("geom", "h_round_idem", GEOM, reach=["done"]),
])
spec("C03", "two elements with arbitrary corners on a grid, all four rotations; intervals of up to 400 steps", [
    R("geom", "h_overlap", GEOM, [400], reach=["overlap", "disjoint"]),
    R("geom", "h_overlap_sym", GEOM, [400], reach=["done"]),
    R("geom", "h_overlap_elem", GEOM, reach=["done"]),
    R("geom", "h_gaps", GEOM, reach=["done"]),
    R("geom", "h_equals", GEOM, reach=["done"]),
], assumptions=[GRID])
spec("C04", "any box on a grid, all four rotations", [
    R("geom", "h_rotation", GEOM, reach=["r0", "r1", "r2", "r3"]),
], assumptions=[GRID])
spec("C05", "any three elements (strict weak order), any sequence of up to 3 elements (sort), coordinates on a grid coarser than the tolerance", [
    R("geom", "h_comparators", GEOM, reach=["leftX", "rotLowerYDesc"]),
    R("geom", "h_sort", GEOM, [3], reach=["0", "1", "2"]),
], assumptions=[GRID, "coordinates differ by 0 or by more than the comparison tolerance 0.0001"])

CORE = ["utils/Counter.cpp", "utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp", "Types.cpp"]
VALID = CORE + ["Validators.cpp", "utils/Log.cpp"]
PO = ["-lboost_program_options"]
spec("C06", "up to 3 distinct keys with counts 0..5; up to 3 counted values", [
    R("core", "h_dcounter", VALID, [3], reach=["counted", "empty"]),
    R("core", "h_dcounter_inc", VALID, [3], reach=["done"]),
    R("core", "h_scounter", VALID, [2], reach=["counted", "empty"]),
], libs=PO)
spec("C07", "capacities 1..3, up to 4 pushes of any values, both orders; 8 pushes on capacities 1..6 of which the last 2 are any values (thorough: 9 and 3)", [
    R("core", "h_queue", VALID, [3, 4], args_thorough=[4, 6], reach=["min", "max"]),
    R("core", "h_queue_long", VALID, [6, 8, 2], args_thorough=[6, 9, 3], reach=["min", "max"]),
], libs=PO)
TEXT = ["utils/TextUtils.cpp", "utils/PdfElementsUtils.cpp"]
spec("C08", "every byte string of up to 4 bytes", [
    R("text", "h_escape_json", TEXT, [4], args_thorough=[6], reach=["done"]),
])
spec("C09", "every string of up to 3..6 bytes (see runs); longer texts with up to 2 arbitrary bytes at the end for shortening", [
    R("text", "h_split", TEXT, [4], reach=["done"]),
    R("text", "h_wsplit", TEXT, [4], reach=["done"]),
    R("text", "h_strip", TEXT, [4], reach=["blank", "nonblank"]),
    R("text", "h_shorten", TEXT, [3], reach=["kept", "cut"]),
    R("text", "h_shorten_long", TEXT, [2], reach=["kept", "cut"]),
    R("text", "h_join", TEXT, [3, 2], reach=["done"]),
    R("text", "h_random", TEXT, [3], reach=["first", "last", "done"]),
    R("text", "h_ends", TEXT, [4], reach=["done"]),
    R("text", "h_wrap", TEXT, [6, 4], args_thorough=[8, 5], reach=["done", "wrapped"]),
    R("text", "h_wrap_default", TEXT, [3], reach=["done"]),
])
spec("C10", "every option value of up to 4 bytes and every value one byte away from a documented name; all enum values", [
    R("core", "h_opt", VALID, [4], reach=["accepted", "refused"]),
    R("core", "h_opt_multi", VALID, reach=["done"]),
    R("core", "h_names", VALID, reach=["types", "roles", "formats"]),
], libs=PO)
spec("C11", "all levels, filters and pages in -100000..100000", [
    R("core", "h_log", VALID, reach=["shown", "hidden"]),
], libs=PO)

WORDS = ["WordsDetection.cpp", "DiacriticalMarksMerging.cpp", "utils/WordsDetectionUtils.cpp", "utils/TextUtils.cpp", "utils/Counter.cpp", "utils/Log.cpp"] + GEOM
ENVW = "poppler's text encoding is a UTF-8 encoder, utf8proc either fails or returns its input (composition itself is not modelled), rand() is an arbitrary fixed sequence, logging at its default level"
spec("C14", "one mark between any two characters; any sequence of 4 characters and marks (thorough: 5) with positions on a grid; any code point; longer sequences of characters and marks of one to four bytes", [
    R("words", "h_dia_single", WORDS, reach=["unmerged", "previous", "next", "tie"]),
    R("words", "h_dia_seq", WORDS, [4], args_thorough=[5], reach=["merged", "done"]),
    R("words", "h_dia_class", WORDS, reach=["mark", "no mark"]),
], assumptions=[GRID, ENVW])
spec("C15", "pages of up to 4 characters (thorough: 5) with symbolic positions and font sizes, every rotation and writing mode for 2 characters (thorough: 3); words of 8 characters of which one is arbitrary", [
    R("words", "h_words", WORDS, [4], args_thorough=[5], reach=["split", "joined"]),
    R("words", "h_words_long", WORDS, [8], args_thorough=[10], reach=["split", "joined"]),
    R("words", "h_words_mixed", WORDS, [2], args_thorough=[3], reach=["differ", "done"]),
], assumptions=[GRID, ENVW])
spec("C16", "pages of 4 words (thorough: 5) with symbolic positions and font sizes, up to 2 base words of every kind; 8 words in a row over and under a base word (thorough: 10)", [
    R("words", "h_stacked", WORDS, [4, 2], reach=["symbol", "end"]),
    R("words", "h_stacked_long", WORDS, [8], args_thorough=[10], reach=["many", "few"]),
    R("words", "h_stacked", WORDS, [5, 6], tier="thorough"),
], assumptions=[GRID, ENVW])
XY = ["utils/XYCut.cpp", "utils/TextUtils.cpp"] + GEOM
SEG = ["PageSegmentation.cpp", "utils/PageSegmentationUtils.cpp", "utils/Log.cpp"] + XY
spec("C12", "4 elements (thorough: 5) with symbolic extents in cut direction for single cuts, 3 elements (thorough: 4) with symbolic positions for the recursion; any minimum gap, 0 or 1 allowed overlaps, every choice of cuts; 6 and 7 elements in columns or rows of which one is anywhere, 8 in a grid (thorough: 7, 8, 9)", [
    R("layout", "h_xcut", SEG, [4, 40], args_thorough=[5, 40], reach=["cut", "no cut", "overlap"]),
    R("layout", "h_ycut", SEG, [4, 40], args_thorough=[5, 40], reach=["cut", "no cut"]),
    R("layout", "h_xcut", SEG, [6, 36], args_thorough=[7, 42], reach=["cut", "overlap"]),
    R("layout", "h_ycut", SEG, [7, 42], args_thorough=[8, 48], reach=["cut", "no cut"]),
    R("layout", "h_xycut", SEG, [8, 30], args_thorough=[9, 30], reach=["divided", "kept"]),
    R("layout", "h_xycut", SEG, [3, 40], args_thorough=[4, 40], reach=["divided", "whole", "kept"]),
], assumptions=[GRID, "elements are not rotated by 180 or 270 degrees"])
spec("C13", "pages of 3 elements (thorough: 4) with symbolic positions, and of 2 elements with symbolic positions, widths, kinds and extraction order; 6 to 8 elements in columns, rows and rows of columns of which one is anywhere (thorough: 8 to 12)", [
    R("layout", "h_segments", SEG, [3], args_thorough=[4], reach=["divided", "whole"]),
    R("layout", "h_columns", SEG, reach=["columns", "contiguous", "one"]),
    R("layout", "h_columns3", SEG, reach=["three", "two", "one"]),
    R("layout", "h_rows", SEG, [3, 0], args_thorough=[3, -1], reach=["whole", "two", "more"]),
    R("layout", "h_columns_long", SEG, [7], args_thorough=[9], reach=["many", "few"]),
    R("layout", "h_contiguous", SEG, [6], args_thorough=[9], reach=["contiguous", "columns"]),
    R("layout", "h_segments_long", SEG, [8], args_thorough=[12], reach=["done"]),
    R("layout", "h_rows", SEG, [7, 0], args_thorough=[8, 0], reach=["whole", "two", "more"]),
    R("layout", "h_crossed", SEG, reach=["crossed", "not divided"]),
], assumptions=[GRID, "the document statistics have typical fixed values"])
LINES = ["TextLinesDetection.cpp", "utils/TextLinesDetectionUtils.cpp", "SubSuperScriptsDetection.cpp", "utils/TextUtils.cpp", "utils/Counter.cpp", "utils/Log.cpp"] + GEOM
spec("C17", "segments of 4 words in one font size and 2 words in any of several sizes (thorough: 5, 3) with symbolic positions; 2 words (thorough: 3) in every rotation; one stacked symbol; 7 words in up to 3 lines of which one is anywhere (thorough: 8)", [
    R("lines", "h_lines", LINES, [2, 1, 60], reach=["merged", "several"]),
    R("lines", "h_lines", LINES, [4, 0, 60], args_thorough=[5, 0, 60], reach=["merged", "several"]),
    R("lines", "h_lines", LINES, [3, 1, 60], tier="thorough"),
    R("lines", "h_lines_long", LINES, [7, 20], args_thorough=[8, 40], reach=["merged", "apart"]),
    R("lines", "h_lines_rot", LINES, [2, 1], reach=["done", "several", "one"]),
    R("lines", "h_lines_rot", LINES, [3, 0], reach=["done", "several", "one"]),
    R("lines", "h_lines_stacked", LINES, reach=["done"]),
], assumptions=[GRID])
spec("C18", "pages of 4 lines (thorough: 5) in two segments with symbolic positions; segments of up to 4 lines (thorough: 5) with symbolic right sides; 6 lines on up to 4 levels (thorough: 7 on 5)", [
    R("lines", "h_hierarchy", LINES, [4, 20], args_thorough=[5, 20], reach=["sibling", "parent", "break"]),
    R("lines", "h_hierarchy_long", LINES, [6, 4], args_thorough=[7, 5], reach=["sibling", "parent", "break"]),
    R("lines", "h_trim", LINES, [0], reach=["untrimmed"]),
    R("lines", "h_trim", LINES, [4], args_thorough=[5], reach=["trimmed", "untrimmed"]),
], assumptions=[GRID])
STATS = ["SubSuperScriptsDetection.cpp", "GlyphsStatisticsCalculation.cpp", "WordsStatisticsCalculation.cpp", "TextLinesStatisticsCalculation.cpp", "utils/TextUtils.cpp", "utils/Counter.cpp", "utils/Log.cpp"] + GEOM
spec("C19", "5 characters (thorough: 6) in two lines on two pages with symbolic positions, baselines and font sizes; 6 characters in several words and lines of which one is arbitrary (thorough: 8)", [
    R("stats", "h_scripts", STATS, [5], args_thorough=[6], reach=["super", "sub"]),
    R("stats", "h_scripts_long", STATS, [6], args_thorough=[8], reach=["super", "sub"]),
], assumptions=[GRID])
spec("C20", "4 characters, words and lines (thorough: 5, 5, 6) with symbolic positions, font sizes and fonts; 7 and 8 elements of which one is arbitrary (thorough: 10 to 12)", [
    R("stats", "h_glyph_stats", STATS, [0], reach=["empty"]),
    R("stats", "h_glyph_stats", STATS, [4], args_thorough=[5], reach=["done"]),
    R("stats", "h_word_stats", STATS, [4], args_thorough=[5], reach=["same line", "different line", "done"]),
    R("stats", "h_line_stats", STATS, [4], args_thorough=[6], reach=["some", "per size"]),
    R("stats", "h_glyph_long", STATS, [8], args_thorough=[12], reach=["done"]),
    R("stats", "h_word_long", STATS, [8], args_thorough=[12], reach=["done"]),
    R("stats", "h_line_long", STATS, [7], args_thorough=[10], reach=["done", "two sizes"]),
], assumptions=[GRID])

BLOCKS = ["TextBlocksDetection.cpp", "utils/TextBlocksDetectionUtils.cpp", "utils/TextUtils.cpp", "utils/Counter.cpp", "utils/Log.cpp"] + GEOM
spec("C21", "preliminary blocks: segments of 2..3 lines with symbolic vertical positions, font sizes and figures; final blocks: 2..3 lines with symbolic left and right sides and a choice of texts, fonts, siblings and parents; createTextBlock: 2..3 lines anywhere, with and without a block before; 5 lines with two varying distances (thorough: 7); documents of two pages with several segments, labels, items and continuations", [
    R("blocks", "h_create", BLOCKS, [3], reach=["done"]),
    R("blocks", "h_create", BLOCKS, [2], reach=["two after one"]),
    R("blocks", "h_blocks_pre", BLOCKS, [3, 0, 30], reach=["line distance", "increased"]),
    R("blocks", "h_blocks_pre", BLOCKS, [5, 4, 60], args_thorough=[7, 4, 90], reach=["line distance", "increased"]),
    R("blocks", "h_blocks_pre", BLOCKS, [3, 1, 30], reach=["font size"]),
    R("blocks", "h_blocks_pre", BLOCKS, [2, 2, 60], reach=["line distance"]),
    R("blocks", "h_blocks_pre", BLOCKS, [2, 3, 60], reach=["same figure"]),
    R("blocks", "h_blocks_fin", BLOCKS, [2, 0, 0], reach=["indent", "centered", "hanging"]),
    R("blocks", "h_blocks_fin", BLOCKS, [2, 1, 0], reach=["item"]),
    R("blocks", "h_blocks_fin", BLOCKS, [2, 2, 0], reach=["emphasized"]),
    R("blocks", "h_blocks_fin", BLOCKS, [3, 0, 1], args_thorough=[3, 0, 0], reach=["hanging"]),
    R("blocks", "h_blocks_fin", BLOCKS, [3, 1, 1], args_thorough=[3, 1, 0], reach=["item", "continuation"]),
    R("blocks", "h_blocks_long", BLOCKS, reach=["item", "continuation", "after item", "indent"]),
    R("blocks", "h_blocks_hang", BLOCKS, reach=["hanging", "indent"]),
], assumptions=[GRID])
spec("C22", "2 or 3 lines with symbolic positions (centered), 3..4 lines with symbolic margins (hanging indent), any text of up to 2 bytes (emphasis), any line of up to 2 bytes and any byte after 21 starts of labels (item labels; thorough: 3 and 2), words of 4 characters of 9 kinds (footnote labels; thorough: 5), any character of up to 3 bytes; 7 lines of which one has any margin and one any text (hanging indent; thorough: 9); longer emphasized prefixes and chains of lines", [
    R("blocks", "h_centered", BLOCKS, [2], reach=["centered", "not centered"]),
    R("blocks", "h_centered", BLOCKS, [3], reach=["centered", "not centered"]),
    R("blocks", "h_emphasized", BLOCKS, [2], reach=["emphasized", "plain"]),
    R("blocks", "h_capacity", BLOCKS, reach=["done"]),
    R("blocks", "h_hanging", BLOCKS, [3, 1], reach=["hanging", "not hanging", "no margin"]),
    R("blocks", "h_hanging", BLOCKS, [4, 0], reach=["hanging", "not hanging", "no margin"]),
    R("blocks", "h_hanging_long", BLOCKS, [7], args_thorough=[9], reach=["hanging", "not hanging"]),
    R("blocks", "h_item_label", BLOCKS, [2, 0], args_thorough=[3, 0], reach=["label"]),
    R("blocks", "h_item_label", BLOCKS, [1, 1], args_thorough=[2, 1], reach=["label"]),
    R("blocks", "h_super_label", BLOCKS, reach=["label", "empty", "none"]),
    R("blocks", "h_fn_labels", BLOCKS, [4], args_thorough=[5], reach=["done", "two"]),
    R("blocks", "h_fn_special", BLOCKS, reach=["special", "other", "shared byte"]),
    R("blocks", "h_fn_prefix", BLOCKS, reach=["none", "some"]),
    R("blocks", "h_first_item", BLOCKS, reach=["item", "footnote", "continues text"]),
    R("blocks", "h_figure_of", BLOCKS, reach=["figure", "none"]),
], assumptions=[GRID])
ORDER = ["ReadingOrderDetection.cpp"] + XY
spec("C23", "pages of 3 and 4 text blocks with symbolic positions; pages of 2 text blocks of any relevant role, rotation and writing mode and a figure, line or third block with symbolic positions; pages of 5 to 7 bands of wide blocks, rows of two columns, figures and lines with one more element anywhere", [
    R("order", "h_order", ORDER, [3, 1, 60], reach=["divided", "whole", "x", "y"]),
    R("order", "h_order", ORDER, [3, 2, 60], reach=["divided", "whole", "x", "y"]),
    R("order", "h_order", ORDER, [4, 1, 60], args_thorough=[5, 1, 60], reach=["divided", "whole", "x", "y"]),
    R("order", "h_primary", ORDER, [0, 40], tier="thorough", reach=["divided", "x", "y"]),
    R("order", "h_primary", ORDER, [2, 40], reach=["divided", "x", "y"]),
    R("order", "h_primary", ORDER, [3, 40], reach=["divided", "x", "y"]),
    R("order", "h_primary", ORDER, [1, 40], reach=["divided", "x", "y"]),
    R("order", "h_primary_mix", ORDER, [40], reach=["divided", "x", "y"]),
    R("order", "h_order_long", ORDER, [0, 60], reach=["divided", "x", "y"]),
    R("order", "h_order_long", ORDER, [1, 60], reach=["divided", "x", "y"]),
    R("order", "h_order_empty", ORDER, reach=["whole"]),
], assumptions=[GRID, "the roles a trained model predicts are arbitrary", "blocks are not rotated by 180 or 270 degrees"])
SER = ["WordsDehyphenation.cpp", "serializers/PlainTextSerializer.cpp", "serializers/PlainTextExtendedSerializer.cpp", "serializers/JsonlSerializer.cpp", "serializers/Serializer.cpp", "utils/TextUtils.cpp"] + GEOM
SHAPES = "8 arrangements of up to 4 words in lines, blocks and pages (including empty lines and pages)"
spec("C24", SHAPES + ", every word any string of up to 2 letters and hyphens (thorough: 3); six documents of 5 or 6 lines on up to 5 pages with every word any string of 2 letters and hyphens", [
    R("serial", "h_dehyph_long", SER, reach=["joined", "chain", "done"]),
    R("serial", "h_dehyph", SER, [2], args_thorough=[3], reach=["joined", "done"]),
])
spec("C25", SHAPES + ", every word any string of 1..2 letters and hyphens (thorough: 3), every choice of roles; any 3 characters of which one may be a mark of another", [
    R("serial", "h_txt", SER, [2, 0], args_thorough=[3, 0], reach=["text", "empty"]),
    R("serial", "h_txt", SER, [2, 1], args_thorough=[3, 1], reach=["text", "empty"]),
    R("serial", "h_txt", SER, [2, 2], args_thorough=[3, 2], reach=["text", "empty"]),
    R("serial", "h_marks", SER, [0], reach=["done"]),
])
spec("C26", SHAPES + ", every word any string of 1..2 letters and hyphens, every choice of roles and emphasis; every role; any 3 characters of which one may be a mark of another", [
    R("serial", "h_ext", SER, [2, 0], reach=["text", "empty"]),
    R("serial", "h_ext", SER, [2, 1], reach=["text", "empty"]),
    R("serial", "h_ext", SER, [2, 2], reach=["text", "empty"]),
    R("serial", "h_ext_roles", SER, reach=["done"]),
    R("serial", "h_marks", SER, [1], reach=["done"]),
])
spec("C27", "texts of up to 2 and font names of up to 1 arbitrary bytes, every choice of roles and element types, every combination of types; coordinates from a list of values; 3 pages with several elements of every kind, one with a long text with an arbitrary character", [
    R("serial", "h_jsonl", SER, [0], reach=["done", "block", "word", "char"]),
    R("serial", "h_jsonl", SER, [1], reach=["done", "block", "word", "char"]),
    R("serial", "h_jsonl", SER, [2], reach=["done", "block", "word", "char"]),
    R("serial", "h_jsonl_types", SER, reach=["done"]),
    R("serial", "h_jsonl_many", SER, [3], reach=["done"]),
    R("serial", "h_jsonl_precision", SER, reach=["done"]),
], assumptions=["ids are made of letters and digits", "coordinates are finite"])
spec("C28", "every output path of up to 5 characters of a, '.', '/' and blank, and every directory name of up to 4 characters of a, blank, $, ;, ' and ` ; the file system, the shell and the C library behind them are replaced by a model", [
    R("target", "h_target", SER, [5, 0], args_thorough=[7, 0], reach=["file", "new directory", "error"]),
    R("target", "h_target", SER, [4, 1], args_thorough=[6, 1], reach=["new directory"]),
    R("target", "h_stdout", SER, reach=["stdout"]),
], assumptions=["file names contain no '..'", "only the shell syntax of words, quotes and special characters is modelled"])
FONT = ["utils/PdfFontInfoParser.cpp", "utils/MathUtils.cpp", "Types.cpp"]
spec("C29", "one command in any state of up to 7 arguments; glyph programs of 3 commands (thorough: 4) over two subroutines; any bytes up to length 3; any ciphertext up to 6 bytes", [
    R("font", "h_glyph_cmd", FONT, reach=["done"]),
    R("font", "h_glyph_other", FONT, reach=["done"]),
    R("font", "h_glyph_num", FONT, [6], reach=["short", "long"]),
    R("font", "h_glyph_prog", FONT, [3], args_thorough=[4], reach=["done"]),
    R("font", "h_glyph_any", FONT, [2, 3], args_thorough=[3, 3], reach=["done"]),
    R("font", "h_glyph_nest", FONT, reach=["loop", "nested"]),
    R("font", "h_decrypt", FONT, [6], args_thorough=[8], reach=["done"]),
])
spec("C30", "one font with a subroutine and two glyphs in 6 file formats and 4 encryptions, every length field of up to 600 bytes; dictionaries with up to 9 matrix entries; files cut or damaged at every length field; fonts of 5 glyphs and 6 subroutines (thorough: 9, 10)", [
    R("font", "h_t1_file", FONT, reach=["binary", "segments", "hex"]),
    R("font", "h_t1_glyphs", FONT, [5], args_thorough=[9], reach=["binary", "hex"]),
    R("font", "h_t1_dict", FONT, reach=["done", "no file"]),
    R("font", "h_t1_damaged", FONT, reach=["done"]),
], assumptions=["Poppler's stream and dictionary classes deliver the bytes and entries of the file"])
spec("C31", "every font name of up to 4 characters of A, z, 1, + and - and five endings; every combination of flags, weights, font types and font file locations; 60 long names with any letter, digit or hyphen at any of 5 places", [
    R("font", "h_font_name", FONT, [4], args_thorough=[5], reach=["done"]),
    R("font", "h_font_name_long", FONT, reach=["done"]),
    R("font", "h_font_flags", FONT, reach=["file", "done"]),
    R("font", "h_font_none", FONT, reach=["done"]),
], assumptions=["Poppler's font classes deliver the entries of the font dictionary"])
PARSE = ["PdfParsing.cpp", "Types.cpp", "utils/Log.cpp", "utils/MathUtils.cpp", "utils/TextUtils.cpp", "utils/PdfElementsUtils.cpp"]
spec("C32", "one character at any position (quarter units) with any width up to 2 em, in 4 kinds of fonts, 8 text matrices, 4 page rotations, 3 sizes, with and without scaling and rise; any glyph box; up to 3 code points of any value but surrogates; 4 font and text events (thorough: 5); glyphs of up to 8 code points of which one is any of one or two bytes", [
    R("parse", "h_char_box", PARSE, [0], reach=["horizontal", "vertical", "mirrored"]),
    R("parse", "h_char_box", PARSE, [1], reach=["horizontal", "vertical", "mirrored"]),
    R("parse", "h_char_glyph", PARSE, reach=["glyph", "font"]),
    R("parse", "h_char_text", PARSE, reach=["blank", "mapped", "text"]),
    R("parse", "h_char_many", PARSE, [8], reach=["blank", "text"]),
    R("parse", "h_char_map", PARSE, reach=["done"]),
    R("parse", "h_char_color", PARSE, reach=["done"]),
    R("parse", "h_fonts", PARSE, [4], args_thorough=[5], reach=["done"]),
], libs=["-lpoppler"], assumptions=["Poppler reports events, graphics states and valid code points as documented"])
spec("C33", "up to 3 pages; paths of up to 2 points (thorough: 3) in two subpaths and 3 matrices; images under any matrix on the grid; 2 elements (thorough: 3) on up to 2 pages; paths of 4 subpaths with 5 points each of which two are anywhere; sequences of 10 elements in 5 clip boxes of which the last is anywhere", [
    R("parse", "h_page", PARSE, reach=["done"]),
    R("parse", "h_path", PARSE, [2], args_thorough=[3], reach=["visible", "invisible"]),
    R("parse", "h_path_long", PARSE, [4, 5], reach=["visible", "invisible"]),
    R("parse", "h_image", PARSE, reach=["visible", "invisible"]),
    R("parse", "h_owner", PARSE, [2], args_thorough=[3], reach=["page", "same figure", "done"]),
    R("parse", "h_owner_long", PARSE, [9], reach=["page", "same figure", "done"]),
], libs=["-lpoppler"], assumptions=["Poppler reports events and graphics states as documented"])
ENC = ["utils/BytePairEncoder.cpp", "utils/TextUtils.cpp"]
spec("C34", "every word of up to 4 characters of any code point and every vocabulary of up to 2 tokens (thorough: 3) of up to 2 characters, with or without the end-of-word mark; every text of up to 3 characters (thorough: 4), target lengths 0 to 5; words of 8 letters (thorough: 10) over two letters with 4 vocabularies", [
    R("encode", "h_encode_word", ENC, [4, 2], args_thorough=[4, 3], reach=["done"], shadow="shadow_hash"),
    R("encode", "h_encode_text", ENC, [3], args_thorough=[4], reach=["target", "all"], shadow="shadow_hash"),
    R("encode", "h_encode_long", ENC, [8], args_thorough=[10], reach=["done"], shadow="shadow_hash"),
], assumptions=["the standard hash tables are associative maps", "texts and vocabularies contain none of the three meta symbols"])
ROLES = ["SemanticRolesPrediction.cpp", "utils/BytePairEncoder.cpp", "utils/TextUtils.cpp", "Types.cpp"]
spec("C35", "probabilities on a 1/64 grid for up to 2 text blocks on up to 3 pages and 4 roles (thorough: 14); block texts of up to 2 characters (thorough: 3); any box on a half-unit grid, 3 font sizes, any weight; vocabulary files of up to 2 lines (thorough: 3); a text of 14 letters with another one at any place", [
    R("roles", "h_roles_argmax", ROLES, [2, 4], args_thorough=[2, 14], reach=["blocks", "empty"], shadow="shadow_hash"),
    R("roles", "h_roles_text", ROLES, [2], args_thorough=[3], reach=["done"], shadow="shadow_hash"),
    R("roles", "h_roles_long", ROLES, [0], reach=["done"], shadow="shadow_hash"),
    R("roles", "h_roles_long", ROLES, [1], reach=["done"], shadow="shadow_hash"),
    R("roles", "h_roles_layout", ROLES, reach=["one", "two"], shadow="shadow_hash"),
    R("roles", "h_roles_words", ROLES, [3], args_thorough=[4], reach=["done"], shadow="shadow_hash"),
    R("roles", "h_roles_vocab", ROLES, [2], args_thorough=[3], reach=["missing", "read"], shadow="shadow_hash"),
    R("roles", "h_roles_disabled", ROLES, reach=["off", "on"], shadow="shadow_hash"),
], assumptions=["the neural network itself (TensorFlow, not installed here) is a model that returns any probabilities"])
spec("C36", "PDFs of 0 to 2 pages that load or fail with any error code; every combination of disabled steps, with and without running times; PDFs of 12 pages with the last four steps disabled or not", [
    R("pipe", "h_pipeline", ["PdfToTextPlusPlus.cpp", "Types.cpp"], [0], reach=["ok", "error"]),
    R("pipe", "h_pipeline", ["PdfToTextPlusPlus.cpp", "Types.cpp"], [12], reach=["ok", "error"]),
], libs=["-lpoppler"], assumptions=["the steps themselves are stand-ins that record how they are called (they are decided by C12 to C24, C32, C33 and C35)"])
CLI = ["Types.cpp", "Validators.cpp", "PdfDocumentSerialization.cpp", "serializers/PlainTextSerializer.cpp", "serializers/PlainTextExtendedSerializer.cpp", "utils/PdfElementsUtils.cpp", "utils/TextUtils.cpp", "utils/MathUtils.cpp"]
spec("C37", "every combination of the 26 --debug and --skip and the 11 --visualize switches with every verbosity; every format, pair of roles, type and kind of output file; every exit status; wrong values of up to 3 characters (thorough: 5); up to two running times", [
    R("cli", "h_cli_config", CLI, reach=["done"]),
    R("cli", "h_cli_output", CLI, reach=["done"]),
    R("cli", "h_cli_status", CLI, reach=["ok", "error"]),
    R("cli", "h_cli_visualize", CLI, reach=["none", "drawn"]),
    R("cli", "h_cli_help", CLI, reach=["help", "full", "version"]),
    R("cli", "h_cli_errors", CLI, [3], args_thorough=[5], reach=["done"]),
    R("cli", "h_cli_times", CLI, reach=["time", "none"]),
    R("cli", "h_cli_effects", CLI, reach=["done"]),
], libs=["-lboost_program_options", "-lpoppler"], assumptions=["boost::program_options parses a command line as documented (the replay uses the real library)", "the engine, the file system and the visualization are stand-ins that record how they are called (C28, C36, C38)"])
VIS = ["PdfDocumentVisualization.cpp", "Types.cpp", "utils/MathUtils.cpp", "utils/PdfElementsUtils.cpp", "utils/TextUtils.cpp"]
spec("C38", "documents of 1 or 2 pages with up to 2 elements of a kind per page, 3 text blocks or 2 cuts (thorough: 4, 3), at every position and extent on a grid of 0.25 points, including empty ones; media boxes with every origin on a grid of 5 points; 11 text blocks and 9 cuts of which one is anywhere", [
    R("vis", "h_vis_boxes", VIS, reach=["done"]),
    R("vis", "h_vis_origin", VIS, reach=["done"]),
    R("vis", "h_vis_order", VIS, [3], args_thorough=[4], reach=["done"]),
    R("vis", "h_vis_order", VIS, [11], reach=["done"]),
    R("vis", "h_vis_cuts", VIS, [2], args_thorough=[3], reach=["done"]),
    R("vis", "h_vis_cuts", VIS, [9], reach=["done"]),
], libs=["-lpoppler"], assumptions=["Poppler's PDF document, pages and annotations are stand-ins that record what is added to them"])
WHOLE = ["PdfToTextPlusPlus.cpp", "GlyphsStatisticsCalculation.cpp", "DiacriticalMarksMerging.cpp", "WordsDetection.cpp", "WordsStatisticsCalculation.cpp", "PageSegmentation.cpp", "TextLinesDetection.cpp", "SubSuperScriptsDetection.cpp", "TextLinesStatisticsCalculation.cpp", "TextBlocksDetection.cpp", "ReadingOrderDetection.cpp", "SemanticRolesPrediction.cpp", "WordsDehyphenation.cpp", "Types.cpp", "serializers/Serializer.cpp", "serializers/PlainTextSerializer.cpp",
  "utils/BytePairEncoder.cpp", "utils/Counter.cpp", "utils/Log.cpp", "utils/MathUtils.cpp", "utils/PageSegmentationUtils.cpp", "utils/PdfElementsUtils.cpp", "utils/TextBlocksDetectionUtils.cpp", "utils/TextLinesDetectionUtils.cpp", "utils/TextUtils.cpp", "utils/WordsDetectionUtils.cpp", "utils/XYCut.cpp"]
spec("C39", "2 characters anywhere on a page (grid of 2 to 20 points; thorough: 3), upright or rotated, of two sizes and fonts, next to a shape, graphic or figure; 3 characters on two pages; pages without text; 2 characters and an accent drawn before, after or away from them; 3 lines, 2 columns of 2 lines, a line across the page above and below 2 columns of 2 or 3 lines or 3 columns of 2 lines, 3 pages of up to 2 lines with varying gaps and orders of drawing; a hyphenated word across lines and pages", [
    R("whole", "h_whole", WHOLE, [2, 100, 2, 0], args_thorough=[3, 4, 20, 0], reach=["done"]),
    R("whole", "h_whole", WHOLE, [2, 20, 5, 1], reach=["done"]),
    R("whole", "h_whole", WHOLE, [2, 10, 5, 2], reach=["done"]),
    R("whole", "h_whole", WHOLE, [3, 3, 20, 3], reach=["done"]),
    R("whole", "h_whole", WHOLE, [2, 3, 20, 4], reach=["done"]),
    R("whole", "h_whole_empty", WHOLE, reach=["done"]),
    R("whole", "h_whole_marks", WHOLE, [12], reach=["done"]),
    R("whole", "h_whole_lines", WHOLE, [3, 2, 2], args_thorough=[4, 2, 2], reach=["done"]),
    R("whole", "h_whole_columns", WHOLE, [2, 2], args_thorough=[3, 2], reach=["done"]),
    R("whole", "h_whole_layout", WHOLE, [2, 2, 2], reach=["done"]),
    R("whole", "h_whole_layout", WHOLE, [2, 3, 2], reach=["done"]),
    R("whole", "h_whole_layout", WHOLE, [3, 2, 1], reach=["done"]),
    R("whole", "h_whole_pages", WHOLE, [3], reach=["done"]),
    R("whole", "h_whole_hyphen", WHOLE, reach=["done"]),
], libs=["-lpoppler", "-lutf8proc"], assumptions=["the parser is a stand-in that yields the characters (C32, C33)"])
spec("C40", "3 characters anywhere on a 4 x 4 grid; 3 lines with varying starts, gaps, sizes and fonts; two columns of 2 lines; a line with a small character at any height, a hyphenated word and a line drawn on the page; each moved by 4 offsets and put on another page (larger moves follow by the same terms)", [
    R("whole", "h_shift", WHOLE, [0, 3, 2, 10], reach=["done"]),
    R("whole", "h_shift", WHOLE, [1, 3, 2, 1], reach=["done"]),
    R("whole", "h_shift", WHOLE, [2, 2, 2, 0], reach=["done"]),
    R("whole", "h_shift", WHOLE, [3, 0, 2, 0], reach=["done"]),
], libs=["-lpoppler", "-lutf8proc"], assumptions=["the parser is a stand-in that yields the characters (C32, C33)"])
spec("C41", "the documents of C40, each processed twice with one of 4 other documents (or none, or an empty one) in between; the documents of C40 after ones that use the same names of fonts and pages for other fonts and sizes", [
    R("whole", "h_again", WHOLE, [0, 3, 3, 10], reach=["done"]),
    R("whole", "h_again", WHOLE, [1, 3, 2, 1], reach=["done"]),
    R("whole", "h_again", WHOLE, [2, 2, 2, 0], reach=["done"]),
    R("whole", "h_again", WHOLE, [3, 0, 2, 0], reach=["done"]),
    R("whole", "h_fresh", WHOLE, [1, 3, 2, 1], reach=["done"]),
    R("whole", "h_fresh", WHOLE, [3, 0, 2, 0], reach=["done"]),
], libs=["-lpoppler", "-lutf8proc"], assumptions=["the parser is a stand-in that yields the characters (C32, C33)"])
ANY = WHOLE + ["serializers/PlainTextExtendedSerializer.cpp", "serializers/JsonlSerializer.cpp"]
spec("C42", "2 (3) elements on a page, each of 14 kinds (without width, height, size or text, of several letters, far outside, larger than the page, vertical, shape, graphic, figure, ...), at any of 9 places (at one place, in a row, in a column); pages without extent; plain, extended and JSONL output", [
    R("any", "h_any", ANY, [2, 2, 1, 0], reach=["done"]),
    R("any", "h_any", ANY, [1, 2, 3, 0], reach=["done"]),
    R("any", "h_any", ANY, [3, 0, 1, 0], reach=["done"]),
    R("any", "h_any", ANY, [3, 0, 1, 1], reach=["done"]),
    R("any", "h_any", ANY, [3, 0, 1, 2], reach=["done"]),
], libs=["-lpoppler", "-lutf8proc"], assumptions=["the parser is a stand-in that yields the characters (C32, C33)"])
spec("C43", "the documents of C40, each processed and deleted twice; 1 element of the 14 kinds of C42 at any of 9 places, 2 of them at any of 4 places (thorough: 3 of them in a row); 3 lines (thorough: 4) of one or two words with or without hyphens, on one page or two; a large symbol with others above and below it, with and without an accent; 3 events of the parser (thorough: 4) of 8 kinds in up to 3 clip boxes, at any place; words of up to 6 letters (thorough: 7) with 4 vocabularies", [
    R("own", "h_own", ANY, [0, 3, 2, 10], reach=["done"]),
    R("own", "h_own", ANY, [1, 3, 2, 1], reach=["done"]),
    R("own", "h_own", ANY, [2, 2, 2, 0], reach=["done"]),
    R("own", "h_own", ANY, [3, 0, 2, 0], reach=["done"]),
    R("own", "h_own_any", ANY, [1, 2, 3, 0], reach=["done"]),
    R("own", "h_own_any", ANY, [2, 1, 1, 0], args_thorough=[3, 0, 1, 1], reach=["done"]),
    R("own", "h_own_hyphen", ANY, [3], args_thorough=[4], reach=["done"]),
    R("own", "h_own_stacked", ANY, [6], reach=["done"]),
    R("own_parse", "h_own_parse", PARSE, [3], args_thorough=[4], reach=["done"]),
    R("own_encode", "h_own_encode", ENC, [6], args_thorough=[7], reach=["done"], shadow="shadow_hash"),
], libs=["-lpoppler", "-lutf8proc"], assumptions=["the parser is a stand-in that yields the characters (C32, C33); Poppler and the hash tables are stand-ins where the parser and the encoder are run"])

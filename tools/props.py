# Single source of properties.jsonl and MANIFEST.json (run gen.py).
P = []
def prop(id, title, statement, over, text, why, files, mech, claimed=True, tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, tech=tech, note=note, na=na))

EQ = "gated-value abstract interpretation of the typed syntax tree; equality with a Go specification discharged in a linear-inequality domain"

prop("C01", "Aligning text pads it to exactly the requested width",
 "For every text and every width, left/right/centre alignment returns the text unchanged when its measured display width is at least the width, and otherwise the text with exactly the missing number of spaces: all after it, all before it, or split around it with the odd space on the left. Nothing is ever truncated, and no other character is added.",
 ["inputs"], "every string and every 16-bit width",
 "The tests align a handful of short strings; the arithmetic (16-bit subtraction, odd/even split) has to be right for every pair of widths.",
 ["alignment.go"], [("alignment functions", "alignment.go:AlignmentLeft, AlignmentRight, AlignmentCenter")], tech=EQ)

prop("C02", "Display width is the text's width without its ANSI escape sequences",
 "The display width the library aligns by equals the terminal-cell width of the text minus the cells taken by its ANSI escape sequences (introduced by ESC or by U+009B), each non-overlapping leftmost match counted once. It is never negative and never wraps: widths beyond 65535 count as 65535.",
 ["inputs"], "every string, including ones with several escapes, partial escapes, and more than 65535 cells",
 "Tests measure a few coloured strings; the set of escape sequences and the arithmetic over any number of matches is unbounded.",
 ["width.go"], [("width computation", "width.go:visualWidth"), ("escape pattern", "width.go:ansiEscapeRE")], tech=EQ + "; regular-language equivalence of the escape pattern by automaton bisimulation")

prop("C03", "Remembering widths never changes a measured width",
 "While the width settings stay the same, measuring the same text gives the same width no matter what was measured before it, how many other texts were measured in between, or whether a remembered value was used. Every value that is remembered for a text is exactly the width that would be computed for that text.",
 ["histories", "inputs"], "every sequence of measurements and every text",
 "Tests measure each text once or twice; a wrong remembered entry shows only after a particular history.",
 ["width.go"], [("width cache", "width.go:widthCache"), ("lookup and store", "width.go:visualWidth")], tech="cache-coherence obligations on every lookup and store of the shared cache, over gated values")

prop("C04", "Recorded column widths cover every formatted cell and never shrink",
 "After any sequence of formatting items and merging externally supplied widths, the recorded width of a column equals the largest display width of the cells formatted for it and of the widths supplied for it so far. A recorded width never decreases, a new table has recorded none, and reading a width records nothing.",
 ["histories", "inputs"], "every sequence of format/update calls on a table, every item, every column list, including repeated column names and items whose formatting fails part-way",
 "Tests format a few rows once; the maximum over all histories and the failure paths are not enumerable.",
 ["table.go"], [("width ledger", "table.go:FormatItem, UpdateWidth, Width, NewTable")], tech=EQ)

prop("C05", "Formatting an item returns one formatted cell per column, in column order",
 "Formatting an item yields, for each column in order, the text that column's formatter returns for the value its getter returned for that item. The first error from a getter or formatter (in column order) is returned as is, with no cells; otherwise no error is returned. Nothing but the table's recorded widths changes.",
 ["inputs", "fault_sequences"], "every column list, every item, every getter and formatter result, every position of the first failure",
 "Tests use getters that never fail and a fixed column list.",
 ["table.go", "table_iface.go"], [("row formatting", "table.go:FormatItem")], tech=EQ)

prop("C06", "Basic row formatting joins the columns' value strings with the separator",
 "Formatting an item for non-tabular output yields the value strings of the columns in order with exactly one separator between neighbours and none at either end, for every separator including the empty one. The first error is returned as is, with an empty text.",
 ["inputs", "fault_sequences"], "every column list (also empty), item, separator and failure position",
 "Tests do not exercise separators, failures or empty column lists.",
 ["table.go"], [("basic formatting", "table.go:FormatItemBasic")], tech=EQ)

prop("C07", "Aligning a row pads each cell by its column's alignment and recorded width",
 "Aligning a formatted row replaces each cell whose column has an alignment by that alignment applied to the cell and the column's recorded width, leaves the other cells as they are, and returns the row. A row whose length differs from the number of columns is rejected with an error and left untouched.",
 ["inputs"], "every row length, column list, alignment function and recorded width",
 "Tests align rows of the right length with fixed alignments.",
 ["table.go"], [("row alignment", "table.go:AlignFormattedItem")], tech=EQ)

prop("C08", "The header shows a title that fits, centred over each column",
 "The header consists, for each column in order, of a title and the separator, and ends with a newline. A column with a recorded width shows its title if that fits the width, else its short title if that fits, else nothing, centred in exactly the column's width; a column without recorded width shows its plain title.",
 ["inputs"], "every column list, title, short title, recorded width and separator",
 "Tests print one header; the fit decision has to be right for every display width, including wide and coloured titles.",
 ["table.go"], [("header", "table.go:FormatHeader, padColumnHeader")], tech=EQ)

prop("C09", "Column registry and table width account for every column exactly once",
 "Added columns are appended in order and found by name (a later column of the same name replaces the earlier one in lookups only); the column count is the number of added columns; a table made without column list starts with a fresh empty one. The table width is the sum of the recorded column widths plus one margin between neighbouring columns, saturating at 65535, and zero without columns.",
 ["histories", "inputs"], "every sequence of added columns, every margin and every set of recorded widths",
 "Tests add a few columns and do not check widths near the 16-bit limit or empty tables.",
 ["table.go"], [("registry", "table.go:AddColumn, HasColumn, ColumnCount, NewTableSpec, NewTable"), ("width sum", "table.go:TableWidth")], tech=EQ)

prop("C10", "Merged printing shows every item exactly once, in order",
 "Merging rows side by side prints every item of the list exactly once and nothing else: horizontally, item i is on line i/G at place i mod G; vertically, item i is on line i mod L at place i/L, where G is the number of places per line and L the number of lines. Exactly as many lines as needed for the items at G places per line are printed, none for an empty list.",
 ["inputs", "configurations"], "every number of items, every group count the layout can choose, both directions, compact or not",
 "Tests print one list at a few widths; index arithmetic has to be right for every (item count, group count).",
 ["horizontal.go", "vertical.go"], [("line loops", "horizontal.go:MergeRowsHorizontal; vertical.go:MergeRowsVertical")], tech=EQ + "; obligations on the line loop for every group count")

prop("C11", "Merged lines never exceed the maximum width unless one row alone does",
 "If a merged line holds more than one item per line, the column widths the layout uses plus the inner and outer separators add up to at most the requested maximum width (negative maxima count as 0, maxima beyond 65535 as 65535). This holds for both directions, compact or not, for separators shorter than 64 KiB.",
 ["inputs", "configurations"], "every maximum width, separator, column list, recorded width and item list",
 "Tests compare a few fixed outputs; the bound must hold for all widths including those near the 16-bit limit.",
 ["horizontal.go", "vertical.go", "table.go"], [("group count", "horizontal.go:MergeRowsHorizontal; vertical.go:MergeRowsVertical"), ("compact search", "horizontal.go:compactCalcH; vertical.go:compactCalcV")], tech="inequality obligations over the symbolic group count and width vector (linear-inequality domain, division lemmas, loop-exit facts)")

prop("C12", "Merged cells line up in columns",
 "In merged output each cell is its item's text aligned by its column's alignment (left by default) to a width that depends only on the column and the place, never on the line: the recorded column width, or, when the compact layout placed more items per line, the widest cell of that column among the items at that place. Cells of an item are joined by one space, items by the separator (a line with free places may also end with one), and every line ends with a newline.",
 ["inputs", "configurations"], "every item list, alignment, separator, group count and recorded width",
 "Tests compare a few fixed outputs.",
 ["horizontal.go", "vertical.go"], [("line assembly", "horizontal.go:MergeRowsHorizontal; vertical.go:MergeRowsVertical"), ("compact widths", "horizontal.go:mergedRowsWidthH; vertical.go:mergedRowsWidthV")], tech=EQ + "; per-line string equality for every group count")

prop("C13", "A failed write is never silent",
 "If writing a merged line fails, the call panics with that error before anything more is written: output is never silently lost or written past a failure. Nothing is written except the merged lines, and only to the writer given by the caller.",
 ["fault_sequences"], "every write that can fail, at every line",
 "Tests write to a buffer that never fails.",
 ["horizontal.go", "vertical.go"], [("error check after each write", "horizontal.go:MergeRowsHorizontal; vertical.go:MergeRowsVertical")], tech="effect analysis: every write site's error value is checked before the next effect on every path")

prop("C14", "Every exported operation terminates",
 "Every call of an exported operation returns (or panics) after finitely many steps for every input: every loop that is reached has a bound on its number of iterations and there is no unbounded recursion. This includes the search for a compact layout with empty separators, no columns, or empty cells.",
 ["inputs"], "every exported function and every input, given that caller-supplied callbacks return",
 "Non-termination on a particular input shows in no finite sample of other inputs.",
 ["horizontal.go", "vertical.go", "table.go", "width.go", "runewidth/runewidth.go", "runewidth/uniseg/step.go"], [("loops", "all loops reachable from the exported functions")], tech="ranking-function inference for every loop in the call graph; recursion check on the call graph")

prop("C15", "No exported operation crashes on well-formed input",
 "No index or slice expression is out of range, no division is by zero, no repeat count is negative, no map is written while nil, no nil function is called or nil pointer followed, and no panic is raised (but for a failed write, C13) in any exported operation, for every text, width, item list and column list, given tables and column lists made by their constructors, columns with a getter, and rows with at least one cell per column; a column without alignment is fine. Lists of zero items, tables of zero columns and empty or invalid UTF-8 text are well-formed.",
 ["inputs"], "every exported function, every operation in it or its callees that could fault, every input",
 "A crash needs a particular combination of lengths; tests reach few.",
 ["horizontal.go", "vertical.go", "table.go", "width.go", "alignment.go", "runewidth/runewidth.go", "runewidth/runewidth_posix.go", "runewidth/uniseg/step.go"], [("bounds", "all faulting operations reachable from the exported functions")], tech="abstract interpretation: one range obligation per faulting operation")

prop("C16", "Tables and measurements can be used from several goroutines",
 "Measuring, aligning, and using distinct tables from several goroutines never races: package-level state written after initialisation is touched only through synchronised operations. Documented configuration calls (building the lookup table) are exempt.",
 ["schedules"], "every interleaving of exported operations on distinct tables",
 "The tests are sequential; a race needs a particular interleaving.",
 ["width.go", "runewidth/runewidth.go"], [("synchronised cache", "width.go:widthCache")], tech="escape/effect analysis of package-level variables over the call graph from the exported API")

prop("C17", "Every code point has its East-Asian-width cell count under every setting",
 "For every code point and each combination of the East-Asian and strict-emoji settings, the width in cells is the reference one: 0 for non-printing and combining characters, 2 for wide (and, in East-Asian mode, ambiguous) characters, 1 otherwise; values that are not code points have width 0. Widths are always 0, 1 or 2.",
 ["inputs", "configurations"], "all 1,114,112 code points and all other 32-bit values, in all four settings",
 "The checksums cover strict mode only, and not values outside the code space.",
 ["runewidth/runewidth.go", "runewidth/runewidth_table.go"], [("width decision", "runewidth/runewidth.go:RuneWidth"), ("tables", "runewidth/runewidth_table.go")], tech="value analysis of the decision with recognised interval searches, folded over the elementary intervals of the tables and compared with reference data")

prop("C18", "The lookup table changes speed only, never a width",
 "After building the lookup table, every code point has exactly the width it had before with the same settings, and rebuilding it after changing the settings yields the widths of the new settings. Building it twice is harmless.",
 ["inputs", "histories"], "all code points, all settings, every sequence of setting changes and rebuilds",
 "Tests compare checksums for the default settings.",
 ["runewidth/runewidth.go"], [("table construction and packed read", "runewidth/runewidth.go:CreateLUT, RuneWidth")], tech=EQ + "; packed-table read after symbolic construction")

prop("C19", "Text width is the sum over clusters of the first non-zero code-point width",
 "The cell width of a text is the sum, over its grapheme clusters in order, of the width of the first code point in the cluster whose width is not zero (zero if there is none), under the settings asked. It is never negative, and the package-level measurement uses the current default settings.",
 ["inputs", "configurations"], "every text and all settings",
 "Tests measure a few strings.",
 ["runewidth/runewidth.go"], [("cluster sum", "runewidth/runewidth.go:StringWidth")], tech=EQ)

prop("C20", "Segmentation partitions the text",
 "Iterating over grapheme clusters yields non-empty pieces that concatenate to exactly the original text, in order, and then stops for good; asking for the code points of the current piece gives the code points of that piece. This holds for every text, including invalid UTF-8.",
 ["inputs"], "every byte string",
 "The segmentation package has no tests of its own.",
 ["runewidth/uniseg/grapheme.go", "runewidth/uniseg/step.go"], [("iterator", "runewidth/uniseg/grapheme.go:Next, Runes"), ("step", "runewidth/uniseg/step.go:StepString")], tech=EQ + "; loop invariants on the cut position")

prop("C21", "Cluster boundaries follow UAX #29 for Unicode 14",
 "Between any two code points of any text there is a cluster boundary exactly where the extended grapheme cluster rules (GB3 to GB13, GB999) of UAX #29 with the Unicode 14 property data put one, independent of how the text is stepped through.",
 ["inputs"], "every sequence of code points of any length",
 "No test exercises the rules; sequences are unbounded.",
 ["runewidth/uniseg/graphemerules.go", "runewidth/uniseg/graphemeproperties.go", "runewidth/uniseg/step.go"], [("transition table", "runewidth/uniseg/graphemerules.go:grTransitions"), ("property table", "runewidth/uniseg/graphemeproperties.go")], tech="constant folding of the transition function over its finite domain, then automaton bisimulation with the UAX #29 rules; interval-table comparison")

prop("C22", "Stepping reports each cluster's monospace width",
 "Stepping through a text reports for each cluster the width of its first code point, changed by what follows: 2 after an emoji presentation selector, for pictographs 1 after a text selector and 2 after any other continuation, unchanged for regional indicators and Hangul leading consonants, otherwise the sum of the code-point widths. Code points are 0, 1 or 2 wide by their class, with the two-em and three-em dashes 3 and 4.",
 ["inputs"], "every text and every continuation of stepping",
 "No test exercises it.",
 ["runewidth/uniseg/step.go", "runewidth/uniseg/width.go"], [("width accumulation", "runewidth/uniseg/step.go:StepString"), ("code-point width", "runewidth/uniseg/width.go:runeWidth")], tech=EQ + "; interval-table comparison")

prop("C23", "East-Asian mode is detected from the locale",
 "The locale is taken from the first non-empty of LC_ALL, LC_CTYPE and LANG; it selects East-Asian mode exactly when its character set (after removing a modifier) is a multi-byte one and either is not a UTF-8 one or the language is Japanese, Korean or Chinese. The C/POSIX locales and locales with the narrow-CJK modifier never select it.",
 ["inputs", "configurations"], "every value of the three variables",
 "Tests list some locales.",
 ["runewidth/runewidth_posix.go"], [("locale parsing", "runewidth/runewidth_posix.go:IsEastAsian, isEastAsian")], tech=EQ + "; regular-language equivalence of the locale pattern")

prop("C24", "Environment override and default settings stay coherent",
 "When configuration is (re)read, the mode is forced on exactly by the value 1 of RUNEWIDTH_EASTASIAN, forced off by any other non-empty value, and otherwise detected from the locale. Afterwards the default settings and the package's mode flag agree, and a lookup table that was in use gives the widths of the new mode. A newly made condition takes the package's current settings and has no lookup table.",
 ["configurations", "histories"], "every value of the variable, every prior state of the defaults and the lookup table",
 "Tests set a few values with no lookup table.",
 ["runewidth/runewidth.go"], [("environment handling", "runewidth/runewidth.go:handleEnv, init, CreateLUT, NewCondition")], tech=EQ)

prop("C25", "Queries change nothing, and operations change only what they promise",
 "Measuring, aligning, printing and querying leave the caller's data (column lists, rows, maps, settings) unchanged, except that aligning a row in place changes that row and formatting or merging widths changes the table's recorded widths. No operation keeps a reference to caller data beyond the column list and the columns it was given.",
 ["inputs", "histories"], "every exported operation and every argument",
 "Tests look at results, not at what else changed.",
 ["table.go", "horizontal.go", "vertical.go", "alignment.go", "width.go", "runewidth/runewidth.go"], [("effects", "all exported functions")], tech="store-effect analysis of every exported operation")

prop("C26", "Every supported platform has exactly one locale rule and the same widths",
 "For every supported build (POSIX, Windows, JavaScript, App Engine) the module type-checks, exactly one locale detection is compiled in, and width logic and tables are the same. On Windows the console code pages 932, 51932, 936, 949 and 950 select East-Asian mode and no others; on JavaScript and App Engine it is never selected by locale.",
 ["configurations"], "every platform and build tag the module supports",
 "The tests run on one platform.",
 ["runewidth/runewidth_windows.go", "runewidth/runewidth_js.go", "runewidth/runewidth_appengine.go", "runewidth/runewidth_posix.go"], [("platform files", "runewidth/runewidth_*.go")], tech="cross-configuration type-checking and value analysis of each platform's detection")

prop("C27", "Only items that exist are asked for",
 "Printing merged rows asks the item list only for items 0 to Len-1, for every list (also the empty one), both directions, compact or not. This holds while the widths of a compact layout are worked out, too.",
 ["inputs"], "every item list, column list, maximum width and separator, every request to the list",
 "Lists in tests have a few fixed lengths; a request beyond the end needs a particular length and number of places.",
 ["horizontal.go", "vertical.go", "table_iface.go"], [("requests to the list", "horizontal.go, vertical.go: calls of FormattedItemList.Get")], tech="abstract interpretation: one range obligation per request to the item list")

prop("C28", "Getters are asked once per column, in order, until one fails",
 "Formatting an item asks each column's getter for the value exactly once and then has that value formatted exactly once, column by column in order; basic formatting asks for each column's value string exactly once, in order. After the first failure nothing more is asked of any getter. No other operation asks a getter.",
 ["inputs", "fault_sequences"], "every column list, item and position of the first failure",
 "Tests look at the result, not at how often and until when the callbacks were called.",
 ["table.go", "table_iface.go"], [("callbacks", "table.go:FormatItem, FormatItemBasic")], tech="effect analysis: order, multiplicity and guards of the callback invocations, over gated values")

prop("C29", "Lines hold as many items as the maximum width allows",
 "Without compact layout, one more place per line with the recorded widths would exceed the maximum width or the number of items (one place if neither columns nor separators take any width). With compact layout there are never fewer places, and one more place with the widths it would need would exceed the maximum width, the number of items, or, vertically, leave a place empty on every line. This holds for separators shorter than 64 KiB.",
 ["inputs"], "every item list, column list, recorded widths, maximum width and separator",
 "Tests print a few lists at one width; filling the line is an extremal statement about all widths.",
 ["horizontal.go", "vertical.go"], [("places per line", "horizontal.go:MergeRowsHorizontal, compactCalcH; vertical.go:MergeRowsVertical, compactCalcV")], tech="abstract interpretation into closed forms; extremality discharged in a linear-inequality domain")

prop("C30", "Nothing but the arguments, the table and the settings matters or is touched",
 "No operation reads the clock, random numbers or any other state outside the process, nor the environment (but for locale detection: at start-up and in IsEastAsian), and no result depends on the order in which a map is visited. None uses the standard streams, files or the network, changes the environment, ends the process or starts goroutines: the only effect outside the process is the merged lines written to the caller's writer. This holds on every supported platform.",
 ["inputs", "schedules", "configurations"], "every exported operation and start-up, every function they reach, every build configuration",
 "A test sees one environment, one moment and one map order; a stray output or dependence shows in none of the results.",
 ["table.go", "horizontal.go", "vertical.go", "width.go", "runewidth/runewidth.go", "runewidth/runewidth_posix.go", "runewidth/runewidth_windows.go"], [("uses of other packages", "everything reached from the exported functions and from initialisation"), ("loops over maps", "table.go:UpdateWidth")], tech="effect analysis over the call graph: classification of every use of another package; order-independence of loops over maps by their carried values")

NA = [
 ("N01", "Compact layout finds the largest group count that fits",
  "The compact layout uses the largest number of places per line whose lines still fit the maximum width.",
  "inputs", "every item list and maximum width",
  "C29 decides that one more place would not fit; beyond that the fit is not monotone in the group count (widths are data dependent), so the greedy search need not find the maximum; whether it does is a question about runtime cell widths that no sound static argument bounds, and the code does not promise it", ["horizontal.go", "vertical.go"]),
 ("N02", "Measured width equals what a terminal draws",
  "The measured width of a text is the number of cells a real terminal uses to draw it.",
  "inputs", "every text and terminal",
  "depends on terminal and font behaviour outside the source; the reference tables of C17/C21/C22 are the closest static statement", ["width.go", "runewidth/runewidth.go"]),
 ("N03", "Merging rows stays within time and memory proportional to the output",
  "Printing merged rows takes time and memory proportional to the printed output and the remembered widths stay within the cache's capacity.",
  "inputs", "every item list",
  "a bound on runtime quantities (allocation, cache occupancy inside a third-party module, repeated layout searches); no sound static argument in reach bounds them, only the iteration bounds of C14", ["horizontal.go", "vertical.go", "width.go"]),
 ("N04", "Generated tables match the current Unicode release",
  "Regenerating the tables from the Unicode data files reproduces the committed tables.",
  "configurations", "every Unicode release",
  "the generators download their input over the network, which is not available and not part of the source; the committed tables themselves are decided by C17/C21/C22", ["runewidth/script/generate.go", "runewidth/uniseg/gen_properties.go"]),
]

package main

// ruleText: the rule each check applies, reported with its evidence.
var ruleText = map[string]string{
	"C01": "The three alignment functions are evaluated on symbolic arguments, the measured width being an unknown function of the text; the gated result term must equal the specification's term for every text and 16-bit width, and no store, write or panic may be reachable.",
	"C02": "The width function is evaluated with every cache lookup taken as a miss. The regular expressions it uses must recognise the reference language (bisimulation of the two automata, leftmost-first priorities included); the resulting term must equal min(65535, cells(text) - sum of cells(match)).",
	"C03": "Every lookup and store of the width cache must use the text itself as key and one never-replaced cache; under every combination of hit and miss, with hits assumed to return the width a miss computes, the result and every stored value must equal the miss value; the miss value may depend on the text and settings only; no other construct may store into the cache.",
	"C04": "The recorded width of an arbitrary column name is observed before and after FormatItem and UpdateWidth in one symbolic heap; afterwards it must equal the maximum of the old value and the widths of the cells (resp. the supplied widths) of that column, on failure paths too; a new table observes 0; Width stores nothing; the map written exists.",
	"C05": "FormatItem's results (cells, error) as gated terms over unknown getter results must equal the specification's, including the position of the first failure; stores may reach only the table's private state; no panic is reachable.",
	"C06": "FormatItemBasic's results as gated terms over unknown getter results must equal the specification's, including the first failure; nothing the caller can reach is stored to.",
	"C07": "AlignFormattedItem's results and the row's contents afterwards must equal the specification's for every row length; alignment functions are unknown functions.",
	"C08": "FormatHeader's result as a gated term over the columns, with the measured width unknown, must equal the specification's.",
	"C09": "TableWidth, ColumnCount, HasColumn, AddColumn, NewTableSpec and NewTable are evaluated on symbolic heaps; results and memory afterwards must equal the specification's; the maps written exist.",
	"C10": "The loops that write lines are found by their write effects. For every value the number of places G can take at such a loop, the number of lines must be ceil(n/G), the text of line l must hold exactly the items of places 0..G-1 that exist (l*G+p, or p*L+l), in order, and of the alternative line loops exactly one runs.",
	"C11": "For every value of G and the width vector used at the line loop, with G >= 2, the sum of the widths plus separators (specification verifSpecFit) must be at most the clamped maximum; sums are matched with those in the loop-exit and path facts and the inequality is discharged in the linear domain with division lemmas.",
	"C12": "The text of every line must be the places' cells, each aligned by its column's alignment (left if none) to a width free of the line number: the recorded width, or the maximum over the items of that place if the compact layout was asked for and places more items; cells are joined by one space, places by the separator.",
	"C13": "Every write effect in the merge functions must go to the caller's writer, its error must be tested before the next effect on every path, and the failing branch must panic with that error; there is no other write.",
	"C14": "Every loop reached from an exported function (summaries included) needs a bound on its iterations: a closed trip count, a range over a finite value, or a ranking term that decreases and is bounded; the call graph, closures included, has no cycle.",
	"C15": "Every index, slice, division, make, repeat, map write, call through a function value and pointer access reached from an exported function is one obligation, discharged from the path facts. Assumed: constructor-made tables, getters present, rows at least as long as the column list. The lookup table's length invariant and the existence of written maps are themselves obligations.",
	"C16": "Every store and library call reached from an exported function (configuration calls exempt) is classified by the memory it touches: package variables may be touched only by synchronised operations, and no result or kept reference may share mutable package memory.",
	"C17": "RuneWidth's decision is reduced to a term over interval searches in constant tables; it is folded at one point of every elementary interval of all tables, comparisons and the reference data, in all four settings, and compared with the reference widths; values that are not code points give 0.",
	"C18": "CreateLUT is evaluated symbolically; the table it leaves, read through RuneWidth's packed access, must equal the width without table for every code point under the settings at that moment; the settings are kept; the package-level function builds the table or leaves one in use.",
	"C19": "StringWidth is evaluated with segmentation as an unknown step; the result must be the sum over the steps of the first non-zero code-point width of the cluster (specification verifSpecClusterWidth); the package-level function uses the default settings.",
	"C20": "StepString is shown to cut the text at a position in [1, len] at code-point boundaries and return the two parts; Next keeps the invariant current+rest = remaining, never yields an empty piece and stays at the end; Runes decodes the current piece.",
	"C21": "The step function is folded over all property classes and reachable states into a finite automaton and compared, state by state, with the UAX #29 rules in a product construction; the property of every code point is compared with the reference data interval by interval; the saved state carries everything the next step uses.",
	"C22": "The same product automaton with the width accumulated so far: after every code point of every class the reported width must be the specified one; code-point widths are compared with the reference data interval by interval.",
	"C23": "isEastAsian and IsEastAsian as gated terms over the locale and the three environment variables must equal the specification's; the locale pattern must match and capture as the reference pattern does (tagged automata).",
	"C24": "handleEnv and init are evaluated for every environment value and prior state; afterwards the mode flag, the default settings and the lookup table (every code point) must agree with the specified mode; NewCondition yields the current settings and no table.",
	"C25": "Every store, write and library call reached from an exported function must be one its contract promises, and no reference into an argument may be kept beyond columns and column lists.",
	"C26": "The module is type-checked for seven build configurations; exactly one locale detection is compiled into each, the declarations everything else is built from are identical, and each platform's detection equals its specification as a gated term.",
	"C27": "Every request to the item list reached from an exported function, in the function itself or in a helper used by its summary, must have an index provably in [0, Len).",
	"C28": "The callback invocations of FormatItem and FormatItemBasic are collected as effects with their guards: at step k the getter of column k is asked (each method once, value before format), every completed step asked for everything, and no step or later call follows a failure; no other exported function reaches a getter.",
	"C29": "With the number of places G read off the code (C10), the width of a line with G+1 places (specification verifSpecFit, recorded or compact widths) must exceed the clamped maximum, unless G reaches the number of items or the extra place stays empty (verifSpecSpare); G with compact layout is at least G without.",
	"C30": "Every function, variable initialiser and method reached from an exported function or from initialisation is searched, per build configuration, for uses of other packages: each must be known to touch only its arguments, except the caller's writer and, in locale detection and initialisation only, reading the environment or the console code page. No goroutine is started. A loop over a map must carry values that do not depend on the order of the keys (entries of the visited key, maxima, sums) and have no other effects or early exits.",
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay reviewable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))

prop("G01","Table edits behave like edits of a plain grid",
 "After any sequence of column edits (append, delete, rename, reorder, swap), row edits (append, delete, delete range, delete all, reverse, take rows or columns from another table) and cell edits, a table holds exactly the column names, column types, row order and cell values that a plain grid of named, typed columns would hold after the same edits. Every lookup (by name or by index, of columns, types, cells, counts and membership) agrees with that grid, and the table keeps reporting itself valid. A table made from lists of column names and types has exactly those columns, or is refused. An edit that would break the grid (duplicate or invalid column name, unknown type, index out of range) is refused with an error rather than a panic.",
 ["histories"],"every sequence of table edits up to a stated depth over a small alphabet of columns, types, indices and values, from empty and non-empty starting tables",
 "Tests apply one or two edits to a hand-made table and look at one cell; interactions (delete after reorder, rename after swap, append after delete) are a combinatorial set of histories no test samples.",
 ["gotables.go","sort.go","helpers.go"],
 [("row and column edits","gotables.go AppendCol/DeleteCol/RenameCol/AppendRow/DeleteRows/ReorderCols/Reverse"),("column name index kept in step with the columns","gotables.go colNamesMap"),("column swap","sort.go SwapCols")],
 "public getters, lookups and validity check after each edit")

prop("G02","An operation that reports an error leaves the data as it was",
 "When an edit of a table or table set returns an error - wrong name, wrong type, index out of range, duplicate name, unsuitable sort key or source table - the table, the table set and every table passed as an argument hold exactly what they held before the call, including the sort keys. No such call panics.",
 ["histories","inputs"],"every failing edit from a catalogue of invalid arguments, from every state reachable in a bounded number of edits",
 "Tests check that an error is returned, practically never that nothing was half-applied before it; and they do it from one state only.",
 ["gotables.go","sort.go","helpers.go"],
 [("multi-step edits that can fail half way","gotables.go AppendColsFromTable, AppendRowsFromTable, sort.go SetSortKeys/SetSortKeysReverse"),("setters check before storing","helpers.go Set<type>")],
 "snapshot of all tables through the public API before and after each failing call")

prop("G03","A cell returns exactly the value stored in it, by every access path",
 "For every supported column type, a value stored through any setter (typed or generic, by column name or index, error-returning or must-set) is read back unchanged by every getter of that column's type or its alias, and no other cell changes. A setter or getter of a different type, an unknown column or an out-of-range index is refused with an error (or panic, for the must variants) and stores nothing; the validity check of a value for a column accepts exactly what can be stored. New rows and new columns hold the type's zero value, and zero/NaN fills affect exactly the cells they name.",
 ["inputs","configurations"],"all 20 column types x all setters x all getters x all boundary values x all cell positions of small tables, and all mismatching type pairs",
 "The accessors are a 20x8 matrix of near-identical functions; tests sample some pairs with one value, so a wrong index, wrong type name or wrong alias in one of them goes unseen.",
 ["helpers.go","gotables.go","parser.go"],
 [("typed setters and getters","helpers.go Set<type>/Get<type>/...ByColIndex/...MustSet/...MustGet"),("generic access","gotables.go SetVal/GetVal"),("type aliases","parser.go typeAliasMap")],
 "return values and errors of setters and getters, contents of all other cells")

prop("G04","Printing a table or table set and parsing it back gives the same tables",
 "For every table set of valid, un-nested tables, both the padded and the unpadded text form parse without error into a table set with the same set name, the same tables in the same order, and per table the same column names, column types, row order and cell values (NaN counting as equal to NaN; rune cells holding Unicode code points, times with a four-digit year and a whole-minute offset, tables with rows having columns). A single table's text likewise reproduces that table.",
 ["inputs","configurations"],"every table of up to 3 columns x 3 rows over all column types with a per-type boundary-value alphabet, every table shape including no columns and no rows, and every combination of up to 3 such tables",
 "Tests print a few tidy tables; column padding, number alignment, escaping and numeric extremes interact, and each cell's text depends on the other cells of its column.",
 ["gotables.go","parser.go"],
 [("padded and unpadded printers","gotables.go String/StringPadded/StringUnpadded/printMatrix"),("line-state parser","parser.go parseString/getRowSlice")],
 "parse(print(t)) compared with t through the public API")

prop("G05","The struct-style text form carries the same one-row table",
 "A table of at least one column and at most one row that is marked struct-shaped prints in the vertical name/type/value form, and that text parses back to a struct-shaped table with the same name, columns, types and values. The struct mark is presentation only: it changes no data, and a struct-shaped table with more rows prints and parses as an ordinary table. Texts that mix tables of both forms parse into the same tables as each form alone.",
 ["inputs","configurations"],"every one-row or zero-row table of up to 3 columns over all column types with boundary values, all orders of struct-shaped and ordinary tables in a set",
 "Tests print two or three struct-shaped examples with plain values; the struct printer and parser are separate code from the tabular ones and diverge on unusual values.",
 ["gotables.go","parser.go"],
 [("struct printer","gotables.go printStruct"),("struct-shape parsing","parser.go parseString struct states")],
 "parse(print(t)) compared with t, including the struct-shape mark")

prop("G06","Text is parsed literally or rejected, never misread and never a crash",
 "For every input text the parser returns either an error or a valid table set, and never panics or hangs. Each accepted cell literal has exactly the value the literal denotes in Go (integers in decimal, octal, binary, hexadecimal; floats; quoted strings and runes; booleans; byte slices; RFC3339 times), a literal out of range of its column's type or followed by junk is rejected, and rows with too few or too many values are rejected. Comments, blank lines and extra spaces never change the tables that are read.",
 ["inputs"],"every cell literal up to a bounded length over a per-type character alphabet, for every type; every document assembled from a catalogue of line fragments up to a bounded number of lines; every single-character deletion, duplication or substitution of valid documents",
 "Tests try some dozens of literals and malformed tables; the accepted language is defined by regular expressions and a line-state machine whose corners only exhaustive enumeration visits.",
 ["parser.go"],
 [("line-state machine","parser.go parseString"),("cell literals","parser.go getRowSlice, parseInt, parseUint, parseRune"),("literal patterns","parser.go regular expressions")],
 "error or parsed table from the text, compared with an independent literal reader")

prop("G07","JSON export and import reproduce the tables",
 "For every valid table set, including nested tables, its JSON form (plain or indented) is valid JSON and imports into a table set with the same set name, tables, struct shapes, column names, types, row order and cell values (strings being valid UTF-8: exporting others is an error); the same holds for a single table's JSON and for picking a table out of a set by name.",
 ["inputs","configurations"],"every table of up to 2 columns x 2 rows over all types and boundary values (integer extremes, NaN and infinities, control and non-ASCII characters, empty and nested values), every shape, sets of up to 3 tables, nesting depth up to 3",
 "Tests export and import a few fixed tables with small values; values at type limits and awkward strings take different encoding paths.",
 ["json.go"],
 [("JSON writer","json.go getTableAsJSON_recursive"),("JSON reader","json.go newTableFromJSON_recursive")],
 "encoding/json validity of the output and import(export(t)) compared with t")

prop("G08","YAML export and import reproduce the tables",
 "For every valid table set, including nested tables, its YAML form imports into a table set with the same set name, tables, struct shapes, column names, types, row order and cell values (strings being valid UTF-8).",
 ["inputs","configurations"],"every table of up to 2 columns x 2 rows over all types and boundary values, every shape, sets of up to 3 tables, nesting depth up to 3",
 "Tests round-trip a single YAML sample; YAML's implicit typing makes the decoded Go type depend on each value's spelling (1 against 1.5, quoted or not), which samples miss.",
 ["yaml.go"],
 [("YAML writer","yaml.go GetTableSetAsMap/GetTableSetAsYAML"),("YAML reader","yaml.go newTableFromYAML_recursive")],
 "import(export(t)) compared with t through the public API")

prop("G09","GOB export and import reproduce the tables",
 "For every valid un-nested table and table set, without time columns, the GOB form imports into an equal table: same set name and file name, tables, column names, types, row order, cell values, sort keys and struct shape.",
 ["inputs","configurations"],"every table of up to 2 columns x 2 rows over the supported types and boundary values, every shape, every sort-key list up to 2 keys, sets of up to 3 tables",
 "Tests encode one unsorted table; sort keys, struct shape, empty tables and sets take separate branches.",
 ["gob.go"],
 [("export record","gob.go exportTable/importTable"),("set header and table buffers","gob.go GobEncode/GobDecodeTableSet")],
 "decode(encode(t)) compared with t")

prop("G10","Malformed JSON, YAML or GOB input is an error, never a crash or silent damage",
 "For every JSON, YAML or GOB input, import returns either an error or a valid table set; it never panics. A document whose metadata and data disagree, whose value does not fit the column type exactly, or whose structure is not that of an exported table set is rejected rather than truncated, wrapped or defaulted.",
 ["inputs"],"every single-node replacement, deletion or duplication over the document trees of a family of exported tables with a replacement alphabet of JSON/YAML values; every truncation and single-byte change of the encoded GOB buffers; all out-of-range numbers per type",
 "Tests cover a few hand-written bad documents; decoders index and type-assert at each level, so each level times each wrong shape is a separate path.",
 ["json.go","yaml.go","gob.go"],
 [("JSON reader","json.go newTableFromJSON_recursive"),("YAML reader","yaml.go newTableFromYAML_recursive"),("GOB reader","gob.go GobDecodeTable/GobDecodeTableSet")],
 "error or valid table from the import call")

prop("G11","Sorting orders rows by all keys and keeps every row",
 "After a sort by any list of keys with any subset reversed, consecutive rows are in order under the documented comparison of each key in turn (numbers by value with NaN first, strings alphabetically, false before true; reversed keys reversed), and the table contains exactly the same rows as before with each row's cells kept together. Setting, appending, deleting and copying sort keys gives exactly the key list and directions asked for, and comparing two rows agrees with the order the sort puts them in. Shuffling and reversing keep every row whole, and the pseudorandom shuffle gives tables of one size the same order every time.",
 ["inputs","histories"],"all multisets of rows up to 4 rows over 2-3 values per key, all key lists up to 3 keys with all reversal subsets, every sortable type; all sequences of sort-key edits up to a stated depth",
 "Tests sort a handful of tables; key-order, reversal and per-type comparator mistakes show only for particular tie patterns and values.",
 ["sort.go"],
 [("sort keys","sort.go SetSortKeys/SetSortKeysReverse/AppendSortKey/DeleteSortKey/SetSortKeysFromTable"),("row comparison","sort.go Less, compareFuncs, CompareRows"),("sort","sort.go Sort/SortSimple")],
 "row order and row multiset after the sort, sort keys as reported")

prop("G12","Searching a sorted table finds exactly the matching rows",
 "On a sorted table, searching for key values returns the first, last or full range of rows whose key cells equal those values, for any number of keys and any reversal, and reports not-found if and only if no row matches. Search never panics whatever the table or values (absent, below, above or between all rows, empty table, wrong number or type of values), and extracting the rows of a range gives exactly those rows.",
 ["inputs"],"all sorted tables up to 5 rows over 3-4 values per key, 1-3 keys, all reversal subsets, all search tuples including absent ones, for every searchable type",
 "Binary search errors show only at particular positions of the hit relative to the ends and in reversed or multi-key order; tests probe a few positions.",
 ["sort.go","gotables.go"],
 [("first/last/range search","sort.go SearchFirst/SearchLast/SearchRange"),("rows by range","gotables.go NewTableFromRowsBySearchRange")],
 "returned indices and errors compared with a linear scan")

prop("G13","Merging two tables loses and invents nothing",
 "Merging two tables that share sort keys yields one row per distinct key occurring in either, sorted by those keys, with the columns of both. Each cell comes from the first table unless its value is missing, zero or NaN there, in which case the second table supplies it (NaN yielding to zero, anything else winning over both). Tables with no common keys, with no rows, or with only key columns merge by the same rule, and neither input's rows change except for being sorted.",
 ["inputs"],"all pairs of tables up to 3 rows over small key and value alphabets (zero, NaN, two other values), 1-2 keys, shared and unshared columns, reversed keys, every mergeable type",
 "Tests merge a few fixed pairs that always overlap; disjoint keys, empty tables and the zero/NaN precedence lattice per type are combinations.",
 ["merge.go"],
 [("merge","merge.go Merge"),("cell precedence","merge.go zero/NaN cases per type")],
 "merged table compared with a reference merge; inputs compared with their previous rows")

prop("G14","Sort-unique keeps exactly one combined row per key",
 "Sort-unique of a table by given keys returns a table of the same name and columns with exactly one row per distinct key, sorted by the keys, in which each cell holds a non-zero non-NaN value whenever some row of that key has one, and otherwise zero in preference to NaN; every cell value of the result occurs in that key's rows. The source table keeps its rows.",
 ["inputs"],"all tables up to 4 rows over 2-3 key values and {zero, NaN, two other values} in up to 2 value columns, 1-2 keys with all reversals, every supported type",
 "The one test of it relies on tie order and already fails; duplicates of three or more rows and all-unique tables are separate paths.",
 ["sort.go","merge.go"],
 [("sort unique","sort.go SortUnique"),("merge with itself","merge.go Merge")],
 "result table compared with the set of permitted results")

prop("G15","Copies and extracts are faithful and independent",
 "A copy of a table or table set, and a table extracted from rows or built by reordering columns, has exactly the source's names, types and cell values (for the rows and columns asked for). Afterwards no edit of either one - cells, including the contents of byte slices, rows, columns, names, sort keys - is visible in the other; nested tables are referred to by a plain copy or extract, and copied at every level by a deep copy, after which no edit inside them is visible in the other either.",
 ["histories"],"every copy or extract operation on every table of a small family over all types including byte slices and nested tables, followed by every edit from an alphabet on either side",
 "Tests compare a copy right after making it; sharing shows only after a later edit of the right kind on one of the two.",
 ["gotables.go","tree.go"],
 [("copies","gotables.go Copy/CopyCols/TableSet.Copy, tree.go CopyDeep"),("extracts","gotables.go NewTableFromRows/NewTableReorderCols/AppendRowsFromTable")],
 "both tables before and after each later edit")

prop("G16","Equality is exactly sameness of content",
 "Comparing two tables reports equal if and only if they have the same name, the same columns and types (column order aside), and the same cell values row by row, at every nesting level, a NaN being the same as a NaN; comparing table sets reports equal if and only if their tables are pairwise equal in order. The comparison is reflexive, symmetric and transitive, does not depend on how the tables were built, and any single difference is reported.",
 ["inputs"],"all ordered pairs from a family of tables that differ from each other in one or more of name, column name, type, order, row count, row order, cell value or nested content, for every type",
 "Tests compare equal tables and a few unequal ones; a comparison that skips one kind of difference, type or position passes them.",
 ["gotables.go"],
 [("table and table-set equality","gotables.go Equals")],
 "the result of every ordered pair compared with structural equality of the descriptions")

prop("G17","A table set is an ordered collection of uniquely named tables",
 "After any sequence of appending, deleting, renaming, looking up and copying tables, a table set holds exactly the tables, in order, that a plain list with unique names would hold; lookup by name and by index agree with it, and duplicate, unknown or invalid names and indices are refused with an error.",
 ["histories"],"every sequence of table-set operations up to a stated depth over 3 names plus invalid ones",
 "Tests use one or two operations on a fixed set; index shifts after deletion and name clashes after renaming need particular histories.",
 ["gotables.go"],
 [("set operations","gotables.go AppendTable/DeleteTable/DeleteTableByTableIndex/RenameTable/TableIndex/HasTable/GetTable")],
 "set contents through the public API after each operation")

prop("G18","Nested tables are walked completely and cycles are detected",
 "Walking a table or table set visits every table, row and cell, at every nesting level, exactly once and in order (rows top to bottom, cells left to right, a nested table right after its cell). A table that directly or indirectly contains itself is reported as circular by every operation that descends into nested tables, while any acyclic nesting, including the same depth many times over, is accepted; no such operation hangs, crashes or ends the process.",
 ["inputs","histories"],"every way of placing up to 4 tables into each other's cells (all assignment graphs, cyclic and acyclic, built in every order), walked, copied, checked and exported",
 "Tests build one tree and one two-table cycle; self-loops, long cycles, cycles not through the root, shared subtables and deep chains are graph shapes only enumeration covers.",
 ["tree.go","gotables.go","json.go","yaml.go"],
 [("walk","tree.go Walk"),("circularity checks","tree.go HasCircularReference/IsValidTableNesting, errors.go"),("nesting-aware exports","json.go, yaml.go, gotables.go Copy")],
 "visit sequence, circularity verdicts and errors compared with the graph")

prop("G19","CSV export is exact, standard CSV",
 "The CSV form of any table is well-formed RFC 4180 text with one header record holding the column names (or the given substitute headings) followed by one record per row in order, and each field, after CSV unquoting, is exactly that cell's text form (a NaN being an empty field; a record may end in a line feed alone). The list of a column's values as strings is those text forms in row order, and joining them puts the separator between each two and nothing else. Wrong numbers of substitute headings are refused.",
 ["inputs"],"every table of up to 3 columns x 3 rows over all types with awkward values (commas, quotes, newlines, leading spaces, empty), all heading substitutions",
 "Tests compare two literal outputs; quoting depends on the characters of each cell.",
 ["gotables.go"],
 [("CSV writer","gotables.go GetTableAsCSV"),("cell text","gotables.go GetValAsStringByColIndex")],
 "output read back with a standard CSV reader")

prop("G20","A table written to a file is read back the same, or an error is reported",
 "Writing a table or table set to a file, over any previous contents, and reading the file gives the same tables as parsing the printed text; picking a table by name gives that table. A new file gets the permissions asked for (0666 if none), as the umask allows. A file that cannot be written or read, is truncated at any point, or holds a different number of tables than the call expects gives an error or a table set that is a valid reading of the file's bytes, never a crash and never a mix of old and new contents.",
 ["crash_points","histories","fault_sequences"],"every history of up to 3 writes of different tables (shorter over longer and vice versa) with every truncation point of the written file, every reader, and every unwritable/unreadable path fault",
 "Tests write once to a fresh file and read it; overwriting, truncation and failing paths are not exercised.",
 ["gotables.go","parser.go"],
 [("file writers","gotables.go WriteFile"),("file readers","gotables.go NewTableSetFromFile/NewTableFromFile/NewTableFromFileByTableName, parser.go parseFile")],
 "file bytes and tables read back")

prop("G21","Generated Go code converts tables to structs and back without loss",
 "For every table of supported column types, the generated struct type and the generated conversion functions form a Go program that compiles, converts the table to a slice of structs holding each cell's value in its field, and converts that slice back to an equal table; a table or column name that Go cannot use is refused with an error instead. Generation from the same table always gives the same code, the time stamp in its comment aside.",
 ["programs","inputs"],"every column type alone and in pairs, all name capitalisation classes, 0-2 rows of boundary values; each generated program compiled and executed",
 "Tests compare generated text for one table and never compile it; whether code for a type or a name compiles and is lossless is invisible to text comparison.",
 ["generate.go"],
 [("struct and function generators","generate.go GenerateTypeStruct/GenerateTypeStructSliceFromTable/GenerateTypeStructSliceToTable")],
 "exit status and round-trip result of the compiled generated program")

prop("G22","Goroutines working on different tables do not affect each other",
 "When goroutines concurrently parse, print, export, import, sort, search, merge, copy and edit different tables, each gets exactly the results, error texts included, that it would get running alone, under every interleaving.",
 ["schedules"],"all interleavings with one preemption at any function entry or access to package-level state of every ordered pair of 33 operations, with two preemptions (thorough: three, three goroutines, loop iterations) at accesses to changing package-level state, and map accesses without synchronisation",
 "Tests run single-threaded, and interference through package-level variables needs a preemption between particular accesses.",
 ["parser.go","gotables.go","tree.go","sort.go","json.go"],
 [("package-level state","parser.go globalColTypesMap/typeAliasMap, sort.go compareFuncs, helpers.go zeroVal, gotables.go ShufflePseudorandom"),("all exported operations","package gotables")],
 "results and error texts of each goroutine compared with its solo run; thorough: race detector on a separate free run of every pair")

prop("G23","Nesting rows by key puts each matching block in its row",
 "Nesting one table into another by shared sort keys gives each row of the outer table, in the new column, a table text holding exactly the inner rows with that row's key, and changes nothing else but row order. If some outer row has no matching inner rows, or the keys or new column name are unsuitable, an error is reported and the outer table's columns stay as they were.",
 ["inputs"],"all pairs of outer tables up to 3 rows and inner tables up to 4 rows over 3 key values, 1-2 keys, with and without reversal, keys set on either or both tables",
 "The tests nest one fixed pair; duplicate, missing and adjacent keys and key-direction combinations are not sampled.",
 ["nest.go"],
 [("nest","nest.go Nest")],
 "the outer table's cells parsed and compared with the matching inner rows")

prop("G24","Reading, printing, exporting or comparing a table never changes it",
 "No getter, lookup, validity check, print, export (text, CSV, JSON, YAML, GOB, map, code), comparison, search, walk, copy or extraction alters any observable content of its tables - names at every nesting level, columns, types, rows, cells, sort keys, shape - and repeating it gives the same result.",
 ["histories"],"every read-only operation, and every pair of them in sequence, on every table of a family covering all types, shapes, sort keys and nesting",
 "A test looks at an operation's result, not at its argument afterwards; a read that renames, reorders or flags something shows only in a later operation.",
 ["gotables.go","sort.go","json.go","yaml.go","gob.go","tree.go","generate.go"],
 [("all read-only operations","package gotables")],
 "snapshot through the public API before and after each call and pair of calls")

prop("G25","Names and types are accepted or refused alike everywhere",
 "Table names and column names are letters, digits and underscores not starting with a digit, and neither is a type name; every way of introducing a name or type (constructor, rename, append, text, JSON, YAML) accepts exactly the names and types that the validity checks accept, and keeps an accepted name unchanged.",
 ["inputs"],"every string up to length 3 over an alphabet with one representative per character class, every type name and every one-character variation of it, through every entry point",
 "Tests try a dozen names through one entry point; a name that gets in through one door and not another breaks round trips later.",
 ["parser.go","gotables.go","json.go","yaml.go"],
 [("name checks","parser.go IsValidColName/IsValidTableName/IsValidColType"),("entry points","gotables.go NewTable/SetName/AppendCol/RenameCol, parser.go")],
 "acceptance and resulting name at every entry point")

prop("G26","The commands gotsyntax and gotecho tell the truth about files",
 "gotsyntax exits with 0 exactly if every file given parses and holds a table, says so of each valid file (with the numbers of tables and rows) and names the file and line of the fault of each invalid one. gotecho, from a file or standard input, prints exactly the tables of its input (all, or the one asked for with -t), with the one asked for with -r in the other shape if it has at most one row, padded or unpadded, whatever the order of the flags; on bad input or a missing table it prints no tables and exits with an error.",
 ["inputs","histories"],"every sequence of files of every kind for gotsyntax; every content, flag value, flag order and input channel for gotecho",
 "The repository has no test that runs the commands on files; scripts rely on the exit status for mixtures of good and bad files, and on the output being the input.",
 ["cmd/gotsyntax/gotsyntax.go","cmd/gotecho/gotecho.go"],
 [("exit status","cmd/gotsyntax/gotsyntax.go main"),("flags","cmd/gotecho/gotecho.go main")],
 "exit status, standard output and standard error of the built commands")

prop("G27","A parse error names the line of the fault",
 "When a text or file is refused, the error names the file and the number of the first line after which no reading is possible, counting comments, blank lines and every kind of line end.",
 ["inputs"],"every short sequence of kinds of line, every faulty line at every place of documents, every byte edit of documents",
 "The tests never look at the position; it is right for the first tables and wrong after something particular (a comment, a struct, a carriage return, a repeated name).",
 ["parser.go"],
 [("position","parser.go parseString/gotFilePos"),("errors","parser.go getColNames/getColTypes/getRowSlice/getTableShape")],
 "the position in the error against the failing line of an independent reader")

prop("G28","No call crashes; what cannot be done is an error",
 "Every exported method and constructor, called on any table or set made by the constructors (nil included) with any arguments, returns instead of panicking (except the documented panics of the ...Must... methods, which are never run-time errors). A call on a nil table or set reports an error where it can. A call that reports an error leaves every table involved, receiver and arguments, as it was; and a call that succeeds leaves valid tables valid.",
 ["inputs","histories"],"every exported method x every receiver of a family x every combination of arguments of a domain, and pairs of calls",
 "The tests call each method on well-formed tables with sensible arguments; the API has some 400 entry points times nil, empty, out of range, unknown and aliased arguments.",
 ["gotables.go","helpers.go","merge.go","nest.go","sort.go","gob.go","json.go","yaml.go","tree.go"],
 [("nil receivers","gotables.go, all methods"),("partial work undone","merge.go Merge, gotables.go AppendColsFromTable")],
 "panics, errors and the state of all tables before and after every call")

prop("G29","Padded printing lines columns up; unpadded uses single spaces",
 "In the padded text form of a table every column occupies one field: numbers end at the column's right edge (floats have their units digits under each other), headings of numeric columns end there too, everything else starts at the column's left edge, adjacent columns never touch or overlap, a column of ASCII text and finite numbers is no wider than its cells need, and no line ends in blanks. In the unpadded form the same cells are separated by single spaces. In both, every cell shows the value of its own row and column, and String(), fmt printing and StringPadded() agree. Positions count characters.",
 ["inputs"],"every table of the bounded universe (all types, pairs, triples, boundary values, sweeps) and every short sequence of numbers of every shape in every place of a table",
 "Widths, precisions and trailing zeros of a column are worked out over all its cells; the tests print a few tables of tidy numbers.",
 ["gotables.go","parser.go"],
 [("widths and precisions","gotables.go StringPadded/setWidths/preNumberOf/precisionOf"),("alignment","gotables.go printMatrix/padTrailingZeros"),("unpadded","gotables.go _String")],
 "positions of the cells in the lines of the text forms")

prop("G30","A table's behaviour depends on its contents, not on its history",
 "Two tables with the same name, columns, rows, sort keys and shape behave alike, however they came about - edits, undone edits, refused edits, sorting, copying, extraction, text, JSON, YAML, GOB, files, membership in a set, being in a cell: every read-only operation gives the same answer on both and every further edit has the same effect and the same verdict.",
 ["histories"],"every sequence of edits and every sequence of passages (export and import, copy, undo, refused edit, ...) up to a depth, then every read-only operation and an edit of each kind",
 "Tests apply an operation to a freshly made table; leftovers of earlier operations (indexes, keys, shared rows, shape) show up only in another operation later.",
 ["gotables.go","sort.go","json.go","yaml.go","gob.go","merge.go","parser.go","helpers.go"],
 [("column index","gotables.go colNamesMap"),("sort keys","sort.go sortKeys"),("shape","gotables.go isStructShape"),("importers","json.go, yaml.go, gob.go, parser.go")],
 "answers of all read-only operations on the table and on a directly built twin")

prop("G31","The utility functions give back what they are given",
 "UtilRound() gives the nearest number with the given places, for negative numbers as well, and never turns a finite number into infinity or NaN. UtilGulpFromPipe() and UtilGulpFromPipeWithTimeout() return exactly the bytes piped in, or an error if they cannot be read (in time). String flags report set, missing and flag-like arguments alike. UtilFilepathAbs() gives the absolute path, UtilFormatSource() the same Go, UtilIsCommandInstalled() whether the search path has the command. UtilFuncName() and the like name the function that called, whatever its kind.",
 ["inputs","schedules"],"every number of a grid and every extreme float with every number of places; every short piped input in every division, sizes around the buffers, unreadable and silent inputs; every short sequence of flag settings, paths and pieces of Go; every short chain of calls through 12 kinds of function",
 "The repository tests UtilRound on five positive numbers and none of the input functions.",
 ["util.go"],
 [("rounding","util.go UtilRound"),("names of callers","util.go UtilFuncName..UtilProgName"),("piped input","util.go UtilGulpFromPipe/UtilGulpFromPipeWithTimeout"),("flags","util.go UtilStringFlag/UtilCheckStringFlag")],
 "return values and errors")

prop("G32","Tables made separately are separate",
 "Every table and nested table made by reading text, files, JSON, YAML or GOB, by appending or zeroing rows, columns and cells, from given metadata, by CopyDeep(), or (tables without nested tables) by Copy(), extraction, sorting, merging and nesting has its own contents: editing one table, or the bytes of one byte-slice cell, changes no other table, cell or set. Making a table again from the same input gives what it gave the first time, and slices given to or returned by the library (column names and types, sort keys, encoded bytes) can be changed without changing a table.",
 ["histories"],"every maker with every other and with itself on a family of inputs, then one of four preparations of all tables and every single edit of every table, nested table, byte slice, set and handed-over value",
 "Sharing is invisible until one of the sharers is edited: tests read a table and look at that table only.",
 ["parser.go","gotables.go","json.go","yaml.go","gob.go","merge.go","sort.go","tree.go","helpers.go"],
 [("nested and nil tables of cells","parser.go getRowSlice, gotables.go SetCellToZeroValueByColIndex/AppendRow"),("column names, types and index","gotables.go appendCols/AppendCol/NewTableFromMetadata"),("byte slices","gotables.go copyOfVal, AppendRowsFromTable"),("sort keys","sort.go SetSortKeysFromTable")],
 "views of all tables, sets and handed-over values before and after every single edit")

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))

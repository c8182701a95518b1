#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (python3 tools/meta.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=observe, hook_needed=hook)))

prop("C01", "Format auto-detection picks the right opener, by content and priority",
 "Opening a file tries the registered openers in ascending priority order, falls through only on an error that is (or wraps, at any position the library's own wrapping helper puts it) the not-in-format error, stops at the first opener that succeeds or fails with any other error, and reports the unknown-format error when every opener declines. A well-formed xls, xlsx or tab-separated file is therefore opened by its own format whatever its name or extension, and a file no opener accepts is never returned as data.",
 ["inputs", "histories", "configurations"], "every history of up to four registrations (priorities and opener answers) and every format under every file name in a menu",
 "the repository never tests grate.Open with more than the formats in testdata and never registers an opener of its own; the dispatch depends on the order of registrations and on each opener's answer",
 ["grate.go", "errs.go", "simple/tsv.go", "xls/xls.go", "xlsx/xlsx.go"],
 [("priority-sorted opener table", "grate.go Register/Open"), ("ErrNotInFormat fall-through", "grate.go Open, errs.go WrapErr")],
 ["grate.Register", "grate.Open", "errors.Is(err, grate.ErrNotInFormat / ErrUnknownFormat)"])
prop("C02", "XLS cell records decode to the value, type and position stored",
 "For a BIFF8 worksheet, every number, RK, multiple-RK, boolean, error, shared-string and formula-result record (numeric, boolean, error, string or empty) appears at its own row and column with the value it stores and with the type its value and number format imply; RK values of all four encodings (float, integer, each optionally divided by 100) keep their numeric value. Cells without a record are blank, and a later record never disturbs another cell.",
 ["inputs"], "every record form x value menu x cell format x position within a small sheet, and every ordered sequence of up to three records",
 "the tests read four sample workbooks which use a handful of record forms and values; RK encodings, formula result kinds and record orders are not enumerated",
 ["xls/sheets.go", "xls/structs.go", "commonxl/sheet.go", "commonxl/cell.go"],
 [("record decoding", "xls/sheets.go parseSheet"), ("RK numbers", "xls/structs.go RKNumber"), ("typed cell store", "commonxl/sheet.go Put/Set")],
 ["grate.Collection Strings/Types/Scan of a generated .xls"])
prop("C03", "XLS text survives record splits, encodings and rich/phonetic runs",
 "Every string of an xls workbook - shared strings, formula result strings, sheet names, number format codes - is returned as exactly the text stored, for 8-bit (Latin-1) and 16-bit character data, surrogate pairs, rich-text runs and phonetic data, and wherever a record boundary splits it, including boundaries at which the character width changes. Splitting the data differently never changes the strings, their number or their order.",
 ["inputs"], "every placement of up to three record boundaries in a table of strings, with every width on each side of a boundary, and every combination of run/phonetic payloads",
 "the sample files are small enough that no string ever crosses a record boundary; the split positions are a combinatorial space",
 ["xls/strings.go", "xls/sheets.go", "xls/xls.go"],
 [("shared string table across Continue records", "xls/strings.go parseSST"), ("formula strings", "xls/sheets.go RecTypeString"), ("sheet names and format codes", "xls/strings.go decodeShortXLUnicodeString, decodeXLUnicodeString")],
 ["List()", "Strings() of a generated .xls"])
prop("C04", "XLSX cells decode to the value, type and position stored",
 "For a SpreadsheetML worksheet, every cell - number, boolean, error, shared string (plain or rich), inline string, formula with a numeric, string, boolean or error result - appears at the row and column its reference names with the stored value, and the type its value and number format imply; formula source text, phonetic guides and insignificant whitespace never become cell content. Cells not present are blank and sparse or out-of-order references never shift other cells.",
 ["inputs"], "every cell form x value menu x style x reference, with deviations in order, dimension element and surrounding markup",
 "the sample files come from one producer; formula cells, rich text, inline strings, sparse rows and missing dimensions are not enumerated",
 ["xlsx/sheets.go", "xlsx/types.go", "xlsx/workbook.go", "commonxl/sheet.go"],
 [("worksheet token loop", "xlsx/sheets.go parseSheet"), ("A1 references", "xlsx/types.go refToIndexes"), ("shared strings", "xlsx/workbook.go parseSharedStrings")],
 ["Strings/Types/Scan of a generated .xlsx"])
prop("C05", "XLSX package structure is followed through relationships, not by guesswork",
 "An xlsx workbook's sheets are listed in workbook order under their stored names, and each name returns the worksheet part its relationship id designates, wherever parts are stored, whatever the ids, and whether targets are relative or absolute, hold dot segments or spell a part's name in other letter case; styles and shared strings are taken from the parts the relationships designate, with cell formats resolved by style index. A relationship to a missing part is an error, and an unknown sheet name is an error.",
 ["inputs", "configurations"], "every combination (up to the stated number of deviations) of part locations, id permutations, target forms, part order in the archive, style tables and missing parts",
 "all sample packages have the same layout; permuted ids, moved parts and absolute targets never occur",
 ["xlsx/xlsx.go", "xlsx/workbook.go"],
 [("relationship resolution", "xlsx/workbook.go parseRels, xlsx/xlsx.go Open"), ("style resolution", "xlsx/workbook.go parseStyles")],
 ["xlsx.Open, List, Get"])
prop("C06", "Delimited text is returned field for field",
 "A tab-separated file yields one record per line, in order, with exactly the fields between its tabs - empty fields, long lines, a missing final newline and CRLF line ends included - and the CSV opener yields exactly the records and fields that RFC 4180 quoting defines (empty lines hold no record, and a CRLF within quotes may be read as LF). A text whose lines hold irregular numbers of tabs may be declined as no table, but is never returned altered. Types are blank for empty and string for other fields, and integer, float, string and boolean scans agree with the field text.",
 ["inputs"], "every text up to a length over an alphabet of delimiters, quotes, line ends and letters, plus size and shape deviations",
 "no test opens a delimited file at all",
 ["simple/tsv.go", "simple/csv.go", "simple/simple.go"],
 [("line splitting", "simple/tsv.go OpenTSV"), ("CSV reading", "simple/csv.go OpenCSV"), ("row iterator", "simple/simple.go")],
 ["simple.OpenTSV, simple.OpenCSV, grate.Open"])
prop("C07", "Compound-file streams are reassembled from any valid sector layout",
 "For every well-formed compound file (version 3 or 4) every stream in its directory is listed and, when opened, yields exactly its bytes in order and its size, for any placement of its sectors, small streams in the mini stream and large ones in regular sectors, allocation tables of any length (including tables chained through DIFAT and several mini-table or directory sectors), free sectors and unused directory entries, and any values of the fields that say nothing about the streams (minor version, colours of entries, classes, states and times of storages). Streams do not depend on where other streams lie, and a stream of the root storage is not hidden by one of the same name within an embedded document.",
 ["inputs", "configurations"], "stream sizes around every sector and cutoff boundary x all small sector permutations x layout deviations (version, mini/regular, table chaining, directory shape)",
 "the tests open a few files written by one producer, whose sectors are nearly contiguous, and check one header; layouts are a permutation space",
 ["xls/cfb/cfb.go", "xls/cfb/interface.go", "xls/cfb/slicereader.go"],
 [("FAT/DIFAT/mini FAT loading", "xls/cfb/cfb.go load"), ("directory", "xls/cfb/cfb.go buildDirs"), ("sector chains", "xls/cfb/cfb.go getStreamReader, getMiniStreamReader")],
 ["cfb.Open, Document.List, Document.Open + io.ReadAll"])
prop("C08", "The sliced stream reader honours the io.ReadSeeker contract",
 "For every division of a stream into slices and every sequence of reads and seeks (from start, current position and end), reads return the stream's bytes at the current position, report EOF exactly at the end, and seeks return and move to the requested position; seeking before the start is refused with an error, seeking beyond the end either is refused or leaves nothing but EOF to read, and a refused seek does not move the position. No sequence of operations panics.",
 ["inputs", "histories"], "all operation sequences up to depth 3 (quick) or 4 (thorough) over every seek target of a small stream and several slice layouts",
 "the single existing test walks one byte layout with a fixed list of seeks; the contract is over histories of operations",
 ["xls/cfb/slicereader.go"],
 [("slice index and offset", "xls/cfb/slicereader.go Read/Seek")],
 ["SliceReader.Read, SliceReader.Seek"],
 [dict(name="Index/Offset", meaning="current slice and offset within it", where="xls/cfb/slicereader.go"), dict(name="CSize", meaning="lazily built cumulative sizes", where="xls/cfb/slicereader.go")])
prop("C09", "An RC4-obfuscated workbook reads exactly like its plain twin",
 "A workbook protected with the standard RC4 scheme and the default password yields the same sheets, values, types and formats as the unencrypted workbook, wherever records fall relative to the 1024-byte key blocks and whichever records are stored in the clear. The decryptor's output does not depend on how its input is divided into writes, resetting it makes it decrypt a new stream from block zero, and a key that fails verification or an unsupported scheme is reported as an error rather than returned as data.",
 ["inputs", "histories"], "every alignment of a record to the key-block boundary, every kind of clear record, every division of a stream into writes from a boundary-value alphabet, every single-bit change of the verifier",
 "no sample file is encrypted: the tests never run this code",
 ["xls/crypto/rc4.go", "xls/crypto/crypto.go", "xls/xls.go"],
 [("block rekeying", "xls/crypto/rc4.go Write/Flush/startBlock"), ("clear-record overlay", "xls/xls.go loadFromStreamWithDecryptor"), ("password check", "xls/crypto/rc4.go Verify")],
 ["xls.Open, crypto.NewBasicRC4"])
prop("C10", "The XLS sheet directory lists and resolves sheets faithfully",
 "List returns the visible sheets and ListHidden the hidden and very hidden ones, each in directory order under their stored names, and Get returns, for any listed name, the contents of the substream that name's directory entry points to, wherever the substreams lie and whatever else (charts, embedded objects, macro or dialog sheets) the stream contains. Unknown names are errors; embedded substreams contribute no cells and end no sheet early.",
 ["inputs", "configurations"], "every directory of up to three (thorough: four) sheets x visibility x substream order x embedded or foreign substreams",
 "the sample files have one to three plain visible sheets in stream order",
 ["xls/sheets.go", "xls/xls.go"],
 [("substream table", "xls/xls.go loadFromStream2"), ("sheet lookup", "xls/sheets.go List/ListHidden/Get"), ("embedded substreams", "xls/sheets.go parseSheet")],
 ["List, ListHidden (xls.WorkBook), Get"])
prop("C11", "Merged ranges are marked without moving or losing cells",
 "For every merged range of an xls or xlsx sheet the top-left cell keeps its value, the cells below it in the first column are marked as row continuations with the last one as row end, and every other cell is marked as a column continuation with the rightmost column as column end (as far as the range lies within the sheet's extent); all other cells and the sheet's shape are unchanged. Both readers give the same marks for the same range.",
 ["inputs"], "every rectangle (and every pair of disjoint rectangles) of a small grid, in both formats, plus open-ended row/column ranges of xls",
 "the sample files contain a couple of merges; the marks depend on the range's shape and place",
 ["xls/sheets.go", "xlsx/sheets.go", "grate.go"],
 [("xls merge records", "xls/sheets.go RecTypeMergeCells"), ("xlsx mergeCell", "xlsx/sheets.go mergeCell")],
 ["Strings()"])
prop("C12", "Hyperlinks attach to their cells without corrupting the sheet",
 "For an xls hyperlink record - any combination of display name, frame, URL or file moniker, string moniker and location - the first cell of its range shows the display name followed by the target in angle brackets and the rest of the range, as far as it lies within the sheet, carries continuation marks. An xlsx external hyperlink gives its cell the relationship's target, reported with type hyperlink, and no hyperlink changes any cell outside its range.",
 ["inputs"], "all combinations of hyperlink option flags x target kinds x ranges, and xlsx link/target/order combinations",
 "the sample files have a single link form",
 ["xls/hyperlinks.go", "xls/sheets.go", "xlsx/sheets.go", "commonxl/cell.go"],
 [("hyperlink object", "xls/hyperlinks.go"), ("range marking", "xls/sheets.go RecTypeHLink"), ("xlsx hyperlink element", "xlsx/sheets.go"), ("cell URL", "commonxl/cell.go SetURL")],
 ["Strings(), Types()"])
prop("C13", "Built-in number formats show the number that is stored",
 "For every built-in numeric format (integer, fixed, thousands, percent, scientific, accounting, general and the local variants) and every finite value, the text shown reads back - taking sign, grouping commas, percent, exponent and parentheses into account - as the stored value correct to the last digit shown, with exactly the digits and decoration the format defines; integers shown without rounding lose no digits. Formatting never panics and the same value in a cell or passed directly gives the same text.",
 ["inputs"], "every built-in numeric format x a value lattice of all boundary magnitudes (powers of ten, halves, grouping and int64 limits) and all multiples of 0.001 in a range",
 "the format test checks a dozen literal values of a few formats",
 ["commonxl/fmt.go", "commonxl/formats.go", "commonxl/cell.go"],
 [("built-in formatters", "commonxl/fmt.go goFormatters"), ("cell coercion", "commonxl/cell.go NewCellWithType")],
 ["Formatter.Apply, Formatter.Get, Sheet.Put + Strings()"])
prop("C14", "Serial dates and times are converted and shown correctly in both date systems",
 "Every serial number converts to the calendar date and time of day it denotes in the workbook's date system (1900 from serial 61 on, or 1904 from serial 0), to the second, and every built-in date format shows exactly those components in its layout; whole-day serials step one calendar day at a time, and fractions never roll a displayed time beyond the nearest second it denotes. A workbook that declares the 1904 system, in either file format, is shown with it; none of this depends on the local time zone.",
 ["inputs", "configurations"], "every serial day up to year 9999 in both systems and every second of a day for every built-in date format, under ten local time zones",
 "the date test checks a few values of a few formats, and no sample uses the 1904 system",
 ["commonxl/dates.go", "commonxl/fmt.go", "xls/xls.go", "xlsx/workbook.go"],
 [("serial conversion", "commonxl/dates.go ConvertToDate"), ("date layouts", "commonxl/fmt.go goFormatters"), ("date mode", "commonxl/formats.go Mode1904")],
 ["Formatter.ConvertToDate, Formatter.Apply, Strings()"])
prop("C15", "A cell's number format never destroys the cell's content",
 "Text - including error values, formula strings and numeric-looking text - is shown verbatim whatever numeric, date or text format its cell carries (unless a custom format has its own text section), and booleans show as TRUE or FALSE, and blanks as blank, under the general and text formats. No combination of stored value kind and format panics or replaces content with a diagnostic.",
 ["inputs", "configurations"], "the full matrix of value kinds and text menu x all built-in and a menu of custom formats x every way to store the value in either file format",
 "the tests hold numbers in number formats and text in general format; the cross products never occur",
 ["commonxl/cell.go", "commonxl/fmt.go", "commonxl/formats.go", "commonxl/sheet.go"],
 [("type coercion on store", "commonxl/cell.go NewCellWithType, commonxl/sheet.go Put/Set"), ("format application", "commonxl/formats.go Apply")],
 ["Sheet.Put/Set + Strings(), generated files"])
prop("C16", "Fractions stay within their digit limits and approximate the value",
 "Converting any finite number to a fraction yields a numerator and denominator within the requested number of digits, a non-zero denominator, the right sign, and an error no larger than the best continued-fraction convergent within the limits (errors below 1e-10 are not told apart); values that are exactly representable as such fractions are returned exactly and in lowest terms. The fraction formats show whole part, sign and fraction that read back to that approximation.",
 ["inputs"], "every fraction n/d with d up to 99 (thorough: 999) and whole parts, both signs, every multiple of 1/4096, for every digit limit",
 "the fraction test checks a list of common positive fractions",
 ["commonxl/numbers.go", "commonxl/fmt.go"],
 [("continued fraction expansion", "commonxl/numbers.go"), ("fraction format", "commonxl/fmt.go fracFmtFunc")],
 ["commonxl.DecimalToFraction, DecimalToWholeFraction, Formatter.Apply(12, 13, 69, 70)"])
prop("C17", "Custom format codes are compiled to what they say",
 "For custom codes built from digit placeholders, grouping, decimals, percent, exponent, scaling commas, fractions, General and @, digit masks, quoted or escaped literals, currency and colour brackets, conditions and up to four sections (the last may be a text section), the text shown reads back to the stored value at the precision shown with the literals of the section the value's sign or the conditions select; date codes show the stored date's components in the order given. Format ids are independent of each other, built-in ids cannot be replaced and the first definition of an id stays.",
 ["inputs", "histories"], "every format code of a bounded grammar x a value menu, and every order of up to three format definitions",
 "the tests contain a dozen literal codes",
 ["commonxl/formats.go", "commonxl/fmt.go"],
 [("format compiler", "commonxl/formats.go makeFormatter"), ("format registry", "commonxl/formats.go Add/Apply")],
 ["Formatter.Add/Apply"])
prop("C18", "Row iteration visits every row once with a stable rectangular shape",
 "A collection yields exactly its rows, in order, once, each with the same number of columns in Strings, Types and Formats, and reading a row any number of times or in any order of accessors does not change it or the iteration; after the last row Next stays false. A sheet is reported empty exactly when it holds no data, and growing a sheet or writing a cell never loses or moves cells already written, and what the accessors return can be changed by the caller without changing the sheet.",
 ["histories", "inputs"], "every sequence up to the stated depth of resize/put/set/link/next/read operations on a small grid against a map model, and every accessor history on sheets from each reader",
 "tests iterate each sample once, front to back",
 ["commonxl/sheet.go", "simple/simple.go", "xls/sheets.go", "xlsx/sheets.go"],
 [("row cursor and grid", "commonxl/sheet.go"), ("delimited row cursor", "simple/simple.go")],
 ["Collection methods"],
 [dict(name="CurRow", meaning="row cursor", where="commonxl/sheet.go"), dict(name="NumRows/NumCols/Rows", meaning="declared and stored grid", where="commonxl/sheet.go")])
prop("C19", "Scan delivers stored values by type or says it cannot",
 "Scanning a row into pointers of the supported types yields exactly the stored value of each column when its type matches, and otherwise an error that leaves every destination of a non-matching column untouched; unsupported destination types give an error recognisable as the invalid-scan-type error. Scanning never panics, for any number and kind of arguments, and does not advance or alter the row.",
 ["inputs", "configurations"], "every column type x every destination kind, for one to three columns and wrong argument counts, in every reader",
 "no test calls Scan",
 ["commonxl/sheet.go", "simple/simple.go", "errs.go"],
 [("typed extraction", "commonxl/sheet.go Scan, simple/simple.go Scan")],
 ["Collection.Scan"])
prop("C20", "Corrupt or hostile input ends in an error, never a crash, hang or blow-up",
 "Opening and fully reading any byte sequence - in particular any workbook with bytes, lengths, offsets, counts, chain links or XML attributes altered - returns data or an error: it does not panic, loop forever, or allocate memory out of proportion to the input and the sheet limits of its format (hundreds of megabytes for a small file). What was returned before the damage is found stays usable.",
 ["inputs", "fault_sequences"], "every single-byte/field corruption from a value menu at every position of small xls, compound and xlsx files (thorough: pairs of field corruptions)",
 "the tests read only intact files",
 ["xls/xls.go", "xls/sheets.go", "xls/strings.go", "xls/hyperlinks.go", "xls/cfb/cfb.go", "xlsx/xlsx.go", "xlsx/sheets.go", "xlsx/workbook.go"],
 [("record bounds", "xls/xls.go nextRecord"), ("chain walks", "xls/cfb/cfb.go"), ("XML parsing", "xlsx/*.go")],
 ["grate.Open, xls.Open, xlsx.Open and full iteration"])
prop("C21", "A truncated workbook is never silently read as a smaller one",
 "When an xls or xlsx file is cut off at any byte position, opening or reading it either reports an error or returns exactly the data of the intact file; it never returns different values or fewer rows, cells or sheets without an error. The same holds for a workbook whose record stream ends in the middle of a record.",
 ["inputs", "crash_points"], "every truncation point of several small workbooks in both formats, with the tables before and after the data",
 "the tests read only intact files; the truncation points are a crash-point space",
 ["xls/xls.go", "xls/cfb/cfb.go", "xlsx/xlsx.go", "xlsx/sheets.go"],
 [("incomplete chain and record detection", "xls/cfb/cfb.go, xls/xls.go nextRecord"), ("archive and XML errors", "xlsx/xlsx.go, xlsx/sheets.go")],
 ["xls.Open, xlsx.Open and full iteration"])
prop("C22", "Files and resources are released on every path",
 "After a source is closed, and after every failed open, the process holds no descriptor of the file: opening and closing any number of files, valid or not, leaves the number of open descriptors unchanged. Closing is safe at any point of reading and an earlier close never affects another open source.",
 ["histories", "fault_sequences"], "every outcome class of every opener x every point of a reading history x close counts",
 "the tests never look at descriptors and exercise no failing open",
 ["xls/cfb/interface.go", "xlsx/xlsx.go", "simple/tsv.go", "simple/csv.go", "xls/xls.go"],
 [("file handle ownership", "xls/cfb/interface.go Open, xlsx/xlsx.go Open/Close")],
 ["/proc/self/fd around grate.Open/Close"])
prop("C23", "Reading is repeatable and unaffected by other files, history or settings",
 "The sheets, values, types and formats obtained from a file depend only on its contents: reading it again, opening it twice, reading other files in between, closing other sources (even repeatedly), fetching its sheets in any order or several times, or turning debug logging on gives the same result each time. Sheets handed out earlier keep their contents and their own row position.",
 ["histories"], "every sequence up to the stated depth of open/get/read/close operations over several files and handles",
 "the tests read each file once in a fresh process state; history effects (record pools, shared iterators, map order) need sequences",
 ["xls/xls.go", "xlsx/xlsx.go", "xlsx/sheets.go", "simple/simple.go", "commonxl/formats.go"],
 [("record pool", "xls/xls.go recPool"), ("lazily parsed shared sheets", "xlsx/xlsx.go Get"), ("per-workbook formatter", "commonxl/formats.go")],
 ["grate API histories"])
prop("C24", "Independent sources can be used from concurrent goroutines",
 "Goroutines that each open, read and close their own sources - of the same or different files and formats - obtain exactly the results of running alone, in every interleaving, with no data race, deadlock or panic.",
 ["schedules"], "all interleavings of two (thorough: three) reader goroutines up to a preemption bound at every access to state shared between sources, plus a race-detector pass",
 "the tests are sequential; the sharing (record pool, package tables) only matters under specific interleavings",
 ["xls/xls.go", "grate.go", "commonxl/formats.go", "commonxl/fmt.go"],
 [("record pool", "xls/xls.go recPool"), ("package-level tables", "commonxl/fmt.go, commonxl/formats.go, grate.go")],
 ["results of concurrent grate.Open/Get/Strings/Close"])
prop("C25", "grate2tsv extracts every file completely under any schedule",
 "For every list of input files and every schedule of its workers, grate2tsv terminates, writes for each non-empty sheet exactly the cleaned non-blank rows of that sheet to its own complete output file (for inputs and sheets whose names give different output names), and logs exactly one line per sheet or failed file with the right counts. Its output never mixes files, whatever the number of processors.",
 ["schedules", "inputs"], "all interleavings of the worker, cleanup and main goroutines up to a preemption bound for small file lists and processor counts 1 to 6, and all option combinations",
 "the command has no tests; its pools, channels and shutdown order depend on the schedule",
 ["cmd/grate2tsv/main.go"],
 [("worker fan-out and shutdown", "cmd/grate2tsv/main.go main/runProcessor"), ("output pool and cleanup channel", "cmd/grate2tsv/main.go processFile")],
 ["results directory and results.txt of the built command"])
prop("C26", "Cell comparison is a consistent order",
 "Comparing cells never panics; among cells of the same kind, less-than is a strict weak order consistent with the values, and equality is reflexive, symmetric and consistent with it (NaN aside); numeric cells compare by value whatever their representation, and a number equals text only when the text denotes that number.",
 ["inputs"], "every pair and triple of a menu of cells of every kind",
 "no test compares cells; the order laws quantify over triples",
 ["commonxl/cell.go"],
 [("comparison", "commonxl/cell.go Less/Equal")],
 ["Cell.Less, Cell.Equal"])
prop("C27", "The same table reads the same from every format and tool",
 "A table stored as xls and as xlsx yields the same sheet names, text, number of rows and columns for every mixture of value kinds and formats both formats can express, and as a tab-separated file the same text; the grater command prints exactly those rows for every file given, continuing after files it cannot read.",
 ["inputs"], "every table of a small grid over a cell alphabet, rendered in each format, and every list of up to three files",
 "the comparison tests compare one fixed sample per format",
 ["xls/sheets.go", "xlsx/sheets.go", "simple/tsv.go", "cmd/grater/main.go", "commonxl/sheet.go"],
 [("common sheet model", "commonxl/sheet.go"), ("readers", "xls/sheets.go, xlsx/sheets.go"), ("command", "cmd/grater/main.go")],
 ["grate.Open on each rendering, grater's stdout"])

prop("C28", "A cell's value, reported type, format and link stay consistent",
 "A cell made from any builtin Go type keeps that value, and one coerced to another cell type either means the same value in the new type or stays as it was; the type a cell or sheet reports is always the type of the value it holds and of the only destination Scan accepts for it, under every number format and in files of either format. Giving a cell a format or a link, replacing or removing it, and cloning the cell, in any order, change nothing else and never panic.",
 ["inputs", "histories"], "every builtin value and limit value as every cell type and under every built-in and 25 custom formats; every sequence of up to three updates",
 "the tests make cells of a few types in one sheet and never combine coercion, formats and links",
 ["commonxl/cell.go", "commonxl/sheet.go", "commonxl/formats.go"],
 [("cells", "commonxl/cell.go NewCell, NewCellWithType, SetFormatNumber, SetURL, Clone"), ("sheet", "commonxl/sheet.go Put, Types, Scan, Raw")],
 ["Cell methods; Types, Raw and Scan of a sheet"])

prop("C29", "Equivalent encodings of a workbook read the same",
 "Writing a part of an xlsx package in an equivalent XML form (order of attributes, quotes, spelling of booleans and numbers, prefixes, character references, CDATA sections, empty elements, comments, instructions, layout, byte order mark, declaration, foreign attributes and elements), adding the elements and extensions of a package which hold no cell, text, cell format, sheet or link, packing the archive differently (order, compression, directory entries, comments, extra fields), or adding records to an xls stream which hold none (with their continuations), or changing the parts of its records which are unused or optional, changes no sheet name, hidden state, row, value, type, format or link that is read.",
 ["inputs"], "every token of a package in 15 other forms (thorough: pairs), every combination of 10 forms of whole parts, rotations and exchanges of parts, 23 kinds of extension elements and pairs, every xls record type without content at several places",
 "the test files come from one or two writers each, so every other form a writer may choose is never read",
 ["xlsx/workbook.go", "xlsx/sheets.go", "xlsx/xlsx.go", "xls/sheets.go", "xls/xls.go"],
 [("xml", "xlsx/workbook.go parseRels, parseWorkbook, parseStyles, parseSharedStrings; xlsx/sheets.go parseSheet"), ("archive", "xlsx/xlsx.go Open, openXML"), ("records", "xls/xls.go loadFromStream, xls/sheets.go parseSheet")],
 ["Open, List, ListHidden, Get, Next, Strings, Types, Formats"])

prop("C30", "A failing read is an error, never other data",
 "When the operating system fails one of the operations with which a file is opened, examined, positioned or read (an I/O error, no free descriptors, no permission), whether once or from then on, opening the file or reading its sheets reports an error or yields exactly the data of the file: never fewer rows or sheets, never the content read as another format. A read which returns fewer bytes than asked for changes nothing. Afterwards no file stays open, and the file can be read again.",
 ["inputs", "fault_sequences"], "every system operation on the file x every way it fails x once or lasting, for every kind of file and opener",
 "tests read files from a disk which never fails; a fault must hit each operation in turn",
 ["xlsx/xlsx.go", "xlsx/sheets.go", "xlsx/workbook.go", "simple/tsv.go", "simple/csv.go", "xls/cfb/cfb.go", "xls/cfb/interface.go", "xls/xls.go", "grate.go"],
 [("xlsx", "xlsx/xlsx.go Open, openXML, notInFormat, Get; xlsx/sheets.go parseSheet"), ("text", "simple/tsv.go OpenTSV, simple/csv.go OpenCSV"), ("xls", "xls/cfb/cfb.go load"), ("detection", "grate.go Open")],
 ["Open, List, Get, Next, Strings, Err, Close"])

prop("C31", "The commands report what they could not read or write",
 "When the operating system fails one of the operations of grater or grate2tsv on an input file, an output file, the statistics file or standard output, or all later ones of its kind too, then what is written is complete, or the failure is reported: by the exit status, on standard error, in the log file or in the statistics. Inputs and outputs which the failure does not concern are still complete unless the command ends with a failure status. The command always ends.",
 ["inputs", "fault_sequences"], "every operation on every input and output of both commands x every way it fails x once or lasting x the flags which change where output goes",
 "tests do not run the commands, and a disk is never full while they run",
 ["cmd/grater/main.go", "cmd/grate2tsv/main.go"],
 [("standard output", "cmd/grater/main.go main, printRow"), ("buffered output files", "cmd/grate2tsv/main.go processFile, main (the goroutine which flushes)"), ("statistics", "cmd/grate2tsv/main.go runProcessor, writeStats")],
 ["exit status, standard output and error, output files, results.txt, log file of the commands"])

prop("C32", "An open source keeps reading the file it was opened on",
 "Once a file is open, its source delivers the sheets and rows of that file, however late and however often they are read, whatever happens to the path meanwhile: the file may be removed or renamed, another file, a directory or a link may take its name, its directory may be renamed, or the working directory of the process may change. Closing the source afterwards leaves no descriptor open.",
 ["inputs", "histories"], "every kind of file and opener, absolute and relative paths x every event x every point between the calls (thorough: pairs of events)",
 "tests read files nobody touches meanwhile; a sheet that is only loaded when it is wanted works there whether it is loaded from the open file or from its path",
 ["xlsx/xlsx.go", "xlsx/sheets.go", "simple/simple.go", "simple/tsv.go", "simple/csv.go", "xls/xls.go", "xls/cfb/interface.go"],
 [("sheets loaded when wanted", "xlsx/xlsx.go Get, xlsx/sheets.go parseSheet"), ("files loaded when opened", "xls/cfb/interface.go Open, simple/tsv.go OpenTSV, simple/csv.go OpenCSV")],
 ["Open, List, Get, Next, Strings, Types, Formats, Close"])

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

# checks: those whose harness exists
have = set()
for fn in os.listdir(V + "/mc/props"):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(V + "/mc/props/" + fn).read()))
TECH = json.load(open(V + "/tools/technique.json"))
checks = []
na = []
for p in P:
    i = p["id"]
    if i in have:
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=t.get("technique", "stateless model checking of the implementation: exhaustive enumeration of a bounded choice tree against a reference model"),
            level="model_checking", level_note=t.get("note", "Exhaustive within the bounds stated in DESIGN.md; trusts the generators and reference models in /verif/mc.")))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="One explorer (/verif/mc, Go) is rebuilt against /repo by run.sh for every check; no hooks in /repo."), open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)

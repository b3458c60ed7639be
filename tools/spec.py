"""The properties and how they are checked."""


def task(tier, fn, bounds, preempt=0, delays=0, budget=0, covers=None, steps=0, **params):
    t = {"fn": fn, "params": params, "bounds": bounds}
    if tier:
        t["tier"] = tier
    if preempt:
        t["preemptions"] = preempt
    if delays:
        t["delays"] = delays
    if budget:
        t["budget"] = budget
    if steps:
        t["max_steps"] = steps
    if covers:
        t["covers"] = covers
    return t


def Q(fn, bounds, **k):
    return task("quick", fn, bounds, **k)


def T(fn, bounds, **k):
    return task("thorough", fn, bounds, **k)


def B(fn, bounds, **k):
    return task("", fn, bounds, **k)


PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, tasks, outside="", assumptions=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=[f if "/" in f else "flatjsonl/" + f for f in files], mech=mech, tasks=tasks, outside=outside,
                      assumptions=list(assumptions), observe=list(observe)))


def NA(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, [])
    NOT_APPLICABLE.append({"property": id, "reason": reason})


P("P01", "Every input line is exactly one output row, in input order",
  "For any inputs, the output has one row per input line (blank, truncated, malformed and non-JSON lines included), in the order of the lines over all the inputs, and the values of a line are in its row and in no other. A line that cannot be decoded gives a row without values and does not affect its neighbours.",
  ["inputs"], "every sequence of lines of any kind, over one or several inputs, with any line ends",
  "the tests have a few fixed files of well-formed lines; which line is malformed, and where, is an arbitrary input",
  ["reader.go", "processor.go", "csv_writer.go"],
  [("a sequence number per line, lines are started and finished even when they fail", "Reader.Read, Reader.doLine"),
   ("finished rows wait for their turn", "writeIterator.lineFinished, checkCompleted, complete")],
  [Q("RowOrder", "2 lines of 12 kinds after a first one, split in 1 or 2 inputs, LF or CRLF, with or without the last line end; symbolic characters", lines=2, opts=0),
   Q("RowOrder", "the same with 1 line and each of 22 options that do not change the CSV output", lines=1, opts=1),
   T("RowOrder", "the same with 2 lines and each of 22 options", lines=2, opts=1),
   Q("OneColumn", "2 lines of 9 kinds with one column, found, listed, by name, renamed or matched, in each output", lines=2),
   T("OneColumn", "3 lines of 9 kinds with one column", lines=3),
   Q("Chunks", "3 lines that arrive in pieces of every size up to 5 bytes", chunk=5),
   T("Chunks", "3 lines that arrive in pieces of every size up to 30 bytes", chunk=30),
   T("RowOrder", "3 lines of 12 kinds after a first one, split in 1 or 2 inputs, LF or CRLF", lines=3, opts=0),
   T("RowOrder", "4 lines of 12 kinds after a first one", lines=4, opts=0),
   T("RowsMany", "1100 lines, one of them symbolic, 1 to 3 workers, one schedule", lines=1100),
   Q("RowsMany", "120 lines, one of them symbolic, 1 to 3 workers, one schedule", lines=120),
   T("RowsMany", "240 lines, one of them symbolic, 1 to 3 workers, one schedule", lines=240)],
  outside="more lines of arbitrary kind; other kinds of malformed lines (P18 has arbitrary bytes).")

P("P02", "Rows and values do not depend on the schedule of the workers",
  "With several workers the output has the same rows in the same order, the same columns and the same values as with one, under every interleaving of the goroutines; only the order in which the columns were found may differ. No interleaving makes the run wait forever, lose or repeat a row, or race on memory.",
  ["schedules", "inputs"], "every interleaving of reader, workers and row writer, for every input",
  "a test run sees the interleavings the Go scheduler happens to take; the failures need a particular order of two or three steps",
  ["reader.go", "processor.go", "keys.go"],
  [("workers are tokens of a channel, all of them are collected at the end", "Reader.Read"),
   ("rows are written in order of their numbers by whoever finishes the next one", "writeIterator.checkCompleted"),
   ("keys are added under a lock", "Processor.initKey, Processor.scanKey")],
  [Q("Schedules", "without scan pass: 4 inputs of 2 or 3 lines, 2 workers, at most 1 preemption, data races by happens-before", preempt=1, inputs=4, scan=0, races=1),
   Q("Schedules", "with scan pass: the same inputs, at most 2 deviations from the round robin, data races", delays=2, inputs=4, scan=1, races=1),
   Q("SchedulesTypes", "3 lines whose value changes its type, 2 workers, at most 2 deviations, dump and schema", delays=2, lines=3),
   Q("SchedulesLines", "4 lines, one malformed, one symbolic, 2 workers, at most 2 deviations", delays=2, lines=4, workers=2, scan=0, races=1),
   Q("SchedulesKeys", "2 lines that bring the same or different keys, 3 configurations, 2 workers, at most 2 deviations, data races", delays=2),
   Q("SchedulesSingle", "2 lines with 5 kinds of values of a single listed key, 2 workers, at most 1 deviation, data races", delays=1),
   T("SchedulesSingle", "at most 2 deviations", delays=2),
   T("Schedules", "with scan pass: 4 inputs, at most 1 preemption, data races", preempt=1, inputs=4, scan=1, races=1),
   T("SchedulesTypes", "4 lines whose value changes its type, 2 workers, at most 2 deviations", delays=2, lines=4),
   T("SchedulesLines", "4 lines, 3 workers, at most 2 deviations, data races", delays=2, lines=4, workers=3, scan=0, races=1),
   T("SchedulesLines", "5 lines, 2 workers, with scan pass, at most 2 deviations", delays=2, lines=5, workers=2, scan=1, races=1),
   T("SchedulesLines", "4 lines, 2 workers, at most 3 deviations", delays=3, lines=4, workers=2, scan=0, races=1),
   T("SchedulesKeys", "2 lines, at most 1 preemption, data races", preempt=1)],
  outside="more workers, lines or deviations; switches only at synchronising operations (races are reported instead).")

P("P03", "Values are written as they are in the document",
  "The field of a leaf is its value: a string decoded, a number with exactly the characters it has in the input, a boolean as true or false. Null and absent values are empty.",
  ["inputs"], "every scalar at every place of a document, whatever the other values of its column are",
  "tests have some values of each type; escapes, precision, exponents and columns of mixed types are arbitrary inputs",
  ["flattener.go", "processor.go", "writer.go", "csv_writer.go"],
  [("raw text of a number is kept", "FastWalker.WalkFastJSON, Value.Format"), ("fields are quoted", "CSVWriter.ReceiveRow")],
  [Q("ValueFidelity", "strings of at most 1 character (plain, multi-byte, escaped), 15 forms of numbers with symbolic digits, booleans, null; at 3 places, with 6 other lines", covers=["string", "number"], len=1, opts=0),
   Q("ValueFidelity", "the same with each of 22 options that do not change the CSV output", covers=["string", "number"], len=1, opts=1),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, any of 22 options", a=0, lines=2, out=0),
   T("ValueFidelity", "the same with strings of at most 2 characters", covers=["string", "number"], len=2, opts=1)],
  outside="longer strings, \\u escapes.")

P("P04", "Columns are exactly the leaves of all documents, with nothing misplaced",
  "There is a column for each path that has a scalar in some line, and no other, named by the path in order of appearance. Each scalar is in the row of its line and the column of its path, all other fields are empty, and all rows have as many fields as the header.",
  ["inputs"], "every set of documents, nested and with shapes that disagree between lines",
  "tests have fixed documents; the combinations of shapes at a path (scalar, null, object, array, nothing) over lines are not covered",
  ["keys.go", "flattener.go", "processor.go", "writer.go"],
  [("scan pass collects paths and types", "Processor.scanKey, initKey, prepareScannedKeys"), ("index of a column by the hash of the path", "Processor.iterateForWriters, writeIterator.setValue"),
   ("row buffers are cleared before reuse", "writeIterator.complete")],
  [Q("Columns", "1 line, objects and arrays nested 2 deep along one branch, at most 2 children, 2 kinds of scalars", lines=1, depth=1, kinds=2, wide=0),
   Q("Columns", "2 lines, flat objects, 5 kinds of scalars", lines=2, depth=-1, kinds=4, wide=0),
   Q("ColumnsShapes", "3 lines with 9 shapes of the value at a path, and a path of their own", lines=3, opts=0),
   Q("ColumnsShapes", "2 lines with 9 shapes, with each of 22 options that do not change the CSV output", lines=2, opts=1),
   Q("Deep", "2 documents nested up to 12 levels, 5 kinds of values at the end, 3 orders of objects and arrays, 1 or 2 workers", depth=12, what=0),
   Q("Columns", "3 lines, flat objects", lines=3, depth=-1, kinds=2, wide=0),
   Q("ColumnsShapes", "4 lines", lines=4, opts=0),
   T("Deep", "2 documents nested up to 40 levels", depth=40, what=0),
   T("Columns", "1 line, objects and arrays nested 3 deep along one branch", lines=1, depth=2, kinds=2, wide=0, budget=600),
   T("ColumnsShapes", "5 lines", lines=5, opts=0, budget=600),
   T("ColumnsShapes", "3 lines, each of 22 options", lines=3, opts=1)],
  outside="a path that has nothing but nulls and containers may or may not have a column; keys with dots; deeper nesting; order of columns with several workers.")

P("P05", "Any key makes a well-formed header; the CSV is always readable",
  "Whatever bytes keys and values have, the CSV output is well-formed and reads back as the same names and values. The name of a column is the path with the keys as they are in the document.",
  ["inputs"], "every key and every value",
  "tests use keys of letters and digits only",
  ["keys.go", "csv_writer.go", "flattener.go"],
  [("names are paths joined with dots", "KeyFromPath"), ("CSV quoting", "CSVWriter.writeHead, CSVWriter.ReceiveRow")],
  [Q("ColumnNames", "keys and values of at most 1 character of any kind, at 3 places, case sensitive or not", len=1),
   T("ColumnNames", "keys of at most 2 characters", len=2, budget=600)],
  outside="keys with dots (their paths are ambiguous by design), longer keys.")

P("P06", "Keys that differ by case are one column, unless told otherwise",
  "By default keys that differ only by case share a column, named as the first of them, and no value is lost. With case sensitive keys each has a column of its own.",
  ["inputs", "configurations"], "every pair of keys, whatever order internal maps are iterated in",
  "the tests do not have keys that differ by case over lines; the order of map iteration is random",
  ["keys.go", "processor.go"],
  [("canonical keys", "Processor.ck, Processor.initKey, Processor.flKeysInit")],
  [B("KeyCase", "2 lines, keys of 2 letters of aA and of 2 other alphabets, both settings, every order of map iteration (1 deviation for other alphabets)"),
   Q("KeyCaseShapes", "3 lines, values of different shapes at keys that differ by case", lines=3),
   B("CaseSettings", "12 settings for a key, top level or nested, 6 pairs of values, key of either line and setting of either case: the same as with one spelling"),
   B("CaseSensitive", "9 settings of one of two keys that differ by case, 3 documents"),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, keys that are case sensitive and any of 22 options", a=18, lines=2, out=0),
   T("KeyCaseShapes", "4 lines, values of different shapes at keys that differ by case", lines=4)],
  outside="longer keys, letters whose case is not one to one, more lines; keepJSON and allowCardinality, which name keys exactly.")

P("P07", "The same input always gives the same output",
  "The output, the dump and the listings of keys are functions of inputs and configuration, apart from the order in which several workers find columns. They do not depend on the order in which internal maps are iterated, also when several settings apply to the same key.",
  ["inputs", "configurations", "schedules"], "every order of map iteration, for every input and configuration",
  "map order is random at run time: a test passes most of the time",
  ["keys.go", "processor.go", "writer.go", "flattener.go", "pg_dump_writer.go"],
  [("sorting by index before maps are used", "Processor.prepareKeys, PGDumpWriter.SetupKeys, KeyHierarchy.Hierarchy")],
  [Q("Determinism", "3 documents, 4 configurations, up to 2 deviations from the order of insertion", dev=2),
   Q("ConfigOrder", "3 documents, 11 configurations with settings that apply to the same key (overlapping expressions, keys that differ by case, nested prefixes), 1 deviation", dev=1),
   T("ConfigOrder", "up to 2 deviations", dev=2),
   T("Determinism", "up to 3 deviations", dev=3)],
  outside="more deviations at a time.")

P("P08", "SQLite table has the rows, with values, NULLs and types right",
  "The SQLite output has a table with a row per line, keyed by the number of the line, holding the values of the line and NULL where there is none. A declared column type never changes a value other than by the form or the double precision of a number.",
  ["inputs"], "every value (quotes, control characters and SQL syntax included) and every mix of types in a column",
  "tests read back a few simple values",
  ["sqlite_writer.go", "type.go", "processor.go"],
  [("quoting of values", "SQLiteWriter.insert"), ("type of a column covers all its values", "Type.Update")],
  [Q("SQLiteContent", "2 lines of 7 kinds, strings of at most 1 character of any kind", len=1, lines=2),
   B("SQLiteTypes", "2 lines with every pair of 10 values"),
   B("ManyRows", "10040 lines, or 5020 lines with elements of a transposed key (more than a transaction has), up to 2 in the first and 1 or 2 in the last of them", lines=5020, out=0, steps=200_000_000),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, any 2 of 22 options", a=-1, lines=2, out=2),
   T("SQLiteContent", "2 lines of 7 kinds, strings of at most 3 characters", len=3, lines=2),
   T("SQLiteContent", "3 lines of 7 kinds, strings of at most 2 characters", len=2, lines=3)],
  outside="the SQL engine is a model of the statements used; sizes.")

P("P09", "PostgreSQL dump loads and has the rows, with sufficient types",
  "The dump is a sequence of statements that loads without error: every row fits the declared columns and every value fits the declared type. The rows are those of the lines, with their numbers, and a type is not wider than the values need.",
  ["inputs"], "every value and every mix of types in a column, in any order",
  "tests compare dumps of a few documents; nothing loads them",
  ["pg_dump_writer.go", "type.go", "keys.go"],
  [("types are merged over all values of a key", "Type.Update, flKey.UpdateType, Processor.scanKey"), ("COPY of CSV", "PGDumpWriter.insert, flush")],
  [Q("PGContent", "2 lines of 6 kinds, strings of at most 1 character", len=1, lines=2),
   Q("PGTypes", "2 lines with every pair of 21 values, symbolic digits", lines=2),
   Q("PGTransposed", "2 lines of at most 2 elements of 6 kinds in an array or object", lines=2, kids=2, dev=0),
   Q("PGTransposed", "1 line of at most 2 elements, 1 deviation from the order of maps", lines=1, kids=2, dev=1),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, any 2 of 22 options", a=-1, lines=2, out=3),
   B("MergeTypes", "2 keys with every pair of 5 types, replaced with the same name by keys or an expression, or differing by case, or of transposed elements"),
   B("MergeConcatTypes", "2 lines of 2 keys with concatenated values of 5 kinds, replaced with the same name or differing by case, transposed or not, 2 delimiters, SQLite and dump"),
   T("PGContent", "2 lines of 6 kinds, strings of at most 2 characters", len=2, lines=2),
   T("PGTypes", "3 lines", lines=3),
   B("ManyRows", "10020 lines, with or without elements of a transposed key (more than a batch has), up to 2 in the first and 1 or 2 in the last of them", lines=10020, out=1, steps=200_000_000)],
  outside="NULL and the empty string are the same in the dump; a string of \\. on a line of its own.")

P("P10", "Wide tables are split without losing or moving a value",
  "When there are more columns than a table may have, they are spread over several tables joined by the row number, none of which exceeds the limit. Every value is in the column of its key and every part has all rows.",
  ["configurations", "inputs"], "every limit and every number of columns, the exact multiples included",
  "tests have one limit and one number of columns; the boundary cases are exact multiples",
  ["pg_dump_writer.go", "sqlite_writer.go"],
  [("part tables", "PGDumpWriter.createTable, PGDumpWriter.insert, SQLiteWriter.createTable, SQLiteWriter.insert")],
  [Q("SQLSplit", "limits 2 to 8, 1 to 20 columns, 2 lines, SQLite and PostgreSQL", max=8, cols=20),
   B("SQLSplitTransposed", "limits 3 to 5, 1 to 6 columns, elements of 0 to 5 columns, SQLite and PostgreSQL", max=5, cols=6),
   T("SQLSplitTransposed", "limits 3 to 8, 1 to 16 columns, elements of 0 to 15 columns", max=8, cols=16),
   T("SQLSplit", "limits 2 to 12, 1 to 40 columns", max=12, cols=40)],
  outside="larger limits and widths.")

P("P11", "Any key or table name is a valid SQL identifier of that name",
  "Whatever characters a key or the table name has, the SQL outputs are valid and the created tables and columns have exactly those names.",
  ["inputs", "configurations"], "every key and table name",
  "tests use names without quotes",
  ["sqlite_writer.go", "pg_dump_writer.go"],
  [("identifiers are quoted", "SQLiteWriter.createTable, sqluct.QuoteANSI")],
  [Q("SQLNames", "keys of 2 printable characters, 3 table names", len=2),
   T("SQLNames", "keys of 3 printable characters, 3 table names", len=3)],
  outside="longer names, control characters, names that collide in SQLite.")

P("P12", "Transposed values are rows of a table of their own",
  "With a transposed key, each element of the array or object at the key is one row of an additional output, with the number of its line, its index or key, and its values. Nothing below the key is left in the main output, and nothing else changes there.",
  ["inputs", "configurations"], "every value at a transposed key, every key of its elements, every set of transposed keys",
  "tests transpose one document; empty, mixed and nested elements and overlapping prefixes are not covered",
  ["processor.go", "csv_writer.go", "raw_writer.go", "sqlite_writer.go", "pg_dump_writer.go", "keys.go"],
  [("destination of a key is its longest transposed prefix", "Processor.scanKey, initKey"), ("rows of a destination are collected by index", "CSVWriter.ReceiveRow, SQLiteWriter.ReceiveRow, PGDumpWriter.ReceiveRow, baseWriter.setupKeys")],
  [Q("Transpose", "2 lines with 8 shapes of 9 kinds of elements at a top level or nested key, CSV", lines=2, out=0, kinds=9),
   Q("Transpose", "1 line, SQLite and PostgreSQL dump", lines=1, out=1, kinds=9),
   Q("TransposeKeys", "keys of elements of at most 1 character of any kind", len=1),
   Q("TransposeTwo", "3 prefixes, one inside another, 2 orders, 1 deviation of map order", dev=1),
   B("TransposeIncluded", "with listed keys"),
   Q("LongArrays", "arrays of 1, 2, 10, 11, 100 and 101 elements, found, listed and transposed, in each output", sizes=6),
   Q("PGTransposed", "2 lines of at most 2 elements of 6 kinds in an array or object", lines=2, kids=2, dev=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, 2 transposed keys and any of 22 options", a=8, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, the same in SQLite", a=8, lines=2, out=2),
   T("Transpose", "2 lines, SQLite and PostgreSQL dump", lines=2, out=1, kinds=9),
   Q("TransposeBrackets", "keys of elements of at most 4 characters that look like indexes", len=4),
   T("TransposeBrackets", "keys of elements of at most 6 characters that look like indexes", len=6),
   T("TransposeKeys", "keys of elements of at most 2 characters of any kind", len=2),
   T("TransposeTwo", "the same with 3 deviations of map order", dev=3)],
  outside="keys named _sequence or _index below a transposed key; prefixes that end inside a segment of a path; keys with dots.")

P("P13", "Selected columns are exactly those asked for, with the same values",
  "Listed keys and constants are the columns in the listed order, then the found keys that match an expression in order of appearance, less the excluded ones. The values are the same as without selection, with and without a scan pass, and for a single key.",
  ["configurations", "inputs"], "every combination of listed keys, constants, expressions, exclusions, and every document",
  "tests have one configuration of each kind; combinations and the fast path of a single key are separate code",
  ["keys.go", "processor.go", "config.go", "flattener.go"],
  [("listed keys are prepared without a scan", "Processor.prepareKeys, ck"), ("one key is read directly", "Processor.iterateForWriters, FastWalker.GetKey"), ("exclusion", "Processor.prepareScannedKeys")],
  [B("SelectList", "2 listed keys of 6 (constants, absent and repeated ones too), 4 ways to exclude", keys=2),
   T("SelectList", "3 listed keys of 6, 4 ways to exclude", keys=3),
   B("SelectScan", "4 ways to include, 5 ways to exclude, 5 expressions"),
   B("SelectCase", "keys of 2 letters that differ by case"),
   B("SingleKey", "6 places of a key, 6 kinds of values in 2 lines, by flag or configuration"),
   Q("ScanEquals", "2 lines of 7 kinds, listed keys of 9 kinds under 9 configurations, compared with a pass that scans", lines=2),
   T("ScanEquals", "3 lines", lines=3),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, listed keys and any of 22 options", a=1, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, expressions to include and any of 22 options", a=2, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, exclusions and any of 22 options", a=3, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, a single key and any of 22 options", a=19, lines=2, out=0),
   B("SingleFound", "one column found by the scan, keys that differ by case"),
   Q("SingleSame", "1 line of 17 documents, 12 keys, 6 configurations: the same alone as with others", lines=1),
   T("SingleSame", "2 lines of 17 documents", lines=2),
   Q("ExcludeAny", "a key and an excluded key of at most 1 printable character, found or listed", len=1),
   T("ExcludeAny", "of at most 2 printable characters", len=2),
   Q("SingleAny", "a key of at most 1 character of any kind", len=1),
   T("SingleAny", "a key of at most 2 characters of any kind", len=2)],
  outside="other regular expressions; repeated keys with several values.")

P("P14", "Renaming changes names only, and gives each column a name of its own",
  "Replacements by key or expression rename the columns they match and leave all values and other columns as they are. With automatic short names every column has a distinct snake case name that is a tail of its key.",
  ["configurations", "inputs"], "every replacement and every set of keys, however their names collide",
  "tests rename a few keys; collisions of short names depend on sets of keys",
  ["keys.go", "regex.go"],
  [("replacement of keys", "Processor.prepareKey, Processor.iterateIncludeKeys"), ("shortest tail that is free", "Processor.prepareKey, toSnakeCase")],
  [B("ReplaceNames", "5 sets of replacements by key, 5 by expression, with and without listed keys"),
   Q("SnakeNames", "2 keys of 1 character of aA_ in 4 structures, with or without a key that a name is given to by key or expression", len=1),
   Q("SnakeAny", "a key of at most 1 character of any kind", len=1),
   Q("SnakeWords", "a key of at most 4 characters, small and capital letters, digits and others", len=4),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, 3 replaced keys and any of 22 options", a=4, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, short names and any of 22 options", a=6, lines=2, out=0),
   T("SnakeNames", "2 keys of 2 characters of aA_ in 4 structures, with or without a key that a name is given to", len=2),
   T("SnakeWords", "a key of at most 6 characters, small and capital letters, digits and others", len=6),
   T("SnakeAny", "a key of at most 2 characters of any kind", len=2)],
  outside="longer keys, other expressions, two replacements that match a key (documented as undefined).")

P("P15", "Keys replaced with the same name are one column with their values",
  "A column that several keys are replaced with has the first non-null value of the line, or all of its non-null values in order with the configured delimiter. Its declared type admits the values of all its keys.",
  ["configurations", "inputs"], "every combination of values of the merged keys in a line, in every order",
  "tests merge two strings; null, absent and typed values in different order are not covered",
  ["keys.go", "processor.go", "writer.go"],
  [("replaced keys share an index", "Processor.prepareKey, Processor.prepareScannedKeys"), ("concatenation", "writeIterator.setValue")],
  [Q("Merge", "2 keys with 6 kinds of values, 2 orders, without and with 2 delimiters, with and without listed keys", keys=2),
   T("Merge", "3 keys with 6 kinds of values", keys=3),
   B("MergeTypes", "2 keys with every pair of 5 types, replaced with the same name by keys or an expression, or differing by case, or of transposed elements"),
   B("MergeConcatTypes", "2 lines of 2 keys with concatenated values of 5 kinds, replaced with the same name or differing by case, transposed or not, 2 delimiters, SQLite and dump"),
   B("MergeTransposed", "2 keys of a transposed element that differ by case, or are replaced with the same name (found or listed), 6 kinds of values, 3 ways to concatenate, CSV, SQLite and dump"),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, 3 merged keys and any of 22 options", a=5, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, the same in SQLite", a=5, lines=2, out=2)],
  outside="more keys.")

P("P16", "Skipping zero columns removes exactly the columns without values",
  "With skip-zero-cols a column is left out if and only if all its values are zero: 0, an empty string, false or null. All other columns, the listed ones included, have the same values as without the option.",
  ["inputs", "configurations"], "every combination of values over lines",
  "tests have one document; a value that is not zero may be in any line and of any type",
  ["keys.go", "processor.go"],
  [("a key is zero until a value is not", "Processor.scanKey"), ("zero keys are left out", "Processor.prepareScannedKeys")],
  [Q("SkipZero", "1 line, 13 kinds of values of 2 columns", lines=1),
   B("SkipZeroTransposed", "2 elements of an array or object, 2 properties with 8 kinds of values"),
   Q("SkipZero", "2 lines, 13 and 4 kinds of values of 2 columns", lines=2),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, columns of zeros left out and any of 22 options", a=12, lines=2, out=0),
   T("SkipZero", "3 lines, 13 and 4 kinds of values of 2 columns", lines=3)],
  outside="columns with nothing but objects and zeros; zeros of a column that several keys make (merged or transposed) and that is not skipped.")

P("P17", "Sequence numbers are 1, 2, 3 and so on in every output",
  "With add-sequence each row has the number of its line over all inputs, counted from one, in a column of its own, and the number of a row is the same in all outputs. Numbers are written as integers, however big they are.",
  ["inputs", "configurations"], "every sequence of lines, malformed ones included, over inputs, and every number up to 2^53",
  "tests number a few well-formed lines",
  ["processor.go", "reader.go", "flattener.go"],
  [("sequence of lines continues over inputs", "Reader.Read, Processor.scanAvailableKeys"), ("sequence as a value", "Processor.iterateForWriters, Format")],
  [Q("Sequence", "1 or 2 inputs of at most 2 lines of 4 kinds, 1 or 2 workers, listed or found columns, CSV and dump", lines=2),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, sequence numbers and any of 22 options", a=13, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, the same in the dump", a=13, lines=2, out=3),
   B("SequenceNumbers", "numbers d*m for d 1 to 9 and m up to 2^52"),
   T("Sequence", "1 or 2 inputs of at most 3 lines", lines=3)],
  outside="more lines.")

P("P18", "No bytes of a line crash the run or affect other lines",
  "A line of any bytes is a row: it ends neither the run nor its neighbours, and the output remains well-formed. A valid document has its values whatever white space is in it and whatever text is before or after it on the line.",
  ["inputs"], "every short sequence of bytes at the places of a document where they matter",
  "tests have one malformed line; the bytes that break a parser are found by searching all of them",
  ["reader.go", "flattener.go", "processor.go"],
  [("text before the document is skipped, the tail is ignored", "Reader.doLine"), ("a line that fails is a row", "Reader.doLine, writeIterator.lineFinished")],
  [Q("AnyBytes", "1 arbitrary byte at 9 places of a line", len=1),
   Q("AnyBytes", "2 arbitrary bytes at 9 places of a line", len=2),
   Q("AnyDocument", "2 kinds of white space at 9 places, an arbitrary byte before or after the document", ws=2),
   Q("ManyDocuments", "105 documents with texts around them, a line with an arbitrary byte at 9 places at the end, 1 or 2 workers", lines=105, at=1),
   T("ManyDocuments", "the same at each of the last 8 lines of 210", lines=210, at=8),
   T("AnyDocument", "3 kinds of white space at 9 places", ws=3)],
  outside="more bytes; a brace in the text before the document.")

P("P19", "Line limits select exactly the lines within them",
  "The offset skips that many lines, the limit of lines is the number of rows that follow, and the limit for keys is the number of lines that can bring columns, in each of the inputs. Rows within the limits are the same as without limits.",
  ["configurations", "inputs"], "every combination of the three limits (zero, exact, and beyond the end) and kinds of lines",
  "tests set one limit at a time; off-by-one errors are at combinations of boundary values",
  ["reader.go", "processor.go"],
  [("lines are counted when read", "Reader.Read"), ("limits of passes", "Processor.prepareKeys, Processor.Process")],
  [Q("Limits", "3 lines of 3 kinds, every value of the three limits from 0 to 4, listed or found columns, 1 or 2 workers", lines=3),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, limits of lines and any of 22 options", a=14, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, 2 inputs and any of 22 options", a=20, lines=2, out=0),
   B("LimitsFiles", "2 inputs of up to 3 lines, every value of the three limits from 0 to 3, 1 or 2 workers", lines=3),
   T("Limits", "4 lines of 3 kinds, every value of the three limits from 0 to 5", lines=4)],
  outside="more inputs and lines.")

P("P20", "Objects kept as JSON are one column with their document",
  "At the keys that are kept as JSON, and at those with more children than the limit allows, a line has its object or array as JSON text in one column and no columns below it. All other keys are as they are without it, and allowed keys are never collapsed.",
  ["inputs", "configurations"], "every shape of values over lines, every number of children around the limit",
  "tests keep one object and have one limit; siblings with similar names and the boundary of the limit are not covered",
  ["flattener.go", "keys.go", "processor.go"],
  [("JSON is kept by path", "FastWalker.walkFastJSONObject, walkFastJSONArray"), ("children are counted and replaced", "Processor.scanKey, Processor.prepareScannedKeys")],
  [Q("KeepJSON", "1 line, 9 shapes of values at the keys and at a sibling, CSV and dump, with and without listed keys", lines=1),
   Q("ManyChildren", "1 or 2 lines with up to 5 children, limits 2 to 4, objects and arrays, 1 or 2 workers", max=4),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, keys kept as JSON and any of 22 options", a=9, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, limits of children and any of 22 options", a=10, lines=2, out=0),
   T("KeepJSON", "2 lines, 9 shapes of values", lines=2),
   T("ManyChildren", "1 or 2 lines with up to 7 children, limits 2 to 6", max=6)],
  outside="white space in kept JSON (it is written compactly).")

P("P23", "Groups of the line prefix expression are columns of the line",
  "With an expression for the line prefix each of its groups is a column, which has what the group matches in the text before the document, and is empty for lines that do not match. The columns of the document are the same as without it.",
  ["inputs", "configurations"], "every sequence of lines with and without a prefix, a document, or a match",
  "tests have well-formed lines with the same prefix",
  ["processor.go", "reader.go", "keys.go"],
  [("text before the first brace", "Reader.doLine"), ("groups are strings at the path _prefix", "Reader.prefixedLine")],
  [Q("Prefix", "2 lines of 9 kinds after a first one, 2 expressions, by flag or configuration, listed or found columns", lines=2),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, groups of the prefix and any of 22 options", a=15, lines=2, out=0),
   Q("PrefixAny", "any prefix of up to 2 characters, alone or before a document, 4 expressions", len=2),
   T("Prefix", "3 lines of 7 kinds", lines=3)],
  outside="other expressions.")

P("P24", "A run that does not write its complete output reports failure",
  "If an output cannot be created, written or stored completely, or an input cannot be read to its end, the run fails: it never succeeds with missing or truncated rows. A line too long for the buffer is such a failure.",
  ["fault_sequences"], "a fault at every byte of every output and input, in either pass",
  "tests do not inject faults; errors that surface only when buffers are flushed at the end are not seen otherwise",
  ["csv_writer.go", "raw_writer.go", "sqlite_writer.go", "pg_dump_writer.go", "reader.go", "writer.go", "processor.go"],
  [("errors of flush and close", "CSVWriter.Close, RawWriter.Close, SQLiteWriter.Close, PGDumpWriter.Close"), ("errors of the scanner", "Reader.Read"), ("errors are returned", "Processor.Process, Processor.iterateForWriters")],
  [Q("WriteFaults", "2 lines, the disk is full at any byte, CSV, raw, dump, or two of them, transposed or not", lines=2, big=0, step=1),
   Q("WriteFaults", "3 lines of 3000 bytes, the disk is full at any multiple of 500 bytes", lines=3, big=1, step=500),
   B("SQLiteFault", "1 to 3 lines of 3000 bytes, no space or the space of 2 pages"),
   B("NoOutput", "each output in a folder that does not exist"),
   B("ReadFaults", "a failure after any byte of an input, in either pass, 1 or 2 inputs, 1 or 2 workers"),
   B("LongLine", "lines of 34 to 43 bytes, a buffer of 40", buf=40),
   B("Files", "files that do not exist or are empty"),
   Q("CompressedFaults", "20 lines, compressed outputs of each kind or compressed inputs, that end at any eighth", lines=20),
   T("CompressedFaults", "200 lines, the same", lines=200),
   T("WriteFaults", "4 lines of 3000 bytes, the disk is full at any multiple of 100 bytes", lines=4, big=1, step=100)],
  outside="the algorithms of compression (modelled as a framing with errors that are kept until the end), faults of closing, crashes.")

P("P30", "Length limits cut long texts only, and keep columns apart",
  "With a field limit strings within it are unchanged and longer ones are cut to it, or before the character that exceeds it; numbers and booleans are never cut. With a key limit names within it are unchanged and the longer ones are cut to distinct names, without losing a column.",
  ["inputs", "configurations"], "every length around the limit, every set of names with a common start",
  "tests cut one field; the boundary and names that collide after the cut are not covered",
  ["processor.go", "keys.go", "writer.go"],
  [("fields are cut", "writeIterator.setValue"), ("names are cut and kept distinct", "Processor.prepareKey, Processor.limitKey")],
  [B("FieldLimit", "limits 1 to 4, strings of up to 6 symbolic characters, or 3 of several bytes"),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, a limit of fields and any of 22 options", a=11, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, a limit of names and any of 22 options", a=7, lines=2, out=0),
   Q("KeyLimit", "limits up to 8, up to 6 keys with a common start (some of characters of several bytes), with and without short names", max=8),
   Q("KeyLimitMany", "10 to 14 columns, a name of digits that can be the one of a cut column, 3 orders", **{"from": 7, "more": 5}),
   T("KeyLimit", "limits up to 12", max=12)],
  outside="limits above these, other characters.")

P("P21", "Values inside of strings are extracted, the strings stay as they are",
  "With extraction a string that holds a JSON document or a URL has columns for the values in it, below the path of the string, nested ones included. The string itself, strings that hold neither, and all other keys are as without extraction; listed columns have the same values as found ones.",
  ["inputs", "configurations"], "every string, at every place, over lines where it holds different things",
  "tests extract from a few strings; incomplete documents, and keys whose strings hold different things in different lines, are not covered",
  ["extract.go", "url.go", "flattener.go", "processor.go", "keys.go"],
  [("looks for JSON and URLs in strings", "FastWalker.WalkFastJSON, urlExtractor.extract, jsonExtractor.extract"), ("expressions of keys", "Processor.keyExtractor")],
  [Q("Extract", "1 line with a string of 13 kinds, by flag, by expressions, or both, found and listed columns", lines=1),
   B("ExtractTransposed", "strings at 3 places of elements of a transposed array or object, JSON or URL, extracted everywhere, by an expression that matches their parts, or not"),
   Q("ExtractAny", "a string of any character before, within and after a document, or in a URL", len=1),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, extraction and any of 22 options", a=17, lines=2, out=0),
   T("Extract", "2 lines", lines=2),
   T("ExtractAny", "2 characters", len=2)],
  outside="longer strings, other forms of URLs.")

P("P22", "Times are written in the format and zone asked for",
  "A string at a key whose time is parsed is written as the same instant in the output format and zone. Values that are not such times are shown and not lost, and other keys are not changed.",
  ["inputs", "configurations"], "every time, in every zone, at every kind of key",
  "tests parse one time in one zone",
  ["processor.go", "pg_dump_writer.go", "config.go"],
  [("times are parsed and written", "writeIterator.setValue"), ("column types of times", "PGDumpWriter.createTable")],
  [B("ParseTime", "4 layouts of input, 3 of output, 4 zones, hours around midnight, symbolic seconds and fractions, 5 other values, 4 kinds of columns"),
   B("TimePlaces", "prefix, renamed, merged, extracted, limited and not parsed keys, times and strings that are not"),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, times and any of 22 options", a=16, lines=2, out=0),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, the same in SQLite", a=16, lines=2, out=2),
   B("PGTimes", "2 lines with every pair of 4 values")],
  outside="zones with changes over the year, which need the database of zones, other layouts and dates.")

P("P25", "The raw output is the values as they are with the delimiter between them",
  "The raw output has a line per input line, which is the values of its columns in order, unchanged and with the delimiter between them, without a header line. Transposed keys have a raw output of their own in the same form.",
  ["inputs", "configurations"], "every value and every delimiter",
  "tests have two fixed raw outputs",
  ["raw_writer.go", "processor.go", "writer.go"],
  [("values are joined", "RawWriter.writeRow"), ("rows of transposed keys", "RawWriter.ReceiveRow")],
  [Q("Raw", "2 lines, 3 delimiters, a value of 6 kinds with any printable character, with or without a transposed key", lines=2, len=1),
   Q("Reference", "2 lines of 10 kinds with the reference of the outputs, any 2 of 22 options", a=-1, lines=2, out=1),
   T("Raw", "3 lines", lines=3, len=1),
   T("Raw", "1 line with a string of 2 characters", lines=1, len=2)],
  outside="values with line ends, which the raw form does not escape; bytes above 0x7e.")

P("P28", "Each output of a run is the same as if it was the only one",
  "With several outputs in one run, each has the same content as in a run that has only this one.",
  ["configurations", "inputs"], "every set of options, every document, every pair of outputs",
  "tests check one output at a time, and the rows are shared by the writers",
  ["writer.go", "processor.go", "csv_writer.go", "raw_writer.go", "sqlite_writer.go", "pg_dump_writer.go"],
  [("rows are passed to every writer", "Writer.ReceiveRow"), ("columns are set for every writer", "Writer.SetupKeys")],
  [Q("Together", "2 lines of 5 kinds under 8 configurations, each of 4 outputs alone and all of them", lines=2),
   T("Together", "3 lines", lines=3)],
  outside="subsets of the outputs of a run between one and all.")

P("P29", "An expression with stars matches one segment in the place of each star",
  "A key matches an expression with stars when it has the same segments, and one segment of any text in the place of each star; a replacement refers to them in order. The same holds for inclusion, exclusion and replacement.",
  ["inputs", "configurations"], "every key and every expression with stars",
  "tests have a few fixed expressions",
  ["regex.go", "keys.go", "config.go"],
  [("stars are translated", "PrepareRegex"), ("keys are matched", "Processor.prepareScannedKeys, Processor.prepareKey")],
  [B("StarKeys", "keys and expressions of 2 segments of 8 kinds, 4 of them with characters that are special in expressions", segs=2)],
  outside="longer keys, keys with + ? ( ) | and backslash, which are not escaped.")

P("P27", "Listings and schema describe exactly the documents",
  "The JSON schema that is shown admits every document and has only types and properties that some document has. The listings of keys have exactly the columns of the output in their order, with the types of their values; with a selection, the keys that are not selected are listed after them as skipped.",
  ["inputs"], "every set of documents, nested and with shapes that disagree between lines",
  "tests show the listings of one file",
  ["processor.go", "keys.go", "flattener.go"],
  [("types of keys are collected", "Processor.scanKey, Type.Update"), ("tree of keys", "KeyHierarchy.Hierarchy, KeyHierarchy.Add, Processor.showKeysInfo")],
  [Q("Schema", "2 documents, values of 9 shapes, nested by 2 and 1 levels", lines=2, depth=2, depth2=1),
   Q("Schema", "3 documents of scalars", lines=3, depth=0, depth2=0),
   Q("Listings", "2 documents, values of 9 shapes, nested by 1 level", lines=2, depth=1),
   Q("Listings", "3 documents of scalars", lines=3, depth=0),
   Q("Deep", "schema of 2 documents nested up to 12 levels, 5 kinds of values at the end, 3 orders of objects and arrays", depth=12, what=1),
   Q("Deep", "listings of the same", depth=12, what=2),
   Q("ManyTypes", "schema of 4 documents with values of any types in one property", lines=4, what=1),
   Q("ManyTypes", "listings of the same", lines=4, what=0),
   Q("ListNames", "schema with a key of any character, 4 shapes", len=1, what=1),
   Q("ListNames", "listings of the same", len=1, what=0),
   B("ListSelected", "listings with 7 selections of 5 keys"),
   T("Deep", "schema of 2 documents nested up to 30 levels", depth=30, what=1),
   T("Deep", "listings of 2 documents nested up to 30 levels", depth=30, what=2),
   T("Schema", "2 documents, nested by 2 levels", lines=2, depth=2, depth2=2),
   T("Listings", "2 documents, nested by 2 levels", lines=2, depth=2)],
  outside="the listings of listed keys without an expression (keys are not scanned then, and have no types), documents nested deeper than this.")

P("P31", "Outputs are told by the extensions of their names",
  "Each of the output names goes to the writer of its extension, in any case and with an extension of compression, and the first of a kind is taken. Names given by an option of their own are not replaced.",
  ["configurations"], "every list of output names",
  "the tests have none for it",
  ["flags.go"],
  [("names are matched by extension", "Flags.PrepareOutput")],
  [Q("Outputs", "up to 3 names of 8 kinds with a symbolic character or the start of another one, with or without a name given by option", outputs=3),
   T("Outputs", "up to 4 names", outputs=4)],
  outside="names of input files.")

P("P33", "The limit of memory delays the run, and changes nothing else",
  "Whatever memory is in use at each moment, the run ends, and its output is the same as without a limit.",
  ["fault_sequences", "schedules"], "every history of memory in use, below and above the limit, for every interleaving with the watcher",
  "tests never reach the limit, and a run that never ends shows only above it",
  ["processor.go", "reader.go"],
  [("the watcher requests a delay", "Processor.watchMemUsage"), ("the reader makes a delay", "Reader.Read")],
  [Q("Memory", "2 lines, memory below or above the limit at each of them and in each pass, 1 or 2 workers", lines=2),
   T("Memory", "3 lines", lines=3)],
  outside="amounts of memory that the run itself uses.")

P("P34", "Options combine as each of them alone says",
  "The columns, their order and names, the rows and the additional tables are those that the documentation of each option says, applied one after another, for any two options and any documents. This holds for every form of the output.",
  ["configurations", "inputs"], "every pair of options, and every sequence of documents whose shapes disagree",
  "tests set one or two options on fixed files; an option is a branch in code that other options share",
  ["keys.go", "processor.go", "writer.go", "flattener.go", "reader.go", "csv_writer.go"],
  [("columns are found, selected, named and ordered", "Processor.prepareScannedKeys, Processor.iterateIncludeKeys, Processor.prepareKey"), ("values are found and written", "Processor.iterateForWriters, writeIterator.setValue, writeIterator.complete")],
  [Q("Reference", "2 lines of 10 kinds, every pair of 22 options except those without a meaning, against a reference of what each option says, CSV", a=-1, lines=2, out=0),
   T("Reference", "3 lines of 10 kinds, option 0 and any other", a=0, lines=3, out=0, budget=200),
   T("Reference", "3 lines of 10 kinds, option 3 and any other", a=3, lines=3, out=0, budget=200),
   T("Reference", "3 lines of 10 kinds, option 5 and any other", a=5, lines=3, out=0, budget=200),
   T("Reference", "3 lines of 10 kinds, option 8 and any other", a=8, lines=3, out=0, budget=200),
   T("Reference", "3 lines of 10 kinds, option 10 and any other", a=10, lines=3, out=0, budget=200),
   T("Reference", "3 lines of 10 kinds, option 18 and any other", a=18, lines=3, out=0, budget=200)],
  outside="pairs that exclude each other or have no defined meaning together, three options at a time, other documents than those of the pool.")

P("P35", "Compressed inputs and outputs have the same content as plain ones",
  "An input that is compressed with gzip or zstd, by its name or as declared by its reader, gives the output of its content. An output whose name ends with .gz or .zst, those of transposed keys included, is a complete compressed file of the content that it would have without compression.",
  ["inputs", "configurations"], "every combination of formats and compressions of inputs and outputs, for every content",
  "the tests have one compressed input; a writer that is not closed, or chosen for another name, leaves a file that cannot be read",
  ["reader.go", "writer.go", "csv_writer.go", "raw_writer.go", "pg_dump_writer.go"],
  [("the reader of an input is chosen", "Reader.session"), ("the writer of an output is chosen", "newFileWriter, NewPGDumpWriter"), ("writers are closed", "CSVWriter.Close, RawWriter.Close, PGDumpWriter.Close")],
  [Q("Compressed", "1 to 2 lines of 5 kinds, CSV, raw or dump, transposed or not, 3 compressions of the input as file or reader in 1 or 2 parts, 3 of the output, 4 forms of its name", lines=1),
   Q("CompressedFaults", "20 lines, files that end at any eighth", lines=20),
   T("Compressed", "1 to 3 lines", lines=2)],
  outside="the algorithms of compression, which are modelled as a framing (the native validation and replays use the real ones); parts of inputs that are concatenated.")

P("P36", "The command line and the configuration set what they name",
  "The program with arguments and a configuration (JSON in an argument; a JSON, YAML or JSON5 file) gives the output that these settings are documented to have, for the inputs that are named, in the outputs that are named, or by default in the first input with .csv added. It does not end with success if the configuration cannot be decoded, an expression in it is not valid, or an input or an output cannot be used.",
  ["configurations", "inputs"], "every combination of arguments and settings, in every form of configuration",
  "tests set the fields of structures and decode one file or two; names of flags and settings, their defaults and the choice of a decoder are not seen by them",
  ["app.go", "flags.go", "config.go", "processor.go"],
  [("flags and defaults", "Flags.Register, Flags.Parse, Flags.Inputs, Flags.PrepareOutput"), ("decoding of the configuration", "loadConfig"), ("the program", "Main")],
  [Q("CommandLine", "2 input files, each of 22 options and each of 4 more settings, 6 forms of configuration inline or in a file, 5 ways to name outputs, 3 to name inputs", a=0),
   B("DefaultOutput", "12 ways to name outputs or listings, 3 ways to select keys, 4 ways to name inputs"),
   B("CommandLineErrors", "11 kinds of configurations, inputs and outputs that cannot be used"),
   T("CommandLine", "any 2 of 22 options", a=-1, budget=400)],
  outside="the rest of YAML and JSON5 (the parts that are used are modelled, the native validation and replays use the real decoders); flags after the first file name, a time zone that does not exist (it is logged, and not used), profiles, -version and -dbg-loop-input-size.")

P("P38", "csvequals says that files are equal only when they are",
  "The program csvequals ends with success and says that two CSV files are equal exactly when they have the same column names and as many rows, and each row of one has the values of the same row of the other under the same names, in whatever order the columns are (names are unique in a file). It does not end with success for files that cannot be opened or read as CSV.",
  ["inputs"], "every pair of files",
  "the program has no tests",
  ["cmd/csvequals/main.go"],
  [("reading and comparison of rows", "main"), ("differences of two rows", "mapDiff")],
  [Q("CSVEquals", "files of 2 columns and up to 1 row, values of any byte, also empty, with a quote, or of 2 bytes; another name, a column more, a value too many or too few, an empty file; columns in any order; LF or CRLF", cols=2, rows=1, covers=["files are equal"]),
   Q("CSVEqualsRows", "12 rows that differ in none or one value, in the first and last 4 rows", lines=12),
   B("CSVEqualsErrors", "5 kinds of files that cannot be read, as the first, the second, or both"),
   T("CSVEquals", "the same with up to 2 rows", cols=2, rows=2, budget=300),
   T("CSVEquals", "the same with 3 columns and 1 row", cols=3, rows=1, budget=200),
   T("CSVEqualsRows", "400 rows", lines=400, steps=200_000_000)],
  outside="file names that are the same, columns of the same name, the text that is shown for a difference, values with a carriage return (CSV does not keep those before a line feed), and the progress display.")

NA("P37", "The progress that is shown is true",
   "The bytes, lines, and percentage that the progress display shows are those that have been processed, and showing it does not delay or change the run.",
   ["inputs", "schedules"], "every input and every moment of the run",
   "tests do not look at the display",
   ["processor.go", "reader.go"],
   [("metrics are given to the display", "Reader.session, fileWriter.Metrics")],
   "the values that are shown are computed and timed inside of bool64/progress from wall-clock time and tickers, of which the executor has a stub; there is no output of flatjsonl itself to assert over.")

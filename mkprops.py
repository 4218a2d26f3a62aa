#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Filter placeholders and parameters always correspond one to one",
  "For every sequence of calls on a filter constructor and every starting position, the produced SQL refers to exactly the placeholders that follow that position, each exactly once and in ascending order, and the parameter list holds exactly the corresponding values given by the caller (the search text in its to_tsquery form, the members of an IN list one by one, an ANY list as one array). Rendering has no side effects: rendering again, at another position, or through the count filter in between, yields the same SQL modulo the position and the same parameters.",
  ["inputs","histories"],"all sequences of constructor calls (comparisons, IN, ANY, text search, AND/OR with and without nesting, ordering, paging), all starting positions and all interleavings of renderings with further calls",
  "TestFilter renders about 50 fixed filters once each, at two positions; it never renders twice, never mixes several multi-parameter predicates, and never renders between calls.",
  ["filter/filter.go","filter/convenience.go","gosql.go"],
  [("per-node write with running position counter","filter/filter.go: sqlWriter, sqlBinary.write, sqlTextSearch.write, filter.ToSQL"),("IN / ANY nodes","filter/convenience.go")],
  ["Filter().ToSQL(pos)","CountFilter().ToSQL(pos)"])

p("C02","A filter's WHERE clause means what the calls that built it say",
  "For every sequence of predicate, AND and OR calls with arbitrary nesting, the WHERE clause is well-formed SQL that PostgreSQL accepts, and it selects exactly the rows that the call sequence describes: consecutive predicates are joined by AND unless an OR was requested, nested groups are evaluated as units, and comparisons with nil, true and false are the IS NULL / IS TRUE / IS FALSE tests. Supplying no predicate selects every row.",
  ["inputs","histories"],"all call sequences up to a depth bound over a small alphabet of columns, operators and values, evaluated on every row of a table holding all combinations of the column values",
  "The existing tests compare a few hand-written strings; none of them is executed by a database, and none covers OR/AND mixed with groups beyond the listed shapes.",
  ["filter/filter.go","filter/convenience.go"],
  [("implicit AND insertion","filter/filter.go: Constructor.canAndOr, Col, TextSearch, And, Or"),("node rendering","filter/filter.go: filter.ToSQL")],
  ["Filter().ToSQL(pos) executed by PostgreSQL"])

p("C03","FQL filters are translated faithfully and cannot inject SQL",
  "For every input string, unmarshalling it as FQL either returns an error or produces a filter that selects exactly the rows the FQL expression describes (';' is AND, ',' is OR, parentheses group, '!' negates, null/booleans become IS tests, value converters are applied). The SQL text only ever contains mapped column names, fixed keywords and placeholders, never any text of the input, whose literals travel only as parameters. In strict mode an unmapped key is reported as unknown and never silently dropped.",
  ["inputs"],"all FQL expressions up to a size bound over a small key/value alphabet, and all short strings over the FQL character set, in both strict and lenient mode",
  "The tests list 17 FQL strings; malformed strings, unknown keys in lenient mode, deep nesting and hostile text are not tried and the SQL is never executed.",
  ["filter/filter.go"],
  [("token loop and column map lookup","filter/filter.go: Constructor.UnmarshalFQL"),("operator table","filter/filter.go: cmpop2string")],
  ["UnmarshalFQL error","Filter().ToSQL(pos)"])

p("C04","Sort strings produce exactly the requested, vetted ORDER BY",
  "For every comma separated sort string, the ORDER BY clause lists exactly the mapped columns of its non-empty items, in order, descending for those preceded by a hyphen and ascending otherwise, with the NULLS LAST position only for nullable columns; empty items are ignored. No text of the input reaches the SQL, and in strict mode the first unmapped key is reported as unknown.",
  ["inputs"],"all strings up to a length bound over the alphabet of keys, '-', ',' and foreign characters, strict and lenient, and after any earlier ordering calls",
  "Five fixed sort strings are tested; repeated commas, lone hyphens, repeated hyphens, unknown keys in the middle and appended sorts are not.",
  ["filter/filter.go"],
  [("hand-written scanner","filter/filter.go: Constructor.UnmarshalSort"),("clause builder","filter/filter.go: OrderBy, OrderByV2")],
  ["UnmarshalSort error","Filter().ToSQL(pos)"])

p("C05","Limit, offset, page and count filters window rows exactly",
  "For every sequence of limit, offset and page calls the filter's LIMIT and OFFSET are those a reference pager computes: non-positive arguments are ignored, later calls win, and page n starts after (n-1) times the current limit. The count filter of a constructor has exactly the same WHERE clause and parameters as its ordinary filter and never an ORDER BY, LIMIT or OFFSET clause, so counts are independent of paging and ordering.",
  ["inputs","histories"],"all sequences of paging, ordering and predicate calls up to a depth bound with boundary integer arguments",
  "Only one fixed limit/offset/page combination each is tested, and the count filter is not tested at all.",
  ["filter/filter.go"],
  [("paging state","filter/filter.go: Limit, Offset, Page"),("count rendering","filter/filter.go: countFilter.ToSQL")],
  ["Filter().ToSQL(pos)","CountFilter().ToSQL(pos)"])

p("C06","Every Go value is written to PostgreSQL as the value it denotes",
  "For every Go value of a type supported by a value writer of the pgsql package, the driver value it produces is accepted by PostgreSQL as the documented type and denotes exactly that value: the same elements in the same order, every byte of text including quotes, backslashes, braces, commas, whitespace, empty strings and the word NULL, the same number, instant to the microsecond, address, bits, bounds and geometry. Distinct Go values never become the same database value unless the database type itself cannot tell them apart.",
  ["inputs"],"all values up to a size bound (lengths, nesting, alphabets of special characters and boundary numbers) of every Go type of every writer",
  "Each writer is tested with about one to three hand-picked values; separators inside text, empty elements, fractional seconds, zones, negative and boundary numbers are not covered.",
  ["pgsql/convert_util.go","pgsql/textarr.go","pgsql/hstore.go","pgsql/hstorearr.go","pgsql/int4range.go","pgsql/timestamptzarr.go","pgsql/varbit.go"],
  [("text quoting","pgsql/convert_util.go: pgAppendQuote1, pgAppendQuote2"),("XxxFromYyy constructors","pgsql/*.go: Value methods")],
  ["driver.Valuer.Value()","SELECT $1::type on PostgreSQL"])

p("C07","Every PostgreSQL value is read back as the Go value it denotes",
  "For every value PostgreSQL can send of a type supported by a value reader of the pgsql package (one-dimensional arrays with default bounds), reading it into the Go type yields exactly the elements, bytes, numbers, instants, addresses, bounds and geometry of that value, or an error if the Go type cannot represent it, and never panics. Writing a Go value and reading it back with the matching reader gives an equal value.",
  ["inputs"],"all database values up to a size bound for every reader, in the text format the server produces, including quoted, empty and NULL elements, negative, fractional, exponent and boundary numbers",
  "Each reader is tested with a couple of literals; quoting, escapes, empty arrays, NULL elements, exponents, infinite bounds and multi-element combinations are mostly absent.",
  ["pgsql/convert_util.go","pgsql/textarr.go","pgsql/hstorearr.go","pgsql/patharr.go","pgsql/tsvector.go"],
  [("text parsers","pgsql/convert_util.go: pgParseXxx"),("XxxToYyy constructors","pgsql/*.go: Scan methods")],
  ["sql.Scanner.Scan(src) with text produced by PostgreSQL"])

p("C08","NULL is preserved, and reads do not depend on earlier contents",
  "Writing a nil slice or map (for JSON and XML: a nil interface; typed nils are what encoding/json and encoding/xml make of them) stores SQL NULL, while an empty but non-nil one stores an empty value, never NULL. Reading SQL NULL leaves the destination at its zero value and reading any value leaves exactly that value, whatever the destination held before, so scanning a sequence of rows into one variable gives the same results as scanning each row into a fresh one.",
  ["inputs","histories"],"all pairs (earlier content, scanned value) over a set holding NULL, empty, short and long values, for every reader, and nil/empty inputs for every writer",
  "The tests always scan once into a fresh zero variable, so a reader that forgets to reset or appends to the old content passes.",
  ["pgsql/hstore.go","pgsql/cidr.go","pgsql/daterange.go","pgsql/jsonarr.go","pgsql/textarr.go"],
  [("nil branches","pgsql/*.go: Scan and Value methods")],
  ["destination variable after Scan","Value() result"])

p("C09","Values never share memory with driver buffers or the caller's data",
  "After a value was read, its contents never change when the driver reuses the buffer it was read from, and reading never modifies that buffer. Writing a value never modifies the caller's data, later changes of the caller's data do not change a driver value already produced, and producing it twice gives the same result.",
  ["histories","inputs"],"all readers and writers over all values of the small domain, followed by every overwrite of the shared buffer or source",
  "Tests look at the result before the driver touches its buffer again, so a missing copy is invisible to them.",
  ["pgsql/byteaarr.go","pgsql/json.go","pgsql/bpchar.go","pgsql/convert_util.go"],
  [("copying in Scan methods","pgsql/*.go"),("fresh buffers in Value methods","pgsql/*.go")],
  ["destination variable after the source buffer was overwritten"])

p("C10","Every accepted declaration yields compiling code with valid SQL",
  "For every query or filter declaration the tool accepts against a database, the generated file is well-formed formatted Go that compiles with its package, and each SQL string its methods issue is accepted by that database with exactly as many, and suitably typed, parameters as the arguments passed along; result columns and scan destinations agree in number and order. The tool itself never panics on a declaration: it either accepts it or returns an error.",
  ["programs","configurations"],"all declarations composed from the supported features (query kinds, single/slice/iterator records, where/join/on-conflict blocks, returning/result/rows-affected, filters, limits, default/force/optional, options such as identifier quoting) up to a combination bound",
  "The generator tests compare about 140 fixed outputs with golden files; the golden files are never compiled together nor executed, and most pairs of features never occur together.",
  ["internal/generator/generator.go","internal/analysis/analysis.go","internal/postgres/postgres.go"],
  [("SQL and Go AST construction","internal/generator/generator.go"),("argument and column lists","internal/generator/generator.go: buildQueryInput, buildQueryOutput")],
  ["generated source","driver-level Prepare/Exec/Query calls"])

p("C11","Generated SELECT queries return exactly the declared rows",
  "For every accepted SELECT, count, exists and not-exists declaration, executing the generated method returns exactly the rows that the declaration describes over the current contents of the database: every where item (comparison, set, pattern, null, range and quantified predicates, nesting, and/or), join, ordering, limit, offset and filter has the meaning its tag states for all argument values, and each field receives the value of its own column. Default limits and offsets apply only when the field is zero.",
  ["programs","inputs"],"all where/join/order/limit declarations up to a size bound, with all argument values from a small domain, on a table holding all combinations of the column values including NULLs",
  "Generated queries are never executed by any existing test.",
  ["internal/generator/generator.go","internal/analysis/analysis.go","internal/postgres/postgres.go"],
  [("where clause construction","internal/generator/generator.go: makeSQLBoolValueExprList, buildSQLWhereClause"),("predicate parsing","internal/analysis/analysis.go: parsePredicateExpr, analyzeWhereStruct")],
  ["rows returned by the generated method"])

p("C12","Generated writes change exactly the declared rows and columns",
  "For every accepted INSERT, UPDATE and DELETE declaration, executing the generated method brings the table from its current contents exactly to the contents that the declaration describes, for single records and for slices of any length: only the writable (or forced) columns are set, each from its own field, defaults and empty-as-NULL options are honoured, only rows matching the primary key, where block, filter or join change, and conflict handling ignores or updates exactly the named columns. Returned rows and affected-row counts are those of the change.",
  ["programs","inputs","histories"],"all write declarations up to a feature bound with all small record sets, executed on all small table states, including repeated executions",
  "Generated writes are never executed by any existing test; golden files only fix the text for one shape of each feature.",
  ["internal/generator/generator.go","internal/analysis/fieldmode.go","internal/postgres/postgres.go"],
  [("write column selection","internal/postgres/postgres.go: typeCheckQueryRelField, skipFieldInsert, skipFieldUpdate"),("VALUES construction","internal/generator/generator.go: buildQueryStringForSliceInsertOrUpdate")],
  ["table contents after the generated method","RETURNING output"])

p("C13","Generated methods deliver results and errors correctly under any fault",
  "For every accepted declaration and every point at which the database can fail (sending the query, any row, decoding a row, the end of rows, reporting affected rows) or an iterator can refuse a row, the generated method returns that failure, passed through the declared error handler exactly once with the query's own data, and success otherwise. Rows are delivered in order, each after its after-scan hook ran exactly once, none after a failure, and every result set is closed so that no connection stays occupied.",
  ["fault_sequences","programs"],"all result shapes (single, slice, array of pointers, iterator interface and function, rows affected, no output) times handlers times hooks, with a failure injected at every driver interaction for 0 to 3 rows",
  "No test executes generated code, and error paths such as a failure at the second row or at the end of the rows are therefore never run.",
  ["internal/generator/generator.go"],
  [("result code","internal/generator/generator.go: buildQueryResultRowScan, buildQueryResultRowsScan, buildQueryResultRowsAffected"),("error returns","internal/generator/generator.go: makeErrorReturnStmt, makeErrorIfStmt")],
  ["error returned by the generated method","calls seen by handler, hook, iterator and fake driver"])

p("C14","Generation is deterministic and independent of what was processed before",
  "The code generated for a declaration depends only on the declaration, the configuration and the database: running again, processing other files, packages or types before it, in any order, or having reported an error for another declaration before, neither changes the generated text nor turns acceptance into an error or an error into acceptance. A file's output is that of its declarations in source order.",
  ["histories","programs"],"all orders and subsets of processing up to a bound over declarations that share record types, relations and packages",
  "Each test analyzes one type in a fixed order, so the process-wide record-type and relation caches are only ever seen in one history.",
  ["internal/analysis/analysis.go","internal/postgres/postgres.go","internal/generator/generator.go"],
  [("record type cache","internal/analysis/analysis.go: relTypeCache, analyzeRelType"),("relation and catalog caches","internal/postgres/postgres.go: loadRelation, loadCatalog"),("sorted map output","internal/generator/generator.go: buildFilterColumnMap, newImportDecl")],
  ["bytes written by the generator","errors returned"],
  state=[("relTypeCache","analyzed record types kept for the whole process","internal/analysis/analysis.go"),("relation cache","loaded relations per database","internal/postgres/postgres.go")])

p("C15","Illegal or ambiguous declarations are rejected, legal ones accepted",
  "A declaration that combines features which exclude each other or do not apply to its kind of query (two row qualifiers, two result targets, two conflict targets or actions, a conflict update without target, a write directive on a select, limit or order on a write, a repeated single-use field, a qualifier on a slice update, an iterator as write input, a duplicate relation name or alias, a malformed or unknown-qualified column reference, an update or delete of all rows without the explicit All directive) is always reported as an error and never generates code. A declaration within the documented rules is never rejected for such a reason.",
  ["programs"],"all combinations of query kind, record shape and up to three features or blocks, in every field order",
  "About 100 hand-written bad structs each violate one rule in one position; combinations and field orders are not enumerated, and acceptance of legal combinations is not systematically checked.",
  ["internal/analysis/analysis.go","internal/analysis/error.go","internal/postgres/postgres.go"],
  [("legality checks","internal/analysis/analysis.go: analyzeQueryStruct and the analyzeXxx functions"),("all-rows safeguard and conflict actions","internal/postgres/postgres.go: typeCheckQueryAllDirective, typeCheckQueryOnConflictStruct")],
  ["error returned by the analysis"])

p("C16","The type checker accepts only columns and types that work at run time",
  "Whenever the type checker accepts a field for a column (for reading, writing, or as a query argument), the generated code can carry every ordinary value of that Go type to and from a column of that database type without a conversion error and without changing the value. References to relations, columns, indexes, constraints and functions that do not exist, columns that are ambiguous, and predicates or functions whose operand types have no such operator in the database are rejected.",
  ["programs","inputs"],"the full matrix of column types times Go field types times use (insert, update, select, where argument), and all wrong-reference variants, executed against the database with boundary values",
  "Tests assert accept/reject for selected pairs but never run the resulting query, so an entry naming the wrong converter or a wrong compatible type goes unnoticed.",
  ["internal/postgres/compatibility.go","internal/postgres/postgres.go"],
  [("compatibility table","internal/postgres/compatibility.go"),("field checks","internal/postgres/postgres.go: typeCheckFieldRead, typeCheckFieldWrite, typeCheckFieldConditional")],
  ["acceptance by the checker","result of running the generated code"])

p("C17","Configuration: flags override the file, the file overrides defaults",
  "For every option and every combination of command line flags and configuration file contents, the effective value is the one given by flag if a flag was given, else the one in the file if the file sets it, else the default; setting one option never affects another. The configuration file used is the one named explicitly, else the one in the root of the enclosing git project, and a malformed value is reported as an error and never silently ignored.",
  ["configurations"],"for each option all combinations of absent/set by flag/set by file with distinct values, null and malformed values, all pairs of options, and all small directory layouts",
  "The config package has no tests.",
  ["internal/config/config.go","internal/config/types.go"],
  [("set-once option types","internal/config/types.go: Set and UnmarshalJSON methods"),("project root search","internal/config/config.go: ParseFile, examineDir")],
  ["Config values after ParseFlags and ParseFile","Validate errors"])

p("C18","A tool run writes all outputs or none, and only its outputs",
  "A run of the tool in which any declaration is rejected leaves every file as it was. A successful run writes for each input file with targets exactly one output file, at the path given by the name format in the input's directory, and modifies nothing else; running again with the outputs present succeeds and reproduces them byte for byte; and a run that fails while writing leaves no partial or unformatted output file.",
  ["fault_sequences","configurations","histories"],"all placements of one bad declaration among several files and packages, all write failures at each output, and all run/edit/run histories up to a bound",
  "The command package has no tests; the order 'generate everything, then write' and the cleanup on failure are never exercised.",
  ["internal/command/command.go","internal/config/config.go"],
  [("two phase run","internal/command/command.go: Command.Run"),("output naming and writing","internal/command/command.go: outFilePath, writeOutFile")],
  ["file system contents before and after a run","exit status"])

p("C19","Exactly the selected target types are processed",
  "A run processes exactly those struct types whose names start with Select, Insert, Update, Delete or Filter (in any letter case), declared at package level in files selected by the file and pattern options (all files if none are given) of the working directory, and of its subdirectories only if recursion is on, except those whose documentation carries the ignore directive. Each is processed once, in source order, with its own package.",
  ["programs","configurations"],"all combinations of name case, declaration form (single, grouped), ignore comment placement, file selection, directory nesting and recursion up to a bound",
  "The search package has no tests.",
  ["internal/search/search.go","internal/config/config.go"],
  [("declaration scan","internal/search/search.go: Search, hasIgnoreDirective"),("file selection","internal/config/config.go: FileFilterFunc")],
  ["types and files returned by the search"])

p("C20","Generated filters map public keys and methods to the right columns",
  "For every accepted filter declaration, the generated column map contains exactly one entry for each field that is not excluded, with the key that the configured or overridden tag, separator and base options define and the field's own column (alias-qualified) and, for version 2, its nullability and value converter; the generated methods, named after the fields, add a predicate on that same column, and AND/OR nest. Keys, methods and columns of different fields are never mixed up.",
  ["programs","configurations"],"all record types up to a nesting and field bound, times key tag/separator/base settings, per-field overrides and exclusions, version 1 and 2",
  "Eight golden files cover fixed nesting and settings; the generated code is never run.",
  ["internal/generator/generator.go","internal/analysis/analysis.go"],
  [("key computation","internal/analysis/analysis.go: parseFilterColumnKey, joinFieldTag"),("filter code","internal/generator/generator.go: buildFilterColumnMap, buildFilterMethodsForColumns")],
  ["generated column map and methods when executed"])

p("C21","Parameter lists are contiguous, ordered and exact",
  "For every count and starting position within the limit of 65535 parameters, the value-list helper returns exactly count placeholders, comma separated, numbered consecutively from the first one after the position, and an empty string for none; the table of ordinal parameters holds at index i exactly the placeholder of number i+1.",
  ["inputs"],"all (count, position) pairs up to a bound, all table entries, and all pairs at the upper limit",
  "Neither the helper nor the table has a test.",
  ["gosql.go"],
  [("pre-generated table","gosql.go: OrdinalParameters"),("list helper","gosql.go: InValueList")],
  ["InValueList(num,pos)","OrdinalParameters[i]"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))

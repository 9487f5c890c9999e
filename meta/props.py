"""Properties: (id, title, statement, over, quantifier text, why tests cannot, files, mechanism)."""
C = "syncanysql/compiler.py"
T = "syncanysql/taskers/query.py"
A = "syncanysql/calculaters/aggregate_calculater.py"
W = "syncanysql/calculaters/window_calculater.py"
L = "syncanysql/calculaters/mysql_funcs/logical_funcs.py"
P = []


def p(id, title, statement, over, quant, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


FEW = "The tests run a few fixed statements over one fixed data set; "
p("P01", "WHERE keeps exactly the rows whose condition is true",
  "A SELECT with a WHERE returns exactly the rows of its source for which the condition evaluates to true: none lost, none extra, each as often as the source has it. This does not depend on how the condition "
  "is written, nor on which parts of it the source evaluates and which are evaluated in memory.",
  ["inputs", "programs"], "every table content (including NULL) and every condition built of comparisons, IN, BETWEEN, LIKE, IS NULL, AND, OR, NOT and scalar expressions",
  FEW + "which conjuncts are handed to the source depends on the shape of the whole condition, and NULLs are hardly present.", [C, L],
  [("compile_where_condition splits a condition into source filters and an in-memory rest", C), ("three valued logical functions", L)])
p("P02", "Scalar expressions compute the value SQL defines, NULL included",
  "A scalar expression in the select list evaluates, for every row, to the value SQL defines: arithmetic, comparison, AND/OR/NOT, IF, CASE, COALESCE/IFNULL, IN, BETWEEN, LIKE and their nestings, with NULL propagating as SQL prescribes. "
  "The value of a sub-expression does not depend on what surrounds it.",
  ["inputs", "programs"], "every nesting of the scalar constructs over every combination of NULL, zero, negative, text and empty operands",
  FEW + "nested constructs and NULL operands are combinatorial.", [C, L], [("compile_calculate and the case/if/coalesce compilers", C), ("logical functions", L)])
p("P03", "A join pairs exactly the rows its ON condition selects",
  "LEFT, INNER, RIGHT, CROSS and comma joins return every pair of rows for which the ON condition holds, exactly once; LEFT and RIGHT joins additionally keep every row of the preserved side without partner once, with NULLs for the other side.",
  ["inputs", "programs"], "every content of two or three tables with duplicate, missing and NULL keys; keys of one or two columns or expressions; extra ON conditions; joined derived tables; chains of joins",
  FEW + "duplicate keys, NULL keys, extra conditions and chains interact.", [C, "syncanysql/calculaters/__init__.py"], [("parse_joins / compile_join_column", C), ("row_join calculater", "syncanysql/calculaters/row_calculater.py")])
p("P04", "GROUP BY and aggregates cover each group exactly",
  "A grouped query returns one row for every distinct key among the rows that pass WHERE, and every aggregate in it is computed over exactly the rows of that group. This holds for any mixture of aggregates, "
  "for aggregates inside expressions, and for keys that are expressions or columns of a joined table.",
  ["inputs", "programs"], "every table content, key list and mixture of COUNT, SUM, AVG, MIN, MAX, GROUP_CONCAT, array, bit and JSON aggregates", FEW + "NULL values inside groups and mixtures of aggregates are not reached.",
  [C, A], [("compile_aggregate_column", C), ("aggregate calculaters: aggregate / reduce / final_value", A)])
p("P05", "DISTINCT, COUNT(DISTINCT) and HAVING",
  "SELECT DISTINCT returns every different result row once; COUNT(DISTINCT x) counts the different non-NULL values of its group; HAVING keeps exactly the result rows for which its condition is true.",
  ["inputs", "programs"], "every table content, select list and condition over the output columns", FEW + "HAVING is rewritten in two different places depending on its columns.", [C, A],
  [("compile_distinct_column / compile_having_condition", C), ("distinct aggregates", A)])
p("P06", "ORDER BY sorts, LIMIT and OFFSET cut exactly that order",
  "A result with ORDER BY is sorted by its keys in the given directions, NULL first when ascending; LIMIT and OFFSET then return exactly the requested slice of the complete result. This does not depend on whether the source or the "
  "engine sorts and cuts, nor on joins, grouping, DISTINCT or HAVING in the query.",
  ["inputs", "programs"], "every table content, key list, direction, limit and offset over plain, joined, grouped, distinct, filtered and derived selects", FEW + "ordering and limits move between source and engine depending on the query.", [C, T],
  [("compile_order / optimize_rewrite / limit pipelines", C), ("query tasker limit handling", T)])
p("P07", "UNION concatenates its selects, UNION without ALL removes duplicates",
  "UNION ALL returns the rows of all its selects, matched by position and named by the first select; UNION returns every different row once. A trailing ORDER BY, LIMIT and OFFSET apply to the whole union.",
  ["inputs", "programs"], "2-4 selects of any kind with equal or differing column names", FEW + "only one union statement is run.", [C], [("compile_union", C)])
p("P08", "Subqueries see exactly the rows of their own query",
  "A scalar, IN or EXISTS subquery evaluates to what it would return when run for the current outer row, wherever it appears; a derived table behaves as a table holding its result.",
  ["inputs", "programs"], "uncorrelated and correlated subqueries in select list and WHERE, nested in AND/OR/NOT and expressions, over any contents (empty results included)",
  FEW + "correlated subqueries are rewritten into key lookups, whose correctness depends on key multiplicities.", [C, "syncanysql/calculaters/__init__.py"],
  [("parse_subquery / compile_query_condition", C), ("execute_query_tasker calculater", "syncanysql/calculaters/query_tasker_calculater.py")])

p("P09", "Window functions see exactly their partition, in its order",
  "A window function returns, for every result row, the value SQL defines over the rows of the same partition in the window's order: ranks, neighbours and running aggregates never mix rows of different partitions, "
  "whatever other windows the query has, and adding windows does not add, drop or change rows.",
  ["inputs", "programs"], "every table content and every mixture of window functions, partition keys and orders in one query, over tables, joins and derived tables", FEW + "windows of one query share state and interact; keys with NULLs and several order keys are not reached.",
  [C, W], [("compile_window_column", C), ("window calculaters", W)])
p("P22", "Functions of the SQL library compute what they are documented to compute",
  "Every supported string, regular expression, number and bit function returns, for every argument, the value MySQL's function of that name returns, NULL for NULL arguments included, wherever the call stands.",
  ["inputs"], "every argument: NULL, empty and non-ASCII text, negative, zero and out of range positions and counts, nested calls", FEW + "each function is called once or twice with ordinary arguments.",
  ["syncanysql/calculaters/mysql_funcs/string_funcs.py", "syncanysql/calculaters/mysql_funcs/number_funcs.py", "syncanysql/calculaters/mysql_funcs/regexp_funcs.py"], [("mysql function library", "syncanysql/calculaters/mysql_funcs")])
p("P23", "JSON functions and nested columns read and change documents as documents",
  "The JSON functions and GET_VALUE give, for a document held as JSON text or as an object, what is at the path (NULL when nothing is), the document with exactly the places at the paths set or removed, its keys, length, depth and text; "
  "no function changes the document of the table it reads.",
  ["inputs"], "every document (nested, empty, with repeated, quoted and non-ASCII keys, in any layout, or no document at all), every path (keys, quoted keys, indexes, wildcards) and placement of the call",
  FEW + "documents are few and shallow, paths exist, and a changed source row only shows in a later read.",
  ["syncanysql/calculaters/mysql_funcs/json_funcs.py", C], [("json functions", "syncanysql/calculaters/mysql_funcs/json_funcs.py"), ("GET_VALUE and nested columns", C)])

D, I, S_, X = "syncanysql/taskers/delete.py", "syncanysql/taskers/into.py", "syncanysql/taskers/set.py", "syncanysql/executor.py"
p("P11", "INSERT changes its target exactly as its mode says",
  "INSERT INTO t appends every row of its select (or VALUES list), once each; with an output type, U updates exactly the rows whose key is among the new rows, UI also appends the others, UDI also deletes the rows of the select's range that are "
  "no longer among them, DI replaces the rows of that range. No other row and no other table changes, and the tables the select reads are left as they were, also later.",
  ["inputs", "histories"], "every content of source and target (empty, equal, overlapping keys), every select, mode (explicit or via @use_output_type) and sequence of inserts",
  FEW + "modes only differ on overlapping contents and later statements reveal shared or stale rows.", [C, T, "syncanysql/taskers/query.py"], [("compile_insert_into", C), ("output type and schema of a tasker", T)])
p("P12", "DELETE removes exactly the rows its condition selects",
  "DELETE FROM t removes every row of t for which its WHERE holds (every row without WHERE) and nothing else, in no other table; a condition it cannot evaluate is refused before anything is deleted.",
  ["inputs", "histories"], "every table content (including NULL and duplicate keys) and every supported condition, with constants, variables and subqueries, in sequence with inserts",
  FEW + "a lost conjunct deletes too much, which only shows on tables that have such rows.", [C, D], [("compile_delete", C), ("delete tasker", D)])
p("P13", "Statements act in order; a failing script does exactly what preceded the failure",
  "The statements of a script act one after another, each on the state the ones before it left. A script one of whose statements cannot be compiled does nothing; when a statement fails while running, everything before it has taken effect, nothing after it has, "
  "the error is raised to the caller, and the engine remains usable: later scripts behave as if the rest had never been submitted.",
  ["histories", "fault_sequences"], "every sequence of statements with a failing one at any position, followed by further scripts", FEW + "no test lets a statement fail.", [X, "syncanysql/__init__.py"], [("Executor.run / execute / __exit__", X), ("compilation of the whole script first", X)])
p("P14", "A WITH name is its query, for one statement only",
  "A name defined by WITH stands for the rows of its query wherever the statement uses it, also in later definitions and several times; under the column names its column list gives, and after RECURSIVE with the rows its second part makes from each row it already has, until none is new; it hides a table of the same name for that statement only, and leaves no trace: no table is created, changed or emptied.",
  ["inputs", "histories"], "every number of definitions reading tables, each other and themselves, column lists, names equal to existing tables, statements before and after", FEW + "name clashes and what later statements see are not tested.", [C], [("parse_with / compile of CTE taskers", C)])
p("P16", "A variable has the value its last assignment gave it, where it is used",
  "Wherever a statement uses @v (select list, WHERE, IN, CASE, INSERT, DELETE, subqueries) it sees the value the last executed assignment gave it: SET of an expression or subquery, SELECT .. INTO, or := within the same select, row by row; NULL when nobody assigned it.",
  ["inputs", "histories"], "every sequence of assignments and uses within and across scripts, of numbers, text, NULL and lists", FEW + "scripts are compiled before they run, so a value may be taken too early; only orders that differ reveal it.",
  [C, I, S_, "syncanysql/calculaters/env_variable_calculater.py"], [("compile of Parameter / value_getter", C), ("into tasker", I)])
p("P18", "Contexts have their own variables and share the data",
  "A variable assigned in one context of an engine is seen by that context only, one assigned in the engine by all contexts that do not have their own, one assigned with SET global by all that see no nearer one; tables are shared. A script failing in one context leaves the others as they were.",
  ["histories"], "every interleaving of scripts over an engine and several contexts", FEW + "a single context is used.", [X, "syncanysql/__init__.py", "syncanysql/config.py"], [("EnvVariables parents", X), ("ScriptEngine.context", "syncanysql/__init__.py")])
p("P15", "A script is cut at the semicolons that end statements, and nowhere else",
  "A script is executed as the sequence of its statements: it is cut at every semicolon outside quotes and comments and at no other place; text inside quotes and backticks is passed on unchanged, comments have no effect, each statement carries the number of the line it starts on.",
  ["inputs", "programs"], "every text over quotes, escapes, comment marks, line ends and semicolons; every script with comments, blank lines and case changes between its words",
  FEW + "a splitter is a state machine whose rare states (quote in a comment, mark in a quote, escape before a closing quote) are not in any test script.",
  ["syncanysql/parser.py", X, "syncanysql/main.py"], [("SqlParser", "syncanysql/parser.py"), ("run of script files", "syncanysql/main.py")])
p("P10", "Batching settings and storage of tables never change what a query returns",
  "A query returns the rows its text defines over the contents of its tables, whatever @batch, @join_batch and @insert_batch are set to and whether a table is kept in memory or in a file.",
  ["configurations", "inputs", "programs"], "every query kind (filter, join, group, distinct, having, order, union, subquery, window) under every setting of the three batch sizes and every placement of its tables",
  FEW + "the default settings load everything in one piece; partial aggregation, batch-wise loading of joins and re-reading of files are only reached with small batches.",
  [T, C, A], [("query tasker: batch, limit and reduce handling", T), ("reduce of aggregates", A)])
p("P19", "A table in a file holds exactly what statements put there",
  "A JSON or CSV file used as a table is read as the rows it holds; INSERT, UPDATE-mode INSERT and DELETE on it have the same effect as on any table, stay within that file, and are visible to every later statement and to a reader of the file.",
  ["histories", "inputs"], "every history of scripts that insert into, delete from and query JSON and CSV files and tables in memory, of equal and different names and directories",
  FEW + "files of several types and directories are never used together.", [C, "syncanysql/config.py"], [("parse_table: databases of file paths", C), ("SessionConfig databases", "syncanysql/config.py")])
p("P17", "A setting comes from the nearest place that has it",
  "Configuration is layered: built-in defaults, the config file of the home directory, the one of the current directory, the files they extend, their init scripts, a custom configuration given to the program, what statements and calls set at an engine, at one of its contexts or in an executed file. Every level sees, for every database, virtual view, import and option, the value of the nearest layer that has it, at once and at every later statement; what a level sets is not seen beside or above it, unless set with SET GLOBAL; databases of the same name are merged key by key.",
  ["configurations", "histories"], "every combination of configuration files, extended files, init scripts and a custom configuration, and every history of USE, SET, SET GLOBAL, virtual views, encoding and format settings at an engine, its contexts and executed files",
  FEW + "the tests have one configuration file and one engine; layering shows only when several places set the same thing, and staleness only in histories.",
  ["syncanysql/config.py", X, "syncanysql/__init__.py", "syncanysql/taskers/set.py", "syncanysql/taskers/use.py"],
  [("GlobalConfig.load and SessionConfig.get/merge", "syncanysql/config.py"), ("SET and USE taskers", "syncanysql/taskers/set.py"), ("Executer and its session_config", X)])
p("P25", "EXECUTE runs a file's statements in a scope of its own",
  "EXECUTE of a SQL file does, at its place in the script, exactly what the statements of the file do: they see the variables of the script and of what encloses it, their changes of tables last, the variables they set (without GLOBAL) end with the file, a statement of the file that cannot be compiled refuses the whole script, one that fails stops it there. Files may execute files and be executed again.",
  ["histories", "programs"], "every script executing files (nested to a depth, repeated, failing) at an engine or a context, over every content of tables and variables",
  FEW + "one fixed file is executed once.", ["syncanysql/taskers/execute.py", X, C, "syncanysql/parser.py"], [("ExecuteTasker: a child Executor and session", "syncanysql/taskers/execute.py"), ("EXECUTE in compile_expression", C)])

p("P20", "A conversion gives the same value of its type wherever it is written",
  "CAST(v AS T), CONVERT_T(v) and the annotation `column[T]` turn every value into a value of T (a number text into its number, a fraction cut for int, other texts and NULL into 0, '' or false), and mean that value wherever they stand: in select items, WHERE (CAST and CONVERT), GROUP BY, ORDER BY, DISTINCT, aggregates, join keys; several conversions apply from the inside out.",
  ["inputs", "programs"], "every column content (number texts with signs, blanks and leading zeros, other texts, fractions, NULL) and every nesting and placement of conversions",
  FEW + "a condition or sort handed to the source silently uses the stored value; the difference needs texts whose order or equality differs from their numbers'.",
  [C, T], [("parse_column / parse_cast_typing_filter / compile_column", C), ("parse_condition and ORDER BY push-down", C)])
p("P28", "Dates follow the calendar in every function and interval",
  "Functions on dates, datetimes, times and their texts give what the Gregorian calendar does: fields (year to second of day, week and weekday numbers and names), intervals of any amount and unit added and subtracted (a day past the month's end becomes its last one, a date stays a date unless hours or less are added), differences in days and whole units, Unix times, conversions and formats; an unreadable text and NULL give NULL; equal dates are one in comparisons, groups, sorting, aggregates and joins.",
  ["inputs", "programs"], "every date (month ends, leap days, year ends, unreadable texts, NULL), every interval amount and every nesting of the functions",
  FEW + "one fixed day in the middle of a month; month ends, leap years, negative amounts, amounts from a column, and NULL go untested.",
  ["syncanysql/calculaters/mysql_funcs/datetime_funcs.py", C], [("calculate_datetime and the mysql_ date functions", "syncanysql/calculaters/mysql_funcs/datetime_funcs.py"), ("Interval and Add/Sub in compile_calculate", C)])

p("P21", "Row-wise and user-provided functions",
  "A SELECT works through its rows in order and its items from left to right: an assignment @v := e, ROW_INDEX() and ROW_LAST(x) see what the rows and items before left behind, IF evaluates only the branch it takes, and the variables keep their last values afterwards; a generator turns its row into one row per value (the longest generator of the row decides, shorter ones end in NULLs, LIMIT, ORDER BY and HAVING see the rows it made). A user's Python functions, constants and methods (module$name, any case), registered calculaters, generators, aggregates (grouped, in expressions, as windows) and transforms give what the Python code gives, NULL where it raises.",
  ["programs", "inputs"], "every such SELECT over every table, in any nesting of the row-wise functions, and user code anywhere an expression may stand",
  FEW + "one assignment, one generator and one user function alone; state carried over many rows, two generators of different length, generators under LIMIT and user code under other clauses go untested.",
  [C, "syncanysql/calculaters/row_calculater.py", "syncanysql/calculaters/generate_calculater.py", "syncanysql/calculaters/__init__.py", "syncanysql/taskers/use.py"],
  [("PropertyEQ and row functions in compile_calculate", C), ("find_generate_calculater", "syncanysql/calculaters/__init__.py"), ("RowIndexCalculater, RowLastCalculater", "syncanysql/calculaters/row_calculater.py")])

p("P27", "${name} in a statement is the text of the value it names, put in once",
  "Every ${name} and ${name:default} in a statement is replaced, before the statement is read, by the text of the variable of that name nearest to it, else of the environment variable of that name in any case, else by its default (the result, where that is written as a call of a known function), else by nothing; what was put in is not read again, text that is no reference stays as it is, and the statement then acts as if it had been written that way.",
  ["inputs", "programs"], "every text with references in any number and neighbourhood, every value (texts, numbers, dates, lists, NULL) at either level, and every part of a statement moved into a variable or default",
  FEW + "one name with one plain value is tried; values that themselves look like references, defaults with calls, names shared by levels and references inside identifiers go untested.",
  [X, "syncanysql/utils.py", "syncanysql/config.py"], [("Executor.compile_variable / ENV_VARIABLE_RE", X)])
p("P24", "EXPLAIN, SHOW and @verbose show, and change nothing",
  "A statement after EXPLAIN, or while @verbose is set, does exactly what it does alone (same tables, same variables, same rows, same error), and SHOW between statements does nothing.",
  ["histories", "programs"], "every script with any of its statements under EXPLAIN (also twice) or among SHOW statements, and every query under them",
  FEW + "EXPLAIN of one query is tried and its output is not looked at; statements other than queries, several statements and the variables they set go untested.",
  [C, "syncanysql/taskers/explain.py", "syncanysql/taskers/show.py", X], [("ExplainTasker", "syncanysql/taskers/explain.py"), ("Show in compile_expression", C)])
p("P29", "The command runs a script the same way, however it is given",
  "A script named on the command line, piped into the command, or typed at the prompt does what its statements do in order: options --name=value are variables of that text; the scripts of the configuration run before it; a failing statement ends a file or pipe with exit status 1 after exactly the statements before it, while the prompt goes on with the next entry.",
  ["histories", "configurations"], "every script, split over a prompt's entries in any way, with any options and initial scripts, over every content of the tables",
  "No test starts the command: main.py, the prompt and the initial scripts run in none of them.",
  ["syncanysql/main.py", "syncanysql/prompt.py", X, "syncanysql/parser.py"], [("main", "syncanysql/main.py"), ("CliPrompt.run", "syncanysql/prompt.py")])
p("P26", "Transforms, raw queries and views are queries like any other",
  "SELECT f(..) FROM (query) without alias, f a transform, gives f of all rows of the query in their order (pivoted, unpivoted, unique, or whatever the user's transform returns), wherever it stands; a raw query or view of a database gives the rows of its text, "
  "in which every parameter has the value of the statement's condition on that column with that comparison, or its default; all other conditions filter those rows.",
  ["inputs", "programs"], "every query under a transform (filtered, grouped, limited, united, transformed before), arguments and outer statement; every view text with any parameters, and every set of conditions over it",
  "Transforms run on one table each and are never nested or read by an outer query; no test has a raw query or a view, as they need a database.",
  [C, "syncanysql/config.py", X, "syncanysql/taskers/query.py"], [("compile_pipleline_select", C), ("parse_virtual_view_args", "syncanysql/config.py"), ("raw queries in Executor.run", X)])

QT = "TLA+ reference semantics (Rel.tla) checked with TLC against recorded executions (trace validation)"
QN = ("every generated query is run on the real engine and its rows are recorded; TLC evaluates the specification of the query over the same tables and rejects any row set it does not allow. "
      "Bounded by the generator: small tables (0-9 rows), small value domains, seeded random programs.")
NOTES = {"P%02d" % i: (QT, "model_checking", QN) for i in list(range(1, 10)) + [10, 20, 21, 22, 23, 26, 28]}
ST = "TLA+ state machine of a script session (Session.tla) checked with TLC against recorded histories (trace validation)"
SN = ("generated scripts run on the real engine; tables, variables of every level and the error are recorded after each, and TLC steps the specification through the same statements and rejects any state it does not reach. "
      "Bounded by the generator: four tables of one shape, 1-6 statements per script, 1-4 scripts per history, seeded random.")
NOTES.update({p: (ST, "model_checking", SN) for p in ("P11", "P12", "P13", "P14", "P16", "P18", "P19", "P25")})
NOTES["P24"] = (ST, "model_checking", SN + " Statements stand after EXPLAIN or among SHOWs; queries of other properties too, judged by Rel.tla.")
NOTES["P29"] = ("TLA+ state machine of a script session (Session.tla) with the command's entries, options and exit status, checked with TLC against recorded runs of the command (trace validation)", "model_checking",
    "the command runs in a process of its own on generated scripts over files; TLC steps the specification through the same entries and rejects tables or exit status it does not reach. The prompt is driven through a pseudo input. Bounded by the generator.")
NOTES["P27"] = ("TLA+ definition of substitution (Subst.tla) evaluated by TLC on recorded texts, and Rel.tla and Session.tla on statements rewritten through references (trace validation)", "model_checking",
    "texts of characters and references over two levels of variables, the environment and defaults; TLC computes the text each becomes and rejects any other. Bounded by the generator.")
NOTES["P15"] = ("TLA+ state machine of the script splitter (Splitter.tla) checked with TLC: lemmas on the machine, and every recorded split compared with its run (trace validation)", "model_checking",
    "every text up to a length bound over the twelve characters the splitter distinguishes, plus seeded longer texts, plus session scripts with comments judged by Session.tla.")
NOTES["P17"] = ("TLA+ model of the configuration layers (Config.tla) checked with TLC against recorded histories (trace validation)", "model_checking",
    "generated configurations are written to files, loaded by the real program, changed by generated histories; after every step each level is asked what it sees, and TLC rejects an answer the layers do not give. Bounded by the generator: 3 databases, 2 views, 2 import aliases, an encoding and three formats; up to four files, an engine, two contexts and executed files.")
NA = {}

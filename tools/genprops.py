#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that long texts stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","MySQL: applying a schema file makes the database equal to it",
"Whatever MySQL schema the database currently has and whatever schema file the user asks for (tables, columns with type / nullability / default / charset / auto-increment / on-update attributes and their order, primary keys, secondary, unique and full-text indexes, foreign keys, views, triggers), every statement mysqldef emits is accepted by the server in the emitted order, and afterwards the server holds exactly the schema that executing the file on an empty database would give.",
["programs","histories","inputs"],"all pairs (current schema, desired schema), and all histories of such applications",
"The mysqldef tests need a live server, are not part of the offline suite, and walk a few dozen hand-picked pairs; the guarantee is over all pairs of schemas and the order of statements matters only for combinations of changes nobody wrote down.",
["schema/generator.go","schema/parser.go","adapter/mysql/mysql.go","sqldef.go","cmd/mysqldef/mysqldef.go"],
[("diff of current and desired schema","schema/generator.go generateDDLs / generateDDLsForCreateTable"),("simulation of positions, keys and AUTO_INCREMENT","schema/generator.go"),("dump of the current schema","adapter/mysql/mysql.go")],
["statements received by the server","catalog of the server after the run"],
[("current tables","what the generator believes the database holds while it plans","schema/generator.go Generator.currentTables")])
p("C02","PostgreSQL: applying a schema file makes the database equal to it",
"Whatever PostgreSQL schema the database currently has and whatever schema file the user asks for (tables in any schema, columns with type / nullability / default / serial / identity / column checks, primary keys, plain, unique and partial indexes, foreign keys, row-level-security policies, views), every statement psqldef emits is accepted by the server in the emitted order, and afterwards the server holds exactly the schema that executing the file on an empty database would give; column order, constraint names the server chooses, type changes that need a USING clause, and options of sequences aside.",
["programs","histories","inputs"],"all pairs (current schema, desired schema), and all histories of such applications",
"The psqldef tests need a live server and are not part of the offline suite; they cover a few dozen pairs, while type, default, identity, check, key, policy and view changes combine freely.",
["schema/generator.go","schema/parser.go","adapter/postgres/postgres.go","sqldef.go","cmd/psqldef/psqldef.go"],
[("diff of current and desired schema","schema/generator.go"),("catalog queries that rebuild the current DDL","adapter/postgres/postgres.go")],
["statements received by the server","catalog of the server after the run"])
p("C03","SQL Server: applying a schema file makes the database equal to it",
"Whatever SQL Server schema the database currently has and whatever schema file the user asks for, as long as the two differ only in ways the README lists as supported (tables, added and dropped columns, defaults and checks added, changed and dropped, columns that become or stop being an identity, indexes with their order, included columns and options, primary keys, foreign keys with their actions, views, and triggers added or changed; not the type, NULL or UNIQUE of a column that stays), every statement mssqldef emits is accepted by the server in the emitted order, and afterwards the server holds exactly the schema that executing the file on an empty database would give, column order and the names of checks and defaults aside.",
["programs","histories","inputs"],"all pairs (current schema, desired schema) within the supported changes, and all histories of such applications",
"The mssqldef tests need a live server and are not part of the offline suite; a few dozen pairs are sampled there.",
["schema/generator.go","schema/parser.go","adapter/mssql/mssql.go","sqldef.go","cmd/mssqldef/mssqldef.go"],
[("diff of current and desired schema","schema/generator.go"),("catalog queries that rebuild the current DDL","adapter/mssql/mssql.go")],
["statements received by the server","catalog of the server after the run"])
p("C04","SQLite: applying a schema file makes the database equal to it",
"Whatever SQLite database file exists and whatever schema file the user asks for, as long as the two differ only by tables, views and columns added or dropped, sqlite3def leaves the database file with exactly the tables, columns and views that executing the schema file on an empty database would give (column order aside), and leaves the rows of every table and column present in both untouched.",
["programs","histories","inputs"],"all pairs (current schema, desired schema) that differ in supported ways, and all histories of such applications, on real database files",
"The sqlite3def tests run a handful of single changes on an empty database; they never chain changes, combine them, or look at the data.",
["schema/generator.go","adapter/sqlite3/sqlite3.go","sqldef.go","cmd/sqlite3def/sqlite3def.go"],
[("diff of current and desired schema","schema/generator.go"),("dump from sqlite_master","adapter/sqlite3/sqlite3.go")],
["schema and rows of the database file after the run"])
p("C05","Idempotence: a second run with the same file changes nothing",
"After a schema file has been applied successfully, running the tool again with the same file emits no statement at all and reports that nothing is modified, no matter whether the database got into that state by creating everything at once or by any sequence of earlier migrations.",
["programs","histories","configurations"],"all reachable database states of each of the four engines, and all schema files that were just applied to them",
"A test can only run a second time from the states it happens to build; spurious differences appear for particular spellings (type aliases, implicit constraints, server-normalised defaults and expressions) and particular histories.",
["schema/generator.go","schema/parser.go","sqlparser/parser.y","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go"],
[("normalisation before comparison","schema/generator.go normalizeDataType, areSame*; schema/parser.go"),("dump that can be parsed back","adapter/*/")],
["output of the second run","statements received by the server in the second run"])
p("C06","Export: the dump is complete, deterministic and can be applied back",
"Exporting a database writes DDL which, given back as the schema file, is reported as nothing to modify against the same database, and which recreates the same schema on an empty database; exporting twice without a change in between gives identical bytes, and exporting an empty database says that no table exists.",
["programs","histories","configurations"],"all reachable database states of each of the four engines",
"Tests export two or three tiny schemas; the guarantee concerns every catalog content (several indexes, composite keys, several schemas, names that need quoting, map iteration orders).",
["adapter/database.go","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go","sqldef.go"],
[("dump of tables, views, triggers joined with separators","adapter/database.go DumpDDLs"),("per-engine DDL reconstruction","adapter/*/")],
["stdout of the export","catalog after feeding it back"])
p("C07","Dry run and export never write; the dry run shows the real plan",
"With the dry-run or export option, and whenever an error prevents the run, the tool sends the database no statement that could change it; and the statements a dry run prints are exactly, and in the same order, those a real run with the same arguments executes and prints.",
["inputs","configurations","histories"],"all databases, schema files and option combinations of the four tools",
"The tests check one dry run per tool and only its output, never what reached the database.",
["sqldef.go","adapter/database.go","cmd/mysqldef/mysqldef.go","cmd/psqldef/psqldef.go","cmd/mssqldef/mssqldef.go","cmd/sqlite3def/sqlite3def.go"],
[("early return for export / dry run","sqldef.go Run"),("plan printed by showDDLs and executed by RunDDLs","sqldef.go, adapter/database.go")],
["every statement on the wire","stdout"])
p("C08","Skip-drop never destroys anything and skips nothing else",
"With the skip-drop option the tool executes no statement that drops a table, column, index, constraint, view, trigger or policy, prints each withheld statement as skipped, and still executes, unchanged and in order, every statement of the ordinary plan that has no DROP clause (the word DROP inside names, literals and comments is none).",
["inputs","programs","configurations"],"all pairs of current and desired schemas on the four engines, with and without dry run",
"Tests cover one dropped table per tool; every kind of destructive statement, and every harmless statement that merely looks like one, needs to be classified correctly.",
["adapter/database.go","sqldef.go","schema/generator.go"],
[("filter on statements","adapter/database.go RunDDLs; sqldef.go showDDLs")],
["every statement on the wire","stdout"])
p("C09","Apply is ordered, stops at the first failure and reports it",
"Applying runs the planned statements one by one in order inside one transaction; if any database operation fails, from reading the catalog over beginning the transaction and each statement to the final commit, nothing after the failing one is executed, what was done is rolled back, and the process exits with a failure status and a message; it reports success only when everything was committed.",
["fault_sequences","crash_points","configurations"],"every single fault position of every run: each catalog query, begin, each statement, commit, and connection loss at each of them, on the four engines",
"No existing test injects a database fault; the guarantee ranges over all positions at which the database can refuse or vanish.",
["adapter/database.go","sqldef.go","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go"],
[("transaction around the plan","adapter/database.go RunDDLs"),("error propagation","sqldef.go Run; adapter/*/")],
["statements on the wire after the fault","exit status, stdout, stderr","database content after the run"])
p("C10","No collateral damage: only what differs is touched",
"A run alters only the schema objects in which the database and the schema file differ: it never drops and recreates a table, and never drops a column, that the file keeps, never touches a table that is the same in both, and the statements planned for one table do not depend on other, unrelated tables or on the order of unrelated tables in the file.",
["programs","inputs","histories"],"all pairs of current and desired schemas on the four engines",
"Tests compare a few expected outputs; data loss hides in combinations (moves, renames of keys, type changes in neighbouring tables).",
["schema/generator.go"],
[("per-object diff","schema/generator.go generateDDLs"),("obsolete-object cleanup","schema/generator.go")],
["statements received by the server","rows that survive"])
p("C11","Bad input is refused before anything is executed",
"A schema file that cannot be understood (a syntax error anywhere in it, a statement kind that is not schema definition, an index, key or policy on a table the file does not define, the same index, policy, foreign key or view defined twice, a foreign key without a name) makes the tool exit with a failure status and an explanation on stderr, without executing any statement, and never crash or loop.",
["inputs"],"all schema files, at whatever position the defect stands and whatever the database holds",
"Tests try one syntax error per tool; a defect in the last statement, after valid ones, or one that the grammar tolerates is not reached.",
["schema/parser.go","schema/generator.go","sqldef.go","sqlparser/ast.go","sqlparser/parser.y"],
[("whole file parsed before planning; plan complete before executing","schema/generator.go GenerateIdempotentDDLs; sqldef.go Run")],
["statements on the wire","exit status, stderr"])
p("C12","Spelling of the schema file does not matter",
"Two schema files that differ only in spelling (comments, white space, blank statements, keyword case, quoting of plain identifiers, equivalent type names, spelled-out defaults such as ASC or NULL, inline versus separate definition of a key or index, reading from a file or from standard input) describe the same schema: against any database the tool emits the same plan for structured changes, and nothing for one when the other has been applied.",
["inputs","configurations"],"all schema files and all combinations of spelling variations",
"Tests contain a few spelling variants each in isolation; the product of variants, dialects and states is what a user's files exercise.",
["schema/parser.go","schema/generator.go","sqlparser/token.go","sqlparser/parser.y","sqldef.go"],
[("tokenizer: comments, white space, keyword case, quoting","sqlparser/token.go"),("aliases and implicit attributes","sqlparser/parser.y; schema/generator.go")],
["plan for each spelling"])
p("C13","The SQL parser never crashes, hangs or corrupts on any input",
"For every byte string and in every dialect mode, parsing terminates and returns either a statement or an error that quotes the input, never a crash; whatever statement it returns can be printed and walked; and parsing does not depend on what was parsed before or concurrently.",
["inputs","schedules"],"all byte strings, exhaustively over short token and byte sequences and single edits of a grammar-covering corpus, in every mode and entry point",
"Unit tests list a few hundred valid and invalid statements.",
["sqlparser/token.go","sqlparser/parser.y","sqlparser/ast.go"],
[("tokenizer","sqlparser/token.go"),("grammar actions","sqlparser/parser.y")],
["return values and panics of Parse, ParseStrictDDL, ParseNext, SplitStatement, GenerateIdempotentDDLs"])
p("C14","Printing a parsed statement and parsing it again is lossless",
"For every query, data-changing or SET statement the parser accepts, and for every query or expression inside a definition it accepts (view, check, partial-index condition, policy), the printed form is accepted again (names and strings quoted as the dialect quotes them), prints to itself and denotes the same: same structure, same operator grouping (that of MySQL's precedence table), same literals, same identifiers, whatever precedence, nesting or quoting the original used.",
["inputs"],"all statements of the grammar up to a bounded depth, over an alphabet with every operator and every identifier/literal form that needs care",
"Unit tests check a fixed list of strings, mostly without nested operators; precedence and quoting mistakes appear in combinations.",
["sqlparser/ast.go","sqlparser/parser.y","sqlparser/token.go","sqlparser/tracked_buffer.go"],
[("Format methods","sqlparser/ast.go"),("precedence declarations","sqlparser/parser.y"),("identifier escaping","sqlparser/ast.go formatID")],
["sqlparser.String and the AST of its reparse"])
p("C15","Every definition change is noticed, none is invented",
"When the definition of a view, trigger, policy, check, partial-index condition, default or foreign-key rule in the schema file means something else than the one in the database, the plan replaces exactly that object; when the file has it in the form the server reports, nothing is planned for it.",
["inputs","programs"],"all pairs of definitions from a bounded expression grammar, on every engine that supports the object kind",
"Tests change one condition per kind of object; the comparison is textual after normalisation, so it can both miss and invent differences for particular expressions.",
["schema/generator.go","schema/parser.go","sqlparser/ast.go"],
[("comparison of printed expressions","schema/generator.go areSamePolicies, areSameCheckDefinition, areSameTriggerDefinition, generateDDLsForCreateView, areSameIndexes, areSameForeignKeys")],
["plan","catalog of the server after the run"])
p("C16","Connection settings reach the server exactly as given",
"The user name, password, host, port or socket, and database name (or SQLite file name) given on the command line, through the environment or at the prompt, or else the documented defaults, are the ones the tool connects with, byte for byte, whatever characters they contain, and no other server or file is touched; a connection to PostgreSQL that has to be encrypted is not made in the clear.",
["inputs","configurations"],"all strings for each setting (exhaustively over single special characters and pairs) and all ways of giving them, on each network engine",
"No test uses a password or a name containing a character that is special to connection strings.",
["adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go","cmd/mysqldef/mysqldef.go","cmd/psqldef/psqldef.go","cmd/mssqldef/mssqldef.go","cmd/sqlite3def/sqlite3def.go"],
[("connection string construction","adapter/*/ *BuildDSN"),("option and environment handling","cmd/*/")],
["credentials and database name in the protocol handshake; servers called; files made"])
p("C17","Command line: status, streams and option handling",
"Each tool exits with zero exactly when it did what was asked and non-zero otherwise, writes results to stdout and diagnostics to stderr (only the usage and the complaint about a missing or second database name go to stdout), refuses to touch a database when the database name is missing or given twice or the file cannot be read, and treats every documented option the same way in any order or spelling.",
["configurations","inputs"],"all combinations and orders of the documented options of the four tools",
"Tests run the help option and a missing argument only.",
["cmd/mysqldef/mysqldef.go","cmd/psqldef/psqldef.go","cmd/mssqldef/mssqldef.go","cmd/sqlite3def/sqlite3def.go","sqldef.go"],
[("option parsing","cmd/*/ parseOptions"),("exit paths","sqldef.go Run")],
["exit status, stdout, stderr, connections made"])
p("C18","Literals survive encoding and decoding",
"Every string, number, hexadecimal and bit value encodes to a SQL literal (of MySQL, with its escapes) that tokenises back to exactly that value and nothing more, so no value can break out of its quotes, and every bind value substituted into a query reads back as that value.",
["inputs"],"all byte strings up to a bounded length over an alphabet with every byte, and all numeric forms",
"Unit tests encode a handful of values.",
["sqlparser/dependency/sqltypes/value.go","sqlparser/token.go","sqlparser/parsed_query.go","sqlparser/encodable.go","sqlparser/ast.go"],
[("escape tables","sqlparser/dependency/sqltypes/value.go"),("string scanning","sqlparser/token.go"),("bind substitution","sqlparser/parsed_query.go")],
["round trip through EncodeSQL and the tokenizer"])
p("C19","Normalising to bind variables preserves the query; redaction leaks nothing",
"Replacing the literals of a query or data-changing statement by bind variables and substituting the collected values back yields the original statement, never reuses or captures a bind variable the statement already has, and such a statement, redacted, contains none of its literal values (strings, numbers, hexadecimal and bit values; lengths of types in casts are not values).",
["inputs"],"all statements of a bounded grammar with literals in every position, and all pre-existing bind variable names up to a bound",
"Unit tests list about twenty statements; collisions and sharing depend on combinations of positions and values.",
["sqlparser/normalizer.go","sqlparser/redact_query.go","sqlparser/parsed_query.go"],
[("literal replacement and deduplication","sqlparser/normalizer.go"),("walk over every literal","sqlparser/ast.go walkSubtree")],
["statement and bind variables after Normalize; output of RedactSQLQuery"])
p("C20","Splitting and streaming agree with parsing",
"Splitting a text into statements cuts exactly at the semicolons that are outside quotes and comments, loses or duplicates no byte, and reading statements one after another from a stream yields, whatever the chunk and buffer boundaries, the same statements as parsing each piece on its own, even after a statement that failed.",
["inputs","histories"],"all concatenations of statement fragments up to a bound, all stream chunkings and buffer alignments",
"Unit tests use a few concatenations and one chunk size.",
["sqlparser/ast.go","sqlparser/token.go"],
[("statement splitting","sqlparser/ast.go SplitStatement, SplitStatementToPieces"),("streaming tokenizer","sqlparser/token.go; sqlparser/ast.go ParseNext")],
["pieces and statements returned"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))

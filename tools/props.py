# Source of properties.jsonl and MANIFEST.json; run tools/mkmeta.py after editing.
B="storage/basic/basic.go"; BT="storage/basic/btree.go"; ST="storage/storage.go"
EN="engine/engine.go"; EI="engine/init.go"; TT="engine/typedtable.go"; TI="engine/typedinfo.go"
EV="evaluate/evaluate.go"; SE="evaluate/session.go"
PA="parser/parser.go"; SC="parser/scanner/scanner.go"; TK="parser/token/token.go"
SQ=["parser/sql/stmt.go","parser/sql/expr.go","parser/sql/query.go","parser/sql/datadef.go"]
VA="types/value.go"; CO="types/column.go"; ID="types/identifier.go"; NA="types/name.go"
EK="encode/key.go"; EE="encode/encode.go"

PROPS=[]
def P(id,title,statement,over,quant,why,files,mech,tech=None,level="other",note="",na=None,state=None,observe=None):
    PROPS.append(dict(id=id,title=title,statement=statement,over=over,quant=quant,why=why,files=files,
        mech=mech,tech=tech,level=level,note=note,na=na,state=state,observe=observe))

AI="path-sensitive abstract interpretation over Go SSA"

# ---------------------------------------------------------------- storage
P("S01","Uncommitted changes are invisible outside their transaction",
 "Rows and table definitions created, changed or removed inside a storage transaction never alter the store's committed state before that transaction commits; a transaction that is rolled back, fails, or is simply abandoned leaves the committed state exactly as it was.",
 ["histories","programs"],"every sequence of storage operations on every transaction",
 "Tests roll back a handful of scripted histories; one write path that forgets to detach from the committed state only shows for the operation order that reaches it first.",
 [B,BT],[("copy-on-write before the first change","storage/basic/basic.go: transaction.forWrite"),("single publication point","storage/basic/basic.go: transaction.Commit")],
 tech=AI+": ownership of the tree reaching every mutating call",
 state=[("store.tree","committed state","storage/basic/basic.go"),("transaction.tree","working state","storage/basic/basic.go")])
P("S02","Commit publishes everything exactly once, rollback nothing",
 "A successful commit makes the committed state exactly the transaction's own working state, and a rollback leaves the committed state as it was; once a transaction has been committed or rolled back, a further commit or rollback returns an error and changes neither the committed state nor the store's lock.",
 ["histories"],"every order of commits and rollbacks after any operations",
 "Tests exercise commit-then-commit and rollback-then-rollback on a few transactions only.",
 [B],[("commit assigns the working tree, then completes","storage/basic/basic.go: transaction.Commit"),("completed-transaction test","storage/basic/basic.go: transaction.Rollback")],
 tech=AI+": typestate of the transaction object")
P("S03","The store is locked for exactly the life of a transaction",
 "Beginning a storage transaction takes the store's lock before it reads the committed state, and the lock is released exactly once, when the transaction is first committed or rolled back, after the committed state has its final value; no other operation takes or releases it.",
 ["schedules","histories"],"every interleaving of transactions on one store",
 "Tests run transactions one after another; a lost or doubled release blocks or crashes a later, concurrent transaction.",
 [B],[("mutex taken in Begin, released on completion","storage/basic/basic.go: store.Begin, transaction.Commit, transaction.Rollback")],
 tech=AI+": lock typestate and lock-protected access analysis")
P("S04","A transaction cannot complete while one of its cursors is open",
 "A storage transaction can be committed or rolled back only when every cursor opened in it has been closed: opening a cursor counts once, closing it counts back once, a failed open counts nothing, and an attempt to complete with open cursors is refused without effect. A closed cursor refuses every further use.",
 ["histories"],"every sequence of opening, advancing, closing cursors and completing transactions",
 "Tests open and close a few cursors in nested order.",
 [B],[("open cursor counter","storage/basic/basic.go: table.Rows, rows.Close"),("refusal","storage/basic/basic.go: transaction.Commit, transaction.Rollback")],
 tech=AI+": counter and cursor typestate")
P("S05","A primary key never identifies two rows and no row is overwritten",
 "Inserting a row, or updating a row so that its primary key changes, either adds a row under a key that no row of that table had, or returns an error and leaves the existing row as it was.",
 ["inputs","histories"],"every row, key definition and table content",
 "Tests insert a few duplicates; multi-row inserts and key-changing updates have far more combinations.",
 [B,BT],[("duplicate test before insert","storage/basic/basic.go: table.Insert")],
 tech=AI+": check-before-write on every path to the tree insert")
P("S06","Every stored row has exactly its table's columns and types",
 "Every row that an insert or an update stores has exactly one value per column of its table, each value converted to and accepted by that column's type, size and NOT NULL rule; a row that cannot be converted is refused with an error.",
 ["inputs"],"every table definition, row, and update",
 "Tests convert a few literal rows; updates never had a badly typed value in them.",
 [B,VA],[("row conversion","types/value.go: ConvertRow, ConvertValue"),("insert and update","storage/basic/basic.go: table.Insert, rowRef.Update")],
 tech=AI+": type-conversion provenance of every stored row")
P("S07","A failed row operation changes nothing",
 "When inserting rows, updating a row, or creating a table returns an error, the transaction's contents are the same as before the operation: no row of a failed multi-row insert remains, and a row whose update failed still has its old contents.",
 ["inputs","histories"],"every failing insert, update or create",
 "Tests check that an error is returned, never what the failed call left behind.",
 [B],[("checks and undo around tree changes","storage/basic/basic.go: table.Insert, rowRef.Update")],
 tech=AI+": effect analysis on every error path")
P("S08","Stored rows are never changed in place or shared with callers",
 "The list of values making up a stored row is private to the store: the row a cursor returns is a fresh copy, the row kept by an insert or update is not the caller's, and no operation changes a stored row in place, so committed rows and earlier cursors keep the values they had.",
 ["histories","programs"],"every caller, cursor and transaction",
 "Tests never modify a row they handed in or got back.",
 [B],[("copies on insert, update and read","storage/basic/basic.go: table.Insert, rows.Next, rowRef.Update")],
 tech=AI+": alias and ownership analysis of row storage")
P("S09","A range scan yields exactly the matching rows, in key order, once",
 "A cursor opened with a lower row, an upper row and a predicate yields, in primary key order and once each, exactly the rows of that table whose key is at least the lower key and at most the upper key and whose column satisfies the predicate (a NULL never does), then reports the end; each row shows exactly the requested columns in the requested order. Changes made after the cursor was opened do not disturb it.",
 ["inputs","histories"],"every table content, bounds, predicate, column selection",
 "Tests scan a few small tables with a few bounds.",
 [B,BT],[("scan callback decisions","storage/basic/basic.go: table.Rows"),("delivery","storage/basic/basic.go: rows.Next"),("item order","storage/basic/btree.go: lessItems")],
 tech=AI+": decision-table check of the scan and delivery code")
P("S10","Update and delete affect exactly the row the cursor is on",
 "Through a cursor's current position, a delete removes exactly that row, and an update stores that row with each named column replaced by its new value and every other column unchanged, and affects no other row and no other table.",
 ["inputs","histories"],"every cursor position, column list and value list",
 "Tests update a few rows by a few columns.",
 [B,BT],[("row reference by key","storage/basic/basic.go: rows.Current, rowRef.Update, rowRef.Delete")],
 tech=AI+": provenance of keys and rows reaching tree operations")
P("S11","Tables open only under the definition they were created with",
 "A storage table is created at most once per table id, with as many column types as names, a primary key within its columns and the row id name only as the hidden key, and it can be opened only with exactly the name, column names, column types and key it was created with; a dropped table can no longer be opened and its rows are gone.",
 ["inputs","histories"],"every table definition and every order of create, open, drop",
 "Tests use a few well-formed definitions and a few malformed ones.",
 [B],[("definition checks","storage/basic/basic.go: transaction.OpenTable, transaction.CreateTable, transaction.DropTable")],
 tech=AI+": must-pass-through checks on every success path")
# ---------------------------------------------------------------- encode
P("E01","Encoded keys sort exactly like the values they encode",
 "For every key definition, the byte string of one row's key compares with another's exactly as their key columns compare one after the other (NULL first, numbers numerically with NaN below them, strings and bytes bytewise; opposite within a type for reversed columns, NULL still first), and rows whose key columns hold different values of the columns' types never get the same key.",
 ["inputs"],"every row and key definition over the five value types and NULL",
 "The test orders a few dozen sample values.",
 [EK,EE],[("tags and payloads","encode/key.go: MakeKey, encodeKeyBytes"),("big endian words","encode/encode.go: EncodeUint64")],
 tech=AI+": bit-provenance and codeword-table domain for emitted key bytes")
P("E02","Variable-length and fixed integer encodings decode to what was encoded",
 "Decoding an encoded unsigned or zigzag integer returns that integer, success, and exactly the bytes that followed it, for every value and every following bytes; decoding truncated input or a value too long for 64 bits reports failure, and no input makes the decoder read past the buffer.",
 ["inputs"],"every 64-bit value and every byte buffer",
 "Tests try a few dozen values.",
 [EE],[("seven bits per byte","encode/encode.go: EncodeVarint, DecodeVarint"),("zigzag","encode/encode.go: EncodeZigzag64, DecodeZigzag64")],
 tech="bit-level abstract interpretation (bit-provenance domain) of encoder and decoder",
 na="Not built: nothing else in the repository calls the variable-length codec at this commit, and deciding it needs the decoder's loop composed with the encoder's for each of the ten lengths, which comes down to executing both symbolically rather than to a static argument; the fixed 64-bit encoding, the part the system uses, is decided under E01.")
# ---------------------------------------------------------------- types
P("V01","Comparing values is a consistent total order per type",
 "Comparing two values gives a sign that is reflexive, antisymmetric and transitive over NULL, booleans, strings, bytes, and numbers of one numeric kind: NULL comes first, kinds are ranked, false sorts before true, text and bytes sort bytewise, and NaN equals itself and sorts below every other number.",
 ["inputs"],"every pair and triple of values",
 "Tests compare a table of sample pairs without NaN.",
 [VA],[("kind rank then per-kind comparison","types/value.go: Compare, order, compare")],
 tech=AI+": comparison outcomes over the finite set of operand orderings")
P("V02","Converting a value yields a conforming value or an error",
 "Converting a value to a column's type yields either an error or a value of exactly that type within its size and range (NULL only where NULL is allowed); a value that already conforms is returned unchanged, and a number outside the type's range is an error rather than some other number (a fraction is cut off).",
 ["inputs"],"every value and column type",
 "Tests convert a table of sample values, with no overflowing or NaN doubles.",
 [VA],[("casts and range checks","types/value.go: CastValue, ConvertValue, ConvertRow")],
 tech=AI+": postcondition on every return path")
P("V03","Key column descriptions keep the column and direction they were made from",
 "A key column made from a column number and a direction reports that number and that direction, for every column number a table can have, and different pairs give different key columns; a set of updated columns is said to touch a key exactly when some updated column is a key column.",
 ["inputs"],"every column number, direction, and column set",
 "Tests make keys for the first few columns.",
 [CO],[("signed one-based encoding","types/column.go: MakeColumnKey, Reverse, Column, ColumnKeyUpdated")],
 tech=AI+": linear integer domain with sign")
P("I01","Identifiers can be interned and printed concurrently",
 "Identifiers can be created, looked up and printed from any number of goroutines at once without data races or deadlock: every access to the shared identifier tables is made while holding their lock, exclusively for changes, and one spelling never gets two identifiers.",
 ["schedules"],"every interleaving of identifier operations",
 "One test interns from several goroutines; it neither prints concurrently nor runs under a race detector.",
 [ID],[("read-write lock and re-check","types/identifier.go: ID, lookupID, String")],
 tech="lockset dataflow analysis over the call graph")
P("I02","Identifiers survive being encoded and decoded",
 "Every identifier prints as the spelling it was interned with (the canonical keyword spelling for keywords), different predefined identifiers have different numbers and spellings, and encoding an identifier and decoding it again gives the same identifier, whether it is a keyword, reserved, predefined or user defined.",
 ["inputs"],"every identifier, predefined or created at run time",
 "Tests encode a few identifiers, none of them a non-reserved keyword.",
 [ID],[("interning tables","types/identifier.go: identifiers, keywords, names"),("gob encoding","types/identifier.go: GobEncode, GobDecode")],
 tech="constant-table consistency and "+AI)
# ---------------------------------------------------------------- engine
P("G01","Every transaction the system begins is completed according to outcome",
 "Whenever database-level operations, store initialization, or single statements run in a transaction of their own, that transaction is completed exactly once before control returns: committed if and only if every step succeeded, rolled back if any step failed, and the error is reported to the caller. A transaction object handed to a caller passes that caller's commit or rollback on exactly once and reports an error afterwards.",
 ["histories","fault_sequences"],"every outcome of every step",
 "Tests run successful steps and one or two failures.",
 [EN,EI,SE],[("transaction wrapper","engine/engine.go: withTransaction"),("initialization","engine/init.go: Init"),("single statements","evaluate/session.go: Session.Evaluate")],
 tech=AI+": begin/commit/rollback typestate on every path")
P("G02","Typed table access always closes its cursor",
 "Every cursor opened by the typed-table operations is closed exactly once on every way out, including a failing read, a failing or stopping callback, and a panic in the callback; it is never used after being closed.",
 ["fault_sequences","programs"],"every outcome of every storage call and callback",
 "Tests' callbacks succeed or stop once.",
 [TT],[("deferred close","engine/typedtable.go: typedTableSelect")],
 tech=AI+": cursor typestate including panic exits")
P("G03","Catalog operations check what they depend on and report it truthfully",
 "A schema is created only if its database exists, a table only if its schema exists, and each under the given names; dropping a database or schema, or opening a table, that is absent is an error unless absence was explicitly allowed for the drop, and exactly the named entry is removed; listing databases or schemas returns exactly the entries of the catalog (for schemas, those of the named database).",
 ["inputs","histories"],"every name and every catalog content",
 "Tests use a few names and no failing storage.",
 [EN],[("lookups before inserts","engine/engine.go: CreateSchema, CreateTable, DropSchema, DropDatabase, ListSchemas, OpenTable")],
 tech=AI+": must-precede and argument-provenance rules")
P("G04","Table ids are never handed out twice",
 "Each table creation uses the current value of the table id sequence, stores the sequence advanced past it in the same transaction, and records the table under that id; if the sequence cannot be read or advanced, creation fails. Ids handed out never collide with those reserved for system tables.",
 ["histories"],"every history of table creations",
 "One test creates a few tables in a row.",
 [EN,EI],[("sequence update","engine/engine.go: nextTableId, CreateTable"),("initial value","engine/init.go: initTables")],
 tech=AI+": read-increment-write provenance and constant tables")
P("G05","Initialization creates and catalogs every system table",
 "Initializing a store creates every system table, fills each with its initial rows, and records every system table in the table catalog under its own id, name and definition, so that each can be opened by name; system table ids, names and primary keys are distinct and valid, and any failure is reported.",
 ["configurations"],"every system table definition",
 "One test dumps the resulting tables on one backend.",
 [EI,EN,TI],[("table of system tables","engine/init.go: initTables, initStore")],
 tech="constant-table analysis and "+AI)
P("G06","Typed rows keep every field when stored and read back",
 "Converting a Go structure to a row and a row back to a structure agree field by field: each field maps to its own column, with the same kind and nullability in both directions, null values map to nil and back, and byte slices are copied, never shared; a value too long for its column is never stored.",
 ["inputs"],"every structure type the typed tables accept and every field value",
 "Tests use a few structures, none with narrow nullable numbers.",
 [TT,TI],[("two mappings","engine/typedtable.go: fieldToValue, RowToStruct"),("column derivation","engine/typedinfo.go: MakeTypedInfo")],
 tech=AI+": cross-check of the write and read mappings per column kind")
P("G07","Storage errors always reach the caller",
 "An error returned by the storage layer, the engine or a callback is never discarded: every operation of the engine and the statement evaluator that performs a failing step returns a non-nil error (the end-of-data marker may end a scan, an error while already reporting another may be dropped, and a failing look-up may be taken for absence when the creation it guards is then attempted).",
 ["fault_sequences"],"every failing call at every call site",
 "Tests use an in-memory store that never fails.",
 [EN,EI,TT,EV,SE],[("error propagation","engine, evaluate: every call returning an error")],
 tech=AI+": error-value propagation on every path")
# ---------------------------------------------------------------- evaluate
P("Q01","A session has at most one open transaction and follows the protocol",
 "In a session, BEGIN opens a transaction only if none is open, COMMIT and ROLLBACK complete the open one and end it whatever the outcome, and without one they report an error; statements run in the open transaction, or else in one of their own that is completed before the statement returns. Creating or dropping a database inside an open transaction is refused.",
 ["histories"],"every sequence of statements in a session",
 "The package's tests do not compile at this commit, so nothing is exercised.",
 [SE],[("session state machine","evaluate/session.go: Session.Evaluate")],
 tech=AI+": session typestate per statement kind")
P("Q02","Each statement performs exactly the operation it names",
 "Each supported statement invokes the matching engine operation with exactly its own names and options, tables in statement order; IF NOT EXISTS makes creating an existing table or index a successful no-op and without it creation is refused; key columns are resolved to the table's column numbers with their direction and an unknown column is an error; unsupported statements report an error and change nothing.",
 ["inputs","programs"],"every statement",
 "The package's tests do not compile at this commit.",
 [EV,SE],[("statement dispatch","evaluate/evaluate.go: Evaluate, EvaluateCreateTable, EvaluateCreateIndex")],
 tech=AI+": call-and-argument provenance per statement kind")
P("Q03","Unqualified names resolve to the session's defaults, qualified ones stay",
 "Before a statement runs, the name of every table and schema it acts on is completed with the session's current database (and, for tables without one, schema) exactly where it was left out, and explicitly given parts are never changed; setting the database or schema variable changes the default used by later statements only.",
 ["inputs","histories"],"every statement kind and every combination of given and omitted name parts",
 "The package's tests do not compile at this commit.",
 [SE]+SQ,[("resolver","evaluate/session.go: ResolveTable, ResolveSchema"),("per-statement resolution","parser/sql: Resolve methods")],
 tech=AI+": per-type field coverage of name resolution")
# ---------------------------------------------------------------- parser
P("R01","No input makes the scanner or parser crash",
 "For every sequence of characters and every reader error, parsing returns a statement or an error: it never panics and never returns neither; the same holds for parsing a single expression. Exhausting memory or the stack, through input of unbounded size or nesting, is not covered.",
 ["inputs","fault_sequences"],"every character sequence and reader failure",
 "Tests parse a few hundred statements.",
 [PA,SC,TK],[("panic with error, recovered at the entry points","parser/parser.go: Parse, ParseExpr, error")],
 tech="panic-site enumeration with "+AI)
P("R02","Every statement keyword the parser accepts is parsed or refused",
 "Each keyword accepted at the start of a statement, or where one of several keywords is expected or a clause is optional, leads to parsing of that construct or to an error; there is no accepted keyword for which the parser silently does nothing (apart from SQL's noise words ASC, RESTRICT, COLUMN, OUTER and INNER) or does what it does for another keyword at the same place (apart from ANY and SOME), every keyword a case exists for is accepted there, and what was parsed is not thrown away.",
 ["programs"],"every keyword accepted at every choice point",
 "Tests use the keywords that work.",
 [PA],[("keyword dispatch","parser/parser.go: parseStmt and other keyword choices")],
 tech="exhaustiveness analysis of accepted-keyword sets against handled cases")
P("R03","A parsed literal keeps its value while parsing goes on",
 "The text of an identifier, string or bytes literal in a parsed statement is independent of the scanner: reading more input never changes a literal that was already returned.",
 ["inputs"],"every statement with more than one literal",
 "Tests with two bytes literals in one statement do not exist.",
 [SC,PA],[("token values","parser/scanner/scanner.go: scanBytes, scanString, scanIdentifier")],
 tech=AI+": escape analysis of the scanner's reusable buffer")
P("R04","Operator tables agree with each other",
 "Every operator has a precedence and a printed form, and no two operators of the same arity have the same printed form; the printed form of every binary operator is scanned as one token, which the parser takes for that very operator, and every multi-character operator the scanner knows is one the parser knows too; OR binds looser than AND, AND looser than NOT, NOT looser than comparisons, comparisons looser than arithmetic (and addition looser than multiplication), and arithmetic looser than negation.",
 ["configurations"],"every operator and operator token",
 "Tests use some of the operators in some combinations.",
 [PA,TK,SC]+SQ[1:2],[("tables","parser/parser.go: binaryOps, opPrecedence; parser/sql/expr.go: ops; parser/token/token.go")],
 tech="constant-table consistency over tables extracted from typed syntax")
P("R05","Expression trees respect operator precedence and order",
 "In a parsed expression, an operand of a binary or prefix operator that is itself a binary operation written without parentheses binds at least as tightly as the operator applied to it, and more tightly if it is the right operand, so that operators of equal precedence associate to the left; what is written in parentheses stays together, and the operands and operators appear in the tree in the order they were written.",
 ["inputs"],"every expression",
 "Tests check a few dozen expressions.",
 [PA],[("tree rotation","parser/parser.go: adjustPrecedence, parseSubExpr")],
 tech=AI+": inductive tree invariant")
P("R06","After a syntax error parsing resumes at the next statement",
 "After an error inside a statement, the next call skips exactly the rest of that statement up to and including its terminator and parses the following statement as if it came first; an empty statement consumes only its own terminator, a statement's own terminator is consumed once, and no statement is returned before its terminator (or the end of input) was read.",
 ["inputs","histories"],"every sequence of good and bad statements",
 "Tests check one or two error positions.",
 [PA],[("skip to end of statement","parser/parser.go: Parse")],
 tech=AI+": token-consumption typestate")
P("R07","Every scanning failure carries an error",
 "Whenever the scanner produces an error token it also supplies a non-nil error, every malformed literal, escape, number or comment produces one, and a read error is reported as an error and not as the end of input.",
 ["inputs","fault_sequences"],"every malformed input and reader failure",
 "Tests use a few malformed literals and no failing reader.",
 [SC],[("error tokens","parser/scanner/scanner.go: every place returning an error token")],
 tech=AI+": error-token/error-value pairing on every path")
P("R08","Every parsed statement can be printed",
 "Printing any statement or expression the parser can produce never panics, for every combination of optional parts.",
 ["inputs","programs"],"every statement the parser can build",
 "Tests print a few statements of each kind.",
 SQ+[PA],[("String methods","parser/sql: String methods")],
 tech=AI+": nilness of fields set by the parser and dereferenced by printers",
 na="Not built: a printer's preconditions are facts about the fields of a whole tree (which optional parts go together), and the parser would have to be shown to establish them at every construction, through loops that build unbounded trees; the analysis here keeps no invariants of trees once they leave the function that builds them. That the parser itself cannot panic is R01.")
# ---------------------------------------------------------------- declined
P("N01","Printed statements parse back to the same statement",
 "The printed form of every parsed statement parses to an equal statement.",
 ["inputs"],"every statement","Tests print and compare fixed strings.",SQ+[PA],[("String methods and parser","parser/sql, parser")],
 na="Round-trip equality between two recursive programs over unbounded trees is a value property no sound static argument in reach bounds; the table agreement it needs for operators is claimed as R04.")
P("N02","Parsing terminates and uses bounded stack for any input",
 "Every statement is parsed in time linear in its length and without exhausting the stack.",
 ["inputs"],"every input length and nesting depth","Tests are short.",[PA,SC],[("recursive descent","parser/parser.go")],
 na="The parser is recursive descent with no depth limit, so the property is false for stack depth by design, and time bounds quantify over run-time quantities; static analysis can only confirm the recursion exists.")
P("N03","Committed transactions survive a crash",
 "After a commit returns, its changes are present after a process crash and restart.",
 ["crash_points"],"every crash point","Nothing restarts.",[B],[("none","storage/basic keeps everything in memory")],
 na="The only storage backend is in memory and never writes to disk; there is no durability mechanism to analyse.")
P("N04","Concurrent sessions are serializable",
 "The results of any interleaving of sessions equal those of running their transactions one at a time.",
 ["schedules","histories"],"every interleaving of sessions","Tests are sequential.",[B,SE],[("single store lock","storage/basic/basic.go")],
 na="Serializability quantifies over histories of values; its structural core here (one lock held from before the first read to after publication, private working state) is claimed as S01, S02 and S03 and the remainder cannot be bounded statically.")
P("N05","Queries return the result their SQL denotes",
 "SELECT, INSERT, UPDATE and DELETE statements give the rows SQL prescribes.",
 ["inputs"],"every query and table content","No execution exists.",[EV]+SQ[2:3],[("none","evaluate does not execute queries at this commit")],
 na="Not implemented at this commit: the evaluator rejects query statements, so there is no code to decide it on; that they are rejected cleanly is part of Q02.")

# The properties. P(id, title, statement, over, text, why, files, mechanism, technique, level_note)
# NA(..., reason): not decided by static analysis.
PROPS=[]
def P(id,title,statement,over,text,why,files,mech,technique=None,note=None,na=None):
    PROPS.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,technique=technique,note=note,na=na))

T_AI="path-sensitive dataflow analysis (abstract interpretation of the SSA form with widening)"

P("P01","Opening a file asks the formats in turn and reports the right outcome",
"Opening a file asks each registered format in order, without skipping any. The first format that accepts the file supplies the result; a format reporting that the file is not its own passes it on to the next one, and any other failure ends the attempt and is returned with no source. If every format declines (or there is none), no source and the unknown-format error are returned.",
["inputs","configurations"],"every sequence of outcomes of any number of registered openers",
"Tests open a handful of valid files with the formats linked into one test binary; they never combine declining, failing and accepting openers.",
["grate.go"],[("grate.Open","grate.go Open")],
T_AI,"All paths of the probing loop, every opener having each of the outcomes accept / not in format / other failure; the loop is covered by an inductive scan rule.")
P("P02","Formats are tried in ascending priority, built-in ones in a fixed order",
"Formats are tried in ascending order of the priority they were registered with, whatever the order of registration. Of the built-in formats, binary and XML spreadsheets are tried before tab separated text, and tab separated text before comma separated text.",
["configurations"],"every order of registrations (which depends on package initialisation order) and every set of priorities",
"A test binary has exactly one order of package initialisation.",
["grate.go","xls/xls.go","xlsx/xlsx.go","simple/csv.go","simple/tsv.go"],[("grate.Register","grate.go Register"),("registrations","package level Register calls")],
"table extraction from the package initialisers and dataflow analysis of the registration function and its ordering predicate","Exact for the registrations in the repository; the sort package is trusted to sort.")
P("P04","Combining errors keeps every cause findable",
"An error combined from several errors has the message of the first one, and matches (by identity or by type) every one of the errors it was combined from, however many there are. It matches nothing that none of its causes matches.",
["inputs"],"any number of combined errors and any target",
"Tests never combine more than two errors or look for the later ones.",
["errs.go"],[("WrapErr","errs.go WrapErr"),("Is/As/Unwrap","errs.go errx")],
T_AI,"All paths of the wrapper and of the methods the errors package consults, with an inductive scan over the causes.")
P("P22","The same file always yields the same result",
"What the library returns for a file depends only on the file's content and the calls made: it uses no clock, random number, environment setting, goroutine or other source that can differ between runs. In particular nothing it returns depends on the unspecified order in which a map is iterated.",
["inputs","schedules","histories"],"every file, every map iteration order and every run",
"A test run sees one iteration order per map and cannot tell luck from independence of the order.",
["simple/csv.go","simple/tsv.go","xlsx/xlsx.go","xls/sheets.go","commonxl/formats.go"],[("map iterations","OpenCSV, OpenTSV, sortedKeys")],
"allow-list of nondeterminism sources over the resolved references, and a commutativity analysis of every map iteration","Every reference of every library function and every range over a map. Iterations that are neither sorted nor provably order independent are reported.")
P("P23","Reading one file never changes what is read from another",
"Opening and reading files writes no state shared between files: after package initialisation and the registration of formats, nothing held in package-level variables (tables, caches, scratch buffers) is modified. So independently opened files can be read in any interleaving, also concurrently, without influencing each other.",
["schedules","histories"],"every sequence and interleaving of operations on independently opened files",
"Tests read a few files, one after the other; shared scratch data only shows with particular combinations of files or interleavings.",
["commonxl/formats.go","xls/xls.go","xls/sheets.go","xls/strings.go","xlsx/xlsx.go"],[("package variables","all package-level variables of the library")],
"interprocedural alias and effect analysis of package-level variables","All stores, map updates, appends and calls with mutating methods in the library packages; a sync.Pool is allowed, what is taken from it is tracked separately.")
P("P32","Debug output does not change the result",
"Turning debug output on or off changes only what is logged. The data, errors and lists returned for a file are the same either way.",
["inputs","configurations"],"every file with the debug flag on and off",
"Tests run with one setting of the flag and on files that reach few of the debug statements.",
["grate.go","xls/xls.go","xls/sheets.go","xlsx/sheets.go","xlsx/workbook.go","commonxl/sheet.go"],[("Debug","grate.go Debug and its readers")],
"control dependence and effect analysis of the branches on the debug flag","Every read of the flag in the library; code executed under only one setting may compute and log only.")
P("P33","Reading a file has no side effects",
"The library only reads: it never creates, writes, renames or deletes files, starts processes, uses the network, changes process-wide settings, writes to standard output, or ends the process. Diagnostics go to the log and nowhere else.",
["inputs","histories"],"every file and every sequence of calls",
"Tests compare the returned data and do not watch for effects on rarely reached paths.",
["grate.go","commonxl/sheet.go","xls/xls.go","xlsx/xlsx.go","simple/simple.go"],[("external references","every function of the library packages")],
"allow-list over every resolved reference to code outside of the repository","Every reference (call, function value, method, variable) in every library function.")

P("P05","File handles are released",
"Every file the library opens itself is closed again: when opening fails it is closed before the error is returned, and after a successful opening either the file is already closed or closing the returned source closes it. This holds whatever the content of the file and wherever opening fails, including failures inside the parser that abort it abnormally.",
["inputs","fault_sequences"],"every file content and every failing step while a file is opened, read and closed",
"Tests check the result of opening, not the descriptors left behind, and reach few of the failing steps.",
["xls/xls.go","xlsx/xlsx.go","simple/csv.go","simple/tsv.go","xls/cfb/simple.go"],[("openers","functions registered with grate.Register"),("Close","Close methods of the sources")],
"ownership (typestate) analysis of file handles along every path, with exceptional exits","All paths of every function that acquires a file, with each call succeeding, failing or panicking where it can; helper functions and deferred calls followed.")
P("P07","Malformed files never crash the caller of the public entry points",
"Opening a file, listing its sheets, getting a sheet and closing it never panic, whatever the file contains: a malformed file is reported as an error instead. When an abnormal failure happens inside the parser the call returns a non-nil error and no usable result.",
["inputs","fault_sequences"],"every file content and every construct below the entry points that could panic",
"No finite set of files reaches every index, slice, conversion and allocation in the parsers.",
["xls/xls.go","xls/sheets.go","xlsx/xlsx.go","xlsx/sheets.go","simple/simple.go","simple/csv.go","simple/tsv.go"],[("recover boundaries","deferred functions of Open and Get"),("openers","functions registered with grate.Register")],
"exceptional control flow analysis: panics reaching an entry point must be stopped by a deferred recover that sets the error; the rest is proved panic free construct by construct","Every index, slice, dereference, assertion, division, allocation and call below the entry points; iteration over the rows of a sheet is not covered. Exhaustion of memory or of the stack is not a panic and not covered.")
P("P11","Every cell of a binary sheet is read from its record as the format says",
"In a binary (xls) sheet every number, RK, multiple RK, boolean or error, shared string and formula record of the sheet is stored before the next record is looked at, at the row and column its bytes give, with the value they encode and the number format its style index selects (error values and unknown styles have none). A text following a formula goes to the cell of that formula, error codes show under their names, and all records of the sheet are examined.",
["inputs"],"every sequence of records and every content of their bytes",
"Sample files hold few record types and ordinary values; wrong bits, columns past the first cells of a record or rare combinations of records do not occur in them.",
["xls/sheets.go","xls/structs.go"],[("record loop","xls/sheets.go parseSheet"),("RKNumber","xls/structs.go"),("error names","xls/sheets.go berrLookup")],
"path-sensitive abstract interpretation of the record loop with a bit provenance domain",
"All paths of the sheet parser, each stored row, column, value and format traced bit by bit to the bytes of its record; the storing methods themselves are P29's subject, hyperlink and merge markers P16's.")
P("P12","Records of embedded blocks never leak into the sheet",
"A block nested in a binary sheet (an embedded chart, for instance) may contain further nested blocks. However they are nested and wherever they occur, none of their records stores a cell, sets the dimensions, rejects or ends the sheet, and the records of the sheet after them take effect again.",
["inputs"],"every nesting of begin and end records in a sheet",
"Sample files have at most one level of embedded content.",
["xls/sheets.go"],[("nesting counter","xls/sheets.go parseSheet")],
"path-sensitive abstract interpretation of the record loops, verifying the nesting counter",
"Both passes over the records: the counter's start, its change for every record type and its value at every effect.")

# ---- collections and cells
P("P24","Scanning a row stores the value of each column or reports an error",
"Scanning a row into destinations stores into every destination the value of the column with the same number, converted to nothing but the destination's type, and returns nil only if every destination was set. A column that does not have the destination's type is an error, never another value; for text files a truth value, number or floating point number has to be the spelling the standard parser accepts. A destination which is not a pointer to one of the supported types is the invalid-scan-type error, and more destinations than columns are an error.",
["inputs","histories"],"every row content, every number of destinations and every destination type",
"Tests scan a few rows into destinations which fit; they do not try each destination type against each kind of cell.",
["simple/simple.go","commonxl/sheet.go"],[("Scan","Scan methods of the collections")],
T_AI,"All paths of both Scan methods; every store through a destination is traced to its column. The loop is covered by an inductive scan rule. strconv is trusted.")
P("P25","A row is returned as new slices with one entry per column, in order",
"The texts, types, formats and raw cells of the current row are returned in slices that belong to the caller: changing them changes neither the data nor what is returned later. They have one entry per column, entry i describing column i: its own text, its own type name, its own number format, a copy of its own cell. Blank cells have the empty text and the type blank.",
["inputs","histories"],"every row of every collection, and every later modification of the returned slices",
"Tests compare a few rows of files and never modify what they got or mix the accessors.",
["simple/simple.go","commonxl/sheet.go","commonxl/cell.go"],[("row accessors","Strings, Types, Formats and Raw of the collections"),("type names","commonxl/cell.go CellType.String")],
T_AI,"All paths of the accessors with an inductive scan over the columns. That a row of a sheet has as many cells as the sheet has columns is decided by P29; the text a number format produces is not part of it.")
P("P26","Iteration visits every row once, in order, from the start for every Get",
"Advancing a collection moves to the next row and returns true as long as there is one; after the last row it returns false, and keeps returning false. Reading the current row does not move it. Every time a sheet is asked for, the result starts before its first row and is independent of collections handed out earlier.",
["histories"],"every sequence of asking for sheets, advancing and reading",
"Tests iterate each sheet once from start to end; interleaved iterations and repeated calls after the end are histories they do not contain.",
["simple/simple.go","commonxl/sheet.go","xls/sheets.go","xlsx/xlsx.go"],[("Next","Next methods of the collections"),("Get","Get methods of the sources")],
"path-sensitive dataflow analysis of Next and the accessors, value source tracing of Get and a whole-program store rule for the position","All paths of Next and the accessors, every store to the position in the program, every source of the values returned by Get.")
P("P30","A sheet is empty exactly if it has no value",
"Asking a collection whether it is empty yields false if at least one cell of any of its rows has a value (for text files: if there is at least one row), and true otherwise. Cells which only mark merged areas count as values.",
["inputs"],"every arrangement of blank and other cells",
"Tests use sheets with a value in the first rows or no rows at all.",
["simple/simple.go","commonxl/sheet.go"],[("IsEmpty","IsEmpty methods of the collections")],
T_AI,"All paths with nested inductive scans over rows and cells.")
P("P29","Values are stored at their own row and column and nothing is lost",
"Storing a value in a sheet puts it and its number format into the cell at the given row and column, enlarging the sheet if needed, and changes no other cell. Enlarging keeps every row and cell, and gives every row the width of the sheet; a sheet never shrinks. Adding a formula's text or a hyperlink changes only the cell at the given position, keeps the value and number format of a cell that gets a link, and is ignored outside of the sheet.",
["inputs","histories"],"every sequence of storing values, texts and links at any position, and of resizing",
"Tests read files whose cells are inside of the declared dimensions, in order, with few kinds of values.",
["commonxl/sheet.go","commonxl/cell.go"],[("Put, Resize, Set, SetURL","commonxl/sheet.go"),("Cell.SetURL, Cell.SetFormatNumber","commonxl/cell.go")],
T_AI,"All paths for every kind of value; index proofs use linear arithmetic on the sizes. Rows and columns are assumed not to be negative (P11, P36 establish that for the callers).")
P("P37","The type of a cell describes the value it holds",
"Whatever value is stored with whatever number format, the cell holds a value of the type it reports: an integer a 64 bit integer, a float a 64 bit float, and likewise for text, truth values and dates; a blank cell has no value. Without a number format the value is kept as it is: no number changes or wraps around when it is stored.",
["inputs"],"every type of value accepted, combined with every cell type",
"Tests store a few of the more than fifteen types of values and only check the rendered text.",
["commonxl/cell.go","commonxl/sheet.go"],[("NewCell","commonxl/cell.go NewCell"),("NewCellWithType","commonxl/cell.go NewCellWithType"),("Put","commonxl/sheet.go Sheet.Put")],
T_AI,"All paths of the constructors and of Put for every dynamic type of value and every cell type.")
P("P16","Every cell covered by a merged area or a long link shows its place in it",
"In both kinds of spreadsheets every cell covered by a merged area except its first one holds the marker of its place (within the dimensions of the sheet): the down marker in the first column, ending in its last row with the end-of-rows marker, and the right marker in the other columns, ending in the last column with the end-of-columns marker. No other cell is changed, every area of the sheet is handled, and areas or links of the old format which reach to the placeholder for the last row or column end with the dimensions of the sheet. A link of the old format over several cells is laid out in the same way with its text and target in the first cell.",
["inputs"],"every merged area and link: every corner, number of areas, placeholder and size of the sheet",
"The sample files hold a few small areas, and the expected output was produced by the code itself.",
["xls/sheets.go","xlsx/sheets.go"],[("merged areas and links","xls/sheets.go parseSheet"),("merged areas","xlsx/sheets.go parseSheet")],
"relational abstract interpretation of the loops over an area with inferred bounds, covering every cell by a rigid witness","Both parsers on all paths: which cells the loops reach is decided for an arbitrary covered cell and an arbitrary visited cell, each stored marker against the corner of the area, corners traced to the bytes or the attribute they come from. Areas whose first corner lies outside the sheet and hyperlinks of the XML format are not covered.")
P("P17","Text stored in a cell is returned unaltered",
"Text put into a spreadsheet cell is what is returned as the text of that cell, whatever number format, date format or type the cell has: it is never reinterpreted as a number, date or truth value, padded, trimmed or formatted. The same holds for the text results of formulas. Only the markers of merged areas are treated differently.",
["inputs"],"every text with every number format",
"Tests use number formats on numbers; text in cells with number or date formats does not occur.",
["commonxl/sheet.go","commonxl/cell.go","commonxl/formats.go"],[("Put, Set, Strings","commonxl/sheet.go"),("Formatter.Apply","commonxl/formats.go")],
T_AI,"All paths from storing to rendering. How the text is decoded from the file is decided elsewhere (P15, P20).")
P("P15","Shared strings keep their text and their index",
"In an Office Open XML workbook every item of the shared string table is read as exactly one string, in document order, so that the index stored in a cell selects the right one. Its text is the concatenation of the character data of its text elements, plain or in rich runs, without phonetic hints and with nothing trimmed, however the parser splits it into pieces; an empty item is an empty string. The table is read to its end, or an error is returned.",
["inputs"],"every document of the shared string table and every split of its text into tokens",
"Sample workbooks hold few rich strings, no phonetic hints in odd places, no empty items, and short texts which arrive in one piece.",
["xlsx/workbook.go"],[("parseSharedStrings","xlsx/workbook.go parseSharedStrings")],
"product of the token loop with the grammar of the document, analysed to a fixed point by abstract interpretation; transition summaries of every variable per token","All well formed documents of the stated grammar with unknown elements anywhere; elements named like known ones but in unexpected places are outside of it.")
P("P36","Cells of an Office Open XML sheet keep position, value and format",
"In an Office Open XML worksheet every cell with a value is stored once, at the row and column its reference names, with the number format its style selects, and nothing is stored for a cell without a value. The value is what its type says (number, boolean, error name, shared string by index, text or inline text), taken from the whole text of the value and not from the formula, other cells or phonetic hints; a number which cannot be read is kept as text. The sheet is read to its end, or an error is returned.",
["inputs"],"every worksheet document, every cell reference, type and style, and every split of the text into tokens",
"Sample sheets hold few cell types, small references and ordinary sequences of cells; they never combine absent attributes with what the cell before left behind.",
["xlsx/sheets.go","xlsx/types.go"],[("parseSheet","xlsx/sheets.go parseSheet"),("refToIndexes","xlsx/types.go refToIndexes, col2int"),("Document.Get","xlsx/xlsx.go Get")],
"product of the token loop with the grammar of the document, following one arbitrary cell, analysed to a fixed point by abstract interpretation; recurrence analysis of the reference parser","One arbitrary cell among arbitrary others, for every type, with and without style. ISO date cells (type d) and cells without a reference are outside of the grammar.")
P("P35","Cell styles of an Office Open XML workbook select the right number format",
"Every cell style of an Office Open XML style sheet becomes exactly one entry of the style table, in document order, and nothing else changes the table. The entry is the number format of the style: the general one if the style says that none is applied, else the one it names, else that of the base style it refers to. Custom number formats are registered with their own number and code, and the style sheet is read to its end, or an error is returned.",
["inputs"],"every style sheet, and every combination of the attributes of styles and base styles",
"Sample workbooks name the number format in every style and hardly ever use base styles with formats, so inheritance and the order of the attributes' effects are not exercised.",
["xlsx/workbook.go"],[("parseStyles","xlsx/workbook.go parseStyles"),("getAttrs","xlsx/types.go getAttrs")],
"product of the token loop with the grammar of the style sheet, analysed to a fixed point by abstract interpretation; transition summaries of the style lists per token","Every presence of numFmtId, applyNumberFormat (absent, 0, 1) and xfId, with unknown elements anywhere. Attribute values are assumed to be the decimal numbers the format requires.")
P("P34","Styles, formats, strings and sheets of a binary workbook come from its records",
"When a binary workbook is loaded, every cell style, number format, sheet and date system record adds exactly its own entry, made of the bytes the file format assigns to it, in the order of the records, and the shared strings are read from the shared string record together with all continuation records directly after it. No other record changes any of these. The records of all blocks of the stream are examined, and a well formed workbook of the supported version is not rejected.",
["inputs"],"every sequence of records of a binary workbook",
"Sample workbooks are written by a few programs which use the records in the same order, with few continuations and small numbers.",
["xls/xls.go","xls/strings.go"],[("loadFromStream2","xls/xls.go second pass over the records"),("parseSST","xls/strings.go called with the gathered records")],
"path-sensitive abstract interpretation of the record loops with a bit provenance domain","All paths of the loop body for every kind of record and every content, with inductive scan rules for the loops over blocks, records and continuations. The decoding of the strings themselves is not part of it, nor is decryption.")
P("P13","Sheets are listed and opened by their names",
"Listing the sheets of a workbook returns their names in the order of the workbook; for binary workbooks those which are not hidden, while the hidden ones (by the two low bits of the state) are listed separately. Asking for a name opens the contents of the first sheet with exactly that name, hidden or not, and a name no sheet has is an error. In Office Open XML every sheet element with a name and a relationship id becomes exactly one sheet, connected to the worksheet part that id identifies.",
["inputs"],"every list of sheets with every name, state, position and relationship, and every name asked for",
"Sample workbooks have few sheets with distinct names, none very hidden, and relationship ids in the order of the sheets.",
["xls/sheets.go","xlsx/workbook.go","xlsx/xlsx.go"],[("List, ListHidden, Get","xls/sheets.go"),("parseWorkbook","xlsx/workbook.go"),("List, Get","xlsx/xlsx.go")],
"path-sensitive abstract interpretation with inductive scan rules for the lists of sheets, and a product of the token loop of the workbook with its grammar","All paths for an arbitrary sheet list. That the position of a binary sheet leads to its records is not part of it; P34 decides how sheet records are read.")
P("P38","An Office Open XML package is read from the parts its relationships name",
"Every relationship is kept under its type and id with the part its target names (absolute, or relative to the directory of the part it belongs to), and the main document is the target of the officeDocument relationship. Opening a package reads its relationships, those of the main document, the main document and every styles and shared strings part, each from the entry with exactly the name its relationship gives. The workbook is returned exactly if all of them could be read; otherwise opening fails.",
["inputs"],"every package: every list of entries, every set of relationships with every target, every failure of a part",
"Sample workbooks use the usual names and directories, relative targets, one part of each kind, and none of their parts is missing or damaged.",
["xlsx/xlsx.go","xlsx/workbook.go"],[("Open, openXML","xlsx/xlsx.go"),("parseRels","xlsx/workbook.go parseRels")],
"path-sensitive abstract interpretation: product of the token loop with the grammar of a relationships part, and a typestate of the steps of Open","All paths of the reader of relationships and of Open. How the parts themselves are read is decided by P13, P15, P35.")
P("P39","The stream of a binary workbook is split into records as their headers say",
"The stream of a workbook which is not encrypted is split into records in order and without gaps: each record has the type its header gives and exactly the bytes its header counts. A block starts at every beginning-of-file record which is not nested in another substream, holds all the records up to the next such record, and is found by its position in the stream. The stream is read to its end; a record whose data is cut off is an error.",
["inputs"],"every stream: every sequence of records of every type, length and nesting, cut off at every byte",
"The sample workbooks are well formed, with few embedded substreams, all of them nested the same way; a record lost at a block border or an offset wrong after the first embedded substream shows in none of them.",
["xls/xls.go"],[("loadFromStream2, nextRecord","xls/xls.go")],
"path-sensitive abstract interpretation: product of the splitting loop with the events of a record stream, inductive invariants relating loop variables to depth, position and blocks","All paths of the record reader and of the splitting loop. Encrypted streams are left out: the loop decrypts blocks in place after the split.")

P("P31","A stream of a compound file is the sectors of its chain, in order",
"Given the allocation tables and the directory of a compound file, opening a stream delivers exactly the bytes of the sectors on its chain, in order and cut to its size; streams below the limit of the header are taken from the mini stream, which is put together in the same way. The stream opened is one the directory lists under the name asked for. Opening fails only if no such stream exists, the chain ends before the size is reached or a place is behind the end of the file, and reading in pieces of any size delivers each byte once.",
["inputs"],"every stream name, directory, allocation table, chain order, stream size, sector size and limit, and every sequence of read sizes",
"The sample files hold a few streams stored in consecutive sectors and read with one buffer size; fragmented chains, sizes at a sector border or at the limit and mini streams over several sectors do not occur in them.",
["xls/cfb/interface.go","xls/cfb/cfb.go","xls/cfb/slicereader.go"],[("Document.Open, getStreamReader, getMiniStreamReader","xls/cfb"),("SliceReader.Read","xls/cfb/slicereader.go")],
"path-sensitive abstract interpretation: inductive roles (current sector, number of sectors, bytes missing) of the loop variables, offsets compared as polynomials","All paths of opening a stream and of reading from it. How the tables and the directory are read from the file is not part of it, nor is seeking.")

P("P28","A failure to read or decode a file is reported, not swallowed",
"If a step of opening a file or a sheet reports a failure other than the end of the data, be it reading the file, unpacking or parsing one of its parts, or a routine that decodes them, then opening that file or sheet ends in an error. It never returns the part read before the failure as if it were everything. Only a hyperlink whose destination is not understood is skipped.",
["inputs","fault_sequences"],"every failure of every reading or decoding step, at every point of every file",
"Tests read complete files from a disk that works; each step would have to be made to fail at each point where it can, after each amount of data.",
["xls/xls.go","xls/sheets.go","xls/cfb/cfb.go","xlsx/xlsx.go","xlsx/sheets.go","xlsx/workbook.go","simple/csv.go","simple/tsv.go"],[("error results of the reading functions","xls, xls/cfb, xls/crypto, xlsx, simple"),("Open, Get","xls/xls.go, xlsx/xlsx.go, simple")],
"path-sensitive dataflow of error values: function by function, every call that can fail is followed to the error result on every path","Every function of the reading packages that is reachable from outside, with every call of the standard library that reads and of the package's own functions with an error result. Failures a decoder itself does not report are not part of it (P12, P39 decide some), nor are failures to close.")
P("P27","The parallel extractor handles every file once and ends after its output",
"Each file named on the command line of the parallel extractor is taken by exactly one worker and reported in the results file, with its error or with one line for each of its sheets, and one file's failure does not keep the others from being handled. An output file is used by one goroutine at a time, is flushed and then closed, and only then are its buffers used again. The command ends exactly when all workers have ended and all outputs have been written, with any number of processors.",
["schedules","inputs"],"every interleaving of the workers with the goroutine that completes the outputs, every number of processors, files and sheets and every failure of a file",
"There are no tests of the command; a test would see the few interleavings its machine happens to produce.",
["cmd/grate2tsv/main.go"],[("main, runProcessor, processFile","cmd/grate2tsv/main.go")],
"typestate and ownership analysis of the goroutines, channels, wait group, mutex and pooled outputs on every path","Each goroutine is analysed on all of its paths, with outcomes of external calls left open. Two sheets whose output names coincide are not covered, nor is what is written for a row.")
P("P40","The tools write every row once, cell by cell, and lose no sheet",
"Both tools take the rows of every listed sheet of a file to the end and write each once as one line, its cells in order with one tab between them; the extractor to standard output, which also goes on with the next file or sheet after reporting an error, the parallel one to the file of the sheet. The parallel one changes the cells as its options say and in no other way (white space condensed to one space, surrounding space removed) and leaves out a row only if asked to and if all of its cells are then empty. It has exactly one result for each listed sheet with its name, its error and the number of rows written.",
["inputs","fault_sequences"],"every number of files, sheets, rows and cells, every text, every setting of the options and every failure to open, list or read",
"There are no tests of the commands; a test would have to combine options, failures, blank rows and unusual texts.",
["cmd/grate2tsv/main.go","cmd/grater/main.go"],[("processFile","cmd/grate2tsv/main.go"),("main","cmd/grater/main.go")],
"typestate analysis of the line written for each row (automaton over cells, tabs and newlines) on all paths, with inductive facts on loops","All paths of both tools with outcomes of external calls left open; failures of writes are not covered, nor the debug output, the names of the output files or the number of columns told.")

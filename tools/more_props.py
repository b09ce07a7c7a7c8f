SYM = ("Collections are abstracted to one arbitrary tracked element among any number of others, other values to terms, so the "
       "verdict holds for every file and every number of files. ")

prop("C14", "Every file change reaches the analysis, exactly and once",
     "After a turn of the main loop in which the file system changed, the analysis has, for every created, modified or deleted "
     "file, exactly the file's current text (the empty text for deleted or undecodable files). When a file is created or deleted, "
     "the source roots are partitioned again and set before any text: the file is assigned to the root that lists it, the root "
     "is in the set of local or of library roots as configured, and root, assignment and text are durable if it is a library.",
     ["inputs", "histories"], "every set of changes found in one turn, for any files",
     "No test runs a change through the server's state into the database; mistakes show for particular mixes of changes.",
     ["crates/move_language_server/src/global_state.rs", "crates/move_language_server/src/reload.rs", "crates/ide/src/lib.rs",
      "crates/ide_db/src/apply_change.rs", "crates/base_db/src/change.rs"],
     [("process_changes", "crates/move_language_server/src/global_state.rs"), ("Change::apply", "crates/base_db/src/change.rs"),
      ("set_local_roots", "crates/ide_db/src/apply_change.rs")],
     "symbolic abstract interpretation of MIR from the main loop to the database setters (dataflow)",
     BASE + SYM + "File paths are taken to be real ones (the server adds no virtual paths).")

prop("C19", "The text analysed has normalized line endings, and the original ones are remembered",
     "The text given to the analysis for a file is the file's contents passed through line ending normalization, and the line "
     "endings which that normalization found are recorded for that same file at every change, so that positions are computed on "
     "the same text that was analysed. Normalization turns each CRLF into a line feed and changes nothing else, and says Unix only of a text "
     "that it did not change.",
     ["inputs", "histories"], "every change of every file whose contents are UTF-8; for normalization, texts of up to four pieces (thorough: six), each a CR, LF, CRLF or other character",
     "The unit test of normalize calls it directly; what the server does with its results is not tested.",
     ["crates/move_language_server/src/global_state.rs", "crates/move_language_server/src/line_index.rs"],
     [("LineEndings::normalize", "crates/move_language_server/src/line_index.rs"),
      ("process_changes", "crates/move_language_server/src/global_state.rs")],
     "symbolic abstract interpretation of MIR (dataflow); abstract interpretation of normalize over texts by character class",
     BASE + SYM + "For longer texts the value that normalize computes is trusted.")

prop("C15", "The virtual file system reports exactly the files that changed",
     "Setting a file's contents stores them and logs one change of the right kind (create, modify, delete) exactly when the "
     "contents differ from before; taking the changes yields the whole log once and empties it; the readers show a file as "
     "present exactly while it has contents, and nothing else writes the contents or the log.",
     ["inputs", "histories"], "every combination of previous and new contents, of any file, and every sequence of calls",
     "The vfs tests are about path sets; none covers the change log, whose mistakes need e.g. a deletion of an absent file.",
     ["crates/vfs/src/lib.rs"],
     [("set_file_contents", "crates/vfs/src/lib.rs"), ("take_changes", "crates/vfs/src/lib.rs")],
     "symbolic abstract interpretation of MIR over all value combinations, and a who-writes-what query",
     BASE + SYM)

prop("C21", "Open documents mirror the client's",
     "didOpen gives the file the opened text and remembers the document with its version, also if it was already open; didChange "
     "sets the file's contents to the result of applying the content changes to what it held and the remembered version to the "
     "notification's, and leaves everything alone if the document is not open; didClose forgets the document. The result of a list of changes, of the whole text or of "
     "ranges, is that of applying them one after another. Other documents "
     "are never touched and a URI that is not a file path changes nothing.",
     ["inputs", "histories"], "every such notification, for an open or an unknown document",
     "No test sends document notifications; mistakes need an out-of-order open, change or close.",
     ["crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/mem_docs.rs"],
     [("on_notification", "crates/move_language_server/src/main_loop.rs"), ("MemDocs", "crates/move_language_server/src/mem_docs.rs")],
     "symbolic abstract interpretation of MIR from the main loop to the stores (typestate of documents)",
     BASE + SYM + "Lists of changes: up to three whole texts, up to two ranges of a text of five characters on three lines, of various widths.")

prop("C20", "New diagnostics of a workspace file reach the client, complete and with the right version",
     "When diagnostics of a file arrive and differ from those known (in number, or in range, severity or message of any), one "
     "publishDiagnostics is sent in that turn for exactly that file's URL, with all its diagnostics from both sources (an empty list "
     "if none is left), with the version of the open document or none if it is not open. Files of libraries are never published.",
     ["inputs", "histories"], "every relation between the new and the known diagnostics of any files",
     "No test looks at what is published; mistakes need a particular difference between consecutive diagnostics.",
     ["crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/diagnostics.rs"],
     [("set_native_diagnostics", "crates/move_language_server/src/diagnostics.rs"),
      ("handle_event", "crates/move_language_server/src/main_loop.rs")],
     "symbolic abstract interpretation of MIR of one turn of the main loop (dataflow)",
     BASE + SYM)

prop("C08", "The main loop and the workers never block each other for ever",
     "No thread waits while it holds what others wait for: while the lock of the virtual file system (or any other) is held, the "
     "thread acquires no lock, does not change the database (which waits until every snapshot is gone) and waits for no thread; "
     "and no thread changes the database while it holds a snapshot itself.",
     ["schedules", "inputs"], "every interleaving of the main loop and the workers",
     "Tests run no server; a deadlock needs a worker to stand at one point while the main loop stands at another.",
     ["crates/move_language_server/src/global_state.rs", "crates/move_language_server/src/main_loop.rs",
      "crates/move_language_server/src/thread_pool.rs"],
     [("process_changes", "crates/move_language_server/src/global_state.rs"),
      ("update_diagnostics", "crates/move_language_server/src/main_loop.rs")],
     "dataflow of held guards and snapshots over MIR with interprocedural effect summaries",
     BASE + "Closures given to the thread pool or to a new thread run elsewhere; closures given to any other call run in it.")

prop("C12", "Standard output carries the protocol and nothing else, to the end",
     "No code of the server writes to standard output, hands it to a logger or lets a child process inherit it: only the one "
     "protocol connection does, and when the main loop has ended normally the process waits until all its messages are written.",
     ["inputs", "histories"], "every path through the server's code, including logging set-up and rarely taken branches",
     "A stray write corrupts the message framing only when its branch is taken; tests never run the binary.",
     ["crates/move_language_server/src/bin/move_language_server.rs", "crates/move_language_server/src/logger.rs"],
     [("run_server", "crates/move_language_server/src/bin/move_language_server.rs"),
      ("Logger::install", "crates/move_language_server/src/logger.rs")],
     "effect analysis over the call graph, and typestate of the connection",
     BASE + "External crates other than std and tracing are assumed not to write to standard output by themselves.")

prop("C13", "The analysis depends on nothing but the text",
     "Parsing, line index and diagnostics are functions of the database's inputs: they read no file, environment, clock, random "
     "source, thread state or static that can change, use no lock or atomic, and no result depends on the order of a randomly "
     "seeded hash table or on an address. So memoized and repeated results agree, on every thread.",
     ["inputs", "schedules", "histories"], "every text, every order of queries, every thread",
     "Tests parse each text once in one process; hidden state shows only across calls, threads or runs.",
     ["crates/parser/src", "crates/syntax/src", "crates/ide_db/src", "crates/ide_diagnostics/src/lib.rs", "crates/ide/src/lib.rs"],
     [("parse_query", "crates/base_db/src/lib.rs"), ("diagnostics", "crates/ide_diagnostics/src/lib.rs")],
     "effect analysis over the call graph of the queries",
     BASE + "External crates (rowan, salsa, text-size) are assumed pure. Writing to standard error and tracing are allowed.")

prop("C07", "Every syntax error of an open document is reported, once, as an error",
     "In the turn in which a document is opened or files change, every open document is analysed again; each error the parser records "
     "for its current text (the first 128 of them) yields exactly one diagnostic, of that document, carrying the error's message, with "
     "severity Error. No parser error is lost or doubled between the parser's events and the syntax tree, or by the parser taking back events.",
     ["inputs", "histories"], "every text with any number of errors, every set of open documents",
     "The tests compare a few parse trees; nothing drives a document from didOpen to its diagnostics.",
     ["crates/ide_diagnostics/src/lib.rs", "crates/syntax/src/lib.rs", "crates/syntax/src/parsing", "crates/parser/src/event.rs",
      "crates/parser/src/parser.rs", "crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/handlers.rs"],
     [("diagnostics", "crates/ide_diagnostics/src/lib.rs"), ("publish_diagnostics", "crates/move_language_server/src/handlers.rs"),
      ("process", "crates/parser/src/event.rs"), ("SourceFile::parse", "crates/syntax/src/lib.rs")],
     "symbolic abstract interpretation of MIR from the main loop through the worker and the queries to the message sent (dataflow)",
     BASE + SYM)

prop("C18", "Positions are those of the file's own text, in the encoding that was negotiated",
     "The range of each diagnostic is computed from the error's own start and end with the line index of that same file's current text. "
     "Every function between offsets and LSP positions converts columns for UTF-16 exactly when UTF-16 is in use. UTF-8 is used, and is "
     "announced in the result of initialize, exactly when the client's capabilities list it.",
     ["inputs", "configurations"], "every text and offset, clients with and without UTF-8 support",
     "The encoding is fixed per client; tests convert no position at all, and ASCII text hides a wrong encoding.",
     ["crates/move_language_server/src/to_proto.rs", "crates/move_language_server/src/from_proto.rs",
      "crates/move_language_server/src/handlers.rs", "crates/move_language_server/src/config.rs",
      "crates/move_language_server/src/lsp_ext.rs", "crates/move_language_server/src/bin/move_language_server.rs"],
     [("position", "crates/move_language_server/src/to_proto.rs"), ("offset", "crates/move_language_server/src/from_proto.rs"),
      ("supports_utf8", "crates/move_language_server/src/lsp_ext.rs"), ("run_server", "crates/move_language_server/src/bin/move_language_server.rs")],
     "symbolic abstract interpretation of MIR, for both encodings (dataflow)",
     BASE + SYM + "LineIndex's own arithmetic is trusted here.")

prop("C27", "Tokens are what the language says they are",
     "At the start of any text the lexer finds the longest token of the language: a name ends where name characters end and is a keyword "
     "exactly when it is spelled like one; punctuation is the longest that matches; numbers take in their digits and a type suffix; a comment "
     "ends with its line; a byte string at its first quote that is not escaped; an error token is an unterminated byte string or a single "
     "character that starts no token. The tables from spellings to kinds and back agree.",
     ["inputs"], "every text: any characters, multi-byte ones included, in any combination and ending anywhere",
     "The tests lex a handful of well-formed files; a longer operator, a suffix or a character next to it changes which token is found.",
     ["crates/parser/src/lexer.rs", "crates/parser/src/syntax_kind/generated.rs", "crates/parser/src/syntax_kind.rs"],
     [("find_token", "crates/parser/src/lexer.rs"), ("from_keyword", "crates/parser/src/syntax_kind/generated.rs")],
     "abstract interpretation of the lexer's MIR over sets of texts (character class per byte offset)",
     BASE + "Texts are followed for 7 bytes; what the lexer decides further on is not judged.")

prop("C03", "The syntax tree holds the whole text, in the shape the grammar gave it",
     "For every text, the leaves of the syntax tree, in order, are the tokens the lexer finds, each once, with its own text and kind, so "
     "that their concatenation is the text; the tree has one root; its nodes nest as the grammar opened, completed, preceded, undid or "
     "abandoned them, and contain the tokens that were consumed meanwhile. Looking ahead finds the token that is consumed next, whatever "
     "whitespace and comments lie between.",
     ["inputs"], "every list of tokens with whitespace and comments anywhere in it, every nesting of nodes",
     "The tests dump the trees of some well-formed files; comments in odd places, nested preceding nodes and long tokens are not among them.",
     ["crates/parser/src/lexer.rs", "crates/parser/src/parser.rs", "crates/parser/src/marker.rs", "crates/parser/src/event.rs",
      "crates/syntax/src/parsing", "crates/syntax/src/syntax_node.rs", "crates/syntax/src/parsing.rs"],
     [("process", "crates/parser/src/event.rs"), ("TextTreeSink", "crates/syntax/src/parsing/text_tree_sink.rs"),
      ("lookahead_nth", "crates/parser/src/lexer.rs"), ("precede", "crates/parser/src/marker.rs")],
     "abstract interpretation of MIR from the text to the tree builder's calls, over token lists of symbolic lengths",
     BASE + "rowan's green tree builder is trusted. Lists of up to 4 tokens (thorough: 5), with up to three nodes below the root; the "
     "grammar is stood for by sequences of calls of the parser's interface.")

prop("C26", "Typed nodes and tokens agree with the tree they are views of",
     "For every type of the AST layer and every syntax kind: a node or token can be cast exactly if can_cast says so; the typed value holds "
     "that very node and gives it back; a type stands for the kind of its name, an enum for the kinds of its variants and makes each the right "
     "variant. An accessor finds the first token of its kind among the node's own children, the child of its type that its position in the "
     "grammar says (so the right operand is not the left one), or all children of its type in order.",
     ["inputs"], "every kind of node and token, every list of children",
     "The tests only cast the root; one wrong row in a generated table shows up for one kind only.",
     ["crates/syntax/src/ast.rs", "crates/syntax/src/ast"],
     [("AstNode", "crates/syntax/src/ast.rs"), ("support", "crates/syntax/src/ast.rs"), ("Expr", "crates/syntax/src/ast/nodes.rs"),
      ("IntegerNumber", "crates/syntax/src/ast/tokens.rs")],
     "abstract interpretation of MIR, exhaustive over the syntax kinds and over shapes of child lists",
     BASE + "rowan's children, kind and siblings are trusted; child lists of up to 14 elements.")


prop("C16", "Positions are numerically right",
     "For every text and every offset on a character boundary, the position given to the client has the number of line feeds before it as its line and the "
     "number of bytes or UTF-16 units since the last one, as was agreed, as its column; and converting that position back gives the offset.",
     ["inputs"], "texts of up to four characters (thorough: five), each a line feed or any character of 1, 2, 3 or 4 bytes; every boundary; both encodings",
     "The tests convert a handful of offsets; mistakes need e.g. a wide character on an earlier line or two on one line.",
     ["crates/ide_db/src/line_index.rs", "crates/move_language_server/src/from_proto.rs", "crates/move_language_server/src/to_proto.rs"],
     [("LineIndex", "crates/ide_db/src/line_index.rs"), ("position", "crates/move_language_server/src/to_proto.rs"),
      ("offset", "crates/move_language_server/src/from_proto.rs")],
     "abstract interpretation of MIR over texts known by the class of each character",
     BASE + "Characters of a class are not told apart; longer texts are not covered. Vec, HashMap and partition_point of the standard library are modelled.")


def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech, na=reason)


na("N03", "A newer diagnosis is never overwritten by an older one",
   "For every schedule, the diagnostics the client shows last are those of the last text.",
   ["schedules"], "every interleaving of the diagnostics tasks with changes", "Tests see one schedule.",
   ["crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/diagnostics.rs"], [("update_diagnostics", "crates/move_language_server/src/main_loop.rs")],
   "needs exploration of schedules of several tasks in flight (model checking), not a property of the source's dataflow")
na("N04", "Expressions have the shape that Move gives them",
   "For every sentence of Move, operators bind with Move's precedence and associativity.",
   ["inputs"], "every sentence", "The tests dump a few trees.",
   ["crates/parser/src/grammar"], [("expr_bp", "crates/parser/src/grammar/expressions.rs")],
   "needs a Move grammar as the oracle and parse results of sentences, i.e. running the parser, concretely or symbolically")
na("N05", "Nesting cannot exhaust the stack",
   "For every text, parsing uses a bounded amount of stack.",
   ["inputs"], "every depth of nesting", "Tests do not nest deeply.",
   ["crates/parser/src/grammar"], [("expr", "crates/parser/src/grammar/expressions.rs")],
   "does not hold (recursive descent without a limit), and the bytes of stack used at run time are not bounded by anything in the source")
na("N06", "A file belongs to the source root with the longest matching prefix",
   "For every set of roots and every path, the file is put into the set whose prefix is longest.",
   ["inputs"], "every set of roots and every path", "The tests classify a few paths.",
   ["crates/vfs/src/file_set.rs"], [("FileSetConfig", "crates/vfs/src/file_set.rs")],
   "decided by values of path strings in a finite-state transducer of a dependency")

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[f"crates/{f}" for f in files],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Graph sorting gives a dependency-first order, or a node on a real cycle",
  "For every finite directed graph, sorting succeeds exactly when the graph has no cycle. On success the order contains every node that appears as a node or as a neighbour exactly once, each after all of its neighbours; on failure the reported witness is a node that lies on a cycle of the graph.",
  ["inputs"], "all finite directed graphs, including self-loops, neighbours that are not keys, disconnected and deep graphs",
  "The existing tests pin eight hand-written graphs of at most nine nodes and never look at which node the cycle witness is.",
  ["topo-sort/src/graph.rs", "topo-sort/src/lib.rs"],
  [("explicit-stack depth-first search with Start/End actions", "crates/topo-sort/src/lib.rs Work::run"), ("order recorded at exit", "crates/topo-sort/src/graph.rs Visitor::exit")],
  ["topo_sort::graph::get", "topo_sort::graph::CycleError::witness"])

p("C02", "Work-list traversal drives its visitor as a well-nested depth-first walk",
  "For every work list and every visitor (which may decline elements and may add more work while processing), each processed element is processed once and exited once, exits are well nested, an element is exited only after everything it added has been finished, declined or found still open, the level passed at an exit is the number of elements still open, and the returned done set is exactly the processed elements. A cycle is reported exactly when an element not yet finished was met again while still open, and it is the first such element. The outcome is the same for ordered and hashed element sets.",
  ["inputs", "histories"], "all finite element universes, initial work lists, skip predicates and per-element lists of pushed work (with duplicates), and all provided set types",
  "No test uses the work list directly; the graph tests use one visitor that never skips and one set type.",
  ["topo-sort/src/lib.rs"],
  [("level counter and cur/done sets", "crates/topo-sort/src/lib.rs Work::run"), ("Set impls", "crates/topo-sort/src/lib.rs impl Set for BTreeSet / HashSet")],
  ["topo_sort::Work::run", "topo_sort::Visitor callbacks", "topo_sort::Ret"])

p("C03", "A chain map and its clones behave as independent ordinary maps",
  "Over every history of operations on a family of chain maps and their clones, every result (lookup, mutation through lookup, insertion and removal results, emptiness, iteration, draining, conversion) is what independent ordinary maps would give, and iteration yields each live key exactly once with its most recent value. Changes to a map are never seen by its clones or the map it was cloned from. Appending one map onto another makes the appended entries take precedence and leaves the appended map empty.",
  ["histories", "configurations"], "all operation histories over several maps and clones, with and without the thread-safe feature",
  "One smoke test inserts one key into one map; shadowing, cloning, consolidation, append and removal are never exercised.",
  ["chain-map/src/lib.rs"],
  [("stack of shared maps searched newest first", "crates/chain-map/src/lib.rs ChainMap::get"), ("consolidation before mutation", "crates/chain-map/src/lib.rs ChainMap::consolidate_"), ("deduplicating iteration", "crates/chain-map/src/lib.rs ChainMap::iter")],
  ["chain_map::ChainMap public methods and trait impls"])

p("C04", "Applying text changes equals editing the text one change at a time",
  "For every text and every list of changes, the result is the text obtained by starting from the last whole-document replacement (or from the original text if there is none) and then performing each later ranged replacement in order, each against the text as it then stands, with positions counted as lines and UTF-16 code units. A change whose range does not exist in the text at that point, or starts after it ends, is ignored, and no such list makes the operation crash.",
  ["inputs", "histories"], "all texts (any Unicode, any number of lines) and all change lists, backwards and out-of-range ranges included",
  "apply-changes has a test target with no tests at all; the line-index reuse shortcut depends on the order of the changed lines.",
  ["apply-changes/src/lib.rs", "text-pos/src/lib.rs"],
  [("last full change wins", "crates/apply-changes/src/lib.rs get"), ("index reuse bounded by the first changed line", "crates/apply-changes/src/lib.rs get, index_valid")],
  ["apply_changes::get"])

p("C05", "Byte offsets convert to the right line and UTF-16 column, and back",
  "For every text and every byte offset, conversion to a position gives the number of newlines before the offset and the number of UTF-16 code units between the last of them and the offset, and converting that position back gives the same offset. Offsets past the end of the text or inside a character are rejected, and a range converts exactly when both of its ends do, end by end. Positions are ordered as the offsets they stand for.",
  ["inputs"], "all texts and all offsets and ordered offset pairs",
  "Tests look at fifteen offsets of two ASCII texts, through a private UTF-8 interface; UTF-16 conversion is untested.",
  ["text-pos/src/lib.rs"],
  [("line and column lookup", "crates/text-pos/src/lib.rs PositionDb::position_utf16"), ("range conversion", "crates/text-pos/src/lib.rs PositionDb::range_utf16")],
  ["text_pos::PositionDb::position_utf16", "text_pos::PositionDb::range_utf16", "text_pos::PositionDb::text_size_utf16"])

p("C06", "Line and column positions resolve exactly when they exist in the text",
  "For every text and every position, conversion to a byte offset succeeds exactly when the line exists and the column is at a character boundary of that line (its own newline's far side not included), and then gives the one offset which has that position. Every other position - line or column too large, or inside a surrogate pair - is rejected without a crash, and a range resolves exactly when both of its ends do and its start is not after its end, and then end by end.",
  ["inputs"], "all texts and all positions, including columns and lines up to the 32-bit limit; all position pairs, in either order",
  "No test converts a position to an offset, in or out of bounds.",
  ["text-pos/src/lib.rs"],
  [("position to offset", "crates/text-pos/src/lib.rs PositionDb::text_size_utf16"), ("range to offsets", "crates/text-pos/src/lib.rs PositionDb::text_range_utf16")],
  ["text_pos::PositionDb::text_size_utf16", "text_pos::PositionDb::text_range_utf16"])

p("C07", "Splitting a range into lines partitions it after each newline",
  "For every text and every range within it, the lines of the range are non-empty, adjacent and in order, together cover exactly the range, and are split exactly after each newline inside it. The reported length is the byte length of the text, and the reported end position is the position of the end of the text. Two indexes built from the same text compare equal.",
  ["inputs"], "all texts and all sub-ranges",
  "Tests split three short ASCII texts, always over the whole text.",
  ["text-pos/src/lib.rs"],
  [("line iterator", "crates/text-pos/src/lib.rs PositionDb::lines"), ("end position", "crates/text-pos/src/lib.rs PositionDb::end_position_utf16")],
  ["text_pos::PositionDb::lines", "text_pos::PositionDb::len", "text_pos::PositionDb::end_position_utf16"])

p("C08", "The event parser hands every token over once, in order and unchanged",
  "For every token list and every properly nested parse of it, the tokens handed to the tree builder are a prefix of the input token list: in order, each once, unchanged, with no trivia skipped. The prefix reaches at least the last token the parse consumed, extends past it only by trivia, and holds all the trivia that directly follows a construct just below the root. Each consuming call returns the next non-trivia token.",
  ["inputs", "programs"], "all token lists with trivia anywhere, and all properly nested parser programs (start, finish, abandon, wrap, consume, error, attempt)",
  "event-parse has no running tests (its one unit test is disabled by the manifest).",
  ["event-parse/src/lib.rs"],
  [("trivia replayed at finish", "crates/event-parse/src/lib.rs Parser::finish, eat_trivia"), ("bump", "crates/event-parse/src/lib.rs Parser::bump")],
  ["event_parse::Parser", "event_parse::Sink callbacks"])

p("C09", "The event parser builds exactly the tree the parse recorded",
  "For every properly nested parse, the builder receives a balanced sequence forming exactly the constructs that were finished and contain a token, with their kinds and nesting: wrapping a finished construct puts it inside the wrapper, an abandoned construct or wrapper contributes no node and leaves its contents to its parent (and leaves the wrapped construct free to be wrapped again), and a parse that consumed nothing yields one empty node of the first construct's kind. Trivia in front of a construct stays outside it (except in front of the root), and trivia after a construct just below the root stays outside that construct. A finished construct reports itself empty exactly when it contains no non-trivia token.",
  ["inputs", "programs"], "all token lists and all properly nested parser programs",
  "event-parse has no running tests.",
  ["event-parse/src/lib.rs"],
  [("forward parent links", "crates/event-parse/src/lib.rs Parser::precede, Parser::finish"), ("lazy entering of non-empty nodes", "crates/event-parse/src/lib.rs Parser::finish, to_enter"), ("emptiness flag", "crates/event-parse/src/lib.rs Parser::exit")],
  ["event_parse::Sink callbacks", "event_parse::Exited::is_empty"])

p("C10", "Parser lookahead is pure and a failed attempt leaves no trace",
  "At every point of every parse, looking n tokens ahead gives the n-th following non-trivia token (or none), and any amount of lookahead changes nothing that the parse produces. An attempt is reported as failed exactly when an error was recorded since its save point; after a failed attempt the parse continues and finishes as if the attempt had never been made, and after a successful one as if there had been no save point. Expecting a kind consumes and returns the current token if it has that kind, and otherwise records exactly one error and consumes nothing.",
  ["inputs", "programs", "histories"], "all token lists, all properly nested parser programs, all placements of lookahead and of nested attempts",
  "event-parse has no running tests; backtracking correctness depends on everything recorded between the save and its resolution.",
  ["event-parse/src/lib.rs"],
  [("save and restore of token index and events", "crates/event-parse/src/lib.rs Parser::save, Parser::ok_since"), ("peek skipping trivia", "crates/event-parse/src/lib.rs Parser::peek, Parser::peek_n"), ("eat", "crates/event-parse/src/lib.rs Parser::eat")],
  ["event_parse::Parser::peek / peek_n / at / at_n / eat / save / ok_since"])

p("C11", "The syntax-tree sink builds a faithful tree with correctly placed errors",
  "For every token and node sequence, the finished syntax tree has the same nodes, kinds and token texts, and its text is the concatenation of the tokens. Every error is reported exactly once and in order, with the range and kind of the first non-trivia token that follows it, or of the last token of the tree (an empty range at the start, and no kind, if there is no token) when none follows.",
  ["inputs", "programs"], "all balanced sink event sequences with one root, with multi-byte token texts and errors anywhere",
  "event-parse has no running tests and nothing builds a real tree in this repository.",
  ["event-parse/src/rowan_sink.rs"],
  [("pending errors flushed at the next non-trivia token", "crates/event-parse/src/rowan_sink.rs RowanSink::token, extend_errors"), ("running range", "crates/event-parse/src/rowan_sink.rs RowanSink::cur")],
  ["event_parse::rowan_sink::RowanSink::finish"])

p("C12", "Match checking reports missing cases exactly when some value is unmatched",
  "For every type and every list of well-formed patterns, the reported missing patterns are empty exactly when every value of the type is matched by some pattern. Each reported missing pattern contains no alternatives, describes at least one value of the type, and describes only values that no given pattern matches.",
  ["inputs"], "all finite, infinite, empty, nested and recursive types and all well-typed pattern lists over them, with nested alternatives, wildcards and record patterns that omit labels",
  "pattern-match has no tests at all.",
  ["pattern-match/src/alg.rs", "pattern-match/src/matrix.rs", "pattern-match/src/types.rs"],
  [("usefulness of a final wildcard row", "crates/pattern-match/src/alg.rs check, useful"), ("specialisation", "crates/pattern-match/src/alg.rs specialize"), ("or-pattern expansion", "crates/pattern-match/src/matrix.rs Matrix::push")],
  ["pattern_match::check -> Check.missing"])

p("C13", "Match checking flags exactly the patterns no value can reach",
  "For every type and every list of well-formed patterns with identifiers, the identifiers reported unreachable are exactly those of the patterns and sub-patterns that take part in matching no value, when values are tried against the patterns top to bottom and against alternatives left to right. Identifiers that do not occur in the input are never reported.",
  ["inputs"], "all types and well-typed pattern lists as above, with an identifier on every pattern and sub-pattern",
  "pattern-match has no tests at all.",
  ["pattern-match/src/alg.rs", "pattern-match/src/matrix.rs"],
  [("identifiers removed when useful", "crates/pattern-match/src/alg.rs useful"), ("all identifiers collected first", "crates/pattern-match/src/alg.rs get_pat_indices")],
  ["pattern_match::check -> Check.unreachable"])

p("C14", "Match checking rejects malformed patterns and reports language errors",
  "If the language definition reports an error at any point of a check, the check returns exactly that error. A pattern list containing a top-level wildcard given arguments, or a top-level constructor given more arguments than it has, is rejected with an error (for an inhabited type), and no pattern list over a coherent language makes the check crash.",
  ["inputs", "fault_sequences"], "all well-typed and malformed pattern lists, and every call of the language definition as the failing one",
  "pattern-match has no tests at all, and no test injects a failing language definition.",
  ["pattern-match/src/alg.rs"],
  [("? propagation", "crates/pattern-match/src/alg.rs useful, specialize"), ("arity checks", "crates/pattern-match/src/alg.rs specialize")],
  ["pattern_match::check -> Err"])

p("C15", "Clean paths are absolute, normalised and stay so",
  "For every path, making a clean path succeeds exactly when the path is absolute, and gives the lexical normal form: no `.` or `..` components, `..` removes the component before it and is dropped at the root, and components are otherwise kept byte for byte, in order, with single separators. Normalising a clean path changes nothing. Pushing or joining any path equals normalising the plain join of the two, and the parent of a clean path is the clean path without its last component (none for the root).",
  ["inputs", "histories"], "all Unix paths as byte strings (not only UTF-8), and all sequences of push, join and parent",
  "Tests cover three literal paths.",
  ["paths/src/lib.rs"],
  [("component-wise rebuild", "crates/paths/src/lib.rs CleanPathBuf::new_unchecked"), ("push then renormalise", "crates/paths/src/lib.rs CleanPathBuf::push")],
  ["paths::CleanPathBuf", "paths::CleanPath"])

p("C16", "A path store is a stable one-to-one mapping between paths and identifiers",
  "Over every history of lookups and combinations, equal paths get equal identifiers, different paths get different identifiers, and the path of an identifier is the path it was given for; identifiers, once given, never change meaning. Combining another store into one calls back exactly once for each identifier of the other store, paired with the receiving store's identifier of the same path, and leaves identifiers the receiving store had already given unchanged.",
  ["histories"], "all histories of by-reference and by-value lookups and of combinations of several stores",
  "No test uses the store.",
  ["paths/src/lib.rs"],
  [("paired vector and map", "crates/paths/src/lib.rs Store::get_id, Store::get_id_owned"), ("combine", "crates/paths/src/lib.rs Store::combine")],
  ["paths::Store", "paths::PathId"])

p("C17", "The in-memory and the real file system answer queries faithfully and alike",
  "For every set of files, reading a path as text or bytes and asking whether it is a file give the same answers in memory as on disk: the exact contents for a file and an error (not found, for a path that is not there) otherwise. Listing a directory gives, on disk, exactly its direct entries, and in memory exactly the stored files below it, compared by whole path components; these agree for a directory that has only files. On disk, a symbolic link counts as what it leads to, and one that leads nowhere as missing. The current directory is the process's own, as a clean absolute path, and an error if it is gone.",
  ["inputs"], "all finite file trees (one file never below another), all queried paths: files, directories, missing ones, links, and siblings sharing a name prefix",
  "No test performs any file-system operation; only object safety is compiled.",
  ["paths/src/lib.rs"],
  [("ordered map of clean paths", "crates/paths/src/lib.rs MemoryFileSystem"), ("std::fs calls", "crates/paths/src/lib.rs RealFileSystem")],
  ["paths::FileSystem for MemoryFileSystem and RealFileSystem"])

p("C18", "Generated syntax kinds and token tables agree with the grammar",
  "For every grammar and token configuration in the supported subset, the generated code compiles, has exactly one kind for each trivia, token and non-choice node, and numbers kinds so that raw conversion round-trips and out-of-range numbers are refused. Keyword lookup maps exactly the grammar's keywords to their kinds, the punctuation table lists exactly the grammar's punctuation with no entry placed after a proper prefix of itself, and token descriptions, token documentation, displayed names and triviality are those configured.",
  ["programs", "inputs"], "all grammars of the supported subset (sequences of fields; choices of nodes or of tokens), all trivia lists, special-token and documentation maps",
  "syntax-gen has no tests; the generated code is never even compiled by the repository.",
  ["syntax-gen/src/kind.rs", "syntax-gen/src/token.rs", "syntax-gen/src/lib.rs"],
  [("token classification and naming", "crates/syntax-gen/src/token.rs TokenDb::new"), ("sorted tables", "crates/syntax-gen/src/kind.rs get")],
  ["generated kind.rs: SyntaxKind, PUNCTUATION, keyword, token_desc, token_doc, Triviable, Language"])

p("C19", "Generated tree accessors return the children the grammar names",
  "For every grammar in the supported subset and every syntax tree over its kinds, casting to a generated type succeeds exactly for nodes (or tokens) of the kind or of one of the choices it stands for, and gives back the same node or token. A field accessor returns, in tree order, the children of that field's type: all of them for a repeated field, and for the n-th field of that type in its rule the n-th such child, or nothing if there are fewer.",
  ["programs", "inputs"], "all grammars of the supported subset and all trees over the generated kinds, including incomplete, reordered and surplus children",
  "syntax-gen has no tests; nothing ever runs a generated accessor.",
  ["syntax-gen/src/seq.rs", "syntax-gen/src/alt.rs", "syntax-gen/src/ast.rs"],
  [("per-type field counters", "crates/syntax-gen/src/seq.rs get_idx, field"), ("choice enums", "crates/syntax-gen/src/alt.rs get_nodes, get_tokens")],
  ["generated ast.rs: AstNode impls, accessors, token-choice types"])

p("C20", "Code generation is a reproducible function of its options",
  "For equal options the two generated files are byte-for-byte the same, however the option maps happen to be ordered and however often generation has run before, and they are the only files written. The generated files name the generating file they were told about.",
  ["inputs", "configurations"], "all supported grammars and options, all hash-map orders of the documentation and special-token maps",
  "syntax-gen has no tests; a dependence on hash order would show only on some runs.",
  ["syntax-gen/src/kind.rs", "syntax-gen/src/token.rs", "syntax-gen/src/lib.rs", "write-rs-tokens/src/lib.rs"],
  [("sorting before emission", "crates/syntax-gen/src/kind.rs get"), ("grammar-order iteration", "crates/syntax-gen/src/lib.rs get")],
  ["files written to $OUT_DIR by syntax_gen::get"])

p("C21", "Identifier case conversions invert each other and keep the letters",
  "For every identifier in lower snake case whose words start with a letter, converting to Pascal case and back gives the identifier, and for every Pascal-case identifier, converting to snake case and back gives it; upper snake case converts like lower. For every string, conversion only inserts or removes underscores and changes the case of ASCII letters: to Pascal removes all underscores, makes the first character of each word a capital if it is an ASCII letter and the other ASCII letters lowercase, to snake adds one underscore before each non-initial ASCII capital and leaves no capital.",
  ["inputs"], "all Unicode strings, and all identifiers of the stated shapes",
  "Seven doc-test assertions.",
  ["identifier-case/src/lib.rs"],
  [("character scan", "crates/identifier-case/src/lib.rs snake_to_pascal, pascal_to_snake")],
  ["identifier_case::snake_to_pascal", "identifier_case::pascal_to_snake"])

p("C22", "The Markdown heading map holds every code heading with exactly its body",
  "For every Markdown text with distinct level-2 code headings, the map has exactly one entry per such heading, keyed by the code in it (a lone backtick for the doubly quoted form), whose value is the caller's starting string for that key followed by each line up to the next such heading, every line preceded by a newline. Text before the first heading is dropped, the caller's function is called once per heading in order, and a repeated heading is refused with a panic.",
  ["inputs"], "all texts, including near-miss headings, carriage returns, empty bodies and missing final newline",
  "code-h2-md-map has no tests.",
  ["code-h2-md-map/src/lib.rs"],
  [("line scan with current key", "crates/code-h2-md-map/src/lib.rs get, code_h2")],
  ["code_h2_md_map::get"])

p("C23", "The string cursor tracks its byte position exactly",
  "Over every sequence of cursor operations on every string that does not step past its end, the cursor's index and current byte are those of a plain byte index: single steps advance by one, conditional stepping stops at the first byte that fails the condition (asked once per byte) or at the end, prefix eating advances by the prefix exactly when it is next and otherwise does not move, and advancing by a character lands on the next character boundary. Slices since a marker are exactly the bytes passed over since it was made, and asking whether anything was passed over, or insisting that something was, agrees with that.",
  ["inputs", "histories"], "all strings (any Unicode), all operation sequences that do not step past the end, all marker placements",
  "str-process has no tests.",
  ["str-process/src/lib.rs"],
  [("byte index", "crates/str-process/src/lib.rs St"), ("markers", "crates/str-process/src/lib.rs Marker")],
  ["str_process::St"])

p("C24", "Separated formatting equals joining, and stops cleanly on write errors",
  "For every sequence of items and every separator, the formatted output is the items in order, each formatted as the caller's format options ask, with the separator between neighbours only; the comma form uses a comma and a space. If the destination or an item fails at any point, the error is returned, nothing further is attempted, and what was written is a prefix of the full output.",
  ["inputs", "fault_sequences"], "all item sequences and separators, all format options, every write as the failing one",
  "fmt-util has no tests.",
  ["fmt-util/src/lib.rs"],
  [("first item then separator-item pairs", "crates/fmt-util/src/lib.rs sep_seq")],
  ["fmt_util::sep_seq", "fmt_util::comma_seq"])

p("C25", "Diagnostics and codes print and parse in one fixed, reversible format",
  "Every position prints as its one-based line and column, every range as its start position, a dash, and its end (only the end column when it ends on the line it starts on), and every diagnostic as range, severity and message separated by a colon and a space. A diagnostic code prints as its plain decimal number, parses back to an equal code, has that number as its integer value, and parsing accepts exactly the decimal numbers from 0 to 65535 (a plus sign and leading zeros are allowed, as in the standard integer parser), with an error that carries its cause for everything else. Codes are equal, ordered and hashed as their numbers. Errors are more severe than warnings.",
  ["inputs"], "all positions below the 32-bit limit, all ranges, messages and severities, all codes, all strings given to the code parser",
  "diagnostic has no tests; the position formats are untested.",
  ["diagnostic/src/lib.rs", "text-pos/src/lib.rs"],
  [("Display impls", "crates/diagnostic/src/lib.rs, crates/text-pos/src/lib.rs"), ("Code::from_str", "crates/diagnostic/src/lib.rs")],
  ["Display of Diagnostic, Severity, Code, PositionUtf16, RangeUtf16", "diagnostic::Code::from_str"])

p("C26", "Soft assertions panic only in debug builds and otherwise log and continue",
  "A soft assertion evaluates its condition once and, when it holds, returns true with no message and no log. When it does not hold, a build with debug assertions panics with the given message, and a build without them logs exactly one error with that message and returns false. Integer conversions return the same number whenever it fits, and otherwise behave as a failed soft assertion that yields the largest value.",
  ["inputs", "configurations"], "all conditions, messages and arguments; all machine integers; builds with and without debug assertions",
  "always has no tests of its own; the topological sort tests only reach conditions that hold, in debug builds.",
  ["always/src/lib.rs", "always/src/convert.rs"],
  [("always! macro", "crates/always/src/lib.rs"), ("conversions", "crates/always/src/convert.rs")],
  ["always::always!", "always::convert"])

p("C27", "Character names are distinct, identifier-shaped, and unambiguous when joined",
  "Every ASCII punctuation character other than the two quotes and the backslash has a name, no other character has one, and asking for the name of a nameless character by the insisting form panics. Names are distinct non-empty ASCII alphabetic words starting with a capital, and names of two different character sequences never concatenate to the same text.",
  ["inputs"], "all Unicode characters, and all pairs of sequences of named characters",
  "char-name has no tests.",
  ["char-name/src/lib.rs"],
  [("name table", "crates/char-name/src/lib.rs get_opt")],
  ["char_name::get", "char_name::get_opt"])

p("C28", "Map and set literals hold exactly the given elements and refuse duplicates",
  "Building a hash map or set from an array gives a collection with exactly the given entries, each key mapped to its own value, whatever their order; if two keys or elements are equal it panics instead. Collections made with a capacity are empty and have at least that capacity.",
  ["inputs"], "all arrays of keys and values, with and without duplicates at any positions; all moderate capacities",
  "fast-hash has no tests.",
  ["fast-hash/src/lib.rs"],
  [("checked insertion", "crates/fast-hash/src/lib.rs map, set")],
  ["fast_hash::map", "fast_hash::set", "fast_hash::map_with_capacity", "fast_hash::set_with_capacity"])

p("C29", "Indices convert without loss and unique identifiers never repeat",
  "An index made from any number that fits 32 bits converts back to that number, and indices compare, hash and group as the numbers do; making one from a larger number panics rather than truncating. A maker never returns the same unique identifier twice within its range, whatever other makers do in between, and equal identifiers compare, print and hash equal, different ones different.",
  ["inputs", "histories"], "all machine integers; all interleavings of requests to several makers, into the millions of requests",
  "One doc-test compares the first two identifiers of one maker; idx has no tests.",
  ["idx/src/lib.rs", "uniq/src/lib.rs"],
  [("checked conversion", "crates/idx/src/lib.rs Idx::new, Idx::to_usize"), ("counter", "crates/uniq/src/lib.rs UniqMk::mk")],
  ["idx::Idx", "uniq::UniqMk::mk"])

p("C30", "Names are never empty and behave exactly as their text",
  "A name can be made from every non-empty string and from no empty one: the fallible form returns nothing and the insisting form panics. A name keeps its text unchanged and compares, orders, hashes, prints (without format options) and is looked up in maps exactly as that text, however it was made or cloned.",
  ["inputs"], "all strings, including those longer than the inline limit of small strings",
  "str-util has no tests.",
  ["str-util/src/lib.rs"],
  [("emptiness check", "crates/str-util/src/lib.rs Name::try_new"), ("Borrow<str>", "crates/str-util/src/lib.rs impl Borrow<str> for Name")],
  ["str_util::Name"])

p("C31", "Writing Rust tokens produces a formatted file with the same meaning",
  "For every token stream that is a valid Rust file, the named file in the output directory afterwards holds formatted Rust with the same syntax as the stream, up to what formatting normalises (separators, braces and parentheses that are optional, and spaces at the ends of documentation lines). Any earlier contents are replaced completely, and no other file is touched. Writing the tokens of the written file again keeps its syntax, and a token stream that is not a valid file is refused without writing.",
  ["inputs"], "all token streams of Rust items from a generated grammar of items, types, expressions and attributes; all base names; all earlier file contents",
  "write-rs-tokens has no tests.",
  ["write-rs-tokens/src/lib.rs"],
  [("parse, format, write", "crates/write-rs-tokens/src/lib.rs go")],
  ["write_rs_tokens::go and the file it writes"])

p("C32", "Timing a call runs it once, returns its result, and measures it truly",
  "Timing a call runs it exactly once and returns its result, with a duration that is at least the time spent inside the call and at most the time spent around it. The logging form does the same and emits exactly one informational record, after the call, made of the given message, a colon and a duration. A panic in the call reaches the caller and nothing is logged.",
  ["inputs"], "all results, messages (including ones with formatting characters) and call durations, nested timings, and calls that panic",
  "elapsed has no tests.",
  ["elapsed/src/lib.rs"],
  [("monotonic clock around the call", "crates/elapsed/src/lib.rs time"), ("log", "crates/elapsed/src/lib.rs log")],
  ["elapsed::time", "elapsed::log"])

p("C33", "Wrapping values with a location or a size never changes either",
  "Making a text size from any number that fits 32 bits gives that size, and a larger number panics rather than wrapping. Re-wrapping a located value keeps the location exactly and takes the new value, and wrapping a value with a path identifier keeps both; neither changes the original.",
  ["inputs"], "all machine integers, all ranges, all values, chains of re-wrapping",
  "text-size-util has no tests and wrapping with a path is untested.",
  ["text-size-util/src/lib.rs", "paths/src/lib.rs"],
  [("checked conversion", "crates/text-size-util/src/lib.rs mk_text_size"), ("wrap", "crates/text-size-util/src/lib.rs WithRange::wrap, crates/paths/src/lib.rs PathId::wrap")],
  ["text_size_util::mk_text_size", "text_size_util::WithRange::wrap", "paths::PathId::wrap"])

p("C34", "The match checker asks the language only questions that make sense",
  "In checking well-formed patterns, every question the checker asks about a type concerns only constructors of that type, and constructors it asks to split, or names as already covered, all occur in the patterns (or are the wildcard). The splits at depth zero are exactly those of the head constructors of the top-level patterns other than alternatives, in order, and then of a wildcard, at the type matched on, each naming as covered head constructors of the earlier patterns only, and at least those of the ones that some value reaches; all other splits have a greater depth.",
  ["inputs", "programs"], "all coherent languages (types, constructors, ways of splitting) and all lists of well-formed patterns, with alternatives anywhere",
  "The crate's tests use two small languages which ignore the depth and never look at what they are asked.",
  ["pattern-match/src/alg.rs", "pattern-match/src/matrix.rs", "pattern-match/src/types.rs"],
  [("recursive usefulness with the depth passed down", "crates/pattern-match/src/alg.rs useful"), ("specialization before argument types are asked", "crates/pattern-match/src/alg.rs specialize"), ("first column of the matrix", "crates/pattern-match/src/matrix.rs Matrix::non_empty_rows")],
  ["pattern_match::Lang::split", "pattern_match::Lang::get_arg_tys"])

p("C35", "Patterns print in one fixed notation and clone faithfully",
  "Every pattern prints as its constructor followed, only if it has any, by its arguments in parentheses separated by a comma and a space; alternatives print separated by a space, a bar and a space, and no alternatives print as <NEVER>. Identifiers do not show. A failure of the writer is passed on, with only a beginning of that text written. A clone of a pattern is the same pattern, identifiers included.",
  ["inputs", "faults"], "all patterns of any shape, all texts of constructors, and writers failing at any point",
  "No test prints or clones a pattern.",
  ["pattern-match/src/types.rs"],
  [("Display impls", "crates/pattern-match/src/types.rs Display for Pat, RawPat, ConPat"), ("Clone impls", "crates/pattern-match/src/types.rs Clone for Pat, RawPat, ConPat")],
  ["Display and Clone of pattern_match::Pat, RawPat, ConPat"])

p("C36", "Cloning a chain map and adding to the clone copies no key or value",
  "Over every history of making, cloning, inserting into, extending, appending, reading and dropping chain maps, no key and no value is ever copied, however many entries the cloned maps hold. Once all maps of a family are gone - used up by iteration, drained, or dropped, and whatever was changed in them before - every key and value is gone too, once.",
  ["histories"], "all histories of growing, cloning, reading and dropping over families of maps, ended by any of the operations that use up or change a map",
  "The one test has one map, never clones it, and cannot see copies.",
  ["chain-map/src/lib.rs"],
  [("layers shared by reference counting", "crates/chain-map/src/lib.rs ChainMap, derive(Clone)"), ("a new layer for each insertion", "crates/chain-map/src/lib.rs ChainMap::insert, Extend")],
  ["Clone and Drop of the keys and values given to chain_map::ChainMap"])

p("C37", "Parser and scanner obligations that are dropped never pass silently",
  "At every point of every parse, dropping the marker of a construct (or of a wrapper) which was neither finished nor abandoned panics, in all builds; markers that were finished or abandoned never do. Consuming a token when only trivia or nothing is left panics. A string scanner's marker that is dropped unused panics in builds with debug assertions (and only there), one that is used does not, and asking for a non-empty slice panics exactly when it would be empty.",
  ["inputs", "programs", "configurations"], "all token lists and properly nested parser programs, stopped at every call; all strings and marker positions; builds with and without debug assertions",
  "No test drops a marker, and these obligations only show when a parser is wrong.",
  ["event-parse/src/lib.rs", "str-process/src/lib.rs"],
  [("drop bomb set on entry, defused on exit and abandon", "crates/event-parse/src/lib.rs Parser::enter, Parser::exit, Parser::abandon"), ("debug drop bomb of marks", "crates/str-process/src/lib.rs St::mark")],
  ["Drop of event_parse::Entered", "event_parse::Parser::bump", "Drop of str_process::Marker", "str_process::St::non_empty_since"])

p("C38", "Threads may share chain maps in the thread-safe build",
  "With the thread-safe feature on, a chain map whose keys and values may be moved to and shared with other threads may be too. Whatever several threads do at the same time with maps that share entries - reading one map together, cloning it, changing, using up or dropping the clones - each sees in its own map what an ordinary map of its own would hold, and in a shared map what was there; and once all maps are gone every key and value is gone, once.",
  ["histories", "schedules", "configurations"], "all families of maps that share entries, all histories per thread, and all interleavings, in the thread-safe build",
  "No test turns the feature on or has a second thread.",
  ["chain-map/src/lib.rs", "chain-map/Cargo.toml"],
  [("choice of the reference count", "crates/chain-map/src/lib.rs type Rc"), ("copy on write when shared", "crates/chain-map/src/lib.rs ChainMap::consolidate_")],
  ["chain_map::ChainMap used from several threads, feature sync"])

p("C39", "Values that serve as keys compare, order and hash as what they stand for",
  "Positions, ranges, indices, unique identifiers, codes, severities, names, clean paths, path identifiers, values paired with a path, and tokens are equal exactly if they stand for the same, and equal to their clones; equal ones hash alike; the ones with an order have a total order that agrees with equality, which for positions, ranges, indices, codes, severities and names is that of what they stand for. So each is found again in hashed and ordered maps, clean paths also when looked up as borrowed paths, and path maps and sets keep path identifiers apart. Position databases of the same text are equal, and equal ones answer alike.",
  ["inputs"], "all lists of values, with any of them the same",
  "A law over all pairs and triples of values; no test compares, orders or hashes most of them.",
  ["text-pos/src/lib.rs", "idx/src/lib.rs", "uniq/src/lib.rs", "diagnostic/src/lib.rs", "str-util/src/lib.rs", "paths/src/lib.rs", "token/src/lib.rs"],
  [("equality, order and hash of clean paths and of path identifiers", "crates/paths/src/lib.rs CleanPath, CleanPathBuf, PathId, WithPath"), ("borrowed forms", "crates/paths/src/lib.rs impl Borrow for CleanPathBuf"), ("equality of databases", "crates/text-pos/src/lib.rs PositionDb")],
  ["PartialEq, Ord, Hash, Clone and Borrow of the public value types", "paths::PathMap", "paths::PathSet"])

p("C40", "Answers depend on the arguments alone, whatever ran before or runs alongside",
  "Converting positions and changing texts, sorting graphs, cleaning and joining paths, looking up in stores and in-memory file systems, converting identifier case, collecting headings, making names, printing and parsing diagnostics and codes, naming characters, formatting with separators, scanning strings, parsing events and checking matches give the same answer for the same arguments, however often they are asked, whatever was asked before and on which thread, and whatever other threads ask at the same time, also of the same values; the plain value types may be moved to other threads and shared with them.",
  ["inputs", "histories", "schedules"], "all sequences of calls, any thread interleaving, any repetition",
  "Tests make each call once, in one thread.",
  ["text-pos/src/lib.rs", "apply-changes/src/lib.rs", "topo-sort/src/graph.rs", "paths/src/lib.rs", "identifier-case/src/lib.rs", "code-h2-md-map/src/lib.rs", "str-util/src/lib.rs", "diagnostic/src/lib.rs", "char-name/src/lib.rs", "fmt-util/src/lib.rs", "str-process/src/lib.rs", "event-parse/src/lib.rs", "pattern-match/src/alg.rs"],
  [("lookups through shared references", "crates/text-pos/src/lib.rs PositionDb, crates/paths/src/lib.rs Store, MemoryFileSystem"), ("no state but the arguments", "every crate")],
  ["all public functions of these crates, called again in other orders and from several threads"])

p("C41", "Code called back may make calls itself, fail or panic, and leaves no trace",
  "While a call runs code of its caller - a match language, a visitor, a heading transformation, an item being formatted, a condition on bytes, a token kind's or sink's methods, comparisons, hashes and copies of keys and elements, conversions to paths, iterators being consumed, a combining or timed function - that code may make any call itself, also of the same function and to any depth: the outer and the inner call give the answers each gives alone. If that code reports a failure or panics instead, the failure or panic reaches the caller and is not swallowed, and later calls answer as if it had never happened. A panic of a key's or value's own code during an operation on one chain map leaves every clone of it and every other map as it was, and the map itself a usable map with each key once; a panic while stores of paths are combined leaves a store in which each path has one id, the one reported for it if any was.",
  ["inputs", "histories", "faults"], "all calls made from code called back, to any depth, and a failure or panic at any point at which such code runs",
  "Tests never call back into the library and no callback in a test fails.",
  ["pattern-match/src/alg.rs", "topo-sort/src/lib.rs", "topo-sort/src/graph.rs", "code-h2-md-map/src/lib.rs", "fmt-util/src/lib.rs", "str-process/src/lib.rs", "event-parse/src/lib.rs", "chain-map/src/lib.rs", "paths/src/lib.rs", "elapsed/src/lib.rs"],
  [("no state shared between calls", "every crate"), ("layers are copied before they change", "crates/chain-map/src/lib.rs consolidate_")],
  ["all public functions that run code of their caller"])

p("C42", "Every call gives back the memory it took once its result is dropped",
  "For every call of any of the crates' functions on values: once what it returned is dropped, and apart from what is kept once for all calls, no memory that it took stays taken; the same call may be made any number of times, alone or in turn with others, without the memory in use growing. The same holds of making and dropping position indexes, path stores, in-memory file systems, chain maps and their clones, work lists and parsers, and when code of the caller that runs during a call reports a failure.",
  ["inputs", "histories", "faults"], "all calls, repeated, also with a failure at any point at which code of the caller runs",
  "No test looks at memory.",
  ["chain-map/src/lib.rs", "event-parse/src/lib.rs", "event-parse/src/rowan_sink.rs", "pattern-match/src/alg.rs", "topo-sort/src/lib.rs", "text-pos/src/lib.rs", "paths/src/lib.rs", "diagnostic/src/lib.rs"],
  [("values are owned by what was given them and dropped with it", "every crate"), ("layers are counted by their owners, without cycles", "crates/chain-map/src/lib.rs stack")],
  ["all public functions on values; not the generation of syntax modules, nor the real file system"])

p("C43", "What cannot be generated or written is refused, not left out",
  "For every grammar that has something which the generated modules cannot express (a field with two modifiers or two labels, a sequence or choice within a field, a choice that mixes nodes and tokens or has a member with a label, a modifier or several parts), for every text that is no grammar, for every token that no identifier can be made of, and for every language name or trivia that is no identifier, generation panics; unless only the trivia is wrong, no file is then created or changed. If a file cannot be written completely, or no output directory is given, generating and writing panic instead of returning as if they had done it. None of this has an effect on later calls, which write the same files as without it.",
  ["inputs", "faults", "histories"], "all supported grammars with one defect added, at any place; all ways for the output files to be unwritable",
  "syntax-gen has no tests.",
  ["syntax-gen/src/lib.rs", "syntax-gen/src/seq.rs", "syntax-gen/src/alt.rs", "syntax-gen/src/token.rs", "syntax-gen/src/util.rs", "char-name/src/lib.rs", "write-rs-tokens/src/lib.rs"],
  [("fields have one label and one modifier", "crates/syntax-gen/src/seq.rs field"), ("choices are of nodes or of tokens", "crates/syntax-gen/src/util.rs unwrap_node, unwrap_token"), ("errors are not ignored", "crates/write-rs-tokens/src/lib.rs go")],
  ["syntax_gen::get, write_rs_tokens::go and the files in the output directory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

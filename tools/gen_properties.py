#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Parsing any string terminates without panicking, at any size or nesting",
  "Parsing an arbitrary string as a token stream or as a single literal always returns Ok or a LexError: it never panics, hits an arithmetic or slicing error, recurses without bound or hangs, whatever characters, lengths or nesting depth the string has. Cloning, iterating, walking and dropping what was parsed (or built by nesting groups) is equally safe at any nesting depth.",
  ["inputs"], "every string: all short strings over lexically significant alphabets, every Unicode scalar in every lexical position, every truncation of every construct, every size of every repeatable construct up to the bound, nesting depths far beyond the thread stack",
  "tests parse a few dozen malformed strings and one deep nest; an out-of-boundary slice or an underflow needs one particular multi-byte or truncated input",
  ["src/parse.rs", "src/fallback.rs", "src/lib.rs"],
  [("non-recursive token_stream loop with explicit delimiter stack", "src/parse.rs token_stream"), ("Reject instead of indexing; is_char_boundary in byte()", "src/parse.rs"), ("non-recursive Drop for TokenStream", "src/fallback.rs")],
  observe=["TokenStream::from_str", "Literal::from_str", "Drop"])

p("C02", "Tokenization agrees with the Rust lexical grammar",
  "For every source string, parsing yields exactly the tokens the Rust lexical grammar assigns to it, with literal, identifier and punctuation text verbatim, groups matching the delimiters, and a punctuation token marked Joint exactly when another punctuation character follows immediately (a lifetime is a Joint apostrophe followed by its identifier). Strings that are lexically invalid Rust are rejected: unbalanced delimiters, unterminated literals or block comments, invalid escapes, bare CR or NUL or non-ASCII where a literal kind forbids it, out-of-range digits, malformed raw identifiers and lifetimes, unknown characters. Any Unicode whitespace separates tokens, and an identifier in front of a quote or pound is an ordinary token as in pre-2021 editions; malformed inputs that only later compiler stages diagnose (for example an empty exponent) are left open.",
  ["inputs"], "every source string: all strings up to the bound over several alphabets, all sequences of lexeme fragments, every Unicode scalar in every lexical context, every raw-string hash count and escape value",
  "tests compare a few hundred hand-picked strings; grammar corner cases (longest match, prefixes, escapes, spacing before comments) are combinatorial",
  ["src/parse.rs", "src/fallback.rs"],
  [("leaf_token ordering literal/punct/ident, literal_nocapture, digits, float_digits, cooked/raw string scanners", "src/parse.rs"), ("spacing from the following character", "src/parse.rs punct"), ("delimiter stack", "src/parse.rs token_stream")],
  observe=["TokenStream::from_str"])

p("C03", "Comments and whitespace are insignificant; doc comments become attributes",
  "Inserting, removing or replacing whitespace and non-doc comments between two tokens that are already separated never changes the parsed tokens, and a leading byte order mark is ignored. A doc comment in any style (line, block, nested block, inner, outer) parses to the same tokens as the equivalent doc attribute: a pound, a bang if inner, and a bracket group of doc, an equals sign and a string literal whose value is exactly the comment's text.",
  ["inputs"], "every token sequence up to the bound with every choice of separator from the separator alphabet at every gap, and every comment body up to the bound over the comment alphabet",
  "tests contain a handful of comments; nesting, runs of slashes and stars, CR LF, end of input and multi-byte text interact combinatorially",
  ["src/parse.rs", "src/fallback.rs"],
  [("skip_whitespace, block_comment depth counter", "src/parse.rs"), ("doc_comment, doc_comment_contents, take_until_newline_or_eof", "src/parse.rs")],
  observe=["TokenStream::from_str"])

p("C04", "Printing and reparsing a token stream preserves its tokens",
  "For every stream obtained from parsing, and for every stream built through the API out of valid tokens in which every Joint punctuation token is followed by punctuation that does not turn it into a comment (and an apostrophe is Joint and followed by an identifier), the printed text parses back to an equal stream: same kinds, text, spacing and group structure, with None-delimited groups flattened. Printing the reparsed stream yields the same text again, and printing a single token, group or tree agrees with printing the stream made of it.",
  ["inputs", "histories"], "every parsable string of the C02 spaces and every constructible token tree up to the bound in length and depth",
  "tests round-trip a few snippets; adjacency bugs need a specific pair or triple of neighbouring tokens",
  ["src/fallback.rs", "src/lib.rs"],
  [("Display for TokenStream/Group/Ident/Punct/Literal with joint-aware spacing", "src/fallback.rs")],
  observe=["Display", "TokenStream::from_str"])

p("C05", "Literal constructors denote exactly the value they were given",
  "The text of a literal made by a numeric, string, character, byte, byte-string or C-string constructor is a valid Rust literal of the requested kind (with the requested suffix or none) that evaluates to exactly the given value, for every value; it also parses back as one literal. Non-finite floats are refused by panicking, and an unsuffixed float always reads as a float, never as an integer.",
  ["inputs"], "every char, every byte, every pair and short string over escape-relevant characters and bytes, every 8- and 16-bit integer and boundary wider integers of every constructor, a dense enumeration of floats (all f32 in the thorough tier)",
  "tests sample a few values; escaping depends on the neighbouring character and on the literal kind, floats on the shortest decimal form",
  ["src/fallback.rs", "src/lib.rs"],
  [("escape_utf8, character, byte_character, byte_string, c_string, suffixed/unsuffixed number macros", "src/fallback.rs"), ("is_finite assertions", "src/lib.rs")],
  observe=["Literal::* constructors", "Display for Literal"])

p("C06", "Negative numeric literals enter streams as minus plus positive literal",
  "Whenever a literal token that starts with a minus sign is put into a token stream (conversion from a tree, collecting trees or literals, extending with trees or literals, at any position and nesting), the stream contains instead an Alone minus punctuation token followed by the positive literal, both carrying the original literal's span; all other tokens enter unchanged and in order. Consequently such a stream prints and reparses to itself.",
  ["inputs", "histories"], "every entry point, every position among other tokens, every signed constructor and parsed negative literal including minimum values and negative zero",
  "tests exercise two entry points with one literal each",
  ["src/fallback.rs", "src/lib.rs"],
  [("push_token_from_proc_macro / push_negative_literal used by From, FromIterator, Extend", "src/fallback.rs")],
  observe=["TokenStream::from(TokenTree)", "FromIterator", "Extend"])

p("C07", "Token streams behave as independent immutable-by-sharing sequences",
  "Under any sequence of operations (new, from tree, clone, extend with trees or streams, collect, group, group contents, iterate partially, clone an iterator, drop), each stream, group and iterator contains exactly the tokens of the corresponding plain sequence in order; mutating or consuming one never changes another that was cloned from or shared with it. is_empty and an iterator's size hint agree with the contents, and setting the span of one token changes nothing else.",
  ["histories"], "every operation sequence up to the bound over a small pool of streams, groups and iterators, compared step by step with a plain-vector model; plus every length up to a few hundred",
  "copy-on-write faults need a particular order of clone, share, mutate and consume; tests run two or three fixed orders",
  ["src/rcvec.rs", "src/fallback.rs", "src/lib.rs", "src/wrapper.rs"],
  [("RcVec make_mut / make_owned / get_mut", "src/rcvec.rs"), ("take_inner, Drop", "src/fallback.rs")],
  state=[("RcVec", "reference-counted shared token vector", "src/rcvec.rs")],
  observe=["Clone", "Extend", "FromIterator", "IntoIterator", "Group::stream"])

p("C08", "Streams stay sound and lossless under panics and drops at any point",
  "If a caller-supplied iterator panics at any point while a stream is being extended or collected, every other stream is unchanged, the extended stream holds its old tokens followed by a prefix of the new ones, and all remain usable. Over any operation history, including such panics and partially consumed iterators, every token is freed exactly once: nothing is freed early, and when the last handle is dropped all memory is released (apart from the table of sources that span locations keeps).",
  ["histories", "fault_sequences"], "every operation sequence up to the bound with a panic injected at every iterator step, memory accounted after each history",
  "tests never inject a panic or measure memory; the consuming path uses unsafe ownership tricks",
  ["src/fallback.rs", "src/rcvec.rs", "src/lib.rs"],
  [("ManuallyDrop + ptr::read in take_inner", "src/fallback.rs"), ("mem::take in make_owned / take", "src/rcvec.rs"), ("non-recursive Drop", "src/fallback.rs")],
  observe=["Extend", "FromIterator", "Drop", "global allocator"])

p("C09", "Every parsed token's span is exactly its place in the source",
  "With span locations enabled, for every source and every parsed token the span's source text and byte range are exactly the bytes of that token in the given string, and start and end are the matching line (1-based) and column (0-based, in characters), and positions are ordered as in the text. A group's span runs from its opening to its closing delimiter with span_open and span_close (and the delimiter-span handle) covering just those characters; tokens of a doc comment carry the comment's span. A literal parsed on its own spans the whole string.",
  ["inputs"], "every source of the lexer spaces rich in multi-byte characters, newlines, CR LF, byte order marks, comments and nesting, all tokens in it",
  "tests check a few ASCII and one multi-byte source; offsets are counted in characters, bytes and lines by separate code",
  ["src/parse.rs", "src/fallback.rs", "src/location.rs", "src/extra.rs"],
  [("Cursor::advance counting characters", "src/parse.rs"), ("lines_offsets, offset_line_column, FileInfo::byte", "src/fallback.rs"), ("first_byte/last_byte, DelimSpan", "src/fallback.rs, src/extra.rs")],
  observe=["Span::source_text", "Span::byte_range", "Span::start", "Span::end", "Group::span_open", "Group::delim_span"])

p("C10", "Span queries are pure: independent of query order and of other sources",
  "With span locations enabled, what a span reports (source text, byte range, start, end, file) depends only on the source it was parsed from and its place there, never on which queries were made before or how many other strings were parsed before or after. Spans from different parses are in different files and do not join; within one parse join is the smallest covering span, subspan is the requested character range of the literal or None if out of range; resolved_at keeps a span's location and located_at takes the other's; after invalidation new parses behave as on a fresh thread.",
  ["histories", "inputs"], "every order of queries over the spans of multi-byte sources, every history of parses, queries, joins, subspans and invalidations up to the bound, and every number of files up to a few hundred",
  "the offset cache and the file search make answers history dependent if wrong; tests query each span once in source order",
  ["src/fallback.rs", "src/lib.rs", "src/extra.rs"],
  [("char_index_to_byte_offset cache", "src/fallback.rs FileInfo::byte"), ("SourceMap::find binary search, next_start_pos", "src/fallback.rs"), ("Span::join, Literal::subspan, invalidate_current_thread_spans", "src/fallback.rs")],
  state=[("SOURCE_MAP", "per-thread table of parsed sources with lazy offset cache", "src/fallback.rs")],
  observe=["Span::source_text", "Span::byte_range", "Span::join", "Literal::subspan", "extra::invalidate_current_thread_spans"])

p("C11", "A lex error points at the text that could not be lexed",
  "With span locations enabled, the span of a LexError from parsing a token stream is a valid position in the offending source: the start of the first lexeme that cannot be lexed or of the closing delimiter that matches nothing, or, when input ends inside a group, the innermost unclosed opening delimiter. The error's message, and the fact that an error is returned, do not depend on what was parsed before.",
  ["inputs"], "every rejected string of the lexer spaces, with every position of the fault",
  "tests check two error positions",
  ["src/parse.rs", "src/fallback.rs"],
  [("lex_error at cursor, unclosed-delimiter span", "src/parse.rs token_stream")],
  observe=["LexError::span"])

p("C12", "Identifier and punctuation constructors accept exactly the valid tokens",
  "Ident::new accepts exactly the strings that are Rust identifiers, keywords or an underscore and panics otherwise; Ident::new_raw additionally refuses underscore, super, self, Self and crate; Punct::new accepts exactly the 22 Rust punctuation characters. Identifiers compare equal to each other and to strings exactly when their printed text (including r#) is equal, and ordering and hashing agree with that text, regardless of span and of whether they were parsed or constructed.",
  ["inputs"], "every Unicode scalar in first, middle and last position, all short strings over identifier-relevant characters, all pairs of a set of identifiers, every char for punctuation",
  "tests check about ten strings; validity is per character and per position",
  ["src/fallback.rs", "src/lib.rs", "src/wrapper.rs"],
  [("validate_ident, validate_ident_raw, PartialEq/PartialEq<T>", "src/fallback.rs"), ("Ord, Hash, Punct::new", "src/lib.rs")],
  observe=["Ident::new", "Ident::new_raw", "Punct::new", "Eq/Ord/Hash for Ident"])

p("C13", "String value accessors return the literal's value",
  "With the semver-exempt API, str_value, byte_str_value and cstr_value return exactly the value the literal denotes in Rust (with the trailing NUL for C strings) for every unsuffixed literal of the matching kind, cooked or raw, and an error for every literal of another kind. They invert the string, byte-string and C-string constructors.",
  ["inputs"], "every cooked literal body up to the bound over an escape alphabet, every escape value, every char and byte, raw strings with every hash count, every other literal kind",
  "tests evaluate a few literals; escapes, line continuations and raw delimiters are combinatorial",
  ["src/lib.rs", "src/rustc_literal_escaper.rs", "src/num.rs"],
  [("str_value/cstr_value/byte_str_value, get_raw", "src/lib.rs"), ("unescape_*", "src/rustc_literal_escaper.rs")],
  observe=["Literal::str_value", "Literal::byte_str_value", "Literal::cstr_value"])

p("C14", "Backend selection follows availability and force/unforce",
  "Outside a procedural macro every operation uses the self-contained implementation, on every thread, from the first call on, and force or unforce change nothing observable. Inside a procedural macro the compiler's implementation is used from the first call on, except that everything created between force and the next unforce uses the self-contained one; this holds for any sequence of force, unforce and use, and any interleaving of first uses.",
  ["histories", "schedules", "configurations"], "every sequence of force, unforce and use up to the bound as the first actions of a process inside and outside a macro, and every interleaving of two or three threads' steps",
  "the state is process-global and initialised once, so a test binary observes one history; tests never run inside a macro",
  ["src/detection.rs", "src/fallback.rs", "src/wrapper.rs"],
  [("WORKS tri-state and INIT Once", "src/detection.rs"), ("force/unforce", "src/fallback.rs")],
  state=[("WORKS", "0 unknown, 1 fallback, 2 compiler", "src/detection.rs")],
  observe=["fallback::force", "fallback::unforce", "Span::unwrap"])

p("C15", "Inside a macro, stream operations agree with the plain sequence model",
  "When running inside a real procedural macro expansion, any sequence of stream operations (new, from tree, clone, extend with trees or streams, collect, group, group contents, iterate, partial iteration, emptiness, printing, conversion to and from the compiler's token stream) yields exactly the tokens of the corresponding plain sequence in order, and never affects clones. Extending is observable immediately, whatever mix of operations came before.",
  ["histories"], "every operation sequence up to the bound, executed inside rustc through a harness procedural macro and compared step by step with a vector model",
  "no existing test runs inside a macro, so the deferred batching of appended tokens is never executed by them",
  ["src/wrapper.rs", "src/lib.rs"],
  [("DeferredTokenStream and evaluate_now", "src/wrapper.rs"), ("FromIterator/Extend for compiler streams", "src/wrapper.rs")],
  state=[("DeferredTokenStream.extra", "appended tokens not yet handed to the compiler", "src/wrapper.rs")],
  observe=["TokenStream API inside a proc macro"])

p("C16", "Inside a macro, tokens convert to and from the compiler losslessly",
  "When running inside a real procedural macro, conversion between this library's tokens and the compiler's preserves kind, text, delimiter, spacing and span of every token at every depth; constructors yield tokens equal to those the compiler's own constructors give, and spans report what the compiler reports. Parsing valid source gives the same tokens as the self-contained lexer does, streams built while forced to the self-contained implementation convert to the same tokens, and invalid source is reported as an ordinary recoverable error without failing the compilation. (Source with Unicode blanks that only the self-contained lexer knows is left to the compiler to diagnose.)",
  ["inputs", "configurations"], "every token kind, delimiter, spacing, constructor and value of small domains, every token tree up to the bound, every valid source of a bounded space and a space of invalid sources, inside rustc",
  "no existing test runs inside a macro",
  ["src/wrapper.rs", "src/lib.rs", "src/extra.rs", "src/probe/", "src/fallback.rs"],
  [("into_compiler_token, TokenTreeIter::next, Group::new, Literal/Ident/Span wrappers", "src/wrapper.rs"), ("FromStr2::valid pre-validation", "src/fallback.rs")],
  observe=["proc_macro conversions", "constructors and accessors inside a proc macro"])

p("C17", "Results do not depend on features or build configuration",
  "Parsing, printing, construction and stream operations give identical results (tokens, texts, accept or reject, panics) in every supported build configuration: with and without default features, span locations and the semver-exempt API, on stable and nightly compilers. Configurations differ only in the extra span and value information they expose; between compiler versions, only the spelling of escapes for non-ASCII characters in constructed literals may differ.",
  ["configurations", "inputs"], "the same bounded input spaces and operation histories executed in every configuration, outcome by outcome",
  "tests compare each configuration only with their own expectations on a few inputs",
  ["build.rs", "src/lib.rs", "src/fallback.rs", "src/parse.rs", "src/wrapper.rs"],
  [("cfg(span_locations), cfg(wrap_proc_macro), cfg(procmacro2_semver_exempt) branches", "src/")],
  observe=["public API in each configuration"])

p("C18", "Threads do not observe each other's parses and spans",
  "Each thread's parsing, span queries, printing and invalidation give the results they would give if that thread ran alone, for every interleaving with other threads' operations, including other threads starting, invalidating their spans and exiting.",
  ["schedules", "histories"], "every interleaving at operation granularity of two or three threads with up to a few operations each",
  "tests are single threaded; shared tables would only show up under particular interleavings",
  ["src/fallback.rs", "src/lib.rs", "src/detection.rs"],
  [("thread_local SOURCE_MAP", "src/fallback.rs"), ("!Send/!Sync marker types", "src/marker.rs")],
  state=[("SOURCE_MAP", "per-thread table of parsed sources", "src/fallback.rs")],
  observe=["Span::file", "Span::source_text", "invalidate_current_thread_spans"])

p("C19", "A literal parses from a string iff the string is exactly one literal",
  "Parsing a string as a single literal succeeds exactly when the whole string is one Rust literal token, optionally preceded by a minus sign directly in front of a digit, with no surrounding whitespace, comments or further tokens; the literal prints as exactly that string, and so does a literal made from a valid string without validation. It agrees with parsing the same string as a stream: a non-negative string is accepted exactly when the stream is that one literal token.",
  ["inputs"], "every string of the literal spaces: all short strings over numeric, quote, prefix and escape alphabets, every Unicode scalar before, inside and after a literal",
  "tests parse about thirty literals",
  ["src/fallback.rs", "src/parse.rs", "src/lib.rs"],
  [("Literal::from_str_checked whole-input check and minus handling", "src/fallback.rs"), ("parse::literal", "src/parse.rs")],
  observe=["Literal::from_str"])

p("C20", "Debug output shows exactly the tokens",
  "Debug formatting, plain or pretty, of a stream, tree, group, identifier, punctuation, literal or partially consumed iterator outside a macro shows every (remaining) token exactly once and in order, with its kind, text, spacing, delimiter and nesting in the established format; a span is shown exactly when span locations are enabled and the token carries a source location. Formatting changes nothing. Inside a macro, what Debug shows of a stream likewise names all its tokens in order and depends on the tokens alone, not on how the stream was built.",
  ["inputs", "histories"], "every parsable string of several lexer spaces, every constructed sequence of up to three tokens with and without source spans, every position of an iterator, every short history inside a macro",
  "tests compare a dozen fixed outputs",
  ["src/fallback.rs", "src/lib.rs", "src/wrapper.rs"],
  [("Debug for TokenStream/Group/Ident/Literal/Span, debug_span_field_if_nontrivial", "src/fallback.rs"), ("Debug for TokenTree/Punct/IntoIter", "src/lib.rs"), ("Debug and debug_span_field_if_nontrivial", "src/wrapper.rs")],
  observe=["Debug"])

p("C21", "Tokens keep their spans through every stream operation",
  "A token that was parsed with, constructed with or set to a span reports that span ever after: through any sequence of stream operations (conversion from a tree, extend with trees or streams, collect, clone, wrapping in a group and taking its contents, full or partial iteration, and inside a macro conversion to and from the compiler's stream), on the self-contained implementation and on the compiler's. Only set_span on that very token changes it, and a clone made earlier keeps the old one. A negative literal's two tokens both keep the literal's span. Tokens made by a constructor that takes no span are at the call site. (Inside a macro the compiler itself gives one span to adjacent punctuation forming one operator.)",
  ["histories", "inputs"], "every operation history up to the bound with a distinct span on every token, every constructor with every pair of spans set one after the other, streams of every length up to a few hundred",
  "tests look at the spans of freshly parsed tokens only",
  ["src/fallback.rs", "src/wrapper.rs", "src/lib.rs", "src/rcvec.rs"],
  [("Extend, FromIterator, From<TokenTree>, push_negative_literal", "src/fallback.rs"), ("into_compiler_token, TokenTreeIter, Extend", "src/wrapper.rs"), ("span, set_span of Group, Ident, Punct, Literal, TokenTree", "src/lib.rs")],
  observe=["TokenTree::span", "Group::span", "Ident::span", "Punct::span", "Literal::span"])

p("C22", "Caller code run inside an operation may fail, panic or use the library",
  "While an operation calls code of the caller (drawing from an iterator it extends or collects from, writing to the writer it prints to, feeding a hasher, reading an AsRef string or a range), that code may itself use the library: parse, print, construct, compare, iterate, extend or drop other streams that share the same tokens, query or invalidate spans. It gets the results it would get elsewhere, and the operation's own result is what it would be undisturbed. If a writer fails, formatting returns the error, having written a prefix of its text, and writes nothing more; if an iterator ends early, the stream holds exactly what it handed out; a panic passes through and leaves every other stream intact and the library usable. (Inside a macro, rustc's own printing does not allow a writer to use the compiler.)",
  ["histories", "fault_sequences"], "every act (and every two acts) at every callback of every operation that calls the caller, with zero to two other handles to the same tokens, outside and inside a macro",
  "tests never act from inside a callback and never print to a failing writer",
  ["src/fallback.rs", "src/wrapper.rs", "src/lib.rs", "src/rcvec.rs"],
  [("Extend and FromIterator for TokenStream", "src/fallback.rs"), ("Display and Debug of every token type", "src/fallback.rs"), ("Hash and PartialEq for Ident, Literal::subspan", "src/lib.rs"), ("Extend, FromIterator, Debug", "src/wrapper.rs")],
  observe=["TokenStream::extend", "FromIterator", "Display", "Debug", "Hash", "PartialEq"])

p("C23", "Objects made before force or unforce keep working after it",
  "Inside a macro, every stream, group, token, span and iterator keeps working after any later force() or unforce(), in whichever state it was made: cloning, iterating, printing, asking for emptiness, taking a group's contents, respanning with its own span and converting to the compiler's stream give exactly its tokens, and it stays of the implementation it was made in. An operation on objects of one implementation succeeds whatever the current state (extending a stream, collecting streams, Group::new); an identifier is of its span's implementation, a group of its stream's, and other constructors, parsing, From<TokenTree> and collecting trees use the current one. Combining objects of both implementations either panics, leaving every object as it was (an extension may keep the items before the one it refuses), or gives the combined tokens; it never loses or changes a token silently. Spans of two implementations neither join nor compare equal. Invalidating spans inside a macro is refused without effect. (A negative literal of the compiler put into a self-contained stream may stay one token.)",
  ["histories"], "every history to the stated depth of force, unforce and operations on two streams and a kept iterator, from states holding streams of either and of both implementations; every two tokens made in different states",
  "the tests force and unforce once, with nothing made before",
  ["src/wrapper.rs", "src/lib.rs", "src/detection.rs"],
  [("mismatch and every match over (Compiler, Fallback)", "src/wrapper.rs"), ("DeferredTokenStream, TokenTreeIter", "src/wrapper.rs"), ("force, unforce", "src/detection.rs"), ("invalidate_current_thread_spans", "src/extra.rs")],
  observe=["fallback::force", "fallback::unforce", "TokenStream::extend", "FromIterator", "Group::new", "set_span", "From<TokenStream> for proc_macro::TokenStream"])

p("C24", "Failed calls leave no trace; values work while unwinding and at thread exit",
  "A call that fails (a refused identifier, punctuation or number, a parse error, an out-of-range subspan, a panicking iterator or writer, a compiler span asked for outside a macro, a query on a span that was invalidated, which may panic) leaves nothing behind: every later call on the thread gives what it would have given without it, and objects made before are unchanged. Streams, groups, tokens and iterators can be used and dropped by destructors that run while a panic unwinds, also nested, and, as far as no parsing or asking for places is involved, by destructors of thread-locals as the thread exits, in whatever order these were first used relative to the library: same results, no panic or abort, all memory released. (Without span locations parsing works there, too.)",
  ["fault_sequences", "histories"], "every failing call, and every two, before, around and after making objects, then every use; every sequence of uses to the stated length in every destructor context",
  "tests do not go on after a panic and never use the library from a destructor",
  ["src/fallback.rs", "src/lib.rs", "src/parse.rs", "src/rcvec.rs"],
  [("SOURCE_MAP", "src/fallback.rs"), ("Drop for TokenStream", "src/fallback.rs"), ("validate_ident, Literal::f64_unsuffixed", "src/fallback.rs"), ("token_stream", "src/parse.rs")],
  observe=["Ident::new", "Literal", "FromStr", "Span::start", "Span::source_text", "Drop", "Display", "Extend"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

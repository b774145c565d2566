#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below (one place to edit titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": hook}})
L = "src/main/cpp/lang/"
H = "include/ulight/impl/"
ALL_LANG = [L + x for x in "bash.cpp cowel.cpp cpp.cpp css.cpp diff.cpp ebnf.cpp html.cpp java.cpp js.cpp json.cpp kotlin.cpp llvm.cpp lua.cpp markdown.cpp nasm.cpp python.cpp rust.cpp tex.cpp xml.cpp yaml.cpp".split()]
API = ["src/main/cpp/ulight.cpp", "include/ulight/ulight.h"]

p("C01", "Highlighting never violates memory safety or fails an internal assertion",
  "For every byte sequence as source, every language and every combination of flags, highlighting to tokens and to HTML terminates without an out-of-bounds or use-after-free access, undefined behaviour, a memory leak or a failed internal assertion. This holds in debug builds and in builds with assertions disabled.",
  ["inputs", "configurations"], "all byte sequences (well-formed UTF-8 or not) x 25 languages x all flag sets x debug and release builds",
  "The tests highlight ~800 fixed fixtures and all one-character sources; lexers fail on truncated, interleaved and ill-formed constructs which no fixture contains.",
  API + ALL_LANG + [H + "highlighter.hpp", H + "escapes.hpp", H + "parse_utils.hpp", H + "unicode.hpp"],
  [("bounds-checked emission and advancing", H + "highlighter.hpp"), ("per-language matchers on string views", L)], ["ulight_source_to_tokens", "ulight_source_to_html", "assertion handler"])
p("C02", "Token streams are ordered, disjoint, in range, non-empty and of known types",
  "For every source, language and flags, the tokens delivered are in ascending order of position, do not overlap, have a length of at least one code unit, lie entirely within the source, and have one of the documented highlight types. A valid UTF-8 source always yields the complete stream.",
  ["inputs", "configurations"], "all sources x 25 languages x flags",
  "Fixtures compare rendered HTML for fixed inputs; overlap or range errors appear only on inputs nobody wrote down.",
  API + ALL_LANG + [H + "highlighter.hpp"], [("emission asserts range and length in debug builds only", H + "highlighter.hpp")], ["flush_tokens callback"])
p("C03", "Tokens never split a code point and HTML of valid UTF-8 is valid UTF-8",
  "For every source that is valid UTF-8, in every language and with every flag set, each token begins and ends on a code point boundary. Consequently the HTML output of a valid UTF-8 source is valid UTF-8.",
  ["inputs", "configurations"], "all valid UTF-8 sources x 25 languages x flags",
  "Fixtures are almost entirely ASCII, so a lexer advancing by code units instead of code points goes unnoticed.",
  ALL_LANG + [H + "highlighter.hpp", H + "escapes.hpp", H + "unicode.hpp", H + "unicode_algorithm.hpp"], [("decode_and_length_or_replacement for error recovery", H + "unicode.hpp")], ["flush_tokens", "flush_text"])
p("C04", "Highlighting any valid UTF-8 text in any language succeeds",
  "For every valid UTF-8 source, language and flags, highlighting to tokens and to HTML reports success and leaves no error message. Sources that are not valid UTF-8 yield either success or the bad-text status, the same one for tokens and HTML, and every failure status comes with a non-empty error message.",
  ["inputs", "configurations"], "all sources x 25 languages x flags",
  "The documentation promises best-effort highlighting of arbitrary, even malformed, code; tests only feed mostly well-formed programs.",
  API + ALL_LANG, [("status translation at the API boundary", "src/main/cpp/ulight.cpp")], ["returned status", "state->error"])
p("C05", "HTML output is exactly the rendering of the token stream and is lossless",
  "For every source, language, flags, tag and attribute name, the HTML output is the source text with each token wrapped in an element of the configured tag name whose configured attribute holds the token type's short name, and with '&', '<' and '>' replaced by entities everywhere else and inside. Removing the tags and decoding the entities gives back the source byte for byte.",
  ["inputs", "configurations"], "all sources x languages x flags x tag and attribute names x buffer sizes",
  "Fixtures pin the output for one configuration and small inputs that fit into one buffer.",
  ["src/main/cpp/ulight.cpp", H + "buffer.hpp"], [("ulight_source_to_html token flush", "src/main/cpp/ulight.cpp")], ["flush_text", "flush_tokens"])
p("C06", "Output is independent of buffer sizes, and flushes follow the protocol",
  "The sequence of tokens and the HTML text delivered are the same for every capacity (at least 1) of the token and text buffers. Every flush passes the user's own data pointer and buffer, between one and capacity-many elements, only the last flush may be of a buffer that is not full, and the library changes neither the source nor the caller's configuration (except that HTML generation sets the token flush function, as documented).",
  ["inputs", "configurations", "histories"], "all sources x languages x flags x token and text buffer capacities, over the whole history of flushes",
  "Tests use one large buffer; a flush in the middle of a coalesced token, a nested language or an entity happens only at particular capacities.",
  ["src/main/cpp/ulight.cpp", H + "buffer.hpp", H + "highlighter.hpp"], [("Non_Owning_Buffer flush on full", H + "buffer.hpp"), ("sub-buffers for nested languages", H + "highlighter.hpp")], ["flush_tokens", "flush_text"])
p("C07", "Highlighting is deterministic, reentrant and thread-safe",
  "The result for a source depends on nothing but the source, language and flags: not on earlier calls, reuse of the state object, initial contents of the buffers, or other threads highlighting at the same time. Concurrent use of separate states has no data race.",
  ["schedules", "histories", "inputs"], "all histories of earlier calls, all interleavings of threads that use separate states",
  "The tests are single-threaded and never run the same source twice.",
  API + ALL_LANG + ["src/main/cpp/chars.cpp", H + "assert.hpp"], [("highlighters keep all state on the stack; the assertion handler is thread-local", H + "assert.hpp")], ["flush_tokens", "flush_text", "ThreadSanitizer reports"])
p("C08", "The coalesce flag merges adjacent tokens of equal type and changes nothing else",
  "For every source and language, setting the coalesce flag leaves the highlight type of every code unit unchanged and never introduces a new token start. With the flag, no two touching tokens have the same type.",
  ["inputs", "configurations"], "all sources x languages x strictness",
  "Fixtures run with a fixed flag per file and never compare the two modes.",
  [H + "highlighter.hpp"] + ALL_LANG, [("coalescing on emission", H + "highlighter.hpp")], ["flush_tokens"])
p("C09", "Invalid parameters are rejected with the documented status before any output",
  "A call with a null buffer, null flush function, zero capacity, null source with non-zero length, null or empty tag or attribute name, or a language value that is not a supported language returns the documented status for it, sets an error message and delivers nothing. A call with valid parameters is never rejected.",
  ["configurations", "fault_sequences"], "all combinations of valid and invalid fields of the state object",
  "The tests have no negative test of the C API.",
  API, [("parameter validation", "src/main/cpp/ulight.cpp")], ["returned status", "state->error", "flush callbacks"])
p("C10", "Allocation failure is reported and leaks nothing",
  "If any single memory allocation, or every allocation from some point on, fails during highlighting, the call still returns a status instead of crashing, and everything allocated is freed. Allocation functions that fail return null, and freeing or destroying null is harmless.",
  ["fault_sequences", "inputs"], "every allocation index during highlighting of sources in every language",
  "No test injects allocation failures.",
  ["src/main/cpp/ulight.cpp", H + "memory.hpp", "include/ulight/ulight.h"], [("Global_Memory_Resource, catch of bad_alloc", "src/main/cpp/ulight.cpp")], ["returned status", "LeakSanitizer"])
p("C11", "Language lookup by name and path agrees with the language lists",
  "Exactly the listed names are found by lookup, as written, each yielding its listed language; the list is sorted and covers every language and every name in the documentation. Lookup by path yields the language named by the text after the last dot of the path, and none if there is no dot or no such name. Every language has a non-empty display name, invalid values have none, and the functions for both character types agree.",
  ["inputs"], "all strings as names and paths, all integer values as languages",
  "The tests look up a few names.",
  API + ["include/ulight/ulight.hpp"], [("sorted name table with binary search", "src/main/cpp/ulight.cpp")], ["ulight_get_lang", "ulight_lang_from_path", "ulight_lang_list", "ulight_lang_display_name"])
p("C12", "Highlight type names are complete, unique and consistent with the documentation",
  "Every highlight type has exactly one long and one short name, distinct from those of all other types, made of lower-case letters, digits, '-' and '_' so that the short name can be used as an unquoted attribute value, the long name being that of the type's constant in kebab case. Other values have empty names, and the C and C++ functions for both character types agree.",
  ["inputs"], "all 256 and more integer values of the type", "The tests never enumerate the names.",
  API + ["README.md"], [("name tables", "src/main/cpp/ulight.cpp")], ["ulight_highlight_type_long_string", "ulight_highlight_type_short_string", "ulight_highlight_type_id"])
p("C13", "Nested languages are highlighted as if alone, within exact bounds",
  "Within HTML, the contents of script and style elements are highlighted exactly as the same text would be as a JavaScript or CSS source of its own, shifted to its position, and end at the first matching closing tag in any letter case. The contents of title and textarea elements contain no tokens other than character references, and highlighting of the surrounding markup continues unaffected after the closing tag.",
  ["inputs", "programs"], "all element contents and surroundings",
  "Three fixtures contain a nested language.",
  [L + "html.cpp", H + "highlighter.hpp", L + "js.cpp", L + "css.cpp"], [("consume_nested_language with a sub-buffer", H + "highlighter.hpp"), ("match_raw_text", L + "html.cpp")], ["flush_tokens"])
p("C14", "Highlighting work grows at most quadratically with the source",
  "For every language, doubling a source of repeated or nested fragments multiplies the work done by a bounded factor consistent with at most quadratic growth, and no source of a few kilobytes takes more than a fixed amount of work. In particular, highlighting always terminates.",
  ["inputs"], "all repetitive and nested sources", "Tests use short sources, for which exponential or cubic behaviour is invisible.",
  ALL_LANG, [("lookahead in matchers", L)], ["count of executed control-flow edges"])
p("C15", "Deeply nested sources are highlighted without exhausting the stack",
  "A source nested a few thousand levels deep in brackets, quotes, interpolations, elements, lists or comments is highlighted to completion on a thread with the usual 8 MiB stack, in every language.",
  ["inputs", "programs"], "all nestings of constructs up to some thousands of levels", "No fixture nests more than a handful of levels.",
  ALL_LANG, [("recursive descent in several highlighters", L)], ["returned status", "process exit status"])
p("C16", "The JSON parser accepts exactly the JSON texts",
  "The event-based JSON parser accepts a text if and only if it is a valid RFC 8259 JSON text, except that comments are accepted when they are enabled. Rejection never depends on which events are handled.",
  ["inputs", "configurations"], "all byte sequences x parser options", "The tests parse a handful of documents.",
  [L + "json.cpp", "include/ulight/json.hpp"], [("recursive-descent parser", L + "json.cpp")], ["ulight::parse_json"])
p("C17", "JSON events reconstruct the document with exact values and positions",
  "For every accepted document, the sequence of events, read as a tree, equals the document: same nesting, same strings after decoding of escapes, same numbers, literals and comments, in source order. Every event reports the offset, line and column of its source text, and offsets never decrease.",
  ["inputs", "histories"], "all valid documents", "The tests check event order on one document.",
  [L + "json.cpp", "include/ulight/json.hpp"], [("JSON_Visitor callbacks", L + "json.cpp")], ["JSON_Visitor"])
p("C18", "JSON errors are reported exactly once, at the right place, then parsing stops",
  "For every rejected document the parser reports exactly one error, at a position not after the first byte at which no continuation could make the text valid and not before the character, escape sequence, number, word, comment or unterminated string which that byte belongs to, with the documented kind of error for what is wrong there (an error in or directly after a word or number, and one at the end of the text, may be of a more general kind), and delivers no further event. The events before are those of a valid prefix.",
  ["inputs", "histories"], "all invalid documents", "The tests have no malformed document.",
  [L + "json.cpp", "include/ulight/json.hpp"], [("error callback", L + "json.cpp")], ["JSON_Visitor::error"])
p("C19", "UTF-8 decoding and encoding are exact inverses and reject ill-formed input",
  "Decoding accepts exactly the well-formed UTF-8 sequences of the Unicode standard, returns their code point and length, and encoding is its inverse for every scalar value. For ill-formed input, decoding with replacement consumes the maximal subpart and yields U+FFFD, whichever decoding function, view or array overload or CPU-specific path is used.",
  ["inputs"], "all 2^32 four-byte sequences, all shorter ones, all 1114112 code points", "The tests decode one text file.",
  [H + "unicode.hpp"], [("lookup tables and masks", H + "unicode.hpp")], ["utf8::decode_and_length", "utf8::decode_and_length_or_replacement", "utf8::encode8_unchecked", "utf8::is_valid"])
p("C20", "Unicode classes and code point algorithms match their definitions",
  "Identifier, scalar-value and private-use predicates agree with the Unicode database for every code point that is assigned in both versions. Searching and counting by code point returns what a naive decode-and-test loop returns, for every text including ill-formed ones.",
  ["inputs"], "all code points, all byte sequences", "The tests sample a few code points.",
  ["src/main/cpp/chars.cpp", H + "unicode_chars.hpp", H + "unicode_algorithm.hpp", H + "unicode.hpp"], [("generated tables with binary search", "src/main/cpp/chars.cpp")], ["is_xid_start", "is_xid_continue", "utf8::find_if", "utf8::length_if"])
p("C21", "Character sets, ASCII predicates and ASCII algorithms match their definitions",
  "Character sets behave as mathematical sets of characters under union, intersection, difference, complement, insertion and removal. ASCII predicates, case conversions and searches return what their definitions say, for every character and string.",
  ["inputs", "histories"], "all characters, sets and strings", "The tests sample a few.",
  [H + "charset.hpp", H + "ascii_chars.hpp", H + "ascii_algorithm.hpp", H + "strings.hpp"], [("bit vectors", H + "charset.hpp")], ["Charset", "ascii::*"])
p("C22", "Shared matchers for numbers, escapes, lines and blank lines match their grammar",
  "The shared number matcher splits a literal into sign, prefix, digits, point, exponent and suffix whose lengths add up to the match, and matches the longest literal its options describe. Matchers for escapes, enclosed text, lines and blank lines return exactly what a naive reference implementation of their documentation returns, never more than the length of the text.",
  ["inputs", "configurations"], "all strings x matcher options", "The tests check a few literals.",
  [H + "numbers.hpp", H + "escapes.hpp", H + "parse_utils.hpp", "src/main/cpp/parse_utils.cpp"], [("match_common_number", "src/main/cpp/parse_utils.cpp"), ("match_common_escape", H + "escapes.hpp")], ["return values"])
p("C23", "String diffs are minimal edit scripts that transform one text into the other",
  "For every pair of sequences, applying the computed edit script to the first gives the second, and no shorter script exists. Printed diffs of lines have the right hunks, context and line counts.",
  ["inputs"], "all pairs of strings and line sequences", "The tests diff a few pairs.",
  [H + "string_diff.hpp"], [("shortest edit script", H + "string_diff.hpp")], ["shortest_edit_script", "print_diff"])
p("C24", "File loading returns exactly the file's contents or the right error",
  "Loading a file appends precisely its bytes for every size and content, converts UTF-32 files and rejects ill-formed text, and reports an error for missing, unreadable or failing files without leaking the handle. File handles close exactly once.",
  ["inputs", "fault_sequences"], "all file sizes, contents and read failures", "The tests load two small files.",
  ["src/main/cpp/io.cpp", H + "io.hpp"], [("file_to_bytes, load_utf8_file, Unique_File", "src/main/cpp/io.cpp")], ["return values", "descriptor table"])
p("C25", "The command-line tool writes the highlighted document or fails visibly",
  "Given a readable file whose language is known from its path or name, the tool exits with zero and writes to standard output (or to the output file given) exactly the HTML the library produces for it. When arguments are wrong, the file cannot be read, the text is invalid or output cannot be written, it exits with a non-zero status and an explanation.",
  ["inputs", "configurations", "fault_sequences"], "all argument lists, files and output failures", "No test runs the tool.",
  ["src/main/cpp/main.cpp", "src/main/cpp/io.cpp"], [("main", "src/main/cpp/main.cpp")], ["stdout", "stderr", "exit status"])
p("C26", "The C++ interface behaves exactly as the C interface",
  "For every source and configuration, the C++ interface delivers the same tokens, HTML, statuses, errors, language lookups and type names as the C interface. Its getters return what its setters stored, and its enumerators have the C values.",
  ["inputs", "configurations", "histories"], "all sources and sequences of setter calls", "No test uses the wrapper class.",
  ["include/ulight/ulight.hpp", "include/ulight/ulight.h"], [("State wrapper", "include/ulight/ulight.hpp")], ["ulight::State"])
p("C27", "Buffers and function references deliver every element and call exactly once",
  "For every capacity and sequence of operations, the elements passed to a buffer's flush function, concatenated with what the buffer still holds, are the elements that were put in, in order, each exactly once. A function reference forwards each call to its target exactly once with the same arguments and result.",
  ["histories", "configurations"], "all sequences of push, emplace, append, flush and clear x capacities", "The tests run a few short sequences.",
  [H + "buffer.hpp", "include/ulight/function_ref.hpp"], [("Non_Owning_Buffer", H + "buffer.hpp"), ("Function_Ref", "include/ulight/function_ref.hpp")], ["flush function"])
LEX = "For well-formed programs made of these elements in any order, "
def lex(id, title, statement, text, files, mech):
    p(id, title, statement, ["programs", "inputs"], text, "Fixtures contain each construct once or twice in a fixed order; a lexer's mistakes depend on neighbours, nesting, line ends and rare forms.", files, mech, ["flush_tokens"])
lex("C30", "C and C++ sources are classified by their lexical grammar",
    "In every sequence of well-formed preprocessing tokens, comments, string, character and raw string literals with their encoding prefixes, escapes and suffixes, numbers, keywords, identifiers, operators, attributes and directives get the type of their class over exactly their extent, whatever their neighbours. Line continuations and comment markers inside literals never end or start anything. C++-only keywords are names in C, and C-only keywords are names in strict C++.",
    "all token sequences of C and C++", [L + "cpp.cpp", H + "lang/cpp.hpp"], [("Highlighter", L + "cpp.cpp")])
lex("C31", "JavaScript and TypeScript sources are classified by their lexical grammar",
    "In every well-formed sequence of comments, strings with escapes, templates with nested substitutions, regular expressions, numbers, keywords, identifiers, private names, operators and JSX elements, each element gets the type of its class over exactly its extent. A slash after a name, literal or closing bracket divides, and starts a regular expression after operators, opening brackets and keywords. Type-only keywords are highlighted in TypeScript alone. A number with a misplaced separator, or without the digits it needs, is an error as a whole.",
    "all token sequences of JavaScript, JSX and TypeScript", [L + "js.cpp", H + "lang/js.hpp"], [("Highlighter", L + "js.cpp")])
lex("C32", "Java and Kotlin sources are classified by their lexical grammar",
    "In every well-formed sequence of comments, string and character literals, text blocks, templates with nested interpolation, numbers, keywords, annotations, labels, identifiers and operators, each element gets the type of its class over exactly its extent. A number with a misplaced separator, or without the digits it needs, is an error as a whole.",
    "all token sequences of Java and Kotlin", [L + "java.cpp", L + "kotlin.cpp", H + "lang/java.hpp", H + "lang/kotlin.hpp"], [("Highlighters", L)])
lex("C33", "Rust sources are classified by their lexical grammar",
    "In every well-formed sequence of comments, string, byte string, C string, raw string and character literals, lifetimes, raw identifiers, numbers with suffixes, keywords, macros, identifiers and operators, each element gets the type of its class over exactly its extent. A raw string ends only at a quote followed by as many hashes as it began with. The suffix of a literal that takes none, a raw identifier which cannot be one and a malformed number are errors over exactly their extent.",
    "all token sequences of Rust", [L + "rust.cpp", H + "lang/rust.hpp"], [("Highlighter", L + "rust.cpp")])
lex("C34", "Python sources are classified by their lexical grammar",
    "In every well-formed sequence of comments, short and long strings with every prefix, escapes where the prefix allows them, numbers, keywords, identifiers and operators, each element gets the type of its class over exactly its extent. Raw strings have no escapes, and a replacement field in a formatted string is part of the string's text. A number with a misplaced separator, or without the digits it needs, is an error as a whole.",
    "all token sequences of Python", [L + "python.cpp", H + "lang/python.hpp"], [("Highlighter", L + "python.cpp")])
lex("C35", "Lua sources are classified by their lexical grammar",
    "In every well-formed sequence of line comments, long comments and long strings of every level, quoted strings with escapes, numbers, keywords, names, labels and operators, each element gets the type of its class over exactly its extent. A long bracket closes only at its own level.",
    "all token sequences of Lua", [L + "lua.cpp", H + "lang/lua.hpp"], [("Highlighter", L + "lua.cpp")])
lex("C36", "Bash sources are classified by their lexical grammar",
    "In every well-formed sequence of simple commands, pipelines and subshells, the command word, options, arguments, single- and double-quoted strings, escapes, parameter expansions, command and arithmetic substitutions, comments and control operators get the type of their class over exactly their extent, at any nesting of substitutions within strings and of strings within substitutions. A hash starts a comment only at the start of a word.",
    "all token sequences of Bash", [L + "bash.cpp", H + "lang/bash.hpp"], [("Highlighter", L + "bash.cpp")])
lex("C37", "CSS sources are classified by their lexical grammar",
    "In every well-formed stylesheet of top-level rules and at-rules, selectors (types, classes, ids, attributes, pseudo-classes, combinators), declarations, custom properties, comments, strings, numbers with units, hashes, functions and URLs get the type of their class over exactly their extent.",
    "all stylesheets", [L + "css.cpp", H + "lang/css.hpp"], [("Highlighter", L + "css.cpp")])
lex("C38", "HTML and XML sources are classified by their lexical grammar",
    "In every well-formed document, tags, attributes, attribute values, character references, comments, doctypes, CDATA sections and processing instructions get the type of their class over exactly their extent, and plain text gets none.",
    "all HTML and XML documents", [L + "html.cpp", L + "xml.cpp"], [("Highlighters", L)])
lex("C39", "JSON and YAML sources are classified by their grammar",
    "In every valid JSON text (with comments in JSON-with-comments), member names including their quotes, strings, escapes, numbers, literals, comments and punctuation get the type of their class over exactly their extent; malformed numbers, words and escapes are errors. In every YAML document of block mappings and sequences, flow collections, plain, quoted and block scalars, anchors, aliases, tags, directives, document markers and comments do; a plain scalar is a number, boolean or null only as a whole.",
    "all JSON and YAML documents", [L + "json.cpp", L + "yaml.cpp"], [("Highlighters", L)])
lex("C40", "Markdown sources are classified by block and inline structure",
    "In every document of headings, thematic breaks, fenced and indented code, lists, block quotes, paragraphs, emphasis, code spans, links, autolinks, character references, escapes and HTML comments as CommonMark defines them, each construct on a line gets the type of its class over exactly its extent, and text inside code and comments is never interpreted as other markup.",
    "all Markdown documents made of these constructs", [L + "markdown.cpp"], [("Highlighter", L + "markdown.cpp")])
lex("C41", "TeX and COWEL sources are classified by their grammar",
    "In every TeX document of text, commands, escapes, groups, brackets and special characters, and in every COWEL document of text, directives with arguments and blocks, strings, escapes, splices, numbers, keywords, operators and comments, each element gets the type of its class over exactly its extent, at any nesting of groups, blocks, strings and splices, and plain text gets none.",
    "all TeX, LaTeX and COWEL documents", [L + "tex.cpp", L + "cowel.cpp"], [("Highlighters", L)])
lex("C42", "NASM and LLVM sources are classified by their lexical grammar",
    "In every sequence of well-formed NASM lines of labels, instructions, registers, types, numbers in every base, strings, operators, macros and comments, and of well-formed LLVM keywords, types, names, labels, numbers, strings, vectors, punctuation and comments, each element gets the type of its class over exactly its extent, and nothing crosses a line end that its grammar does not allow to.",
    "all NASM and LLVM sources", [L + "nasm.cpp", L + "llvm.cpp"], [("Highlighters", L)])
lex("C43", "EBNF, diff and plain text are classified by their grammar",
    "In every diff, each line gets the type its marker calls for over its whole extent, without its line end; in every EBNF grammar, rules, terminals, comments, special sequences and operators get the type of their class; plain text gets no token at all.",
    "all diffs, EBNF grammars and plain texts", [L + "ebnf.cpp", L + "diff.cpp"], [("Highlighters", L)])
p("C44", "The strict flag affects only what is outside the language standard",
  "Strict highlighting only affects C, C++ and JSON, and there changes nothing for sources without extensions. In C and C++ it turns extension keywords (and in C++, the keywords of C alone) into ordinary names, and changes no other token. In JSON no comment is highlighted as such, and tokens before the first comment stay the same; JSON with comments keeps its comments.",
  ["inputs", "configurations"], "all sources x languages x strictness", "One or two fixtures exist per flag.",
  [L + "cpp.cpp", L + "json.cpp", "include/ulight/ulight.h"], [("Highlight_Options::strict", H + "highlight.hpp")], ["flush_tokens"])
p("C45", "Independent source fragments are highlighted independently",
  "Where a language's grammar makes complete top-level items separable, highlighting the concatenation of a sequence of complete items ending in a line end and any second source yields the tokens of the first followed by those of the second, shifted. Inserting whitespace or a comment in between changes no other token.",
  ["programs"], "all pairs of complete sources in the languages with separable items", "No test compares the highlighting of a text with that of its parts.",
  ALL_LANG, [("lexer state at item boundaries", L)], ["flush_tokens"])
p("C46", "Malformed literals and stray characters are contained",
  "Something lexically invalid affects nothing beyond itself: an escape sequence the language does not define, a stray character beginning no token of the language, or a single-line quoted literal which its line end leaves unterminated. The escape sequence is highlighted as an error from its first byte and the rest of its literal keeps its own highlighting; the stray character is highlighted as an error (in C and C++: not at all), also where it touches a string or parenthesis; and all other tokens before and after are those of the source without the invalid part.",
  ["programs"], "all sources of the language with one malformed line in them", "The fixtures sample a few malformed literals per language.",
  ALL_LANG, [("escape sequence matching and string consumption", L)], ["flush_tokens"])
p("C47", "Unterminated comments and literals extend to the end of the source",
  "A comment or literal which may span lines and which the source never terminates is still highlighted: its opening delimiter as such, and all that follows to the end of the source as its content (with escape sequences and other structure as in a terminated one); nothing of it is highlighted as code and nothing before it changes. A single-line literal at the very end of the source, its last escape sequence included, is highlighted likewise.",
  ["programs"], "all sources of the language, cut off within a comment or literal", "The fixtures sample a few unterminated elements per language.",
  ALL_LANG, [("comment and string matching and consumption", L)], ["is_terminated"])
p("C48", "Line ends may be LF or CRLF",
  "In every language but Bash, where a carriage return is part of the text, a source whose lines end with CRLF is highlighted like the same source with LF: the tokens, their types and their extents are the same apart from the carriage returns themselves, in strings, comments, continuations, directives and indentation as well as in malformed sources.",
  ["programs"], "all sources of the language and their line ends", "Fixtures contain LF line ends.",
  [l for l in ALL_LANG if "bash" not in l], [("line end and continuation matching", L)], ["line_terminator"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

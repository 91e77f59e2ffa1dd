import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
AST="parsel/src/ast.rs"; UT="parsel/src/util.rs"; DP="parsel_derive/src/parse.rs"; DT="parsel_derive/src/to_tokens.rs"; DU="parsel_derive/src/util.rs"; DF="parsel_derive/src/from_str.rs"; DD="parsel_derive/src/display.rs"; LIB="parsel/src/lib.rs"

p("C01","A derived parser accepts exactly the language its type definition spells out",
"A type with a derived parser accepts an input if and only if the input matches its definition read as a grammar: a struct is its fields in declaration order, an enum is an ordered choice in which the first variant that parses wins, helper types mean what their documentation says, and the whole input must be consumed. When an input is accepted, the value built is the one the definition prescribes: the winning variant, and in every field the value parsed at that position. This holds for any number of fields and variants, for named, tuple and unit shapes, and for nested and recursive definitions.",
["programs","inputs"],"every supported grammar definition (struct/enum shapes, nesting, recursion, helper types) and every finite token sequence, matching or not",
"The tests fix a handful of hand-written grammars and a few inputs for each; they never vary the definition itself, the position of the failing token, or which alternatives share a prefix.",
[DP,UT,AST],[("expand_fields / expand_variants",DP),("try_parse_variant",UT),("Parse impls of helper types",AST)],["FromStr / parse_str result of derived types"])
p("C02","Printing an AST gives back its tokens, and re-parsing the print gives the AST",
"For every AST obtained by parsing, converting it to tokens yields exactly the tokens that were parsed, in order, none dropped, duplicated or moved, up to the canonical spelling of literals. Printing the AST as text in the default and in the alternate mode, and parsing that text, yields an AST equal to the original. (An explicit non-negative signed literal may come back as the unsigned literal of the same value where both are admissible; a grammar in which re-gluing punctuation selects another alternative is outside this statement.)",
["programs","inputs"],"every derived or helper node type with a parser and a printer, and every input it accepts",
"The round-trip test covers one grammar under a random expression generator; printing of tuple/named/unit variants, nesting depth, each helper type, and long sequences is sampled by a few literals only.",
[DT,DD,AST,UT],[("expand_struct / expand_variants",DT),("ToTokens impls of helper types",AST),("TokenStreamFormatter",UT)],["to_token_stream, Display, {:#}"])
p("C03","A failed choice reports its furthest alternative, at its location, with context",
"When every alternative of an enum or of an Either fails and the failures have source locations, the reported error is one whose location ends furthest into the input (any of them when several tie), independently of the order of the alternatives. The error keeps the location and message of the failure that caused it, and for derived types the message is prefixed, outermost first, with one line 'error parsing Enum::Variant::field, caused by:' (or 'Struct::field') per enclosing production, naming the fields that were being parsed (the index for tuple fields). A failure at the end of the whole input has no source location, and is covered only as far as the documentation promises.",
["programs","inputs"],"every grammar with alternatives, nested to any depth and in any order, and every rejected input with span information",
"The tests check the message of very few failing parses; which alternative is furthest depends on the input and on the variant order, and the tests never permute either.",
[UT,AST,DP],[("try_parse_variant / chain_error",UT),("impl Parse for Either",AST),("expand_fields (names passed to chain_error)",DP)],["Error::span, Error::to_string"])
p("C04","A failed speculative parse consumes nothing",
"Whenever an alternative, an optional prefix, a repetition item or a separator is tried and does not parse, the input position is exactly what it was before the attempt, however many tokens the attempt had read; whatever parses next sees those tokens. When a node does parse, it consumes exactly the tokens that make it up and leaves the remaining tokens, in order, to whatever follows.",
["programs","inputs"],"every node type, every prefix of every input, with arbitrary tokens following the node",
"The tests parse whole inputs, so over- or under-consumption shows only when a particular continuation follows; failed attempts that read several tokens before failing are hardly exercised.",
[UT,AST],[("try_parse_variant",UT),("Maybe / Either / Any / Separated Parse impls (fork, advance_to)",AST)],["the rest of the stream after input.parse::<T>()"])
p("C05","Optional parts and the empty, end and not-end markers decide as documented",
"An optional part is present exactly when its prefix parses at that point; once the prefix has been consumed the body must parse, and a failing body is an error rather than an absent part; when the prefix does not parse, the part is absent and nothing is consumed. The empty marker always succeeds, the end marker succeeds exactly at the end of the current group or input and the not-end marker exactly elsewhere, and none of the three consumes or prints anything. Accessors, conversions and iterators of the optional part expose exactly the stored prefix and body, and nothing when it is absent.",
["inputs","programs"],"every prefix/body pair of productions, every input, every nesting depth (inside and outside of groups), present and absent",
"The tests and examples exercise single-token prefixes on short inputs; multi-token prefixes failing half-way, committed failures and end markers inside nested groups depend on the input.",
[AST],[("Maybe","parsel/src/ast.rs Maybe"),("Empty, Eof, NotEof",AST)],["Maybe::as_prefix/as_ref/as_parts/iter*, Parse, ToTokens"])
p("C06","Repetition helpers parse their documented sequences, in order, in linear time",
"The punctuated helper accepts any number of items with a separator between each two and optionally after the last, up to the end of the group; its unpunctuated variant accepts items up to the end of the group; the separated helper accepts one or more items with separators strictly in between and stops before the first token that is not a separator; the zero-or-more helper collects the longest run of items and stops before the first one that does not parse. Items and separators come out in source order, none lost or repeated, for sequences of any length. Provided items consume input, parsing terminates after a number of item and separator attempts linear in the number of items.",
["inputs","programs"],"every item and separator type, every sequence length including 0, 1 and thousands, trailing separators, and every kind of token after the sequence",
"The tests use sequences of a few items; length-dependent behaviour, trailing separators followed by other tokens, and the amount of work done are not observed.",
[AST],[("Punctuated / Many / Separated / Any Parse impls",AST)],["len, iter, pairs, rest of the input, number of item parse calls"])
p("C07","A separated sequence is never empty and never ends in a separator",
"Whatever sequence of construction, insertion, pushing, extending, indexing, mutation and conversion operations is applied, a separated sequence keeps at least one item and exactly one separator between each two neighbours, and no separator at the end. After every operation its items and separators, read through any accessor, iterator, pair iterator or decomposition (into first and rest, or last and rest), are those of a plain list model in order. Converting from a general punctuated list succeeds exactly when the list is non-empty and has no trailing separator.",
["histories"],"every history of public operations on the separated sequence, with distinguishable items and separators",
"The tests call single operations on fixed values; the invariant depends on histories, and nothing checks separators as opposed to items.",
[AST],[("Separated inherent methods, Extend, TryFrom, into_first_rest, into_last_rest",AST)],["len, first, last, iter, pairs, into_pairs, Index, to_tokens"],[("inner","items and separators; non-empty and without trailing separator","parsel/src/ast.rs struct Separated")])
p("C08","Infix operator chains become left- or right-leaning trees over the same sequence",
"Parsing a chain of n operands joined by n-1 operators yields, for the left-associative helper, the tree ((a op b) op c) ..., and for the right-associative helper a op (b op (c ...)), with every operand and operator at its place and a lone operand as a leaf. In-order traversal and printing give the chain back unchanged, and the chain ends before the first token that is not an operator; an operator without a following operand is an error. This holds for chains of any length, and parsing them does not recurse once per operator (printing and dropping the tree may, so they need a stack in proportion to its depth).",
["inputs"],"chains of any length over any operand and operator type, including mixed operators and nested chains, complete or truncated",
"The examples have chains of two to four operands; the shape for longer chains and mixed operators, and the failing truncations, are unbounded.",
[AST],[("LeftAssoc / RightAssoc Parse and ToTokens",AST),("into_first_rest / into_last_rest",AST)],["tree shape, to_tokens"])
p("C09","Delimited nodes match exactly their delimiter and the whole of the group",
"A parenthesized, bracketed or braced node parses exactly one group with that very delimiter, whose entire contents are consumed by the inner node, and nothing after it; any other delimiter, a missing group, or left-over tokens in the group is an error. Printing emits one group with the same delimiter around the tokens of the inner node, the span of the delimiters is that of the source group, and constructors, conversions and accessors return exactly the delimiter token and the inner value they were given.",
["inputs","programs"],"every inner node type, every delimiter (right, wrong, missing), left-over contents, nesting to any depth in any combination",
"The tests use one or two groups of the right kind; wrong kinds at depth and left-over tokens inside inner groups are not varied.",
[AST],[("Paren / Bracket / Brace Parse, ToTokens, constructors",AST)],["Parse result, as_parts, into_parts, span of the delimiters"])
p("C10","Every literal value survives printing and re-parsing exactly",
"For every value of every literal type (every bool, byte, character, string, byte string, 64-bit signed and unsigned integer and non-NaN double including infinities and signed zero), the printed form parses back as the same literal type to an equal value, bit for bit, both as text and as tokens. The general literal type preserves the kind and the value likewise, except that a non-negative signed integer comes back as the unsigned integer of the same value. Printing never fails or panics, and yields one literal (or bool word), preceded by a minus sign only for negative numbers.",
["inputs"],"all values of all literal types; bytes, bools and characters exhaustively",
"The quickcheck test covers arbitrary float/int values through a formatter only; escapes, boundary values, infinities and the whole character and byte range are not enumerated by tests.",
[AST],[("token() of each Lit type",AST),("TryFrom<syn::Lit*>",AST)],["Display, ToTokens, FromStr, value()"])
p("C11","Every literal spelling is decoded to its value, out-of-range ones are rejected",
"Each literal type accepts exactly the spellings of its own kind and yields the value the spelling denotes: integers in any radix with underscores and suffixes and an optional minus sign, floats with exponents, characters, strings, bytes and byte strings with escapes, raw forms and line continuations. An integer outside the range of the 64-bit type asked for is rejected, exactly at the boundary, and so is any literal of another kind. The general literal type classifies every literal it accepts by its spelling - a minus sign makes an integer signed, its absence unsigned - and rejects literals that it cannot represent.",
["inputs"],"every spelling of every literal kind, every value up to and beyond the range boundaries, parsed as every literal type",
"The tests have a few spellings of each kind; combinations of radix, underscores, suffixes, escapes, sign and range limits are combinatorial.",
[AST],[("Parse for Lit*",AST),("TryFrom<syn::Lit> for Lit",AST),("TryFrom<syn::LitInt> for LitInt/LitUint",AST)],["FromStr / Parse results"])
p("C12","Conversions between literals, their raw values and syn's literals are lossless",
"Converting a literal to syn's counterpart or to its raw value (owned, boxed, borrowed-or-owned, token) and back gives an equal literal, and conversions into the general literal type choose the variant of the source type. Conversions to and from syn's literals preserve both value and source span; conversions from raw values use the call-site span, and constructors and span setters store exactly the span they are given without changing the value.",
["inputs"],"every literal value and every source location, through every conversion the API offers",
"The tests convert one value per type, mostly without looking at spans, and do not chain conversions.",
[AST],[("From/TryFrom impls between Lit*, syn::Lit*, raw types",AST),("new, span, set_span, value, into_inner",AST)],["value(), span(), PartialEq"])
p("C13","Equality, ordering and hashing look at values only, and consistently",
"Two nodes or literals are equal exactly when their contents are equal, wherever in the source they came from; ordering agrees with equality and with the ordering of the underlying values, and equal things hash equally. A literal compares, orders and hashes exactly like the raw value it can be borrowed as, so it can be looked up by that value in a map or an ordered map. Nodes that differ in any component - an item, its position, a prefix, an operator, the tree shape, the alternative chosen - are unequal.",
["inputs"],"every pair of literals, identifiers or nodes, with equal or different values and equal or different spans",
"Tests compare fixed values parsed at similar places; the contract is over all pairs of values and spans, and hash/Borrow agreement is never checked.",
[AST],[("PartialEq/Ord/Hash/Borrow impls in impl_literal!, CustomIdent, helper types",AST)],["==, cmp, partial_cmp, Hash, Borrow"])
p("C14","Identifiers and keywords partition the words exactly as declared",
"For a declared keyword set, each keyword type parses exactly its own word, and the identifier type of that set parses exactly the single words - Rust keywords, the underscore and raw identifiers included - that are not in the set; with an empty set every word parses. The words that each reports, prints, converts to and compares equal to are the word that was written, the keyword list is exactly the declared words, and a raw identifier is not the keyword of the same name. A rejected word is reported at its own location with the documented messages 'expected identifier, found keyword' and 'expected keyword `...`'.",
["inputs","programs"],"every declared keyword set (any size, with or without the underscore, containing prefixes of each other or Rust keywords) and every word or other token",
"The tests declare one set and try a few words; near misses, raw identifiers, Rust keywords and the position within the set are not covered.",
[AST],[("define_keywords!",AST),("CustomIdent::try_from / parse",AST),("Word",AST)],["FromStr, Parse, as_str, Display, token, KEYWORDS"])
p("C15","Formatting a token stream loses nothing in any mode",
"For every token stream that has a textual form, the text written by the pretty, compact or custom-indented formatter lexes back to the same sequence of tokens: the same words, literals, punctuation with the same gluing to following punctuation, and the same nesting of delimiters, with invisible groups flattened. Formatting the re-lexed stream again yields the same text.",
["inputs","configurations"],"every token stream (any nesting, any punctuation gluing, any literal) and every whitespace-only indentation",
"The quickcheck test generates random streams but compares printed strings only for two modes and a limited set of tokens; joint punctuation, invisible groups, unusual literals and custom indentation are not covered.",
[UT],[("TokenStreamFormatter::write",UT)],["text written to the sink"])
p("C16","The layout of formatted output follows the documented rules in every mode",
"In an indenting mode the content of each non-empty group starts on a new line one indentation level deeper than the line of its group, its closing delimiter stands on a line of its own at the outer level, and a line break follows a comma or semicolon and a closing delimiter when anything follows them in the same group; empty groups stay on one line, other tokens are separated by exactly one space, and punctuation glued to its successor by none. The compact mode and the alternate flag write the same with no line breaks or indentation, nothing between a delimiter and the group content, and one space wherever a line break separates two tokens; the default display is the four-space mode. A custom indentation is accepted exactly when it is all whitespace, output errors of the sink are returned and never swallowed, and what was written up to then is a prefix of the full output.",
["inputs","configurations","fault_sequences"],"every token stream without invisible groups, every mode and indentation, every position at which the sink fails",
"The documentation examples pin two outputs; the rules apply at any nesting depth, and failing sinks are not tested.",
[UT],[("TokenStreamFormatter::{write,write_newline,write_indent,with_indent}",UT),("format_* helpers",UT)],["text written to the sink, fmt::Result"])
p("C17","Spans map to exactly the right substring, offsets and line:column text",
"For every node parsed from a source text, the byte range, the character range and the source substring computed from that text are exactly those of the node's tokens from the first to the last character, and the byte and character ranges denote the same text. The displayed span is start-line:start-column..end-line:end-column, counted from one with the end inclusive. This holds for any text: multi-byte characters, CRLF and blank lines, tabs, multi-line literals, comments, and nodes at the very start or end.",
["inputs"],"every source text and every node in it",
"The doc tests use one short source each; the mapping depends on line lengths, multi-byte characters and line endings before and inside the node.",
[UT],[("byte_offset / char_offset",UT),("SpannedExt",UT),("SpanDisplay",UT)],["byte_range, char_range, source_substring, format_span"])
p("C18","AST nodes keep the source locations of the tokens they were parsed from",
"Every leaf of a parsed AST - identifier, keyword, literal, punctuation, delimiter - carries the span of the very source token it came from, a negative number that of its sign and digits together, and printing the AST emits tokens with those spans. The span of a node runs from its first to its last token. Changing a span through a setter changes nothing else, and converting a leaf to a token, a token tree, an identifier or a syn literal, or back, keeps its span.",
["inputs","programs"],"every node type and every source text it parses from",
"The tests look at the span of a few single-line literals; a swapped or lost span inside a container does not affect equality and goes unnoticed.",
[AST,UT,DT],[("span() of each node; Parse/ToTokens impls",AST),("SpannedExt::span",UT)],["span() of leaves, spans of emitted tokens"])
p("C19","Parsing is total: any text or tokens give a value or an error, never a panic",
"For any text and any token stream of bounded nesting, parsing it as any helper or derived type returns either a value or an error with a non-empty message and a usable span, and never panics, loops or overflows, provided repetition items consume input. Every value so obtained can be printed, displayed, debug-formatted, compared, hashed and cloned without panicking. Parsing is deterministic: the same input gives the same result every time.",
["inputs","programs"],"every finite text or token stream of bounded nesting, valid or garbage, and every node type",
"The tests use well-formed or slightly wrong inputs; garbage, extreme literals and odd token streams are unbounded.",
[AST,UT,DP],[("Parse impls",AST),("token() of Lit types",AST),("try_parse_variant",UT)],["Result of parse_str / parse2, catch_unwind"])
p("C20","Sequence wrappers behave like the collections that they wrap",
"Under any history of operations, the zero-or-more and the punctuated sequence behave exactly like a growable list of items (and separators): same contents, order, length, emptiness, indexing, slicing, iteration in both directions, mutation, extension, collection, conversion and borrowing. Separators supplied by default appear exactly between items. Printing the sequence emits its items, and its separators if any, in that order, each once.",
["histories"],"every history of public operations on the sequence wrappers with arbitrary items, compared step by step with a plain list",
"The standard-trait tests mostly check that the impls exist; results of operations, and histories of them, are sampled on one or two values.",
[AST],[("Any: Deref/AsRef/Borrow/Index/FromIterator/Extend/IntoIterator",AST),("Punctuated: the same",AST)],["contents after each operation"])
p("C21","The two-way choice type obeys the laws of a tagged union in all its combinators",
"For every value, exactly one of the left and right tests, projections and variants applies, and flipping, mapping, borrowing, mutating, transposing, unwrapping and dereferencing act on the value held and keep its side (flipping swaps it). As an iterator it yields exactly what the iterator held yields, tagged with the side, in the same order from both ends, with the same length, size hint, count, n-th and last element, and leaves an iterator that was lent to it as that method of the iterator itself would; extending it extends the collection held. Parsing tries left first and takes right only if left fails, and printing and displaying are those of the value held.",
["inputs","histories"],"every held value on either side and every interleaving of iterator operations",
"The tests touch a few combinators on fixed values; interleavings of front, back, n-th and size operations are unbounded.",
[AST],[("Either",AST)],["return values of each combinator and iterator method"])
p("C22","Deriving works for every supported shape of type definition, whatever its names",
"Deriving the parser, printer, string parser and display compiles and works for every struct and enum: any number and kind of fields and variants including none; generic types with bounds, defaults, const parameters, where clauses and associated types; directly and mutually recursive types with the recursive-field attribute in its documented forms; raw or otherwise unusual field, variant, type and parameter names; other attributes; visibility; types generated by macros. The derived impl of a generic type (over types, constants or a lifetime) exists exactly for the arguments for which all non-recursive field types have the impl and the type's own where clause holds. Unions are rejected with a message.",
["programs"],"every type definition accepted by the compiler whose field types are parseable/printable",
"The tests contain a couple of dozen definitions with ordinary names; the space of shapes, generics and names is combinatorial and a broken shape is a compile error in user code only.",
[DP,DT,DU,DF,DD],[("expand",DP),("expand",DT),("add_bounds / field_type / Attrs",DU),("where clause of FromStr/Display",DF)],["rustc accepts the generated impl; behaviour of the impl"])
p("C23","All entry points to parsing and printing agree with each other",
"For any input, parsing it from text with the string-parsing trait, the free text function and the token-stream function, and through the fallible quoting macros, gives the same value or the same failure; the quoting macros return the error instead of panicking, keep the spans of interpolated tokens, and the spanned one gives the requested span to all others. For any node, its display, the token-formatting and node-formatting helpers and the formatter methods produce the same text in the same mode, and alternate display equals the compact form, except that a literal by itself is displayed with its minus sign attached.",
["inputs","programs"],"every node type, every input accepted or rejected, every mode",
"Each entry point is tested in isolation on a few inputs; nothing compares them with each other on the same input.",
[UT,AST,DF,DD,LIB],[("FromStr/Display impls of each type",AST),("try_parse_quote!, try_parse_quote_spanned!",UT),("format_* helpers",UT)],["results and errors of each entry point"])
p("C24","Invisible groups, as macros leave them, are transparent to parsing",
"A token stream in which runs of whole tokens are enclosed in non-empty invisible (None-delimited) groups, nested in each other and in visible groups in any way, as substitution by macros leaves them, is parsed by every helper type and derived type, and by the quoting macros, exactly as if the tokens were not enclosed: it is accepted if and only if the plain stream is, with the same alternatives, equal values and the same source locations of leaves, and printing the value gives the same tokens. (Which of its failures is reported for a rejected stream may differ, because an invisible group has a location of its own.)",
["programs","inputs"],"every node type, every accepted or rejected token stream, and every placement and nesting of invisible groups in it",
"Text never contains invisible groups, so tests which parse text cannot meet them; they appear only inside procedural macros, around whatever fragments the caller substituted.",
[AST,UT,DP],[("Parse impls (peek, fork, parse of tokens, groups and literals)",AST),("try_parse_variant, quoting macros",UT),("expand_fields / expand_variants",DP)],["parse2 of the enclosed and of the plain stream"])
p("C25","Parsing and printing work inside procedural macros as they do outside",
"Inside a procedural macro, where tokens and locations are the compiler's, every helper and derived type parses a token stream with the same outcome as the same tokens outside of macros: accepted or rejected alike, with the same values and alternatives, and a value prints, formats, displays and re-parses as it does outside (up to the compiler's own spelling of escapes in literals). Leaves and errors are located at the compiler's locations of the same tokens (of the first of them, where the compiler does not join locations), byte and character ranges, substrings and displayed spans of nodes follow from these, and the error chosen among failed alternatives is the same. Nothing panics there. (Failures at the end of the whole input are excluded: their location is that of the macro call.)",
["programs","inputs"],"every node type and every token stream, passed to or lexed within a procedural macro",
"Unit tests and documentation tests run outside of the compiler, with the stand-in implementation of tokens and spans; what holds there may fail with the compiler's.",
[AST,UT,DP,DT],[("Parse and ToTokens impls",AST),("SpannedExt, try_parse_variant, chain_error, TokenStreamFormatter",UT),("derived impls",DP)],["results of parsing and printing within the expansion of a procedural macro"])
p("C26","Code that a macro emits through AST nodes means what its tokens mean",
"A procedural macro that parses its input as AST nodes and emits them back - printed as they are, cloned, or rebuilt from their values with the documented constructors, conversions and defaults - produces code that means to the compiler what the input itself means: it compiles if the input does, expressions group alike and evaluate to the same values, names refer to the same variables, fields and functions at the place of use (whatever locals are in scope there, raw and non-ASCII names included), and literals of every kind denote the same value bit for bit. (Literal suffixes are not part of the values.)",
["programs","inputs"],"every source expression over the helper types and literals, in every scope of local names",
"The unit tests never hand the emitted tokens to a compiler: name resolution, literal values and grouping of the emitted code are visible only in a program that is compiled.",
[AST,UT,DT,DP],[("ToTokens impls; token() of literals and names; Default, From, FromStr, new of leaves",AST),("derived ToTokens",DT),("ident, literal and punctuation quoting",UT)],["the compiler's evaluation of the emitted code"])
p("C27","Helper types can do whatever their parts can do, and ask for no more than that",
"For all argument types, however composed, whatever they implement, and borrowing or not: a helper type implements a trait whenever all its arguments have what that takes. Debug, comparison for equality, hashing and cloning follow from those of the arguments (for the two-way choice ordering and iteration as well, for markers, literals and keywords all of it), copying for the optional part, delimiters and the choice, thread-safety and free movement for all that hold no locations; parsing and parsing from strings need only that the arguments parse, printing, displaying, locating and formatting only that they print; the optional part and lists that may be empty always have a default, a delimited node if its content has. Constructors, accessors, iterators, decompositions, conversions, indexing and mutation work for arguments that implement nothing at all - except that what has to make up a separator or prefix needs its default, and what has to take a location from an item needs it to be printable - give borrows that live as long as that of the node, and are usable in constants where they are declared so. Nodes that hold borrows may be used for a shorter lifetime. The fallible quoting macros work in every scope and edition, and give their error as any type that is made from it.",
["programs"],"every composition of helper types over argument types with any set of trait impls",
"Unit tests instantiate the helpers with literals and tokens, which implement nearly every trait; a bound too many, a lost impl or a lifetime tied to the wrong borrow shows only with arguments that lack it.",
[AST,UT],[("impl headers and signatures of the helper types",AST),("SpannedExt and TokenStreamFormatter",UT)],["which programs using the helper types compile"])
p("C28","Debug output shows what a node holds, through all wrappers and in every style",
"Debug-formatting a helper type, however composed, in any style (plain, alternate, with width, fill, sign, precision or hexadecimal flags), shows exactly what it holds: the zero-or-more helper as the list of its items, the separated and punctuated ones as the list of items and separators in order, the optional part as the option of the pair of prefix and body, the two-way choice and the general literal as the value held, an identifier as the plain identifier, a keyword as its word, an infix tree as its operand or a structure 'Binary<operator>' with fields lhs and rhs; the delimited nodes show their content. All flags reach the values held. A clone shows the same, and an error of the output is returned, what was written up to then being a prefix of the text.",
["inputs"],"every value of every composition of helper types and every combination of formatter flags",
"No unit test looks at debug output but in failure messages; the compositions, values and flags are unbounded.",
[AST],[("Debug impls of the helper types",AST)],["text written by Debug"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))

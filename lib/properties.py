# The texts of the properties; run by catalog.py.

prop("C01", "Parsing follows PEG semantics",
     "For every grammar without left recursion and every text, parsing accepts exactly the texts that the grammar describes under PEG semantics: alternatives are tried in order and the first match wins, a sequence needs all its elements in order, repetitions and optional elements are greedy, character classes and regular expressions match at the current position only (a regular expression, which sees the text from there on, takes what its first matching alternative matches), and predicates consume nothing. In every other case it reports a failure rather than a result; it never panics.",
     ["programs", "inputs"], "all grammars built from the documented elements, with all nestings of them, and all texts (including multi-byte characters and invalid UTF-8)",
     "The tests parse a few dozen fixed texts with a handful of grammars; which combination of elements goes wrong at which position cannot be sampled that way.",
     "parser_choice.go parser_sequence.go parser_pattern.go parser_existential.go parser_not.go parser_lookahead.go parser_regex.go parser_str.go parser_ref.go parser_rank.go grammar.go packrat.go",
     ["matching of each element @ parser_*.go parse methods", "position restored after a failure @ packrat.go loopStackPush/matching", "whole text must be consumed @ grammar.go parseOrFail"],
     TLA + ": recorded parses of generated grammars validated against the reference semantics (Peg.tla)",
     observe=["result of ParseString"])

prop("C02", "The shape of a parse result is determined by labels and captures",
     "What a successful parse returns is determined by the grammar as documented: literal strings and rules whose name starts with _ are not captured unless labelled, a sequence yields a map of its labels when it has any, the single captured element when there is just one, otherwise the array of captured elements in order; repetitions yield an array of their matches without the separators, an absent optional element is undefined, and the labels @ and & merge the labels of the element into the enclosing map. Labels appear in the map in the order in which the elements were matched and always carry the value their element matched.",
     ["programs", "inputs"], "all grammars with every placement of labels, captures, parentheses, optional parts and parse functions, and all texts",
     "The tests compare some results as printed text; whether a label or capture is lost, leaked or misplaced depends on how elements are nested.",
     "parser_sequence.go parser_existential.go parser_pattern.go parser_choice.go parser_ref.go parser.go native_map.go rule.go line.go joeson_handcompiled.go",
     ["sequence kinds and label collection @ parser_sequence.go", "labels attached when compiling @ parser.go prepareResult", "labels of optional elements @ parser_existential.go"],
     TLA + ": recorded parse results validated against the reference semantics (Peg.tla, Values.tla)",
     observe=["result of ParseString"])

prop("C03", "Memoization never changes what a parse returns",
     "The result of a parse (accepted or not, returned value, values received by parse functions) is the one obtained by evaluating the grammar without any memoization; a rule used again at a position yields the value it yielded the first time, unaffected by labels given to it elsewhere or by alternatives that failed in between. Marking rules as not cached does not change any result.",
     ["programs", "inputs"], "all non-left-recursive grammars in which rules are tried repeatedly at a position, with any subset of the rules exempted from caching",
     "A stale or aliased memo entry only shows for grammars and texts that hit the same entry twice with something in between.",
     "packrat.go parser.go grammar.go parsectx.go parseoption.go",
     ["memo table @ packrat.go packratReset/getFrame/cacheSet", "SkipCache @ parser.go prepareResult wrapping", "reset for each parse @ grammar.go parseOrFail"],
     TLA + ": memoizing machine (Packrat.tla) model-checked against memo-free semantics (Peg.tla) over enumerated grammars; recorded parses validated against both",
     observe=["result of ParseString", "arguments of parse functions"])

prop("C04", "A rule is evaluated at most once per position",
     "During one parse with a grammar that is not left-recursive, a rule that is subject to caching is evaluated at most once at any position of the text: a second attempt there, after success or failure, takes the remembered outcome, so its parse function is not called again. Rules exempted from caching are evaluated each time they are tried.",
     ["programs", "inputs"], "all grammars and texts; every order in which alternatives bring the same rule to the same position",
     "No test counts evaluations; a parser that silently re-evaluates still returns the right result, only with exponential cost and repeated side effects.",
     "packrat.go parser.go parser_ref.go parser_rank.go",
     ["memo lookup before evaluation @ packrat.go loop/cacheSet", "which elements are rules @ grammar.go preprocessing, rule.go"],
     TLA + ": invariant AtMostOnce model-checked on Packrat.tla; recorded call logs validated call by call against the machine",
     observe=["calls of parse functions"])

prop("C05", "Direct left recursion is resolved",
     "A grammar whose rules refer to themselves as their first element terminates on every text and accepts as if the recursion was grown from the non-recursive alternatives: left-associative results, longest growth, usable at several levels of precedence, several times in a text, with labels and parse functions. The values are those of the grown recursion, each level holding the previous one as its left part.",
     ["programs", "inputs"], "all grammars with directly left-recursive rules (also through optional or repeated elements, choices and ranks) and all texts",
     "Growth and memo invalidation interact with the alternatives around the recursion; the tests cover two or three expression grammars.",
     "packrat.go parser_rank.go parser_choice.go",
     ["growing a seed @ packrat.go loop", "wiping memo entries that depend on it @ packrat.go wipemask and cache handling"],
     TLA + ": Packrat.tla model-checked against bounded left recursion (Peg.tla) over enumerated grammars; recorded parses of generated left-recursive grammars validated against Peg.tla",
     observe=["result of ParseString", "calls of parse functions"])

prop("C06", "Indirect left recursion is resolved",
     "A grammar whose rules are left-recursive through each other (as in member access and calls) terminates on every text without a panic. When all the cycles pass through the rule by which the text enters them, it accepts as if the recursion was grown from the non-recursive alternatives, with the corresponding left-nested result, also when such a rule is used again inside.",
     ["programs", "inputs"], "all grammars with mutually left-recursive rules, and all texts",
     "One test has mutual recursion; which rule heads the cycle and what must be forgotten on each growth depends on order and nesting.",
     "packrat.go parsectx.go",
     ["detection of the loop and of its members @ packrat.go loop and wipemask"],
     TLA + ": Packrat.tla model-checked (any left recursion) for termination and errors; recorded parses validated against Peg.tla (hub entry) and Packrat.tla (arbitrary recursion)",
     observe=["result of ParseString"])

prop("C07", "A text not fully matched is an error located at the furthest progress",
     "A parse succeeds only if the grammar matches the whole text. Otherwise the result is a parse error which gives the furthest position of the text at which a (cached) rule began a match or, if further, the position where the match stopped, together with the line and column of that position (both from 0); the empty text not matched gives no result and no error.",
     ["programs", "inputs"], "all grammars and all texts, including texts of several lines and multi-byte characters",
     "The tests look at two or three error messages; the position depends on everything that was tried during the parse.",
     "grammar.go packrat.go parsectx.go parseerror.go codestream_rune.go",
     ["scan for the furthest remembered match @ grammar.go parseOrFail", "line and column @ codestream_rune.go PosToLine/PosToCol"],
     TLA + ": recorded error positions validated against the parsing machine (Packrat.tla)",
     observe=["ParseError returned by ParseString"])

prop("C08", "Repetitions respect their bounds and always end",
     "X*, X+ and X*{min,max}, with or without a separator, match as many X as they can but never more than max, fail with fewer than min, and never leave a trailing separator consumed; every combination of min, max, separator and X, including X or separators that match nothing, terminates. What was matched is returned in order, one value per X.",
     ["programs", "inputs"], "all bounds, elements and separators (capturing or not, possibly empty), nested repetitions, and all texts",
     "The tests try a dozen of bounds with one-character elements; empty matches and bounds at 0 and 1 are corner cases of a loop.",
     "parser_pattern.go joeson_handcompiled.go",
     ["loop over matches @ parser_pattern.go parse"],
     TLA + ": recorded parses of generated repetitions validated against the reference semantics (Peg.tla)",
     observe=["result of ParseString"])

prop("C09", "Abandoned attempts and predicates leave no trace",
     "When an alternative, an optional element, a further repetition or a predicate fails or is only looked at, the parse goes on as if it had never been tried: position, captured values and labels are those from before, whatever the attempt had matched, labelled or passed to parse functions. A predicate (?X, !X) never consumes anything.",
     ["programs", "inputs"], "all grammars with backtracking and predicates, and all texts",
     "Leaks show up only when a partially successful attempt is followed by a different successful one at the same place.",
     "parser_choice.go parser_sequence.go parser_lookahead.go parser_not.go parser_existential.go parser_pattern.go packrat.go",
     ["position restored @ packrat.go matching/loop and parser_*.go", "result built afresh for each attempt @ parser_sequence.go"],
     TLA + ": recorded parses and calls validated against the parsing machine (Packrat.tla), itself model-checked against trace-free semantics (Peg.tla)",
     observe=["result of ParseString", "calls of parse functions"])

prop("C10", "Parse functions are called as documented",
     "The parse function of a rule is called exactly when the body of its rule has matched, in the order in which rules complete, with the value that was matched and the position at which the match ends; what it returns becomes the value of the rule everywhere it is used. Returning nil makes the rule fail like a mismatch (other alternatives are tried), returning undefined or an error value does not, and a panic in it reaches the caller of the parse.",
     ["programs", "inputs"], "all grammars with parse functions of any behaviour on any of their rules, and all texts",
     "Tests use parse functions that build nodes; failing, undefined-returning or panicking ones in the middle of backtracking are not exercised.",
     "parser.go packrat.go rule.go line.go parsectx.go parser_rank.go",
     ["parse function applied to the result @ parser.go prepareResult", "nil taken as failure @ packrat.go"],
     TLA + ": recorded call logs and results validated call by call against the parsing machine (Packrat.tla)",
     observe=["calls of parse functions", "result of ParseString", "panics"])

prop("C11", "Every parse stands alone",
     "What a parse comes to, and the calls of parse functions it makes, depend on the grammar, the text and the options of that parse only. A Grammar can be used for any number of parses, whatever came of the ones before (a value, nothing, an error, a panic of a parse function); parse functions can parse other texts, with the same grammar or with others, while a parse is under way; grammars can be built at any time, repeatedly and from the same lines, without influence on each other.",
     ["histories", "programs", "inputs"], "all sessions: several grammars, built at any time and repeatedly, any number of parses of any outcome, nested to any depth in each other's parse functions",
     "The tests build a grammar, parse and look at the result; state left behind by a parse, or shared by two that overlap, shows up only in longer histories.",
     "grammar.go packrat.go parsectx.go line.go line_s.go traceoptions.go",
     ["a context per parse @ grammar.go ParseString/ParseTokens", "memo table and rule stack @ parsectx.go", "rules compiled from lines @ line.go, line_s.go"],
     TLA + ": recorded sessions validated event by event against the session specification (Session.tla), in which every parse runs on a machine of its own",
     note="Trusts the specification, TLC and the harness. Parses nest up to three levels; goroutines are in C28.",
     observe=["result of ParseString and ParseTokens", "calls of parse functions", "panics", "trace"])

prop("C28", "Parses may run at the same time",
     "Any number of goroutines may parse at the same time with the same grammar (strings and token streams of their own, with any options), build grammars of their own, also from the same lines, and tokenize Go code: each gets what it would get alone (result, error and its place, calls of parse functions), and none of the accesses to what they share is a data race.",
     ["schedules", "programs", "inputs"], "all grammars and texts, all numbers of goroutines and all interleavings of their steps",
     "What a grammar works out only when it is first used is written while others may read it; the tests parse one text after the other.",
     "grammar.go packrat.go parsectx.go parser_sequence.go line.go rule.go helpers/lazy.go codestream_token.go",
     ["values worked out on first use @ helpers/lazy.go Get, parser_sequence.go lazyType, rule.go labels_", "a context per parse @ parsectx.go newParseContext", "rules made from lines @ line.go getRule"],
     TLA + ": every interleaving of the accesses to the shared lazy values checked on a model with the clocks of the Go memory model (Parallel.tla); parses recorded in goroutines of a binary built with the race detector, each validated against the parsing machine (Packrat.tla), a reported race being a step that the model does not have",
     note="Trusts the specification, TLC, the harness and Go's race detector. The model has up to 3 (thorough: 4) goroutines, recorded runs have up to 16. Walk and the printing of rules belong to building and are not covered.",
     observe=["result of ParseString and ParseTokens", "calls of parse functions", "reports of the race detector"])

prop("C12", "Options that trace do not change what is parsed",
     "With any trace options of the grammar (Stack, Loop, Grammar, FilterLine, SkipSetup), any options of the parse (Debug, SkipLog) and any rules marked Debug, a parse accepts, returns, reports errors and calls parse functions exactly as without them.",
     ["programs", "inputs"], "all grammars, all texts (of several lines, in several scripts, invalid UTF-8, token streams) and all combinations of options",
     "The tests that use tracing look at what is parsed on a few lines; tracing reads the text around each position and copies options, which can go wrong at any of them.",
     "packrat.go parsectx.go grammar.go parseoption.go traceoptions.go helpers/helpers.go codestream_rune.go codestream_token.go",
     ["tracing @ packrat.go loopify, parsectx.go log/String", "Debug for one parse @ grammar.go parse"],
     TLA + ": recorded parses with options of all kinds validated against the parsing machine (TraceCheck.tla), which knows of none",
     observe=["result of ParseString and ParseTokens", "calls of parse functions"])

STREAMNOTE = "Trusts the specification, TLC and the harness's rendering of operations into API calls; texts and histories are those generated within the bounds in DESIGN.md."

prop("C13", "A text stream is a cursor over exactly its text",
     "A RuneStream made of any string of bytes is a cursor over it: reading and peeking runes, matching strings, runes and regular expressions at the position, reading until a needle, looking at lines around the position and setting the position never skip, repeat or alter a byte, never leave 0..length, and a failed match does not move. The line and column of a position are the number of line feeds before it and the number of bytes since the last one.",
     ["histories", "inputs"], "all texts (multi-byte, invalid UTF-8, empty, with or without final newline) and all sequences of stream operations",
     "Tests make a few calls on one short ASCII text; off-by-ones at ends, line boundaries and multi-byte runes need all combinations.",
     "codestream_rune.go codestream.go helpers/helpers.go helpers/bisect.go",
     ["cursor operations @ codestream_rune.go", "line starts and bisection @ codestream_rune.go PosToLine/PosToCol, helpers/bisect.go"],
     TLA + ": enumerated behaviours of the cursor specification (StreamMC) replayed on the real stream; recorded random histories validated by StreamCheck",
     note=STREAMNOTE, observe=["methods of RuneStream"])

prop("C14", "A token stream has the working text's contents and the original's places",
     "A TokenStream over any tokens behaves like a cursor over the concatenation of its tokens, while the line and column of any position of it, from 0 to the end, are those of the place in the original text that the token containing the position came from. This holds for every list of tokens in order, whatever was left out or inserted between them.",
     ["histories", "inputs"], "all original texts, all ways to cut them into tokens with gaps and additions, all positions, and all sequences of stream operations",
     "The tests tokenize one snippet and look at a few positions; boundaries between tokens and the last one are where mistakes are.",
     "codestream_token.go helpers/bisect.go codestream_rune.go",
     ["working to original offset @ codestream_token.go", "cursor of the working text @ codestream_token.go"],
     TLA + ": enumerated behaviours of the cursor specification (StreamMC) replayed on the real stream; recorded random histories validated by StreamCheck",
     note=STREAMNOTE, observe=["methods of TokenStream"])

prop("C15", "Parsing tokens is parsing their text, with errors in the original",
     "Parsing a token stream with a grammar accepts, returns and calls parse functions exactly as parsing the working text (the tokens joined) as a string does; an error is at the same position of the working text, and the line and column it reports are those of the original text.",
     ["programs", "inputs"], "all grammars, all texts cut into tokens in any way with anything left out or inserted in between",
     "One or two tests parse tokens at all; none looks at errors in texts of several lines.",
     "grammar.go codestream_token.go parsectx.go packrat.go parseerror.go",
     ["parsing on a CodeStream @ grammar.go ParseTokens/parseOrFail", "coordinates of an error @ parsectx.go Error, codestream_token.go"],
     TLA + ": recorded parses of token streams validated against the parsing machine (Packrat.tla) on the working text, with coordinates from Stream.tla",
     observe=["result of ParseTokens", "calls of parse functions"])

prop("C16", "Tokenizing Go code keeps its tokens and their places",
     "TokenStreamFromGoCode yields for every lexically valid Go source a working text that has exactly the tokens of the source, in order, including the semicolons inserted at ends of lines, without comments and without merging or splitting tokens, and in which every token knows its line and column in the source. Tokens stand next to each other, with one space between them where they would otherwise be read differently, and between an ASCII letter, digit, underscore or = and a word, literal, comma or explicit semicolon; an inserted semicolon is followed by a line end. For every invalid source it returns an error and no stream, and what it returned for one source has no influence on the next.",
     ["programs", "inputs"], "all byte sequences as source: all sequences of tokens of Go with any white space, line ends and comments between them, and invalid ones",
     "The tests use a few snippets; whether two tokens merge, or an error is lost, depends on which tokens are adjacent and on what was scanned before.",
     "codestream_token.go",
     ["scanning and joining @ codestream_token.go TokenStreamFromGoCode", "error collection @ codestream_token.go"],
     TLA + ": recorded tokenizations of generated sources validated by a specification of Go's lexical grammar (GoLex.tla, GoLexCheck.tla)",
     note=STREAMNOTE + " The subset of Go's lexical grammar in GoLex.tla has no octal, binary or hexadecimal floating-point literals.",
     observe=["TokenStreamFromGoCode", "methods of TokenStream"])

prop("C17", "Native maps and arrays keep order and contents",
     "A NativeMap is an insertion-ordered map: Set, Get, Exists, Keys, Concat and String agree with each other after any sequence of operations, setting a key again keeps its place, absent keys are reported as such. A NativeArray is a sequence shared by reference. Conversions to text and numbers yield the text that was matched and the number it spells, or panic when there is none; undefined is not any other value.",
     ["histories"], "all sequences of operations on maps and arrays, nested and shared, with all kinds of keys and values",
     "The tests do a handful of operations on one map; order and aliasing need histories.",
     "native_map.go native_array.go native_string.go native_int.go native_undefined.go",
     ["insertion order @ native_map.go Set/Keys", "conversions @ native_string.go StringFrom, native_int.go NewNativeIntFrom"],
     TLA + ": enumerated behaviours of the object store specification (NativeMC) replayed on the real values; recorded random histories validated by NativeCheck",
     note=STREAMNOTE, observe=["methods of NativeMap, NativeArray, NativeString, NativeInt, NativeUndefined"])

prop("C25", "The trace tells what happened",
     "With Debug for a parse, Stack for a grammar or Debug for a rule, a parse prints one line for each evaluation of a rule concerned and one for what came of it (value remembered, remembered value used, step of a left recursion, end of it), in order, each with the line and column of the position and the depth of the rule stack. FilterLine restricts this to positions on that line, SkipLog suppresses it, and without any of them neither building a grammar nor parsing prints anything.",
     ["programs", "inputs"], "all grammars and texts, left recursion included, and all combinations of options",
     "No test looks at what is printed.",
     "packrat.go parsectx.go grammar.go parseoption.go traceoptions.go",
     ["lines printed @ packrat.go loopify", "line filter, place and depth @ parsectx.go log/String"],
     TLA + ": recorded traces validated line by line against the steps of the parsing machine (Trace.tla, TraceCheck.tla)",
     note="Trusts the specification, TLC and the harness. Of each line the kind, place, depth, rule and counter are compared, not the excerpt of the text or the rendering of values.",
     observe=["standard output while building grammars and parsing"])


prop("C18", "joeson's grammar written in itself reads what the hand-compiled one reads",
     "The grammar compiled from joeson's own rules (IntentionRules) accepts exactly the rule texts that the hand-compiled grammar accepts and reads the same elements from each of them; so does the grammar compiled by that one, and so on. A grammar compiled by any of these generations (GrammarOptions.LazyGrammar) parses exactly as one compiled by the hand-compiled grammar.",
     ["programs", "inputs"], "all texts as rules, all grammars compiled by every generation, and all texts parsed by them",
     "The tests compare the printed rules of two generations and compile a few grammars; whether the two definitions of the language differ shows on rule texts that nobody writes in a test.",
     "joeson_intention.go joeson_handcompiled.go grammar.go line.go parser_ref.go parser_pattern.go",
     ["rules of the rule language @ joeson_intention.go", "hand-compiled grammar @ joeson_handcompiled.go", "which grammar compiles @ grammar.go GrammarWithOptionsFromLines, line.go toRule"],
     TLA + ": enumerated rule texts (SyntaxMC) read by every generation; recorded readings of random ones judged by the definition of the rule language (Syntax.tla, SyntaxCheck.tla); parses of grammars compiled by later generations validated by Peg.tla",
     note="Trusts the specification, TLC and the harness. Three generations after the hand-compiled one; rule texts and grammars within the bounds in DESIGN.md.",
     observe=["ParseString of joeson's grammars", "result of ParseString"])

prop("C19", "The language of rules is what it is documented to be",
     "A text is accepted as a rule exactly when it is an expression of the documented rule language, and then stands for the elements that language says: precedence of choice, sequence, label, prefix and postfix, parentheses, string escapes, character classes and regular expressions, repetition with bounds and separators, references; white space, line ends and superfluous pipes between them do not change the meaning. Any other text is rejected rather than understood as something else.",
     ["inputs", "programs"], "all texts as rules, and all grammars in all formattings",
     "The tests use rules as people write them; whether an odd formatting is read as something else, or an ill-formed rule silently accepted, needs texts that nobody would write.",
     "joeson_handcompiled.go joeson_intention.go line.go parser_pattern.go parser_existential.go parser_ref.go parser_regex.go parser_lookahead.go parser_not.go helpers/helpers.go",
     ["the rule language @ joeson_handcompiled.go", "elements built from it @ parser_*.go new functions"],
     TLA + ": a recursive definition of the rule language (Syntax.tla): all short texts enumerated (SyntaxMC) and random ones read by the real code and compared (SyntaxCheck.tla); parses with randomly formatted grammars validated by Peg.tla",
     note="Trusts the specification, TLC and the harness. Elements are compared as printed, and by how they parse; parameters of references are not described.",
     observe=["ParseString of joeson's grammar", "result of ParseString"])

prop("C24", "The origin of a result is the text it was made from",
     "The origin that a parse gives to the value built by a rule's parse function spans exactly the text that the rule matched: it starts where the rule was entered, ends where it ended, names the rule and carries the text parsed, also for remembered results, left-recursive rules, ranks, after backtracking and in token streams.",
     ["programs", "inputs"], "all grammars (left recursion included) in which rules build values, and all texts",
     "One test looks at one origin; whether an origin is that of another rule, another match or an earlier attempt depends on what happened before at that position.",
     "parser.go attr.go packrat.go parsectx.go rule.go ast.go",
     ["origin assigned @ parser.go prepareResult", "start from the rule stack @ parsectx.go"],
     TLA + ": recorded parses, with origins, validated against the parsing machine (Packrat.tla)",
     note="Trusts the specification, TLC and the harness. Only values that a parse function has built: a value passed on by an outer rule takes the origin of that rule.",
     observe=["GetOrigin of the values in the result of ParseString and ParseTokens"])

prop("C20", "A grammar has the rules declared, wherever they are declared",
     "The rules of a grammar are those declared by its lines, each once, numbered from 0: o rules are the alternatives of their rank in order, i rules are found by name only, from everywhere, wherever in whichever rank they are declared and in whatever order; ranks nest as rules. Unnamed o rules are named after their rank and place. CountRules, IsReady and the lists that the options Grammar and Loop and PrintRules print say exactly that, with whether the rule is captured, its labels, its rank and how it reads. Walk visits the grammar, its rules and all that is in them in that order, Pre before and Post after what is within, and leaves out what is within where Pre says so.",
     ["programs", "inputs"], "all arrangements of o and i rules in nested ranks, with references among all of them, and all texts",
     "The tests declare rules in one or two customary ways; whether a rule is lost, doubled or taken for an alternative depends on the arrangement.",
     "line.go line_i.go line_o.go line_a.go line_named.go parser_rank.go rule.go walk.go grammar.go",
     ["lines to rules @ line.go getRule, parser_rank.go rankFromLines", "numbering @ grammar.go postinit", "alternatives @ parser_rank.go parse"],
     TLA + ": recorded rule lists of generated grammars validated by RuleTable.tla, their parses by the parsing machine (Packrat.tla)",
     note="Trusts the specification, TLC and the harness. Rules of one grammar have different names.",
     observe=["CountRules, IsReady, PrintRules, String and Walk of a Grammar", "standard output while building grammars", "result of ParseString"])

prop("C21", "Size is no obstacle",
     "Deep nesting, long texts, many tokens, many lines, and grammars with many rules, alternatives, labels or parentheses are parsed with the right result, or rejected at the right place with the right line and column, without stack overflow or any other crash; and the number of evaluations of rules grows in proportion to the text for such grammars, remembered rules and left recursion included.",
     ["programs", "inputs"], "all sizes, up to thousands of levels, lines, tokens, rules or elements, in families of grammars that stress each of them",
     "The tests parse short texts with small grammars; a bound, an overflow or a quadratic re-evaluation needs size.",
     "packrat.go parsectx.go grammar.go codestream_rune.go codestream_token.go helpers/bisect.go parser_sequence.go parser_pattern.go parser_rank.go",
     ["memo table sized by text and rules @ packrat.go packratReset/getFrame", "stack of rules @ parsectx.go, packrat.go loopStackPush", "line of a position @ codestream_rune.go PosToLine, helpers/bisect.go"],
     TLA + ": families of grammars with the outcome in closed form for every size (Deep.tla), checked by TLC against the reference semantics at small sizes; recorded parses of all sizes validated against it",
     note="Trusts the specification, TLC and the harness. Twenty families; sizes up to tens of thousands.",
     observe=["result of ParseString and ParseTokens", "calls of parse functions"])

prop("C27", "A mistake in a grammar is reported",
     "A grammar with a mistake is never silently taken for another one. Building it is refused (by a panic, or by ending the program with a message) when the text of a rule is not a rule of the language or has an invalid regular expression, wherever the rule is; when O or I are given anything but a rule (a text, a parser, or a name with a text, lines or a parser) followed by parse functions and options; and when an I rule has no name. Every other declaration builds: its rules match, the last parse function given is called, the others are not. A reference to a rule that does not exist is no failure to match: parsing panics, naming the rule, as soon as the reference is reached, and not otherwise; the grammar stays usable.",
     ["programs", "inputs"], "all declarations with up to two further arguments, all rule texts near to right ones in all places of a grammar, all grammars with references to missing rules, and all texts",
     "The tests hardly contain a wrong grammar.",
     "line.go line_i.go line_o.go line_named.go parser_ref.go parser_rank.go parser_regex.go grammar.go",
     ["arguments of O and I @ line.go lineInit, line_i.go I", "rule texts compiled @ line.go getRule", "missing rules @ parser_ref.go parse"],
     TLA + ": declarations enumerated by TLC with whether they build (Lines.tla) replayed on the real functions; recorded builds judged by the definition of the rule language (Syntax.tla); recorded parses validated against the parsing machine (Packrat.tla)",
     note="Trusts the specification, TLC and the harness. An O rule given to O, and rules of the same name, are not specified.",
     observe=["O, I, Named, GrammarWithOptionsFromLines", "panics of ParseString"])

prop("C23", "TRACE and the functions giving options mean what is documented",
     "For every value of the environment variable TRACE (or trace, when TRACE is empty) DefaultTraceOptions and TraceOptionsFromEnvironmentOrUse give the options listed in it, from left to right starting from none, with none and all resetting them, and panic on anything unrecognized; when neither is set they give the default, or the options passed. GrammarFromLines uses these defaults, a grammar built with options that leave TraceOptions nil is mute. Mute and Verbose do not look at the environment. A copy of options equals them and is independent.",
     ["inputs"], "all values of TRACE and trace made of up to three items, recognized or not, and all functions",
     "The tests never look at the options.",
     "traceoptions.go grammar.go docs/verbosity.md",
     ["reading TRACE @ traceoptions.go checkEnvironmentForTraceOptions", "defaults @ traceoptions.go DefaultTraceOptions, TraceOptionsFromEnvironmentOrUse"],
     TLA + ": every short value enumerated by TLC with the options it stands for (Options.tla), replayed on the real functions",
     note="Trusts the specification, TLC and the harness. Values of up to two items (quick) or three (thorough).",
     observe=["Mute, Verbose, DefaultTraceOptions, TraceOptionsFromEnvironmentOrUse, TraceOptions.Copy"])

prop("C22", "The lisp REPL reads and evaluates as its machine defines",
     "For every session, each line typed into the REPL of examples/lisp-repl is answered, in order and before the next one, with the value of the line, or with a parse error, or the REPL ends with a panic because the line is refused (an undefined function, arguments of the wrong number or kind, a number wanted where there is none). A line is an expression, whose outer parentheses may be missing: lists of expressions separated by white space, strings, integers, names and operators, with nothing before or after. Evaluation: arguments are passed unevaluated; numbers are wanted by add, sub, mul, %, the comparisons (which may take more than two arguments, each compared to the next), and, or, not; and, or and the comparisons stop at the first argument that decides, if and cond evaluate only the branch taken, cond without a branch taken gives the empty list; car and cdr work on what their list evaluates to; define gives a function (its arguments substituted in its body when called, recursion included) and takes away an alias of that name, alias gives a second name to a function, and both remain for the rest of the session, also for builtins redefined by the user.",
     ["inputs", "histories"], "all sessions of lines, right or wrong",
     "Definitions and aliases accumulate over a session, and how texts are read depends on every rule of the grammar; the tests try some forty expressions, mostly on fresh machines.",
     "examples/lisp-repl/main.go examples/lisp-repl/machine.go examples/lisp-repl/machine_primitives.go examples/lisp-repl/machine_internal.go examples/lisp-repl/grammar.go examples/lisp-repl/expr.go",
     ["reading @ examples/lisp-repl/grammar.go grammarRules", "evaluation @ examples/lisp-repl/machine.go Eval", "builtins, define, alias @ examples/lisp-repl/machine_primitives.go"],
     TLA + ": sessions with the real REPL (a process built from the working tree) validated line by line by the specification of the lisp machine (Lisp.tla, LispCheck.tla); all lines made of a few pieces enumerated by TLC with the answers (LispMC.tla) and typed into the real one",
     note="Trusts the specification, TLC and the harness. Not specified: % by 0, car and cdr of a literal (), and/or of (), numbers beyond 30000, expressions that nest more than 60 calls deep.",
     observe=["standard input and output of the REPL"])

prop("C26", "The helpers mean what they say",
     "For every text and numbers: SliceString cuts as String.slice of JavaScript does; LastNRunes and LastNRunesReversed take the last runes, a byte that is not UTF-8 counting as one; PadLeft appends and PadRight prepends blanks up to a length; Escape and EscapeButKeepNonAscii escape exactly the backslash and the characters with an escape \\a \\b \\f \\n \\r \\t \\v; the colours wrap a text in their escape sequence and StripAnsi takes such sequences away again. BisectLeft and BisectRight give the place before and after equal elements of an ascending list, InsortLeft and InsortRight keep it ascending; SortIntKeys and SortStringKeys list the keys of a map in order. A lazy value calls its function once, when it is first wanted, unless it was set; cleared, it has neither value nor function.",
     ["inputs", "histories"], "all texts, lists and numbers, all lives of a lazy value",
     "Streams and traces are made from these on texts of all kinds; the tests take one word and a few numbers.",
     "helpers/helpers.go helpers/bisect.go helpers/lazy.go helpers/mapsorter.go helpers/stripansi.go colors.go",
     ["texts @ helpers/helpers.go SliceString, LastNRunes", "lists @ helpers/bisect.go", "lazy values @ helpers/lazy.go Get"],
     TLA + ": all short texts, lists and lives enumerated by TLC with the results (Helpers.tla), replayed on the real functions",
     note="Trusts the specification, TLC and the harness. Texts of up to two (thorough: three) of eight runes, lists of up to four (six) numbers, lives of six (seven) operations.",
     observe=["return values of the functions"])

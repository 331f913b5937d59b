PROPS = []


def P(id, title, statement, over, text, why, files, mech, note="", observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, note=note, observe=list(observe), na=na))


PARSERS = ["parser_sequence.go", "parser_choice.go", "parser_rank.go", "parser_pattern.go", "parser_existential.go",
           "parser_not.go", "parser_lookahead.go", "parser_str.go", "parser_regex.go", "parser_ref.go"]
PS = ["Grammar.ParseString"]

P("C01", "A grammar accepts exactly the texts its PEG rules describe",
  "For a grammar without left recursion, ParseString returns a non-error result exactly when the entry rule, read as a parsing expression with ordered choice, greedy repetition, optionals, predicates, joins and {m,n} bounds, matches the entire text; otherwise it returns nil or a ParseError. A failed alternative or iteration leaves no trace: the next one starts from the same position.",
  ["programs", "inputs"], "all grammars built from the operators up to a bounded size, all texts up to a bounded length",
  "Tests fix a dozen grammars and texts; the claim ranges over every grammar and text, and errors hide in particular nestings of operators.",
  PARSERS + ["packrat.go", "grammar.go"],
  [("position restored on failure by choice, rank, pattern, existential, predicates", "parser_*.go parse"), ("whole-text check", "grammar.go parse")], observe=PS)

P("C02", "Rule bodies determine the shape of the result",
  "The value of a successful parse follows the rule body: a literal, class or regexp alone gives its matched text; a sequence gives a map of its labels in order if it has labels, else an array of its captured elements if there are several, else the single captured value, else undefined; a repetition gives an array with one entry per match, an optional gives its operand's value or undefined, a choice gives the value of the first alternative that matches. Literals, predicates and references to rules whose name starts with an underscore are not captured inside a sequence.",
  ["programs", "inputs"], "all sequences up to a bounded length of the documented element kinds, all texts up to a bounded length",
  "Tests check the shape of a few fixed results.",
  PARSERS + ["packrat.go", "rule.go"],
  [("sequence representation from labels and captures", "parser_sequence.go calculateType"), ("capture flags", "rule.go, parser_choice.go prepare")], observe=PS)

P("C03", "Repetition counts and joins are honoured",
  "For a repetition of a value with optional join and optional bounds min and max, the parse consumes value (join value)* greedily, stopping at max values, never ends on a join, keeps exactly the matched values and succeeds exactly when at least min values were matched; when an attempt at a join or a further value fails, the position is that after the last value. A repetition whose operand matches the empty string terminates.",
  ["programs", "inputs"], "value/join expressions, min 0..3 or absent, max 0..4 or absent, all texts up to a bounded length",
  "Tests use a handful of texts against three patterns; the maximum was ignored on the second match and nobody noticed.",
  ["parser_pattern.go", "joeson_handcompiled.go"],
  [("greedy loop with join and bounds", "parser_pattern.go parse"), ("min/max from rule text", "joeson_handcompiled.go RANGE")], observe=PS)

P("C04", "Predicates consume nothing and capture nothing",
  "For every expression e and text, !e succeeds exactly where e fails and ?(e) exactly where e succeeds; neither moves the position, neither adds a value to the sequence it stands in, the value of both is undefined, and !!e succeeds exactly where ?(e) does. This holds also when e contains references, repetition, optionals or further predicates.",
  ["programs", "inputs"], "operand expressions up to a bounded depth, all texts up to a bounded length",
  "One test with three texts exercises lookahead, none negation inside another operator.",
  ["parser_not.go", "parser_lookahead.go"],
  [("position saved and restored around the operand", "parser_not.go, parser_lookahead.go parse")], observe=PS)

P("C05", "Memoization never changes a result",
  "For a grammar without left recursion, marking any subset of its rules SkipCache gives the same acceptance and the same result for every text. In particular a result reused at a position has the value and leaves the position that a fresh evaluation there would.",
  ["programs", "inputs", "configurations"], "a set of backtracking grammars, every subset of their rules skipping the cache, all texts up to a bounded length",
  "No test compares a cached with an uncached parse.",
  ["packrat.go", "parsectx.go", "parser_sequence.go"],
  [("per rule and position frame with result and end position", "packrat.go loopify")], observe=PS)

P("C06", "Each rule is evaluated at most once per position",
  "For a grammar without left recursion and with default options, each rule's body is evaluated, and its callback runs, at most once per starting position during one parse, whatever the backtracking, so the number of callback invocations is at most (number of rules) x (text length + 1).",
  ["programs", "inputs"], "backtracking grammars including exponentially nested ones, all texts up to a bounded length",
  "Tests check no evaluation counts.",
  ["packrat.go", "parsectx.go"],
  [("cache lookup before evaluation", "packrat.go loopify")], observe=["rule callbacks"])

P("C07", "Direct left recursion is longest-match and left-associative",
  "A rule of the form R: R a1 | R a2 | ... | b1 | b2 ... terminates on every text and matches what b (a)* would, choosing alternatives in order at each step, and its result nests to the left, one level per repetition. This holds at any position of the text, for several left-recursive rules on top of one another, inside parentheses and when tried again after backtracking.",
  ["programs", "inputs"], "several left-recursive grammars, all texts over their alphabets up to a bounded length",
  "Tests parse a few fixed arithmetic expressions, some without checking the result.",
  ["packrat.go", "parsectx.go"],
  [("growing a seed result", "packrat.go loopify stages 1-3"), ("wipe mask and stash of frames involved", "parsectx.go wipeWith, restoreWith")], observe=PS)

P("C08", "Indirect and hidden left recursion terminate with the right match",
  "Left recursion through other rules (mutual recursion, cycles of three rules) or behind an optional or repetition that matches nothing terminates and yields the longest left-associative match, as direct left recursion does. Parsing never crashes or fails to return because of the order in which the rules of the cycle are entered.",
  ["programs", "inputs"], "cycles of two and three rules and hidden recursion, all texts over their alphabets up to a bounded length",
  "No test has indirect left recursion.",
  ["packrat.go", "parsectx.go"],
  [("wipe mask collects the rules between the two entries", "packrat.go loopify"), ("frames restored from the best iteration", "parsectx.go restoreWith")], observe=PS)

P("C09", "Parsing any text ends with a value, nil or ParseError",
  "For a well-formed grammar whose callbacks do not panic, ParseString on any byte string (including newlines, NUL, non-ASCII and invalid UTF-8) returns and never panics. The result is non-nil and not a ParseError only if the whole text was consumed; a text that is consumed only in part yields a ParseError, never a partial value.",
  ["programs", "inputs"], "a set of grammars covering every operator, all byte strings up to a bounded length",
  "Tests feed sensible ASCII text.",
  ["grammar.go", "packrat.go", "parsectx.go", "codestream_rune.go"],
  [("whole-text check", "grammar.go parse")], observe=PS)

P("C10", "A ParseError points inside the text, at or after the parsed prefix",
  "The offset reported by a ParseError for a text that was not parsed to its end is the end of the prefix the entry rule matched or, when that is further, the start of the furthest rule that succeeded (in a grammar without left recursion): never outside the text, and not where a rule was merely tried. The reported line is the number of newlines before that offset and the column its distance in bytes from the line start. Building the message never panics.",
  ["programs", "inputs"], "multi-line grammars, all texts up to a bounded length over an alphabet with newlines",
  "Tests never look at error positions.",
  ["grammar.go", "codestream_rune.go", "parseerror.go"],
  [("furthest success over the frames", "grammar.go parse")], observe=["ParseError.ErrorString"])

P("C11", "Callbacks transform, reject and abort as documented",
  "A rule's callback receives the value of its rule body each time the rule matches and its return value replaces that value for every user of the rule; returning nil makes the rule fail there, so that the next alternative is tried from the same position. Inner callbacks run before outer ones, the three callback signatures behave alike, and a panic in a callback reaches the caller of ParseString unchanged.",
  ["programs", "inputs"], "a set of grammars with callbacks that replace, reject by value, or panic; all texts up to a bounded length",
  "Tests only use callbacks that return a value.",
  ["packrat.go", "line.go", "line_o.go", "line_i.go"],
  [("callback applied after the rule body", "packrat.go prepareResult"), ("signatures adapted", "line.go lineInit")], observe=PS)

P("C12", "A parse does not depend on earlier parses",
  "The result of parsing a text with a grammar is the same whether the grammar is fresh or has parsed other texts before, successfully or not, including parses that were aborted by a panicking callback, parses of another grammar in between, and a parse of the same grammar from within a callback.",
  ["histories", "inputs"], "two-parse histories over a set of grammars, all text pairs up to a bounded length",
  "Tests use a grammar for independent texts but compare none with a fresh grammar.",
  ["grammar.go", "parsectx.go", "packrat.go", "parser_sequence.go"],
  [("a context per parse", "parsectx.go newParseContext")], observe=PS)

P("C13", "The hand-compiled and self-compiled joeson grammars agree",
  "For every rule text, the hand-compiled joeson grammar and the grammar obtained by compiling joeson's own rules as text either both reject it or both compile it, and then to rules that print the same.",
  ["inputs"], "rule texts with a bounded number of arbitrary characters in templates covering the notation",
  "The bootstrap test compiles one tiny grammar with each.",
  ["joeson_handcompiled.go", "joeson_intention.go", "grammar.go"],
  [("two statements of one grammar", "joeson_handcompiled.go JoesonRules, joeson_intention.go IntentionRules")], observe=["GrammarWithOptionsFromLines"])

P("C14", "Literals, classes and regexps mean what the rule text says",
  "A quoted literal in a rule matches exactly its characters, where a backslash stands for the character after it; a class in brackets matches exactly one rune out of the class; a regexp between slashes matches at the current position only, as the regexp package does. An invalid rule text is reported when the grammar is built, not silently misread.",
  ["programs", "inputs"], "literals of up to a bounded number of arbitrary characters, a set of classes and regexps, all texts up to a bounded length including non-ASCII",
  "Tests use fixed alphanumeric literals.",
  ["joeson_handcompiled.go", "parser_str.go", "parser_regex.go", "codestream_rune.go"],
  [("ESC1/ESC2 rules", "joeson_handcompiled.go"), ("MatchString, MatchRegexp", "codestream_rune.go")], observe=PS)

P("C15", "Layout and redundant parentheses in rule text do not matter",
  "Extra spaces or newlines where the notation allows them, and parentheses around any operand, leave the accepted texts unchanged, as well as the results where the parentheses do not enclose labels or several captures. Operators bind as documented: postfix tighter than sequence, sequence tighter than choice.",
  ["programs", "inputs"], "pairs of rule texts that differ in layout or redundant parentheses, all texts up to a bounded length",
  "Tests never compare two spellings of a rule.",
  ["joeson_handcompiled.go", "grammar.go", "parser_choice.go"],
  [("whitespace rules _ and __", "joeson_handcompiled.go"), ("single-alternative choices removed", "grammar.go postinit")], observe=PS)

P("C16", "Stream matching moves the cursor by exactly what it matched",
  "On any text and position, matching a string, a regexp or a rune succeeds exactly when the text from the position starts with it, returns the matched text and moves the position to its end; on failure the position is unchanged. Setting the position outside the text panics, and reading up to a delimiter returns the text through its first occurrence and moves there, or returns the empty string and stays if there is none.",
  ["inputs", "histories"], "all texts, needles and positions up to a bounded length, both stream kinds, sequences of two operations",
  "Tests use a few fixed strings.",
  ["codestream_rune.go", "codestream_token.go"],
  [("Match*, GetUntil, SetPos", "codestream_rune.go, codestream_token.go")], observe=["CodeStream"])

P("C17", "Line and column follow from the byte position",
  "For every text and position, including the end of the text and positions on newlines, the line is the number of newlines before the position and the column the number of bytes since the last of them. They are monotone: a later position never has a smaller (line, column).",
  ["inputs"], "all texts up to a bounded length over an alphabet with newlines and non-ASCII, all positions",
  "A table of positions in one text.",
  ["codestream_rune.go", "helpers/bisect.go"],
  [("line starts and bisection", "codestream_rune.go PosToLine, PosToCol")], observe=["CodeStream.PosToLine", "CodeStream.PosToCol"])

P("C18", "Peeking and printing show the requested neighbourhood and move nothing",
  "Peeking n runes forward returns the next n runes of a UTF-8 text or all that remain, peeking backward the previous n or all there are; peeking a range of lines returns exactly the existing lines of that range around the current line, joined as in the text, and nothing when the range lies outside. No peek changes the position or panics, whatever its arguments. The one-line rendering of a stream, which is also part of every error message, quotes up to 20 bytes before the position and up to 40 after it.",
  ["inputs"], "all texts up to a bounded length, all positions, arguments in a range that exceeds the text on both sides",
  "Tests check a few arguments in three lines of text; others panicked.",
  ["codestream_rune.go", "codestream_token.go", "helpers/helpers.go"],
  [("PeekRunes, PeekLines", "codestream_rune.go, codestream_token.go"), ("LastNRunes", "helpers/helpers.go")], observe=["CodeStream.PeekRunes", "CodeStream.PeekLines"])

P("C19", "Token stream coordinates refer to the original text",
  "For a token stream whose tokens are pieces of the original text, the line and column of every position inside a token, including the last token, are those of the corresponding byte of the original text. At the boundary between two tokens the position belongs to the later one.",
  ["inputs"], "original texts of bounded length over an alphabet with newlines, all ways to cut up to three tokens out of them, all positions",
  "Tests check five positions in one text; those in the last token were wrong.",
  ["codestream_token.go"],
  [("coords", "codestream_token.go")], observe=["TokenStream.PosToLine", "TokenStream.PosToCol"])

P("C20", "Parsing tokens equals parsing their concatenated text",
  "Parsing a token stream with a grammar accepts exactly when parsing the concatenation of its tokens as a string does, with the same result, and fails likewise; only the coordinates in error messages differ, which refer to the original text.",
  ["inputs", "programs"], "a set of grammars, token texts of bounded length cut at every place",
  "Tests parse three token streams.",
  ["grammar.go", "codestream_token.go", "parsectx.go"],
  [("streams behind one interface", "codestream.go"), ("ParseTokens", "grammar.go")], observe=["Grammar.ParseTokens"])

P("C21", "Go tokenization preserves the token sequence and reports errors",
  "TokenStreamFromGoCode returns an error exactly when the Go scanner reports one for that source, independently of earlier calls. Otherwise each token's recorded work offset is where its text starts in the work text, its original offset is where the Go scanner saw it, and scanning the work text gives the same sequence of tokens.",
  ["inputs", "histories"], "all Go source fragments up to a bounded length over an alphabet of letters, digits, quotes, operators, blanks and newlines",
  "Tests tokenize a few correct sources; lexical errors were never reported.",
  ["codestream_token.go"],
  [("TokenStreamFromGoCode", "codestream_token.go")], observe=["TokenStreamFromGoCode"])

P("C22", "NativeMap is a map that remembers insertion order",
  "After any sequence of Set calls, Get, GetExists, GetOrPanic, Exists and IsUndefined report the last value set for a key and nothing for other keys; Keys lists each key once in order of first insertion, maps built from a Go map listing its keys sorted; IsEmpty holds exactly when there are no keys, and String and Concat go through the entries in that order, Concat refusing values which are not native. The typed getters return the stored value converted or panic, never a wrong value.",
  ["histories", "inputs"], "all sequences of a bounded number of Set calls over a small key set, arbitrary values",
  "One test gets two integers; IsEmpty returned the opposite.",
  ["native_map.go", "helpers/mapsorter.go"],
  [("vals with keys in order", "native_map.go")], observe=["NativeMap"])

P("C23", "Native values convert, concatenate and print faithfully",
  "Concat of a NativeArray is the left-to-right concatenation of its leaves with undefined values contributing nothing; integers convert from and to decimal text without loss, and text that is not an integer panics instead of yielding a number; Append, Get and Length behave as a list, and IsUndefined holds exactly for nil and undefined values.",
  ["inputs"], "arrays of bounded size and nesting with arbitrary short strings, all decimal strings up to a bounded length",
  "Tests convert two integers.",
  ["native_array.go", "native_int.go", "native_string.go", "native_undefined.go"],
  [("Concat, conversions", "native_array.go, native_int.go, native_string.go")], observe=["NativeArray", "NativeInt", "NativeString"])

P("C24", "Bisection and sorted insertion keep order",
  "For every sorted slice and value, BisectLeft is the number of smaller elements and BisectRight the number of elements not greater; the Insort functions return the sorted slice with the value added at that place and every other element kept.",
  ["inputs"], "all sorted slices up to a bounded length of arbitrary integers, all values",
  "Tests check BisectRight on one slice.",
  ["helpers/bisect.go"],
  [("binary search", "helpers/bisect.go")], observe=["helpers.Bisect*", "helpers.Insort*"])

P("C25", "String helpers never panic and slice by their contract",
  "SliceString agrees with JavaScript's slice for all integer bounds; padding yields a string of at least the requested length that contains the original at the proper side, and is the original if it is long enough; LastNRunes is a suffix with the requested number of runes or the whole string; Min and Max return the smaller and larger argument. None of them panics on any byte string.",
  ["inputs"], "all byte strings up to a bounded length, integer arguments well beyond the length on both sides",
  "Tests check a few ASCII strings; some inputs panicked.",
  ["helpers/helpers.go"],
  [("SliceString, Pad*, LastNRunes, Min, Max", "helpers/helpers.go")], observe=["helpers"])

P("C26", "Escaped, coloured and printed text keeps its meaning",
  "Escape replaces control characters and backslashes so that distinct strings stay distinct and no escaped control character remains. Stripping colours from coloured text gives that text back and leaves text without escape sequences as it is. The notation printed for a rule made of literals of printable characters, references, sequences, choices, predicates and repetitions (where no prefix or postfix operator stands directly on another), colours stripped, compiles to a rule that accepts the same texts with the same results.",
  ["programs", "inputs"], "all byte strings up to a bounded length; rules of bounded depth and texts of bounded length",
  "Tests compare a few printed patterns literally.",
  ["helpers/helpers.go", "helpers/stripansi.go", "colors.go", "parser_pattern.go", "parser_sequence.go", "parser_choice.go", "ast.go"],
  [("Escape", "helpers/helpers.go"), ("StripAnsi", "helpers/stripansi.go"), ("String methods of the parsers", "parser_*.go")], observe=["helpers.Escape", "helpers.StripAnsi", "Ast.String of a rule"])

P("C27", "Tracing changes no result",
  "Any combination of trace options and of the Debug, SkipLog parse or rule options leaves every parse result, nil or ParseError as without them, and never panics; after the parse the options of the grammar are what they were, also when a callback panicked.",
  ["configurations", "inputs"], "all combinations of trace flags, a set of grammars with every operator and left recursion, all byte strings up to a bounded length",
  "Tests run with tracing on or off, never compared.",
  ["packrat.go", "parsectx.go", "grammar.go", "traceoptions.go"],
  [("log calls in the packrat loop", "packrat.go loopify"), ("temporary Stack option", "grammar.go parse")], observe=["Grammar.ParseString with Debug"])

P("C28", "Labels @ and & merge a child's labels without altering it",
  "In a sequence, @:e adds the labels of e's map to the result after those before it, the newcomer winning on equal keys, and &:e extends e's map with the labels seen so far; labels of an optional group appear in the result exactly when the group matched. Merging never alters a value that another alternative or rule gets for the same text.",
  ["programs", "inputs"], "a set of label combinations including backtracking ones, all texts up to a bounded length",
  "Only the joeson grammar itself uses these labels.",
  ["parser_sequence.go", "parser_existential.go"],
  [("merge in object sequences", "parser_sequence.go parseAsObject, merge")], observe=PS)

P("C29", "A result's origin spans the text its rule matched",
  "When a string is parsed, a map or custom value returned by a rule carries as origin the start and end of the text that rule matched, the line where it ended, the whole source text and the name of that rule, so that slicing the source by the origin gives the matched text. For a result built by several levels of rules each nested map carries the span of its own rule.",
  ["programs", "inputs"], "a set of grammars with nested labelled rules, all texts up to a bounded length",
  "No test reads an origin.",
  ["packrat.go", "attr.go", "ast.go"],
  [("SetOrigin after the callback", "packrat.go prepareResult")], observe=["Ast.GetOrigin"])

P("C30", "Ranks are choices; I rules may stand anywhere under any name",
  "A rank of O lines accepts and returns what the choice of its alternatives does, at any nesting; I lines take no part in it. Where an I line stands, the order of I lines and a consistent renaming of rules (keeping the leading underscore) change no result.",
  ["programs", "inputs"], "pairs of equivalent grammars, all placements of their I lines, all texts up to a bounded length",
  "Tests never compare two arrangements of a grammar.",
  ["parser_rank.go", "line.go", "line_o.go", "line_i.go", "grammar.go"],
  [("rank from lines", "parser_rank.go rankFromLines"), ("rules collected by name", "grammar.go postinit")], observe=PS)

P("C31", "Size does not matter: deep nesting, long texts, many rules",
  "Nesting depth, text length and number of rules are limited by memory only: a grammar with many rules, a rule body with many elements, a text nested thousands of levels deep or repeated thousands of times parses as its small instances do.",
  ["inputs", "programs"], "grammars of up to 130 rules, texts nested up to 3000 levels or 2000 elements long with arbitrary bytes at chosen places",
  "Tests use small grammars and short texts.",
  ["packrat.go", "parsectx.go", "grammar.go"],
  [("rule stack", "parsectx.go stackPush"), ("frame table", "parsectx.go newParseContext")], observe=PS)

P("C32", "TRACE is read as documented",
  "The trace options derived from the TRACE variable are those of its comma-separated words applied left to right (stack, loop, grammar, skipsetup set one option; none clears and all sets the verbose combination; line=N sets the line filter), and an unknown word or a malformed number panics; when TRACE is not set the given default options are used. Copies of options are equal to and independent of the original.",
  ["configurations"], "all lists of up to three words of the documented vocabulary",
  "No test reads TRACE.",
  ["traceoptions.go"],
  [("checkEnvironmentForTraceOptions", "traceoptions.go")], observe=["TraceOptionsFromEnvironmentOrUse"])

P("C33", "Lazy values are computed at most once",
  "A lazy value calls its function at most once and only when first asked, returns the same value ever after, and returns a value set explicitly instead of calling the function; a cleared one starts afresh.",
  ["histories", "inputs"], "all sequences of a bounded number of Set, SetLazy, Get, IsSet and Clear calls, arbitrary values",
  "Tests check three short histories.",
  ["helpers/lazy.go"],
  [("Get", "helpers/lazy.go")], observe=["helpers.Lazy"])

P("C34", "Building a grammar leaves its lines and later grammars alone",
  "The same lines of rules build the same grammar every time: as many rules, printed alike, and parsing every text with the same outcome and result, however many grammars were built from them before and whatever those have parsed. A build that fails because of an invalid rule text changes nothing for later builds, of the same lines or with the same compiling grammar.",
  ["histories", "inputs"], "a set of line sets in every form lines can take, histories of builds, failed builds and parses of a bounded length, all texts up to a bounded length",
  "Every test builds its grammar once from lines of its own.",
  ["line.go", "line_o.go", "line_i.go", "grammar.go", "parser_rank.go", "traceoptions.go"],
  [("rules compiled from lines", "line.go getRule, parser_rank.go rankFromLines"), ("ids and references", "grammar.go postinit")], observe=PS)

P("C35", "Tracing prints what was asked for and nothing else",
  "Without trace options and without Debug nothing is written to standard output when a grammar is built or parses. With the Stack option each step is printed, beginning with the line and column it was taken at; SkipLog prints no steps; FilterLine N >= 0 prints just those of the steps that are at line N. ParseString with Debug prints exactly what the Stack option would for that parse, and only for that parse. A rule with the Debug option prints the steps of that rule. Building with Grammar prints a row for every rule, with Loop a line for every rule, and the steps of reading the rules only with Stack and without SkipSetup.",
  ["inputs", "configurations"], "all combinations of trace options, rule and parse options, arbitrary texts up to a bounded length",
  "Tests do not look at what is printed.",
  ["packrat.go", "parsectx.go", "grammar.go", "line.go", "traceoptions.go", "docs/verbosity.md"],
  [("log", "parsectx.go log"), ("PrintRules", "grammar.go PrintRules"), ("getRule", "line.go")], observe=PS)

P("C36", "Walking a grammar is a depth-first traversal",
  "Walk calls Pre before the descendants of a node and Post after them, with the node being descended from as the parent (the given one for the first), visits every rule and every element of every rule body in the order of the text, and returns the node it was given. Pre answering __stop__, and no other answer, skips that node's descendants and its Post, and nothing else. A walked grammar parses as it did before.",
  ["inputs", "programs"], "grammars with every kind of parser, a stop at any visit and any answers",
  "Tests do not walk grammars.",
  ["walk.go", "grammar.go", "parser_sequence.go", "parser_choice.go", "parser_rank.go", "parser_pattern.go"],
  [("Walk", "walk.go"), ("forEachChild", "parser_*.go")], observe=PS)

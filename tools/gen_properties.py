#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("P01", "Parse is total: it always returns, never panics, never hangs",
 "For every input string, parsing terminates without panicking and yields either a statement and no error, or an error and no statement. The same holds for tokenizing the input token by token: it reaches end of input after at most as many tokens as there are bytes. Nesting of any depth is either parsed or rejected with an error.",
 ["inputs"], "every byte string, including invalid UTF-8, NUL bytes, truncated rules and rules cut off inside any construct",
 "Tests parse about 150 hand-written rules; the dangerous inputs are truncations and odd byte sequences in each parsing loop, which nobody lists by hand.",
 ["parser.go", "token.go", "primitive.go", "composite.go", "geometry.go", "datetime.go", "scanner/scanner.go"],
 [("every token loop has an EOF/other-token exit", "parser.go, composite.go, geometry.go, datetime.go"), ("scanner returns EOF forever at end of input", "scanner/scanner.go Scan/next")],
 ["Parse(string) (Statement, error)", "NewTokenizer(r).Scan()"])

prop("P02", "Formatting an accepted rule yields text that parses back to the same rule",
 "For every rule that parses, formatting the statement succeeds, the formatted text parses, and the result equals the original statement in everything except source positions. Formatting that second statement reproduces the same text. (Device ids of a selector form a set: their written order and repetition are not part of the rule.)",
 ["inputs", "programs"], "every accepted rule: all literal kinds and units, selectors, ranges, arrays, calendar and geometry values, nested expressions, SET/REPEAT/RESET clauses",
 "The only format test formats one big rule and does not compare the re-parsed tree (and fails at the pinned commit); each node kind has context-dependent layouts and spellings that one sample cannot cover.",
 ["format.go", "ast.go", "parser.go", "units.go"],
 [("one format method per node kind", "format.go"), ("parser accepts every spelling the formatter emits", "parser.go, primitive.go, units.go")],
 ["Format(io.StringWriter, Statement)", "Parse", "exported AST fields"])

prop("P03", "Operators bind by the documented precedence and associate to the left",
 "An expression chain parses to the tree given by the documented precedence table (or < and < comparison/membership/spatial operators < additive < multiplicative), with operators of equal precedence grouping to the left, and every operator node records the operator that was written. Parentheses override the grouping and are kept as explicit nodes.",
 ["programs", "inputs"], "every sequence of documented operator spellings (including the two-word negated ones) over operands, with any parenthesisation",
 "No test checks the shape of a tree with two or more operators; the property ranges over all operator sequences.",
 ["parser.go", "token.go", "keyword.go"],
 [("precedence climbing", "parser.go parseBinaryExpr"), ("Token.Precedence table", "token.go"), ("operator spellings", "keyword.go, token.go")],
 ["Trigger.When as BinaryExpr/ParenExpr tree"])

prop("P04", "Scalar literals keep their exact value, sign and unit",
 "A numeric literal parses to a node holding exactly the written number: integers, decimals, percentages, speeds, distances, temperatures, pressures and durations each get their own kind and the unit that was written, in every accepted spelling of the unit. A leading minus sign negates integers, decimals and temperatures (recorded as the sign of the temperature), applies only to the literal it precedes (never to another literal, such as the other end of a range), and is rejected for kinds that cannot be negative (percent, speed, distance, pressure, duration) instead of being ignored; a leading plus sign is recorded on temperatures and otherwise changes nothing. An integer that does not fit the integer type is rejected. String literals keep their contents exactly (escape sequences are kept as written) and true/up, false/down in any letter case give the two booleans.",
 ["inputs"], "every digit string that fits the type, every unit spelling, every sign, in every position where a value may appear",
 "Tests check positions of a few literals and hardly any values or units; the value space is unbounded and sign handling depends on neighbouring literals.",
 ["primitive.go", "units.go", "parser.go", "composite.go"],
 [("unit recognition and mapping", "units.go"), ("numeric conversion", "primitive.go parseIntTypes/parseFloatTypes/parseAllTypes"), ("sign state", "parser.go parseUnaryExpr, isSignMinus")],
 ["IntTyp, FloatTyp, PercentTyp, SpeedTyp, DistanceTyp, TemperatureTyp, PressureTyp, DurationTyp, StringTyp, BooleanTyp fields"],
 state=[{"name": "sign", "meaning": "pending unary sign for the next numeric literal", "where": "parser.go parser.sign"}])

prop("P05", "Calendar literals accept exactly the valid values and keep them",
 "A date with year 2022-2200, month 1-12 and day 1-31, a time with hour 0-24 and minutes (and optional seconds) 0-59 with an optional AM/PM marker, a weekday name and a month name (three letters, in any letter case as are the markers) are accepted and parsed to exactly those numbers; out-of-range or misspelled fields are rejected. Lists keep every element in order, ranges keep both ends in order, and calendar items not joined by a comma (list) or a single range operator (range) are rejected rather than dropped.",
 ["inputs"], "all digit strings for each field, all names in any letter case, lists and ranges of any two or more items",
 "Tests cover some thirty literals; the valid ranges are boundary conditions over whole number ranges, and nothing tests what a list or range contains.",
 ["datetime.go"],
 [("field range checks", "datetime.go parseDateExpr/parseTimeExpr"), ("name tables", "datetime.go parseWeekdayExpr/parseMonthExpr"), ("list/range assembly", "datetime.go")],
 ["DateTyp, TimeTyp, WeekdayTyp, MonthTyp, ArrayTyp.List, Range.Low/High"])

prop("P06", "Geometry literals keep every coordinate, in order and with its sign",
 "A point, line, polygon, multi-geometry or collection literal parses to a node with exactly the written coordinates in the written order and nesting, each with its own sign, and with the written radius or margin distance; a polygon of more than one ring has holes. A point, line, polygon, collection or multi-geometry has at least one position, ring or member; a multi-geometry contains only geometries of its kind, a collection any geometry but another collection; only points and lines (also inside multi-geometries and collections) take a radius or margin, which is a distance. Malformed geometry (unterminated brackets, missing or extra coordinates, wrong nesting, wrong member kind) is rejected instead of being turned into some other geometry.",
 ["inputs"], "all coordinate values, any number of positions, rings and members, and all malformed bracket/coordinate sequences within the bound",
 "Tests check node counts for a handful of literals and never the coordinates.",
 ["geometry.go", "primitive.go"],
 [("coordinate state machine", "geometry.go parseGeometryExpr"), ("member kind check", "geometry.go parseGeometryMultiObject/parseGeometryCollectionExpr"), ("radius/margin", "primitive.go parseDistance")],
 ["GeometryPointTyp.Val/Radius, GeometryLineTyp.Val/Margin, GeometryPolygonTyp.Val, GeometryMultiObjectTyp, GeometryCollectionTyp.Objects"])

prop("P07", "Nothing in an accepted rule is silently dropped or invented",
 "If a rule written in canonical spelling is accepted, then its formatted form consists of the same sequence of tokens: no operand, operator, list element, bracket, sign or trailing text may be ignored, and none may be supplied. Only these are not part of the sequence: white space and comments, the letter case of keywords and selector names, a leading TRIGGER, the semicolons between and after SET assignments, a SET without assignments, a REPEAT without count, a plus sign before a number other than a temperature, a device list that names only the current device, and the order and repetition of device ids; in lists of integers a colon is read as a comma. In particular unbalanced parentheses, brackets or braces, an unterminated string, missing operators or separators and text after the end of the rule are errors.",
 ["inputs", "programs"], "every token sequence over the language's vocabulary within the bound, in every syntactic context",
 "Tests contain few negative cases, each for one spelling; the property is about all the token sequences nobody thought of.",
 ["parser.go", "composite.go", "geometry.go", "datetime.go", "format.go", "token.go"],
 [("closing-bracket and separator checks", "parser.go, composite.go, geometry.go, datetime.go"), ("end-of-rule and lexical-error checks", "parser.go"), ("formatter prints the whole tree", "format.go")],
 ["Parse acceptance", "Format output compared with the input's tokens"])

prop("P08", "The type checker accepts exactly the well-typed conditions",
 "A binary condition is accepted exactly when its operand types fit the operator: logical operators take booleans; arithmetic and ordering take numbers (integers, decimals and unit-carrying quantities), and + also joins two strings; equality takes two numbers, two strings, two booleans, two numeric lists, two string lists, or geometries and numeric lists in any mix; membership takes a number in a numeric list of its kind, a numeric range or a geometry, a string in a string list, or a geometry in a geometry; nearby/intersects take a geometry or number and a geometry. Unit-carrying quantities are percentages, pressures, distances, speeds and temperatures; durations, calendar values and the wildcard fit no operator. A list has the type its elements share and none if they differ; a range is numeric if both ends are. Only the condition is checked, and a condition that is no operation is accepted. Variables count as the type of their assigned value, selectors as their declared type (undeclared ones never fit; an array and its element type are not distinguished), nested results as number, string or boolean of the inner operator, and checking never panics, never changes the rule and rejects a rule if any nested operation is ill-typed.",
 ["programs", "configurations"], "all operators, all pairs of operand kinds including variables, selectors of every declared type and nested expressions, and all dictionaries",
 "Tests sample operand pairs for about half of the operators, mostly with an int or float on the left; the matrix with variables, selectors and nesting is far larger.",
 ["typecheck.go"],
 [("rules table", "typecheck.go rules"), ("operand classification", "typecheck.go is*/getSelectorType"), ("result typing", "typecheck.go toExpr"), ("recursion", "typecheck.go walk")],
 ["CheckType(Statement, Dictionary) error"])

prop("P09", "Same rule, same answer: results are deterministic and history-free",
 "Parsing the same text, formatting the same statement and checking the same statement against the same dictionary give the same result every time, whatever was parsed, formatted or checked before and in whatever order maps happen to be iterated.",
 ["schedules", "histories", "inputs"], "all map iteration orders (device ids of selectors, rule tables, keyword tables) and all preceding calls within the bound",
 "A test observes one iteration order per run and compares nothing across runs; map order is a scheduler choice tests cannot control.",
 ["format.go", "ast.go", "typecheck.go", "keyword.go"],
 [("device ids are emitted in a defined order", "format.go Selector.format, ast.go needExpand"), ("verdict independent of rule-table order", "typecheck.go eval"), ("package tables are only read after init", "keyword.go, typecheck.go, units.go")],
 ["Format output bytes", "CheckType verdict", "Parse result"])

prop("P10", "A failing writer makes Format return its error and write nothing more",
 "If the destination writer fails on any write, Format returns that writer's error (never nil, never a panic) and performs no further write; if no write fails, Format returns nil. What was written before the failure is a prefix of the full output.",
 ["fault_sequences", "programs"], "a failure at every write position, for statements containing every node kind",
 "No test uses a failing writer.",
 ["format.go", "ast.go"],
 [("every write is checked and unwinds", "format.go checkError"), ("recovery to an error result", "format.go formatTriggerStmt")],
 ["Format error result", "sequence of WriteString calls"])

prop("P11", "Tokens do not depend on how the reader delivers the bytes",
 "The token sequence (kind, text and offset) produced from a reader depends only on the bytes delivered, not on how they are split across reads nor on where tokens fall relative to internal buffers; a token longer than any internal buffer is returned whole. A read error other than end of input is reported as the tokenizer's error unless a lexical error was met before it.",
 ["schedules", "fault_sequences", "inputs"], "every split of the input into reads (including one byte at a time, empty reads and data returned together with end of input), tokens straddling the refill boundary, and read failures",
 "Every test reads from an in-memory string shorter than the buffer, so the refill paths are never executed.",
 ["scanner/scanner.go", "token.go"],
 [("refill loop", "scanner/scanner.go next"), ("token head buffer", "scanner/scanner.go tokBuf/TokenText"), ("offset bookkeeping", "scanner/scanner.go srcBufOffset")],
 ["Tokenizer.Scan/Offset/TokenText/Err", "scanner.Scanner.Scan/TokenText/Position"],
 state=[{"name": "srcBuf/srcPos/srcEnd/tokPos/tokBuf", "meaning": "read window and pending token text", "where": "scanner/scanner.go Scanner"}])

prop("P12", "Keywords ignore letter case, layout never matters, words are taken whole",
 "Changing the letter case of keywords and operator words, or the amount and kind of white space between tokens (space, tab, newline, carriage return, and comments), does not change the parsed rule. A word is a keyword only if the whole maximal run of letters, digits (also those outside ASCII) and underscores is that keyword; any longer word is a selector.",
 ["inputs"], "all case variants of every keyword, all white-space strings between tokens, all words that extend or abut a keyword",
 "Tests use one or two spellings and layouts.",
 ["token.go", "keyword.go", "scanner/scanner.go"],
 [("lower-casing before keyword lookup", "token.go Scan"), ("white-space skipping", "scanner/scanner.go Scan"), ("identifier scanning", "scanner/scanner.go scanIdentifier")],
 ["Tokenizer.Scan", "Parse result up to positions"])

prop("P13", "SET, REPEAT and RESET clauses are captured completely and exactly",
 "Every SET assignment appears once, in order, with its exact name and value; assigning a name twice (also by SetVar) or assigning a variable reference or a list of them is an error; a reference yields the exact written name. REPEAT records the written count and optional interval, RESET the written duration, each is absent when not written, and a value of the wrong kind in a clause is an error.",
 ["inputs", "programs"], "any number and naming of assignments (including names differing in letter case or by a prefix), any counts and durations, all combinations of clauses and all wrong-kind values",
 "Tests check a few combinations with fixed values and never the assigned values.",
 ["parser.go", "ast.go", "primitive.go"],
 [("assignment loop", "parser.go parseSet"), ("duplicate check", "ast.go SetVar/isAssigned"), ("clause parsing", "parser.go parseRepeat/parseReset")],
 ["Trigger.Vars, RepeatCount, RepeatInterval, ResetAfter, Ref.ID"])

prop("P14", "Walking a rule visits every expression once, in source order",
 "Walk and Visit call the visitor for every expression reachable from the given node - variables with their names and values, condition, operands, range ends, list elements, selector properties, clause values - exactly once, parents before children and children in source order, and signal the end of each visited node's children with nil. When the visitor declines a node, exactly that node's children are skipped.",
 ["programs", "inputs"], "all statement shapes within the bound and all visitor decisions",
 "Tests use Visit only to find one node; no test checks completeness, order or pruning.",
 ["walk.go"],
 [("child enumeration per node kind", "walk.go Walk"), ("pruning on nil visitor", "walk.go Walk")],
 ["sequence of Visit calls"])

prop("P15", "Source positions point at the written text",
 "The start position of every literal, selector, reference, bracketed value and parenthesised expression is the byte offset at which its text begins in the input (including a sign that belongs to it), wherever it stands in the rule; the items of a calendar literal report the start of the literal. A syntax error reports an offset inside the input and quotes exactly the input text before that offset.",
 ["inputs"], "every placement of a construct after arbitrary preceding text and white space, including multi-byte characters and inputs longer than the read buffer",
 "Tests compare hard-coded positions for rules that all start near offset 5 or 12.",
 ["parser.go", "primitive.go", "composite.go", "geometry.go", "datetime.go", "scanner/scanner.go"],
 [("positions taken from the tokenizer offset", "Tokenizer.Offset and lpos assignments"), ("error context", "parser.go error")],
 ["Expr.Pos()", "Error.Offset/Msg"])

prop("P16", "Calls share no mutable state and only read the statements they are given",
 "Parsing, tokenizing, formatting, walking and type checking never modify memory that another call could observe: package-level tables stay as initialised, and Format, Walk and CheckType leave the statement and dictionary they are given unchanged. Hence these operations can run concurrently, on distinct or on shared statements, without data races.",
 ["schedules", "histories"], "all inputs within the bound, all interleavings (by absence of any write to shared memory)",
 "No test runs anything concurrently or checks arguments for modification.",
 ["parser.go", "format.go", "typecheck.go", "walk.go", "keyword.go", "units.go"],
 [("all state is per call", "parser, Tokenizer, checker values"), ("shared operand prototypes are read-only", "typecheck.go op* variables")],
 ["writes to memory that existed before the call"],
 state=[{"name": "keywords, keywordStrings, rules, unitSizes, op*", "meaning": "package tables, read-only after init", "where": "keyword.go, typecheck.go, units.go"}])

prop("P17", "Scanner tokens tile the input, with correct line and column",
 "In every mode, successive tokens of the scanner appear in input order, each token's text is exactly the input bytes at its reported offset, and only white space (and skipped comments) lies between them, so no input is lost or repeated. The reported line and column are those of the token's first character, counting characters per line from 1 (an invalid byte counts as one character); after a token the current position is the place right behind it. A byte-order mark at the very beginning is skipped.",
 ["inputs", "configurations"], "all byte strings within the bound, all recognition modes",
 "The scanner package has no tests of its own; other tests look at token kinds of a few ASCII lines.",
 ["scanner/scanner.go"],
 [("token start/end bookkeeping", "scanner/scanner.go Scan"), ("line/column counting", "scanner/scanner.go next/Pos"), ("comment skipping", "scanner/scanner.go scanComment")],
 ["scanner.Scanner.Scan, TokenText, Position, Pos"])

prop("P18", "Selectors keep their name, devices, wildcard and properties",
 "A selector parses to its lower-cased name, exactly the set of written device ids (contents untouched), the current-device flag set exactly when the wildcard is written or no device id is given, and its properties in the written order. A malformed device list or property list is an error.",
 ["inputs"], "all names, device-id contents (including escaped quotes and non-ASCII text), orders and combinations of ids, wildcard and properties",
 "Tests check counts for four selectors, never the ids or property order.",
 ["composite.go", "ast.go", "parser.go"],
 [("device list loop", "composite.go parseSelectorExpr"), ("properties", "composite.go parseSelectorProps"), ("quote trimming", "parser.go trim")],
 ["Selector.Ident/Args/Wildcard/Props"])

prop("P19", "Lists hold elements of one kind, ranges two ends",
 "A list parses to a node with exactly the written elements in the written order and the kind they have in common. It has at least one element and all are integers, or all decimals, percentages, speeds, distances, temperatures, pressures, durations, strings, selectors, references or ranges; a list that is empty, mixes these kinds, contains anything else (booleans, calendar values, geometries, lists, operations, parentheses, the wildcard) or lacks or doubles a comma is rejected. A range parses to a node with its two ends as written, each a single operand and neither itself a range; a range binds tighter than any operator.",
 ["inputs"], "all kinds and pairs of kinds, all positions of an odd element, all token sequences around a valid list or range within the bound",
 "Tests sample a few mixed pairs and lists of two or three elements; the kinds are 12, their pairs and positions many.",
 ["composite.go", "parser.go"],
 [("element kinds", "composite.go parseArrayExpr"), ("range ends", "composite.go parseRangeExpr"), ("range after an operand", "parser.go parseUnaryExpr")],
 ["ArrayTyp.Kind/List, Range.Low/High", "Parse error"])

prop("P20", "Every token has its documented kind",
 "The tokenizer splits a text into exactly its tokens and reports for each the documented kind and its text in lower case (the canonical spelling for operators of two parts): keywords and geometry and calendar words, operator words including those with not, symbols of one and two characters, integers, decimals, strings and other words. A character that begins no token, or not before anything but eq, in, nearby, intersects, is ILLEGAL; after the last token every call reports EOF, and a text of tokens has no lexical error. The spelling that KeywordString gives for a kind scans to that kind, and Precedence gives the documented precedence of every operator and none to any other kind.",
 ["inputs"], "all pairs of vocabulary tokens, numbers, strings and words, all ways to join them, all kinds",
 "Tests scan about sixty tokens in one order each, all separated by blanks, and never compare spellings and precedences of all kinds.",
 ["token.go", "keyword.go", "scanner/scanner.go"],
 [("symbols and words to kinds", "token.go Tokenizer.Scan"), ("vocabulary", "keyword.go keywords"), ("precedence", "token.go Precedence")],
 ["Tokenizer.Scan/Offset/TokenText/Err", "KeywordString", "Token.Precedence"])

prop("P21", "The scanner recognizes what Go's text/scanner does, but for numbers",
 "In every mode, with any white space and identifier characters, over any reader, a scanner delivers the same tokens, texts, places, characters (Next, Peek) and errors as Go's text/scanner over the same bytes: identifiers, characters and strings with their escape sequences, raw strings, comments, single characters, the byte-order mark, NUL, malformed UTF-8 and everything unterminated; a read error is reported, at a time that depends on how far the scanner reads ahead. Only numbers differ: a number is a run of decimal digits and underscores that begins with a digit (an Int); if floats are enabled a dot may follow it, or precede a digit, with another such run behind it (a Float). A scanner initialised again starts afresh.",
 ["inputs", "configurations", "histories"], "all byte strings within the bound, all recognition modes, several white-space sets and identifier functions, all orders of Scan, Next and Peek, all ways to deliver the bytes",
 "The scanner package has no tests of its own; the parser uses one mode of 64, never Next, Peek or an own identifier function.",
 ["scanner/scanner.go"],
 [("token recognition by mode", "scanner/scanner.go Scan"), ("escape sequences", "scanner/scanner.go scanEscape/scanDigits"), ("numbers", "scanner/scanner.go scanNumber/digits"), ("comments, raw strings", "scanner/scanner.go scanComment/scanRawString"), ("characters and buffer", "scanner/scanner.go next")],
 ["scanner.Scanner.Scan/Next/Peek/Pos/TokenText/Position/Error/ErrorCount", "TokenString", "Position.String"])

prop("P22", "Only the content of a rule matters, not where it came from",
 "Formatting, walking and type checking depend only on the content of a statement - its exported fields other than positions. A rule put together from the exported node types, with any recorded positions or none, is formatted to the same text, walked in the same order and judged the same by the type checker as the parsed rule of the same content, and its text parses to that content; absent and empty lists of variables, device ids and properties mean the same. A rule changed after it has been used counts as changed from then on. Formatting a rule that lacks a required part (condition, operand, range end, name or value of a variable, element, member or property) returns an error and never panics.",
 ["inputs", "programs", "histories"], "all rule shapes within the bound, any positions, any part replaced or missing",
 "Tests format parsed rules only, and each of them once.",
 ["format.go", "walk.go", "typecheck.go", "ast.go"],
 [("format methods", "format.go"), ("layout decisions", "ast.go needExpand"), ("nil parts", "format.go formatTriggerStmt recover")],
 ["Format", "Walk", "Visit", "CheckType", "exported AST fields"])

prop("P23", "A token put back is read again, once",
 "After Scan has returned a token of one part (not a symbol that may begin a longer one, nor one beginning with not), Reset makes the next Scan return that token again, with the same kind, text and offset, however often this is repeated; Unwind takes a Reset back. Neither changes the tokens that follow, nor the errors.",
 ["inputs", "histories"], "all pairs of tokens, all orders of Scan, Reset and Unwind within the bound",
 "Tests never call Reset or Unwind.",
 ["token.go"],
 [("pushed-back token", "token.go Tokenizer.next/Reset/Unwind")],
 ["Tokenizer.Scan/Reset/Unwind/Offset/TokenText/Err/ErrorCount"],
 state=[{"name": "hop, tok, lit", "meaning": "the last token and whether it is put back", "where": "token.go Tokenizer"}])

prop("P24", "A syntax error is settled by the text up to the token it names",
 "A rejected text yields a syntax error whose Lit is the text of the token at its Offset (empty only at the end of the input), and whose message includes that text and the cause. If no lexical error is involved, the error depends only on the text up to and including that token: whatever follows it, the text is rejected with the same offset, token, quote and cause. White space and comments in front shift the offset and change nothing else.",
 ["inputs"], "all rejected texts within the bound, all continuations and leading layouts of a sample",
 "Tests check that some texts are rejected, never where, with which token or why, nor with other text around.",
 ["parser.go", "token.go", "composite.go", "datetime.go", "geometry.go", "primitive.go"],
 [("error construction", "parser.go parser.error"), ("first error wins", "parser.go"), ("current token", "token.go Tokenizer.next")],
 ["Error.Offset/Lit/Msg/Err", "Error.Error"])

prop("P25", "A type error quotes the operation that does not fit",
 "When the type check rejects a condition, its error quotes the first operation that does not fit - operands before the operation they belong to, left before right - as its left operand, operator and right operand: an operand that is no operation appears as Format writes it (on one line, without parentheses around it), and the operator in its canonical spelling.",
 ["inputs", "programs"], "all pairs of operand kinds, operators and nestings within the bound, any values of the operands",
 "Tests check only whether an error is returned.",
 ["typecheck.go"],
 [("error text", "typecheck.go checker.error"), ("order of evaluation", "typecheck.go checker.walk")],
 ["CheckType error text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

package main

func registry() []entry {
	return []entry{
		{"P01", "P01_Start", P01_Start, "each of 100 beginnings of constructs followed by a byte out of 66 (thorough: any byte) and any byte"},
		{"P01", "P01_Start1", P01_Start1, "each of 100 beginnings of constructs followed by any byte and one of 24 endings"},
		{"P01", "P01_Bytes", P01_Bytes, "all texts of up to 2 (3) bytes"},
		{"P01", "P01_Middle", P01_Middle, "1 (2) arbitrary bytes inserted in or put over any place of 8 rules that cover the grammar"},
		{"P01", "P01_Cut", P01_Cut, "the 8 rules cut off anywhere, followed by one of 22 endings"},
		{"P01", "P01_Tokens", P01_Tokens, "tokenizer: 16 beginnings followed by up to 2 (3) arbitrary bytes"},
		{"P01", "P01_Long", P01_Long, "runs of one character around 1 and 2 times the internal buffer length"},
		{"P01", "P01_Deep", P01_Deep, "10 ways to nest, up to 60 (300) deep"},
		{"P01", "P01_Endless", P01_Endless, "15 ways to nest: calls go no deeper for 12500 levels than for 10500"},
		{"P01", "P01_Huge", P01_Huge, "numbers of up to 22 (60) digits in 31 places"},
		{"P02", "P02_Literal", P02_Literal, "one operand of every kind"},
		{"P02", "P02_Place", P02_Place, "operands of 21 kinds, and 16 of many parts, in each of 24 places of a rule"},
		{"P02", "P02_Decimal", P02_Decimal, "numbers of up to 22+23 digits of 8 patterns in literals of 7 kinds (quick: every third length)"},
		{"P02", "P02_Long", P02_Long, "names, texts and device ids of 43 lengths up to 3000"},
		{"P02", "P02_Set", P02_Set, "one variable of every kind, with and without ';'"},
		{"P02", "P02_Geometry", P02_Geometry, "lines and rings of 1..12 (thorough: 40) positions, also nested in multi geometries and collections"},
		{"P02", "P02_Selector", P02_Selector, "1..6 device ids of up to 66 bytes"},
		{"P02", "P02_Clauses", P02_Clauses, "0..3 variables, every combination of clauses"},
		{"P02", "P02_Chain", P02_Chain, "3 operators without and 2 with a parenthesised operand, nested twice (thorough: 4)"},
		{"P02", "P02_Triple", P02_Triple, "chains of any three operators"},
		{"P02", "P02_Deep", P02_Deep, "parentheses nested 1..20 (thorough: 60) deep"},
		{"P02", "P02_Op", P02_Op, "two operands of 21 kinds, 22 operators, alone, in parentheses and behind another operator"},
		{"P02", "P02_Nest", P02_Nest, "operands of 21 kinds inside two (three) of 11 others, in 4 places"},
		{"P02", "P02_Calendar", P02_Calendar, "calendar items with arbitrary fields, alone, in lists and in ranges"},
		{"P02", "P02_Big", P02_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P03", "P03_Pairs", P03_Pairs, "all pairs of the 22 operator spellings, spaced, in any letter case"},
		{"P03", "P03_Triple", P03_Triple, "chains of any three operators"},
		{"P03", "P03_Chain", P03_Chain, "chains of 4 (5) operators over 10 representatives of the precedence levels"},
		{"P03", "P03_Long", P03_Long, "chains of up to 16 (40) operators repeating any three"},
		{"P03", "P03_Paren", P03_Paren, "2 (3) operators, a parenthesised operand, nested 3 deep"},
		{"P03", "P03_Double", P03_Double, "up to 3 pairs of parentheses around each of 3 growing parts of a condition"},
		{"P03", "P03_Group", P03_Group, "4 operators, parentheses around any part"},
		{"P03", "P03_Operands", P03_Operands, "operands of 15 kinds between two operators"},
		{"P03", "P03_Same", P03_Same, "chains of 1..3 (4) operators over two operands, any of them equal"},
		{"P03", "P03_Clauses", P03_Clauses, "conditions among all other clauses"},
		{"P03", "P03_Big", P03_Big, "operator chains and nestings of 2..257 and 1025 (2050) parts"},
		{"P04", "P04_Value", P04_Value, "one scalar literal of every kind, all digits arbitrary"},
		{"P04", "P04_Place", P04_Place, "scalar literals in 24 places"},
		{"P04", "P04_Decimal", P04_Decimal, "numbers of up to 22+23 digits of 8 patterns in literals of 7 kinds (quick: every third length)"},
		{"P04", "P04_Long", P04_Long, "texts and names of 43 lengths up to 3000"},
		{"P04", "P04_PlaceWide", P04_PlaceWide, "numbers of 2, 4 or 7 arbitrary digits of 8 kinds with any sign in 24 places"},
		{"P04", "P04_Sign", P04_Sign, "two numbers of 8 kinds with any signs in 7 constructs"},
		{"P04", "P04_Misplaced", P04_Misplaced, "signs before operands of 12 kinds"},
		{"P04", "P04_Word", P04_Word, "a digit followed by any word of 1..3 letters"},
		{"P04", "P04_Int", P04_Int, "integers of 1..18 digits and around the largest"},
		{"P04", "P04_Float", P04_Float, "decimals of up to 15 digits, arbitrary"},
		{"P04", "P04_Layout", P04_Layout, "white space before the unit"},
		{"P04", "P04_String", P04_String, "strings of up to 3 arbitrary ASCII bytes, escapes, and of lengths up to 2050"},
		{"P04", "P04_Bool", P04_Bool, "boolean words in any letter case in 11 places"},
		{"P04", "P04_Big", P04_Big, "lists of scalars of 2..257 and 1025 (2050) parts"},
		{"P05", "P05_Date", P05_Date, "dates with years of 3..5 digits, months and days of 1..3 digits, all arbitrary"},
		{"P05", "P05_Time", P05_Time, "times with fields of 1..3 digits, all arbitrary, with and without seconds and AM/PM"},
		{"P05", "P05_Name", P05_Name, "any word of 2..4 letters as weekday and as month"},
		{"P05", "P05_Marker", P05_Marker, "any word of 1..3 letters after a time"},
		{"P05", "P05_Item", P05_Item, "items, lists and ranges in 9 places"},
		{"P05", "P05_Full", P05_Full, "dates and times with arbitrary fields in lists and ranges"},
		{"P05", "P05_Joined", P05_Joined, "1..3 (5) items joined by arbitrary separators and ended arbitrarily"},
		{"P05", "P05_Kind", P05_Kind, "items of one kind in the brackets of another"},
		{"P05", "P05_Edit", P05_Edit, "one token removed, replaced (18 tokens), swapped or inserted in 7 literals"},
		{"P05", "P05_Big", P05_Big, "calendar lists of 2..257 and 1025 (2050) parts"},
		{"P06", "P06_Value", P06_Value, "13 geometries, one coordinate arbitrary"},
		{"P06", "P06_Place", P06_Place, "geometries in 14 places"},
		{"P06", "P06_Coordinate", P06_Coordinate, "coordinates of up to 4+4 (9+9) digits"},
		{"P06", "P06_Radius", P06_Radius, "arbitrary distances as radius and margin"},
		{"P06", "P06_NotRadius", P06_NotRadius, "15 kinds of operands after the colon"},
		{"P06", "P06_Size", P06_Size, "1..12 (60) positions, rings or members"},
		{"P06", "P06_Member", P06_Member, "multi geometries and collections of 1..3 members, one of 28 kinds at any place, also inside another collection"},
		{"P06", "P06_Same", P06_Same, "1..4 (6) positions, rings or members, any of them equal"},
		{"P06", "P06_Edit", P06_Edit, "one token removed, replaced (26 tokens), swapped or inserted in 7 geometries"},
		{"P06", "P06_Edit2", P06_Edit2, "thorough: two such edits"},
		{"P06", "P06_Margin", P06_Margin, "radius and margin of 1..7 (9) digits, leading or trailing zeros, both units"},
		{"P06", "P06_Big", P06_Big, "geometries of 2..257 and 1025 (2050) parts"},
		{"P08", "P08_Leaf", P08_Leaf, "two operands of 21 kinds, literal, selector of any declared type or variable, 21 operators"},
		{"P08", "P08_Op", P08_Op, "two operands of 8 types, any of 122 tokens as operator"},
		{"P08", "P08_Range", P08_Range, "ranges with ends of 8 kinds, direct or in a variable, 8 kinds of left operands, 6 operators"},
		{"P08", "P08_List", P08_List, "lists of 1..2 (3) elements of 11 kinds, direct or in a variable, 6 kinds of other operands, 6 operators"},
		{"P08", "P08_LongList", P08_LongList, "lists of 2..6 elements, one of them of any of 21 kinds, at any place"},
		{"P08", "P08_Nested", P08_Nested, "an operation as operand: 10 x 10 operators, operands of 8 types"},
		{"P08", "P08_NestedIn", P08_NestedIn, "the result of one or two of 6 operators over 5 kinds of operands against lists, ranges, geometries and selectors under 3 operators, either side"},
		{"P08", "P08_Deep", P08_Deep, "1..9 operations joined and nested, one of any type at any place"},
		{"P08", "P08_Paren", P08_Paren, "operands and operations below 0..7 (39) parentheses"},
		{"P08", "P08_Text", P08_Text, "parsed rules with two operands of 21 kinds and 10 operators"},
		{"P08", "P08_Single", P08_Single, "conditions without operator"},
		{"P08", "P08_Names", P08_Names, "two variables or declared selectors of 24 lengths up to 24 (1025) whose names differ in one of 9 ways, 5 pairs of types, 4 operators"},
		{"P08", "P08_Big", P08_Big, "lists, chains and nestings with one part of another type of 2..257 and 1025 (2050) parts"},
		{"P10", "P10_Literal", P10_Literal, "operands of 21 kinds, and 16 of many parts, in 24 places, failure at any write with 4 kinds of errors"},
		{"P10", "P10_Rule", P10_Rule, "8 rules that cover the grammar, failure at any write"},
		{"P10", "P10_Geometry", P10_Geometry, "geometries of 5 kinds and 1..11 positions, failure at any write"},
		{"P10", "P10_Calendar", P10_Calendar, "calendar items, lists and ranges, failure at any write"},
		{"P10", "P10_Scalar", P10_Scalar, "thorough: scalars, selectors and references with arbitrary digits, failure at any write"},
		{"P10", "P10_Clauses", P10_Clauses, "combinations of clauses, failure at any write"},
		{"P10", "P10_Selector", P10_Selector, "selectors with up to 5 device ids and 3 properties, failure at any write"},
		{"P10", "P10_Nest", P10_Nest, "operands of 21 kinds inside one (two) of 11 others, in 4 places, failure at any write"},
		{"P10", "P10_Errors", P10_Errors, "11 errors at any write of 3 rules"},
		{"P10", "P10_Big", P10_Big, "operands, failure at 10 places of 2..257 and 1025 (2050) parts"},
		{"P11", "P11_Pairs", P11_Pairs, "two tokens of 41 x 8 (41 x 41) kinds, cut anywhere, byte by byte, with empty reads, end with and after the last bytes"},
		{"P11", "P11_Bytes", P11_Bytes, "7 beginnings and 2 arbitrary bytes, delivered in any of these ways"},
		{"P11", "P11_Buffer", P11_Buffer, "two tokens at every place around 1 and 2 times the internal buffer length, after white space and after a long word"},
		{"P11", "P11_Long", P11_Long, "tokens of 6 kinds and 27 (90) lengths up to 2050 (4099)"},
		{"P11", "P11_Idle", P11_Idle, "two tokens of 41 x 5 (41 x 41) kinds, cut anywhere, up to 61 reads without bytes in a row"},
		{"P11", "P11_Error", P11_Error, "read errors after 13 texts, short and longer than the buffer, and an arbitrary byte"},
		{"P17", "P17_Bytes", P17_Bytes, "23 beginnings followed by 2 (3) arbitrary bytes, every mode, 2 (4) sets of white space"},
		{"P17", "P17_Pairs", P17_Pairs, "26 x 26 (x 26) tokens, every mode, 4 sets of white space, standard and own identifiers"},
		{"P17", "P17_Buffer", P17_Buffer, "tokens of 12 kinds at every place around the internal buffer length, one read and several"},
		{"P17", "P17_Far", P17_Far, "tokens of 26 kinds after up to 66000 characters or lines"},
		{"P17", "P17_Next", P17_Next, "5 calls of Scan, Next and Peek in any order on 25 x 25 (x 25) tokens"},
		{"P07", "P07_Rule", P07_Rule, "8 rules in canonical spelling"},
		{"P07", "P07_Edit", P07_Edit, "one token of these rules removed, replaced (60 tokens), swapped or inserted"},
		{"P07", "P07_Edit2", P07_Edit2, "thorough: two such edits (11 tokens)"},
		{"P07", "P07_Remove", P07_Remove, "up to 4 tokens and a further one removed, or up to 4 tokens repeated"},
		{"P07", "P07_Tokens", P07_Tokens, "any 2 (3) of 33 tokens after 23 beginnings"},
		{"P07", "P07_List", P07_List, "any 1..4 (5) elements out of 3 in 25 kinds of lists, repeated ones included"},
		{"P07", "P07_Same", P07_Same, "the same operand of 14 kinds several times around 13 operators, in groups, variables and beside other clauses"},
		{"P07", "P07_Byte", P07_Byte, "an arbitrary byte other than letters, digits, white space and 5 others anywhere in these rules"},
		{"P07", "P07_After", P07_After, "one of 30 characters and a further token after 12 complete rules"},
		{"P07", "P07_Zero", P07_Zero, "17 zero values, 5 counts, 6 durations in every clause"},
		{"P07", "P07_Big", P07_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P09", "P09_Init", P09_Init, "43 keywords and 22 operators, tables built in 60 map iteration orders"},
		{"P09", "P09_Words", P09_Words, "operands of 21 kinds, months, weekdays and units, tables built in 12 orders"},
		{"P09", "P09_Selector", P09_Selector, "2..4 device ids in 5 places, 14 (25) map iteration orders"},
		{"P09", "P09_Ids", P09_Ids, "2..9 device ids in 4 places, one or two of 7 lengths up to 65, 14 (25) map iteration orders"},
		{"P09", "P09_Check", P09_Check, "two operands of 8 types, lists and ranges, 10 operators, 14 (25) orders"},
		{"P09", "P09_Nested", P09_Nested, "nested operations of 10 x 10 operators, 14 (25) orders"},
		{"P09", "P09_History", P09_History, "21 texts, 1 (2) of 4 kinds of calls on any of them in between"},
		{"P09", "P09_Fresh", P09_Fresh, "operands of 21 kinds after operands of 21 kinds and 4 failures"},
		{"P09", "P09_Types", P09_Types, "two type checks with 9 selector types and 5 kinds of variables each, 6 operators"},
		{"P09", "P09_Renamed", P09_Renamed, "two rules about the same name (14 x 14) or number (23 x 23), the second also about another one"},
		{"P09", "P09_Errors", P09_Errors, "two failing texts of the same length, names of 1..40 (120) characters, each twice"},
		{"P09", "P09_Dicts", P09_Dicts, "two type checks, the selector of 9 types and the variable of 4 in 8 places, 4 operators, the same rule and dictionary or other ones"},
		{"P09", "P09_Big", P09_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P14", "P14_Rule", P14_Rule, "8 rules that cover the grammar, one or two nodes declined, Walk and Visit"},
		{"P14", "P14_Under", P14_Under, "walks from every node of 9 rules, one or two nodes declined"},
		{"P14", "P14_Place", P14_Place, "operands of 21 kinds, and 16 of many parts, in 24 places, one or two nodes declined"},
		{"P14", "P14_Clauses", P14_Clauses, "combinations of clauses, one or two nodes declined"},
		{"P14", "P14_Chain", P14_Chain, "chains of 2 (3) operators with a parenthesised operand, one or two nodes declined"},
		{"P14", "P14_Geometry", P14_Geometry, "multi geometries and collections of 1..3 (20) members, one or two nodes declined"},
		{"P14", "P14_Long", P14_Long, "1..12 (45) elements, properties, operators, variables and parentheses, one or two nodes declined"},
		{"P14", "P14_Nest", P14_Nest, "operands of 21 kinds inside one (two) of 11 others, in 4 places, one or two nodes declined"},
		{"P14", "P14_Big", P14_Big, "operands, one node declined of 2..257 and 1025 (2050) parts"},
		{"P16", "P16_Rule", P16_Rule, "8 rules that cover the grammar and 21 texts, all operations"},
		{"P16", "P16_Place", P16_Place, "operands of 21 kinds, and 16 of many parts, in 24 places, all operations"},
		{"P16", "P16_Literal", P16_Literal, "literals of 11 (15) kinds in every spelling, parsing"},
		{"P16", "P16_Calendar", P16_Calendar, "calendar literals and geometries, all operations"},
		{"P16", "P16_Bytes", P16_Bytes, "100 beginnings followed by an arbitrary byte, parsing"},
		{"P16", "P16_Check", P16_Check, "type checks of two operands of every kind, 10 operators"},
		{"P16", "P16_Distinct", P16_Distinct, "two parses of operands of 21 kinds, and 16 of many parts, in 24 places and of 8 rules"},
		{"P16", "P16_Nest", P16_Nest, "operands of 21 kinds inside two (three) of 11 others, in 4 places, all operations"},
		{"P16", "P16_Big", P16_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P12", "P12_Case", P12_Case, "8 rules with every keyword, one keyword in any letter case, or all in capitals"},
		{"P12", "P12_Token", P12_Token, "every keyword in any letter case"},
		{"P12", "P12_Layout", P12_Layout, "1..3 arbitrary white space characters, comments or runs of up to 64 (2049) of them at any place of these rules"},
		{"P12", "P12_Comment", P12_Comment, "comments of 3 (4) arbitrary bytes at 4 places of these rules"},
		{"P12", "P12_Everywhere", P12_Everywhere, "the same at all places, before or after every punctuation"},
		{"P12", "P12_Tight", P12_Tight, "no white space at any one or all places that need none"},
		{"P12", "P12_Word", P12_Word, "30 keywords with an arbitrary letter, digit or underscore before or behind, in 6 places"},
		{"P12", "P12_Words", P12_Words, "two keywords joined in 4 ways"},
		{"P12", "P12_Letter", P12_Letter, "keywords with 8 letters and digits outside ASCII before or behind, in 6 places"},
		{"P12", "P12_Like", P12_Like, "keywords with one letter replaced by one of 2..5 outside ASCII that looks like it, in 6 places"},
		{"P12", "P12_Longer", P12_Longer, "one keyword of these rules longer or shorter by one arbitrary character"},
		{"P12", "P12_Long", P12_Long, "words of 24 lengths up to 1038 that start with a keyword"},
		{"P12", "P12_LongBuffer", P12_LongBuffer, "thorough: operators at 16 places around the end of the internal buffer"},
		{"P13", "P13_Clauses", P13_Clauses, "combinations of clauses, 0..3 variables, arbitrary digits"},
		{"P13", "P13_Names", P13_Names, "2 (3) variables with names of 4 shapes and arbitrary characters"},
		{"P13", "P13_LongName", P13_LongName, "names of 43 lengths up to 3000"},
		{"P13", "P13_Word", P13_Word, "any word of 1..3 letters, digits and underscores as variable"},
		{"P13", "P13_Ref", P13_Ref, "references with arbitrary names in 24 places"},
		{"P13", "P13_RefValue", P13_RefValue, "1..3 variables, one of them a reference or a list of references"},
		{"P13", "P13_Value", P13_Value, "3 variables, one of them any literal of 17 kinds"},
		{"P13", "P13_Many", P13_Many, "1..12 (65) variables, two with the same name or names of other letter case"},
		{"P13", "P13_Count", P13_Count, "counts of 1..18 arbitrary digits"},
		{"P13", "P13_BigCount", P13_BigCount, "10 other counts"},
		{"P13", "P13_Duration", P13_Duration, "durations of every spelling, arbitrary digits, as interval and delay"},
		{"P13", "P13_Kind", P13_Kind, "45 values as count, interval and delay"},
		{"P13", "P13_Edit", P13_Edit, "one token removed, replaced (18 tokens), swapped or inserted in 5 rules"},
		{"P13", "P13_Edit2", P13_Edit2, "two such edits in 2 (5) rules, 10 (18) tokens"},
		{"P13", "P13_Tokens", P13_Tokens, "any 1..3 (4) of 18 tokens after 10 beginnings"},
		{"P13", "P13_Order", P13_Order, "1..4 of 12 clauses in any order"},
		{"P13", "P13_SetVar", P13_SetVar, "1..3 (4) assignments with arbitrary names of 1..3 characters through SetVar"},
		{"P13", "P13_Big", P13_Big, "variables of 2..257 and 1025 (2050) parts"},
		{"P15", "P15_Rule", P15_Rule, "the nodes of 13 rules, one of 7 kinds of white space at any place"},
		{"P15", "P15_Between", P15_Between, "the nodes of these rules, one of 3 kinds of white space next to any bracket or separator"},
		{"P15", "P15_Pad", P15_Pad, "the nodes of these rules after 0..1024 (1094) characters"},
		{"P15", "P15_Far", P15_Far, "the nodes of these rules after up to 66000 characters"},
		{"P15", "P15_Literal", P15_Literal, "operands of 14 kinds in 24 places"},
		{"P15", "P15_Sign", P15_Sign, "two numbers of 4 kinds with any sign, white space behind it, in 6 places"},
		{"P15", "P15_Error", P15_Error, "100 beginnings followed by an arbitrary byte and 3 endings (2 arbitrary bytes)"},
		{"P15", "P15_Cut", P15_Cut, "8 rules cut off anywhere, 8 rules with one of 9 tokens removed, replaced, swapped or inserted"},
		{"P15", "P15_Long", P15_Long, "errors around 1 and 2 times the internal buffer length, and after up to 9000 characters"},
		{"P15", "P15_Big", P15_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P18", "P18_Name", P18_Name, "any name of 1..4 letters, digits and underscores, in 5 places"},
		{"P18", "P18_LongName", P18_LongName, "names of 22 lengths up to 2049 and of letters outside ASCII"},
		{"P18", "P18_Devices", P18_Devices, "0..5 device ids with arbitrary characters, up to 2 wildcards at any place"},
		{"P18", "P18_Content", P18_Content, "device ids with up to 3 arbitrary characters, escapes and characters outside ASCII"},
		{"P18", "P18_Quotes", P18_Quotes, "17 x 17 device ids with quotes, comments, brackets and spaces"},
		{"P18", "P18_LongId", P18_LongId, "device ids of 22 lengths up to 2049"},
		{"P18", "P18_Many", P18_Many, "1..12 (80) device ids and 1..24 (160) properties"},
		{"P18", "P18_Same", P18_Same, "2..4 properties, any of them equal"},
		{"P18", "P18_Props", P18_Props, "1..3 (4) properties, one of any of 21 kinds"},
		{"P18", "P18_PropPair", P18_PropPair, "two properties of any of 21 kinds"},
		{"P18", "P18_Place", P18_Place, "selectors with arbitrary names, ids and properties in 24 places"},
		{"P18", "P18_PlaceMany", P18_PlaceMany, "selectors of several ids and properties in 24 places, in lists and parentheses"},
		{"P18", "P18_Edit", P18_Edit, "one token removed, replaced (17 tokens), swapped or inserted in 4 conditions"},
		{"P18", "P18_Edit2", P18_Edit2, "two such edits in 1 (4) conditions, 8 (17) tokens"},
		{"P18", "P18_Tokens", P18_Tokens, "any 0..3 (4) of 17 tokens after 10 beginnings"},
		{"P18", "P18_Byte", P18_Byte, "an arbitrary byte at 6 places of a device list"},
		{"P18", "P18_Inner", P18_Inner, "selectors as last property, twice, behind 0..4 others, with 1..9 (33) properties each"},
		{"P18", "P18_Big", P18_Big, "device ids and properties of 2..257 and 1025 (2050) parts"},
		{"P19", "P19_Pair", P19_Pair, "lists of two elements of any of 21 kinds in 4 places"},
		{"P19", "P19_One", P19_One, "lists of one element of any of 21 kinds in 4 places"},
		{"P19", "P19_Odd", P19_Odd, "lists of 3..7 (22) elements, one of them of any of 21 kinds"},
		{"P19", "P19_Alike", P19_Alike, "lists of 2 and 4 numbers of 12 kinds"},
		{"P19", "P19_Value", P19_Value, "lists of 1..3 elements of 11 kinds with arbitrary values, in 4 places"},
		{"P19", "P19_Range", P19_Range, "ranges with ends of any two of 21 kinds in 4 places"},
		{"P19", "P19_RangeValue", P19_RangeValue, "ranges with arbitrary values, in 4 places"},
		{"P19", "P19_NoElement", P19_NoElement, "lists of 1..4 operands of 11 kinds, one in parentheses, brackets, braces or an operation, or missing"},
		{"P19", "P19_Same", P19_Same, "lists of 2..4 (5) elements and ranges, any of the parts equal"},
		{"P19", "P19_Wide", P19_Wide, "ranges and lists of two numbers of 2, 4 or 7 arbitrary digits of 8 kinds with any sign, in 4 places"},
		{"P19", "P19_RangeList", P19_RangeList, "lists of ranges and ranges as operands of 21 operators"},
		{"P19", "P19_Edit", P19_Edit, "one token removed, replaced (16 tokens), swapped or inserted in 7 conditions"},
		{"P19", "P19_Edit2", P19_Edit2, "two such edits in 1 (7) conditions, 8 (16) tokens"},
		{"P19", "P19_Tokens", P19_Tokens, "any 0..2 (3) of 16 tokens after 11 beginnings, closed or not"},
		{"P19", "P19_Big", P19_Big, "lists of 2..257 and 1025 (2050) elements, one of another kind"},
		{"P21", "P21_Bytes", P21_Bytes, "23 beginnings followed by 2 (3) arbitrary bytes, every mode, 2 (4) sets of white space"},
		{"P21", "P21_Pairs", P21_Pairs, "26 x 26 (x 26) tokens, every mode, 4 sets of white space, standard and 3 own kinds of identifiers"},
		{"P21", "P21_Escape", P21_Escape, "escape sequences in characters, strings and raw strings, any character and up to 9 digits, complete or not"},
		{"P21", "P21_Number", P21_Number, "4 (5) characters out of 19 of numbers after 6 beginnings, every mode"},
		{"P21", "P21_Comment", P21_Comment, "comments of 3 (4) characters out of 9 and 3 endings, every mode"},
		{"P21", "P21_Utf", P21_Utf, "2..4 bytes outside of ASCII and at the limits of UTF-8 after 8 beginnings"},
		{"P21", "P21_Calls", P21_Calls, "5 calls of Scan, Next and Peek in any order on 26 x 26 (x 26) tokens"},
		{"P21", "P21_Reader", P21_Reader, "8 (26) tokens with 3 (6) endings, short and at the end of the internal buffer, delivered in 4 ways, read errors"},
		{"P21", "P21_Again", P21_Again, "a scanner used for two texts"},
		{"P21", "P21_Names", P21_Names, "names of all kinds and places"},
		{"P21", "P21_Big", P21_Big, "texts of 2..257 and 1025 (2050) tokens"},
		{"P22", "P22_Rule", P22_Rule, "8 rules that cover the grammar"},
		{"P22", "P22_Place", P22_Place, "operands of 21 kinds, and 16 of many parts, in 24 places"},
		{"P22", "P22_Literal", P22_Literal, "operands of every kind with arbitrary values"},
		{"P22", "P22_Clauses", P22_Clauses, "0..3 variables, every combination of clauses"},
		{"P22", "P22_Op", P22_Op, "two operands of 21 kinds, 10 operators"},
		{"P22", "P22_Nest", P22_Nest, "operands of 21 kinds inside one (two) of 11 others, in 4 places"},
		{"P22", "P22_Changed", P22_Changed, "two rules of operands of 21 and 37 kinds, the one turned into the other after use"},
		{"P22", "P22_Inside", P22_Inside, "any part of a rule replaced by an operand of 21 kinds after use"},
		{"P22", "P22_Missing", P22_Missing, "one required part of a rule missing, 8 rules and operands of 21 kinds in 24 places"},
		{"P22", "P22_Empty", P22_Empty, "selectors with and without the current device in 6 places, empty lists and none"},
		{"P22", "P22_Shared", P22_Shared, "nodes of 23 kinds that stand in 2 or 3 of 8 places, 10 operators"},
		{"P22", "P22_Big", P22_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P23", "P23_Calls", P23_Calls, "5 (6) calls of Scan, Reset and Unwind in any order over 3 tokens, one of 63 kinds, a number, string or word"},
		{"P23", "P23_Pairs", P23_Pairs, "3 (4) such calls over two tokens, both of any kind"},
		{"P23", "P23_Long", P23_Long, "texts of 2..257 and 1025 (2050) tokens, one or all put back"},
		{"P24", "P24_Bytes", P24_Bytes, "100 beginnings followed by an arbitrary byte and 3 endings (2 arbitrary bytes), followed by one of 14 texts or behind one of 4 kinds of white space"},
		{"P24", "P24_Cut", P24_Cut, "8 rules cut off anywhere with 7 endings, likewise"},
		{"P24", "P24_Edit", P24_Edit, "8 rules with one of 15 tokens removed, replaced, swapped or inserted, likewise"},
		{"P24", "P24_Tokens", P24_Tokens, "100 beginnings followed by any one (two) of the tokens with a fixed text, likewise"},
		{"P24", "P24_Long", P24_Long, "errors after 7 (60) lengths up to 4100 characters, likewise"},
		{"P25", "P25_Leaf", P25_Leaf, "two operands of any of 21 kinds, direct or in variables, 9 (21) operators"},
		{"P25", "P25_Op", P25_Op, "two operands of 8 kinds, any of 122 tokens as operator"},
		{"P25", "P25_List", P25_List, "lists of 1..2 elements and ranges of all kinds"},
		{"P25", "P25_Literal", P25_Literal, "operands of 14 kinds with arbitrary values in parsed rules"},
		{"P25", "P25_Nested", P25_Nested, "two operations of all types, one operator between them"},
		{"P25", "P25_Deep", P25_Deep, "up to two wrong operations anywhere in a chain of 3..9"},
		{"P25", "P25_Big", P25_Big, "operands of 2..257 and 1025 (2050) parts"},
		{"P20", "P20_Text", P20_Text, "two tokens (and a third of 12 kinds) of 63 kinds, numbers, strings and words with arbitrary characters, joined in 4 ways"},
		{"P20", "P20_Not", P20_Not, "not before any of these tokens"},
		{"P20", "P20_Byte", P20_Byte, "an arbitrary ASCII character between two words"},
		{"P20", "P20_Rune", P20_Rune, "any character of two bytes, those of three and four bytes in some 160 (430) blocks of 64, between two words or next to one"},
		{"P20", "P20_Spelling", P20_Spelling, "the spelling of any of 122 kinds"},
		{"P20", "P20_Operators", P20_Operators, "precedence and spelling of any of 122 kinds"},
		{"P20", "P20_Pair", P20_Pair, "any two of 28 punctuation characters in a row"},
		{"P20", "P20_Big", P20_Big, "2..257 and 1025 (2050) tokens, one of them of any of 63 kinds"},
	}
}

import json
B="src/main/java/com/github/sidhant92/boolparser/"
def P(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":[B+f for f in files],"mechanism":[{"name":n,"where":B+w} for n,w in mech],"observe_at":obs or ["the Try returned by the boolean evaluator"],"hook_needed":None}
    if state: a["state"]=state
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
BE="application/BooleanExpressionEvaluator.java"; AE="application/ArithmeticExpressionEvaluator.java"; VU="util/ValueUtils.java"
LI="parser/antlr/BooleanFilterListener.java"; BP="parser/antlr/BoolParser.java"; CP="parser/antlr/CachedBoolParser.java"; OS="operator/OperatorService.java"; CD="constant/ContainerDataType.java"
FS="function/FunctionEvaluatorService.java"
L=[
P("C01","Comparison operators follow one total order per data type",
 "For two values of one type the six comparison operators agree with a single total order: exactly one of <, =, > is true, >= and <= are its unions and != is the negation of =, whether a value comes from a literal or from the data. Numbers are ordered by exact numeric value whatever their representation (int, long, decimal of any scale, float or double by its decimal text), strings by UTF-16 code unit, versions component by component as numbers with missing components counting as zero (and qualifiers such as rc or snapshot before the release they belong to, as Maven orders them), dates and date-times chronologically whether held as temporal objects or as their standard text. Booleans only support = and !=, ordering them is a failure.",
 ["inputs"],"all pairs of values of one data type, all six operators, literal or field on either side",
 "Tests compare a handful of pairs per type; they never check that the six operators are consistent with each other, nor values at the int/long/double precision limits, decimals differing only in scale, or versions of different length.",
 ["operator/comparison/EqualsOperator.java","operator/comparison/GreaterThanOperator.java","operator/comparison/NumericOperator.java","datatype/DecimalDataType.java","datatype/LongDataType.java",VU],
 [("common data type of the operands, then compareTo","operator/comparison/EqualsOperator.java"),("getDataType",VU)]),
P("C02","Mixed-type comparison converts to one common type or fails",
 "= and != compare both operands as the higher of their two types in the order string, date-time, date, decimal, long, int, version, boolean; the ordering operators do the same except that a number or version against a non-number is compared in the numeric operand's type. If an operand cannot be read exactly as that type the evaluation is a Failure, never a quiet true or false, and values without a type of their own count as their text. Exchanging the operands mirrors the outcome: x < y and y > x, and x = y and y = x, always agree.",
 ["inputs"],"all pairs of values of different kinds and all six operators",
 "Tests cover a few mixed pairs (string against integer and the like); the full matrix of kinds, unreadable texts, near-integers and the mirror symmetry are never exercised.",
 ["operator/comparison/NumericOperator.java","operator/comparison/EqualsOperator.java",CD,VU,"constant/DataType.java"],
 [("getComparableDataType and validate","operator/comparison/NumericOperator.java"),("conversion failure becomes InvalidDataType",CD)]),
P("C03","AND, OR and NOT are truth-functional and short-circuit left to right",
 "AND, OR and NOT over evaluated operands give exactly the truth-table result for every nesting. Operands are evaluated left to right and an AND whose left operand is false, or an OR whose left operand is true, is decided without its right operand: nothing the right operand refers to is read from the data, and its missing fields or type errors do not matter. An operand that must be evaluated and fails makes the whole expression that same failure, also under NOT.",
 ["inputs","programs"],"all nestings of AND, OR, NOT (and their aliases) over operands that are true, false or failing",
 "Tests use a few two- or three-operand combinations with all fields present; they cannot see which operands were evaluated nor deep nestings mixing failures.",
 [BE,LI],[("evaluateBooleanNode",BE)],["the Try returned by the boolean evaluator","reads made on the caller's data map"]),
P("C04","The parse tree is exactly the expression's structure",
 "A well-formed expression parses to the one tree its grammar prescribes: each operator, function, list, range and membership test holds exactly its own operands in the written order, with parentheses grouping first, then NOT and comparison, then sign, ^, /, *, %, +, - and finally AND and OR, which share one level; operators of one level associate to the left. A comparison also records the data type of its literal (the right one if there is one, else the left one, else string). No operand is lost, duplicated, reordered or taken from another part of the expression.",
 ["inputs","programs"],"all well-formed expressions, of any size and nesting",
 "Tests parse some sixty fixed expressions; trees are built from shared intermediate state, so only particular nestings and list shapes go wrong.",
 [LI,BP,"parser/antlr/BooleanExpressionParser.java"],[("one mapped node per parse node",LI)],["the Node tree returned by the parser"]),
P("C05","White space, keyword case, aliases and extra parentheses do not matter",
 "Any amount of space, tab, newline or form feed between tokens, writing a keyword or function name in all upper or all lower case, and writing && for AND or || for OR leave the parse tree unchanged. Wrapping any complete operand, list item or whole expression in further parentheses leaves the result of evaluation unchanged. Inside quotes every character is kept.",
 ["inputs","programs"],"all expressions and all such rewritings of them",
 "Tests write almost every expression in one layout; the rewritings of an expression form an unbounded family.",
 [LI,BP,"parser/antlr/BooleanExpressionLexer.java"],[("skipped white space token and keyword rules","parser/antlr/BooleanExpressionLexer.java"),("parenthesised expressions map to their content",LI)],["the Node tree returned by the parser","the Try returned by the evaluators"]),
P("C06","Literals keep their value and type exactly",
 "A literal denotes exactly the written value and type: whole numbers are int if they fit in 32 bits and otherwise long, and beyond 64 bits are rejected; decimals keep every digit; quoted text is everything between the quotes unchanged; two or more dots in digits make a version, true and false booleans, YYYY-MM-DD and YYYY-MM-DD HH:MM:SS dates and date-times, and one with a month, day or time that cannot be is rejected (days up to 31 of a shorter month mean its last day, 24:00:00 the next midnight). The same holds alone, in comparisons, in lists and in function arguments, and evaluating a field holding that same value equals the literal.",
 ["inputs"],"all literals of every type in every position",
 "Tests use small literals; the boundaries of int and long, long decimals, leading zeros, quotes of the other kind, non-ASCII text and multi-digit versions are not reached.",
 [LI,VU],[("getDataType and convertValue",LI),("convertValue",VU)],["the Node tree returned by the parser","the Try returned by the arithmetic evaluator"]),
P("C07","Malformed expressions are rejected, nothing is dropped or invented",
 "An expression that is not derivable from the grammar yields a Failure from the parser and both evaluators, never a result computed from part of the text: stray or repeated tokens, unknown characters, unbalanced quotes, trailing text, missing operands without a default field, empty lists or boolean connectives as list items. The single exception left open is one missing closing parenthesis at the very end. Conversely no well-formed expression is rejected.",
 ["inputs"],"all texts",
 "Tests contain half a dozen invalid expressions; near-misses of valid expressions are an unbounded set, and ANTLR's default recovery silently repairs many of them.",
 [BP,LI],[("strict error strategy and error listener",BP)],["the Try returned by the parser and the evaluators"]),
P("C08","Every call returns a Try: no exception, no null",
 "For every text, data map and default field (of ordinary length and nesting) the parser and both evaluators return either a Success with a non-null value or a Failure; they never throw and never return null. This includes arbitrary garbage text, null and non-finite values, nulls inside collections, huge exponents, arrays, and objects of unknown classes in the data.",
 ["inputs"],"all texts and all data maps",
 "Tests only pass sensible data; an exception raised outside the wrapped region or a null result appears only for unusual combinations.",
 [BP,BE,AE,CP],[("Try.of around parsing, Try.map around evaluation",BP)],["the value returned or thrown by the public entry points"]),
P("C09","Field references resolve exactly, and a missing one is reported as such",
 "A field reference yields the value stored under that name, and a dotted reference the value reached through nested maps one segment at a time; it never yields a value stored elsewhere. If any segment is absent, null or not a map, every construct that needs the value (comparison on either side, range, membership, containment, boolean position, arithmetic operand, function argument, list item) fails with the data-not-found failure, unless the test is against null or the operand is skipped by short-circuiting.",
 ["inputs"],"all data maps, all references, all constructs that take a field",
 "Tests look up present fields and miss one or two on the left of a comparison; the construct by position by path-shape product is not covered.",
 [VU,BE,AE],[("getValueFromMap",VU),("DataNotFoundException at each use",BE)]),
P("C10","Null checks test exactly absence",
 "field = null is true exactly when the reference resolves to nothing (absent, null, or a path through a missing or non-map value) and field != null is its negation; null may stand on either side and in any letter case. Such a check never fails for want of data, and no present value, be it the text 'null', an empty string, zero, false or an empty list, counts as null. A quoted 'null' is ordinary text.",
 ["inputs"],"all data maps and references, both operators, both sides",
 "Tests cover one present and one absent field; the side, nesting and falsy or null-looking values are not crossed.",
 [BE,"domain/logical/ComparisonNode.java","domain/FieldNode.java"],[("evaluateNullCheck",BE)]),
P("C11","IN is the disjunction of equalities, NOT IN its negation",
 "field IN (e1, ..., en) gives what field = e1 OR ... OR field = en gives, tried from left to right up to the first match, where an item that is a collection stands for its elements; NOT IN is the negation and fails exactly when IN fails. All items are evaluated first, so a missing field among them is a data-not-found failure. Items may be literals, fields, arithmetic, functions or bracketed boolean tests.",
 ["inputs"],"all field values and item lists",
 "Tests use homogeneous literal lists; mixed representations, collections among the items, computed items and failures before or after the match are not covered.",
 [BE,"operator/comparison/InOperator.java",VU],[("evaluateInToken",BE),("anyMatch of equality","operator/comparison/InOperator.java")]),
P("C12","CONTAINS_ANY and CONTAINS_ALL are the set quantifiers",
 "For a field holding any collection or object array, CONTAINS_ALL is true exactly when every listed item occurs among its elements and CONTAINS_ANY exactly when at least one does, irrespective of order, duplicates, nulls (which match nothing), sizes and the kind of collection; items that are collections stand for their elements. An element and an item match when their texts are equal. Items of differing types, or a field that is no collection, are a Failure.",
 ["inputs"],"all collections, arrays and item lists",
 "Tests use lists of two or three small strings or integers; other collection classes, empty collections, duplicates and computed items are not covered.",
 [BE,"operator/comparison/ContainsAllOperator.java","operator/comparison/ContainsAnyOperator.java",CD],[("evaluateArrayToken",BE)]),
P("C13","A range is the conjunction of its two inclusive bounds",
 "field lo TO hi is true exactly when field >= lo and field <= hi, exactly as those comparisons are defined, both bounds included, for whole and decimal bounds of any size; an inverted range is false. A field value that cannot be compared with a bound is a Failure and a missing field the data-not-found failure.",
 ["inputs"],"all field values and bounds",
 "Tests check a few interior and exterior points of small ranges; boundaries, mixed int/long/decimal bounds and precision limits are not covered.",
 [BE,LI],[("evaluateNumericRangeToken",BE),("mapToExpressionContext",LI)]),
P("C14","Addition, subtraction, multiplication and negation are exact",
 "+, -, * and unary minus on int, long, decimal and floating values give the exact mathematical result (floating values counting as their decimal text): nothing wraps, rounds or loses digits. Whole operands give an int when the result fits and otherwise a long, except that subtracting with or negating a long stays long, and a result beyond 64 bits is a Failure; any decimal or floating operand makes the result a decimal. Operands that are no numbers are a Failure, except for the text concatenation of +.",
 ["inputs"],"all pairs of numbers and nestings of the operators",
 "Tests add small numbers; wrap-around, int/long promotion, sign and precision loss appear only at specific magnitudes.",
 ["operator/arithmetic/AddOperator.java","operator/arithmetic/SubtractOperator.java","operator/arithmetic/MultiplyOperator.java","operator/arithmetic/UnaryOperator.java",AE,VU],
 [("exact long arithmetic and BigDecimal","operator/arithmetic/AddOperator.java"),("castLong",VU)],["the Try returned by the arithmetic evaluator"]),
P("C15","Division, modulus and exponent are well defined",
 "/ gives the quotient truncated toward zero to three decimals, as a whole number (int, else long, else decimal) when it has no fraction; % of two whole numbers gives the remainder with the sign of the dividend, long if an operand is long, and fails for decimals; dividing or taking a remainder by zero is a Failure. ^ of whole numbers (the exponent at most 2^53) is exact whenever the result is representable as a double, as every whole result up to 2^53 is, and an int when it fits; a result beyond every double, zero to a negative power, or a negative number to a fractional one, is a Failure, and any other power is correct to nine significant digits.",
 ["inputs"],"all operand pairs",
 "Tests divide a few small numbers; signs, scale, zero divisors of every representation and large operands are not covered.",
 ["operator/arithmetic/DivideOperator.java","operator/arithmetic/ModulusOperator.java","operator/arithmetic/ExponentOperator.java",VU],
 [("scale 3, round down","operator/arithmetic/DivideOperator.java"),("castDecimal",VU)],["the Try returned by the arithmetic evaluator"]),
P("C16","Aggregate functions compute their definition exactly",
 "MIN, MAX and SUM are exact; AVG and MEAN are the exact sum over the count truncated to three decimals; MEDIAN is the middle value, or half the sum of the two middle values truncated to two decimals; MODE is the number that first reaches the highest number of occurrences, equal numbers counting together. The result does not depend on whether the values are written as arguments, come from fields or from one or several collections, nor (except for MODE) on their order, it is a whole number (int, else long) whenever it has no fraction and fits, and a SUM of whole numbers beyond 64 bits, an empty list or a non-number is a Failure.",
 ["inputs"],"all lists of numbers in all representations and groupings",
 "Tests use three to five small numbers each; ties, even and odd sizes, mixed representations, big values and collection arguments are not crossed.",
 ["function/arithmetic/MinFunction.java","function/arithmetic/MaxFunction.java","function/arithmetic/SumFunction.java","function/arithmetic/AvgFunction.java","function/arithmetic/MedianFunction.java","function/arithmetic/ModeFunction.java",FS,AE],
 [("mapToEvaluatedNodes",VU),("evaluateArithmeticFunction",FS)],["the Try returned by the arithmetic evaluator"]),
P("C17","LEN, INT and DAYS_ELAPSED compute their definition",
 "LEN of one text is its number of UTF-16 units, LEN of one collection its number of elements whatever they are, and otherwise LEN is the number of arguments with collections counted by their elements. INT of one number drops the fraction toward zero and keeps every other digit, as an int, long or decimal by size. DAYS_ELAPSED of one date (temporal object, literal or ISO text) is the signed number of calendar days from it to today; other arguments of INT and DAYS_ELAPSED are a Failure.",
 ["inputs"],"all arguments of the three functions",
 "Tests use one or two values each; supplementary characters, single-element and empty collections, negative and huge decimals, leap days and future dates are not covered.",
 ["function/arithmetic/LenFunction.java","function/arithmetic/IntFunction.java","function/arithmetic/DaysElapsedFunction.java",AE],
 [("evaluateArithmeticFunctionToken",AE)],["the Try returned by the arithmetic evaluator"]),
P("C18","Arithmetic means the same inside boolean expressions",
 "An arithmetic subexpression used as a comparison operand, list item or containment item stands for exactly the value (and type) the arithmetic evaluator computes for it on the same data: replacing it by a field holding that value changes nothing. If its evaluation fails, the boolean expression fails, with data-not-found if that was the cause. A boolean subexpression used as a comparison operand stands for its truth value.",
 ["inputs","programs"],"all arithmetic expressions in all positions of boolean expressions",
 "Tests embed a few sums and functions in comparisons; nestings, both sides, list items and failure propagation are not crossed.",
 [BE,AE],[("getValue and resolveArrayElements",BE)]),
P("C19","The caching parser is observationally the plain parser",
 "For every sequence of calls and every cache size, including zero and sizes that force eviction, a caching parser and evaluators built on it return for each expression and default field exactly what a plain parser and evaluators built on it return: the same tree, value or failure. Expressions that differ in any character, or only in their default field, are never confused, and failed parses stay failures.",
 ["histories","configurations"],"all call sequences, all cache sizes",
 "Tests repeat one expression; confusion needs particular pairs of keys in one history, and staleness needs eviction or reuse after evaluation.",
 [CP,BP],[("cache keyed by expression and default field",CP)],["the Try returned by the caching parser"],[{"name":"cache","meaning":"parsed trees by expression and default field","where":B+CP}]),
P("C20","Evaluation is a pure function of expression, default field and data",
 "The outcome of a call depends only on the expression, the default field, the current contents of the data map (and today's date for DAYS_ELAPSED): never on earlier calls, on which instance is used, on iteration order or class of the map, on the platform's default locale or time zone (other than for which day today is), nor on other instances being created. No call changes the data map, any value inside it, or a tree handed out by the parser.",
 ["histories"],"all call sequences on shared instances, with changing data and interleaved failures",
 "Each test makes one or two calls on a fresh fixture; residue of earlier calls or in-place changes to caller data would not be noticed.",
 [BE,AE,CP,"operator/OperatorFactory.java","function/FunctionFactory.java","datatype/DataTypeFactory.java","function/arithmetic/MedianFunction.java","function/arithmetic/ModeFunction.java"],
 [("stateless evaluators, operators and functions",BE)],["the Try returned by the evaluators","the caller's data after the call"],[{"name":"factories","meaning":"static registries of operators, functions and data types","where":B+"operator/OperatorFactory.java"}]),
P("C21","Parsers and evaluators can be shared between threads",
 "When threads concurrently call shared parsers (plain or caching) and shared evaluators, or construct new ones meanwhile, every call returns exactly the outcome it has when made alone, under every interleaving of their data reads and parsing. No call is lost, blocked forever or mixed with the data, expression or default field of another.",
 ["schedules","histories"],"all interleavings of concurrent calls on shared instances",
 "All tests are single-threaded; per-call state kept in shared fields only misbehaves under specific interleavings.",
 [BP,CP,BE,AE,"operator/OperatorFactory.java","function/FunctionFactory.java","datatype/DataTypeFactory.java"],
 [("per-call lexer, parser and listener",BP),("thread-safe cache",CP)],["the Try returned to each thread"]),
P("C22","Expressions of the wrong kind fail instead of giving an answer",
 "The boolean evaluator never turns a non-boolean into true or false: an expression, operand of AND/OR/NOT or field in boolean position that is a number, text, date, version, collection or arithmetic result is a Failure (text in boolean position names a field, which must hold a boolean). The arithmetic evaluator never returns a value for a comparison, connective, range, membership or containment test, and arithmetic operators and numeric functions never accept text, dates, booleans, versions or collections as numbers.",
 ["inputs","programs"],"all expressions and operand kinds in all positions",
 "Tests check two or three wrong-kind cases; the position by kind matrix is not covered, and the code used to answer false for some of them.",
 [BE,AE,OS,FS],[("default branches raising UnsupportedToken",BE),("allowed data types",OS)]),
P("C23","The default field stands in exactly where an operand is left out",
 "With a non-blank default field, an expression with an omitted operand means the same as the expression with that field name written in its place; operands that are written are never affected. Each call uses its own default field, and with no or a blank default field an omitted operand is a Failure.",
 ["inputs","histories"],"all expressions with omitted operands and all default fields",
 "Tests cover one or two simple comparisons; omission on the right, inside connectives and NOT, and explicit fields alongside are not covered.",
 [LI,BE,BP],[("getField and mapTypesExpressionContextField",LI)],["the Node tree returned by the parser","the Try returned by the boolean evaluator"]),
P("C24","Plus concatenates text in operand order",
 "If an operand of + is a string, boolean or version (or an object without a type of its own) and neither is a date or date-time, or text in the form of one, the result is the string of the left operand's text followed by the right operand's text, with numbers in their plain Java text and decimals keeping their scale. Nothing is trimmed, parsed or reordered, texts that look like numbers are still concatenated, and chains apply from left to right.",
 ["inputs"],"all operand pairs with a textual operand",
 "Tests concatenate two simple words; numeric-looking text, decimals with trailing zeros, empty text and three-operand chains are not covered.",
 ["operator/arithmetic/AddOperator.java",AE],[("string types take precedence","operator/arithmetic/AddOperator.java")],["the Try returned by the arithmetic evaluator"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L:
    jsonschema.validate(p,s)
    print(p['id'],len(p['statement']), p['statement'].count('. ')+1)

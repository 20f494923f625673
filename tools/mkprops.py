"""Writes properties.jsonl (the committed list) from the table below."""
import json, pathlib
M="pycep/main.py"; T="pycep/transformer.py"; L="pycep/bicep.lark"; U="pycep/utils.py"; V="pycep/validator.py"; MO="pycep/models.py"
D="pycep/rules/decorators.py"; F="pycep/rules/functions.py"; TY="pycep/typing.py"; DOC="docs/capabilities.md"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PARSE=["BicepParser.parse(...) result"]
p("C01","A parse depends only on its own input, never on earlier calls",
 "What parse and create_tree return for a document (or the error they raise) is determined by that document and the parser's line-number option alone: it never depends on which documents, valid or rejected, the same or another parser instance handled before, nor on how often, nor on earlier calls that an exception (an interrupt, lack of memory) cut short. File input is read afresh on every call. A result handed out earlier is never changed by later calls, and a caller modifying a result never affects any later result.",
 ["histories"],"all sequences of parse/create_tree/failing calls over several parser instances, documents, files being rewritten and results being modified in between",
 "Tests parse one document per session-wide parser and compare once; no test interleaves failing parses, repeated documents, rewritten files, mutated results or several instances.",
 [M,T],[("a fresh transformer per parse call","pycep/main.py BicepParser.parse"),("collecting state lives on the transformer instance","pycep/transformer.py BicepToJson.__init__")],PARSE,
 [("imports","imports seen in this document","pycep/transformer.py BicepToJson"),("child_resources","child resources seen in this document","pycep/transformer.py BicepToJson")])
p("C02","Concurrent parses with one parser do not influence each other",
 "When several threads use the same parser at the same time, under any interleaving each call returns (or raises) exactly what it would have when run alone.",
 ["schedules","inputs"],"all interleavings of two or more parse/create_tree calls on shared parser instances, on any documents",
 "The suite is single-threaded; no test ever has two parses in flight.",
 [M,T],[("per-call transformer, shared Lark object only read","pycep/main.py BicepParser.parse")],PARSE)
p("C03","File input, text input and create_tree follow one argument contract",
 "Parsing a file gives exactly the result (or kind of error) of parsing its UTF-8 content as text (line breaks normalised to LF), including empty files and non-ASCII content, and leaves the file unchanged; text and file_path are keyword-only, and giving both or none raises TypeError, also for empty text. A missing or unreadable file raises the operating system's error, and when a file is refused for an unbalanced multi-line string the error names the file.",
 ["inputs","configurations"],"all documents, file names, path spellings, and argument combinations of parse and create_tree",
 "Tests call parse(text=...) almost everywhere, with one file and ASCII content; argument misuse is tested for one combination each.",
 [M,V],[("argument checks and file reading","pycep/main.py BicepParser._create_tree"),("balance check","pycep/validator.py")],["BicepParser.parse","BicepParser.create_tree"])
p("C04","Every declaration is reported once, under its kind, name and source order",
 "Every top-level declaration of a document appears in the result under the section of its kind and its name, with exactly the attributes it states; nothing else appears, and a section exists only when the document has such a declaration. Entries keep source order within a section, the last of several same-named declarations of a kind wins, and the scope is resourceGroup unless the document sets it.",
 ["inputs"],"all documents made of any number and mix of metadata, targetScope, import, extension, param, var, output, resource, module, type and func declarations, names including keyword-like ones",
 "Tests use one declaration kind per example file; combinations, duplicates, many declarations and unusual names are not sampled.",
 [T,L,TY],[("element rules","pycep/bicep.lark element"),("merging of responses","pycep/transformer.py BicepToJson.start")],PARSE)
p("C05","Parsing is compositional: joining documents joins their results",
 "For two valid documents whose declarations have different names, parsing one after the other as a single document yields exactly the union of their separate results, line numbers of the second part moved by the length of the first. Permuting top-level declarations permutes the entries and changes nothing else.",
 ["inputs"],"all pairs of valid documents with disjoint names, and all permutations of a document's declarations",
 "Relating several parses to each other is not something an example test does; any leak between neighbouring declarations needs particular neighbours.",
 [T,L],[("one element per declaration, no shared state between elements","pycep/bicep.lark start")],PARSE)
p("C06","Literals keep their exact value",
 "A string literal is reported as exactly the characters between its quotes (escape sequences and interpolations verbatim, whatever characters or nested quotes they contain), a multi-line string as its content without the quotes and without the one line break directly after the opening quotes, an integer as that int, true/false as bool, null as None. This holds wherever the literal stands (variable, default, property, array item, argument, operand, decorator, metadata).",
 ["inputs"],"all literal values in all positions a value may take",
 "Tests contain a few dozen short literals; the space of escapes, nested interpolations, quotes, comment markers inside strings and Unicode is unbounded.",
 [T,L,U],[("string terminals","pycep/bicep.lark QUOTED_INTERPOLATION, MULTI_LINE_STRING"),("token conversion","pycep/utils.py")],PARSE)
p("C07","References are distinguishable from strings everywhere",
 "Every bare identifier used as a value is reported as a BicepElement (a str subclass) with that exact name, and no quoted or multi-line string, key or declared name is ever reported as a BicepElement, so code can tell a reference from text in any position. Keyword-like and prefix-sharing names (nullable, trueValue, forEach, sysName...) count as ordinary identifiers.",
 ["inputs"],"all identifiers and strings, including equal spellings of both kinds, in all value positions",
 "BicepElement compares equal to str, so the suite's equality assertions cannot see a reference turned into a string or vice versa.",
 [T,U,MO,L],[("token to str/BicepElement conversion","pycep/utils.py transform_string_token"),("marker type","pycep/models.py")],PARSE)
p("C08","Arrays and objects keep every item, in order, at any nesting and size",
 "An array is reported as a list of its items' values in source order and an object as a mapping of its keys (as written, quotes included) to their values in source order; nothing is dropped, merged or reordered, for any length, any nesting, and any mix of comma, line-break and comment separators. Of repeated keys in one object the last value counts.",
 ["inputs"],"all nestings, sizes and separator styles of arrays and objects in all value positions",
 "Tests contain small literals in one formatting style.",
 [T,L],[("array, object, pair rules","pycep/bicep.lark"),("list/dict building","pycep/transformer.py array, object, pair")],PARSE)
p("C09","Function calls report every argument under the right parameter",
 "A call of a documented built-in, with or without its sys./az. namespace, is reported with its function type and every given argument under the parameter that position stands for (for resourceGroup, resourceId and subscriptionResourceId depending on the argument count), omitted optional parameters being None; arguments that are 0, empty, false or null are kept. Any other function name is reported as written with its arguments numbered from arg_1.",
 ["inputs"],"all documented functions, argument counts and argument values, plus all other function names",
 "Tests have about one call per function with plain arguments; argument counts, falsy and nested arguments, and names near built-ins are unsampled.",
 [F,T,L,DOC],[("function table","pycep/rules/functions.py FUNCTIONS"),("call rule","pycep/transformer.py function")],PARSE)
p("C10","Decorators stay with their declaration, in order, with their argument",
 "Each declaration reports exactly the decorators written directly before it, in source order, with documented decorators under their type (also with the sys. prefix) and unknown ones under their name as written; the argument keeps its exact value (negative minValue/maxValue literals as negative ints, non-literal arguments as the expression they are). A declaration without decorators reports an empty list.",
 ["inputs"],"all sequences of decorators with any argument on every kind of decorable declaration",
 "Tests decorate single declarations with one or two decorators and ordinary arguments.",
 [D,T,L],[("decorator table","pycep/rules/decorators.py DECORATORS"),("decorator rules","pycep/transformer.py decorator, decorators")],PARSE)
p("C11","Operators report their operands completely and on the right side",
 "Every unary, binary and conditional operator is reported with its own type and with its operands in source order under their documented names; an operand that is literal, call, array, object, parenthesised or accessed keeps its exact value, and everything right of a binary operator is its right operand unless parentheses say otherwise. Parentheses and the null-forgiving mark add nothing to the result.",
 ["inputs"],"all expression trees over all operators, operand kinds and nestings",
 "Tests check each operator with one or two operand pairs; nesting and operator combinations are barely sampled.",
 [T,L],[("operator rules","pycep/bicep.lark operator_*"),("operator callbacks","pycep/transformer.py")],PARSE)
p("C12","Accessor chains report every step of the path",
 "Chains of property, safe-dereference, index, nested-resource (::) and list*/getSecret accesses of any length are reported so that every step, index and argument can be recovered in source order: a property step holds its base and the rest of the chain, an index step its base and index, a function access its base, function name and all arguments. Names that merely resemble list*/getSecret stay ordinary properties or calls.",
 ["inputs"],"all accessor chains over all base kinds, step kinds, lengths and arguments",
 "Tests contain chains of up to three or four steps with usual names.",
 [T,L],[("operator_accessor rules","pycep/bicep.lark"),("accessor callbacks","pycep/transformer.py")],PARSE)
p("C13","Nested child resources are reported as resources of their own",
 "Every child resource written inside the body of a resource (also a looped or conditional one, at any depth) is reported among the resources under parentName__childName with the type path joined to its parent's, the API version its own type string names after an @ or else its parent's, its own existing flag and body, and a depends_on reference to its direct parent; the parent's own body keeps all its properties and no trace of the child. Resources without children are unaffected.",
 ["inputs"],"all nestings of child resources, bodies (plain, loop, condition) and positions within the parent",
 "Tests hold a handful of nestings of plain children.",
 [T,L],[("hoisting","pycep/transformer.py process_child_resource"),("child rule","pycep/bicep.lark child_resource")],PARSE,
 [("__child_resource__","temporary key carrying a child in its parent's body","pycep/transformer.py object, process_child_resource")])
p("C14","Loops and conditions report all of their parts",
 "Every loop is reported with its kind (array, array with index, object), its item and index names, the collection iterated over, its filter condition (None without one) and its body, and every conditional deployment with its condition and body, whichever expressions these are and wherever the loop stands (variable, output, resource, module, property, child resource).",
 ["inputs"],"all loops and conditions over all kinds, sources, filters and bodies in all positions",
 "Tests cover each kind once or twice with simple sources and bodies.",
 [T,L],[("loop rules","pycep/bicep.lark loop*, deploy_condition"),("loop callbacks","pycep/transformer.py loop*, deploy_condition")],PARSE)
p("C15","Resource types and module references are split losslessly",
 "A resource's type and API version are exactly the parts of its type string before and after the @, and the existing flag is true exactly when the keyword is written. A module reference is classified as local path, registry, registry alias, template spec or template spec alias by its form alone and its registry, alias, path, ids, name and tag/version are exactly the corresponding parts of the text; public is true only for the public registry (br:mcr.microsoft.com/... or the alias public).",
 ["inputs"],"all resource type strings and all module references of each form, with every character valid in each part, and near-miss local paths",
 "Tests use one reference per form with short lowercase names.",
 [T,L],[("reference patterns","pycep/transformer.py *_PATTERN, module_path, type_api_pair")],PARSE)
p("C16","Types, function signatures, lambdas, imports and extensions keep their structure",
 "Declared data types (names, arrays of any depth, unions of any size and nesting), custom type values, user-defined function signatures and bodies, lambda parameters and bodies, import names, aliases and paths, and extension configs and aliases are reported exactly as written, in source order, with optional parts absent only when not written.",
 ["inputs"],"all type expressions, signatures, lambdas, imports and extensions over all sizes and nestings",
 "Tests cover one or two shapes of each construct.",
 [T,L],[("type rules","pycep/bicep.lark data_type, union_type, array_suffix"),("callbacks","pycep/transformer.py data_type, custom_type, custom_func, custom_import, lambda_expression, extension")],PARSE)
p("C17","Line numbers give each declaration's true position",
 "With line numbers on, every declaration (also hoisted child resources, imports and an explicit scope) carries the 1-based line where its text, decorators included, begins and the line where it ends, for any layout, comments, multi-line strings and line-break style; an implicit scope has 0 and 0. Removing these entries gives exactly the result without line numbers, in which no such entry exists.",
 ["inputs","configurations"],"all documents in all layouts, with the option on and off",
 "Tests check line numbers on a few fixed files with conventional layout.",
 [T,M,L],[("meta.line/meta.end_line propagation","pycep/transformer.py element callbacks"),("propagate_positions","pycep/main.py")],["__start_line__/__end_line__ of parse(...) results"])
p("C18","Layout and comments never change the result",
 "Two renderings of the same declarations that differ only in insignificant layout - spaces, tabs, blank lines, LF or CRLF, comma or line-break separators, //, /* */ and # comments of any content, leading or trailing text of these kinds, or a missing final newline - yield the same result. Text inside strings that looks like a comment is never treated as one.",
 ["inputs"],"all pairs of layouts of all documents, within the places where the grammar admits breaks and comments",
 "Tests contain one layout per document and a few comment placements.",
 [L,V],[("ignored terminals and newline rules","pycep/bicep.lark")],PARSE)
p("C19","Results are self-contained plain data",
 "A result consists only of dicts, lists, strings, ints, bools and None, so it survives JSON serialisation unchanged; apart from BicepElement no special string or internal parser object is ever exposed, no internal bookkeeping key remains, and no mutable part is shared within a result or between results.",
 ["inputs"],"all documents",
 "Equality assertions accept str subclasses (parser tokens), tuples hidden by equality, and shared sub-objects.",
 [T,U,D,F,TY],[("token to plain value conversion","pycep/transformer.py, pycep/utils.py")],PARSE)
p("C20","Any text yields a result or a documented error; ill-formed text is rejected",
 "For any text whatsoever, parse and create_tree either return normally or raise a ValueError or lark parsing error, in reasonable time; no other exception and no hang occurs, and rejected text is reported by an error, never by a partial result. Text with an unknown target scope, a malformed resource type, unbalanced brackets or quotes, or stray tokens is rejected.",
 ["inputs"],"all texts: arbitrary characters, mutated and truncated documents, token soups, and constructed ill-formed documents",
 "Tests contain a handful of invalid inputs.",
 [M,T,V,L],[("lexer and LALR parser","pycep/bicep.lark"),("semantic checks","pycep/transformer.py scope, type_api_pair")],["BicepParser.parse","BicepParser.create_tree"])
p("C21","create_tree agrees with parse and with the document",
 "create_tree succeeds for every text parse accepts and raises a lark parsing error for every syntactically wrong one; its textual tree shows the nesting of the parse tree the way lark renders it, is the same for text and file input and for both line-number options, does not depend on line breaks, indentation, separators or comments, and is, for two joined documents, the two trees joined. Every name and literal of the document appears in it in source order.",
 ["inputs"],"all documents and layouts, and all pairs of documents",
 "create_tree is exercised by one or two example tests.",
 [M,L],[("shared tree construction","pycep/main.py BicepParser._create_tree")],["BicepParser.create_tree(...) result"])
p("C22","Results do not depend on the process environment",
 "The result for a document is the same in every process: whatever the locale and preferred encoding, hash seed, working directory, temporary directory, optimisation flags, cache option, and whether the on-disk grammar cache is absent, reused or was damaged.",
 ["configurations","fault_sequences"],"all combinations of these environment settings and cache states, on any documents",
 "The suite runs in one process configuration with a warm cache.",
 [M],[("grammar loading and caching","pycep/main.py LARK_GRAMMAR, BicepParser.__init__"),("explicit file encoding","pycep/main.py _create_tree")],["BicepParser in fresh processes"])
p("C23","Size and depth of a document do not break parsing",
 "Large, wide and deeply nested documents, of tens of thousands of tokens or hundreds of nesting levels, parse to complete and correct results like small ones, without recursion errors and in time roughly proportional to their length; text that is almost valid is rejected in such time as well.",
 ["inputs"],"all sizes and depths of every repeatable or nestable construct, and of near-valid texts",
 "The largest test file has a few hundred lines and a nesting depth under ten.",
 [L,T,M],[("non-recursive transformation","pycep/transformer.py BicepToJson"),("backtracking-free terminals","pycep/bicep.lark")],["BicepParser.parse result and CPU time"])
p("C24","Results have the shape the published types declare",
 "Every part of a result with a documented kind - the document itself, declarations, decorators, data types, module details, loops, conditions, lambdas, function calls and operators - has the shape that pycep.typing declares for that kind and type tag: every required key, no undeclared key, numbered families (arg_1, arg_2, ...) without gaps, and exactly the declared tags and nested shapes. Code written against the published types therefore never meets a missing or unknown key.",
 ["inputs"],"all documents, both line-number options",
 "The types are checked by no test; each test compares a handful of results with literals, never with the declarations.",
 [TY,T,F,D],[("published result types","pycep/typing.py"),("call and decorator shapes","pycep/rules/functions.py, pycep/rules/decorators.py"),("all other shapes","pycep/transformer.py")],["BicepParser.parse result against pycep.typing"])
p("C25","Parsers created at the same time or after a crash do not spoil each other",
 "Processes and threads that create parsers at the same time and share the grammar cache on disk never influence one another: under any interleaving of their operations on files, and after a process died at any of these, every one of these parsers and every parser created later gives the same results and errors as a parser created alone, and creating one never fails.",
 ["schedules","fault_sequences"],"all interleavings of the file operations of two or more actors creating parsers, all points at which an actor may die, all states a cache may be left in",
 "The suite creates its parsers one after the other in one process.",
 [M,"pycep/cache.py"],[("grammar cache on disk","pycep/cache.py load_parser, save_parser"),("parser creation","pycep/main.py BicepParser._create_lark_parser")],["BicepParser() and parse in several processes"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P),encoding="utf-8")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))

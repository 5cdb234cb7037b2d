import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
      **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
PP="src/parse/parser.rs"
p("C01","Loading a document never crashes",
 "For every text and every set of files, loading a document from a string or a file ends with either an object or an error value. It never panics, aborts, overflows the stack or fails to terminate, and neither does rendering, comparing or dropping what was loaded. (A text that multiplies the size of what it defines is loaded if there is memory for what it defines.)",
 ["inputs","configurations"],"every input text (any Unicode), every set of include files (missing, binary, self-including, deeply chained), from string and from file",
 "Tests load some 60 fixed files; the input space is unbounded and crashes hide in rare character sequences, nesting and include shapes.",
 [PP,"src/parse/char_stream.rs","src/parse/format.rs"],[("MAX_DEPTH check","parser.rs parse_obj/parse_arr/parse_tup/parse_include"),("peek/None handling","parser.rs find_char, UnexpectedEnd")],
 ["Obj::from_str","Obj::from_file","write_to_string","Drop"])
p("C02","A loaded object is exactly what the text defines",
 "A successfully loaded object has exactly the non-global fields written in the document, in the written order, each holding the written literal or container, with whitespace and comments making no difference. Malformed text (missing values or separators, stray or mismatched brackets, duplicate fields, globals or parents, invalid characters, premature end) is rejected with an error and never silently accepted, truncated or partially loaded.",
 ["inputs"],"every document text",
 "Tests compare a dozen well-formed files and some 50 malformed ones; acceptance and meaning have to be right for every combination of tokens, layout and nesting.",
 [PP,"src/parse/util.rs","src/obj.rs"],[("field/value loop","parser.rs parse_field_value_pair"),("value end check","parser.rs check_value_end"),("whitespace and comments","parser.rs find_char")],
 ["Obj::from_str","Obj::pairs_ref","OverError::ParseError"])
p("C03","Variables and globals resolve by scope",
 "A plain name used as a value yields the value of the field of that name defined earlier in the same object (arrays and tuples use the enclosing object's fields), never one of an outer or inner object, a later field, or another file. A global (@name) is visible from its definition on, everywhere in the same file including nested objects, may be defined only once per file, is invisible to other files, and never appears as a field of the result.",
 ["inputs","programs"],"every document and every arrangement of definitions, uses, nesting and files",
 "Tests use three globals and a handful of variables; wrong scope lookups only show for particular nestings, shadowings and file boundaries.",
 [PP],[("variable lookup","parser.rs parse_variable"),("globals map per file","parser.rs parse_obj_stream, parse_arr_file, parse_tup_file")],
 ["Obj::from_str","Obj::from_file"],[("globals","globals defined so far in this file","parser.rs GlobalMap"),("obj_pairs","fields of the enclosing object so far","parser.rs parse_field_value_pair")])
p("C04","Dot access reaches the named element",
 "A dotted value path yields the field of the object at that point (its own field, else the one inherited from its nearest parent that has it) or the array or tuple element at the given zero-based index, where an index may be a number or a variable. A missing field, an index that is out of range, negative or not an Int, and a dot on any other type are errors.",
 ["inputs","programs"],"every document, path, container shape and index",
 "Tests use about ten dotted paths; paths through parents, nested containers, variable indexes and boundary indexes are unbounded.",
 [PP,"src/obj.rs","src/arr.rs","src/tup.rs"],[("dot dispatch","parser.rs parse_variable"),("bounds check","arr.rs/tup.rs get")],["Obj::from_str"])
p("C05","Arithmetic is exact with the documented precedence",
 "Every arithmetic expression over Ints and Fracs yields the exact mathematical result at any magnitude, with *, / and % binding tighter than + and -, operators of equal precedence applied left to right, and unary signs binding tightest. Int op Int stays Int for + - * % (remainder with the sign of the dividend) and gives a Frac for /; mixing Int and Frac gives a Frac in lowest terms; + also joins two strings or two arrays; division or remainder by zero and any other operand types are errors.",
 ["inputs","programs"],"every expression: any operator sequence, operand types and magnitudes",
 "Tests check about 25 expressions with small operands; precedence, association, promotion and big-number bugs need particular operator sequences or magnitudes.",
 [PP,"src/parse/mod.rs"],[("value and operator queues","parser.rs parse_value"),("binary_op_on_values/unary_op_on_value","parser.rs")],["Obj::from_str","Obj::get_int","Obj::get_frac"])
p("C06","Every array is homogeneous and knows its element type",
 "Every array obtained by loading a document (literal, included file or concatenation) or from the checked constructor reports an element type that every element conforms to and that is the most specific such type, where an empty array fits any array type. Elements or arrays with no common type are always rejected with a type-mismatch error, and elements with a common type are never rejected.",
 ["inputs"],"every sequence of element values, nested to any depth, including empty arrays at any place",
 "Tests try a few nestings with empty arrays; type inference must work for every nesting, order and position of empty arrays and mismatches.",
 ["src/arr.rs",PP,"src/types.rs"],[("type folding","arr.rs from_values, parser.rs parse_arr, parse_arr_file"),("concatenation type","parser.rs binary_op_on_values")],["Arr::inner_type","Arr::from_values","Obj::from_str"])
p("C07","Type comparison and unification obey their laws",
 "Two types are equal exactly when they match structurally with Any standing for any type on either side, strictly the same (is) exactly when they match structurally with Any only matching Any, and a type has-any exactly when it contains Any. The most specific common type exists exactly when the two types are equal, does not depend on argument order, has every position filled from whichever side is not Any, and is flagged as non-maximal exactly when it still contains Any.",
 ["inputs"],"every pair of types of any nesting",
 "One doc example and a few assertions exist; the laws quantify over all pairs of recursive types.",
 ["src/types.rs"],[("most_specific, has_any, is, eq","types.rs")],["Type::most_specific","Type::is","Type::has_any","Type == Type"])
p("C08","Parents supply exactly the fields not overridden",
 "Looking up a field returns the object's own value if it has that field, otherwise the value from the nearest ancestor that has it, together with that ancestor as the source, otherwise nothing. Own-field operations (length, emptiness, containment, iteration) ignore ancestors, and a ^ field in a document makes its value, which must be an object, the parent without becoming a field.",
 ["inputs","histories"],"every parent chain, overriding pattern and lookup, through the API and from documents",
 "Tests use one three-level chain; shadowing and source tracking must hold for all chains and names.",
 ["src/obj.rs",PP,"src/macros.rs"],[("get/get_with_source recursion","obj.rs"),("^ handling","parser.rs parse_field_value_pair, macros.rs try_obj!")],["Obj::get","Obj::get_with_source","Obj::contains","Obj::get_parent"])
p("C09","Includes yield the file's content as the requested kind",
 "An include evaluates to the named file's content read as the requested kind: Str verbatim, Arr and Tup as their whitespace-separated values, Obj (also the default) as a document; the same file requested as different kinds yields each kind. The path is taken relative to the directory of the including file, or to the working directory for documents loaded from a string, and including the same file again as the same kind yields the same value, shared; an unusable path or malformed include is an error.",
 ["inputs","configurations"],"every include tree: kinds, directories, repeated and nested includes, path spellings, file contents",
 "Tests include five small files from one directory; relative resolution, caching and kinds interact across files and orders.",
 [PP],[("parse_include path resolution and cache","parser.rs parse_include")],["Obj::from_file","Obj::from_str"],[("included.0","values of files already included","parser.rs IncludedMap")])
p("C10","Circular includes are rejected, all others accepted",
 "Whenever an include, of any kind and with any spelling of the path, names a file whose content is still being read, the load ends with a cyclic-include error reported at that include; so a document whose object, array and tuple includes form a cycle of any length never loads. A file that is included several times without a cycle is never rejected.",
 ["configurations","histories"],"every include graph and order of include statements",
 "One test includes a file from itself; longer cycles, diamonds, repeats and alternative path spellings are never exercised.",
 [PP],[("active file set","parser.rs parse_include: included.1 insert/contains/remove")],["Obj::from_file"],[("included.1","canonical paths of files being loaded","parser.rs IncludedMap")])
p("C11","Writing an object and loading it back gives an equal object",
 "For every loaded object whose nesting stays within the loader's depth limit, and every object built through the API with writable field names, writing it to a string or a file and loading the result succeeds and gives an equal object: same fields in order, parents, values, types, exact numbers and characters. Writing to an existing file replaces its whole content.",
 ["inputs","histories"],"every object that can be loaded or built",
 "Tests round-trip ten fixed files; escaping, number formatting, nesting, one-element containers and parents can fail for particular values only.",
 ["src/parse/format.rs","src/obj.rs","src/util.rs",PP],[("Format impls","format.rs"),("escape map","format.rs get_char_map vs util.rs get_escape_char"),("write_file_str","util.rs")],["Obj::write_to_string","Obj::write_to_file","Obj::from_str","Obj::from_file"])
p("C12","Displaying a value gives text that loads back as that value",
 "The Display form of every value, array, tuple and object is a complete value expression: used as the value of a field, inside an array or a tuple, it loads back as an equal value.",
 ["inputs"],"every value of every type",
 "No test loads a Display form back.",
 ["src/parse/format.rs","src/value.rs","src/arr.rs","src/tup.rs","src/obj.rs"],[("Format impls with full=true","format.rs")],["Display for Value/Arr/Tup/Obj"])
p("C13","References share one instance and are counted exactly",
 "Using a variable, a global, a dotted path, an included file again, or a clone refers to the very same array, tuple or object (same ID, pointer-equal), whereas every literal, constructor call and operator result is a new instance with an ID of its own. The reported number of references always equals the number of places that hold the instance, and loading leaves no stray references behind.",
 ["inputs","histories"],"every document and every sequence of create, clone, embed, get and drop operations",
 "Two tests check a couple of reference counts; accidental copies or leaked references only show for particular operations and orders.",
 ["src/obj.rs","src/arr.rs","src/tup.rs",PP],[("Arc inner","obj.rs, arr.rs, tup.rs"),("clone on lookup","parser.rs parse_variable, parse_include")],["ReferenceType::id","num_references","ptr_eq"])
p("C14","Instance IDs are unique, also across threads",
 "Every array, tuple and object ever created in a process has an ID different from all others, no matter how many are created or how many threads create them concurrently. IDs start at 0 for the first instance created and increase by one with each instance created.",
 ["schedules","histories"],"every interleaving of creations on any number of threads and any number of creations",
 "No test creates instances concurrently or in numbers.",
 ["src/lib.rs"],[("atomic counter","lib.rs gen_id")],["ReferenceType::id"],[("CUR_ID","next ID","lib.rs")])
p("C15","Equality is structural",
 "Two values are equal exactly when they have the same kind and the same content: equal numbers, booleans or strings; arrays and tuples with pairwise equal elements; objects with the same fields with equal values in the same order and equal parents or no parent on either side. Equality ignores IDs and sharing, is reflexive and symmetric, and an Int never equals a Frac.",
 ["inputs","histories"],"every pair of values",
 "Tests compare a few expected values; equality over nested, shared, parented and nearly equal values is unbounded.",
 ["src/obj.rs","src/arr.rs","src/tup.rs","src/value.rs","src/types.rs"],[("PartialEq impls","obj.rs, arr.rs, tup.rs, value.rs")],["=="])
p("C16","Typed access succeeds exactly on the matching type",
 "A typed getter on a value or on an object's field (found on the object or inherited) returns the stored value exactly when it has that type, except that an Int may also be read as a Frac; otherwise it reports a type mismatch naming the expected and actual type, or that the field was not found. Indexed access on arrays and tuples returns the element for every index below the length and an out-of-bounds error naming the index for every other.",
 ["inputs","histories"],"every value, field, getter and index",
 "Tests read each type once and check one mismatch.",
 ["src/obj.rs","src/value.rs","src/arr.rs","src/tup.rs","src/error.rs"],[("get_fn! macros","obj.rs, value.rs"),("bounds check","arr.rs, tup.rs")],["Obj::get_*","Value::get_*","Arr::get","Tup::get"])
p("C17","Errors point at the offending place",
 "Every error caused by the text of a document or an included file carries the 1-based line and the column, counted in characters, of the construct that caused it (for a premature end of input, only the line where the input ends), and names the file it is in when the text came from a file.",
 ["inputs"],"every erroneous document, error kind, position, line ending, multi-byte text and include depth",
 "The stable tests check no error position; the positions depend on everything that precedes the error.",
 [PP,"src/parse/char_stream.rs","src/parse/error.rs"],[("line/col tracking","char_stream.rs next"),("position captured before parsing","parser.rs")],["OverError::ParseError message"],[("line, col","current position","char_stream.rs Inner")])
p("C18","Nesting is limited at exactly the maximum depth",
 "A document in which containers, includes and unary signs, in any mixture, nest up to the maximum recursion depth (64, counting the document itself as level 1) loads; one level more is rejected with a maximum-depth error, also when the levels are spread over included files or a chain of dotted accesses. Sequential, non-nested repetition never counts towards the limit.",
 ["inputs","configurations"],"every mixture of nesting constructs around the limit",
 "Tests have two too-deep files; the exact boundary and mixed nesting are untested.",
 [PP,"src/parse/mod.rs"],[("depth parameter","parser.rs"),("MAX_DEPTH","mod.rs")],["Obj::from_str","Obj::from_file"])
p("C19","Field names are accepted exactly when valid",
 "The name validity test, the checked object constructor and the loader accept a field name exactly when it is non-empty, starts with an alphabetic character or underscore and continues with alphabetic characters, ASCII digits or underscores (alphabetic in the Unicode sense); the constructor's error names the first invalid field. The loader additionally rejects reserved words as field names, also accepts @ before a global's name, and accepts ^ alone for the parent.",
 ["inputs"],"every string as a name, over all of Unicode",
 "Tests use a few ASCII names.",
 ["src/obj.rs",PP,"src/parse/util.rs"],[("is_valid_field, is_valid_field_char","obj.rs"),("is_reserved","util.rs"),("parse_field","parser.rs")],["Obj::is_valid_field","Obj::from_pairs","Obj::from_str"])
p("C20","String literals keep every character and decode every escape",
 "A string literal yields exactly the characters between its quotes, including line breaks, comment and bracket characters and any Unicode character, with each documented escape replaced by its character. An unknown escape and an unterminated string are errors.",
 ["inputs"],"every string content and escape, of any length",
 "Tests decode each escape once in short strings.",
 [PP,"src/parse/util.rs"],[("parse_str","parser.rs"),("get_escape_char","util.rs")],["Obj::from_str","Obj::get_str"])
p("C21","Number literals denote their exact value",
 "A literal of digits yields that Int, and one with a decimal point or comma yields that exact decimal as a Frac in lowest terms, for any number of digits, with leading or trailing zeros and single underscores between characters making no difference and either side of the point allowed to be empty. Everything else that begins like a number (second point, doubled underscore, letters, no digits) is an error.",
 ["inputs"],"every digit string, separator placement and length",
 "Tests parse about 15 literals.",
 [PP,"src/parse/util.rs"],[("parse_numeric","parser.rs"),("frac_from_whole_and_dec","util.rs")],["Obj::from_str","Obj::get_int","Obj::get_frac"])
p("C22","Loads are deterministic and independent of each other",
 "Loading the same text and files gives the same result every time, whatever was loaded, failed to load or was written before in the process and whatever other threads are loading at the same time. In particular no included content, global or include-cycle state survives from one load to the next, so changed files are seen by the next load.",
 ["histories","schedules"],"every sequence and concurrent schedule of loads, including failed ones and files changed in between",
 "Tests load each file once, in isolation.",
 [PP,"src/lib.rs"],[("per-call include and global maps","parser.rs parse_obj_file, parse_obj_str"),("shared statics: sentinels, ID counter","parser.rs, lib.rs")],["Obj::from_str","Obj::from_file"])
p("C23","Native values convert and compare exactly",
 "Converting a native bool, integer, big integer, fraction, string or container to a value and reading it back gives the same value. Comparing a value with a native one, in either direction, is true exactly when the value has the corresponding type and mathematically the same content, and in particular false when the value does not fit the native type.",
 ["inputs"],"every native type and value, including type boundaries and values outside its range",
 "Tests compare small ints in one direction.",
 ["src/value.rs","src/macros.rs"],[("impl_eq!, impl_eq_int!, impl_from!","value.rs")],["Value == native","Value::from"])
p("C24","The first defect in a document decides its error",
 "When a document is rejected, the error describes the first offending construct in reading order, with its kind and the characters, names or types involved. Text after that construct never changes the outcome.",
 ["inputs"],"every erroneous document and every continuation of it",
 "The stable tests check no error's description; the property quantifies over all continuations.",
 [PP,"src/parse/error.rs"],[("left-to-right single pass","parser.rs"),("Display for ParseError","error.rs")],["OverError::ParseError message"])
p("C25","Values never change once created",
 "No operation changes any already existing array, tuple or object: after loading, embedding, using as an operand or parent, cloning, indexing, writing or dropping others, every earlier value still shows the same content, type and parent.",
 ["histories","programs"],"every sequence of operations on shared values, in documents and through the API",
 "Tests never re-inspect a value after it was used elsewhere.",
 ["src/obj.rs","src/arr.rs","src/tup.rs",PP],[("Arc without interior mutability","obj.rs, arr.rs, tup.rs"),("operands cloned before concatenation","parser.rs binary_op_on_values")],["pairs_ref","values_ref"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')

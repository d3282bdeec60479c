import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Any Value survives being written as YAML and read back",
 "For every Value (null, booleans, integers in the 64-bit ranges, floats including infinities and NaN, strings, sequences, mappings with keys of any kind, tagged values, nested in any way up to the depth limit), serializing it to text succeeds and parsing that text yields the same Value: same kinds, same numbers, same strings, same tags, same entries in the same order. The same holds for every way of producing the text (string, writer, serializer object), and serializing the parsed value again yields the same text. The only values that may be refused are a tag directly on another tag and nesting beyond the depth limit.",
 ["inputs"],"every Value tree, of any shape, size and depth, with any leaves, tags and key kinds",
 "Tests serialize a few dozen fixed values; interactions between one-entry mappings, tags, complex keys, empty containers and scalar styles are a product space they never enumerate (singleton-map keys inside singleton maps were in fact broken).",
 ["src/ser.rs","src/de.rs","src/libyaml/emitter.rs","src/libyaml/parser.rs","src/loader.rs","src/value/de.rs","src/value/tagged.rs"],
 [("text serializer and its tag state machine","src/ser.rs: Serializer, State"),("tag detection for one-entry maps","src/value/tagged.rs: check_for_tag"),("event deserializer","src/de.rs: DeserializerFromEvents"),("Value visitor","src/value/de.rs")],
 [("State","pending decision whether a one-entry map is a tag","src/ser.rs"),("depth","document nesting, decides document start and end","src/ser.rs")],["to_string","to_writer","Serializer","from_str"])

p("C02","Strings round-trip exactly and never turn into another type",
 "Any Rust string or char, placed anywhere a string can be (document root, sequence element, mapping key, mapping value, under a tag, as a variant payload, struct field or map key, produced by serialize_str or by collect_str), comes back identical character for character after serializing to text and parsing, both as a String and as an untyped Value. In particular a string that looks like a null, boolean, number, tag, indicator, comment, document marker or merge key always comes back as a string.",
 ["inputs"],"every sequence of Unicode scalar values, in every position of a document",
 "The tests try a handful of strings; the quoting decision depends on the entire resolution grammar, on line breaks, blanks, indicators and on the position, so the interesting cases are combinations nobody writes by hand.",
 ["src/ser.rs","src/de.rs","src/libyaml/emitter.rs","src/value/tagged.rs"],
 [("scalar style inference","src/ser.rs: serialize_str, InferScalarStyle"),("leading-zero digit rule","src/de.rs: digits_but_not_number"),("collect_str tag detection","src/value/tagged.rs: check_for_tag")],None,["to_string","from_str"])

p("C03","Plain scalars resolve exactly by the documented grammar",
 "An untagged plain scalar read as an untyped Value resolves to null, a boolean, an integer, a float or a string exactly according to the YAML 1.2 core rules as this library documents them: null/~ and the three spellings of true and false; optionally signed decimal, 0x, 0o and 0b integers; finite decimal floats and the .inf/.nan spellings; digit strings with a superfluous leading zero are strings; quoted scalars are always strings. Read as a typed integer, float, boolean, unit or Option, the same grammar applies: a target type receives exactly the mathematical value written, or an error when it does not fit - a value is never wrapped, truncated or sign-changed.",
 ["inputs"],"every scalar text, as every target type",
 "Tests list a few spellings per type; the grammar is a cross product of sign, radix prefix, digits, magnitude relative to 8 integer widths, and float forms.",
 ["src/de.rs","src/value/de.rs","src/number.rs"],
 [("scalar resolution","src/de.rs: visit_untagged_scalar, visit_int, parse_f64, parse_null, parse_bool, digits_but_not_number"),("typed integers","src/de.rs: parse_signed_int, parse_unsigned_int, parse_negative_int"),("core schema tags","src/de.rs: visit_scalar")],None,["from_str::<Value>","from_str::<i8..u128,f32,f64,bool,(),Option,String>"])

p("C04","Numbers keep their exact value through text, Value and Number",
 "Every integer of every width up to 128 bits and every f32 and f64 bit pattern (NaN counted as one value) survives serialization to text and deserialization as the same type, and every i64, u64 and f64 survives conversion to Value or Number and back. Printing a Number and parsing the print gives an equal Number of the same kind; the is_*/as_* accessors, the comparisons of a Value with a primitive, and Number ordering agree with the mathematical value and with each other.",
 ["inputs"],"every number of every primitive type",
 "Tests try under twenty numbers; the property is about every bit pattern and in particular the format and range boundaries.",
 ["src/number.rs","src/ser.rs","src/de.rs","src/value/ser.rs","src/value/de.rs","src/value/partial_eq.rs","src/value/from.rs"],
 [("number representation and conversion","src/number.rs: N, From impls, FromStr, Display, total_cmp"),("number formatting","src/ser.rs: serialize_f32, serialize_f64, serialize_i*"),("numeric comparison","src/value/partial_eq.rs")],None,["to_string","from_str","to_value","Number"])

p("C05","The input source never changes the result",
 "Parsing the same bytes from a string slice, a byte slice, or a reader gives the same value or the same error (message and location), no matter how the reader splits the bytes into chunks or how often it reports an interruption, for single documents and for the document iterator. If the reader fails at any point, that I/O failure is what the caller gets: never a value built from the bytes read so far, never a panic.",
 ["inputs","fault_sequences"],"every input, every chunking, every interruption pattern, every failure point",
 "The tests read from strings and never through a reader that splits, interrupts or fails.",
 ["src/de.rs","src/loader.rs","src/libyaml/parser.rs","src/error.rs"],
 [("reader input","src/loader.rs: Loader::new"),("parser input ownership","src/libyaml/parser.rs: Parser::new"),("failed iterator","src/de.rs: Progress::Fail")],[("progress","which source is being read, or the sticky failure","src/de.rs")],["from_str","from_slice","from_reader","Deserializer::from_*"])

p("C06","Writing reports every writer fault and writes nothing but the text",
 "Serializing to any writer that accepts the bytes - in whatever pieces, with whatever interruptions - delivers exactly the bytes that serializing to a string produces, in order, for one document or several. If the writer fails at any point the caller gets an error carrying that failure, what reached the writer before it is a prefix of that text, and success is never reported for a document whose bytes were not all accepted; flushing flushes the writer itself and reports its failure, and unwrapping the serializer hands back the same writer with everything written.",
 ["fault_sequences","histories"],"every value, every sequence of writer answers (full, short, interrupted, zero, error) and every failure point",
 "All tests write to memory, so no writer ever answers short or fails.",
 ["src/ser.rs","src/libyaml/emitter.rs","src/error.rs"],
 [("write callback","src/libyaml/emitter.rs: write_handler"),("error hand-over","src/libyaml/emitter.rs: Emitter::error, emit, flush"),("writer recovery","src/ser.rs: Serializer::into_inner, flush")],[("write_error","the writer's failure parked across the callback","src/libyaml/emitter.rs")],["to_writer","Serializer"])

p("C07","Any bytes at all: an answer, never a panic, hang or crash",
 "For any byte sequence and any target type, parsing finishes with a value or an error: it never panics, overflows the stack, corrupts memory or loops forever, and repeating it gives the same outcome. Iterating over the documents of any byte sequence, or of a reader that fails, comes to an end even when the caller ignores the errors, yields at most one item per error, and every item yielded can be deserialized safely.",
 ["inputs","histories"],"every byte string, every target type, every way of continuing after an error",
 "Tests feed well-formed text and a few malformed ones to one API; the fuzz target samples a single entry point and stops at the first document.",
 ["src/de.rs","src/loader.rs","src/libyaml/parser.rs","src/value/de.rs"],
 [("event stream well-formedness","src/loader.rs: next_document"),("recursion guard","src/de.rs: recursion_check"),("ignored content","src/de.rs: ignore_any")],[("parser","present while documents may follow","src/loader.rs")],["from_slice","Deserializer iterator"])

p("C08","Document streams: documents in equal documents out, in order",
 "Writing any number of values through one serializer yields a stream from which the document iterator returns exactly those values, in order and no others. Reading a stream, the iterator yields one item per document whatever separators, end markers, comments, directives or leading byte order mark delimit them; the single-document functions accept a stream of exactly one document (an empty stream counts as one empty document) and otherwise report that there is more than one; anchors of one document are unknown in the next.",
 ["histories","inputs"],"every sequence of documents and every way of delimiting them",
 "Tests have two or three fixed streams.",
 ["src/de.rs","src/loader.rs","src/ser.rs"],
 [("document splitting","src/loader.rs: next_document"),("single document rule","src/de.rs: Deserializer::de"),("document start and end","src/ser.rs: value_start, value_end")],[("document_count","whether any document was seen","src/loader.rs"),("depth","0 between documents","src/ser.rs")],["Serializer","Deserializer iterator","from_str"])

p("C09","An alias reads exactly like a copy of the anchored node",
 "Replacing every alias by a copy of the most recent preceding node with that anchor never changes what is read, for untyped and typed targets and with the alias in any position (element, key, value, tagged payload, ignored content). An alias with no preceding anchor of that name in its document is reported as an unknown anchor, and a node that contains an alias to itself is refused rather than expanded.",
 ["inputs"],"every arrangement of anchors, redefinitions and aliases in a document, for every target type",
 "Tests use three aliases in total, always to a node that is already complete and never redefined.",
 ["src/loader.rs","src/de.rs"],
 [("anchor table","src/loader.rs: next_document"),("alias jump","src/de.rs: jump, deserialize_*")],[("anchors / aliases","anchor name to node id, node id to event position","src/loader.rs"),("pos","cursor in the event list, separate during a jump","src/de.rs")],["from_str"])

p("C10","Nesting and alias expansion are bounded exactly",
 "Collections nested up to 128 levels deep are read, for every mixture of sequences, mappings, keys, tags and aliases; one level more is an error saying the recursion limit was exceeded, however deep the input goes and whatever the target type, never a stack overflow. A newtype struct of the target takes a level of its own, and content that is skipped is not limited. Repeated alias expansion is cut off with a repetition error once the number of alias expansions exceeds one hundred times the number of nodes and brackets in the document, and never before; the limits apply to each document separately and one document's use does not count against the next.",
 ["inputs"],"every nesting pattern and depth, every alias fan-out and height",
 "Tests try one depth pattern and one alias bomb, both far beyond the limit, so an off-by-some or a path that is not counted is invisible.",
 ["src/de.rs","src/value/de.rs"],
 [("recursion guard","src/de.rs: recursion_check"),("repetition guard","src/de.rs: jump")],[("remaining_depth","levels left","src/de.rs"),("jumpcount","alias expansions so far","src/de.rs")],["from_str","Deserializer"])

p("C11","Typed reading agrees between text, owned Value and borrowed Value",
 "Deserializing a type from an owned Value and from a borrowed Value always gives the same outcome. Deserializing a type directly from text and deserializing it from the Value parsed from that text give equal results whenever both succeed (-0 being equal to 0, and a 32-bit float read from an integer beyond 2^53 being equal to within one rounding); and for a type's own serialized text - integers beyond 64 bits aside, which a Value cannot hold - both succeed.",
 ["inputs"],"every document and every target type",
 "Three separate deserializer implementations cover the same 30 methods; tests exercise text heavily, owned values lightly and borrowed values hardly at all.",
 ["src/de.rs","src/value/de.rs","src/value/tagged.rs","src/number.rs"],
 [("text deserializer","src/de.rs"),("owned and borrowed Value deserializers","src/value/de.rs"),("tagged values","src/value/tagged.rs")],None,["from_str","from_value","T::deserialize(&Value)"])

p("C12","Serializing to a Value and to text describe the same data",
 "For any data made of types both serializers support - integers of at most 64 bits, floats, booleans, characters, strings, options, sequences, maps, structs and enums - converting it to a Value gives what parsing its YAML text gives, and either both succeed or both fail, except that a variant directly inside a variant, which text cannot express, may still be held by a Value. The result does not depend on how a Serialize implementation drives the serializer: lengths known, unknown or misjudged, entry calls or separate key and value calls, and wrapping in newtypes or Some do not matter.",
 ["inputs","programs"],"every tree of serde data-model calls",
 "Tests use derived impls only, which exercise one protocol variant per shape, and compare with fixed text.",
 ["src/ser.rs","src/value/ser.rs","src/value/tagged.rs"],
 [("text serializer","src/ser.rs"),("Value serializer","src/value/ser.rs")],[("State","pending tag decision","src/ser.rs"),("SerializeMap","pending tag decision","src/value/ser.rs")],["to_string","to_value"])

p("C13","Mapping is an insertion-ordered map with exact key lookup",
 "After any sequence of operations a Mapping holds exactly the entries an insertion-ordered map would: inserting an existing key replaces the value in place and returns the old one, new keys go last, shift removal keeps the order of the rest, swap removal (and plain removal) moves only the last entry into the gap, and entry, retain, clear, extend and the iterators (shared, mutable and consuming, over entries, keys or values, with exact lengths) agree with it. A key is found exactly when an equal key was inserted, whether it is given as a str, a String, a Value or a reference, and a string key never finds a non-string entry.",
 ["histories"],"every sequence of mapping operations over every set of keys",
 "Tests insert a few keys into fixed mappings; nothing exercises removal orders, the entry API or the str/Value lookup equivalence.",
 ["src/mapping.rs","src/value/mod.rs"],
 [("ordered map","src/mapping.rs: Mapping"),("string lookup hash","src/mapping.rs: HashLikeValue"),("Value hash","src/value/mod.rs: impl Hash for Value")],[("map","entries in insertion order","src/mapping.rs")],["Mapping","Entry"])

p("C14","Equality, hashing and ordering of values obey their laws",
 "Equality on Value, Mapping, Number and Tag is an equivalence: reflexive even for NaN, blind to mapping order and to a tag's leading '!', sensitive to everything else. Equal values hash equally; the ordering is antisymmetric, transitive and total (except that NaN is not ordered against other numbers), equal values compare as equal and values that compare as equal are equal, whatever order nested mappings were built in.",
 ["inputs"],"every pair and triple of values, including every insertion order of nested mappings",
 "Tests compare a dozen fixed pairs; laws over pairs and triples of nested mappings are beyond example-based tests.",
 ["src/value/mod.rs","src/mapping.rs","src/number.rs","src/value/tagged.rs","src/value/partial_eq.rs"],
 [("value equality and hash","src/value/mod.rs"),("mapping hash and order","src/mapping.rs: impl Hash, PartialOrd"),("number order","src/number.rs"),("tag order","src/value/tagged.rs")],None,["PartialEq","Hash","PartialOrd"])

p("C15","Merge keys merge completely, with local entries winning",
 "Applying merge to a value replaces, in every mapping anywhere in it, the '<<' entry by the entries of the mapping or the sequence of mappings it names: entries present in the surrounding mapping win over merged ones, earlier merge sources win over later ones, and everything else is unchanged. A '<<' whose content is not a mapping or a sequence of mappings is an error; after success no merge entry remains anywhere (the insides of mapping keys, which are never touched, excepted) - also when a merge source itself contains one - and applying it again changes nothing.",
 ["inputs"],"every value with merge entries at any depth, in any position and any number",
 "Tests merge one mapping and check four errors; nested merges, merge sources that merge themselves, and merges under tags or in sequences are not covered.",
 ["src/value/mod.rs"],
 [("merge","src/value/mod.rs: Value::apply_merge")],[("stack","nodes still to visit","src/value/mod.rs")],["Value::apply_merge"])

p("C16","Duplicate keys are rejected and key order is preserved",
 "Reading a mapping, as a Value or as a Mapping, from text or from a Value, keeps every entry in document order, and fails exactly when two keys of the same mapping are equal, wherever the mapping sits in the document, however the keys are written (style, radix, tags, aliases, mapping keys in another order) and however far apart they are.",
 ["inputs"],"every mapping and every pair of equal keys in it",
 "Tests check four short mappings at the root.",
 ["src/mapping.rs","src/value/de.rs"],
 [("mapping visitor","src/mapping.rs: Deserialize for Mapping, DuplicateKeyError"),("value visitor","src/value/de.rs: ValueVisitor::visit_map")],None,["from_str::<Value>","from_str::<Mapping>"])

p("C17","Enums keep their variant and payload in every representation",
 "An enum value of any variant kind (unit, newtype, tuple, struct) serialized with the default tag representation, with the singleton-map adapter or with the recursive singleton-map adapter - on fields, in options, sequences, maps and nested enums - deserializes with the same representation to an equal value, through text and through Value. The default representation is a tag naming the variant (a plain string for a unit variant) and the adapters produce a one-entry mapping keyed by the variant; enum nesting that the default representation cannot express is refused with an error and never written as something else.",
 ["inputs"],"every enum value and every composition of containers, adapters and enums",
 "Tests cover each representation with one or two values; the composition of adapters, options, containers and variant kinds is a product.",
 ["src/with.rs","src/ser.rs","src/de.rs","src/value/ser.rs","src/value/de.rs","src/value/tagged.rs"],
 [("singleton maps","src/with.rs"),("tagged variants","src/ser.rs, src/de.rs, src/value/ser.rs, src/value/de.rs")],[("current_enum","inside which variant the reader is","src/de.rs")],["to_string","from_str","with::singleton_map","with::singleton_map_recursive"])

p("C18","Indexing a Value reads and writes exactly the addressed place",
 "For any path of integer, string and Value indices, reading through get or square brackets returns exactly the element or entry addressed, looking through tags, and null or None when there is none; the mutable forms reach the same place. Assigning through square brackets changes that place only - inserting a missing key as the last entry, turning null into a mapping for string and Value keys - and panics exactly when the target cannot hold that index, leaving everything else unchanged.",
 ["inputs","histories"],"every value, every index path, every sequence of assignments",
 "Doc tests show a few lookups; no test assigns through an index or looks through tags.",
 ["src/value/index.rs","src/value/mod.rs","src/value/tagged.rs","src/mapping.rs"],
 [("indexing","src/value/index.rs"),("tag transparency","src/value/tagged.rs: untag_ref, untag_mut")],None,["Value::get","Value::get_mut","Index","IndexMut"])

p("C19","Errors point at the offending node and name its path",
 "When reading text fails because some node does not fit the target type, the reported location is the line, column and byte index at which that node starts in the input, and the message names the path from the root to it through keys and indices. This holds wherever the node sits and however the document is laid out; syntax errors, unknown anchors and an exceeded nesting limit carry a location inside the input, and error text, path and location do not depend on whether the input came as string, bytes or reader.",
 ["inputs"],"every document layout and every place where a wrong node can sit",
 "Tests assert about thirty fixed messages on two-level documents.",
 ["src/error.rs","src/de.rs","src/path.rs","src/libyaml/error.rs","src/libyaml/parser.rs"],
 [("mark and path attachment","src/error.rs: fix_mark"),("path building","src/path.rs, src/de.rs"),("location","src/error.rs: Location, Error::location")],None,["Error::location","Error Display"])

p("C20","Borrowed strings are exact slices of the input",
 "When a borrowed string is deserialized from a string or byte slice, it lies inside the input buffer and equals what deserializing an owned String from the same node gives. Every single-line plain or simply quoted scalar without escapes can be borrowed, whatever precedes it in the document; a scalar that is not contiguous in the input (escapes, folding, block style) or that comes from a reader is refused with an error, never mangled.",
 ["inputs"],"every scalar text, style and position",
 "Tests borrow three scalars.",
 ["src/de.rs","src/libyaml/parser.rs"],
 [("borrow detection","src/de.rs: parse_borrowed_str"),("source range","src/libyaml/parser.rs: convert_event")],None,["from_str::<&str>","from_slice::<&str>"])

p("C21","Writers, readers and memory are released exactly once",
 "On every path - success, any parse or type error, any writer failure, a document iterator abandoned at any point, a serializer dropped midway or unwrapped - the reader or writer handed in is dropped exactly once (or handed back exactly once) and all memory is released. No path reads freed memory, frees twice or leaks.",
 ["histories","fault_sequences"],"every sequence of API calls, every abandonment point and every fault",
 "No test counts drops or allocations, and the code that manages these resources is unsafe.",
 ["src/ser.rs","src/libyaml/emitter.rs","src/libyaml/parser.rs","src/libyaml/util.rs","src/libyaml/cstr.rs","src/de.rs"],
 [("owned pinned state","src/libyaml/util.rs: Owned"),("writer recovery","src/ser.rs: into_inner; src/libyaml/emitter.rs: into_inner"),("drop","src/libyaml/parser.rs, src/libyaml/emitter.rs: impl Drop")],None,["Serializer","Deserializer"])

p("C22","Ignoring content neither changes the rest nor hides an error",
 "Skipping a part of a document - an unknown field, an ignored element, an ignored whole document - leaves everything after it read exactly as if that part had been any other node, whatever it contains: nested collections, tags, anchors, aliases, block scalars. Anchors defined inside skipped content still serve later aliases, and reading fewer elements of a sequence or mapping than are present, or more, is an error and never misaligns what follows.",
 ["inputs"],"every skipped node and every position of it",
 "Tests skip one or two simple fields.",
 ["src/de.rs","src/value/de.rs"],
 [("skipping","src/de.rs: ignore_any"),("length checks","src/de.rs: end_sequence, end_mapping; src/value/de.rs")],[("pos","cursor in the event list","src/de.rs")],["from_str"])

p("C23","Presentation does not change what is read",
 "The value read from a document does not depend on its presentation: block or flow style, indentation width, extra blank lines, comments, document markers, line endings, the quoting style of a string, explicit or implicit keys, or unused anchors. Only the content - scalars, structure, tags and aliases - matters, for untyped and typed targets.",
 ["inputs"],"every document content and every combination of presentation choices",
 "Tests present each content one way.",
 ["src/de.rs","src/loader.rs","src/libyaml/parser.rs","src/value/de.rs"],
 [("event conversion","src/libyaml/parser.rs: convert_event"),("event deserializer","src/de.rs")],None,["from_str"])
p("C24","A Value's accessors, conversions and comparisons describe what it holds",
 "For every Value, however deep and however many tags stand before it: the is_* and as_* accessors say what the node holds, looking through any number of tags, and exactly one of the kinds null, boolean, number, string, sequence, mapping applies; as_sequence_mut and as_mapping_mut give access to that very node, and writing through them changes that node and nothing else, in particular no clone. Comparing a Value with a str, String, bool or number says whether it holds that, looking through tags. Every From and FromIterator conversion (integers, floats, bool, text, slices, Vec, Mapping, iterators of values or of pairs, default values) makes exactly the Value its source describes, without loss. A Tag equals another tag or a text exactly if they are the same name, with or without the leading exclamation mark, and an empty tag is refused. The Debug forms, compact and laid out, show exactly what is held.",
 ["inputs","histories"],"every Value, every node of it, every accessor, conversion and write",
 "Tests call a few accessors on untagged values; towers of tags, nested writes and the conversions of every type are never enumerated.",
 ["src/value/mod.rs","src/value/tagged.rs","src/value/from.rs","src/value/partial_eq.rs","src/mapping.rs","src/number.rs"],
 [("accessors","src/value/mod.rs: is_*, as_*, untag_ref, untag_mut"),("conversions","src/value/from.rs"),("comparisons","src/value/partial_eq.rs"),("tag names","src/value/tagged.rs: Tag, nobang")],None,["Value","Tag","Mapping"])

p("C25","Values pass unchanged through any other serde format",
 "A Value, Mapping, Number or TaggedValue serialized into any other serde serializer makes calls that describe exactly its content, in order, with correct announced lengths; read from any other serde deserializer - whether it hands over text borrowed, transient or owned, nulls as unit or as none, values inside an option, numbers in whatever width, with or without length hints, tags as variants with or without the exclamation mark - it is exactly the data told, entries in order, and a key told twice is an error. The same holds when the crate's types are the source (Value, &Value, Number, TaggedValue as deserializers). Whatever the other side fails with, at whatever call, is what the caller gets.",
 ["inputs","fault_sequences"],"every Value, every way another format tells it, every call at which the other side fails",
 "Tests only connect the crate to itself or to one concrete format; the Value visitor's many entry points and the error paths are never driven.",
 ["src/value/de.rs","src/value/ser.rs","src/value/tagged.rs","src/mapping.rs","src/number.rs"],
 [("building a Value","src/value/de.rs: ValueVisitor"),("building a mapping","src/mapping.rs: Deserialize, DuplicateKeyError"),("telling a Value","src/value/ser.rs, src/mapping.rs, src/value/tagged.rs: Serialize"),("reading a Value","src/value/de.rs: Deserializer for Value, &Value")],None,["serde::Serialize for Value","serde::Deserialize for Value"])

p("C26","Written text is in block style, canonical and made of the texts of its parts",
 "The text written for data depends on the data alone: not on how the serializer was driven (lengths known or not, entries or keys and values, struct or map, Value or typed), and reading a text and writing it again gives the same text. Nonempty collections are always in block style, one item per line, nested blocks indented by two spaces and sequences in mappings not at all; empty ones are [] and {}; a tag stands before its node. A key is on the line of its value unless it is a nonempty collection, has a line break or (with its tag) is longer than 128 bytes, and then it is an explicit key. A scalar's text is the same wherever it stands, apart from indentation: null, true, false, decimal integers; simple words that are strings plain, on one line whatever their length; a multi-line string that can be is a literal block.",
 ["inputs"],"every tree of data, every position of a scalar, every way of driving the serializer",
 "Tests compare the texts of some forty values; the layout of each combination of parents, keys and tags is a product they do not cover.",
 ["src/ser.rs","src/libyaml/emitter.rs","src/value/ser.rs","src/mapping.rs","src/value/tagged.rs"],
 [("scalar style","src/ser.rs: serialize_str, emit_scalar"),("collections","src/ser.rs: emit_sequence_start, emit_mapping_start; src/libyaml/emitter.rs: emit"),("emitter settings","src/libyaml/emitter.rs: Emitter::new")],None,["to_string"])

p("C27","An error says what was found, and says it the same in all its forms",
 "The text of an error, its Debug form, its location() and (except for I/O failures) its absent source agree: the same message, and the same line and column, which are left out of the text only for line 1 column 1. A node that does not fit is described as what it is (unit value, boolean, integer, floating point or string with its exact content, sequence, map, or enum where its tag was asked about) together with what the reader expected; a wrong length names the true number of elements or entries; unknown, missing and duplicate fields, unknown variants and duplicate keys are named. What a user's own Serialize, Deserialize or Visitor says in an error arrives unchanged. Breaches of the grammar are reported with the parser's own words and the lines they are on, and each of the library's own refusals (merge, tag, bytes, numbers, several documents, end of stream) has its one message.",
 ["inputs"],"every failing input, every kind of node at the place of failure, every message",
 "Tests compare a few dozen messages; whether message, location, Debug form and content agree for any other combination is not looked at.",
 ["src/error.rs","src/libyaml/error.rs","src/libyaml/cstr.rs","src/de.rs","src/value/de.rs","src/mapping.rs","src/number.rs"],
 [("rendering","src/error.rs: display, debug, message_no_mark; src/libyaml/error.rs: Display, Debug"),("what was found","src/de.rs: invalid_type; src/value/de.rs: unexpected; src/number.rs: unexpected"),("lengths","src/de.rs: end_sequence, end_mapping; src/value/de.rs"),("duplicate keys","src/mapping.rs: DuplicateKeyError")],None,["Error::to_string","Error::location","Debug for Error"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))

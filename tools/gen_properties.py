#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PS="svd-parser/src/"; EN="svd-encoder/src/"; RS="svd-rs/src/"
p("C01","Parsing keeps every value of an SVD document and adds none",
"Parsing a well-formed SVD document yields a device in which every supported element and attribute of every level (device, cpu, peripherals, address blocks, interrupts, clusters, registers, fields, enumerations, dim groups, write constraints) appears exactly once, under the right parent, in document order and with the value written there, and in which everything the document omits is absent or has its documented default. This does not depend on the order of sibling elements of different kinds, nor on surrounding whitespace in element text, comments and processing instructions between elements, a byte order mark, CDATA or character references. Unknown elements, and whatever they contain, are ignored wherever the format allows extra elements, and an optional text element that is empty counts as absent.",
["inputs","configurations"],"all well-formed SVD documents without duplicate single-valued elements; validation levels that accept them",
"The tests parse one small element per type in one fixed order; nothing parses a whole device with nesting, arrays, lists longer than two, permuted children, unknown elements or boundary values.",
[PS+f for f in ("lib.rs","elementext.rs","device.rs","cpu.rs","peripheral.rs","addressblock.rs","interrupt.rs","cluster.rs","register.rs","field.rs","enumeratedvalues.rs","enumeratedvalue.rs","dimelement.rs","array.rs","writeconstraint.rs","registerproperties.rs")],
[("per-type Parse implementations",PS+"*.rs"),("child lookup by tag name",PS+"elementext.rs"),("BOM trimming",PS+"lib.rs")],["return value of parse / parse_with_config"])
p("C02","Number, boolean, bit-range and dimIndex literals mean what the format says",
"Wherever a document carries a number, decimal, 0x/0X hexadecimal, and # or 0b binary text denote exactly that number, with x or X bits of a binary number read as 0; 0, 1, true and false are the booleans; the three bit-range notations ([msb:lsb], lsb/msb, bitOffset/bitWidth) of one range give the same offset and width and remember their notation; dimIndex accepts comma lists, numeric ranges and single-letter ranges of one case and gives the listed items in order. Text outside this grammar, a number that does not fit 32 bits (64 bits for base addresses, reset values and masks, enumerated values and write-constraint bounds), and a range whose end is below its start are errors, never another value.",
["inputs"],"all literals of every numeric, boolean, bit-range and dimIndex position",
"Tests use a handful of literals in a few elements; width limits, notations, don't-care bits and malformed texts at every position are not reached.",
[PS+"types.rs",PS+"bitrange.rs",PS+"dimelement.rs",RS+"dimelement.rs",RS+"bitrange.rs"],
[("u32/u64/bool literal parsers",PS+"types.rs"),("bit range parser",PS+"bitrange.rs"),("DimElement::parse_indexes",RS+"dimelement.rs")],["parse results of documents with one literal replaced"])
p("C03","The parser never crashes, whatever text and options it is given",
"For any input text and any combination of parser options (validation level, array and derivation expansion, property expansion, ignoring enumerations), parsing returns either a device or an error: it does not panic, overflow, exhaust the stack or run on without end. This includes text that is not XML, truncated or randomly mutated SVD documents, and documents whose numbers, names, lists and references take arbitrary and extreme values. (Text nested at most about 200 levels deep and asking for at most about a million array items is meant.)",
["inputs","configurations"],"all texts x all parser configurations, with element nesting up to about 200 levels, index ranges and expansions up to about 10^6 items",
"One faulty file is tested. Panics hide in arithmetic, unwraps and recursion that only odd combinations of values and options reach.",
[PS+"lib.rs",PS+"expand.rs",PS+"bitrange.rs",PS+"writeconstraint.rs",RS+"field.rs",RS+"registerproperties.rs"],
[("Result-returning parsers",PS+"*.rs"),("cycle checks and offset checks in expansion",PS+"expand.rs")],["panic hook, exit status and CPU time of the parsing process"])
p("C04","Documents that break the format's structure are rejected",
"Parsing fails when a required element is missing (device: name, peripherals; peripheral: name, baseAddress; register and cluster: name, addressOffset; field: name and a bit range; interrupt: name, value; addressBlock: offset, size, usage; cpu: name, revision, endian, mpuPresent, fpuPresent, nvicPrioBits, vendorSystickConfig; enumeratedValue: name; write range: minimum, maximum; array: dim), when a keyword is not one of the format's words, when a list of peripherals, registers, fields or enumerated values holds a foreign element, or when a write constraint is empty, doubled or of unknown kind. It also fails when an array's name has no %s placeholder or the number of dimIndex entries differs from dim. One such defect anywhere in an otherwise correct document of any size makes the parse fail at every validation level.",
["inputs","configurations"],"all documents with exactly one listed defect at any element of any depth; all validation levels",
"Tests try a few single elements; a required element silently defaulted at some position, or a keyword check lost for one element type, passes them.",
[PS+f for f in ("elementext.rs","array.rs","cpu.rs","device.rs","peripheral.rs","register.rs","cluster.rs","field.rs","interrupt.rs","addressblock.rs","enumeratedvalues.rs","registercluster.rs","writeconstraint.rs","dimelement.rs")],
[("get_child_text / get_child_elem errors",PS+"elementext.rs"),("array checks",PS+"array.rs"),("keyword parsers",RS+"*.rs")],["error or success of parse_with_config"])
p("C05","Parse errors name the offending element, its position and its parents",
"An error from parsing a document with one defect reports the line and column where the offending element starts: the element holding the bad value, or for a missing or contradictory part the element that lacks or violates it (bad bit positions are attributed to the field). The report also contains the names of all enclosing device, peripheral, register and field elements that have one. Line and column count from 1 and refer to the input text after an optional byte order mark.",
["inputs"],"all documents with exactly one value, structure or validation defect at any element of any depth, in any layout (line breaks, indentation, comments)",
"Tests compare one message for a bare element; position and context in nested documents of varied layout are not exercised.",
[PS+"lib.rs",PS+"elementext.rs"]+[PS+f for f in ("types.rs","bitrange.rs","array.rs","registerproperties.rs","writeconstraint.rs")],
[("SVDError::at node ids",PS+"*.rs"),("context chain built in parse_with_config",PS+"lib.rs")],["text of the returned error"])
p("C06","Validation accepts exactly what its level allows, on every route",
"Weak validation rejects exactly: a device without peripherals, an enumerated value with neither value nor default mark, a non-derived enumeration without values, a zero-width bit range, enumerated values or write ranges that do not fit the field's width (or reversed write ranges), and reset values wider than their stated size; strict validation rejects these and also illegal names and derivation paths, an empty registers or fields list or cluster (unless derived), reset masks too wide or not covering the reset value, an enumerated value with both value and default mark, more than two or same-usage enumerations in one field, and devices lacking version, description, addressUnitBits or width; disabled validation rejects none of this. So what passes a stricter level passes every laxer one, with the same device. Parsing, building bottom-up, and recursively validating a finished device give the same verdict.",
["inputs","configurations"],"all devices x three levels x three routes (for recursive validation: dimArrayIndex entries and omitted device header values excepted)",
"Tests try a few values at strict level; the exact boundary (width 63/64, size equal to bit length, usage pairs, name grammar) and agreement of the routes need all combinations.",
[RS+f for f in ("lib.rs","field.rs","registerproperties.rs","enumeratedvalue.rs","enumeratedvalues.rs","register.rs","cluster.rs","peripheral.rs","device.rs","writeconstraint.rs")],
[("validate / validate_all",RS+"*.rs"),("builder build(lvl)",RS+"*.rs"),("Config::validate_level",PS+"lib.rs")],["Ok/Err of parse, build and validate_all"])
p("C07","Encoding a device and parsing it back gives the same device",
"For every device whose contents SVD can express, encoding it to XML and parsing the text returns an equal device (every field of every nested element, including bit-range notations, index lists, derivation references, header attributes and texts with markup characters, non-ASCII text and line breaks). Encoding the re-parsed device gives the same text again.",
["inputs"],"all devices with trimmed non-empty XML-legal texts, index lists matching their dim and free of ',' and '-', and no empty optional lists; default encoder options",
"Tests round-trip one or two hand-written elements per type, mostly with default options and without nesting.",
[EN+"*.rs",PS+"*.rs",RS+"*.rs"],[("Encode implementations",EN+"*.rs"),("Parse implementations",PS+"*.rs")],["device before and after; encoded text"])
p("C08","Encoder output is well-formed SVD: schema order, nothing lost or added",
"The encoder's output is well-formed XML whose root is a device element carrying the schema attributes, in which the children of every element follow the order of the CMSIS-SVD schema, each datum present in the device appears exactly once as the element or attribute of its name with the value's default notation, and nothing else appears. Items of lists keep their order, markup characters are escaped, and the fields and optional elements the device does not have are not written.",
["inputs"],"all devices as in C07; judged by an independent XML reader and an independent table of the schema order",
"Tests compare a few single elements with fixed strings; whole devices and element combinations are not checked against the schema.",
[EN+f for f in ("device.rs","cpu.rs","peripheral.rs","cluster.rs","register.rs","field.rs","enumeratedvalues.rs","enumeratedvalue.rs","dimelement.rs","addressblock.rs","interrupt.rs","registerproperties.rs","writeconstraint.rs","bitrange.rs")],
[("order of children pushed",EN+"*.rs"),("Element::merge for arrays",EN+"lib.rs")],["output of encode read by an independent XML reader"])
p("C09","Each encoder formatting option affects exactly its elements, as documented",
"Under any combination of encoder options, each number is written in the format chosen for its kind (plain, 8- or 16-digit padded, upper or lower hexadecimal, decimal, binary) and still denotes the same number, each name-kind element and derivedFrom attribute listed for an option is converted to the chosen identifier case with its %s placeholder intact, field ranges use the chosen notation for the same bits, and nothing else in the output changes. Setting an option by its textual name and value equals setting it directly. Identifier cases split words at underscores, hyphens, spaces, lower-to-upper changes and before the last capital of an acronym.",
["inputs","configurations"],"all devices with ASCII identifiers x all option values; textual option setting for all valid keys and values",
"One test sets one option on one element; cross-talk between the 23 options and per-element formats is not reached.",
[EN+"config.rs"]+[EN+f for f in ("peripheral.rs","cluster.rs","register.rs","field.rs","bitrange.rs","dimelement.rs","enumeratedvalue.rs","enumeratedvalues.rs","interrupt.rs","addressblock.rs","registerproperties.rs")],
[("change_case / format_number",EN+"config.rs"),("Config::update",EN+"config.rs")],["output of encode_with_config read by an independent XML reader"])
p("C10","Encoder sorting only permutes, and orders as requested",
"With a sorting option the encoder writes a permutation of the peripherals, of each peripheral's direct registers and clusters, or of each register's fields: ordered by ascending or descending full-width offset or address, or by name, with equal keys keeping their original order. Derived-last puts items without any derivation (for fields, also without derived enumerations) before derived ones, and registers-first or clusters-first puts one kind before the other, each group sorted as requested. Lists not named by the option keep their order, and the content of every item is unchanged.",
["inputs","configurations"],"all devices, including equal keys and offsets over the whole 32/64-bit range x all sorting options, set directly or by text",
"No test covers sorting at all.",
[EN+"device.rs",EN+"peripheral.rs",EN+"register.rs",EN+"config.rs"],
[("sort_derived_peripherals",EN+"device.rs"),("rc_sort, sort_derived_register_cluster",EN+"peripheral.rs"),("sort_derived_fields",EN+"register.rs")],["order of items in the encoded output"])
p("C11","Expansion turns arrays and clusters into the right flat items",
"Expanding a device replaces every array of peripherals, clusters, registers and fields by one item per index, in index order, with the index (or the name from a matching dimArrayIndex entry) in place of the placeholder in name, description and display name, and with address or bit offset increased by the increment per item; clusters disappear and their registers, at any nesting depth, take the enclosing cluster names as underscore-joined prefix and the sum of offsets. All other data of each item is unchanged, the number and order of items follow the document, expanding again changes nothing, and expanding while parsing equals parsing and then expanding. An item whose offset or address does not fit its type makes the expansion fail.",
["inputs"],"all devices without derivations: any nesting of arrays and clusters, index lists, dimArrayIndex overrides, empty and one-item arrays",
"Two tests expand one register array and one field array; nesting, clusters in clusters, overrides and overflow are not reached.",
[PS+"expand.rs",RS+"array.rs",RS+"register.rs",RS+"cluster.rs",RS+"field.rs",RS+"peripheral.rs",RS+"dimelement.rs"],
[("expand and helpers",PS+"expand.rs"),("names/descriptions/expand iterators",RS+"array.rs")],["device returned by expand"])
p("C12","derivedFrom inherits what is not given explicitly, through chains and paths",
"After expansion an element with derivedFrom carries every value it states itself and takes each inheritable value it leaves out (for peripherals, clusters, registers, fields and enumerations: their optional contents, children and, for a name with a placeholder, the array dimensions) from the referenced element, transitively along chains of any length; no derivedFrom remains. References may be a bare name (same block, register or, for enumerations, any field of the same register), a register- or field-qualified name within the same block, or a full dotted path, may use the placeholder name or any expanded name of an array, and may point forwards or backwards. References inside inherited children are resolved where those children were written.",
["inputs"],"all devices whose references are acyclic and point to elements written in the document",
"No test resolves any derivedFrom; chains, cross-block paths and nested relative references are where resolution goes wrong.",
[PS+"expand.rs",RS+"derive_from.rs"],
[("derive_* functions and Index",PS+"expand.rs"),("DeriveFrom implementations",RS+"derive_from.rs")],["device returned by expand and parse with expansion; DeriveFrom results"])
p("C13","Unresolvable or cyclic derivations are errors, not crashes or guesses",
"Expanding a device in which some derivedFrom names no existing element, names the element itself, or takes part in or leads into a cycle of any length (at peripheral, cluster, register, field or enumeration level, including a cluster derived from one that contains it) returns an error and terminates. No device is returned with such a reference ignored.",
["inputs"],"all devices with at least one dangling, self-referring or cyclic derivation at any level and depth",
"No test has a failing derivation; cycles longer than one element used to overflow the stack.",
[PS+"expand.rs"],[("self-derivation checks, lookups in Index, open cluster stack",PS+"expand.rs")],["error or success of expand, process exit status"])
p("C14","Register property expansion inherits from the nearest level and nothing else",
"Expanding register properties gives every register that is not derived, and not inside a derived cluster or peripheral, for each of size, access, protection, reset value and reset mask its own value if stated, else the value of the nearest enclosing cluster, peripheral or device that states one. Derived elements and their contents, fields, and the defaults of clusters, peripherals and the device are left as they were. Doing it twice changes nothing, and requesting it while parsing equals doing it on the parsed device (before arrays and derivations are expanded).",
["inputs","configurations"],"all devices, any cluster nesting, any subset of properties stated at each level",
"No test covers it.",
[PS+"expand.rs",RS+"derive_from.rs",PS+"lib.rs"],[("expand_properties",PS+"expand.rs"),("RegisterProperties::derive_from",RS+"derive_from.rs")],["device after expand_properties"])
p("C15","Builders and modifications set exactly what they are told to",
"For every SVD type, building from setters gives an object with exactly the values set, whatever order the setters are called in (the last call for a value wins), converting an object to a builder and building gives an equal object, and omitting a required value is an error that names it, with the device's documented defaults for version, description, address unit and width outside strict validation. Modifying an object replaces exactly the values that are set in the modification and keeps the others, an empty text removing an optional text. When the modification makes the element derived, the reference is set and the contents it replaces (children, registers, fields or enumerations, address blocks, register properties, data type, write constraint, modified-write values, and of an enumeration also name and usage) are cleared.",
["inputs","histories"],"all subsets and orders of setter calls with arbitrary values, and sequences of modifications, for all 12 buildable types",
"The tests use builders only to state expectations; no test modifies anything or calls setters in another order.",
[RS+f for f in ("device.rs","cpu.rs","peripheral.rs","cluster.rs","register.rs","field.rs","enumeratedvalues.rs","enumeratedvalue.rs","dimelement.rs","interrupt.rs","addressblock.rs","registerproperties.rs")],
[("*Builder, From<T> for TBuilder, modify_from",RS+"*.rs")],["values of built and modified objects"])
p("C16","JSON and YAML serialization round-trips every device",
"Serializing any device to JSON or YAML and deserializing it returns an equal device, apart from the three XML schema attributes, which return to their defaults. The serialized form uses the format's element names as keys (camelCase, vendorID, fpuDP, nvicPrioBits and so on; snake-case for an enumerated value's default mark and an enumeration's derivation, datatype for a register's data type, children for a cluster's contents) and the format's keywords as values (data types in short form: u8, u16_ptr and so on), leaves out absent optional values and empty lists of interrupts, enumerations and values, and is the same each time. Arrays keep their dimensions with or without an index list, and singles stay singles.",
["inputs"],"all devices whose index entries contain no ',' or '-' ; both formats",
"Two ignored-by-default paths and one example exist; no test deserializes a device.",
[RS+"array.rs",RS+"dimelement.rs",RS+"bitrange.rs",RS+"device.rs",RS+"registercluster.rs"],
[("serde derives and flatten wrappers",RS+"array.rs"),("BitRange and dimIndex (de)serializers",RS+"bitrange.rs, "+RS+"dimelement.rs")],["deserialized device, JSON tree"])
p("C17","Deserialization accepts equivalent spellings and fails cleanly on bad data",
"Deserialization gives the same device whatever the order of keys, with unknown keys added, with dimIndex written as list, comma text or range text, with any of the three bit-range notations, and with absent optional keys or explicit nulls for them (lists excepted). A missing required key, a value of the wrong type (other than a scalar that YAML takes for text, or a list in place of an object), an unknown keyword, a malformed or reversed bit range or index range gives an error. No document, however mutated, makes deserialization panic.",
["inputs"],"all JSON and YAML renderings of all devices, and single mutations of them",
"No test deserializes anything.",
[RS+"array.rs",RS+"dimelement.rs",RS+"bitrange.rs",RS+"registercluster.rs"],[("untagged enums, flatten, defaults",RS+"*.rs")],["Ok/Err and value of serde_json / serde_yaml deserialization"])
p("C18","Iterators and lookups see every child exactly once, in order",
"On any peripheral or cluster the register and cluster iterators yield exactly the direct children of that kind in stored order, the all-registers iterator yields every register at any depth exactly once in document order, and the mutable variants (and older aliases) visit the same elements at the same places, so that changes made through them affect exactly those elements. Lookup by name returns the first child of that kind with exactly that name, or nothing; the same holds for peripherals, interrupts, fields, enumerations by usage, enumerated and default values. Names, descriptions, offsets and derivation of a register-or-cluster are those of the item it holds.",
["inputs"],"all element trees, including long lists, deep nesting, duplicate names and absent lists",
"No test uses the iterators or lookups.",
[RS+"registercluster.rs",RS+"peripheral.rs",RS+"cluster.rs",RS+"register.rs",RS+"field.rs",RS+"enumeratedvalues.rs",RS+"device.rs"],
[("RegisterIter, ClusterIter, AllRegistersIter and mutable variants",RS+"registercluster.rs"),("get_* functions",RS+"*.rs")],["sequence of visited elements"])
p("C19","Bit geometry is exact: ranges, bounds and masks agree",
"For every non-empty bit range, lowest and highest bit, offset, width and the textual [msb:lsb] form describe the same bits whichever constructor made it, and the text parses back to the same range. The bit mask of a field within 64 bits has exactly its bits set, that of a field array the union over its items, and that of a register the union over its fields. Malformed or reversed texts give no range.",
["inputs"],"all ranges over 32-bit positions; masks for ranges and arrays within 64 bits",
"One test prints three ranges.",
[RS+"bitrange.rs",RS+"field.rs",RS+"register.rs"],[("BitRange constructors and accessors",RS+"bitrange.rs"),("bitmask",RS+"field.rs, "+RS+"register.rs")],["returned numbers and texts"])
p("C20","Keyword vocabularies are complete, exact and consistent across formats",
"For access, protection, usage, address-block usage, endianness, data type, modified-write values and read action, the accepted words are exactly those of the CMSIS-SVD schema (case-sensitive), each value's text parses back to it, distinct values have distinct texts, and any other text is refused. XML parsing, XML encoding and the text functions agree on the words, and defaults are the schema's (read-write access and usage, modify, non-secure protection, registers usage, little endian). An access value counts as readable or writable exactly as its name says. A validation level reports the kind it is (every level but disabled counts as weakly checked), and a cpu counts as a Cortex-M exactly when its name begins with CM.",
["inputs"],"all words, and all near-miss texts sampled; every value of the eight vocabularies in every element that carries it",
"Tests cover four of the vocabularies with one or two words.",
[RS+f for f in ("access.rs","protection.rs","usage.rs","addressblock.rs","endian.rs","datatype.rs","modifiedwritevalues.rs","readaction.rs")],[("parse_str / as_str",RS+"*.rs"),("can_read / can_write",RS+"access.rs")],["returned values and texts"])
p("C21","Ignoring enumerations drops exactly those, whatever they contain",
"Parsing with the ignore-enumerations option gives the same device as parsing without it, except that fields have no enumerated values and no write constraint. Register write constraints and dimArrayIndex entries are kept, and defects inside the ignored field parts no longer make the parse fail while all other defects still do. The option works alike at every validation level and with expansion.",
["inputs","configurations"],"all documents, valid or with one defect inside or outside the ignored parts; all other options",
"No test sets the option.",
[PS+"field.rs",PS+"lib.rs"],[("ignore_enums branches",PS+"field.rs")],["devices parsed with and without the option"])
p("C22","Operations are pure: repeatable, independent of history, threads and each other",
"Parsing, encoding, expanding, validating, serializing and lookup read their inputs only: the input device and text are unchanged afterwards, and the same call gives the same result (or error text) every time, in any order among other calls with other documents and options, in a fresh process, and from any number of threads sharing the same device at once. Devices, configurations and errors may be sent and shared between threads, and a panic-free, race-free result needs no locking by the caller.",
["histories","schedules","inputs"],"all sequences and concurrent mixes of operations over several documents and configurations",
"Tests call each function once on one thread.",
[PS+"lib.rs",PS+"expand.rs",EN+"lib.rs",RS+"lib.rs"],[("no shared state apart from lazily built name patterns",RS+"lib.rs"),("HashMap index used for lookup only",PS+"expand.rs")],["digest of every result in history; ThreadSanitizer and Miri reports"])
p("C23","Dotted paths and the device index are faithful",
"A block, register, field or enumeration path prints as its dot-joined names, equals exactly the text it prints, and parsing a full path text gives back the parent path and last name, a bare name giving no parent. The index of a device maps the path of every peripheral, cluster, register, field and named enumeration written in it, under each element's own name and under every expanded name of it and of its enclosing arrays, to that very element. It contains nothing else.",
["inputs"],"all devices with unique sibling names (also after expansion), any nesting of arrays and clusters",
"No test builds an index or a path.",
[PS+"expand.rs"],[("BlockPath, RegisterPath, FieldPath, EnumPath, Index",PS+"expand.rs")],["contents of Index::create; path texts and comparisons"])
p("C24","Array helpers agree with the array's dimensions",
"For any array, the index, name, description and address or bit-offset helpers each yield exactly dim items, which correspond to each other item by item: indexes are the listed ones or 0, 1, 2..., names and descriptions have the placeholder (with its brackets, if any) replaced by the index unless a dimArrayIndex entry of that value overrides them, offsets grow by the increment. The index list is reported as a number range exactly when it consists of consecutive increasing integers without leading zeros, and range texts expand to exactly the items they denote. Deriving dimensions, single/array tests and access through an array to its item behave alike for all four array kinds.",
["inputs"],"all arrays whose index list length matches dim",
"Tests look at names of two small arrays.",
[RS+"array.rs",RS+"dimelement.rs",RS+"peripheral.rs",RS+"cluster.rs",RS+"register.rs",RS+"field.rs"],[("names, descriptions, Indexes, indexes_as_range, parse_indexes",RS+"array.rs, "+RS+"dimelement.rs"),("expand / offset iterators",RS+"*.rs")],["items yielded"])
p("C25","One derivation step fills exactly what is missing; references lead to content",
"Deriving one register-properties group, enumeration, field, register, cluster or peripheral from another keeps every value the element states itself, takes over from the source exactly the inheritable values the element lacks (register properties one by one; version, description, group, name affixes, header struct name, address blocks, interrupts and registers of a peripheral; header struct name and children of a cluster; description, data type, write constraint, side effects and fields of a register; description, access, write constraint, side effects and enumerations of a field; usage and values of an enumeration) and nothing else: name, display name, addresses, bit range and the reference itself stay. Between arrays and singles, an array keeps its own dimensions; a single whose name holds a placeholder takes those of an array it derives from (without dimension name), any other single stays single. The functions that follow a reference of a given element through the device index apply this to each source of the chain in turn and return a path that leads to the source of the content the element then has (of an enumeration: to the end of the chain), or no path if the content is its own; a reference that leads nowhere or in a circle is an error.",
["inputs"],"all pairs of elements of a kind, singles and arrays, with any parts left out; all references of all forms, chains and cycles in devices with unique sibling names",
"The tests derive a handful of elements by expanding whole documents; what expansion does not show (register properties of clusters, returned paths) is never looked at.",
[RS+"derive_from.rs",PS+"expand.rs"],[("DeriveFrom implementations",RS+"derive_from.rs"),("derive_peripheral, derive_cluster, derive_register, derive_field, derive_enumerated_values",PS+"expand.rs")],["derived elements and returned paths"])
p("C26","Parts of a device parse and encode on their own as within the device",
"Applying the Parse trait to a single element of a document (device, cpu, peripheral, cluster, register, field, enumeration, enumerated value, address block, interrupt, write constraint, dimArrayIndex; also an array's element without its dimensions, its dimensions, its register properties, or as register-or-cluster) gives exactly the part that parsing the whole document gives, with the same options. If the document has a defect, the elements enclosing it fail with the very same error and all others still parse. An element of another name is refused. Applying the Encode trait to a part gives exactly the element which encoding the whole device with that configuration has in its place, by default the same as with the default configuration, and that element alone parses back to the part.",
["inputs","configurations"],"all elements of all documents, with or without one defect; all parts of all devices under all encoder options",
"Tests parse and encode small elements on their own, a few per type.",
[PS+"lib.rs",PS+"array.rs",EN+"lib.rs"],[("Parse implementations",PS+"*.rs"),("Encode and EncodeChildren implementations",EN+"*.rs")],["parts and errors from Parse; elements from Encode"])
import os
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

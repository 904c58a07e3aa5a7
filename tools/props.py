#!/usr/bin/env python3
"""The property texts. Running this writes properties.jsonl and MANIFEST.json from them and from the rule registry."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "sa", "rules"))
sys.path.insert(0, os.path.join(V, "analyzer", "sa"))

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})


BUILD = "semantics/oca-bundle/src/build.rs"
VF = "semantics/oca-bundle/src/state/validator.rs"
OCA = "semantics/oca-bundle/src/state/oca.rs"
ATTR = "semantics/oca-bundle/src/state/attribute.rs"

prop("C01", "An ADD command changes exactly what it names",
     "Applying a well-formed ADD command (attributes and classification, meta, or a label, information, character encoding, conformance, format, unit, cardinality, entry code, entry, condition, link or attribute framing overlay) sets, for each attribute it names, exactly the value given for that attribute, under the given language, link target or frame id. "
     "Nothing else about the bundle under construction changes: other attributes, other metadata of the same attribute, the classification and the meta entries stay as they were, and metadata in a language not named is kept. "
     "A list of flagged attributes flags exactly the attributes it names. REMOVE of attributes or of the classification removes exactly those; a well-formed command of these kinds never panics.",
     ["inputs", "histories"], "every command of these kinds with any attribute names, values, languages, targets, and any bundle state it is applied to",
     "Tests apply a handful of fixed commands to fixed small bundles; a value attached to the wrong attribute, a swapped property or a clobbered sibling only shows for names, orders and existing state they do not use.",
     [BUILD, OCA, ATTR, "semantics/oca-bundle/src/state/oca/overlay"],
     [("apply_command", BUILD), ("add_attribute and per-overlay setters", OCA)], ["the box/bundle state after one command"])
prop("C02", "Undefined attributes and malformed commands are rejected, never ignored",
     "An ADD of any attribute overlay that names an attribute the bundle does not define is reported as an error naming that attribute, wherever it stands among the attributes named and whether or not any attribute exists yet. "
     "A language overlay or meta command whose language is missing or unknown, a character encoding that is not in the supported list, a link without a target, a framing without an id, a framing term without its predicate or its justification, a flag on an undefined attribute, a FROM command applied to a bundle, and commands nothing is defined for (MODIFY, REMOVE of an overlay, ADD or REMOVE of a bundle) are reported as errors. "
     "None of these panics, and none succeeds.",
     ["inputs"], "every command, every position of the undefined attribute, every bundle state",
     "Tests contain one undefined-attribute example; each overlay kind has its own code path and position-dependent loop.",
     [BUILD], [("apply_command error paths", BUILD)], ["the errors returned by the builder"])
prop("C03", "Re-declaring an attribute keeps what is not re-declared and takes what is",
     "When an attribute is declared again, every piece of metadata the new declaration carries replaces the old one: type, encoding, format, unit, entry codes, entry code mapping, cardinality, conformance, condition with its dependencies, standards, links, framings, mapping. "
     "Labels, information, category labels and entries are combined per language: languages given anew replace, others are kept, new ones are added. "
     "Metadata the new declaration does not carry is kept, and a flag once set stays set.",
     ["inputs", "histories"], "every pair of declarations of one attribute, each with any subset of metadata",
     "There are 18 independent optional pieces of metadata; tests merge two or three of them once.",
     [ATTR, OCA], [("Attribute::merge", ATTR), ("OCABox::add_attribute", OCA)], ["attribute state after a second declaration"])
prop("C04", "A generated bundle carries every attribute's metadata in the right overlay",
     "Generating a bundle puts every attribute with its type in the capture base, with the given classification, and lists exactly the flagged attributes as flagged. "
     "For each kind of metadata (encoding, format, conformance, cardinality, condition with dependencies, unit, entry codes, framing, and per language or target: labels, information, entries, links, meta) one overlay is generated per language or target exactly when some attribute carries such metadata, holding exactly the attributes that carry it, each with its own value. "
     "No other overlays of these kinds are generated.",
     ["inputs"], "every set of attributes with any subset of metadata in any languages",
     "Tests build a few bundles with all attributes alike; attributes that have the metadata in only one of several languages, or not at all, are what goes wrong.",
     [OCA, "semantics/oca-bundle/src/state/oca/overlay", "semantics/oca-bundle/src/state/oca/capture_base.rs"],
     [("OCABox::generate_bundle / generate_overlays / generate_capture_base", OCA), ("Overlay::add per overlay type", "semantics/oca-bundle/src/state/oca/overlay/*.rs")], ["the generated bundle"])
prop("C05", "Loading a bundle for extension restores every attribute and its metadata",
     "Loading an existing bundle as the basis of a new version restores every attribute with its name, type and flag, every overlay value on the attribute it belongs to under the right language, target or frame id, the meta entries per language, and the classification. "
     "No attribute is lost or invented, and no value moves to another attribute or language.",
     ["inputs", "histories"], "every bundle the builder can generate",
     "Tests load one or two bundles; each overlay kind has its own restoring code and tests check few of them.",
     [OCA], [("From<OCABundle> for OCABox", OCA)], ["the state restored from a bundle"])
prop("C06", "Every identifier is the digest of exactly the document it names",
     "In a generated bundle the capture base, every overlay and the bundle itself carry an identifier, and that identifier is the Blake3-256 digest of exactly the JSON document written for that part, with its own identifier masked. "
     "The document holds every content field: attributes, classification and flags for the capture base; every content field, the overlay type and the capture base identifier for an overlay; the capture base and every overlay for the bundle. "
     "Every overlay records the identifier of this bundle's capture base.",
     ["inputs"], "every generated bundle, every content field",
     "Tests compare a few identifiers to constants; a field left out of the digested document, or a document that differs from the one written, changes no constant until some other input collides.",
     [OCA, "semantics/oca-bundle/src/state/oca/overlay", "semantics/oca-bundle/src/state/oca/capture_base.rs"],
     [("sign / fill_said / calculate_said", OCA), ("derive(SAD) / #[said] and manual SAD and Serialize impls", "semantics/oca-bundle/src/state/oca/overlay/*.rs")], ["said fields and JSON of a generated bundle"])
prop("C07", "The commands written for a bundle rebuild that bundle",
     "The list of commands obtained from a bundle (to_ast) rebuilds it: applied one after the other to an empty bundle under construction, they give every attribute with its type, flag, entry codes, entries, labels, information, links, framing, format, unit, character encoding, conformance, cardinality and condition, the classification, and the meta entries in each language, with the values of the original, and nothing else. "
     "Every one of these commands is accepted.",
     ["inputs"], "every bundle of the OCAFILE-expressible overlay kinds, any values and languages",
     "Tests compare the commands for one or two fixed bundles; a kind of metadata lost or attached to another attribute or language on the way back shows only for bundles that carry it.",
     [OCA, BUILD], [("OCABundle::to_ast and the overlay-to-command conversion", OCA), ("apply_command", BUILD)], ["commands returned by to_ast, the bundle they rebuild"])
prop("C08", "Identifiers and JSON do not depend on hash-table order",
     "The identifier of a bundle, of its capture base and of every overlay, and the JSON written for them, depend only on the contents: iterating any hash table in another order gives the same identifiers and the same JSON, so the same OCAFILE gives the same SAID in every process.",
     ["inputs", "schedules"], "every bundle and overlay kind, every iteration order of every hash table",
     "A test sees one random iteration order per run, and with one or two entries per table most orders agree; the dependence shows in another process or with more entries.",
     [OCA, "semantics/oca-bundle/src/state/oca/overlay", "semantics/oca-bundle/src/state/oca/capture_base.rs"],
     [("generate_bundle and serialize_overlays", OCA), ("serialize_attributes of every overlay", "semantics/oca-bundle/src/state/oca/overlay/*.rs")], ["SAID and JSON of a generated bundle"])
AST = "semantics/oca-ast/src/ast/mod.rs"
prop("C09", "A bundle written as JSON is read back as the same bundle",
     "Reading the JSON written for a bundle gives the same bundle: the same identifiers, the same capture base with every attribute, type, flag and classification, and the same overlays, each with the same type, version, identifiers, language or target and every value; written again it is the same JSON, and the builder starts from the same state. "
     "This holds for every overlay kind, every shape of attribute type, entry codes and entries, and whatever names the attributes and metadata have.",
     ["inputs"], "every bundle, every overlay kind, every attribute type, any names and values",
     "Tests read back a few fixed bundles; each overlay kind and each variant of each type has its own reader, and a field written under one name and read under another is dropped silently.",
     [OCA, "semantics/oca-bundle/src/state/oca/overlay", "semantics/oca-bundle/src/state/oca/capture_base.rs", "semantics/oca-bundle/src/state", "semantics/oca-ast/src/ast"],
     [("Serialize and Deserialize of OCABundle, DynOverlay, CaptureBase", OCA), ("derived and manual serde impls of every overlay", "semantics/oca-bundle/src/state/oca/overlay/*.rs")], ["JSON of a bundle, the bundle read from it"],)
prop("C10", "Stored commands are read back as the same commands",
     "Reading the JSON written for a command, for an AST, or for a transformation gives the same value: the same command type, object kind, attributes with their types, properties, flagged attributes and references, in the same order, for every kind of command. "
     "(Overlay versions are not written and are read as the current one.) The numeric codes object kinds are stored under are distinct, and each is read back as the kind it stands for.",
     ["inputs", "histories"], "every command the parsers can produce, every object kind",
     "The history of a bundle is stored as such commands; tests store and reload a handful of kinds, each kind has its own name and code.",
     [AST, "semantics/oca-ast/src/ast/attributes.rs", "transformation/ast/src/ast/mod.rs", "transformation/transformation-file/src/state/mod.rs"],
     [("Serialize and Deserialize of Command, ObjectKind, OverlayType, NestedValue, RefValue", AST), ("From<u8> / From<ObjectKind>", AST)], ["JSON of a command, the command read from it"])
prop("C11", "Malformed bundles and commands are reported, never panics",
     "Reading a bundle, overlay, command or reference from a JSON document that is not one ends in an error: a missing, unknown or ill-formed overlay type, a missing capture base or overlays, attributes of unknown type, a missing or unknown command type or object kind, a reference without known prefix. "
     "Whatever part of a document is missing or of the wrong kind, reading it never panics.",
     ["inputs"], "every JSON document, in particular every document with one wrong or missing part",
     "Tests read well-formed documents only; each reader has its own error paths.",
     [OCA, AST, "semantics/oca-bundle/src/state/oca/overlay", "semantics/oca-ast/src/ast/attributes.rs"],
     [("Deserialize impls of OCABundle, DynOverlay, OverlayType, Command, RefValue, NestedAttrType", OCA + ", " + AST)], ["result of reading a JSON document"])

FB = "oca/src/facade/build.rs"
FF = "oca/src/facade/fetch.rs"
FX = "oca/src/facade/explore.rs"
prop("C12", "What is built is found again: bundle, history, commands and objects",
     "After a bundle is built through the facade, asking for its identifier gives that bundle, with the same capture base, overlays and JSON; its history is the sequence of steps by which it was first derived, each with the identifier of the bundle before it, the command applied and the bundle it gave; its AST holds exactly those commands in order; and its objects are the capture base and overlays stored under their identifiers. "
     "The same holds for every intermediate bundle of the history, after building on top of a stored bundle, after building again, and when a command leads back to a bundle derived before. "
     "An identifier that is not stored is reported as an error, and none of these queries panics.",
     ["histories", "inputs"], "every sequence of builds, every stored bundle, every command kind",
     "Tests store one bundle and read it back; histories that branch, return to an earlier bundle, or extend a stored one take other paths through the same store.",
     [FB, FF, "oca/src/facade/bundle.rs", FX], [("Facade::build / build_cache / build_models", FB), ("get_oca_bundle, get_oca_bundle_steps, get_oca_bundle_ast, get_oca_objects", FF)], ["answers of the facade's queries"])
prop("C13", "Exploring an object gives exactly the objects related to it",
     "Exploring a stored bundle gives itself as the base, and as relations its capture base and every one of its overlays; exploring a capture base gives every bundle over it and all their overlays; exploring an overlay gives its capture base and every bundle that contains it. Each object is given once, with its own kind. "
     "Nothing else is related, an object shared by several bundles keeps all its relations, building again adds none, the order of hash tables plays no role, and an unknown identifier has no relations. "
     "A relation to an object of any kind is read back as the same identifier and kind.",
     ["histories", "inputs", "schedules"], "every sequence of builds, every object of every kind, every iteration order",
     "Relations are packed into bytes with a length and a kind code each; tests explore one small bundle.",
     [FX, FB], [("Facade::explore, add_relations, From impls of Relationship and OCAObject", FX)], ["answer of Facade::explore"])

prop("C14", "A list of commands is applied in order, each a step of the history",
     "Building from a list of commands applies all of them in order, to the given base bundle if there is one and to an empty one otherwise. The result is the bundle after the last command, and for each command there is one step with that command, the bundle it gave, and the identifier of the bundle before it (of the base for the first step; none without a base). "
     "If any command is wrong nothing is built, and the errors of every wrong command are returned in order, each with the line number and text of that command, also when a FROM line precedes the commands; a wrong command does not affect how the others are checked. "
     "No commands and no base is an error; no commands on a base gives the base. Building does not panic.",
     ["inputs", "histories"], "every list of commands, with or without a base, with any number of errors anywhere",
     "Tests build from fixed lists of good commands; the error paths and what is reported for which line are not covered, nor is building on a base.",
     [BUILD], [("from_ast", BUILD)], ["result of from_ast"])

OF = "semantics/oca-file/src/ocafile/mod.rs"
OG = "semantics/oca-file/src/ocafile.pest"
OI = "semantics/oca-file/src/ocafile/instructions"
TF = "transformation/oca-file/src/ocafile/mod.rs"
TB = "transformation/transformation-file/src/state/mod.rs"
prop("C15", "An OCAFILE is read as exactly the commands it states",
     "Reading an OCAFILE gives one command per instruction, in order: its type and object kind, exactly the attributes named with exactly the types or values stated (words, quoted texts without their quotes, lists, objects and references of any nesting), the properties stated (language, name, target, framing), the classification, the flagged attributes, the base a FROM names. "
     "Comments, empty lines, line continuations, indentation, letter case of keywords and line breaks play no role, wherever they stand. "
     "The meta comments are given with their values, and every command with the line it starts at and its text.",
     ["inputs"], "every text of the grammar: any names, texts, identifiers, layout and sequence of instructions",
     "The tests read a dozen fixed texts; how values, quotes, comments and continuations combine, and the reported line numbers, depend on the text.",
     [OF, OG, OI], [("ocafile::parse_from_string", OF), ("AddInstruction, RemoveInstruction, FromInstruction", OI), ("grammar", OG)], ["result of parse_from_string"])
prop("C16", "Wrong OCAFILE text is reported, never a panic or something else",
     "A text with an unknown keyword or overlay, a missing part (attribute, type, value, language, target, identifier), an ill-formed value, identifier, list, object or meta comment, an unclosed quote, text after an instruction, or an instruction that spans lines without continuation is an error; so are adding an attribute twice, and removing an attribute or classification that is not there. "
     "It is an error wherever in the file it stands; it is never dropped, read as something else, or a panic.",
     ["inputs"], "every text that is not an OCAFILE",
     "Tests hold two malformed texts; every rule of the grammar and every instruction reader has error paths of its own.",
     [OF, OG, OI, "semantics/oca-ast/src/validator.rs"], [("ocafile::parse_from_string", OF), ("OCAValidator::validate", "semantics/oca-ast/src/validator.rs")], ["result of parse_from_string"])
prop("C17", "Commands written as an OCAFILE are read back as the same commands",
     "The OCAFILE text generated from a list of commands (ADD of every kind an OCAFILE can state, FROM, REMOVE of attributes and of the classification) is accepted by the reader and gives the same commands in the same order, with the same attributes, types, values, properties, references and classification, whatever texts they hold. "
     "Writing does not panic.",
     ["inputs"], "every list of commands an OCAFILE can state; any names and texts (unquoted units holding both kinds of quotes or ending in a backslash excepted)",
     "Quoting, escaping and the forms of each value are chosen per kind of command by separate code; tests write one text and compare it literally.",
     [OF, OI], [("ocafile::generate_from_ast", OF)], ["text of generate_from_ast, commands read from it"])
prop("C18", "A file is read by the reader its precompiler line names",
     "A file whose meta comments name the transformation precompiler is read as a transformation, a file that names the semantics precompiler or none as an OCAFILE, exactly as the respective reader reads it; naming any other precompiler is an error, and so is every text its reader does not accept. Text inside instructions and comments does not choose the reader. "
     "A transformation file gives one command per RENAME or LINK instruction, in order, with exactly the pairs of names stated, its meta comments, and the line and text of each command; malformed text is an error, never a panic.",
     ["inputs"], "every text, every place of the precompiler line",
     "Tests cover one file of each kind; the choice is made by a third grammar before the file is read.",
     ["oca-file/src/ocafile/mod.rs", TF], [("ocafile::parse_from_string", "oca-file/src/ocafile/mod.rs"), ("ocafile::parse_from_string", TF)], ["result of parse_from_string"])
prop("C19", "A transformation holds exactly what its file states, under its digest",
     "Building a transformation from commands gives the source and target its meta comments name, without the reference prefix, and exactly the stated pairs of attribute names, later ones for the same attribute replacing earlier ones. "
     "Its identifier is the digest of its own JSON document, which holds all of these, and does not depend on hash-table order. "
     "A transformation without commands and source or target is an error, and building does not panic.",
     ["inputs", "schedules"], "every list of RENAME and LINK commands and meta comments, every iteration order",
     "Tests build one transformation.",
     ["transformation/transformation-file/src/build.rs", TB], [("build::from_ast", "transformation/transformation-file/src/build.rs"), ("Transformation", TB)], ["result of from_ast"])


BF = "oca/src/facade/build.rs"
LR = "oca/src/local_references.rs"
prop("C20", "A name in an OCAFILE stands for the bundle saved under it, or is an error",
     "Building or validating an OCAFILE that refers to bundles by name (refn:), as attribute type at any depth of arrays or as link target, gives the bundle, history and stores that the same file with the identifiers in place of the names gives. "
     "A file that names itself is saved under that name with the identifier of the bundle built, a name given again means the latest bundle, and a file cannot use its own name before it is saved. "
     "A name that is not known, or that an external store maps to something that is no identifier, is an error that carries the name, never a panic, and a file that is refused leaves all stores and names as they were. "
     "Validation stores nothing but the name; validation with external references uses only the external store and leaves the facade as it was.",
     ["inputs", "histories"], "every file that uses names, every content of the name table, every place a name can stand",
     "Tests use one name in one place; nested arrays, link targets, unknown names among known ones and redefined names each take their own path.",
     [BF, LR], [("replace_refn_with_refs", LR), ("oca_ast_to_oca_build_with_references", BF), ("References for the facade's database", BF)], ["bundle, stores and names after build_from_ocafile, validate_ocafile, validate_ocafile_with_external_references, fetch_all_refs"])
prop("C21", "FROM extends a stored bundle as if its instructions came first",
     "Building a file that starts with FROM and the identifier of a stored bundle gives the bundle, identifier and history that one file with the instructions of the base followed by the new ones gives, and everything stored about the base stays available. "
     "A wrong instruction after FROM is reported with its own line and text, and then nothing is stored; a FROM that is not the first instruction is an error; a file with only FROM is the base.",
     ["inputs", "histories"], "every stored base and every continuation, in any number of files",
     "Tests extend one or two small bundles; index offsets between commands and lines, reloading of the base from JSON and the chain of parents only differ for longer histories and richer bases.",
     [BF, BUILD, FF], [("parse_and_check_base", BF), ("from_ast with a base", BUILD), ("OCABundle to OCABox", OCA)], ["bundle and history after build_from_ocafile"])
prop("C22", "A bundle asked for with dependencies comes with all of them",
     "Asking for a stored bundle with dependencies gives the bundle itself and exactly the bundles its attributes refer to, directly, inside arrays of any depth, or through other bundles, each as it is stored; without dependencies the list is empty. If one of them is not stored the answer is an error, never a partial list or a panic.",
     ["histories"], "every graph of stored bundles that refer to one another",
     "Tests follow one direct reference.",
     [FF], [("get_oca_bundle, retrive_all_references", FF)], ["result of get_oca_bundle"])
prop("C23", "The text of a stored bundle tells its history and builds it again",
     "The OCAFILE text the facade gives for a stored bundle is readable, states exactly the instructions the bundle was built from, in order, and building it anew gives the same bundle with the same identifier, also when it uses names or was reached by extending another bundle. "
     "The text written from a bundle alone (parse_oca_bundle_to_ocafile) is readable and builds the same bundle. Neither panics. "
     "Texts that look like references (refs:..., refn:...) are excepted, see the stored form of commands.",
     ["inputs", "histories"], "every OCAFILE that can be built",
     "One test does this for one file without links, framings, groups of codes, arrays of arrays or removed attributes.",
     [FF, BF, OCA, "semantics/oca-file/src/ocafile/mod.rs"], [("get_oca_bundle_ocafile", FF), ("parse_oca_bundle_to_ocafile", BF), ("generate_from_ast", "semantics/oca-file/src/ocafile/mod.rs"), ("OCABundle::to_ast", OCA)], ["the text, and the bundle built from it"])


prop("C24", "Validating a bundle reports all that is wrong with it and nothing else",
     "Validator::validate accepts every generated bundle without conditions. It reports a capture base, an overlay or a bundle whose content was changed after it was identified, or whose identifier is missing or another one, and an overlay recorded for another capture base: one error for each such part, naming the kind (and language) of the overlay, however many there are. "
     "With enforced languages it reports, for the labels, the information texts, the entries and the meta texts of a bundle that has any, each language used that is not enforced, each enforced language that is missing, and each attribute (or meta name) that has a text in one language used but not in another. Without enforced languages none of this is reported. "
     "A condition that refers to its own attribute, to an attribute the bundle does not define or to a dependency it does not list is reported, in every conditional overlay; whether other conditions evaluate is the verdict of the Lua interpreter. "
     "No error hides another, and validation does not panic, whatever the types of the attributes.",
     ["inputs"], "every generated bundle, every change to a part of it, every list of enforced languages",
     "Tests validate four bundles; a part that is not covered by the comparison, or an error that hides others, only shows for the tampering they do not do.",
     [VF, OCA, "semantics/oca-bundle/src/state/oca/overlay.rs"], [("Validator::validate", VF), ("fill_said, sign", OCA)], ["the errors returned by the validator"])

prop("C25", "Listing and searching give exactly the stored bundles, page by page",
     "Listing the OCA bundles or the capture bases gives every bundle built through the facade (every capture base of one) exactly once over the pages, also when it was built again, and nothing else, each with the content it was built with. A page holds at most as many as asked for, all but the last page that many, and the total is their number, also on a page past the end; page 0 is the first page. "
     "Searching for a word gives, in the same way, exactly the bundles that have it in the name or the description of their meta data in any language, whether or not a language is preferred, with the text around the match, and changes nothing. A search expression that cannot be read finds nothing. "
     "No page, limit, search expression or text of a bundle (also with characters special to regular expressions) makes listing or searching panic. How results are ranked is not stated.",
     ["inputs", "histories"], "every set of stored bundles, every word, limit and page",
     "Tests list and search a handful of bundles on one page; a wrong column, offset, grouping or escape shows only for other pages, languages or texts.",
     [FF, "oca/src/repositories/oca_bundle_cache_repo.rs", "oca/src/repositories/capture_base_cache_repo.rs", "oca/src/repositories/oca_bundle_fts_repo.rs", FB],
     [("fetch_all_oca_bundle, fetch_all_capture_base, search_oca_bundle", FF), ("build_cache, build_meta", FB), ("OCABundleFTSRepo::search", "oca/src/repositories/oca_bundle_fts_repo.rs")], ["results of listing and searching"])


prop("C26", "What is put into a storage is what is got from it",
     "For each implementation of the storage trait (in memory, sled, file system): a value inserted under a namespace and a key is what get gives for them, until another value is inserted under the same ones; it is found under no other key or namespace; what was not inserted is absent. Listing a namespace gives exactly the keys and values inserted. "
     "This holds for every key, also an empty one and ones with separators, dots or escapes, and for every value. A storage writes nothing outside of the place it was configured with; storages in different places share nothing; a storage opened again in the same place holds what was inserted. A storage that was not opened, or has no place, holds nothing or answers with an error. None of these panics. "
     "A configuration holds the path given and cannot be made without one. The same holds for the storage of the DAG crate, which has no namespaces. Failures of the disk and keys longer than a file name may be are not covered.",
     ["inputs", "histories"], "every key, value and namespace, in every implementation of the storage trait",
     "Tests use a few well-behaved keys of one storage; a collision of names, a lost namespace or an escape from the directory shows only for other keys.",
     ["oca/src/data_storage.rs", "semantics/oca-dag/src/data_storage.rs"],
     [("DataStorage::get, get_all, insert, config", "oca/src/data_storage.rs"), ("SledDataStorage, InMemoryDataStorage, FileSystemStorage", "oca/src/data_storage.rs")], ["values got and listed, files written"])


FBU = "oca/src/facade/bundle.rs"
prop("C27", "A container of a bundle and its transformations keeps what it was given",
     "A container holds the bundle last added to it and every transformation added to it, in order, whatever was added in between. Written, it is a JSON document with a version, an identifier `d`, the bundle under `m` (null without one) and the transformations under `t`, each as it is written alone; `d` is the Blake3-256 digest of that document with `d` masked. "
     "Reading the text gives a container with that identifier, the same bundle and the same transformations in order, and writing it again gives the same text. Writing never panics; a text that is no container is an error, and reading never panics. "
     "(The identifier that fill_said sets in memory is not covered.)",
     ["inputs", "histories"], "every sequence of additions, every bundle and transformation, every document read",
     "No test touches the container; what an addition drops or reorders shows only for particular sequences.",
     [FBU, "transformation/transformation-file/src/state/mod.rs"],
     [("Bundle::new, add, encode, load_oca", FBU)], ["container, its JSON, the container read from it"])
DAGL = "semantics/oca-dag/src/lib.rs"
prop("C28", "Every version of every object of a build is recorded with its origin",
     "Recording a build gives one record for each of its steps, in order. It holds the command, as its JSON and the digest of that JSON; the bundle after the step, the bundle before it (that of the continued build for the first step of a continuation, none otherwise), its capture base and all of its overlays in order; for a command on attributes, the capture base after it, the one that the last such command of the build made, and the command; for a command on an overlay, the overlay of that kind and that language, link target or frame, the one that the last command of the build on the same overlay made, and the command; and nothing else. "
     "Building with the facade keeps each of these under the identifier of what it is about: for a version that is reached again, the record of its first derivation stays. Recording never panics. "
     "(The records of capture bases and overlays do not reach back into a continued build; overlay versions other than the current one are not covered.)",
     ["histories", "inputs"], "every list of commands, in one build or continued, repeated commands, several languages, targets and frames of one kind",
     "The one test records four commands; which version a record names depends on what came before it and on the other overlays of the bundle.",
     [DAGL, "oca/src/facade/build.rs"],
     [("build_core_db_model, apply_step", DAGL), ("Facade::build, build_models", "oca/src/facade/build.rs")], ["records of a build, the CoreModel entries stored"])

prop("C29", "A facade opened again works on the same data at the same places",
     "Opening a facade never panics for a configured place that exists or not, nor without one. It keeps operations and names in the first storage and bundles in the second, gives the second to validation, and keeps its search data in one file at the configured place (different for different places), or in memory and nothing on disk without one; directories that are missing are made, nothing else is written. "
     "Opened again with the same storages and configuration it is the same facade: every bundle, its history and its objects are given as before. "
     "(Disks that fail and concurrent opening are not covered.)",
     ["histories", "inputs"], "every configuration, every content of the storages",
     "Tests open facades in memory only; that a second opening finds everything is what persistent storages are for.",
     ["oca/src/facade/mod.rs", "oca/src/repositories/mod.rs"],
     [("Facade::new, storage, Connection::new", "oca/src/facade/mod.rs"), ("SQLiteConfig and its builder", "oca/src/repositories/mod.rs")], ["facade after opening, files on disk, bundles and histories given"])


prop("C30", "The version graph keeps what every version was made from and made into",
     "After any sequence of additions to the version graph, `X.upscending` holds the parent last given for X (nothing without one) and `X.downscending` every version added to X, in order, each with its length; versions are kept apart. A name longer than 255 bytes that is a parent or a child is an error, never a panic. `build_oca` gives the bundle that its commands give applied one by one, the first on the stored bundle it continues, if any; for each version, `oca.S` is the bundle as it is written and `oca.S.operation` the length and identifier of the version it was first made from (0 without one) and the JSON of the command, of any length. A command that cannot be applied, a base that is not stored, and no commands at all are errors. (What is kept by a build that fails at a later command, and a base that build_oca did not store, are not covered.)",
     ["histories", "inputs"], "every sequence of additions, every list of commands, also repeated and undone ones",
     "The one test of the graph asserts nothing, the tests of build_oca are ignored.",
     ["semantics/oca-dag/src/versioning/mod.rs", "semantics/oca-dag/src/versioning/ocafile.rs"],
     [("Graph::add", "semantics/oca-dag/src/versioning/mod.rs"), ("build_oca", "semantics/oca-dag/src/versioning/ocafile.rs")],
     ["entries of the storage, bundle given"])


prop("C31", "A condition is decided by its script with the values of its dependencies",
     "Checking the condition of an attribute evaluates exactly the text set as its condition, with the value given for each attribute it refers to (`${name}`) in each of its places, whatever the values hold and however many there are, and gives the answer of that script. A script that is not one, or fails, is an error; so are an attribute without a condition, a condition that refers to the attribute itself, and each dependency without a value, all named, with nothing evaluated. Setting a condition again replaces the one before. A condition read from a document that refers to dependencies it does not list is an error, never a panic. (What the Lua interpreter makes of a script, and whether it ends, is not decided.)",
     ["inputs"], "every condition, every set of dependencies, every value, every outcome of the script",
     "The test evaluates a few conditions with at most two dependencies, none wrong.",
     ["semantics/oca-bundle/src/state/oca/overlay/conditional.rs"],
     [("Conditionals::set_condition, check_condition", "semantics/oca-bundle/src/state/oca/overlay/conditional.rs")],
     ["answer, errors, script given to the interpreter"])


def main():
    from registry import REGISTRY
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    ids = [p["id"] for p in P]
    checks = []
    for i in ids:
        if i in REGISTRY:
            doc, fns, tech, note = REGISTRY[i]
            checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}", "technique": tech,
                           "level": "other", "level_note": note, "evidence_file": f"evidence/{i}.json"})
    na = [n for n in NA if n["property"] not in REGISTRY]
    miss = [i for i in ids if i not in REGISTRY and i not in [n["property"] for n in na]]
    assert not miss, miss
    m = {"version": 1, "setup_cmd": "bash analyzer/facts.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties", len(checks), "checks", len(na), "n/a")


main()

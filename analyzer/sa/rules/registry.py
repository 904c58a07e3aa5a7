"""property -> (what the rule decides, rule functions, technique, level note)"""
import apply, merge, mixed, bundle, rebuild, seal, codec, facade, steps, ocafile, transform, names, validator, listing, storage, drawn, container, record, opened, graph, condition

AI = "abstract interpretation of the compiler's MIR (symbolic labels, path-joining), obligations on the resulting abstract state"
TRUST = ("Decided on the type-checked MIR of the current source for symbolic attribute names and values on scenario skeletons (which keys exist), every program path joined; "
         "trusts rustc's MIR, the models of the standard library and of the listed crates (unmodelled calls are treated as unknown values that taint), and that the code treats attributes uniformly beyond the sizes of the skeletons.")

TAI = "abstract interpretation of the compiler's MIR over texts with symbolic parts, with the .pest grammars read by the analysis; obligations on the resulting abstract state"
TTRUST = TRUST.replace("symbolic attribute names and values on scenario skeletons (which keys exist)", "texts whose names, values and identifiers are symbolic (a name is any word, a text anything without quotes and backslashes) on skeletons of instructions") + " A grammar decision that depends on the unknown parts is an obligation that fails."

REGISTRY = {
    "C01": ("apply_command is interpreted over an abstract box of four attributes with symbolic names for every overlay kind; the box after the call must equal the expected one field for field on every path, and no reachable panic may remain", [apply.effects, apply.conditions, apply.meta, apply.capture_base, mixed.effects], AI, TRUST),
    "C02": ("apply_command is interpreted for every overlay kind with an undefined attribute at each position and with each malformed property; every path must end in an error that names the attribute, and no panic is reachable", [apply.undefined, apply.rejected], AI, TRUST),
    "C03": ("Attribute::merge and OCABox::add_attribute are interpreted with each field (alone, all, none) re-declared; the merged attribute must equal the specified one field for field; the field list is taken from the struct, an unspecified field fails", [merge.run, mixed.merging], AI, TRUST),
    "C04": ("generate_bundle is interpreted over abstract boxes (all metadata over two languages with uneven attribute sets; each kind alone; flags; bare); the generated overlays must be exactly the expected ones", [bundle.generate, mixed.generate], AI, TRUST),
    "C05": ("From<OCABundle> for OCABox is interpreted over an abstract bundle with every overlay kind; each field of each restored attribute must equal the expected value", [bundle.load, mixed.load], AI, TRUST),
    "C06": ("generate_bundle and the derived serialisers are interpreted with symbolic contents; the identifier of the capture base, of every overlay and of the bundle must be the Blake3-256 digest of exactly the JSON document written for it with its own field masked, and that document must hold every content field", [seal.seal, seal.kinds_sealed, mixed.sealing], AI, TRUST),
    "C07": ("generate_bundle, to_ast and apply_command are interpreted one after the other on abstract boxes with every kind of metadata; the box rebuilt from the written commands must equal the original one", [rebuild.roundtrip, mixed.rebuild], AI, TRUST),
    "C08": ("generate_bundle and the serialisers are interpreted under two opposite iteration orders of every hash table; all identifiers and documents must be the same; each overlay implementation is also serialised on its own with several entries in every table", [seal.determinism, mixed.order], AI, TRUST),
    "C09": ("the serialisers and readers (derived and handwritten) are interpreted one after the other on a bundle with every kind of overlay and attribute type, on every overlay kind alone, and on values of every type found in bundles; each must be read back as the value that was written, and written again identically", [codec.bundle_json, mixed.json], AI, TRUST),
    "C10": ("the serialisers and readers of commands, ASTs and transformations are interpreted on values covering every variant and field; each must be read back as the value written; the numeric codes of object kinds are computed and must be distinct and read back as the same kind", [codec.commands_json], AI, TRUST),
    "C11": ("the readers are interpreted on documents of the right shape with every single node replaced or left out (no panic may be reachable), and on documents of the wrong kind (every path must end in an error)", [codec.rejects, codec.malformed], AI, TRUST),
    "C12": ("build and the queries of the facade are interpreted one after the other on stores kept as exact byte strings, for histories that extend, return and repeat; the answers must equal what was built", [facade.stored], AI, TRUST),
    "C13": ("build and explore are interpreted on such stores under two opposite iteration orders, for one bundle with every overlay kind and for bundles sharing objects; the relations must be exactly the expected sets; the byte form of a relation is decided for every object kind", [facade.explored], AI, TRUST),
    "C14": ("from_ast is interpreted on lists of commands of several kinds, on a base and without, with wrong commands at each place; steps, results and errors must be those obtained by interpreting apply_command and generate_bundle for each command in turn", [steps.chain], AI, TRUST),
    "C15": ("the reader is interpreted, over the .pest grammar, on texts with symbolic names, values and identifiers: every instruction kind and value form alone, placed between comments and meta comments, in one file, and in drawn files (a fixed sequence of draws: instructions of every kind in any order, layout, letter case and quoting); the commands, meta, lines and texts must be exactly those stated", [ocafile.read, drawn.read], TAI, TTRUST),
    "C16": ("the reader is interpreted, over the .pest grammar, on texts with symbolic parts that break one rule each, alone and between drawn instructions; every path must end in an error and no panic may be reachable", [ocafile.malformed, drawn.malformed], TAI, TTRUST),
    "C17": ("the writer and the reader are interpreted one after the other on commands of every kind with symbolic values and with texts that need quoting, and on drawn lists of commands; the commands read must equal those written", [ocafile.write, drawn.write], TAI, TTRUST),
    "C18": ("the dispatcher and both readers are interpreted on texts with symbolic parts, with the precompiler named at different places; the result must equal that of the reader named; transformation instructions must give exactly the pairs stated; malformed texts must be errors on every path; drawn files of both kinds as in C15", [transform.read, transform.choose, drawn.transformations, drawn.chosen], TAI, TTRUST),
    "C19": ("from_ast and the serialisers are interpreted on lists of symbolic commands and meta comments under two iteration orders; source, target, attributes and identifier must be the expected ones, and what is missing an error", [transform.build], AI, TRUST),
    "C20": ("build_from_ocafile and the validations are interpreted, from text with symbolic parts, on stores kept as exact byte strings, once with names and once with the identifiers in their place; bundles and stores must be equal; unknown and wrong names must be errors on every path with the stores unchanged", [names.refs, names.external], TAI, TTRUST),
    "C21": ("build_from_ocafile is interpreted on a base file and on continuations starting with FROM, and on one file with all instructions; bundles and histories must be equal; wrong continuations must be reported with the lines stated", [names.froms], TAI, TTRUST),
    "C22": ("get_oca_bundle is interpreted on stores built from files that refer to one another directly, in arrays and in chains; the dependencies must be exactly the expected set, missing ones an error on every path", [names.deps], TAI, TTRUST),
    "C23": ("the facade's writers, the reader and build_from_ocafile are interpreted one after the other on files with every kind of instruction; the instructions read back must equal the original ones and the bundle built again must be the same", [names.texts], TAI, TTRUST),
    "C24": ("the validator is interpreted on generated bundles with every kind of overlay, with each field of each part changed, removed or exchanged, alone and together, and on bundles with every pattern of languages, drawn combinations of texts, languages, exchanged parts and conditions; the errors reported must be exactly the expected ones on every path and no panic reachable; the verdict of the Lua interpreter is taken as either", [validator.tamper, validator.translations, validator.conditions, validator.drawn, validator.valid_mixed], AI, TRUST),
    "C25": ("build_from_ocafile, the listings and the search are interpreted one after the other; the SQL statements in the source are read and evaluated over rows of symbolic values (keys, subqueries, joins, grouping, pages, full text expressions); records, totals and panics are compared with the bundles built, for every page of several limits, every preferred language, words that occur and do not, unreadable expressions and texts with special characters", [listing.listing, listing.search], AI + "; the SQL text is parsed and evaluated relationally", TTRUST + " Also trusts the meaning of the SQL subset read here."),
    "C26": ("the methods of every implementation of the storage trait are interpreted one after the other on an abstract disk (files, directories and sled trees as tables of symbolic texts) with keys of every shape in every namespace; what is got and listed must be exactly what was inserted, on every path, and what is written lies inside the place configured", [storage.histories, storage.dag, storage.contract, storage.configs], AI, TRUST + " Also trusts the models of the file system and of sled."),
    "C27": ("Bundle::new, add, encode and load_oca are interpreted for fixed and drawn sequences of additions of bundles and transformations with symbolic contents; the container, the JSON document it writes, what its identifier is the digest of, the container read back and its text are compared with what was added, and documents with one wrong or missing part are read", [container.container, container.malformed], AI, TRUST),
    "C28": ("build_core_db_model and Facade::build are interpreted on the steps of drawn lists of commands (every overlay kind, several languages, targets and frames, attributes added and removed, commands repeated), in one build and in a build and its continuation; every record, and every byte string stored for it, must be exactly the expected one", [record.recorded], AI, TRUST),
    "C30": ("Graph::add and build_oca are interpreted on an abstract sled database: drawn sequences of additions, and lists of commands (repeated, undone, longer than 255 bytes, wrong, none, continuing a stored version); everything kept under the versions is read back and compared with what the commands applied one by one give", [graph.links, graph.built], AI, TRUST + " Also trusts the model of sled."),
    "C31": ("set_condition and check_condition are interpreted for conditions of every shape (none to fourteen dependencies, repeated, joined, symbolic texts and values, values that look like references), with the Lua interpreter replaced by one that records the script it is given and answers, fails or refuses it; the script, the answer, the errors and the panics are compared with what the condition states", [condition.conditions], AI, TRUST),
    "C29": ("SQLiteConfig and Facade::new are interpreted on an abstract disk, for places that exist, are missing, nested or symbolic, and without one, twice in a row on storages with content; the facade, the database opened, the disk, and what the queries then give are compared", [opened.opened], AI, TRUST + " Also trusts the models of the file system, and that a database opened at one path is one database."),
}

"""Planted changes: edits against /repo's HEAD, and a program that fails with them."""
OCAB = "semantics/oca-bundle/src/"
OVL = OCAB + "state/oca/overlay/"
PRE = r'''
#![allow(unused)]
use oca_bundle_semantics::build::{from_ast, OCABuild};
use oca_bundle_semantics::state::oca::{OCABundle, OCABox, overlay};
use oca_file_semantics::ocafile::{parse_from_string, generate_from_ast};
fn quiet_build(base: Option<OCABundle>, src: &str) -> Result<OCABuild, String> {
    let ast = parse_from_string(src.to_string()).map_err(|e| format!("{e}"))?;
    from_ast(base, &ast).map_err(|e| e.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; "))
}
fn b(src: &str) -> OCABuild { quiet_build(None, src).unwrap() }
fn ovs<T: 'static>(b: &OCABundle) -> Vec<&T> { b.overlays.iter().filter_map(|o| o.as_any().downcast_ref::<T>()).collect() }
'''
SEEDS = []


def seed(id, property, needs, breaks, edits, main=None, **k):
    d = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if main is not None:
        d["main"] = PRE + main
    SEEDS.append(d)


seed("entry-redeclared-language", "C01",
     "a second ADD ENTRY for an attribute in a language it already has entries for",
     "the first entries of the language stay, the ones given by the second command are ignored",
     [(OVL + "entry.rs", "            entries.insert(l, entry);\n        } else {", "            entries.entry(l).or_insert(entry);\n        } else {")],
     r'''
fn main() {
    let r = b("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a={\"k\": \"first\"}\nADD ENTRY fr ATTRS a={\"k\": \"premier\"}\nADD ENTRY en ATTRS a={\"k\": \"second\"}\n");
    let j = ovs::<overlay::Entry>(&r.oca_bundle).iter().map(|o| format!("{:?}", o.attribute_entries)).collect::<Vec<_>>().join("|");
    assert!(j.contains("second") && j.contains("premier") && !j.contains("first"), "{j}");
}
''')

seed("merge-entries-keeps-old", "C03",
     "an attribute with entries is declared again with other entries in the same language",
     "the old entries win",
     [(OCAB + "state/attribute.rs", "self.entries.as_mut().unwrap().insert(*lang, entry.clone());", "self.entries\n                    .as_mut()\n                    .unwrap()\n                    .entry(*lang)\n                    .or_insert_with(|| entry.clone());")],
     r'''
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::entries::EntriesElement;
use oca_bundle_semantics::state::oca::overlay::entry::Entries;
fn main() {
    let r = b("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a=\"one\"\n");
    let mut bx = OCABox::from(r.oca_bundle);
    let lang = *bx.get_attribute_by_name("a").unwrap().entries.as_ref().unwrap().keys().next().unwrap();
    let mut n = Attribute::new("a".to_string());
    n.set_entry(lang, EntriesElement::Sai("two".to_string()));
    bx.add_attribute(n);
    let e = format!("{:?}", bx.get_attribute_by_name("a").unwrap().entries);
    assert!(e.contains("two") && !e.contains("one"), "{e}");
}
''')

seed("link-second-target-lost", "C04",
     "attributes linked to two different target bundles",
     "only the overlay of the first target is generated, the links to the other one are lost",
     [(OCAB + "state/oca.rs", "Some(o) => o.target_bundle == *target_bundle,", "Some(o) => !o.target_bundle.is_empty(),")],
     r'''
fn main() {
    let s1 = "EJeWVGxkqxWrdGi0efOzwg1YQK8FrA-ZmtegiVEtAVcu"; let s2 = "EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0";
    let r = b(&format!("ADD ATTRIBUTE a=Text\nADD LINK refs:{s1} ATTRS a=x\nADD LINK refs:{s2} ATTRS a=y\n"));
    let mut l = ovs::<overlay::Link>(&r.oca_bundle).iter().map(|o| (o.target_bundle.clone(), o.attribute_mapping.get("a").cloned())).collect::<Vec<_>>();
    l.sort();
    let mut w = vec![(s1.to_string(), Some("x".to_string())), (s2.to_string(), Some("y".to_string()))]; w.sort();
    assert_eq!(l, w);
}
''')

seed("load-one-information-language", "C05",
     "a bundle with information in two languages for one attribute is extended",
     "one of the two is lost when the bundle is loaded",
     [(OCAB + "state/oca.rs", """            for (attr_name, information) in overlay.attribute_information.iter() {
                attributes
                    .get_mut(attr_name)
                    .unwrap()
                    .set_information(*overlay.language().unwrap(), information.clone());
""", """            for (attr_name, information) in overlay.attribute_information.iter() {
                attributes
                    .get_mut(attr_name)
                    .filter(|attribute| attribute.informations.is_none())
                    .unwrap_or(&mut Attribute::default())
                    .set_information(*overlay.language().unwrap(), information.clone());
""")],
     r'''
fn main() {
    let r = b("ADD ATTRIBUTE a=Text\nADD INFORMATION en ATTRS a=\"hi\"\nADD INFORMATION fr ATTRS a=\"salut\"\n");
    let bx = OCABox::from(r.oca_bundle);
    let i = format!("{:?}", bx.get_attribute_by_name("a").unwrap().informations);
    assert!(i.contains("hi") && i.contains("salut"), "{i}");
}
''')

seed("empty-entry-not-digested", "C06",
     "entries of which one has an empty text",
     "the entry takes no part in the entry overlay's JSON and digest, so different bundles have the same identifier",
     [(OCAB + "state/entries.rs", "                for (k, v) in sorted_entries {", "                for (k, v) in sorted_entries.iter().filter(|(_, v)| !v.is_empty()) {")],
     r'''
fn said(e: &str) -> String { b(&format!("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a={e}\n")).oca_bundle.said.unwrap().to_string() }
fn main() { assert_ne!(said("{\"1\": \"x\", \"2\": \"\"}"), said("{\"1\": \"x\"}")); assert_eq!(said("{\"1\": \"x\"}"), said("{\"1\": \"x\"}")); }
''')

seed("grouped-codes-flattened", "C07",
     "a bundle with entry codes in groups of which one has a single code",
     "the command written for the overlay has the code in place of the group's list, so it is not the same command and the group is lost when rebuilt",
     [(OCAB + "state/oca.rs", """                                                (k.clone(), NestedValue::Array(codes))
""", """                                                match v.as_slice() {
                                                    [code] => (k.clone(), NestedValue::Value(code.clone())),
                                                    _ => (k.clone(), NestedValue::Array(codes)),
                                                }
""")],
     r'''
fn main() {
    let r = b("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a={\"g1\": [\"1\"], \"g2\": [\"2\", \"3\"]}\n");
    let mut ast = r.oca_bundle.to_ast();
    let again = from_ast(None, &ast).map_err(|e| e.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; ")).unwrap();
    assert_eq!(again.oca_bundle.said, r.oca_bundle.said);
}
''')

seed("framing-hash-order", "C08",
     "an attribute framed by two or more terms in one frame",
     "the terms are written in hash-table order, so JSON and identifier change from run to run",
     [(OVL + "attribute_framing.rs", """        let sorted_framings: BTreeMap<_, _> = v.iter().collect();
        ser.serialize_entry(k, &sorted_framings)?;""", """        ser.serialize_entry(k, v)?;""")],
     r'''
fn said() -> String { b("ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=F ATTRS a={\"t1\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}, \"t2\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}, \"t3\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}\n").oca_bundle.said.unwrap().to_string() }
fn main() { let s = said(); for _ in 0..40 { assert_eq!(said(), s); } }
''')

seed("refn-with-colon", "C10",
     "a stored command with a reference by a name that contains a colon",
     "the command cannot be read back",
     [("semantics/oca-ast/src/ast/mod.rs", """        let s = String::deserialize(deserializer)?;
        let (tag, rest) = s.split_once(':')""", """        let s = String::deserialize(deserializer)?;
        let (tag, rest) = s.rsplit_once(':')""")],
     r'''
use oca_ast_semantics::ast::*;
fn main() {
    for n in ["name", "a:b", "ns:a:b"] {
        let c = Command { kind: CommandType::Add, object_kind: ObjectKind::Overlay(OverlayType::Link("1.1".into()), Content { attributes: None,
            properties: Some([("target".to_string(), NestedValue::Reference(RefValue::Name(n.to_string())))].into_iter().collect()) }) };
        let j = serde_json::to_string(&c).unwrap();
        let back: Command = serde_json::from_str(&j).expect(n);
        assert_eq!(back, c);
    }
}
''')

seed("attr-type-short-text", "C11",
     "a bundle or command with an attribute whose type is a text shorter than a reference prefix",
     "reading it panics instead of reporting an unknown attribute type",
     [("semantics/oca-ast/src/ast/attributes.rs", """match &text.get(..5) {
                Some("refs:") | Some("refn:") => {""", """match &text[..5.min(text.len().max(4))] {
                "refs:" | "refn:" => {""")],
     r'''
fn main() {
    for t in ["Text", "Nope", "X", "", "zażółć", "refs", "refs:"] {
        let j = format!("{{\"d\":null,\"type\":\"spec/capture_base/1.0\",\"classification\":\"\",\"attributes\":{{\"a\":\"{t}\"}},\"flagged_attributes\":[]}}");
        let r: Result<oca_bundle_semantics::state::oca::capture_base::CaptureBase, _> = serde_json::from_str(&j);
        assert_eq!(r.is_ok(), t == "Text", "{t}");
    }
}
''')

FACADE = r'''
use oca_rs::Facade;
use oca_rs::data_storage::{DataStorage, InMemoryDataStorage};
use oca_rs::repositories::SQLiteConfig;
fn facade() -> Facade { Facade::new(Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new()), SQLiteConfig::build().unwrap()) }
'''

seed("history-repeated-command", "C12",
     "a history in which the same command occurs twice, with other commands in between that make it count again",
     "the second occurrence is left out of the bundle's history and AST",
     [("oca/src/facade/fetch.rs", """        for step in oca_bundle_steps {
            oca_ast.commands.push(step.command);
        }
        Ok(oca_ast)""", """        for step in oca_bundle_steps {
            if !oca_ast.commands.contains(&step.command) {
                oca_ast.commands.push(step.command);
            }
        }
        Ok(oca_ast)""")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    let cmds = ["ADD ATTRIBUTE a=Text", "ADD LABEL en ATTRS a=\"x\"", "ADD LABEL en ATTRS a=\"y\"", "ADD ATTRIBUTE b=Text", "ADD LABEL en ATTRS a=\"x\""];
    let r = f.build_from_ocafile(cmds.join("\n") + "\n").unwrap();
    let ast = f.get_oca_bundle_ast(r.said.clone().unwrap()).unwrap();
    assert_eq!(ast.commands.len(), cmds.len());
    let again = oca_bundle_semantics::build::from_ast(None, &ast).unwrap();
    assert_eq!(again.oca_bundle.said, r.said);
}
''')

seed("shared-overlay-relations", "C13",
     "two bundles that share an overlay (same capture base, same labels in one language), built one after the other",
     "exploring the shared overlay gives only the first of the bundles",
     [("oca/src/facade/explore.rs", """            let mut overlay_rel = self
                .explore(overlay_said.clone())
                .unwrap_or(""", """            if self.explore(overlay_said.clone()).is_some() {
                continue;
            }
            let mut overlay_rel = self
                .explore(overlay_said.clone())
                .unwrap_or(""")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    let x = f.build_from_ocafile("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"x\"\n".into()).unwrap();
    let y = f.build_from_ocafile("ADD ATTRIBUTE a=Text\nADD LABEL fr ATTRS a=\"z\"\nADD LABEL en ATTRS a=\"x\"\n".into()).unwrap();
    let o = x.overlays[0].said().clone().unwrap();
    assert!(y.overlays.iter().any(|p| p.said().clone().unwrap() == o));
    let r = f.explore(o.to_string()).unwrap();
    for b in [&x, &y] { assert!(r.relations.iter().any(|p| p.said == b.said.clone().unwrap().to_string())); }
}
''')

FILE = "semantics/oca-file/src/ocafile/"
seed("entry-text-trimmed", "C15",
     "an ADD ENTRY whose text begins or ends with blanks",
     "the blanks around the texts of entries are dropped when the file is read",
     [(FILE + "instructions/helpers.rs", """                        value = NestedValue::Value(
                            nested_item
                                .clone()
                                .into_inner()
                                .next_back()
                                .unwrap()
                                .as_span()
                                .as_str()
                                .to_string(),""", """                        value = NestedValue::Value(
                            nested_item
                                .clone()
                                .into_inner()
                                .next_back()
                                .unwrap()
                                .as_span()
                                .as_str()
                                .trim()
                                .to_string(),""")], r'''
fn main() {
    let a = parse_from_string("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a={\"k\": \" two \"}\n".to_string()).unwrap();
    let j = format!("{:?}", a.commands[1]);
    assert!(j.contains("\" two \""), "{j}");
}
''', nth={"""                        value = NestedValue::Value(
                            nested_item
                                .clone()
                                .into_inner()
                                .next_back()
                                .unwrap()
                                .as_span()
                                .as_str()
                                .to_string(),""": 0})

seed("region-of-language-lost", "C15",
     "an overlay in a language with a region (pt-BR)",
     "the region is dropped when the file is read",
     [(FILE + "instructions/helpers.rs", """                properties.insert(
                    "lang".to_string(),
                    NestedValue::Value(attr.as_str().to_string()),""", """                let code = attr.as_str().split('-').next().unwrap_or_default();
                properties.insert(
                    "lang".to_string(),
                    NestedValue::Value(code.to_string()),""")], r'''
fn main() {
    let a = parse_from_string("ADD ATTRIBUTE a=Text\nADD LABEL pt-BR ATTRS a=\"um\"\n".to_string()).unwrap();
    let j = format!("{:?}", a.commands[1]);
    assert!(j.contains("pt-BR"), "{j}");
}
''')

seed("removed-with-others-forgotten", "C16",
     "one REMOVE ATTRIBUTE naming several attributes, and a later command naming one of them again",
     "removing an attribute a second time is accepted when the first removal named it after another one",
     [("semantics/oca-ast/src/validator.rs", "attributes.retain(|key, _value| !attrs.contains_key(key));", "if let Some(name) = attrs.keys().next() {\n                    attributes.shift_remove(name);\n                }")], r'''
fn main() {
    let r = parse_from_string("ADD ATTRIBUTE a=Text b=Text c=Text\nREMOVE ATTRIBUTE a b\nREMOVE ATTRIBUTE b\n".to_string());
    assert!(r.is_err(), "removed twice: {r:?}");
    let r = parse_from_string("ADD ATTRIBUTE a=Text b=Text c=Text\nREMOVE ATTRIBUTE a b\nADD ATTRIBUTE b=Numeric\n".to_string());
    assert!(r.is_ok(), "{r:?}");
}
''')

seed("written-without-empty-texts", "C17",
     "an overlay with an empty text for an attribute",
     "the attribute is left out of the OCAFILE written",
     [(FILE + "mod.rs", """                                if let Some(ref attributes) = content.attributes {
                                    line.push_str("ATTRS");
                                    attributes.iter().for_each(|(key, value)| {
                                        if let ast::NestedValue::Value(value) = value {""", """                                if let Some(ref attributes) = content.attributes {
                                    let blank = ast::NestedValue::Value(String::new());
                                    line.push_str("ATTRS");
                                    attributes.iter().filter(|(_, v)| **v != blank).for_each(|(key, value)| {
                                        if let ast::NestedValue::Value(value) = value {""")], r'''
fn main() {
    let src = "ADD ATTRIBUTE a=Text b=Text\nADD LABEL en ATTRS a=\"\" b=\"x\"\n";
    let a = parse_from_string(src.to_string()).unwrap();
    let t = generate_from_ast(&a);
    let z = parse_from_string(t.clone()).unwrap();
    assert_eq!(a.commands, z.commands, "{t}");
}
''', nth={"""                                if let Some(ref attributes) = content.attributes {
                                    line.push_str("ATTRS");
                                    attributes.iter().for_each(|(key, value)| {
                                        if let ast::NestedValue::Value(value) = value {""": -1})

seed("precompiler-by-prefix", "C18",
     "a file naming a precompiler whose name begins like a known one",
     "it is read as a transformation instead of being reported",
     [("oca-file/src/ocafile/mod.rs", 'if value == "transformation" {', 'if value.starts_with("transformation") {')], r'''
fn main() {
    let t = "-- precompiler=transformation-v2\nRENAME ATTRIBUTE a=b\n";
    let r = oca_file::ocafile::parse_from_string(t.to_string());
    assert!(r.is_err(), "{r:?}");
    assert!(oca_file::ocafile::parse_from_string(t.replace("-v2", "")).is_ok());
}
''')

seed("transformation-link-keeps-first", "C19",
     "an attribute renamed by one command and linked by a later one",
     "the later LINK of the attribute is ignored",
     [("transformation/transformation-file/src/state/mod.rs", """    pub fn link(&mut self, attributes: IndexMap<String, String>) {
        attributes.into_iter().for_each(|(k, v)| {
            self.attributes.insert(k, v);""", """    pub fn link(&mut self, attributes: IndexMap<String, String>) {
        attributes.into_iter().for_each(|(k, v)| {
            self.attributes.entry(k).or_insert(v);""")], r'''
fn main() {
    let t = "-- source=refs:s\n-- target=refs:t\nRENAME ATTRIBUTE a=b\nLINK ATTRIBUTE a -> c\n";
    let a = oca_file_transformation::ocafile::parse_from_string(t.to_string()).unwrap();
    let x = transformation_file::build::from_ast(&a).unwrap();
    assert_eq!(x.attributes.get("a"), Some(&"c".to_string()));
}
''')

LREF = "oca/src/local_references.rs"
seed("names-until-first-removal", "C20",
     "a file that uses a name in an instruction after a REMOVE",
     "names used after the first instruction that removes something are not resolved",
     [(LREF, "for command in oca_ast.commands.iter_mut() {", "for command in oca_ast.commands.iter_mut().take_while(|c| c.kind == CommandType::Add) {")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    let x = f.build_from_ocafile("--name=first\nADD ATTRIBUTE a=Text\n".into()).unwrap();
    let s = x.said.clone().unwrap().to_string();
    let src = |r: &str| format!("ADD ATTRIBUTE b=Text c=Text\nREMOVE ATTRIBUTE b\nADD ATTRIBUTE d={r}\n");
    let y = facade().build_from_ocafile(src(&format!("refs:{s}"))).unwrap();
    let z = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.build_from_ocafile(src("refn:first"))));
    assert_eq!(z.unwrap().unwrap().said, y.said);
}
''')

seed("base-keeps-one-frame", "C21",
     "a base bundle with two attribute framings, extended with FROM by an instruction that changes something",
     "only the first framing of the base is still there",
     [("semantics/oca-bundle/src/state/oca.rs", "for overlay in framing_overlays {", "for overlay in framing_overlays.into_iter().take(1) {")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    let base = "ADD ATTRIBUTE a=Text b=Text\nADD ATTR_FRAMING id=one label=\"l\" location=\"x\" version=1.0 ATTRS a={\"http://t/1\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}\nADD ATTR_FRAMING id=two label=\"l\" location=\"x\" version=1.0 ATTRS b={\"http://t/2\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}\n";
    let x = f.build_from_ocafile(base.into()).unwrap();
    assert!(x.overlays.len() == 2, "{:?}", x.overlays);
    let more = "ADD LABEL en ATTRS a=\"x\"\n";
    let y = f.build_from_ocafile(format!("FROM {}\n{more}", x.said.clone().unwrap())).unwrap();
    let z = facade().build_from_ocafile(format!("{base}{more}")).unwrap();
    assert_eq!(y.said, z.said);
}
''')

seed("missing-dependencies-skipped", "C22",
     "a bundle that refers to another one which refers to a bundle that is not stored",
     "asking for its dependencies succeeds without the missing one",
     [("oca/src/facade/fetch.rs", "let dep_bundle = get_oca_bundle(storage, refs, true)?;", "let Ok(dep_bundle) = get_oca_bundle(storage, refs, true) else {\n                        continue;\n                    };")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    let mut g = facade();
    let x = g.build_from_ocafile("ADD ATTRIBUTE a=Text\n".into()).unwrap().said.unwrap();
    let y = f.build_from_ocafile(format!("ADD ATTRIBUTE b=refs:{x}\n")).unwrap().said.unwrap();
    let z = f.build_from_ocafile(format!("ADD ATTRIBUTE c=Array[refs:{y}]\n")).unwrap().said.unwrap();
    assert!(f.get_oca_bundle(z.clone(), true).is_err());
    assert!(f.get_oca_bundle(z, false).is_ok());
}
''')

seed("condition-first-dependency-restored", "C23",
     "a condition that refers to two attributes, in a bundle whose text is written from the bundle",
     "only the first reference is written as the name of the attribute",
     [("semantics/oca-bundle/src/state/oca.rs", ".replace_all(condition, |caps: &regex::Captures| {\n                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]\n                                    .clone();", ".replace(condition, |caps: &regex::Captures| {\n                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]\n                                    .clone();")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    let x = f.build_from_ocafile("ADD ATTRIBUTE a=Numeric b=Numeric c=Text\nADD CONDITION ATTRS c=\"${a} > 3 and ${b} < 2\"\n".into()).unwrap();
    let t = f.parse_oca_bundle_to_ocafile(&x).unwrap();
    let y = facade().build_from_ocafile(t.clone()).unwrap();
    assert_eq!(x.said, y.said, "{t}");
}
''')

VALF = "semantics/oca-bundle/src/state/validator.rs"
seed("orphan-overlay-accepted", "C24",
     "a bundle file in which an overlay belongs to no capture base, with identifiers computed for that",
     "an overlay without a capture base is not reported",
     [(VALF, "if o.capture_base().ne(&capture_base.said) {", "if o.capture_base().is_some() && o.capture_base().ne(&capture_base.said) {")],
     FACADE + r'''
use oca_bundle_semantics::state::validator::Validator;
fn main() {
    let mut f = facade();
    let x = f.build_from_ocafile("ADD ATTRIBUTE a=Text\nADD UNIT ATTRS a=kg\n".into()).unwrap();
    assert!(Validator::new().validate(&x).is_ok());
    let mut v = serde_json::to_value(&x).unwrap();
    v["overlays"]["unit"]["capture_base"] = serde_json::Value::Null;
    let mut y: OCABundle = serde_json::from_value(v).unwrap();
    y.overlays[0].fill_said();
    y.fill_said();
    assert!(y.overlays[0].capture_base().is_none());
    let e = Validator::new().validate(&y).err().unwrap_or_default();
    assert!(e.iter().any(|e| e.to_string().contains("Mismatch")), "{e:?}");
}
''')

seed("translations-of-first-language", "C24",
     "labels of an attribute in the second language that the first language does not have",
     "the attribute missing in the first language is not reported",
     [(VALF, "overlays.iter().flat_map(|o| o.attributes()).collect();", "overlays.iter().take(1).flat_map(|o| o.attributes()).collect();")],
     FACADE + r'''
use oca_bundle_semantics::state::validator::Validator;
fn main() {
    for (l, m) in [("en", "pl"), ("pl", "en")] {
        let mut f = facade();
        let x = f.build_from_ocafile(format!("ADD ATTRIBUTE a=Text b=Text\nADD LABEL {l} ATTRS a=\"x\" b=\"y\"\nADD LABEL {m} ATTRS a=\"x\"\n")).unwrap();
        let mut x = x;
        for _ in 0..2 {
            let ls = x.overlays.iter().filter_map(|o| o.language().copied()).collect();
            let e = Validator::new().enforce_translations(ls).validate(&x).err().unwrap_or_default();
            assert!(e.iter().any(|e| e.to_string().contains("'b'")), "{e:?}");
            x.overlays.reverse();
        }
    }
}
''')

FTS = "oca/src/repositories/oca_bundle_fts_repo.rs"
CBC = "oca/src/repositories/capture_base_cache_repo.rs"
STORE = "oca/src/data_storage.rs"

seed("search-last-language", "C25",
     "a bundle with meta data in two languages, searched for a word of only one of them",
     "the meta data of one language replaces that of the other in the index, so the bundle is not found by it",
     [(FTS, "WHERE oca_bundle_said = ?4 AND language_code = ?3", "WHERE oca_bundle_said = ?4")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    f.build_from_ocafile("-- name=x\nADD ATTRIBUTE a=Text\nADD META en PROPS name=\"elephant\" description=\"first\"\nADD META pl PROPS name=\"zyrafa\" description=\"druga\"\n".into()).unwrap();
    for w in ["elephant", "zyrafa", "first", "druga"] {
        let r = f.search_oca_bundle(None, w.to_string(), 10, 1);
        assert_eq!((r.records.len(), r.metadata.total), (1, 1), "{w}");
    }
}
''')

seed("search-counts-languages", "C25",
     "a search for a word that a bundle has in two languages",
     "the total number of results counts the bundle once per language",
     [(FTS, """            ) AS inner_query
            GROUP BY oca_bundle_said
        ) AS count""", """            ) AS inner_query
        ) AS count""")],
     FACADE + r'''
fn main() {
    let mut f = facade();
    f.build_from_ocafile("-- name=x\nADD ATTRIBUTE a=Text\nADD META en PROPS name=\"elephant\"\nADD META pl PROPS name=\"elephant\"\n".into()).unwrap();
    f.build_from_ocafile("-- name=y\nADD ATTRIBUTE b=Text\nADD META en PROPS name=\"elephant\"\n".into()).unwrap();
    let r = f.search_oca_bundle(None, "elephant".to_string(), 10, 1);
    assert_eq!((r.records.len(), r.metadata.total), (2, 2));
}
''')

seed("in-memory-keeps-first", "C26",
     "a key of the in-memory storage inserted a second time with another value",
     "the first value is kept, e.g. a name that is given to another bundle still refers to the first one",
     [(STORE, "        namespace_storage.insert(key.to_string(), value.to_vec());", "        namespace_storage\n            .entry(key.to_string())\n            .or_insert_with(|| value.to_vec());")],
     FACADE + r'''
use oca_rs::data_storage::Namespace;
fn main() {
    let mut s = InMemoryDataStorage::new();
    for v in [&b"1"[..], b"2", b"1"] {
        s.insert(Namespace::OCAReferences, "x", v).unwrap();
        assert_eq!(s.get(Namespace::OCAReferences, "x").unwrap().unwrap(), v);
    }
    let _ = facade();
}
''')

seed("objects-among-bundles", "C26",
     "listing the bundles kept as JSON, or asking for one by the identifier of an overlay",
     "objects are stored in the namespace of the bundles, so they are taken for bundles",
     [(STORE, 'Self::OCAObjectsJSON => "oca_objects_json"', 'Self::OCAObjectsJSON => "oca_bundles_json"')],
     FACADE + r'''
use oca_rs::data_storage::Namespace;
fn main() {
    let mut s = InMemoryDataStorage::new();
    s.insert(Namespace::OCAObjectsJSON, "x", b"1").unwrap();
    s.insert(Namespace::OCABundlesJSON, "y", b"2").unwrap();
    assert_eq!(s.get_all(Namespace::OCABundlesJSON).unwrap().len(), 1);
    assert_eq!(s.get(Namespace::OCABundlesJSON, "x").unwrap(), None);
    let _ = facade();
}
''')

seed("sled-list-first-value", "C26",
     "sled storage; listing a namespace with an entry after one whose value is empty",
     "the listing stops at the first empty value",
     [(STORE, "            while let Some(Ok((key, value))) = iter.next() {", "            while let Some(Ok((key, value))) = iter.next() {\n                if value.is_empty() {\n                    break;\n                }")],
     r'''
use oca_rs::data_storage::*;
fn main() {
    let d = std::env::temp_dir().join(format!("oca-seed-{}", std::process::id()));
    let mut s = SledDataStorage::new().config(SledDataStorageConfig::build().path(d.clone()).unwrap());
    for (k, v) in [("a", &b"1"[..]), ("b", b""), ("c", b"3")] {
        s.insert(Namespace::OCA, k, v).unwrap();
    }
    let n = s.get_all(Namespace::OCA).unwrap().len();
    drop(s);
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(n, 3);
}
''')

COND = OVL + "conditional.rs"
CHECK = r'''
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use std::{collections::BTreeMap, fmt::Display};
fn check(condition: &str, values: &[(&str, i32)]) -> Result<bool, usize> {
    let mut a = Attribute::new("self".to_string());
    a.set_condition(condition.to_string());
    let v: BTreeMap<String, Box<dyn Display + 'static>> =
        values.iter().map(|(k, v)| (k.to_string(), Box::new(*v) as Box<dyn Display>)).collect();
    a.check_condition(v).map_err(|e| e.len())
}
'''

seed("dependency-named-as-a-beginning", "C31",
     "a condition that refers to an attribute whose name is the beginning of another one's, referred to before it",
     "the value of the other attribute is taken",
     [(COND, ".position(|d| d == &caps[1])", ".position(|d: &String| d.starts_with(&caps[1]))")],
     CHECK + r'''
fn main() {
    assert_eq!(check("${age} > ${agenda}", &[("age", 1), ("agenda", 0)]), Ok(true));
    assert_eq!(check("${agenda} < ${age}", &[("age", 1), ("agenda", 0)]), Ok(true));
}
''')

seed("own-value-as-later-dependency", "C31",
     "a condition that refers to another attribute first and then to its own",
     "it is evaluated with its own value instead of being an error",
     [(COND, "if condition_dependencies.contains(attr) {", "if condition_dependencies.first() == Some(attr) {")],
     CHECK + r'''
fn main() {
    assert_eq!(check("${self} > 1", &[("self", 2)]), Err(1));
    assert_eq!(check("${other} < ${self}", &[("self", 2), ("other", 1)]), Err(1));
}
''')

GRAPH = "semantics/oca-dag/src/versioning/mod.rs"
VERS = "semantics/oca-dag/src/versioning/ocafile.rs"
VDB = r'''
use oca_dag_semantics::data_storage::{DataStorage, SledDataStorage};
use oca_dag_semantics::versioning::{ocafile::build_oca, Graph};
struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn dir() -> Dir {
    Dir(std::env::temp_dir().join(format!("oca-seed-{}", std::process::id())))
}
fn commands(text: &str) -> Vec<oca_ast_semantics::ast::Command> {
    oca_file_semantics::ocafile::parse_from_string(text.to_string()).unwrap().commands
}
'''

seed("child-named-as-the-end-of-another", "C30",
     "a child whose name is the end of the name of the child added before it",
     "the child is not recorded",
     [(GRAPH, "            digests.extend(children_digest);\n", "            digests.extend(children_digest);\n            if children_digest.ends_with(new.as_bytes()) {\n                return Ok(digests);\n            }\n")],
     VDB + r'''
fn main() {
    let d = dir();
    let db = SledDataStorage::open(d.0.to_str().unwrap());
    let g = Graph { db: Box::new(db) };
    g.add("p", None).unwrap();
    g.add("v12", Some("p")).unwrap();
    g.add("2", Some("p")).unwrap();
    assert_eq!(g.db.get("p.downscending").unwrap().unwrap(), b"\x03v12\x012".to_vec());
}
''')

seed("bare-version-is-no-parent", "C30",
     "a version without attributes (metadata only) that attributes are added to",
     "the version made from it is recorded as one made from nothing",
     [(VERS, "                Some(ref mut base) => {", "                Some(ref mut base) if !base.attributes.is_empty() => {"),
      (VERS, "                None => {\n                    input.push(0);", "                _ => {\n                    input.push(0);")],
     VDB + r'''
fn main() {
    let d = dir();
    let store = SledDataStorage::open(d.0.to_str().unwrap());
    let c = commands("ADD META en PROPS name=\"n\"\nADD ATTRIBUTE a=Text\n");
    let first = build_oca(Box::new(store.clone()), c[..1].to_vec()).unwrap().said.unwrap().to_string();
    let last = build_oca(Box::new(store.clone()), c.clone()).unwrap().said.unwrap().to_string();
    let r = store.get(&format!("oca.{last}.operation")).unwrap().unwrap();
    assert_eq!(r[0] as usize, first.len());
    assert_eq!(&r[1..1 + first.len()], first.as_bytes());
}
''')

DAGL = "semantics/oca-dag/src/lib.rs"
RECORD = r'''
fn record(text: &str) -> Vec<oca_dag_semantics::ResultModel> {
    let ast = oca_file_semantics::ocafile::parse_from_string(text.to_string()).unwrap();
    let build = oca_bundle_semantics::build::from_ast(None, &ast).unwrap();
    oca_dag_semantics::build_core_db_model(&build)
}
'''

seed("overlay-versions-by-language", "C28",
     "overlays of different kinds for one language, stated one after the other",
     "the overlay of another kind for that language is recorded as the version before",
     [(DAGL, 'format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())', 'lang.to_639_1().unwrap().to_string()')],
     RECORD + r'''
fn main() {
    let m = record("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"x\"\nADD META en PROPS name=\"n\"\nADD META en PROPS title=\"t\"\nADD LABEL en ATTRS a=\"y\"\n");
    let o = |i: usize| m[i].overlay.clone().unwrap();
    assert!(o(1).parent.is_none() && o(2).parent.is_none());
    assert_eq!(o(3).parent, Some(o(2).overlay_said));
    assert_eq!(o(4).parent, Some(o(1).overlay_said));
}
''')

seed("first-overlay-stays-parent", "C28",
     "three commands on one overlay",
     "the first version is recorded as the one before every later version",
     [(DAGL, ".insert(overlay_key, overlay_model.overlay_said.clone());", ".entry(overlay_key)\n                    .or_insert(overlay_model.overlay_said.clone());")],
     RECORD + r'''
fn main() {
    let m = record("ADD ATTRIBUTE a=Text\nADD UNIT ATTRS a=m\nADD UNIT ATTRS a=kg\nADD UNIT ATTRS a=s\n");
    let o = |i: usize| m[i].overlay.clone().unwrap();
    for i in 2..4 {
        assert_eq!(o(i).parent, Some(o(i - 1).overlay_said));
    }
}
''')

seed("container-adds-once", "C27",
     "a transformation added to a container twice",
     "it is kept once",
     [("oca/src/facade/bundle.rs", "self.transformations.push(transformation);", "if !self.transformations.iter().any(|t| t.said == transformation.said) {\n                    self.transformations.push(transformation);\n                }")],
     r'''
use oca_rs::facade::bundle::*;
fn main() {
    let ast = match oca_file::ocafile::parse_from_string("--precompiler=transformation\nRENAME ATTRIBUTE a=b\n".to_string()).unwrap() {
        oca_file::ocafile::OCAAst::TransformationAst(a) => a,
        _ => unreachable!(),
    };
    let t = transformation_file::build::from_ast(&ast).unwrap();
    let mut c = Bundle::new();
    c.add(BundleElement::Structural(OCABox::new().generate_bundle()));
    c.add(BundleElement::Transformation(t.clone()));
    c.add(BundleElement::Transformation(t.clone()));
    assert_eq!(c.transformations.len(), 2);
    let text = c.encode().unwrap();
    let back = load_oca(&mut text.as_bytes()).unwrap();
    assert_eq!(back.transformations.len(), 2);
    assert_eq!(back.encode().unwrap(), text);
}
''')

seed("search-place-one-level", "C29",
     "a place for the search data of which more than the last directory is missing",
     "opening the facade panics",
     [("oca/src/facade/mod.rs", "std::fs::create_dir_all(path.clone()).unwrap();", "std::fs::create_dir(path.clone()).unwrap();")],
     r'''
use oca_rs::Facade;
use oca_rs::data_storage::{DataStorage, InMemoryDataStorage};
use oca_rs::repositories::SQLiteConfig;
fn main() {
    let d = std::env::temp_dir().join(format!("oca-seed-{}", std::process::id()));
    let open = || {
        let c = SQLiteConfig::build().path(d.join("a/b")).unwrap();
        Facade::new(Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new()), c)
    };
    let x = std::panic::catch_unwind(|| { drop(open()); drop(open()); });
    let ok = d.join("a/b").is_dir();
    std::fs::create_dir_all(&d).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(x.is_ok() && ok);
}
''')

seed("dag-keeps-first", "C26",
     "the store of the version graph; a key inserted a second time with another value",
     "the first value is kept",
     [("semantics/oca-dag/src/data_storage.rs", "match db.insert(key.as_bytes(), value) {", "if let Ok(Some(_)) = db.get(key.as_bytes()) {\n                return Ok(());\n            }\n            match db.insert(key.as_bytes(), value) {")],
     r'''
use oca_dag_semantics::data_storage::*;
fn main() {
    let d = std::env::temp_dir().join(format!("oca-seed-{}", std::process::id()));
    let got = {
        let s = SledDataStorage::open(d.to_str().unwrap());
        s.insert("k", b"1").unwrap();
        s.insert("k", b"2").unwrap();
        s.get("k").unwrap()
    };
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(got, Some(b"2".to_vec()));
}
''')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand; both are committed)."""
import json

Y = "src/yaml/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(
        d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                            observe_at=observe, hook_needed=None)),
        note=note))

prop("C01", "Parsing any text ends in a document or a located error",
     "Parsing any text returns: either a document, or an error whose line and column lie inside the text and whose message is not empty; it never panics, aborts or hangs, and gives the same result every time. Whatever document comes out can be formatted, prettied, searched and read without a panic.",
     ["inputs"], "every text: random characters, grammar tokens in any order, mutated and truncated documents, nesting up to 60 levels",
     "The tests parse some 70 hand-written valid snippets and almost no invalid ones; a panic or a hang needs one odd character in one odd place.",
     [Y + "parser.rs", "src/yaml.pest", Y + "mod.rs", Y + "document.rs"],
     [("parse_yaml_file and the pest grammar", Y + "parser.rs"), ("YamlError::location", Y + "mod.rs")],
     ["parse_yaml_file", "YamlError::location", "Document::format", "Pretty::pretty"],
     "Seeded random search over texts; no claim beyond the generated texts and 60 nesting levels. A text that reaches pest's call limit counts as inconclusive here; C21 decides on the work.")

prop("C02", "Every supported layout of a document parses to that document",
     "A document written in any of the supported layouts (any indentation width, list items and mappings compact or on their own lines, lists at or below their key's column, values on the key's line or the next, blank lines, comments, definitions and references, LF, CRLF or CR) parses to exactly that document: the same keys, values, scalar styles, nesting, order, comments and definitions. What belongs to a nested mapping or list is decided by its indentation only.",
     ["inputs"], "every document of the subset (depth up to 7, all scalar styles) times every combination of layout choices",
     "Tests fix about 60 layouts; the nesting bugs found here needed combinations of list nesting, comments and compact items that no test has.",
     [Y + "parser.rs", "src/yaml.pest", Y + "aliased.rs"],
     [("indentation handling of the grammar (PUSH/PEEK stack)", "src/yaml.pest"), ("tree building", Y + "parser.rs")],
     ["parse_yaml_file"],
     "Oracle: an independent layout writer that renders a known tree; the parsed tree must equal it. Layouts outside the writer are not claimed.")

prop("C03", "Every scalar reads as exactly the text it denotes",
     "A plain, single-quoted, double-quoted, literal or folded scalar at any place of a document reads as exactly the text that its style, escapes, line breaks, indentation and chomping denote, both when it is looked up by a path and when it is deserialized as a string.",
     ["inputs"], "every scalar style, escape, line break, blank line, indentation indicator and chomping, at every kind of place in a document",
     "Tests decode a dozen fixed strings per style; line folding, chomping and escapes interact.",
     [Y + "string.rs", Y + "parser.rs", "src/yaml.pest", Y + "types.rs", Y + "deserializer.rs"],
     [("parse_literal, parse_folded, parse_single_quoted_string, parse_double_quoted_string", Y + "string.rs"), ("block scalar parsing", Y + "parser.rs")],
     ["find_values", "YamlTypes::as_string", "from_yaml_str"],
     "Oracle: an independent reference of scalar texts. A line break inside quotes follows the crate's own documented rule, not YAML's.")

prop("C04", "Comments survive parsing, formatting and prettying, in place",
     "Every comment of a document, with its exact text, is kept by parsing, formatting and prettying: no comment is lost, duplicated or changed, and each stays between the same keys, list items and values as in the source. A comment on the line of a value stays on that line, except behind a block scalar.",
     ["inputs"], "every document with comments at any of the places where the grammar takes them, in every layout",
     "Tests have a few documents with comments; comment placement multiplies with nesting and layout.",
     [Y + "parser.rs", Y + "document.rs", Y + "hash_data.rs", Y + "array_data.rs", Y + "mod.rs"],
     [("comment nodes in the tree", Y + "hash_data.rs"), ("comment rules of the grammar", "src/yaml.pest"), ("format of comments", Y + "mod.rs")],
     ["parse_yaml_file", "Document::format", "Pretty::pretty"],
     "Oracle: the event sequence (comments, keys, items, texts) of the generated document must be that of the parsed, formatted and prettied ones.")

prop("C05", "Formatting a document and parsing it gives the same document",
     "Formatting any document succeeds and gives a text that parses back to an equal document, with every key, value, scalar style, comment, definition and reference; formatting that again gives the same text.",
     ["inputs"], "every document the parser can produce, and every tree built from the same parts",
     "Tests round-trip some 30 snippets; each repaired defect needed a nesting or a comment place outside them.",
     [Y + "mod.rs", Y + "document.rs", Y + "aliased.rs", Y + "hash_data.rs", Y + "hash_element.rs", Y + "array_data.rs", Y + "string.rs"],
     [("format of every tree part", Y + "mod.rs"), ("indentation indicator of block scalars", Y + "mod.rs")],
     ["Document::format", "parse_yaml_file"],
     "Round-trip oracle on generated trees, parsed layouts and mutated texts that still parse.")

prop("C06", "Prettying changes styles only: same data, same comments, valid, stable",
     "Prettying a document changes nothing but the style of its scalars and collections: every scalar text and what it resolves to (null, boolean, number or string), all keys, their order, definitions, references and comments stay. The prettied document formats to a text that parses back to it, and prettying it again changes nothing.",
     ["inputs"], "every document, with all scalar styles and texts that look like other YAML tokens",
     "Tests pretty a handful of documents; quoting rules fail on particular texts in particular contexts (flow or block).",
     [Y + "mod.rs", Y + "string.rs", Y + "document.rs"],
     [("Pretty::pretty_with_options", Y + "mod.rs"), ("can_be_unquoted_in_block, inline_breaking_chars, fits_literal, try_create_folded", Y + "mod.rs"), ("create_literal, create_folded", Y + "string.rs")],
     ["Pretty::pretty", "Document::format"],
     "Oracle: reference data and comment sequence before and after; round trip and idempotence of the result.")

prop("C07", "Rust values survive serialization to a YAML tree and back",
     "A Rust value serialized to a YAML tree and deserialized from it, directly or after prettying, comes back equal: all integer widths, floats, characters, strings with any content, options, tuples, sequences, maps, nested structs, unit and tagged enums, and flattened fields.",
     ["inputs"], "every value of 16 type families, with hostile strings, edge numbers and empty collections",
     "Tests serialize a few fixed structs; the defects were in particular string contents, key types and number widths.",
     [Y + "serializer.rs", Y + "deserializer.rs", Y + "mod.rs"],
     [("YamlSerializer", Y + "serializer.rs"), ("YamlDeserializer", Y + "deserializer.rs"), ("quoting of serialized strings", Y + "serializer.rs")],
     ["YamlSerializer::new", "from_yaml", "Pretty::pretty"],
     "Round-trip oracle. Externally tagged enums with data (written without their tag by design) are not claimed.")

prop("C08", "Rust values survive serialization to YAML text and back",
     "A Rust value that is serialized, prettied and formatted to YAML text comes back equal when that text is read, also after the text went through parsing and formatting once more. Strings of any content survive, and map keys that fit the subset's key grammar.",
     ["inputs"], "every value of 13 collection-rooted type families, with hostile strings and keys of the key grammar",
     "As C07; the text adds quoting, escaping and block scalars, where single characters decide.",
     [Y + "serializer.rs", Y + "deserializer.rs", Y + "mod.rs", Y + "string.rs", Y + "parser.rs"],
     [("string style choice of the serializer and of pretty", Y + "serializer.rs"), ("from_yaml_str", Y + "deserializer.rs")],
     ["YamlSerializer::new", "Document::format", "from_yaml_str"],
     "Round-trip oracle through text. Keys outside the key grammar are listed findings.")

prop("C09", "Generic reading gives the document's data with references replaced",
     "Reading a document with a self-describing reader gives its data: plain scalars resolve to null, booleans, integers, floats or strings, quoted and block scalars are always strings, mappings and lists keep all entries in order, and every reference is replaced by the value of the last definition of its name that is complete before it. A reference without such a definition is an error; definitions inside values that the reader ignores count too.",
     ["inputs"], "every document with any number of definitions and references: redefined, nested, before their definition, undefined, self-referring",
     "Tests use one definition and one reference; scoping and redefinition need histories of several.",
     [Y + "deserializer.rs", Y + "aliased.rs", Y + "types.rs"],
     [("anchor bindings of the deserializer", Y + "deserializer.rs"), ("deserialize_any", Y + "deserializer.rs")],
     ["from_yaml", "from_yaml_str"],
     "Differential oracle: independent reference resolution and substitution.")

prop("C10", "Typed reading gives the value the text says, or an error, never a panic",
     "Deserializing a YAML value into a Rust type gives the value that its text says when it fits the type exactly (numbers in range, known variants, required fields present), and an error otherwise; it never panics, wraps, truncates or guesses a default. Reading through a reference or out of a text gives the same as reading the tree.",
     ["inputs"], "30 types times YAML values that fit, nearly fit or do not fit them",
     "Tests read values that fit; overflow, missing fields and wrong shapes are the other side of the quantifier.",
     [Y + "deserializer.rs", Y + "types.rs"],
     [("deserialize_* methods", Y + "deserializer.rs")],
     ["from_yaml", "from_yaml_str"],
     "Differential oracle: a reference reader per type; what the crate leaves open (extra tuple items, tags without data) is not claimed.")

prop("C11", "Path texts parse to the steps they spell; other texts are errors",
     "A path text (keys, '.', '[n]', '[*]' and '|field=value' conditions, with spaces before any part) parses to exactly the steps and conditions it spells, and every other text is an error; parsing never panics. Putting two paths together gives the path of the joined text.",
     ["inputs"], "every path of the syntax, up to dozens of steps, and edited path texts and random characters",
     "Tests parse about ten paths without spaces or errors.",
     ["src/path.rs", "src/path.pest"],
     [("path grammar", "src/path.pest"), ("YamlPath::from_str, YamlPath::insert", "src/path.rs")],
     ["YamlPath::from_str", "YamlPath::insert"],
     "Differential oracle: an independent hand-written path parser.")

prop("C12", "Looking up a path finds exactly the values it selects, in order",
     "Looking up a path in a document returns exactly the values it selects, in document order and unchanged: keys step into block mappings, indexes and '[*]' into lists (block or flow), and a condition keeps only mappings that have that field with that text. Nothing else is found, and the document stays as it was.",
     ["inputs"], "every document and every path into it, with conditions, indexes, lists of indexes, wildcards and misses",
     "Tests look up fixed paths in two documents.",
     [Y + "mod.rs", Y + "insert.rs", Y + "aliased.rs", Y + "array_data.rs", Y + "hash_element.rs", Y + "document.rs"],
     [("for_hash", Y + "mod.rs"), ("fits_conditions", Y + "mod.rs"), ("find_values", Y + "insert.rs")],
     ["YamlInsert::find_values"],
     "Differential oracle: reference path evaluator. Flow mappings are opaque to paths by design.")

prop("C13", "A history of edits changes exactly what its paths select",
     "Inserting, removing, renaming and wrapping fields at a path changes exactly the places that the path selects, in all of them, and nothing else: other entries, order, comments, styles and definitions stay. The returned count is the number of places changed, an insert replaces an existing field only when told to, and this holds after any history of edits.",
     ["histories", "inputs"], "every document and every sequence of up to 30 edits with paths that hit one, several or no places",
     "Tests make one edit on one document; counts and untouched neighbours over several edits are not looked at.",
     [Y + "insert.rs", Y + "mod.rs", Y + "array_data.rs", Y + "hash_element.rs", Y + "aliased.rs"],
     [("edit_hash_structure", Y + "mod.rs"), ("insert_into_hash, insert_into_hash_by_call, remove_from_hash, rename_field, to_object", Y + "insert.rs")],
     ["YamlInsert"],
     "Stateful model-based testing: tree and count after each edit equal a reference model's.")

prop("C14", "Moving fields into a subfield moves exactly those fields, loses none",
     "Moving fields of a mapping into a subfield moves exactly the named fields that exist, with their values, in the order of the names, creates the subfield when it is missing and keeps its other fields when it is a mapping; everything else stays. When the subfield cannot take them (it is not a mapping) or is itself named, nothing is lost; names are taken literally, and one given twice counts once.",
     ["inputs", "histories"], "every document, path, list of fields and subfield: absent, mapping, scalar, itself moved, with any characters",
     "Tests move two fields into a new subfield, once.",
     [Y + "insert.rs", Y + "mod.rs"],
     [("move_to_subfield", Y + "insert.rs")],
     ["YamlInsert::move_to_subfield"],
     "Model-based testing plus a conservation check on values.")

prop("C15", "Grouping a map by a field puts each entry under its field's value",
     "Grouping the entries of a map by a field moves every entry that has the field with a non-empty scalar value into a new map under that value, without the field; entries without it, with an empty one or with a value that is to be kept stay in the old map. Every entry, its value and every comment is afterwards in exactly one place, in the original order within its group, and an already existing new map is left alone together with the old one.",
     ["inputs"], "every map of mappings with any mix of selector values, comments between entries, and kept values",
     "Tests group one map of three entries.",
     [Y + "insert.rs", Y + "mod.rs"],
     [("move_to_map_with_field_as_key", Y + "insert.rs")],
     ["YamlInsert::move_to_map_with_field_as_key"],
     "Model-based testing plus conservation of comments and values.")

prop("C16", "map_yaml rewrites every node once, bottom-up; visit_yaml sees every block value",
     "Rewriting a tree applies the function exactly once to every node, children before their parent and in order, and keeps keys, comments, definitions and order; with the identity function nothing changes. Visiting a tree calls the function exactly once for every value of every block mapping and block list, also of those inside flow collections, parents first and in order; values written directly in a flow collection are not reported.",
     ["inputs"], "every tree, with block and flow collections, comments and definitions at any depth",
     "Tests map and visit three small trees.",
     [Y + "mod.rs", Y + "aliased.rs", Y + "hash_data.rs", Y + "array_data.rs", Y + "document.rs"],
     [("MapYaml", Y + "mod.rs"), ("VisitYaml", Y + "mod.rs")],
     ["MapYaml::map_yaml", "VisitYaml::visit_yaml"],
     "Oracle: reference traversal order and reference rewriting.")

prop("C17", "An edited document formats to text that parses back to its data",
     "After any sequence of edits that uses names and values of the subset, the document formats to a text that parses, to the same data with the same definitions and references and the same comments in order; formatting and parsing once more changes nothing. The same holds when the edited document is prettied first.",
     ["histories"], "every sequence of up to 6 edits of every kind on a parsed document",
     "Edits make trees that no parse gives (emptied collections, comments behind removed entries); tests format at most one edited document.",
     [Y + "insert.rs", Y + "mod.rs", Y + "document.rs"],
     [("format of collections without elements", Y + "mod.rs"), ("edits", Y + "insert.rs")],
     ["YamlInsert", "Document::format", "parse_yaml_file"],
     "Round-trip oracle on reference data and comments after edit histories.")

prop("C18", "Literal and folded scalars decode to their text and encode any text",
     "Decoding the lines of a literal or folded block scalar gives the text that YAML's rules for folding, more indented lines, blank lines and chomping give. Encoding a text gives lines that decode to exactly that text (folded: for texts without lines that start with a space or tab), and no folded line is longer than the wanted width unless a single word or repeated spaces make it so.",
     ["inputs"], "every list of lines with every chomping; every text (runs of spaces, line ends anywhere, words longer than the line) with every width",
     "Tests encode and decode about ten texts.",
     [Y + "string.rs"],
     [("parse_literal, parse_folded", Y + "string.rs"), ("create_literal, create_folded, split_on_length", Y + "string.rs")],
     ["parse_literal", "parse_folded", "create_literal", "create_folded"],
     "Oracle: independent reference of YAML 1.2 block scalar rules; round trip for the encoders.")

prop("C19", "Serialized YAML stands for the same data as the Rust value",
     "The YAML that a Rust value serializes to stands for the same data as the JSON of that value: the same fields in order, nulls, booleans, exact numbers and strings, where strings that look like something else are quoted. A generic reader of the prettied text sees the same data.",
     ["inputs"], "every value of 16 type families with hostile strings and edge numbers",
     "A round trip can hide a wrong text that the reader undoes; tests compare a few outputs.",
     [Y + "serializer.rs", Y + "mod.rs"],
     [("YamlSerializer", Y + "serializer.rs"), ("quoting of serialized strings", Y + "serializer.rs")],
     ["YamlSerializer::new", "Document::format"],
     "Differential oracle: serde_json on the same value, compared through the reference semantics.")

prop("C20", "Other YAML readers see the same data",
     "Where a text is YAML, it means here what it means to other YAML readers: the same mappings, lists, keys, texts, quoted and plain scalars, definitions and references. What this crate writes is YAML that stands for the same data: a formatted document, a prettied one, one that was edited first, and a serialized Rust value prettied and formatted (each with a line end put behind it). Quoted scalars over several lines are left out.",
     ["inputs"], "every document of the subset whose scalars and names are YAML, in every layout, formatted, prettied, or edited and formatted; every value of 16 type families",
     "No test compares with YAML: the crate's parser and formatter agree with each other on texts that YAML rejects or reads differently, such as an unquoted '%d'.",
     ["src/yaml.pest", Y + "parser.rs", Y + "mod.rs", Y + "string.rs", Y + "serializer.rs"],
     [("the grammar", "src/yaml.pest"), ("can_be_unquoted_in_block, can_be_unquoted_inline", Y + "mod.rs"), ("format of every tree part", Y + "mod.rs")],
     ["parse_yaml_file", "Document::format", "Pretty::pretty", "YamlSerializer::new"],
     "Differential oracle: libyaml (YAML 1.1) reads the same text. Texts that only YAML 1.2 allows, or that only this crate takes, are not claimed.")

prop("C21", "Parsing, writing and reading take work in proportion to the text",
     "The work and memory that it takes to parse a text, valid or not, and to format, pretty, look up, visit, edit, serialize or read the document, grow in proportion to the size of the text (and, when it is written, of the indentation of its nesting). No short text takes seconds: nesting, repeated keys or items, comments and long scalars do not multiply the work, also when the text is rejected in the end. Documents whose references multiply their data are left out.",
     ["inputs"], "every text up to 24 kB, valid or not, in particular repeated and nested constructs, up to 90 levels, and long scalars, keys, comments, names and lists",
     "The tests parse short valid documents; the work of backtracking doubles with every level and only shows in texts with ten or twenty of them that are invalid at the end.",
     ["src/yaml.pest", Y + "parser.rs", Y + "mod.rs", Y + "insert.rs", Y + "string.rs", Y + "deserializer.rs"],
     [("alternatives of the grammar that start at one position", "src/yaml.pest"), ("format and pretty of every tree part", Y + "mod.rs"), ("find_values", Y + "insert.rs"), ("parse_folded, create_folded", Y + "string.rs")],
     ["parse_yaml_file", "Document::format", "Pretty::pretty", "YamlInsert::find_values", "from_yaml"],
     "Meters: pest's rule calls, bytes allocated and CPU time, against limits in proportion to the text; growth that stays below the limits at these sizes is not seen.")

# extra properties are appended by later sections of this file

TECH = {
    "C13": "stateful model-based testing against a reference model",
    "C14": "stateful model-based testing with conservation invariants",
    "C15": "model-based testing with conservation invariants",
    "C17": "stateful generation with a round-trip oracle",
    "C01": "structured fuzzing (mutation, grammar tokens, random text)",
    "C11": "grammar-based generation and fuzzing, differential against a reference parser",
    "C21": "property-based testing and fuzzing with work meters (rule calls, bytes allocated, CPU time)",
    "C20": "differential property-based testing against libyaml",
    "C19": "differential property-based testing against serde_json",
    "C09": "differential property-based testing against a reference semantics",
    "C10": "differential property-based testing against reference readers",
}

if __name__ == "__main__":
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["d"]["title"]) <= 80
            f.write(json.dumps(p["d"], ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[],
             notes="No hooks: everything goes through the crate's public API. Replay a violation with ./check.sh replay FILE.")
    for p in P:
        i = p["d"]["id"]
        m["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i}",
                                technique=TECH.get(i, "property-based testing against an explicit oracle") + ", with shrinking",
                                level="exploration", level_note=p["note"]))
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

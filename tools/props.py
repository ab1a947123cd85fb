"""Single source of properties.jsonl and MANIFEST.json (run from /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=[f if "/" in f else "yangson/" + f for f in files],
                  mechanism=mechanism, technique=technique, note=note))


prop("C01", "Instance structures are persistent",
     "No operation on an instance node (navigation, editing, adding defaults, merging, "
     "validating, exporting, evaluating XPath) ever changes the value, position or exported "
     "form of any instance node that was obtained before it. Every editing operation returns "
     "a new instance and leaves all its predecessors, and all other nodes sharing structure "
     "with them, exactly as they were.",
     ["histories", "inputs"], "all sequences of instance operations over all models and documents",
     "The tests edit one fixed instance a few times and look at the result of the edit; they never "
     "look back at the earlier versions that share structure with it.",
     ["instance.py", "instvalue.py", "schemanode.py"],
     "copy-on-write zipper in instance.py (_copy, _zip, put_member, delete_item, insert_*, update, "
     "merge, add_defaults) over shared StructuredValue objects",
     "online monitor: snapshots of every handle of a random editing history re-observed after each step",
     "held on all observed histories")

prop("C02", "Editing and navigation act like operations on a plain tree",
     "After any sequence of member and entry edits (put, delete, insert before or after, update, merge) "
     "interleaved with navigation (member, entry, look up by keys, up, top, next, previous, sibling), "
     "the value seen at the root and at the current node is exactly what the same operations produce on a plain "
     "tree of objects and arrays. In particular nothing is lost, duplicated or reordered by moving around an edited "
     "node, and operations that have no target fail with the documented exception leaving nothing behind.",
     ["histories", "inputs"], "all sequences of edits and moves over all documents",
     "Tests run a dozen hand-written edit sequences on one document; order and position of interleaved edits matter.",
     ["instance.py", "instvalue.py"],
     "zipper of ObjectMember siblings / ArrayEntry before+after lists re-assembled by up()",
     "online checker of each operation against a plain-tree model of the document",
     "held on all observed histories")

prop("C03", "JSON round trip of instance data",
     "Reading any schema-conformant JSON document and exporting it again gives the same document up to "
     "the order of object members and the canonical form of scalar values, with members named as RFC 7951 prescribes "
     "(module-qualified exactly at the top level and where the namespace changes), whether or not the input used redundant "
     "qualified names. This includes metadata annotations, empty containers and lists, anydata content, and RPC, action and notification data, and "
     "exporting any inner node equals the corresponding part of the whole export.",
     ["inputs", "configurations"], "all data models and all conformant documents",
     "The tests round-trip one document of one module.",
     ["schemanode.py", "instance.py", "datatype.py", "instvalue.py"],
     "SchemaNode.from_raw / from_obj, InstanceNode.raw_value, DataType.to_raw, metadata processing",
     "round-trip monitor against an independent canonical encoder on generated models and documents",
     "held on all observed documents")

prop("C04", "Validation accepts exactly the valid documents",
     "For every data model, every document and each content type, validation succeeds if and only if the document satisfies all "
     "constraints that RFC 7950 derives from the schema: known members, mandatory nodes, choices and cases, list keys, min/max-elements, "
     "unique, types, when, must and leafref references. When it fails, the reported kind of error, place and error tag are those of a "
     "constraint that the document really violates, and validating syntax and semantics separately gives the two halves of the full verdict.",
     ["inputs", "configurations"], "all data models, all documents, all content types and scopes",
     "Tests validate a handful of documents of one small model; verdicts depend on the interplay of statements (conditional cases, augments, "
     "deviations, defaults), on which tests sample a few points.",
     ["schemanode.py", "schpattern.py", "datatype.py", "xpathast.py", "instance.py"],
     "schema patterns with derivatives, _check_list_props, _check_must, type membership, leafref dereferencing",
     "differential oracle: independent RFC 7950 validator on generated models, valid documents and mutations",
     "held on all observed documents")

prop("C05", "Types accept exactly their value space",
     "Every data type, whatever chain of typedefs, restrictions and unions it is built from, accepts exactly the JSON values in the value "
     "space that RFC 7950 gives it (ranges, lengths, patterns incl. inverted ones, enums and bits, identities, fraction digits, base64, union member order) and rejects all "
     "others without failing in any other way. Derived types never accept what their base type rejects, and a rejected value reports the error tag and message "
     "declared in the restriction.",
     ["inputs", "configurations"], "all types derivable with typedefs and restrictions, all JSON values",
     "Tests check a few dozen fixed values of about 15 fixed types.",
     ["datatype.py", "constraint.py", "schemanode.py"],
     "DataType.from_raw, __contains__, _handle_restrictions, Intervals, Pattern translation",
     "differential oracle: independent type reference on generated type chains and boundary values",
     "held on all observed (type, value) pairs")

prop("C06", "Value conversions agree and canonical forms are canonical",
     "Converting any valid scalar value to JSON, to text or to XML and back gives the same value, the canonical string is the one RFC 7950 defines for the type, "
     "two equal values have equal canonical strings, and parsing a canonical string gives back the value. Text that is not a lexical representation of "
     "the type is rejected and never turned into a value outside the value space.",
     ["inputs", "configurations"], "all types and all values of each type",
     "Tests convert a few example values per type.",
     ["datatype.py"],
     "to_raw/from_raw, canonical_string/parse_value, to_xml/from_xml, from_yang of every type",
     "round-trip monitor and canonical-form oracle on generated types and values",
     "held on all observed values")

prop("C07", "XPath expressions evaluate as XPath 1.0 prescribes",
     "Evaluating any expression of the XPath 1.0 subset used by YANG (all axes, node tests, predicates with position, operators, core functions except id, lang and namespace-uri, and the "
     "YANG functions) in any instance node gives the result XPath 1.0 and RFC 7950 prescribe over the data tree including in-use default values: the same nodes without duplicates, "
     "strings, numbers or booleans (where the repository's tests settle it otherwise, as they do: boolean leaves count as 1 or 0 as numbers, sibling axes stay within one list, name() gives the instance name, members of an object have no order). Expressions that are syntactically wrong are rejected with the documented exception.",
     ["inputs", "programs"], "all XPath expressions, all instance documents and context nodes",
     "Tests evaluate about 150 fixed expressions in one document, mostly single features.",
     ["xpathparser.py", "xpathast.py", "nodeset.py", "instance.py"],
     "XPathParser grammar, Expr._eval of each node class, NodeSet comparisons and ordering, axes in instance.py",
     "differential oracle: lxml (libxml2) on the XML export and an own evaluator, over grammar-generated expressions",
     "held on all observed (expression, context) pairs")

prop("C08", "Addresses identify exactly their node",
     "For every node of every instance, the instance route, path and JSON pointer reported for it lead back to exactly that node, its printed instance identifier and the "
     "equivalent RESTCONF resource identifier parse to routes that reach it, peeking and going to a route agree, and routes that reach nothing are reported as missing with the "
     "documented exception. Instance and resource identifiers with quotes, special or percent-encoded characters, keys of any type and any order of key predicates "
     "select the entry whose canonical key values they name and no other.",
     ["inputs", "configurations"], "all models, documents, nodes and key values",
     "Tests address about 20 nodes with simple keys.",
     ["instroute.py", "instance.py", "datamodel.py"],
     "InstanceIdParser, ResourceIdParser, EntryKeys/EntryValue/EntryIndex, goto/peek, instance_route",
     "enumerating monitor: every node of generated documents is addressed in every notation and found again",
     "held on all observed nodes")

prop("C09", "Adding defaults yields exactly the in-use default values",
     "Adding default values to an instance inserts exactly the default leaves, leaf-lists, containers and case contents that RFC 7950 says are in use (respecting existing data, choices and "
     "active cases, when conditions, mandatory and min-elements, typedef defaults, content type and presence), changes no existing value, and is idempotent. A valid document whose added "
     "values satisfy their own constraints stays valid, and XPath conditions evaluate the same with defaults added or implicit.",
     ["inputs", "configurations"], "all data models and documents",
     "Tests add defaults to one instance.",
     ["schemanode.py", "instance.py", "datatype.py"],
     "_default_instance/_default_value/_add_defaults per node class, ChoiceNode._active_case",
     "differential oracle: independent in-use-default computation on generated models and documents",
     "held on all observed documents")

prop("C10", "The schema is exactly what the YANG modules define",
     "The compiled schema contains exactly the schema nodes, in the namespaces, with the properties (kind, type, config, mandatory, keys, defaults, presence, units, min/max elements, status, when, must, NACM default access) that the "
     "YANG library's modules define after applying uses, refine, augment, deviation and if-feature. Only implemented modules contribute data nodes, and the submodules, revisions and features in effect are those the YANG library selects.",
     ["inputs", "configurations", "programs"], "all sets of modules and YANG libraries",
     "Tests load one library of six modules and spot-check a few nodes.",
     ["schemadata.py", "schemanode.py", "datatype.py", "datamodel.py"],
     "SchemaData._from_yang_library/_process_imports/_check_feature_dependences, _handle_substatements, _augment_stmt, _refine_stmt, _deviate_*",
     "differential oracle: independent schema compiler on generated module sets, compared through digest, tree and behaviour",
     "held on all observed module sets")

prop("C11", "Results do not depend on incidental order, process or copy",
     "The same modules and documents give the same schema digest, tree, validation verdicts, defaults, exports and XPath results regardless of the order of modules in the YANG library, the order of object members in input, "
     "the process and its hash seed, and whether the data model is rebuilt, deep-copied or pickled.",
     ["configurations", "histories", "inputs"], "all libraries, documents, permutations and processes",
     "Tests run in one process with one library order and never copy a model.",
     ["schemadata.py", "datamodel.py", "schemanode.py", "instvalue.py", "schpattern.py"],
     "module registration order, set iteration in schemadata/schemanode, hashing of values, pickling",
     "metamorphic monitor: permuted libraries, shuffled members, fresh processes with other hash seeds, copies",
     "held on all observed permutations")

prop("C12", "The YANG parser reads every text as RFC 7950 prescribes",
     "For every text conforming to the YANG grammar the parser yields exactly the statement tree it denotes: quoting, escapes, string concatenation, comments, whitespace and line trimming, Unicode, arbitrary layout and extensions. "
     "Texts violating the grammar are rejected with the documented parser exceptions, and the position reported lies at the fault.",
     ["inputs"], "all texts",
     "Tests parse two dozen fixed snippets.",
     ["parser.py", "statement.py"],
     "ModuleParser statement/argument rules, comment skipping, unescaping",
     "differential oracle: independent lexer/parser on rendered trees, mutated and random texts",
     "held on all observed texts")

prop("C13", "Merging instance data",
     "Merging one instance value into another gives the document that contains every node of both, with the merged-in value winning for scalar leaves, list entries matched by their keys in place, new entries appended in order, leaf-list "
     "values not repeated where they must be unique, and everything else untouched. Merging a document with itself or with an empty document changes nothing, and the operands remain as they were.",
     ["inputs", "histories"], "all pairs of documents of all models",
     "Tests merge two fixed fragments.",
     ["instance.py", "instvalue.py", "schemanode.py"],
     "InstanceNode.merge/update, _merge_* helpers in instance.py",
     "differential oracle: plain-tree merge on generated document pairs",
     "held on all observed pairs")

prop("C14", "Concurrent use gives the results of sequential use",
     "Any number of threads may use one data model and the instances made from it at the same time: reading, editing, validating, adding defaults, evaluating XPath, parsing identifiers and exporting. Every operation returns what it would have returned "
     "alone, no operation fails because of another one, and no shared instance changes.",
     ["schedules", "histories"], "all interleavings of instance and data model operations",
     "No test starts a thread.",
     ["instance.py", "schemanode.py", "schpattern.py", "datatype.py", "xpathast.py", "datamodel.py"],
     "shared schema nodes, schema patterns, types and lazily filled caches (_path, digests, val_count)",
     "stress with forced thread switches at traced lines inside the library; results compared with a sequential run",
     "held on all observed interleavings")

prop("C15", "Features, identities and library selection follow RFC 7950",
     "Feature expressions evaluate as boolean logic over exactly the features the YANG library declares, with unsatisfied prerequisites rejected; identity derivation is the transitive closure over all modules, irrespective of order, and never reflexive; "
     "and prefixes, imports with and without revision, includes and submodules resolve to the module and revision the library provides. Broken libraries are rejected with the documented exceptions.",
     ["configurations", "inputs", "programs"], "all YANG libraries, feature sets, identity graphs and import graphs",
     "Tests evaluate three feature expressions and one identity hierarchy.",
     ["schemadata.py"],
     "if_feature/FeatureExprParser, is_derived_from/derived_from, prefix maps, _process_imports, revision resolution",
     "differential oracle: boolean evaluator, graph closure and library resolver on generated libraries, plus malformed ones",
     "held on all observed libraries")

prop("C16", "XML and JSON encodings are equivalent",
     "Exporting any instance to XML and reading it back gives the same data, and the XML is the one RFC 7950 prescribes: namespaces of elements, prefixes usable for identityrefs and instance identifiers, order of list entries and text content. Reading equivalent XML and JSON documents gives equal instances.",
     ["inputs", "configurations"], "all data models and documents",
     "Tests convert one document to XML and read one back.",
     ["instance.py", "schemanode.py", "datatype.py", "xmlparser.py"],
     "InstanceNode.to_xml, SchemaNode.from_xml, DataType.to_xml/from_xml, XMLParser",
     "round-trip monitor and independent XML reader/writer on generated models and documents",
     "held on all observed documents")

prop("C17", "Errors are documented exceptions that point at the fault",
     "Whatever JSON value, XML document, YANG library, path, identifier or expression it is given, the library either succeeds or raises one of its documented exceptions; it never fails with an internal error, never hangs, and never leaves earlier objects changed. "
     "The error can always be printed, and the place it names (JSON pointer, instance path, position) is where the fault is.",
     ["inputs", "histories"], "all inputs to the public entry points",
     "Tests provoke about 40 specific errors.",
     ["schemanode.py", "datatype.py", "instance.py", "instroute.py", "datamodel.py", "exceptions.py", "parser.py", "xmlparser.py"],
     "input checks of from_raw/from_xml/parse_*/get_* and the exception classes",
     "hostile-input stress with an exception-discipline monitor and planted faults whose place is known",
     "held on all observed inputs")

prop("C18", "Entity tags and timestamps reflect changes exactly",
     "Two structured values have the same entity tag exactly when their content is the same, irrespective of the order of members or how they came about, and equal values compare equal. Every edit gives the edited node and all its ancestors a new modification time not earlier than before, while "
     "values it does not contain keep their time stamps.",
     ["histories", "inputs"], "all values and editing histories",
     "Tests compare two hashes and two timestamps.",
     ["instvalue.py", "instance.py"],
     "StructuredValue.__hash__/__eq__/stamp, timestamps set by _copy and up",
     "online monitor of tags, equality and timestamps along random editing histories",
     "held on all observed histories")

prop("C19", "The command-line tool reports what the library finds",
     "For every library, instance document, scope and content type, the command-line tool exits with status 0 exactly if the document is valid, and otherwise with the documented non-zero status for the class of failure and a message, never with a traceback. Its tree, digest and identifier outputs are those of the library.",
     ["inputs", "configurations"], "all arguments and input files",
     "Tests do not run the tool.",
     ["__main__.py", "datamodel.py"],
     "argument handling and exception-to-exit-code mapping in __main__.main",
     "process-level monitor of exit status and output against the library and the reference verdict",
     "held on all observed invocations")

prop("C20", "YANG library tools produce equivalent libraries",
     "Converting an RFC 8525 YANG library to the RFC 7895 form gives a library with the same modules, revisions, features, deviations, submodules and conformance, from which the data model is built with the same schema. "
     "The library writers under tools/ (mkylib.py, hello2yanglib.xsl) list exactly the modules, revisions, namespaces and features (mkylib.py also submodules) found in their input (module files, NETCONF hello messages).",
     ["inputs", "configurations"], "all YANG library documents, module directories and hello messages",
     "Tests do not run the converter or the tools.",
     ["convert8525.py", "tools/python/mkylib.py", "tools/xslt/hello2yanglib.xsl"],
     "convert8525 mapping of module-sets to modules-state",
     "differential oracle on generated libraries run through the real tool",
     "held on all observed libraries")

prop("C21", "Observation has no effect",
     "Querying a data model or an instance (digest, tree, schema node lookups, types, defaults, validation, XPath evaluation, export, printing, hashing, comparison) never changes what any later query, validation or export returns. Repeating a query gives the same answer.",
     ["histories"], "all sequences of queries",
     "Tests call each query once.",
     ["schemanode.py", "schemadata.py", "datamodel.py", "datatype.py", "instance.py"],
     "shared mutable state: identity adjacency sets, type error fields, schema patterns, val_count, default values",
     "metamorphic monitor: random query sequences, observations compared with those of a fresh model",
     "held on all observed sequences")

prop("C22", "Conditions and references are decided in the right context",
     "When, must, leafref and instance-identifier conditions are evaluated for the right node: context node, current(), namespace of unprefixed names (also inside groupings, augments, typedefs and submodules), accessible tree and default values are those of RFC 7950. "
     "A conditional node is accepted exactly when its condition holds, a must is checked for every instance of its node, and a reference is accepted exactly when the referred instance exists.",
     ["inputs", "configurations"], "all placements of conditions and references, all documents",
     "Tests have about ten when/must/leafref statements, all in one module.",
     ["schemanode.py", "schpattern.py", "xpathast.py", "datatype.py", "instance.py"],
     "when on nodes, cases, uses and augments; must; LeafrefType/InstanceIdentifierType._deref; XPath context set-up",
     "truth-table oracle: models with known condition values in every placement, all combinations of documents",
     "held on all observed placements")

prop("C23", "Printed XPath expressions mean the same",
     "The string form of any parsed XPath expression can be parsed again and denotes an expression with the same value in every context, and parsing depends only on the tokens of the expression, not on the whitespace between them (literals with tabs or newlines aside). Names that look like operators are read by the XPath rules.",
     ["inputs", "programs"], "all XPath expressions",
     "Tests compare about ten strings.",
     ["xpathparser.py", "xpathast.py"],
     "Expr.__str__ of each class and the tokenisation rules of XPathParser",
     "metamorphic monitor: evaluate original, re-parsed and re-spaced forms in many contexts",
     "held on all observed expressions")

prop("C24", "RPC, action and notification data follow the same rules",
     "Input and output of RPCs and actions and the content of notifications are read, validated, defaulted and exported by the same rules as other data, with exactly the members of the respective part allowed, whether at the top level or inside data.",
     ["inputs", "configurations"], "all models with operations and notifications, all documents",
     "Tests process two RPC documents.",
     ["schemanode.py", "datamodel.py", "instance.py"],
     "SchemaTreeNode subclasses: RpcActionNode, InputNode, OutputNode, NotificationNode",
     "differential oracle: independent validator on generated operations",
     "held on all observed documents")

prop("C25", "Schema nodes can be found, listed and described",
     "Every schema node is found by its schema path and every data node outside operations and notifications also by its data path, and by no other path; the ASCII tree and the schema digest list every node exactly once with its actual properties; paths reported by schema nodes lead back to them.",
     ["inputs", "configurations"], "all data models and paths",
     "Tests look up about 30 paths of one model.",
     ["schemanode.py", "datamodel.py", "schemadata.py"],
     "get_schema_node/get_data_node, data_path, path2route, ascii_tree, schema_digest",
     "enumerating monitor over all nodes of generated models against the reference schema",
     "held on all observed models")

prop("C26", "Node status means what is documented",
     "A node with obsolete status behaves in validation, default values, XPath and mandatory checks exactly as if it and its descendants were not in the schema (it only shows in tree diagrams), unless its module has the keep-obsolete flag in the YANG library, which makes it behave as a current node; a deprecated node behaves as a current one except that it may be missing although mandatory. Status has no other effect: that of a grouping has none on the nodes using it, and that of an augment none on its target.",
     ["inputs", "configurations"], "all data models with status statements and all documents",
     "Tests have one deprecated and one obsolete node.",
     ["schemanode.py", "schpattern.py", "instance.py", "schemadata.py"],
     "_status, _status_stmt, _schema_pattern, filter_children, _pattern_entry, keep_obsolete",
     "metamorphic monitor: validation, defaults, XPath values and tree diagrams of a module compared with those of its rewritten forms",
     "held on all observed models and documents")

NOT_APPLICABLE = []

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [
                    {"name": p["mechanism"], "where": ", ".join(p["files"])}]}}) + "\n")
    checks = []
    na = list(NOT_APPLICABLE)
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                "technique": "runtime monitoring: " + p["technique"],
                "level": "exploration",
                "level_note": p["note"] + "; cases are generated from VERIF_SEED, counts and "
                "monitor events are in the evidence file"})
        else:
            na.append({"property": p["id"], "reason": "no check registered yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 run.py --selfcheck",
                   "checks": checks, "not_applicable": na,
                   "notes": "All checks run the code in /repo (pure Python, nothing to build) "
                            "in worker processes; no hooks are needed in /repo. See DESIGN.md."},
                  f, indent=1)
        f.write("\n")

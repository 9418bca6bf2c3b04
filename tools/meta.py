"""The one place that describes the properties; `python3 tools/meta.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "asyncapi3/models/"
V = "asyncapi3/validators/"
ALL_MODELS = [M + x for x in ("asyncapi.py", "base.py", "base_models.py", "channel.py", "components.py", "helpers.py", "info.py", "message.py", "operation.py",
                              "schema.py", "security.py", "server.py", "bindings/")]

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, observe=list(observe)))


TESTS = "The tests parse a fixed set of example documents and single-field fragments"

prop("C01", "Round trip: a parsed document dumps to itself in every form",
     "For every valid AsyncAPI 3 document, parsing it and dumping it gives back the same data (plus documented defaults), in Python, JSON text and YAML form. "
     "Parsing the dump again gives an equal object, and dumping twice gives the same result.",
     ["inputs"], "every valid document: every object type, field combination, key, Unicode text, extension and free-form JSON value, up to the drawn sizes",
     TESTS + "; losing or retyping a value for one combination of field, nesting and value shape goes unseen.",
     ALL_MODELS, [("aliases and exclude_if on every field", M), ("serialize_by_alias configuration", M + "base_models.py")],
     "Hypothesis round-trip property over documents generated from a reference table of all object types",
     "Search over drawn documents (all object types at every run); the reference table of fields is trusted.",
     ["model_validate", "model_dump", "model_dump_json"])
prop("C02", "Faithful parsing: attributes and dumps say exactly what the document says",
     "After parsing a valid object, every attribute holds exactly the value the document gives for it with the right type, every absent field has its documented "
     "default, nothing is added, dropped, reordered within lists or converted, and the input is not modified.",
     ["inputs"], "every object type with every subset of its fields and values drawn over their whole domain",
     TESTS + "; a swapped alias, a wrong default or a lossy conversion of one field in one union position is only visible when that field is set that way.",
     ALL_MODELS, [("field declarations: names, aliases, types, defaults", M)],
     "differential testing against an independent interpretation of the reference table",
     "Each object type and each field is drawn in every run; the table was checked by hand against the field descriptions.",
     ["model_validate", "attributes", "model_dump"])
prop("C03", "Protocol bindings: every protocol is honoured wherever bindings may stand",
     "For each protocol and each of server, channel, operation and message, the bindings object accepts exactly its documented fields, carries them under that "
     "protocol only, and means the same wherever it stands: inline, in a trait or in the reusable collections. Invalid content of one protocol's bindings is refused everywhere.",
     ["inputs"], "19 protocols x 4 kinds x every position bindings may take, with drawn contents, alone and mixed",
     "The tests cover each binding class alone with fixed values; the product of protocols, kinds, positions and values is far out of their reach.",
     [M + "bindings/", M + "channel.py", M + "message.py", M + "operation.py", M + "server.py", M + "components.py"],
     [("one bindings object per kind with one field per protocol", M + "bindings/core.py")],
     "enumeration of protocol x kind x position with generated contents against the reference table",
     "All combinations of protocol, kind and position are visited in every run; contents are drawn.")
prop("C04", "Structural rejection: malformed objects are refused wherever they stand",
     "A document is refused when any object in it has an unknown field, lacks a required one, holds a value of the wrong type or outside its enumeration or length limit. "
     "This holds at every depth and in every position the object may take, and only then is it refused.",
     ["inputs"], "every object type x every kind of defect x every field, alone and embedded at drawn positions of whole documents",
     TESTS + " and a few missing-field cases per class; the product of defect, field and position is not sampled.",
     ALL_MODELS, [("extra=forbid / extension validation", M + "base_models.py"), ("required fields, literals and length limits", M)],
     "mutation of generated valid documents; verdicts predicted by the reference table",
     "Every field and defect kind is visited in every run; values the documentation leaves open (lax coercions) are not generated.")
prop("C05", "Specification extensions: exactly x- names are allowed, values are kept verbatim",
     "Every extensible object accepts any field named x- followed by letters, digits, dots, hyphens and underscores, with any JSON value, and gives it back unchanged; "
     "every other unknown name is refused. Objects that are not extensible refuse extensions, and open objects (schemas) keep every extra field.",
     ["inputs", "histories"], "every object type x drawn extension names and near misses x JSON values, when parsing, constructing, assigning and nested in documents",
     "The tests try a handful of names on a few classes.",
     [M + "base_models.py", M + "schema.py", M + "bindings/kafka.py"], [("validate_extensions", M + "base_models.py")],
     "generated names and near misses against a character-level oracle for every object type", "All object types in every run; names and values drawn.")
prop("C06", "Patterned objects accept exactly the keys [A-Za-z0-9_-]+, by every route",
     "Every patterned map (servers, channels, messages, parameters and all component collections) accepts a key exactly when it is a non-empty string of ASCII letters, digits, "
     "hyphens and underscores. This holds for parsing, JSON, construction, assignment of the map and item assignment alike.",
     ["inputs", "histories"], "every patterned object x drawn valid keys and near misses x every route of entry",
     "The tests try a few bad keys through the constructor.",
     [M + "base_models.py", M + "helpers.py", M + "channel.py", M + "components.py"], [("validate_patterned_keys", M + "base_models.py"), ("validate_patterned_key", M + "helpers.py")],
     "generated keys against a character-level oracle by every route", "All patterned objects in every run; keys drawn, including Unicode and control characters.")
prop("C07", "Document names and Python names are interchangeable on input",
     "Every field can be given by its document name or its Python name, in any mixture and at any depth, with the same result. Dumps use document names only, and attributes Python names only.",
     ["inputs"], "every object and whole documents, with a drawn subset of fields respelled",
     "The tests use one spelling per case; a missing alias on one field shows only with that field in that spelling.",
     ALL_MODELS, [("validate_by_name / validate_by_alias / serialize_by_alias", M + "base_models.py"), ("aliases", M)],
     "metamorphic testing: respelling fields must not change the result", "Every field with two spellings in every run.")
prop("C08", "Input forms agree: dict, JSON text, YAML, keywords and instances",
     "The same document given as a Python dict, JSON text, YAML text, constructor keywords or already built model instances gives equal objects with equal dumps. "
     "What one form refuses every form refuses, and an instance of a class that may not stand in a place is refused there.",
     ["inputs"], "every object type and whole documents, in each input form and mixtures of them",
     "The tests mostly use one form per case and never compare forms.",
     ALL_MODELS, [("revalidate_instances", M + "base_models.py")],
     "differential testing between the input forms", "Drawn documents; YAML restricted to text PyYAML itself round-trips.")
prop("C09", "Any input is parsed or refused cleanly, with no trace left behind",
     "For any JSON-like value, parsing either succeeds or raises the library's validation error; it raises nothing else, does not hang, does not modify its input and does not affect later parses. "
     "The outcome is the same every time.",
     ["inputs", "histories"], "arbitrary JSON values, damaged documents and sequences of them, fed to every object type",
     "The tests only try inputs close to valid ones.",
     ALL_MODELS + ["asyncapi3/__init__.py"], [("model validators", M)],
     "fuzzing with structured and arbitrary values; crash, purity and determinism oracle", "Drawn inputs; resources are limited so that hangs count as failures.")
prop("C10", "Assignments keep objects valid; refused ones leave no trace",
     "Assigning an attribute of any object in a document is accepted exactly when the resulting object is valid. An accepted assignment changes that field only; a refused one leaves the object exactly as it was.",
     ["histories", "inputs"], "sequences of up to 12 assignments of valid, invalid and rule-breaking values to drawn objects of drawn documents",
     "The tests make single assignments; cross-field rules over histories and the state after a refusal are not sampled.",
     ALL_MODELS, [("validate_assignment", M + "base_models.py"), ("model validators", M)],
     "stateful property: a model document predicts every verdict and state", "Histories of up to 12 steps; shrinking gives the minimal history.")
prop("C11", "Patterned objects behave as a dictionary of valid entries over any history",
     "Any sequence of item reads, writes, deletions, membership tests, iteration and length queries on a patterned object behaves as on a Python dictionary, except that invalid keys or values are refused and leave it unchanged. "
     "Reads give the stored objects themselves, so a change made through one is seen. Dumps and later parses see the same entries in the same order.",
     ["histories"], "operation sequences over every patterned object, with valid and invalid keys and values",
     "The tests call each method once on one object.",
     [M + "base_models.py", M + "channel.py", M + "components.py"], [("mapping methods", M + "base_models.py")],
     "model-based testing against a Python dict", "Histories of drawn operations; all patterned objects in every run.")
prop("C12", "A reference is recognised as such, and only where one may stand",
     "Wherever a reference may stand, {'$ref': s} with any string s is read as a reference with exactly s and anything else as the inline object; where none may stand it is refused. Dumps give each back as it was written.",
     ["inputs"], "every field, list element and map value of every object type, with references, look-alikes and inline variants",
     "The tests try a few positions with well-formed component references.",
     [M + "base.py", M + "base_models.py", M + "channel.py", M + "message.py", M + "operation.py", M + "server.py", M + "schema.py", M + "components.py", M + "bindings/"],
     [("unions of object and Reference", M), ("Reference forbids extra fields", M + "base.py")],
     "enumeration of all positions with generated references and look-alikes", "All positions in every run.")
prop("C13", "Reference validation refuses every bad reference, wherever it stands",
     "With unified reference validation enabled, a document is refused if any reference in it leads nowhere, leads to an object of another kind than may stand there, is part of a cycle, or has an unsupported form. "
     "This holds for every position a reference may take, at parse time, on direct validation and on assignment.",
     ["inputs", "histories"], "every position a reference may take x every way to be bad x drawn surroundings, including the same string used correctly elsewhere",
     "The tests cover one bad example per class; which of the 346 positions and what kind of badness is a product they cannot sample.",
     [V + "unified_references_validator.py", V + "utils.py", M + "asyncapi.py"],
     [("REFERENCE_TYPE_MAPPINGS and path matching", V + "unified_references_validator.py"), ("resolve_reference", V + "utils.py")],
     "enumeration of all reference positions with generated defects; independent resolver as oracle",
     "All positions in every run; pointers through lists, free-form values or escapes are left undecided.")
prop("C14", "Reference validation accepts every good reference and changes nothing",
     "With unified reference validation enabled, a document whose references all lead, directly or through chains of any length, to objects that may stand there is accepted unchanged. "
     "References to http(s) documents are accepted and logged as warnings.",
     ["inputs", "histories"], "every position a reference may take x every admissible target, in place, in components or through chains up to 2000 long",
     "The tests cover a few accepted examples; a position whose expected kind is computed wrongly rejects valid documents unseen.",
     [V + "unified_references_validator.py", V + "utils.py", M + "asyncapi.py"],
     [("REFERENCE_TYPE_MAPPINGS and path matching", V + "unified_references_validator.py"), ("resolve_reference", V + "utils.py")],
     "enumeration of all reference positions with generated good targets; independent resolver as oracle", "All positions in every run.")
prop("C15", "Resolving a reference gives exactly the object it denotes",
     "Resolving a local reference against a document returns the very object found by following its path and any further references, with its type. It reports an external reference as unresolved and refuses cycles, missing paths and unsupported forms.",
     ["inputs"], "drawn documents x every addressable pointer, near misses, chains, cycles and malformed references",
     "The tests resolve a few fixed pointers.",
     [V + "utils.py"], [("resolve_reference", V + "utils.py")],
     "differential testing against an independent resolver over the plain document", "Drawn documents and queries.")
prop("C16", "Tag references are confined to the reusable tags, in every position",
     "With tag reference validation enabled, a document is refused exactly when a tag reference at any of the positions that may hold one is local but does not name an existing entry of the reusable tags. "
     "Other, external references are accepted with a warning.",
     ["inputs", "histories"], "all 18 positions of tag references x good, missing, misplaced and malformed references x drawn surroundings",
     "The tests cover one good and one bad example for some of the positions.",
     [V + "tags_ref_validator.py", M + "asyncapi.py"], [("one traversal per position", V + "tags_ref_validator.py")],
     "enumeration of positions with generated references; verdict computed from the document", "All positions in every run.")
prop("C17", "External documentation references are confined to the reusable ones",
     "With external documentation reference validation enabled, a document is refused exactly when such a reference at any documented position is local but does not name an existing entry of the reusable external documentation. "
     "Other, external references are accepted with a warning.",
     ["inputs", "histories"], "all documented positions x good, missing, misplaced and malformed references x drawn surroundings",
     "The tests cover one good and one bad example for some of the positions.",
     [V + "external_docs_ref_validator.py", M + "asyncapi.py"], [("one traversal per position", V + "external_docs_ref_validator.py")],
     "enumeration of positions with generated references; verdict computed from the document", "All positions in every run.")


prop("C18", "Processors run in order, on every validation, and their refusals count",
     "Extra converters and then extra validators run in the given order on the complete document whenever it is validated: when parsed, re-validated, or assigned a root field. "
     "What converters change is kept; any refusal refuses the document, and on assignment leaves it as it was.",
     ["inputs", "histories"], "drawn documents, drawn lists of processors with drawn behaviours, and histories of assignments, list changes and re-validations",
     "The tests use one or two mock processors on one parse; orders, histories and interplay of several processors are not sampled.",
     [M + "asyncapi.py", M + "base_models.py", "asyncapi3/protocols.py"], [("run_extra_converters / run_extra_validators", M + "asyncapi.py"), ("ProcessorProtocol", "asyncapi3/protocols.py")],
     "stateful property: a model predicts calls, order, verdicts and state", "Drawn histories; processors' return values are not decided.",
     ["AsyncAPI3.model_validate", "AsyncAPI3 attribute assignment"])
prop("C19", "Validators only observe, remember nothing and combine freely",
     "Each shipped validator either returns the document or refuses it with a ValueError; it never changes the document. Its answer does not depend on what it or any other validator saw before, "
     "and several validators together refuse exactly when one of them does, in any order.",
     ["inputs", "histories"], "histories of applications of all shipped validators, fresh and reused, to drawn documents with good, bad and arbitrary references",
     "The tests apply one fresh validator to one document.",
     [V], [("validator classes", V), ("extra_validators", M + "asyncapi.py")],
     "stateful property: each answer is compared with that of a fresh validator on a fresh copy", "Drawn histories of up to 8 applications.")
prop("C20", "The builder makes a valid, empty, independent document of its arguments",
     "as_builder gives the document one would write by hand: the given information and overrides, an empty collection for everything else, reference validation switched on. "
     "It can be filled step by step, stays valid, and shares nothing with other built documents.",
     ["inputs", "histories"], "drawn arguments (valid and invalid, plain data and instances) and histories of additions to every collection",
     "The tests call it with a few fixed arguments.",
     [M + "asyncapi.py", M + "components.py"], [("as_builder", M + "asyncapi.py")],
     "model-based testing: the built document is compared with a plain document after every step", "Drawn arguments and histories.",
     ["AsyncAPI3.as_builder"])
prop("C21", "Reference factories name the object they speak of; references are values",
     "Each factory of Reference, given a name, spells the reference to the object of that name in its collection, and resolving it gives that very object; on a derived class it makes a reference of that class. "
     "References are equal, with equal hashes, exactly when their strings are equal.",
     ["inputs"], "all 22 factories x drawn names and documents with decoys under the same name elsewhere; pairs of drawn reference strings",
     "The tests call each factory with one name and compare strings; they never resolve the result.",
     [M + "base.py", V + "utils.py"], [("to_* class methods", M + "base.py"), ("__eq__ / __hash__", M + "base.py")],
     "round trip from name to factory to resolver over generated documents", "All factories in every run.",
     ["Reference.to_component_*_name", "Reference.to_root_*_name"])
prop("C22", "Security schemes accept exactly the documented combinations of fields",
     "A security scheme is accepted exactly when its type has the fields it needs (in, name, scheme, flows, openIdConnectUrl) with values allowed for it, and bearerFormat and scopes only where they apply. "
     "An OAuth flow is accepted exactly with the URLs it needs. This holds for parsing, construction, assignment and inside documents.",
     ["inputs", "histories"], "every cell of the decision tables (about 24,000 combinations), every single change from a valid cell, and drawn positions in documents",
     "The tests cover a few dozen combinations and few assignments.",
     [M + "security.py"], [("validate_security_scheme_dependencies", M + "security.py"), ("validate_oauth_flows_requirements", M + "security.py")],
     "systematic generation of all cells of the decision tables, judged by an independent formulation of the rules",
     "All cells of the tables in every run; free text is sampled.")
prop("C23", "Bindings enforce their limits, enumerations and field combinations exactly",
     "Protocol bindings accept exactly the documented values: numbers up to and including their limits, texts up to their lengths, enumerated values as spelled, and only the documented combinations of fields. "
     "This holds for parsing, construction, assignment and inside documents.",
     ["inputs", "histories"], "every cell of the decision tables at both sides of every limit, every enumerated or limited field of every binding object, assignments and drawn positions",
     "The tests take one value on each side of some limits, alone and when parsing.",
     [M + "bindings/"], [("field and model validators", M + "bindings/")],
     "systematic generation around every boundary, judged by an independent formulation of the rules", "All cells in every run.")
prop("C24", "Core values follow their documented syntax by every route",
     "Versions (3.x.y with optional suffix), e-mail addresses, correlation id locations ($message.), URLs, channel parameters (only with an address expression) and message examples (headers or payload) "
     "are accepted exactly when well-formed, kept verbatim, and judged alike when parsing, constructing, assigning and inside documents.",
     ["inputs", "histories"], "strings drawn around the edge of each rule, by every route; decision tables for channels and message examples",
     "The tests try a handful of good and bad strings per rule, mostly through one route.",
     [M + "asyncapi.py", M + "helpers.py", M + "info.py", M + "security.py", M + "channel.py", M + "message.py"],
     [("version pattern", M + "asyncapi.py"), ("EmailStr", M + "helpers.py"), ("validate_parameters", M + "channel.py"), ("validate_headers_or_payload", M + "message.py")],
     "near-miss mutation of valid strings against character-level oracles", "Drawn strings; URL syntax beyond listed good and bad ones is pydantic's.")
prop("C25", "Copies, repeated parses and dumps are equal and independent",
     "A copy of an object, a second parse of the same input and a parse of its dump are equal to it and share no state: a change of one is never visible in the others, nor in the input or earlier dumps. "
     "Two objects are equal exactly when their documents are.",
     ["inputs", "histories"], "drawn objects and documents, six ways of copying, histories of changes on both sides; pairs differing in one place",
     "The tests never change one object and look at another.",
     ALL_MODELS, [("field defaults and default factories", M), ("mapping methods", M + "base_models.py")],
     "stateful property with one model document per object", "Histories of up to 8 changes.",
     ["copy.deepcopy", "model_copy", "pickle", "model_validate", "=="])
prop("C26", "Published JSON Schemas agree with what the models accept and produce",
     "The JSON Schema published by each model accepts every valid document and every dump, and refuses missing required fields, wrong types, values outside enumerations or length limits, and unknown fields of closed objects. "
     "Its properties, required fields and defaults are the documented ones.",
     ["inputs"], "every object type x drawn valid documents, their dumps and drawn structural defects",
     "The tests only check that the schema can be generated.",
     ALL_MODELS, [("field declarations", M), ("__get_pydantic_json_schema__", M + "helpers.py")],
     "differential testing of the schema (jsonschema) against the reference table", "All object types in every run; rules beyond JSON Schema are not expected.",
     ["model_json_schema"])

prop("C27", "Documents handled at the same time do not affect one another",
     "Work on several documents at the same time, in threads under any interleaving or nested within each other's processors, gives each the result it gives alone: "
     "the same verdicts, dumps, errors and resolved references. Documents and inputs that are only read stay unchanged.",
     ["schedules", "inputs"], "drawn programs of 2-3 threads x drawn schedules at the granularity of library lines; drawn operations nested in processors",
     "The tests never run two operations at once, nor one inside another.",
     ["asyncapi3/models/", V], [("run_extra_processors", M + "asyncapi.py"), ("validator classes", V), ("resolve_reference", V + "utils.py")],
     "schedule exploration: drawn programs run under a deterministic line-level scheduler, compared with each operation alone",
     "Drawn programs and schedules; control passes at Python lines of the library only.")
prop("C28", "Reference verdicts ignore order, naming and unrelated content",
     "Rewriting a document without changing what it means keeps the verdict of every reference validator: reordering keys, renaming an entry with all references to it, adding unrelated content, duplicating an entry, "
     "moving an object into the reusable components behind a reference, or lengthening a reference by one more component.",
     ["inputs"], "every position of a reference x drawn documents with good, bad and arbitrary references x one to three rewrites",
     "The tests compare verdicts of single documents, never of two forms of one.",
     [V + "unified_references_validator.py", V + "utils.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"],
     [("path matching by REFERENCE_TYPE_MAPPINGS", V + "unified_references_validator.py"), ("resolve_reference", V + "utils.py")],
     "metamorphic testing: meaning-preserving rewrites must keep the verdict", "All positions in every run; no oracle for the verdict itself is needed.")
prop("C29", "A refusal says where: errors name every defect's place, or a bad reference",
     "When a document is refused, the error holds, for every independent defect in it, an entry located at that defect which names the unknown field or bad key. A refusal by unified reference validation names the place of a bad "
     "reference, one by the tag or external documentation validators the bad reference or its name.",
     ["inputs"], "every object, field and kind of defect at drawn places, alone and several at once; bad references at every position",
     "The tests look at messages of a few fixed failures, never at locations deep in a document.",
     ALL_MODELS + [V], [("aliases", M), ("error messages", V)],
     "generated defects at known paths; locations and texts of the errors compared with the paths", "All kinds of defect and positions in every run; wording is not decided.",
     ["ValidationError.errors()", "str(ValueError)"])
prop("C30", "Every process gives the same answers to the same documents",
     "Verdicts, dumps and their key order, error texts, warnings and JSON Schemas of a document are the same in every process, whatever its hash seed, optimisation level, locale, working directory, log level, warning filter and the order in which it imported the modules of the package.",
     ["inputs", "histories"], "drawn batches of documents x drawn process settings; every module of the package as the first import",
     "The tests run in one process with one setting.",
     ["asyncapi3/"], [("module imports", "asyncapi3/models/__init__.py"), ("validators", V)],
     "differential testing between processes with drawn settings", "Every module is imported first in every run; the rest is drawn. One Python version.")
prop("C31", "Overridden hooks of the validators receive every reference and decide",
     "A subclass of the tag or external documentation validator that overrides the documented hook for external or for local references receives exactly the references of that sort, each position once, with the document. "
     "Its answer decides about them, and the rule it did not override stays in force.",
     ["inputs", "histories"], "every position of a tag or external documentation reference x good, bad and external references x which hooks are overridden and what they answer",
     "The tests never override a hook.",
     [V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"], [("validate_external_tag_ref / validate_internal_tag_ref", V + "tags_ref_validator.py"),
     ("validate_external_external_doc_ref / validate_internal_external_doc_ref", V + "external_docs_ref_validator.py")],
     "generated documents given to recording subclasses; calls compared with the document's references", "All positions in every run.")

prop("C32", "Work grows with the size of the document, not faster",
     "The work of reading, validating, writing, copying and comparing a document, and of filling or reading a map entry by entry, grows at most in proportion to its size, in whatever direction it grows. "
     "For chains of references, which are followed to their end for each entry, it grows at most with the square of their length.",
     ["inputs"], "drawn documents grown by copies of any entry of a map or list (at every position of a reference, also with a target of its own for each copy), every list, map and free-form field, extensions, free content and its nesting, long texts and names, chains of references; adversarial strings of 150000 characters in every text field, key and reference",
     "The tests use documents of a few entries, where quadratic or exponential work cannot be seen.",
     ALL_MODELS + [V + "utils.py", V + "unified_references_validator.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"],
     [("visited references", V + "unified_references_validator.py"), ("resolve_reference", V + "utils.py"), ("single entry validation in __setitem__", M + "base_models.py")],
     "generated documents grown to three sizes; executed library lines counted (sys.monitoring) and their growth compared", "Executed Python lines of the library at small sizes; time in C code is limited only for long strings.")

prop("C33", "An operation that fails half-way leaves everything as it was",
     "When an operation is stopped half-way by an error, an interrupt, exhausted memory or a failing processor, the documents, their processors and the inputs are as they were before. "
     "The operation can then be done again, and it and others give the same results as if the failure had not been.",
     ["crash_points", "inputs", "histories"], "drawn documents x operations (parse, validate, dump, copy, resolve, build, assign, set an item) x failure at any call of a library function or in a processor x kind of error",
     "The tests only see failures that validation itself raises, never one arriving in the middle of an operation.",
     [M + "asyncapi.py", M + "base_models.py", V + "unified_references_validator.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py", V + "utils.py"],
     [("_AtomicAssignmentMixin", M + "base_models.py"), ("guard against re-entry of processors", M + "asyncapi.py"), ("state of a validator", V + "unified_references_validator.py")],
     "fault injection at drawn calls of generated operations; state and later results compared with an undisturbed run", "Faults on entry to Python functions of the library, except calls made by code that undoes something.")

prop("C34", "Document classes derived from AsyncAPI3 keep every guarantee",
     "A class derived from AsyncAPI3, with fields, rules or default processors of its own, accepts and refuses the same documents as AsyncAPI3 but for its additions, by every route, and dumps the same data with its own fields added. "
     "Parsing, building, copying and running processors give and receive instances of that class, and AsyncAPI3 itself stays as it is.",
     ["programs", "inputs", "histories"], "drawn derived classes (fields with and without alias, default or required, a rule, default processors) x documents good and bad x routes x assignments",
     "The tests use AsyncAPI3 itself only.",
     [M + "asyncapi.py", M + "base_models.py"], [("as_builder (a class method)", M + "asyncapi.py"), ("run_extra_processors", M + "asyncapi.py"), ("base models", M + "base_models.py")],
     "generated derived classes; differential against AsyncAPI3", "Root document class only; drawn.")

prop("C35", "Documents nobody uses any more are released",
     "After parsing, validating, changing, copying or building documents, successfully or not, the library keeps no hold of them. Once the user drops the last use, every object made is freed.",
     ["histories", "inputs"], "drawn histories of operations, refused and failing ones included, over drawn documents",
     "The tests never look at what outlives an operation.",
     [M + "asyncapi.py", V + "unified_references_validator.py", V + "utils.py"], [("guard against re-entry of processors", M + "asyncapi.py"), ("validators", V), ("resolve_reference", V + "utils.py")],
     "generated histories, then the garbage collector counts the library's objects still alive", "Objects of the library's classes; other memory is not counted.")

prop("C36", "Looking at a document changes nothing and shows the same every time",
     "Reading, dumping, printing, comparing, copying, iterating and searching a document, asking for its JSON Schema, resolving references in it and validating it again never change it. What each of these shows depends on the document alone, not on what was looked at before.",
     ["histories", "inputs"], "drawn histories of looks at drawn objects of every type and documents",
     "Tests look at an object once or twice; a look that moves, fills in or remembers something shows only in the next one.",
     [M + "base_models.py", M + "base.py", V + "utils.py", V + "unified_references_validator.py"], [("patterned maps", M + "base_models.py"), ("resolve_reference", V + "utils.py"), ("validators", V)],
     "generated histories of reads; identity snapshot of the object after each, differential against a fresh parse", "Looks at one object by one thread; C27 has several.")

prop("C37", "Handling documents touches nothing outside of them",
     "Importing the library, and parsing, editing, building, validating, resolving and dumping documents with it, whatever they say, open no file, connection or process and print nothing. "
     "No setting of the process is other than it was: recursion limit, logging, warning filters, environment, working directory, locale, random state, garbage collector, threads, hooks.",
     ["inputs", "histories"], "drawn histories over drawn objects and documents whose texts and references name files, addresses and commands; every module imported alone",
     "Tests run under pytest, which sets up logging and the recursion limit itself, and look at results only.",
     [M + "asyncapi.py", M + "base_models.py", V + "utils.py", V + "unified_references_validator.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"],
     [("resolve_reference", V + "utils.py"), ("validators", V), ("processors", M + "asyncapi.py")],
     "fuzzing under audit events of the interpreter and a snapshot of the settings of the process", "File checks that raise no audit event (os.stat) are not seen.")


def main():
    import sys
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                                            **({"observe_at": p["observe"]} if p["observe"] else {}), "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, "pbt", "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": f"./check.py {p['id']}", "thorough_cmd": f"./check.py {p['id']} --thorough",
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in PROPS if p["id"] not in {c["property"] for c in checks}],
           "notes": "Property-based testing with Hypothesis; see DESIGN.md. No hooks in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()

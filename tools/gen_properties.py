#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when the properties change)."""
import json, os
V = "include/valijson/validation_visitor.hpp"
P = "include/valijson/schema_parser.hpp"
CC = "include/valijson/constraints/concrete_constraints.hpp"
BA = "include/valijson/internal/basic_adapter.hpp"
S = "include/valijson/schema.hpp"
SS = "include/valijson/subschema.hpp"
VR = "include/valijson/validation_results.hpp"
VD = "include/valijson/validator.hpp"
JP = "include/valijson/internal/json_pointer.hpp"
JR = "include/valijson/internal/json_reference.hpp"
UR = "include/valijson/internal/uri.hpp"
CA = "include/valijson/internal/custom_allocator.hpp"
U8 = "include/valijson/utils/utf8_utils.hpp"
DP = "include/valijson/internal/double_parser.hpp"
AD = "include/valijson/adapters/"
NOSUITE = "The draft conformance suite (JSON-Schema-Test-Suite) is not present, so no test in the tree runs these keywords systematically; the error and date tests touch a handful of documents. "
def m(name, where): return {"name": name, "where": where}
props = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

add("C01", "Scalar keywords accept exactly what the selected draft says",
    "For every schema made of type, enum, const, minimum/maximum (with the draft's form of exclusivity), multipleOf/divisibleBy, minLength/maxLength and pattern, under drafts 3, 4 and 7 and strict types, validating a document returns true exactly when the draft's definition of each keyword accepts it. A keyword never constrains a value of a type it does not apply to, 1.0 counts as an integer, and a value is a multiple of a divisor only when the division leaves no remainder (up to rounding of the quotient for divisors that are not 64-bit integers).",
    ["inputs", "configurations"],
    "every schema over these keywords (length keywords written as integers) x every JSON value (limits and numbers compared in double precision, so exactly representable as IEEE doubles) x draft 3/4/7",
    NOSUITE + "The statement is over the cross product of keyword values, value types and drafts.",
    [V, P, CC],
    [m("one visit() per keyword", V), m("keyword-to-constraint mapping with draft switches", P + ":populateSchema")],
    ["Validator::validate return value"])
add("C02", "Object keywords accept exactly what the selected draft says",
    "For every combination of properties, patternProperties, additionalProperties, propertyNames, required (boolean form in draft 3), dependencies and minProperties/maxProperties, and every object, the verdict equals the draft's: each member is checked by every matching properties and patternProperties subschema, additionalProperties sees exactly the members matched by neither, and property names are compared and matched as whole strings. Non-objects are unaffected by these keywords.",
    ["inputs", "configurations"],
    "every combination of object keywords x every object over the name alphabet (including names with '/', '~', '%', the empty name and names with NUL) x draft",
    NOSUITE + "The interesting behaviour is in how the keywords interact on one member; the number of combinations is exponential.",
    [V, P, CC],
    [m("matched-property tracking", V + ":visit(PropertiesConstraint)"), m("child schema creation per member", P + ":makePropertiesConstraint"), m("required/dependencies functors", V)],
    ["Validator::validate return value"])
add("C03", "Array keywords accept exactly what the selected draft says",
    "For every combination of items (one schema, a list of schemas, booleans), additionalItems, contains, uniqueItems, minItems and maxItems, and every array, the verdict equals the draft's: item i of a list form is checked by schema i, every later item by additionalItems, contains needs one matching item, and uniqueItems rejects exactly the arrays with two equal items. Non-arrays are unaffected by these keywords.",
    ["inputs", "configurations"],
    "every combination of array keywords x every array over the item alphabet up to the length bound x draft",
    NOSUITE + "Index arithmetic between items, additionalItems and short arrays is only exercised for one or two lengths.",
    [V, P, CC],
    [m("index hand-over from items to additionalItems", V + ":visit(LinearItemsConstraint)"), m("pairwise comparison", V + ":visit(UniqueItemsConstraint)"), m("items/additionalItems parsing", P + ":makeLinearItemsConstraint")],
    ["Validator::validate return value"])
add("C04", "Combinators compose subschema verdicts by their truth tables",
    "allOf, anyOf, oneOf, not, if/then/else (draft 7), boolean schemas (draft 7), extends, disallow-free union types and schema-valued type entries (draft 3) yield exactly the boolean combination the draft defines of the verdicts of their subschemas on the same value, at any nesting and next to any other keyword. then and else have no effect without if, and the order or duplication of subschemas changes nothing except the count oneOf takes.",
    ["inputs", "configurations"],
    "every nesting of combinators up to the depth bound over a basis of subschemas whose verdicts take all combinations x every instance of the alphabet x draft",
    NOSUITE + "Truth tables with early exit, in both the fail-fast and the collecting mode, need the whole table.",
    [V, P, CC, SS],
    [m("ValidateSubschemas functor with continue flags", V), m("early exit in fail-fast mode", SS + ":applyStrict")],
    ["Validator::validate return value"])
add("C05", "Date, time, date-time and IPv4 formats accept exactly the specified strings",
    "A string meets format date exactly when it is a full RFC 3339 date (four-digit year, real day of the month, leap years included), time and date-time exactly when they follow RFC 3339 including leap seconds only at 23:59:60 UTC, with the UTC offset optional only in permissive mode, and ipv4 exactly when it is four dot-separated numbers of one to three decimal digits from 0 to 255 (leading zeros allowed). Unknown formats and values that are not strings always pass, and no string makes format checking throw or crash.",
    ["inputs", "configurations"],
    "every string of the four grammars over all month/day/leap-year/offset classes and all single- and double-character mutations of valid strings, in strict and permissive mode",
    "The date tests list 29 documents; calendar rules, offsets across midnight and lexical near-misses are a product space no list samples well.",
    [V, VD],
    [m("format regular expressions and range checks", V + ":visit(FormatConstraint)"), m("calendar", V + ":validate_date_range"), m("leap second rule", V + ":validate_leap_second")],
    ["Validator::validate return value for format schemas"])
add("C06", "JSON value equality is an equivalence that matches the JSON data model",
    "Strict comparison of two JSON values, as used by const, enum and uniqueItems, holds exactly when they are the same JSON value: numbers by mathematical value, strings byte for byte, arrays element by element, objects as unordered sets of members, and never across types. It is reflexive, symmetric and transitive, gives the same answer whichever adapter holds either side, and a frozen copy compares exactly like the value it was taken from.",
    ["inputs", "configurations"],
    "all pairs and triples of values of the value alphabet (nesting up to the depth bound) x all pairs of adapters x frozen or live",
    "The adapter comparison tests compare whole documents of a few shapes and mostly equal ones; symmetry and transitivity are statements over pairs and triples.",
    [BA, AD + "rapidjson_adapter.hpp", "include/valijson/internal/frozen_value.hpp", AD],
    [m("equalTo and its array/object comparison functors", BA), m("freeze()", AD)],
    ["Adapter::equalTo", "FrozenValue::equalTo", "Validator::validate with const/enum/uniqueItems"])
add("C07", "String length is the number of Unicode code points, NUL included",
    "minLength and maxLength count Unicode code points of the UTF-8 string, whatever its bytes: one, two, three and four byte sequences each count once, an embedded NUL counts as a character and does not end the string, and counting never reads outside the string even when it is truncated or not valid UTF-8.",
    ["inputs"],
    "every byte string up to the length bound over an alphabet of lead, continuation, ASCII, NUL and invalid bytes, placed at the end of a guarded buffer",
    "Tests hold one adapter-level check; the byte-sequence space at the end of the buffer is where over-reads and miscounts live.",
    [U8, V],
    [m("code point stepping", U8 + ":u8_strlen/u8_nextchar"), m("length keywords", V + ":visit(MinLengthConstraint)")],
    ["Validator::validate for minLength/maxLength"])
add("C08", "Collecting errors never changes the verdict, and invalid means an error",
    "Validating with a results object returns the same verdict as validating without one, for every schema, document and type mode. When the verdict is invalid the results hold at least one error, and when it is valid they hold none.",
    ["inputs", "configurations"],
    "every schema/document pair explored for C01-C04 (all keywords, all drafts, strict and weak types), each validated with and without a results object",
    "The two modes run different control flow (early exit versus exhaustive) in nearly every keyword; tests run one mode per document and compare expected strings for about ten documents.",
    [V, VR, SS],
    [m("apply versus applyStrict", SS), m("continue-on-failure flags and child result sets", V)],
    ["Validator::validate return value", "ValidationResults::numErrors"])
add("C09", "Reported errors point at the values that really fail, in order, once queued",
    "Every error reported for an invalid document carries a JSON Pointer that resolves, under RFC 6901 escaping, to an existing value of the document, agrees with its list-form context, and at that value some schema applied there fails. Every member or item that violates a directly applied subschema (properties, patternProperties, additionalProperties, items, additionalItems, allOf) is covered by some error at its own location or beneath it, and popping returns the pushed errors first in first out exactly once.",
    ["inputs", "histories"],
    "every schema/document pair of the error alphabet (names needing escapes, nesting, several failing siblings) and every push/pop/query sequence on a results object up to the length bound",
    "The error tests fix the exact list for a handful of documents; soundness and completeness of locations is about every combination of failing and passing siblings.",
    [V, VR],
    [m("path accumulation per recursion", V), m("pointer construction and escaping", VR)],
    ["ValidationResults::popError / begin / numErrors"])
add("C10", "A $ref means the schema it points to, wherever and in whatever order it appears",
    "Within one schema document, replacing any $ref by the schema it refers to (JSON Pointer fragment, plain-name fragment, or URI of an embedded identified schema, resolved against the nearest enclosing identifier) leaves every verdict unchanged, for recursive references too. Keywords beside a $ref are ignored, and the verdict does not depend on the order of object members, on which reference was met first, or on names that need escaping.",
    ["inputs", "histories"],
    "every small schema document with up to three references among definitions/properties/items/combinators, with and without identifiers, in every member order x every instance of the alphabet (identifiers unique and without fragments; relative references only against hierarchical bases)",
    "Resolution is stateful (a registry filled in traversal order); tests cover a few named examples in one order each.",
    [P, JR, JP, UR, "include/valijson/schema_registry.hpp"],
    [m("registry keyed by resolved location", P + ":makeOrReuseSchema"), m("identifier search", P + ":findSchemaById/findScopeForPath"), m("root reference", P + ":resolveThenPopulateSchema")],
    ["Validator::validate return value after populateSchema"],
    state=[{"name": "schema registry", "meaning": "resolved location to subschema, filled in traversal order", "where": P}])
add("C11", "Remote schema documents are fetched once and freed exactly once",
    "While one schema is being populated, each distinct remote document is requested from the fetch callback at most once and with its fully resolved URI (identifiers inside a document count once that document has been fetched), and every document the callback returned is handed to the free callback exactly once, after its last use, whether population succeeds, the callback refuses or throws, or a document turns out malformed. A schema using remote references gives the verdicts of the referenced schemas, and population throws (it does not crash or hang) when a document is unavailable or references form a cycle of pure references across documents.",
    ["fault_sequences", "histories", "inputs"],
    "every reference graph over up to three documents (chains, diamonds, cycles, root references) x a fault (null, exception, malformed or missing target) at every callback position",
    "Four tests use a fetch callback, each with one document and no failure.",
    [P],
    [m("document cache and its release on both exits", P + ":populateSchema/freeDocumentCache"), m("fetch on reference", P + ":makeOrReuseSchema/resolveThenPopulateSchema")],
    ["fetchDoc/freeDoc call log", "Validator::validate"],
    state=[{"name": "document cache", "meaning": "URI to fetched document", "where": P + ":DocumentCache"}])
add("C12", "Parsing any JSON document as a schema ends in a schema or an exception",
    "For every JSON document given as a schema, through every adapter and under every draft, population terminates and either yields a schema that can be destroyed and that validates every document to a verdict or a standard exception (unless its references make it apply to a value by way of itself; patterns are matched within the documented limits of the regular-expression library), or throws an exception derived from the standard exception type. It never crashes, loops or leaks, as long as the nesting of the documents fits the stack. A keyword the draft defines whose value the draft forbids and that cannot be loosely converted (a negative length, a non-array combinator, a non-boolean flag) is rejected rather than silently misread.",
    ["inputs", "configurations"],
    "every keyword x every JSON value shape x every draft, alone, in pairs and beneath another keyword, plus every reference graph of up to four nodes including self-loops",
    "Tests feed well-formed schemas; malformed ones are a product of keywords and value shapes (fuzzing samples them without deciding).",
    [P, S, SS],
    [m("type checks before each keyword is read", P), m("reference cycle detection", P + ":makeOrReuseSchema")],
    ["populateSchema outcome", "ASan/LSan/UBSan verdict"])
add("C13", "JSON Pointers resolve exactly as RFC 6901 prescribes",
    "Resolving a pointer against a document yields exactly the value RFC 6901 designates: tokens are split on '/', URI-fragment percent-encoding is undone before '~1' and '~0' are (in that order), object members are matched by whole name, and array indices are decimal without sign, leading zeros or trailing characters. Every other pointer (bad escape, missing member, index past the end, step into a scalar) is rejected with an exception, and nothing outside the document is ever read.",
    ["inputs"],
    "every pointer string up to the length bound over the alphabet of structural characters x documents with colliding names",
    "The pointer tests list about twenty pointers; escaping interactions and malformed escapes are a language, not a list.",
    [JP, JR],
    [m("token extraction and unescaping", JP), m("index parsing", JP + ":resolveJsonPointerInternal"), m("fragment splitting", JR)],
    ["internal::json_pointer::resolveJsonPointerStrict", "verdict of schemas with $ref pointers"])
add("C14", "Relative references resolve against the base URI as RFC 3986 prescribes",
    "For hierarchical base URIs with an authority, resolving a relative reference gives the RFC 3986 section 5.2 target (path merging, dot-segment removal, query and fragment replacement), references that have a scheme and URNs are returned unchanged, and the result does not depend on how a base that denotes the same resource is written. The forms the project documents as simplified are excluded, and resolution never crashes on any pair of strings.",
    ["inputs"],
    "every base and reference from a grammar of scheme, authority, path segments (dot, dot-dot, empty, plain), query and fragment up to the component bound, plus every short raw string pair for crash freedom",
    "test_uri lists single examples; the section 5.2 algorithm is a case analysis over the product of present/absent components.",
    [UR, P],
    [m("component split, merge and dot-segment removal", UR), m("scope handling", P + ":resolveDocumentUri/resolveId")],
    ["internal::uri::resolveRelativeUri", "URIs requested from the fetch callback"])
add("C15", "The verdict does not depend on which JSON library holds schema or document",
    "For every pair of bundled adapters whose libraries preserve JSON types, populating from one and validating through the other gives the same verdict and the same error locations, for every schema and document both can represent. Under weak typing the two text-typed adapters (property tree, YAML) agree with each other.",
    ["configurations", "inputs"],
    "all schema-adapter x document-adapter pairs x the keyword and value alphabets of C01-C04",
    "The comparison tests compare adapters' values with each other, never verdicts; each adapter is used for validation by a single example at most.",
    [AD, BA],
    [m("adapter value wrappers", AD), m("templated parser and visitor", P)],
    ["Validator::validate across adapters"])
add("C16", "Every adapter presents its value faithfully and consistently",
    "For every value of every bundled JSON library, the adapter reports exactly one JSON type, the strict reads succeed exactly for that type and return the library's value unchanged (full 64-bit integers, whole strings with embedded NULs), and sizes, iteration and lookup agree with each other and with the library. A default-constructed adapter behaves as an empty object, copies and assignments refer to the same value, and iterating or comparing never modifies the document.",
    ["inputs", "configurations"],
    "every value of the alphabet (all types, extreme numbers, nested containers) x every adapter x every query of the adapter interface, and iterator step/compare sequences up to the length bound",
    "Each adapter test iterates over arrays of ten small values of one kind.",
    [AD, BA, "include/valijson/internal/adapter.hpp"],
    [m("per-library Value/Array/Object/iterator classes", AD), m("shared adapter front end", BA)],
    ["Adapter interface calls"])
add("C17", "Weak typing: a value that may be read as a type really can be",
    "For every value, whenever an adapter says a value may be treated as a type the corresponding read succeeds with the documented conversion, and a tentative read that fails leaves its output unaltered; neither ever throws. Weak validation never throws on any document, agrees between integer and number views of the same text (which numeric keywords, enum and const see at every depth), and accepts every document that strict validation accepts when the schema only uses type and applicators other than contains.",
    ["inputs", "configurations"],
    "every scalar text over the lexical alphabet and every container shape x every adapter x every maybe/as pair, plus all schemas of the alphabet under weak types",
    "Only the property-tree tests run in weak mode, on small integers and arrays.",
    [BA, AD + "property_tree_adapter.hpp", AD + "yaml_cpp_adapter.hpp", AD + "std_string_adapter.hpp", V],
    [m("maybeX/asX pairs", BA), m("text to number conversion", DP)],
    ["Adapter maybe*/as* calls", "Validator(kWeakTypes)::validate"])
add("C18", "Validation is a pure function: history, reuse and cached state change nothing",
    "The outcome (verdict and errors) of validating a document against a schema depends only on the two and the validator's settings: not on what the validator, the schema, the regular-expression cache or the results object were used for before, on how many validators exist, or on interleaving validations of different schemas and documents, including runs that fail or throw in between. Schema and document are unchanged by validation.",
    ["histories"],
    "every sequence of validations up to the depth bound over a set of schemas sharing patterns and a set of documents, on shared and fresh validators, with invalid patterns interleaved",
    "Tests make one call per validator and schema, so no state is ever carried over.",
    [VD, V, S],
    [m("per-validator regular expression cache", VD), m("const schema traversal", V)],
    ["verdict and error list of each call in a history compared with a fresh run"],
    state=[{"name": "regex cache", "meaning": "pattern to compiled regular expression, kept across calls", "where": VD}])
add("C19", "Threads may validate with one shared schema at the same time",
    "After a schema has been populated, any number of threads may validate their own documents against it through their own validators, under every interleaving, with each getting the outcome it gets when run alone and no unsynchronised write to memory they share. First use of lazily built global state from several threads at once is safe, and threads may populate schemas of their own at the same time.",
    ["schedules"],
    "every interleaving up to the preemption bound of two and three threads, preempted at synchronisation operations and function entries, from cold start, over schemas exercising every constraint",
    "The tests are single-threaded.",
    [V, VD, S, SS, CC],
    [m("const traversal of constraints", SS), m("function-local static regular expressions", V + ":visit(FormatConstraint)")],
    ["per-thread verdict and errors", "happens-before race detection on every explored schedule"])
add("C20", "Schema objects own their parts: nothing leaks, dangles or is freed twice",
    "Through every sequence of constructing, populating, moving, extending and destroying schemas, each subschema and constraint is destroyed exactly once with its own allocator's release function, memory obtained through user allocation functions is all returned to the matching free function, and operations naming a subschema of another schema are refused without effect. A moved-to schema behaves as the original did, and the moved-from one can be destroyed or assigned to.",
    ["histories", "configurations"],
    "every operation sequence up to the depth bound over two schema slots (default and custom allocation), including foreign subschemas and exceptions from constraint copying",
    "No test moves a schema, uses custom allocation functions for schemas, or mixes subschemas.",
    [S, SS, CA, CC],
    [m("owned subschema set and allocator pair", S), m("constraint cloning and release", SS), m("allocation adapter", CA)],
    ["allocation ledger", "ASan/LSan verdict", "verdicts of moved schemas"])
add("C21", "Running out of memory at any allocation leaves no leak and no corruption",
    "If the k-th memory allocation made while populating a schema or validating a document fails, for any k, the call ends with a standard exception (or still succeeds), nothing allocated so far is leaked, fetched documents are released, and the schema and validator can still be destroyed and, for validation, used again with correct results.",
    ["fault_sequences"],
    "every allocation index k of populate and of validate over a schema set covering every keyword, for the global heap and for user-supplied allocation functions",
    "No test injects a failure.",
    [P, S, SS, CC, CA, V],
    [m("RAII holders and catch blocks around raw allocations", S), m("constraint construction", CC)],
    ["exception type", "live allocation count", "follow-up validation verdict"])
add("C22", "User-defined constraints and regex engines are driven by the documented protocol",
    "A constraint builder registered for a keyword is invoked exactly once per occurrence of that keyword in a schema position (beside a $ref it is ignored, and a schema reached by reference counts at least once), its constraint is copied into the schema and the original and builder are released exactly once, and validating calls it for exactly the values the enclosing schema applies to, its verdict and errors counting like any built-in keyword's. A custom regular-expression engine is given exactly the patterns and whole strings the schema and document call for, and its answer decides.",
    ["programs", "inputs"],
    "every placement of the custom keyword in the schema grammar x instances x builder outcomes (accept, reject, throw), and every pattern/string pair under a recording engine",
    "One test uses a poly constraint at the document root and the regex-engine tests are skipped.",
    [P, "include/valijson/constraint_builder.hpp", CC, VD, V],
    [m("builder loop with release on exception", P + ":populateSchema"), m("poly constraint clone/size protocol", CC), m("engine template parameter", VD)],
    ["builder and constraint call log", "engine call log"])
add("C23", "A populated schema is self-contained",
    "Once population returns, the schema keeps no reference to the parsed document, fetched documents, parser, callbacks or strings used to build it: any of them may be changed or destroyed, in any order, and every verdict and error stays what it was. Literal values in enum and const are compared with the value they had at population time.",
    ["histories"],
    "every subset and order of destroying or mutating the sources x every adapter as schema source x a schema set using every keyword",
    "Tests keep the schema document alive until the end.",
    [P, CC, "include/valijson/internal/frozen_value.hpp", AD],
    [m("freeze() deep copies", AD), m("string copies in constraints", CC)],
    ["verdicts after source destruction under ASan"])
add("C24", "Numbers in text are parsed independently of locale and rejected when malformed",
    "Text read as a number under weak typing or from text-typed libraries yields the correctly rounded value of the whole text or a failure (surrounding spaces, a leading plus sign and words for infinity and NaN are left open), never the value of a prefix, whatever the process's or thread's locale. Integer text out of the 64-bit range is never wrapped or truncated to a different integer.",
    ["inputs", "configurations"],
    "every string up to the length bound over digits, sign, point, exponent, space and letters x installed or synthetic locales",
    "The tests list a dozen strings in the default locale.",
    [DP, BA, AD],
    [m("from_chars or classic-locale stream", DP), m("whole-string check", BA)],
    ["parseDouble", "Adapter::asDouble/asInteger on text"])
add("C25", "loadDocument returns exactly the document in the file or reports failure",
    "For every bundled library, loading a file that holds a well-formed JSON document yields that document's value, and loading a missing, empty, truncated or malformed file returns false instead of yielding a partial document, throwing, leaking, or crashing. Text that the library's own parser accepts is well-formed for that library, and a read error may be reported by a standard exception.",
    ["inputs", "fault_sequences"],
    "every document of the value alphabet and every truncation and single-byte corruption of it, and every failing or short read, x every library",
    "The tests only load well-formed fixture files.",
    ["include/valijson/utils/"],
    [m("per-library load functions", "include/valijson/utils/"), m("file reading", "include/valijson/utils/file_utils.hpp")],
    ["loadDocument return value and loaded value"])
add("C26", "Every supported build configuration gives the same verdicts",
    "The library compiled as separate headers or as the generated single header, with the standard or the Boost regular-expression back end, with either number parser and with exceptions enabled or disabled, compiles and gives the same verdict and errors on every valid schema and document.",
    ["configurations", "inputs"],
    "all configurations x the keyword and value alphabets",
    "One configuration is built and tested.",
    ["bundle.sh", "include/valijson/internal/regex.hpp", "include/valijson/exceptions.hpp", DP],
    [m("configuration macros", "include/valijson/exceptions.hpp"), m("regex alias", "include/valijson/internal/regex.hpp"), m("header bundling", "bundle.sh")],
    ["verdict vectors of separately compiled programs"])
add("C27", "The inspector application shows the verdict of the library",
    "The Qt inspector displays valid or the library's error list for the document and schema in its editors after every edit.",
    ["inputs"], "every edit sequence in the two editors",
    "No test opens the application.",
    ["inspector/"], [m("window slot that re-validates", "inspector/window.cpp")])
add("C28", "Schemas assembled directly from constraint objects behave like parsed ones",
    "A schema put together through Schema and the constraint classes, with every constraint given the values and subschemas it needs, accepts exactly the documents that the equivalent JSON Schema accepts, with results and without, whatever the order in which subschemas are created, filled and referred to, whether subschemas are shared, whether constraints are cloned or the schema is moved, with default or custom allocation, and whatever the caller does with the constraint objects after adding them. Repeated property names keep the first subschema and answer false; adding to, or marking, a subschema the Schema does not own (or its shared empty one), a non-positive divisor and a second dependent schema for one property are refused with an exception and change nothing. Title, description and identifier of every subschema are the ones given to it, by the parser or through the setters, survive moving the schema, and reading an absent one throws.",
    ["operation_sequences", "inputs"],
    "every sequence of building operations on up to three subschemas and three shared constraint objects up to a depth bound; every schema of the keyword families assembled in many ways; every combination of metadata",
    "The tests build schemas through the parser; only an example, which no test runs, assembles one by hand.",
    ["include/valijson/schema.hpp", "include/valijson/subschema.hpp", "include/valijson/constraints/", "examples/custom_schema.cpp"],
    [m("constraint setters and containers", "include/valijson/constraints/concrete_constraints.hpp"), m("cloning", "include/valijson/constraints/basic_constraint.hpp"), m("ownership of subschemas", "include/valijson/schema.hpp")],
    ["verdicts, errors, exceptions and metadata accessors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))

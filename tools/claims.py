"""What is claimed, and how: read by check.py (evidence) and gen_manifest.py (MANIFEST.json)."""
MEM = ["append always gives new backing memory (no writes through spare capacity shared with another live slice); slices are not re-sliced into overlapping views",
       "int is mathematical (no overflow)", "executions that panic are outside the claim (partial correctness)",
       "method receivers are not nil", "user callbacks change only what they are given a pointer to",
       "stored pointers do not point into slice elements"]

REFL = ["jsonschema-go Reflect and refl enter by assumed contracts (contracts/internal/reflect_model.go): a reflected value yields a fixed sequence of property events and set of definitions that depend only on the value and the settings modelled; default options do not intercept properties, definitions or names; errors of reflection are not ErrSkipProperty",
        "values of the reflection library (schemas, tags, types) are not changed while they are used"]

JSON_ = ["encoding/json.Unmarshal fills each field from its own key (jfield), calls UnmarshalJSON of nested types and is a function of the text and of what the target holds",
         "decoding starts from a new value: a key repeated in one object is not claimed", "encoding/json.Marshal of a value is a text that is a function of the value, objects are enclosed in braces",
         "constant patterns of the form ^literal are prefixes, other patterns are uninterpreted", "key lists and constant texts in package variables are not written after initialisation",
         "a loop over a map from which keys are only removed produces every key that is left"]

CLAIMS = {
    "C01": dict(level="other", technique="contract-based deductive verification (govc over go/ssa, SMT) of method normalisation, plus bounded enumeration for the path template",
        explanation="Method part (eight methods, case, rejection, nil results on error) proved for all strings by govc obligations on SanitizeMethodPath. Path-template part rests on the regexp package: labelled bounded, all patterns up to a length over a small alphabet and seeded long ones, compared with a hand-written template reader.",
        assume=MEM[1:3] + ["strings.ToLower is modelled as an uninterpreted idempotent function with known values on literals", "path template part is bounded (see rule), not proved"]),
    "C02": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with frame conditions; bounded replay harness for failing inputs",
        explanation="Postconditions and frame conditions of AddOperation, SetupOperation, AddWebhook, PathItem.Operation/SetOperation and the builders they use, discharged for every document and operation. The reflector entry points only forward to them and are covered by the bounded harness.",
        assume=MEM + ["SanitizeMethodPath enters by its contract (C01)", "Reflector.AddOperation -> Spec.AddOperation is covered by the bounded harness only"]),
    "C03": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with loop invariants; bounded replay harness for failing inputs",
        explanation="validatePathParams proved equivalent to the acceptance rule for every parameter list with loop invariants for both loops; AddOperation/SetupOperation proved to accept exactly under that rule.",
        assume=MEM + ["parameter locations are the four defined ones", "name+location is an injective key for the four locations (proved from the string axioms: none of the four is a suffix of another)"]),
    "C04": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT); bounded replay harness for failing inputs",
        explanation="Postconditions on the stored responses of AddOperation (3.0, 3.1) and AddWebhook for every given response set.", assume=MEM),
    "C05": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT), case split over the methods; bounded replay harness for failing inputs",
        explanation="PathItem.Operation and PathItem.SetOperation against a spec function of the method, with the frame of all other attributes.",
        assume=MEM + ["method names are ASCII (strings.ToUpper maps some other letters, e.g. long s, into ASCII)"]),
    "C06": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT), one generated contract per builder; bounded replay harness for failing inputs",
        explanation="All 709 With*/Ens methods of both entity files carry a contract generated once from the naming convention and field types (stored value, key, returned receiver, and a frame that names only that field); every obligation is discharged for all prior values.", assume=MEM[2:4]),
    "C07": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT), one contract per decoder from a reviewed table, loop invariants over the remaining keys; bounded replay against a table-driven oracle for failing inputs",
        explanation="UnmarshalJSON of every entity (118) and UnmarshalJSON and MarshalJSON of every enumeration (10) of both packages carry contracts generated once from a reviewed table of required keys, constants, enumerations, alternatives, patterns and strictness: decoding succeeds only when every condition holds, for all JSON texts. Nested values enter through the relation 'decodes as T' that the contract of T defines, so the claim for documents is by induction on their depth.",
        assume=JSON_ + ["maps of components accept other JSON than objects (json: null, numbers); not claimed", "an OpenAPI 3.1 object with $ref is a reference, whatever else it has"]),
    "C08": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT), one contract per codec from a reviewed table; loop invariants over bytes for the union of objects; bounded replay against a table-driven encoder for failing inputs",
        explanation="Decoders (118 entities, 10 enumerations): everything valid is accepted; every field gets what encoding/json decodes for its key, every pattern map gets exactly the matching members, every alternative is set exactly for its form. Encoders (111): the encoding is the union of exactly the constant, the known members, the extension and pattern members and the alternatives; marshalUnion keeps every member byte of every operand. That encoding/json decodes its own encoding of a field to an equal value is an assumption; the composition (round trip of whole documents) is replayed by the bounded harness.",
        assume=JSON_ + ["Parameter.SchemaXORContent, Parameter.Location and NonBearer.Scheme mirror other keys and are not compared", "numbers are compared as float64"]),
    "C09": dict(level="exploration", proof=False, technique="bounded replay of decoding and encoding YAML and JSON (bounded stand-in)",
        explanation="Bounded, not proved: random specifications in block and flow YAML with unquoted numeric and boolean keys at every level, against the JSON form; MarshalYAML against MarshalJSON; round trip.",
        assume=["gopkg.in/yaml.v2 reads and writes YAML", "two keys with the same textual form in one mapping are not claimed"]),
    "C11": dict(level="other", technique="contract-based deductive verification (govc over go/ssa, SMT) of the OpenAPI 3.0 conversion and its reference closure, by structural recursion; bounded replay against an independent conversion and closure (3.0 replay, 3.1 bounded stand-in)",
        explanation="OpenAPI 3.0: toJSONSchema proved keyword by keyword for every schema, one level per obligation, nested schemas through the relation the contract defines; with invariants over the collected definitions (kept, conversions of the components, every component mentioned at any depth by the schema or by a definition is collected and counted), from which ToJSONSchema is proved to leave no reference without definition, also when the root reference is replaced. OpenAPI 3.1 (ToJSONSchema, findReferences): bounded, not proved.",
        assume=MEM + ["what a schema mentions is the least relation closed under its keywords", "termination is checked by the bounded harness only", "references point to existing components", "nullable is judged for schemas with a type", "other keywords beside a 3.1 root reference are not claimed", "AddType of jsonschema-go by a model for types set by AddType"]),
    "C16": dict(level="exploration", proof=False, technique="bounded replay with failing callbacks (bounded stand-in)",
        explanation="Bounded, not proved: random request and response units, callbacks failing at every call or never, with and without a completion function.",
        assume=["callbacks do not change the schemas they are given"]),
    "C10": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) by structural recursion; bounded replay harness for failing inputs",
        explanation="FromJSONSchema and its helpers proved keyword by keyword for every source schema; nested schemas enter through the relation that the contract itself defines (one level per obligation), so the claim is by induction on the depth of the source. That a converted child is not changed afterwards by its parent's conversion is covered by the bounded harness only.",
        assume=MEM + ["termination on cyclic in-memory schemas is not claimed", "the case of both an inclusive and an exclusive bound on the same side is not claimed (one pair of keywords cannot hold both)", "a list of several non-null types is kept as one of them (OpenAPI 3.0 has a single type)"]),
    "C12": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with loop invariants over assumed contracts of the reflection library; bounded replay harness for failing inputs",
        explanation="parseParametersIn (both versions) has a contract over the sequence of property events that the reflection library reports for a structure: one parameter per processed top-level field with its name, location, required flag, style, content and schema; earlier parameters kept in order; no duplicates. Which events a Go structure type yields (tags, mappings, embedding) is the reflection library's part, enters as an assumed contract, and is compared on generated types by the bounded harness only, as is the forwarding from Reflector.AddOperation.",
        assume=MEM + REFL),
    "C13": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with loop invariants over assumed contracts of the reflection library; bounded replay harness for failing inputs",
        explanation="setupRequest, parseRequestBody (with internal.ReflectRequestBody executed inline), parseRawRequestBody, stringRequestBody and parseParameters (both versions) carry contracts: for every list of request units the operation gets exactly the media types that the rule over method, tags, mapping, enforcers and files gives, and earlier content is kept.",
        assume=MEM + REFL + ["request units have no Customize callbacks (a callback may change the body freely)", "the processing attributes that reflection sets on the operation context are hidden state of it",
                "the schema of a text body in 3.1 is checked by the bounded harness only"]),
    "C14": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with loop invariants over assumed contracts of the reflection library; bounded replay harness for failing inputs",
        explanation="setupResponse, parseJSONResponse, parseResponseHeader, parseRawResponseBody and ensureResponseContentType (both versions) carry contracts: the status key of every unit, which responses may change (a frame over all responses), the description rule, and no content for HEAD, for every list of response units.",
        assume=MEM + REFL + ["response units have no Customize callbacks (a callback may change the response freely)", "responses registered under different keys are different objects",
                "the schema of a raw text body in 3.1 is checked by the bounded harness only"]),
    "C15": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with loop invariants over assumed contracts of the reflection library; bounded replay harness for failing inputs",
        explanation="collectDefinition, parseParametersIn, parseParameters, parseJSONResponse, setupResponse, parseRequestBody and setupRequest (both versions) carry contracts over the component schemas: nothing is removed, a taken name keeps its schema, every definition the reflection library reports is stored, body definitions always. Resolvability follows from the assumption that the library reports the definition of every reference it makes; the bounded harness resolves every reference of the marshalled document.",
        assume=MEM + REFL + ["units have no Customize callbacks", "the reflection library reports a definition for every reference it makes"]),
    "C17": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with loop invariants and frame conditions; bounded replay harness for failing inputs",
        explanation="Every accessor of the operation contexts (both versions) and of content units has a contract with a frame; adding a unit is proved to append exactly one unit with the options applied in order, for every list of options; the conversion of the deprecated form to the current one and back is a lemma over the real functions, setting by setting. WithOperationCtx/OperationCtx (package context) and WithReference are covered by the bounded harness only.",
        assume=MEM + ["a content option or preparer is a function of the unit it is given (the order of application is proved over that)", "an empty field mapping counts as no mapping"]),
    "C18": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT) with frame conditions; bounded replay harness for failing inputs",
        explanation="Exact stored security scheme and frame for the three setters; read-back and frame of title, description and version, both versions.", assume=MEM),
    "C19": dict(level="proof", technique="contract-based deductive verification (govc over go/ssa, SMT); bounded replay harness for failing inputs",
        explanation="SetReference of request bodies and responses proved for every prior content. That a unit's reference reaches the operation through the reflector is covered by the bounded harness.",
        assume=MEM + ["the path from WithReference through Reflector.AddOperation is covered by the bounded harness only"]),
}

PENDING = "the contracts and harness of this property are not built yet in this commit"
NOT_APPLICABLE = {}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it can be edited readably)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

H3='openapi3/helper.go'; H31='openapi31/helper.go'; R3='openapi3/reflect.go'; R31='openapi31/reflect.go'
E3='openapi3/entities.go'; E31='openapi31/entities.go'
p('C01','Method and path template normalisation',
 'Sanitizing an HTTP method and a path pattern accepts exactly the eight OpenAPI methods in any letter case and returns the method lower-cased, rejecting every other method with an error and no results. The returned parameter names are exactly the placeholder names of the pattern, in order of appearance, and the returned path is the input with every ":regexp" suffix inside a placeholder removed and every other character kept. Sanitizing an already sanitized result changes nothing.',
 ['inputs'],'every method string and every path pattern (any number, order and repetition of placeholders, with and without regexp parts)',
 'Tests use a handful of fixed method/path pairs; the guarantee is over all strings.',
 ['operation.go'],[('SanitizeMethodPath','operation.go')],observe=['openapi.SanitizeMethodPath'])
p('C02','Registration never overwrites and touches only its own entry',
 'Adding an operation (or a webhook in OpenAPI 3.1) succeeds only if nothing is registered yet for that normalised method and path (webhook name), and then exactly that entry is set to the given operation; every other path, method, path-item attribute and webhook is unchanged. When it returns an error, no registered path, operation or webhook is added, removed or changed. Setting up an existing operation updates that operation only.',
 ['inputs','histories'],'every prior content of the document, every method/path spelling (letter case, regexp placeholders), every operation, any sequence of additions',
 'Tests add a few fixed operations to small documents; they never quantify over prior content or over spellings that normalise to the same entry.',
 [H3,H31,R3,R31],[('Spec.AddOperation','openapi3/helper.go, openapi31/helper.go'),('Spec.SetupOperation','openapi3/helper.go, openapi31/helper.go'),('Spec.AddWebhook','openapi31/helper.go'),('PathItem.SetOperation','openapi31/helper.go')],
 state=[('Paths','registered operations by path and method','openapi3.Spec.Paths / openapi31.Spec.Paths'),('Webhooks','registered webhooks by name','openapi31.Spec.Webhooks')],observe=['Spec.AddOperation','Spec.SetupOperation','Spec.AddWebhook','Reflector.AddOperation','Reflector.NewOperationContext'])
p('C03','Declared path parameters agree with the URL template',
 'An operation is accepted only if the path parameters it declares are exactly the placeholders of its URL template and no two of its inline parameters share the same name and location; conversely, an operation meeting these conditions is not rejected for its parameters. Parameters given as references are ignored by this check.',
 ['inputs'],'every list of parameters (any names, the four locations, references interleaved) and every set of placeholders',
 'Existing tests check three or four hand-written mismatches; acceptance and rejection must be exact for all parameter lists.',
 [H3,H31,R3,R31],[('Operation.validatePathParams','openapi3/helper.go, openapi31/helper.go'),('Spec.SetupOperation','openapi3/helper.go, openapi31/helper.go')],observe=['Spec.AddOperation','Spec.SetupOperation','Reflector.AddOperation'])
p('C04','Every added operation documents a response',
 'After an operation or webhook is added without any response, it has exactly one response, "204" with description "No Content"; if it came with at least one response (a status entry or the default response) its responses are stored exactly as given.',
 ['inputs'],'every operation, with any combination of status responses, default response and extensions',
 'Tests cover one empty and a few non-empty operations; the rule must hold for every response set including default-only.',
 [H3,H31],[('Spec.AddOperation','openapi3/helper.go, openapi31/helper.go'),('Spec.AddWebhook','openapi31/helper.go')],observe=['Spec.AddOperation','Spec.AddWebhook'])
p('C05','Path item operation access by method (3.1)',
 'Storing an operation in an OpenAPI 3.1 path item under one of the eight methods, in any letter case, makes exactly that operation retrievable under that method and leaves the operations of the other seven methods and all other attributes unchanged; retrieving a method that was never set yields nothing. Any other method name is rejected with an error by both storing and retrieving, with no change.',
 ['inputs','histories'],'every path item content and every method string',
 'The accessors are only reached by the tests with get/post/put; the law is over all methods and prior contents.',
 [H31],[('PathItem.Operation','openapi31/helper.go'),('PathItem.SetOperation','openapi31/helper.go')],observe=['openapi31.PathItem.Operation','openapi31.PathItem.SetOperation'])
p('C06','Builder methods set exactly the named field',
 'Every With<Field> builder of the document entities (3.0 and 3.1) stores the given value in exactly that field, every With<Field>Item stores exactly that key, and every <Field>Ens accessor returns the existing non-nil field or installs an empty one; all other fields and all other keys keep their values, and builders return their receiver.',
 ['inputs'],'every entity value, every builder of both packages, every argument',
 'There are over 700 generated builders; tests call a few dozen, never checking that the other fields stay untouched.',
 [E3,E31],[('With*/…Ens builders','openapi3/entities.go, openapi31/entities.go')],observe=['exported With*/Ens methods of openapi3 and openapi31 entities'])
p('C07','Decoding rejects malformed documents',
 'Decoding a document entity from JSON fails when a required key of that entity is absent, when an enumerated or constant field (parameter location, style, schema type, security scheme type) has a value outside its allowed set, or when not exactly one alternative of a one-of entity matches (in OpenAPI 3.1 an object with $ref is a reference whatever else it has); encoding fails for enumeration values outside the allowed set. An OpenAPI 3.0 entity that forbids extra properties is rejected when it has a key that is neither a known property nor an "x-" extension.',
 ['inputs'],'every entity type of both packages and every JSON object offered to it',
 'The round-trip tests decode one valid sample per type; rejections are tested for almost no type.',
 [E3,E31],[('UnmarshalJSON of every entity','openapi3/entities.go, openapi31/entities.go'),('enumeration MarshalJSON/UnmarshalJSON','openapi3/entities.go, openapi31/entities.go')],observe=['json.Unmarshal into entity types'])
p('C08','JSON round trip loses nothing',
 'For every valid entity of an OpenAPI 3.0 or 3.1 document, decoding its JSON encoding yields an equal entity: all known properties, all "x-" extensions and all pattern-keyed members (paths, operations, responses, callbacks) are preserved with their values and nothing is invented. Encoding merges the known properties and the extension members of an entity into one JSON object.',
 ['inputs'],'every valid value of every entity type, in particular any set of extension keys and map keys',
 'One fixed sample per type is tested; combinations of optional fields with extensions are not.',
 [E3,E31],[('MarshalJSON/UnmarshalJSON of every entity','openapi3/entities.go, openapi31/entities.go'),('marshalUnion','openapi3/entities.go, openapi31/entities.go')],observe=['json.Marshal/json.Unmarshal of entity types'])
p('C09','YAML and JSON forms are equivalent',
 'Decoding a specification from YAML gives the same document as decoding the JSON form of the same data, with non-string mapping keys (such as numeric status codes) turned into their textual form at every nesting level, and encoding to YAML lists the top-level sections in the order and with the content of the JSON encoding. Decoding the YAML encoding of a specification yields an equal specification.',
 ['inputs'],'every specification document, with any nesting of mappings and sequences',
 'Tests convert a few fixed documents.',
 ['openapi3/yaml.go','openapi31/yaml.go'],[('Spec.MarshalYAML/UnmarshalYAML','openapi3/yaml.go, openapi31/yaml.go'),('convertMapI2MapS','openapi3/yaml.go, openapi31/yaml.go'),('orderedMap, objectKeys, skipValue','openapi3/yaml.go, openapi31/yaml.go')],observe=['Spec.MarshalYAML','Spec.UnmarshalYAML'])
p('C10','JSON Schema to OpenAPI 3.0 schema conversion is faithful',
 'Converting a JSON Schema to an OpenAPI 3.0 schema keeps every constraint OpenAPI 3.0 can express, at every nesting level: type and null as nullable, numeric bounds including exclusive ones (as bound value plus exclusive flag), lengths, sizes, pattern, format, enum, default, required, properties, items, additionalProperties, combinators, flags, titles, first example and "x-" extensions. A reference becomes a reference (with the deprecation mark kept), boolean schemas become the empty schema or its negation, and no constraint is introduced that the source does not state.',
 ['inputs'],'every JSON Schema value',
 'Only the schemas that reflection of the sample structs produces are converted by the tests; e.g. exclusive bounds were never covered and were lost.',
 ['openapi3/jsonschema.go'],[('SchemaOrRef.FromJSONSchema','openapi3/jsonschema.go'),('checkNullable, fromSchemaArray, fromBool','openapi3/jsonschema.go')],observe=['openapi3.SchemaOrRef.FromJSONSchema','every schema in a reflected 3.0 document'])
p('C11','OpenAPI schema to JSON Schema conversion and reference closure',
 'Converting a document schema to JSON Schema for validation keeps every constraint of the source at every nesting level, with OpenAPI 3.0 nullable and exclusive-bound flags turned into their JSON Schema form. The conversion terminates on recursive schemas, and every component schema reachable by local references is included in the result, so that each remaining local reference in it can be resolved within it; a non-recursive root reference is replaced by its target.',
 ['inputs'],'every schema and every set of component schemas, including recursive and mutually recursive references',
 'Tests convert a few schemas with one recursion shape.',
 ['openapi3/jsonschema.go','openapi31/jsonschema.go',R3,R31],[('SchemaOrRef.ToJSONSchema','openapi3/jsonschema.go'),('ToJSONSchema, findReferences','openapi31/jsonschema.go'),('Reflector.ResolveJSONSchemaRef','openapi3/reflect.go, openapi31/reflect.go')],observe=['openapi3.SchemaOrRef.ToJSONSchema','openapi31.ToJSONSchema','Reflector.ResolveJSONSchemaRef'])
p('C12','Request parameters are reflected one to one',
 'Reflecting a request structure adds, for each top-level field tagged for path, query, cookie or header (form acting as query), exactly one parameter with that name in that location, and no other parameters; path parameters are always required, the collection format selects the matching style and explode setting, and JSON-encoded parameters carry their schema as application/json content. Parameters already present on the operation are kept unchanged and in order, and reflecting a name already present in the same location is an error.',
 ['inputs','programs'],'every structure type, field mapping and prior parameter list of the operation',
 'Tests reflect a dozen fixed structures; the rules must hold for every combination of tags, mappings and existing parameters.',
 [R3,R31,'internal/json_schema.go'],[('Reflector.parseParameters/parseParametersIn','openapi3/reflect.go, openapi31/reflect.go'),('ReflectParametersIn','internal/json_schema.go')],observe=['Reflector.AddOperation','Operation.Parameters'])
p('C13','Request bodies appear only where allowed, under the right media type',
 'A request structure yields a body for GET, HEAD, DELETE and TRACE only if it explicitly enforces one; a body reflected from form fields is registered as application/x-www-form-urlencoded, or multipart/form-data when it contains a file upload, a body reflected from JSON fields as application/json, and a custom content type as exactly that media type with a string schema of the given format. A structure with form fields gets no JSON body unless it enforces one, and media types registered earlier on the operation are kept.',
 ['inputs','programs'],'every method, structure type, content type, field mapping and enforcement marker',
 'Tests exercise a few combinations of method, tags and markers.',
 [R3,R31,'internal/json_schema.go'],[('Reflector.setupRequest/parseRequestBody/stringRequestBody','openapi3/reflect.go, openapi31/reflect.go'),('ReflectRequestBody','internal/json_schema.go')],observe=['Reflector.AddOperation','Operation.RequestBody'])
p('C14','Responses are registered under the right status, without bodies for HEAD',
 'Each response unit of an operation is registered under its HTTP status as text, under "default" if marked default, under the "1XX".."5XX" range for status values 1-5, and under "200" if no status is given; responses registered under other keys are untouched, and a later unit for the same key extends the earlier one. A registered response always has the unit description, or else one from the schema, or else the standard status text, and responses to HEAD requests never get body content.',
 ['inputs','programs'],'every sequence of response units (status, default flag, content type, description, structure) and every method',
 'Tests cover a few statuses and one structure at a time.',
 [R3,R31],[('Reflector.setupResponse','openapi3/reflect.go, openapi31/reflect.go'),('parseJSONResponse, parseResponseHeader, ensureResponseContentType','openapi3/reflect.go, openapi31/reflect.go')],observe=['Reflector.AddOperation','Operation.Responses'])
p('C15','Component schemas: no dangling or clobbered definitions',
 'Every schema definition collected while reflecting parameters or responses is stored under its name in the component schemas unless that name is already taken, in which case the stored schema stays unchanged; definitions of request bodies are all stored. No component schema is ever removed by reflection, so every local schema reference produced by reflection can be resolved in the resulting document.',
 ['inputs','histories'],'every sequence of reflected structures and every prior set of component schemas',
 'Tests compare whole documents for a few structures; they do not quantify over prior components.',
 [R3,R31],[('Reflector.collectDefinition','openapi3/reflect.go, openapi31/reflect.go'),('Reflector.parseRequestBody','openapi3/reflect.go, openapi31/reflect.go'),('ComponentsEns/SchemasEns/With…Item','openapi3/entities.go, openapi31/entities.go')],state=[('components.schemas','named schemas of the document','Spec.Components')],observe=['Reflector.AddOperation','Spec.Components'])
p('C16','Schema walkers report every schema once and always finish',
 'Walking the JSON schemas of a request or response unit calls the callback once per parameter, response header and JSON or urlencoded body schema with the right location, name and required flag, stops at the first callback error and returns an error wrapping it, and returns nil only if no callback failed. The completion function, when given, is called exactly once whatever the outcome, and the operations registered in the document are left unchanged.',
 ['inputs','fault_sequences'],'every content unit, every callback behaviour (failing at any call or never), with and without a completion function',
 'Tests walk two structures with callbacks that never fail.',
 ['openapi3/walk_schema.go','openapi31/walk_schema.go'],[('WalkRequestJSONSchemas, WalkResponseJSONSchemas','openapi3/walk_schema.go, openapi31/walk_schema.go'),('provideParametersJSONSchemas, provideHeaderSchemas, provideFormDataSchemas','openapi3/walk_schema.go, openapi31/walk_schema.go')],observe=['Reflector.WalkRequestJSONSchemas','Reflector.WalkResponseJSONSchemas'])
p('C17','Operation context reads back what was set',
 'Every value set on an operation context (tags, summary, description, identifier, deprecation, processing state, request and response units with their options, field mappings) is read back unchanged, units are kept in the order they were added with options applied in order, and setting one value changes no other. Security requirements are appended in order with a non-null scope list, "unknown parameters forbidden" is reported exactly for the locations marked so, and the deprecated context form converts to and from the current one without losing a setting.',
 ['inputs','histories'],'every sequence of setter and add calls with any values',
 'Tests set a few values once and compare the final document.',
 ['operation.go','internal/operation_context.go',R3,R31,'openapi3/reflect_deprecated.go',H3,H31],[('OperationContext accessors, AddReqStructure, AddRespStructure','internal/operation_context.go'),('operationContext accessors, toOpCtx, fromOpCtx','openapi3/reflect.go, openapi31/reflect.go'),('ContentUnit.SetFieldMapping/FieldMapping and options','operation.go')],observe=['openapi.OperationContext','openapi.ContentUnit','openapi3.OperationContext'])
p('C18','Security schemes and document info are stored as declared',
 'Declaring HTTP basic, API key or HTTP bearer security stores, under exactly the given name, exactly one scheme of that kind with the given description, field name, location and bearer format (absent when empty), leaving all other security schemes and component kinds unchanged. Title, description and version set on a document are read back unchanged without affecting other info.',
 ['inputs','histories'],'every prior document, every name and argument value',
 'Tests declare one scheme of each kind in an empty document.',
 [H3,H31],[('SetHTTPBasicSecurity, SetAPIKeySecurity, SetHTTPBearerTokenSecurity','openapi3/helper.go, openapi31/helper.go'),('SetTitle/SetDescription/SetVersion and readers','openapi3/helper.go, openapi31/helper.go')],observe=['openapi.SpecSchema'])
p('C19','A referenced request body or response has no inline content',
 'Setting a reference on a request body or response makes it exactly that reference and discards its inline content, whatever it held before; a content unit declared with a reference therefore appears in the operation as just that reference.',
 ['inputs'],'every prior content of the entity and every reference string',
 'Tests set a reference on one request and one response.',
 [H3,H31,'operation.go',R3,R31],[('SetReference','openapi3/helper.go, openapi31/helper.go'),('WithReference, Customize hook','operation.go, openapi3/reflect.go, openapi31/reflect.go')],observe=['ResponseOrRef.SetReference','RequestBodyOrRef.SetReference','openapi.WithReference'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')

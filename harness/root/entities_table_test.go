package openapi_test

// Written by tools/gen_entity_table.py and reviewed; not regenerated by the checks.

var zzTableV30 = map[string]zzEntity{
	"APIKeySecurityScheme": {
		fields: [][]string{{"Name", "name"}, {"In", "in"}, {"Description", "description,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"type", "name", "in"}, known: []string{"name", "in", "description", "type"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: [][]string{{"type", "\"apiKey\""}},
		union: nil, also: nil, not: "",
	},
	"AuthorizationCodeOAuthFlow": {
		fields: [][]string{{"AuthorizationURL", "authorizationUrl"}, {"TokenURL", "tokenUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"authorizationUrl", "tokenUrl"}, known: []string{"authorizationUrl", "tokenUrl", "refreshUrl", "scopes"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Bearer": {
		fields: nil,
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: [][]string{{"scheme", "\"bearer\""}},
		union: nil, also: nil, not: "",
	},
	"Callback": {
		fields: [][]string{{"MapOfAnything", "-"}, {"AdditionalProperties", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfAnything", "^x-"}, {"AdditionalProperties", ""}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"CallbackOrRef": {
		fields: [][]string{{"CallbackReference", "-"}, {"Callback", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"CallbackReference", "Callback"}, also: nil, not: "",
	},
	"CallbackReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ClientCredentialsFlow": {
		fields: [][]string{{"TokenURL", "tokenUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"tokenUrl"}, known: []string{"tokenUrl", "refreshUrl", "scopes"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Components": {
		fields: [][]string{{"Schemas", "schemas,omitempty"}, {"Responses", "responses,omitempty"}, {"Parameters", "parameters,omitempty"}, {"Examples", "examples,omitempty"}, {"RequestBodies", "requestBodies,omitempty"}, {"Headers", "headers,omitempty"}, {"SecuritySchemes", "securitySchemes,omitempty"}, {"Links", "links,omitempty"}, {"Callbacks", "callbacks,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"schemas", "responses", "parameters", "examples", "requestBodies", "headers", "securitySchemes", "links", "callbacks"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsCallbacks": {
		fields: [][]string{{"MapOfCallbackOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfCallbackOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsExamples": {
		fields: [][]string{{"MapOfExampleOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfExampleOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsHeaders": {
		fields: [][]string{{"MapOfHeaderOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfHeaderOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsLinks": {
		fields: [][]string{{"MapOfLinkOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfLinkOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsParameters": {
		fields: [][]string{{"MapOfParameterOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfParameterOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsRequestBodies": {
		fields: [][]string{{"MapOfRequestBodyOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfRequestBodyOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsResponses": {
		fields: [][]string{{"MapOfResponseOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfResponseOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsSchemas": {
		fields: [][]string{{"MapOfSchemaOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfSchemaOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ComponentsSecuritySchemes": {
		fields: [][]string{{"MapOfSecuritySchemeOrRefValues", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfSecuritySchemeOrRefValues", "^[a-zA-Z0-9\\.\\-_]+$"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Contact": {
		fields: [][]string{{"Name", "name,omitempty"}, {"URL", "url,omitempty"}, {"Email", "email,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"name", "url", "email"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"CookieParameter": {
		fields: nil,
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: [][]string{{"in", "\"cookie\""}, {"style", "\"form\""}},
		union: nil, also: nil, not: "",
	},
	"Discriminator": {
		fields: [][]string{{"PropertyName", "propertyName"}, {"Mapping", "mapping,omitempty"}},
		required: []string{"propertyName"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Encoding": {
		fields: [][]string{{"ContentType", "contentType,omitempty"}, {"Headers", "headers,omitempty"}, {"Style", "style,omitempty"}, {"Explode", "explode,omitempty"}, {"AllowReserved", "allowReserved,omitempty"}},
		required: nil, known: []string{"contentType", "headers", "style", "explode", "allowReserved"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Example": {
		fields: [][]string{{"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"Value", "value,omitempty"}, {"ExternalValue", "externalValue,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"summary", "description", "value", "externalValue"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ExampleOrRef": {
		fields: [][]string{{"ExampleReference", "-"}, {"Example", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"ExampleReference", "Example"}, also: nil, not: "",
	},
	"ExampleReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ExternalDocumentation": {
		fields: [][]string{{"Description", "description,omitempty"}, {"URL", "url"}, {"MapOfAnything", "-"}},
		required: []string{"url"}, known: []string{"description", "url"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"HTTPSecurityScheme": {
		fields: [][]string{{"Scheme", "scheme"}, {"BearerFormat", "bearerFormat,omitempty"}, {"Description", "description,omitempty"}, {"Bearer", "-"}, {"NonBearer", "-"}, {"MapOfAnything", "-"}},
		required: []string{"scheme", "type"}, known: []string{"scheme", "bearerFormat", "description", "type"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: [][]string{{"type", "\"http\""}},
		union: []string{"Bearer", "NonBearer"}, also: nil, not: "",
	},
	"HasContent": {
		fields: [][]string{{"Content", "content"}},
		required: []string{"content"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"HasSchema": {
		fields: [][]string{{"Schema", "schema"}},
		required: []string{"schema"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Header": {
		fields: [][]string{{"Description", "description,omitempty"}, {"Required", "required,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"AllowEmptyValue", "allowEmptyValue,omitempty"}, {"Explode", "explode,omitempty"}, {"AllowReserved", "allowReserved,omitempty"}, {"Schema", "schema,omitempty"}, {"Content", "content,omitempty"}, {"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"description", "required", "deprecated", "allowEmptyValue", "explode", "allowReserved", "schema", "content", "example", "examples", "style"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: [][]string{{"style", "\"simple\""}},
		union: nil, also: nil, not: "",
	},
	"HeaderOrRef": {
		fields: [][]string{{"HeaderReference", "-"}, {"Header", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"HeaderReference", "Header"}, also: nil, not: "",
	},
	"HeaderParameter": {
		fields: nil,
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: [][]string{{"in", "\"header\""}, {"style", "\"simple\""}},
		union: nil, also: nil, not: "",
	},
	"HeaderReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ImplicitOAuthFlow": {
		fields: [][]string{{"AuthorizationURL", "authorizationUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes"}, {"MapOfAnything", "-"}},
		required: []string{"authorizationUrl", "scopes"}, known: []string{"authorizationUrl", "refreshUrl", "scopes"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Info": {
		fields: [][]string{{"Title", "title"}, {"Description", "description,omitempty"}, {"TermsOfService", "termsOfService,omitempty"}, {"Contact", "contact,omitempty"}, {"License", "license,omitempty"}, {"Version", "version"}, {"MapOfAnything", "-"}},
		required: []string{"title", "version"}, known: []string{"title", "description", "termsOfService", "contact", "license", "version"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"License": {
		fields: [][]string{{"Name", "name"}, {"URL", "url,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"name"}, known: []string{"name", "url"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Link": {
		fields: [][]string{{"OperationID", "operationId,omitempty"}, {"OperationRef", "operationRef,omitempty"}, {"Parameters", "parameters,omitempty"}, {"RequestBody", "requestBody,omitempty"}, {"Description", "description,omitempty"}, {"Server", "server,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"operationId", "operationRef", "parameters", "requestBody", "description", "server"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "LinkNot",
	},
	"LinkNot": {
		fields: [][]string{{"OperationID", "operationId"}, {"OperationRef", "operationRef"}},
		required: []string{"operationId", "operationRef"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"LinkOrRef": {
		fields: [][]string{{"LinkReference", "-"}, {"Link", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"LinkReference", "Link"}, also: nil, not: "",
	},
	"LinkReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"MediaType": {
		fields: [][]string{{"Schema", "schema,omitempty"}, {"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}, {"Encoding", "encoding,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"schema", "example", "examples", "encoding"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"NonBearer": {
		fields: [][]string{{"Scheme", "scheme,omitempty"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"OAuth2SecurityScheme": {
		fields: [][]string{{"Flows", "flows"}, {"Description", "description,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"type", "flows"}, known: []string{"flows", "description", "type"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: [][]string{{"type", "\"oauth2\""}},
		union: nil, also: nil, not: "",
	},
	"OAuthFlows": {
		fields: [][]string{{"Implicit", "implicit,omitempty"}, {"Password", "password,omitempty"}, {"ClientCredentials", "clientCredentials,omitempty"}, {"AuthorizationCode", "authorizationCode,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"implicit", "password", "clientCredentials", "authorizationCode"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"OpenIDConnectSecurityScheme": {
		fields: [][]string{{"OpenIDConnectURL", "openIdConnectUrl"}, {"Description", "description,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"type", "openIdConnectUrl"}, known: []string{"openIdConnectUrl", "description", "type"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: [][]string{{"type", "\"openIdConnect\""}},
		union: nil, also: nil, not: "",
	},
	"Operation": {
		fields: [][]string{{"Tags", "tags,omitempty"}, {"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"ExternalDocs", "externalDocs,omitempty"}, {"ID", "operationId,omitempty"}, {"Parameters", "parameters,omitempty"}, {"RequestBody", "requestBody,omitempty"}, {"Responses", "responses"}, {"Callbacks", "callbacks,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"Security", "security,omitempty"}, {"Servers", "servers,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"responses"}, known: []string{"tags", "summary", "description", "externalDocs", "operationId", "parameters", "requestBody", "responses", "callbacks", "deprecated", "security", "servers"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Parameter": {
		fields: [][]string{{"Name", "name"}, {"In", "in"}, {"Description", "description,omitempty"}, {"Required", "required,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"AllowEmptyValue", "allowEmptyValue,omitempty"}, {"Style", "style,omitempty"}, {"Explode", "explode,omitempty"}, {"AllowReserved", "allowReserved,omitempty"}, {"Schema", "schema,omitempty"}, {"Content", "content,omitempty"}, {"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}, {"SchemaXORContent", "-"}, {"Location", "-"}, {"MapOfAnything", "-"}},
		required: []string{"name", "in"}, known: []string{"name", "in", "description", "required", "deprecated", "allowEmptyValue", "style", "explode", "allowReserved", "schema", "content", "example", "examples"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: []string{"SchemaXORContent", "Location"}, not: "",
	},
	"ParameterLocation": {
		fields: [][]string{{"PathParameter", "-"}, {"QueryParameter", "-"}, {"HeaderParameter", "-"}, {"CookieParameter", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"PathParameter", "QueryParameter", "HeaderParameter", "CookieParameter"}, also: nil, not: "",
	},
	"ParameterOrRef": {
		fields: [][]string{{"ParameterReference", "-"}, {"Parameter", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"ParameterReference", "Parameter"}, also: nil, not: "",
	},
	"ParameterReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"PasswordOAuthFlow": {
		fields: [][]string{{"TokenURL", "tokenUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"tokenUrl"}, known: []string{"tokenUrl", "refreshUrl", "scopes"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"PathItem": {
		fields: [][]string{{"Ref", "$ref,omitempty"}, {"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"Servers", "servers,omitempty"}, {"Parameters", "parameters,omitempty"}, {"MapOfOperationValues", "-"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"$ref", "summary", "description", "servers", "parameters"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfOperationValues", "^(get|put|post|delete|options|head|patch|trace)$"}, {"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"PathParameter": {
		fields: [][]string{{"Style", "style,omitempty"}},
		required: []string{"required"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"in", "\"path\""}, {"required", "true"}},
		union: nil, also: nil, not: "",
	},
	"Paths": {
		fields: [][]string{{"MapOfPathItemValues", "-"}, {"MapOfAnything", "-"}},
		required: nil, known: nil, strict: true, custom: true, object: false,
		patterns: [][]string{{"MapOfPathItemValues", "^\\/"}, {"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"QueryParameter": {
		fields: [][]string{{"Style", "style,omitempty"}},
		required: nil, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"in", "\"query\""}},
		union: nil, also: nil, not: "",
	},
	"RequestBody": {
		fields: [][]string{{"Description", "description,omitempty"}, {"Content", "content"}, {"Required", "required,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"content"}, known: []string{"description", "content", "required"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"RequestBodyOrRef": {
		fields: [][]string{{"RequestBodyReference", "-"}, {"RequestBody", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"RequestBodyReference", "RequestBody"}, also: nil, not: "",
	},
	"RequestBodyReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Response": {
		fields: [][]string{{"Description", "description"}, {"Headers", "headers,omitempty"}, {"Content", "content,omitempty"}, {"Links", "links,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"description"}, known: []string{"description", "headers", "content", "links"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ResponseOrRef": {
		fields: [][]string{{"ResponseReference", "-"}, {"Response", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"ResponseReference", "Response"}, also: nil, not: "",
	},
	"ResponseReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Responses": {
		fields: [][]string{{"Default", "default,omitempty"}, {"MapOfResponseOrRefValues", "-"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"default"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfResponseOrRefValues", "^[1-5](?:\\d{2}|XX)$"}, {"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Schema": {
		fields: [][]string{{"Title", "title,omitempty"}, {"MultipleOf", "multipleOf,omitempty"}, {"Maximum", "maximum,omitempty"}, {"ExclusiveMaximum", "exclusiveMaximum,omitempty"}, {"Minimum", "minimum,omitempty"}, {"ExclusiveMinimum", "exclusiveMinimum,omitempty"}, {"MaxLength", "maxLength,omitempty"}, {"MinLength", "minLength,omitempty"}, {"Pattern", "pattern,omitempty"}, {"MaxItems", "maxItems,omitempty"}, {"MinItems", "minItems,omitempty"}, {"UniqueItems", "uniqueItems,omitempty"}, {"MaxProperties", "maxProperties,omitempty"}, {"MinProperties", "minProperties,omitempty"}, {"Required", "required,omitempty"}, {"Enum", "enum,omitempty"}, {"Type", "type,omitempty"}, {"Not", "not,omitempty"}, {"AllOf", "allOf,omitempty"}, {"OneOf", "oneOf,omitempty"}, {"AnyOf", "anyOf,omitempty"}, {"Items", "items,omitempty"}, {"Properties", "properties,omitempty"}, {"AdditionalProperties", "additionalProperties,omitempty"}, {"Description", "description,omitempty"}, {"Format", "format,omitempty"}, {"Default", "default,omitempty"}, {"Nullable", "nullable,omitempty"}, {"Discriminator", "discriminator,omitempty"}, {"ReadOnly", "readOnly,omitempty"}, {"WriteOnly", "writeOnly,omitempty"}, {"Example", "example,omitempty"}, {"ExternalDocs", "externalDocs,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"XML", "xml,omitempty"}, {"MapOfAnything", "-"}, {"ReflectType", "-"}},
		required: nil, known: []string{"title", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "maxItems", "minItems", "uniqueItems", "maxProperties", "minProperties", "required", "enum", "type", "not", "allOf", "oneOf", "anyOf", "items", "properties", "additionalProperties", "description", "format", "default", "nullable", "discriminator", "readOnly", "writeOnly", "example", "externalDocs", "deprecated", "xml"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"SchemaAdditionalProperties": {
		fields: [][]string{{"SchemaOrRef", "-"}, {"Bool", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"SchemaOrRef", "Bool"}, also: nil, not: "",
	},
	"SchemaOrRef": {
		fields: [][]string{{"Schema", "-"}, {"SchemaReference", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Schema", "SchemaReference"}, also: nil, not: "",
	},
	"SchemaReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"SchemaXORContent": {
		fields: [][]string{{"HasSchema", "-"}, {"HasContent", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"HasSchema", "HasContent"}, also: nil, not: "SchemaXORContentNot",
	},
	"SchemaXORContentNot": {
		fields: [][]string{{"Schema", "schema"}, {"Content", "content"}},
		required: []string{"schema", "content"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"SecurityScheme": {
		fields: [][]string{{"APIKeySecurityScheme", "-"}, {"HTTPSecurityScheme", "-"}, {"OAuth2SecurityScheme", "-"}, {"OpenIDConnectSecurityScheme", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"APIKeySecurityScheme", "HTTPSecurityScheme", "OAuth2SecurityScheme", "OpenIDConnectSecurityScheme"}, also: nil, not: "",
	},
	"SecuritySchemeOrRef": {
		fields: [][]string{{"SecuritySchemeReference", "-"}, {"SecurityScheme", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"SecuritySchemeReference", "SecurityScheme"}, also: nil, not: "",
	},
	"SecuritySchemeReference": {
		fields: [][]string{{"Ref", "$ref"}},
		required: []string{"$ref"}, known: []string{"$ref"}, strict: true, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Server": {
		fields: [][]string{{"URL", "url"}, {"Description", "description,omitempty"}, {"Variables", "variables,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"url"}, known: []string{"url", "description", "variables"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ServerVariable": {
		fields: [][]string{{"Enum", "enum,omitempty"}, {"Default", "default"}, {"Description", "description,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"default"}, known: []string{"enum", "default", "description"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Spec": {
		fields: [][]string{{"Openapi", "openapi"}, {"Info", "info"}, {"ExternalDocs", "externalDocs,omitempty"}, {"Servers", "servers,omitempty"}, {"Security", "security,omitempty"}, {"Tags", "tags,omitempty"}, {"Paths", "paths"}, {"Components", "components,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"openapi", "info", "paths"}, known: []string{"openapi", "info", "externalDocs", "servers", "security", "tags", "paths", "components"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Tag": {
		fields: [][]string{{"Name", "name"}, {"Description", "description,omitempty"}, {"ExternalDocs", "externalDocs,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"name"}, known: []string{"name", "description", "externalDocs"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"XML": {
		fields: [][]string{{"Name", "name,omitempty"}, {"Namespace", "namespace,omitempty"}, {"Prefix", "prefix,omitempty"}, {"Attribute", "attribute,omitempty"}, {"Wrapped", "wrapped,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"name", "namespace", "prefix", "attribute", "wrapped"}, strict: true, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
}

var zzEnumsV30 = map[string][]string{
	"APIKeySecuritySchemeIn": []string{"header", "query", "cookie"},
	"EncodingStyle": []string{"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"ParameterIn": []string{"path", "query", "header", "cookie"},
	"PathParameterStyle": []string{"matrix", "label", "simple"},
	"QueryParameterStyle": []string{"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"SchemaType": []string{"array", "boolean", "integer", "number", "object", "string"},
}

var zzTableV31 = map[string]zzEntity{
	"Callbacks": {
		fields: [][]string{{"MapOfAnything", "-"}, {"AdditionalProperties", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfAnything", "^x-"}, {"AdditionalProperties", ""}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"CallbacksOrReference": {
		fields: [][]string{{"Reference", "-"}, {"Callbacks", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "Callbacks"}, also: nil, not: "",
	},
	"Components": {
		fields: [][]string{{"Schemas", "schemas,omitempty"}, {"Responses", "responses,omitempty"}, {"Parameters", "parameters,omitempty"}, {"Examples", "examples,omitempty"}, {"RequestBodies", "requestBodies,omitempty"}, {"Headers", "headers,omitempty"}, {"SecuritySchemes", "securitySchemes,omitempty"}, {"Links", "links,omitempty"}, {"Callbacks", "callbacks,omitempty"}, {"PathItems", "pathItems,omitempty"}},
		required: nil, known: nil, strict: false, custom: false, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Contact": {
		fields: [][]string{{"Name", "name,omitempty"}, {"URL", "url,omitempty"}, {"Email", "email,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"name", "url", "email"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Encoding": {
		fields: [][]string{{"ContentType", "contentType,omitempty"}, {"Headers", "headers,omitempty"}, {"Style", "style,omitempty"}, {"Explode", "explode,omitempty"}, {"AllowReserved", "allowReserved,omitempty"}},
		required: nil, known: nil, strict: false, custom: false, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"EncodingAllOf0": {
		fields: [][]string{{"MapOfAnything", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Example": {
		fields: [][]string{{"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"Value", "value,omitempty"}, {"ExternalValue", "externalValue,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"summary", "description", "value", "externalValue"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ExampleOrReference": {
		fields: [][]string{{"Reference", "-"}, {"Example", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "Example"}, also: nil, not: "",
	},
	"Examples": {
		fields: [][]string{{"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}},
		required: nil, known: nil, strict: false, custom: false, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ExternalDocumentation": {
		fields: [][]string{{"Description", "description,omitempty"}, {"URL", "url"}, {"MapOfAnything", "-"}},
		required: []string{"url"}, known: []string{"description", "url"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Header": {
		fields: [][]string{{"Description", "description,omitempty"}, {"Required", "required,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"Schema", "schema,omitempty"}, {"Content", "content,omitempty"}, {"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}, {"Explode", "explode,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"description", "required", "deprecated", "schema", "content", "example", "examples", "explode", "style"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: [][]string{{"style", "\"simple\""}},
		union: nil, also: nil, not: "",
	},
	"HeaderOrReference": {
		fields: [][]string{{"Reference", "-"}, {"Header", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "Header"}, also: nil, not: "",
	},
	"Info": {
		fields: [][]string{{"Title", "title"}, {"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"TermsOfService", "termsOfService,omitempty"}, {"Contact", "contact,omitempty"}, {"License", "license,omitempty"}, {"Version", "version"}, {"MapOfAnything", "-"}},
		required: []string{"title", "version"}, known: []string{"title", "summary", "description", "termsOfService", "contact", "license", "version"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"License": {
		fields: [][]string{{"Name", "name"}, {"Identifier", "identifier,omitempty"}, {"URL", "url,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"name"}, known: []string{"name", "identifier", "url"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Link": {
		fields: [][]string{{"OperationRef", "operationRef,omitempty"}, {"OperationID", "operationId,omitempty"}, {"Parameters", "parameters,omitempty"}, {"RequestBody", "requestBody,omitempty"}, {"Description", "description,omitempty"}, {"Body", "body,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"operationRef", "operationId", "parameters", "requestBody", "description", "body"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"LinkOrReference": {
		fields: [][]string{{"Reference", "-"}, {"Link", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "Link"}, also: nil, not: "",
	},
	"MediaType": {
		fields: [][]string{{"Schema", "schema,omitempty"}, {"Encoding", "encoding,omitempty"}, {"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"schema", "encoding", "example", "examples"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"MutualTLS": {
		fields: nil,
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: [][]string{{"type", "\"mutualTLS\""}},
		union: nil, also: nil, not: "",
	},
	"OauthFlows": {
		fields: [][]string{{"Implicit", "implicit,omitempty"}, {"Password", "password,omitempty"}, {"ClientCredentials", "clientCredentials,omitempty"}, {"AuthorizationCode", "authorizationCode,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"implicit", "password", "clientCredentials", "authorizationCode"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"OauthFlowsDefsAuthorizationCode": {
		fields: [][]string{{"AuthorizationURL", "authorizationUrl"}, {"TokenURL", "tokenUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes"}, {"MapOfAnything", "-"}},
		required: []string{"authorizationUrl", "tokenUrl", "scopes"}, known: []string{"authorizationUrl", "tokenUrl", "refreshUrl", "scopes"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"OauthFlowsDefsClientCredentials": {
		fields: [][]string{{"TokenURL", "tokenUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes"}, {"MapOfAnything", "-"}},
		required: []string{"tokenUrl", "scopes"}, known: []string{"tokenUrl", "refreshUrl", "scopes"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"OauthFlowsDefsImplicit": {
		fields: [][]string{{"AuthorizationURL", "authorizationUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes"}, {"MapOfAnything", "-"}},
		required: []string{"authorizationUrl", "scopes"}, known: []string{"authorizationUrl", "refreshUrl", "scopes"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"OauthFlowsDefsPassword": {
		fields: [][]string{{"TokenURL", "tokenUrl"}, {"RefreshURL", "refreshUrl,omitempty"}, {"Scopes", "scopes"}, {"MapOfAnything", "-"}},
		required: []string{"tokenUrl", "scopes"}, known: []string{"tokenUrl", "refreshUrl", "scopes"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Operation": {
		fields: [][]string{{"Tags", "tags,omitempty"}, {"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"ExternalDocs", "externalDocs,omitempty"}, {"ID", "operationId,omitempty"}, {"Parameters", "parameters,omitempty"}, {"RequestBody", "requestBody,omitempty"}, {"Responses", "responses,omitempty"}, {"Callbacks", "callbacks,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"Security", "security,omitempty"}, {"Servers", "servers,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"tags", "summary", "description", "externalDocs", "operationId", "parameters", "requestBody", "responses", "callbacks", "deprecated", "security", "servers"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Parameter": {
		fields: [][]string{{"Name", "name"}, {"In", "in"}, {"Description", "description,omitempty"}, {"Required", "required,omitempty"}, {"Deprecated", "deprecated,omitempty"}, {"Schema", "schema,omitempty"}, {"Content", "content,omitempty"}, {"Style", "style,omitempty"}, {"Explode", "explode,omitempty"}, {"Example", "example,omitempty"}, {"Examples", "examples,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"name", "in"}, known: []string{"name", "in", "description", "required", "deprecated", "schema", "content", "style", "explode", "example", "examples"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ParameterOrReference": {
		fields: [][]string{{"Reference", "-"}, {"Parameter", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "Parameter"}, also: nil, not: "",
	},
	"PathItem": {
		fields: [][]string{{"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}, {"Servers", "servers,omitempty"}, {"Parameters", "parameters,omitempty"}, {"Get", "get,omitempty"}, {"Put", "put,omitempty"}, {"Post", "post,omitempty"}, {"Delete", "delete,omitempty"}, {"Options", "options,omitempty"}, {"Head", "head,omitempty"}, {"Patch", "patch,omitempty"}, {"Trace", "trace,omitempty"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"summary", "description", "servers", "parameters", "get", "put", "post", "delete", "options", "head", "patch", "trace"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"PathItemOrReference": {
		fields: [][]string{{"Reference", "-"}, {"PathItem", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "PathItem"}, also: nil, not: "",
	},
	"Paths": {
		fields: [][]string{{"MapOfPathItemValues", "-"}, {"MapOfAnything", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: [][]string{{"MapOfPathItemValues", "^/"}, {"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Reference": {
		fields: [][]string{{"Ref", "$ref"}, {"Summary", "summary,omitempty"}, {"Description", "description,omitempty"}},
		required: []string{"$ref"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: nil,
		union: nil, also: nil, not: "",
	},
	"RequestBody": {
		fields: [][]string{{"Description", "description,omitempty"}, {"Content", "content"}, {"Required", "required,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"content"}, known: []string{"description", "content", "required"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"RequestBodyOrReference": {
		fields: [][]string{{"Reference", "-"}, {"RequestBody", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "RequestBody"}, also: nil, not: "",
	},
	"Response": {
		fields: [][]string{{"Description", "description"}, {"Headers", "headers,omitempty"}, {"Content", "content,omitempty"}, {"Links", "links,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"description"}, known: []string{"description", "headers", "content", "links"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ResponseOrReference": {
		fields: [][]string{{"Reference", "-"}, {"Response", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "Response"}, also: nil, not: "",
	},
	"Responses": {
		fields: [][]string{{"Default", "default,omitempty"}, {"MapOfResponseOrReferenceValues", "-"}, {"MapOfAnything", "-"}},
		required: nil, known: []string{"default"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfResponseOrReferenceValues", "^[1-5](?:[0-9]{2}|XX)$"}, {"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"SecurityScheme": {
		fields: [][]string{{"Description", "description,omitempty"}, {"APIKey", "-"}, {"HTTP", "-"}, {"HTTPBearer", "-"}, {"Oauth2", "-"}, {"Oidc", "-"}, {"MutualTLS", "-"}, {"MapOfAnything", "-"}},
		required: []string{"type"}, known: []string{"description"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: []string{"APIKey", "HTTP", "HTTPBearer", "Oauth2", "Oidc", "MutualTLS"}, also: nil, not: "",
	},
	"SecuritySchemeAPIKey": {
		fields: [][]string{{"Name", "name"}, {"In", "in"}},
		required: []string{"type", "name", "in"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"type", "\"apiKey\""}},
		union: nil, also: nil, not: "",
	},
	"SecuritySchemeHTTP": {
		fields: [][]string{{"Scheme", "scheme"}},
		required: []string{"type", "scheme"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"type", "\"http\""}},
		union: nil, also: nil, not: "",
	},
	"SecuritySchemeHTTPBearer": {
		fields: [][]string{{"Scheme", "scheme"}, {"BearerFormat", "bearerFormat,omitempty"}},
		required: []string{"type", "scheme"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"type", "\"http\""}},
		union: nil, also: nil, not: "",
	},
	"SecuritySchemeOauth2": {
		fields: [][]string{{"Flows", "flows"}},
		required: []string{"type", "flows"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"type", "\"oauth2\""}},
		union: nil, also: nil, not: "",
	},
	"SecuritySchemeOidc": {
		fields: [][]string{{"OpenIDConnectURL", "openIdConnectUrl"}},
		required: []string{"type", "openIdConnectUrl"}, known: nil, strict: false, custom: true, object: true,
		patterns: nil, consts: [][]string{{"type", "\"openIdConnect\""}},
		union: nil, also: nil, not: "",
	},
	"SecuritySchemeOrReference": {
		fields: [][]string{{"Reference", "-"}, {"SecurityScheme", "-"}},
		required: nil, known: nil, strict: false, custom: true, object: false,
		patterns: nil, consts: nil,
		union: []string{"Reference", "SecurityScheme"}, also: nil, not: "",
	},
	"Server": {
		fields: [][]string{{"URL", "url"}, {"Description", "description,omitempty"}, {"Variables", "variables,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"url"}, known: []string{"url", "description", "variables"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"ServerVariable": {
		fields: [][]string{{"Enum", "enum,omitempty"}, {"Default", "default"}, {"Description", "description,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"default"}, known: []string{"enum", "default", "description"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Spec": {
		fields: [][]string{{"Openapi", "openapi"}, {"Info", "info"}, {"JSONSchemaDialect", "jsonSchemaDialect,omitempty"}, {"Servers", "servers,omitempty"}, {"Paths", "paths,omitempty"}, {"Webhooks", "webhooks,omitempty"}, {"Components", "components,omitempty"}, {"Security", "security,omitempty"}, {"Tags", "tags,omitempty"}, {"ExternalDocs", "externalDocs,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"openapi", "info"}, known: []string{"openapi", "info", "jsonSchemaDialect", "servers", "paths", "webhooks", "components", "security", "tags", "externalDocs"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
	"Tag": {
		fields: [][]string{{"Name", "name"}, {"Description", "description,omitempty"}, {"ExternalDocs", "externalDocs,omitempty"}, {"MapOfAnything", "-"}},
		required: []string{"name"}, known: []string{"name", "description", "externalDocs"}, strict: false, custom: true, object: true,
		patterns: [][]string{{"MapOfAnything", "^x-"}}, consts: nil,
		union: nil, also: nil, not: "",
	},
}

var zzEnumsV31 = map[string][]string{
	"EncodingStyle": []string{"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"ParameterIn": []string{"query", "header", "path", "cookie"},
	"ParameterStyle": []string{"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"SecuritySchemeAPIKeyIn": []string{"query", "header", "cookie"},
}

// Code generated by tools/gen_decode.py. DO NOT EDIT.

package openapi3

import (
	"encoding/json"

	"github.com/swaggest/openapi-go/internal/vc"
)

//vc:func (*APIKeySecurityScheme).UnmarshalJSON
//vc:props C07 C08
func vcD_APIKeySecurityScheme(e *APIKeySecurityScheme, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "in" && k != "name" && k != "type"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ma marshalAPIKeySecurityScheme) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ma.MapOfAnything == nil || vc.Fresh(ma.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ma.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ma.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalAPIKeySecurityScheme](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c2))
		c3 := vc.HasKey(data, "in")
		vc.Ensure("C07.key in is present", vc.Implies(err == nil, c3))
		c4 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"apiKey\"")
		vc.Ensure("C07.type is apiKey", vc.Implies(err == nil, c4))
		c5 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c5))
		c6 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c6))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4 && c5 && c6, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.In is decoded", vc.Implies(err == nil, vc.Eq(e.In, vc.FieldValue[APIKeySecuritySchemeIn]("in", data, old.In))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).UnmarshalJSON
//vc:props C07 C08
func vcD_AuthorizationCodeOAuthFlow(e *AuthorizationCodeOAuthFlow, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "authorizationUrl" && k != "refreshUrl" && k != "scopes" && k != "tokenUrl"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ma marshalAuthorizationCodeOAuthFlow) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ma.MapOfAnything == nil || vc.Fresh(ma.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ma.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ma.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalAuthorizationCodeOAuthFlow](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "authorizationUrl")
		vc.Ensure("C07.key authorizationUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "tokenUrl")
		vc.Ensure("C07.key tokenUrl is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.AuthorizationURL is decoded", vc.Implies(err == nil, vc.Eq(e.AuthorizationURL, vc.FieldValue[string]("authorizationUrl", data, old.AuthorizationURL))))
		vc.Ensure("C08.TokenURL is decoded", vc.Implies(err == nil, vc.Eq(e.TokenURL, vc.FieldValue[string]("tokenUrl", data, old.TokenURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Bearer).UnmarshalJSON
//vc:props C07 C08
func vcD_Bearer(e *Bearer, data []byte) func(error) {
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Implies(vc.HasKey(data, "scheme"), vc.KeyText(data, "scheme") == "\"bearer\"")
		vc.Ensure("C07.scheme is bearer", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
	}
}

//vc:func (*Callback).UnmarshalJSON
//vc:props C07 C08
func vcD_Callback(e *Callback, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	vc.Requires("the target is new", e.AdditionalProperties == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", e.MapOfAnything == nil || vc.Fresh(e.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("AdditionalProperties is its own", e.AdditionalProperties == nil || vc.Fresh(e.AdditionalProperties))
		vc.Invariant("seen keys were not matched", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k) && !some(k)) }))
		vc.Invariant("C08.AdditionalProperties has the keys", vc.Forall(func(k string) bool {
			_, ok := e.AdditionalProperties[k]

			return ok == vis.Has(k)
		}))
		vc.Invariant("C08.AdditionalProperties has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k), vc.Eq(e.AdditionalProperties[k], vc.Decoded[PathItem](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of AdditionalProperties decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k), vc.Decodes[PathItem](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && !some(k), vc.Decodes[PathItem](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of AdditionalProperties are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.AdditionalProperties has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.AdditionalProperties[k]

			return ok == (left(k) && !some(k))
		})))
		vc.Ensure("C08.AdditionalProperties has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && !some(k), vc.Eq(e.AdditionalProperties[k], vc.Decoded[PathItem](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*CallbackOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_CallbackOrRef(e *CallbackOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.CallbackReference == nil)
	vc.Requires("the target is new", e.Callback == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*CallbackReference](data) && !vc.Decodes[*Callback](data)) ||
			(!vc.Decodes[*CallbackReference](data) && vc.Decodes[*Callback](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.CallbackReference is set for its form", vc.Implies(err == nil, (e.CallbackReference != nil) == (vc.Decodes[CallbackReference](data) && !vc.Null(data))))
		vc.Ensure("C08.CallbackReference is decoded", vc.Implies(err == nil && e.CallbackReference != nil, vc.Eq(*e.CallbackReference, vc.Decoded[CallbackReference](data))))
		vc.Ensure("C08.Callback is set for its form", vc.Implies(err == nil, (e.Callback != nil) == (vc.Decodes[Callback](data) && !vc.Null(data))))
		vc.Ensure("C08.Callback is decoded", vc.Implies(err == nil && e.Callback != nil, vc.Eq(*e.Callback, vc.Decoded[Callback](data))))
	}
}

//vc:func (*CallbackReference).UnmarshalJSON
//vc:props C07 C08
func vcD_CallbackReference(e *CallbackReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalCallbackReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*ClientCredentialsFlow).UnmarshalJSON
//vc:props C07 C08
func vcD_ClientCredentialsFlow(e *ClientCredentialsFlow, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "refreshUrl" && k != "scopes" && k != "tokenUrl"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mc marshalClientCredentialsFlow) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mc.MapOfAnything == nil || vc.Fresh(mc.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mc.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mc.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalClientCredentialsFlow](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "tokenUrl")
		vc.Ensure("C07.key tokenUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.TokenURL is decoded", vc.Implies(err == nil, vc.Eq(e.TokenURL, vc.FieldValue[string]("tokenUrl", data, old.TokenURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Components).UnmarshalJSON
//vc:props C07 C08
func vcD_Components(e *Components, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "callbacks" && k != "examples" && k != "headers" && k != "links" && k != "parameters" && k != "requestBodies" && k != "responses" && k != "schemas" && k != "securitySchemes"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mc marshalComponents) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mc.MapOfAnything == nil || vc.Fresh(mc.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mc.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mc.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalComponents](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Schemas is decoded", vc.Implies(err == nil, vc.Eq(e.Schemas, vc.FieldValue[*ComponentsSchemas]("schemas", data, old.Schemas))))
		vc.Ensure("C08.Responses is decoded", vc.Implies(err == nil, vc.Eq(e.Responses, vc.FieldValue[*ComponentsResponses]("responses", data, old.Responses))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[*ComponentsParameters]("parameters", data, old.Parameters))))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[*ComponentsExamples]("examples", data, old.Examples))))
		vc.Ensure("C08.RequestBodies is decoded", vc.Implies(err == nil, vc.Eq(e.RequestBodies, vc.FieldValue[*ComponentsRequestBodies]("requestBodies", data, old.RequestBodies))))
		vc.Ensure("C08.Headers is decoded", vc.Implies(err == nil, vc.Eq(e.Headers, vc.FieldValue[*ComponentsHeaders]("headers", data, old.Headers))))
		vc.Ensure("C08.SecuritySchemes is decoded", vc.Implies(err == nil, vc.Eq(e.SecuritySchemes, vc.FieldValue[*ComponentsSecuritySchemes]("securitySchemes", data, old.SecuritySchemes))))
		vc.Ensure("C08.Links is decoded", vc.Implies(err == nil, vc.Eq(e.Links, vc.FieldValue[*ComponentsLinks]("links", data, old.Links))))
		vc.Ensure("C08.Callbacks is decoded", vc.Implies(err == nil, vc.Eq(e.Callbacks, vc.FieldValue[*ComponentsCallbacks]("callbacks", data, old.Callbacks))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsCallbacks).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsCallbacks(e *ComponentsCallbacks, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfCallbackOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfCallbackOrRefValues is its own", e.MapOfCallbackOrRefValues == nil || vc.Fresh(e.MapOfCallbackOrRefValues))
		vc.Invariant("C08.MapOfCallbackOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfCallbackOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfCallbackOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfCallbackOrRefValues[k], vc.Decoded[CallbackOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfCallbackOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[CallbackOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[CallbackOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfCallbackOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfCallbackOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfCallbackOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfCallbackOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfCallbackOrRefValues[k], vc.Decoded[CallbackOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsExamples).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsExamples(e *ComponentsExamples, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfExampleOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfExampleOrRefValues is its own", e.MapOfExampleOrRefValues == nil || vc.Fresh(e.MapOfExampleOrRefValues))
		vc.Invariant("C08.MapOfExampleOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfExampleOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfExampleOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfExampleOrRefValues[k], vc.Decoded[ExampleOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfExampleOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[ExampleOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[ExampleOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfExampleOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfExampleOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfExampleOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfExampleOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfExampleOrRefValues[k], vc.Decoded[ExampleOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsHeaders).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsHeaders(e *ComponentsHeaders, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfHeaderOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfHeaderOrRefValues is its own", e.MapOfHeaderOrRefValues == nil || vc.Fresh(e.MapOfHeaderOrRefValues))
		vc.Invariant("C08.MapOfHeaderOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfHeaderOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfHeaderOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfHeaderOrRefValues[k], vc.Decoded[HeaderOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfHeaderOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[HeaderOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[HeaderOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfHeaderOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfHeaderOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfHeaderOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfHeaderOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfHeaderOrRefValues[k], vc.Decoded[HeaderOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsLinks).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsLinks(e *ComponentsLinks, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfLinkOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfLinkOrRefValues is its own", e.MapOfLinkOrRefValues == nil || vc.Fresh(e.MapOfLinkOrRefValues))
		vc.Invariant("C08.MapOfLinkOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfLinkOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfLinkOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfLinkOrRefValues[k], vc.Decoded[LinkOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfLinkOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[LinkOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[LinkOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfLinkOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfLinkOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfLinkOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfLinkOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfLinkOrRefValues[k], vc.Decoded[LinkOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsParameters).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsParameters(e *ComponentsParameters, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfParameterOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfParameterOrRefValues is its own", e.MapOfParameterOrRefValues == nil || vc.Fresh(e.MapOfParameterOrRefValues))
		vc.Invariant("C08.MapOfParameterOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfParameterOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfParameterOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfParameterOrRefValues[k], vc.Decoded[ParameterOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfParameterOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[ParameterOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[ParameterOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfParameterOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfParameterOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfParameterOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfParameterOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfParameterOrRefValues[k], vc.Decoded[ParameterOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsRequestBodies).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsRequestBodies(e *ComponentsRequestBodies, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfRequestBodyOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfRequestBodyOrRefValues is its own", e.MapOfRequestBodyOrRefValues == nil || vc.Fresh(e.MapOfRequestBodyOrRefValues))
		vc.Invariant("C08.MapOfRequestBodyOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfRequestBodyOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfRequestBodyOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfRequestBodyOrRefValues[k], vc.Decoded[RequestBodyOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfRequestBodyOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[RequestBodyOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[RequestBodyOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfRequestBodyOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfRequestBodyOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfRequestBodyOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfRequestBodyOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfRequestBodyOrRefValues[k], vc.Decoded[RequestBodyOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsResponses).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsResponses(e *ComponentsResponses, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfResponseOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfResponseOrRefValues is its own", e.MapOfResponseOrRefValues == nil || vc.Fresh(e.MapOfResponseOrRefValues))
		vc.Invariant("C08.MapOfResponseOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfResponseOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfResponseOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfResponseOrRefValues[k], vc.Decoded[ResponseOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfResponseOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[ResponseOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[ResponseOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfResponseOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfResponseOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfResponseOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfResponseOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfResponseOrRefValues[k], vc.Decoded[ResponseOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsSchemas).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsSchemas(e *ComponentsSchemas, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfSchemaOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfSchemaOrRefValues is its own", e.MapOfSchemaOrRefValues == nil || vc.Fresh(e.MapOfSchemaOrRefValues))
		vc.Invariant("C08.MapOfSchemaOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfSchemaOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfSchemaOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfSchemaOrRefValues[k], vc.Decoded[SchemaOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfSchemaOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[SchemaOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[SchemaOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfSchemaOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfSchemaOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfSchemaOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfSchemaOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfSchemaOrRefValues[k], vc.Decoded[SchemaOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ComponentsSecuritySchemes).UnmarshalJSON
//vc:props C07 C08
func vcD_ComponentsSecuritySchemes(e *ComponentsSecuritySchemes, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfSecuritySchemeOrRefValues == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfSecuritySchemeOrRefValues is its own", e.MapOfSecuritySchemeOrRefValues == nil || vc.Fresh(e.MapOfSecuritySchemeOrRefValues))
		vc.Invariant("C08.MapOfSecuritySchemeOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfSecuritySchemeOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		}))
		vc.Invariant("C08.MapOfSecuritySchemeOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfSecuritySchemeOrRefValues[k], vc.Decoded[SecuritySchemeOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfSecuritySchemeOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[SecuritySchemeOrRef](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Decodes[SecuritySchemeOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfSecuritySchemeOrRefValues are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfSecuritySchemeOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfSecuritySchemeOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k))
		})))
		vc.Ensure("C08.MapOfSecuritySchemeOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[a-zA-Z0-9\\.\\-_]+$", k), vc.Eq(e.MapOfSecuritySchemeOrRefValues[k], vc.Decoded[SecuritySchemeOrRef](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Contact).UnmarshalJSON
//vc:props C07 C08
func vcD_Contact(e *Contact, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "email" && k != "name" && k != "url"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mc marshalContact) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mc.MapOfAnything == nil || vc.Fresh(mc.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mc.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mc.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalContact](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[*string]("name", data, old.Name))))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[*string]("url", data, old.URL))))
		vc.Ensure("C08.Email is decoded", vc.Implies(err == nil, vc.Eq(e.Email, vc.FieldValue[*string]("email", data, old.Email))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*CookieParameter).UnmarshalJSON
//vc:props C07 C08
func vcD_CookieParameter(e *CookieParameter, data []byte) func(error) {
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Implies(vc.HasKey(data, "in"), vc.KeyText(data, "in") == "\"cookie\"")
		vc.Ensure("C07.in is cookie", vc.Implies(err == nil, c0))
		c1 := vc.Implies(vc.HasKey(data, "style"), vc.KeyText(data, "style") == "\"form\"")
		vc.Ensure("C07.style is form", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
	}
}

//vc:func (*Discriminator).UnmarshalJSON
//vc:props C07 C08
func vcD_Discriminator(e *Discriminator, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalDiscriminator](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "propertyName")
		vc.Ensure("C07.key propertyName is present", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.PropertyName is decoded", vc.Implies(err == nil, vc.Eq(e.PropertyName, vc.FieldValue[string]("propertyName", data, old.PropertyName))))
		vc.Ensure("C08.Mapping is decoded", vc.Implies(err == nil, vc.Eq(e.Mapping, vc.FieldValue[map[string]string]("mapping", data, old.Mapping))))
	}
}

//vc:func (*Encoding).UnmarshalJSON
//vc:props C07 C08
func vcD_Encoding(e *Encoding, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "allowReserved" && k != "contentType" && k != "explode" && k != "headers" && k != "style"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalEncoding](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.ContentType is decoded", vc.Implies(err == nil, vc.Eq(e.ContentType, vc.FieldValue[*string]("contentType", data, old.ContentType))))
		vc.Ensure("C08.Headers is decoded", vc.Implies(err == nil, vc.Eq(e.Headers, vc.FieldValue[map[string]Header]("headers", data, old.Headers))))
		vc.Ensure("C08.Style is decoded", vc.Implies(err == nil, vc.Eq(e.Style, vc.FieldValue[*EncodingStyle]("style", data, old.Style))))
		vc.Ensure("C08.Explode is decoded", vc.Implies(err == nil, vc.Eq(e.Explode, vc.FieldValue[*bool]("explode", data, old.Explode))))
		vc.Ensure("C08.AllowReserved is decoded", vc.Implies(err == nil, vc.Eq(e.AllowReserved, vc.FieldValue[*bool]("allowReserved", data, old.AllowReserved))))
	}
}

//vc:func (*Example).UnmarshalJSON
//vc:props C07 C08
func vcD_Example(e *Example, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "externalValue" && k != "summary" && k != "value"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, me marshalExample) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", me.MapOfAnything == nil || vc.Fresh(me.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := me.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(me.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalExample](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Value is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("value", data, old.Value) != nil, e.Value == vc.FieldValue[*interface{}]("value", data, old.Value)))
		vc.Ensure("C08.null of Value is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("value", data, old.Value) == nil && vc.HasKey(data, "value"), e.Value != nil && *e.Value == nil))
		vc.Ensure("C08.Value is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("value", data, old.Value) == nil && !vc.HasKey(data, "value"), e.Value == nil))
		vc.Ensure("C08.ExternalValue is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalValue, vc.FieldValue[*string]("externalValue", data, old.ExternalValue))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ExampleOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_ExampleOrRef(e *ExampleOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.ExampleReference == nil)
	vc.Requires("the target is new", e.Example == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*ExampleReference](data) && !vc.Decodes[*Example](data)) ||
			(!vc.Decodes[*ExampleReference](data) && vc.Decodes[*Example](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.ExampleReference is set for its form", vc.Implies(err == nil, (e.ExampleReference != nil) == (vc.Decodes[ExampleReference](data) && !vc.Null(data))))
		vc.Ensure("C08.ExampleReference is decoded", vc.Implies(err == nil && e.ExampleReference != nil, vc.Eq(*e.ExampleReference, vc.Decoded[ExampleReference](data))))
		vc.Ensure("C08.Example is set for its form", vc.Implies(err == nil, (e.Example != nil) == (vc.Decodes[Example](data) && !vc.Null(data))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && e.Example != nil, vc.Eq(*e.Example, vc.Decoded[Example](data))))
	}
}

//vc:func (*ExampleReference).UnmarshalJSON
//vc:props C07 C08
func vcD_ExampleReference(e *ExampleReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalExampleReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*ExternalDocumentation).UnmarshalJSON
//vc:props C07 C08
func vcD_ExternalDocumentation(e *ExternalDocumentation, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "url"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, me marshalExternalDocumentation) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", me.MapOfAnything == nil || vc.Fresh(me.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := me.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(me.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalExternalDocumentation](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "url")
		vc.Ensure("C07.key url is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[string]("url", data, old.URL))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*HTTPSecurityScheme).UnmarshalJSON
//vc:props C07 C08
func vcD_HTTPSecurityScheme(e *HTTPSecurityScheme, data []byte) func(error) {
	vc.Requires("the target is new", e.Bearer == nil)
	vc.Requires("the target is new", e.NonBearer == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "bearerFormat" && k != "description" && k != "scheme" && k != "type"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mh marshalHTTPSecurityScheme) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mh.MapOfAnything == nil || vc.Fresh(mh.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mh.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mh.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalHTTPSecurityScheme](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "scheme")
		vc.Ensure("C07.key scheme is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c2))
		c3 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"http\"")
		vc.Ensure("C07.type is http", vc.Implies(err == nil, c3))
		c4 := (vc.Decodes[*Bearer](data) && !vc.Decodes[*NonBearer](data)) ||
			(!vc.Decodes[*Bearer](data) && vc.Decodes[*NonBearer](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c4))
		c5 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c5))
		c6 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c6))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4 && c5 && c6, err == nil))
		vc.Ensure("C08.Scheme is decoded", vc.Implies(err == nil, vc.Eq(e.Scheme, vc.FieldValue[string]("scheme", data, old.Scheme))))
		vc.Ensure("C08.BearerFormat is decoded", vc.Implies(err == nil, vc.Eq(e.BearerFormat, vc.FieldValue[*string]("bearerFormat", data, old.BearerFormat))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Bearer is set for its form", vc.Implies(err == nil, (e.Bearer != nil) == (vc.Decodes[Bearer](data) && !vc.Null(data))))
		vc.Ensure("C08.Bearer is decoded", vc.Implies(err == nil && e.Bearer != nil, vc.Eq(*e.Bearer, vc.Decoded[Bearer](data))))
		vc.Ensure("C08.NonBearer is set for its form", vc.Implies(err == nil, (e.NonBearer != nil) == (vc.Decodes[NonBearer](data) && !vc.Null(data))))
		vc.Ensure("C08.NonBearer is decoded", vc.Implies(err == nil && e.NonBearer != nil, vc.Eq(*e.NonBearer, vc.Decoded[NonBearer](data))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*HasContent).UnmarshalJSON
//vc:props C07 C08
func vcD_HasContent(e *HasContent, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalHasContent](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "content")
		vc.Ensure("C07.key content is present", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[interface{}]("content", data, old.Content))))
	}
}

//vc:func (*HasSchema).UnmarshalJSON
//vc:props C07 C08
func vcD_HasSchema(e *HasSchema, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalHasSchema](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "schema")
		vc.Ensure("C07.key schema is present", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[interface{}]("schema", data, old.Schema))))
	}
}

//vc:func (*Header).UnmarshalJSON
//vc:props C07 C08
func vcD_Header(e *Header, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "allowEmptyValue" && k != "allowReserved" && k != "content" && k != "deprecated" && k != "description" && k != "example" && k != "examples" && k != "explode" && k != "required" && k != "schema" && k != "style"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mh marshalHeader) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mh.MapOfAnything == nil || vc.Fresh(mh.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mh.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mh.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalHeader](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Implies(vc.HasKey(data, "style"), vc.KeyText(data, "style") == "\"simple\"")
		vc.Ensure("C07.style is simple", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[*bool]("required", data, old.Required))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.AllowEmptyValue is decoded", vc.Implies(err == nil, vc.Eq(e.AllowEmptyValue, vc.FieldValue[*bool]("allowEmptyValue", data, old.AllowEmptyValue))))
		vc.Ensure("C08.Explode is decoded", vc.Implies(err == nil, vc.Eq(e.Explode, vc.FieldValue[*bool]("explode", data, old.Explode))))
		vc.Ensure("C08.AllowReserved is decoded", vc.Implies(err == nil, vc.Eq(e.AllowReserved, vc.FieldValue[*bool]("allowReserved", data, old.AllowReserved))))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[*SchemaOrRef]("schema", data, old.Schema))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[map[string]ExampleOrRef]("examples", data, old.Examples))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*HeaderOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_HeaderOrRef(e *HeaderOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.HeaderReference == nil)
	vc.Requires("the target is new", e.Header == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*HeaderReference](data) && !vc.Decodes[*Header](data)) ||
			(!vc.Decodes[*HeaderReference](data) && vc.Decodes[*Header](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.HeaderReference is set for its form", vc.Implies(err == nil, (e.HeaderReference != nil) == (vc.Decodes[HeaderReference](data) && !vc.Null(data))))
		vc.Ensure("C08.HeaderReference is decoded", vc.Implies(err == nil && e.HeaderReference != nil, vc.Eq(*e.HeaderReference, vc.Decoded[HeaderReference](data))))
		vc.Ensure("C08.Header is set for its form", vc.Implies(err == nil, (e.Header != nil) == (vc.Decodes[Header](data) && !vc.Null(data))))
		vc.Ensure("C08.Header is decoded", vc.Implies(err == nil && e.Header != nil, vc.Eq(*e.Header, vc.Decoded[Header](data))))
	}
}

//vc:func (*HeaderParameter).UnmarshalJSON
//vc:props C07 C08
func vcD_HeaderParameter(e *HeaderParameter, data []byte) func(error) {
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Implies(vc.HasKey(data, "in"), vc.KeyText(data, "in") == "\"header\"")
		vc.Ensure("C07.in is header", vc.Implies(err == nil, c0))
		c1 := vc.Implies(vc.HasKey(data, "style"), vc.KeyText(data, "style") == "\"simple\"")
		vc.Ensure("C07.style is simple", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
	}
}

//vc:func (*HeaderReference).UnmarshalJSON
//vc:props C07 C08
func vcD_HeaderReference(e *HeaderReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalHeaderReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*ImplicitOAuthFlow).UnmarshalJSON
//vc:props C07 C08
func vcD_ImplicitOAuthFlow(e *ImplicitOAuthFlow, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "authorizationUrl" && k != "refreshUrl" && k != "scopes"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mi marshalImplicitOAuthFlow) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mi.MapOfAnything == nil || vc.Fresh(mi.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mi.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mi.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalImplicitOAuthFlow](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "authorizationUrl")
		vc.Ensure("C07.key authorizationUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "scopes")
		vc.Ensure("C07.key scopes is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.AuthorizationURL is decoded", vc.Implies(err == nil, vc.Eq(e.AuthorizationURL, vc.FieldValue[string]("authorizationUrl", data, old.AuthorizationURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Info).UnmarshalJSON
//vc:props C07 C08
func vcD_Info(e *Info, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "contact" && k != "description" && k != "license" && k != "termsOfService" && k != "title" && k != "version"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mi marshalInfo) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mi.MapOfAnything == nil || vc.Fresh(mi.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mi.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mi.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalInfo](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "title")
		vc.Ensure("C07.key title is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "version")
		vc.Ensure("C07.key version is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.Title is decoded", vc.Implies(err == nil, vc.Eq(e.Title, vc.FieldValue[string]("title", data, old.Title))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.TermsOfService is decoded", vc.Implies(err == nil, vc.Eq(e.TermsOfService, vc.FieldValue[*string]("termsOfService", data, old.TermsOfService))))
		vc.Ensure("C08.Contact is decoded", vc.Implies(err == nil, vc.Eq(e.Contact, vc.FieldValue[*Contact]("contact", data, old.Contact))))
		vc.Ensure("C08.License is decoded", vc.Implies(err == nil, vc.Eq(e.License, vc.FieldValue[*License]("license", data, old.License))))
		vc.Ensure("C08.Version is decoded", vc.Implies(err == nil, vc.Eq(e.Version, vc.FieldValue[string]("version", data, old.Version))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*License).UnmarshalJSON
//vc:props C07 C08
func vcD_License(e *License, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "name" && k != "url"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ml marshalLicense) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ml.MapOfAnything == nil || vc.Fresh(ml.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ml.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ml.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalLicense](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[*string]("url", data, old.URL))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Link).UnmarshalJSON
//vc:props C07 C08
func vcD_Link(e *Link, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "operationId" && k != "operationRef" && k != "parameters" && k != "requestBody" && k != "server"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ml marshalLink) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ml.MapOfAnything == nil || vc.Fresh(ml.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ml.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ml.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalLink](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := !vc.Decodes[LinkNot](data)
		vc.Ensure("C07.the forbidden form is absent", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.OperationID is decoded", vc.Implies(err == nil, vc.Eq(e.OperationID, vc.FieldValue[*string]("operationId", data, old.OperationID))))
		vc.Ensure("C08.OperationRef is decoded", vc.Implies(err == nil, vc.Eq(e.OperationRef, vc.FieldValue[*string]("operationRef", data, old.OperationRef))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[map[string]interface{}]("parameters", data, old.Parameters))))
		vc.Ensure("C08.RequestBody is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody) != nil, e.RequestBody == vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody)))
		vc.Ensure("C08.null of RequestBody is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody) == nil && vc.HasKey(data, "requestBody"), e.RequestBody != nil && *e.RequestBody == nil))
		vc.Ensure("C08.RequestBody is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody) == nil && !vc.HasKey(data, "requestBody"), e.RequestBody == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Server is decoded", vc.Implies(err == nil, vc.Eq(e.Server, vc.FieldValue[*Server]("server", data, old.Server))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*LinkNot).UnmarshalJSON
//vc:props C07 C08
func vcD_LinkNot(e *LinkNot, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalLinkNot](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "operationId")
		vc.Ensure("C07.key operationId is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "operationRef")
		vc.Ensure("C07.key operationRef is present", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.OperationID is decoded", vc.Implies(err == nil, vc.Eq(e.OperationID, vc.FieldValue[interface{}]("operationId", data, old.OperationID))))
		vc.Ensure("C08.OperationRef is decoded", vc.Implies(err == nil, vc.Eq(e.OperationRef, vc.FieldValue[interface{}]("operationRef", data, old.OperationRef))))
	}
}

//vc:func (*LinkOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_LinkOrRef(e *LinkOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.LinkReference == nil)
	vc.Requires("the target is new", e.Link == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*LinkReference](data) && !vc.Decodes[*Link](data)) ||
			(!vc.Decodes[*LinkReference](data) && vc.Decodes[*Link](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.LinkReference is set for its form", vc.Implies(err == nil, (e.LinkReference != nil) == (vc.Decodes[LinkReference](data) && !vc.Null(data))))
		vc.Ensure("C08.LinkReference is decoded", vc.Implies(err == nil && e.LinkReference != nil, vc.Eq(*e.LinkReference, vc.Decoded[LinkReference](data))))
		vc.Ensure("C08.Link is set for its form", vc.Implies(err == nil, (e.Link != nil) == (vc.Decodes[Link](data) && !vc.Null(data))))
		vc.Ensure("C08.Link is decoded", vc.Implies(err == nil && e.Link != nil, vc.Eq(*e.Link, vc.Decoded[Link](data))))
	}
}

//vc:func (*LinkReference).UnmarshalJSON
//vc:props C07 C08
func vcD_LinkReference(e *LinkReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalLinkReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*MediaType).UnmarshalJSON
//vc:props C07 C08
func vcD_MediaType(e *MediaType, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "encoding" && k != "example" && k != "examples" && k != "schema"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mm marshalMediaType) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mm.MapOfAnything == nil || vc.Fresh(mm.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mm.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mm.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalMediaType](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[*SchemaOrRef]("schema", data, old.Schema))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[map[string]ExampleOrRef]("examples", data, old.Examples))))
		vc.Ensure("C08.Encoding is decoded", vc.Implies(err == nil, vc.Eq(e.Encoding, vc.FieldValue[map[string]Encoding]("encoding", data, old.Encoding))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*NonBearer).UnmarshalJSON
//vc:props C07 C08
func vcD_NonBearer(e *NonBearer, data []byte) func(error) {
	vc.Modifies(e)

	return func(err error) {
		c0 := !(vc.HasKey(data, "scheme") && vc.KeyText(data, "scheme") == "\"bearer\"")
		vc.Ensure("C07.scheme is not bearer", vc.Implies(err == nil, c0))
		c1 := !vc.HasKey(data, "bearerFormat")
		vc.Ensure("C07.no bearerFormat", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
	}
}

//vc:func (*OAuth2SecurityScheme).UnmarshalJSON
//vc:props C07 C08
func vcD_OAuth2SecurityScheme(e *OAuth2SecurityScheme, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "flows" && k != "type"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOAuth2SecurityScheme) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOAuth2SecurityScheme](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "flows")
		vc.Ensure("C07.key flows is present", vc.Implies(err == nil, c2))
		c3 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"oauth2\"")
		vc.Ensure("C07.type is oauth2", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c4))
		c5 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c5))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4 && c5, err == nil))
		vc.Ensure("C08.Flows is decoded", vc.Implies(err == nil, vc.Eq(e.Flows, vc.FieldValue[OAuthFlows]("flows", data, old.Flows))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*OAuthFlows).UnmarshalJSON
//vc:props C07 C08
func vcD_OAuthFlows(e *OAuthFlows, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "authorizationCode" && k != "clientCredentials" && k != "implicit" && k != "password"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOAuthFlows) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOAuthFlows](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Implicit is decoded", vc.Implies(err == nil, vc.Eq(e.Implicit, vc.FieldValue[*ImplicitOAuthFlow]("implicit", data, old.Implicit))))
		vc.Ensure("C08.Password is decoded", vc.Implies(err == nil, vc.Eq(e.Password, vc.FieldValue[*PasswordOAuthFlow]("password", data, old.Password))))
		vc.Ensure("C08.ClientCredentials is decoded", vc.Implies(err == nil, vc.Eq(e.ClientCredentials, vc.FieldValue[*ClientCredentialsFlow]("clientCredentials", data, old.ClientCredentials))))
		vc.Ensure("C08.AuthorizationCode is decoded", vc.Implies(err == nil, vc.Eq(e.AuthorizationCode, vc.FieldValue[*AuthorizationCodeOAuthFlow]("authorizationCode", data, old.AuthorizationCode))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*OpenIDConnectSecurityScheme).UnmarshalJSON
//vc:props C07 C08
func vcD_OpenIDConnectSecurityScheme(e *OpenIDConnectSecurityScheme, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "openIdConnectUrl" && k != "type"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOpenIDConnectSecurityScheme) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOpenIDConnectSecurityScheme](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "openIdConnectUrl")
		vc.Ensure("C07.key openIdConnectUrl is present", vc.Implies(err == nil, c2))
		c3 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"openIdConnect\"")
		vc.Ensure("C07.type is openIdConnect", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c4))
		c5 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c5))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4 && c5, err == nil))
		vc.Ensure("C08.OpenIDConnectURL is decoded", vc.Implies(err == nil, vc.Eq(e.OpenIDConnectURL, vc.FieldValue[string]("openIdConnectUrl", data, old.OpenIDConnectURL))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Operation).UnmarshalJSON
//vc:props C07 C08
func vcD_Operation(e *Operation, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "callbacks" && k != "deprecated" && k != "description" && k != "externalDocs" && k != "operationId" && k != "parameters" && k != "requestBody" && k != "responses" && k != "security" && k != "servers" && k != "summary" && k != "tags"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOperation) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOperation](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "responses")
		vc.Ensure("C07.key responses is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Tags is decoded", vc.Implies(err == nil, vc.Eq(e.Tags, vc.FieldValue[[]string]("tags", data, old.Tags))))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.ID is decoded", vc.Implies(err == nil, vc.Eq(e.ID, vc.FieldValue[*string]("operationId", data, old.ID))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[[]ParameterOrRef]("parameters", data, old.Parameters))))
		vc.Ensure("C08.RequestBody is decoded", vc.Implies(err == nil, vc.Eq(e.RequestBody, vc.FieldValue[*RequestBodyOrRef]("requestBody", data, old.RequestBody))))
		vc.Ensure("C08.Responses is decoded", vc.Implies(err == nil, vc.Eq(e.Responses, vc.FieldValue[Responses]("responses", data, old.Responses))))
		vc.Ensure("C08.Callbacks is decoded", vc.Implies(err == nil, vc.Eq(e.Callbacks, vc.FieldValue[map[string]CallbackOrRef]("callbacks", data, old.Callbacks))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.Security is decoded", vc.Implies(err == nil, vc.Eq(e.Security, vc.FieldValue[[]map[string][]string]("security", data, old.Security))))
		vc.Ensure("C08.Servers is decoded", vc.Implies(err == nil, vc.Eq(e.Servers, vc.FieldValue[[]Server]("servers", data, old.Servers))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Parameter).UnmarshalJSON
//vc:props C07 C08
func vcD_Parameter(e *Parameter, data []byte) func(error) {
	vc.Requires("the target is new", e.SchemaXORContent == nil)
	vc.Requires("the target is new", e.Location == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "allowEmptyValue" && k != "allowReserved" && k != "content" && k != "deprecated" && k != "description" && k != "example" && k != "examples" && k != "explode" && k != "in" && k != "name" && k != "required" && k != "schema" && k != "style"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mp marshalParameter) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mp.MapOfAnything == nil || vc.Fresh(mp.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mp.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mp.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalParameter](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "in")
		vc.Ensure("C07.key in is present", vc.Implies(err == nil, c2))
		c3 := vc.Decodes[*SchemaXORContent](data)
		vc.Ensure("C07.SchemaXORContent is valid", vc.Implies(err == nil, c3))
		c4 := vc.Decodes[*ParameterLocation](data)
		vc.Ensure("C07.Location is valid", vc.Implies(err == nil, c4))
		c5 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c5))
		c6 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c6))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4 && c5 && c6, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.In is decoded", vc.Implies(err == nil, vc.Eq(e.In, vc.FieldValue[ParameterIn]("in", data, old.In))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[*bool]("required", data, old.Required))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.AllowEmptyValue is decoded", vc.Implies(err == nil, vc.Eq(e.AllowEmptyValue, vc.FieldValue[*bool]("allowEmptyValue", data, old.AllowEmptyValue))))
		vc.Ensure("C08.Style is decoded", vc.Implies(err == nil, vc.Eq(e.Style, vc.FieldValue[*string]("style", data, old.Style))))
		vc.Ensure("C08.Explode is decoded", vc.Implies(err == nil, vc.Eq(e.Explode, vc.FieldValue[*bool]("explode", data, old.Explode))))
		vc.Ensure("C08.AllowReserved is decoded", vc.Implies(err == nil, vc.Eq(e.AllowReserved, vc.FieldValue[*bool]("allowReserved", data, old.AllowReserved))))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[*SchemaOrRef]("schema", data, old.Schema))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[map[string]ExampleOrRef]("examples", data, old.Examples))))
		vc.Ensure("C08.SchemaXORContent is decoded", vc.Implies(err == nil && !vc.Null(data), e.SchemaXORContent != nil && vc.Eq(*e.SchemaXORContent, vc.Decoded[SchemaXORContent](data))))
		vc.Ensure("C08.Location is decoded", vc.Implies(err == nil && !vc.Null(data), e.Location != nil && vc.Eq(*e.Location, vc.Decoded[ParameterLocation](data))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ParameterLocation).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterLocation(e *ParameterLocation, data []byte) func(error) {
	vc.Requires("the target is new", e.PathParameter == nil)
	vc.Requires("the target is new", e.QueryParameter == nil)
	vc.Requires("the target is new", e.HeaderParameter == nil)
	vc.Requires("the target is new", e.CookieParameter == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*PathParameter](data) && !vc.Decodes[*QueryParameter](data) && !vc.Decodes[*HeaderParameter](data) && !vc.Decodes[*CookieParameter](data)) ||
			(!vc.Decodes[*PathParameter](data) && vc.Decodes[*QueryParameter](data) && !vc.Decodes[*HeaderParameter](data) && !vc.Decodes[*CookieParameter](data)) ||
			(!vc.Decodes[*PathParameter](data) && !vc.Decodes[*QueryParameter](data) && vc.Decodes[*HeaderParameter](data) && !vc.Decodes[*CookieParameter](data)) ||
			(!vc.Decodes[*PathParameter](data) && !vc.Decodes[*QueryParameter](data) && !vc.Decodes[*HeaderParameter](data) && vc.Decodes[*CookieParameter](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.PathParameter is set for its form", vc.Implies(err == nil, (e.PathParameter != nil) == (vc.Decodes[PathParameter](data) && !vc.Null(data))))
		vc.Ensure("C08.PathParameter is decoded", vc.Implies(err == nil && e.PathParameter != nil, vc.Eq(*e.PathParameter, vc.Decoded[PathParameter](data))))
		vc.Ensure("C08.QueryParameter is set for its form", vc.Implies(err == nil, (e.QueryParameter != nil) == (vc.Decodes[QueryParameter](data) && !vc.Null(data))))
		vc.Ensure("C08.QueryParameter is decoded", vc.Implies(err == nil && e.QueryParameter != nil, vc.Eq(*e.QueryParameter, vc.Decoded[QueryParameter](data))))
		vc.Ensure("C08.HeaderParameter is set for its form", vc.Implies(err == nil, (e.HeaderParameter != nil) == (vc.Decodes[HeaderParameter](data) && !vc.Null(data))))
		vc.Ensure("C08.HeaderParameter is decoded", vc.Implies(err == nil && e.HeaderParameter != nil, vc.Eq(*e.HeaderParameter, vc.Decoded[HeaderParameter](data))))
		vc.Ensure("C08.CookieParameter is set for its form", vc.Implies(err == nil, (e.CookieParameter != nil) == (vc.Decodes[CookieParameter](data) && !vc.Null(data))))
		vc.Ensure("C08.CookieParameter is decoded", vc.Implies(err == nil && e.CookieParameter != nil, vc.Eq(*e.CookieParameter, vc.Decoded[CookieParameter](data))))
	}
}

//vc:func (*ParameterOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterOrRef(e *ParameterOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.ParameterReference == nil)
	vc.Requires("the target is new", e.Parameter == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*ParameterReference](data) && !vc.Decodes[*Parameter](data)) ||
			(!vc.Decodes[*ParameterReference](data) && vc.Decodes[*Parameter](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.ParameterReference is set for its form", vc.Implies(err == nil, (e.ParameterReference != nil) == (vc.Decodes[ParameterReference](data) && !vc.Null(data))))
		vc.Ensure("C08.ParameterReference is decoded", vc.Implies(err == nil && e.ParameterReference != nil, vc.Eq(*e.ParameterReference, vc.Decoded[ParameterReference](data))))
		vc.Ensure("C08.Parameter is set for its form", vc.Implies(err == nil, (e.Parameter != nil) == (vc.Decodes[Parameter](data) && !vc.Null(data))))
		vc.Ensure("C08.Parameter is decoded", vc.Implies(err == nil && e.Parameter != nil, vc.Eq(*e.Parameter, vc.Decoded[Parameter](data))))
	}
}

//vc:func (*ParameterReference).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterReference(e *ParameterReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalParameterReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*PasswordOAuthFlow).UnmarshalJSON
//vc:props C07 C08
func vcD_PasswordOAuthFlow(e *PasswordOAuthFlow, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "refreshUrl" && k != "scopes" && k != "tokenUrl"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mp marshalPasswordOAuthFlow) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mp.MapOfAnything == nil || vc.Fresh(mp.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mp.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mp.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalPasswordOAuthFlow](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "tokenUrl")
		vc.Ensure("C07.key tokenUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.TokenURL is decoded", vc.Implies(err == nil, vc.Eq(e.TokenURL, vc.FieldValue[string]("tokenUrl", data, old.TokenURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*PathItem).UnmarshalJSON
//vc:props C07 C08
func vcD_PathItem(e *PathItem, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfOperationValues == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref" && k != "description" && k != "parameters" && k != "servers" && k != "summary"
	}
	some := func(k string) bool {
		return vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k) || vc.Matches("^x-", k)
	}
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mp marshalPathItem) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfOperationValues is its own", mp.MapOfOperationValues == nil || vc.Fresh(mp.MapOfOperationValues))
		vc.Invariant("C08.MapOfOperationValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mp.MapOfOperationValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k))
		}))
		vc.Invariant("C08.MapOfOperationValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k), vc.Eq(mp.MapOfOperationValues[k], vc.Decoded[Operation](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfOperationValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k), vc.Decodes[Operation](vc.KeyValue(data, k)))
		}))
		vc.Invariant("MapOfAnything is its own", mp.MapOfAnything == nil || vc.Fresh(mp.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mp.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mp.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalPathItem](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k), vc.Decodes[Operation](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfOperationValues are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[*string]("$ref", data, old.Ref))))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Servers is decoded", vc.Implies(err == nil, vc.Eq(e.Servers, vc.FieldValue[[]Server]("servers", data, old.Servers))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[[]ParameterOrRef]("parameters", data, old.Parameters))))
		vc.Ensure("C08.MapOfOperationValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfOperationValues[k]

			return ok == (left(k) && vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k))
		})))
		vc.Ensure("C08.MapOfOperationValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^(get|put|post|delete|options|head|patch|trace)$", k), vc.Eq(e.MapOfOperationValues[k], vc.Decoded[Operation](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*PathParameter).UnmarshalJSON
//vc:props C07 C08
func vcD_PathParameter(e *PathParameter, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalPathParameter](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "required")
		vc.Ensure("C07.key required is present", vc.Implies(err == nil, c1))
		c2 := vc.Implies(vc.HasKey(data, "in"), vc.KeyText(data, "in") == "\"path\"")
		vc.Ensure("C07.in is path", vc.Implies(err == nil, c2))
		c3 := vc.Implies(vc.HasKey(data, "required"), vc.KeyText(data, "required") == "true")
		vc.Ensure("C07.required is true", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Style is decoded", vc.Implies(err == nil, vc.Eq(e.Style, vc.FieldValue[*PathParameterStyle]("style", data, old.Style))))
	}
}

//vc:func (*Paths).UnmarshalJSON
//vc:props C07 C08
func vcD_Paths(e *Paths, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfPathItemValues == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^\\/", k) || vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfPathItemValues is its own", e.MapOfPathItemValues == nil || vc.Fresh(e.MapOfPathItemValues))
		vc.Invariant("C08.MapOfPathItemValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfPathItemValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^\\/", k))
		}))
		vc.Invariant("C08.MapOfPathItemValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^\\/", k), vc.Eq(e.MapOfPathItemValues[k], vc.Decoded[PathItem](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfPathItemValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^\\/", k), vc.Decodes[PathItem](vc.KeyValue(data, k)))
		}))
		vc.Invariant("MapOfAnything is its own", e.MapOfAnything == nil || vc.Fresh(e.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^\\/", k), vc.Decodes[PathItem](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfPathItemValues are valid", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.MapOfPathItemValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfPathItemValues[k]

			return ok == (left(k) && vc.Matches("^\\/", k))
		})))
		vc.Ensure("C08.MapOfPathItemValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^\\/", k), vc.Eq(e.MapOfPathItemValues[k], vc.Decoded[PathItem](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*QueryParameter).UnmarshalJSON
//vc:props C07 C08
func vcD_QueryParameter(e *QueryParameter, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalQueryParameter](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Implies(vc.HasKey(data, "in"), vc.KeyText(data, "in") == "\"query\"")
		vc.Ensure("C07.in is query", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Style is decoded", vc.Implies(err == nil, vc.Eq(e.Style, vc.FieldValue[*QueryParameterStyle]("style", data, old.Style))))
	}
}

//vc:func (*RequestBody).UnmarshalJSON
//vc:props C07 C08
func vcD_RequestBody(e *RequestBody, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "content" && k != "description" && k != "required"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mr marshalRequestBody) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mr.MapOfAnything == nil || vc.Fresh(mr.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mr.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalRequestBody](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "content")
		vc.Ensure("C07.key content is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[*bool]("required", data, old.Required))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*RequestBodyOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_RequestBodyOrRef(e *RequestBodyOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.RequestBodyReference == nil)
	vc.Requires("the target is new", e.RequestBody == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*RequestBodyReference](data) && !vc.Decodes[*RequestBody](data)) ||
			(!vc.Decodes[*RequestBodyReference](data) && vc.Decodes[*RequestBody](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.RequestBodyReference is set for its form", vc.Implies(err == nil, (e.RequestBodyReference != nil) == (vc.Decodes[RequestBodyReference](data) && !vc.Null(data))))
		vc.Ensure("C08.RequestBodyReference is decoded", vc.Implies(err == nil && e.RequestBodyReference != nil, vc.Eq(*e.RequestBodyReference, vc.Decoded[RequestBodyReference](data))))
		vc.Ensure("C08.RequestBody is set for its form", vc.Implies(err == nil, (e.RequestBody != nil) == (vc.Decodes[RequestBody](data) && !vc.Null(data))))
		vc.Ensure("C08.RequestBody is decoded", vc.Implies(err == nil && e.RequestBody != nil, vc.Eq(*e.RequestBody, vc.Decoded[RequestBody](data))))
	}
}

//vc:func (*RequestBodyReference).UnmarshalJSON
//vc:props C07 C08
func vcD_RequestBodyReference(e *RequestBodyReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalRequestBodyReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*Response).UnmarshalJSON
//vc:props C07 C08
func vcD_Response(e *Response, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "content" && k != "description" && k != "headers" && k != "links"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mr marshalResponse) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mr.MapOfAnything == nil || vc.Fresh(mr.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mr.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalResponse](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "description")
		vc.Ensure("C07.key description is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[string]("description", data, old.Description))))
		vc.Ensure("C08.Headers is decoded", vc.Implies(err == nil, vc.Eq(e.Headers, vc.FieldValue[map[string]HeaderOrRef]("headers", data, old.Headers))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Links is decoded", vc.Implies(err == nil, vc.Eq(e.Links, vc.FieldValue[map[string]LinkOrRef]("links", data, old.Links))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ResponseOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_ResponseOrRef(e *ResponseOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.ResponseReference == nil)
	vc.Requires("the target is new", e.Response == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*ResponseReference](data) && !vc.Decodes[*Response](data)) ||
			(!vc.Decodes[*ResponseReference](data) && vc.Decodes[*Response](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.ResponseReference is set for its form", vc.Implies(err == nil, (e.ResponseReference != nil) == (vc.Decodes[ResponseReference](data) && !vc.Null(data))))
		vc.Ensure("C08.ResponseReference is decoded", vc.Implies(err == nil && e.ResponseReference != nil, vc.Eq(*e.ResponseReference, vc.Decoded[ResponseReference](data))))
		vc.Ensure("C08.Response is set for its form", vc.Implies(err == nil, (e.Response != nil) == (vc.Decodes[Response](data) && !vc.Null(data))))
		vc.Ensure("C08.Response is decoded", vc.Implies(err == nil && e.Response != nil, vc.Eq(*e.Response, vc.Decoded[Response](data))))
	}
}

//vc:func (*ResponseReference).UnmarshalJSON
//vc:props C07 C08
func vcD_ResponseReference(e *ResponseReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalResponseReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*Responses).UnmarshalJSON
//vc:props C07 C08
func vcD_Responses(e *Responses, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfResponseOrRefValues == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "default"
	}
	some := func(k string) bool { return vc.Matches("^[1-5](?:\\d{2}|XX)$", k) || vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mr marshalResponses) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfResponseOrRefValues is its own", mr.MapOfResponseOrRefValues == nil || vc.Fresh(mr.MapOfResponseOrRefValues))
		vc.Invariant("C08.MapOfResponseOrRefValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfResponseOrRefValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[1-5](?:\\d{2}|XX)$", k))
		}))
		vc.Invariant("C08.MapOfResponseOrRefValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[1-5](?:\\d{2}|XX)$", k), vc.Eq(mr.MapOfResponseOrRefValues[k], vc.Decoded[ResponseOrRef](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfResponseOrRefValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[1-5](?:\\d{2}|XX)$", k), vc.Decodes[ResponseOrRef](vc.KeyValue(data, k)))
		}))
		vc.Invariant("MapOfAnything is its own", mr.MapOfAnything == nil || vc.Fresh(mr.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mr.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalResponses](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[1-5](?:\\d{2}|XX)$", k), vc.Decodes[ResponseOrRef](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfResponseOrRefValues are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Default is decoded", vc.Implies(err == nil, vc.Eq(e.Default, vc.FieldValue[*ResponseOrRef]("default", data, old.Default))))
		vc.Ensure("C08.MapOfResponseOrRefValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfResponseOrRefValues[k]

			return ok == (left(k) && vc.Matches("^[1-5](?:\\d{2}|XX)$", k))
		})))
		vc.Ensure("C08.MapOfResponseOrRefValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[1-5](?:\\d{2}|XX)$", k), vc.Eq(e.MapOfResponseOrRefValues[k], vc.Decoded[ResponseOrRef](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Schema).UnmarshalJSON
//vc:props C07 C08
func vcD_Schema(e *Schema, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "additionalProperties" && k != "allOf" && k != "anyOf" && k != "default" && k != "deprecated" && k != "description" && k != "discriminator" && k != "enum" && k != "example" && k != "exclusiveMaximum" && k != "exclusiveMinimum" && k != "externalDocs" && k != "format" && k != "items" && k != "maxItems" && k != "maxLength" && k != "maxProperties" && k != "maximum" && k != "minItems" && k != "minLength" && k != "minProperties" && k != "minimum" && k != "multipleOf" && k != "not" && k != "nullable" && k != "oneOf" && k != "pattern" && k != "properties" && k != "readOnly" && k != "required" && k != "title" && k != "type" && k != "uniqueItems" && k != "writeOnly" && k != "xml"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalSchema) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSchema](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Title is decoded", vc.Implies(err == nil, vc.Eq(e.Title, vc.FieldValue[*string]("title", data, old.Title))))
		vc.Ensure("C08.MultipleOf is decoded", vc.Implies(err == nil, vc.Eq(e.MultipleOf, vc.FieldValue[*float64]("multipleOf", data, old.MultipleOf))))
		vc.Ensure("C08.Maximum is decoded", vc.Implies(err == nil, vc.Eq(e.Maximum, vc.FieldValue[*float64]("maximum", data, old.Maximum))))
		vc.Ensure("C08.ExclusiveMaximum is decoded", vc.Implies(err == nil, vc.Eq(e.ExclusiveMaximum, vc.FieldValue[*bool]("exclusiveMaximum", data, old.ExclusiveMaximum))))
		vc.Ensure("C08.Minimum is decoded", vc.Implies(err == nil, vc.Eq(e.Minimum, vc.FieldValue[*float64]("minimum", data, old.Minimum))))
		vc.Ensure("C08.ExclusiveMinimum is decoded", vc.Implies(err == nil, vc.Eq(e.ExclusiveMinimum, vc.FieldValue[*bool]("exclusiveMinimum", data, old.ExclusiveMinimum))))
		vc.Ensure("C08.MaxLength is decoded", vc.Implies(err == nil, vc.Eq(e.MaxLength, vc.FieldValue[*int64]("maxLength", data, old.MaxLength))))
		vc.Ensure("C08.MinLength is decoded", vc.Implies(err == nil, vc.Eq(e.MinLength, vc.FieldValue[*int64]("minLength", data, old.MinLength))))
		vc.Ensure("C08.Pattern is decoded", vc.Implies(err == nil, vc.Eq(e.Pattern, vc.FieldValue[*string]("pattern", data, old.Pattern))))
		vc.Ensure("C08.MaxItems is decoded", vc.Implies(err == nil, vc.Eq(e.MaxItems, vc.FieldValue[*int64]("maxItems", data, old.MaxItems))))
		vc.Ensure("C08.MinItems is decoded", vc.Implies(err == nil, vc.Eq(e.MinItems, vc.FieldValue[*int64]("minItems", data, old.MinItems))))
		vc.Ensure("C08.UniqueItems is decoded", vc.Implies(err == nil, vc.Eq(e.UniqueItems, vc.FieldValue[*bool]("uniqueItems", data, old.UniqueItems))))
		vc.Ensure("C08.MaxProperties is decoded", vc.Implies(err == nil, vc.Eq(e.MaxProperties, vc.FieldValue[*int64]("maxProperties", data, old.MaxProperties))))
		vc.Ensure("C08.MinProperties is decoded", vc.Implies(err == nil, vc.Eq(e.MinProperties, vc.FieldValue[*int64]("minProperties", data, old.MinProperties))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[[]string]("required", data, old.Required))))
		vc.Ensure("C08.Enum is decoded", vc.Implies(err == nil, vc.Eq(e.Enum, vc.FieldValue[[]interface{}]("enum", data, old.Enum))))
		vc.Ensure("C08.Type is decoded", vc.Implies(err == nil, vc.Eq(e.Type, vc.FieldValue[*SchemaType]("type", data, old.Type))))
		vc.Ensure("C08.Not is decoded", vc.Implies(err == nil, vc.Eq(e.Not, vc.FieldValue[*SchemaOrRef]("not", data, old.Not))))
		vc.Ensure("C08.AllOf is decoded", vc.Implies(err == nil, vc.Eq(e.AllOf, vc.FieldValue[[]SchemaOrRef]("allOf", data, old.AllOf))))
		vc.Ensure("C08.OneOf is decoded", vc.Implies(err == nil, vc.Eq(e.OneOf, vc.FieldValue[[]SchemaOrRef]("oneOf", data, old.OneOf))))
		vc.Ensure("C08.AnyOf is decoded", vc.Implies(err == nil, vc.Eq(e.AnyOf, vc.FieldValue[[]SchemaOrRef]("anyOf", data, old.AnyOf))))
		vc.Ensure("C08.Items is decoded", vc.Implies(err == nil, vc.Eq(e.Items, vc.FieldValue[*SchemaOrRef]("items", data, old.Items))))
		vc.Ensure("C08.Properties is decoded", vc.Implies(err == nil, vc.Eq(e.Properties, vc.FieldValue[map[string]SchemaOrRef]("properties", data, old.Properties))))
		vc.Ensure("C08.AdditionalProperties is decoded", vc.Implies(err == nil, vc.Eq(e.AdditionalProperties, vc.FieldValue[*SchemaAdditionalProperties]("additionalProperties", data, old.AdditionalProperties))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Format is decoded", vc.Implies(err == nil, vc.Eq(e.Format, vc.FieldValue[*string]("format", data, old.Format))))
		vc.Ensure("C08.Default is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("default", data, old.Default) != nil, e.Default == vc.FieldValue[*interface{}]("default", data, old.Default)))
		vc.Ensure("C08.null of Default is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("default", data, old.Default) == nil && vc.HasKey(data, "default"), e.Default != nil && *e.Default == nil))
		vc.Ensure("C08.Default is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("default", data, old.Default) == nil && !vc.HasKey(data, "default"), e.Default == nil))
		vc.Ensure("C08.Nullable is decoded", vc.Implies(err == nil, vc.Eq(e.Nullable, vc.FieldValue[*bool]("nullable", data, old.Nullable))))
		vc.Ensure("C08.Discriminator is decoded", vc.Implies(err == nil, vc.Eq(e.Discriminator, vc.FieldValue[*Discriminator]("discriminator", data, old.Discriminator))))
		vc.Ensure("C08.ReadOnly is decoded", vc.Implies(err == nil, vc.Eq(e.ReadOnly, vc.FieldValue[*bool]("readOnly", data, old.ReadOnly))))
		vc.Ensure("C08.WriteOnly is decoded", vc.Implies(err == nil, vc.Eq(e.WriteOnly, vc.FieldValue[*bool]("writeOnly", data, old.WriteOnly))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.XML is decoded", vc.Implies(err == nil, vc.Eq(e.XML, vc.FieldValue[*XML]("xml", data, old.XML))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*SchemaAdditionalProperties).UnmarshalJSON
//vc:props C07 C08
func vcD_SchemaAdditionalProperties(e *SchemaAdditionalProperties, data []byte) func(error) {
	vc.Requires("the target is new", e.SchemaOrRef == nil)
	vc.Requires("the target is new", e.Bool == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*SchemaOrRef](data) && !vc.Decodes[*bool](data)) ||
			(!vc.Decodes[*SchemaOrRef](data) && vc.Decodes[*bool](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.SchemaOrRef is set for its form", vc.Implies(err == nil, (e.SchemaOrRef != nil) == (vc.Decodes[SchemaOrRef](data) && !vc.Null(data))))
		vc.Ensure("C08.SchemaOrRef is decoded", vc.Implies(err == nil && e.SchemaOrRef != nil, vc.Eq(*e.SchemaOrRef, vc.Decoded[SchemaOrRef](data))))
		vc.Ensure("C08.Bool is set for its form", vc.Implies(err == nil, (e.Bool != nil) == (vc.Decodes[bool](data) && !vc.Null(data))))
		vc.Ensure("C08.Bool is decoded", vc.Implies(err == nil && e.Bool != nil, vc.Eq(*e.Bool, vc.Decoded[bool](data))))
	}
}

//vc:func (*SchemaOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_SchemaOrRef(e *SchemaOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.Schema == nil)
	vc.Requires("the target is new", e.SchemaReference == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*Schema](data) && !vc.Decodes[*SchemaReference](data)) ||
			(!vc.Decodes[*Schema](data) && vc.Decodes[*SchemaReference](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Schema is set for its form", vc.Implies(err == nil, (e.Schema != nil) == (vc.Decodes[Schema](data) && !vc.Null(data))))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil && e.Schema != nil, vc.Eq(*e.Schema, vc.Decoded[Schema](data))))
		vc.Ensure("C08.SchemaReference is set for its form", vc.Implies(err == nil, (e.SchemaReference != nil) == (vc.Decodes[SchemaReference](data) && !vc.Null(data))))
		vc.Ensure("C08.SchemaReference is decoded", vc.Implies(err == nil && e.SchemaReference != nil, vc.Eq(*e.SchemaReference, vc.Decoded[SchemaReference](data))))
	}
}

//vc:func (*SchemaReference).UnmarshalJSON
//vc:props C07 C08
func vcD_SchemaReference(e *SchemaReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSchemaReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*SchemaXORContent).UnmarshalJSON
//vc:props C07 C08
func vcD_SchemaXORContent(e *SchemaXORContent, data []byte) func(error) {
	vc.Requires("the target is new", e.HasSchema == nil)
	vc.Requires("the target is new", e.HasContent == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := !vc.Decodes[SchemaXORContentNot](data)
		vc.Ensure("C07.the forbidden form is absent", vc.Implies(err == nil, c0))
		c1 := (vc.Decodes[*HasSchema](data) && !vc.Decodes[*HasContent](data)) ||
			(!vc.Decodes[*HasSchema](data) && vc.Decodes[*HasContent](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.HasSchema is set for its form", vc.Implies(err == nil, (e.HasSchema != nil) == (vc.Decodes[HasSchema](data) && !vc.Null(data))))
		vc.Ensure("C08.HasSchema is decoded", vc.Implies(err == nil && e.HasSchema != nil, vc.Eq(*e.HasSchema, vc.Decoded[HasSchema](data))))
		vc.Ensure("C08.HasContent is set for its form", vc.Implies(err == nil, (e.HasContent != nil) == (vc.Decodes[HasContent](data) && !vc.Null(data))))
		vc.Ensure("C08.HasContent is decoded", vc.Implies(err == nil && e.HasContent != nil, vc.Eq(*e.HasContent, vc.Decoded[HasContent](data))))
	}
}

//vc:func (*SchemaXORContentNot).UnmarshalJSON
//vc:props C07 C08
func vcD_SchemaXORContentNot(e *SchemaXORContentNot, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSchemaXORContentNot](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "schema")
		vc.Ensure("C07.key schema is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "content")
		vc.Ensure("C07.key content is present", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[interface{}]("schema", data, old.Schema))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[interface{}]("content", data, old.Content))))
	}
}

//vc:func (*SecurityScheme).UnmarshalJSON
//vc:props C07 C08
func vcD_SecurityScheme(e *SecurityScheme, data []byte) func(error) {
	vc.Requires("the target is new", e.APIKeySecurityScheme == nil)
	vc.Requires("the target is new", e.HTTPSecurityScheme == nil)
	vc.Requires("the target is new", e.OAuth2SecurityScheme == nil)
	vc.Requires("the target is new", e.OpenIDConnectSecurityScheme == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*APIKeySecurityScheme](data) && !vc.Decodes[*HTTPSecurityScheme](data) && !vc.Decodes[*OAuth2SecurityScheme](data) && !vc.Decodes[*OpenIDConnectSecurityScheme](data)) ||
			(!vc.Decodes[*APIKeySecurityScheme](data) && vc.Decodes[*HTTPSecurityScheme](data) && !vc.Decodes[*OAuth2SecurityScheme](data) && !vc.Decodes[*OpenIDConnectSecurityScheme](data)) ||
			(!vc.Decodes[*APIKeySecurityScheme](data) && !vc.Decodes[*HTTPSecurityScheme](data) && vc.Decodes[*OAuth2SecurityScheme](data) && !vc.Decodes[*OpenIDConnectSecurityScheme](data)) ||
			(!vc.Decodes[*APIKeySecurityScheme](data) && !vc.Decodes[*HTTPSecurityScheme](data) && !vc.Decodes[*OAuth2SecurityScheme](data) && vc.Decodes[*OpenIDConnectSecurityScheme](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.APIKeySecurityScheme is set for its form", vc.Implies(err == nil, (e.APIKeySecurityScheme != nil) == (vc.Decodes[APIKeySecurityScheme](data) && !vc.Null(data))))
		vc.Ensure("C08.APIKeySecurityScheme is decoded", vc.Implies(err == nil && e.APIKeySecurityScheme != nil, vc.Eq(*e.APIKeySecurityScheme, vc.Decoded[APIKeySecurityScheme](data))))
		vc.Ensure("C08.HTTPSecurityScheme is set for its form", vc.Implies(err == nil, (e.HTTPSecurityScheme != nil) == (vc.Decodes[HTTPSecurityScheme](data) && !vc.Null(data))))
		vc.Ensure("C08.HTTPSecurityScheme is decoded", vc.Implies(err == nil && e.HTTPSecurityScheme != nil, vc.Eq(*e.HTTPSecurityScheme, vc.Decoded[HTTPSecurityScheme](data))))
		vc.Ensure("C08.OAuth2SecurityScheme is set for its form", vc.Implies(err == nil, (e.OAuth2SecurityScheme != nil) == (vc.Decodes[OAuth2SecurityScheme](data) && !vc.Null(data))))
		vc.Ensure("C08.OAuth2SecurityScheme is decoded", vc.Implies(err == nil && e.OAuth2SecurityScheme != nil, vc.Eq(*e.OAuth2SecurityScheme, vc.Decoded[OAuth2SecurityScheme](data))))
		vc.Ensure("C08.OpenIDConnectSecurityScheme is set for its form", vc.Implies(err == nil, (e.OpenIDConnectSecurityScheme != nil) == (vc.Decodes[OpenIDConnectSecurityScheme](data) && !vc.Null(data))))
		vc.Ensure("C08.OpenIDConnectSecurityScheme is decoded", vc.Implies(err == nil && e.OpenIDConnectSecurityScheme != nil, vc.Eq(*e.OpenIDConnectSecurityScheme, vc.Decoded[OpenIDConnectSecurityScheme](data))))
	}
}

//vc:func (*SecuritySchemeOrRef).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeOrRef(e *SecuritySchemeOrRef, data []byte) func(error) {
	vc.Requires("the target is new", e.SecuritySchemeReference == nil)
	vc.Requires("the target is new", e.SecurityScheme == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*SecuritySchemeReference](data) && !vc.Decodes[*SecurityScheme](data)) ||
			(!vc.Decodes[*SecuritySchemeReference](data) && vc.Decodes[*SecurityScheme](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.SecuritySchemeReference is set for its form", vc.Implies(err == nil, (e.SecuritySchemeReference != nil) == (vc.Decodes[SecuritySchemeReference](data) && !vc.Null(data))))
		vc.Ensure("C08.SecuritySchemeReference is decoded", vc.Implies(err == nil && e.SecuritySchemeReference != nil, vc.Eq(*e.SecuritySchemeReference, vc.Decoded[SecuritySchemeReference](data))))
		vc.Ensure("C08.SecurityScheme is set for its form", vc.Implies(err == nil, (e.SecurityScheme != nil) == (vc.Decodes[SecurityScheme](data) && !vc.Null(data))))
		vc.Ensure("C08.SecurityScheme is decoded", vc.Implies(err == nil && e.SecurityScheme != nil, vc.Eq(*e.SecurityScheme, vc.Decoded[SecurityScheme](data))))
	}
}

//vc:func (*SecuritySchemeReference).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeReference(e *SecuritySchemeReference, data []byte) func(error) {
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "$ref"
	}
	some := func(k string) bool { return false }
	vc.Loop("rawMap", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecuritySchemeReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
	}
}

//vc:func (*Server).UnmarshalJSON
//vc:props C07 C08
func vcD_Server(e *Server, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "url" && k != "variables"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalServer) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalServer](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "url")
		vc.Ensure("C07.key url is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[string]("url", data, old.URL))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Variables is decoded", vc.Implies(err == nil, vc.Eq(e.Variables, vc.FieldValue[map[string]ServerVariable]("variables", data, old.Variables))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ServerVariable).UnmarshalJSON
//vc:props C07 C08
func vcD_ServerVariable(e *ServerVariable, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "default" && k != "description" && k != "enum"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalServerVariable) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalServerVariable](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "default")
		vc.Ensure("C07.key default is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Enum is decoded", vc.Implies(err == nil, vc.Eq(e.Enum, vc.FieldValue[[]string]("enum", data, old.Enum))))
		vc.Ensure("C08.Default is decoded", vc.Implies(err == nil, vc.Eq(e.Default, vc.FieldValue[string]("default", data, old.Default))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Spec).UnmarshalJSON
//vc:props C07 C08
func vcD_Spec(e *Spec, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "components" && k != "externalDocs" && k != "info" && k != "openapi" && k != "paths" && k != "security" && k != "servers" && k != "tags"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalSpec) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSpec](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "openapi")
		vc.Ensure("C07.key openapi is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "info")
		vc.Ensure("C07.key info is present", vc.Implies(err == nil, c2))
		c3 := vc.HasKey(data, "paths")
		vc.Ensure("C07.key paths is present", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c4))
		c5 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c5))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4 && c5, err == nil))
		vc.Ensure("C08.Openapi is decoded", vc.Implies(err == nil, vc.Eq(e.Openapi, vc.FieldValue[string]("openapi", data, old.Openapi))))
		vc.Ensure("C08.Info is decoded", vc.Implies(err == nil, vc.Eq(e.Info, vc.FieldValue[Info]("info", data, old.Info))))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.Servers is decoded", vc.Implies(err == nil, vc.Eq(e.Servers, vc.FieldValue[[]Server]("servers", data, old.Servers))))
		vc.Ensure("C08.Security is decoded", vc.Implies(err == nil, vc.Eq(e.Security, vc.FieldValue[[]map[string][]string]("security", data, old.Security))))
		vc.Ensure("C08.Tags is decoded", vc.Implies(err == nil, vc.Eq(e.Tags, vc.FieldValue[[]Tag]("tags", data, old.Tags))))
		vc.Ensure("C08.Paths is decoded", vc.Implies(err == nil, vc.Eq(e.Paths, vc.FieldValue[Paths]("paths", data, old.Paths))))
		vc.Ensure("C08.Components is decoded", vc.Implies(err == nil, vc.Eq(e.Components, vc.FieldValue[*Components]("components", data, old.Components))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Tag).UnmarshalJSON
//vc:props C07 C08
func vcD_Tag(e *Tag, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "externalDocs" && k != "name"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mt marshalTag) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mt.MapOfAnything == nil || vc.Fresh(mt.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mt.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mt.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalTag](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*XML).UnmarshalJSON
//vc:props C07 C08
func vcD_XML(e *XML, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "attribute" && k != "name" && k != "namespace" && k != "prefix" && k != "wrapped"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mx marshalXML) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mx.MapOfAnything == nil || vc.Fresh(mx.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mx.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mx.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(offendingKeys []string, vis vc.Visited[string]) {})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalXML](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool { return vc.Implies(left(k), some(k)) })
		vc.Ensure("C07.no unknown key", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[*string]("name", data, old.Name))))
		vc.Ensure("C08.Namespace is decoded", vc.Implies(err == nil, vc.Eq(e.Namespace, vc.FieldValue[*string]("namespace", data, old.Namespace))))
		vc.Ensure("C08.Prefix is decoded", vc.Implies(err == nil, vc.Eq(e.Prefix, vc.FieldValue[*string]("prefix", data, old.Prefix))))
		vc.Ensure("C08.Attribute is decoded", vc.Implies(err == nil, vc.Eq(e.Attribute, vc.FieldValue[*bool]("attribute", data, old.Attribute))))
		vc.Ensure("C08.Wrapped is decoded", vc.Implies(err == nil, vc.Eq(e.Wrapped, vc.FieldValue[*bool]("wrapped", data, old.Wrapped))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (Spec).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Spec(e Spec) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalSpec(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalSpec(e), e.MapOfAnything)))
	}
}

//vc:func (Info).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Info(e Info) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalInfo(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalInfo(e), e.MapOfAnything)))
	}
}

//vc:func (Contact).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Contact(e Contact) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalContact(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalContact(e), e.MapOfAnything)))
	}
}

//vc:func (License).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_License(e License) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalLicense(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalLicense(e), e.MapOfAnything)))
	}
}

//vc:func (ExternalDocumentation).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ExternalDocumentation(e ExternalDocumentation) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalExternalDocumentation(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalExternalDocumentation(e), e.MapOfAnything)))
	}
}

//vc:func (Server).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Server(e Server) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalServer(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalServer(e), e.MapOfAnything)))
	}
}

//vc:func (ServerVariable).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ServerVariable(e ServerVariable) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalServerVariable(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalServerVariable(e), e.MapOfAnything)))
	}
}

//vc:func (Tag).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Tag(e Tag) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalTag(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalTag(e), e.MapOfAnything)))
	}
}

//vc:func (PathItem).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_PathItem(e PathItem) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", marshalPathItem(e), e.MapOfOperationValues, e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, marshalPathItem(e), e.MapOfOperationValues, e.MapOfAnything)))
	}
}

//vc:func (Parameter).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Parameter(e Parameter) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails4", marshalParameter(e), e.MapOfAnything, e.SchemaXORContent, e.Location))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union4", r, marshalParameter(e), e.MapOfAnything, e.SchemaXORContent, e.Location)))
	}
}

//vc:func (Schema).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Schema(e Schema) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalSchema(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalSchema(e), e.MapOfAnything)))
	}
}

//vc:func (SchemaOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SchemaOrRef(e SchemaOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Schema, e.SchemaReference))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Schema, e.SchemaReference)))
	}
}

//vc:func (SchemaAdditionalProperties).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SchemaAdditionalProperties(e SchemaAdditionalProperties) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.SchemaOrRef, e.Bool))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.SchemaOrRef, e.Bool)))
	}
}

//vc:func (XML).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_XML(e XML) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalXML(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalXML(e), e.MapOfAnything)))
	}
}

//vc:func (MediaType).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_MediaType(e MediaType) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalMediaType(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalMediaType(e), e.MapOfAnything)))
	}
}

//vc:func (Example).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Example(e Example) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalExample(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalExample(e), e.MapOfAnything)))
	}
}

//vc:func (ExampleOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ExampleOrRef(e ExampleOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.ExampleReference, e.Example))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.ExampleReference, e.Example)))
	}
}

//vc:func (Header).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Header(e Header) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", json.RawMessage(`{"style":"simple"}`), marshalHeader(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, json.RawMessage(`{"style":"simple"}`), marshalHeader(e), e.MapOfAnything)))
	}
}

//vc:func (SchemaXORContent).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SchemaXORContent(e SchemaXORContent) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.HasSchema, e.HasContent))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.HasSchema, e.HasContent)))
	}
}

//vc:func (PathParameter).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_PathParameter(e PathParameter) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"in":"path","required":true}`), marshalPathParameter(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"in":"path","required":true}`), marshalPathParameter(e))))
	}
}

//vc:func (QueryParameter).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_QueryParameter(e QueryParameter) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"in":"query"}`), marshalQueryParameter(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"in":"query"}`), marshalQueryParameter(e))))
	}
}

//vc:func (HeaderParameter).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_HeaderParameter(e HeaderParameter) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", json.RawMessage(`{"in":"header","style":"simple"}`)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, json.RawMessage(`{"in":"header","style":"simple"}`))))
	}
}

//vc:func (CookieParameter).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_CookieParameter(e CookieParameter) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", json.RawMessage(`{"in":"cookie","style":"form"}`)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, json.RawMessage(`{"in":"cookie","style":"form"}`))))
	}
}

//vc:func (ParameterLocation).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ParameterLocation(e ParameterLocation) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails4", e.PathParameter, e.QueryParameter, e.HeaderParameter, e.CookieParameter))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union4", r, e.PathParameter, e.QueryParameter, e.HeaderParameter, e.CookieParameter)))
	}
}

//vc:func (ParameterOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ParameterOrRef(e ParameterOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.ParameterReference, e.Parameter))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.ParameterReference, e.Parameter)))
	}
}

//vc:func (Operation).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Operation(e Operation) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOperation(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOperation(e), e.MapOfAnything)))
	}
}

//vc:func (RequestBody).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_RequestBody(e RequestBody) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalRequestBody(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalRequestBody(e), e.MapOfAnything)))
	}
}

//vc:func (RequestBodyOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_RequestBodyOrRef(e RequestBodyOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.RequestBodyReference, e.RequestBody))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.RequestBodyReference, e.RequestBody)))
	}
}

//vc:func (Responses).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Responses(e Responses) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", marshalResponses(e), e.MapOfResponseOrRefValues, e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, marshalResponses(e), e.MapOfResponseOrRefValues, e.MapOfAnything)))
	}
}

//vc:func (Response).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Response(e Response) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalResponse(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalResponse(e), e.MapOfAnything)))
	}
}

//vc:func (HeaderOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_HeaderOrRef(e HeaderOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.HeaderReference, e.Header))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.HeaderReference, e.Header)))
	}
}

//vc:func (Link).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Link(e Link) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalLink(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalLink(e), e.MapOfAnything)))
	}
}

//vc:func (LinkOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_LinkOrRef(e LinkOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.LinkReference, e.Link))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.LinkReference, e.Link)))
	}
}

//vc:func (ResponseOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ResponseOrRef(e ResponseOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.ResponseReference, e.Response))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.ResponseReference, e.Response)))
	}
}

//vc:func (Callback).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Callback(e Callback) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.MapOfAnything, e.AdditionalProperties))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.MapOfAnything, e.AdditionalProperties)))
	}
}

//vc:func (CallbackOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_CallbackOrRef(e CallbackOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.CallbackReference, e.Callback))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.CallbackReference, e.Callback)))
	}
}

//vc:func (Paths).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Paths(e Paths) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.MapOfPathItemValues, e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.MapOfPathItemValues, e.MapOfAnything)))
	}
}

//vc:func (Components).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Components(e Components) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalComponents(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalComponents(e), e.MapOfAnything)))
	}
}

//vc:func (ComponentsSchemas).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsSchemas(e ComponentsSchemas) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfSchemaOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfSchemaOrRefValues)))
	}
}

//vc:func (ComponentsResponses).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsResponses(e ComponentsResponses) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfResponseOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfResponseOrRefValues)))
	}
}

//vc:func (ComponentsParameters).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsParameters(e ComponentsParameters) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfParameterOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfParameterOrRefValues)))
	}
}

//vc:func (ComponentsExamples).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsExamples(e ComponentsExamples) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfExampleOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfExampleOrRefValues)))
	}
}

//vc:func (ComponentsRequestBodies).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsRequestBodies(e ComponentsRequestBodies) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfRequestBodyOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfRequestBodyOrRefValues)))
	}
}

//vc:func (ComponentsHeaders).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsHeaders(e ComponentsHeaders) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfHeaderOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfHeaderOrRefValues)))
	}
}

//vc:func (APIKeySecurityScheme).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_APIKeySecurityScheme(e APIKeySecurityScheme) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", json.RawMessage(`{"type":"apiKey"}`), marshalAPIKeySecurityScheme(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, json.RawMessage(`{"type":"apiKey"}`), marshalAPIKeySecurityScheme(e), e.MapOfAnything)))
	}
}

//vc:func (HTTPSecurityScheme).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_HTTPSecurityScheme(e HTTPSecurityScheme) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails5", json.RawMessage(`{"type":"http"}`), marshalHTTPSecurityScheme(e), e.MapOfAnything, e.Bearer, e.NonBearer))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union5", r, json.RawMessage(`{"type":"http"}`), marshalHTTPSecurityScheme(e), e.MapOfAnything, e.Bearer, e.NonBearer)))
	}
}

//vc:func (Bearer).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Bearer(e Bearer) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", json.RawMessage(`{"scheme":"bearer"}`)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, json.RawMessage(`{"scheme":"bearer"}`))))
	}
}

//vc:func (OAuth2SecurityScheme).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OAuth2SecurityScheme(e OAuth2SecurityScheme) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", json.RawMessage(`{"type":"oauth2"}`), marshalOAuth2SecurityScheme(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, json.RawMessage(`{"type":"oauth2"}`), marshalOAuth2SecurityScheme(e), e.MapOfAnything)))
	}
}

//vc:func (OAuthFlows).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OAuthFlows(e OAuthFlows) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOAuthFlows(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOAuthFlows(e), e.MapOfAnything)))
	}
}

//vc:func (ImplicitOAuthFlow).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ImplicitOAuthFlow(e ImplicitOAuthFlow) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalImplicitOAuthFlow(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalImplicitOAuthFlow(e), e.MapOfAnything)))
	}
}

//vc:func (PasswordOAuthFlow).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_PasswordOAuthFlow(e PasswordOAuthFlow) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalPasswordOAuthFlow(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalPasswordOAuthFlow(e), e.MapOfAnything)))
	}
}

//vc:func (ClientCredentialsFlow).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ClientCredentialsFlow(e ClientCredentialsFlow) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalClientCredentialsFlow(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalClientCredentialsFlow(e), e.MapOfAnything)))
	}
}

//vc:func (AuthorizationCodeOAuthFlow).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_AuthorizationCodeOAuthFlow(e AuthorizationCodeOAuthFlow) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalAuthorizationCodeOAuthFlow(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalAuthorizationCodeOAuthFlow(e), e.MapOfAnything)))
	}
}

//vc:func (OpenIDConnectSecurityScheme).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OpenIDConnectSecurityScheme(e OpenIDConnectSecurityScheme) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", json.RawMessage(`{"type":"openIdConnect"}`), marshalOpenIDConnectSecurityScheme(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, json.RawMessage(`{"type":"openIdConnect"}`), marshalOpenIDConnectSecurityScheme(e), e.MapOfAnything)))
	}
}

//vc:func (SecurityScheme).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecurityScheme(e SecurityScheme) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails4", e.APIKeySecurityScheme, e.HTTPSecurityScheme, e.OAuth2SecurityScheme, e.OpenIDConnectSecurityScheme))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union4", r, e.APIKeySecurityScheme, e.HTTPSecurityScheme, e.OAuth2SecurityScheme, e.OpenIDConnectSecurityScheme)))
	}
}

//vc:func (SecuritySchemeOrRef).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeOrRef(e SecuritySchemeOrRef) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.SecuritySchemeReference, e.SecurityScheme))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.SecuritySchemeReference, e.SecurityScheme)))
	}
}

//vc:func (ComponentsSecuritySchemes).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsSecuritySchemes(e ComponentsSecuritySchemes) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfSecuritySchemeOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfSecuritySchemeOrRefValues)))
	}
}

//vc:func (ComponentsLinks).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsLinks(e ComponentsLinks) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfLinkOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfLinkOrRefValues)))
	}
}

//vc:func (ComponentsCallbacks).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ComponentsCallbacks(e ComponentsCallbacks) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfCallbackOrRefValues))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfCallbackOrRefValues)))
	}
}

//vc:func marshalUnion
//vc:props C08
func vcE_marshalUnion(maps ...interface{}) func([]byte, error) {
	fails := func(i int) bool { return vc.Rel("encodeFails", maps[i]) }
	size := func(i int) int { return vc.RelInt("encLen", maps[i]) }
	at := func(i, t int) byte { return vc.RelOf[byte]("encAt", maps[i], t) }
	skip := func(i int) bool {
		return vc.RelStr("encText", maps[i]) == "{}" || vc.RelStr("encText", maps[i]) == "null"
	}
	object := func(i int) bool { return at(i, 0) == '{' }
	off := func(i int) int { return vc.RelInt("unionOff", maps, i) }

	// where the members of an operand start in the result: a definition
	vc.Define(off(0) == 1)
	vc.Define(vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i, off(i+1) == off(i)+vc.If(skip(i), 0, size(i)-1))
	}))
	vc.Loop("maps", func(n vc.Done, result []byte, isObject bool) {
		k := int(n)
		vc.Invariant("result is its own", vc.Fresh(result) && len(result) >= 1)
		vc.Invariant("operands so far can be encoded", vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < k, !fails(i) && size(i) >= 1) }))
		vc.Invariant("offsets grow", vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i <= k, 1 <= off(i) && off(i) <= off(k)) }))
		vc.Invariant("length", vc.Implies(isObject, len(result) == off(k)))
		vc.Invariant("brace", vc.Implies(isObject, result[0] == '{' && (len(result) == 1 || result[len(result)-1] == '}')))
		vc.Invariant("only objects", vc.Implies(isObject, vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < k && !skip(i), object(i) && size(i) >= 2) })))
		vc.Invariant("not only objects", vc.Implies(!isObject, vc.Exists(func(i int) bool { return 0 <= i && i < k && !skip(i) && !object(i) })))
		vc.Invariant("members", vc.Implies(isObject, vc.Forall(func(i, t int) bool {
			return vc.Implies(0 <= i && i < k && !skip(i) && 1 <= t && t < size(i)-1, result[off(i)-1+t] == at(i, t))
		})))
		vc.Invariant("separators", vc.Implies(isObject, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < k && !skip(i), result[off(i)+size(i)-2] == vc.If[byte](off(i+1) == off(k), '}', ','))
		})))
	})

	return func(r []byte, err error) {
		vc.Produce(vc.Implies(len(maps) == 1, (err == nil) == !vc.Rel("unionFails1", maps[0])))
		vc.Produce(vc.Implies(len(maps) == 1 && err == nil, vc.Rel("union1", r, maps[0])))
		vc.Produce(vc.Implies(len(maps) == 2, (err == nil) == !vc.Rel("unionFails2", maps[0], maps[1])))
		vc.Produce(vc.Implies(len(maps) == 2 && err == nil, vc.Rel("union2", r, maps[0], maps[1])))
		vc.Produce(vc.Implies(len(maps) == 3, (err == nil) == !vc.Rel("unionFails3", maps[0], maps[1], maps[2])))
		vc.Produce(vc.Implies(len(maps) == 3 && err == nil, vc.Rel("union3", r, maps[0], maps[1], maps[2])))
		vc.Produce(vc.Implies(len(maps) == 4, (err == nil) == !vc.Rel("unionFails4", maps[0], maps[1], maps[2], maps[3])))
		vc.Produce(vc.Implies(len(maps) == 4 && err == nil, vc.Rel("union4", r, maps[0], maps[1], maps[2], maps[3])))
		vc.Produce(vc.Implies(len(maps) == 5, (err == nil) == !vc.Rel("unionFails5", maps[0], maps[1], maps[2], maps[3], maps[4])))
		vc.Produce(vc.Implies(len(maps) == 5 && err == nil, vc.Rel("union5", r, maps[0], maps[1], maps[2], maps[3], maps[4])))
		vc.Produce(vc.Implies(len(maps) == 6, (err == nil) == !vc.Rel("unionFails6", maps[0], maps[1], maps[2], maps[3], maps[4], maps[5])))
		vc.Produce(vc.Implies(len(maps) == 6 && err == nil, vc.Rel("union6", r, maps[0], maps[1], maps[2], maps[3], maps[4], maps[5])))
		vc.Produce(vc.Implies(len(maps) == 7, (err == nil) == !vc.Rel("unionFails7", maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6])))
		vc.Produce(vc.Implies(len(maps) == 7 && err == nil, vc.Rel("union7", r, maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6])))
		vc.Produce(vc.Implies(len(maps) == 8, (err == nil) == !vc.Rel("unionFails8", maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6], maps[7])))
		vc.Produce(vc.Implies(len(maps) == 8 && err == nil, vc.Rel("union8", r, maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6], maps[7])))
		vc.Details()
		ok := vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < len(maps), !fails(i) && (skip(i) || object(i))) })
		vc.Ensure("C08.objects are merged", vc.Implies(ok, err == nil))
		vc.Ensure("C08.nothing gives an empty object", vc.Implies(ok && off(len(maps)) == 1, len(r) == 2 && r[0] == '{' && r[1] == '}'))
		vc.Ensure("C08.result is an object", vc.Implies(ok && off(len(maps)) != 1, len(r) == off(len(maps)) && r[0] == '{' && r[len(r)-1] == '}'))
		vc.Ensure("C08.members are kept", vc.Implies(ok, vc.Forall(func(i, t int) bool {
			return vc.Implies(0 <= i && i < len(maps) && !skip(i) && 1 <= t && t < size(i)-1, r[off(i)-1+t] == at(i, t))
		})))
		vc.Ensure("C08.members are separated", vc.Implies(ok, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < len(maps) && !skip(i), r[off(i)+size(i)-2] == vc.If[byte](off(i+1) == off(len(maps)), '}', ','))
		})))
		vc.Ensure("C08.an operand that cannot be encoded is reported", vc.Implies(vc.Exists(func(i int) bool { return 0 <= i && i < len(maps) && fails(i) }), err != nil))
	}
}

//vc:func (*APIKeySecuritySchemeIn).UnmarshalJSON
//vc:props C07 C08
func vcD_APIKeySecuritySchemeIn(e *APIKeySecuritySchemeIn, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "header" || v == "query" || v == "cookie"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (APIKeySecuritySchemeIn).MarshalJSON
//vc:props C07 C08
func vcE_APIKeySecuritySchemeIn(v APIKeySecuritySchemeIn) func([]byte, error) {
	known := v == "header" || v == "query" || v == "cookie"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*EncodingStyle).UnmarshalJSON
//vc:props C07 C08
func vcD_EncodingStyle(e *EncodingStyle, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (EncodingStyle).MarshalJSON
//vc:props C07 C08
func vcE_EncodingStyle(v EncodingStyle) func([]byte, error) {
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*ParameterIn).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterIn(e *ParameterIn, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "path" || v == "query" || v == "header" || v == "cookie"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (ParameterIn).MarshalJSON
//vc:props C07 C08
func vcE_ParameterIn(v ParameterIn) func([]byte, error) {
	known := v == "path" || v == "query" || v == "header" || v == "cookie"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*PathParameterStyle).UnmarshalJSON
//vc:props C07 C08
func vcD_PathParameterStyle(e *PathParameterStyle, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "matrix" || v == "label" || v == "simple"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (PathParameterStyle).MarshalJSON
//vc:props C07 C08
func vcE_PathParameterStyle(v PathParameterStyle) func([]byte, error) {
	known := v == "matrix" || v == "label" || v == "simple"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*QueryParameterStyle).UnmarshalJSON
//vc:props C07 C08
func vcD_QueryParameterStyle(e *QueryParameterStyle, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (QueryParameterStyle).MarshalJSON
//vc:props C07 C08
func vcE_QueryParameterStyle(v QueryParameterStyle) func([]byte, error) {
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*SchemaType).UnmarshalJSON
//vc:props C07 C08
func vcD_SchemaType(e *SchemaType, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "array" || v == "boolean" || v == "integer" || v == "number" || v == "object" || v == "string"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (SchemaType).MarshalJSON
//vc:props C07 C08
func vcE_SchemaType(v SchemaType) func([]byte, error) {
	known := v == "array" || v == "boolean" || v == "integer" || v == "number" || v == "object" || v == "string"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

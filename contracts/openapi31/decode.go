// Code generated by tools/gen_decode.py. DO NOT EDIT.

package openapi31

import (
	"encoding/json"
	"strings"

	"github.com/swaggest/openapi-go/internal/vc"
)

//vc:func (*Callbacks).UnmarshalJSON
//vc:props C07 C08
func vcD_Callbacks(e *Callbacks, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	vc.Requires("the target is new", e.AdditionalProperties == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", e.MapOfAnything == nil || vc.Fresh(e.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Loop("rawMap#2", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("AdditionalProperties is its own", e.AdditionalProperties == nil || vc.Fresh(e.AdditionalProperties))
		vc.Invariant("seen keys were not matched", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k) && !some(k)) }))
		vc.Invariant("C08.AdditionalProperties has the keys", vc.Forall(func(k string) bool {
			_, ok := e.AdditionalProperties[k]

			return ok == vis.Has(k)
		}))
		vc.Invariant("C08.AdditionalProperties has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k), vc.Eq(e.AdditionalProperties[k], vc.Decoded[PathItemOrReference](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of AdditionalProperties decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k), vc.Decodes[PathItemOrReference](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && !some(k), vc.Decodes[PathItemOrReference](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of AdditionalProperties are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.AdditionalProperties has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.AdditionalProperties[k]

			return ok == (left(k) && !some(k))
		})))
		vc.Ensure("C08.AdditionalProperties has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && !some(k), vc.Eq(e.AdditionalProperties[k], vc.Decoded[PathItemOrReference](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*CallbacksOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_CallbacksOrReference(e *CallbacksOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.Callbacks == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*Reference](data) && !vc.Decodes[*Callbacks](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*Callbacks](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.Callbacks is set for its form", vc.Implies(err == nil, (e.Callbacks != nil) == (vc.Decodes[Callbacks](data) && !vc.Null(data))))
		vc.Ensure("C08.Callbacks is decoded", vc.Implies(err == nil && e.Callbacks != nil, vc.Eq(*e.Callbacks, vc.Decoded[Callbacks](data))))
	}
}

//vc:func (*Contact).UnmarshalJSON
//vc:props C07 C08
func vcD_Contact(e *Contact, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "email" && k != "name" && k != "url"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mc marshalContact) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mc.MapOfAnything == nil || vc.Fresh(mc.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mc.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mc.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalContact](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[*string]("name", data, old.Name))))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[*string]("url", data, old.URL))))
		vc.Ensure("C08.Email is decoded", vc.Implies(err == nil, vc.Eq(e.Email, vc.FieldValue[*string]("email", data, old.Email))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*EncodingAllOf0).UnmarshalJSON
//vc:props C07 C08
func vcD_EncodingAllOf0(e *EncodingAllOf0, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", e.MapOfAnything == nil || vc.Fresh(e.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Example).UnmarshalJSON
//vc:props C07 C08
func vcD_Example(e *Example, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "externalValue" && k != "summary" && k != "value"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, me marshalExample) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", me.MapOfAnything == nil || vc.Fresh(me.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := me.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(me.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalExample](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := !(vc.HasKey(data, "value") && vc.HasKey(data, "externalValue"))
		vc.Ensure("C07.not both of value and externalValue", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Value is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("value", data, old.Value) != nil, e.Value == vc.FieldValue[*interface{}]("value", data, old.Value)))
		vc.Ensure("C08.null of Value is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("value", data, old.Value) == nil && vc.HasKey(data, "value"), e.Value != nil && *e.Value == nil))
		vc.Ensure("C08.Value is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("value", data, old.Value) == nil && !vc.HasKey(data, "value"), e.Value == nil))
		vc.Ensure("C08.ExternalValue is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalValue, vc.FieldValue[*string]("externalValue", data, old.ExternalValue))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ExampleOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_ExampleOrReference(e *ExampleOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.Example == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[Reference](data) && !vc.Null(data) || ((vc.Decodes[*Reference](data) && !vc.Decodes[*Example](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*Example](data)))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.Example is set for its form", vc.Implies(err == nil, (e.Example != nil) == (vc.Decodes[Example](data) && !vc.Null(data) && !(vc.Decodes[Reference](data) && !vc.Null(data)))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && e.Example != nil, vc.Eq(*e.Example, vc.Decoded[Example](data))))
	}
}

//vc:func (*ExternalDocumentation).UnmarshalJSON
//vc:props C07 C08
func vcD_ExternalDocumentation(e *ExternalDocumentation, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "url"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, me marshalExternalDocumentation) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", me.MapOfAnything == nil || vc.Fresh(me.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := me.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(me.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalExternalDocumentation](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "url")
		vc.Ensure("C07.key url is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[string]("url", data, old.URL))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Header).UnmarshalJSON
//vc:props C07 C08
func vcD_Header(e *Header, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "content" && k != "deprecated" && k != "description" && k != "example" && k != "examples" && k != "explode" && k != "required" && k != "schema" && k != "style"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mh marshalHeader) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mh.MapOfAnything == nil || vc.Fresh(mh.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mh.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mh.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalHeader](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "schema") != vc.HasKey(data, "content")
		vc.Ensure("C07.exactly one of schema and content", vc.Implies(err == nil, c1))
		c2 := vc.Implies(vc.HasKey(data, "style"), vc.KeyText(data, "style") == "\"simple\"")
		vc.Ensure("C07.style is simple", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[*bool]("required", data, old.Required))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[map[string]interface{}]("schema", data, old.Schema))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[map[string]ExampleOrReference]("examples", data, old.Examples))))
		vc.Ensure("C08.Explode is decoded", vc.Implies(err == nil, vc.Eq(e.Explode, vc.FieldValue[*bool]("explode", data, old.Explode))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*HeaderOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_HeaderOrReference(e *HeaderOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.Header == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*Reference](data) && !vc.Decodes[*Header](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*Header](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.Header is set for its form", vc.Implies(err == nil, (e.Header != nil) == (vc.Decodes[Header](data) && !vc.Null(data))))
		vc.Ensure("C08.Header is decoded", vc.Implies(err == nil && e.Header != nil, vc.Eq(*e.Header, vc.Decoded[Header](data))))
	}
}

//vc:func (*Info).UnmarshalJSON
//vc:props C07 C08
func vcD_Info(e *Info, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "contact" && k != "description" && k != "license" && k != "summary" && k != "termsOfService" && k != "title" && k != "version"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mi marshalInfo) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mi.MapOfAnything == nil || vc.Fresh(mi.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mi.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mi.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalInfo](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "title")
		vc.Ensure("C07.key title is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "version")
		vc.Ensure("C07.key version is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Title is decoded", vc.Implies(err == nil, vc.Eq(e.Title, vc.FieldValue[string]("title", data, old.Title))))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.TermsOfService is decoded", vc.Implies(err == nil, vc.Eq(e.TermsOfService, vc.FieldValue[*string]("termsOfService", data, old.TermsOfService))))
		vc.Ensure("C08.Contact is decoded", vc.Implies(err == nil, vc.Eq(e.Contact, vc.FieldValue[*Contact]("contact", data, old.Contact))))
		vc.Ensure("C08.License is decoded", vc.Implies(err == nil, vc.Eq(e.License, vc.FieldValue[*License]("license", data, old.License))))
		vc.Ensure("C08.Version is decoded", vc.Implies(err == nil, vc.Eq(e.Version, vc.FieldValue[string]("version", data, old.Version))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*License).UnmarshalJSON
//vc:props C07 C08
func vcD_License(e *License, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "identifier" && k != "name" && k != "url"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ml marshalLicense) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ml.MapOfAnything == nil || vc.Fresh(ml.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ml.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ml.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalLicense](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.Identifier is decoded", vc.Implies(err == nil, vc.Eq(e.Identifier, vc.FieldValue[*string]("identifier", data, old.Identifier))))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[*string]("url", data, old.URL))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Link).UnmarshalJSON
//vc:props C07 C08
func vcD_Link(e *Link, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "body" && k != "description" && k != "operationId" && k != "operationRef" && k != "parameters" && k != "requestBody"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ml marshalLink) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ml.MapOfAnything == nil || vc.Fresh(ml.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ml.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ml.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalLink](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.OperationRef is decoded", vc.Implies(err == nil, vc.Eq(e.OperationRef, vc.FieldValue[*string]("operationRef", data, old.OperationRef))))
		vc.Ensure("C08.OperationID is decoded", vc.Implies(err == nil, vc.Eq(e.OperationID, vc.FieldValue[*string]("operationId", data, old.OperationID))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[map[string]string]("parameters", data, old.Parameters))))
		vc.Ensure("C08.RequestBody is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody) != nil, e.RequestBody == vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody)))
		vc.Ensure("C08.null of RequestBody is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody) == nil && vc.HasKey(data, "requestBody"), e.RequestBody != nil && *e.RequestBody == nil))
		vc.Ensure("C08.RequestBody is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("requestBody", data, old.RequestBody) == nil && !vc.HasKey(data, "requestBody"), e.RequestBody == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Body is decoded", vc.Implies(err == nil, vc.Eq(e.Body, vc.FieldValue[*Server]("body", data, old.Body))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*LinkOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_LinkOrReference(e *LinkOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.Link == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[Reference](data) && !vc.Null(data) || ((vc.Decodes[*Reference](data) && !vc.Decodes[*Link](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*Link](data)))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.Link is set for its form", vc.Implies(err == nil, (e.Link != nil) == (vc.Decodes[Link](data) && !vc.Null(data) && !(vc.Decodes[Reference](data) && !vc.Null(data)))))
		vc.Ensure("C08.Link is decoded", vc.Implies(err == nil && e.Link != nil, vc.Eq(*e.Link, vc.Decoded[Link](data))))
	}
}

//vc:func (*MediaType).UnmarshalJSON
//vc:props C07 C08
func vcD_MediaType(e *MediaType, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "encoding" && k != "example" && k != "examples" && k != "schema"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mm marshalMediaType) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mm.MapOfAnything == nil || vc.Fresh(mm.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mm.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mm.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalMediaType](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[map[string]interface{}]("schema", data, old.Schema))))
		vc.Ensure("C08.Encoding is decoded", vc.Implies(err == nil, vc.Eq(e.Encoding, vc.FieldValue[map[string]Encoding]("encoding", data, old.Encoding))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[map[string]ExampleOrReference]("examples", data, old.Examples))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*MutualTLS).UnmarshalJSON
//vc:props C07 C08
func vcD_MutualTLS(e *MutualTLS, data []byte) func(error) {
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"mutualTLS\"")
		vc.Ensure("C07.type is mutualTLS", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
	}
}

//vc:func (*OauthFlows).UnmarshalJSON
//vc:props C07 C08
func vcD_OauthFlows(e *OauthFlows, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "authorizationCode" && k != "clientCredentials" && k != "implicit" && k != "password"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOauthFlows) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOauthFlows](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Implicit is decoded", vc.Implies(err == nil, vc.Eq(e.Implicit, vc.FieldValue[*OauthFlowsDefsImplicit]("implicit", data, old.Implicit))))
		vc.Ensure("C08.Password is decoded", vc.Implies(err == nil, vc.Eq(e.Password, vc.FieldValue[*OauthFlowsDefsPassword]("password", data, old.Password))))
		vc.Ensure("C08.ClientCredentials is decoded", vc.Implies(err == nil, vc.Eq(e.ClientCredentials, vc.FieldValue[*OauthFlowsDefsClientCredentials]("clientCredentials", data, old.ClientCredentials))))
		vc.Ensure("C08.AuthorizationCode is decoded", vc.Implies(err == nil, vc.Eq(e.AuthorizationCode, vc.FieldValue[*OauthFlowsDefsAuthorizationCode]("authorizationCode", data, old.AuthorizationCode))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).UnmarshalJSON
//vc:props C07 C08
func vcD_OauthFlowsDefsAuthorizationCode(e *OauthFlowsDefsAuthorizationCode, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "authorizationUrl" && k != "refreshUrl" && k != "scopes" && k != "tokenUrl"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOauthFlowsDefsAuthorizationCode) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOauthFlowsDefsAuthorizationCode](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "authorizationUrl")
		vc.Ensure("C07.key authorizationUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "tokenUrl")
		vc.Ensure("C07.key tokenUrl is present", vc.Implies(err == nil, c2))
		c3 := vc.HasKey(data, "scopes")
		vc.Ensure("C07.key scopes is present", vc.Implies(err == nil, c3))
		c4 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.AuthorizationURL is decoded", vc.Implies(err == nil, vc.Eq(e.AuthorizationURL, vc.FieldValue[string]("authorizationUrl", data, old.AuthorizationURL))))
		vc.Ensure("C08.TokenURL is decoded", vc.Implies(err == nil, vc.Eq(e.TokenURL, vc.FieldValue[string]("tokenUrl", data, old.TokenURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).UnmarshalJSON
//vc:props C07 C08
func vcD_OauthFlowsDefsClientCredentials(e *OauthFlowsDefsClientCredentials, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "refreshUrl" && k != "scopes" && k != "tokenUrl"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOauthFlowsDefsClientCredentials) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOauthFlowsDefsClientCredentials](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "tokenUrl")
		vc.Ensure("C07.key tokenUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "scopes")
		vc.Ensure("C07.key scopes is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.TokenURL is decoded", vc.Implies(err == nil, vc.Eq(e.TokenURL, vc.FieldValue[string]("tokenUrl", data, old.TokenURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*OauthFlowsDefsImplicit).UnmarshalJSON
//vc:props C07 C08
func vcD_OauthFlowsDefsImplicit(e *OauthFlowsDefsImplicit, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "authorizationUrl" && k != "refreshUrl" && k != "scopes"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOauthFlowsDefsImplicit) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOauthFlowsDefsImplicit](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "authorizationUrl")
		vc.Ensure("C07.key authorizationUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "scopes")
		vc.Ensure("C07.key scopes is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.AuthorizationURL is decoded", vc.Implies(err == nil, vc.Eq(e.AuthorizationURL, vc.FieldValue[string]("authorizationUrl", data, old.AuthorizationURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*OauthFlowsDefsPassword).UnmarshalJSON
//vc:props C07 C08
func vcD_OauthFlowsDefsPassword(e *OauthFlowsDefsPassword, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "refreshUrl" && k != "scopes" && k != "tokenUrl"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOauthFlowsDefsPassword) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOauthFlowsDefsPassword](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "tokenUrl")
		vc.Ensure("C07.key tokenUrl is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "scopes")
		vc.Ensure("C07.key scopes is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.TokenURL is decoded", vc.Implies(err == nil, vc.Eq(e.TokenURL, vc.FieldValue[string]("tokenUrl", data, old.TokenURL))))
		vc.Ensure("C08.RefreshURL is decoded", vc.Implies(err == nil, vc.Eq(e.RefreshURL, vc.FieldValue[*string]("refreshUrl", data, old.RefreshURL))))
		vc.Ensure("C08.Scopes is decoded", vc.Implies(err == nil, vc.Eq(e.Scopes, vc.FieldValue[map[string]string]("scopes", data, old.Scopes))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Operation).UnmarshalJSON
//vc:props C07 C08
func vcD_Operation(e *Operation, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "callbacks" && k != "deprecated" && k != "description" && k != "externalDocs" && k != "operationId" && k != "parameters" && k != "requestBody" && k != "responses" && k != "security" && k != "servers" && k != "summary" && k != "tags"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mo marshalOperation) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mo.MapOfAnything == nil || vc.Fresh(mo.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mo.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mo.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalOperation](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Tags is decoded", vc.Implies(err == nil, vc.Eq(e.Tags, vc.FieldValue[[]string]("tags", data, old.Tags))))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.ID is decoded", vc.Implies(err == nil, vc.Eq(e.ID, vc.FieldValue[*string]("operationId", data, old.ID))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[[]ParameterOrReference]("parameters", data, old.Parameters))))
		vc.Ensure("C08.RequestBody is decoded", vc.Implies(err == nil, vc.Eq(e.RequestBody, vc.FieldValue[*RequestBodyOrReference]("requestBody", data, old.RequestBody))))
		vc.Ensure("C08.Responses is decoded", vc.Implies(err == nil, vc.Eq(e.Responses, vc.FieldValue[*Responses]("responses", data, old.Responses))))
		vc.Ensure("C08.Callbacks is decoded", vc.Implies(err == nil, vc.Eq(e.Callbacks, vc.FieldValue[map[string]CallbacksOrReference]("callbacks", data, old.Callbacks))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.Security is decoded", vc.Implies(err == nil, vc.Eq(e.Security, vc.FieldValue[[]map[string][]string]("security", data, old.Security))))
		vc.Ensure("C08.Servers is decoded", vc.Implies(err == nil, vc.Eq(e.Servers, vc.FieldValue[[]Server]("servers", data, old.Servers))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Parameter).UnmarshalJSON
//vc:props C07 C08
func vcD_Parameter(e *Parameter, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "content" && k != "deprecated" && k != "description" && k != "example" && k != "examples" && k != "explode" && k != "in" && k != "name" && k != "required" && k != "schema" && k != "style"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mp marshalParameter) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mp.MapOfAnything == nil || vc.Fresh(mp.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mp.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mp.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalParameter](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "in")
		vc.Ensure("C07.key in is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.In is decoded", vc.Implies(err == nil, vc.Eq(e.In, vc.FieldValue[ParameterIn]("in", data, old.In))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[*bool]("required", data, old.Required))))
		vc.Ensure("C08.Deprecated is decoded", vc.Implies(err == nil, vc.Eq(e.Deprecated, vc.FieldValue[*bool]("deprecated", data, old.Deprecated))))
		vc.Ensure("C08.Schema is decoded", vc.Implies(err == nil, vc.Eq(e.Schema, vc.FieldValue[map[string]interface{}]("schema", data, old.Schema))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Style is decoded", vc.Implies(err == nil, vc.Eq(e.Style, vc.FieldValue[*ParameterStyle]("style", data, old.Style))))
		vc.Ensure("C08.Explode is decoded", vc.Implies(err == nil, vc.Eq(e.Explode, vc.FieldValue[*bool]("explode", data, old.Explode))))
		vc.Ensure("C08.Example is decoded", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) != nil, e.Example == vc.FieldValue[*interface{}]("example", data, old.Example)))
		vc.Ensure("C08.null of Example is kept", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && vc.HasKey(data, "example"), e.Example != nil && *e.Example == nil))
		vc.Ensure("C08.Example is not invented", vc.Implies(err == nil && vc.FieldValue[*interface{}]("example", data, old.Example) == nil && !vc.HasKey(data, "example"), e.Example == nil))
		vc.Ensure("C08.Examples is decoded", vc.Implies(err == nil, vc.Eq(e.Examples, vc.FieldValue[map[string]ExampleOrReference]("examples", data, old.Examples))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ParameterOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterOrReference(e *ParameterOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.Parameter == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*Reference](data) && !vc.Decodes[*Parameter](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*Parameter](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.Parameter is set for its form", vc.Implies(err == nil, (e.Parameter != nil) == (vc.Decodes[Parameter](data) && !vc.Null(data))))
		vc.Ensure("C08.Parameter is decoded", vc.Implies(err == nil && e.Parameter != nil, vc.Eq(*e.Parameter, vc.Decoded[Parameter](data))))
	}
}

//vc:func (*PathItem).UnmarshalJSON
//vc:props C07 C08
func vcD_PathItem(e *PathItem, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "delete" && k != "description" && k != "get" && k != "head" && k != "options" && k != "parameters" && k != "patch" && k != "post" && k != "put" && k != "servers" && k != "summary" && k != "trace"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mp marshalPathItem) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mp.MapOfAnything == nil || vc.Fresh(mp.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mp.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mp.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalPathItem](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Servers is decoded", vc.Implies(err == nil, vc.Eq(e.Servers, vc.FieldValue[[]Server]("servers", data, old.Servers))))
		vc.Ensure("C08.Parameters is decoded", vc.Implies(err == nil, vc.Eq(e.Parameters, vc.FieldValue[[]ParameterOrReference]("parameters", data, old.Parameters))))
		vc.Ensure("C08.Get is decoded", vc.Implies(err == nil, vc.Eq(e.Get, vc.FieldValue[*Operation]("get", data, old.Get))))
		vc.Ensure("C08.Put is decoded", vc.Implies(err == nil, vc.Eq(e.Put, vc.FieldValue[*Operation]("put", data, old.Put))))
		vc.Ensure("C08.Post is decoded", vc.Implies(err == nil, vc.Eq(e.Post, vc.FieldValue[*Operation]("post", data, old.Post))))
		vc.Ensure("C08.Delete is decoded", vc.Implies(err == nil, vc.Eq(e.Delete, vc.FieldValue[*Operation]("delete", data, old.Delete))))
		vc.Ensure("C08.Options is decoded", vc.Implies(err == nil, vc.Eq(e.Options, vc.FieldValue[*Operation]("options", data, old.Options))))
		vc.Ensure("C08.Head is decoded", vc.Implies(err == nil, vc.Eq(e.Head, vc.FieldValue[*Operation]("head", data, old.Head))))
		vc.Ensure("C08.Patch is decoded", vc.Implies(err == nil, vc.Eq(e.Patch, vc.FieldValue[*Operation]("patch", data, old.Patch))))
		vc.Ensure("C08.Trace is decoded", vc.Implies(err == nil, vc.Eq(e.Trace, vc.FieldValue[*Operation]("trace", data, old.Trace))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*PathItemOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_PathItemOrReference(e *PathItemOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.PathItem == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[Reference](data) && !vc.Null(data) || ((vc.Decodes[*Reference](data) && !vc.Decodes[*PathItem](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*PathItem](data)))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.PathItem is set for its form", vc.Implies(err == nil, (e.PathItem != nil) == (vc.Decodes[PathItem](data) && !vc.Null(data) && !(vc.Decodes[Reference](data) && !vc.Null(data)))))
		vc.Ensure("C08.PathItem is decoded", vc.Implies(err == nil && e.PathItem != nil, vc.Eq(*e.PathItem, vc.Decoded[PathItem](data))))
	}
}

//vc:func (*Paths).UnmarshalJSON
//vc:props C07 C08
func vcD_Paths(e *Paths, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfPathItemValues == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	left := func(k string) bool {
		return vc.HasKey(data, k)
	}
	some := func(k string) bool { return vc.Matches("^/", k) || vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfPathItemValues is its own", e.MapOfPathItemValues == nil || vc.Fresh(e.MapOfPathItemValues))
		vc.Invariant("C08.MapOfPathItemValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfPathItemValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^/", k))
		}))
		vc.Invariant("C08.MapOfPathItemValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^/", k), vc.Eq(e.MapOfPathItemValues[k], vc.Decoded[PathItem](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfPathItemValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^/", k), vc.Decodes[PathItem](vc.KeyValue(data, k)))
		}))
		vc.Invariant("MapOfAnything is its own", e.MapOfAnything == nil || vc.Fresh(e.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^/", k), vc.Decodes[PathItem](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfPathItemValues are valid", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.MapOfPathItemValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfPathItemValues[k]

			return ok == (left(k) && vc.Matches("^/", k))
		})))
		vc.Ensure("C08.MapOfPathItemValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^/", k), vc.Eq(e.MapOfPathItemValues[k], vc.Decoded[PathItem](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Reference).UnmarshalJSON
//vc:props C07 C08
func vcD_Reference(e *Reference, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalReference](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "$ref")
		vc.Ensure("C07.key $ref is present", vc.Implies(err == nil, c1))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1, err == nil))
		vc.Ensure("C08.Ref is decoded", vc.Implies(err == nil, vc.Eq(e.Ref, vc.FieldValue[string]("$ref", data, old.Ref))))
		vc.Ensure("C08.Summary is decoded", vc.Implies(err == nil, vc.Eq(e.Summary, vc.FieldValue[*string]("summary", data, old.Summary))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
	}
}

//vc:func (*RequestBody).UnmarshalJSON
//vc:props C07 C08
func vcD_RequestBody(e *RequestBody, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "content" && k != "description" && k != "required"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mr marshalRequestBody) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mr.MapOfAnything == nil || vc.Fresh(mr.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mr.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalRequestBody](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "content")
		vc.Ensure("C07.key content is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Required is decoded", vc.Implies(err == nil, vc.Eq(e.Required, vc.FieldValue[*bool]("required", data, old.Required))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*RequestBodyOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_RequestBodyOrReference(e *RequestBodyOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.RequestBody == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*Reference](data) && !vc.Decodes[*RequestBody](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*RequestBody](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.RequestBody is set for its form", vc.Implies(err == nil, (e.RequestBody != nil) == (vc.Decodes[RequestBody](data) && !vc.Null(data))))
		vc.Ensure("C08.RequestBody is decoded", vc.Implies(err == nil && e.RequestBody != nil, vc.Eq(*e.RequestBody, vc.Decoded[RequestBody](data))))
	}
}

//vc:func (*Response).UnmarshalJSON
//vc:props C07 C08
func vcD_Response(e *Response, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "content" && k != "description" && k != "headers" && k != "links"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mr marshalResponse) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mr.MapOfAnything == nil || vc.Fresh(mr.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mr.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalResponse](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "description")
		vc.Ensure("C07.key description is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[string]("description", data, old.Description))))
		vc.Ensure("C08.Headers is decoded", vc.Implies(err == nil, vc.Eq(e.Headers, vc.FieldValue[map[string]HeaderOrReference]("headers", data, old.Headers))))
		vc.Ensure("C08.Content is decoded", vc.Implies(err == nil, vc.Eq(e.Content, vc.FieldValue[map[string]MediaType]("content", data, old.Content))))
		vc.Ensure("C08.Links is decoded", vc.Implies(err == nil, vc.Eq(e.Links, vc.FieldValue[map[string]LinkOrReference]("links", data, old.Links))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ResponseOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_ResponseOrReference(e *ResponseOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.Response == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[Reference](data) && !vc.Null(data) || ((vc.Decodes[*Reference](data) && !vc.Decodes[*Response](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*Response](data)))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.Response is set for its form", vc.Implies(err == nil, (e.Response != nil) == (vc.Decodes[Response](data) && !vc.Null(data) && !(vc.Decodes[Reference](data) && !vc.Null(data)))))
		vc.Ensure("C08.Response is decoded", vc.Implies(err == nil && e.Response != nil, vc.Eq(*e.Response, vc.Decoded[Response](data))))
	}
}

//vc:func (*Responses).UnmarshalJSON
//vc:props C07 C08
func vcD_Responses(e *Responses, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfResponseOrReferenceValues == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "default"
	}
	some := func(k string) bool { return vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k) || vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mr marshalResponses) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfResponseOrReferenceValues is its own", mr.MapOfResponseOrReferenceValues == nil || vc.Fresh(mr.MapOfResponseOrReferenceValues))
		vc.Invariant("C08.MapOfResponseOrReferenceValues has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfResponseOrReferenceValues[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k))
		}))
		vc.Invariant("C08.MapOfResponseOrReferenceValues has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k), vc.Eq(mr.MapOfResponseOrReferenceValues[k], vc.Decoded[ResponseOrReference](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfResponseOrReferenceValues decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k), vc.Decodes[ResponseOrReference](vc.KeyValue(data, k)))
		}))
		vc.Invariant("MapOfAnything is its own", mr.MapOfAnything == nil || vc.Fresh(mr.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mr.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mr.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalResponses](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k), vc.Decodes[ResponseOrReference](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfResponseOrReferenceValues are valid", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Default is decoded", vc.Implies(err == nil, vc.Eq(e.Default, vc.FieldValue[*ResponseOrReference]("default", data, old.Default))))
		vc.Ensure("C08.MapOfResponseOrReferenceValues has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfResponseOrReferenceValues[k]

			return ok == (left(k) && vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k))
		})))
		vc.Ensure("C08.MapOfResponseOrReferenceValues has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^[1-5](?:[0-9]{2}|XX)$", k), vc.Eq(e.MapOfResponseOrReferenceValues[k], vc.Decoded[ResponseOrReference](vc.KeyValue(data, k))))
		})))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*SecurityScheme).UnmarshalJSON
//vc:props C07 C08
func vcD_SecurityScheme(e *SecurityScheme, data []byte) func(error) {
	vc.Requires("the target is new", e.APIKey == nil)
	vc.Requires("the target is new", e.HTTP == nil)
	vc.Requires("the target is new", e.HTTPBearer == nil)
	vc.Requires("the target is new", e.Oauth2 == nil)
	vc.Requires("the target is new", e.Oidc == nil)
	vc.Requires("the target is new", e.MutualTLS == nil)
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalSecurityScheme) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecurityScheme](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := (vc.Decodes[*SecuritySchemeAPIKey](data) && !vc.Decodes[*SecuritySchemeHTTP](data) && !vc.Decodes[*SecuritySchemeHTTPBearer](data) && !vc.Decodes[*SecuritySchemeOauth2](data) && !vc.Decodes[*SecuritySchemeOidc](data) && !vc.Decodes[*MutualTLS](data)) ||
			(!vc.Decodes[*SecuritySchemeAPIKey](data) && vc.Decodes[*SecuritySchemeHTTP](data) && !vc.Decodes[*SecuritySchemeHTTPBearer](data) && !vc.Decodes[*SecuritySchemeOauth2](data) && !vc.Decodes[*SecuritySchemeOidc](data) && !vc.Decodes[*MutualTLS](data)) ||
			(!vc.Decodes[*SecuritySchemeAPIKey](data) && !vc.Decodes[*SecuritySchemeHTTP](data) && vc.Decodes[*SecuritySchemeHTTPBearer](data) && !vc.Decodes[*SecuritySchemeOauth2](data) && !vc.Decodes[*SecuritySchemeOidc](data) && !vc.Decodes[*MutualTLS](data)) ||
			(!vc.Decodes[*SecuritySchemeAPIKey](data) && !vc.Decodes[*SecuritySchemeHTTP](data) && !vc.Decodes[*SecuritySchemeHTTPBearer](data) && vc.Decodes[*SecuritySchemeOauth2](data) && !vc.Decodes[*SecuritySchemeOidc](data) && !vc.Decodes[*MutualTLS](data)) ||
			(!vc.Decodes[*SecuritySchemeAPIKey](data) && !vc.Decodes[*SecuritySchemeHTTP](data) && !vc.Decodes[*SecuritySchemeHTTPBearer](data) && !vc.Decodes[*SecuritySchemeOauth2](data) && vc.Decodes[*SecuritySchemeOidc](data) && !vc.Decodes[*MutualTLS](data)) ||
			(!vc.Decodes[*SecuritySchemeAPIKey](data) && !vc.Decodes[*SecuritySchemeHTTP](data) && !vc.Decodes[*SecuritySchemeHTTPBearer](data) && !vc.Decodes[*SecuritySchemeOauth2](data) && !vc.Decodes[*SecuritySchemeOidc](data) && vc.Decodes[*MutualTLS](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.APIKey is set for its form", vc.Implies(err == nil, (e.APIKey != nil) == (vc.Decodes[SecuritySchemeAPIKey](data) && !vc.Null(data))))
		vc.Ensure("C08.APIKey is decoded", vc.Implies(err == nil && e.APIKey != nil, vc.Eq(*e.APIKey, vc.Decoded[SecuritySchemeAPIKey](data))))
		vc.Ensure("C08.HTTP is set for its form", vc.Implies(err == nil, (e.HTTP != nil) == (vc.Decodes[SecuritySchemeHTTP](data) && !vc.Null(data))))
		vc.Ensure("C08.HTTP is decoded", vc.Implies(err == nil && e.HTTP != nil, vc.Eq(*e.HTTP, vc.Decoded[SecuritySchemeHTTP](data))))
		vc.Ensure("C08.HTTPBearer is set for its form", vc.Implies(err == nil, (e.HTTPBearer != nil) == (vc.Decodes[SecuritySchemeHTTPBearer](data) && !vc.Null(data))))
		vc.Ensure("C08.HTTPBearer is decoded", vc.Implies(err == nil && e.HTTPBearer != nil, vc.Eq(*e.HTTPBearer, vc.Decoded[SecuritySchemeHTTPBearer](data))))
		vc.Ensure("C08.Oauth2 is set for its form", vc.Implies(err == nil, (e.Oauth2 != nil) == (vc.Decodes[SecuritySchemeOauth2](data) && !vc.Null(data))))
		vc.Ensure("C08.Oauth2 is decoded", vc.Implies(err == nil && e.Oauth2 != nil, vc.Eq(*e.Oauth2, vc.Decoded[SecuritySchemeOauth2](data))))
		vc.Ensure("C08.Oidc is set for its form", vc.Implies(err == nil, (e.Oidc != nil) == (vc.Decodes[SecuritySchemeOidc](data) && !vc.Null(data))))
		vc.Ensure("C08.Oidc is decoded", vc.Implies(err == nil && e.Oidc != nil, vc.Eq(*e.Oidc, vc.Decoded[SecuritySchemeOidc](data))))
		vc.Ensure("C08.MutualTLS is set for its form", vc.Implies(err == nil, (e.MutualTLS != nil) == (vc.Decodes[MutualTLS](data) && !vc.Null(data))))
		vc.Ensure("C08.MutualTLS is decoded", vc.Implies(err == nil && e.MutualTLS != nil, vc.Eq(*e.MutualTLS, vc.Decoded[MutualTLS](data))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*SecuritySchemeAPIKey).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeAPIKey(e *SecuritySchemeAPIKey, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecuritySchemeAPIKey](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c2))
		c3 := vc.HasKey(data, "in")
		vc.Ensure("C07.key in is present", vc.Implies(err == nil, c3))
		c4 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"apiKey\"")
		vc.Ensure("C07.type is apiKey", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.In is decoded", vc.Implies(err == nil, vc.Eq(e.In, vc.FieldValue[SecuritySchemeAPIKeyIn]("in", data, old.In))))
	}
}

//vc:func (*SecuritySchemeHTTP).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeHTTP(e *SecuritySchemeHTTP, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecuritySchemeHTTP](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := strings.ToLower(vc.FieldValue[string]("scheme", data, old.Scheme)) != "bearer"
		vc.Ensure("C07.scheme is not bearer", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c2))
		c3 := vc.HasKey(data, "scheme")
		vc.Ensure("C07.key scheme is present", vc.Implies(err == nil, c3))
		c4 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"http\"")
		vc.Ensure("C07.type is http", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.Scheme is decoded", vc.Implies(err == nil, vc.Eq(e.Scheme, vc.FieldValue[string]("scheme", data, old.Scheme))))
	}
}

//vc:func (*SecuritySchemeHTTPBearer).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeHTTPBearer(e *SecuritySchemeHTTPBearer, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecuritySchemeHTTPBearer](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := strings.ToLower(vc.FieldValue[string]("scheme", data, old.Scheme)) == "bearer"
		vc.Ensure("C07.scheme is bearer", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c2))
		c3 := vc.HasKey(data, "scheme")
		vc.Ensure("C07.key scheme is present", vc.Implies(err == nil, c3))
		c4 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"http\"")
		vc.Ensure("C07.type is http", vc.Implies(err == nil, c4))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3 && c4, err == nil))
		vc.Ensure("C08.Scheme is decoded", vc.Implies(err == nil, vc.Eq(e.Scheme, vc.FieldValue[string]("scheme", data, old.Scheme))))
		vc.Ensure("C08.BearerFormat is decoded", vc.Implies(err == nil, vc.Eq(e.BearerFormat, vc.FieldValue[*string]("bearerFormat", data, old.BearerFormat))))
	}
}

//vc:func (*SecuritySchemeOauth2).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeOauth2(e *SecuritySchemeOauth2, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecuritySchemeOauth2](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "flows")
		vc.Ensure("C07.key flows is present", vc.Implies(err == nil, c2))
		c3 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"oauth2\"")
		vc.Ensure("C07.type is oauth2", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Flows is decoded", vc.Implies(err == nil, vc.Eq(e.Flows, vc.FieldValue[OauthFlows]("flows", data, old.Flows))))
	}
}

//vc:func (*SecuritySchemeOidc).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeOidc(e *SecuritySchemeOidc, data []byte) func(error) {
	old := *e
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSecuritySchemeOidc](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "type")
		vc.Ensure("C07.key type is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "openIdConnectUrl")
		vc.Ensure("C07.key openIdConnectUrl is present", vc.Implies(err == nil, c2))
		c3 := vc.Implies(vc.HasKey(data, "type"), vc.KeyText(data, "type") == "\"openIdConnect\"")
		vc.Ensure("C07.type is openIdConnect", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.OpenIDConnectURL is decoded", vc.Implies(err == nil, vc.Eq(e.OpenIDConnectURL, vc.FieldValue[string]("openIdConnectUrl", data, old.OpenIDConnectURL))))
	}
}

//vc:func (*SecuritySchemeOrReference).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeOrReference(e *SecuritySchemeOrReference, data []byte) func(error) {
	vc.Requires("the target is new", e.Reference == nil)
	vc.Requires("the target is new", e.SecurityScheme == nil)
	vc.Modifies(e)

	return func(err error) {
		c0 := (vc.Decodes[*Reference](data) && !vc.Decodes[*SecurityScheme](data)) ||
			(!vc.Decodes[*Reference](data) && vc.Decodes[*SecurityScheme](data))
		vc.Ensure("C07.exactly one alternative is valid", vc.Implies(err == nil, c0))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0, err == nil))
		vc.Ensure("C08.Reference is set for its form", vc.Implies(err == nil, (e.Reference != nil) == (vc.Decodes[Reference](data) && !vc.Null(data))))
		vc.Ensure("C08.Reference is decoded", vc.Implies(err == nil && e.Reference != nil, vc.Eq(*e.Reference, vc.Decoded[Reference](data))))
		vc.Ensure("C08.SecurityScheme is set for its form", vc.Implies(err == nil, (e.SecurityScheme != nil) == (vc.Decodes[SecurityScheme](data) && !vc.Null(data))))
		vc.Ensure("C08.SecurityScheme is decoded", vc.Implies(err == nil && e.SecurityScheme != nil, vc.Eq(*e.SecurityScheme, vc.Decoded[SecurityScheme](data))))
	}
}

//vc:func (*Server).UnmarshalJSON
//vc:props C07 C08
func vcD_Server(e *Server, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "url" && k != "variables"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalServer) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalServer](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "url")
		vc.Ensure("C07.key url is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.URL is decoded", vc.Implies(err == nil, vc.Eq(e.URL, vc.FieldValue[string]("url", data, old.URL))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.Variables is decoded", vc.Implies(err == nil, vc.Eq(e.Variables, vc.FieldValue[map[string]ServerVariable]("variables", data, old.Variables))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*ServerVariable).UnmarshalJSON
//vc:props C07 C08
func vcD_ServerVariable(e *ServerVariable, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "default" && k != "description" && k != "enum"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalServerVariable) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalServerVariable](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "default")
		vc.Ensure("C07.key default is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Enum is decoded", vc.Implies(err == nil, vc.Eq(e.Enum, vc.FieldValue[[]string]("enum", data, old.Enum))))
		vc.Ensure("C08.Default is decoded", vc.Implies(err == nil, vc.Eq(e.Default, vc.FieldValue[string]("default", data, old.Default))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Spec).UnmarshalJSON
//vc:props C07 C08
func vcD_Spec(e *Spec, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "components" && k != "externalDocs" && k != "info" && k != "jsonSchemaDialect" && k != "openapi" && k != "paths" && k != "security" && k != "servers" && k != "tags" && k != "webhooks"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, ms marshalSpec) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", ms.MapOfAnything == nil || vc.Fresh(ms.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := ms.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(ms.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalSpec](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "openapi")
		vc.Ensure("C07.key openapi is present", vc.Implies(err == nil, c1))
		c2 := vc.HasKey(data, "info")
		vc.Ensure("C07.key info is present", vc.Implies(err == nil, c2))
		c3 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c3))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2 && c3, err == nil))
		vc.Ensure("C08.Openapi is decoded", vc.Implies(err == nil, vc.Eq(e.Openapi, vc.FieldValue[string]("openapi", data, old.Openapi))))
		vc.Ensure("C08.Info is decoded", vc.Implies(err == nil, vc.Eq(e.Info, vc.FieldValue[Info]("info", data, old.Info))))
		vc.Ensure("C08.JSONSchemaDialect is decoded", vc.Implies(err == nil, vc.Eq(e.JSONSchemaDialect, vc.FieldValue[*string]("jsonSchemaDialect", data, old.JSONSchemaDialect))))
		vc.Ensure("C08.Servers is decoded", vc.Implies(err == nil, vc.Eq(e.Servers, vc.FieldValue[[]Server]("servers", data, old.Servers))))
		vc.Ensure("C08.Paths is decoded", vc.Implies(err == nil, vc.Eq(e.Paths, vc.FieldValue[*Paths]("paths", data, old.Paths))))
		vc.Ensure("C08.Webhooks is decoded", vc.Implies(err == nil, vc.Eq(e.Webhooks, vc.FieldValue[map[string]PathItemOrReference]("webhooks", data, old.Webhooks))))
		vc.Ensure("C08.Components is decoded", vc.Implies(err == nil, vc.Eq(e.Components, vc.FieldValue[*Components]("components", data, old.Components))))
		vc.Ensure("C08.Security is decoded", vc.Implies(err == nil, vc.Eq(e.Security, vc.FieldValue[[]map[string][]string]("security", data, old.Security))))
		vc.Ensure("C08.Tags is decoded", vc.Implies(err == nil, vc.Eq(e.Tags, vc.FieldValue[[]Tag]("tags", data, old.Tags))))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (*Tag).UnmarshalJSON
//vc:props C07 C08
func vcD_Tag(e *Tag, data []byte) func(error) {
	vc.Requires("the target is new", e.MapOfAnything == nil)
	old := *e
	left := func(k string) bool {
		return vc.HasKey(data, k) && k != "description" && k != "externalDocs" && k != "name"
	}
	some := func(k string) bool { return vc.Matches("^x-", k) }
	vc.Loop("rawMap", func(vis vc.Visited[string], rawMap map[string]json.RawMessage, mt marshalTag) {
		vc.Invariant("rest is of the object", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(ok, left(k))
		}))
		vc.Invariant("seen keys are of the object", vc.Forall(func(k string) bool { return vc.Implies(vis.Has(k), left(k)) }))
		vc.Invariant("removed keys were seen and matched", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(left(k) && !ok, vis.Has(k) && some(k))
		}))
		vc.Invariant("matched keys are removed", vc.Forall(func(k string) bool {
			_, ok := rawMap[k]

			return vc.Implies(vis.Has(k) && some(k), !ok)
		}))
		vc.Invariant("MapOfAnything is its own", mt.MapOfAnything == nil || vc.Fresh(mt.MapOfAnything))
		vc.Invariant("C08.MapOfAnything has the matched keys", vc.Forall(func(k string) bool {
			_, ok := mt.MapOfAnything[k]

			return ok == (vis.Has(k) && left(k) && vc.Matches("^x-", k))
		}))
		vc.Invariant("C08.MapOfAnything has the decoded values", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Eq(mt.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		}))
		vc.Invariant("values of MapOfAnything decode", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k) && left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		}))
	})
	vc.Modifies(e)

	return func(err error) {
		c0 := vc.Decodes[marshalTag](data)
		vc.Ensure("C07.fields are decodable", vc.Implies(err == nil, c0))
		c1 := vc.HasKey(data, "name")
		vc.Ensure("C07.key name is present", vc.Implies(err == nil, c1))
		c2 := vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Decodes[interface{}](vc.KeyValue(data, k)))
		})
		vc.Ensure("C07.values of MapOfAnything are valid", vc.Implies(err == nil, c2))
		vc.Ensure("C08.accepts what is valid", vc.Implies(c0 && c1 && c2, err == nil))
		vc.Ensure("C08.Name is decoded", vc.Implies(err == nil, vc.Eq(e.Name, vc.FieldValue[string]("name", data, old.Name))))
		vc.Ensure("C08.Description is decoded", vc.Implies(err == nil, vc.Eq(e.Description, vc.FieldValue[*string]("description", data, old.Description))))
		vc.Ensure("C08.ExternalDocs is decoded", vc.Implies(err == nil, vc.Eq(e.ExternalDocs, vc.FieldValue[*ExternalDocumentation]("externalDocs", data, old.ExternalDocs))))
		vc.Ensure("C08.MapOfAnything has the matching keys", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			_, ok := e.MapOfAnything[k]

			return ok == (left(k) && vc.Matches("^x-", k))
		})))
		vc.Ensure("C08.MapOfAnything has the decoded values", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			return vc.Implies(left(k) && vc.Matches("^x-", k), vc.Eq(e.MapOfAnything[k], vc.Decoded[interface{}](vc.KeyValue(data, k))))
		})))
	}
}

//vc:func (Spec).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Spec(e Spec) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalSpec(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalSpec(e), e.MapOfAnything)))
	}
}

//vc:func (Info).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Info(e Info) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalInfo(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalInfo(e), e.MapOfAnything)))
	}
}

//vc:func (Contact).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Contact(e Contact) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalContact(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalContact(e), e.MapOfAnything)))
	}
}

//vc:func (License).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_License(e License) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalLicense(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalLicense(e), e.MapOfAnything)))
	}
}

//vc:func (Server).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Server(e Server) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalServer(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalServer(e), e.MapOfAnything)))
	}
}

//vc:func (ServerVariable).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ServerVariable(e ServerVariable) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalServerVariable(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalServerVariable(e), e.MapOfAnything)))
	}
}

//vc:func (PathItem).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_PathItem(e PathItem) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalPathItem(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalPathItem(e), e.MapOfAnything)))
	}
}

//vc:func (Parameter).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Parameter(e Parameter) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalParameter(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalParameter(e), e.MapOfAnything)))
	}
}

//vc:func (MediaType).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_MediaType(e MediaType) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalMediaType(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalMediaType(e), e.MapOfAnything)))
	}
}

//vc:func (Header).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Header(e Header) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", json.RawMessage(`{"style":"simple"}`), marshalHeader(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, json.RawMessage(`{"style":"simple"}`), marshalHeader(e), e.MapOfAnything)))
	}
}

//vc:func (Example).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Example(e Example) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalExample(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalExample(e), e.MapOfAnything)))
	}
}

//vc:func (ExampleOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ExampleOrReference(e ExampleOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.Example))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.Example)))
	}
}

//vc:func (HeaderOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_HeaderOrReference(e HeaderOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.Header))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.Header)))
	}
}

//vc:func (EncodingAllOf0).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_EncodingAllOf0(e EncodingAllOf0) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, e.MapOfAnything)))
	}
}

//vc:func (ParameterOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ParameterOrReference(e ParameterOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.Parameter))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.Parameter)))
	}
}

//vc:func (Operation).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Operation(e Operation) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOperation(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOperation(e), e.MapOfAnything)))
	}
}

//vc:func (ExternalDocumentation).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ExternalDocumentation(e ExternalDocumentation) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalExternalDocumentation(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalExternalDocumentation(e), e.MapOfAnything)))
	}
}

//vc:func (RequestBody).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_RequestBody(e RequestBody) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalRequestBody(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalRequestBody(e), e.MapOfAnything)))
	}
}

//vc:func (RequestBodyOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_RequestBodyOrReference(e RequestBodyOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.RequestBody))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.RequestBody)))
	}
}

//vc:func (Responses).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Responses(e Responses) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails3", marshalResponses(e), e.MapOfResponseOrReferenceValues, e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union3", r, marshalResponses(e), e.MapOfResponseOrReferenceValues, e.MapOfAnything)))
	}
}

//vc:func (Response).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Response(e Response) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalResponse(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalResponse(e), e.MapOfAnything)))
	}
}

//vc:func (Link).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Link(e Link) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalLink(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalLink(e), e.MapOfAnything)))
	}
}

//vc:func (LinkOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_LinkOrReference(e LinkOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.Link))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.Link)))
	}
}

//vc:func (ResponseOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_ResponseOrReference(e ResponseOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.Response))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.Response)))
	}
}

//vc:func (Callbacks).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Callbacks(e Callbacks) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.MapOfAnything, e.AdditionalProperties))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.MapOfAnything, e.AdditionalProperties)))
	}
}

//vc:func (PathItemOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_PathItemOrReference(e PathItemOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.PathItem))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.PathItem)))
	}
}

//vc:func (CallbacksOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_CallbacksOrReference(e CallbacksOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.Callbacks))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.Callbacks)))
	}
}

//vc:func (Paths).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Paths(e Paths) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.MapOfPathItemValues, e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.MapOfPathItemValues, e.MapOfAnything)))
	}
}

//vc:func (SecurityScheme).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecurityScheme(e SecurityScheme) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails8", marshalSecurityScheme(e), e.MapOfAnything, e.APIKey, e.HTTP, e.HTTPBearer, e.Oauth2, e.Oidc, e.MutualTLS))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union8", r, marshalSecurityScheme(e), e.MapOfAnything, e.APIKey, e.HTTP, e.HTTPBearer, e.Oauth2, e.Oidc, e.MutualTLS)))
	}
}

//vc:func (SecuritySchemeAPIKey).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeAPIKey(e SecuritySchemeAPIKey) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"type":"apiKey"}`), marshalSecuritySchemeAPIKey(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"type":"apiKey"}`), marshalSecuritySchemeAPIKey(e))))
	}
}

//vc:func (SecuritySchemeHTTP).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeHTTP(e SecuritySchemeHTTP) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"type":"http"}`), marshalSecuritySchemeHTTP(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"type":"http"}`), marshalSecuritySchemeHTTP(e))))
	}
}

//vc:func (SecuritySchemeHTTPBearer).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeHTTPBearer(e SecuritySchemeHTTPBearer) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"type":"http"}`), marshalSecuritySchemeHTTPBearer(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"type":"http"}`), marshalSecuritySchemeHTTPBearer(e))))
	}
}

//vc:func (SecuritySchemeOauth2).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeOauth2(e SecuritySchemeOauth2) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"type":"oauth2"}`), marshalSecuritySchemeOauth2(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"type":"oauth2"}`), marshalSecuritySchemeOauth2(e))))
	}
}

//vc:func (OauthFlows).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OauthFlows(e OauthFlows) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOauthFlows(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOauthFlows(e), e.MapOfAnything)))
	}
}

//vc:func (OauthFlowsDefsImplicit).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OauthFlowsDefsImplicit(e OauthFlowsDefsImplicit) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOauthFlowsDefsImplicit(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOauthFlowsDefsImplicit(e), e.MapOfAnything)))
	}
}

//vc:func (OauthFlowsDefsPassword).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OauthFlowsDefsPassword(e OauthFlowsDefsPassword) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOauthFlowsDefsPassword(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOauthFlowsDefsPassword(e), e.MapOfAnything)))
	}
}

//vc:func (OauthFlowsDefsClientCredentials).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OauthFlowsDefsClientCredentials(e OauthFlowsDefsClientCredentials) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOauthFlowsDefsClientCredentials(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOauthFlowsDefsClientCredentials(e), e.MapOfAnything)))
	}
}

//vc:func (OauthFlowsDefsAuthorizationCode).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_OauthFlowsDefsAuthorizationCode(e OauthFlowsDefsAuthorizationCode) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalOauthFlowsDefsAuthorizationCode(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalOauthFlowsDefsAuthorizationCode(e), e.MapOfAnything)))
	}
}

//vc:func (SecuritySchemeOidc).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeOidc(e SecuritySchemeOidc) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", json.RawMessage(`{"type":"openIdConnect"}`), marshalSecuritySchemeOidc(e)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, json.RawMessage(`{"type":"openIdConnect"}`), marshalSecuritySchemeOidc(e))))
	}
}

//vc:func (MutualTLS).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_MutualTLS(e MutualTLS) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails1", json.RawMessage(`{"type":"mutualTLS"}`)))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union1", r, json.RawMessage(`{"type":"mutualTLS"}`))))
	}
}

//vc:func (SecuritySchemeOrReference).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_SecuritySchemeOrReference(e SecuritySchemeOrReference) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", e.Reference, e.SecurityScheme))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, e.Reference, e.SecurityScheme)))
	}
}

//vc:func (Tag).MarshalJSON
//vc:props C08
//vc:abstract marshalUnion
func vcE_Tag(e Tag) func([]byte, error) {
	return func(r []byte, err error) {
		vc.Ensure("C08.fails only if the members cannot be merged", (err == nil) == !vc.Rel("unionFails2", marshalTag(e), e.MapOfAnything))
		vc.Ensure("C08.members are merged", vc.Implies(err == nil, vc.Rel("union2", r, marshalTag(e), e.MapOfAnything)))
	}
}

//vc:func marshalUnion
//vc:props C08
func vcE_marshalUnion(maps ...interface{}) func([]byte, error) {
	fails := func(i int) bool { return vc.Rel("encodeFails", maps[i]) }
	size := func(i int) int { return vc.RelInt("encLen", maps[i]) }
	at := func(i, t int) byte { return vc.RelOf[byte]("encAt", maps[i], t) }
	skip := func(i int) bool {
		return vc.RelStr("encText", maps[i]) == "{}" || vc.RelStr("encText", maps[i]) == "null"
	}
	object := func(i int) bool { return at(i, 0) == '{' }
	off := func(i int) int { return vc.RelInt("unionOff", maps, i) }

	// where the members of an operand start in the result: a definition
	vc.Define(off(0) == 1)
	vc.Define(vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i, off(i+1) == off(i)+vc.If(skip(i), 0, size(i)-1))
	}))
	vc.Loop("maps", func(n vc.Done, result []byte, isObject bool) {
		k := int(n)
		vc.Invariant("result is its own", vc.Fresh(result) && len(result) >= 1)
		vc.Invariant("operands so far can be encoded", vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < k, !fails(i) && size(i) >= 1) }))
		vc.Invariant("offsets grow", vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i <= k, 1 <= off(i) && off(i) <= off(k)) }))
		vc.Invariant("length", vc.Implies(isObject, len(result) == off(k)))
		vc.Invariant("brace", vc.Implies(isObject, result[0] == '{' && (len(result) == 1 || result[len(result)-1] == '}')))
		vc.Invariant("only objects", vc.Implies(isObject, vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < k && !skip(i), object(i) && size(i) >= 2) })))
		vc.Invariant("not only objects", vc.Implies(!isObject, vc.Exists(func(i int) bool { return 0 <= i && i < k && !skip(i) && !object(i) })))
		vc.Invariant("members", vc.Implies(isObject, vc.Forall(func(i, t int) bool {
			return vc.Implies(0 <= i && i < k && !skip(i) && 1 <= t && t < size(i)-1, result[off(i)-1+t] == at(i, t))
		})))
		vc.Invariant("separators", vc.Implies(isObject, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < k && !skip(i), result[off(i)+size(i)-2] == vc.If[byte](off(i+1) == off(k), '}', ','))
		})))
	})

	return func(r []byte, err error) {
		vc.Produce(vc.Implies(len(maps) == 1, (err == nil) == !vc.Rel("unionFails1", maps[0])))
		vc.Produce(vc.Implies(len(maps) == 1 && err == nil, vc.Rel("union1", r, maps[0])))
		vc.Produce(vc.Implies(len(maps) == 2, (err == nil) == !vc.Rel("unionFails2", maps[0], maps[1])))
		vc.Produce(vc.Implies(len(maps) == 2 && err == nil, vc.Rel("union2", r, maps[0], maps[1])))
		vc.Produce(vc.Implies(len(maps) == 3, (err == nil) == !vc.Rel("unionFails3", maps[0], maps[1], maps[2])))
		vc.Produce(vc.Implies(len(maps) == 3 && err == nil, vc.Rel("union3", r, maps[0], maps[1], maps[2])))
		vc.Produce(vc.Implies(len(maps) == 4, (err == nil) == !vc.Rel("unionFails4", maps[0], maps[1], maps[2], maps[3])))
		vc.Produce(vc.Implies(len(maps) == 4 && err == nil, vc.Rel("union4", r, maps[0], maps[1], maps[2], maps[3])))
		vc.Produce(vc.Implies(len(maps) == 5, (err == nil) == !vc.Rel("unionFails5", maps[0], maps[1], maps[2], maps[3], maps[4])))
		vc.Produce(vc.Implies(len(maps) == 5 && err == nil, vc.Rel("union5", r, maps[0], maps[1], maps[2], maps[3], maps[4])))
		vc.Produce(vc.Implies(len(maps) == 6, (err == nil) == !vc.Rel("unionFails6", maps[0], maps[1], maps[2], maps[3], maps[4], maps[5])))
		vc.Produce(vc.Implies(len(maps) == 6 && err == nil, vc.Rel("union6", r, maps[0], maps[1], maps[2], maps[3], maps[4], maps[5])))
		vc.Produce(vc.Implies(len(maps) == 7, (err == nil) == !vc.Rel("unionFails7", maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6])))
		vc.Produce(vc.Implies(len(maps) == 7 && err == nil, vc.Rel("union7", r, maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6])))
		vc.Produce(vc.Implies(len(maps) == 8, (err == nil) == !vc.Rel("unionFails8", maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6], maps[7])))
		vc.Produce(vc.Implies(len(maps) == 8 && err == nil, vc.Rel("union8", r, maps[0], maps[1], maps[2], maps[3], maps[4], maps[5], maps[6], maps[7])))
		vc.Details()
		ok := vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < len(maps), !fails(i) && (skip(i) || object(i))) })
		vc.Ensure("C08.objects are merged", vc.Implies(ok, err == nil))
		vc.Ensure("C08.nothing gives an empty object", vc.Implies(ok && off(len(maps)) == 1, len(r) == 2 && r[0] == '{' && r[1] == '}'))
		vc.Ensure("C08.result is an object", vc.Implies(ok && off(len(maps)) != 1, len(r) == off(len(maps)) && r[0] == '{' && r[len(r)-1] == '}'))
		vc.Ensure("C08.members are kept", vc.Implies(ok, vc.Forall(func(i, t int) bool {
			return vc.Implies(0 <= i && i < len(maps) && !skip(i) && 1 <= t && t < size(i)-1, r[off(i)-1+t] == at(i, t))
		})))
		vc.Ensure("C08.members are separated", vc.Implies(ok, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < len(maps) && !skip(i), r[off(i)+size(i)-2] == vc.If[byte](off(i+1) == off(len(maps)), '}', ','))
		})))
		vc.Ensure("C08.an operand that cannot be encoded is reported", vc.Implies(vc.Exists(func(i int) bool { return 0 <= i && i < len(maps) && fails(i) }), err != nil))
	}
}

//vc:func (*EncodingStyle).UnmarshalJSON
//vc:props C07 C08
func vcD_EncodingStyle(e *EncodingStyle, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (EncodingStyle).MarshalJSON
//vc:props C07 C08
func vcE_EncodingStyle(v EncodingStyle) func([]byte, error) {
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*ParameterIn).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterIn(e *ParameterIn, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "query" || v == "header" || v == "path" || v == "cookie"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (ParameterIn).MarshalJSON
//vc:props C07 C08
func vcE_ParameterIn(v ParameterIn) func([]byte, error) {
	known := v == "query" || v == "header" || v == "path" || v == "cookie"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*ParameterStyle).UnmarshalJSON
//vc:props C07 C08
func vcD_ParameterStyle(e *ParameterStyle, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (ParameterStyle).MarshalJSON
//vc:props C07 C08
func vcE_ParameterStyle(v ParameterStyle) func([]byte, error) {
	known := v == "form" || v == "spaceDelimited" || v == "pipeDelimited" || v == "deepObject"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

//vc:func (*SecuritySchemeAPIKeyIn).UnmarshalJSON
//vc:props C07 C08
func vcD_SecuritySchemeAPIKeyIn(e *SecuritySchemeAPIKeyIn, data []byte) func(error) {
	v := vc.Decoded[string](data)
	known := v == "query" || v == "header" || v == "cookie"
	vc.Modifies(e)

	return func(err error) {
		vc.Ensure("C07.only known values", vc.Implies(err == nil, vc.Decodes[string](data) && known))
		vc.Ensure("C08.accepts known values", vc.Implies(vc.Decodes[string](data) && known, err == nil))
		vc.Ensure("C08.value is decoded", vc.Implies(err == nil, string(*e) == v))
	}
}

//vc:func (SecuritySchemeAPIKeyIn).MarshalJSON
//vc:props C07 C08
func vcE_SecuritySchemeAPIKeyIn(v SecuritySchemeAPIKeyIn) func([]byte, error) {
	known := v == "query" || v == "header" || v == "cookie"

	return func(r []byte, err error) {
		vc.Ensure("C07.only known values are encoded", vc.Implies(err == nil, known))
		vc.Ensure("C08.known values are encoded", vc.Implies(known, (err == nil) == !vc.Rel("encodeFails", string(v))))
		vc.Ensure("C08.encoded as a string", vc.Implies(err == nil, string(r) == vc.RelStr("encText", string(v))))
	}
}

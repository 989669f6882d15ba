// Code generated by tools/gen_builders.py. DO NOT EDIT.

package openapi31

import (
	"github.com/swaggest/openapi-go/internal/vc"
)

//vc:func (*Spec).WithOpenapi
//vc:props C06
//vc:inline
func vcB_Spec_WithOpenapi(e *Spec, val string) func(*Spec) {
	vc.Modifies(&e.Openapi)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Openapi, val))
	}
}

//vc:func (*Spec).WithInfo
//vc:props C06
//vc:inline
func vcB_Spec_WithInfo(e *Spec, val Info) func(*Spec) {
	vc.Modifies(&e.Info)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Info, val))
	}
}

//vc:func (*Spec).WithJSONSchemaDialect
//vc:props C06
//vc:inline
func vcB_Spec_WithJSONSchemaDialect(e *Spec, val string) func(*Spec) {
	vc.Modifies(&e.JSONSchemaDialect)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.JSONSchemaDialect != nil && vc.Fresh(e.JSONSchemaDialect) && vc.Eq(*e.JSONSchemaDialect, val))
	}
}

//vc:func (*Spec).WithServers
//vc:props C06
//vc:inline
func vcB_Spec_WithServers(e *Spec, val ...Server) func(*Spec) {
	vc.Modifies(&e.Servers)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Servers, val))
	}
}

//vc:func (*Spec).WithPaths
//vc:props C06
//vc:inline
func vcB_Spec_WithPaths(e *Spec, val Paths) func(*Spec) {
	vc.Modifies(&e.Paths)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Paths != nil && vc.Fresh(e.Paths) && vc.Eq(*e.Paths, val))
	}
}

//vc:func (*Spec).PathsEns
//vc:props C06
//vc:inline
func vcB_Spec_PathsEns(e *Spec) func(*Paths) {
	old := e.Paths
	vc.Modifies(&e.Paths)
	var zero Paths

	return func(r *Paths) {
		vc.Ensure("returns the field", r == e.Paths && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Spec).WithWebhooks
//vc:props C06
//vc:inline
func vcB_Spec_WithWebhooks(e *Spec, val map[string]PathItemOrReference) func(*Spec) {
	vc.Modifies(&e.Webhooks)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Webhooks, val))
	}
}

//vc:func (*Spec).WithWebhooksItem
//vc:props C06
//vc:inline
func vcB_Spec_WithWebhooksItem(e *Spec, key string, val PathItemOrReference) func(*Spec) {
	prev := e.Webhooks
	old := vc.Snap(e.Webhooks)
	vc.Modifies(&e.Webhooks, e.Webhooks)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Webhooks[key]
		vc.Ensure("key is set", e.Webhooks != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Webhooks, prev) || vc.Fresh(e.Webhooks))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Webhooks[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Spec).WithComponents
//vc:props C06
//vc:inline
func vcB_Spec_WithComponents(e *Spec, val Components) func(*Spec) {
	vc.Modifies(&e.Components)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Components != nil && vc.Fresh(e.Components) && vc.Eq(*e.Components, val))
	}
}

//vc:func (*Spec).ComponentsEns
//vc:props C06
//vc:inline
func vcB_Spec_ComponentsEns(e *Spec) func(*Components) {
	old := e.Components
	vc.Modifies(&e.Components)
	var zero Components

	return func(r *Components) {
		vc.Ensure("returns the field", r == e.Components && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Spec).WithSecurity
//vc:props C06
//vc:inline
func vcB_Spec_WithSecurity(e *Spec, val ...map[string][]string) func(*Spec) {
	vc.Modifies(&e.Security)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Security, val))
	}
}

//vc:func (*Spec).WithTags
//vc:props C06
//vc:inline
func vcB_Spec_WithTags(e *Spec, val ...Tag) func(*Spec) {
	vc.Modifies(&e.Tags)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Tags, val))
	}
}

//vc:func (*Spec).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Spec_WithExternalDocs(e *Spec, val ExternalDocumentation) func(*Spec) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Spec).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Spec_ExternalDocsEns(e *Spec) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Spec).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Spec_WithMapOfAnything(e *Spec, val map[string]interface{}) func(*Spec) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Spec).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Spec_WithMapOfAnythingItem(e *Spec, key string, val interface{}) func(*Spec) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Info).WithTitle
//vc:props C06
//vc:inline
func vcB_Info_WithTitle(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Title)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Title, val))
	}
}

//vc:func (*Info).WithSummary
//vc:props C06
//vc:inline
func vcB_Info_WithSummary(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Summary)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*Info).WithDescription
//vc:props C06
//vc:inline
func vcB_Info_WithDescription(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Description)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Info).WithTermsOfService
//vc:props C06
//vc:inline
func vcB_Info_WithTermsOfService(e *Info, val string) func(*Info) {
	vc.Modifies(&e.TermsOfService)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.TermsOfService != nil && vc.Fresh(e.TermsOfService) && vc.Eq(*e.TermsOfService, val))
	}
}

//vc:func (*Info).WithContact
//vc:props C06
//vc:inline
func vcB_Info_WithContact(e *Info, val Contact) func(*Info) {
	vc.Modifies(&e.Contact)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Contact != nil && vc.Fresh(e.Contact) && vc.Eq(*e.Contact, val))
	}
}

//vc:func (*Info).ContactEns
//vc:props C06
//vc:inline
func vcB_Info_ContactEns(e *Info) func(*Contact) {
	old := e.Contact
	vc.Modifies(&e.Contact)
	var zero Contact

	return func(r *Contact) {
		vc.Ensure("returns the field", r == e.Contact && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Info).WithLicense
//vc:props C06
//vc:inline
func vcB_Info_WithLicense(e *Info, val License) func(*Info) {
	vc.Modifies(&e.License)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.License != nil && vc.Fresh(e.License) && vc.Eq(*e.License, val))
	}
}

//vc:func (*Info).LicenseEns
//vc:props C06
//vc:inline
func vcB_Info_LicenseEns(e *Info) func(*License) {
	old := e.License
	vc.Modifies(&e.License)
	var zero License

	return func(r *License) {
		vc.Ensure("returns the field", r == e.License && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Info).WithVersion
//vc:props C06
//vc:inline
func vcB_Info_WithVersion(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Version)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Version, val))
	}
}

//vc:func (*Info).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Info_WithMapOfAnything(e *Info, val map[string]interface{}) func(*Info) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Info).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Info_WithMapOfAnythingItem(e *Info, key string, val interface{}) func(*Info) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Contact).WithName
//vc:props C06
//vc:inline
func vcB_Contact_WithName(e *Contact, val string) func(*Contact) {
	vc.Modifies(&e.Name)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Name != nil && vc.Fresh(e.Name) && vc.Eq(*e.Name, val))
	}
}

//vc:func (*Contact).WithURL
//vc:props C06
//vc:inline
func vcB_Contact_WithURL(e *Contact, val string) func(*Contact) {
	vc.Modifies(&e.URL)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.URL != nil && vc.Fresh(e.URL) && vc.Eq(*e.URL, val))
	}
}

//vc:func (*Contact).WithEmail
//vc:props C06
//vc:inline
func vcB_Contact_WithEmail(e *Contact, val string) func(*Contact) {
	vc.Modifies(&e.Email)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Email != nil && vc.Fresh(e.Email) && vc.Eq(*e.Email, val))
	}
}

//vc:func (*Contact).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Contact_WithMapOfAnything(e *Contact, val map[string]interface{}) func(*Contact) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Contact).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Contact_WithMapOfAnythingItem(e *Contact, key string, val interface{}) func(*Contact) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*License).WithName
//vc:props C06
//vc:inline
func vcB_License_WithName(e *License, val string) func(*License) {
	vc.Modifies(&e.Name)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*License).WithIdentifier
//vc:props C06
//vc:inline
func vcB_License_WithIdentifier(e *License, val string) func(*License) {
	vc.Modifies(&e.Identifier)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Identifier != nil && vc.Fresh(e.Identifier) && vc.Eq(*e.Identifier, val))
	}
}

//vc:func (*License).WithURL
//vc:props C06
//vc:inline
func vcB_License_WithURL(e *License, val string) func(*License) {
	vc.Modifies(&e.URL)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.URL != nil && vc.Fresh(e.URL) && vc.Eq(*e.URL, val))
	}
}

//vc:func (*License).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_License_WithMapOfAnything(e *License, val map[string]interface{}) func(*License) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*License).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_License_WithMapOfAnythingItem(e *License, key string, val interface{}) func(*License) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Server).WithURL
//vc:props C06
//vc:inline
func vcB_Server_WithURL(e *Server, val string) func(*Server) {
	vc.Modifies(&e.URL)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.URL, val))
	}
}

//vc:func (*Server).WithDescription
//vc:props C06
//vc:inline
func vcB_Server_WithDescription(e *Server, val string) func(*Server) {
	vc.Modifies(&e.Description)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Server).WithVariables
//vc:props C06
//vc:inline
func vcB_Server_WithVariables(e *Server, val map[string]ServerVariable) func(*Server) {
	vc.Modifies(&e.Variables)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Variables, val))
	}
}

//vc:func (*Server).WithVariablesItem
//vc:props C06
//vc:inline
func vcB_Server_WithVariablesItem(e *Server, key string, val ServerVariable) func(*Server) {
	prev := e.Variables
	old := vc.Snap(e.Variables)
	vc.Modifies(&e.Variables, e.Variables)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Variables[key]
		vc.Ensure("key is set", e.Variables != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Variables, prev) || vc.Fresh(e.Variables))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Variables[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Server).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Server_WithMapOfAnything(e *Server, val map[string]interface{}) func(*Server) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Server).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Server_WithMapOfAnythingItem(e *Server, key string, val interface{}) func(*Server) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ServerVariable).WithEnum
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithEnum(e *ServerVariable, val ...string) func(*ServerVariable) {
	vc.Modifies(&e.Enum)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Enum, val))
	}
}

//vc:func (*ServerVariable).WithDefault
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithDefault(e *ServerVariable, val string) func(*ServerVariable) {
	vc.Modifies(&e.Default)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Default, val))
	}
}

//vc:func (*ServerVariable).WithDescription
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithDescription(e *ServerVariable, val string) func(*ServerVariable) {
	vc.Modifies(&e.Description)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*ServerVariable).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithMapOfAnything(e *ServerVariable, val map[string]interface{}) func(*ServerVariable) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*ServerVariable).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithMapOfAnythingItem(e *ServerVariable, key string, val interface{}) func(*ServerVariable) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*PathItem).WithSummary
//vc:props C06
//vc:inline
func vcB_PathItem_WithSummary(e *PathItem, val string) func(*PathItem) {
	vc.Modifies(&e.Summary)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*PathItem).WithDescription
//vc:props C06
//vc:inline
func vcB_PathItem_WithDescription(e *PathItem, val string) func(*PathItem) {
	vc.Modifies(&e.Description)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*PathItem).WithServers
//vc:props C06
//vc:inline
func vcB_PathItem_WithServers(e *PathItem, val ...Server) func(*PathItem) {
	vc.Modifies(&e.Servers)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Servers, val))
	}
}

//vc:func (*PathItem).WithParameters
//vc:props C06
//vc:inline
func vcB_PathItem_WithParameters(e *PathItem, val ...ParameterOrReference) func(*PathItem) {
	vc.Modifies(&e.Parameters)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*PathItem).WithGet
//vc:props C06
//vc:inline
func vcB_PathItem_WithGet(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Get)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Get != nil && vc.Fresh(e.Get) && vc.Eq(*e.Get, val))
	}
}

//vc:func (*PathItem).GetEns
//vc:props C06
//vc:inline
func vcB_PathItem_GetEns(e *PathItem) func(*Operation) {
	old := e.Get
	vc.Modifies(&e.Get)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Get && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithPut
//vc:props C06
//vc:inline
func vcB_PathItem_WithPut(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Put)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Put != nil && vc.Fresh(e.Put) && vc.Eq(*e.Put, val))
	}
}

//vc:func (*PathItem).PutEns
//vc:props C06
//vc:inline
func vcB_PathItem_PutEns(e *PathItem) func(*Operation) {
	old := e.Put
	vc.Modifies(&e.Put)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Put && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithPost
//vc:props C06
//vc:inline
func vcB_PathItem_WithPost(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Post)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Post != nil && vc.Fresh(e.Post) && vc.Eq(*e.Post, val))
	}
}

//vc:func (*PathItem).PostEns
//vc:props C06
//vc:inline
func vcB_PathItem_PostEns(e *PathItem) func(*Operation) {
	old := e.Post
	vc.Modifies(&e.Post)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Post && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithDelete
//vc:props C06
//vc:inline
func vcB_PathItem_WithDelete(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Delete)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Delete != nil && vc.Fresh(e.Delete) && vc.Eq(*e.Delete, val))
	}
}

//vc:func (*PathItem).DeleteEns
//vc:props C06
//vc:inline
func vcB_PathItem_DeleteEns(e *PathItem) func(*Operation) {
	old := e.Delete
	vc.Modifies(&e.Delete)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Delete && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithOptions
//vc:props C06
//vc:inline
func vcB_PathItem_WithOptions(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Options)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Options != nil && vc.Fresh(e.Options) && vc.Eq(*e.Options, val))
	}
}

//vc:func (*PathItem).OptionsEns
//vc:props C06
//vc:inline
func vcB_PathItem_OptionsEns(e *PathItem) func(*Operation) {
	old := e.Options
	vc.Modifies(&e.Options)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Options && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithHead
//vc:props C06
//vc:inline
func vcB_PathItem_WithHead(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Head)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Head != nil && vc.Fresh(e.Head) && vc.Eq(*e.Head, val))
	}
}

//vc:func (*PathItem).HeadEns
//vc:props C06
//vc:inline
func vcB_PathItem_HeadEns(e *PathItem) func(*Operation) {
	old := e.Head
	vc.Modifies(&e.Head)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Head && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithPatch
//vc:props C06
//vc:inline
func vcB_PathItem_WithPatch(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Patch)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Patch != nil && vc.Fresh(e.Patch) && vc.Eq(*e.Patch, val))
	}
}

//vc:func (*PathItem).PatchEns
//vc:props C06
//vc:inline
func vcB_PathItem_PatchEns(e *PathItem) func(*Operation) {
	old := e.Patch
	vc.Modifies(&e.Patch)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Patch && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithTrace
//vc:props C06
//vc:inline
func vcB_PathItem_WithTrace(e *PathItem, val Operation) func(*PathItem) {
	vc.Modifies(&e.Trace)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Trace != nil && vc.Fresh(e.Trace) && vc.Eq(*e.Trace, val))
	}
}

//vc:func (*PathItem).TraceEns
//vc:props C06
//vc:inline
func vcB_PathItem_TraceEns(e *PathItem) func(*Operation) {
	old := e.Trace
	vc.Modifies(&e.Trace)
	var zero Operation

	return func(r *Operation) {
		vc.Ensure("returns the field", r == e.Trace && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItem).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_PathItem_WithMapOfAnything(e *PathItem, val map[string]interface{}) func(*PathItem) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*PathItem).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_PathItem_WithMapOfAnythingItem(e *PathItem, key string, val interface{}) func(*PathItem) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Reference).WithRef
//vc:props C06
//vc:inline
func vcB_Reference_WithRef(e *Reference, val string) func(*Reference) {
	vc.Modifies(&e.Ref)

	return func(r *Reference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*Reference).WithSummary
//vc:props C06
//vc:inline
func vcB_Reference_WithSummary(e *Reference, val string) func(*Reference) {
	vc.Modifies(&e.Summary)

	return func(r *Reference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*Reference).WithDescription
//vc:props C06
//vc:inline
func vcB_Reference_WithDescription(e *Reference, val string) func(*Reference) {
	vc.Modifies(&e.Description)

	return func(r *Reference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Parameter).WithName
//vc:props C06
//vc:inline
func vcB_Parameter_WithName(e *Parameter, val string) func(*Parameter) {
	vc.Modifies(&e.Name)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*Parameter).WithIn
//vc:props C06
//vc:inline
func vcB_Parameter_WithIn(e *Parameter, val ParameterIn) func(*Parameter) {
	vc.Modifies(&e.In)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.In, val))
	}
}

//vc:func (*Parameter).WithDescription
//vc:props C06
//vc:inline
func vcB_Parameter_WithDescription(e *Parameter, val string) func(*Parameter) {
	vc.Modifies(&e.Description)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Parameter).WithRequired
//vc:props C06
//vc:inline
func vcB_Parameter_WithRequired(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.Required)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Required != nil && vc.Fresh(e.Required) && vc.Eq(*e.Required, val))
	}
}

//vc:func (*Parameter).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Parameter_WithDeprecated(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.Deprecated)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Parameter).WithSchema
//vc:props C06
//vc:inline
func vcB_Parameter_WithSchema(e *Parameter, val map[string]interface{}) func(*Parameter) {
	vc.Modifies(&e.Schema)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Schema, val))
	}
}

//vc:func (*Parameter).WithSchemaItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithSchemaItem(e *Parameter, key string, val interface{}) func(*Parameter) {
	prev := e.Schema
	old := vc.Snap(e.Schema)
	vc.Modifies(&e.Schema, e.Schema)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Schema[key]
		vc.Ensure("key is set", e.Schema != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Schema, prev) || vc.Fresh(e.Schema))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Schema[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Parameter).WithContent
//vc:props C06
//vc:inline
func vcB_Parameter_WithContent(e *Parameter, val map[string]MediaType) func(*Parameter) {
	vc.Modifies(&e.Content)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*Parameter).WithContentItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithContentItem(e *Parameter, key string, val MediaType) func(*Parameter) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Parameter).WithStyle
//vc:props C06
//vc:inline
func vcB_Parameter_WithStyle(e *Parameter, val ParameterStyle) func(*Parameter) {
	vc.Modifies(&e.Style)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Style != nil && vc.Fresh(e.Style) && vc.Eq(*e.Style, val))
	}
}

//vc:func (*Parameter).WithExplode
//vc:props C06
//vc:inline
func vcB_Parameter_WithExplode(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.Explode)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Explode != nil && vc.Fresh(e.Explode) && vc.Eq(*e.Explode, val))
	}
}

//vc:func (*Parameter).WithExample
//vc:props C06
//vc:inline
func vcB_Parameter_WithExample(e *Parameter, val interface{}) func(*Parameter) {
	vc.Modifies(&e.Example)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*Parameter).WithExamples
//vc:props C06
//vc:inline
func vcB_Parameter_WithExamples(e *Parameter, val map[string]ExampleOrReference) func(*Parameter) {
	vc.Modifies(&e.Examples)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*Parameter).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithExamplesItem(e *Parameter, key string, val ExampleOrReference) func(*Parameter) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Parameter).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Parameter_WithMapOfAnything(e *Parameter, val map[string]interface{}) func(*Parameter) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Parameter).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithMapOfAnythingItem(e *Parameter, key string, val interface{}) func(*Parameter) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithSchema
//vc:props C06
//vc:inline
func vcB_MediaType_WithSchema(e *MediaType, val map[string]interface{}) func(*MediaType) {
	vc.Modifies(&e.Schema)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Schema, val))
	}
}

//vc:func (*MediaType).WithSchemaItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithSchemaItem(e *MediaType, key string, val interface{}) func(*MediaType) {
	prev := e.Schema
	old := vc.Snap(e.Schema)
	vc.Modifies(&e.Schema, e.Schema)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Schema[key]
		vc.Ensure("key is set", e.Schema != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Schema, prev) || vc.Fresh(e.Schema))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Schema[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithEncoding
//vc:props C06
//vc:inline
func vcB_MediaType_WithEncoding(e *MediaType, val map[string]Encoding) func(*MediaType) {
	vc.Modifies(&e.Encoding)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Encoding, val))
	}
}

//vc:func (*MediaType).WithEncodingItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithEncodingItem(e *MediaType, key string, val Encoding) func(*MediaType) {
	prev := e.Encoding
	old := vc.Snap(e.Encoding)
	vc.Modifies(&e.Encoding, e.Encoding)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Encoding[key]
		vc.Ensure("key is set", e.Encoding != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Encoding, prev) || vc.Fresh(e.Encoding))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Encoding[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithExample
//vc:props C06
//vc:inline
func vcB_MediaType_WithExample(e *MediaType, val interface{}) func(*MediaType) {
	vc.Modifies(&e.Example)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*MediaType).WithExamples
//vc:props C06
//vc:inline
func vcB_MediaType_WithExamples(e *MediaType, val map[string]ExampleOrReference) func(*MediaType) {
	vc.Modifies(&e.Examples)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*MediaType).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithExamplesItem(e *MediaType, key string, val ExampleOrReference) func(*MediaType) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_MediaType_WithMapOfAnything(e *MediaType, val map[string]interface{}) func(*MediaType) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*MediaType).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithMapOfAnythingItem(e *MediaType, key string, val interface{}) func(*MediaType) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Encoding).WithContentType
//vc:props C06
//vc:inline
func vcB_Encoding_WithContentType(e *Encoding, val string) func(*Encoding) {
	vc.Modifies(&e.ContentType)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ContentType != nil && vc.Fresh(e.ContentType) && vc.Eq(*e.ContentType, val))
	}
}

//vc:func (*Encoding).WithHeaders
//vc:props C06
//vc:inline
func vcB_Encoding_WithHeaders(e *Encoding, val map[string]HeaderOrReference) func(*Encoding) {
	vc.Modifies(&e.Headers)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Headers, val))
	}
}

//vc:func (*Encoding).WithHeadersItem
//vc:props C06
//vc:inline
func vcB_Encoding_WithHeadersItem(e *Encoding, key string, val HeaderOrReference) func(*Encoding) {
	prev := e.Headers
	old := vc.Snap(e.Headers)
	vc.Modifies(&e.Headers, e.Headers)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Headers[key]
		vc.Ensure("key is set", e.Headers != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Headers, prev) || vc.Fresh(e.Headers))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Headers[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Encoding).WithStyle
//vc:props C06
//vc:inline
func vcB_Encoding_WithStyle(e *Encoding, val EncodingStyle) func(*Encoding) {
	vc.Modifies(&e.Style)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Style != nil && vc.Fresh(e.Style) && vc.Eq(*e.Style, val))
	}
}

//vc:func (*Encoding).WithExplode
//vc:props C06
//vc:inline
func vcB_Encoding_WithExplode(e *Encoding, val bool) func(*Encoding) {
	vc.Modifies(&e.Explode)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Explode != nil && vc.Fresh(e.Explode) && vc.Eq(*e.Explode, val))
	}
}

//vc:func (*Encoding).WithAllowReserved
//vc:props C06
//vc:inline
func vcB_Encoding_WithAllowReserved(e *Encoding, val bool) func(*Encoding) {
	vc.Modifies(&e.AllowReserved)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AllowReserved != nil && vc.Fresh(e.AllowReserved) && vc.Eq(*e.AllowReserved, val))
	}
}

//vc:func (*Header).WithDescription
//vc:props C06
//vc:inline
func vcB_Header_WithDescription(e *Header, val string) func(*Header) {
	vc.Modifies(&e.Description)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Header).WithRequired
//vc:props C06
//vc:inline
func vcB_Header_WithRequired(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.Required)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Required != nil && vc.Fresh(e.Required) && vc.Eq(*e.Required, val))
	}
}

//vc:func (*Header).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Header_WithDeprecated(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.Deprecated)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Header).WithSchema
//vc:props C06
//vc:inline
func vcB_Header_WithSchema(e *Header, val map[string]interface{}) func(*Header) {
	vc.Modifies(&e.Schema)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Schema, val))
	}
}

//vc:func (*Header).WithSchemaItem
//vc:props C06
//vc:inline
func vcB_Header_WithSchemaItem(e *Header, key string, val interface{}) func(*Header) {
	prev := e.Schema
	old := vc.Snap(e.Schema)
	vc.Modifies(&e.Schema, e.Schema)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Schema[key]
		vc.Ensure("key is set", e.Schema != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Schema, prev) || vc.Fresh(e.Schema))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Schema[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Header).WithContent
//vc:props C06
//vc:inline
func vcB_Header_WithContent(e *Header, val map[string]MediaType) func(*Header) {
	vc.Modifies(&e.Content)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*Header).WithContentItem
//vc:props C06
//vc:inline
func vcB_Header_WithContentItem(e *Header, key string, val MediaType) func(*Header) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Header).WithExample
//vc:props C06
//vc:inline
func vcB_Header_WithExample(e *Header, val interface{}) func(*Header) {
	vc.Modifies(&e.Example)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*Header).WithExamples
//vc:props C06
//vc:inline
func vcB_Header_WithExamples(e *Header, val map[string]ExampleOrReference) func(*Header) {
	vc.Modifies(&e.Examples)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*Header).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_Header_WithExamplesItem(e *Header, key string, val ExampleOrReference) func(*Header) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Header).WithExplode
//vc:props C06
//vc:inline
func vcB_Header_WithExplode(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.Explode)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Explode != nil && vc.Fresh(e.Explode) && vc.Eq(*e.Explode, val))
	}
}

//vc:func (*Header).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Header_WithMapOfAnything(e *Header, val map[string]interface{}) func(*Header) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Header).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Header_WithMapOfAnythingItem(e *Header, key string, val interface{}) func(*Header) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Example).WithSummary
//vc:props C06
//vc:inline
func vcB_Example_WithSummary(e *Example, val string) func(*Example) {
	vc.Modifies(&e.Summary)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*Example).WithDescription
//vc:props C06
//vc:inline
func vcB_Example_WithDescription(e *Example, val string) func(*Example) {
	vc.Modifies(&e.Description)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Example).WithValue
//vc:props C06
//vc:inline
func vcB_Example_WithValue(e *Example, val interface{}) func(*Example) {
	vc.Modifies(&e.Value)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Value != nil && vc.Fresh(e.Value) && vc.Eq(*e.Value, val))
	}
}

//vc:func (*Example).WithExternalValue
//vc:props C06
//vc:inline
func vcB_Example_WithExternalValue(e *Example, val string) func(*Example) {
	vc.Modifies(&e.ExternalValue)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalValue != nil && vc.Fresh(e.ExternalValue) && vc.Eq(*e.ExternalValue, val))
	}
}

//vc:func (*Example).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Example_WithMapOfAnything(e *Example, val map[string]interface{}) func(*Example) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Example).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Example_WithMapOfAnythingItem(e *Example, key string, val interface{}) func(*Example) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ExampleOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_ExampleOrReference_WithReference(e *ExampleOrReference, val Reference) func(*ExampleOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *ExampleOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*ExampleOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_ExampleOrReference_ReferenceEns(e *ExampleOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ExampleOrReference).WithExample
//vc:props C06
//vc:inline
func vcB_ExampleOrReference_WithExample(e *ExampleOrReference, val Example) func(*ExampleOrReference) {
	vc.Modifies(&e.Example)

	return func(r *ExampleOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*ExampleOrReference).ExampleEns
//vc:props C06
//vc:inline
func vcB_ExampleOrReference_ExampleEns(e *ExampleOrReference) func(*Example) {
	old := e.Example
	vc.Modifies(&e.Example)
	var zero Example

	return func(r *Example) {
		vc.Ensure("returns the field", r == e.Example && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*HeaderOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_HeaderOrReference_WithReference(e *HeaderOrReference, val Reference) func(*HeaderOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *HeaderOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*HeaderOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_HeaderOrReference_ReferenceEns(e *HeaderOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*HeaderOrReference).WithHeader
//vc:props C06
//vc:inline
func vcB_HeaderOrReference_WithHeader(e *HeaderOrReference, val Header) func(*HeaderOrReference) {
	vc.Modifies(&e.Header)

	return func(r *HeaderOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Header != nil && vc.Fresh(e.Header) && vc.Eq(*e.Header, val))
	}
}

//vc:func (*HeaderOrReference).HeaderEns
//vc:props C06
//vc:inline
func vcB_HeaderOrReference_HeaderEns(e *HeaderOrReference) func(*Header) {
	old := e.Header
	vc.Modifies(&e.Header)
	var zero Header

	return func(r *Header) {
		vc.Ensure("returns the field", r == e.Header && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*EncodingAllOf0).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_EncodingAllOf0_WithMapOfAnything(e *EncodingAllOf0, val map[string]interface{}) func(*EncodingAllOf0) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *EncodingAllOf0) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*EncodingAllOf0).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_EncodingAllOf0_WithMapOfAnythingItem(e *EncodingAllOf0, key string, val interface{}) func(*EncodingAllOf0) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *EncodingAllOf0) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Examples).WithExample
//vc:props C06
//vc:inline
func vcB_Examples_WithExample(e *Examples, val interface{}) func(*Examples) {
	vc.Modifies(&e.Example)

	return func(r *Examples) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*Examples).WithExamples
//vc:props C06
//vc:inline
func vcB_Examples_WithExamples(e *Examples, val map[string]ExampleOrReference) func(*Examples) {
	vc.Modifies(&e.Examples)

	return func(r *Examples) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*Examples).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_Examples_WithExamplesItem(e *Examples, key string, val ExampleOrReference) func(*Examples) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *Examples) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ParameterOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_ParameterOrReference_WithReference(e *ParameterOrReference, val Reference) func(*ParameterOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *ParameterOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*ParameterOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_ParameterOrReference_ReferenceEns(e *ParameterOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ParameterOrReference).WithParameter
//vc:props C06
//vc:inline
func vcB_ParameterOrReference_WithParameter(e *ParameterOrReference, val Parameter) func(*ParameterOrReference) {
	vc.Modifies(&e.Parameter)

	return func(r *ParameterOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Parameter != nil && vc.Fresh(e.Parameter) && vc.Eq(*e.Parameter, val))
	}
}

//vc:func (*ParameterOrReference).ParameterEns
//vc:props C06
//vc:inline
func vcB_ParameterOrReference_ParameterEns(e *ParameterOrReference) func(*Parameter) {
	old := e.Parameter
	vc.Modifies(&e.Parameter)
	var zero Parameter

	return func(r *Parameter) {
		vc.Ensure("returns the field", r == e.Parameter && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithTags
//vc:props C06
//vc:inline
func vcB_Operation_WithTags(e *Operation, val ...string) func(*Operation) {
	vc.Modifies(&e.Tags)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Tags, val))
	}
}

//vc:func (*Operation).WithSummary
//vc:props C06
//vc:inline
func vcB_Operation_WithSummary(e *Operation, val string) func(*Operation) {
	vc.Modifies(&e.Summary)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*Operation).WithDescription
//vc:props C06
//vc:inline
func vcB_Operation_WithDescription(e *Operation, val string) func(*Operation) {
	vc.Modifies(&e.Description)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Operation).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Operation_WithExternalDocs(e *Operation, val ExternalDocumentation) func(*Operation) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Operation).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Operation_ExternalDocsEns(e *Operation) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithID
//vc:props C06
//vc:inline
func vcB_Operation_WithID(e *Operation, val string) func(*Operation) {
	vc.Modifies(&e.ID)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ID != nil && vc.Fresh(e.ID) && vc.Eq(*e.ID, val))
	}
}

//vc:func (*Operation).WithParameters
//vc:props C06
//vc:inline
func vcB_Operation_WithParameters(e *Operation, val ...ParameterOrReference) func(*Operation) {
	vc.Modifies(&e.Parameters)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*Operation).WithRequestBody
//vc:props C06
//vc:inline
func vcB_Operation_WithRequestBody(e *Operation, val RequestBodyOrReference) func(*Operation) {
	vc.Modifies(&e.RequestBody)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBody != nil && vc.Fresh(e.RequestBody) && vc.Eq(*e.RequestBody, val))
	}
}

//vc:func (*Operation).RequestBodyEns
//vc:props C06
//vc:inline
func vcB_Operation_RequestBodyEns(e *Operation) func(*RequestBodyOrReference) {
	old := e.RequestBody
	vc.Modifies(&e.RequestBody)
	var zero RequestBodyOrReference

	return func(r *RequestBodyOrReference) {
		vc.Ensure("returns the field", r == e.RequestBody && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithResponses
//vc:props C06
//vc:inline
func vcB_Operation_WithResponses(e *Operation, val Responses) func(*Operation) {
	vc.Modifies(&e.Responses)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Responses != nil && vc.Fresh(e.Responses) && vc.Eq(*e.Responses, val))
	}
}

//vc:func (*Operation).ResponsesEns
//vc:props C06
//vc:inline
func vcB_Operation_ResponsesEns(e *Operation) func(*Responses) {
	old := e.Responses
	vc.Modifies(&e.Responses)
	var zero Responses

	return func(r *Responses) {
		vc.Ensure("returns the field", r == e.Responses && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithCallbacks
//vc:props C06
//vc:inline
func vcB_Operation_WithCallbacks(e *Operation, val map[string]CallbacksOrReference) func(*Operation) {
	vc.Modifies(&e.Callbacks)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Callbacks, val))
	}
}

//vc:func (*Operation).WithCallbacksItem
//vc:props C06
//vc:inline
func vcB_Operation_WithCallbacksItem(e *Operation, key string, val CallbacksOrReference) func(*Operation) {
	prev := e.Callbacks
	old := vc.Snap(e.Callbacks)
	vc.Modifies(&e.Callbacks, e.Callbacks)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Callbacks[key]
		vc.Ensure("key is set", e.Callbacks != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Callbacks, prev) || vc.Fresh(e.Callbacks))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Callbacks[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Operation).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Operation_WithDeprecated(e *Operation, val bool) func(*Operation) {
	vc.Modifies(&e.Deprecated)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Operation).WithSecurity
//vc:props C06
//vc:inline
func vcB_Operation_WithSecurity(e *Operation, val ...map[string][]string) func(*Operation) {
	vc.Modifies(&e.Security)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Security, val))
	}
}

//vc:func (*Operation).WithServers
//vc:props C06
//vc:inline
func vcB_Operation_WithServers(e *Operation, val ...Server) func(*Operation) {
	vc.Modifies(&e.Servers)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Servers, val))
	}
}

//vc:func (*Operation).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Operation_WithMapOfAnything(e *Operation, val map[string]interface{}) func(*Operation) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Operation).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Operation_WithMapOfAnythingItem(e *Operation, key string, val interface{}) func(*Operation) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ExternalDocumentation).WithDescription
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithDescription(e *ExternalDocumentation, val string) func(*ExternalDocumentation) {
	vc.Modifies(&e.Description)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*ExternalDocumentation).WithURL
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithURL(e *ExternalDocumentation, val string) func(*ExternalDocumentation) {
	vc.Modifies(&e.URL)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.URL, val))
	}
}

//vc:func (*ExternalDocumentation).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithMapOfAnything(e *ExternalDocumentation, val map[string]interface{}) func(*ExternalDocumentation) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*ExternalDocumentation).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithMapOfAnythingItem(e *ExternalDocumentation, key string, val interface{}) func(*ExternalDocumentation) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*RequestBody).WithDescription
//vc:props C06
//vc:inline
func vcB_RequestBody_WithDescription(e *RequestBody, val string) func(*RequestBody) {
	vc.Modifies(&e.Description)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*RequestBody).WithContent
//vc:props C06
//vc:inline
func vcB_RequestBody_WithContent(e *RequestBody, val map[string]MediaType) func(*RequestBody) {
	vc.Modifies(&e.Content)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*RequestBody).WithContentItem
//vc:props C06
//vc:inline
func vcB_RequestBody_WithContentItem(e *RequestBody, key string, val MediaType) func(*RequestBody) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*RequestBody).WithRequired
//vc:props C06
//vc:inline
func vcB_RequestBody_WithRequired(e *RequestBody, val bool) func(*RequestBody) {
	vc.Modifies(&e.Required)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Required != nil && vc.Fresh(e.Required) && vc.Eq(*e.Required, val))
	}
}

//vc:func (*RequestBody).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_RequestBody_WithMapOfAnything(e *RequestBody, val map[string]interface{}) func(*RequestBody) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*RequestBody).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_RequestBody_WithMapOfAnythingItem(e *RequestBody, key string, val interface{}) func(*RequestBody) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*RequestBodyOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_RequestBodyOrReference_WithReference(e *RequestBodyOrReference, val Reference) func(*RequestBodyOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *RequestBodyOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*RequestBodyOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_RequestBodyOrReference_ReferenceEns(e *RequestBodyOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*RequestBodyOrReference).WithRequestBody
//vc:props C06
//vc:inline
func vcB_RequestBodyOrReference_WithRequestBody(e *RequestBodyOrReference, val RequestBody) func(*RequestBodyOrReference) {
	vc.Modifies(&e.RequestBody)

	return func(r *RequestBodyOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBody != nil && vc.Fresh(e.RequestBody) && vc.Eq(*e.RequestBody, val))
	}
}

//vc:func (*RequestBodyOrReference).RequestBodyEns
//vc:props C06
//vc:inline
func vcB_RequestBodyOrReference_RequestBodyEns(e *RequestBodyOrReference) func(*RequestBody) {
	old := e.RequestBody
	vc.Modifies(&e.RequestBody)
	var zero RequestBody

	return func(r *RequestBody) {
		vc.Ensure("returns the field", r == e.RequestBody && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Responses).WithDefault
//vc:props C06
//vc:inline
func vcB_Responses_WithDefault(e *Responses, val ResponseOrReference) func(*Responses) {
	vc.Modifies(&e.Default)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Default != nil && vc.Fresh(e.Default) && vc.Eq(*e.Default, val))
	}
}

//vc:func (*Responses).DefaultEns
//vc:props C06
//vc:inline
func vcB_Responses_DefaultEns(e *Responses) func(*ResponseOrReference) {
	old := e.Default
	vc.Modifies(&e.Default)
	var zero ResponseOrReference

	return func(r *ResponseOrReference) {
		vc.Ensure("returns the field", r == e.Default && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Responses).WithMapOfResponseOrReferenceValues
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfResponseOrReferenceValues(e *Responses, val map[string]ResponseOrReference) func(*Responses) {
	vc.Modifies(&e.MapOfResponseOrReferenceValues)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfResponseOrReferenceValues, val))
	}
}

//vc:func (*Responses).WithMapOfResponseOrReferenceValuesItem
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfResponseOrReferenceValuesItem(e *Responses, key string, val ResponseOrReference) func(*Responses) {
	prev := e.MapOfResponseOrReferenceValues
	old := vc.Snap(e.MapOfResponseOrReferenceValues)
	vc.Modifies(&e.MapOfResponseOrReferenceValues, e.MapOfResponseOrReferenceValues)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfResponseOrReferenceValues[key]
		vc.Ensure("key is set", e.MapOfResponseOrReferenceValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfResponseOrReferenceValues, prev) || vc.Fresh(e.MapOfResponseOrReferenceValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfResponseOrReferenceValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Responses).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfAnything(e *Responses, val map[string]interface{}) func(*Responses) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Responses).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfAnythingItem(e *Responses, key string, val interface{}) func(*Responses) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithDescription
//vc:props C06
//vc:inline
func vcB_Response_WithDescription(e *Response, val string) func(*Response) {
	vc.Modifies(&e.Description)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Description, val))
	}
}

//vc:func (*Response).WithHeaders
//vc:props C06
//vc:inline
func vcB_Response_WithHeaders(e *Response, val map[string]HeaderOrReference) func(*Response) {
	vc.Modifies(&e.Headers)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Headers, val))
	}
}

//vc:func (*Response).WithHeadersItem
//vc:props C06
//vc:inline
func vcB_Response_WithHeadersItem(e *Response, key string, val HeaderOrReference) func(*Response) {
	prev := e.Headers
	old := vc.Snap(e.Headers)
	vc.Modifies(&e.Headers, e.Headers)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Headers[key]
		vc.Ensure("key is set", e.Headers != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Headers, prev) || vc.Fresh(e.Headers))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Headers[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithContent
//vc:props C06
//vc:inline
func vcB_Response_WithContent(e *Response, val map[string]MediaType) func(*Response) {
	vc.Modifies(&e.Content)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*Response).WithContentItem
//vc:props C06
//vc:inline
func vcB_Response_WithContentItem(e *Response, key string, val MediaType) func(*Response) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithLinks
//vc:props C06
//vc:inline
func vcB_Response_WithLinks(e *Response, val map[string]LinkOrReference) func(*Response) {
	vc.Modifies(&e.Links)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Links, val))
	}
}

//vc:func (*Response).WithLinksItem
//vc:props C06
//vc:inline
func vcB_Response_WithLinksItem(e *Response, key string, val LinkOrReference) func(*Response) {
	prev := e.Links
	old := vc.Snap(e.Links)
	vc.Modifies(&e.Links, e.Links)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Links[key]
		vc.Ensure("key is set", e.Links != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Links, prev) || vc.Fresh(e.Links))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Links[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Response_WithMapOfAnything(e *Response, val map[string]interface{}) func(*Response) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Response).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Response_WithMapOfAnythingItem(e *Response, key string, val interface{}) func(*Response) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Link).WithOperationRef
//vc:props C06
//vc:inline
func vcB_Link_WithOperationRef(e *Link, val string) func(*Link) {
	vc.Modifies(&e.OperationRef)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.OperationRef != nil && vc.Fresh(e.OperationRef) && vc.Eq(*e.OperationRef, val))
	}
}

//vc:func (*Link).WithOperationID
//vc:props C06
//vc:inline
func vcB_Link_WithOperationID(e *Link, val string) func(*Link) {
	vc.Modifies(&e.OperationID)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.OperationID != nil && vc.Fresh(e.OperationID) && vc.Eq(*e.OperationID, val))
	}
}

//vc:func (*Link).WithParameters
//vc:props C06
//vc:inline
func vcB_Link_WithParameters(e *Link, val map[string]string) func(*Link) {
	vc.Modifies(&e.Parameters)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*Link).WithParametersItem
//vc:props C06
//vc:inline
func vcB_Link_WithParametersItem(e *Link, key string, val string) func(*Link) {
	prev := e.Parameters
	old := vc.Snap(e.Parameters)
	vc.Modifies(&e.Parameters, e.Parameters)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Parameters[key]
		vc.Ensure("key is set", e.Parameters != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Parameters, prev) || vc.Fresh(e.Parameters))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Parameters[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Link).WithRequestBody
//vc:props C06
//vc:inline
func vcB_Link_WithRequestBody(e *Link, val interface{}) func(*Link) {
	vc.Modifies(&e.RequestBody)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBody != nil && vc.Fresh(e.RequestBody) && vc.Eq(*e.RequestBody, val))
	}
}

//vc:func (*Link).WithDescription
//vc:props C06
//vc:inline
func vcB_Link_WithDescription(e *Link, val string) func(*Link) {
	vc.Modifies(&e.Description)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Link).WithBody
//vc:props C06
//vc:inline
func vcB_Link_WithBody(e *Link, val Server) func(*Link) {
	vc.Modifies(&e.Body)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Body != nil && vc.Fresh(e.Body) && vc.Eq(*e.Body, val))
	}
}

//vc:func (*Link).BodyEns
//vc:props C06
//vc:inline
func vcB_Link_BodyEns(e *Link) func(*Server) {
	old := e.Body
	vc.Modifies(&e.Body)
	var zero Server

	return func(r *Server) {
		vc.Ensure("returns the field", r == e.Body && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Link).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Link_WithMapOfAnything(e *Link, val map[string]interface{}) func(*Link) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Link).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Link_WithMapOfAnythingItem(e *Link, key string, val interface{}) func(*Link) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*LinkOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_LinkOrReference_WithReference(e *LinkOrReference, val Reference) func(*LinkOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *LinkOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*LinkOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_LinkOrReference_ReferenceEns(e *LinkOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*LinkOrReference).WithLink
//vc:props C06
//vc:inline
func vcB_LinkOrReference_WithLink(e *LinkOrReference, val Link) func(*LinkOrReference) {
	vc.Modifies(&e.Link)

	return func(r *LinkOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Link != nil && vc.Fresh(e.Link) && vc.Eq(*e.Link, val))
	}
}

//vc:func (*LinkOrReference).LinkEns
//vc:props C06
//vc:inline
func vcB_LinkOrReference_LinkEns(e *LinkOrReference) func(*Link) {
	old := e.Link
	vc.Modifies(&e.Link)
	var zero Link

	return func(r *Link) {
		vc.Ensure("returns the field", r == e.Link && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ResponseOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_ResponseOrReference_WithReference(e *ResponseOrReference, val Reference) func(*ResponseOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *ResponseOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*ResponseOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_ResponseOrReference_ReferenceEns(e *ResponseOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ResponseOrReference).WithResponse
//vc:props C06
//vc:inline
func vcB_ResponseOrReference_WithResponse(e *ResponseOrReference, val Response) func(*ResponseOrReference) {
	vc.Modifies(&e.Response)

	return func(r *ResponseOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Response != nil && vc.Fresh(e.Response) && vc.Eq(*e.Response, val))
	}
}

//vc:func (*ResponseOrReference).ResponseEns
//vc:props C06
//vc:inline
func vcB_ResponseOrReference_ResponseEns(e *ResponseOrReference) func(*Response) {
	old := e.Response
	vc.Modifies(&e.Response)
	var zero Response

	return func(r *Response) {
		vc.Ensure("returns the field", r == e.Response && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Callbacks).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Callbacks_WithMapOfAnything(e *Callbacks, val map[string]interface{}) func(*Callbacks) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Callbacks) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Callbacks).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Callbacks_WithMapOfAnythingItem(e *Callbacks, key string, val interface{}) func(*Callbacks) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Callbacks) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Callbacks).WithAdditionalProperties
//vc:props C06
//vc:inline
func vcB_Callbacks_WithAdditionalProperties(e *Callbacks, val map[string]PathItemOrReference) func(*Callbacks) {
	vc.Modifies(&e.AdditionalProperties)

	return func(r *Callbacks) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AdditionalProperties, val))
	}
}

//vc:func (*Callbacks).WithAdditionalPropertiesItem
//vc:props C06
//vc:inline
func vcB_Callbacks_WithAdditionalPropertiesItem(e *Callbacks, key string, val PathItemOrReference) func(*Callbacks) {
	prev := e.AdditionalProperties
	old := vc.Snap(e.AdditionalProperties)
	vc.Modifies(&e.AdditionalProperties, e.AdditionalProperties)

	return func(r *Callbacks) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.AdditionalProperties[key]
		vc.Ensure("key is set", e.AdditionalProperties != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.AdditionalProperties, prev) || vc.Fresh(e.AdditionalProperties))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.AdditionalProperties[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*PathItemOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_PathItemOrReference_WithReference(e *PathItemOrReference, val Reference) func(*PathItemOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *PathItemOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*PathItemOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_PathItemOrReference_ReferenceEns(e *PathItemOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*PathItemOrReference).WithPathItem
//vc:props C06
//vc:inline
func vcB_PathItemOrReference_WithPathItem(e *PathItemOrReference, val PathItem) func(*PathItemOrReference) {
	vc.Modifies(&e.PathItem)

	return func(r *PathItemOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.PathItem != nil && vc.Fresh(e.PathItem) && vc.Eq(*e.PathItem, val))
	}
}

//vc:func (*PathItemOrReference).PathItemEns
//vc:props C06
//vc:inline
func vcB_PathItemOrReference_PathItemEns(e *PathItemOrReference) func(*PathItem) {
	old := e.PathItem
	vc.Modifies(&e.PathItem)
	var zero PathItem

	return func(r *PathItem) {
		vc.Ensure("returns the field", r == e.PathItem && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*CallbacksOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_CallbacksOrReference_WithReference(e *CallbacksOrReference, val Reference) func(*CallbacksOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *CallbacksOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*CallbacksOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_CallbacksOrReference_ReferenceEns(e *CallbacksOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*CallbacksOrReference).WithCallbacks
//vc:props C06
//vc:inline
func vcB_CallbacksOrReference_WithCallbacks(e *CallbacksOrReference, val Callbacks) func(*CallbacksOrReference) {
	vc.Modifies(&e.Callbacks)

	return func(r *CallbacksOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Callbacks != nil && vc.Fresh(e.Callbacks) && vc.Eq(*e.Callbacks, val))
	}
}

//vc:func (*CallbacksOrReference).CallbacksEns
//vc:props C06
//vc:inline
func vcB_CallbacksOrReference_CallbacksEns(e *CallbacksOrReference) func(*Callbacks) {
	old := e.Callbacks
	vc.Modifies(&e.Callbacks)
	var zero Callbacks

	return func(r *Callbacks) {
		vc.Ensure("returns the field", r == e.Callbacks && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Paths).WithMapOfPathItemValues
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfPathItemValues(e *Paths, val map[string]PathItem) func(*Paths) {
	vc.Modifies(&e.MapOfPathItemValues)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfPathItemValues, val))
	}
}

//vc:func (*Paths).WithMapOfPathItemValuesItem
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfPathItemValuesItem(e *Paths, key string, val PathItem) func(*Paths) {
	prev := e.MapOfPathItemValues
	old := vc.Snap(e.MapOfPathItemValues)
	vc.Modifies(&e.MapOfPathItemValues, e.MapOfPathItemValues)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfPathItemValues[key]
		vc.Ensure("key is set", e.MapOfPathItemValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfPathItemValues, prev) || vc.Fresh(e.MapOfPathItemValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfPathItemValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Paths).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfAnything(e *Paths, val map[string]interface{}) func(*Paths) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Paths).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfAnythingItem(e *Paths, key string, val interface{}) func(*Paths) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithSchemas
//vc:props C06
//vc:inline
func vcB_Components_WithSchemas(e *Components, val map[string]map[string]interface{}) func(*Components) {
	vc.Modifies(&e.Schemas)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Schemas, val))
	}
}

//vc:func (*Components).WithSchemasItem
//vc:props C06
//vc:inline
func vcB_Components_WithSchemasItem(e *Components, key string, val map[string]interface{}) func(*Components) {
	prev := e.Schemas
	old := vc.Snap(e.Schemas)
	vc.Modifies(&e.Schemas, e.Schemas)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Schemas[key]
		vc.Ensure("key is set", e.Schemas != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Schemas, prev) || vc.Fresh(e.Schemas))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Schemas[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithResponses
//vc:props C06
//vc:inline
func vcB_Components_WithResponses(e *Components, val map[string]ResponseOrReference) func(*Components) {
	vc.Modifies(&e.Responses)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Responses, val))
	}
}

//vc:func (*Components).WithResponsesItem
//vc:props C06
//vc:inline
func vcB_Components_WithResponsesItem(e *Components, key string, val ResponseOrReference) func(*Components) {
	prev := e.Responses
	old := vc.Snap(e.Responses)
	vc.Modifies(&e.Responses, e.Responses)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Responses[key]
		vc.Ensure("key is set", e.Responses != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Responses, prev) || vc.Fresh(e.Responses))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Responses[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithParameters
//vc:props C06
//vc:inline
func vcB_Components_WithParameters(e *Components, val map[string]ParameterOrReference) func(*Components) {
	vc.Modifies(&e.Parameters)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*Components).WithParametersItem
//vc:props C06
//vc:inline
func vcB_Components_WithParametersItem(e *Components, key string, val ParameterOrReference) func(*Components) {
	prev := e.Parameters
	old := vc.Snap(e.Parameters)
	vc.Modifies(&e.Parameters, e.Parameters)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Parameters[key]
		vc.Ensure("key is set", e.Parameters != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Parameters, prev) || vc.Fresh(e.Parameters))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Parameters[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithExamples
//vc:props C06
//vc:inline
func vcB_Components_WithExamples(e *Components, val map[string]ExampleOrReference) func(*Components) {
	vc.Modifies(&e.Examples)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*Components).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_Components_WithExamplesItem(e *Components, key string, val ExampleOrReference) func(*Components) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithRequestBodies
//vc:props C06
//vc:inline
func vcB_Components_WithRequestBodies(e *Components, val map[string]RequestBodyOrReference) func(*Components) {
	vc.Modifies(&e.RequestBodies)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.RequestBodies, val))
	}
}

//vc:func (*Components).WithRequestBodiesItem
//vc:props C06
//vc:inline
func vcB_Components_WithRequestBodiesItem(e *Components, key string, val RequestBodyOrReference) func(*Components) {
	prev := e.RequestBodies
	old := vc.Snap(e.RequestBodies)
	vc.Modifies(&e.RequestBodies, e.RequestBodies)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.RequestBodies[key]
		vc.Ensure("key is set", e.RequestBodies != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.RequestBodies, prev) || vc.Fresh(e.RequestBodies))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.RequestBodies[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithHeaders
//vc:props C06
//vc:inline
func vcB_Components_WithHeaders(e *Components, val map[string]HeaderOrReference) func(*Components) {
	vc.Modifies(&e.Headers)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Headers, val))
	}
}

//vc:func (*Components).WithHeadersItem
//vc:props C06
//vc:inline
func vcB_Components_WithHeadersItem(e *Components, key string, val HeaderOrReference) func(*Components) {
	prev := e.Headers
	old := vc.Snap(e.Headers)
	vc.Modifies(&e.Headers, e.Headers)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Headers[key]
		vc.Ensure("key is set", e.Headers != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Headers, prev) || vc.Fresh(e.Headers))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Headers[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithSecuritySchemes
//vc:props C06
//vc:inline
func vcB_Components_WithSecuritySchemes(e *Components, val map[string]SecuritySchemeOrReference) func(*Components) {
	vc.Modifies(&e.SecuritySchemes)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.SecuritySchemes, val))
	}
}

//vc:func (*Components).WithSecuritySchemesItem
//vc:props C06
//vc:inline
func vcB_Components_WithSecuritySchemesItem(e *Components, key string, val SecuritySchemeOrReference) func(*Components) {
	prev := e.SecuritySchemes
	old := vc.Snap(e.SecuritySchemes)
	vc.Modifies(&e.SecuritySchemes, e.SecuritySchemes)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.SecuritySchemes[key]
		vc.Ensure("key is set", e.SecuritySchemes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.SecuritySchemes, prev) || vc.Fresh(e.SecuritySchemes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.SecuritySchemes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithLinks
//vc:props C06
//vc:inline
func vcB_Components_WithLinks(e *Components, val map[string]LinkOrReference) func(*Components) {
	vc.Modifies(&e.Links)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Links, val))
	}
}

//vc:func (*Components).WithLinksItem
//vc:props C06
//vc:inline
func vcB_Components_WithLinksItem(e *Components, key string, val LinkOrReference) func(*Components) {
	prev := e.Links
	old := vc.Snap(e.Links)
	vc.Modifies(&e.Links, e.Links)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Links[key]
		vc.Ensure("key is set", e.Links != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Links, prev) || vc.Fresh(e.Links))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Links[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithCallbacks
//vc:props C06
//vc:inline
func vcB_Components_WithCallbacks(e *Components, val map[string]CallbacksOrReference) func(*Components) {
	vc.Modifies(&e.Callbacks)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Callbacks, val))
	}
}

//vc:func (*Components).WithCallbacksItem
//vc:props C06
//vc:inline
func vcB_Components_WithCallbacksItem(e *Components, key string, val CallbacksOrReference) func(*Components) {
	prev := e.Callbacks
	old := vc.Snap(e.Callbacks)
	vc.Modifies(&e.Callbacks, e.Callbacks)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Callbacks[key]
		vc.Ensure("key is set", e.Callbacks != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Callbacks, prev) || vc.Fresh(e.Callbacks))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Callbacks[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithPathItems
//vc:props C06
//vc:inline
func vcB_Components_WithPathItems(e *Components, val map[string]PathItemOrReference) func(*Components) {
	vc.Modifies(&e.PathItems)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.PathItems, val))
	}
}

//vc:func (*Components).WithPathItemsItem
//vc:props C06
//vc:inline
func vcB_Components_WithPathItemsItem(e *Components, key string, val PathItemOrReference) func(*Components) {
	prev := e.PathItems
	old := vc.Snap(e.PathItems)
	vc.Modifies(&e.PathItems, e.PathItems)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.PathItems[key]
		vc.Ensure("key is set", e.PathItems != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.PathItems, prev) || vc.Fresh(e.PathItems))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.PathItems[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*SecurityScheme).WithDescription
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithDescription(e *SecurityScheme, val string) func(*SecurityScheme) {
	vc.Modifies(&e.Description)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*SecurityScheme).WithAPIKey
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithAPIKey(e *SecurityScheme, val SecuritySchemeAPIKey) func(*SecurityScheme) {
	vc.Modifies(&e.APIKey)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.APIKey != nil && vc.Fresh(e.APIKey) && vc.Eq(*e.APIKey, val))
	}
}

//vc:func (*SecurityScheme).APIKeyEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_APIKeyEns(e *SecurityScheme) func(*SecuritySchemeAPIKey) {
	old := e.APIKey
	vc.Modifies(&e.APIKey)
	var zero SecuritySchemeAPIKey

	return func(r *SecuritySchemeAPIKey) {
		vc.Ensure("returns the field", r == e.APIKey && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithHTTP
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithHTTP(e *SecurityScheme, val SecuritySchemeHTTP) func(*SecurityScheme) {
	vc.Modifies(&e.HTTP)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HTTP != nil && vc.Fresh(e.HTTP) && vc.Eq(*e.HTTP, val))
	}
}

//vc:func (*SecurityScheme).HTTPEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_HTTPEns(e *SecurityScheme) func(*SecuritySchemeHTTP) {
	old := e.HTTP
	vc.Modifies(&e.HTTP)
	var zero SecuritySchemeHTTP

	return func(r *SecuritySchemeHTTP) {
		vc.Ensure("returns the field", r == e.HTTP && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithHTTPBearer
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithHTTPBearer(e *SecurityScheme, val SecuritySchemeHTTPBearer) func(*SecurityScheme) {
	vc.Modifies(&e.HTTPBearer)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HTTPBearer != nil && vc.Fresh(e.HTTPBearer) && vc.Eq(*e.HTTPBearer, val))
	}
}

//vc:func (*SecurityScheme).HTTPBearerEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_HTTPBearerEns(e *SecurityScheme) func(*SecuritySchemeHTTPBearer) {
	old := e.HTTPBearer
	vc.Modifies(&e.HTTPBearer)
	var zero SecuritySchemeHTTPBearer

	return func(r *SecuritySchemeHTTPBearer) {
		vc.Ensure("returns the field", r == e.HTTPBearer && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithOauth2
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithOauth2(e *SecurityScheme, val SecuritySchemeOauth2) func(*SecurityScheme) {
	vc.Modifies(&e.Oauth2)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Oauth2 != nil && vc.Fresh(e.Oauth2) && vc.Eq(*e.Oauth2, val))
	}
}

//vc:func (*SecurityScheme).Oauth2Ens
//vc:props C06
//vc:inline
func vcB_SecurityScheme_Oauth2Ens(e *SecurityScheme) func(*SecuritySchemeOauth2) {
	old := e.Oauth2
	vc.Modifies(&e.Oauth2)
	var zero SecuritySchemeOauth2

	return func(r *SecuritySchemeOauth2) {
		vc.Ensure("returns the field", r == e.Oauth2 && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithOidc
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithOidc(e *SecurityScheme, val SecuritySchemeOidc) func(*SecurityScheme) {
	vc.Modifies(&e.Oidc)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Oidc != nil && vc.Fresh(e.Oidc) && vc.Eq(*e.Oidc, val))
	}
}

//vc:func (*SecurityScheme).OidcEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_OidcEns(e *SecurityScheme) func(*SecuritySchemeOidc) {
	old := e.Oidc
	vc.Modifies(&e.Oidc)
	var zero SecuritySchemeOidc

	return func(r *SecuritySchemeOidc) {
		vc.Ensure("returns the field", r == e.Oidc && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithMutualTLS
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithMutualTLS(e *SecurityScheme, val MutualTLS) func(*SecurityScheme) {
	vc.Modifies(&e.MutualTLS)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MutualTLS != nil && vc.Fresh(e.MutualTLS) && vc.Eq(*e.MutualTLS, val))
	}
}

//vc:func (*SecurityScheme).MutualTLSEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_MutualTLSEns(e *SecurityScheme) func(*MutualTLS) {
	old := e.MutualTLS
	vc.Modifies(&e.MutualTLS)
	var zero MutualTLS

	return func(r *MutualTLS) {
		vc.Ensure("returns the field", r == e.MutualTLS && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithMapOfAnything(e *SecurityScheme, val map[string]interface{}) func(*SecurityScheme) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*SecurityScheme).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithMapOfAnythingItem(e *SecurityScheme, key string, val interface{}) func(*SecurityScheme) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*SecuritySchemeAPIKey).WithName
//vc:props C06
//vc:inline
func vcB_SecuritySchemeAPIKey_WithName(e *SecuritySchemeAPIKey, val string) func(*SecuritySchemeAPIKey) {
	vc.Modifies(&e.Name)

	return func(r *SecuritySchemeAPIKey) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*SecuritySchemeAPIKey).WithIn
//vc:props C06
//vc:inline
func vcB_SecuritySchemeAPIKey_WithIn(e *SecuritySchemeAPIKey, val SecuritySchemeAPIKeyIn) func(*SecuritySchemeAPIKey) {
	vc.Modifies(&e.In)

	return func(r *SecuritySchemeAPIKey) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.In, val))
	}
}

//vc:func (*SecuritySchemeHTTP).WithScheme
//vc:props C06
//vc:inline
func vcB_SecuritySchemeHTTP_WithScheme(e *SecuritySchemeHTTP, val string) func(*SecuritySchemeHTTP) {
	vc.Modifies(&e.Scheme)

	return func(r *SecuritySchemeHTTP) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scheme, val))
	}
}

//vc:func (*SecuritySchemeHTTPBearer).WithScheme
//vc:props C06
//vc:inline
func vcB_SecuritySchemeHTTPBearer_WithScheme(e *SecuritySchemeHTTPBearer, val string) func(*SecuritySchemeHTTPBearer) {
	vc.Modifies(&e.Scheme)

	return func(r *SecuritySchemeHTTPBearer) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scheme, val))
	}
}

//vc:func (*SecuritySchemeHTTPBearer).WithBearerFormat
//vc:props C06
//vc:inline
func vcB_SecuritySchemeHTTPBearer_WithBearerFormat(e *SecuritySchemeHTTPBearer, val string) func(*SecuritySchemeHTTPBearer) {
	vc.Modifies(&e.BearerFormat)

	return func(r *SecuritySchemeHTTPBearer) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.BearerFormat != nil && vc.Fresh(e.BearerFormat) && vc.Eq(*e.BearerFormat, val))
	}
}

//vc:func (*SecuritySchemeOauth2).WithFlows
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOauth2_WithFlows(e *SecuritySchemeOauth2, val OauthFlows) func(*SecuritySchemeOauth2) {
	vc.Modifies(&e.Flows)

	return func(r *SecuritySchemeOauth2) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Flows, val))
	}
}

//vc:func (*OauthFlows).WithImplicit
//vc:props C06
//vc:inline
func vcB_OauthFlows_WithImplicit(e *OauthFlows, val OauthFlowsDefsImplicit) func(*OauthFlows) {
	vc.Modifies(&e.Implicit)

	return func(r *OauthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Implicit != nil && vc.Fresh(e.Implicit) && vc.Eq(*e.Implicit, val))
	}
}

//vc:func (*OauthFlows).ImplicitEns
//vc:props C06
//vc:inline
func vcB_OauthFlows_ImplicitEns(e *OauthFlows) func(*OauthFlowsDefsImplicit) {
	old := e.Implicit
	vc.Modifies(&e.Implicit)
	var zero OauthFlowsDefsImplicit

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the field", r == e.Implicit && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OauthFlows).WithPassword
//vc:props C06
//vc:inline
func vcB_OauthFlows_WithPassword(e *OauthFlows, val OauthFlowsDefsPassword) func(*OauthFlows) {
	vc.Modifies(&e.Password)

	return func(r *OauthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Password != nil && vc.Fresh(e.Password) && vc.Eq(*e.Password, val))
	}
}

//vc:func (*OauthFlows).PasswordEns
//vc:props C06
//vc:inline
func vcB_OauthFlows_PasswordEns(e *OauthFlows) func(*OauthFlowsDefsPassword) {
	old := e.Password
	vc.Modifies(&e.Password)
	var zero OauthFlowsDefsPassword

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the field", r == e.Password && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OauthFlows).WithClientCredentials
//vc:props C06
//vc:inline
func vcB_OauthFlows_WithClientCredentials(e *OauthFlows, val OauthFlowsDefsClientCredentials) func(*OauthFlows) {
	vc.Modifies(&e.ClientCredentials)

	return func(r *OauthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ClientCredentials != nil && vc.Fresh(e.ClientCredentials) && vc.Eq(*e.ClientCredentials, val))
	}
}

//vc:func (*OauthFlows).ClientCredentialsEns
//vc:props C06
//vc:inline
func vcB_OauthFlows_ClientCredentialsEns(e *OauthFlows) func(*OauthFlowsDefsClientCredentials) {
	old := e.ClientCredentials
	vc.Modifies(&e.ClientCredentials)
	var zero OauthFlowsDefsClientCredentials

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the field", r == e.ClientCredentials && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OauthFlows).WithAuthorizationCode
//vc:props C06
//vc:inline
func vcB_OauthFlows_WithAuthorizationCode(e *OauthFlows, val OauthFlowsDefsAuthorizationCode) func(*OauthFlows) {
	vc.Modifies(&e.AuthorizationCode)

	return func(r *OauthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AuthorizationCode != nil && vc.Fresh(e.AuthorizationCode) && vc.Eq(*e.AuthorizationCode, val))
	}
}

//vc:func (*OauthFlows).AuthorizationCodeEns
//vc:props C06
//vc:inline
func vcB_OauthFlows_AuthorizationCodeEns(e *OauthFlows) func(*OauthFlowsDefsAuthorizationCode) {
	old := e.AuthorizationCode
	vc.Modifies(&e.AuthorizationCode)
	var zero OauthFlowsDefsAuthorizationCode

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the field", r == e.AuthorizationCode && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OauthFlows).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OauthFlows_WithMapOfAnything(e *OauthFlows, val map[string]interface{}) func(*OauthFlows) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OauthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OauthFlows).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OauthFlows_WithMapOfAnythingItem(e *OauthFlows, key string, val interface{}) func(*OauthFlows) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OauthFlows) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsImplicit).WithAuthorizationURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsImplicit_WithAuthorizationURL(e *OauthFlowsDefsImplicit, val string) func(*OauthFlowsDefsImplicit) {
	vc.Modifies(&e.AuthorizationURL)

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AuthorizationURL, val))
	}
}

//vc:func (*OauthFlowsDefsImplicit).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsImplicit_WithRefreshURL(e *OauthFlowsDefsImplicit, val string) func(*OauthFlowsDefsImplicit) {
	vc.Modifies(&e.RefreshURL)

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*OauthFlowsDefsImplicit).WithScopes
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsImplicit_WithScopes(e *OauthFlowsDefsImplicit, val map[string]string) func(*OauthFlowsDefsImplicit) {
	vc.Modifies(&e.Scopes)

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*OauthFlowsDefsImplicit).WithScopesItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsImplicit_WithScopesItem(e *OauthFlowsDefsImplicit, key string, val string) func(*OauthFlowsDefsImplicit) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsImplicit).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsImplicit_WithMapOfAnything(e *OauthFlowsDefsImplicit, val map[string]interface{}) func(*OauthFlowsDefsImplicit) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OauthFlowsDefsImplicit).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsImplicit_WithMapOfAnythingItem(e *OauthFlowsDefsImplicit, key string, val interface{}) func(*OauthFlowsDefsImplicit) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OauthFlowsDefsImplicit) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsPassword).WithTokenURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsPassword_WithTokenURL(e *OauthFlowsDefsPassword, val string) func(*OauthFlowsDefsPassword) {
	vc.Modifies(&e.TokenURL)

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.TokenURL, val))
	}
}

//vc:func (*OauthFlowsDefsPassword).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsPassword_WithRefreshURL(e *OauthFlowsDefsPassword, val string) func(*OauthFlowsDefsPassword) {
	vc.Modifies(&e.RefreshURL)

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*OauthFlowsDefsPassword).WithScopes
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsPassword_WithScopes(e *OauthFlowsDefsPassword, val map[string]string) func(*OauthFlowsDefsPassword) {
	vc.Modifies(&e.Scopes)

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*OauthFlowsDefsPassword).WithScopesItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsPassword_WithScopesItem(e *OauthFlowsDefsPassword, key string, val string) func(*OauthFlowsDefsPassword) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsPassword).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsPassword_WithMapOfAnything(e *OauthFlowsDefsPassword, val map[string]interface{}) func(*OauthFlowsDefsPassword) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OauthFlowsDefsPassword).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsPassword_WithMapOfAnythingItem(e *OauthFlowsDefsPassword, key string, val interface{}) func(*OauthFlowsDefsPassword) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OauthFlowsDefsPassword) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).WithTokenURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsClientCredentials_WithTokenURL(e *OauthFlowsDefsClientCredentials, val string) func(*OauthFlowsDefsClientCredentials) {
	vc.Modifies(&e.TokenURL)

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.TokenURL, val))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsClientCredentials_WithRefreshURL(e *OauthFlowsDefsClientCredentials, val string) func(*OauthFlowsDefsClientCredentials) {
	vc.Modifies(&e.RefreshURL)

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).WithScopes
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsClientCredentials_WithScopes(e *OauthFlowsDefsClientCredentials, val map[string]string) func(*OauthFlowsDefsClientCredentials) {
	vc.Modifies(&e.Scopes)

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).WithScopesItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsClientCredentials_WithScopesItem(e *OauthFlowsDefsClientCredentials, key string, val string) func(*OauthFlowsDefsClientCredentials) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsClientCredentials_WithMapOfAnything(e *OauthFlowsDefsClientCredentials, val map[string]interface{}) func(*OauthFlowsDefsClientCredentials) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OauthFlowsDefsClientCredentials).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsClientCredentials_WithMapOfAnythingItem(e *OauthFlowsDefsClientCredentials, key string, val interface{}) func(*OauthFlowsDefsClientCredentials) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OauthFlowsDefsClientCredentials) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithAuthorizationURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithAuthorizationURL(e *OauthFlowsDefsAuthorizationCode, val string) func(*OauthFlowsDefsAuthorizationCode) {
	vc.Modifies(&e.AuthorizationURL)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AuthorizationURL, val))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithTokenURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithTokenURL(e *OauthFlowsDefsAuthorizationCode, val string) func(*OauthFlowsDefsAuthorizationCode) {
	vc.Modifies(&e.TokenURL)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.TokenURL, val))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithRefreshURL(e *OauthFlowsDefsAuthorizationCode, val string) func(*OauthFlowsDefsAuthorizationCode) {
	vc.Modifies(&e.RefreshURL)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithScopes
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithScopes(e *OauthFlowsDefsAuthorizationCode, val map[string]string) func(*OauthFlowsDefsAuthorizationCode) {
	vc.Modifies(&e.Scopes)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithScopesItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithScopesItem(e *OauthFlowsDefsAuthorizationCode, key string, val string) func(*OauthFlowsDefsAuthorizationCode) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithMapOfAnything(e *OauthFlowsDefsAuthorizationCode, val map[string]interface{}) func(*OauthFlowsDefsAuthorizationCode) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OauthFlowsDefsAuthorizationCode).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OauthFlowsDefsAuthorizationCode_WithMapOfAnythingItem(e *OauthFlowsDefsAuthorizationCode, key string, val interface{}) func(*OauthFlowsDefsAuthorizationCode) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OauthFlowsDefsAuthorizationCode) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*SecuritySchemeOidc).WithOpenIDConnectURL
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOidc_WithOpenIDConnectURL(e *SecuritySchemeOidc, val string) func(*SecuritySchemeOidc) {
	vc.Modifies(&e.OpenIDConnectURL)

	return func(r *SecuritySchemeOidc) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.OpenIDConnectURL, val))
	}
}

//vc:func (*SecuritySchemeOrReference).WithReference
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrReference_WithReference(e *SecuritySchemeOrReference, val Reference) func(*SecuritySchemeOrReference) {
	vc.Modifies(&e.Reference)

	return func(r *SecuritySchemeOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Reference != nil && vc.Fresh(e.Reference) && vc.Eq(*e.Reference, val))
	}
}

//vc:func (*SecuritySchemeOrReference).ReferenceEns
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrReference_ReferenceEns(e *SecuritySchemeOrReference) func(*Reference) {
	old := e.Reference
	vc.Modifies(&e.Reference)
	var zero Reference

	return func(r *Reference) {
		vc.Ensure("returns the field", r == e.Reference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecuritySchemeOrReference).WithSecurityScheme
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrReference_WithSecurityScheme(e *SecuritySchemeOrReference, val SecurityScheme) func(*SecuritySchemeOrReference) {
	vc.Modifies(&e.SecurityScheme)

	return func(r *SecuritySchemeOrReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SecurityScheme != nil && vc.Fresh(e.SecurityScheme) && vc.Eq(*e.SecurityScheme, val))
	}
}

//vc:func (*SecuritySchemeOrReference).SecuritySchemeEns
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrReference_SecuritySchemeEns(e *SecuritySchemeOrReference) func(*SecurityScheme) {
	old := e.SecurityScheme
	vc.Modifies(&e.SecurityScheme)
	var zero SecurityScheme

	return func(r *SecurityScheme) {
		vc.Ensure("returns the field", r == e.SecurityScheme && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Tag).WithName
//vc:props C06
//vc:inline
func vcB_Tag_WithName(e *Tag, val string) func(*Tag) {
	vc.Modifies(&e.Name)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*Tag).WithDescription
//vc:props C06
//vc:inline
func vcB_Tag_WithDescription(e *Tag, val string) func(*Tag) {
	vc.Modifies(&e.Description)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Tag).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Tag_WithExternalDocs(e *Tag, val ExternalDocumentation) func(*Tag) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Tag).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Tag_ExternalDocsEns(e *Tag) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Tag).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Tag_WithMapOfAnything(e *Tag, val map[string]interface{}) func(*Tag) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Tag).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Tag_WithMapOfAnythingItem(e *Tag, key string, val interface{}) func(*Tag) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

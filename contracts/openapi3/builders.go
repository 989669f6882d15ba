// Code generated by tools/gen_builders.py. DO NOT EDIT.

package openapi3

import (
	"github.com/swaggest/openapi-go/internal/vc"
)

//vc:func (*Spec).WithOpenapi
//vc:props C06
//vc:inline
func vcB_Spec_WithOpenapi(e *Spec, val string) func(*Spec) {
	vc.Modifies(&e.Openapi)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Openapi, val))
	}
}

//vc:func (*Spec).WithInfo
//vc:props C06
//vc:inline
func vcB_Spec_WithInfo(e *Spec, val Info) func(*Spec) {
	vc.Modifies(&e.Info)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Info, val))
	}
}

//vc:func (*Spec).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Spec_WithExternalDocs(e *Spec, val ExternalDocumentation) func(*Spec) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Spec).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Spec_ExternalDocsEns(e *Spec) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Spec).WithServers
//vc:props C06
//vc:inline
func vcB_Spec_WithServers(e *Spec, val ...Server) func(*Spec) {
	vc.Modifies(&e.Servers)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Servers, val))
	}
}

//vc:func (*Spec).WithSecurity
//vc:props C06
//vc:inline
func vcB_Spec_WithSecurity(e *Spec, val ...map[string][]string) func(*Spec) {
	vc.Modifies(&e.Security)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Security, val))
	}
}

//vc:func (*Spec).WithTags
//vc:props C06
//vc:inline
func vcB_Spec_WithTags(e *Spec, val ...Tag) func(*Spec) {
	vc.Modifies(&e.Tags)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Tags, val))
	}
}

//vc:func (*Spec).WithPaths
//vc:props C06
//vc:inline
func vcB_Spec_WithPaths(e *Spec, val Paths) func(*Spec) {
	vc.Modifies(&e.Paths)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Paths, val))
	}
}

//vc:func (*Spec).WithComponents
//vc:props C06
//vc:inline
func vcB_Spec_WithComponents(e *Spec, val Components) func(*Spec) {
	vc.Modifies(&e.Components)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Components != nil && vc.Fresh(e.Components) && vc.Eq(*e.Components, val))
	}
}

//vc:func (*Spec).ComponentsEns
//vc:props C06
//vc:inline
func vcB_Spec_ComponentsEns(e *Spec) func(*Components) {
	old := e.Components
	vc.Modifies(&e.Components)
	var zero Components

	return func(r *Components) {
		vc.Ensure("returns the field", r == e.Components && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Spec).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Spec_WithMapOfAnything(e *Spec, val map[string]interface{}) func(*Spec) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Spec).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Spec_WithMapOfAnythingItem(e *Spec, key string, val interface{}) func(*Spec) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Spec) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Info).WithTitle
//vc:props C06
//vc:inline
func vcB_Info_WithTitle(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Title)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Title, val))
	}
}

//vc:func (*Info).WithDescription
//vc:props C06
//vc:inline
func vcB_Info_WithDescription(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Description)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Info).WithTermsOfService
//vc:props C06
//vc:inline
func vcB_Info_WithTermsOfService(e *Info, val string) func(*Info) {
	vc.Modifies(&e.TermsOfService)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.TermsOfService != nil && vc.Fresh(e.TermsOfService) && vc.Eq(*e.TermsOfService, val))
	}
}

//vc:func (*Info).WithContact
//vc:props C06
//vc:inline
func vcB_Info_WithContact(e *Info, val Contact) func(*Info) {
	vc.Modifies(&e.Contact)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Contact != nil && vc.Fresh(e.Contact) && vc.Eq(*e.Contact, val))
	}
}

//vc:func (*Info).ContactEns
//vc:props C06
//vc:inline
func vcB_Info_ContactEns(e *Info) func(*Contact) {
	old := e.Contact
	vc.Modifies(&e.Contact)
	var zero Contact

	return func(r *Contact) {
		vc.Ensure("returns the field", r == e.Contact && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Info).WithLicense
//vc:props C06
//vc:inline
func vcB_Info_WithLicense(e *Info, val License) func(*Info) {
	vc.Modifies(&e.License)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.License != nil && vc.Fresh(e.License) && vc.Eq(*e.License, val))
	}
}

//vc:func (*Info).LicenseEns
//vc:props C06
//vc:inline
func vcB_Info_LicenseEns(e *Info) func(*License) {
	old := e.License
	vc.Modifies(&e.License)
	var zero License

	return func(r *License) {
		vc.Ensure("returns the field", r == e.License && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Info).WithVersion
//vc:props C06
//vc:inline
func vcB_Info_WithVersion(e *Info, val string) func(*Info) {
	vc.Modifies(&e.Version)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Version, val))
	}
}

//vc:func (*Info).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Info_WithMapOfAnything(e *Info, val map[string]interface{}) func(*Info) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Info).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Info_WithMapOfAnythingItem(e *Info, key string, val interface{}) func(*Info) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Info) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Contact).WithName
//vc:props C06
//vc:inline
func vcB_Contact_WithName(e *Contact, val string) func(*Contact) {
	vc.Modifies(&e.Name)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Name != nil && vc.Fresh(e.Name) && vc.Eq(*e.Name, val))
	}
}

//vc:func (*Contact).WithURL
//vc:props C06
//vc:inline
func vcB_Contact_WithURL(e *Contact, val string) func(*Contact) {
	vc.Modifies(&e.URL)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.URL != nil && vc.Fresh(e.URL) && vc.Eq(*e.URL, val))
	}
}

//vc:func (*Contact).WithEmail
//vc:props C06
//vc:inline
func vcB_Contact_WithEmail(e *Contact, val string) func(*Contact) {
	vc.Modifies(&e.Email)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Email != nil && vc.Fresh(e.Email) && vc.Eq(*e.Email, val))
	}
}

//vc:func (*Contact).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Contact_WithMapOfAnything(e *Contact, val map[string]interface{}) func(*Contact) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Contact).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Contact_WithMapOfAnythingItem(e *Contact, key string, val interface{}) func(*Contact) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Contact) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*License).WithName
//vc:props C06
//vc:inline
func vcB_License_WithName(e *License, val string) func(*License) {
	vc.Modifies(&e.Name)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*License).WithURL
//vc:props C06
//vc:inline
func vcB_License_WithURL(e *License, val string) func(*License) {
	vc.Modifies(&e.URL)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.URL != nil && vc.Fresh(e.URL) && vc.Eq(*e.URL, val))
	}
}

//vc:func (*License).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_License_WithMapOfAnything(e *License, val map[string]interface{}) func(*License) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*License).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_License_WithMapOfAnythingItem(e *License, key string, val interface{}) func(*License) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *License) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ExternalDocumentation).WithDescription
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithDescription(e *ExternalDocumentation, val string) func(*ExternalDocumentation) {
	vc.Modifies(&e.Description)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*ExternalDocumentation).WithURL
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithURL(e *ExternalDocumentation, val string) func(*ExternalDocumentation) {
	vc.Modifies(&e.URL)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.URL, val))
	}
}

//vc:func (*ExternalDocumentation).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithMapOfAnything(e *ExternalDocumentation, val map[string]interface{}) func(*ExternalDocumentation) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*ExternalDocumentation).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_ExternalDocumentation_WithMapOfAnythingItem(e *ExternalDocumentation, key string, val interface{}) func(*ExternalDocumentation) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Server).WithURL
//vc:props C06
//vc:inline
func vcB_Server_WithURL(e *Server, val string) func(*Server) {
	vc.Modifies(&e.URL)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.URL, val))
	}
}

//vc:func (*Server).WithDescription
//vc:props C06
//vc:inline
func vcB_Server_WithDescription(e *Server, val string) func(*Server) {
	vc.Modifies(&e.Description)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Server).WithVariables
//vc:props C06
//vc:inline
func vcB_Server_WithVariables(e *Server, val map[string]ServerVariable) func(*Server) {
	vc.Modifies(&e.Variables)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Variables, val))
	}
}

//vc:func (*Server).WithVariablesItem
//vc:props C06
//vc:inline
func vcB_Server_WithVariablesItem(e *Server, key string, val ServerVariable) func(*Server) {
	prev := e.Variables
	old := vc.Snap(e.Variables)
	vc.Modifies(&e.Variables, e.Variables)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Variables[key]
		vc.Ensure("key is set", e.Variables != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Variables, prev) || vc.Fresh(e.Variables))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Variables[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Server).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Server_WithMapOfAnything(e *Server, val map[string]interface{}) func(*Server) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Server).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Server_WithMapOfAnythingItem(e *Server, key string, val interface{}) func(*Server) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Server) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ServerVariable).WithEnum
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithEnum(e *ServerVariable, val ...string) func(*ServerVariable) {
	vc.Modifies(&e.Enum)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Enum, val))
	}
}

//vc:func (*ServerVariable).WithDefault
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithDefault(e *ServerVariable, val string) func(*ServerVariable) {
	vc.Modifies(&e.Default)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Default, val))
	}
}

//vc:func (*ServerVariable).WithDescription
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithDescription(e *ServerVariable, val string) func(*ServerVariable) {
	vc.Modifies(&e.Description)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*ServerVariable).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithMapOfAnything(e *ServerVariable, val map[string]interface{}) func(*ServerVariable) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*ServerVariable).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_ServerVariable_WithMapOfAnythingItem(e *ServerVariable, key string, val interface{}) func(*ServerVariable) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *ServerVariable) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Tag).WithName
//vc:props C06
//vc:inline
func vcB_Tag_WithName(e *Tag, val string) func(*Tag) {
	vc.Modifies(&e.Name)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*Tag).WithDescription
//vc:props C06
//vc:inline
func vcB_Tag_WithDescription(e *Tag, val string) func(*Tag) {
	vc.Modifies(&e.Description)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Tag).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Tag_WithExternalDocs(e *Tag, val ExternalDocumentation) func(*Tag) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Tag).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Tag_ExternalDocsEns(e *Tag) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Tag).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Tag_WithMapOfAnything(e *Tag, val map[string]interface{}) func(*Tag) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Tag).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Tag_WithMapOfAnythingItem(e *Tag, key string, val interface{}) func(*Tag) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Tag) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*PathItem).WithRef
//vc:props C06
//vc:inline
func vcB_PathItem_WithRef(e *PathItem, val string) func(*PathItem) {
	vc.Modifies(&e.Ref)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Ref != nil && vc.Fresh(e.Ref) && vc.Eq(*e.Ref, val))
	}
}

//vc:func (*PathItem).WithSummary
//vc:props C06
//vc:inline
func vcB_PathItem_WithSummary(e *PathItem, val string) func(*PathItem) {
	vc.Modifies(&e.Summary)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*PathItem).WithDescription
//vc:props C06
//vc:inline
func vcB_PathItem_WithDescription(e *PathItem, val string) func(*PathItem) {
	vc.Modifies(&e.Description)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*PathItem).WithServers
//vc:props C06
//vc:inline
func vcB_PathItem_WithServers(e *PathItem, val ...Server) func(*PathItem) {
	vc.Modifies(&e.Servers)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Servers, val))
	}
}

//vc:func (*PathItem).WithParameters
//vc:props C06
//vc:inline
func vcB_PathItem_WithParameters(e *PathItem, val ...ParameterOrRef) func(*PathItem) {
	vc.Modifies(&e.Parameters)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*PathItem).WithMapOfOperationValues
//vc:props C06
//vc:inline
func vcB_PathItem_WithMapOfOperationValues(e *PathItem, val map[string]Operation) func(*PathItem) {
	vc.Modifies(&e.MapOfOperationValues)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfOperationValues, val))
	}
}

//vc:func (*PathItem).WithMapOfOperationValuesItem
//vc:props C06
//vc:inline
func vcB_PathItem_WithMapOfOperationValuesItem(e *PathItem, key string, val Operation) func(*PathItem) {
	prev := e.MapOfOperationValues
	old := vc.Snap(e.MapOfOperationValues)
	vc.Modifies(&e.MapOfOperationValues, e.MapOfOperationValues)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfOperationValues[key]
		vc.Ensure("key is set", e.MapOfOperationValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfOperationValues, prev) || vc.Fresh(e.MapOfOperationValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfOperationValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*PathItem).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_PathItem_WithMapOfAnything(e *PathItem, val map[string]interface{}) func(*PathItem) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*PathItem).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_PathItem_WithMapOfAnythingItem(e *PathItem, key string, val interface{}) func(*PathItem) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *PathItem) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ParameterReference).WithRef
//vc:props C06
//vc:inline
func vcB_ParameterReference_WithRef(e *ParameterReference, val string) func(*ParameterReference) {
	vc.Modifies(&e.Ref)

	return func(r *ParameterReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*Parameter).WithName
//vc:props C06
//vc:inline
func vcB_Parameter_WithName(e *Parameter, val string) func(*Parameter) {
	vc.Modifies(&e.Name)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*Parameter).WithIn
//vc:props C06
//vc:inline
func vcB_Parameter_WithIn(e *Parameter, val ParameterIn) func(*Parameter) {
	vc.Modifies(&e.In)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.In, val))
	}
}

//vc:func (*Parameter).WithDescription
//vc:props C06
//vc:inline
func vcB_Parameter_WithDescription(e *Parameter, val string) func(*Parameter) {
	vc.Modifies(&e.Description)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Parameter).WithRequired
//vc:props C06
//vc:inline
func vcB_Parameter_WithRequired(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.Required)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Required != nil && vc.Fresh(e.Required) && vc.Eq(*e.Required, val))
	}
}

//vc:func (*Parameter).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Parameter_WithDeprecated(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.Deprecated)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Parameter).WithAllowEmptyValue
//vc:props C06
//vc:inline
func vcB_Parameter_WithAllowEmptyValue(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.AllowEmptyValue)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AllowEmptyValue != nil && vc.Fresh(e.AllowEmptyValue) && vc.Eq(*e.AllowEmptyValue, val))
	}
}

//vc:func (*Parameter).WithStyle
//vc:props C06
//vc:inline
func vcB_Parameter_WithStyle(e *Parameter, val string) func(*Parameter) {
	vc.Modifies(&e.Style)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Style != nil && vc.Fresh(e.Style) && vc.Eq(*e.Style, val))
	}
}

//vc:func (*Parameter).WithExplode
//vc:props C06
//vc:inline
func vcB_Parameter_WithExplode(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.Explode)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Explode != nil && vc.Fresh(e.Explode) && vc.Eq(*e.Explode, val))
	}
}

//vc:func (*Parameter).WithAllowReserved
//vc:props C06
//vc:inline
func vcB_Parameter_WithAllowReserved(e *Parameter, val bool) func(*Parameter) {
	vc.Modifies(&e.AllowReserved)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AllowReserved != nil && vc.Fresh(e.AllowReserved) && vc.Eq(*e.AllowReserved, val))
	}
}

//vc:func (*Parameter).WithSchema
//vc:props C06
//vc:inline
func vcB_Parameter_WithSchema(e *Parameter, val SchemaOrRef) func(*Parameter) {
	vc.Modifies(&e.Schema)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Schema != nil && vc.Fresh(e.Schema) && vc.Eq(*e.Schema, val))
	}
}

//vc:func (*Parameter).SchemaEns
//vc:props C06
//vc:inline
func vcB_Parameter_SchemaEns(e *Parameter) func(*SchemaOrRef) {
	old := e.Schema
	vc.Modifies(&e.Schema)
	var zero SchemaOrRef

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the field", r == e.Schema && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Parameter).WithContent
//vc:props C06
//vc:inline
func vcB_Parameter_WithContent(e *Parameter, val map[string]MediaType) func(*Parameter) {
	vc.Modifies(&e.Content)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*Parameter).WithContentItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithContentItem(e *Parameter, key string, val MediaType) func(*Parameter) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Parameter).WithExample
//vc:props C06
//vc:inline
func vcB_Parameter_WithExample(e *Parameter, val interface{}) func(*Parameter) {
	vc.Modifies(&e.Example)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*Parameter).WithExamples
//vc:props C06
//vc:inline
func vcB_Parameter_WithExamples(e *Parameter, val map[string]ExampleOrRef) func(*Parameter) {
	vc.Modifies(&e.Examples)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*Parameter).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithExamplesItem(e *Parameter, key string, val ExampleOrRef) func(*Parameter) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Parameter).WithSchemaXORContent
//vc:props C06
//vc:inline
func vcB_Parameter_WithSchemaXORContent(e *Parameter, val SchemaXORContent) func(*Parameter) {
	vc.Modifies(&e.SchemaXORContent)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SchemaXORContent != nil && vc.Fresh(e.SchemaXORContent) && vc.Eq(*e.SchemaXORContent, val))
	}
}

//vc:func (*Parameter).SchemaXORContentEns
//vc:props C06
//vc:inline
func vcB_Parameter_SchemaXORContentEns(e *Parameter) func(*SchemaXORContent) {
	old := e.SchemaXORContent
	vc.Modifies(&e.SchemaXORContent)
	var zero SchemaXORContent

	return func(r *SchemaXORContent) {
		vc.Ensure("returns the field", r == e.SchemaXORContent && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Parameter).WithLocation
//vc:props C06
//vc:inline
func vcB_Parameter_WithLocation(e *Parameter, val ParameterLocation) func(*Parameter) {
	vc.Modifies(&e.Location)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Location != nil && vc.Fresh(e.Location) && vc.Eq(*e.Location, val))
	}
}

//vc:func (*Parameter).LocationEns
//vc:props C06
//vc:inline
func vcB_Parameter_LocationEns(e *Parameter) func(*ParameterLocation) {
	old := e.Location
	vc.Modifies(&e.Location)
	var zero ParameterLocation

	return func(r *ParameterLocation) {
		vc.Ensure("returns the field", r == e.Location && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Parameter).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Parameter_WithMapOfAnything(e *Parameter, val map[string]interface{}) func(*Parameter) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Parameter).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Parameter_WithMapOfAnythingItem(e *Parameter, key string, val interface{}) func(*Parameter) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Parameter) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Schema).WithTitle
//vc:props C06
//vc:inline
func vcB_Schema_WithTitle(e *Schema, val string) func(*Schema) {
	vc.Modifies(&e.Title)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Title != nil && vc.Fresh(e.Title) && vc.Eq(*e.Title, val))
	}
}

//vc:func (*Schema).WithMultipleOf
//vc:props C06
//vc:inline
func vcB_Schema_WithMultipleOf(e *Schema, val float64) func(*Schema) {
	vc.Modifies(&e.MultipleOf)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MultipleOf != nil && vc.Fresh(e.MultipleOf) && vc.Eq(*e.MultipleOf, val))
	}
}

//vc:func (*Schema).WithMaximum
//vc:props C06
//vc:inline
func vcB_Schema_WithMaximum(e *Schema, val float64) func(*Schema) {
	vc.Modifies(&e.Maximum)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Maximum != nil && vc.Fresh(e.Maximum) && vc.Eq(*e.Maximum, val))
	}
}

//vc:func (*Schema).WithExclusiveMaximum
//vc:props C06
//vc:inline
func vcB_Schema_WithExclusiveMaximum(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.ExclusiveMaximum)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExclusiveMaximum != nil && vc.Fresh(e.ExclusiveMaximum) && vc.Eq(*e.ExclusiveMaximum, val))
	}
}

//vc:func (*Schema).WithMinimum
//vc:props C06
//vc:inline
func vcB_Schema_WithMinimum(e *Schema, val float64) func(*Schema) {
	vc.Modifies(&e.Minimum)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Minimum != nil && vc.Fresh(e.Minimum) && vc.Eq(*e.Minimum, val))
	}
}

//vc:func (*Schema).WithExclusiveMinimum
//vc:props C06
//vc:inline
func vcB_Schema_WithExclusiveMinimum(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.ExclusiveMinimum)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExclusiveMinimum != nil && vc.Fresh(e.ExclusiveMinimum) && vc.Eq(*e.ExclusiveMinimum, val))
	}
}

//vc:func (*Schema).WithMaxLength
//vc:props C06
//vc:inline
func vcB_Schema_WithMaxLength(e *Schema, val int64) func(*Schema) {
	vc.Modifies(&e.MaxLength)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MaxLength != nil && vc.Fresh(e.MaxLength) && vc.Eq(*e.MaxLength, val))
	}
}

//vc:func (*Schema).WithMinLength
//vc:props C06
//vc:inline
func vcB_Schema_WithMinLength(e *Schema, val int64) func(*Schema) {
	vc.Modifies(&e.MinLength)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MinLength != nil && vc.Fresh(e.MinLength) && vc.Eq(*e.MinLength, val))
	}
}

//vc:func (*Schema).WithPattern
//vc:props C06
//vc:inline
func vcB_Schema_WithPattern(e *Schema, val string) func(*Schema) {
	vc.Modifies(&e.Pattern)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Pattern != nil && vc.Fresh(e.Pattern) && vc.Eq(*e.Pattern, val))
	}
}

//vc:func (*Schema).WithMaxItems
//vc:props C06
//vc:inline
func vcB_Schema_WithMaxItems(e *Schema, val int64) func(*Schema) {
	vc.Modifies(&e.MaxItems)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MaxItems != nil && vc.Fresh(e.MaxItems) && vc.Eq(*e.MaxItems, val))
	}
}

//vc:func (*Schema).WithMinItems
//vc:props C06
//vc:inline
func vcB_Schema_WithMinItems(e *Schema, val int64) func(*Schema) {
	vc.Modifies(&e.MinItems)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MinItems != nil && vc.Fresh(e.MinItems) && vc.Eq(*e.MinItems, val))
	}
}

//vc:func (*Schema).WithUniqueItems
//vc:props C06
//vc:inline
func vcB_Schema_WithUniqueItems(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.UniqueItems)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.UniqueItems != nil && vc.Fresh(e.UniqueItems) && vc.Eq(*e.UniqueItems, val))
	}
}

//vc:func (*Schema).WithMaxProperties
//vc:props C06
//vc:inline
func vcB_Schema_WithMaxProperties(e *Schema, val int64) func(*Schema) {
	vc.Modifies(&e.MaxProperties)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MaxProperties != nil && vc.Fresh(e.MaxProperties) && vc.Eq(*e.MaxProperties, val))
	}
}

//vc:func (*Schema).WithMinProperties
//vc:props C06
//vc:inline
func vcB_Schema_WithMinProperties(e *Schema, val int64) func(*Schema) {
	vc.Modifies(&e.MinProperties)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.MinProperties != nil && vc.Fresh(e.MinProperties) && vc.Eq(*e.MinProperties, val))
	}
}

//vc:func (*Schema).WithRequired
//vc:props C06
//vc:inline
func vcB_Schema_WithRequired(e *Schema, val ...string) func(*Schema) {
	vc.Modifies(&e.Required)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Required, val))
	}
}

//vc:func (*Schema).WithEnum
//vc:props C06
//vc:inline
func vcB_Schema_WithEnum(e *Schema, val ...interface{}) func(*Schema) {
	vc.Modifies(&e.Enum)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Enum, val))
	}
}

//vc:func (*Schema).WithType
//vc:props C06
//vc:inline
func vcB_Schema_WithType(e *Schema, val SchemaType) func(*Schema) {
	vc.Modifies(&e.Type)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Type != nil && vc.Fresh(e.Type) && vc.Eq(*e.Type, val))
	}
}

//vc:func (*Schema).WithNot
//vc:props C06
//vc:inline
func vcB_Schema_WithNot(e *Schema, val SchemaOrRef) func(*Schema) {
	vc.Modifies(&e.Not)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Not != nil && vc.Fresh(e.Not) && vc.Eq(*e.Not, val))
	}
}

//vc:func (*Schema).NotEns
//vc:props C06
//vc:inline
func vcB_Schema_NotEns(e *Schema) func(*SchemaOrRef) {
	old := e.Not
	vc.Modifies(&e.Not)
	var zero SchemaOrRef

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the field", r == e.Not && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Schema).WithAllOf
//vc:props C06
//vc:inline
func vcB_Schema_WithAllOf(e *Schema, val ...SchemaOrRef) func(*Schema) {
	vc.Modifies(&e.AllOf)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AllOf, val))
	}
}

//vc:func (*Schema).WithOneOf
//vc:props C06
//vc:inline
func vcB_Schema_WithOneOf(e *Schema, val ...SchemaOrRef) func(*Schema) {
	vc.Modifies(&e.OneOf)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.OneOf, val))
	}
}

//vc:func (*Schema).WithAnyOf
//vc:props C06
//vc:inline
func vcB_Schema_WithAnyOf(e *Schema, val ...SchemaOrRef) func(*Schema) {
	vc.Modifies(&e.AnyOf)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AnyOf, val))
	}
}

//vc:func (*Schema).WithItems
//vc:props C06
//vc:inline
func vcB_Schema_WithItems(e *Schema, val SchemaOrRef) func(*Schema) {
	vc.Modifies(&e.Items)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Items != nil && vc.Fresh(e.Items) && vc.Eq(*e.Items, val))
	}
}

//vc:func (*Schema).ItemsEns
//vc:props C06
//vc:inline
func vcB_Schema_ItemsEns(e *Schema) func(*SchemaOrRef) {
	old := e.Items
	vc.Modifies(&e.Items)
	var zero SchemaOrRef

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the field", r == e.Items && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Schema).WithProperties
//vc:props C06
//vc:inline
func vcB_Schema_WithProperties(e *Schema, val map[string]SchemaOrRef) func(*Schema) {
	vc.Modifies(&e.Properties)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Properties, val))
	}
}

//vc:func (*Schema).WithPropertiesItem
//vc:props C06
//vc:inline
func vcB_Schema_WithPropertiesItem(e *Schema, key string, val SchemaOrRef) func(*Schema) {
	prev := e.Properties
	old := vc.Snap(e.Properties)
	vc.Modifies(&e.Properties, e.Properties)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Properties[key]
		vc.Ensure("key is set", e.Properties != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Properties, prev) || vc.Fresh(e.Properties))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Properties[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Schema).WithAdditionalProperties
//vc:props C06
//vc:inline
func vcB_Schema_WithAdditionalProperties(e *Schema, val SchemaAdditionalProperties) func(*Schema) {
	vc.Modifies(&e.AdditionalProperties)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AdditionalProperties != nil && vc.Fresh(e.AdditionalProperties) && vc.Eq(*e.AdditionalProperties, val))
	}
}

//vc:func (*Schema).AdditionalPropertiesEns
//vc:props C06
//vc:inline
func vcB_Schema_AdditionalPropertiesEns(e *Schema) func(*SchemaAdditionalProperties) {
	old := e.AdditionalProperties
	vc.Modifies(&e.AdditionalProperties)
	var zero SchemaAdditionalProperties

	return func(r *SchemaAdditionalProperties) {
		vc.Ensure("returns the field", r == e.AdditionalProperties && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Schema).WithDescription
//vc:props C06
//vc:inline
func vcB_Schema_WithDescription(e *Schema, val string) func(*Schema) {
	vc.Modifies(&e.Description)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Schema).WithFormat
//vc:props C06
//vc:inline
func vcB_Schema_WithFormat(e *Schema, val string) func(*Schema) {
	vc.Modifies(&e.Format)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Format != nil && vc.Fresh(e.Format) && vc.Eq(*e.Format, val))
	}
}

//vc:func (*Schema).WithDefault
//vc:props C06
//vc:inline
func vcB_Schema_WithDefault(e *Schema, val interface{}) func(*Schema) {
	vc.Modifies(&e.Default)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Default != nil && vc.Fresh(e.Default) && vc.Eq(*e.Default, val))
	}
}

//vc:func (*Schema).WithNullable
//vc:props C06
//vc:inline
func vcB_Schema_WithNullable(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.Nullable)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Nullable != nil && vc.Fresh(e.Nullable) && vc.Eq(*e.Nullable, val))
	}
}

//vc:func (*Schema).WithDiscriminator
//vc:props C06
//vc:inline
func vcB_Schema_WithDiscriminator(e *Schema, val Discriminator) func(*Schema) {
	vc.Modifies(&e.Discriminator)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Discriminator != nil && vc.Fresh(e.Discriminator) && vc.Eq(*e.Discriminator, val))
	}
}

//vc:func (*Schema).DiscriminatorEns
//vc:props C06
//vc:inline
func vcB_Schema_DiscriminatorEns(e *Schema) func(*Discriminator) {
	old := e.Discriminator
	vc.Modifies(&e.Discriminator)
	var zero Discriminator

	return func(r *Discriminator) {
		vc.Ensure("returns the field", r == e.Discriminator && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Schema).WithReadOnly
//vc:props C06
//vc:inline
func vcB_Schema_WithReadOnly(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.ReadOnly)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ReadOnly != nil && vc.Fresh(e.ReadOnly) && vc.Eq(*e.ReadOnly, val))
	}
}

//vc:func (*Schema).WithWriteOnly
//vc:props C06
//vc:inline
func vcB_Schema_WithWriteOnly(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.WriteOnly)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.WriteOnly != nil && vc.Fresh(e.WriteOnly) && vc.Eq(*e.WriteOnly, val))
	}
}

//vc:func (*Schema).WithExample
//vc:props C06
//vc:inline
func vcB_Schema_WithExample(e *Schema, val interface{}) func(*Schema) {
	vc.Modifies(&e.Example)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*Schema).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Schema_WithExternalDocs(e *Schema, val ExternalDocumentation) func(*Schema) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Schema).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Schema_ExternalDocsEns(e *Schema) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Schema).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Schema_WithDeprecated(e *Schema, val bool) func(*Schema) {
	vc.Modifies(&e.Deprecated)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Schema).WithXML
//vc:props C06
//vc:inline
func vcB_Schema_WithXML(e *Schema, val XML) func(*Schema) {
	vc.Modifies(&e.XML)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.XML != nil && vc.Fresh(e.XML) && vc.Eq(*e.XML, val))
	}
}

//vc:func (*Schema).XMLEns
//vc:props C06
//vc:inline
func vcB_Schema_XMLEns(e *Schema) func(*XML) {
	old := e.XML
	vc.Modifies(&e.XML)
	var zero XML

	return func(r *XML) {
		vc.Ensure("returns the field", r == e.XML && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Schema).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Schema_WithMapOfAnything(e *Schema, val map[string]interface{}) func(*Schema) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Schema).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Schema_WithMapOfAnythingItem(e *Schema, key string, val interface{}) func(*Schema) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Schema) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*SchemaReference).WithRef
//vc:props C06
//vc:inline
func vcB_SchemaReference_WithRef(e *SchemaReference, val string) func(*SchemaReference) {
	vc.Modifies(&e.Ref)

	return func(r *SchemaReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*SchemaOrRef).WithSchema
//vc:props C06
//vc:inline
func vcB_SchemaOrRef_WithSchema(e *SchemaOrRef, val Schema) func(*SchemaOrRef) {
	vc.Modifies(&e.Schema)

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Schema != nil && vc.Fresh(e.Schema) && vc.Eq(*e.Schema, val))
	}
}

//vc:func (*SchemaOrRef).SchemaEns
//vc:props C06
//vc:inline
func vcB_SchemaOrRef_SchemaEns(e *SchemaOrRef) func(*Schema) {
	old := e.Schema
	vc.Modifies(&e.Schema)
	var zero Schema

	return func(r *Schema) {
		vc.Ensure("returns the field", r == e.Schema && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SchemaOrRef).WithSchemaReference
//vc:props C06
//vc:inline
func vcB_SchemaOrRef_WithSchemaReference(e *SchemaOrRef, val SchemaReference) func(*SchemaOrRef) {
	vc.Modifies(&e.SchemaReference)

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SchemaReference != nil && vc.Fresh(e.SchemaReference) && vc.Eq(*e.SchemaReference, val))
	}
}

//vc:func (*SchemaOrRef).SchemaReferenceEns
//vc:props C06
//vc:inline
func vcB_SchemaOrRef_SchemaReferenceEns(e *SchemaOrRef) func(*SchemaReference) {
	old := e.SchemaReference
	vc.Modifies(&e.SchemaReference)
	var zero SchemaReference

	return func(r *SchemaReference) {
		vc.Ensure("returns the field", r == e.SchemaReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SchemaAdditionalProperties).WithSchemaOrRef
//vc:props C06
//vc:inline
func vcB_SchemaAdditionalProperties_WithSchemaOrRef(e *SchemaAdditionalProperties, val SchemaOrRef) func(*SchemaAdditionalProperties) {
	vc.Modifies(&e.SchemaOrRef)

	return func(r *SchemaAdditionalProperties) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SchemaOrRef != nil && vc.Fresh(e.SchemaOrRef) && vc.Eq(*e.SchemaOrRef, val))
	}
}

//vc:func (*SchemaAdditionalProperties).SchemaOrRefEns
//vc:props C06
//vc:inline
func vcB_SchemaAdditionalProperties_SchemaOrRefEns(e *SchemaAdditionalProperties) func(*SchemaOrRef) {
	old := e.SchemaOrRef
	vc.Modifies(&e.SchemaOrRef)
	var zero SchemaOrRef

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the field", r == e.SchemaOrRef && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SchemaAdditionalProperties).WithBool
//vc:props C06
//vc:inline
func vcB_SchemaAdditionalProperties_WithBool(e *SchemaAdditionalProperties, val bool) func(*SchemaAdditionalProperties) {
	vc.Modifies(&e.Bool)

	return func(r *SchemaAdditionalProperties) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Bool != nil && vc.Fresh(e.Bool) && vc.Eq(*e.Bool, val))
	}
}

//vc:func (*Discriminator).WithPropertyName
//vc:props C06
//vc:inline
func vcB_Discriminator_WithPropertyName(e *Discriminator, val string) func(*Discriminator) {
	vc.Modifies(&e.PropertyName)

	return func(r *Discriminator) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.PropertyName, val))
	}
}

//vc:func (*Discriminator).WithMapping
//vc:props C06
//vc:inline
func vcB_Discriminator_WithMapping(e *Discriminator, val map[string]string) func(*Discriminator) {
	vc.Modifies(&e.Mapping)

	return func(r *Discriminator) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Mapping, val))
	}
}

//vc:func (*Discriminator).WithMappingItem
//vc:props C06
//vc:inline
func vcB_Discriminator_WithMappingItem(e *Discriminator, key string, val string) func(*Discriminator) {
	prev := e.Mapping
	old := vc.Snap(e.Mapping)
	vc.Modifies(&e.Mapping, e.Mapping)

	return func(r *Discriminator) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Mapping[key]
		vc.Ensure("key is set", e.Mapping != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Mapping, prev) || vc.Fresh(e.Mapping))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Mapping[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*XML).WithName
//vc:props C06
//vc:inline
func vcB_XML_WithName(e *XML, val string) func(*XML) {
	vc.Modifies(&e.Name)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Name != nil && vc.Fresh(e.Name) && vc.Eq(*e.Name, val))
	}
}

//vc:func (*XML).WithNamespace
//vc:props C06
//vc:inline
func vcB_XML_WithNamespace(e *XML, val string) func(*XML) {
	vc.Modifies(&e.Namespace)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Namespace != nil && vc.Fresh(e.Namespace) && vc.Eq(*e.Namespace, val))
	}
}

//vc:func (*XML).WithPrefix
//vc:props C06
//vc:inline
func vcB_XML_WithPrefix(e *XML, val string) func(*XML) {
	vc.Modifies(&e.Prefix)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Prefix != nil && vc.Fresh(e.Prefix) && vc.Eq(*e.Prefix, val))
	}
}

//vc:func (*XML).WithAttribute
//vc:props C06
//vc:inline
func vcB_XML_WithAttribute(e *XML, val bool) func(*XML) {
	vc.Modifies(&e.Attribute)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Attribute != nil && vc.Fresh(e.Attribute) && vc.Eq(*e.Attribute, val))
	}
}

//vc:func (*XML).WithWrapped
//vc:props C06
//vc:inline
func vcB_XML_WithWrapped(e *XML, val bool) func(*XML) {
	vc.Modifies(&e.Wrapped)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Wrapped != nil && vc.Fresh(e.Wrapped) && vc.Eq(*e.Wrapped, val))
	}
}

//vc:func (*XML).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_XML_WithMapOfAnything(e *XML, val map[string]interface{}) func(*XML) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*XML).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_XML_WithMapOfAnythingItem(e *XML, key string, val interface{}) func(*XML) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *XML) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithSchema
//vc:props C06
//vc:inline
func vcB_MediaType_WithSchema(e *MediaType, val SchemaOrRef) func(*MediaType) {
	vc.Modifies(&e.Schema)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Schema != nil && vc.Fresh(e.Schema) && vc.Eq(*e.Schema, val))
	}
}

//vc:func (*MediaType).SchemaEns
//vc:props C06
//vc:inline
func vcB_MediaType_SchemaEns(e *MediaType) func(*SchemaOrRef) {
	old := e.Schema
	vc.Modifies(&e.Schema)
	var zero SchemaOrRef

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the field", r == e.Schema && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*MediaType).WithExample
//vc:props C06
//vc:inline
func vcB_MediaType_WithExample(e *MediaType, val interface{}) func(*MediaType) {
	vc.Modifies(&e.Example)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*MediaType).WithExamples
//vc:props C06
//vc:inline
func vcB_MediaType_WithExamples(e *MediaType, val map[string]ExampleOrRef) func(*MediaType) {
	vc.Modifies(&e.Examples)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*MediaType).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithExamplesItem(e *MediaType, key string, val ExampleOrRef) func(*MediaType) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithEncoding
//vc:props C06
//vc:inline
func vcB_MediaType_WithEncoding(e *MediaType, val map[string]Encoding) func(*MediaType) {
	vc.Modifies(&e.Encoding)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Encoding, val))
	}
}

//vc:func (*MediaType).WithEncodingItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithEncodingItem(e *MediaType, key string, val Encoding) func(*MediaType) {
	prev := e.Encoding
	old := vc.Snap(e.Encoding)
	vc.Modifies(&e.Encoding, e.Encoding)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Encoding[key]
		vc.Ensure("key is set", e.Encoding != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Encoding, prev) || vc.Fresh(e.Encoding))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Encoding[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*MediaType).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_MediaType_WithMapOfAnything(e *MediaType, val map[string]interface{}) func(*MediaType) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*MediaType).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_MediaType_WithMapOfAnythingItem(e *MediaType, key string, val interface{}) func(*MediaType) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *MediaType) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ExampleReference).WithRef
//vc:props C06
//vc:inline
func vcB_ExampleReference_WithRef(e *ExampleReference, val string) func(*ExampleReference) {
	vc.Modifies(&e.Ref)

	return func(r *ExampleReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*Example).WithSummary
//vc:props C06
//vc:inline
func vcB_Example_WithSummary(e *Example, val string) func(*Example) {
	vc.Modifies(&e.Summary)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*Example).WithDescription
//vc:props C06
//vc:inline
func vcB_Example_WithDescription(e *Example, val string) func(*Example) {
	vc.Modifies(&e.Description)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Example).WithValue
//vc:props C06
//vc:inline
func vcB_Example_WithValue(e *Example, val interface{}) func(*Example) {
	vc.Modifies(&e.Value)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Value != nil && vc.Fresh(e.Value) && vc.Eq(*e.Value, val))
	}
}

//vc:func (*Example).WithExternalValue
//vc:props C06
//vc:inline
func vcB_Example_WithExternalValue(e *Example, val string) func(*Example) {
	vc.Modifies(&e.ExternalValue)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalValue != nil && vc.Fresh(e.ExternalValue) && vc.Eq(*e.ExternalValue, val))
	}
}

//vc:func (*Example).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Example_WithMapOfAnything(e *Example, val map[string]interface{}) func(*Example) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Example).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Example_WithMapOfAnythingItem(e *Example, key string, val interface{}) func(*Example) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Example) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ExampleOrRef).WithExampleReference
//vc:props C06
//vc:inline
func vcB_ExampleOrRef_WithExampleReference(e *ExampleOrRef, val ExampleReference) func(*ExampleOrRef) {
	vc.Modifies(&e.ExampleReference)

	return func(r *ExampleOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExampleReference != nil && vc.Fresh(e.ExampleReference) && vc.Eq(*e.ExampleReference, val))
	}
}

//vc:func (*ExampleOrRef).ExampleReferenceEns
//vc:props C06
//vc:inline
func vcB_ExampleOrRef_ExampleReferenceEns(e *ExampleOrRef) func(*ExampleReference) {
	old := e.ExampleReference
	vc.Modifies(&e.ExampleReference)
	var zero ExampleReference

	return func(r *ExampleReference) {
		vc.Ensure("returns the field", r == e.ExampleReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ExampleOrRef).WithExample
//vc:props C06
//vc:inline
func vcB_ExampleOrRef_WithExample(e *ExampleOrRef, val Example) func(*ExampleOrRef) {
	vc.Modifies(&e.Example)

	return func(r *ExampleOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*ExampleOrRef).ExampleEns
//vc:props C06
//vc:inline
func vcB_ExampleOrRef_ExampleEns(e *ExampleOrRef) func(*Example) {
	old := e.Example
	vc.Modifies(&e.Example)
	var zero Example

	return func(r *Example) {
		vc.Ensure("returns the field", r == e.Example && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Encoding).WithContentType
//vc:props C06
//vc:inline
func vcB_Encoding_WithContentType(e *Encoding, val string) func(*Encoding) {
	vc.Modifies(&e.ContentType)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ContentType != nil && vc.Fresh(e.ContentType) && vc.Eq(*e.ContentType, val))
	}
}

//vc:func (*Encoding).WithHeaders
//vc:props C06
//vc:inline
func vcB_Encoding_WithHeaders(e *Encoding, val map[string]Header) func(*Encoding) {
	vc.Modifies(&e.Headers)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Headers, val))
	}
}

//vc:func (*Encoding).WithHeadersItem
//vc:props C06
//vc:inline
func vcB_Encoding_WithHeadersItem(e *Encoding, key string, val Header) func(*Encoding) {
	prev := e.Headers
	old := vc.Snap(e.Headers)
	vc.Modifies(&e.Headers, e.Headers)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Headers[key]
		vc.Ensure("key is set", e.Headers != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Headers, prev) || vc.Fresh(e.Headers))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Headers[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Encoding).WithStyle
//vc:props C06
//vc:inline
func vcB_Encoding_WithStyle(e *Encoding, val EncodingStyle) func(*Encoding) {
	vc.Modifies(&e.Style)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Style != nil && vc.Fresh(e.Style) && vc.Eq(*e.Style, val))
	}
}

//vc:func (*Encoding).WithExplode
//vc:props C06
//vc:inline
func vcB_Encoding_WithExplode(e *Encoding, val bool) func(*Encoding) {
	vc.Modifies(&e.Explode)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Explode != nil && vc.Fresh(e.Explode) && vc.Eq(*e.Explode, val))
	}
}

//vc:func (*Encoding).WithAllowReserved
//vc:props C06
//vc:inline
func vcB_Encoding_WithAllowReserved(e *Encoding, val bool) func(*Encoding) {
	vc.Modifies(&e.AllowReserved)

	return func(r *Encoding) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AllowReserved != nil && vc.Fresh(e.AllowReserved) && vc.Eq(*e.AllowReserved, val))
	}
}

//vc:func (*Header).WithDescription
//vc:props C06
//vc:inline
func vcB_Header_WithDescription(e *Header, val string) func(*Header) {
	vc.Modifies(&e.Description)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Header).WithRequired
//vc:props C06
//vc:inline
func vcB_Header_WithRequired(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.Required)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Required != nil && vc.Fresh(e.Required) && vc.Eq(*e.Required, val))
	}
}

//vc:func (*Header).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Header_WithDeprecated(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.Deprecated)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Header).WithAllowEmptyValue
//vc:props C06
//vc:inline
func vcB_Header_WithAllowEmptyValue(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.AllowEmptyValue)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AllowEmptyValue != nil && vc.Fresh(e.AllowEmptyValue) && vc.Eq(*e.AllowEmptyValue, val))
	}
}

//vc:func (*Header).WithExplode
//vc:props C06
//vc:inline
func vcB_Header_WithExplode(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.Explode)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Explode != nil && vc.Fresh(e.Explode) && vc.Eq(*e.Explode, val))
	}
}

//vc:func (*Header).WithAllowReserved
//vc:props C06
//vc:inline
func vcB_Header_WithAllowReserved(e *Header, val bool) func(*Header) {
	vc.Modifies(&e.AllowReserved)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AllowReserved != nil && vc.Fresh(e.AllowReserved) && vc.Eq(*e.AllowReserved, val))
	}
}

//vc:func (*Header).WithSchema
//vc:props C06
//vc:inline
func vcB_Header_WithSchema(e *Header, val SchemaOrRef) func(*Header) {
	vc.Modifies(&e.Schema)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Schema != nil && vc.Fresh(e.Schema) && vc.Eq(*e.Schema, val))
	}
}

//vc:func (*Header).SchemaEns
//vc:props C06
//vc:inline
func vcB_Header_SchemaEns(e *Header) func(*SchemaOrRef) {
	old := e.Schema
	vc.Modifies(&e.Schema)
	var zero SchemaOrRef

	return func(r *SchemaOrRef) {
		vc.Ensure("returns the field", r == e.Schema && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Header).WithContent
//vc:props C06
//vc:inline
func vcB_Header_WithContent(e *Header, val map[string]MediaType) func(*Header) {
	vc.Modifies(&e.Content)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*Header).WithContentItem
//vc:props C06
//vc:inline
func vcB_Header_WithContentItem(e *Header, key string, val MediaType) func(*Header) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Header).WithExample
//vc:props C06
//vc:inline
func vcB_Header_WithExample(e *Header, val interface{}) func(*Header) {
	vc.Modifies(&e.Example)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Example != nil && vc.Fresh(e.Example) && vc.Eq(*e.Example, val))
	}
}

//vc:func (*Header).WithExamples
//vc:props C06
//vc:inline
func vcB_Header_WithExamples(e *Header, val map[string]ExampleOrRef) func(*Header) {
	vc.Modifies(&e.Examples)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Examples, val))
	}
}

//vc:func (*Header).WithExamplesItem
//vc:props C06
//vc:inline
func vcB_Header_WithExamplesItem(e *Header, key string, val ExampleOrRef) func(*Header) {
	prev := e.Examples
	old := vc.Snap(e.Examples)
	vc.Modifies(&e.Examples, e.Examples)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Examples[key]
		vc.Ensure("key is set", e.Examples != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Examples, prev) || vc.Fresh(e.Examples))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Examples[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Header).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Header_WithMapOfAnything(e *Header, val map[string]interface{}) func(*Header) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Header).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Header_WithMapOfAnythingItem(e *Header, key string, val interface{}) func(*Header) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Header) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*HasSchema).WithSchema
//vc:props C06
//vc:inline
func vcB_HasSchema_WithSchema(e *HasSchema, val interface{}) func(*HasSchema) {
	vc.Modifies(&e.Schema)

	return func(r *HasSchema) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Schema, val))
	}
}

//vc:func (*HasContent).WithContent
//vc:props C06
//vc:inline
func vcB_HasContent_WithContent(e *HasContent, val interface{}) func(*HasContent) {
	vc.Modifies(&e.Content)

	return func(r *HasContent) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*SchemaXORContent).WithHasSchema
//vc:props C06
//vc:inline
func vcB_SchemaXORContent_WithHasSchema(e *SchemaXORContent, val HasSchema) func(*SchemaXORContent) {
	vc.Modifies(&e.HasSchema)

	return func(r *SchemaXORContent) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HasSchema != nil && vc.Fresh(e.HasSchema) && vc.Eq(*e.HasSchema, val))
	}
}

//vc:func (*SchemaXORContent).HasSchemaEns
//vc:props C06
//vc:inline
func vcB_SchemaXORContent_HasSchemaEns(e *SchemaXORContent) func(*HasSchema) {
	old := e.HasSchema
	vc.Modifies(&e.HasSchema)
	var zero HasSchema

	return func(r *HasSchema) {
		vc.Ensure("returns the field", r == e.HasSchema && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SchemaXORContent).WithHasContent
//vc:props C06
//vc:inline
func vcB_SchemaXORContent_WithHasContent(e *SchemaXORContent, val HasContent) func(*SchemaXORContent) {
	vc.Modifies(&e.HasContent)

	return func(r *SchemaXORContent) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HasContent != nil && vc.Fresh(e.HasContent) && vc.Eq(*e.HasContent, val))
	}
}

//vc:func (*SchemaXORContent).HasContentEns
//vc:props C06
//vc:inline
func vcB_SchemaXORContent_HasContentEns(e *SchemaXORContent) func(*HasContent) {
	old := e.HasContent
	vc.Modifies(&e.HasContent)
	var zero HasContent

	return func(r *HasContent) {
		vc.Ensure("returns the field", r == e.HasContent && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SchemaXORContentNot).WithSchema
//vc:props C06
//vc:inline
func vcB_SchemaXORContentNot_WithSchema(e *SchemaXORContentNot, val interface{}) func(*SchemaXORContentNot) {
	vc.Modifies(&e.Schema)

	return func(r *SchemaXORContentNot) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Schema, val))
	}
}

//vc:func (*SchemaXORContentNot).WithContent
//vc:props C06
//vc:inline
func vcB_SchemaXORContentNot_WithContent(e *SchemaXORContentNot, val interface{}) func(*SchemaXORContentNot) {
	vc.Modifies(&e.Content)

	return func(r *SchemaXORContentNot) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*PathParameter).WithStyle
//vc:props C06
//vc:inline
func vcB_PathParameter_WithStyle(e *PathParameter, val PathParameterStyle) func(*PathParameter) {
	vc.Modifies(&e.Style)

	return func(r *PathParameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Style != nil && vc.Fresh(e.Style) && vc.Eq(*e.Style, val))
	}
}

//vc:func (*QueryParameter).WithStyle
//vc:props C06
//vc:inline
func vcB_QueryParameter_WithStyle(e *QueryParameter, val QueryParameterStyle) func(*QueryParameter) {
	vc.Modifies(&e.Style)

	return func(r *QueryParameter) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Style != nil && vc.Fresh(e.Style) && vc.Eq(*e.Style, val))
	}
}

//vc:func (*ParameterLocation).WithPathParameter
//vc:props C06
//vc:inline
func vcB_ParameterLocation_WithPathParameter(e *ParameterLocation, val PathParameter) func(*ParameterLocation) {
	vc.Modifies(&e.PathParameter)

	return func(r *ParameterLocation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.PathParameter != nil && vc.Fresh(e.PathParameter) && vc.Eq(*e.PathParameter, val))
	}
}

//vc:func (*ParameterLocation).PathParameterEns
//vc:props C06
//vc:inline
func vcB_ParameterLocation_PathParameterEns(e *ParameterLocation) func(*PathParameter) {
	old := e.PathParameter
	vc.Modifies(&e.PathParameter)
	var zero PathParameter

	return func(r *PathParameter) {
		vc.Ensure("returns the field", r == e.PathParameter && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ParameterLocation).WithQueryParameter
//vc:props C06
//vc:inline
func vcB_ParameterLocation_WithQueryParameter(e *ParameterLocation, val QueryParameter) func(*ParameterLocation) {
	vc.Modifies(&e.QueryParameter)

	return func(r *ParameterLocation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.QueryParameter != nil && vc.Fresh(e.QueryParameter) && vc.Eq(*e.QueryParameter, val))
	}
}

//vc:func (*ParameterLocation).QueryParameterEns
//vc:props C06
//vc:inline
func vcB_ParameterLocation_QueryParameterEns(e *ParameterLocation) func(*QueryParameter) {
	old := e.QueryParameter
	vc.Modifies(&e.QueryParameter)
	var zero QueryParameter

	return func(r *QueryParameter) {
		vc.Ensure("returns the field", r == e.QueryParameter && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ParameterLocation).WithHeaderParameter
//vc:props C06
//vc:inline
func vcB_ParameterLocation_WithHeaderParameter(e *ParameterLocation, val HeaderParameter) func(*ParameterLocation) {
	vc.Modifies(&e.HeaderParameter)

	return func(r *ParameterLocation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HeaderParameter != nil && vc.Fresh(e.HeaderParameter) && vc.Eq(*e.HeaderParameter, val))
	}
}

//vc:func (*ParameterLocation).HeaderParameterEns
//vc:props C06
//vc:inline
func vcB_ParameterLocation_HeaderParameterEns(e *ParameterLocation) func(*HeaderParameter) {
	old := e.HeaderParameter
	vc.Modifies(&e.HeaderParameter)
	var zero HeaderParameter

	return func(r *HeaderParameter) {
		vc.Ensure("returns the field", r == e.HeaderParameter && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ParameterLocation).WithCookieParameter
//vc:props C06
//vc:inline
func vcB_ParameterLocation_WithCookieParameter(e *ParameterLocation, val CookieParameter) func(*ParameterLocation) {
	vc.Modifies(&e.CookieParameter)

	return func(r *ParameterLocation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.CookieParameter != nil && vc.Fresh(e.CookieParameter) && vc.Eq(*e.CookieParameter, val))
	}
}

//vc:func (*ParameterLocation).CookieParameterEns
//vc:props C06
//vc:inline
func vcB_ParameterLocation_CookieParameterEns(e *ParameterLocation) func(*CookieParameter) {
	old := e.CookieParameter
	vc.Modifies(&e.CookieParameter)
	var zero CookieParameter

	return func(r *CookieParameter) {
		vc.Ensure("returns the field", r == e.CookieParameter && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ParameterOrRef).WithParameterReference
//vc:props C06
//vc:inline
func vcB_ParameterOrRef_WithParameterReference(e *ParameterOrRef, val ParameterReference) func(*ParameterOrRef) {
	vc.Modifies(&e.ParameterReference)

	return func(r *ParameterOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ParameterReference != nil && vc.Fresh(e.ParameterReference) && vc.Eq(*e.ParameterReference, val))
	}
}

//vc:func (*ParameterOrRef).ParameterReferenceEns
//vc:props C06
//vc:inline
func vcB_ParameterOrRef_ParameterReferenceEns(e *ParameterOrRef) func(*ParameterReference) {
	old := e.ParameterReference
	vc.Modifies(&e.ParameterReference)
	var zero ParameterReference

	return func(r *ParameterReference) {
		vc.Ensure("returns the field", r == e.ParameterReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ParameterOrRef).WithParameter
//vc:props C06
//vc:inline
func vcB_ParameterOrRef_WithParameter(e *ParameterOrRef, val Parameter) func(*ParameterOrRef) {
	vc.Modifies(&e.Parameter)

	return func(r *ParameterOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Parameter != nil && vc.Fresh(e.Parameter) && vc.Eq(*e.Parameter, val))
	}
}

//vc:func (*ParameterOrRef).ParameterEns
//vc:props C06
//vc:inline
func vcB_ParameterOrRef_ParameterEns(e *ParameterOrRef) func(*Parameter) {
	old := e.Parameter
	vc.Modifies(&e.Parameter)
	var zero Parameter

	return func(r *Parameter) {
		vc.Ensure("returns the field", r == e.Parameter && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithTags
//vc:props C06
//vc:inline
func vcB_Operation_WithTags(e *Operation, val ...string) func(*Operation) {
	vc.Modifies(&e.Tags)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Tags, val))
	}
}

//vc:func (*Operation).WithSummary
//vc:props C06
//vc:inline
func vcB_Operation_WithSummary(e *Operation, val string) func(*Operation) {
	vc.Modifies(&e.Summary)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Summary != nil && vc.Fresh(e.Summary) && vc.Eq(*e.Summary, val))
	}
}

//vc:func (*Operation).WithDescription
//vc:props C06
//vc:inline
func vcB_Operation_WithDescription(e *Operation, val string) func(*Operation) {
	vc.Modifies(&e.Description)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Operation).WithExternalDocs
//vc:props C06
//vc:inline
func vcB_Operation_WithExternalDocs(e *Operation, val ExternalDocumentation) func(*Operation) {
	vc.Modifies(&e.ExternalDocs)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ExternalDocs != nil && vc.Fresh(e.ExternalDocs) && vc.Eq(*e.ExternalDocs, val))
	}
}

//vc:func (*Operation).ExternalDocsEns
//vc:props C06
//vc:inline
func vcB_Operation_ExternalDocsEns(e *Operation) func(*ExternalDocumentation) {
	old := e.ExternalDocs
	vc.Modifies(&e.ExternalDocs)
	var zero ExternalDocumentation

	return func(r *ExternalDocumentation) {
		vc.Ensure("returns the field", r == e.ExternalDocs && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithID
//vc:props C06
//vc:inline
func vcB_Operation_WithID(e *Operation, val string) func(*Operation) {
	vc.Modifies(&e.ID)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ID != nil && vc.Fresh(e.ID) && vc.Eq(*e.ID, val))
	}
}

//vc:func (*Operation).WithParameters
//vc:props C06
//vc:inline
func vcB_Operation_WithParameters(e *Operation, val ...ParameterOrRef) func(*Operation) {
	vc.Modifies(&e.Parameters)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*Operation).WithRequestBody
//vc:props C06
//vc:inline
func vcB_Operation_WithRequestBody(e *Operation, val RequestBodyOrRef) func(*Operation) {
	vc.Modifies(&e.RequestBody)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBody != nil && vc.Fresh(e.RequestBody) && vc.Eq(*e.RequestBody, val))
	}
}

//vc:func (*Operation).RequestBodyEns
//vc:props C06
//vc:inline
func vcB_Operation_RequestBodyEns(e *Operation) func(*RequestBodyOrRef) {
	old := e.RequestBody
	vc.Modifies(&e.RequestBody)
	var zero RequestBodyOrRef

	return func(r *RequestBodyOrRef) {
		vc.Ensure("returns the field", r == e.RequestBody && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Operation).WithResponses
//vc:props C06
//vc:inline
func vcB_Operation_WithResponses(e *Operation, val Responses) func(*Operation) {
	vc.Modifies(&e.Responses)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Responses, val))
	}
}

//vc:func (*Operation).WithCallbacks
//vc:props C06
//vc:inline
func vcB_Operation_WithCallbacks(e *Operation, val map[string]CallbackOrRef) func(*Operation) {
	vc.Modifies(&e.Callbacks)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Callbacks, val))
	}
}

//vc:func (*Operation).WithCallbacksItem
//vc:props C06
//vc:inline
func vcB_Operation_WithCallbacksItem(e *Operation, key string, val CallbackOrRef) func(*Operation) {
	prev := e.Callbacks
	old := vc.Snap(e.Callbacks)
	vc.Modifies(&e.Callbacks, e.Callbacks)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Callbacks[key]
		vc.Ensure("key is set", e.Callbacks != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Callbacks, prev) || vc.Fresh(e.Callbacks))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Callbacks[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Operation).WithDeprecated
//vc:props C06
//vc:inline
func vcB_Operation_WithDeprecated(e *Operation, val bool) func(*Operation) {
	vc.Modifies(&e.Deprecated)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Deprecated != nil && vc.Fresh(e.Deprecated) && vc.Eq(*e.Deprecated, val))
	}
}

//vc:func (*Operation).WithSecurity
//vc:props C06
//vc:inline
func vcB_Operation_WithSecurity(e *Operation, val ...map[string][]string) func(*Operation) {
	vc.Modifies(&e.Security)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Security, val))
	}
}

//vc:func (*Operation).WithServers
//vc:props C06
//vc:inline
func vcB_Operation_WithServers(e *Operation, val ...Server) func(*Operation) {
	vc.Modifies(&e.Servers)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Servers, val))
	}
}

//vc:func (*Operation).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Operation_WithMapOfAnything(e *Operation, val map[string]interface{}) func(*Operation) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Operation).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Operation_WithMapOfAnythingItem(e *Operation, key string, val interface{}) func(*Operation) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Operation) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*RequestBodyReference).WithRef
//vc:props C06
//vc:inline
func vcB_RequestBodyReference_WithRef(e *RequestBodyReference, val string) func(*RequestBodyReference) {
	vc.Modifies(&e.Ref)

	return func(r *RequestBodyReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*RequestBody).WithDescription
//vc:props C06
//vc:inline
func vcB_RequestBody_WithDescription(e *RequestBody, val string) func(*RequestBody) {
	vc.Modifies(&e.Description)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*RequestBody).WithContent
//vc:props C06
//vc:inline
func vcB_RequestBody_WithContent(e *RequestBody, val map[string]MediaType) func(*RequestBody) {
	vc.Modifies(&e.Content)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*RequestBody).WithContentItem
//vc:props C06
//vc:inline
func vcB_RequestBody_WithContentItem(e *RequestBody, key string, val MediaType) func(*RequestBody) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*RequestBody).WithRequired
//vc:props C06
//vc:inline
func vcB_RequestBody_WithRequired(e *RequestBody, val bool) func(*RequestBody) {
	vc.Modifies(&e.Required)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Required != nil && vc.Fresh(e.Required) && vc.Eq(*e.Required, val))
	}
}

//vc:func (*RequestBody).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_RequestBody_WithMapOfAnything(e *RequestBody, val map[string]interface{}) func(*RequestBody) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*RequestBody).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_RequestBody_WithMapOfAnythingItem(e *RequestBody, key string, val interface{}) func(*RequestBody) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *RequestBody) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*RequestBodyOrRef).WithRequestBodyReference
//vc:props C06
//vc:inline
func vcB_RequestBodyOrRef_WithRequestBodyReference(e *RequestBodyOrRef, val RequestBodyReference) func(*RequestBodyOrRef) {
	vc.Modifies(&e.RequestBodyReference)

	return func(r *RequestBodyOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBodyReference != nil && vc.Fresh(e.RequestBodyReference) && vc.Eq(*e.RequestBodyReference, val))
	}
}

//vc:func (*RequestBodyOrRef).RequestBodyReferenceEns
//vc:props C06
//vc:inline
func vcB_RequestBodyOrRef_RequestBodyReferenceEns(e *RequestBodyOrRef) func(*RequestBodyReference) {
	old := e.RequestBodyReference
	vc.Modifies(&e.RequestBodyReference)
	var zero RequestBodyReference

	return func(r *RequestBodyReference) {
		vc.Ensure("returns the field", r == e.RequestBodyReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*RequestBodyOrRef).WithRequestBody
//vc:props C06
//vc:inline
func vcB_RequestBodyOrRef_WithRequestBody(e *RequestBodyOrRef, val RequestBody) func(*RequestBodyOrRef) {
	vc.Modifies(&e.RequestBody)

	return func(r *RequestBodyOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBody != nil && vc.Fresh(e.RequestBody) && vc.Eq(*e.RequestBody, val))
	}
}

//vc:func (*RequestBodyOrRef).RequestBodyEns
//vc:props C06
//vc:inline
func vcB_RequestBodyOrRef_RequestBodyEns(e *RequestBodyOrRef) func(*RequestBody) {
	old := e.RequestBody
	vc.Modifies(&e.RequestBody)
	var zero RequestBody

	return func(r *RequestBody) {
		vc.Ensure("returns the field", r == e.RequestBody && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Responses).WithDefault
//vc:props C06
//vc:inline
func vcB_Responses_WithDefault(e *Responses, val ResponseOrRef) func(*Responses) {
	vc.Modifies(&e.Default)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Default != nil && vc.Fresh(e.Default) && vc.Eq(*e.Default, val))
	}
}

//vc:func (*Responses).DefaultEns
//vc:props C06
//vc:inline
func vcB_Responses_DefaultEns(e *Responses) func(*ResponseOrRef) {
	old := e.Default
	vc.Modifies(&e.Default)
	var zero ResponseOrRef

	return func(r *ResponseOrRef) {
		vc.Ensure("returns the field", r == e.Default && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Responses).WithMapOfResponseOrRefValues
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfResponseOrRefValues(e *Responses, val map[string]ResponseOrRef) func(*Responses) {
	vc.Modifies(&e.MapOfResponseOrRefValues)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfResponseOrRefValues, val))
	}
}

//vc:func (*Responses).WithMapOfResponseOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfResponseOrRefValuesItem(e *Responses, key string, val ResponseOrRef) func(*Responses) {
	prev := e.MapOfResponseOrRefValues
	old := vc.Snap(e.MapOfResponseOrRefValues)
	vc.Modifies(&e.MapOfResponseOrRefValues, e.MapOfResponseOrRefValues)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfResponseOrRefValues[key]
		vc.Ensure("key is set", e.MapOfResponseOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfResponseOrRefValues, prev) || vc.Fresh(e.MapOfResponseOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfResponseOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Responses).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfAnything(e *Responses, val map[string]interface{}) func(*Responses) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Responses).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Responses_WithMapOfAnythingItem(e *Responses, key string, val interface{}) func(*Responses) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Responses) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ResponseReference).WithRef
//vc:props C06
//vc:inline
func vcB_ResponseReference_WithRef(e *ResponseReference, val string) func(*ResponseReference) {
	vc.Modifies(&e.Ref)

	return func(r *ResponseReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*Response).WithDescription
//vc:props C06
//vc:inline
func vcB_Response_WithDescription(e *Response, val string) func(*Response) {
	vc.Modifies(&e.Description)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Description, val))
	}
}

//vc:func (*Response).WithHeaders
//vc:props C06
//vc:inline
func vcB_Response_WithHeaders(e *Response, val map[string]HeaderOrRef) func(*Response) {
	vc.Modifies(&e.Headers)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Headers, val))
	}
}

//vc:func (*Response).WithHeadersItem
//vc:props C06
//vc:inline
func vcB_Response_WithHeadersItem(e *Response, key string, val HeaderOrRef) func(*Response) {
	prev := e.Headers
	old := vc.Snap(e.Headers)
	vc.Modifies(&e.Headers, e.Headers)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Headers[key]
		vc.Ensure("key is set", e.Headers != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Headers, prev) || vc.Fresh(e.Headers))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Headers[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithContent
//vc:props C06
//vc:inline
func vcB_Response_WithContent(e *Response, val map[string]MediaType) func(*Response) {
	vc.Modifies(&e.Content)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Content, val))
	}
}

//vc:func (*Response).WithContentItem
//vc:props C06
//vc:inline
func vcB_Response_WithContentItem(e *Response, key string, val MediaType) func(*Response) {
	prev := e.Content
	old := vc.Snap(e.Content)
	vc.Modifies(&e.Content, e.Content)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Content[key]
		vc.Ensure("key is set", e.Content != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Content, prev) || vc.Fresh(e.Content))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Content[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithLinks
//vc:props C06
//vc:inline
func vcB_Response_WithLinks(e *Response, val map[string]LinkOrRef) func(*Response) {
	vc.Modifies(&e.Links)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Links, val))
	}
}

//vc:func (*Response).WithLinksItem
//vc:props C06
//vc:inline
func vcB_Response_WithLinksItem(e *Response, key string, val LinkOrRef) func(*Response) {
	prev := e.Links
	old := vc.Snap(e.Links)
	vc.Modifies(&e.Links, e.Links)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Links[key]
		vc.Ensure("key is set", e.Links != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Links, prev) || vc.Fresh(e.Links))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Links[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Response).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Response_WithMapOfAnything(e *Response, val map[string]interface{}) func(*Response) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Response).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Response_WithMapOfAnythingItem(e *Response, key string, val interface{}) func(*Response) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Response) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*HeaderReference).WithRef
//vc:props C06
//vc:inline
func vcB_HeaderReference_WithRef(e *HeaderReference, val string) func(*HeaderReference) {
	vc.Modifies(&e.Ref)

	return func(r *HeaderReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*HeaderOrRef).WithHeaderReference
//vc:props C06
//vc:inline
func vcB_HeaderOrRef_WithHeaderReference(e *HeaderOrRef, val HeaderReference) func(*HeaderOrRef) {
	vc.Modifies(&e.HeaderReference)

	return func(r *HeaderOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HeaderReference != nil && vc.Fresh(e.HeaderReference) && vc.Eq(*e.HeaderReference, val))
	}
}

//vc:func (*HeaderOrRef).HeaderReferenceEns
//vc:props C06
//vc:inline
func vcB_HeaderOrRef_HeaderReferenceEns(e *HeaderOrRef) func(*HeaderReference) {
	old := e.HeaderReference
	vc.Modifies(&e.HeaderReference)
	var zero HeaderReference

	return func(r *HeaderReference) {
		vc.Ensure("returns the field", r == e.HeaderReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*HeaderOrRef).WithHeader
//vc:props C06
//vc:inline
func vcB_HeaderOrRef_WithHeader(e *HeaderOrRef, val Header) func(*HeaderOrRef) {
	vc.Modifies(&e.Header)

	return func(r *HeaderOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Header != nil && vc.Fresh(e.Header) && vc.Eq(*e.Header, val))
	}
}

//vc:func (*HeaderOrRef).HeaderEns
//vc:props C06
//vc:inline
func vcB_HeaderOrRef_HeaderEns(e *HeaderOrRef) func(*Header) {
	old := e.Header
	vc.Modifies(&e.Header)
	var zero Header

	return func(r *Header) {
		vc.Ensure("returns the field", r == e.Header && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*LinkReference).WithRef
//vc:props C06
//vc:inline
func vcB_LinkReference_WithRef(e *LinkReference, val string) func(*LinkReference) {
	vc.Modifies(&e.Ref)

	return func(r *LinkReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*Link).WithOperationID
//vc:props C06
//vc:inline
func vcB_Link_WithOperationID(e *Link, val string) func(*Link) {
	vc.Modifies(&e.OperationID)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.OperationID != nil && vc.Fresh(e.OperationID) && vc.Eq(*e.OperationID, val))
	}
}

//vc:func (*Link).WithOperationRef
//vc:props C06
//vc:inline
func vcB_Link_WithOperationRef(e *Link, val string) func(*Link) {
	vc.Modifies(&e.OperationRef)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.OperationRef != nil && vc.Fresh(e.OperationRef) && vc.Eq(*e.OperationRef, val))
	}
}

//vc:func (*Link).WithParameters
//vc:props C06
//vc:inline
func vcB_Link_WithParameters(e *Link, val map[string]interface{}) func(*Link) {
	vc.Modifies(&e.Parameters)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Parameters, val))
	}
}

//vc:func (*Link).WithParametersItem
//vc:props C06
//vc:inline
func vcB_Link_WithParametersItem(e *Link, key string, val interface{}) func(*Link) {
	prev := e.Parameters
	old := vc.Snap(e.Parameters)
	vc.Modifies(&e.Parameters, e.Parameters)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Parameters[key]
		vc.Ensure("key is set", e.Parameters != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Parameters, prev) || vc.Fresh(e.Parameters))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Parameters[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Link).WithRequestBody
//vc:props C06
//vc:inline
func vcB_Link_WithRequestBody(e *Link, val interface{}) func(*Link) {
	vc.Modifies(&e.RequestBody)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBody != nil && vc.Fresh(e.RequestBody) && vc.Eq(*e.RequestBody, val))
	}
}

//vc:func (*Link).WithDescription
//vc:props C06
//vc:inline
func vcB_Link_WithDescription(e *Link, val string) func(*Link) {
	vc.Modifies(&e.Description)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*Link).WithServer
//vc:props C06
//vc:inline
func vcB_Link_WithServer(e *Link, val Server) func(*Link) {
	vc.Modifies(&e.Server)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Server != nil && vc.Fresh(e.Server) && vc.Eq(*e.Server, val))
	}
}

//vc:func (*Link).ServerEns
//vc:props C06
//vc:inline
func vcB_Link_ServerEns(e *Link) func(*Server) {
	old := e.Server
	vc.Modifies(&e.Server)
	var zero Server

	return func(r *Server) {
		vc.Ensure("returns the field", r == e.Server && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Link).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Link_WithMapOfAnything(e *Link, val map[string]interface{}) func(*Link) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Link).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Link_WithMapOfAnythingItem(e *Link, key string, val interface{}) func(*Link) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Link) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*LinkNot).WithOperationID
//vc:props C06
//vc:inline
func vcB_LinkNot_WithOperationID(e *LinkNot, val interface{}) func(*LinkNot) {
	vc.Modifies(&e.OperationID)

	return func(r *LinkNot) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.OperationID, val))
	}
}

//vc:func (*LinkNot).WithOperationRef
//vc:props C06
//vc:inline
func vcB_LinkNot_WithOperationRef(e *LinkNot, val interface{}) func(*LinkNot) {
	vc.Modifies(&e.OperationRef)

	return func(r *LinkNot) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.OperationRef, val))
	}
}

//vc:func (*LinkOrRef).WithLinkReference
//vc:props C06
//vc:inline
func vcB_LinkOrRef_WithLinkReference(e *LinkOrRef, val LinkReference) func(*LinkOrRef) {
	vc.Modifies(&e.LinkReference)

	return func(r *LinkOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.LinkReference != nil && vc.Fresh(e.LinkReference) && vc.Eq(*e.LinkReference, val))
	}
}

//vc:func (*LinkOrRef).LinkReferenceEns
//vc:props C06
//vc:inline
func vcB_LinkOrRef_LinkReferenceEns(e *LinkOrRef) func(*LinkReference) {
	old := e.LinkReference
	vc.Modifies(&e.LinkReference)
	var zero LinkReference

	return func(r *LinkReference) {
		vc.Ensure("returns the field", r == e.LinkReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*LinkOrRef).WithLink
//vc:props C06
//vc:inline
func vcB_LinkOrRef_WithLink(e *LinkOrRef, val Link) func(*LinkOrRef) {
	vc.Modifies(&e.Link)

	return func(r *LinkOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Link != nil && vc.Fresh(e.Link) && vc.Eq(*e.Link, val))
	}
}

//vc:func (*LinkOrRef).LinkEns
//vc:props C06
//vc:inline
func vcB_LinkOrRef_LinkEns(e *LinkOrRef) func(*Link) {
	old := e.Link
	vc.Modifies(&e.Link)
	var zero Link

	return func(r *Link) {
		vc.Ensure("returns the field", r == e.Link && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ResponseOrRef).WithResponseReference
//vc:props C06
//vc:inline
func vcB_ResponseOrRef_WithResponseReference(e *ResponseOrRef, val ResponseReference) func(*ResponseOrRef) {
	vc.Modifies(&e.ResponseReference)

	return func(r *ResponseOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ResponseReference != nil && vc.Fresh(e.ResponseReference) && vc.Eq(*e.ResponseReference, val))
	}
}

//vc:func (*ResponseOrRef).ResponseReferenceEns
//vc:props C06
//vc:inline
func vcB_ResponseOrRef_ResponseReferenceEns(e *ResponseOrRef) func(*ResponseReference) {
	old := e.ResponseReference
	vc.Modifies(&e.ResponseReference)
	var zero ResponseReference

	return func(r *ResponseReference) {
		vc.Ensure("returns the field", r == e.ResponseReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ResponseOrRef).WithResponse
//vc:props C06
//vc:inline
func vcB_ResponseOrRef_WithResponse(e *ResponseOrRef, val Response) func(*ResponseOrRef) {
	vc.Modifies(&e.Response)

	return func(r *ResponseOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Response != nil && vc.Fresh(e.Response) && vc.Eq(*e.Response, val))
	}
}

//vc:func (*ResponseOrRef).ResponseEns
//vc:props C06
//vc:inline
func vcB_ResponseOrRef_ResponseEns(e *ResponseOrRef) func(*Response) {
	old := e.Response
	vc.Modifies(&e.Response)
	var zero Response

	return func(r *Response) {
		vc.Ensure("returns the field", r == e.Response && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*CallbackReference).WithRef
//vc:props C06
//vc:inline
func vcB_CallbackReference_WithRef(e *CallbackReference, val string) func(*CallbackReference) {
	vc.Modifies(&e.Ref)

	return func(r *CallbackReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*Callback).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Callback_WithMapOfAnything(e *Callback, val map[string]interface{}) func(*Callback) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Callback) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Callback).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Callback_WithMapOfAnythingItem(e *Callback, key string, val interface{}) func(*Callback) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Callback) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Callback).WithAdditionalProperties
//vc:props C06
//vc:inline
func vcB_Callback_WithAdditionalProperties(e *Callback, val map[string]PathItem) func(*Callback) {
	vc.Modifies(&e.AdditionalProperties)

	return func(r *Callback) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AdditionalProperties, val))
	}
}

//vc:func (*Callback).WithAdditionalPropertiesItem
//vc:props C06
//vc:inline
func vcB_Callback_WithAdditionalPropertiesItem(e *Callback, key string, val PathItem) func(*Callback) {
	prev := e.AdditionalProperties
	old := vc.Snap(e.AdditionalProperties)
	vc.Modifies(&e.AdditionalProperties, e.AdditionalProperties)

	return func(r *Callback) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.AdditionalProperties[key]
		vc.Ensure("key is set", e.AdditionalProperties != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.AdditionalProperties, prev) || vc.Fresh(e.AdditionalProperties))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.AdditionalProperties[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*CallbackOrRef).WithCallbackReference
//vc:props C06
//vc:inline
func vcB_CallbackOrRef_WithCallbackReference(e *CallbackOrRef, val CallbackReference) func(*CallbackOrRef) {
	vc.Modifies(&e.CallbackReference)

	return func(r *CallbackOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.CallbackReference != nil && vc.Fresh(e.CallbackReference) && vc.Eq(*e.CallbackReference, val))
	}
}

//vc:func (*CallbackOrRef).CallbackReferenceEns
//vc:props C06
//vc:inline
func vcB_CallbackOrRef_CallbackReferenceEns(e *CallbackOrRef) func(*CallbackReference) {
	old := e.CallbackReference
	vc.Modifies(&e.CallbackReference)
	var zero CallbackReference

	return func(r *CallbackReference) {
		vc.Ensure("returns the field", r == e.CallbackReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*CallbackOrRef).WithCallback
//vc:props C06
//vc:inline
func vcB_CallbackOrRef_WithCallback(e *CallbackOrRef, val Callback) func(*CallbackOrRef) {
	vc.Modifies(&e.Callback)

	return func(r *CallbackOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Callback != nil && vc.Fresh(e.Callback) && vc.Eq(*e.Callback, val))
	}
}

//vc:func (*CallbackOrRef).CallbackEns
//vc:props C06
//vc:inline
func vcB_CallbackOrRef_CallbackEns(e *CallbackOrRef) func(*Callback) {
	old := e.Callback
	vc.Modifies(&e.Callback)
	var zero Callback

	return func(r *Callback) {
		vc.Ensure("returns the field", r == e.Callback && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Paths).WithMapOfPathItemValues
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfPathItemValues(e *Paths, val map[string]PathItem) func(*Paths) {
	vc.Modifies(&e.MapOfPathItemValues)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfPathItemValues, val))
	}
}

//vc:func (*Paths).WithMapOfPathItemValuesItem
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfPathItemValuesItem(e *Paths, key string, val PathItem) func(*Paths) {
	prev := e.MapOfPathItemValues
	old := vc.Snap(e.MapOfPathItemValues)
	vc.Modifies(&e.MapOfPathItemValues, e.MapOfPathItemValues)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfPathItemValues[key]
		vc.Ensure("key is set", e.MapOfPathItemValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfPathItemValues, prev) || vc.Fresh(e.MapOfPathItemValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfPathItemValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Paths).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfAnything(e *Paths, val map[string]interface{}) func(*Paths) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Paths).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Paths_WithMapOfAnythingItem(e *Paths, key string, val interface{}) func(*Paths) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Paths) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Components).WithSchemas
//vc:props C06
//vc:inline
func vcB_Components_WithSchemas(e *Components, val ComponentsSchemas) func(*Components) {
	vc.Modifies(&e.Schemas)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Schemas != nil && vc.Fresh(e.Schemas) && vc.Eq(*e.Schemas, val))
	}
}

//vc:func (*Components).SchemasEns
//vc:props C06
//vc:inline
func vcB_Components_SchemasEns(e *Components) func(*ComponentsSchemas) {
	old := e.Schemas
	vc.Modifies(&e.Schemas)
	var zero ComponentsSchemas

	return func(r *ComponentsSchemas) {
		vc.Ensure("returns the field", r == e.Schemas && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithResponses
//vc:props C06
//vc:inline
func vcB_Components_WithResponses(e *Components, val ComponentsResponses) func(*Components) {
	vc.Modifies(&e.Responses)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Responses != nil && vc.Fresh(e.Responses) && vc.Eq(*e.Responses, val))
	}
}

//vc:func (*Components).ResponsesEns
//vc:props C06
//vc:inline
func vcB_Components_ResponsesEns(e *Components) func(*ComponentsResponses) {
	old := e.Responses
	vc.Modifies(&e.Responses)
	var zero ComponentsResponses

	return func(r *ComponentsResponses) {
		vc.Ensure("returns the field", r == e.Responses && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithParameters
//vc:props C06
//vc:inline
func vcB_Components_WithParameters(e *Components, val ComponentsParameters) func(*Components) {
	vc.Modifies(&e.Parameters)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Parameters != nil && vc.Fresh(e.Parameters) && vc.Eq(*e.Parameters, val))
	}
}

//vc:func (*Components).ParametersEns
//vc:props C06
//vc:inline
func vcB_Components_ParametersEns(e *Components) func(*ComponentsParameters) {
	old := e.Parameters
	vc.Modifies(&e.Parameters)
	var zero ComponentsParameters

	return func(r *ComponentsParameters) {
		vc.Ensure("returns the field", r == e.Parameters && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithExamples
//vc:props C06
//vc:inline
func vcB_Components_WithExamples(e *Components, val ComponentsExamples) func(*Components) {
	vc.Modifies(&e.Examples)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Examples != nil && vc.Fresh(e.Examples) && vc.Eq(*e.Examples, val))
	}
}

//vc:func (*Components).ExamplesEns
//vc:props C06
//vc:inline
func vcB_Components_ExamplesEns(e *Components) func(*ComponentsExamples) {
	old := e.Examples
	vc.Modifies(&e.Examples)
	var zero ComponentsExamples

	return func(r *ComponentsExamples) {
		vc.Ensure("returns the field", r == e.Examples && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithRequestBodies
//vc:props C06
//vc:inline
func vcB_Components_WithRequestBodies(e *Components, val ComponentsRequestBodies) func(*Components) {
	vc.Modifies(&e.RequestBodies)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RequestBodies != nil && vc.Fresh(e.RequestBodies) && vc.Eq(*e.RequestBodies, val))
	}
}

//vc:func (*Components).RequestBodiesEns
//vc:props C06
//vc:inline
func vcB_Components_RequestBodiesEns(e *Components) func(*ComponentsRequestBodies) {
	old := e.RequestBodies
	vc.Modifies(&e.RequestBodies)
	var zero ComponentsRequestBodies

	return func(r *ComponentsRequestBodies) {
		vc.Ensure("returns the field", r == e.RequestBodies && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithHeaders
//vc:props C06
//vc:inline
func vcB_Components_WithHeaders(e *Components, val ComponentsHeaders) func(*Components) {
	vc.Modifies(&e.Headers)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Headers != nil && vc.Fresh(e.Headers) && vc.Eq(*e.Headers, val))
	}
}

//vc:func (*Components).HeadersEns
//vc:props C06
//vc:inline
func vcB_Components_HeadersEns(e *Components) func(*ComponentsHeaders) {
	old := e.Headers
	vc.Modifies(&e.Headers)
	var zero ComponentsHeaders

	return func(r *ComponentsHeaders) {
		vc.Ensure("returns the field", r == e.Headers && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithSecuritySchemes
//vc:props C06
//vc:inline
func vcB_Components_WithSecuritySchemes(e *Components, val ComponentsSecuritySchemes) func(*Components) {
	vc.Modifies(&e.SecuritySchemes)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SecuritySchemes != nil && vc.Fresh(e.SecuritySchemes) && vc.Eq(*e.SecuritySchemes, val))
	}
}

//vc:func (*Components).SecuritySchemesEns
//vc:props C06
//vc:inline
func vcB_Components_SecuritySchemesEns(e *Components) func(*ComponentsSecuritySchemes) {
	old := e.SecuritySchemes
	vc.Modifies(&e.SecuritySchemes)
	var zero ComponentsSecuritySchemes

	return func(r *ComponentsSecuritySchemes) {
		vc.Ensure("returns the field", r == e.SecuritySchemes && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithLinks
//vc:props C06
//vc:inline
func vcB_Components_WithLinks(e *Components, val ComponentsLinks) func(*Components) {
	vc.Modifies(&e.Links)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Links != nil && vc.Fresh(e.Links) && vc.Eq(*e.Links, val))
	}
}

//vc:func (*Components).LinksEns
//vc:props C06
//vc:inline
func vcB_Components_LinksEns(e *Components) func(*ComponentsLinks) {
	old := e.Links
	vc.Modifies(&e.Links)
	var zero ComponentsLinks

	return func(r *ComponentsLinks) {
		vc.Ensure("returns the field", r == e.Links && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithCallbacks
//vc:props C06
//vc:inline
func vcB_Components_WithCallbacks(e *Components, val ComponentsCallbacks) func(*Components) {
	vc.Modifies(&e.Callbacks)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Callbacks != nil && vc.Fresh(e.Callbacks) && vc.Eq(*e.Callbacks, val))
	}
}

//vc:func (*Components).CallbacksEns
//vc:props C06
//vc:inline
func vcB_Components_CallbacksEns(e *Components) func(*ComponentsCallbacks) {
	old := e.Callbacks
	vc.Modifies(&e.Callbacks)
	var zero ComponentsCallbacks

	return func(r *ComponentsCallbacks) {
		vc.Ensure("returns the field", r == e.Callbacks && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*Components).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_Components_WithMapOfAnything(e *Components, val map[string]interface{}) func(*Components) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*Components).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_Components_WithMapOfAnythingItem(e *Components, key string, val interface{}) func(*Components) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *Components) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsSchemas).WithMapOfSchemaOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsSchemas_WithMapOfSchemaOrRefValues(e *ComponentsSchemas, val map[string]SchemaOrRef) func(*ComponentsSchemas) {
	vc.Modifies(&e.MapOfSchemaOrRefValues)

	return func(r *ComponentsSchemas) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfSchemaOrRefValues, val))
	}
}

//vc:func (*ComponentsSchemas).WithMapOfSchemaOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsSchemas_WithMapOfSchemaOrRefValuesItem(e *ComponentsSchemas, key string, val SchemaOrRef) func(*ComponentsSchemas) {
	prev := e.MapOfSchemaOrRefValues
	old := vc.Snap(e.MapOfSchemaOrRefValues)
	vc.Modifies(&e.MapOfSchemaOrRefValues, e.MapOfSchemaOrRefValues)

	return func(r *ComponentsSchemas) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfSchemaOrRefValues[key]
		vc.Ensure("key is set", e.MapOfSchemaOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfSchemaOrRefValues, prev) || vc.Fresh(e.MapOfSchemaOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfSchemaOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsResponses).WithMapOfResponseOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsResponses_WithMapOfResponseOrRefValues(e *ComponentsResponses, val map[string]ResponseOrRef) func(*ComponentsResponses) {
	vc.Modifies(&e.MapOfResponseOrRefValues)

	return func(r *ComponentsResponses) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfResponseOrRefValues, val))
	}
}

//vc:func (*ComponentsResponses).WithMapOfResponseOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsResponses_WithMapOfResponseOrRefValuesItem(e *ComponentsResponses, key string, val ResponseOrRef) func(*ComponentsResponses) {
	prev := e.MapOfResponseOrRefValues
	old := vc.Snap(e.MapOfResponseOrRefValues)
	vc.Modifies(&e.MapOfResponseOrRefValues, e.MapOfResponseOrRefValues)

	return func(r *ComponentsResponses) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfResponseOrRefValues[key]
		vc.Ensure("key is set", e.MapOfResponseOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfResponseOrRefValues, prev) || vc.Fresh(e.MapOfResponseOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfResponseOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsParameters).WithMapOfParameterOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsParameters_WithMapOfParameterOrRefValues(e *ComponentsParameters, val map[string]ParameterOrRef) func(*ComponentsParameters) {
	vc.Modifies(&e.MapOfParameterOrRefValues)

	return func(r *ComponentsParameters) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfParameterOrRefValues, val))
	}
}

//vc:func (*ComponentsParameters).WithMapOfParameterOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsParameters_WithMapOfParameterOrRefValuesItem(e *ComponentsParameters, key string, val ParameterOrRef) func(*ComponentsParameters) {
	prev := e.MapOfParameterOrRefValues
	old := vc.Snap(e.MapOfParameterOrRefValues)
	vc.Modifies(&e.MapOfParameterOrRefValues, e.MapOfParameterOrRefValues)

	return func(r *ComponentsParameters) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfParameterOrRefValues[key]
		vc.Ensure("key is set", e.MapOfParameterOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfParameterOrRefValues, prev) || vc.Fresh(e.MapOfParameterOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfParameterOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsExamples).WithMapOfExampleOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsExamples_WithMapOfExampleOrRefValues(e *ComponentsExamples, val map[string]ExampleOrRef) func(*ComponentsExamples) {
	vc.Modifies(&e.MapOfExampleOrRefValues)

	return func(r *ComponentsExamples) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfExampleOrRefValues, val))
	}
}

//vc:func (*ComponentsExamples).WithMapOfExampleOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsExamples_WithMapOfExampleOrRefValuesItem(e *ComponentsExamples, key string, val ExampleOrRef) func(*ComponentsExamples) {
	prev := e.MapOfExampleOrRefValues
	old := vc.Snap(e.MapOfExampleOrRefValues)
	vc.Modifies(&e.MapOfExampleOrRefValues, e.MapOfExampleOrRefValues)

	return func(r *ComponentsExamples) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfExampleOrRefValues[key]
		vc.Ensure("key is set", e.MapOfExampleOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfExampleOrRefValues, prev) || vc.Fresh(e.MapOfExampleOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfExampleOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsRequestBodies).WithMapOfRequestBodyOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsRequestBodies_WithMapOfRequestBodyOrRefValues(e *ComponentsRequestBodies, val map[string]RequestBodyOrRef) func(*ComponentsRequestBodies) {
	vc.Modifies(&e.MapOfRequestBodyOrRefValues)

	return func(r *ComponentsRequestBodies) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfRequestBodyOrRefValues, val))
	}
}

//vc:func (*ComponentsRequestBodies).WithMapOfRequestBodyOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsRequestBodies_WithMapOfRequestBodyOrRefValuesItem(e *ComponentsRequestBodies, key string, val RequestBodyOrRef) func(*ComponentsRequestBodies) {
	prev := e.MapOfRequestBodyOrRefValues
	old := vc.Snap(e.MapOfRequestBodyOrRefValues)
	vc.Modifies(&e.MapOfRequestBodyOrRefValues, e.MapOfRequestBodyOrRefValues)

	return func(r *ComponentsRequestBodies) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfRequestBodyOrRefValues[key]
		vc.Ensure("key is set", e.MapOfRequestBodyOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfRequestBodyOrRefValues, prev) || vc.Fresh(e.MapOfRequestBodyOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfRequestBodyOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsHeaders).WithMapOfHeaderOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsHeaders_WithMapOfHeaderOrRefValues(e *ComponentsHeaders, val map[string]HeaderOrRef) func(*ComponentsHeaders) {
	vc.Modifies(&e.MapOfHeaderOrRefValues)

	return func(r *ComponentsHeaders) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfHeaderOrRefValues, val))
	}
}

//vc:func (*ComponentsHeaders).WithMapOfHeaderOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsHeaders_WithMapOfHeaderOrRefValuesItem(e *ComponentsHeaders, key string, val HeaderOrRef) func(*ComponentsHeaders) {
	prev := e.MapOfHeaderOrRefValues
	old := vc.Snap(e.MapOfHeaderOrRefValues)
	vc.Modifies(&e.MapOfHeaderOrRefValues, e.MapOfHeaderOrRefValues)

	return func(r *ComponentsHeaders) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfHeaderOrRefValues[key]
		vc.Ensure("key is set", e.MapOfHeaderOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfHeaderOrRefValues, prev) || vc.Fresh(e.MapOfHeaderOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfHeaderOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*SecuritySchemeReference).WithRef
//vc:props C06
//vc:inline
func vcB_SecuritySchemeReference_WithRef(e *SecuritySchemeReference, val string) func(*SecuritySchemeReference) {
	vc.Modifies(&e.Ref)

	return func(r *SecuritySchemeReference) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Ref, val))
	}
}

//vc:func (*APIKeySecurityScheme).WithName
//vc:props C06
//vc:inline
func vcB_APIKeySecurityScheme_WithName(e *APIKeySecurityScheme, val string) func(*APIKeySecurityScheme) {
	vc.Modifies(&e.Name)

	return func(r *APIKeySecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Name, val))
	}
}

//vc:func (*APIKeySecurityScheme).WithIn
//vc:props C06
//vc:inline
func vcB_APIKeySecurityScheme_WithIn(e *APIKeySecurityScheme, val APIKeySecuritySchemeIn) func(*APIKeySecurityScheme) {
	vc.Modifies(&e.In)

	return func(r *APIKeySecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.In, val))
	}
}

//vc:func (*APIKeySecurityScheme).WithDescription
//vc:props C06
//vc:inline
func vcB_APIKeySecurityScheme_WithDescription(e *APIKeySecurityScheme, val string) func(*APIKeySecurityScheme) {
	vc.Modifies(&e.Description)

	return func(r *APIKeySecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*APIKeySecurityScheme).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_APIKeySecurityScheme_WithMapOfAnything(e *APIKeySecurityScheme, val map[string]interface{}) func(*APIKeySecurityScheme) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *APIKeySecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*APIKeySecurityScheme).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_APIKeySecurityScheme_WithMapOfAnythingItem(e *APIKeySecurityScheme, key string, val interface{}) func(*APIKeySecurityScheme) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *APIKeySecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*HTTPSecurityScheme).WithScheme
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithScheme(e *HTTPSecurityScheme, val string) func(*HTTPSecurityScheme) {
	vc.Modifies(&e.Scheme)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scheme, val))
	}
}

//vc:func (*HTTPSecurityScheme).WithBearerFormat
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithBearerFormat(e *HTTPSecurityScheme, val string) func(*HTTPSecurityScheme) {
	vc.Modifies(&e.BearerFormat)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.BearerFormat != nil && vc.Fresh(e.BearerFormat) && vc.Eq(*e.BearerFormat, val))
	}
}

//vc:func (*HTTPSecurityScheme).WithDescription
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithDescription(e *HTTPSecurityScheme, val string) func(*HTTPSecurityScheme) {
	vc.Modifies(&e.Description)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*HTTPSecurityScheme).WithBearer
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithBearer(e *HTTPSecurityScheme, val Bearer) func(*HTTPSecurityScheme) {
	vc.Modifies(&e.Bearer)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Bearer != nil && vc.Fresh(e.Bearer) && vc.Eq(*e.Bearer, val))
	}
}

//vc:func (*HTTPSecurityScheme).BearerEns
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_BearerEns(e *HTTPSecurityScheme) func(*Bearer) {
	old := e.Bearer
	vc.Modifies(&e.Bearer)
	var zero Bearer

	return func(r *Bearer) {
		vc.Ensure("returns the field", r == e.Bearer && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*HTTPSecurityScheme).WithNonBearer
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithNonBearer(e *HTTPSecurityScheme, val NonBearer) func(*HTTPSecurityScheme) {
	vc.Modifies(&e.NonBearer)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.NonBearer != nil && vc.Fresh(e.NonBearer) && vc.Eq(*e.NonBearer, val))
	}
}

//vc:func (*HTTPSecurityScheme).NonBearerEns
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_NonBearerEns(e *HTTPSecurityScheme) func(*NonBearer) {
	old := e.NonBearer
	vc.Modifies(&e.NonBearer)
	var zero NonBearer

	return func(r *NonBearer) {
		vc.Ensure("returns the field", r == e.NonBearer && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*HTTPSecurityScheme).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithMapOfAnything(e *HTTPSecurityScheme, val map[string]interface{}) func(*HTTPSecurityScheme) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*HTTPSecurityScheme).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_HTTPSecurityScheme_WithMapOfAnythingItem(e *HTTPSecurityScheme, key string, val interface{}) func(*HTTPSecurityScheme) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*NonBearer).WithScheme
//vc:props C06
//vc:inline
func vcB_NonBearer_WithScheme(e *NonBearer, val interface{}) func(*NonBearer) {
	vc.Modifies(&e.Scheme)

	return func(r *NonBearer) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Scheme != nil && vc.Fresh(e.Scheme) && vc.Eq(*e.Scheme, val))
	}
}

//vc:func (*OAuth2SecurityScheme).WithFlows
//vc:props C06
//vc:inline
func vcB_OAuth2SecurityScheme_WithFlows(e *OAuth2SecurityScheme, val OAuthFlows) func(*OAuth2SecurityScheme) {
	vc.Modifies(&e.Flows)

	return func(r *OAuth2SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Flows, val))
	}
}

//vc:func (*OAuth2SecurityScheme).WithDescription
//vc:props C06
//vc:inline
func vcB_OAuth2SecurityScheme_WithDescription(e *OAuth2SecurityScheme, val string) func(*OAuth2SecurityScheme) {
	vc.Modifies(&e.Description)

	return func(r *OAuth2SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*OAuth2SecurityScheme).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OAuth2SecurityScheme_WithMapOfAnything(e *OAuth2SecurityScheme, val map[string]interface{}) func(*OAuth2SecurityScheme) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OAuth2SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OAuth2SecurityScheme).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OAuth2SecurityScheme_WithMapOfAnythingItem(e *OAuth2SecurityScheme, key string, val interface{}) func(*OAuth2SecurityScheme) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OAuth2SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OAuthFlows).WithImplicit
//vc:props C06
//vc:inline
func vcB_OAuthFlows_WithImplicit(e *OAuthFlows, val ImplicitOAuthFlow) func(*OAuthFlows) {
	vc.Modifies(&e.Implicit)

	return func(r *OAuthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Implicit != nil && vc.Fresh(e.Implicit) && vc.Eq(*e.Implicit, val))
	}
}

//vc:func (*OAuthFlows).ImplicitEns
//vc:props C06
//vc:inline
func vcB_OAuthFlows_ImplicitEns(e *OAuthFlows) func(*ImplicitOAuthFlow) {
	old := e.Implicit
	vc.Modifies(&e.Implicit)
	var zero ImplicitOAuthFlow

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the field", r == e.Implicit && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OAuthFlows).WithPassword
//vc:props C06
//vc:inline
func vcB_OAuthFlows_WithPassword(e *OAuthFlows, val PasswordOAuthFlow) func(*OAuthFlows) {
	vc.Modifies(&e.Password)

	return func(r *OAuthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Password != nil && vc.Fresh(e.Password) && vc.Eq(*e.Password, val))
	}
}

//vc:func (*OAuthFlows).PasswordEns
//vc:props C06
//vc:inline
func vcB_OAuthFlows_PasswordEns(e *OAuthFlows) func(*PasswordOAuthFlow) {
	old := e.Password
	vc.Modifies(&e.Password)
	var zero PasswordOAuthFlow

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the field", r == e.Password && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OAuthFlows).WithClientCredentials
//vc:props C06
//vc:inline
func vcB_OAuthFlows_WithClientCredentials(e *OAuthFlows, val ClientCredentialsFlow) func(*OAuthFlows) {
	vc.Modifies(&e.ClientCredentials)

	return func(r *OAuthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.ClientCredentials != nil && vc.Fresh(e.ClientCredentials) && vc.Eq(*e.ClientCredentials, val))
	}
}

//vc:func (*OAuthFlows).ClientCredentialsEns
//vc:props C06
//vc:inline
func vcB_OAuthFlows_ClientCredentialsEns(e *OAuthFlows) func(*ClientCredentialsFlow) {
	old := e.ClientCredentials
	vc.Modifies(&e.ClientCredentials)
	var zero ClientCredentialsFlow

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the field", r == e.ClientCredentials && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OAuthFlows).WithAuthorizationCode
//vc:props C06
//vc:inline
func vcB_OAuthFlows_WithAuthorizationCode(e *OAuthFlows, val AuthorizationCodeOAuthFlow) func(*OAuthFlows) {
	vc.Modifies(&e.AuthorizationCode)

	return func(r *OAuthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.AuthorizationCode != nil && vc.Fresh(e.AuthorizationCode) && vc.Eq(*e.AuthorizationCode, val))
	}
}

//vc:func (*OAuthFlows).AuthorizationCodeEns
//vc:props C06
//vc:inline
func vcB_OAuthFlows_AuthorizationCodeEns(e *OAuthFlows) func(*AuthorizationCodeOAuthFlow) {
	old := e.AuthorizationCode
	vc.Modifies(&e.AuthorizationCode)
	var zero AuthorizationCodeOAuthFlow

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the field", r == e.AuthorizationCode && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*OAuthFlows).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OAuthFlows_WithMapOfAnything(e *OAuthFlows, val map[string]interface{}) func(*OAuthFlows) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OAuthFlows) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OAuthFlows).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OAuthFlows_WithMapOfAnythingItem(e *OAuthFlows, key string, val interface{}) func(*OAuthFlows) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OAuthFlows) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ImplicitOAuthFlow).WithAuthorizationURL
//vc:props C06
//vc:inline
func vcB_ImplicitOAuthFlow_WithAuthorizationURL(e *ImplicitOAuthFlow, val string) func(*ImplicitOAuthFlow) {
	vc.Modifies(&e.AuthorizationURL)

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AuthorizationURL, val))
	}
}

//vc:func (*ImplicitOAuthFlow).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_ImplicitOAuthFlow_WithRefreshURL(e *ImplicitOAuthFlow, val string) func(*ImplicitOAuthFlow) {
	vc.Modifies(&e.RefreshURL)

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*ImplicitOAuthFlow).WithScopes
//vc:props C06
//vc:inline
func vcB_ImplicitOAuthFlow_WithScopes(e *ImplicitOAuthFlow, val map[string]string) func(*ImplicitOAuthFlow) {
	vc.Modifies(&e.Scopes)

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*ImplicitOAuthFlow).WithScopesItem
//vc:props C06
//vc:inline
func vcB_ImplicitOAuthFlow_WithScopesItem(e *ImplicitOAuthFlow, key string, val string) func(*ImplicitOAuthFlow) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ImplicitOAuthFlow).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_ImplicitOAuthFlow_WithMapOfAnything(e *ImplicitOAuthFlow, val map[string]interface{}) func(*ImplicitOAuthFlow) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*ImplicitOAuthFlow).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_ImplicitOAuthFlow_WithMapOfAnythingItem(e *ImplicitOAuthFlow, key string, val interface{}) func(*ImplicitOAuthFlow) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *ImplicitOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*PasswordOAuthFlow).WithTokenURL
//vc:props C06
//vc:inline
func vcB_PasswordOAuthFlow_WithTokenURL(e *PasswordOAuthFlow, val string) func(*PasswordOAuthFlow) {
	vc.Modifies(&e.TokenURL)

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.TokenURL, val))
	}
}

//vc:func (*PasswordOAuthFlow).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_PasswordOAuthFlow_WithRefreshURL(e *PasswordOAuthFlow, val string) func(*PasswordOAuthFlow) {
	vc.Modifies(&e.RefreshURL)

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*PasswordOAuthFlow).WithScopes
//vc:props C06
//vc:inline
func vcB_PasswordOAuthFlow_WithScopes(e *PasswordOAuthFlow, val map[string]string) func(*PasswordOAuthFlow) {
	vc.Modifies(&e.Scopes)

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*PasswordOAuthFlow).WithScopesItem
//vc:props C06
//vc:inline
func vcB_PasswordOAuthFlow_WithScopesItem(e *PasswordOAuthFlow, key string, val string) func(*PasswordOAuthFlow) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*PasswordOAuthFlow).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_PasswordOAuthFlow_WithMapOfAnything(e *PasswordOAuthFlow, val map[string]interface{}) func(*PasswordOAuthFlow) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*PasswordOAuthFlow).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_PasswordOAuthFlow_WithMapOfAnythingItem(e *PasswordOAuthFlow, key string, val interface{}) func(*PasswordOAuthFlow) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *PasswordOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ClientCredentialsFlow).WithTokenURL
//vc:props C06
//vc:inline
func vcB_ClientCredentialsFlow_WithTokenURL(e *ClientCredentialsFlow, val string) func(*ClientCredentialsFlow) {
	vc.Modifies(&e.TokenURL)

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.TokenURL, val))
	}
}

//vc:func (*ClientCredentialsFlow).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_ClientCredentialsFlow_WithRefreshURL(e *ClientCredentialsFlow, val string) func(*ClientCredentialsFlow) {
	vc.Modifies(&e.RefreshURL)

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*ClientCredentialsFlow).WithScopes
//vc:props C06
//vc:inline
func vcB_ClientCredentialsFlow_WithScopes(e *ClientCredentialsFlow, val map[string]string) func(*ClientCredentialsFlow) {
	vc.Modifies(&e.Scopes)

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*ClientCredentialsFlow).WithScopesItem
//vc:props C06
//vc:inline
func vcB_ClientCredentialsFlow_WithScopesItem(e *ClientCredentialsFlow, key string, val string) func(*ClientCredentialsFlow) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ClientCredentialsFlow).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_ClientCredentialsFlow_WithMapOfAnything(e *ClientCredentialsFlow, val map[string]interface{}) func(*ClientCredentialsFlow) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*ClientCredentialsFlow).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_ClientCredentialsFlow_WithMapOfAnythingItem(e *ClientCredentialsFlow, key string, val interface{}) func(*ClientCredentialsFlow) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *ClientCredentialsFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithAuthorizationURL
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithAuthorizationURL(e *AuthorizationCodeOAuthFlow, val string) func(*AuthorizationCodeOAuthFlow) {
	vc.Modifies(&e.AuthorizationURL)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.AuthorizationURL, val))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithTokenURL
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithTokenURL(e *AuthorizationCodeOAuthFlow, val string) func(*AuthorizationCodeOAuthFlow) {
	vc.Modifies(&e.TokenURL)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.TokenURL, val))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithRefreshURL
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithRefreshURL(e *AuthorizationCodeOAuthFlow, val string) func(*AuthorizationCodeOAuthFlow) {
	vc.Modifies(&e.RefreshURL)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.RefreshURL != nil && vc.Fresh(e.RefreshURL) && vc.Eq(*e.RefreshURL, val))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithScopes
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithScopes(e *AuthorizationCodeOAuthFlow, val map[string]string) func(*AuthorizationCodeOAuthFlow) {
	vc.Modifies(&e.Scopes)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.Scopes, val))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithScopesItem
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithScopesItem(e *AuthorizationCodeOAuthFlow, key string, val string) func(*AuthorizationCodeOAuthFlow) {
	prev := e.Scopes
	old := vc.Snap(e.Scopes)
	vc.Modifies(&e.Scopes, e.Scopes)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.Scopes[key]
		vc.Ensure("key is set", e.Scopes != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.Scopes, prev) || vc.Fresh(e.Scopes))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.Scopes[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithMapOfAnything(e *AuthorizationCodeOAuthFlow, val map[string]interface{}) func(*AuthorizationCodeOAuthFlow) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*AuthorizationCodeOAuthFlow).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_AuthorizationCodeOAuthFlow_WithMapOfAnythingItem(e *AuthorizationCodeOAuthFlow, key string, val interface{}) func(*AuthorizationCodeOAuthFlow) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *AuthorizationCodeOAuthFlow) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*OpenIDConnectSecurityScheme).WithOpenIDConnectURL
//vc:props C06
//vc:inline
func vcB_OpenIDConnectSecurityScheme_WithOpenIDConnectURL(e *OpenIDConnectSecurityScheme, val string) func(*OpenIDConnectSecurityScheme) {
	vc.Modifies(&e.OpenIDConnectURL)

	return func(r *OpenIDConnectSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.OpenIDConnectURL, val))
	}
}

//vc:func (*OpenIDConnectSecurityScheme).WithDescription
//vc:props C06
//vc:inline
func vcB_OpenIDConnectSecurityScheme_WithDescription(e *OpenIDConnectSecurityScheme, val string) func(*OpenIDConnectSecurityScheme) {
	vc.Modifies(&e.Description)

	return func(r *OpenIDConnectSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.Description != nil && vc.Fresh(e.Description) && vc.Eq(*e.Description, val))
	}
}

//vc:func (*OpenIDConnectSecurityScheme).WithMapOfAnything
//vc:props C06
//vc:inline
func vcB_OpenIDConnectSecurityScheme_WithMapOfAnything(e *OpenIDConnectSecurityScheme, val map[string]interface{}) func(*OpenIDConnectSecurityScheme) {
	vc.Modifies(&e.MapOfAnything)

	return func(r *OpenIDConnectSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfAnything, val))
	}
}

//vc:func (*OpenIDConnectSecurityScheme).WithMapOfAnythingItem
//vc:props C06
//vc:inline
func vcB_OpenIDConnectSecurityScheme_WithMapOfAnythingItem(e *OpenIDConnectSecurityScheme, key string, val interface{}) func(*OpenIDConnectSecurityScheme) {
	prev := e.MapOfAnything
	old := vc.Snap(e.MapOfAnything)
	vc.Modifies(&e.MapOfAnything, e.MapOfAnything)

	return func(r *OpenIDConnectSecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfAnything[key]
		vc.Ensure("key is set", e.MapOfAnything != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfAnything, prev) || vc.Fresh(e.MapOfAnything))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfAnything[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*SecurityScheme).WithAPIKeySecurityScheme
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithAPIKeySecurityScheme(e *SecurityScheme, val APIKeySecurityScheme) func(*SecurityScheme) {
	vc.Modifies(&e.APIKeySecurityScheme)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.APIKeySecurityScheme != nil && vc.Fresh(e.APIKeySecurityScheme) && vc.Eq(*e.APIKeySecurityScheme, val))
	}
}

//vc:func (*SecurityScheme).APIKeySecuritySchemeEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_APIKeySecuritySchemeEns(e *SecurityScheme) func(*APIKeySecurityScheme) {
	old := e.APIKeySecurityScheme
	vc.Modifies(&e.APIKeySecurityScheme)
	var zero APIKeySecurityScheme

	return func(r *APIKeySecurityScheme) {
		vc.Ensure("returns the field", r == e.APIKeySecurityScheme && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithHTTPSecurityScheme
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithHTTPSecurityScheme(e *SecurityScheme, val HTTPSecurityScheme) func(*SecurityScheme) {
	vc.Modifies(&e.HTTPSecurityScheme)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.HTTPSecurityScheme != nil && vc.Fresh(e.HTTPSecurityScheme) && vc.Eq(*e.HTTPSecurityScheme, val))
	}
}

//vc:func (*SecurityScheme).HTTPSecuritySchemeEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_HTTPSecuritySchemeEns(e *SecurityScheme) func(*HTTPSecurityScheme) {
	old := e.HTTPSecurityScheme
	vc.Modifies(&e.HTTPSecurityScheme)
	var zero HTTPSecurityScheme

	return func(r *HTTPSecurityScheme) {
		vc.Ensure("returns the field", r == e.HTTPSecurityScheme && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithOAuth2SecurityScheme
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithOAuth2SecurityScheme(e *SecurityScheme, val OAuth2SecurityScheme) func(*SecurityScheme) {
	vc.Modifies(&e.OAuth2SecurityScheme)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.OAuth2SecurityScheme != nil && vc.Fresh(e.OAuth2SecurityScheme) && vc.Eq(*e.OAuth2SecurityScheme, val))
	}
}

//vc:func (*SecurityScheme).OAuth2SecuritySchemeEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_OAuth2SecuritySchemeEns(e *SecurityScheme) func(*OAuth2SecurityScheme) {
	old := e.OAuth2SecurityScheme
	vc.Modifies(&e.OAuth2SecurityScheme)
	var zero OAuth2SecurityScheme

	return func(r *OAuth2SecurityScheme) {
		vc.Ensure("returns the field", r == e.OAuth2SecurityScheme && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecurityScheme).WithOpenIDConnectSecurityScheme
//vc:props C06
//vc:inline
func vcB_SecurityScheme_WithOpenIDConnectSecurityScheme(e *SecurityScheme, val OpenIDConnectSecurityScheme) func(*SecurityScheme) {
	vc.Modifies(&e.OpenIDConnectSecurityScheme)

	return func(r *SecurityScheme) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.OpenIDConnectSecurityScheme != nil && vc.Fresh(e.OpenIDConnectSecurityScheme) && vc.Eq(*e.OpenIDConnectSecurityScheme, val))
	}
}

//vc:func (*SecurityScheme).OpenIDConnectSecuritySchemeEns
//vc:props C06
//vc:inline
func vcB_SecurityScheme_OpenIDConnectSecuritySchemeEns(e *SecurityScheme) func(*OpenIDConnectSecurityScheme) {
	old := e.OpenIDConnectSecurityScheme
	vc.Modifies(&e.OpenIDConnectSecurityScheme)
	var zero OpenIDConnectSecurityScheme

	return func(r *OpenIDConnectSecurityScheme) {
		vc.Ensure("returns the field", r == e.OpenIDConnectSecurityScheme && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecuritySchemeOrRef).WithSecuritySchemeReference
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrRef_WithSecuritySchemeReference(e *SecuritySchemeOrRef, val SecuritySchemeReference) func(*SecuritySchemeOrRef) {
	vc.Modifies(&e.SecuritySchemeReference)

	return func(r *SecuritySchemeOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SecuritySchemeReference != nil && vc.Fresh(e.SecuritySchemeReference) && vc.Eq(*e.SecuritySchemeReference, val))
	}
}

//vc:func (*SecuritySchemeOrRef).SecuritySchemeReferenceEns
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrRef_SecuritySchemeReferenceEns(e *SecuritySchemeOrRef) func(*SecuritySchemeReference) {
	old := e.SecuritySchemeReference
	vc.Modifies(&e.SecuritySchemeReference)
	var zero SecuritySchemeReference

	return func(r *SecuritySchemeReference) {
		vc.Ensure("returns the field", r == e.SecuritySchemeReference && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*SecuritySchemeOrRef).WithSecurityScheme
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrRef_WithSecurityScheme(e *SecuritySchemeOrRef, val SecurityScheme) func(*SecuritySchemeOrRef) {
	vc.Modifies(&e.SecurityScheme)

	return func(r *SecuritySchemeOrRef) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", e.SecurityScheme != nil && vc.Fresh(e.SecurityScheme) && vc.Eq(*e.SecurityScheme, val))
	}
}

//vc:func (*SecuritySchemeOrRef).SecuritySchemeEns
//vc:props C06
//vc:inline
func vcB_SecuritySchemeOrRef_SecuritySchemeEns(e *SecuritySchemeOrRef) func(*SecurityScheme) {
	old := e.SecurityScheme
	vc.Modifies(&e.SecurityScheme)
	var zero SecurityScheme

	return func(r *SecurityScheme) {
		vc.Ensure("returns the field", r == e.SecurityScheme && r != nil)
		vc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))
		vc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))
	}
}

//vc:func (*ComponentsSecuritySchemes).WithMapOfSecuritySchemeOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsSecuritySchemes_WithMapOfSecuritySchemeOrRefValues(e *ComponentsSecuritySchemes, val map[string]SecuritySchemeOrRef) func(*ComponentsSecuritySchemes) {
	vc.Modifies(&e.MapOfSecuritySchemeOrRefValues)

	return func(r *ComponentsSecuritySchemes) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfSecuritySchemeOrRefValues, val))
	}
}

//vc:func (*ComponentsSecuritySchemes).WithMapOfSecuritySchemeOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsSecuritySchemes_WithMapOfSecuritySchemeOrRefValuesItem(e *ComponentsSecuritySchemes, key string, val SecuritySchemeOrRef) func(*ComponentsSecuritySchemes) {
	prev := e.MapOfSecuritySchemeOrRefValues
	old := vc.Snap(e.MapOfSecuritySchemeOrRefValues)
	vc.Modifies(&e.MapOfSecuritySchemeOrRefValues, e.MapOfSecuritySchemeOrRefValues)

	return func(r *ComponentsSecuritySchemes) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfSecuritySchemeOrRefValues[key]
		vc.Ensure("key is set", e.MapOfSecuritySchemeOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfSecuritySchemeOrRefValues, prev) || vc.Fresh(e.MapOfSecuritySchemeOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfSecuritySchemeOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsLinks).WithMapOfLinkOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsLinks_WithMapOfLinkOrRefValues(e *ComponentsLinks, val map[string]LinkOrRef) func(*ComponentsLinks) {
	vc.Modifies(&e.MapOfLinkOrRefValues)

	return func(r *ComponentsLinks) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfLinkOrRefValues, val))
	}
}

//vc:func (*ComponentsLinks).WithMapOfLinkOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsLinks_WithMapOfLinkOrRefValuesItem(e *ComponentsLinks, key string, val LinkOrRef) func(*ComponentsLinks) {
	prev := e.MapOfLinkOrRefValues
	old := vc.Snap(e.MapOfLinkOrRefValues)
	vc.Modifies(&e.MapOfLinkOrRefValues, e.MapOfLinkOrRefValues)

	return func(r *ComponentsLinks) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfLinkOrRefValues[key]
		vc.Ensure("key is set", e.MapOfLinkOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfLinkOrRefValues, prev) || vc.Fresh(e.MapOfLinkOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfLinkOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*ComponentsCallbacks).WithMapOfCallbackOrRefValues
//vc:props C06
//vc:inline
func vcB_ComponentsCallbacks_WithMapOfCallbackOrRefValues(e *ComponentsCallbacks, val map[string]CallbackOrRef) func(*ComponentsCallbacks) {
	vc.Modifies(&e.MapOfCallbackOrRefValues)

	return func(r *ComponentsCallbacks) {
		vc.Ensure("returns the receiver", r == e)
		vc.Ensure("field is set", vc.Eq(e.MapOfCallbackOrRefValues, val))
	}
}

//vc:func (*ComponentsCallbacks).WithMapOfCallbackOrRefValuesItem
//vc:props C06
//vc:inline
func vcB_ComponentsCallbacks_WithMapOfCallbackOrRefValuesItem(e *ComponentsCallbacks, key string, val CallbackOrRef) func(*ComponentsCallbacks) {
	prev := e.MapOfCallbackOrRefValues
	old := vc.Snap(e.MapOfCallbackOrRefValues)
	vc.Modifies(&e.MapOfCallbackOrRefValues, e.MapOfCallbackOrRefValues)

	return func(r *ComponentsCallbacks) {
		vc.Ensure("returns the receiver", r == e)
		v, ok := e.MapOfCallbackOrRefValues[key]
		vc.Ensure("key is set", e.MapOfCallbackOrRefValues != nil && ok && vc.Eq(v, val))
		vc.Ensure("map is its own", vc.Eq(e.MapOfCallbackOrRefValues, prev) || vc.Fresh(e.MapOfCallbackOrRefValues))
		vc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {
			a, aok := e.MapOfCallbackOrRefValues[k]
			b, bok := old[k]

			return vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))
		}))
	}
}

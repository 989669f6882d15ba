// Generated by tools/gen_contracts.py from contracts_tmpl. DO NOT EDIT.

package openapi3

import (
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

func vcOpHas(p *string, v string) bool { return p != nil && *p == v && vc.Fresh(p) }

func vcStrOf(p *string) string { return vc.If(p == nil, "", *p) }

//vc:func (operationContext).SetTags
//vc:props C17
func contractSetTags(o operationContext, tags []string) func() {
	vc.Requires("has an operation", o.op != nil)
	vc.Modifies(&o.op.Tags)

	return func() { vc.Ensure("C17.tags are stored", vc.Eq(o.op.Tags, tags)) }
}

//vc:func (operationContext).Tags
//vc:props C17
func contractTags(o operationContext) func([]string) {
	vc.Requires("has an operation", o.op != nil)

	return func(r []string) { vc.Ensure("C17.reads the tags", vc.Eq(r, o.op.Tags)) }
}

//vc:func (operationContext).SetIsDeprecated
//vc:props C17
func contractSetIsDeprecated(o operationContext, isDeprecated bool) func() {
	vc.Requires("has an operation", o.op != nil)
	vc.Modifies(&o.op.Deprecated)

	return func() {
		vc.Ensure("C17.deprecation is stored", o.op.Deprecated != nil && *o.op.Deprecated == isDeprecated && vc.Fresh(o.op.Deprecated))
	}
}

//vc:func (operationContext).IsDeprecated
//vc:props C17
func contractIsDeprecated(o operationContext) func(bool) {
	vc.Requires("has an operation", o.op != nil)

	return func(r bool) { vc.Ensure("C17.reads the deprecation", r == (o.op.Deprecated != nil && *o.op.Deprecated)) }
}

//vc:func (operationContext).SetSummary
//vc:props C17
func contractSetSummary(o operationContext, summary string) func() {
	vc.Requires("has an operation", o.op != nil)
	vc.Modifies(&o.op.Summary)

	return func() { vc.Ensure("C17.summary is stored", vcOpHas(o.op.Summary, summary)) }
}

//vc:func (operationContext).Summary
//vc:props C17
func contractSummary(o operationContext) func(string) {
	vc.Requires("has an operation", o.op != nil)

	return func(r string) { vc.Ensure("C17.reads the summary", r == vcStrOf(o.op.Summary)) }
}

//vc:func (operationContext).SetDescription
//vc:props C17
func contractSetOpDescription(o operationContext, description string) func() {
	vc.Requires("has an operation", o.op != nil)
	vc.Modifies(&o.op.Description)

	return func() { vc.Ensure("C17.description is stored", vcOpHas(o.op.Description, description)) }
}

//vc:func (operationContext).Description
//vc:props C17
func contractOpDescription(o operationContext) func(string) {
	vc.Requires("has an operation", o.op != nil)

	return func(r string) { vc.Ensure("C17.reads the description", r == vcStrOf(o.op.Description)) }
}

//vc:func (operationContext).SetID
//vc:props C17
func contractSetID(o operationContext, operationID string) func() {
	vc.Requires("has an operation", o.op != nil)
	vc.Modifies(&o.op.ID)

	return func() { vc.Ensure("C17.identifier is stored", vcOpHas(o.op.ID, operationID)) }
}

//vc:func (operationContext).ID
//vc:props C17
func contractID(o operationContext) func(string) {
	vc.Requires("has an operation", o.op != nil)

	return func(r string) { vc.Ensure("C17.reads the identifier", r == vcStrOf(o.op.ID)) }
}

//vc:func (operationContext).Operation
//vc:props C17
//vc:inline
func contractExposed(o operationContext) func(*Operation) {
	return func(r *Operation) { vc.Ensure("C17.exposes its operation", r == o.op) }
}

//vc:func (operationContext).AddSecurity
//vc:props C17
func contractAddSecurity(o operationContext, securityName string, scopes []string) func() {
	vc.Requires("has an operation", o.op != nil)
	vc.Modifies(&o.op.Security)
	before := vc.SnapSlice(o.op.Security)

	return func() {
		now := o.op.Security
		n := len(before)
		vc.Ensure("C17.one requirement is appended", len(now) == n+1 && vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < n, vc.Eq(now[i], before[i]))
		}))
		vc.Ensure("C17.requirement names the scheme only", now[n] != nil && vc.Forall(func(k string) bool {
			_, ok := now[n][k]

			return vc.Iff(ok, k == securityName)
		}))
		s := now[n][securityName]
		vc.Ensure("C17.scopes are the given ones, not null", s != nil && vc.Implies(scopes != nil, vc.Eq(s, scopes)) && vc.Implies(scopes == nil, len(s) == 0))
	}
}

//vc:func (operationContext).UnknownParamsAreForbidden
//vc:props C17
func contractUnknownParamsAreForbidden(o operationContext, in openapi.In) func(bool) {
	vc.Requires("has an operation", o.op != nil)

	return func(r bool) {
		v, ok := o.op.MapOfAnything["x-forbid-unknown-"+string(in)]
		vc.Ensure("C17.reports the mark of the location", vc.Iff(r, ok && vc.TypeIs[bool](v) && vc.Dyn[bool](v)))
	}
}

package openapi

import (
	"github.com/swaggest/openapi-go/internal/vc"
)

//vc:func (*ContentUnit).SetFieldMapping
//vc:props C17
func contractSetFieldMapping(c *ContentUnit, in In, fieldToParamName map[string]string) func() {
	vc.Modifies(&c.fieldMapping, c.fieldMapping)
	was := c.fieldMapping
	before := vc.Snap(c.fieldMapping)

	return func() {
		vc.Ensure("C17.mapping is stored under its location", vc.Implies(len(fieldToParamName) > 0, vc.Eq(c.fieldMapping[in], fieldToParamName)))
		vc.Ensure("C17.mappings of other locations are kept", vc.Forall(func(k In) bool {
			v, ok := c.fieldMapping[k]
			w, was := before[k]

			return vc.Implies(k != in || len(fieldToParamName) == 0, ok == was && vc.Eq(v, w))
		}))
		vc.Ensure("C17.mappings are kept in their own map", vc.Eq(c.fieldMapping, was) || vc.Fresh(c.fieldMapping))
	}
}

//vc:func (ContentUnit).FieldMapping
//vc:props C17
func contractFieldMapping(c ContentUnit, in In) func(map[string]string) {
	return func(r map[string]string) { vc.Ensure("C17.reads the mapping of the location", vc.Eq(r, c.fieldMapping[in])) }
}

//vc:func WithContentType
//vc:props C17
func contractWithContentType(contentType string) func(func(cu *ContentUnit)) {
	return func(r func(cu *ContentUnit)) {
		cu := vc.Any[ContentUnit]()
		want := cu
		want.ContentType = contentType
		r(&cu)
		vc.Ensure("C17.option sets the content type and nothing else", vc.Eq(cu, want))
	}
}

//vc:func WithHTTPStatus
//vc:props C17
func contractWithHTTPStatus(httpStatus int) func(func(cu *ContentUnit)) {
	return func(r func(cu *ContentUnit)) {
		cu := vc.Any[ContentUnit]()
		want := cu
		want.HTTPStatus = httpStatus
		r(&cu)
		vc.Ensure("C17.option sets the status and nothing else", vc.Eq(cu, want))
	}
}

//vc:func WithCustomize
//vc:props C17
func contractWithCustomize(customize func(cor ContentOrReference)) func(ContentOption) {
	return func(r ContentOption) {
		cu := vc.Any[ContentUnit]()
		want := cu
		want.Customize = customize
		r(&cu)
		vc.Ensure("C17.option sets the customization and nothing else", vc.Eq(cu, want))
	}
}

package openapi

import (
	"strings"

	"github.com/swaggest/openapi-go/internal/vc"
)

func vcIsMethod(m string) bool {
	return m == "get" || m == "put" || m == "post" || m == "delete" || m == "options" || m == "head" || m == "patch" || m == "trace"
}

// The regexp engine is not modelled: the submatches are arbitrary groups of three strings.
//
//vc:model (*regexp.Regexp).FindAllStringSubmatch
func modelFindAll(re interface{}, s string, n int) [][]string {
	r := vc.AnyFresh[[][]string]()
	vc.Assume(vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < len(r), len(r[i]) == 3) }))
	return r
}

//vc:func SanitizeMethodPath
//vc:props C01
//vc:nopanic
func contractSanitizeMethodPath(method, pathPattern string) func(string, string, []string, error) {
	m := strings.ToLower(method)
	return func(cm, cp string, pp []string, err error) {
		vc.Ensure("C01.exactly the eight methods are accepted", vc.Iff(err == nil, vcIsMethod(m)))
		vc.Ensure("C01.method is lower-cased", vc.Implies(err == nil, cm == m))
		vc.Ensure("C01.no results with an error", vc.Implies(err != nil, cm == "" && cp == "" && len(pp) == 0))
		// decided by bounded exhaustive enumeration of patterns, see DESIGN.md
		vc.Produce(vc.Implies(err == nil, cp == vc.RelStr("cleanPath", pathPattern)))
		vc.Produce(vc.RelStr("cleanPath", vc.RelStr("cleanPath", pathPattern)) == vc.RelStr("cleanPath", pathPattern))
		vc.Produce(vc.Implies(err == nil, len(pp) == vc.RelInt("placeholderCount", pathPattern)))
		vc.Produce(vc.RelInt("placeholderCount", vc.RelStr("cleanPath", pathPattern)) == vc.RelInt("placeholderCount", pathPattern))
		vc.Produce(vc.Implies(err == nil, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < len(pp), pp[i] == vc.RelStr("placeholder", pathPattern, i))
		})))
		vc.Produce(vc.Forall(func(i int) bool {
			return vc.RelStr("placeholder", vc.RelStr("cleanPath", pathPattern), i) == vc.RelStr("placeholder", pathPattern, i)
		}))
	}
}

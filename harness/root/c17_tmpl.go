package openapi_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

type zzPrep17 struct { //@30
	CT string //@30
} //@30

func (p zzPrep17) SetupContentUnit(cu *openapi.ContentUnit) { //@30
	cu.Structure = map[string]int{p.CT: 1} //@30
	cu.ContentType = p.CT                  //@30
	cu.HTTPStatus = 299                    //@30
} //@30

type zzIn17 struct { //@30
	ID    int    `path:"id" json:"-"`      //@30
	Q     string `query:"q" json:"-"`      //@30
	H     string `header:"X-H" json:"-"`   //@30
	C     string `cookie:"c" json:"-"`     //@30
	Other string `json:"other" form:"oth"` //@30
} //@30

type zzOut17 struct { //@30
	X  string `json:"x"`              //@30
	XH string `header:"X-H" json:"-"` //@30
} //@30

type zzState17V30 struct {
	tags              []string
	deprecated        bool
	summary, desc, id string
	resp              bool
	in                openapi.In
	req, res          []zzWant17
	security          []map[string][]string
	method, path      string
	forbidden         map[openapi.In]bool
	op                *openapi3.Operation
}

func zzCheck17V30(r *zzh.R, oc openapi.OperationContext, w *zzState17V30, step string) {
	fail := func(what string, got, want interface{}) {
		r.Fail("read back "+what, "after %s: %s is %s, want %s", step, what, zzh.Trunc(zzh.JSON(got), 300), zzh.Trunc(zzh.JSON(want), 300))
	}
	if !reflect.DeepEqual(append([]string{}, oc.Tags()...), append([]string{}, w.tags...)) {
		fail("tags", oc.Tags(), w.tags)
	}
	if oc.IsDeprecated() != w.deprecated {
		fail("deprecation", oc.IsDeprecated(), w.deprecated)
	}
	if oc.Summary() != w.summary {
		fail("summary", oc.Summary(), w.summary)
	}
	if oc.Description() != w.desc {
		fail("description", oc.Description(), w.desc)
	}
	if oc.ID() != w.id {
		fail("identifier", oc.ID(), w.id)
	}
	if oc.IsProcessingResponse() != w.resp || oc.ProcessingIn() != w.in {
		fail("processing state", fmt.Sprint(oc.IsProcessingResponse(), oc.ProcessingIn()), fmt.Sprint(w.resp, w.in))
	}
	if oc.Method() != w.method || oc.PathPattern() != w.path {
		fail("route", oc.Method()+" "+oc.PathPattern(), w.method+" "+w.path)
	}
	units := func(what string, got []openapi.ContentUnit, want []zzWant17) {
		if len(got) != len(want) {
			fail("number of "+what+" units", len(got), len(want))

			return
		}
		for i := range got {
			if d := want[i].diff(got[i]); d != "" {
				r.Fail("read back "+what+" unit", "after %s: unit %d: %s", step, i, d)
			}
		}
	}
	units("request", oc.Request(), w.req)
	units("response", oc.Response(), w.res)
	op := oc.(openapi3.OperationExposer).Operation()
	if op != w.op {
		fail("operation", "another object", "the same object")

		return
	}
	if len(op.Security) != len(w.security) {
		fail("number of security requirements", len(op.Security), len(w.security))
	} else {
		for i, s := range w.security {
			if zzh.JSON(op.Security[i]) != zzh.JSON(s) {
				fail("security", op.Security, w.security)
			}
		}
	}
	for _, in := range []openapi.In{openapi.InPath, openapi.InQuery, openapi.InHeader, openapi.InCookie, openapi.InFormData, openapi.InBody} {
		if oc.UnknownParamsAreForbidden(in) != w.forbidden[in] {
			fail("unknown parameters forbidden in "+string(in), oc.UnknownParamsAreForbidden(in), w.forbidden[in])
		}
	}
}

func TestVerifC17V30(t *testing.T) {
	ins := []openapi.In{openapi.InPath, openapi.InQuery, openapi.InHeader, openapi.InCookie, openapi.InFormData, openapi.InBody}
	zzh.Run(t, "C17", "random histories of 14 setter and add calls on one operation context, everything read back after each; distinct = distinct history prefix", func(r *zzh.R) {
		for round := 0; round < r.N(1500, 20000) && !r.Late(); round++ {
			g := zzGen(r, 3, 25)
			m := r.Pick("get", "POST", "Delete", "pAtch", "put", "trace", "head", "options")
			w := &zzState17V30{forbidden: map[openapi.In]bool{}, path: r.Pick("/", "/a/{id}", "/ä", "")}
			refl := openapi3.NewReflector()
			oc, err := refl.NewOperationContext(m, w.path)
			if err != nil {
				r.Fail("new context", "%v", err)

				continue
			}
			w.method = zzLower17(m)
			w.op = oc.(openapi3.OperationExposer).Operation()
			hist := m + " " + w.path
			strs := func() []string {
				n := r.Intn(4)
				if n == 0 {
					return nil
				}
				s := make([]string, n-1)
				for i := range s {
					s[i] = g.Str()
				}

				return s
			}
			for step := 0; step < 14; step++ {
				what := ""
				v := g.Str()
				switch r.Intn(11) {
				case 0:
					w.tags = strs()
					what = "SetTags " + zzh.JSON(w.tags)
					oc.SetTags(w.tags...)
				case 1:
					w.deprecated = r.Intn(2) == 0
					what = fmt.Sprint("SetIsDeprecated ", w.deprecated)
					oc.SetIsDeprecated(w.deprecated)
				case 2:
					w.summary, what = v, "SetSummary "+v
					oc.SetSummary(v)
				case 3:
					w.desc, what = v, "SetDescription "+v
					oc.SetDescription(v)
				case 4:
					w.id, what = v, "SetID "+v
					oc.SetID(v)
				case 5:
					w.resp = r.Intn(2) == 0
					what = fmt.Sprint("SetIsProcessingResponse ", w.resp)
					oc.SetIsProcessingResponse(w.resp)
				case 6:
					w.in = ins[r.Intn(len(ins))]
					what = "SetProcessingIn " + string(w.in)
					oc.SetProcessingIn(w.in)
				case 7:
					sc := strs()
					want := append([]string{}, sc...)
					w.security = append(w.security, map[string][]string{v: want})
					what = "AddSecurity " + v + zzh.JSON(sc)
					oc.AddSecurity(v, sc...)
				case 8:
					in := ins[r.Intn(len(ins))]
					key := "x-forbid-unknown-" + string(in)
					var mark interface{} = true
					switch r.Intn(4) {
					case 0:
						mark = false
					case 1:
						mark = "true"
					}
					w.forbidden[in] = mark == true
					what = fmt.Sprintf("mark %s=%v", key, mark)
					w.op.WithMapOfAnythingItem(key, mark)
				case 9:
					in, isResp := ins[r.Intn(len(ins))], r.Intn(2) == 0
					what = fmt.Sprintf("WithOperationCtx %v %s", isResp, in)
					rc := jsonschema.ReflectContext{}
					rc.Context = zzBackground17()
					openapi.WithOperationCtx(oc, isResp, in)(&rc)
					w.resp, w.in = isResp, in
					got, ok := openapi.OperationCtx(&rc)
					e, same := got.(openapi3.OperationExposer)
					r.Check(ok && same && e.Operation() == w.op, "reflect context", "OperationCtx after WithOperationCtx: found %v, %T", ok, got)
					rc2 := jsonschema.ReflectContext{Context: zzBackground17()}
					got, ok = openapi.OperationCtx(&rc2)
					r.Check(!ok && got == nil, "reflect context", "OperationCtx without WithOperationCtx: found %v", ok)
				default:
					unit, st, opts, desc := zzUnit17(r, g.Str)
					if r.Intn(2) == 0 {
						what = "AddReqStructure " + desc
						w.req = append(w.req, unit)
						oc.AddReqStructure(st, opts...)
					} else {
						what = "AddRespStructure " + desc
						w.res = append(w.res, unit)
						oc.AddRespStructure(st, opts...)
					}
				}
				hist += "; " + what
				r.Case("%s", hist)
				r.Try("panic", func() { zzCheck17V30(r, oc, w, what) })
			}
		}
	})
}

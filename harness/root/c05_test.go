package openapi_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi31"
)

func TestVerifC05(t *testing.T) {
	zzh.Run(t, "C05", "random path items x method names (8 methods in mixed case, near misses, random words) with interleaved stores; distinct = distinct (set of stored methods, method)", func(r *zzh.R) {
		words := []string{"", "connect", "CONNECT", "get ", " get", "gets", "ge", "g\x00et", "ge\u0074\u0301", "search", "GETPOST", "tracE\n", "op\u0131ons", "ſearch", "opt\u0130ons", "$ref", "parameters", "summary", "p", "pu", "pos"}
		for round := 0; round < r.N(3000, 40000) && !r.Late(); round++ {
			g := zzGen(r, 3, 30)
			var p openapi31.PathItem
			if r.Intn(3) > 0 {
				p = zzh.Of[openapi31.PathItem](g, 3)
			}
			hist := ""
			for k, s := range zzSlotsV31(&p) {
				_ = k
				if r.Intn(2) == 0 {
					*s = nil
				}
			}
			for _, m := range zzMethods {
				if *zzSlotsV31(&p)[m] != nil {
					hist += m + ","
				}
			}
			for step := 0; step < 4; step++ {
				m := zzMixCase(r, zzMethods[r.Intn(8)])
				if r.Intn(3) == 0 {
					m = words[r.Intn(len(words))]
				}
				lm, known := zzIsMethod(m)
				hist += fmt.Sprintf("; SetOperation(%q)", m)
				r.Case("path item with %s", hist)
				r.Try("panic", func() {
					op := &openapi31.Operation{}
					op.WithID(fmt.Sprint("id", round, step))
					if r.Intn(5) == 0 {
						op = nil
					}
					before, opBefore := zzh.Copy(p), zzh.Copy(op)
					err := p.SetOperation(m, op)
					r.Check((err == nil) == known, "store outcome", "SetOperation(%q) error %v", m, err)
					want := zzh.Copy(before)
					if known {
						*zzSlotsV31(&want)[lm] = opBefore
						r.Check(*zzSlotsV31(&p)[lm] == op, "stored", "SetOperation(%q) did not store the operation it was given", m)
					}
					d := zzh.Diff(p, want)
					r.Check(d == "", "store changes", "after SetOperation(%q): %s", m, d)
					for _, q := range append([]string{m}, zzMethods...) {
						q = zzMixCase(r, q)
						if r.Intn(2) == 0 {
							q = strings.ToUpper(q)
						}
						lq, kq := zzIsMethod(q)
						snap := zzh.Copy(p)
						o, err := p.Operation(q)
						r.Check((err == nil) == kq, "read outcome", "Operation(%q) error %v", q, err)
						var wantOp *openapi31.Operation
						if kq {
							wantOp = *zzSlotsV31(&p)[lq]
						}
						r.Check(o == wantOp, "read", "Operation(%q) gives another operation", q)
						d := zzh.Diff(p, snap)
						r.Check(d == "", "read changes", "Operation(%q): %s", q, d)
					}
				})
			}
		}
		_ = reflect.TypeOf
	})
}

package openapi_test

import (
	"reflect"

	"github.com/swaggest/openapi-go/internal/zzh"
)

const (
	zzRespNone = iota
	zzRespOne
	zzRespTwo
	zzRespDefault
	zzRespRef
	zzRespEmptyMap
	zzRespExtOnly
	zzRespDefaultRef
	zzRespEmptyEntry
	zzRespKinds
)

func zzMixCase(r *zzh.R, m string) string {
	b := []byte(m)
	for i := range b {
		if r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func zzShowArgs(args []reflect.Value) string {
	s := ""
	for i, a := range args[1:] {
		if i > 0 {
			s += ", "
		}
		s += zzh.JSON(a.Interface())
	}
	return s
}

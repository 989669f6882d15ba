package openapi_test

import (
	"reflect"
	"strings"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
)

var zzMethods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

func zzIsMethod(m string) (string, bool) {
	for _, x := range zzMethods {
		if strings.EqualFold(x, m) && len(x) == len(m) {
			return x, true
		}
	}
	return "", false
}

// zzTemplate reads a path pattern: a placeholder is "{" name [":" regexp] "}", name without "}" and ":", both not empty.
func zzTemplate(s string) (clean string, names []string) {
	for i := 0; i < len(s); {
		if s[i] == '{' {
			j := i + 1
			for j < len(s) && s[j] != '}' && s[j] != ':' {
				j++
			}
			end := -1
			if j > i+1 && j < len(s) {
				if s[j] == '}' {
					end = j
				} else {
					k := j + 1
					for k < len(s) && s[k] != '}' {
						k++
					}
					if k > j+1 && k < len(s) {
						end = k
					}
				}
			}
			if end >= 0 {
				names = append(names, s[i+1:j])
				clean += s[i:j] + "}"
				i = end + 1
				continue
			}
		}
		clean += s[i : i+1]
		i++
	}
	return clean, names
}

func zzCheckSanitize(r *zzh.R, method, path string) {
	r.Case("SanitizeMethodPath(%q, %q)", method, path)
	r.Try("panic", func() {
		m, p, ps, err := openapi.SanitizeMethodPath(method, path)
		wm, known := zzIsMethod(method)
		if !known {
			r.Check(err != nil && m == "" && p == "" && ps == nil, "unknown method", "unknown method gives %q %q %q %v", m, p, ps, err)
			return
		}
		wp, wps := zzTemplate(path)
		if !r.Check(err == nil, "known method rejected", "error %v", err) {
			return
		}
		r.Check(m == wm, "method", "method %q, want %q", m, wm)
		r.Check(p == wp, "path", "path %q, want %q", p, wp)
		r.Check(len(ps) == len(wps) && (len(ps) == 0 || reflect.DeepEqual(ps, wps)), "names", "names %q, want %q", ps, wps)
		m2, p2, ps2, err := openapi.SanitizeMethodPath(m, p)
		r.Check(err == nil && m2 == m && p2 == p && len(ps2) == len(ps) && (len(ps) == 0 || reflect.DeepEqual(ps, ps2)),
			"idempotent", "sanitizing the result gives %q %q %q %v", m2, p2, ps2, err)
	})
}

func TestVerifC01(t *testing.T) {
	zzh.Run(t, "C01", "all path patterns over {'{','}',':','a','/'} up to a length, with all letter cases of methods and near-miss method names; distinct = distinct (method, pattern)", func(r *zzh.R) {
		al := "{}:a/"
		for n, max := 0, r.N(7, 9); n <= max; n++ {
			b := make([]byte, n)
			var rec func(i int)
			rec = func(i int) {
				if i == n {
					zzCheckSanitize(r, "Get", string(b))
					return
				}
				for _, c := range []byte(al) {
					b[i] = c
					rec(i + 1)
				}
			}
			rec(0)
		}
		for _, p := range []string{"", "/", "/a/{b:[0-9]+}/{c}", "/{a:x}/{a:x}", "/{b:\\d{3}}/é", "/{ a b }", "/{a}/{b}/{a}/{c:.*}.json", "/{b}:{c}", "/{c:\n}"} {
			for _, m := range zzMethods {
				for mask := 0; mask < 1<<len(m); mask++ {
					v := []byte(m)
					for i := range v {
						if mask>>i&1 == 1 {
							v[i] -= 'a' - 'A'
						}
					}
					zzCheckSanitize(r, string(v), p)
				}
				for i := 0; i <= len(m); i++ {
					for _, x := range []string{" ", "x", "s", "\x00", "\u212a", "\u017f"} {
						zzCheckSanitize(r, m[:i]+x+m[i:], p)
						if i < len(m) {
							zzCheckSanitize(r, m[:i]+x+m[i+1:], p)
						}
					}
					if i < len(m) {
						zzCheckSanitize(r, m[:i]+m[i+1:], p)
					}
				}
			}
			for _, m := range []string{"", "connect", "CONNECT", "*", "get,put", "getput", "link", "query", "GET ", "options*"} {
				zzCheckSanitize(r, m, p)
			}
		}
		frag := []string{"{", "}", ":", "a", "b", "id", "/", "[0-9]+", "{id}", "{id:[a-z]+}", "{n:\\d+}", "é", " ", "*", ".*", "{id:x}", "-", "$", "$1", "{x:$1}"}
		for i := 0; i < r.N(30000, 400000); i++ {
			s := ""
			for n := r.Intn(12); n > 0; n-- {
				s += frag[r.Intn(len(frag))]
			}
			zzCheckSanitize(r, zzMethods[r.Intn(8)], s)
		}
	})
}

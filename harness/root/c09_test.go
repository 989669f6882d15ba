package openapi_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/swaggest/openapi-go/internal/zzh"
	"gopkg.in/yaml.v2"
)

// zzWrite09 writes data as YAML in one of several styles; keys that look like numbers or booleans lose their quotes.
func zzWrite09(r *zzh.R, v interface{}, indent int, flow bool) string {
	pad := strings.Repeat("  ", indent)
	switch x := v.(type) {
	case map[string]interface{}:
		ks := zzKeys07(x)
		if len(ks) == 0 {
			return "{}"
		}
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		var b strings.Builder
		if flow || r.Intn(6) == 0 {
			for i, k := range ks {
				fmt.Fprintf(&b, "%s%s: %s", map[bool]string{true: "{", false: ", "}[i == 0], zzKey09(k), zzWrite09(r, x[k], 0, true))
			}
			return b.String() + "}"
		}
		for _, k := range ks {
			fmt.Fprintf(&b, "\n%s%s: %s", pad, zzKey09(k), zzWrite09(r, x[k], indent+1, false))
		}
		return b.String()
	case []interface{}:
		if len(x) == 0 {
			return "[]"
		}
		var b strings.Builder
		if flow || r.Intn(6) == 0 {
			for i, y := range x {
				fmt.Fprintf(&b, "%s%s", map[bool]string{true: "[", false: ", "}[i == 0], zzWrite09(r, y, 0, true))
			}
			return b.String() + "]"
		}
		for _, y := range x {
			fmt.Fprintf(&b, "\n%s- %s", pad, zzWrite09(r, y, indent+1, false))
		}
		return b.String()
	case string:
		return zzh.JSON(x)
	case nil:
		return r.Pick("null", "~")
	case bool:
		return r.Pick(map[bool]string{true: "true", false: "false"}[x], map[bool]string{true: "True", false: "False"}[x])
	}

	return zzh.JSON(v)
}

func zzKey09(k string) string {
	if i, err := strconv.Atoi(k); err == nil && strconv.Itoa(i) == k {
		return k
	}
	if k == "true" || k == "false" || k == "1.5" {
		return k
	}

	return zzh.JSON(k)
}

// zzNest09 makes data with any nesting of mappings and sequences.
func zzNest09(r *zzh.R, depth int) interface{} {
	n := 7
	if depth <= 0 {
		n = 3
	}
	switch r.Intn(n) {
	case 0:
		return r.Pick("", "a", "12", "null", "true", "1.5", "a: b", "- x", "näme", "~", "yes", "0o7", "2001-01-01")
	case 1:
		return float64(r.Intn(4000)-2000) / 4
	case 2:
		return r.Intn(2) == 0
	case 3, 4:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[r.Pick("a", "x-b", "200", "404", "-1", "0", "true", "false", "1.5", "4XX", "12a", "")] = zzNest09(r, depth-1)
		}
		return m
	default:
		l := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, zzNest09(r, depth-1))
		}
		return l
	}
}

func zzTopKeys09(j []byte) ([]string, error) {
	d := json.NewDecoder(bytes.NewReader(j))
	var ks []string
	depth, isKey := 0, true
	for {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t {
		case json.Delim('{'), json.Delim('['):
			depth++
			isKey = true
			continue
		case json.Delim('}'), json.Delim(']'):
			depth--
			isKey = true
			if depth == 0 {
				return ks, nil
			}
			continue
		}
		if depth == 1 {
			if isKey {
				ks = append(ks, fmt.Sprint(t))
			}
			isKey = !isKey
		}
	}
}

// zzData09 is the data of decoded YAML in the form of decoded JSON.
func zzData09(v interface{}) interface{} {
	switch x := v.(type) {
	case yaml.MapSlice:
		m := map[string]interface{}{}
		for _, i := range x {
			m[fmt.Sprint(i.Key)] = zzData09(i.Value)
		}
		return m
	case []interface{}:
		l := make([]interface{}, 0, len(x))
		for _, y := range x {
			l = append(l, zzData09(y))
		}
		return l
	case int:
		return float64(x)
	case int64:
		return float64(x)
	case uint64:
		return float64(x)
	}

	return v
}

var _ = sort.Strings

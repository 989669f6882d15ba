"""Writes the table of what the entities are to require and to accept (harness/root/entities_table_test.go).

Run once on a reviewed tree: the table is committed and is not regenerated by the checks."""
import re, sys, json

def lst(s, n):
    m = re.search(r'var %s = \[\]string\{(.*?)\n\}' % n, s, re.S)
    return re.findall(r'"([^"]*)"', m.group(1)) if m else []

def table(v):
    s = open('/repo/openapi%s/entities.go' % v).read()
    out = {}
    pats = dict(re.findall(r'(regex\w*)\s*= regexp.MustCompile\((["`].*?["`])\)', s))
    for m in re.finditer(r'\ntype (\w+) struct\s*\{(.*?)\n?\}\n', s, re.S):
        t, body = m.groups()
        e = {"fields": [], "required": [], "known": [], "strict": False, "patterns": [], "consts": [], "union": [], "also": [], "not": ""}
        for f in re.finditer(r'\n\t(\w+)\s+(\S.*?)\s+`json:"([^"]*)"`', body):
            e["fields"].append([f.group(1), f.group(3), f.group(2)])
        u = re.search(r'\nfunc \(\w \*%s\) UnmarshalJSON\(.*?\n\}\n' % t, s, re.S)
        e["custom"] = bool(u)
        if u:
            b = u.group(0)
            if 'range requireKeys%s ' % t in b: e["required"] = lst(s, 'requireKeys' + t)
            if 'range knownKeys%s ' % t in b: e["known"] = lst(s, 'knownKeys' + t)
            e["strict"] = 'additional properties not allowed' in b
            for r, _, f in re.findall(r'if (regex\w*)\.MatchString\(key\) \{\n\t+matched = true\n\n\t+if (\w+)\.(\w+) == nil', b):
                e["patterns"].append([f, pats[r]])
            a = re.search(r'\.AdditionalProperties == nil', b)
            if a: e["patterns"].append(["AdditionalProperties", ""])
            for k, val in re.findall(r'if v, exists := rawMap\["(\w+)"\]; exists && string\(v\) != (`[^`]*`|"[^"]*")', b):
                e["consts"].append([k, val.strip('`"') if val[0] == '"' else val.strip('`')])
            if 'oneOfValid != 1' in b:
                e["union"] = re.findall(r'oneOfErrors\["(\w+)"\]', b)
            e["also"] = re.findall(r'err = json.Unmarshal\(data, &m\w\.(\w+)\)', b)
            e["also"] = [x for x in e["also"] if x not in e["union"]]
            n = re.search(r'var not (\w+)\n', b)
            if n: e["not"] = n.group(1)
            e["object"] = 'marshal%s(' % t in b
        out[t] = e
    enums = {}
    for t in re.findall(r'\ntype (\w+) string\n', s):
        enums[t] = re.findall(r'= %s\("([^"]*)"\)' % t, s)
    return out, enums

def q(x): return json.dumps(x, ensure_ascii=False)

def gos(l): return "nil" if not l else "[]string{" + ", ".join(map(q, l)) + "}"

def go2(l): return "nil" if not l else "[][]string{" + ", ".join("{" + ", ".join(map(q, x)) + "}" for x in l) + "}"

def main():
    o = ['package openapi_test', '', '// Written by tools/gen_entity_table.py and reviewed; not regenerated by the checks.', '']
    for v in ('3', '31'):
        t, en = table(v)
        V = 'V30' if v == '3' else 'V31'
        o.append('var zzTable%s = map[string]zzEntity{' % V)
        for n in sorted(t):
            e = t[n]
            pats = [[f, p.strip('`') if p[:1] == '`' else json.loads(p) if p else ""] for f, p in e["patterns"]]
            o.append('\t%s: {' % q(n))
            o.append('\t\tfields: %s,' % go2([f[:2] for f in e["fields"]]))
            o.append('\t\trequired: %s, known: %s, strict: %s, custom: %s, object: %s,' % (gos(e["required"]), gos(e["known"]), str(e["strict"]).lower(), str(e["custom"]).lower(), str(e.get("object", True)).lower()))
            o.append('\t\tpatterns: %s, consts: %s,' % (go2(pats), go2(e["consts"])))
            o.append('\t\tunion: %s, also: %s, not: %s,' % (gos(e["union"]), gos(e["also"]), q(e["not"])))
            o.append('\t},')
        o += ['}', '', 'var zzEnums%s = map[string][]string{' % V]
        for n in sorted(en):
            o.append('\t%s: %s,' % (q(n), gos(en[n])))
        o += ['}', '']
    open('/verif/harness/root/entities_table_test.go', 'w').write("\n".join(o))

main()

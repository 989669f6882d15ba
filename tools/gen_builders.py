"""Writes the contracts of the builder methods (C06) from the entity types: contracts/<pkg>/builders.go.

The postconditions come from the naming convention in the property text (With<Field>, With<Field>Item, <Field>Ens) and
the field types only; the generated files are committed and are not rewritten by the checks.
"""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for pkg in ("openapi3", "openapi31"):
    src = open("/repo/%s/entities.go" % pkg).read()
    types = {}
    for m in re.finditer(r"^type (\w+) struct \{\n(.*?)^\}", src, re.M | re.S):
        f = {}
        for l in m.group(2).split("\n"):
            w = re.match(r"\t(\w+)\s+(\S+(?: \S+)*?)\s+`json", l)
            if w:
                f[w.group(1)] = w.group(2)
        types[m.group(1)] = f
    out = ['// Code generated by tools/gen_builders.py. DO NOT EDIT.\n', 'package %s\n' % pkg, 'import (\n\t"github.com/swaggest/openapi-go/internal/vc"\n)\n']
    n = 0
    for m in re.finditer(r"^func \((\w+) \*(\w+)\) (With\w+|\w+Ens)\((.*?)\) \*(\w+) \{", src, re.M):
        recv, t, name, args, ret = m.groups()
        fs = types[t]
        head = lambda props="C06": "//vc:func (*%s).%s\n//vc:props %s\n//vc:inline\nfunc vcB_%s_%s(e *%s%s) func(*%s) {\n" % (t, name, props, t, name, t, ", " + args if args else "", ret)
        if name.endswith("Ens") and name[:-3] in fs:
            F = name[:-3]
            ft = fs[F]
            assert ft == "*" + ret, (t, name, ft)
            body = "\told := e.%s\n\tvc.Modifies(&e.%s)\n\tvar zero %s\n\n\treturn func(r *%s) {\n" % (F, F, ret, ret)
            body += '\t\tvc.Ensure("returns the field", r == e.%s && r != nil)\n' % F
            body += '\t\tvc.Ensure("existing value is kept", vc.Implies(old != nil, r == old))\n'
            body += '\t\tvc.Ensure("absent value becomes a new empty one", vc.Implies(old == nil, vc.Fresh(r) && vc.Eq(*r, zero)))\n\t}\n}\n'
            out.append(head() + body)
            n += 1
            continue
        assert ret == t, (t, name)
        F = name[4:]
        if F in fs and not args.startswith("key string, "):
            ft = fs[F]
            vt = args.split(" ", 1)[1]
            ptr = ft == "*" + vt
            assert ptr or ft == vt or ft == "[]" + vt[3:], (t, name, ft, vt)
            body = "\tvc.Modifies(&e.%s)\n\n\treturn func(r *%s) {\n\t\tvc.Ensure(\"returns the receiver\", r == e)\n" % (F, t)
            if ptr:
                body += '\t\tvc.Ensure("field is set", e.%s != nil && vc.Fresh(e.%s) && vc.Eq(*e.%s, val))\n' % (F, F, F)
            else:
                body += '\t\tvc.Ensure("field is set", vc.Eq(e.%s, val))\n' % F
            body += "\t}\n}\n"
            out.append(head() + body)
            n += 1
            continue
        assert F.endswith("Item") and F[:-4] in fs, (t, name)
        F = F[:-4]
        ft = fs[F]
        body = "\tprev := e.%s\n\told := vc.Snap(e.%s)\n\tvc.Modifies(&e.%s, e.%s)\n\n\treturn func(r *%s) {\n\t\tvc.Ensure(\"returns the receiver\", r == e)\n" % (F, F, F, F, t)
        body += '\t\tv, ok := e.%s[key]\n\t\tvc.Ensure("key is set", e.%s != nil && ok && vc.Eq(v, val))\n\t\tvc.Ensure("map is its own", vc.Eq(e.%s, prev) || vc.Fresh(e.%s))\n' % (F, F, F, F)
        body += '\t\tvc.Ensure("other keys are unchanged", vc.Forall(func(k string) bool {\n\t\t\ta, aok := e.%s[k]\n\t\t\tb, bok := old[k]\n\n\t\t\treturn vc.Implies(k != key, aok == bok && vc.Implies(aok, vc.Eq(a, b)))\n\t\t}))\n\t}\n}\n' % F
        out.append(head() + body)
        n += 1
    open(os.path.join(V, "contracts", pkg, "builders.go"), "w").write("\n".join(out))
    print(pkg, n)

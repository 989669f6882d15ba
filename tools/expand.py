"""Expands *_tmpl.go harness sources into an OpenAPI 3.0 and an OpenAPI 3.1 test file."""
import re

SUBS = [("openapi3.", "openapi31."), ("openapi-go/openapi3\"", "openapi-go/openapi31\""), ("OrRef", "OrReference"),
        ("ParameterReference", "Reference"), ("ResponseReference", "Reference"), ("RequestBodyReference", "Reference"),
        ("HeaderReference", "Reference"), ("OrReferenceerence", "OrReference"), ("V30", "V31"), ("\"3.0.3\"", "\"3.1.0\"")]


def expand(text):
    out = {}
    for v, other in (("30", "31"), ("31", "30")):
        lines = []
        for l in text.split("\n"):
            m = re.search(r"\s*//@(30|31)\s*$", l)
            if m:
                if m.group(1) != v:
                    continue
                l = l[:m.start()]
            if v == "31":
                for a, b in SUBS:
                    l = l.replace(a, b)
            lines.append(l)
        out[v] = "\n".join(lines)
    return out

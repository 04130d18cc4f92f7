#!/usr/bin/env python3
"""Writes harness/h/gen.go: one harness function per property and kind."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
KINDS = ["Any", "Array", "Bool", "Custom", "DateOnly", "Datetime", "DatetimeOnly", "File",
         "Integer", "Number", "Object", "String", "TimeOnly", "Union"]
PLAIN = ["Nil", "Include"]
# property prefix, function, kinds
TABLE = [
    ("C05_facets", "c05facets", KINDS + PLAIN),
    ("C05_facet", "c05facet", KINDS + PLAIN),
    ("C05_example", "c05example", KINDS),
    ("C07_pairs", "c07pairs", KINDS + PLAIN),
    ("C07_places", "c07places", KINDS + PLAIN),
    ("C07_all", "c07all", KINDS + PLAIN),
    ("C07_nested", "c07nested", KINDS + PLAIN),
    ("C09_nested", "c09nested", KINDS + PLAIN),
    ("C07_facetTypes", "c07facetTypes", KINDS),
    ("C06_override", "c06override", KINDS),
    ("C08_built", "c08built", KINDS),
    ("C08_modified", "c08modified", KINDS),
    ("C08_tables", "c08tables", KINDS),
    ("C13_tables", "c13tables", KINDS),
    ("C09_single", "c09single", KINDS + PLAIN),
    ("C09_all", "c09all", KINDS + PLAIN),
    ("C10_expanded", "c10expanded", KINDS),
    ("C10_bare", "c10bare", KINDS),
    ("C10_built", "c10built", KINDS),
    ("C13_example", "c13example", KINDS),
    ("C13_built", "c13built", KINDS),
    ("C13_modified", "c13modified", KINDS),
    ("C14_type", "c14type", KINDS + PLAIN),
    ("C14_example", "c14example", KINDS),
    ("C15_facet", "c15facet", KINDS + PLAIN),
    ("C15_garbled", "c15garbled", ["Array", "Bool", "File", "Integer", "Number", "Object", "String"]),
    ("C15_example", "c15example", KINDS),
    ("C15_xml", "c15xml", KINDS),
    ("C17_pairs", "c17pairs", KINDS),
    ("C17_single", "c17single", KINDS),
    ("C17_all", "c17all", KINDS),
    ("C17_built", "c17built", KINDS),
    ("C17_whole", "c17whole", KINDS),
    ("C18_type", "c18type", KINDS),
    ("C18_twice", "c18twiceType", KINDS),
    ("C18_lists", "c18lists", KINDS),
    ("C18_example", "c18example", KINDS),
    ("C19_type", "c19type", KINDS),
    ("C19_example", "c19example", KINDS),
    ("C19_xml", "c19xml", KINDS),
    ("C19_tables", "c19tables", KINDS),
    ("C06_facet", "c06facet", ["Union", "Custom", "Include"]),
    ("C09_expr", "c09expr", ["Union", "Custom", "Include"]),
    ("C20_type", "c20type", KINDS + PLAIN),
    ("C20_lists", "c20lists", KINDS),
    ("C20_unset", "c20unset", KINDS),
    ("C20_example", "c20example", KINDS),
    ("C20_within", "c20within", KINDS),
    ("C20_exWithin", "c20exWithin", KINDS),
    ("C10_tables", "c10tables", KINDS),
    ("C07_long", "c07long", KINDS + PLAIN),
    ("C08_long", "c08long", KINDS),
    ("C09_long", "c09long", KINDS + PLAIN),
    ("C10_long", "c10long", KINDS),
    ("C13_long", "c13long", KINDS),
    ("C17_long", "c17long", KINDS),
    ("C18_typeMany", "c18typeMany", KINDS),
    ("C18_exampleMany", "c18exampleMany", KINDS),
    ("C18_listsMany", "c18listsMany", KINDS),
    ("C14_long", "c14long", KINDS + PLAIN),
    ("C14_many", "c14many", KINDS + PLAIN),
    ("C14_exampleMany", "c14exampleMany", KINDS),
    ("C08_once", "c08once", KINDS),
]
MAPS = ["StringMap", "AnyMap", "UntypedMap", "AnyExampleMap", "AnnotationMap", "DataTypeMap", "PropertyMap", "FacetMap"] + \
    [k + "ExampleMap" for k in KINDS if k != "Any"]
out = ["//go:build go1.21\n", "// Code generated by tools/mkharness.py.\n", "package h\n"]
for name, fn, ks in TABLE:
    for k in ks:
        out.append("func %s%s() { %s(k%sKind()) }" % (name, k, fn, k))
    out.append("")
for p, j in (("C03", "false"), ("C04", "true")):
    for k in MAPS:
        out.append("func %s_%sLarge() { largeForms(kit%s(), %s) }" % (p, k, k, j))
    out.append("")
for k in MAPS:
    for p, f in (("C01", 0), ("C03", 1), ("C04", 2)):
        out.append("func %s_%sAlike() { alike(kit%s(), %d) }" % (p, k, k, f))
    out.append("func C01_%sHuge() { huge(kit%s()) }" % (k, k))
    out.append("func C03_%sHuge() { hugeForms(kit%s(), false) }" % (k, k))
    out.append("func C04_%sHuge() { hugeForms(kit%s(), true) }" % (k, k))
    out.append("func C01_%sLarge() { large(kit%s()) }" % (k, k))
    out.append("func C01_%sDrained() { drained(kit%s()) }" % (k, k))
out.append("")
for k in MAPS:
    out.append("func C20_%s() { c20map(kit%s()) }" % (k, k))
out.append("")
open(os.path.join(here, "../harness/h/gen.go"), "w").write("\n".join(out))
os.system("gofmt -w " + os.path.join(here, "../harness/h/gen.go"))

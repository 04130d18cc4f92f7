#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
I="v0/internal/raml/"; M="v0/pkg/raml/"
maps=[M+"AnyMap.go",M+"UntypedMap.go",M+"StringMap.go",M+"AnnotationMap.go",M+"DataTypeMap.go",M+"PropertyMap.go",M+"FacetMap.go"]+[M+k+"ExampleMap.go" for k in "Any Array Bool Custom DateOnly Datetime DatetimeOnly File Integer Number Object String TimeOnly Union".split()]
types=[I+"DataType.go",I+"type-datatype-ext.go"]+[I+"x-gen-type-%s.go"%k for k in "any array bool custom date-only datetime-only datetime file include integer nil number object string time-only union".split()]
exs=[I+"x-gen-ex-%s.go"%k for k in "any array bool custom dateonly datetime datetimeonly file integer number object string timeonly union".split()]
sample="The 48 existing tests drive four of the twenty-one map types with a few fixed keys; "
notest="No existing test covers this code at all, and a sampled test fixes one document; "
p("C01","Maps are insertion-ordered dictionaries under any history of operations",
 "After any sequence of put, replace-or-put, replace-if-exists and delete operations on any of the library's map types, the map contains exactly the entries an insertion-ordered dictionary would: a put moves or appends its key to the end, a replace keeps the key's position, a delete removes only its key, and replacing an absent key changes nothing. Lookup by key, membership, position, length, positional access and iteration all agree with that one ordered list of entries, and every operation returns the same map so that calls chain.",
 ["histories","inputs"],"every history of mutating operations over every assignment of keys and values, for all twenty-one map types (bounded in length, see DESIGN.md)",
 sample+"position bookkeeping and the two parallel representations can drift only on particular histories and key coincidences.",
 maps,[("two parallel representations kept in sync","Put/Delete/ReplaceIfExists in every map file")],["At","IndexOf","Get","Has","Len","ForEach"])
p("C02","Optional puts store dereferenced values, skip nils; optional lookups are total",
 "Putting an optional value stores the pointed-to value under its key exactly as a plain put of that value would, and putting a nil pointer, nil slice, nil map or nil interface leaves the map exactly as it was, including an existing entry of the same key. An optional lookup is present exactly when the key has an entry with a value, then yields that value, and never fails for any key or stored value.",
 ["inputs","histories"],"every key that Go can hash, every stored or optional value (nil and non-nil of each nilable kind; no Go arrays), every prior content up to the stated bound",
 sample+"nilness of interface-typed values depends on the dynamic type, which samples fix.",
 maps,[("nil test and dereference by reflection","PutIfNotNil"),("option construction","GetOpt")],["PutIfNotNil","GetOpt"])
p("C03","YAML form of a map is complete and keeps the entry order",
 "Serialising any map to YAML yields every entry exactly once, in the map's entry order, with each key and value carried over unchanged: as a sequence of single-entry mappings in ordered mode, and as one mapping in unordered mode. New maps are in ordered mode; switching the mode changes only the form and affects neither the entries nor later operations.",
 ["inputs","histories"],"all twenty-one map types, both modes, every content reachable by a bounded history with arbitrary keys and scalar or structured values",
 sample+"completeness, order and scalar conversion must hold for every key and value, not the sampled ones.",
 maps,[("ToYAML / MarshalYAML","every map file")],["ToYAML","MarshalYAML"])
p("C04","JSON form of a map is complete, and ordered when asked",
 "Serialising any map to JSON in ordered mode yields an array with one object per entry, in entry order, holding exactly the entry's key and value; in unordered mode it yields one object with exactly one member per entry whose name is the key's text and whose value is the entry's value. The entries themselves are not affected.",
 ["inputs","histories"],"all twenty-one map types, both modes, every content reachable by a bounded history with arbitrary keys",
 sample+"completeness must hold for every content and both modes.",
 maps,[("MarshalJSON","every map file")],["MarshalJSON"])
allparse=[I+"APISpec.go",I+"Library.go",I+"Documentation.go",I+"fn-sorting-hat-type.go",I+"fn-sorting-hat-example.go",I+"in-components.go",I+"type-xml.go",I+"util-dt-map.go",I+"util-ex-map.go",I+"util-facet-map.go","v0/internal/util/assign/uint.go",M+"rparse/parse-api.go",M+"rparse/parse-lib.go"]
p("C05","Parsing any YAML document returns a model or an error, never a crash",
 "For every well-formed YAML document, including ones that are not valid RAML (empty keys, non-string keys, nulls, sequences, scalars or mappings in any place, tagged nodes, any nesting), parsing it as an API document or as a library either returns a usable model or returns an error. It never panics and never returns both an error and a model. What is read does not depend on the pieces in which the source delivers the text, and a source that fails is reported as an error.",
 ["inputs","fault_sequences"],"every node tree of the stated depth and width with any kind, tag and key/scalar text at every node, read as API document or library, from any source",
 notest+"the crashing inputs are odd shapes (an empty key, a null where a mapping is expected, an unusual type in an unusual place) that nobody samples.",
 allparse+types,[("kind checks before use","xyml Require*/Is* calls and assign functions")],["ParseApiDoc","ParseLibrary"])
p("C06","Every type expression yields the right kind of type and is kept verbatim",
 "A type declaration, wherever it occurs, short or expanded, is classified by its type expression: a built-in name gives that built-in kind, an expression containing a vertical bar a union, an include tag an include, any other name a custom type; without a type expression, declarations with properties are objects, ones with items are arrays, and all others (including empty ones) are strings. The expression written in the document is reported unchanged as the declaration's type, and is what is written back.",
 ["inputs"],"every type expression text up to the stated length, in every position (type tables, properties, array items), short or expanded, with the deciding keys in any order and `schema` as a synonym of `type`",
 notest+"a classification of arbitrary text has to be right for every text, including near misses of the built-in names.",
 [I+"fn-sorting-hat-type.go",I+"fn-sorting-hat-property.go",I+"util-dt-map.go",I+"DataType.go",I+"x-gen-type-include.go",I+"x-gen-type-nil.go"],[("sorting hat","fn-sorting-hat-type.go")],["Kind","Type","Schema"])
p("C07","Every declared facet is read into its accessor with exactly its value",
 "For every kind of type, each facet that the kind supports, declared with any legal value and in any combination and order with other facets, is reported by the corresponding accessor with exactly that value, whether the type is declared in a type table, as a property or as array items. Facets that are not declared are reported as absent or as their documented default, and no facet changes another one's reported value.",
 ["inputs"],"all type kinds, all their facets, every legal value (all 64-bit integers, numbers, booleans, strings, lists up to the stated length), presence and order of pairs of facets",
 notest+"wrong-field assignments, narrowing and defaults show only for particular values or facet combinations.",
 types+["v0/internal/util/assign/%s.go"%k for k in ("bool","float64","int64","string","string-list","uint")],[("assign functions","each x-gen-type file, DataType.go, type-datatype-ext.go")],["accessors of the sixteen type interfaces"])
p("C08","A written type contains exactly its set, non-default facets",
 "Writing a type that was built or modified through its setters produces exactly the facets that are currently set, under their RAML names and with their current values, whatever kind of type it is and in whatever order it was configured. Facets that are unset or equal to their documented default are not written, and a type with nothing but its type expression is written in short form.",
 ["inputs","histories"],"all type kinds, every facet setter with every value in its domain, any pair of configured facets and any set/unset history up to the stated length",
 notest+"omission of defaults, zero values and unset values is a property of every value of every facet.",
 types+[M+"rmeta/defaults.go",M+"rmeta/keys.go"],[("marshal functions","each x-gen-type file")],["WriteRAML","MarshalRAML"])
p("C09","Type declarations survive a write/read round trip",
 "Reading a type declaration, writing it, and reading the result again yields a declaration with the same kind, type expression and value for every accessor, including nested properties, items, examples, annotations, custom facets and unknown facets. This holds for every kind of type and every legal combination of facet values.",
 ["inputs"],"all type kinds, every facet with every legal value, pairs of facets, nesting up to the stated depth",
 notest+"a round trip must hold for every value; the reader and the writer are separate code that only agree by convention.",
 types+exs,[("assign and marshal mirror each other","each x-gen-type file")],["ParseLibrary","WriteRAML"])
p("C10","Examples keep their value, form and metadata when read and written",
 "A single or named example of any kind of type is read with exactly its value, display name, description, strictness (true unless declared otherwise), annotations and extra entries, whether given as a bare value or in expanded form, and setters and unsetters affect only their own entry. Writing it yields the bare value when there is nothing else to say and otherwise the expanded form with exactly its non-default entries, and reading that back gives the same example.",
 ["inputs","histories"],"all fourteen example kinds, single and named, every legal value, every subset of the metadata entries",
 notest+"each of the fourteen generated example types can be wrong on its own, for one form or one value.",
 exs+[I+"fn-sorting-hat-example.go",I+"util-ex-map.go"],[("expand / assign / MarshalRAML","each x-gen-ex file")],["Example","Examples"])
p("C11","Every section of an API document is read and written under its own name",
 "Each section of an API document (title, version, description, base URI and its parameters, protocols, media types, documentation, types or schemas, traits, resource types, annotation types, security schemes, secured-by, uses, annotations, resources) is reported by its own accessor with exactly the declared content, in any order and combination, and absent sections are reported as empty. Writing the document yields exactly its non-empty sections under their names, and reading that back gives the same document.",
 ["inputs"],"every subset pair and order of sections, every scalar text, lists and tables up to the stated size; single-value and list forms of the media type",
 notest+"a section landing in the wrong place shows only for documents with that section.",
 [I+"APISpec.go",I+"Documentation.go",I+"util-str-map.go",I+"util-untyped-map.go","v0/internal/util/assign/any-map.go"],[("assign / MarshalYAML","APISpec.go")],["APISpec accessors","WriteRAML"])
p("C12","Every section of a library is read and written under its own name",
 "Each section of a library (usage, uses, types or schemas, traits, resource types, annotation types, security schemes, annotations) is reported by its own accessor with exactly the declared content, in any order and combination, and absent sections are reported as empty. Writing the library yields exactly its non-empty sections under their names, and reading that back gives the same library.",
 ["inputs"],"every subset pair and order of sections, every text, tables up to the stated size",
 notest+"a section landing in the wrong place shows only for libraries with that section.",
 [I+"Library.go",I+"util-ann-map.go",I+"util-str-map.go",I+"util-untyped-map.go"],[("assign / MarshalYAML","Library.go")],["Library accessors","WriteRAML"])
p("C13","Setters, unsetters and accessors of the models obey the builder laws",
 "On every model element (API document, library, documentation item, every kind of type, example and XML settings), after a setter the accessor reports exactly the given value, after an unsetter it reports absence (or an empty collection), and setting nil (a nil collection included) is the same as unsetting. Each such call changes nothing that other accessors report, the last call wins in any sequence, and each call returns the element itself so that calls chain.",
 ["inputs","histories"],"every setter/unsetter pair of every public model interface, every value, every bounded sequence of two or more calls",
 notest+"more than four hundred generated setters each have their own field; a crossed field shows only for a pair of calls and distinct values.",
 types+exs+[I+"APISpec.go",I+"Library.go",I+"Documentation.go",I+"type-xml.go"],[("setter methods","all model files")],["all setters and accessors"])
p("C14","Unknown facets, annotations and resources are kept verbatim",
 "Entries of a document that the library does not interpret (unknown facets of types, examples, documentation items, libraries and API documents, annotations with their whole content, resources with their whole subtree) are kept under exactly their name, together with all other entries, and written back with unchanged content. No key is ever mistaken for an interpreted one unless it is spelled exactly like it.",
 ["inputs"],"every key text up to the stated length at every level, every content node tree up to the stated depth",
 notest+"it is a statement about every key that is not a known one; tests sample a handful at best.",
 [I+"in-components.go",I+"APISpec.go",I+"Library.go",I+"Documentation.go",I+"DataType.go"]+exs,[("extras and annotation capture","in-components.go, assign functions")],["ExtraFacets","Annotations","Resources"])
p("C15","Facet values of the wrong type or range are rejected, never altered",
 "If a facet with a defined value type is declared with a value of another type or outside the type's range (a string for a number, a fraction or an out-of-range literal for an integer, a negative count, a non-boolean flag, a scalar for a list or mapping), parsing the document fails with an error. It is never silently dropped, wrapped, truncated or converted into another value.",
 ["inputs"],"every typed facet of every type kind, example and document section, every scalar or collection of a wrong type, every integer text including out-of-range ones",
 notest+"the rejection has to hold for every wrong value in every place, and wrapped or truncated numbers appear only at extreme values.",
 ["v0/internal/util/assign/%s.go"%k for k in ("bool","float64","int64","string","string-list","uint","any-map")]+types+[I+"APISpec.go",I+"Library.go",I+"type-xml.go",I+"fn-sorting-hat-integer-format.go",I+"fn-sorting-hat-number-format.go",I+"fn-sorting-hat-date-format.go"],[("checked conversions","assign package, xyml To*/Require*")],["ParseApiDoc","ParseLibrary"])
p("C16","Written files start with the right RAML header and report every write error",
 "Writing an API document or a library produces a file whose first line is exactly the RAML 1.0 header of that kind of file, followed by the whole document, so that it can be read back. If the destination fails at any point, writing returns an error; it never reports success for a file that was not completely accepted, and it returns no error when everything was accepted.",
 ["fault_sequences","inputs"],"every document content in the bounds of C11/C12, every point at which the destination can fail or accept only part",
 notest+"faults at the k-th write are never injected by a test.",
 [I+"APISpec.go",I+"Library.go",M+"rmeta/headers.go",M+"rmod/ex-const-types.go"],[("WriteRAML","APISpec.go, Library.go")],["WriteRAML"])
p("C17","XML settings of a type are read, modified and written faithfully",
 "The XML settings of any extended type are reported with exactly the declared attribute, wrapped, name, namespace and prefix values, undeclared ones being absent, and unset as a whole when not declared. Writing the type yields exactly the settings that are currently set, plus unknown entries unchanged, and reading that back gives the same settings.",
 ["inputs","histories"],"every subset, order and value of the settings, every set/unset pair, every extended type kind",
 notest+"false flags, empty texts and absent settings have to be told apart for every combination.",
 [I+"type-xml.go",I+"type-datatype-ext.go"],[("XML assign and MarshalRAML","type-xml.go")],["XML"])
p("C18","Declaration order is preserved",
 "Types, properties, named examples, enum values, documentation items, protocols, media types, annotations, resources and all other tables and lists are reported and written in the order of their declaration, for any number of entries and any names. A name declared in a table is reported exactly once.",
 ["inputs"],"every table and list of the models, any names, any order, up to the stated number of entries",
 notest+"order must be kept for every number of entries and every naming; go map iteration makes violations intermittent.",
 maps+[I+"APISpec.go",I+"Library.go",I+"util-dt-map.go",I+"util-ex-map.go",I+"x-gen-type-object.go"],[("ordered maps and appends","assign functions")],["ForEach","At","WriteRAML"])
p("C19","Writing and inspecting a model never changes it",
 "Writing a model or an element, or calling any accessor, leaves the model unchanged: every accessor reports the same afterwards, and writing again produces the same content. This holds for parsed and for built models, after success and after a failed write.",
 ["inputs","histories","fault_sequences"],"every model in the bounds of C07-C12, any sequence of two writes or accessors, writes failing at any point",
 notest+"a write that consumes or reorders its model is visible only on the second write of the same object.",
 [I+"APISpec.go",I+"Library.go",I+"DataType.go"]+maps,[("marshal functions build fresh maps","MarshalRAML / ToYAML")],["WriteRAML","accessors"])
p("C20","Documents and elements share no hidden state",
 "Two documents, types, examples or maps created or parsed independently never influence each other: modifying or writing one changes nothing that the other reports or writes, and the result of parsing a document does not depend on what was parsed, built or written before in the same process. Values handed to a setter are the ones reported later.",
 ["histories","inputs"],"every pair of elements of every kind, any modification of one through its public interface, any earlier history up to the stated length",
 notest+"tests create fresh objects and look at one at a time, so aliasing through package-level state is invisible to them.",
 [I+"APISpec.go",I+"Library.go",I+"in-components.go"]+types+exs+maps,[("fresh collections per element","New* constructors")],["all accessors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

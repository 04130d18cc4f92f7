//go:build go1.21

package h

// What each property is decided for; copied into the evidence by the engine.

// BOUNDS C01: all 21 map types; every history of 3 mutating operations (put, delete,
// replace-or-put, replace-if-exists) on an empty map; every operation (thorough:
// two) on a map of 4 (thorough: 0 to 4) entries with arbitrary distinct keys and
// on maps of 9 and of 20 entries with given keys; maps made for 1, 16 or 64 entries
// that had 4 or 20, of which 0 to 3 are left; two keys of 15 nearly equal forms
// (spaces, case, quotes, accents, doubled, of 300 characters); maps of 300 entries with any one
// operation on a given or new key; keys and values are any texts of
// up to 2 (large maps: 4) printable characters, any 64-bit integer or text for
// AnyMap, distinct elements where the map holds elements; every view (Len, Has,
// Get, GetOpt, IndexOf, At, ForEach, the chained result) is compared for any probe key.

// BOUNDS C02: all 21 map types; an optional put (thorough: two) of nil, of the zero value or of any value
// on a map of up to 2 (thorough: 3) entries whose keys may coincide with it; for
// the three maps of arbitrary values 23 kinds of value (nil, nil pointers, slices,
// maps and interfaces, and pointers to and values of each scalar type, slices,
// maps, named texts with their own text form, structures and pointers to them); optional lookups after every history of two puts or replaces, stored nils
// included; texts of up to 16 printable characters. Outside: Go arrays as values,
// keys that Go cannot hash.

// BOUNDS C03: all 21 map types, both modes and a mode switch before or after an
// operation, maps of up to 2 entries (and of 12 and 300) plus one operation of any kind,
// texts of up to 16 printable characters (two entries: of 2, and keys of 15 nearly
// equal forms); for the three maps of arbitrary values every listed kind of value (scalars, pointers, lists, nested maps, nil), and texts with line breaks, of Latin-1 letters and those YAML
// would read as something else. Floats:
// significands of 9 bits, all decimal exponents that keep 10 digits.

// BOUNDS C04: as C03, for the JSON form, including the escapes of printable characters;
// keys of AnyMap: any 64-bit integer and any text, whose decimal texts are compared
// exactly. The two keys with one text are a known finding (unordered mode).

// BOUNDS C05: documents whose first levels are arbitrary nodes (any scalar of any tag,
// null, number, alias to an anchor, mapping or list) to depth 2, at the root, in
// every section, every facet of all 16 kinds of type, in examples, properties,
// items, custom facets, XML settings and annotations, with arbitrary keys (any
// text of up to 16 characters as the first key; numbers, nulls, booleans, tagged
// and mapping keys); documents of up to 70 000 bytes; up to 2 entries per level (one more scalar entry in most
// places); documents of nothing but a header; sources that deliver the text in
// pieces of 1, 3 or all bytes, end early or late, or fail after 0 to 4 quarters of
// the text, also through the other reading methods a source may have; mappings and
// lists that contain an alias to themselves, as any section or facet. Outside: malformed YAML text (the scanner is the dependency's).

// BOUNDS C06: every printable type expression of 1 to 24 characters (texts that begin
// with the include tag's name excepted), and of 300 (any characters in four of its places), short, or expanded under type or schema,
// alone, with another facet before or after it, or among two other facets in any
// order, at each place of a declaration (type tables of both kinds of document and
// under both names, property, array items, custom facet); include tags with any
// target of up to 17 characters; declarations without a type expression with up
// to three of properties, items and other facets in any order; the expression of
// a type of any kind replaced by any text of up to 8; any expression of a union, a
// custom type or an include beside any one facet of any value. Outside: lists of
// expressions (multiple inheritance), which the model has no place for.

// BOUNDS C07: 16 kinds of type; every facet alone with every value and form (all 64-bit
// integers, floats of 9-bit significands and the listed integer literals, all
// booleans, texts of up to 16 printable characters, letters U+00C0-U+00FF or line
// breaks in every quoting style, texts of 300 and 5000 and names of 200 characters
// with such an end, dates, lists of up to 2, tables of up to 2,
// arbitrary content to depth 2, null in any notation) at 6 places of a declaration; every ordered pair
// of facets (quick: one form each); all facets at once but one, in three orders;
// any one facet within 2 (thorough: 3) enclosing declarations, and at any one of 4
// nested declarations.

// BOUNDS C08: 14 kinds of type; every history of two configuring calls (set, unset, set
// nil; any facet, any value) on a new element, one on an element with every facet
// set; any call on an element written before; tables of 0 to 3 entries given to every
// table, or the table unset or set nil, plus one put through the accessor; values as in C07, long texts included.

// BOUNDS C09: 16 kinds of type; every facet alone with every value and form of C07, read
// back at 6 places; all facets at once but one; any one facet within 2 (thorough:
// 3) enclosing declarations and at any one of 4 nested ones; a chain of 6 (thorough:
// 8) and one of 40 declarations; texts of 300 and 5000 characters; any expression beside any one facet.

// BOUNDS C10: 14 kinds of example, single and named (any name of up to 16 characters);
// bare values and expanded forms with any two metadata entries before or after
// the value or without it; every history of two (thorough: three) calls on a new
// example and one (thorough: two) on one with every entry set, written before the last or not; the tables of
// both, unset or set nil before or not, given an entry through the accessor; texts
// of 300 and 5000 characters.

// BOUNDS C11: API documents with any one section of every value and form, any ordered
// pair of sections (quick: one form each), all sections but one in two orders;
// every history of two calls on a new document, one on a full one (thorough: one
// more each), written before or not; documentation items likewise; tables and lists of up to 2 entries
// (larger ones in C18), texts as in C07, of 300 and 5000 characters too; every table of a new, an empty and a full
// document, as it is or unset, set nil or replaced by an empty one, given entries
// through the accessor and taken from again.

// BOUNDS C12: as C11, for libraries.

// BOUNDS C13: every setter, unsetter and nil of 14 kinds of type, 14 of example, API
// documents, libraries, documentation items and XML settings, including the
// document's setters outside its interface; histories of two (thorough: three)
// calls on new elements and one (thorough: two) on full ones; tables of 0 to 3
// entries and one more; after each history every accessor is compared;
// texts of 300 and 5000 characters.

// BOUNDS C14: an unknown entry with any name of up to 22 printable characters that is
// not a known one (or of 200 characters, also beginning with a known one) and any content to depth 2, alone and beside any other entry of
// the document, library, documentation item, type (16 kinds, with and without a
// type expression), example (14 kinds) or XML settings; number and boolean keys;
// the long names also in documents, documentation items and examples; 130 (thorough:
// 300) unknown entries of a document, documentation item, type or example;
// any two annotations on 4 levels; any two resources with a deeper subtree.

// BOUNDS C15: every typed facet of 16 kinds, example entry and value of 14 kinds,
// section and XML setting with any node of a wrong kind or tag (any scalar, list
// or mapping to depth 2), every negative or out-of-range 64-bit integer literal
// and texts tagged as a type they are no literal of; alone, before or after
// another entry, and at 7 places of a declaration. Include tags are not counted
// as wrong; a documentation item's texts are a known finding.

// BOUNDS C16: documents and libraries with any one section, all sections or none, read
// or built; destinations that fail once or for good, with or without an error
// (short count), after 0 to 24 bytes or at any thousandth of the text; a
// destination of exactly the text's length; destinations with the other writing methods; documents of 3000, 5000 and 70 000 bytes; the header of every module kind of up
// to 12 characters.

// BOUNDS C17: 14 kinds of type; every setting alone with every value, every ordered pair,
// all but one in two orders; histories of two calls on new and one on full
// settings; texts of 5000 characters; settings as a whole declared or not, then replaced, unset or set nil.

// BOUNDS C18: every table and list of API documents, libraries, documentation items and
// 14 kinds of type: 3 (thorough: 4) entries of arbitrary distinct names of up to 2
// characters behind the table's prefix, and 20 (thorough: 9, 20 or 40) entries one
// of which has an arbitrary name at the first, eighth or last position;
// tables of 130 (thorough: 300) given entries and lists of 70 (100); a name
// declared twice among three entries.

// BOUNDS C19: documents with any one section, all or none; types of 14 kinds with any
// one facet of every value, all or none; examples after the histories of C10; XML
// settings and documentation items: one write and then any two of writing, failing
// to write (early or late, once or for good) and inspecting; tables of 0 to 2
// entries given to a type in either mode.

// BOUNDS C20: two elements of each kind of type, example, document, library,
// documentation item, XML settings or map, in either order of creation; any call
// on the one, or changes of every table it hands out, then every accessor and the
// written form of the other; tables after unset and set nil; formats; a document
// read after any other; types of one document; two annotations of one type,
// example or document and two custom facets of one type; a list handed out by one
// type or document and given to another or another section, then any change of
// the first. Outside: tables that two elements were given to share.

//go:build go1.21

// Code generated by tools/mkharness.py.

package h

func C05_facetsAny()          { c05facets(kAnyKind()) }
func C05_facetsArray()        { c05facets(kArrayKind()) }
func C05_facetsBool()         { c05facets(kBoolKind()) }
func C05_facetsCustom()       { c05facets(kCustomKind()) }
func C05_facetsDateOnly()     { c05facets(kDateOnlyKind()) }
func C05_facetsDatetime()     { c05facets(kDatetimeKind()) }
func C05_facetsDatetimeOnly() { c05facets(kDatetimeOnlyKind()) }
func C05_facetsFile()         { c05facets(kFileKind()) }
func C05_facetsInteger()      { c05facets(kIntegerKind()) }
func C05_facetsNumber()       { c05facets(kNumberKind()) }
func C05_facetsObject()       { c05facets(kObjectKind()) }
func C05_facetsString()       { c05facets(kStringKind()) }
func C05_facetsTimeOnly()     { c05facets(kTimeOnlyKind()) }
func C05_facetsUnion()        { c05facets(kUnionKind()) }
func C05_facetsNil()          { c05facets(kNilKind()) }
func C05_facetsInclude()      { c05facets(kIncludeKind()) }

func C05_facetAny()          { c05facet(kAnyKind()) }
func C05_facetArray()        { c05facet(kArrayKind()) }
func C05_facetBool()         { c05facet(kBoolKind()) }
func C05_facetCustom()       { c05facet(kCustomKind()) }
func C05_facetDateOnly()     { c05facet(kDateOnlyKind()) }
func C05_facetDatetime()     { c05facet(kDatetimeKind()) }
func C05_facetDatetimeOnly() { c05facet(kDatetimeOnlyKind()) }
func C05_facetFile()         { c05facet(kFileKind()) }
func C05_facetInteger()      { c05facet(kIntegerKind()) }
func C05_facetNumber()       { c05facet(kNumberKind()) }
func C05_facetObject()       { c05facet(kObjectKind()) }
func C05_facetString()       { c05facet(kStringKind()) }
func C05_facetTimeOnly()     { c05facet(kTimeOnlyKind()) }
func C05_facetUnion()        { c05facet(kUnionKind()) }
func C05_facetNil()          { c05facet(kNilKind()) }
func C05_facetInclude()      { c05facet(kIncludeKind()) }

func C05_exampleAny()          { c05example(kAnyKind()) }
func C05_exampleArray()        { c05example(kArrayKind()) }
func C05_exampleBool()         { c05example(kBoolKind()) }
func C05_exampleCustom()       { c05example(kCustomKind()) }
func C05_exampleDateOnly()     { c05example(kDateOnlyKind()) }
func C05_exampleDatetime()     { c05example(kDatetimeKind()) }
func C05_exampleDatetimeOnly() { c05example(kDatetimeOnlyKind()) }
func C05_exampleFile()         { c05example(kFileKind()) }
func C05_exampleInteger()      { c05example(kIntegerKind()) }
func C05_exampleNumber()       { c05example(kNumberKind()) }
func C05_exampleObject()       { c05example(kObjectKind()) }
func C05_exampleString()       { c05example(kStringKind()) }
func C05_exampleTimeOnly()     { c05example(kTimeOnlyKind()) }
func C05_exampleUnion()        { c05example(kUnionKind()) }

func C07_pairsAny()          { c07pairs(kAnyKind()) }
func C07_pairsArray()        { c07pairs(kArrayKind()) }
func C07_pairsBool()         { c07pairs(kBoolKind()) }
func C07_pairsCustom()       { c07pairs(kCustomKind()) }
func C07_pairsDateOnly()     { c07pairs(kDateOnlyKind()) }
func C07_pairsDatetime()     { c07pairs(kDatetimeKind()) }
func C07_pairsDatetimeOnly() { c07pairs(kDatetimeOnlyKind()) }
func C07_pairsFile()         { c07pairs(kFileKind()) }
func C07_pairsInteger()      { c07pairs(kIntegerKind()) }
func C07_pairsNumber()       { c07pairs(kNumberKind()) }
func C07_pairsObject()       { c07pairs(kObjectKind()) }
func C07_pairsString()       { c07pairs(kStringKind()) }
func C07_pairsTimeOnly()     { c07pairs(kTimeOnlyKind()) }
func C07_pairsUnion()        { c07pairs(kUnionKind()) }
func C07_pairsNil()          { c07pairs(kNilKind()) }
func C07_pairsInclude()      { c07pairs(kIncludeKind()) }

func C07_placesAny()          { c07places(kAnyKind()) }
func C07_placesArray()        { c07places(kArrayKind()) }
func C07_placesBool()         { c07places(kBoolKind()) }
func C07_placesCustom()       { c07places(kCustomKind()) }
func C07_placesDateOnly()     { c07places(kDateOnlyKind()) }
func C07_placesDatetime()     { c07places(kDatetimeKind()) }
func C07_placesDatetimeOnly() { c07places(kDatetimeOnlyKind()) }
func C07_placesFile()         { c07places(kFileKind()) }
func C07_placesInteger()      { c07places(kIntegerKind()) }
func C07_placesNumber()       { c07places(kNumberKind()) }
func C07_placesObject()       { c07places(kObjectKind()) }
func C07_placesString()       { c07places(kStringKind()) }
func C07_placesTimeOnly()     { c07places(kTimeOnlyKind()) }
func C07_placesUnion()        { c07places(kUnionKind()) }
func C07_placesNil()          { c07places(kNilKind()) }
func C07_placesInclude()      { c07places(kIncludeKind()) }

func C07_allAny()          { c07all(kAnyKind()) }
func C07_allArray()        { c07all(kArrayKind()) }
func C07_allBool()         { c07all(kBoolKind()) }
func C07_allCustom()       { c07all(kCustomKind()) }
func C07_allDateOnly()     { c07all(kDateOnlyKind()) }
func C07_allDatetime()     { c07all(kDatetimeKind()) }
func C07_allDatetimeOnly() { c07all(kDatetimeOnlyKind()) }
func C07_allFile()         { c07all(kFileKind()) }
func C07_allInteger()      { c07all(kIntegerKind()) }
func C07_allNumber()       { c07all(kNumberKind()) }
func C07_allObject()       { c07all(kObjectKind()) }
func C07_allString()       { c07all(kStringKind()) }
func C07_allTimeOnly()     { c07all(kTimeOnlyKind()) }
func C07_allUnion()        { c07all(kUnionKind()) }
func C07_allNil()          { c07all(kNilKind()) }
func C07_allInclude()      { c07all(kIncludeKind()) }

func C07_nestedAny()          { c07nested(kAnyKind()) }
func C07_nestedArray()        { c07nested(kArrayKind()) }
func C07_nestedBool()         { c07nested(kBoolKind()) }
func C07_nestedCustom()       { c07nested(kCustomKind()) }
func C07_nestedDateOnly()     { c07nested(kDateOnlyKind()) }
func C07_nestedDatetime()     { c07nested(kDatetimeKind()) }
func C07_nestedDatetimeOnly() { c07nested(kDatetimeOnlyKind()) }
func C07_nestedFile()         { c07nested(kFileKind()) }
func C07_nestedInteger()      { c07nested(kIntegerKind()) }
func C07_nestedNumber()       { c07nested(kNumberKind()) }
func C07_nestedObject()       { c07nested(kObjectKind()) }
func C07_nestedString()       { c07nested(kStringKind()) }
func C07_nestedTimeOnly()     { c07nested(kTimeOnlyKind()) }
func C07_nestedUnion()        { c07nested(kUnionKind()) }
func C07_nestedNil()          { c07nested(kNilKind()) }
func C07_nestedInclude()      { c07nested(kIncludeKind()) }

func C09_nestedAny()          { c09nested(kAnyKind()) }
func C09_nestedArray()        { c09nested(kArrayKind()) }
func C09_nestedBool()         { c09nested(kBoolKind()) }
func C09_nestedCustom()       { c09nested(kCustomKind()) }
func C09_nestedDateOnly()     { c09nested(kDateOnlyKind()) }
func C09_nestedDatetime()     { c09nested(kDatetimeKind()) }
func C09_nestedDatetimeOnly() { c09nested(kDatetimeOnlyKind()) }
func C09_nestedFile()         { c09nested(kFileKind()) }
func C09_nestedInteger()      { c09nested(kIntegerKind()) }
func C09_nestedNumber()       { c09nested(kNumberKind()) }
func C09_nestedObject()       { c09nested(kObjectKind()) }
func C09_nestedString()       { c09nested(kStringKind()) }
func C09_nestedTimeOnly()     { c09nested(kTimeOnlyKind()) }
func C09_nestedUnion()        { c09nested(kUnionKind()) }
func C09_nestedNil()          { c09nested(kNilKind()) }
func C09_nestedInclude()      { c09nested(kIncludeKind()) }

func C07_facetTypesAny()          { c07facetTypes(kAnyKind()) }
func C07_facetTypesArray()        { c07facetTypes(kArrayKind()) }
func C07_facetTypesBool()         { c07facetTypes(kBoolKind()) }
func C07_facetTypesCustom()       { c07facetTypes(kCustomKind()) }
func C07_facetTypesDateOnly()     { c07facetTypes(kDateOnlyKind()) }
func C07_facetTypesDatetime()     { c07facetTypes(kDatetimeKind()) }
func C07_facetTypesDatetimeOnly() { c07facetTypes(kDatetimeOnlyKind()) }
func C07_facetTypesFile()         { c07facetTypes(kFileKind()) }
func C07_facetTypesInteger()      { c07facetTypes(kIntegerKind()) }
func C07_facetTypesNumber()       { c07facetTypes(kNumberKind()) }
func C07_facetTypesObject()       { c07facetTypes(kObjectKind()) }
func C07_facetTypesString()       { c07facetTypes(kStringKind()) }
func C07_facetTypesTimeOnly()     { c07facetTypes(kTimeOnlyKind()) }
func C07_facetTypesUnion()        { c07facetTypes(kUnionKind()) }

func C06_overrideAny()          { c06override(kAnyKind()) }
func C06_overrideArray()        { c06override(kArrayKind()) }
func C06_overrideBool()         { c06override(kBoolKind()) }
func C06_overrideCustom()       { c06override(kCustomKind()) }
func C06_overrideDateOnly()     { c06override(kDateOnlyKind()) }
func C06_overrideDatetime()     { c06override(kDatetimeKind()) }
func C06_overrideDatetimeOnly() { c06override(kDatetimeOnlyKind()) }
func C06_overrideFile()         { c06override(kFileKind()) }
func C06_overrideInteger()      { c06override(kIntegerKind()) }
func C06_overrideNumber()       { c06override(kNumberKind()) }
func C06_overrideObject()       { c06override(kObjectKind()) }
func C06_overrideString()       { c06override(kStringKind()) }
func C06_overrideTimeOnly()     { c06override(kTimeOnlyKind()) }
func C06_overrideUnion()        { c06override(kUnionKind()) }

func C08_builtAny()          { c08built(kAnyKind()) }
func C08_builtArray()        { c08built(kArrayKind()) }
func C08_builtBool()         { c08built(kBoolKind()) }
func C08_builtCustom()       { c08built(kCustomKind()) }
func C08_builtDateOnly()     { c08built(kDateOnlyKind()) }
func C08_builtDatetime()     { c08built(kDatetimeKind()) }
func C08_builtDatetimeOnly() { c08built(kDatetimeOnlyKind()) }
func C08_builtFile()         { c08built(kFileKind()) }
func C08_builtInteger()      { c08built(kIntegerKind()) }
func C08_builtNumber()       { c08built(kNumberKind()) }
func C08_builtObject()       { c08built(kObjectKind()) }
func C08_builtString()       { c08built(kStringKind()) }
func C08_builtTimeOnly()     { c08built(kTimeOnlyKind()) }
func C08_builtUnion()        { c08built(kUnionKind()) }

func C08_modifiedAny()          { c08modified(kAnyKind()) }
func C08_modifiedArray()        { c08modified(kArrayKind()) }
func C08_modifiedBool()         { c08modified(kBoolKind()) }
func C08_modifiedCustom()       { c08modified(kCustomKind()) }
func C08_modifiedDateOnly()     { c08modified(kDateOnlyKind()) }
func C08_modifiedDatetime()     { c08modified(kDatetimeKind()) }
func C08_modifiedDatetimeOnly() { c08modified(kDatetimeOnlyKind()) }
func C08_modifiedFile()         { c08modified(kFileKind()) }
func C08_modifiedInteger()      { c08modified(kIntegerKind()) }
func C08_modifiedNumber()       { c08modified(kNumberKind()) }
func C08_modifiedObject()       { c08modified(kObjectKind()) }
func C08_modifiedString()       { c08modified(kStringKind()) }
func C08_modifiedTimeOnly()     { c08modified(kTimeOnlyKind()) }
func C08_modifiedUnion()        { c08modified(kUnionKind()) }

func C08_tablesAny()          { c08tables(kAnyKind()) }
func C08_tablesArray()        { c08tables(kArrayKind()) }
func C08_tablesBool()         { c08tables(kBoolKind()) }
func C08_tablesCustom()       { c08tables(kCustomKind()) }
func C08_tablesDateOnly()     { c08tables(kDateOnlyKind()) }
func C08_tablesDatetime()     { c08tables(kDatetimeKind()) }
func C08_tablesDatetimeOnly() { c08tables(kDatetimeOnlyKind()) }
func C08_tablesFile()         { c08tables(kFileKind()) }
func C08_tablesInteger()      { c08tables(kIntegerKind()) }
func C08_tablesNumber()       { c08tables(kNumberKind()) }
func C08_tablesObject()       { c08tables(kObjectKind()) }
func C08_tablesString()       { c08tables(kStringKind()) }
func C08_tablesTimeOnly()     { c08tables(kTimeOnlyKind()) }
func C08_tablesUnion()        { c08tables(kUnionKind()) }

func C13_tablesAny()          { c13tables(kAnyKind()) }
func C13_tablesArray()        { c13tables(kArrayKind()) }
func C13_tablesBool()         { c13tables(kBoolKind()) }
func C13_tablesCustom()       { c13tables(kCustomKind()) }
func C13_tablesDateOnly()     { c13tables(kDateOnlyKind()) }
func C13_tablesDatetime()     { c13tables(kDatetimeKind()) }
func C13_tablesDatetimeOnly() { c13tables(kDatetimeOnlyKind()) }
func C13_tablesFile()         { c13tables(kFileKind()) }
func C13_tablesInteger()      { c13tables(kIntegerKind()) }
func C13_tablesNumber()       { c13tables(kNumberKind()) }
func C13_tablesObject()       { c13tables(kObjectKind()) }
func C13_tablesString()       { c13tables(kStringKind()) }
func C13_tablesTimeOnly()     { c13tables(kTimeOnlyKind()) }
func C13_tablesUnion()        { c13tables(kUnionKind()) }

func C09_singleAny()          { c09single(kAnyKind()) }
func C09_singleArray()        { c09single(kArrayKind()) }
func C09_singleBool()         { c09single(kBoolKind()) }
func C09_singleCustom()       { c09single(kCustomKind()) }
func C09_singleDateOnly()     { c09single(kDateOnlyKind()) }
func C09_singleDatetime()     { c09single(kDatetimeKind()) }
func C09_singleDatetimeOnly() { c09single(kDatetimeOnlyKind()) }
func C09_singleFile()         { c09single(kFileKind()) }
func C09_singleInteger()      { c09single(kIntegerKind()) }
func C09_singleNumber()       { c09single(kNumberKind()) }
func C09_singleObject()       { c09single(kObjectKind()) }
func C09_singleString()       { c09single(kStringKind()) }
func C09_singleTimeOnly()     { c09single(kTimeOnlyKind()) }
func C09_singleUnion()        { c09single(kUnionKind()) }
func C09_singleNil()          { c09single(kNilKind()) }
func C09_singleInclude()      { c09single(kIncludeKind()) }

func C09_allAny()          { c09all(kAnyKind()) }
func C09_allArray()        { c09all(kArrayKind()) }
func C09_allBool()         { c09all(kBoolKind()) }
func C09_allCustom()       { c09all(kCustomKind()) }
func C09_allDateOnly()     { c09all(kDateOnlyKind()) }
func C09_allDatetime()     { c09all(kDatetimeKind()) }
func C09_allDatetimeOnly() { c09all(kDatetimeOnlyKind()) }
func C09_allFile()         { c09all(kFileKind()) }
func C09_allInteger()      { c09all(kIntegerKind()) }
func C09_allNumber()       { c09all(kNumberKind()) }
func C09_allObject()       { c09all(kObjectKind()) }
func C09_allString()       { c09all(kStringKind()) }
func C09_allTimeOnly()     { c09all(kTimeOnlyKind()) }
func C09_allUnion()        { c09all(kUnionKind()) }
func C09_allNil()          { c09all(kNilKind()) }
func C09_allInclude()      { c09all(kIncludeKind()) }

func C10_expandedAny()          { c10expanded(kAnyKind()) }
func C10_expandedArray()        { c10expanded(kArrayKind()) }
func C10_expandedBool()         { c10expanded(kBoolKind()) }
func C10_expandedCustom()       { c10expanded(kCustomKind()) }
func C10_expandedDateOnly()     { c10expanded(kDateOnlyKind()) }
func C10_expandedDatetime()     { c10expanded(kDatetimeKind()) }
func C10_expandedDatetimeOnly() { c10expanded(kDatetimeOnlyKind()) }
func C10_expandedFile()         { c10expanded(kFileKind()) }
func C10_expandedInteger()      { c10expanded(kIntegerKind()) }
func C10_expandedNumber()       { c10expanded(kNumberKind()) }
func C10_expandedObject()       { c10expanded(kObjectKind()) }
func C10_expandedString()       { c10expanded(kStringKind()) }
func C10_expandedTimeOnly()     { c10expanded(kTimeOnlyKind()) }
func C10_expandedUnion()        { c10expanded(kUnionKind()) }

func C10_bareAny()          { c10bare(kAnyKind()) }
func C10_bareArray()        { c10bare(kArrayKind()) }
func C10_bareBool()         { c10bare(kBoolKind()) }
func C10_bareCustom()       { c10bare(kCustomKind()) }
func C10_bareDateOnly()     { c10bare(kDateOnlyKind()) }
func C10_bareDatetime()     { c10bare(kDatetimeKind()) }
func C10_bareDatetimeOnly() { c10bare(kDatetimeOnlyKind()) }
func C10_bareFile()         { c10bare(kFileKind()) }
func C10_bareInteger()      { c10bare(kIntegerKind()) }
func C10_bareNumber()       { c10bare(kNumberKind()) }
func C10_bareObject()       { c10bare(kObjectKind()) }
func C10_bareString()       { c10bare(kStringKind()) }
func C10_bareTimeOnly()     { c10bare(kTimeOnlyKind()) }
func C10_bareUnion()        { c10bare(kUnionKind()) }

func C10_builtAny()          { c10built(kAnyKind()) }
func C10_builtArray()        { c10built(kArrayKind()) }
func C10_builtBool()         { c10built(kBoolKind()) }
func C10_builtCustom()       { c10built(kCustomKind()) }
func C10_builtDateOnly()     { c10built(kDateOnlyKind()) }
func C10_builtDatetime()     { c10built(kDatetimeKind()) }
func C10_builtDatetimeOnly() { c10built(kDatetimeOnlyKind()) }
func C10_builtFile()         { c10built(kFileKind()) }
func C10_builtInteger()      { c10built(kIntegerKind()) }
func C10_builtNumber()       { c10built(kNumberKind()) }
func C10_builtObject()       { c10built(kObjectKind()) }
func C10_builtString()       { c10built(kStringKind()) }
func C10_builtTimeOnly()     { c10built(kTimeOnlyKind()) }
func C10_builtUnion()        { c10built(kUnionKind()) }

func C13_exampleAny()          { c13example(kAnyKind()) }
func C13_exampleArray()        { c13example(kArrayKind()) }
func C13_exampleBool()         { c13example(kBoolKind()) }
func C13_exampleCustom()       { c13example(kCustomKind()) }
func C13_exampleDateOnly()     { c13example(kDateOnlyKind()) }
func C13_exampleDatetime()     { c13example(kDatetimeKind()) }
func C13_exampleDatetimeOnly() { c13example(kDatetimeOnlyKind()) }
func C13_exampleFile()         { c13example(kFileKind()) }
func C13_exampleInteger()      { c13example(kIntegerKind()) }
func C13_exampleNumber()       { c13example(kNumberKind()) }
func C13_exampleObject()       { c13example(kObjectKind()) }
func C13_exampleString()       { c13example(kStringKind()) }
func C13_exampleTimeOnly()     { c13example(kTimeOnlyKind()) }
func C13_exampleUnion()        { c13example(kUnionKind()) }

func C13_builtAny()          { c13built(kAnyKind()) }
func C13_builtArray()        { c13built(kArrayKind()) }
func C13_builtBool()         { c13built(kBoolKind()) }
func C13_builtCustom()       { c13built(kCustomKind()) }
func C13_builtDateOnly()     { c13built(kDateOnlyKind()) }
func C13_builtDatetime()     { c13built(kDatetimeKind()) }
func C13_builtDatetimeOnly() { c13built(kDatetimeOnlyKind()) }
func C13_builtFile()         { c13built(kFileKind()) }
func C13_builtInteger()      { c13built(kIntegerKind()) }
func C13_builtNumber()       { c13built(kNumberKind()) }
func C13_builtObject()       { c13built(kObjectKind()) }
func C13_builtString()       { c13built(kStringKind()) }
func C13_builtTimeOnly()     { c13built(kTimeOnlyKind()) }
func C13_builtUnion()        { c13built(kUnionKind()) }

func C13_modifiedAny()          { c13modified(kAnyKind()) }
func C13_modifiedArray()        { c13modified(kArrayKind()) }
func C13_modifiedBool()         { c13modified(kBoolKind()) }
func C13_modifiedCustom()       { c13modified(kCustomKind()) }
func C13_modifiedDateOnly()     { c13modified(kDateOnlyKind()) }
func C13_modifiedDatetime()     { c13modified(kDatetimeKind()) }
func C13_modifiedDatetimeOnly() { c13modified(kDatetimeOnlyKind()) }
func C13_modifiedFile()         { c13modified(kFileKind()) }
func C13_modifiedInteger()      { c13modified(kIntegerKind()) }
func C13_modifiedNumber()       { c13modified(kNumberKind()) }
func C13_modifiedObject()       { c13modified(kObjectKind()) }
func C13_modifiedString()       { c13modified(kStringKind()) }
func C13_modifiedTimeOnly()     { c13modified(kTimeOnlyKind()) }
func C13_modifiedUnion()        { c13modified(kUnionKind()) }

func C14_typeAny()          { c14type(kAnyKind()) }
func C14_typeArray()        { c14type(kArrayKind()) }
func C14_typeBool()         { c14type(kBoolKind()) }
func C14_typeCustom()       { c14type(kCustomKind()) }
func C14_typeDateOnly()     { c14type(kDateOnlyKind()) }
func C14_typeDatetime()     { c14type(kDatetimeKind()) }
func C14_typeDatetimeOnly() { c14type(kDatetimeOnlyKind()) }
func C14_typeFile()         { c14type(kFileKind()) }
func C14_typeInteger()      { c14type(kIntegerKind()) }
func C14_typeNumber()       { c14type(kNumberKind()) }
func C14_typeObject()       { c14type(kObjectKind()) }
func C14_typeString()       { c14type(kStringKind()) }
func C14_typeTimeOnly()     { c14type(kTimeOnlyKind()) }
func C14_typeUnion()        { c14type(kUnionKind()) }
func C14_typeNil()          { c14type(kNilKind()) }
func C14_typeInclude()      { c14type(kIncludeKind()) }

func C14_exampleAny()          { c14example(kAnyKind()) }
func C14_exampleArray()        { c14example(kArrayKind()) }
func C14_exampleBool()         { c14example(kBoolKind()) }
func C14_exampleCustom()       { c14example(kCustomKind()) }
func C14_exampleDateOnly()     { c14example(kDateOnlyKind()) }
func C14_exampleDatetime()     { c14example(kDatetimeKind()) }
func C14_exampleDatetimeOnly() { c14example(kDatetimeOnlyKind()) }
func C14_exampleFile()         { c14example(kFileKind()) }
func C14_exampleInteger()      { c14example(kIntegerKind()) }
func C14_exampleNumber()       { c14example(kNumberKind()) }
func C14_exampleObject()       { c14example(kObjectKind()) }
func C14_exampleString()       { c14example(kStringKind()) }
func C14_exampleTimeOnly()     { c14example(kTimeOnlyKind()) }
func C14_exampleUnion()        { c14example(kUnionKind()) }

func C15_facetAny()          { c15facet(kAnyKind()) }
func C15_facetArray()        { c15facet(kArrayKind()) }
func C15_facetBool()         { c15facet(kBoolKind()) }
func C15_facetCustom()       { c15facet(kCustomKind()) }
func C15_facetDateOnly()     { c15facet(kDateOnlyKind()) }
func C15_facetDatetime()     { c15facet(kDatetimeKind()) }
func C15_facetDatetimeOnly() { c15facet(kDatetimeOnlyKind()) }
func C15_facetFile()         { c15facet(kFileKind()) }
func C15_facetInteger()      { c15facet(kIntegerKind()) }
func C15_facetNumber()       { c15facet(kNumberKind()) }
func C15_facetObject()       { c15facet(kObjectKind()) }
func C15_facetString()       { c15facet(kStringKind()) }
func C15_facetTimeOnly()     { c15facet(kTimeOnlyKind()) }
func C15_facetUnion()        { c15facet(kUnionKind()) }
func C15_facetNil()          { c15facet(kNilKind()) }
func C15_facetInclude()      { c15facet(kIncludeKind()) }

func C15_garbledArray()   { c15garbled(kArrayKind()) }
func C15_garbledBool()    { c15garbled(kBoolKind()) }
func C15_garbledFile()    { c15garbled(kFileKind()) }
func C15_garbledInteger() { c15garbled(kIntegerKind()) }
func C15_garbledNumber()  { c15garbled(kNumberKind()) }
func C15_garbledObject()  { c15garbled(kObjectKind()) }
func C15_garbledString()  { c15garbled(kStringKind()) }

func C15_exampleAny()          { c15example(kAnyKind()) }
func C15_exampleArray()        { c15example(kArrayKind()) }
func C15_exampleBool()         { c15example(kBoolKind()) }
func C15_exampleCustom()       { c15example(kCustomKind()) }
func C15_exampleDateOnly()     { c15example(kDateOnlyKind()) }
func C15_exampleDatetime()     { c15example(kDatetimeKind()) }
func C15_exampleDatetimeOnly() { c15example(kDatetimeOnlyKind()) }
func C15_exampleFile()         { c15example(kFileKind()) }
func C15_exampleInteger()      { c15example(kIntegerKind()) }
func C15_exampleNumber()       { c15example(kNumberKind()) }
func C15_exampleObject()       { c15example(kObjectKind()) }
func C15_exampleString()       { c15example(kStringKind()) }
func C15_exampleTimeOnly()     { c15example(kTimeOnlyKind()) }
func C15_exampleUnion()        { c15example(kUnionKind()) }

func C15_xmlAny()          { c15xml(kAnyKind()) }
func C15_xmlArray()        { c15xml(kArrayKind()) }
func C15_xmlBool()         { c15xml(kBoolKind()) }
func C15_xmlCustom()       { c15xml(kCustomKind()) }
func C15_xmlDateOnly()     { c15xml(kDateOnlyKind()) }
func C15_xmlDatetime()     { c15xml(kDatetimeKind()) }
func C15_xmlDatetimeOnly() { c15xml(kDatetimeOnlyKind()) }
func C15_xmlFile()         { c15xml(kFileKind()) }
func C15_xmlInteger()      { c15xml(kIntegerKind()) }
func C15_xmlNumber()       { c15xml(kNumberKind()) }
func C15_xmlObject()       { c15xml(kObjectKind()) }
func C15_xmlString()       { c15xml(kStringKind()) }
func C15_xmlTimeOnly()     { c15xml(kTimeOnlyKind()) }
func C15_xmlUnion()        { c15xml(kUnionKind()) }

func C17_pairsAny()          { c17pairs(kAnyKind()) }
func C17_pairsArray()        { c17pairs(kArrayKind()) }
func C17_pairsBool()         { c17pairs(kBoolKind()) }
func C17_pairsCustom()       { c17pairs(kCustomKind()) }
func C17_pairsDateOnly()     { c17pairs(kDateOnlyKind()) }
func C17_pairsDatetime()     { c17pairs(kDatetimeKind()) }
func C17_pairsDatetimeOnly() { c17pairs(kDatetimeOnlyKind()) }
func C17_pairsFile()         { c17pairs(kFileKind()) }
func C17_pairsInteger()      { c17pairs(kIntegerKind()) }
func C17_pairsNumber()       { c17pairs(kNumberKind()) }
func C17_pairsObject()       { c17pairs(kObjectKind()) }
func C17_pairsString()       { c17pairs(kStringKind()) }
func C17_pairsTimeOnly()     { c17pairs(kTimeOnlyKind()) }
func C17_pairsUnion()        { c17pairs(kUnionKind()) }

func C17_singleAny()          { c17single(kAnyKind()) }
func C17_singleArray()        { c17single(kArrayKind()) }
func C17_singleBool()         { c17single(kBoolKind()) }
func C17_singleCustom()       { c17single(kCustomKind()) }
func C17_singleDateOnly()     { c17single(kDateOnlyKind()) }
func C17_singleDatetime()     { c17single(kDatetimeKind()) }
func C17_singleDatetimeOnly() { c17single(kDatetimeOnlyKind()) }
func C17_singleFile()         { c17single(kFileKind()) }
func C17_singleInteger()      { c17single(kIntegerKind()) }
func C17_singleNumber()       { c17single(kNumberKind()) }
func C17_singleObject()       { c17single(kObjectKind()) }
func C17_singleString()       { c17single(kStringKind()) }
func C17_singleTimeOnly()     { c17single(kTimeOnlyKind()) }
func C17_singleUnion()        { c17single(kUnionKind()) }

func C17_allAny()          { c17all(kAnyKind()) }
func C17_allArray()        { c17all(kArrayKind()) }
func C17_allBool()         { c17all(kBoolKind()) }
func C17_allCustom()       { c17all(kCustomKind()) }
func C17_allDateOnly()     { c17all(kDateOnlyKind()) }
func C17_allDatetime()     { c17all(kDatetimeKind()) }
func C17_allDatetimeOnly() { c17all(kDatetimeOnlyKind()) }
func C17_allFile()         { c17all(kFileKind()) }
func C17_allInteger()      { c17all(kIntegerKind()) }
func C17_allNumber()       { c17all(kNumberKind()) }
func C17_allObject()       { c17all(kObjectKind()) }
func C17_allString()       { c17all(kStringKind()) }
func C17_allTimeOnly()     { c17all(kTimeOnlyKind()) }
func C17_allUnion()        { c17all(kUnionKind()) }

func C17_builtAny()          { c17built(kAnyKind()) }
func C17_builtArray()        { c17built(kArrayKind()) }
func C17_builtBool()         { c17built(kBoolKind()) }
func C17_builtCustom()       { c17built(kCustomKind()) }
func C17_builtDateOnly()     { c17built(kDateOnlyKind()) }
func C17_builtDatetime()     { c17built(kDatetimeKind()) }
func C17_builtDatetimeOnly() { c17built(kDatetimeOnlyKind()) }
func C17_builtFile()         { c17built(kFileKind()) }
func C17_builtInteger()      { c17built(kIntegerKind()) }
func C17_builtNumber()       { c17built(kNumberKind()) }
func C17_builtObject()       { c17built(kObjectKind()) }
func C17_builtString()       { c17built(kStringKind()) }
func C17_builtTimeOnly()     { c17built(kTimeOnlyKind()) }
func C17_builtUnion()        { c17built(kUnionKind()) }

func C17_wholeAny()          { c17whole(kAnyKind()) }
func C17_wholeArray()        { c17whole(kArrayKind()) }
func C17_wholeBool()         { c17whole(kBoolKind()) }
func C17_wholeCustom()       { c17whole(kCustomKind()) }
func C17_wholeDateOnly()     { c17whole(kDateOnlyKind()) }
func C17_wholeDatetime()     { c17whole(kDatetimeKind()) }
func C17_wholeDatetimeOnly() { c17whole(kDatetimeOnlyKind()) }
func C17_wholeFile()         { c17whole(kFileKind()) }
func C17_wholeInteger()      { c17whole(kIntegerKind()) }
func C17_wholeNumber()       { c17whole(kNumberKind()) }
func C17_wholeObject()       { c17whole(kObjectKind()) }
func C17_wholeString()       { c17whole(kStringKind()) }
func C17_wholeTimeOnly()     { c17whole(kTimeOnlyKind()) }
func C17_wholeUnion()        { c17whole(kUnionKind()) }

func C18_typeAny()          { c18type(kAnyKind()) }
func C18_typeArray()        { c18type(kArrayKind()) }
func C18_typeBool()         { c18type(kBoolKind()) }
func C18_typeCustom()       { c18type(kCustomKind()) }
func C18_typeDateOnly()     { c18type(kDateOnlyKind()) }
func C18_typeDatetime()     { c18type(kDatetimeKind()) }
func C18_typeDatetimeOnly() { c18type(kDatetimeOnlyKind()) }
func C18_typeFile()         { c18type(kFileKind()) }
func C18_typeInteger()      { c18type(kIntegerKind()) }
func C18_typeNumber()       { c18type(kNumberKind()) }
func C18_typeObject()       { c18type(kObjectKind()) }
func C18_typeString()       { c18type(kStringKind()) }
func C18_typeTimeOnly()     { c18type(kTimeOnlyKind()) }
func C18_typeUnion()        { c18type(kUnionKind()) }

func C18_twiceAny()          { c18twiceType(kAnyKind()) }
func C18_twiceArray()        { c18twiceType(kArrayKind()) }
func C18_twiceBool()         { c18twiceType(kBoolKind()) }
func C18_twiceCustom()       { c18twiceType(kCustomKind()) }
func C18_twiceDateOnly()     { c18twiceType(kDateOnlyKind()) }
func C18_twiceDatetime()     { c18twiceType(kDatetimeKind()) }
func C18_twiceDatetimeOnly() { c18twiceType(kDatetimeOnlyKind()) }
func C18_twiceFile()         { c18twiceType(kFileKind()) }
func C18_twiceInteger()      { c18twiceType(kIntegerKind()) }
func C18_twiceNumber()       { c18twiceType(kNumberKind()) }
func C18_twiceObject()       { c18twiceType(kObjectKind()) }
func C18_twiceString()       { c18twiceType(kStringKind()) }
func C18_twiceTimeOnly()     { c18twiceType(kTimeOnlyKind()) }
func C18_twiceUnion()        { c18twiceType(kUnionKind()) }

func C18_listsAny()          { c18lists(kAnyKind()) }
func C18_listsArray()        { c18lists(kArrayKind()) }
func C18_listsBool()         { c18lists(kBoolKind()) }
func C18_listsCustom()       { c18lists(kCustomKind()) }
func C18_listsDateOnly()     { c18lists(kDateOnlyKind()) }
func C18_listsDatetime()     { c18lists(kDatetimeKind()) }
func C18_listsDatetimeOnly() { c18lists(kDatetimeOnlyKind()) }
func C18_listsFile()         { c18lists(kFileKind()) }
func C18_listsInteger()      { c18lists(kIntegerKind()) }
func C18_listsNumber()       { c18lists(kNumberKind()) }
func C18_listsObject()       { c18lists(kObjectKind()) }
func C18_listsString()       { c18lists(kStringKind()) }
func C18_listsTimeOnly()     { c18lists(kTimeOnlyKind()) }
func C18_listsUnion()        { c18lists(kUnionKind()) }

func C18_exampleAny()          { c18example(kAnyKind()) }
func C18_exampleArray()        { c18example(kArrayKind()) }
func C18_exampleBool()         { c18example(kBoolKind()) }
func C18_exampleCustom()       { c18example(kCustomKind()) }
func C18_exampleDateOnly()     { c18example(kDateOnlyKind()) }
func C18_exampleDatetime()     { c18example(kDatetimeKind()) }
func C18_exampleDatetimeOnly() { c18example(kDatetimeOnlyKind()) }
func C18_exampleFile()         { c18example(kFileKind()) }
func C18_exampleInteger()      { c18example(kIntegerKind()) }
func C18_exampleNumber()       { c18example(kNumberKind()) }
func C18_exampleObject()       { c18example(kObjectKind()) }
func C18_exampleString()       { c18example(kStringKind()) }
func C18_exampleTimeOnly()     { c18example(kTimeOnlyKind()) }
func C18_exampleUnion()        { c18example(kUnionKind()) }

func C19_typeAny()          { c19type(kAnyKind()) }
func C19_typeArray()        { c19type(kArrayKind()) }
func C19_typeBool()         { c19type(kBoolKind()) }
func C19_typeCustom()       { c19type(kCustomKind()) }
func C19_typeDateOnly()     { c19type(kDateOnlyKind()) }
func C19_typeDatetime()     { c19type(kDatetimeKind()) }
func C19_typeDatetimeOnly() { c19type(kDatetimeOnlyKind()) }
func C19_typeFile()         { c19type(kFileKind()) }
func C19_typeInteger()      { c19type(kIntegerKind()) }
func C19_typeNumber()       { c19type(kNumberKind()) }
func C19_typeObject()       { c19type(kObjectKind()) }
func C19_typeString()       { c19type(kStringKind()) }
func C19_typeTimeOnly()     { c19type(kTimeOnlyKind()) }
func C19_typeUnion()        { c19type(kUnionKind()) }

func C19_exampleAny()          { c19example(kAnyKind()) }
func C19_exampleArray()        { c19example(kArrayKind()) }
func C19_exampleBool()         { c19example(kBoolKind()) }
func C19_exampleCustom()       { c19example(kCustomKind()) }
func C19_exampleDateOnly()     { c19example(kDateOnlyKind()) }
func C19_exampleDatetime()     { c19example(kDatetimeKind()) }
func C19_exampleDatetimeOnly() { c19example(kDatetimeOnlyKind()) }
func C19_exampleFile()         { c19example(kFileKind()) }
func C19_exampleInteger()      { c19example(kIntegerKind()) }
func C19_exampleNumber()       { c19example(kNumberKind()) }
func C19_exampleObject()       { c19example(kObjectKind()) }
func C19_exampleString()       { c19example(kStringKind()) }
func C19_exampleTimeOnly()     { c19example(kTimeOnlyKind()) }
func C19_exampleUnion()        { c19example(kUnionKind()) }

func C19_xmlAny()          { c19xml(kAnyKind()) }
func C19_xmlArray()        { c19xml(kArrayKind()) }
func C19_xmlBool()         { c19xml(kBoolKind()) }
func C19_xmlCustom()       { c19xml(kCustomKind()) }
func C19_xmlDateOnly()     { c19xml(kDateOnlyKind()) }
func C19_xmlDatetime()     { c19xml(kDatetimeKind()) }
func C19_xmlDatetimeOnly() { c19xml(kDatetimeOnlyKind()) }
func C19_xmlFile()         { c19xml(kFileKind()) }
func C19_xmlInteger()      { c19xml(kIntegerKind()) }
func C19_xmlNumber()       { c19xml(kNumberKind()) }
func C19_xmlObject()       { c19xml(kObjectKind()) }
func C19_xmlString()       { c19xml(kStringKind()) }
func C19_xmlTimeOnly()     { c19xml(kTimeOnlyKind()) }
func C19_xmlUnion()        { c19xml(kUnionKind()) }

func C19_tablesAny()          { c19tables(kAnyKind()) }
func C19_tablesArray()        { c19tables(kArrayKind()) }
func C19_tablesBool()         { c19tables(kBoolKind()) }
func C19_tablesCustom()       { c19tables(kCustomKind()) }
func C19_tablesDateOnly()     { c19tables(kDateOnlyKind()) }
func C19_tablesDatetime()     { c19tables(kDatetimeKind()) }
func C19_tablesDatetimeOnly() { c19tables(kDatetimeOnlyKind()) }
func C19_tablesFile()         { c19tables(kFileKind()) }
func C19_tablesInteger()      { c19tables(kIntegerKind()) }
func C19_tablesNumber()       { c19tables(kNumberKind()) }
func C19_tablesObject()       { c19tables(kObjectKind()) }
func C19_tablesString()       { c19tables(kStringKind()) }
func C19_tablesTimeOnly()     { c19tables(kTimeOnlyKind()) }
func C19_tablesUnion()        { c19tables(kUnionKind()) }

func C06_facetUnion()   { c06facet(kUnionKind()) }
func C06_facetCustom()  { c06facet(kCustomKind()) }
func C06_facetInclude() { c06facet(kIncludeKind()) }

func C09_exprUnion()   { c09expr(kUnionKind()) }
func C09_exprCustom()  { c09expr(kCustomKind()) }
func C09_exprInclude() { c09expr(kIncludeKind()) }

func C20_typeAny()          { c20type(kAnyKind()) }
func C20_typeArray()        { c20type(kArrayKind()) }
func C20_typeBool()         { c20type(kBoolKind()) }
func C20_typeCustom()       { c20type(kCustomKind()) }
func C20_typeDateOnly()     { c20type(kDateOnlyKind()) }
func C20_typeDatetime()     { c20type(kDatetimeKind()) }
func C20_typeDatetimeOnly() { c20type(kDatetimeOnlyKind()) }
func C20_typeFile()         { c20type(kFileKind()) }
func C20_typeInteger()      { c20type(kIntegerKind()) }
func C20_typeNumber()       { c20type(kNumberKind()) }
func C20_typeObject()       { c20type(kObjectKind()) }
func C20_typeString()       { c20type(kStringKind()) }
func C20_typeTimeOnly()     { c20type(kTimeOnlyKind()) }
func C20_typeUnion()        { c20type(kUnionKind()) }
func C20_typeNil()          { c20type(kNilKind()) }
func C20_typeInclude()      { c20type(kIncludeKind()) }

func C20_listsAny()          { c20lists(kAnyKind()) }
func C20_listsArray()        { c20lists(kArrayKind()) }
func C20_listsBool()         { c20lists(kBoolKind()) }
func C20_listsCustom()       { c20lists(kCustomKind()) }
func C20_listsDateOnly()     { c20lists(kDateOnlyKind()) }
func C20_listsDatetime()     { c20lists(kDatetimeKind()) }
func C20_listsDatetimeOnly() { c20lists(kDatetimeOnlyKind()) }
func C20_listsFile()         { c20lists(kFileKind()) }
func C20_listsInteger()      { c20lists(kIntegerKind()) }
func C20_listsNumber()       { c20lists(kNumberKind()) }
func C20_listsObject()       { c20lists(kObjectKind()) }
func C20_listsString()       { c20lists(kStringKind()) }
func C20_listsTimeOnly()     { c20lists(kTimeOnlyKind()) }
func C20_listsUnion()        { c20lists(kUnionKind()) }

func C20_unsetAny()          { c20unset(kAnyKind()) }
func C20_unsetArray()        { c20unset(kArrayKind()) }
func C20_unsetBool()         { c20unset(kBoolKind()) }
func C20_unsetCustom()       { c20unset(kCustomKind()) }
func C20_unsetDateOnly()     { c20unset(kDateOnlyKind()) }
func C20_unsetDatetime()     { c20unset(kDatetimeKind()) }
func C20_unsetDatetimeOnly() { c20unset(kDatetimeOnlyKind()) }
func C20_unsetFile()         { c20unset(kFileKind()) }
func C20_unsetInteger()      { c20unset(kIntegerKind()) }
func C20_unsetNumber()       { c20unset(kNumberKind()) }
func C20_unsetObject()       { c20unset(kObjectKind()) }
func C20_unsetString()       { c20unset(kStringKind()) }
func C20_unsetTimeOnly()     { c20unset(kTimeOnlyKind()) }
func C20_unsetUnion()        { c20unset(kUnionKind()) }

func C20_exampleAny()          { c20example(kAnyKind()) }
func C20_exampleArray()        { c20example(kArrayKind()) }
func C20_exampleBool()         { c20example(kBoolKind()) }
func C20_exampleCustom()       { c20example(kCustomKind()) }
func C20_exampleDateOnly()     { c20example(kDateOnlyKind()) }
func C20_exampleDatetime()     { c20example(kDatetimeKind()) }
func C20_exampleDatetimeOnly() { c20example(kDatetimeOnlyKind()) }
func C20_exampleFile()         { c20example(kFileKind()) }
func C20_exampleInteger()      { c20example(kIntegerKind()) }
func C20_exampleNumber()       { c20example(kNumberKind()) }
func C20_exampleObject()       { c20example(kObjectKind()) }
func C20_exampleString()       { c20example(kStringKind()) }
func C20_exampleTimeOnly()     { c20example(kTimeOnlyKind()) }
func C20_exampleUnion()        { c20example(kUnionKind()) }

func C20_withinAny()          { c20within(kAnyKind()) }
func C20_withinArray()        { c20within(kArrayKind()) }
func C20_withinBool()         { c20within(kBoolKind()) }
func C20_withinCustom()       { c20within(kCustomKind()) }
func C20_withinDateOnly()     { c20within(kDateOnlyKind()) }
func C20_withinDatetime()     { c20within(kDatetimeKind()) }
func C20_withinDatetimeOnly() { c20within(kDatetimeOnlyKind()) }
func C20_withinFile()         { c20within(kFileKind()) }
func C20_withinInteger()      { c20within(kIntegerKind()) }
func C20_withinNumber()       { c20within(kNumberKind()) }
func C20_withinObject()       { c20within(kObjectKind()) }
func C20_withinString()       { c20within(kStringKind()) }
func C20_withinTimeOnly()     { c20within(kTimeOnlyKind()) }
func C20_withinUnion()        { c20within(kUnionKind()) }

func C20_exWithinAny()          { c20exWithin(kAnyKind()) }
func C20_exWithinArray()        { c20exWithin(kArrayKind()) }
func C20_exWithinBool()         { c20exWithin(kBoolKind()) }
func C20_exWithinCustom()       { c20exWithin(kCustomKind()) }
func C20_exWithinDateOnly()     { c20exWithin(kDateOnlyKind()) }
func C20_exWithinDatetime()     { c20exWithin(kDatetimeKind()) }
func C20_exWithinDatetimeOnly() { c20exWithin(kDatetimeOnlyKind()) }
func C20_exWithinFile()         { c20exWithin(kFileKind()) }
func C20_exWithinInteger()      { c20exWithin(kIntegerKind()) }
func C20_exWithinNumber()       { c20exWithin(kNumberKind()) }
func C20_exWithinObject()       { c20exWithin(kObjectKind()) }
func C20_exWithinString()       { c20exWithin(kStringKind()) }
func C20_exWithinTimeOnly()     { c20exWithin(kTimeOnlyKind()) }
func C20_exWithinUnion()        { c20exWithin(kUnionKind()) }

func C10_tablesAny()          { c10tables(kAnyKind()) }
func C10_tablesArray()        { c10tables(kArrayKind()) }
func C10_tablesBool()         { c10tables(kBoolKind()) }
func C10_tablesCustom()       { c10tables(kCustomKind()) }
func C10_tablesDateOnly()     { c10tables(kDateOnlyKind()) }
func C10_tablesDatetime()     { c10tables(kDatetimeKind()) }
func C10_tablesDatetimeOnly() { c10tables(kDatetimeOnlyKind()) }
func C10_tablesFile()         { c10tables(kFileKind()) }
func C10_tablesInteger()      { c10tables(kIntegerKind()) }
func C10_tablesNumber()       { c10tables(kNumberKind()) }
func C10_tablesObject()       { c10tables(kObjectKind()) }
func C10_tablesString()       { c10tables(kStringKind()) }
func C10_tablesTimeOnly()     { c10tables(kTimeOnlyKind()) }
func C10_tablesUnion()        { c10tables(kUnionKind()) }

func C07_longAny()          { c07long(kAnyKind()) }
func C07_longArray()        { c07long(kArrayKind()) }
func C07_longBool()         { c07long(kBoolKind()) }
func C07_longCustom()       { c07long(kCustomKind()) }
func C07_longDateOnly()     { c07long(kDateOnlyKind()) }
func C07_longDatetime()     { c07long(kDatetimeKind()) }
func C07_longDatetimeOnly() { c07long(kDatetimeOnlyKind()) }
func C07_longFile()         { c07long(kFileKind()) }
func C07_longInteger()      { c07long(kIntegerKind()) }
func C07_longNumber()       { c07long(kNumberKind()) }
func C07_longObject()       { c07long(kObjectKind()) }
func C07_longString()       { c07long(kStringKind()) }
func C07_longTimeOnly()     { c07long(kTimeOnlyKind()) }
func C07_longUnion()        { c07long(kUnionKind()) }
func C07_longNil()          { c07long(kNilKind()) }
func C07_longInclude()      { c07long(kIncludeKind()) }

func C08_longAny()          { c08long(kAnyKind()) }
func C08_longArray()        { c08long(kArrayKind()) }
func C08_longBool()         { c08long(kBoolKind()) }
func C08_longCustom()       { c08long(kCustomKind()) }
func C08_longDateOnly()     { c08long(kDateOnlyKind()) }
func C08_longDatetime()     { c08long(kDatetimeKind()) }
func C08_longDatetimeOnly() { c08long(kDatetimeOnlyKind()) }
func C08_longFile()         { c08long(kFileKind()) }
func C08_longInteger()      { c08long(kIntegerKind()) }
func C08_longNumber()       { c08long(kNumberKind()) }
func C08_longObject()       { c08long(kObjectKind()) }
func C08_longString()       { c08long(kStringKind()) }
func C08_longTimeOnly()     { c08long(kTimeOnlyKind()) }
func C08_longUnion()        { c08long(kUnionKind()) }

func C09_longAny()          { c09long(kAnyKind()) }
func C09_longArray()        { c09long(kArrayKind()) }
func C09_longBool()         { c09long(kBoolKind()) }
func C09_longCustom()       { c09long(kCustomKind()) }
func C09_longDateOnly()     { c09long(kDateOnlyKind()) }
func C09_longDatetime()     { c09long(kDatetimeKind()) }
func C09_longDatetimeOnly() { c09long(kDatetimeOnlyKind()) }
func C09_longFile()         { c09long(kFileKind()) }
func C09_longInteger()      { c09long(kIntegerKind()) }
func C09_longNumber()       { c09long(kNumberKind()) }
func C09_longObject()       { c09long(kObjectKind()) }
func C09_longString()       { c09long(kStringKind()) }
func C09_longTimeOnly()     { c09long(kTimeOnlyKind()) }
func C09_longUnion()        { c09long(kUnionKind()) }
func C09_longNil()          { c09long(kNilKind()) }
func C09_longInclude()      { c09long(kIncludeKind()) }

func C10_longAny()          { c10long(kAnyKind()) }
func C10_longArray()        { c10long(kArrayKind()) }
func C10_longBool()         { c10long(kBoolKind()) }
func C10_longCustom()       { c10long(kCustomKind()) }
func C10_longDateOnly()     { c10long(kDateOnlyKind()) }
func C10_longDatetime()     { c10long(kDatetimeKind()) }
func C10_longDatetimeOnly() { c10long(kDatetimeOnlyKind()) }
func C10_longFile()         { c10long(kFileKind()) }
func C10_longInteger()      { c10long(kIntegerKind()) }
func C10_longNumber()       { c10long(kNumberKind()) }
func C10_longObject()       { c10long(kObjectKind()) }
func C10_longString()       { c10long(kStringKind()) }
func C10_longTimeOnly()     { c10long(kTimeOnlyKind()) }
func C10_longUnion()        { c10long(kUnionKind()) }

func C13_longAny()          { c13long(kAnyKind()) }
func C13_longArray()        { c13long(kArrayKind()) }
func C13_longBool()         { c13long(kBoolKind()) }
func C13_longCustom()       { c13long(kCustomKind()) }
func C13_longDateOnly()     { c13long(kDateOnlyKind()) }
func C13_longDatetime()     { c13long(kDatetimeKind()) }
func C13_longDatetimeOnly() { c13long(kDatetimeOnlyKind()) }
func C13_longFile()         { c13long(kFileKind()) }
func C13_longInteger()      { c13long(kIntegerKind()) }
func C13_longNumber()       { c13long(kNumberKind()) }
func C13_longObject()       { c13long(kObjectKind()) }
func C13_longString()       { c13long(kStringKind()) }
func C13_longTimeOnly()     { c13long(kTimeOnlyKind()) }
func C13_longUnion()        { c13long(kUnionKind()) }

func C17_longAny()          { c17long(kAnyKind()) }
func C17_longArray()        { c17long(kArrayKind()) }
func C17_longBool()         { c17long(kBoolKind()) }
func C17_longCustom()       { c17long(kCustomKind()) }
func C17_longDateOnly()     { c17long(kDateOnlyKind()) }
func C17_longDatetime()     { c17long(kDatetimeKind()) }
func C17_longDatetimeOnly() { c17long(kDatetimeOnlyKind()) }
func C17_longFile()         { c17long(kFileKind()) }
func C17_longInteger()      { c17long(kIntegerKind()) }
func C17_longNumber()       { c17long(kNumberKind()) }
func C17_longObject()       { c17long(kObjectKind()) }
func C17_longString()       { c17long(kStringKind()) }
func C17_longTimeOnly()     { c17long(kTimeOnlyKind()) }
func C17_longUnion()        { c17long(kUnionKind()) }

func C18_typeManyAny()          { c18typeMany(kAnyKind()) }
func C18_typeManyArray()        { c18typeMany(kArrayKind()) }
func C18_typeManyBool()         { c18typeMany(kBoolKind()) }
func C18_typeManyCustom()       { c18typeMany(kCustomKind()) }
func C18_typeManyDateOnly()     { c18typeMany(kDateOnlyKind()) }
func C18_typeManyDatetime()     { c18typeMany(kDatetimeKind()) }
func C18_typeManyDatetimeOnly() { c18typeMany(kDatetimeOnlyKind()) }
func C18_typeManyFile()         { c18typeMany(kFileKind()) }
func C18_typeManyInteger()      { c18typeMany(kIntegerKind()) }
func C18_typeManyNumber()       { c18typeMany(kNumberKind()) }
func C18_typeManyObject()       { c18typeMany(kObjectKind()) }
func C18_typeManyString()       { c18typeMany(kStringKind()) }
func C18_typeManyTimeOnly()     { c18typeMany(kTimeOnlyKind()) }
func C18_typeManyUnion()        { c18typeMany(kUnionKind()) }

func C18_exampleManyAny()          { c18exampleMany(kAnyKind()) }
func C18_exampleManyArray()        { c18exampleMany(kArrayKind()) }
func C18_exampleManyBool()         { c18exampleMany(kBoolKind()) }
func C18_exampleManyCustom()       { c18exampleMany(kCustomKind()) }
func C18_exampleManyDateOnly()     { c18exampleMany(kDateOnlyKind()) }
func C18_exampleManyDatetime()     { c18exampleMany(kDatetimeKind()) }
func C18_exampleManyDatetimeOnly() { c18exampleMany(kDatetimeOnlyKind()) }
func C18_exampleManyFile()         { c18exampleMany(kFileKind()) }
func C18_exampleManyInteger()      { c18exampleMany(kIntegerKind()) }
func C18_exampleManyNumber()       { c18exampleMany(kNumberKind()) }
func C18_exampleManyObject()       { c18exampleMany(kObjectKind()) }
func C18_exampleManyString()       { c18exampleMany(kStringKind()) }
func C18_exampleManyTimeOnly()     { c18exampleMany(kTimeOnlyKind()) }
func C18_exampleManyUnion()        { c18exampleMany(kUnionKind()) }

func C18_listsManyAny()          { c18listsMany(kAnyKind()) }
func C18_listsManyArray()        { c18listsMany(kArrayKind()) }
func C18_listsManyBool()         { c18listsMany(kBoolKind()) }
func C18_listsManyCustom()       { c18listsMany(kCustomKind()) }
func C18_listsManyDateOnly()     { c18listsMany(kDateOnlyKind()) }
func C18_listsManyDatetime()     { c18listsMany(kDatetimeKind()) }
func C18_listsManyDatetimeOnly() { c18listsMany(kDatetimeOnlyKind()) }
func C18_listsManyFile()         { c18listsMany(kFileKind()) }
func C18_listsManyInteger()      { c18listsMany(kIntegerKind()) }
func C18_listsManyNumber()       { c18listsMany(kNumberKind()) }
func C18_listsManyObject()       { c18listsMany(kObjectKind()) }
func C18_listsManyString()       { c18listsMany(kStringKind()) }
func C18_listsManyTimeOnly()     { c18listsMany(kTimeOnlyKind()) }
func C18_listsManyUnion()        { c18listsMany(kUnionKind()) }

func C14_longAny()          { c14long(kAnyKind()) }
func C14_longArray()        { c14long(kArrayKind()) }
func C14_longBool()         { c14long(kBoolKind()) }
func C14_longCustom()       { c14long(kCustomKind()) }
func C14_longDateOnly()     { c14long(kDateOnlyKind()) }
func C14_longDatetime()     { c14long(kDatetimeKind()) }
func C14_longDatetimeOnly() { c14long(kDatetimeOnlyKind()) }
func C14_longFile()         { c14long(kFileKind()) }
func C14_longInteger()      { c14long(kIntegerKind()) }
func C14_longNumber()       { c14long(kNumberKind()) }
func C14_longObject()       { c14long(kObjectKind()) }
func C14_longString()       { c14long(kStringKind()) }
func C14_longTimeOnly()     { c14long(kTimeOnlyKind()) }
func C14_longUnion()        { c14long(kUnionKind()) }
func C14_longNil()          { c14long(kNilKind()) }
func C14_longInclude()      { c14long(kIncludeKind()) }

func C14_manyAny()          { c14many(kAnyKind()) }
func C14_manyArray()        { c14many(kArrayKind()) }
func C14_manyBool()         { c14many(kBoolKind()) }
func C14_manyCustom()       { c14many(kCustomKind()) }
func C14_manyDateOnly()     { c14many(kDateOnlyKind()) }
func C14_manyDatetime()     { c14many(kDatetimeKind()) }
func C14_manyDatetimeOnly() { c14many(kDatetimeOnlyKind()) }
func C14_manyFile()         { c14many(kFileKind()) }
func C14_manyInteger()      { c14many(kIntegerKind()) }
func C14_manyNumber()       { c14many(kNumberKind()) }
func C14_manyObject()       { c14many(kObjectKind()) }
func C14_manyString()       { c14many(kStringKind()) }
func C14_manyTimeOnly()     { c14many(kTimeOnlyKind()) }
func C14_manyUnion()        { c14many(kUnionKind()) }
func C14_manyNil()          { c14many(kNilKind()) }
func C14_manyInclude()      { c14many(kIncludeKind()) }

func C14_exampleManyAny()          { c14exampleMany(kAnyKind()) }
func C14_exampleManyArray()        { c14exampleMany(kArrayKind()) }
func C14_exampleManyBool()         { c14exampleMany(kBoolKind()) }
func C14_exampleManyCustom()       { c14exampleMany(kCustomKind()) }
func C14_exampleManyDateOnly()     { c14exampleMany(kDateOnlyKind()) }
func C14_exampleManyDatetime()     { c14exampleMany(kDatetimeKind()) }
func C14_exampleManyDatetimeOnly() { c14exampleMany(kDatetimeOnlyKind()) }
func C14_exampleManyFile()         { c14exampleMany(kFileKind()) }
func C14_exampleManyInteger()      { c14exampleMany(kIntegerKind()) }
func C14_exampleManyNumber()       { c14exampleMany(kNumberKind()) }
func C14_exampleManyObject()       { c14exampleMany(kObjectKind()) }
func C14_exampleManyString()       { c14exampleMany(kStringKind()) }
func C14_exampleManyTimeOnly()     { c14exampleMany(kTimeOnlyKind()) }
func C14_exampleManyUnion()        { c14exampleMany(kUnionKind()) }

func C08_onceAny()          { c08once(kAnyKind()) }
func C08_onceArray()        { c08once(kArrayKind()) }
func C08_onceBool()         { c08once(kBoolKind()) }
func C08_onceCustom()       { c08once(kCustomKind()) }
func C08_onceDateOnly()     { c08once(kDateOnlyKind()) }
func C08_onceDatetime()     { c08once(kDatetimeKind()) }
func C08_onceDatetimeOnly() { c08once(kDatetimeOnlyKind()) }
func C08_onceFile()         { c08once(kFileKind()) }
func C08_onceInteger()      { c08once(kIntegerKind()) }
func C08_onceNumber()       { c08once(kNumberKind()) }
func C08_onceObject()       { c08once(kObjectKind()) }
func C08_onceString()       { c08once(kStringKind()) }
func C08_onceTimeOnly()     { c08once(kTimeOnlyKind()) }
func C08_onceUnion()        { c08once(kUnionKind()) }

func C03_StringMapLarge()              { largeForms(kitStringMap(), false) }
func C03_AnyMapLarge()                 { largeForms(kitAnyMap(), false) }
func C03_UntypedMapLarge()             { largeForms(kitUntypedMap(), false) }
func C03_AnyExampleMapLarge()          { largeForms(kitAnyExampleMap(), false) }
func C03_AnnotationMapLarge()          { largeForms(kitAnnotationMap(), false) }
func C03_DataTypeMapLarge()            { largeForms(kitDataTypeMap(), false) }
func C03_PropertyMapLarge()            { largeForms(kitPropertyMap(), false) }
func C03_FacetMapLarge()               { largeForms(kitFacetMap(), false) }
func C03_ArrayExampleMapLarge()        { largeForms(kitArrayExampleMap(), false) }
func C03_BoolExampleMapLarge()         { largeForms(kitBoolExampleMap(), false) }
func C03_CustomExampleMapLarge()       { largeForms(kitCustomExampleMap(), false) }
func C03_DateOnlyExampleMapLarge()     { largeForms(kitDateOnlyExampleMap(), false) }
func C03_DatetimeExampleMapLarge()     { largeForms(kitDatetimeExampleMap(), false) }
func C03_DatetimeOnlyExampleMapLarge() { largeForms(kitDatetimeOnlyExampleMap(), false) }
func C03_FileExampleMapLarge()         { largeForms(kitFileExampleMap(), false) }
func C03_IntegerExampleMapLarge()      { largeForms(kitIntegerExampleMap(), false) }
func C03_NumberExampleMapLarge()       { largeForms(kitNumberExampleMap(), false) }
func C03_ObjectExampleMapLarge()       { largeForms(kitObjectExampleMap(), false) }
func C03_StringExampleMapLarge()       { largeForms(kitStringExampleMap(), false) }
func C03_TimeOnlyExampleMapLarge()     { largeForms(kitTimeOnlyExampleMap(), false) }
func C03_UnionExampleMapLarge()        { largeForms(kitUnionExampleMap(), false) }

func C04_StringMapLarge()              { largeForms(kitStringMap(), true) }
func C04_AnyMapLarge()                 { largeForms(kitAnyMap(), true) }
func C04_UntypedMapLarge()             { largeForms(kitUntypedMap(), true) }
func C04_AnyExampleMapLarge()          { largeForms(kitAnyExampleMap(), true) }
func C04_AnnotationMapLarge()          { largeForms(kitAnnotationMap(), true) }
func C04_DataTypeMapLarge()            { largeForms(kitDataTypeMap(), true) }
func C04_PropertyMapLarge()            { largeForms(kitPropertyMap(), true) }
func C04_FacetMapLarge()               { largeForms(kitFacetMap(), true) }
func C04_ArrayExampleMapLarge()        { largeForms(kitArrayExampleMap(), true) }
func C04_BoolExampleMapLarge()         { largeForms(kitBoolExampleMap(), true) }
func C04_CustomExampleMapLarge()       { largeForms(kitCustomExampleMap(), true) }
func C04_DateOnlyExampleMapLarge()     { largeForms(kitDateOnlyExampleMap(), true) }
func C04_DatetimeExampleMapLarge()     { largeForms(kitDatetimeExampleMap(), true) }
func C04_DatetimeOnlyExampleMapLarge() { largeForms(kitDatetimeOnlyExampleMap(), true) }
func C04_FileExampleMapLarge()         { largeForms(kitFileExampleMap(), true) }
func C04_IntegerExampleMapLarge()      { largeForms(kitIntegerExampleMap(), true) }
func C04_NumberExampleMapLarge()       { largeForms(kitNumberExampleMap(), true) }
func C04_ObjectExampleMapLarge()       { largeForms(kitObjectExampleMap(), true) }
func C04_StringExampleMapLarge()       { largeForms(kitStringExampleMap(), true) }
func C04_TimeOnlyExampleMapLarge()     { largeForms(kitTimeOnlyExampleMap(), true) }
func C04_UnionExampleMapLarge()        { largeForms(kitUnionExampleMap(), true) }

func C01_StringMapAlike()                { alike(kitStringMap(), 0) }
func C03_StringMapAlike()                { alike(kitStringMap(), 1) }
func C04_StringMapAlike()                { alike(kitStringMap(), 2) }
func C01_StringMapHuge()                 { huge(kitStringMap()) }
func C03_StringMapHuge()                 { hugeForms(kitStringMap(), false) }
func C04_StringMapHuge()                 { hugeForms(kitStringMap(), true) }
func C01_StringMapLarge()                { large(kitStringMap()) }
func C01_StringMapDrained()              { drained(kitStringMap()) }
func C01_AnyMapAlike()                   { alike(kitAnyMap(), 0) }
func C03_AnyMapAlike()                   { alike(kitAnyMap(), 1) }
func C04_AnyMapAlike()                   { alike(kitAnyMap(), 2) }
func C01_AnyMapHuge()                    { huge(kitAnyMap()) }
func C03_AnyMapHuge()                    { hugeForms(kitAnyMap(), false) }
func C04_AnyMapHuge()                    { hugeForms(kitAnyMap(), true) }
func C01_AnyMapLarge()                   { large(kitAnyMap()) }
func C01_AnyMapDrained()                 { drained(kitAnyMap()) }
func C01_UntypedMapAlike()               { alike(kitUntypedMap(), 0) }
func C03_UntypedMapAlike()               { alike(kitUntypedMap(), 1) }
func C04_UntypedMapAlike()               { alike(kitUntypedMap(), 2) }
func C01_UntypedMapHuge()                { huge(kitUntypedMap()) }
func C03_UntypedMapHuge()                { hugeForms(kitUntypedMap(), false) }
func C04_UntypedMapHuge()                { hugeForms(kitUntypedMap(), true) }
func C01_UntypedMapLarge()               { large(kitUntypedMap()) }
func C01_UntypedMapDrained()             { drained(kitUntypedMap()) }
func C01_AnyExampleMapAlike()            { alike(kitAnyExampleMap(), 0) }
func C03_AnyExampleMapAlike()            { alike(kitAnyExampleMap(), 1) }
func C04_AnyExampleMapAlike()            { alike(kitAnyExampleMap(), 2) }
func C01_AnyExampleMapHuge()             { huge(kitAnyExampleMap()) }
func C03_AnyExampleMapHuge()             { hugeForms(kitAnyExampleMap(), false) }
func C04_AnyExampleMapHuge()             { hugeForms(kitAnyExampleMap(), true) }
func C01_AnyExampleMapLarge()            { large(kitAnyExampleMap()) }
func C01_AnyExampleMapDrained()          { drained(kitAnyExampleMap()) }
func C01_AnnotationMapAlike()            { alike(kitAnnotationMap(), 0) }
func C03_AnnotationMapAlike()            { alike(kitAnnotationMap(), 1) }
func C04_AnnotationMapAlike()            { alike(kitAnnotationMap(), 2) }
func C01_AnnotationMapHuge()             { huge(kitAnnotationMap()) }
func C03_AnnotationMapHuge()             { hugeForms(kitAnnotationMap(), false) }
func C04_AnnotationMapHuge()             { hugeForms(kitAnnotationMap(), true) }
func C01_AnnotationMapLarge()            { large(kitAnnotationMap()) }
func C01_AnnotationMapDrained()          { drained(kitAnnotationMap()) }
func C01_DataTypeMapAlike()              { alike(kitDataTypeMap(), 0) }
func C03_DataTypeMapAlike()              { alike(kitDataTypeMap(), 1) }
func C04_DataTypeMapAlike()              { alike(kitDataTypeMap(), 2) }
func C01_DataTypeMapHuge()               { huge(kitDataTypeMap()) }
func C03_DataTypeMapHuge()               { hugeForms(kitDataTypeMap(), false) }
func C04_DataTypeMapHuge()               { hugeForms(kitDataTypeMap(), true) }
func C01_DataTypeMapLarge()              { large(kitDataTypeMap()) }
func C01_DataTypeMapDrained()            { drained(kitDataTypeMap()) }
func C01_PropertyMapAlike()              { alike(kitPropertyMap(), 0) }
func C03_PropertyMapAlike()              { alike(kitPropertyMap(), 1) }
func C04_PropertyMapAlike()              { alike(kitPropertyMap(), 2) }
func C01_PropertyMapHuge()               { huge(kitPropertyMap()) }
func C03_PropertyMapHuge()               { hugeForms(kitPropertyMap(), false) }
func C04_PropertyMapHuge()               { hugeForms(kitPropertyMap(), true) }
func C01_PropertyMapLarge()              { large(kitPropertyMap()) }
func C01_PropertyMapDrained()            { drained(kitPropertyMap()) }
func C01_FacetMapAlike()                 { alike(kitFacetMap(), 0) }
func C03_FacetMapAlike()                 { alike(kitFacetMap(), 1) }
func C04_FacetMapAlike()                 { alike(kitFacetMap(), 2) }
func C01_FacetMapHuge()                  { huge(kitFacetMap()) }
func C03_FacetMapHuge()                  { hugeForms(kitFacetMap(), false) }
func C04_FacetMapHuge()                  { hugeForms(kitFacetMap(), true) }
func C01_FacetMapLarge()                 { large(kitFacetMap()) }
func C01_FacetMapDrained()               { drained(kitFacetMap()) }
func C01_ArrayExampleMapAlike()          { alike(kitArrayExampleMap(), 0) }
func C03_ArrayExampleMapAlike()          { alike(kitArrayExampleMap(), 1) }
func C04_ArrayExampleMapAlike()          { alike(kitArrayExampleMap(), 2) }
func C01_ArrayExampleMapHuge()           { huge(kitArrayExampleMap()) }
func C03_ArrayExampleMapHuge()           { hugeForms(kitArrayExampleMap(), false) }
func C04_ArrayExampleMapHuge()           { hugeForms(kitArrayExampleMap(), true) }
func C01_ArrayExampleMapLarge()          { large(kitArrayExampleMap()) }
func C01_ArrayExampleMapDrained()        { drained(kitArrayExampleMap()) }
func C01_BoolExampleMapAlike()           { alike(kitBoolExampleMap(), 0) }
func C03_BoolExampleMapAlike()           { alike(kitBoolExampleMap(), 1) }
func C04_BoolExampleMapAlike()           { alike(kitBoolExampleMap(), 2) }
func C01_BoolExampleMapHuge()            { huge(kitBoolExampleMap()) }
func C03_BoolExampleMapHuge()            { hugeForms(kitBoolExampleMap(), false) }
func C04_BoolExampleMapHuge()            { hugeForms(kitBoolExampleMap(), true) }
func C01_BoolExampleMapLarge()           { large(kitBoolExampleMap()) }
func C01_BoolExampleMapDrained()         { drained(kitBoolExampleMap()) }
func C01_CustomExampleMapAlike()         { alike(kitCustomExampleMap(), 0) }
func C03_CustomExampleMapAlike()         { alike(kitCustomExampleMap(), 1) }
func C04_CustomExampleMapAlike()         { alike(kitCustomExampleMap(), 2) }
func C01_CustomExampleMapHuge()          { huge(kitCustomExampleMap()) }
func C03_CustomExampleMapHuge()          { hugeForms(kitCustomExampleMap(), false) }
func C04_CustomExampleMapHuge()          { hugeForms(kitCustomExampleMap(), true) }
func C01_CustomExampleMapLarge()         { large(kitCustomExampleMap()) }
func C01_CustomExampleMapDrained()       { drained(kitCustomExampleMap()) }
func C01_DateOnlyExampleMapAlike()       { alike(kitDateOnlyExampleMap(), 0) }
func C03_DateOnlyExampleMapAlike()       { alike(kitDateOnlyExampleMap(), 1) }
func C04_DateOnlyExampleMapAlike()       { alike(kitDateOnlyExampleMap(), 2) }
func C01_DateOnlyExampleMapHuge()        { huge(kitDateOnlyExampleMap()) }
func C03_DateOnlyExampleMapHuge()        { hugeForms(kitDateOnlyExampleMap(), false) }
func C04_DateOnlyExampleMapHuge()        { hugeForms(kitDateOnlyExampleMap(), true) }
func C01_DateOnlyExampleMapLarge()       { large(kitDateOnlyExampleMap()) }
func C01_DateOnlyExampleMapDrained()     { drained(kitDateOnlyExampleMap()) }
func C01_DatetimeExampleMapAlike()       { alike(kitDatetimeExampleMap(), 0) }
func C03_DatetimeExampleMapAlike()       { alike(kitDatetimeExampleMap(), 1) }
func C04_DatetimeExampleMapAlike()       { alike(kitDatetimeExampleMap(), 2) }
func C01_DatetimeExampleMapHuge()        { huge(kitDatetimeExampleMap()) }
func C03_DatetimeExampleMapHuge()        { hugeForms(kitDatetimeExampleMap(), false) }
func C04_DatetimeExampleMapHuge()        { hugeForms(kitDatetimeExampleMap(), true) }
func C01_DatetimeExampleMapLarge()       { large(kitDatetimeExampleMap()) }
func C01_DatetimeExampleMapDrained()     { drained(kitDatetimeExampleMap()) }
func C01_DatetimeOnlyExampleMapAlike()   { alike(kitDatetimeOnlyExampleMap(), 0) }
func C03_DatetimeOnlyExampleMapAlike()   { alike(kitDatetimeOnlyExampleMap(), 1) }
func C04_DatetimeOnlyExampleMapAlike()   { alike(kitDatetimeOnlyExampleMap(), 2) }
func C01_DatetimeOnlyExampleMapHuge()    { huge(kitDatetimeOnlyExampleMap()) }
func C03_DatetimeOnlyExampleMapHuge()    { hugeForms(kitDatetimeOnlyExampleMap(), false) }
func C04_DatetimeOnlyExampleMapHuge()    { hugeForms(kitDatetimeOnlyExampleMap(), true) }
func C01_DatetimeOnlyExampleMapLarge()   { large(kitDatetimeOnlyExampleMap()) }
func C01_DatetimeOnlyExampleMapDrained() { drained(kitDatetimeOnlyExampleMap()) }
func C01_FileExampleMapAlike()           { alike(kitFileExampleMap(), 0) }
func C03_FileExampleMapAlike()           { alike(kitFileExampleMap(), 1) }
func C04_FileExampleMapAlike()           { alike(kitFileExampleMap(), 2) }
func C01_FileExampleMapHuge()            { huge(kitFileExampleMap()) }
func C03_FileExampleMapHuge()            { hugeForms(kitFileExampleMap(), false) }
func C04_FileExampleMapHuge()            { hugeForms(kitFileExampleMap(), true) }
func C01_FileExampleMapLarge()           { large(kitFileExampleMap()) }
func C01_FileExampleMapDrained()         { drained(kitFileExampleMap()) }
func C01_IntegerExampleMapAlike()        { alike(kitIntegerExampleMap(), 0) }
func C03_IntegerExampleMapAlike()        { alike(kitIntegerExampleMap(), 1) }
func C04_IntegerExampleMapAlike()        { alike(kitIntegerExampleMap(), 2) }
func C01_IntegerExampleMapHuge()         { huge(kitIntegerExampleMap()) }
func C03_IntegerExampleMapHuge()         { hugeForms(kitIntegerExampleMap(), false) }
func C04_IntegerExampleMapHuge()         { hugeForms(kitIntegerExampleMap(), true) }
func C01_IntegerExampleMapLarge()        { large(kitIntegerExampleMap()) }
func C01_IntegerExampleMapDrained()      { drained(kitIntegerExampleMap()) }
func C01_NumberExampleMapAlike()         { alike(kitNumberExampleMap(), 0) }
func C03_NumberExampleMapAlike()         { alike(kitNumberExampleMap(), 1) }
func C04_NumberExampleMapAlike()         { alike(kitNumberExampleMap(), 2) }
func C01_NumberExampleMapHuge()          { huge(kitNumberExampleMap()) }
func C03_NumberExampleMapHuge()          { hugeForms(kitNumberExampleMap(), false) }
func C04_NumberExampleMapHuge()          { hugeForms(kitNumberExampleMap(), true) }
func C01_NumberExampleMapLarge()         { large(kitNumberExampleMap()) }
func C01_NumberExampleMapDrained()       { drained(kitNumberExampleMap()) }
func C01_ObjectExampleMapAlike()         { alike(kitObjectExampleMap(), 0) }
func C03_ObjectExampleMapAlike()         { alike(kitObjectExampleMap(), 1) }
func C04_ObjectExampleMapAlike()         { alike(kitObjectExampleMap(), 2) }
func C01_ObjectExampleMapHuge()          { huge(kitObjectExampleMap()) }
func C03_ObjectExampleMapHuge()          { hugeForms(kitObjectExampleMap(), false) }
func C04_ObjectExampleMapHuge()          { hugeForms(kitObjectExampleMap(), true) }
func C01_ObjectExampleMapLarge()         { large(kitObjectExampleMap()) }
func C01_ObjectExampleMapDrained()       { drained(kitObjectExampleMap()) }
func C01_StringExampleMapAlike()         { alike(kitStringExampleMap(), 0) }
func C03_StringExampleMapAlike()         { alike(kitStringExampleMap(), 1) }
func C04_StringExampleMapAlike()         { alike(kitStringExampleMap(), 2) }
func C01_StringExampleMapHuge()          { huge(kitStringExampleMap()) }
func C03_StringExampleMapHuge()          { hugeForms(kitStringExampleMap(), false) }
func C04_StringExampleMapHuge()          { hugeForms(kitStringExampleMap(), true) }
func C01_StringExampleMapLarge()         { large(kitStringExampleMap()) }
func C01_StringExampleMapDrained()       { drained(kitStringExampleMap()) }
func C01_TimeOnlyExampleMapAlike()       { alike(kitTimeOnlyExampleMap(), 0) }
func C03_TimeOnlyExampleMapAlike()       { alike(kitTimeOnlyExampleMap(), 1) }
func C04_TimeOnlyExampleMapAlike()       { alike(kitTimeOnlyExampleMap(), 2) }
func C01_TimeOnlyExampleMapHuge()        { huge(kitTimeOnlyExampleMap()) }
func C03_TimeOnlyExampleMapHuge()        { hugeForms(kitTimeOnlyExampleMap(), false) }
func C04_TimeOnlyExampleMapHuge()        { hugeForms(kitTimeOnlyExampleMap(), true) }
func C01_TimeOnlyExampleMapLarge()       { large(kitTimeOnlyExampleMap()) }
func C01_TimeOnlyExampleMapDrained()     { drained(kitTimeOnlyExampleMap()) }
func C01_UnionExampleMapAlike()          { alike(kitUnionExampleMap(), 0) }
func C03_UnionExampleMapAlike()          { alike(kitUnionExampleMap(), 1) }
func C04_UnionExampleMapAlike()          { alike(kitUnionExampleMap(), 2) }
func C01_UnionExampleMapHuge()           { huge(kitUnionExampleMap()) }
func C03_UnionExampleMapHuge()           { hugeForms(kitUnionExampleMap(), false) }
func C04_UnionExampleMapHuge()           { hugeForms(kitUnionExampleMap(), true) }
func C01_UnionExampleMapLarge()          { large(kitUnionExampleMap()) }
func C01_UnionExampleMapDrained()        { drained(kitUnionExampleMap()) }

func C20_StringMap()              { c20map(kitStringMap()) }
func C20_AnyMap()                 { c20map(kitAnyMap()) }
func C20_UntypedMap()             { c20map(kitUntypedMap()) }
func C20_AnyExampleMap()          { c20map(kitAnyExampleMap()) }
func C20_AnnotationMap()          { c20map(kitAnnotationMap()) }
func C20_DataTypeMap()            { c20map(kitDataTypeMap()) }
func C20_PropertyMap()            { c20map(kitPropertyMap()) }
func C20_FacetMap()               { c20map(kitFacetMap()) }
func C20_ArrayExampleMap()        { c20map(kitArrayExampleMap()) }
func C20_BoolExampleMap()         { c20map(kitBoolExampleMap()) }
func C20_CustomExampleMap()       { c20map(kitCustomExampleMap()) }
func C20_DateOnlyExampleMap()     { c20map(kitDateOnlyExampleMap()) }
func C20_DatetimeExampleMap()     { c20map(kitDatetimeExampleMap()) }
func C20_DatetimeOnlyExampleMap() { c20map(kitDatetimeOnlyExampleMap()) }
func C20_FileExampleMap()         { c20map(kitFileExampleMap()) }
func C20_IntegerExampleMap()      { c20map(kitIntegerExampleMap()) }
func C20_NumberExampleMap()       { c20map(kitNumberExampleMap()) }
func C20_ObjectExampleMap()       { c20map(kitObjectExampleMap()) }
func C20_StringExampleMap()       { c20map(kitStringExampleMap()) }
func C20_TimeOnlyExampleMap()     { c20map(kitTimeOnlyExampleMap()) }
func C20_UnionExampleMap()        { c20map(kitUnionExampleMap()) }

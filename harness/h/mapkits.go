//go:build go1.21

package h

// One kit per map type.

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func kitStringMap() mapKit[raml.StringMap, string, string] {
	return mapKit[raml.StringMap, string, string]{
		mk:     raml.NewStringMap,
		at:     func(s raml.StringMap, i int) (string, string) { e := s.At(i); return e.Key, e.Val },
		key:    stringKey,
		val:    stringVal,
		eqK:    eqString,
		eqV:    eqString,
		same:   func(a, b raml.StringMap) bool { return a == b },
		putOpt: func(m raml.StringMap, k string, v *string) raml.StringMap { return m.PutIfNotNil(k, v) },
	}
}

func kitAnyMap() mapKit[raml.AnyMap, interface{}, interface{}] {
	return mapKit[raml.AnyMap, interface{}, interface{}]{
		mk:     raml.NewAnyMap,
		at:     func(s raml.AnyMap, i int) (interface{}, interface{}) { e := s.At(i); return e.Key, e.Val },
		key:    anyKey,
		val:    untypedVal,
		eqK:    eqAny,
		eqV:    eqAny,
		same:   func(a, b raml.AnyMap) bool { return a == b },
		putOpt: func(m raml.AnyMap, k interface{}, v *interface{}) raml.AnyMap { return m.PutIfNotNil(k, v) },
	}
}

func kitUntypedMap() mapKit[raml.UntypedMap, string, interface{}] {
	return mapKit[raml.UntypedMap, string, interface{}]{
		mk:     raml.NewUntypedMap,
		at:     func(s raml.UntypedMap, i int) (string, interface{}) { e := s.At(i); return e.Key, e.Val },
		key:    stringKey,
		val:    untypedVal,
		eqK:    eqString,
		eqV:    eqAny,
		same:   func(a, b raml.UntypedMap) bool { return a == b },
		putOpt: func(m raml.UntypedMap, k string, v *interface{}) raml.UntypedMap { return m.PutIfNotNil(k, v) },
	}
}

func kitAnyExampleMap() mapKit[raml.AnyExampleMap, string, interface{}] {
	return mapKit[raml.AnyExampleMap, string, interface{}]{
		mk:     raml.NewAnyExampleMap,
		at:     func(s raml.AnyExampleMap, i int) (string, interface{}) { e := s.At(i); return e.Key, e.Val },
		key:    stringKey,
		val:    untypedVal,
		eqK:    eqString,
		eqV:    eqAny,
		same:   func(a, b raml.AnyExampleMap) bool { return a == b },
		putOpt: func(m raml.AnyExampleMap, k string, v *interface{}) raml.AnyExampleMap { return m.PutIfNotNil(k, v) },
	}
}

type fakeAnnotation struct {
	raml.Annotation
	fx
}

func (f *fakeAnnotation) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeAnnotation) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeAnnotation) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitAnnotationMap() mapKit[raml.AnnotationMap, string, raml.Annotation] {
	return mapKit[raml.AnnotationMap, string, raml.Annotation]{
		mk:   raml.NewAnnotationMap,
		at:   func(s raml.AnnotationMap, i int) (string, raml.Annotation) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.Annotation { return &fakeAnnotation{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.Annotation) bool { return a == b },
		same: func(a, b raml.AnnotationMap) bool { return a == b },
		putOpt: func(m raml.AnnotationMap, k string, v *raml.Annotation) raml.AnnotationMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeDataType struct {
	raml.DataType
	fx
}

func (f *fakeDataType) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeDataType) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeDataType) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitDataTypeMap() mapKit[raml.DataTypeMap, string, raml.DataType] {
	return mapKit[raml.DataTypeMap, string, raml.DataType]{
		mk:     raml.NewDataTypeMap,
		at:     func(s raml.DataTypeMap, i int) (string, raml.DataType) { e := s.At(i); return e.Key, e.Val },
		key:    stringKey,
		val:    func(name string) raml.DataType { return &fakeDataType{fx: mkfx(name)} },
		eqK:    eqString,
		eqV:    func(a, b raml.DataType) bool { return a == b },
		same:   func(a, b raml.DataTypeMap) bool { return a == b },
		putOpt: func(m raml.DataTypeMap, k string, v *raml.DataType) raml.DataTypeMap { return m.PutIfNotNil(k, v) },
	}
}

type fakeProperty struct {
	raml.Property
	fx
}

func (f *fakeProperty) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeProperty) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeProperty) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitPropertyMap() mapKit[raml.PropertyMap, string, raml.Property] {
	return mapKit[raml.PropertyMap, string, raml.Property]{
		mk:     raml.NewPropertyMap,
		at:     func(s raml.PropertyMap, i int) (string, raml.Property) { e := s.At(i); return e.Key, e.Val },
		key:    stringKey,
		val:    func(name string) raml.Property { return &fakeProperty{fx: mkfx(name)} },
		eqK:    eqString,
		eqV:    func(a, b raml.Property) bool { return a == b },
		same:   func(a, b raml.PropertyMap) bool { return a == b },
		putOpt: func(m raml.PropertyMap, k string, v *raml.Property) raml.PropertyMap { return m.PutIfNotNil(k, v) },
	}
}

type fakeFacet struct {
	raml.Facet
	fx
}

func (f *fakeFacet) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeFacet) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeFacet) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitFacetMap() mapKit[raml.FacetMap, string, raml.Facet] {
	return mapKit[raml.FacetMap, string, raml.Facet]{
		mk:     raml.NewFacetMap,
		at:     func(s raml.FacetMap, i int) (string, raml.Facet) { e := s.At(i); return e.Key, e.Val },
		key:    stringKey,
		val:    func(name string) raml.Facet { return &fakeFacet{fx: mkfx(name)} },
		eqK:    eqString,
		eqV:    func(a, b raml.Facet) bool { return a == b },
		same:   func(a, b raml.FacetMap) bool { return a == b },
		putOpt: func(m raml.FacetMap, k string, v *raml.Facet) raml.FacetMap { return m.PutIfNotNil(k, v) },
	}
}

type fakeArrayExample struct {
	raml.ArrayExample
	fx
}

func (f *fakeArrayExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeArrayExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeArrayExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitArrayExampleMap() mapKit[raml.ArrayExampleMap, string, raml.ArrayExample] {
	return mapKit[raml.ArrayExampleMap, string, raml.ArrayExample]{
		mk:   raml.NewArrayExampleMap,
		at:   func(s raml.ArrayExampleMap, i int) (string, raml.ArrayExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.ArrayExample { return &fakeArrayExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.ArrayExample) bool { return a == b },
		same: func(a, b raml.ArrayExampleMap) bool { return a == b },
		putOpt: func(m raml.ArrayExampleMap, k string, v *raml.ArrayExample) raml.ArrayExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeBoolExample struct {
	raml.BoolExample
	fx
}

func (f *fakeBoolExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeBoolExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeBoolExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitBoolExampleMap() mapKit[raml.BoolExampleMap, string, raml.BoolExample] {
	return mapKit[raml.BoolExampleMap, string, raml.BoolExample]{
		mk:   raml.NewBoolExampleMap,
		at:   func(s raml.BoolExampleMap, i int) (string, raml.BoolExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.BoolExample { return &fakeBoolExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.BoolExample) bool { return a == b },
		same: func(a, b raml.BoolExampleMap) bool { return a == b },
		putOpt: func(m raml.BoolExampleMap, k string, v *raml.BoolExample) raml.BoolExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeCustomExample struct {
	raml.CustomExample
	fx
}

func (f *fakeCustomExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeCustomExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeCustomExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitCustomExampleMap() mapKit[raml.CustomExampleMap, string, raml.CustomExample] {
	return mapKit[raml.CustomExampleMap, string, raml.CustomExample]{
		mk:   raml.NewCustomExampleMap,
		at:   func(s raml.CustomExampleMap, i int) (string, raml.CustomExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.CustomExample { return &fakeCustomExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.CustomExample) bool { return a == b },
		same: func(a, b raml.CustomExampleMap) bool { return a == b },
		putOpt: func(m raml.CustomExampleMap, k string, v *raml.CustomExample) raml.CustomExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeDateOnlyExample struct {
	raml.DateOnlyExample
	fx
}

func (f *fakeDateOnlyExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeDateOnlyExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeDateOnlyExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitDateOnlyExampleMap() mapKit[raml.DateOnlyExampleMap, string, raml.DateOnlyExample] {
	return mapKit[raml.DateOnlyExampleMap, string, raml.DateOnlyExample]{
		mk: raml.NewDateOnlyExampleMap,
		at: func(s raml.DateOnlyExampleMap, i int) (string, raml.DateOnlyExample) {
			e := s.At(i)
			return e.Key, e.Val
		},
		key:  stringKey,
		val:  func(name string) raml.DateOnlyExample { return &fakeDateOnlyExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.DateOnlyExample) bool { return a == b },
		same: func(a, b raml.DateOnlyExampleMap) bool { return a == b },
		putOpt: func(m raml.DateOnlyExampleMap, k string, v *raml.DateOnlyExample) raml.DateOnlyExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeDatetimeExample struct {
	raml.DatetimeExample
	fx
}

func (f *fakeDatetimeExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeDatetimeExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeDatetimeExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitDatetimeExampleMap() mapKit[raml.DatetimeExampleMap, string, raml.DatetimeExample] {
	return mapKit[raml.DatetimeExampleMap, string, raml.DatetimeExample]{
		mk: raml.NewDatetimeExampleMap,
		at: func(s raml.DatetimeExampleMap, i int) (string, raml.DatetimeExample) {
			e := s.At(i)
			return e.Key, e.Val
		},
		key:  stringKey,
		val:  func(name string) raml.DatetimeExample { return &fakeDatetimeExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.DatetimeExample) bool { return a == b },
		same: func(a, b raml.DatetimeExampleMap) bool { return a == b },
		putOpt: func(m raml.DatetimeExampleMap, k string, v *raml.DatetimeExample) raml.DatetimeExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeDatetimeOnlyExample struct {
	raml.DatetimeOnlyExample
	fx
}

func (f *fakeDatetimeOnlyExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeDatetimeOnlyExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeDatetimeOnlyExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitDatetimeOnlyExampleMap() mapKit[raml.DatetimeOnlyExampleMap, string, raml.DatetimeOnlyExample] {
	return mapKit[raml.DatetimeOnlyExampleMap, string, raml.DatetimeOnlyExample]{
		mk: raml.NewDatetimeOnlyExampleMap,
		at: func(s raml.DatetimeOnlyExampleMap, i int) (string, raml.DatetimeOnlyExample) {
			e := s.At(i)
			return e.Key, e.Val
		},
		key:  stringKey,
		val:  func(name string) raml.DatetimeOnlyExample { return &fakeDatetimeOnlyExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.DatetimeOnlyExample) bool { return a == b },
		same: func(a, b raml.DatetimeOnlyExampleMap) bool { return a == b },
		putOpt: func(m raml.DatetimeOnlyExampleMap, k string, v *raml.DatetimeOnlyExample) raml.DatetimeOnlyExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeFileExample struct {
	raml.FileExample
	fx
}

func (f *fakeFileExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeFileExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeFileExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitFileExampleMap() mapKit[raml.FileExampleMap, string, raml.FileExample] {
	return mapKit[raml.FileExampleMap, string, raml.FileExample]{
		mk:   raml.NewFileExampleMap,
		at:   func(s raml.FileExampleMap, i int) (string, raml.FileExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.FileExample { return &fakeFileExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.FileExample) bool { return a == b },
		same: func(a, b raml.FileExampleMap) bool { return a == b },
		putOpt: func(m raml.FileExampleMap, k string, v *raml.FileExample) raml.FileExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeIntegerExample struct {
	raml.IntegerExample
	fx
}

func (f *fakeIntegerExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeIntegerExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeIntegerExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitIntegerExampleMap() mapKit[raml.IntegerExampleMap, string, raml.IntegerExample] {
	return mapKit[raml.IntegerExampleMap, string, raml.IntegerExample]{
		mk:   raml.NewIntegerExampleMap,
		at:   func(s raml.IntegerExampleMap, i int) (string, raml.IntegerExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.IntegerExample { return &fakeIntegerExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.IntegerExample) bool { return a == b },
		same: func(a, b raml.IntegerExampleMap) bool { return a == b },
		putOpt: func(m raml.IntegerExampleMap, k string, v *raml.IntegerExample) raml.IntegerExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeNumberExample struct {
	raml.NumberExample
	fx
}

func (f *fakeNumberExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeNumberExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeNumberExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitNumberExampleMap() mapKit[raml.NumberExampleMap, string, raml.NumberExample] {
	return mapKit[raml.NumberExampleMap, string, raml.NumberExample]{
		mk:   raml.NewNumberExampleMap,
		at:   func(s raml.NumberExampleMap, i int) (string, raml.NumberExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.NumberExample { return &fakeNumberExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.NumberExample) bool { return a == b },
		same: func(a, b raml.NumberExampleMap) bool { return a == b },
		putOpt: func(m raml.NumberExampleMap, k string, v *raml.NumberExample) raml.NumberExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeObjectExample struct {
	raml.ObjectExample
	fx
}

func (f *fakeObjectExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeObjectExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeObjectExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitObjectExampleMap() mapKit[raml.ObjectExampleMap, string, raml.ObjectExample] {
	return mapKit[raml.ObjectExampleMap, string, raml.ObjectExample]{
		mk:   raml.NewObjectExampleMap,
		at:   func(s raml.ObjectExampleMap, i int) (string, raml.ObjectExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.ObjectExample { return &fakeObjectExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.ObjectExample) bool { return a == b },
		same: func(a, b raml.ObjectExampleMap) bool { return a == b },
		putOpt: func(m raml.ObjectExampleMap, k string, v *raml.ObjectExample) raml.ObjectExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeStringExample struct {
	raml.StringExample
	fx
}

func (f *fakeStringExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeStringExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeStringExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitStringExampleMap() mapKit[raml.StringExampleMap, string, raml.StringExample] {
	return mapKit[raml.StringExampleMap, string, raml.StringExample]{
		mk:   raml.NewStringExampleMap,
		at:   func(s raml.StringExampleMap, i int) (string, raml.StringExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.StringExample { return &fakeStringExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.StringExample) bool { return a == b },
		same: func(a, b raml.StringExampleMap) bool { return a == b },
		putOpt: func(m raml.StringExampleMap, k string, v *raml.StringExample) raml.StringExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeTimeOnlyExample struct {
	raml.TimeOnlyExample
	fx
}

func (f *fakeTimeOnlyExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeTimeOnlyExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeTimeOnlyExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitTimeOnlyExampleMap() mapKit[raml.TimeOnlyExampleMap, string, raml.TimeOnlyExample] {
	return mapKit[raml.TimeOnlyExampleMap, string, raml.TimeOnlyExample]{
		mk: raml.NewTimeOnlyExampleMap,
		at: func(s raml.TimeOnlyExampleMap, i int) (string, raml.TimeOnlyExample) {
			e := s.At(i)
			return e.Key, e.Val
		},
		key:  stringKey,
		val:  func(name string) raml.TimeOnlyExample { return &fakeTimeOnlyExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.TimeOnlyExample) bool { return a == b },
		same: func(a, b raml.TimeOnlyExampleMap) bool { return a == b },
		putOpt: func(m raml.TimeOnlyExampleMap, k string, v *raml.TimeOnlyExample) raml.TimeOnlyExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

type fakeUnionExample struct {
	raml.UnionExample
	fx
}

func (f *fakeUnionExample) ToYAML() (*yaml.Node, error)       { return f.fx.toYAML() }
func (f *fakeUnionExample) MarshalYAML() (interface{}, error) { return f.fx.toYAML() }
func (f *fakeUnionExample) MarshalJSON() ([]byte, error)      { return f.fx.toJSON() }

func kitUnionExampleMap() mapKit[raml.UnionExampleMap, string, raml.UnionExample] {
	return mapKit[raml.UnionExampleMap, string, raml.UnionExample]{
		mk:   raml.NewUnionExampleMap,
		at:   func(s raml.UnionExampleMap, i int) (string, raml.UnionExample) { e := s.At(i); return e.Key, e.Val },
		key:  stringKey,
		val:  func(name string) raml.UnionExample { return &fakeUnionExample{fx: mkfx(name)} },
		eqK:  eqString,
		eqV:  func(a, b raml.UnionExample) bool { return a == b },
		same: func(a, b raml.UnionExampleMap) bool { return a == b },
		putOpt: func(m raml.UnionExampleMap, k string, v *raml.UnionExample) raml.UnionExampleMap {
			return m.PutIfNotNil(k, v)
		},
	}
}

func C01_StringMapHistory()              { history(kitStringMap()) }
func C01_AnyMapHistory()                 { history(kitAnyMap()) }
func C01_UntypedMapHistory()             { history(kitUntypedMap()) }
func C01_AnyExampleMapHistory()          { history(kitAnyExampleMap()) }
func C01_AnnotationMapHistory()          { history(kitAnnotationMap()) }
func C01_DataTypeMapHistory()            { history(kitDataTypeMap()) }
func C01_PropertyMapHistory()            { history(kitPropertyMap()) }
func C01_FacetMapHistory()               { history(kitFacetMap()) }
func C01_ArrayExampleMapHistory()        { history(kitArrayExampleMap()) }
func C01_BoolExampleMapHistory()         { history(kitBoolExampleMap()) }
func C01_CustomExampleMapHistory()       { history(kitCustomExampleMap()) }
func C01_DateOnlyExampleMapHistory()     { history(kitDateOnlyExampleMap()) }
func C01_DatetimeExampleMapHistory()     { history(kitDatetimeExampleMap()) }
func C01_DatetimeOnlyExampleMapHistory() { history(kitDatetimeOnlyExampleMap()) }
func C01_FileExampleMapHistory()         { history(kitFileExampleMap()) }
func C01_IntegerExampleMapHistory()      { history(kitIntegerExampleMap()) }
func C01_NumberExampleMapHistory()       { history(kitNumberExampleMap()) }
func C01_ObjectExampleMapHistory()       { history(kitObjectExampleMap()) }
func C01_StringExampleMapHistory()       { history(kitStringExampleMap()) }
func C01_TimeOnlyExampleMapHistory()     { history(kitTimeOnlyExampleMap()) }
func C01_UnionExampleMapHistory()        { history(kitUnionExampleMap()) }

func C01_StringMapDeep()              { deep(kitStringMap()) }
func C01_AnyMapDeep()                 { deep(kitAnyMap()) }
func C01_UntypedMapDeep()             { deep(kitUntypedMap()) }
func C01_AnyExampleMapDeep()          { deep(kitAnyExampleMap()) }
func C01_AnnotationMapDeep()          { deep(kitAnnotationMap()) }
func C01_DataTypeMapDeep()            { deep(kitDataTypeMap()) }
func C01_PropertyMapDeep()            { deep(kitPropertyMap()) }
func C01_FacetMapDeep()               { deep(kitFacetMap()) }
func C01_ArrayExampleMapDeep()        { deep(kitArrayExampleMap()) }
func C01_BoolExampleMapDeep()         { deep(kitBoolExampleMap()) }
func C01_CustomExampleMapDeep()       { deep(kitCustomExampleMap()) }
func C01_DateOnlyExampleMapDeep()     { deep(kitDateOnlyExampleMap()) }
func C01_DatetimeExampleMapDeep()     { deep(kitDatetimeExampleMap()) }
func C01_DatetimeOnlyExampleMapDeep() { deep(kitDatetimeOnlyExampleMap()) }
func C01_FileExampleMapDeep()         { deep(kitFileExampleMap()) }
func C01_IntegerExampleMapDeep()      { deep(kitIntegerExampleMap()) }
func C01_NumberExampleMapDeep()       { deep(kitNumberExampleMap()) }
func C01_ObjectExampleMapDeep()       { deep(kitObjectExampleMap()) }
func C01_StringExampleMapDeep()       { deep(kitStringExampleMap()) }
func C01_TimeOnlyExampleMapDeep()     { deep(kitTimeOnlyExampleMap()) }
func C01_UnionExampleMapDeep()        { deep(kitUnionExampleMap()) }

func C02_StringMap()              { optionals(kitStringMap()) }
func C02_AnyMap()                 { optionals(kitAnyMap()) }
func C02_UntypedMap()             { optionals(kitUntypedMap()) }
func C02_AnyExampleMap()          { optionals(kitAnyExampleMap()) }
func C02_AnnotationMap()          { optionals(kitAnnotationMap()) }
func C02_DataTypeMap()            { optionals(kitDataTypeMap()) }
func C02_PropertyMap()            { optionals(kitPropertyMap()) }
func C02_FacetMap()               { optionals(kitFacetMap()) }
func C02_ArrayExampleMap()        { optionals(kitArrayExampleMap()) }
func C02_BoolExampleMap()         { optionals(kitBoolExampleMap()) }
func C02_CustomExampleMap()       { optionals(kitCustomExampleMap()) }
func C02_DateOnlyExampleMap()     { optionals(kitDateOnlyExampleMap()) }
func C02_DatetimeExampleMap()     { optionals(kitDatetimeExampleMap()) }
func C02_DatetimeOnlyExampleMap() { optionals(kitDatetimeOnlyExampleMap()) }
func C02_FileExampleMap()         { optionals(kitFileExampleMap()) }
func C02_IntegerExampleMap()      { optionals(kitIntegerExampleMap()) }
func C02_NumberExampleMap()       { optionals(kitNumberExampleMap()) }
func C02_ObjectExampleMap()       { optionals(kitObjectExampleMap()) }
func C02_StringExampleMap()       { optionals(kitStringExampleMap()) }
func C02_TimeOnlyExampleMap()     { optionals(kitTimeOnlyExampleMap()) }
func C02_UnionExampleMap()        { optionals(kitUnionExampleMap()) }

func C03_StringMap()              { yamlForm(kitStringMap()) }
func C03_AnyMap()                 { yamlForm(kitAnyMap()) }
func C03_UntypedMap()             { yamlForm(kitUntypedMap()) }
func C03_AnyExampleMap()          { yamlForm(kitAnyExampleMap()) }
func C03_AnnotationMap()          { yamlForm(kitAnnotationMap()) }
func C03_DataTypeMap()            { yamlForm(kitDataTypeMap()) }
func C03_PropertyMap()            { yamlForm(kitPropertyMap()) }
func C03_FacetMap()               { yamlForm(kitFacetMap()) }
func C03_ArrayExampleMap()        { yamlForm(kitArrayExampleMap()) }
func C03_BoolExampleMap()         { yamlForm(kitBoolExampleMap()) }
func C03_CustomExampleMap()       { yamlForm(kitCustomExampleMap()) }
func C03_DateOnlyExampleMap()     { yamlForm(kitDateOnlyExampleMap()) }
func C03_DatetimeExampleMap()     { yamlForm(kitDatetimeExampleMap()) }
func C03_DatetimeOnlyExampleMap() { yamlForm(kitDatetimeOnlyExampleMap()) }
func C03_FileExampleMap()         { yamlForm(kitFileExampleMap()) }
func C03_IntegerExampleMap()      { yamlForm(kitIntegerExampleMap()) }
func C03_NumberExampleMap()       { yamlForm(kitNumberExampleMap()) }
func C03_ObjectExampleMap()       { yamlForm(kitObjectExampleMap()) }
func C03_StringExampleMap()       { yamlForm(kitStringExampleMap()) }
func C03_TimeOnlyExampleMap()     { yamlForm(kitTimeOnlyExampleMap()) }
func C03_UnionExampleMap()        { yamlForm(kitUnionExampleMap()) }

func C04_StringMap()              { jsonForm(kitStringMap()) }
func C04_AnyMap()                 { jsonForm(kitAnyMap()) }
func C04_UntypedMap()             { jsonForm(kitUntypedMap()) }
func C04_AnyExampleMap()          { jsonForm(kitAnyExampleMap()) }
func C04_AnnotationMap()          { jsonForm(kitAnnotationMap()) }
func C04_DataTypeMap()            { jsonForm(kitDataTypeMap()) }
func C04_PropertyMap()            { jsonForm(kitPropertyMap()) }
func C04_FacetMap()               { jsonForm(kitFacetMap()) }
func C04_ArrayExampleMap()        { jsonForm(kitArrayExampleMap()) }
func C04_BoolExampleMap()         { jsonForm(kitBoolExampleMap()) }
func C04_CustomExampleMap()       { jsonForm(kitCustomExampleMap()) }
func C04_DateOnlyExampleMap()     { jsonForm(kitDateOnlyExampleMap()) }
func C04_DatetimeExampleMap()     { jsonForm(kitDatetimeExampleMap()) }
func C04_DatetimeOnlyExampleMap() { jsonForm(kitDatetimeOnlyExampleMap()) }
func C04_FileExampleMap()         { jsonForm(kitFileExampleMap()) }
func C04_IntegerExampleMap()      { jsonForm(kitIntegerExampleMap()) }
func C04_NumberExampleMap()       { jsonForm(kitNumberExampleMap()) }
func C04_ObjectExampleMap()       { jsonForm(kitObjectExampleMap()) }
func C04_StringExampleMap()       { jsonForm(kitStringExampleMap()) }
func C04_TimeOnlyExampleMap()     { jsonForm(kitTimeOnlyExampleMap()) }
func C04_UnionExampleMap()        { jsonForm(kitUnionExampleMap()) }

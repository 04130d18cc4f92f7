//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
)

// lookKind calls what is special to a kind of type.
func lookKind(t raml.DataType) {
	switch x := t.(type) {
	case raml.AnyType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, v interface{}) {
			e := v.(raml.AnyExample)
			lookExample(e)
			e.Value()
		})
		x.Enum()
	case raml.ArrayType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.ArrayExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		x.UniqueItems()
		x.MinItems()
		x.MaxItems()
		if x.Items() != nil {
			lookType(x.Items())
		}
	case raml.BoolType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.BoolExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
	case raml.CustomType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.CustomExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
	case raml.DateOnlyType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.DateOnlyExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
	case raml.DatetimeOnlyType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.DatetimeOnlyExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
	case raml.DatetimeType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.DatetimeExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		x.Format()
	case raml.FileType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.FileExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		x.FileTypes()
		x.MinLength()
		x.MaxLength()
	case raml.IntegerType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.IntegerExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		x.Minimum()
		x.Maximum()
		x.Format()
		x.MultipleOf()
	case raml.NumberType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.NumberExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		x.Minimum()
		x.Maximum()
		x.Format()
		x.MultipleOf()
	case raml.ObjectType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.ObjectExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		sym.Assert(x.Properties() != nil, "a usable model")
		x.Properties().ForEach(func(_ string, p raml.Property) { lookType(p) })
		x.MinProperties()
		x.MaxProperties()
		x.AdditionalProperties()
		x.Discriminator()
		x.DiscriminatorValue()
	case raml.StringType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.StringExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
		x.Pattern()
		x.MinLength()
		x.MaxLength()
	case raml.TimeOnlyType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.TimeOnlyExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
	case raml.UnionType:
		x.Default()
		if x.Example() != nil {
			lookExample(x.Example())
			x.Example().Value()
		}
		sym.Assert(x.Examples() != nil, "a usable model")
		x.Examples().ForEach(func(_ string, e raml.UnionExample) {
			lookExample(e)
			e.Value()
		})
		x.Enum()
	}
}

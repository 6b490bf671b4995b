package kit

import (
	"fmt"
	"image"
	"math"
	"reflect"
)

var imageType = reflect.TypeOf((*image.Image)(nil)).Elem()

// Diff compares what a caller can see of two values of the same type: exported
// fields, maps, slices; images by bounds, color model and pixels.  It returns a
// path to the first difference, or "".
func Diff(a, b interface{}) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), "")
}

func isNil(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface:
		return v.IsNil() || isNil(v.Elem())
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
		return v.IsNil()
	}
	return false
}

// SameImage compares two images by what they show.
func SameImage(a, b image.Image) string {
	na, nb := a == nil || isNil(reflect.ValueOf(a)), b == nil || isNil(reflect.ValueOf(b))
	if na || nb {
		if na != nb {
			return fmt.Sprintf("image present %v / %v", !na, !nb)
		}
		return ""
	}
	if a.Bounds() != b.Bounds() {
		return fmt.Sprintf("bounds %v / %v", a.Bounds(), b.Bounds())
	}
	ma, mb := a.ColorModel(), b.ColorModel()
	if reflect.TypeOf(ma) != reflect.TypeOf(mb) || (ma != nil && reflect.TypeOf(ma).Comparable() && ma != mb) {
		return "color models differ"
	}
	r := a.Bounds()
	n := 0
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if ca, cb := a.At(x, y), b.At(x, y); diff(reflect.ValueOf(ca), reflect.ValueOf(cb), "") != "" {
				return fmt.Sprintf("pixel (%d,%d) %v / %v", x, y, ca, cb)
			}
			if n++; n > 200000 {
				return ""
			}
		}
	}
	return ""
}

func diff(a, b reflect.Value, path string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": present in one only"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v / %v", path, a.Type(), b.Type())
	}
	if a.Type().Implements(imageType) && (a.Kind() == reflect.Interface || a.Kind() == reflect.Ptr) && a.CanInterface() {
		var ia, ib image.Image
		if !isNil(a) {
			ia = a.Interface().(image.Image)
		}
		if !isNil(b) {
			ib = b.Interface().(image.Image)
		}
		if d := SameImage(ia, ib); d != "" {
			return path + ": " + d
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if isNil(a) || isNil(b) {
			if isNil(a) != isNil(b) {
				return path + ": nil in one only"
			}
			return ""
		}
		return diff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath == "" {
				if d := diff(a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
					return d
				}
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d / %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d / %d keys", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if d := diff(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	case reflect.Float32, reflect.Float64:
		if x, y := a.Float(), b.Float(); x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q / %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v / %v", path, a.Bool(), b.Bool())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d / %d", path, a.Uint(), b.Uint())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d / %d", path, a.Int(), b.Int())
		}
	}
	return ""
}

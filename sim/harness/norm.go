package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// dumpOpt controls how a value is written down for comparison.
type dumpOpt struct {
	// skip: "Type.Field" (or ".Field" for any type) left out
	skip map[string]bool
	// order: slices are compared as bags
	bags bool
	// strict: nil and empty slices, maps and strings are different things
	strict bool
}

// Dump writes the complete content of v down as text, one leaf per line. Nil
// and empty slices and maps are the same; unexported fields are left out.
func Dump(v any, o dumpOpt) string {
	if v == nil {
		return "nil\n"
	}
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), "", o)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, path string, o dumpOpt) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString(path)
			b.WriteString(" = nil\n")
			return
		}
		dump(b, v.Elem(), path, o)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || o.skip["."+f.Name] || o.skip[t.Name()+"."+f.Name] {
				continue
			}
			dump(b, v.Field(i), path+"."+f.Name, o)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString(path + " = " + strconv.Quote(string(v.Bytes())) + "\n")
			return
		}
		if o.strict && v.Kind() == reflect.Slice && v.Len() == 0 {
			b.WriteString(path + map[bool]string{true: " = nil slice\n", false: " = empty slice\n"}[v.IsNil()])
			return
		}
		if o.bags {
			items := make([]string, v.Len())
			for i := range items {
				var ib strings.Builder
				dump(&ib, v.Index(i), "", o)
				items[i] = ib.String()
			}
			sort.Strings(items)
			for i, s := range items {
				p := path + "[" + strconv.Itoa(i) + "]"
				for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
					b.WriteString(p + l + "\n")
				}
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), path+"["+strconv.Itoa(i)+"]", o)
		}
	case reflect.Map:
		if o.strict && v.Len() == 0 {
			b.WriteString(path + map[bool]string{true: " = nil map\n", false: " = empty map\n"}[v.IsNil()])
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			dump(b, v.MapIndex(k), path+"{"+fmt.Sprintf("%q", fmt.Sprint(k))+"}", o)
		}
	case reflect.String:
		// empty strings are left out: absent and empty are the same
		if v.Len() == 0 && path != "" && !strings.HasSuffix(path, "]") {
			return
		}
		b.WriteString(path + " = " + strconv.Quote(v.String()) + "\n")
	case reflect.Bool:
		b.WriteString(path + " = " + strconv.FormatBool(v.Bool()) + "\n")
	case reflect.Int, reflect.Int64, reflect.Int32:
		b.WriteString(path + " = " + strconv.FormatInt(v.Int(), 10) + "\n")
	default:
		fmt.Fprintf(b, "%s = %v\n", path, v)
	}
}

// firstDiff describes where two dumps differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("expected %s, got %s", clip(x, 300), clip(y, 300))
		}
	}
	return "equal"
}

// diffField is the field at the first difference, without indexes: it names a
// violation class that survives minimisation.
func diffField(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "", ""
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			if x == "" || (y != "" && len(y) < len(x)) {
				x = y
			}
			if k := strings.Index(x, " = "); k >= 0 {
				x = x[:k]
			}
			var r strings.Builder
			depth := 0
			for _, c := range x {
				switch c {
				case '[', '{':
					depth++
				case ']', '}':
					depth--
				default:
					if depth == 0 {
						r.WriteRune(c)
					}
				}
			}
			return clip(r.String(), 80)
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
}

// deepCopy copies a document completely.
func deepCopy(v any) any { return deepCopyValue(reflect.ValueOf(v)).Interface() }

func deepCopyValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopyValue(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopyValue(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopyValue(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopyValue(v.MapIndex(k)))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopyValue(v.Elem()))
		return n
	}
	return v
}

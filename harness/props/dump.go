package props

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// dump is a full text form of values, following pointers. Nil and empty slices and maps are the same.
func dump(vs ...interface{}) string {
	var sb strings.Builder
	for i, v := range vs {
		if i != 0 {
			sb.WriteString(", ")
		}
		dumpValue(&sb, reflect.ValueOf(v), 0)
	}
	return sb.String()
}

func dumpValue(sb *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if depth > 20 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteByte('&')
			if !v.CanInterface() {
				// unexported
			} else if e, ok := v.Interface().(error); ok && v.Elem().Kind() == reflect.Struct {
				fmt.Fprintf(sb, "error(%q)", e.Error())
				return
			}
		}
		dumpValue(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString(v.Type().String())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i != 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteString(": ")
			dumpValue(sb, v.Field(i), depth+1)
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			sb.WriteString(strconv.Quote(string(b)))
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i != 0 {
				sb.WriteString(", ")
			}
			dumpValue(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		var arr []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpValue(&e, k, depth+1)
			e.WriteByte(':')
			dumpValue(&e, v.MapIndex(k), depth+1)
			arr = append(arr, e.String())
		}
		sort.Strings(arr)
		sb.WriteString("map[" + strings.Join(arr, ", ") + "]")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	default:
		fmt.Fprintf(sb, "<%v>", v.Type())
	}
}

package hx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
)

// Unmarshal is json.Unmarshal that takes case of keys into account, as
// JavaScript and other peers do. A field without a tag is for the key in lower case.
func Unmarshal(b []byte, v interface{}) error {
	if err := json.Unmarshal(b, v); err != nil {
		return err
	}
	return exactKeys(b, reflect.TypeOf(v))
}

func exactKeys(b []byte, t reflect.Type) error {
	b = bytes.TrimSpace(b)
	if len(b) == 0 {
		return nil
	}
	switch t.Kind() {
	case reflect.Ptr:
		return exactKeys(b, t.Elem())
	case reflect.Slice, reflect.Array:
		var l []json.RawMessage
		if b[0] != '[' || json.Unmarshal(b, &l) != nil {
			return nil
		}
		for _, x := range l {
			if err := exactKeys(x, t.Elem()); err != nil {
				return err
			}
		}
	case reflect.Map:
		var m map[string]json.RawMessage
		if b[0] != '{' || json.Unmarshal(b, &m) != nil {
			return nil
		}
		for _, x := range m {
			if err := exactKeys(x, t.Elem()); err != nil {
				return err
			}
		}
	case reflect.Struct:
		var m map[string]json.RawMessage
		if b[0] != '{' || json.Unmarshal(b, &m) != nil {
			return nil
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous {
				if err := exactKeys(b, f.Type); err != nil {
					return err
				}
				continue
			}
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if name == "-" {
				continue
			}
			if name == "" {
				name = strings.ToLower(f.Name)
			}
			x, ok := m[name]
			if !ok {
				for k := range m {
					if strings.EqualFold(k, name) {
						return fmt.Errorf("key %q instead of %q: %s", k, name, Short(b))
					}
				}
				continue
			}
			if err := exactKeys(x, f.Type); err != nil {
				return err
			}
		}
	}
	return nil
}

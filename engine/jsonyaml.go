package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v2"
)

// encoding/json and gopkg.in/yaml.v2 work by reflection.  They are replaced by
// models of what they do: the values are walked here, the methods by which
// types marshal themselves are executed, and leaves are left to the real
// packages.

type jsonDec struct {
	r      Value
	number bool
}
type jsonEnc struct {
	w    Value
	html bool
}

type encErr struct{ v Iface }

func (it *Interp) marshalMethod(fr *frame, t types.Type, v Value, name string) (Tuple, bool) {
	if p, ok := v.(*Value); ok && p == nil {
		return nil, false
	}
	m := it.methodByName(t, name)
	if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 2 {
		return nil, false
	}
	return it.callFn(fr, m, []Value{copyVal(v)}, nil).(Tuple), true
}

func byteStr(v Value) string {
	var b []byte
	s, _ := v.(Slice)
	for _, x := range s {
		t, ok := x.(*Term)
		if !ok || !t.isConst() {
			unsupported("symbolic bytes in an encoder")
		}
		b = append(b, byte(t.val))
	}
	return string(b)
}

func byteSlice(s string) Slice {
	r := make(Slice, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = BV(uint64(s[i]), 8)
	}
	return r
}

func jsonLeaf(v any, html bool) (string, *encErr, error) {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(html)
	if err := e.Encode(v); err != nil {
		return "", nil, err
	}
	return strings.TrimSuffix(b.String(), "\n"), nil, nil
}

// leafValue: bools, numbers and strings as host values.
func (it *Interp) leafValue(fr *frame, t types.Type, v Value) any {
	b := t.Underlying().(*types.Basic)
	if b.Info()&types.IsString != 0 {
		s, ok := isConcreteStr(v)
		if !ok {
			unsupported("symbolic string in an encoder")
		}
		return s
	}
	x, ok := it.toFmt(fr, Iface{b, v})
	if !ok {
		unsupported("symbolic value in an encoder")
	}
	return x
}

func tagOf(f *types.Var, tag, key string) (name string, omit, skip, inline bool) {
	parts := strings.Split(reflect.StructTag(tag).Get(key), ",")
	name = parts[0]
	for _, p := range parts[1:] {
		omit = omit || p == "omitempty"
		inline = inline || p == "inline"
	}
	return name, omit, name == "-" && len(parts) == 1, inline
}

func (it *Interp) jsonText(fr *frame, t types.Type, v Value, html bool) (string, *encErr) {
	if r, ok := it.marshalMethod(fr, t, v, "MarshalJSON"); ok {
		if e := r[1].(Iface); e.t != nil {
			return "", &encErr{e}
		}
		var b bytes.Buffer
		if err := json.Compact(&b, []byte(byteStr(r[0]))); err != nil {
			return "", &encErr{it.mkError(err.Error()).(Iface)}
		}
		if html {
			var h bytes.Buffer
			json.HTMLEscape(&h, b.Bytes())
			b = h
		}
		return b.String(), nil
	}
	if it.methodByName(t, "MarshalText") != nil {
		unsupported("MarshalText of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, _, err := jsonLeaf(it.leafValue(fr, t, v), html)
		if err != nil {
			return "", &encErr{it.mkError(err.Error()).(Iface)}
		}
		return s, nil
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return "null", nil
		}
		return it.jsonText(fr, i.t, i.v, html)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			unsupported("encoding of %s", t)
		}
		if p == nil {
			return "null", nil
		}
		return it.jsonText(fr, u.Elem(), *p, html)
	case *types.Slice:
		s, _ := v.(Slice)
		if s == nil {
			return "null", nil
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return `"` + base64.StdEncoding.EncodeToString([]byte(byteStr(s))) + `"`, nil
		}
		return it.jsonList(fr, u.Elem(), s, html)
	case *types.Array:
		return it.jsonList(fr, u.Elem(), v.(Array), html)
	case *types.Map:
		m, _ := v.(*Map)
		if m == nil {
			return "null", nil
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			unsupported("encoding of %s", t)
		}
		es := it.strEntries(fr, m)
		var out []string
		for _, e := range es {
			s, er := it.jsonText(fr, u.Elem(), e.v, html)
			if er != nil {
				return "", er
			}
			k, _, _ := jsonLeaf(e.k.(string), html)
			out = append(out, k+":"+s)
		}
		return "{" + strings.Join(out, ",") + "}", nil
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, omit, skip, _ := tagOf(f, u.Tag(i), "json")
			if !f.Exported() || skip {
				continue
			}
			if f.Embedded() && name == "" || omit {
				unsupported("encoding of field %s of %s", f.Name(), t)
			}
			if name == "" {
				name = f.Name()
			}
			s, er := it.jsonText(fr, f.Type(), v.(Struct)[i], html)
			if er != nil {
				return "", er
			}
			k, _, _ := jsonLeaf(name, html)
			out = append(out, k+":"+s)
		}
		return "{" + strings.Join(out, ",") + "}", nil
	}
	unsupported("encoding of %s", t)
	return "", nil
}

func (it *Interp) strEntries(fr *frame, m *Map) []*ment {
	var es []*ment
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		k, ok := isConcreteStr(e.k)
		if !ok {
			unsupported("symbolic key in an encoder")
		}
		es = append(es, &ment{k: k, v: e.v})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k.(string) < es[j].k.(string) })
	return es
}

func (it *Interp) jsonList(fr *frame, t types.Type, s []Value, html bool) (string, *encErr) {
	var out []string
	for _, x := range s {
		r, e := it.jsonText(fr, t, x, html)
		if e != nil {
			return "", e
		}
		out = append(out, r)
	}
	return "[" + strings.Join(out, ",") + "]", nil
}

func (it *Interp) yamlTree(fr *frame, t types.Type, v Value) (any, *encErr) {
	if r, ok := it.marshalMethod(fr, t, v, "MarshalYAML"); ok {
		if e := r[1].(Iface); e.t != nil {
			return nil, &encErr{e}
		}
		i := r[0].(Iface)
		if i.t == nil {
			return nil, nil
		}
		return it.yamlTree(fr, i.t, i.v)
	}
	if it.methodByName(t, "MarshalText") != nil {
		unsupported("MarshalText of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return it.leafValue(fr, t, v), nil
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return nil, nil
		}
		return it.yamlTree(fr, i.t, i.v)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			unsupported("encoding of %s", t)
		}
		if p == nil {
			return nil, nil
		}
		return it.yamlTree(fr, u.Elem(), *p)
	case *types.Slice, *types.Array:
		var el types.Type
		var s []Value
		switch u := u.(type) {
		case *types.Slice:
			el = u.Elem()
			s, _ = v.(Slice)
		case *types.Array:
			el, s = u.Elem(), v.(Array)
		}
		out := []any{}
		for _, x := range s {
			y, e := it.yamlTree(fr, el, x)
			if e != nil {
				return nil, e
			}
			out = append(out, y)
		}
		return out, nil
	case *types.Map:
		m, _ := v.(*Map)
		out := map[string]any{}
		if m == nil {
			return out, nil
		}
		for _, e := range it.strEntries(fr, m) {
			y, er := it.yamlTree(fr, u.Elem(), e.v)
			if er != nil {
				return nil, er
			}
			out[e.k.(string)] = y
		}
		return out, nil
	case *types.Struct:
		out := yaml.MapSlice{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, omit, skip, inline := tagOf(f, u.Tag(i), "yaml")
			if !f.Exported() && !f.Embedded() || skip {
				continue
			}
			if omit || inline {
				unsupported("encoding of field %s of %s", f.Name(), t)
			}
			if name == "" {
				name = strings.ToLower(f.Name())
			}
			y, er := it.yamlTree(fr, f.Type(), v.(Struct)[i])
			if er != nil {
				return nil, er
			}
			out = append(out, yaml.MapItem{Key: name, Value: y})
		}
		return out, nil
	}
	unsupported("encoding of %s", t)
	return nil, nil
}

func (it *Interp) writeTo(fr *frame, w Value, s string) Value {
	ifc := w.(Iface)
	m := it.methodByName(ifc.t, "Write")
	if m == nil {
		unsupported("Write method of %s", ifc.t)
	}
	return it.callFn(fr, m, []Value{ifc.v, byteSlice(s)}, nil).(Tuple)[1]
}

// readAll reads what is left of a reader.
func (it *Interp) readAll(fr *frame, r Value) (string, *encErr) {
	ifc := r.(Iface)
	m := it.methodByName(ifc.t, "Read")
	if m == nil {
		unsupported("Read method of %s", ifc.t)
	}
	var out string
	for n := 0; n < 1000; n++ {
		buf := byteSlice(strings.Repeat("\x00", 512))
		res := it.callFn(fr, m, []Value{ifc.v, buf}, nil).(Tuple)
		k, ok := res[0].(*Term)
		if !ok || !k.isConst() {
			unsupported("symbolic read in a decoder")
		}
		out += byteStr(buf[:k.val])
		if e := res[1].(Iface); e.t != nil {
			if msg, _ := it.toFmt(fr, e); msg == fmtStr("EOF") {
				return out, nil
			}
			return "", &encErr{e}
		}
	}
	unsupported("endless read in a decoder")
	return "", nil
}

// anyValue builds what a decoder makes of untyped text.
func (it *Interp) anyValue(fr *frame, fn *ssa.Function, x any) Value {
	empty := types.NewInterfaceType(nil, nil)
	switch x := x.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{types.Typ[types.Bool], BoolT(x)}
	case string:
		return Iface{types.Typ[types.String], x}
	case float64:
		return Iface{types.Typ[types.Float64], F64(x)}
	case json.Number:
		return Iface{fn.Pkg.Type("Number").Type(), string(x)}
	case []any:
		s := make(Slice, len(x))
		for i := range x {
			s[i] = it.anyValue(fr, fn, x[i])
		}
		return Iface{types.NewSlice(empty), s}
	case map[string]any:
		mt := types.NewMap(types.Typ[types.String], empty)
		m := &Map{idx: map[string]*ment{}, epoch: it.epoch, typ: mt}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			it.mapUpdate(fr, m, k, it.anyValue(fr, fn, x[k]), mt)
		}
		return Iface{mt, m}
	}
	unsupported("decoding into %T", x)
	return nil
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	top := func(it *Interp, fr *frame, a Value, html bool) (string, *encErr) {
		i := a.(Iface)
		if i.t == nil {
			return "null", nil
		}
		return it.jsonText(fr, i.t, i.v, html)
	}
	reg("encoding/json.Marshal", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, e := top(it, fr, a[0], true)
		if e != nil {
			return Tuple{Slice(nil), e.v}
		}
		return Tuple{byteSlice(s), Iface{}}
	})
	reg("encoding/json.MarshalIndent", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, e := top(it, fr, a[0], true)
		if e != nil {
			return Tuple{Slice(nil), e.v}
		}
		var b bytes.Buffer
		json.Indent(&b, []byte(s), constStrArg(it, fr, a[1]), constStrArg(it, fr, a[2]))
		return Tuple{byteSlice(b.String()), Iface{}}
	})
	host := func(v any) Value {
		p := new(Value)
		*p = NativeV{v}
		return p
	}
	reg("encoding/json.NewDecoder", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return host(&jsonDec{r: a[0]})
	})
	dec := func(v Value) *jsonDec { return (*v.(*Value)).(NativeV).v.(*jsonDec) }
	enc := func(v Value) *jsonEnc { return (*v.(*Value)).(NativeV).v.(*jsonEnc) }
	reg("(*encoding/json.Decoder).UseNumber", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		dec(a[0]).number = true
		return nil
	})
	decode := func(it *Interp, fr *frame, fn *ssa.Function, text string, number, rest bool, into Iface) Value {
		d := json.NewDecoder(strings.NewReader(text))
		if number {
			d.UseNumber()
		}
		pt, ok := into.t.Underlying().(*types.Pointer)
		if !ok {
			unsupported("decoding into %s", into.t)
		}
		if i, ok := pt.Elem().Underlying().(*types.Interface); !ok || i.NumMethods() > 0 {
			unsupported("decoding into %s", into.t)
		}
		var x any
		if err := d.Decode(&x); err != nil {
			return it.mkError(err.Error())
		}
		if rest && d.More() {
			return it.mkError("invalid character after top-level value")
		}
		it.storeInto(into.v.(*Value), it.anyValue(fr, fn, x))
		return Iface{}
	}
	reg("(*encoding/json.Decoder).Decode", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		d := dec(a[0])
		s, e := it.readAll(fr, d.r)
		if e != nil {
			return e.v
		}
		return decode(it, fr, fn, s, d.number, false, a[1].(Iface))
	})
	reg("encoding/json.Unmarshal", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return decode(it, fr, fn, byteStr(a[0]), false, true, a[1].(Iface))
	})
	reg("encoding/json.NewEncoder", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return host(&jsonEnc{w: a[0], html: true})
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t, ok := a[1].(*Term)
		if !ok || !t.isConst() {
			unsupported("symbolic encoder option")
		}
		enc(a[0]).html = t.val != 0
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		e := enc(a[0])
		s, er := top(it, fr, a[1], e.html)
		if er != nil {
			return er.v
		}
		return it.writeTo(fr, e.w, s+"\n")
	})
	reg("gopkg.in/yaml.v2.Marshal", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		var x any
		if i.t != nil {
			var e *encErr
			if x, e = it.yamlTree(fr, i.t, i.v); e != nil {
				return Tuple{Slice(nil), e.v}
			}
		}
		b, err := yaml.Marshal(x)
		if err != nil {
			return Tuple{Slice(nil), it.mkError(err.Error())}
		}
		return Tuple{byteSlice(string(b)), Iface{}}
	})
}

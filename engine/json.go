package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// JSON texts of harnesses are tokens standing for objects whose values may be symbolic.

type jsonObj struct{ names, vals []Value }

func (p *Path) jsonUnmarshal(data []Value, dst iface) Value {
	txt := p.concBytes(data)
	var n int
	if _, e := fmt.Sscanf(txt, "{\"#\":%d}", &n); e != nil {
		switch strings.TrimSpace(txt) {
		case "{}", "null":
			return p.nilErr()
		case "", "{", "[]", "7":
			return p.mkErr("invalid JSON")
		}
		p.unsupported("json text %q", txt)
	}
	c, ok := dst.v.(*Value)
	if !ok || c == nil {
		p.unsupported("json target")
	}
	if msg := p.jsonObject(p.jsons[n], c, dst.t.Underlying().(*types.Pointer).Elem()); msg != "" {
		return p.mkErr(msg)
	}
	return p.nilErr()
}

func (p *Path) jsonObject(o jsonObj, c *Value, t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		p.unsupported("json object into %s", t)
	}
	s := (*c).(structure)
	for i := range o.names {
		name := p.str(o.names[i])
		f := -1
		for j := 0; j < st.NumFields(); j++ {
			tag := strings.Split(reflect.StructTag(st.Tag(j)).Get("json"), ",")[0]
			if tag == "" {
				tag = st.Field(j).Name()
			}
			if st.Field(j).Exported() && strings.EqualFold(tag, name) {
				f = j
			}
		}
		if f < 0 {
			continue // unknown names are ignored
		}
		if msg := p.jsonValue(o.vals[i].(iface), &s[f], st.Field(f).Type()); msg != "" {
			return msg
		}
	}
	return ""
}

func (p *Path) jsonValue(v iface, c *Value, t types.Type) string {
	if v.t == nil {
		p.unsupported("json null")
	}
	if types.Identical(v.t, t) {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Basic:
			p.store(c, p.clone(v.v, t)) // new value, old pointees stay
			return ""
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q := (*c).(*Value)
		if q == nil {
			nv := p.zero(u.Elem())
			q = &nv
			*c = q
		}
		return p.jsonValue(v, q, u.Elem())
	case *types.Slice:
		src, ok := v.v.([]Value)
		if !ok {
			return "json: cannot unmarshal into slice"
		}
		old := (*c).([]Value)
		out := old[:0:cap(old)]
		if old == nil {
			out = []Value{}
		}
		for i := range src {
			if i < cap(out) { // elements of the old array are decoded into
				out = out[:i+1]
				if out[i] == nil {
					out[i] = p.zero(u.Elem())
				}
			} else {
				out = append(out, p.zero(u.Elem()))
			}
			if msg := p.jsonValue(src[i].(iface), &out[i], u.Elem()); msg != "" {
				return msg
			}
		}
		*c = out
		return ""
	case *types.Struct:
		if n, ok := v.t.(*types.Named); ok && n.Obj().Name() == "Obj" && n.Obj().Pkg().Path() == vsPkg {
			s := v.v.(structure)
			return p.jsonObject(jsonObj{s[0].([]Value), s[1].([]Value)}, c, t)
		}
		return "json: cannot unmarshal into struct"
	case *types.Basic:
		if b, ok := v.t.Underlying().(*types.Basic); ok && b.Kind() == u.Kind() {
			*c = v.v
			return ""
		}
		p.unsupported("json %s into %s", v.t, t)
	}
	p.unsupported("json into %s", t)
	return ""
}

// concBytes is the text of bytes which must be concrete.
func (p *Path) concBytes(data []Value) string {
	var sb strings.Builder
	for _, x := range data {
		t, ok := x.(*I)
		if !ok {
			p.unsupported("json of %T", x)
		}
		k, ok := t.Const()
		if !ok {
			p.unsupported("json of symbolic bytes")
		}
		sb.WriteByte(byte(k.Int64()))
	}
	return sb.String()
}

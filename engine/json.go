package main

// encoding/json modelled structurally: documents with symbolic leaves travel
// as a single opaque byte carrying the document tree.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type jfield struct {
	name string
	nsym *Str // symbolic key (maps only)
	v    *jdoc
}

type jdoc struct {
	kind   byte // o a s n b z
	fields []jfield
	elems  []*jdoc
	str    *Str
	num    *Term // integer number (w/ signedness)
	signed bool
	lit    string // literal number text
	b      *Term
}

func (x *X) jConc(d *jdoc) bool {
	switch d.kind {
	case 'o':
		for _, f := range d.fields {
			if f.nsym != nil || !x.jConc(f.v) {
				return false
			}
		}
	case 'a':
		for _, e := range d.elems {
			if !x.jConc(e) {
				return false
			}
		}
	case 's':
		d.str = x.fix(d.str)
		return !d.str.sym
	case 'n':
		return d.num == nil || d.num.isConst()
	case 'b':
		return d.b.isConst()
	}
	return true
}

func jStr(sb *strings.Builder, s string, esc bool) {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(esc)
	_ = e.Encode(s)
	sb.WriteString(strings.TrimSuffix(b.String(), "\n"))
}

func jText(sb *strings.Builder, d *jdoc, esc bool) {
	switch d.kind {
	case 'o':
		sb.WriteByte('{')
		for i, f := range d.fields {
			if i > 0 {
				sb.WriteByte(',')
			}
			jStr(sb, f.name, esc)
			sb.WriteByte(':')
			jText(sb, f.v, esc)
		}
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		for i, e := range d.elems {
			if i > 0 {
				sb.WriteByte(',')
			}
			jText(sb, e, esc)
		}
		sb.WriteByte(']')
	case 's':
		jStr(sb, d.str.c, esc)
	case 'n':
		if d.num != nil {
			if d.signed {
				sb.WriteString(strconv.FormatInt(sext(d.num.k, d.num.w), 10))
			} else {
				sb.WriteString(strconv.FormatUint(d.num.k, 10))
			}
		} else {
			sb.WriteString(d.lit)
		}
	case 'b':
		sb.WriteString(strconv.FormatBool(d.b.k != 0))
	case 'z':
		sb.WriteString("null")
	}
}

func (x *X) jBytes(d *jdoc, esc bool) []*Term {
	if x.jConc(d) {
		var sb strings.Builder
		jText(&sb, d, esc)
		return x.constBytes([]byte(sb.String()))
	}
	return []*Term{x.T.JSON(d)}
}

type jsonErr struct{ msg string }

// jParse turns bytes into a document; the error is nil on success.
func (x *X) jParse(b []*Term) (*jdoc, error) {
	for len(b) > 0 && isWS(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	for len(b) > 0 && isWS(b[0]) {
		b = b[1:]
	}
	if len(b) == 1 && b[0].op == OJSON {
		return b[0].json, nil
	}
	for _, t := range b {
		if t.op == OJSON {
			return nil, fmt.Errorf("invalid character after top-level value")
		}
	}
	raw := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			raw[i] = byte(x.concretize(t, "JSON text byte"))
		} else {
			raw[i] = byte(t.k)
		}
	}
	if !json.Valid(raw) {
		var v interface{}
		err := json.Unmarshal(raw, &v)
		if err == nil {
			err = fmt.Errorf("invalid JSON")
		}
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	return x.jTok(dec)
}

func isWS(t *Term) bool {
	return t.isConst() && (t.k == ' ' || t.k == '\n' || t.k == '\t' || t.k == '\r')
}

func (x *X) jTok(dec *json.Decoder) (*jdoc, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		if t == '{' {
			d := &jdoc{kind: 'o'}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				v, err := x.jTok(dec)
				if err != nil {
					return nil, err
				}
				d.fields = append(d.fields, jfield{name: k.(string), v: v})
			}
			_, err := dec.Token()
			return d, err
		}
		d := &jdoc{kind: 'a'}
		for dec.More() {
			v, err := x.jTok(dec)
			if err != nil {
				return nil, err
			}
			d.elems = append(d.elems, v)
		}
		_, err := dec.Token()
		return d, err
	case string:
		return &jdoc{kind: 's', str: mkStr(t)}, nil
	case json.Number:
		return &jdoc{kind: 'n', lit: t.String()}, nil
	case bool:
		return &jdoc{kind: 'b', b: x.T.Bool(t)}, nil
	case nil:
		return &jdoc{kind: 'z'}, nil
	}
	return nil, io.ErrUnexpectedEOF
}

type jtag struct {
	name      string
	omitempty bool
	omitzero  bool
	asString  bool
	skip      bool
}

func parseTag(f *types.Var, tag string) jtag {
	if !f.Exported() && !f.Embedded() {
		return jtag{skip: true}
	}
	tv := reflect.StructTag(tag).Get("json")
	if tv == "-" {
		return jtag{skip: true}
	}
	parts := strings.Split(tv, ",")
	r := jtag{name: parts[0]}
	if r.name == "" {
		r.name = f.Name()
	}
	for _, o := range parts[1:] {
		switch o {
		case "omitempty":
			r.omitempty = true
		case "omitzero":
			r.omitzero = true
		case "string":
			r.asString = true
		}
	}
	return r
}

func (x *X) jEmpty(v value) bool {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return !x.branch(v)
		}
		return x.branch(x.T.Eq(v, x.T.Const(0, v.w)))
	case *Str:
		return x.branch(x.T.Eq(x.strLenTerm(v), x.T.Int(0)))
	case []value:
		return len(v) == 0
	case *mapv:
		return v == nil || v.live == 0
	case *value:
		return v == nil
	case iface:
		return v.t == nil
	case float64:
		return v == 0
	case array:
		return len(v) == 0
	}
	return false
}

type jEncErr struct{ err value }

// jEncode builds the document for v of type t (addr: addressable location).
func (x *X) jEncode(t types.Type, v value, addr *value) *jdoc {
	if _, ok := t.Underlying().(*types.Interface); ok {
		i := v.(iface)
		if i.t == nil {
			return &jdoc{kind: 'z'}
		}
		return x.jEncode(i.t, i.v, nil)
	}
	if m := x.methodByName(t, "MarshalJSON"); m != nil {
		if p, ok := v.(*value); ok && p == nil {
			return &jdoc{kind: 'z'}
		}
		return x.jFromMarshaler(x.callFn(x.cur, m, []value{v}, nil))
	}
	if addr != nil {
		if m := x.methodByName(types.NewPointer(t), "MarshalJSON"); m != nil {
			return x.jFromMarshaler(x.callFn(x.cur, m, []value{addr}, nil))
		}
	}
	if m := x.methodByName(t, "MarshalText"); m != nil {
		if p, ok := v.(*value); ok && p == nil {
			return &jdoc{kind: 'z'}
		}
		r := x.callFn(x.cur, m, []value{v}, nil).(tuple)
		if e := r[1].(iface); e.t != nil {
			panic(jEncErr{e})
		}
		return &jdoc{kind: 's', str: x.symStr(x.bytesOf(r[0]))}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := x.ptr(v)
		if p == nil {
			return &jdoc{kind: 'z'}
		}
		return x.jEncode(u.Elem(), *p, p)
	case *types.Basic:
		switch vv := v.(type) {
		case *Str:
			return &jdoc{kind: 's', str: vv}
		case *Term:
			if vv.w == 0 {
				return &jdoc{kind: 'b', b: vv}
			}
			_, signed, _ := widthOf(u)
			return &jdoc{kind: 'n', num: vv, signed: signed}
		case float64:
			b, err := json.Marshal(vv)
			if err != nil {
				panic(jEncErr{x.mkError(mkStr(err.Error()))})
			}
			return &jdoc{kind: 'n', lit: string(b)}
		}
	case *types.Slice:
		sl := v.([]value)
		if sl == nil {
			return &jdoc{kind: 'z'}
		}
		if w, _, ok := widthOf(u.Elem()); ok && w == 8 {
			b, ok := concBytes(x.bytesOf(sl))
			if !ok {
				panic(unsupported{"JSON of symbolic []byte"})
			}
			return &jdoc{kind: 's', str: mkStr(base64.StdEncoding.EncodeToString(b))}
		}
		d := &jdoc{kind: 'a'}
		for i := range sl {
			d.elems = append(d.elems, x.jEncode(u.Elem(), sl[i], &sl[i]))
		}
		return d
	case *types.Array:
		d := &jdoc{kind: 'a'}
		a := v.(array)
		for i := range a {
			d.elems = append(d.elems, x.jEncode(u.Elem(), a[i], nil))
		}
		return d
	case *types.Map:
		m, _ := v.(*mapv)
		if m == nil {
			return &jdoc{kind: 'z'}
		}
		d := &jdoc{kind: 'o'}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			ks, ok := e.key.(*Str)
			if !ok {
				panic(unsupported{"JSON map key"})
			}
			ks = x.fix(ks)
			f := jfield{v: x.jEncode(u.Elem(), e.val, nil)}
			if ks.sym {
				f.nsym = ks
			} else {
				f.name = ks.c
			}
			d.fields = append(d.fields, f)
		}
		sort.SliceStable(d.fields, func(i, j int) bool { return d.fields[i].name < d.fields[j].name })
		return d
	case *types.Struct:
		d := &jdoc{kind: 'o'}
		x.jStruct(d, u, v.(structure), addr != nil)
		return d
	}
	panic(jEncErr{x.mkError(mkStr("json: unsupported type: " + t.String()))})
}

func (x *X) jStruct(d *jdoc, u *types.Struct, s structure, addressable bool) {
	for i := range s {
		f := u.Field(i)
		tg := parseTag(f, u.Tag(i))
		if tg.skip {
			continue
		}
		if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
			ft, fv := f.Type(), s[i]
			if p, ok := under(ft).(*types.Pointer); ok {
				pv := x.ptr(fv)
				if pv == nil {
					continue
				}
				ft, fv = p.Elem(), *pv
			}
			if st, ok := under(ft).(*types.Struct); ok {
				x.jStruct(d, st, fv.(structure), addressable)
				continue
			}
			if !f.Exported() {
				continue
			}
		}
		if tg.omitempty && x.jEmpty(s[i]) {
			continue
		}
		if tg.omitzero && x.jEmpty(s[i]) {
			continue
		}
		var ad *value
		if addressable {
			ad = &s[i]
		}
		v := x.jEncode(f.Type(), s[i], ad)
		if tg.asString && (v.kind == 'n' || v.kind == 'b') {
			panic(unsupported{"json ,string option"})
		}
		d.fields = append(d.fields, jfield{name: tg.name, v: v})
	}
}

func (x *X) jFromMarshaler(r value) *jdoc {
	t := r.(tuple)
	if e := t[1].(iface); e.t != nil {
		panic(jEncErr{e})
	}
	d, err := x.jParse(x.bytesOf(t[0]))
	if err != nil {
		panic(jEncErr{x.mkError(mkStr("json: error calling MarshalJSON: " + err.Error()))})
	}
	return d
}

func (x *X) jMarshal(v iface) (d *jdoc, e value) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jEncErr); ok {
				d, e = nil, je.err
				return
			}
			panic(r)
		}
	}()
	if v.t == nil {
		return &jdoc{kind: 'z'}, iface{}
	}
	return x.jEncode(v.t, v.v, nil), iface{}
}

type jDecState struct{ first string }

func (st *jDecState) fail(s string) {
	if st.first == "" {
		st.first = s
	}
}

// jDecode stores d into the location p of type t. A non-nil iface error is
// returned for errors that abort decoding (from UnmarshalJSON).
func (x *X) jDecode(d *jdoc, t types.Type, p *value, st *jDecState) value {
	if m := x.methodByName(types.NewPointer(t), "UnmarshalJSON"); m != nil {
		if _, isPtr := under(t).(*types.Pointer); !(d.kind == 'z' && isPtr) {
			e := x.callFn(x.cur, m, []value{p, x.mkBytes(x.jBytes(d, true))}, nil).(iface)
			if e.t != nil {
				return e
			}
			return nil
		}
	}
	if d.kind == 'z' {
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			x.store(p, x.zero(t))
		}
		return nil
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		pp, _ := (*p).(*value)
		if pp == nil {
			pp = new(value)
			*pp = x.zero(u.Elem())
			x.store(p, pp)
		}
		return x.jDecode(d, u.Elem(), pp, st)
	case *types.Basic:
		switch {
		case u.Kind() == types.String:
			if d.kind != 's' {
				st.fail("json: cannot unmarshal into Go value of type string")
				return nil
			}
			x.store(p, d.str)
			return nil
		case u.Kind() == types.Bool:
			if d.kind != 'b' {
				st.fail("json: cannot unmarshal into Go value of type bool")
				return nil
			}
			x.store(p, d.b)
			return nil
		case u.Info()&types.IsInteger != 0:
			if d.kind != 'n' {
				st.fail("json: cannot unmarshal into Go value of type " + t.String())
				return nil
			}
			w, signed, _ := widthOf(u)
			if d.num != nil {
				if d.num.w <= w {
					if d.signed {
						x.store(p, x.T.SExt(d.num, w))
					} else {
						x.store(p, x.T.ZExt(d.num, w))
					}
					return nil
				}
				panic(unsupported{"JSON integer narrowing"})
			}
			if signed {
				v, err := strconv.ParseInt(d.lit, 10, int(w))
				if err != nil {
					st.fail("json: cannot unmarshal number " + d.lit)
					return nil
				}
				x.store(p, x.T.Const(uint64(v), w))
				return nil
			}
			v, err := strconv.ParseUint(d.lit, 10, int(w))
			if err != nil {
				st.fail("json: cannot unmarshal number " + d.lit)
				return nil
			}
			x.store(p, x.T.Const(v, w))
			return nil
		case u.Info()&types.IsFloat != 0:
			if d.kind != 'n' {
				st.fail("json: cannot unmarshal into float")
				return nil
			}
			x.store(p, x.jFloat(d))
			return nil
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			x.store(p, x.jAny(d))
			return nil
		}
		st.fail("json: cannot unmarshal into interface")
		return nil
	case *types.Slice:
		if d.kind != 'a' {
			if w, _, ok := widthOf(u.Elem()); ok && w == 8 && d.kind == 's' {
				panic(unsupported{"JSON base64 decode"})
			}
			st.fail("json: cannot unmarshal into slice")
			return nil
		}
		sl := make([]value, len(d.elems))
		for i := range sl {
			sl[i] = x.zero(u.Elem())
			if e := x.jDecode(d.elems[i], u.Elem(), &sl[i], st); e != nil {
				return e
			}
		}
		x.store(p, sl)
		return nil
	case *types.Map:
		if d.kind != 'o' {
			st.fail("json: cannot unmarshal into map")
			return nil
		}
		m, _ := (*p).(*mapv)
		if m == nil {
			m = newMap(u.Key())
			x.store(p, m)
		}
		for _, f := range d.fields {
			ev := new(value)
			*ev = x.zero(u.Elem())
			if e := x.jDecode(f.v, u.Elem(), ev, st); e != nil {
				return e
			}
			if f.nsym != nil {
				x.mapSet(m, f.nsym, *ev)
			} else {
				x.mapSet(m, mkStr(f.name), *ev)
			}
		}
		return nil
	case *types.Struct:
		if d.kind != 'o' {
			st.fail("json: cannot unmarshal into Go value of type " + t.String())
			return nil
		}
		for _, f := range d.fields {
			if f.nsym != nil {
				panic(unsupported{"symbolic JSON key into struct"})
			}
			fp, ft := x.jField(u, (*p).(structure), f.name)
			if fp == nil {
				continue
			}
			if e := x.jDecode(f.v, ft, fp, st); e != nil {
				return e
			}
		}
		return nil
	}
	panic(unsupported{"JSON decode into " + t.String()})
}

func (x *X) jField(u *types.Struct, s structure, name string) (*value, types.Type) {
	for pass := 0; pass < 2; pass++ {
		for i := range s {
			f := u.Field(i)
			tg := parseTag(f, u.Tag(i))
			if tg.skip {
				continue
			}
			if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				if st, ok := under(f.Type()).(*types.Struct); ok {
					if p, t := x.jField(st, s[i].(structure), name); p != nil {
						return p, t
					}
				}
				continue
			}
			if tg.name == name || (pass == 1 && strings.EqualFold(tg.name, name)) {
				return &s[i], f.Type()
			}
		}
	}
	return nil, nil
}

func (x *X) jFloat(d *jdoc) value {
	if d.num != nil {
		if !d.num.isConst() {
			return x.symFloat(d.num, d.signed)
		}
		if d.signed {
			return float64(sext(d.num.k, d.num.w))
		}
		return float64(d.num.k)
	}
	f, _ := strconv.ParseFloat(d.lit, 64)
	return f
}

func (x *X) jAny(d *jdoc) iface {
	strT := types.Typ[types.String]
	anyT := types.NewInterfaceType(nil, nil)
	switch d.kind {
	case 's':
		return iface{t: strT, v: d.str}
	case 'n':
		return iface{t: types.Typ[types.Float64], v: x.jFloat(d)}
	case 'b':
		return iface{t: types.Typ[types.Bool], v: d.b}
	case 'a':
		r := make([]value, len(d.elems))
		for i := range r {
			r[i] = x.jAny(d.elems[i])
		}
		return iface{t: types.NewSlice(anyT), v: r}
	case 'o':
		m := newMap(strT)
		for _, f := range d.fields {
			if f.nsym != nil {
				x.mapSet(m, f.nsym, x.jAny(f.v))
			} else {
				x.mapSet(m, mkStr(f.name), x.jAny(f.v))
			}
		}
		return iface{t: types.NewMap(strT, anyT), v: m}
	}
	return iface{}
}

func (x *X) jUnmarshal(b []*Term, tgt iface) value {
	pt, ok := tgt.t, false
	var el types.Type
	if pt != nil {
		if p, isP := under(pt).(*types.Pointer); isP {
			el, ok = p.Elem(), true
		}
	}
	if !ok || isNilVal(tgt.v) {
		return x.mkError(mkStr("json: Unmarshal(non-pointer)"))
	}
	d, err := x.jParse(b)
	if err != nil {
		return x.mkError(mkStr(err.Error()))
	}
	st := &jDecState{}
	if e := x.jDecode(d, el, x.ptr(tgt.v), st); e != nil {
		return e
	}
	if st.first != "" {
		return x.mkError(mkStr(st.first))
	}
	return iface{}
}

func fieldByName(t types.Type, s structure, name string) *value {
	st := under(t).(*types.Struct)
	for i := range s {
		if st.Field(i).Name() == name {
			return &s[i]
		}
	}
	return nil
}

func initJSON(I map[string]intrinsic) {
	marshal := func(x *X, c *frame, a []value) value {
		d, e := x.jMarshal(a[0].(iface))
		if e.(iface).t != nil {
			return tuple{[]value(nil), e}
		}
		return tuple{x.mkBytes(x.jBytes(d, true)), iface{}}
	}
	I["encoding/json.Marshal"] = marshal
	I["encoding/json.MarshalIndent"] = marshal
	I["encoding/json.Unmarshal"] = func(x *X, c *frame, a []value) value {
		return x.jUnmarshal(x.bytesOf(a[0]), a[1].(iface))
	}
	I["encoding/json.Valid"] = func(x *X, c *frame, a []value) value {
		_, err := x.jParse(x.bytesOf(a[0]))
		return x.T.Bool(err == nil)
	}
	I["encoding/json.NewEncoder"] = func(x *X, c *frame, a []value) value {
		t := x.P.ext["encoding/json"].Type("Encoder").Type()
		p := new(value)
		*p = x.zero(t)
		s := (*p).(structure)
		if f := fieldByName(t, s, "w"); f != nil {
			*f = a[0]
		}
		x.encs[p] = &jenc{w: a[0], esc: true}
		return p
	}
	I["(*encoding/json.Encoder).SetEscapeHTML"] = func(x *X, c *frame, a []value) value {
		if e := x.encs[x.ptr(a[0])]; e != nil {
			e.esc = a[1].(*Term).isTrue()
		}
		return nil
	}
	I["(*encoding/json.Encoder).SetIndent"] = nop()
	I["(*encoding/json.Encoder).Encode"] = func(x *X, c *frame, a []value) value {
		en := x.encs[x.ptr(a[0])]
		if en == nil {
			panic(unsupported{"json.Encoder of unknown origin"})
		}
		d, e := x.jMarshal(a[1].(iface))
		if e.(iface).t != nil {
			return e
		}
		b := append(append([]*Term{}, x.jBytes(d, en.esc)...), x.T.small8['\n'])
		r := x.writeTo(en.w, &Str{sym: true, b: b})
		return r.(tuple)[1]
	}
	I["encoding/json.NewDecoder"] = func(x *X, c *frame, a []value) value {
		t := x.P.ext["encoding/json"].Type("Decoder").Type()
		p := new(value)
		*p = x.zero(t)
		x.encs[p] = &jenc{w: a[0]}
		return p
	}
	I["(*encoding/json.Decoder).UseNumber"] = nop()
	I["(*encoding/json.Decoder).DisallowUnknownFields"] = func(x *X, c *frame, a []value) value {
		panic(unsupported{"DisallowUnknownFields"})
	}
	I["(*encoding/json.Decoder).Decode"] = func(x *X, c *frame, a []value) value {
		en := x.encs[x.ptr(a[0])]
		if en == nil {
			panic(unsupported{"json.Decoder of unknown origin"})
		}
		if en.used {
			panic(unsupported{"second json.Decoder.Decode"})
		}
		en.used = true
		r := x.callFn(c, x.P.fn("io", "ReadAll"), []value{en.w}, nil).(tuple)
		if e := r[1].(iface); e.t != nil {
			return e
		}
		b := x.bytesOf(r[0])
		for len(b) > 0 && isWS(b[0]) {
			b = b[1:]
		}
		if len(b) == 0 {
			return x.load(x.global(x.P.ext["io"].Var("EOF")))
		}
		if b[0].op != OJSON {
			// first value only
			raw, ok := concBytes(b)
			if ok {
				dec := json.NewDecoder(bytes.NewReader(raw))
				var rm json.RawMessage
				if err := dec.Decode(&rm); err != nil {
					return x.mkError(mkStr(err.Error()))
				}
				b = x.constBytes(rm)
			}
		} else {
			b = b[:1]
		}
		return x.jUnmarshal(b, a[1].(iface))
	}
}

type jenc struct {
	w    value
	esc  bool
	used bool
}

package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"html"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
)

// elem is an element that was generated; its text is what is decoded.
type elem struct {
	name  string
	space string // prefix
	attrs [][2]string
	kids  []interface{} // *elem, or text and comments as strings
}

func (e *elem) write(b *strings.Builder) {
	b.WriteString("<" + e.space + e.name)
	for _, a := range e.attrs {
		b.WriteString(" " + a[0] + "=\"" + a[1] + "\"")
	}
	b.WriteString(">")
	for _, k := range e.kids {
		switch k := k.(type) {
		case *elem:
			k.write(b)
		case string:
			b.WriteString(k)
		}
	}
	b.WriteString("</" + e.space + e.name + ">")
}

func (e *elem) String() string {
	var b strings.Builder
	e.write(&b)
	return b.String()
}

// shape says where the parts of an element belong.
type shape struct {
	mk              func() xml.Unmarshaler
	attrs           map[string]string // attribute: field
	coll, into      map[string]string // element: collection, or field it is decoded into
	one, many       map[string]string // factory: field
	nonEmpty, yesNo string            // attributes that are ignored if empty, or must be yes or no
}

var ext = map[string]string{"Extension": "Extensions"}

func with(m map[string]string, kv ...string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i]] = kv[i+1]
	}
	return r
}

var shapes = map[string]shape{
	"Alternate": {mk: func() xml.Unmarshaler { return new(models.Alternate) }, one: with(nil, "GetContinuousDistributionType", "Distribution")},
	"Apply": {mk: func() xml.Unmarshaler { return &models.Apply{InvalidValueTreatment: "returnInvalid"} }, coll: ext, many: with(nil, "GetExpression", "Expressions"),
		attrs: with(nil, "defaultValue", "DefaultValue", "function", "Function", "invalidValueTreatment", "InvalidValueTreatment", "mapMissingTo", "MapMissingTo"), nonEmpty: "invalidValueTreatment"},
	"ChildParent": {mk: func() xml.Unmarshaler { return new(models.ChildParent) }, coll: with(ext, "FieldColumnPair", "FieldColumnPairs"), one: with(nil, "GetTable", "Table"),
		attrs: with(nil, "childField", "ChildField", "isRecursive", "IsRecursive", "parentField", "ParentField", "parentLevelField", "ParentLevelField"), yesNo: "isRecursive"},
	"CompoundPredicate": {mk: func() xml.Unmarshaler { return new(models.CompoundPredicate) }, coll: ext, many: with(nil, "GetPredicate", "Predicates"), attrs: with(nil, "booleanOperator", "BooleanOperator")},
	"DefineFunction": {mk: func() xml.Unmarshaler { return new(models.DefineFunction) }, coll: with(ext, "ParameterField", "ParameterFields"), one: with(nil, "GetExpression", "Expression"),
		attrs: with(nil, "dataType", "DataType", "name", "Name", "optype", "OpType")},
	"DerivedField": {mk: func() xml.Unmarshaler { return new(models.DerivedField) }, coll: with(ext, "Value", "Values"), one: with(nil, "GetExpression", "Expression"),
		attrs: with(nil, "dataType", "DataType", "displayName", "DisplayName", "name", "Name", "optype", "OpType")},
	"InlineTable": {mk: func() xml.Unmarshaler { return new(models.InlineTable) }, coll: with(ext, "row", "Rows")},
	"Node": {mk: func() xml.Unmarshaler { return new(models.Node) }, coll: with(ext, "Node", "Nodes", "ScoreDistribution", "ScoreDistributions"), into: with(nil, "Partition", "Partition"),
		one:   with(nil, "GetEmbeddedModel", "EmbeddedModel", "GetPredicate", "Predicate"),
		attrs: with(nil, "defaultChild", "DefaultChild", "id", "ID", "recordCount", "RecordCount", "score", "Score"), nonEmpty: "recordCount"},
	"PMML": {mk: func() xml.Unmarshaler { return new(models.PMML) }, coll: ext, into: with(nil, "DataDictionary", "DataDictionary", "TransformationDictionary", "TransformationDictionary", "Header", "Header", "MiningBuildTask", "MiningBuildTask"),
		many: with(nil, "GetModelElement", "Models"), attrs: with(nil, "version", "Version")},
	"Segment": {mk: func() xml.Unmarshaler { return new(models.Segment) }, coll: ext, many: with(nil, "GetPredicate", "Predicates", "GetModelElement", "Models"), attrs: with(nil, "id", "Id")},
	"row":     {mk: func() xml.Unmarshaler { return models.Row{} }},
}

var shapeNames = []string{"Alternate", "Apply", "ChildParent", "CompoundPredicate", "DefineFunction", "DerivedField", "InlineTable", "Node", "PMML", "Segment", "row"}

func (g *gen) value(attr string) string {
	switch attr {
	case "recordCount", "probability", "confidence":
		if g.chance(0.1) {
			return g.one("x", "", " 1", "1 ", "1e400", "0x10", "1_0", "1,5", "NaN", "-Inf", "0x1p3", "+4", "007", ".5", "1e-400", "9007199254740993")
		}
		return g.one("1", "2.5", "1e3", "0", "-3", "1", "2", "3", "10", "1")
	case "isRecursive":
		if g.chance(0.1) {
			return g.one("true", "", "Yes", "NO", " yes", "1", "false", "no ")
		}
		return g.one("yes", "no")
	}
	if g.chance(0.12) {
		return g.one(" a", "b ", " ", "A", "&lt;b&gt;", "x&quot;", "Double", "yes", "no", "0", "\u00a0", "a  b", "data:input", "nil", "&#65;")
	}
	return g.one("a", "b", "1", "asIs", "and", "or", "", "é &amp; x", "double")
}

func (g *gen) elem(name string, depth int) *elem {
	e := &elem{name: name}
	if g.chance(0.04) {
		e.space = "p:"
	}
	s := shapes[name]
	seen := map[string]bool{}
	attr := func(n string) {
		if !seen[n] || g.chance(0.2) {
			seen[n] = true
			e.attrs = append(e.attrs, [2]string{n, g.value(n)})
		}
	}
	var as []string
	for a := range s.attrs {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		if g.chance(0.6) {
			attr(a)
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		attr(g.one("name", "value", "field", "recordCount", "id", "other", "column", "function", "probability"))
	}
	typ, inner := structs[name], []string(nil)
	for i := 0; typ != nil && s.mk == nil && i < typ.NumField(); i++ {
		f := typ.Field(i)
		tag, opt, _ := strings.Cut(f.Tag.Get("xml"), ",")
		k := f.Type
		for k.Kind() == reflect.Ptr || k.Kind() == reflect.Slice {
			k = k.Elem()
		}
		num := k.Kind() == reflect.Float64 || k.Kind() == reflect.Int || k.Kind() == reflect.Int64 || k.Kind() == reflect.Bool
		switch {
		case tag == "" || strings.ContainsAny(tag, "-> ") || strings.Contains(opt, "chardata"):
		case !strings.HasPrefix(opt, "attr"):
			inner = append(inner, tag)
		case num && g.chance(0.4) && !seen[tag]:
			seen[tag] = true
			v := g.one("1", "0", "1", "1")
			if g.chance(0.15) {
				v = g.one("x", "1.5", "true", "-1", "1e400", "1 ")
			}
			e.attrs = append(e.attrs, [2]string{tag, v})
		case !num && g.chance(0.2):
			attr(tag)
		}
	}
	g.Shuffle(len(e.attrs), func(i, j int) { e.attrs[i], e.attrs[j] = e.attrs[j], e.attrs[i] })
	if depth <= 0 {
		if g.chance(0.4) {
			e.kids = append(e.kids, g.one("text", " ", "1 2", "<!-- c -->", " x ", "a<!-- c -->b", "<![CDATA[]]>", "1", "&amp;", "\n7\n"))
		}
		return e
	}
	var pool []string
	for _, n := range []string{"Extension", "FieldColumnPair", "ParameterField", "Value", "row", "Node", "ScoreDistribution", "Partition", "DataDictionary", "TransformationDictionary", "Header", "MiningBuildTask"} {
		if s.coll[n] != "" || s.into[n] != "" {
			pool = append(pool, n, n)
		}
	}
	for _, f := range families {
		if s.one[f.name] != "" || s.many[f.name] != "" {
			for _, n := range sortedNames(f.of) {
				pool = append(pool, n)
				if len(f.of) < 8 {
					pool = append(pool, n)
				}
			}
		}
	}
	pool = append(pool, inner...)
	pool = append(pool, "foreign", "Extension", "Node", "True", "a", "b")
	if g.chance(0.2) {
		pool = append(pool, "true", "node", "TRUE", "Nodes", "Model", "extension", "ROW", "regressionModel", "Partition")
	}
	n := g.Intn(7)
	if g.chance(0.03) {
		n = 20 + g.Intn(30)
	}
	for i := n; i > 0; i-- {
		if g.chance(0.2) {
			e.kids = append(e.kids, g.one("text", "\n ", "<!-- <Node/> -->", "<![CDATA[<x>]]>", "<?pi x?>"))
		} else {
			e.kids = append(e.kids, g.elem(pool[g.Intn(len(pool))], depth-1-g.Intn(2)))
		}
	}
	return e
}

// structs are the structs elements are decoded into, by element name.
var structs = map[string]reflect.Type{}

func visit(n string, t reflect.Type) {
	for t.Kind() == reflect.Slice || t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || structs[n] != nil {
		return
	}
	structs[n] = t
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if tag, opt, _ := strings.Cut(f.Tag.Get("xml"), ","); tag != "" && opt == "" {
			visit(tag, f.Type)
		}
	}
}

func init() {
	for _, f := range families {
		for _, n := range sortedNames(f.of) {
			visit(n, reflect.TypeOf(f.of[n]))
		}
	}
	for _, n := range shapeNames {
		if t := reflect.TypeOf(shapes[n].mk()); t.Kind() == reflect.Ptr {
			visit(n, t)
		}
	}
}

func sortedNames(m map[string]interface{}) []string {
	var r []string
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// expect builds what the element stands for, child by child.
func (s shape) expect(e *elem) (want interface{}, err error) {
	want = s.mk()
	v := reflect.ValueOf(want)
	if row, ok := want.(models.Row); ok {
		for _, k := range e.kids {
			if k, ok := k.(*elem); ok {
				var t string
				if err := xml.Unmarshal([]byte(k.String()), &t); err != nil {
					return nil, err
				}
				row[k.name] = t
			}
		}
		return want, nil
	}
	v = v.Elem()
	for _, a := range e.attrs {
		f := s.attrs[a[0]]
		val := html.UnescapeString(a[1])
		if f == "" || val == "" && a[0] == s.nonEmpty {
			continue
		}
		fv := v.FieldByName(f)
		switch {
		case a[0] == s.yesNo:
			if val != "yes" && val != "no" {
				return nil, errRef
			}
			fv.SetBool(val == "yes")
		case fv.Kind() == reflect.Float64:
			x, err := strconv.ParseFloat(val, 64)
			if err != nil {
				return nil, err
			}
			fv.SetFloat(x)
		case fv.Kind() == reflect.Ptr:
			fv.Set(reflect.New(fv.Type().Elem()))
			fv.Elem().SetString(val)
		default:
			fv.SetString(val)
		}
	}
	for _, k := range e.kids {
		k, ok := k.(*elem)
		if !ok {
			continue
		}
		text := []byte(k.String())
		if f := s.coll[k.name]; f != "" {
			fv := v.FieldByName(f)
			n := reflect.New(fv.Type().Elem())
			if n.Elem().Kind() == reflect.Map {
				n.Elem().Set(reflect.MakeMap(n.Elem().Type()))
			}
			if err := xml.Unmarshal(text, n.Interface()); err != nil {
				return nil, err
			}
			fv.Set(reflect.Append(fv, n.Elem()))
			continue
		}
		if f := s.into[k.name]; f != "" {
			if err := xml.Unmarshal(text, v.FieldByName(f).Addr().Interface()); err != nil {
				return nil, err
			}
			continue
		}
		for _, fam := range families {
			z, ok := fam.of[k.name]
			if !ok || s.one[fam.name] == "" && s.many[fam.name] == "" {
				continue
			}
			n := reflect.New(reflect.TypeOf(z))
			if err := xml.Unmarshal(text, n.Interface()); err != nil {
				return nil, err
			}
			if f := s.one[fam.name]; f != "" {
				v.FieldByName(f).Set(n)
			} else {
				fv := v.FieldByName(s.many[fam.name])
				fv.Set(reflect.Append(fv, n))
			}
		}
	}
	return want, nil
}

func init() {
	probes["C02"] = func(g *gen) *finding {
		n := shapeNames[g.Intn(len(shapeNames))]
		s := shapes[n]
		e := g.elem(n, 1+g.Intn(3))
		text := e.String()
		want, werr := s.expect(e)
		g.doc, g.input = text, "decode with "+n
		doc := "<w>" + text + "<after/></w>"
		if g.chance(0.15) {
			cut := 3 + g.Intn(len(text))
			doc = doc[:cut]
			werr = fmt.Errorf("truncated")
			g.doc = doc
		}
		d := xml.NewDecoder(bytes.NewReader([]byte(doc)))
		d.Token()
		tok, terr := d.Token()
		start, ok := tok.(xml.StartElement)
		if terr != nil || !ok {
			return nil
		}
		got := s.mk()
		if a, ok := got.(*models.Apply); ok {
			*a = models.Apply{}
		}
		err := got.UnmarshalXML(d, start.Copy())
		if (err != nil) != (werr != nil) {
			return &finding{g.doc, g.input, fmt.Sprintf("error %v", werr), fmt.Sprintf("error %v", err)}
		}
		if err != nil {
			return nil
		}
		if !reflect.DeepEqual(want, interface{}(got)) && !(strings.Contains(text, "NaN") && show(want) == show(got)) {
			return &finding{g.doc, g.input, show(want), show(got)}
		}
		if next, err := d.Token(); err != nil || !isAfter(next) {
			return &finding{g.doc, g.input, "the decoder stands behind the end tag", fmt.Sprintf("next token %v, error %v", next, err)}
		}
		return nil
	}
}

func isAfter(t xml.Token) bool {
	s, ok := t.(xml.StartElement)
	return ok && s.Name.Local == "after"
}

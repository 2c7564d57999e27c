//go:build go1.22

package schema

import (
	"path"
	"strings"
)

// Edit is one change of a schema; Apply returns false if it does not apply.
type Edit struct {
	Name   string
	Compat bool
	Apply  func(s *Schema) bool
}

func (s *Schema) pkg(name string) *Pkg {
	for _, p := range s.Pkgs {
		if p.Name == name {
			return p
		}
	}
	return nil
}

func findMsg(l []*Msg, n string) *Msg {
	for _, m := range l {
		if m.Name == n {
			return m
		}
	}
	return nil
}

// msg finds a message by its path of names.
func (s *Schema) msg(pkg string, names []string) *Msg {
	p := s.pkg(pkg)
	if p == nil {
		return nil
	}
	m := findMsg(p.Msgs, names[0])
	for _, n := range names[1:] {
		if m == nil {
			return nil
		}
		m = findMsg(m.Msgs, n)
	}
	return m
}

// enumList returns the list of enums of the package or nested message.
func (s *Schema) enumList(pkg string, names []string) *[]*Enum {
	if len(names) == 0 {
		p := s.pkg(pkg)
		if p == nil {
			return nil
		}
		return &p.Enums
	}
	m := s.msg(pkg, names)
	if m == nil {
		return nil
	}
	return &m.Enums
}

func findEnum(l *[]*Enum, n string) *Enum {
	if l == nil {
		return nil
	}
	for _, e := range *l {
		if e.Name == n {
			return e
		}
	}
	return nil
}

func (m *Msg) field(n string) *Field {
	for _, f := range m.Fields {
		if f.Name == n {
			return f
		}
	}
	return nil
}

// Retarget renames type references.
func (s *Schema) Retarget(from, to string) {
	fix := func(t *string) {
		if *t == from {
			*t = to
		} else if strings.HasPrefix(*t, from+".") {
			*t = to + (*t)[len(from):]
		}
	}
	for _, p := range s.Pkgs {
		for _, m := range p.Msgs {
			walkMsgs("", m, func(_ string, mm *Msg) {
				for _, f := range mm.Fields {
					fix(&f.Type)
				}
			})
		}
		for _, sv := range p.Svcs {
			for _, me := range sv.Methods {
				fix(&me.Req)
				fix(&me.Resp)
			}
		}
	}
}

func swap[T any](l []T) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
}

// Edits enumerates all the edits of the schema. types are the types a field can change to.
func Edits(s *Schema, types []string) []Edit {
	var out []Edit
	add := func(name string, compat bool, f func(s *Schema) bool) {
		out = append(out, Edit{name, compat, f})
	}
	files := map[string][]string{}
	for _, p := range s.Pkgs {
		have := map[string]bool{}
		note := func(f string) {
			if !have[f] {
				have[f] = true
				files[p.Name] = append(files[p.Name], f)
			}
		}
		for _, f := range p.Files {
			note(f)
		}
		for _, m := range p.Msgs {
			note(m.File)
		}
		for _, e := range p.Enums {
			note(e.File)
		}
		for _, sv := range p.Svcs {
			note(sv.File)
		}
	}
	onFile := func(pkg, from, to string) func(s *Schema) bool {
		return func(s *Schema) bool {
			p := s.pkg(pkg)
			if p == nil {
				return false
			}
			n := 0
			ch := func(f *string) {
				if *f == from {
					*f = to
					n++
				}
			}
			for _, m := range p.Msgs {
				ch(&m.File)
			}
			for _, e := range p.Enums {
				ch(&e.File)
			}
			for _, sv := range p.Svcs {
				ch(&sv.File)
			}
			for i := range p.Files {
				ch(&p.Files[i])
			}
			return n > 0
		}
	}
	doEnum := func(pkg string, scope []string, e *Enum) {
		en := e.Name
		where := pkg + "." + strings.Join(append(append([]string{}, scope...), en), ".")
		get := func(s *Schema) *Enum { return findEnum(s.enumList(pkg, scope), en) }
		add("delete enum "+where, false, func(s *Schema) bool {
			l := s.enumList(pkg, scope)
			if findEnum(l, en) == nil {
				return false
			}
			var keep []*Enum
			for _, x := range *l {
				if x.Name != en {
					keep = append(keep, x)
				}
			}
			*l = keep
			return true
		})
		add("rename enum "+where, false, func(s *Schema) bool {
			x := get(s)
			if x == nil {
				return false
			}
			x.Name = en + "X"
			s.Retarget("."+where, "."+where+"X")
			return true
		})
		add("reverse values of "+where, true, func(s *Schema) bool {
			x := get(s)
			if x == nil || len(x.Values) < 3 {
				return false
			}
			swap(x.Values[1:])
			return true
		})
		add("add value to "+where, true, func(s *Schema) bool {
			x := get(s)
			if x == nil {
				return false
			}
			x.Values = append(x.Values, &Value{Name: strings.ToUpper(en) + "_NEW", Num: 77})
			return true
		})
		add("add alias to "+where, true, func(s *Schema) bool {
			x := get(s)
			if x == nil {
				return false
			}
			x.Alias = true
			x.Values = append(x.Values, &Value{Name: strings.ToUpper(en) + "_ALIAS", Num: x.Values[len(x.Values)-1].Num})
			return true
		})
		for _, v := range e.Values {
			vn := v.Name
			val := func(s *Schema) (*Enum, int) {
				x := get(s)
				if x == nil {
					return nil, 0
				}
				for i, w := range x.Values {
					if w.Name == vn {
						return x, i
					}
				}
				return nil, 0
			}
			fixAlias := func(x *Enum) {
				n := map[int]bool{}
				x.Alias = false
				for _, w := range x.Values {
					if n[w.Num] {
						x.Alias = true
					}
					n[w.Num] = true
				}
			}
			add("delete value "+where+"."+vn, false, func(s *Schema) bool {
				x, i := val(s)
				if x == nil {
					return false
				}
				x.Values = append(append([]*Value{}, x.Values[:i]...), x.Values[i+1:]...)
				fixAlias(x)
				return true
			})
			add("rename value "+where+"."+vn, false, func(s *Schema) bool {
				x, i := val(s)
				if x == nil {
					return false
				}
				x.Values[i].Name += "_X"
				return true
			})
			add("renumber value "+where+"."+vn, false, func(s *Schema) bool {
				x, i := val(s)
				if x == nil {
					return false
				}
				x.Values[i].Num = 40
				fixAlias(x)
				return true
			})
			add("deprecate value "+where+"."+vn, true, func(s *Schema) bool {
				x, i := val(s)
				if x == nil {
					return false
				}
				x.Values[i].Opts = " [deprecated = true]"
				return true
			})
		}
		if len(e.Values) > 2 {
			add("swap numbers in "+where, false, func(s *Schema) bool {
				x := get(s)
				if x == nil || len(x.Values) < 3 {
					return false
				}
				a, b := x.Values[1], x.Values[2]
				a.Num, b.Num = b.Num, a.Num
				return true
			})
		}
	}
	var doMsg func(pkg string, scope []string, m *Msg)
	doMsg = func(pkg string, scope []string, m *Msg) {
		names := append(append([]string{}, scope...), m.Name)
		where := pkg + "." + strings.Join(names, ".")
		get := func(s *Schema) *Msg { return s.msg(pkg, names) }
		list := func(s *Schema) *[]*Msg {
			if len(scope) == 0 {
				if p := s.pkg(pkg); p != nil {
					return &p.Msgs
				}
				return nil
			}
			if p := s.msg(pkg, scope); p != nil {
				return &p.Msgs
			}
			return nil
		}
		remove := func(s *Schema) *Msg {
			l := list(s)
			if l == nil {
				return nil
			}
			var keep []*Msg
			var gone *Msg
			for _, x := range *l {
				if x.Name == m.Name {
					gone = x
				} else {
					keep = append(keep, x)
				}
			}
			*l = keep
			return gone
		}
		add("delete message "+where, false, func(s *Schema) bool { return remove(s) != nil })
		add("rename message "+where, false, func(s *Schema) bool {
			x := get(s)
			if x == nil {
				return false
			}
			x.Name += "X"
			s.Retarget("."+where, "."+where+"X")
			return true
		})
		if len(scope) > 0 {
			add("move to top "+where, false, func(s *Schema) bool {
				top := s.msg(pkg, scope[:1])
				x := remove(s)
				if x == nil || top == nil {
					return false
				}
				x.File = top.File
				s.pkg(pkg).Msgs = append(s.pkg(pkg).Msgs, x)
				s.Retarget("."+where, "."+pkg+"."+x.Name)
				return true
			})
		} else {
			for _, o := range s.Pkgs {
				if o.Name != pkg && len(o.Msgs) > 0 {
					o := o
					add("move to package "+o.Name+" "+where, false, func(s *Schema) bool {
						p := s.pkg(o.Name)
						if p == nil || len(p.Msgs) == 0 {
							return false
						}
						x := remove(s)
						if x == nil {
							return false
						}
						x.File = path.Dir(p.Msgs[0].File) + "/moved.proto"
						p.Msgs = append(p.Msgs, x)
						s.Retarget("."+where, "."+o.Name+"."+x.Name)
						return true
					})
				}
			}
			for _, f := range append(append([]string{}, files[pkg]...), path.Dir(m.File)+"/new.proto", "other/new.proto") {
				if f != m.File {
					f := f
					add("move to file "+f+" "+where, true, func(s *Schema) bool {
						x := get(s)
						if x == nil {
							return false
						}
						x.File = f
						return true
					})
				}
			}
		}
		add("reverse fields of "+where, true, func(s *Schema) bool {
			x := get(s)
			if x == nil || len(x.Fields) < 2 {
				return false
			}
			swap(x.Fields)
			swap(x.Msgs)
			swap(x.Enums)
			return true
		})
		add("add things to "+where, true, func(s *Schema) bool {
			x := get(s)
			if x == nil {
				return false
			}
			l := ""
			if s.Syntax == "proto2" {
				l = "optional"
			}
			x.Fields = append(x.Fields, &Field{Name: "new_field", Num: 1000, Type: "string", Label: l}, &Field{Name: "new_in_oneof", Num: 1001, Type: "string", Oneof: "new_oneof"})
			x.Msgs = append(x.Msgs, &Msg{Name: "NewNested"})
			x.Enums = append(x.Enums, &Enum{Name: "NewEnum", Values: []*Value{{Name: "NEW_ENUM_INVALID"}}})
			return true
		})
		add("options on "+where, true, func(s *Schema) bool {
			x := get(s)
			if x == nil {
				return false
			}
			if x.Opts != "" {
				return false
			}
			x.Opts = "option deprecated = true;"
			x.Reserved = append(x.Reserved, 5000)
			return true
		})
		oneofs := []string{}
		seen := map[string]bool{}
		for _, f := range m.Fields {
			if f.Oneof != "" && !seen[f.Oneof] {
				seen[f.Oneof] = true
				oneofs = append(oneofs, f.Oneof)
			}
		}
		for _, on := range oneofs {
			on := on
			add("rename oneof "+on+" of "+where, false, func(s *Schema) bool {
				x := get(s)
				if x == nil {
					return false
				}
				n := 0
				for _, f := range x.Fields {
					if f.Oneof == on {
						f.Oneof = on + "_x"
						n++
					}
				}
				return n > 0
			})
			add("unfold oneof "+on+" of "+where, false, func(s *Schema) bool {
				x := get(s)
				if x == nil {
					return false
				}
				n := 0
				for _, f := range x.Fields {
					if f.Oneof == on {
						f.Oneof = ""
						if s.Syntax == "proto2" {
							f.Label = "optional"
						}
						n++
					}
				}
				return n > 0
			})
			add("add to oneof "+on+" of "+where, true, func(s *Schema) bool {
				x := get(s)
				if x == nil {
					return false
				}
				x.Fields = append(x.Fields, &Field{Name: "added_to_" + on, Num: 2000, Type: "string", Oneof: on})
				return true
			})
		}
		for fi, f := range m.Fields {
			f := f
			fw := where + "." + f.Name
			gf := func(s *Schema) (*Msg, *Field) {
				x := get(s)
				if x == nil {
					return nil, nil
				}
				return x, x.field(f.Name)
			}
			del := func(reserve bool) func(s *Schema) bool {
				return func(s *Schema) bool {
					x, g := gf(s)
					if g == nil {
						return false
					}
					var keep []*Field
					for _, y := range x.Fields {
						if y != g {
							keep = append(keep, y)
						}
					}
					x.Fields = keep
					if reserve {
						x.Reserved = append(x.Reserved, g.Num)
					}
					return true
				}
			}
			add("delete field "+fw, false, del(false))
			add("delete and reserve field "+fw, false, del(true))
			change := func(name string, compat bool, ch func(s *Schema, x *Msg, g *Field) bool) {
				add(name+" "+fw, compat, func(s *Schema) bool {
					x, g := gf(s)
					if g == nil {
						return false
					}
					return ch(s, x, g)
				})
			}
			change("rename field", false, func(s *Schema, x *Msg, g *Field) bool { g.Name += "_x"; return true })
			change("retag field", false, func(s *Schema, x *Msg, g *Field) bool { g.Num += 300; return true })
			change("deprecate field", true, func(s *Schema, x *Msg, g *Field) bool { g.Opts = " [deprecated = true]"; return true })
			change("json name of field", true, func(s *Schema, x *Msg, g *Field) bool { g.Opts = " [json_name = \"j" + g.Name + "\"]"; return true })
			for _, t := range types {
				if t == f.Type {
					continue
				}
				t := t
				change("type "+t+" for field", false, func(s *Schema, x *Msg, g *Field) bool { g.Type = t; return true })
			}
			for _, l := range []string{"", "optional", "required", "repeated"} {
				if l == f.Label || f.MapKey != "" || f.Oneof != "" {
					continue
				}
				l := l
				change("label "+l+" for field", false, func(s *Schema, x *Msg, g *Field) bool { g.Label = l; return true })
			}
			if f.MapKey == "" && f.Oneof == "" && f.Label != "repeated" {
				change("new oneof for field", false, func(s *Schema, x *Msg, g *Field) bool { g.Oneof = "fresh"; g.Label = ""; return true })
				for _, on := range oneofs {
					on := on
					change("oneof "+on+" for field", false, func(s *Schema, x *Msg, g *Field) bool { g.Oneof = on; g.Label = ""; return true })
				}
			}
			if f.Oneof != "" {
				change("no oneof for field", false, func(s *Schema, x *Msg, g *Field) bool {
					g.Oneof = ""
					if s.Syntax == "proto2" {
						g.Label = "optional"
					}
					return true
				})
				for _, on := range append([]string{"fresh"}, oneofs...) {
					if on != f.Oneof {
						on := on
						change("other oneof "+on+" for field", false, func(s *Schema, x *Msg, g *Field) bool { g.Oneof = on; return true })
					}
				}
			}
			if f.MapKey != "" {
				change("map key for field", false, func(s *Schema, x *Msg, g *Field) bool { g.MapKey = "int32"; return g.MapKey != f.MapKey })
				change("no map for field", false, func(s *Schema, x *Msg, g *Field) bool { g.MapKey = ""; g.Label = "repeated"; return true })
				change("map written out for field", true, nil)
				out = out[:len(out)-1]
			} else if f.Oneof == "" {
				change("map for field", false, func(s *Schema, x *Msg, g *Field) bool { g.MapKey = "string"; g.Label = ""; return true })
			}
			if fi > 0 {
				prev := m.Fields[fi-1].Name
				change("swap tags with "+prev+" of field", false, func(s *Schema, x *Msg, g *Field) bool {
					p := x.field(prev)
					if p == nil {
						return false
					}
					p.Num, g.Num = g.Num, p.Num
					return true
				})
			}
		}
		for _, mm := range m.Msgs {
			doMsg(pkg, names, mm)
		}
		for _, e := range m.Enums {
			doEnum(pkg, names, e)
		}
	}
	for _, p := range s.Pkgs {
		pn := p.Name
		add("delete package "+pn, false, func(s *Schema) bool {
			var keep []*Pkg
			for _, q := range s.Pkgs {
				if q.Name != pn {
					keep = append(keep, q)
				}
			}
			ok := len(keep) != len(s.Pkgs)
			s.Pkgs = keep
			return ok
		})
		for _, nn := range []string{pn + "x", "top." + pn, strings.Replace(pn, "v1", "v2", 1)} {
			nn := nn
			add("rename package "+pn+" to "+nn, false, func(s *Schema) bool {
				q := s.pkg(pn)
				if q == nil || s.pkg(nn) != nil {
					return false
				}
				q.Name = nn
				s.Retarget("."+pn, "."+nn)
				return true
			})
		}
		add("add things to package "+pn, true, func(s *Schema) bool {
			q := s.pkg(pn)
			if q == nil {
				return false
			}
			f := files[pn][0]
			q.Msgs = append(q.Msgs, &Msg{Name: "AddedMessage", File: f})
			q.Enums = append(q.Enums, &Enum{Name: "AddedEnum", File: f, Values: []*Value{{Name: "ADDED_ENUM_INVALID"}}})
			q.Svcs = append(q.Svcs, &Svc{Name: "AddedService", File: path.Dir(f) + "/added.proto", Methods: []*Method{{Name: "A", Req: "." + pn + ".AddedMessage", Resp: "." + pn + ".AddedMessage"}}})
			return true
		})
		add("reverse package "+pn, true, func(s *Schema) bool {
			q := s.pkg(pn)
			if q == nil {
				return false
			}
			swap(q.Msgs)
			swap(q.Enums)
			swap(q.Svcs)
			return true
		})
		for i, f := range files[pn] {
			add("rename file "+f, true, onFile(pn, f, path.Dir(f)+"/renamed.proto"))
			add("move file to other dir "+f, true, onFile(pn, f, "zz/"+path.Base(f)))
			if i > 0 {
				add("merge file "+f, true, onFile(pn, f, files[pn][0]))
			}
			f := f
			add("file options on "+f, true, func(s *Schema) bool {
				if s.FileOpts == nil {
					s.FileOpts = map[string]string{}
				}
				s.FileOpts[f] = "option go_package = \"changedpb\";\noption java_package = \"changed\";\noption deprecated = true;"
				return true
			})
		}
		for _, m := range p.Msgs {
			doMsg(pn, nil, m)
		}
		for _, e := range p.Enums {
			doEnum(pn, nil, e)
		}
		for _, e := range p.Enums {
			en := e.Name
			for _, f := range append(append([]string{}, files[pn]...), "other/new.proto") {
				if f != e.File {
					f := f
					add("move to file "+f+" enum "+pn+"."+en, true, func(s *Schema) bool {
						x := findEnum(s.enumList(pn, nil), en)
						if x == nil {
							return false
						}
						x.File = f
						return true
					})
				}
			}
		}
		for _, sv := range p.Svcs {
			sn := sv.Name
			where := pn + "." + sn
			get := func(s *Schema) (*Pkg, *Svc) {
				q := s.pkg(pn)
				if q == nil {
					return nil, nil
				}
				for _, x := range q.Svcs {
					if x.Name == sn {
						return q, x
					}
				}
				return nil, nil
			}
			add("delete service "+where, false, func(s *Schema) bool {
				q, x := get(s)
				if x == nil {
					return false
				}
				var keep []*Svc
				for _, y := range q.Svcs {
					if y != x {
						keep = append(keep, y)
					}
				}
				q.Svcs = keep
				return true
			})
			add("rename service "+where, false, func(s *Schema) bool {
				_, x := get(s)
				if x == nil {
					return false
				}
				x.Name += "X"
				return true
			})
			add("reverse methods of "+where, true, func(s *Schema) bool {
				_, x := get(s)
				if x == nil || len(x.Methods) < 2 {
					return false
				}
				swap(x.Methods)
				return true
			})
			for _, f := range append(append([]string{}, files[pn]...), "other/new.proto") {
				if f != sv.File {
					f := f
					add("move to file "+f+" service "+where, true, func(s *Schema) bool {
						_, x := get(s)
						if x == nil {
							return false
						}
						x.File = f
						return true
					})
				}
			}
			for _, me := range sv.Methods {
				mn := me.Name
				change := func(name string, compat bool, ch func(x *Svc, g *Method) bool) {
					add(name+" "+where+"."+mn, compat, func(s *Schema) bool {
						_, x := get(s)
						if x == nil {
							return false
						}
						for _, g := range x.Methods {
							if g.Name == mn {
								return ch(x, g)
							}
						}
						return false
					})
				}
				change("delete method", false, func(x *Svc, g *Method) bool {
					var keep []*Method
					for _, y := range x.Methods {
						if y != g {
							keep = append(keep, y)
						}
					}
					x.Methods = keep
					return true
				})
				change("rename method", false, func(x *Svc, g *Method) bool { g.Name += "X"; return true })
				change("toggle client streaming of", false, func(x *Svc, g *Method) bool { g.CS = !g.CS; return true })
				change("toggle server streaming of", false, func(x *Svc, g *Method) bool { g.SS = !g.SS; return true })
				change("swap types of", false, func(x *Svc, g *Method) bool {
					g.Req, g.Resp = g.Resp, g.Req
					return g.Req != g.Resp
				})
				change("other request type of", false, func(x *Svc, g *Method) bool { g.Req = g.Resp; return me.Req != me.Resp })
				change("other response type of", false, func(x *Svc, g *Method) bool { g.Resp = g.Req; return me.Req != me.Resp })
				change("deprecate method", true, func(x *Svc, g *Method) bool { g.Opts = "option deprecated = true;"; return true })
				change("add method next to", true, func(x *Svc, g *Method) bool {
					x.Methods = append([]*Method{{Name: "Aaa" + mn, Req: g.Req, Resp: g.Resp}}, x.Methods...)
					return true
				})
			}
		}
	}
	add("comments", true, func(s *Schema) bool { s.Comment = !s.Comment; return true })
	add("reverse packages", true, func(s *Schema) bool { swap(s.Pkgs); return true })
	add("add package", true, func(s *Schema) bool {
		s.Pkgs = append(s.Pkgs, &Pkg{Name: "added.v1", Msgs: []*Msg{{Name: "Added", File: "added/v1/added.proto"}}})
		return true
	})
	return out
}

func opt(syntax string) string {
	if syntax == "proto2" {
		return "optional"
	}
	return ""
}

// Base returns a schema that has every kind of element.
func Base(syntax string) *Schema {
	o := opt(syntax)
	a, b := "foo/v1/a.proto", "foo/v1/b.proto"
	s := &Schema{Syntax: syntax, Pkgs: []*Pkg{
		{Name: "foo.v1",
			Enums: []*Enum{
				{Name: "E", File: b, Values: []*Value{{Name: "E_INVALID"}, {Name: "E_ONE", Num: 1}, {Name: "E_TWO", Num: 2}}},
				{Name: "Al", File: b, Alias: true, Values: []*Value{{Name: "AL_INVALID"}, {Name: "AL_ONE", Num: 1}, {Name: "AL_UNO", Num: 1}}},
			},
			Msgs: []*Msg{
				{Name: "M", File: a, Fields: []*Field{
					{Name: "s", Num: 1, Type: "string", Label: o},
					{Name: "r", Num: 2, Type: "int32", Label: "repeated"},
					{Name: "e", Num: 3, Type: ".foo.v1.E", Label: o},
					{Name: "x", Num: 4, Type: "int64", Oneof: "o"},
					{Name: "n", Num: 5, Type: ".foo.v1.N", Oneof: "o"},
					{Name: "z", Num: 6, Type: "bool", Oneof: "q"},
					{Name: "mp", Num: 7, Type: "int64", MapKey: "string"},
					{Name: "inner", Num: 8, Type: ".foo.v1.M.Inner", Label: o},
					{Name: "bb", Num: 9, Type: ".bar.v1.B", Label: o},
				}, Msgs: []*Msg{{Name: "Inner", Fields: []*Field{
					{Name: "t", Num: 1, Type: "string", Label: o},
					{Name: "ie", Num: 2, Type: ".foo.v1.M.Inner.IE", Label: "repeated"},
				}, Msgs: []*Msg{{Name: "Deep", Fields: []*Field{
					{Name: "d", Num: 1, Type: "int32", Label: o},
					{Name: "od", Num: 2, Type: "int32", Oneof: "deep_oneof"},
				}}}, Enums: []*Enum{{Name: "IE", Values: []*Value{{Name: "IE_INVALID"}, {Name: "IE_ONE", Num: 1}}}}}}},
				{Name: "N", File: b, Fields: []*Field{{Name: "a", Num: 1, Type: "string", Label: o}}},
				{Name: "Req", File: b, Fields: []*Field{{Name: "a", Num: 1, Type: "string", Label: o}}},
				{Name: "Resp", File: b},
			},
			Svcs: []*Svc{
				{Name: "S", File: b, Methods: []*Method{
					{Name: "A", Req: ".foo.v1.Req", Resp: ".foo.v1.Resp"},
					{Name: "B", Req: ".foo.v1.Req", Resp: ".foo.v1.Resp", CS: true},
					{Name: "C", Req: ".foo.v1.N", Resp: ".foo.v1.N", SS: true},
				}},
				{Name: "Empty", File: a},
			}},
		{Name: "bar.v1", Msgs: []*Msg{{Name: "B", File: "bar/v1/b.proto", Fields: []*Field{{Name: "b", Num: 1, Type: "bytes", Label: o}}}},
			Enums: []*Enum{{Name: "E", File: "bar/v1/b.proto", Values: []*Value{{Name: "E_INVALID"}, {Name: "E_NEG", Num: -1}}}}},
		{Name: "baz.v1beta1", Msgs: []*Msg{{Name: "Z", File: "baz/v1beta1/z.proto", Fields: []*Field{
			{Name: "z", Num: 1, Type: "string", Label: o}, {Name: "b", Num: 2, Type: ".bar.v1.B", Label: o}}}},
			Svcs: []*Svc{{Name: "ZS", File: "baz/v1beta1/z.proto", Methods: []*Method{{Name: "Z", Req: ".baz.v1beta1.Z", Resp: ".baz.v1beta1.Z"}}}}},
	}}
	if syntax == "proto2" {
		s.pkg("foo.v1").Msgs[1].Fields = append(s.pkg("foo.v1").Msgs[1].Fields, &Field{Name: "req", Num: 2, Type: "string", Label: "required"})
	}
	return s
}

// Shape is the schema that has the elements of the bit mask: each kind of
// element at the top level, in a message, in a nested and a deeper message.
func Shape(syntax string, mask int) *Schema {
	has := func(i uint) bool { return mask>>i&1 == 1 }
	o := opt(syntax)
	f := "foo/v1/a.proto"
	enum := func(n string) *Enum {
		u := strings.ToUpper(n)
		return &Enum{Name: n, File: f, Values: []*Value{{Name: u + "_INVALID"}, {Name: u + "_ONE", Num: 1}}}
	}
	fill := func(m *Msg, field, oneof, en bool) *Msg {
		l := strings.ToLower(m.Name)
		if field {
			m.Fields = append(m.Fields, &Field{Name: l + "_a", Num: 1, Type: "string", Label: o})
		}
		if oneof {
			m.Fields = append(m.Fields, &Field{Name: l + "_b", Num: 2, Type: "string", Oneof: l + "_o"})
		}
		if en {
			m.Enums = append(m.Enums, enum("E"+m.Name))
		}
		return m
	}
	p := &Pkg{Name: "foo.v1", Files: []string{f}}
	top := fill(&Msg{Name: "Top", File: f}, has(0), has(1), has(2))
	if has(3) || has(4) || has(5) || has(6) || has(7) {
		mid := fill(&Msg{Name: "Mid"}, has(4), has(5), has(6))
		if has(7) {
			mid.Msgs = append(mid.Msgs, fill(&Msg{Name: "Low"}, !has(3), has(5), !has(4)))
		}
		top.Msgs = append(top.Msgs, mid)
	}
	if mask&255 != 0 {
		p.Msgs = append(p.Msgs, top)
	}
	if has(8) {
		p.Enums = append(p.Enums, enum("Enum"))
	}
	if has(9) {
		req := "req.v1.Req"
		p.Svcs = append(p.Svcs, &Svc{Name: "S", File: f, Methods: []*Method{{Name: "A", Req: "." + req, Resp: "." + req}}})
	}
	s := &Schema{Syntax: syntax, Pkgs: []*Pkg{p}}
	if has(9) {
		s.Pkgs = append(s.Pkgs, &Pkg{Name: "req.v1", Msgs: []*Msg{{Name: "Req", File: "req/v1/a.proto"}}})
	}
	if has(10) {
		s.Pkgs = append(s.Pkgs, &Pkg{Name: "foo.v1.sub", Enums: []*Enum{{Name: "Sub", File: "foo/v1/sub/b.proto", Values: []*Value{{Name: "SUB_INVALID"}}}}})
	}
	return s
}

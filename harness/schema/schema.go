//go:build go1.22

// Package schema is a small abstract model of a set of Protobuf packages: it
// renders to source files, has a list of edits, and a reference comparison
// that says which documented breaking changes there are between two of them.
package schema

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
)

// Value is an enum value.
type Value struct {
	Name string
	Num  int
	Opts string
}

// Enum is an enum.
type Enum struct {
	Name   string
	File   string // top-level only
	Values []*Value
	Alias  bool
}

// Field is a field. Type is a scalar or a fully-qualified name with a leading dot.
type Field struct {
	Name   string
	Num    int
	Type   string
	Label  string // "", optional, required, repeated
	Oneof  string
	MapKey string
	Opts   string
}

// Msg is a message.
type Msg struct {
	Name     string
	File     string
	Fields   []*Field
	Msgs     []*Msg
	Enums    []*Enum
	Reserved []int
	Opts     string
}

// Method is an rpc.
type Method struct {
	Name, Req, Resp string
	CS, SS          bool
	Opts            string
}

// Svc is a service.
type Svc struct {
	Name    string
	File    string
	Methods []*Method
}

// Pkg is a package.
type Pkg struct {
	Name  string
	Files []string // files that exist even if empty
	Msgs  []*Msg
	Enums []*Enum
	Svcs  []*Svc
}

// Schema is a set of packages.
type Schema struct {
	Syntax string
	Pkgs   []*Pkg
	// Extra imports per file, for example well-known types.
	Extra map[string][]string
	// Comment adds comments everywhere.
	Comment bool
	// FileOpts per file.
	FileOpts map[string]string
}

// Clone copies deeply.
func (s *Schema) Clone() *Schema {
	data, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	out := &Schema{}
	if err := json.Unmarshal(data, out); err != nil {
		panic(err)
	}
	return out
}

// Key identifies the schema.
func (s *Schema) Key() string {
	data, _ := json.Marshal(s)
	return string(data)
}

// Scalars of protobuf.
var Scalars = []string{"double", "float", "int64", "uint64", "int32", "fixed64", "fixed32", "bool", "string", "bytes", "uint32", "sfixed32", "sfixed64", "sint32", "sint64"}

func isScalar(t string) bool { return !strings.HasPrefix(t, ".") }

// definitions maps fully-qualified names (with dot) to file and kind.
type def struct {
	file string
	kind string // message, enum
	pkg  string
}

func (s *Schema) defs() (map[string]def, bool) {
	out := map[string]def{}
	ok := true
	add := func(n string, d def) {
		if _, dup := out[n]; dup {
			ok = false
		}
		out[n] = d
	}
	var msg func(prefix, file, pkg string, m *Msg)
	enum := func(prefix, file, pkg string, e *Enum) {
		add(prefix+"."+e.Name, def{file, "enum", pkg})
		for _, v := range e.Values {
			n := prefix + "." + v.Name
			if _, dup := out[n]; dup {
				ok = false
			}
			out[n] = def{file, "value", pkg}
		}
	}
	msg = func(prefix, file, pkg string, m *Msg) {
		n := prefix + "." + m.Name
		add(n, def{file, "message", pkg})
		for _, f := range m.Fields {
			if f.MapKey != "" {
				add(n+"."+EntryName(f.Name), def{file, "entry", pkg})
			}
			add(n+"."+f.Name, def{file, "field", pkg})
		}
		oneofs := map[string]bool{}
		for _, f := range m.Fields {
			if f.Oneof != "" && !oneofs[f.Oneof] {
				oneofs[f.Oneof] = true
				add(n+"."+f.Oneof, def{file, "oneof", pkg})
			}
		}
		for _, mm := range m.Msgs {
			msg(n, file, pkg, mm)
		}
		for _, e := range m.Enums {
			enum(n, file, pkg, e)
		}
	}
	for _, p := range s.Pkgs {
		pre := "." + p.Name
		for _, m := range p.Msgs {
			msg(pre, m.File, p.Name, m)
		}
		for _, e := range p.Enums {
			enum(pre, e.File, p.Name, e)
		}
		for _, sv := range p.Svcs {
			add(pre+"."+sv.Name, def{sv.File, "service", p.Name})
		}
	}
	return out, ok
}

var external = map[string]def{
	".google.protobuf.Timestamp": {"google/protobuf/timestamp.proto", "message", "google.protobuf"},
	".google.protobuf.Duration":  {"google/protobuf/duration.proto", "message", "google.protobuf"},
	".google.protobuf.Empty":     {"google/protobuf/empty.proto", "message", "google.protobuf"},
}

// EntryName is the name of the nested message of a map field.
func EntryName(field string) string {
	out := ""
	up := true
	for _, r := range field {
		if r == '_' {
			up = true
			continue
		}
		if up {
			out += strings.ToUpper(string(r))
		} else {
			out += string(r)
		}
		up = false
	}
	return out + "Entry"
}

func walkMsgs(prefix string, m *Msg, f func(fqn string, m *Msg)) {
	n := prefix + "." + m.Name
	f(n, m)
	for _, mm := range m.Msgs {
		walkMsgs(n, mm, f)
	}
}

// FileDeps returns per file the files that it needs, and all files with package.
func (s *Schema) FileDeps() (deps map[string]map[string]bool, pkgOf map[string]string, ok bool) {
	defs, ok := s.defs()
	deps = map[string]map[string]bool{}
	pkgOf = map[string]string{}
	touch := func(file, pkg string) {
		if deps[file] == nil {
			deps[file] = map[string]bool{}
		}
		if old, have := pkgOf[file]; have && old != pkg {
			ok = false
		}
		pkgOf[file] = pkg
	}
	need := func(file, t string, kinds ...string) {
		if isScalar(t) {
			return
		}
		d, have := defs[t]
		if !have {
			d, have = external[t]
		}
		if !have {
			ok = false
			return
		}
		good := false
		for _, k := range kinds {
			if d.kind == k {
				good = true
			}
		}
		if !good {
			ok = false
		}
		if d.file != file {
			deps[file][d.file] = true
		}
	}
	for _, p := range s.Pkgs {
		for _, f := range p.Files {
			touch(f, p.Name)
		}
		for _, m := range p.Msgs {
			touch(m.File, p.Name)
			walkMsgs("."+p.Name, m, func(_ string, mm *Msg) {
				for _, f := range mm.Fields {
					need(m.File, f.Type, "message", "enum")
				}
			})
		}
		for _, e := range p.Enums {
			touch(e.File, p.Name)
		}
		for _, sv := range p.Svcs {
			touch(sv.File, p.Name)
			for _, me := range sv.Methods {
				need(sv.File, me.Req, "message")
				need(sv.File, me.Resp, "message")
			}
		}
	}
	for f, l := range s.Extra {
		if deps[f] != nil {
			for _, x := range l {
				deps[f][x] = true
			}
		}
	}
	return deps, pkgOf, ok
}

// Valid says whether the schema compiles: names unique, types resolve, numbers
// unique, imports acyclic.
func (s *Schema) Valid() bool {
	deps, _, ok := s.FileDeps()
	if !ok {
		return false
	}
	state := map[string]int{}
	var visit func(f string) bool
	visit = func(f string) bool {
		if state[f] == 1 {
			return false
		}
		if state[f] == 2 {
			return true
		}
		state[f] = 1
		for d := range deps[f] {
			if !visit(d) {
				return false
			}
		}
		state[f] = 2
		return true
	}
	for f := range deps {
		if !visit(f) {
			return false
		}
	}
	good := true
	enumOK := func(e *Enum) {
		if len(e.Values) == 0 || (s.Syntax == "proto3" && e.Values[0].Num != 0) {
			good = false
		}
		nums := map[int]bool{}
		dup := false
		for _, v := range e.Values {
			if nums[v.Num] {
				dup = true
			}
			nums[v.Num] = true
		}
		if dup != e.Alias {
			good = false
		}
	}
	for _, p := range s.Pkgs {
		for _, e := range p.Enums {
			enumOK(e)
		}
		for _, sv := range p.Svcs {
			n := map[string]bool{}
			for _, me := range sv.Methods {
				if n[me.Name] {
					good = false
				}
				n[me.Name] = true
			}
		}
		for _, m := range p.Msgs {
			walkMsgs("."+p.Name, m, func(_ string, mm *Msg) {
				nums := map[int]bool{}
				jsons := map[string]bool{}
				for _, f := range mm.Fields {
					if nums[f.Num] {
						good = false
					}
					nums[f.Num] = true
					j := strings.Replace(f.Name, "_", "", -1)
					if jsons[j] {
						good = false
					}
					jsons[j] = true
					if f.Oneof != "" && (f.Label != "" || f.MapKey != "") {
						good = false
					}
					if s.Syntax == "proto2" && f.Oneof == "" && f.MapKey == "" && f.Label == "" {
						good = false
					}
					if s.Syntax == "proto3" && (f.Label == "optional" || f.Label == "required") {
						good = false
					}
					if f.MapKey != "" && f.Label != "" {
						good = false
					}
				}
				for _, r := range mm.Reserved {
					if nums[r] {
						good = false
					}
				}
				for _, e := range mm.Enums {
					enumOK(e)
				}
			})
		}
	}
	return good
}

// Render returns path to content.
func (s *Schema) Render() map[string]string {
	deps, pkgOf, _ := s.FileDeps()
	out := map[string]string{}
	for file, pkg := range pkgOf {
		var b strings.Builder
		c := func(indent, text string) {
			if s.Comment {
				b.WriteString(indent + "// " + text + " changed.\n")
			}
		}
		fmt.Fprintf(&b, "syntax = %q;\n\npackage %s;\n\n", s.Syntax, pkg)
		if o := s.FileOpts[file]; o != "" {
			b.WriteString(o + "\n")
		}
		var ds []string
		for d := range deps[file] {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			fmt.Fprintf(&b, "import %q;\n", d)
		}
		enum := func(indent string, e *Enum) {
			c(indent, e.Name)
			fmt.Fprintf(&b, "%senum %s {\n", indent, e.Name)
			if e.Alias {
				b.WriteString(indent + "  option allow_alias = true;\n")
			}
			for _, v := range e.Values {
				fmt.Fprintf(&b, "%s  %s = %d%s;\n", indent, v.Name, v.Num, v.Opts)
			}
			b.WriteString(indent + "}\n")
		}
		field := func(indent string, f *Field) {
			t := f.Type
			if f.MapKey != "" {
				t = fmt.Sprintf("map<%s, %s>", f.MapKey, f.Type)
			}
			l := f.Label
			if l != "" {
				l += " "
			}
			c(indent, f.Name)
			fmt.Fprintf(&b, "%s%s%s %s = %d%s;\n", indent, l, t, f.Name, f.Num, f.Opts)
		}
		var msg func(indent string, m *Msg)
		msg = func(indent string, m *Msg) {
			c(indent, m.Name)
			fmt.Fprintf(&b, "%smessage %s {\n", indent, m.Name)
			if m.Opts != "" {
				b.WriteString(indent + "  " + m.Opts + "\n")
			}
			for _, r := range m.Reserved {
				fmt.Fprintf(&b, "%s  reserved %d;\n", indent, r)
			}
			done := map[string]bool{}
			for _, f := range m.Fields {
				if f.Oneof == "" {
					field(indent+"  ", f)
					continue
				}
				if done[f.Oneof] {
					continue
				}
				done[f.Oneof] = true
				fmt.Fprintf(&b, "%s  oneof %s {\n", indent, f.Oneof)
				for _, g := range m.Fields {
					if g.Oneof == f.Oneof {
						field(indent+"    ", g)
					}
				}
				b.WriteString(indent + "  }\n")
			}
			for _, mm := range m.Msgs {
				msg(indent+"  ", mm)
			}
			for _, e := range m.Enums {
				enum(indent+"  ", e)
			}
			b.WriteString(indent + "}\n")
		}
		for _, p := range s.Pkgs {
			if p.Name != pkg {
				continue
			}
			for _, e := range p.Enums {
				if e.File == file {
					enum("", e)
				}
			}
			for _, m := range p.Msgs {
				if m.File == file {
					msg("", m)
				}
			}
			for _, sv := range p.Svcs {
				if sv.File != file {
					continue
				}
				c("", sv.Name)
				fmt.Fprintf(&b, "service %s {\n", sv.Name)
				for _, me := range sv.Methods {
					req, resp := me.Req, me.Resp
					if me.CS {
						req = "stream " + req
					}
					if me.SS {
						resp = "stream " + resp
					}
					end := ";"
					if me.Opts != "" {
						end = " { " + me.Opts + " }"
					}
					c("  ", me.Name)
					fmt.Fprintf(&b, "  rpc %s(%s) returns (%s)%s\n", me.Name, req, resp, end)
				}
				b.WriteString("}\n")
			}
		}
		out[file] = b.String()
	}
	return out
}

// --- reference comparison ---

type refField struct {
	name, label, kind, typ, oneof string
}

type refMsg struct {
	fields map[int]refField
	oneofs map[string]map[int]bool
	nested map[string]*refMsg
	enums  map[string]*Enum
}

func (s *Schema) refMsg(m *Msg, prefix string, defs map[string]def) *refMsg {
	fqn := prefix + "." + m.Name
	out := &refMsg{map[int]refField{}, map[string]map[int]bool{}, map[string]*refMsg{}, map[string]*Enum{}}
	lower := func(f *Field) refField {
		r := refField{name: f.Name, label: f.Label, oneof: f.Oneof}
		if r.label == "" {
			r.label = "optional"
		}
		if isScalar(f.Type) {
			r.kind = f.Type
		} else {
			d, ok := defs[f.Type]
			if !ok {
				d = external[f.Type]
			}
			r.kind = d.kind
			r.typ = f.Type[1:]
		}
		return r
	}
	for _, f := range m.Fields {
		if f.MapKey != "" {
			en := EntryName(f.Name)
			out.fields[f.Num] = refField{name: f.Name, label: "repeated", kind: "message", typ: fqn[1:] + "." + en}
			v := lower(&Field{Name: "value", Type: f.Type})
			out.nested[en] = &refMsg{map[int]refField{1: {name: "key", label: "optional", kind: f.MapKey}, 2: v}, nil, nil, nil}
			continue
		}
		out.fields[f.Num] = lower(f)
		if f.Oneof != "" {
			if out.oneofs[f.Oneof] == nil {
				out.oneofs[f.Oneof] = map[int]bool{}
			}
			out.oneofs[f.Oneof][f.Num] = true
		}
	}
	for _, mm := range m.Msgs {
		out.nested[mm.Name] = s.refMsg(mm, fqn, defs)
	}
	for _, e := range m.Enums {
		out.enums[e.Name] = e
	}
	return out
}

// IsBeta says whether the package is a beta package by the documented rule.
func IsBeta(pkg string) bool {
	parts := strings.Split(pkg, ".")
	if len(parts) < 2 {
		return false
	}
	last := parts[len(parts)-1]
	if !strings.HasPrefix(last, "v") {
		return false
	}
	a, b, ok := strings.Cut(last[1:], "beta")
	if !ok {
		return false
	}
	pos := func(x string) bool {
		if x == "" {
			return false
		}
		for _, r := range x {
			if r < '0' || r > '9' {
				return false
			}
		}
		n, err := strconv.ParseUint(x, 10, 64)
		return err == nil && n > 0
	}
	return pos(a) && pos(b)
}

// Options are the break options.
type Options struct {
	IncludeBeta   bool
	AllowBetaDeps bool
}

func key(tokens ...string) string { return strings.Join(tokens, "|") }

// Diff returns the expected failures: the class and the quoted words of each, sorted.
func Diff(from, to *Schema, o Options) []string {
	var out []string
	add := func(tokens ...string) { out = append(out, key(tokens...)) }
	fdefs, _ := from.defs()
	tdefs, _ := to.defs()
	pkgs := func(s *Schema) map[string][]*Pkg {
		_, pkgOf, _ := s.FileDeps()
		m := map[string][]*Pkg{}
		have := map[string]bool{}
		for _, p := range pkgOf {
			have[p] = true
		}
		for _, p := range s.Pkgs {
			if have[p.Name] && (o.IncludeBeta || !IsBeta(p.Name)) {
				m[p.Name] = append(m[p.Name], p)
			}
		}
		return m
	}
	fp, tp := pkgs(from), pkgs(to)
	enum := func(fqn string, a, b *Enum) {
		toNames := map[string]int{}
		toNums := map[int][]string{}
		for _, v := range b.Values {
			toNames[v.Name] = v.Num
			toNums[v.Num] = append(toNums[v.Num], v.Name)
		}
		deleted := map[int]bool{}
		for _, v := range a.Values {
			if len(toNums[v.Num]) == 0 {
				if !deleted[v.Num] {
					deleted[v.Num] = true
					add("deleted", strconv.Itoa(v.Num), fqn)
				}
				continue
			}
			if n, ok := toNames[v.Name]; !ok || n != v.Num {
				if len(toNums[v.Num]) > 1 {
					add("changed", strconv.Itoa(v.Num), fqn, v.Name, "*")
				} else {
					add("changed", strconv.Itoa(v.Num), fqn, v.Name, toNums[v.Num][0])
				}
			}
		}
	}
	enums := func(prefix string, a, b map[string]*Enum) {
		for n, e := range a {
			if e2, ok := b[n]; ok {
				enum(prefix+"."+n, e, e2)
			} else {
				add("deleted", prefix+"."+n)
			}
		}
	}
	var msgs func(prefix string, a, b map[string]*refMsg)
	msgs = func(prefix string, a, b map[string]*refMsg) {
		for n, m := range a {
			fqn := prefix + "." + n
			m2, ok := b[n]
			if !ok {
				add("deleted", fqn)
				continue
			}
			for num, f := range m.fields {
				f2, ok := m2.fields[num]
				ns := strconv.Itoa(num)
				if !ok {
					add("deleted", ns, fqn)
					continue
				}
				if f.name != f2.name {
					add("changed", ns, fqn, f.name, f2.name)
				}
				if f.label != f2.label {
					add("changed", ns, fqn, f.label, f2.label)
				}
				if f.kind != f2.kind {
					add("changed type", ns, fqn, f.kind, f2.kind)
				} else if f.typ != f2.typ {
					add("changed type", ns, fqn, f.typ, f2.typ)
				}
				if f.oneof == "" && f2.oneof != "" {
					add("moved", ns, fqn, f2.oneof)
				}
			}
			for on, nums := range m.oneofs {
				n2, ok := m2.oneofs[on]
				if !ok {
					add("deleted", on, fqn)
					continue
				}
				for num := range nums {
					if !n2[num] {
						add("removed", on, fqn, strconv.Itoa(num))
					}
				}
			}
			msgs(fqn, m.nested, m2.nested)
			enums(fqn, m.enums, m2.enums)
		}
	}
	for name, ps := range fp {
		qs, ok := tp[name]
		if !ok {
			add("deleted", name)
			continue
		}
		collect := func(s *Schema, ps []*Pkg, defs map[string]def) (map[string]*refMsg, map[string]*Enum, map[string]*Svc) {
			a, b, c := map[string]*refMsg{}, map[string]*Enum{}, map[string]*Svc{}
			for _, p := range ps {
				for _, m := range p.Msgs {
					a[m.Name] = s.refMsg(m, "."+p.Name, defs)
				}
				for _, e := range p.Enums {
					b[e.Name] = e
				}
				for _, sv := range p.Svcs {
					c[sv.Name] = sv
				}
			}
			return a, b, c
		}
		fm, fe, fs := collect(from, ps, fdefs)
		tm, te, ts := collect(to, qs, tdefs)
		msgs(name, fm, tm)
		enums(name, fe, te)
		for sn, sv := range fs {
			sv2, ok := ts[sn]
			if !ok {
				add("deleted", name+"."+sn)
				continue
			}
			have := map[string]*Method{}
			for _, me := range sv2.Methods {
				have[me.Name] = me
			}
			for _, me := range sv.Methods {
				me2, ok := have[me.Name]
				if !ok {
					add("deleted", me.Name, name+"."+sn)
					continue
				}
				if me.Req != me2.Req {
					add("changed request type", me.Name, name+"."+sn, me.Req[1:], me2.Req[1:])
				}
				if me.Resp != me2.Resp {
					add("changed response type", me.Name, name+"."+sn, me.Resp[1:], me2.Resp[1:])
				}
				if me.CS != me2.CS {
					add("changed", me.Name, name+"."+sn)
				}
				if me.SS != me2.SS {
					add("changed", me.Name, name+"."+sn)
				}
			}
		}
	}
	if !o.IncludeBeta && !o.AllowBetaDeps {
		deps, pkgOf, _ := to.FileDeps()
		seen := map[string]bool{}
		for f, ds := range deps {
			for d := range ds {
				a, b := pkgOf[f], pkgOf[d]
				if _, ok := tp[a]; ok && b != "" && a != b && IsBeta(b) && !seen[a+"|"+b] {
					seen[a+"|"+b] = true
					add("depends", a, b)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// ParseLine turns one line of output into the form of Diff.
func ParseLine(line string) string {
	var quoted []string
	rest := ""
	for i := 0; i < len(line); {
		if line[i] == '"' {
			j := strings.IndexByte(line[i+1:], '"')
			if j < 0 {
				break
			}
			quoted = append(quoted, line[i+1:i+1+j])
			i += j + 2
			rest += " "
			continue
		}
		rest += string(line[i])
		i++
	}
	class := "other"
	for _, c := range []string{"changed request type", "changed response type", "changed type", "changed", "removed", "moved", "depends", "deleted"} {
		if strings.Contains(rest, c) {
			class = c
			break
		}
	}
	return key(append([]string{class}, quoted...)...)
}

// Match compares expected (a last word * matches anything) with output lines.
func Match(want []string, lines []string) bool {
	var got []string
	for _, l := range lines {
		got = append(got, ParseLine(l))
	}
	sort.Strings(got)
	if len(got) != len(want) {
		return false
	}
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if used[i] {
				continue
			}
			if g == w || (strings.HasSuffix(w, "|*") && strings.HasPrefix(g, strings.TrimSuffix(w, "*"))) {
				used[i] = true
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// Dirs returns the directories of the files.
func (s *Schema) Dirs() []string {
	_, pkgOf, _ := s.FileDeps()
	m := map[string]bool{}
	for f := range pkgOf {
		m[path.Dir(f)] = true
	}
	var out []string
	for d := range m {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}

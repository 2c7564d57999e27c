//go:build go1.22

// Package lintref is an independent reference of the documented lint rules:
// a model of a .proto file with known lines, and the failures that the
// documentation of the rules asks for.
package lintref

import (
	"fmt"
	"strings"
)

// Node is one statement.
type Node struct {
	Kind string // syntax package import option message extend enum value field map oneof group service rpc reserved extensions comment
	Name string
	Type string // field type, import path, map types, reserved and extension ranges, option value
	Mod  string // label, import modifier
	Num  int
	// Opts are bracketed options "name = value".
	Opts []string
	// Above are the comment lines directly above, with their markers; Gap puts an empty line in between.
	Above []string
	Gap   bool
	// Inline is a comment on the line of the statement, with its markers.
	Inline string
	// Closing is a comment behind the closing brace of a block with members, with its markers.
	Closing string
	Kids    []*Node
	// of rpcs
	Req, Res             string
	ReqStream, ResStream bool
	Body                 bool

	// Line is the line of the statement, set by Render.
	Line int
	// AboveLine is the line of the first comment line above.
	AboveLine int
	// ClosingLine is the line of the closing brace.
	ClosingLine int
}

// File is one file.
type File struct {
	Base  string // base name without .proto
	Head  string // raw text in front of everything, whole lines
	Nodes []*Node
	// Dialect of the statements: proto2 fields get a label.
	Proto2 bool
}

// Clone is a deep copy.
func (n *Node) Clone() *Node {
	c := *n
	c.Kids = CloneAll(n.Kids)
	return &c
}

// CloneAll clones all nodes.
func CloneAll(nodes []*Node) []*Node {
	var out []*Node
	for _, n := range nodes {
		out = append(out, n.Clone())
	}
	return out
}

// Clone is a deep copy.
func (f *File) Clone() *File {
	c := *f
	c.Nodes = CloneAll(f.Nodes)
	return &c
}

type renderer struct {
	lines  []string
	proto2 bool
}

// Render sets the lines of all nodes and returns the source.
func (f *File) Render() string {
	r := &renderer{proto2: f.Proto2}
	if f.Head != "" {
		r.lines = strings.Split(strings.TrimSuffix(f.Head, "\n"), "\n")
	}
	for _, n := range f.Nodes {
		r.node(n, 0, "")
	}
	return strings.Join(r.lines, "\n") + "\n"
}

func (r *renderer) close(n *Node, ind string) {
	n.ClosingLine = len(r.lines) + 1
	if n.Closing != "" {
		ind += "} " + n.Closing
	} else {
		ind += "}"
	}
	r.lines = append(r.lines, ind)
}

func (r *renderer) node(n *Node, depth int, parent string) {
	ind := strings.Repeat("  ", depth)
	for i, c := range n.Above {
		if i == 0 {
			n.AboveLine = len(r.lines) + 1
		}
		r.lines = append(r.lines, ind+c)
	}
	if n.Gap {
		r.lines = append(r.lines, "")
	}
	if n.Kind == "comment" {
		return
	}
	n.Line = len(r.lines) + 1
	inline := ""
	if n.Inline != "" {
		inline = " " + n.Inline
	}
	opts := ""
	if len(n.Opts) > 0 {
		opts = " [" + strings.Join(n.Opts, ", ") + "]"
	}
	label := n.Mod
	if label == "" && r.proto2 && parent != "oneof" {
		label = "optional"
	}
	if label != "" {
		label += " "
	}
	put := func(format string, args ...interface{}) {
		r.lines = append(r.lines, ind+fmt.Sprintf(format, args...)+inline)
	}
	block := func(head string) {
		if len(n.Kids) == 0 {
			put("%s {}", head)
			return
		}
		put("%s {", head)
		for _, k := range n.Kids {
			r.node(k, depth+1, n.Kind)
		}
		r.close(n, ind)
	}
	switch n.Kind {
	case "syntax":
		put("syntax = %q;", n.Name)
	case "package":
		put("package %s;", n.Name)
	case "import":
		mod := n.Mod
		if mod != "" {
			mod += " "
		}
		put("import %s%q;", mod, n.Type)
	case "option":
		put("option %s = %s;", n.Name, n.Type)
	case "message", "extend", "enum", "oneof", "service":
		block(n.Kind + " " + n.Name)
	case "group":
		block(fmt.Sprintf("%sgroup %s = %d", label, n.Name, n.Num))
	case "value":
		put("%s = %d%s;", n.Name, n.Num, opts)
	case "field":
		put("%s%s %s = %d%s;", label, n.Type, n.Name, n.Num, opts)
	case "map":
		put("map<%s> %s = %d%s;", n.Type, n.Name, n.Num, opts)
	case "reserved", "extensions":
		put("%s %s;", n.Kind, n.Type)
	case "rpc":
		s := func(stream bool, t string) string {
			if stream {
				return "stream " + t
			}
			return t
		}
		head := fmt.Sprintf("rpc %s(%s) returns (%s)", n.Name, s(n.ReqStream, n.Req), s(n.ResStream, n.Res))
		switch {
		case len(n.Kids) > 0:
			r.lines = append(r.lines, ind+head+" {"+inline)
			for _, k := range n.Kids {
				r.node(k, depth+1, n.Kind)
			}
			r.close(n, ind)
		case n.Body:
			put("%s {}", head)
		default:
			put("%s;", head)
		}
	default:
		panic(n.Kind)
	}
}

// Constructors.

// Syntax is a syntax statement.
func Syntax(v string) *Node { return &Node{Kind: "syntax", Name: v} }

// Package is a package statement.
func Package(v string) *Node { return &Node{Kind: "package", Name: v} }

// Import is an import of a path.
func Import(path, mod string) *Node { return &Node{Kind: "import", Type: path, Mod: mod} }

// Option is an option statement with a literal.
func Option(name, literal string) *Node { return &Node{Kind: "option", Name: name, Type: literal} }

// Message is a message.
func Message(name string, kids ...*Node) *Node { return &Node{Kind: "message", Name: name, Kids: kids} }

// Extend is an extend block.
func Extend(name string, kids ...*Node) *Node { return &Node{Kind: "extend", Name: name, Kids: kids} }

// Enum is an enum.
func Enum(name string, kids ...*Node) *Node { return &Node{Kind: "enum", Name: name, Kids: kids} }

// Value is an enum value.
func Value(name string, num int) *Node { return &Node{Kind: "value", Name: name, Num: num} }

// Field is a field.
func Field(typ, name string, num int) *Node {
	return &Node{Kind: "field", Type: typ, Name: name, Num: num}
}

// Map is a map field.
func Map(types, name string, num int) *Node {
	return &Node{Kind: "map", Type: types, Name: name, Num: num}
}

// Oneof is a oneof.
func Oneof(name string, kids ...*Node) *Node { return &Node{Kind: "oneof", Name: name, Kids: kids} }

// Group is a proto2 group.
func Group(name string, num int, kids ...*Node) *Node {
	return &Node{Kind: "group", Name: name, Num: num, Kids: kids}
}

// Service is a service.
func Service(name string, kids ...*Node) *Node { return &Node{Kind: "service", Name: name, Kids: kids} }

// RPC is a method.
func RPC(name, req, res string, kids ...*Node) *Node {
	return &Node{Kind: "rpc", Name: name, Req: req, Res: res, Kids: kids}
}

// Reserved is a reserved statement.
func Reserved(what string) *Node { return &Node{Kind: "reserved", Type: what} }

// Extensions is an extensions statement.
func Extensions(what string) *Node { return &Node{Kind: "extensions", Type: what} }

// With returns n with a change applied.
func (n *Node) With(f func(n *Node)) *Node {
	f(n)
	return n
}

// Doc sets the comment above.
func (n *Node) Doc(lines ...string) *Node {
	n.Above = lines
	return n
}

//go:build go1.22

// Package fmtgen enumerates Protobuf sources out of an alphabet of constructs
// for the formatter.
package fmtgen

import (
	"fmt"
	"regexp"
	"strings"
)

// Opts is the file that declares the custom options.
var Opts = func() string {
	s := `syntax = "proto2";

package opts;

import "google/protobuf/any.proto";
import "google/protobuf/descriptor.proto";

message Opt {
  optional string s = 1;
  optional int32 i = 2;
  optional Opt m = 3;
  repeated int32 r = 4;
  repeated Opt rm = 5;
  optional bool b = 6;
  optional E e = 7;
  optional double d = 8;
  repeated string rs = 9;
  optional google.protobuf.Any any = 10;
  optional bytes by = 11;
  optional group Grp = 12 {
    optional string s = 1;
  }
  extensions 100 to 200;
}

enum E {
  E_0 = 0;
  E_1 = 1;
}

message Ext {
  extensions 100 to 10000;
}

message Outer {
  message Inner {}
  enum InnerEnum {
    INNER_0 = 0;
    INNER_1 = 1;
  }
}

extend Opt {
  optional int32 ox = 100;
  optional Opt om = 101;
}
`
	for _, k := range Kinds {
		s += fmt.Sprintf("\nextend google.protobuf.%sOptions {\n", k)
		p := Prefix(k)
		for i, t := range []string{"string s", "int32 i", "bool b", "double d", "E e", "Opt m", "bytes by"} {
			x := strings.Split(t, " ")
			s += fmt.Sprintf("  optional %s %s_%s = %d;\n", x[0], p, x[1], 50001+i)
		}
		s += fmt.Sprintf("  repeated string %s_rs = 50010;\n  repeated Opt %s_rm = 50011;\n  repeated int32 %s_r = 50012;\n}\n", p, p, p)
	}
	return s
}()

// Kinds of things that have options.
var Kinds = []string{"File", "Message", "Field", "Oneof", "Enum", "EnumValue", "Service", "Method"}

// Prefix of the names of the options of the kind.
func Prefix(kind string) string { return strings.ToLower(kind) }

// Literal is a value of an option: Name is the suffix of the option.
type Literal struct {
	Name, Text string
}

// Literals of all kinds of options.
func Literals() []Literal {
	var out []Literal
	add := func(name string, texts ...string) {
		for _, t := range texts {
			out = append(out, Literal{name, t})
		}
	}
	strs := []string{`"x"`, `""`, `''`, `'x'`, `"it's"`, `'say "hi"'`, `"a\"b"`, `'a\'b'`, `"a\\"`, `"\n\t\r"`, `"\x01\377\001"`, `"// no comment"`, `"/* no comment */"`, `"{}[];="`, `"é世"`, `'é世'`, `"a  b"`, `'a  b'`, `' a'`, `'// no'`, `'a;b'`, `"a" "b"`, `"a" 'b'`, `'a' "b"`, `'it' "'s"`, `"a'" 'b"'`, `"x" ""`, "\"a\"\n    \"b\"", `"%s %d"`, `"$"`, `"\?\a\b\f\v"`, `"\u00e9"`, `'\\'`, `'\n'`}
	add("s", strs...)
	add("by", `"x"`, `"\000\001"`, `"\x00\xff"`)
	ints := []string{"0", "1", "-1", "- 1", "2147483647", "-2147483648", "0x10", "0X1F", "010", "-0x10", "-010"}
	add("i", ints...)
	add("b", "true", "false")
	add("d", "1.5", "-1.5", "1", "-1", "1e10", "1E-10", "-1.5e+3", "inf", "-inf", "nan", "0.0", ".5", "1.", "0x10", "1e400")
	add("e", "E_0", "E_1")
	aggr := []string{
		`{}`, `{ }`, `{s: "x"}`, `{s: "x" i: 1}`, `{s: "x", i: 1}`, `{s: "x"; i: 1}`, `{s: "x", i: 1,}`, `{s: "x"; i: 1;}`,
		`{m {s: "x"}}`, `{m: {s: "x"}}`, `{m: {}}`, `{m {}}`, `{m: {m: {m: {s: "x"}}}}`, `{m: <s: "x">}`, `{m <s: "x">}`,
		`{r: 1}`, `{r: [1]}`, `{r: [1, 2]}`, `{r: []}`, `{r: 1 r: 2}`, `{r: 1, r: [2, 3], r: 4}`, `{r: [ -1, 2 ]}`,
		`{rm {s: "x"} rm {s: "y"}}`, `{rm: {s: "x"}, rm: {s: "y"}}`, `{rm: [{s: "x"}, {s: "y"}]}`, `{rm: [{s: "x"}]}`, `{rm: [{}, {s: "y"}]}`, `{rm: [{}]}`, `{rm: []}`, `{rm: [{rm: [{s: "x"}, {i: 1}]}]}`,
		`{rm [{s: "x"}, {s: "y"}]}`, `{rm: {} rm: {}}`,
		`{rs: "a" rs: "b"}`, `{rs: ["a", "b"]}`, `{rs: ["a" "b", 'c']}`, `{rs: [""]}`, `{rs: "" rs: "x"}`, `{rs: ["", "x"]}`,
		`{b: true e: E_1 d: 1.5}`, `{b: false}`, `{e: E_0}`, `{d: -1.5}`, `{d: inf}`, `{d: -inf}`, `{d: nan}`, `{d: 1e10}`, `{d: 1.5f}`, `{i: -1}`, `{i: 0x10}`, `{i: 0}`, `{b: 1}`, `{b: t}`,
		`{s: "a" "b"}`, `{s: 'a' "b"}`, `{s: "a" 'b' i: 1}`, `{s: 'x'}`, `{s: 'say "hi"'}`, `{s: ""}`, `{s: '' i: 1}`, `{s: "" i: 1}`, `{s: "{}"}`, `{s: "a: b"}`, `{s: "a\"b"}`, `{s: "// x"}`, `{s: "# x"}`, `{s: "\n"}`, `{s: "é"}`,
		"{\n    s: \"a\"\n    \"b\"\n  }",
		`{[opts.ox]: 1}`, `{s: "x" [opts.ox]: 1}`, `{[opts.om] {s: "x"}}`, `{[opts.om]: {s: "x"}}`,
		`{any {[type.googleapis.com/opts.Opt] {s: "x"}}}`,
		`{Grp {s: "x"}}`, `{Grp: {s: "x"}}`,
		`{by: "\000\x01"}`, `{s : "x"}`, `{s:"x"i:1}`,
		`{s: "x" # comment` + "\n}", `{ # comment` + "\n s: \"x\"}",
	}
	add("m", aggr...)
	add("rs", `"x"`, `""`)
	add("m.s", `"x"`, `""`, `'x'`)
	add("m.i", "1")
	add("m.m", `{s: "x"}`, `{}`)
	add("m.m.s", `"x"`)
	add("rm", `{s: "x"}`, `{}`)
	return out
}

// Option renders an option of the kind. form 0: (opts.x), 1: (.opts.x), 2: ( opts.x ).
func Option(kind string, l Literal, form int) string {
	name := Prefix(kind) + "_" + l.Name
	sub := ""
	if i := strings.Index(name, "."); i >= 0 {
		name, sub = name[:i], name[i:]
	}
	switch form {
	case 1:
		return "(.opts." + name + ")" + sub + " = " + l.Text
	case 2:
		return "( opts." + name + " )" + sub + "=" + l.Text
	}
	return "(opts." + name + ")" + sub + " = " + l.Text
}

// Extension renders (opts.kind_m).(opts.ox) = 1.
func Extension(kind string) string { return "(opts." + Prefix(kind) + "_m).(opts.ox) = 1" }

// WithOptions is a file in which one element of the kind has the options.
func WithOptions(syntax, kind string, options ...string) string {
	opt := ""
	if syntax == "proto2" {
		opt = "optional "
	}
	stmt := func(indent string) string {
		s := ""
		for _, o := range options {
			s += indent + "option " + o + ";\n"
		}
		return s
	}
	list := strings.Join(options, ", ")
	s := header(syntax)
	if kind == "File" {
		s += stmt("") + "\n"
	}
	s += "message M {\n"
	if kind == "Message" {
		s += stmt("  ")
	}
	if kind == "Field" {
		s += "  " + opt + "string a = 1 [" + list + "];\n  repeated int32 b = 2 [" + list + "];\n  map<string, int32> c = 3 [" + list + "];\n  oneof p {\n    string d = 4 [" + list + "];\n  }\n"
	}
	if kind == "Oneof" {
		s += "  oneof o {\n" + stmt("    ") + "    string x = 5;\n  }\n"
	}
	s += "}\n\nenum E {\n"
	if kind == "Enum" {
		s += stmt("  ")
	}
	s += "  E_0 = 0"
	if kind == "EnumValue" {
		s += " [" + list + "]"
	}
	s += ";\n}\n\nservice S {\n"
	if kind == "Service" {
		s += stmt("  ")
	}
	s += "  rpc A(M) returns (M)"
	if kind == "Method" {
		s += " {\n" + stmt("    ") + "  }\n"
	} else {
		s += ";\n"
	}
	s += "}\n"
	return s
}

func header(syntax string) string {
	return "syntax = \"" + syntax + "\";\n\npackage p.v1;\n\nimport \"opts/opts.proto\";\n\n"
}

// Atom is a construct that is placed in a slot. $a is a unique lower case name,
// $A a unique upper case one, $1 to $3 unique numbers.
type Atom struct {
	Slot, Text, Syntax string
}

// Atoms are all constructs.
func Atoms() []Atom {
	var out []Atom
	add := func(slot, syntax string, texts ...string) {
		for _, t := range texts {
			out = append(out, Atom{slot, t, syntax})
		}
	}
	add("import", "", `import "google/protobuf/timestamp.proto";`, `import public "google/protobuf/empty.proto";`, `import weak "google/protobuf/duration.proto";`, `import 'google/protobuf/struct.proto';`)
	add("fileoption", "", `option java_package = "x";`, `option java_multiple_files = true;`, `option optimize_for = CODE_SIZE;`, `option optimize_for=SPEED;`, `option deprecated = true;`, `option go_package = 'xpb';`)
	add("file", "", `message $A {}`, `message $A { }`, `message $A {;}`, `message $A { string message = 1; }`[0:0]+`message $A { message $AB { message $AC {} } }`, `enum $A { $A_0 = 0; }`, `service $A {}`, `;`,
		`service $A { rpc B(opts.Opt) returns (opts.Opt); }`, `enum $A { option allow_alias = true; $A_0 = 0; $A_1 = 0; }`)
	add("file", "proto2", `extend opts.Ext { optional string $a = $1; }`, `extend opts.Ext { repeated opts.Opt $a = $1 [deprecated = true]; optional .opts.Outer.Inner $ax = $2; }`, `extend .opts.Ext { optional group $A = $1 { optional string s = 1; } }`)
	for _, t := range []string{"double", "float", "int32", "uint64", "sint32", "fixed32", "sfixed64", "bool", "string", "bytes", "opts.Opt", ".opts.Opt", ".opts.Outer.Inner", "opts.E"} {
		if t != "opts.E" {
			add("message", "proto3", t+" $a = $1;")
		}
		add("message", "", "repeated "+t+" $a = $1;", "map<string, "+t+"> $a = $1;", "oneof $a { "+t+" $ax = $1; }")
		add("message", "proto2", "optional "+t+" $a = $1;", "required "+t+" $a = $1;")
	}
	add("message", "", "map<int32,string> $a = $1;", "map < bool , .opts.Outer.Inner > $a = $1;", "map<uint64, opts.Opt> $a = $1 [deprecated = true];",
		"repeated string $a=$1;", "repeated string $a = $1 [deprecated=true];", "repeated string $a = $1[json_name = \"x$a\"];", "repeated int32 $a = $1 [packed = false, deprecated = true];", "repeated int32 $a = $1 [packed = true];",
		"repeated string $a = $1 [ctype = CORD];", "repeated int64 $a = $1 [jstype = JS_STRING];", "repeated opts.Opt $a = $1 [lazy = true];",
		"reserved $1;", "reserved $1, $2;", "reserved $1 to $2;", "reserved $1 to $2, $3;", "reserved 100000 to max;", "reserved $1to $2;"[0:0]+"reserved \"x$a\";", "reserved \"x$a\", \"y$a\";", "reserved 'x$a';", "reserved \"x$a\", 'y$a';", "reserved $1 to $1;", "reserved\n$1\n,\n$2\n;",
		"oneof $a { string $ax = $1; int32 $ay = $2; }", "oneof $a { string $ax = $1 [deprecated = true]; }", "oneof $a { opts.Opt $ax = $1; opts.E $ay = $2; }",
		"message $A {}", "message $A { repeated string s = 1; }", "message $A { message B { message C { repeated string s = 1; } } }", "message $A { enum B { B_0 = 0; } repeated B s = 1; }", "enum $A { $A_0 = 0; }", "enum $A { $A_0 = 0; $A_1 = 1; reserved 2; reserved \"X\"; }", ";",
		"option deprecated = true;", "option no_standard_descriptor_accessor = true;",
		"repeated string message = $1;", "repeated string enum = $1;", "repeated string rpc = $1;", "repeated string option = $1;", "repeated string syntax = $1;", "repeated string package = $1;", "repeated string import = $1;", "repeated string service = $1;", "repeated string returns = $1;", "repeated string stream = $1;", "repeated string oneof = $1;", "repeated string map = $1;", "repeated string reserved = $1;", "repeated string repeated = $1;", "repeated string optional = $1;", "repeated string required = $1;", "repeated string extend = $1;", "repeated string extensions = $1;", "repeated string group = $1;", "repeated string max = $1;", "repeated string to = $1;", "repeated string true = $1;", "repeated string inf = $1;", "repeated string weak = $1;", "repeated string public = $1;",
		"message message {}", "message stream {}", "message Group {}", "repeated string $a = 0x1$1;", "repeated string $a = 01$1;")
	add("message", "proto3", "optional string $a = $1;", "optional opts.Opt $a = $1 [deprecated = true];", "string $a = $1 [deprecated = true, json_name = \"x$a\"];")
	add("message", "proto2", "optional string $a = $1 [default = \"x\"];", "optional string $a = $1 [default = 'it\\'s', deprecated = true];", "optional string $a = $1 [default = \"\"];", "optional bytes $a = $1 [default = \"\\000\\xff\"];", "optional int32 $a = $1 [default = -1];", "optional double $a = $1 [default = inf];", "optional double $a = $1 [default = -inf];", "optional double $a = $1 [default = 1e10];", "optional float $a = $1 [default = .5];", "optional bool $a = $1 [default = true];", "optional opts.E $a = $1 [default = E_1];", "optional string $a = $1 [default = \"a\" \"b\"];", "optional int32 $a = $1 [default = 0x10];", "optional string $a = $1 [default = \"\", deprecated = true];",
		"extensions $1;", "extensions $1, $2;", "extensions $1 to $2;", "extensions 100000 to max;", "extensions $1 to $2, $3;",
		"optional group $A = $1 { optional string s = 1; }", "repeated group $A = $1 { repeated string s = 1; }", "required group $A = $1 { optional string s = 1; }", "optional group $A = $1 {}", "repeated group $A = $1 { optional group B = 1 { optional string s = 1; } }", "optional group $A = $1 { option deprecated = true; optional string s = 1; }", "optional group $A = $1 [deprecated = true] { optional string s = 1; }", "optional group $A = $1 { message X {} enum Y { Y_0 = 0; } oneof o { string z = 1; } reserved 5; extensions 10 to 20; }",
		"oneof $a { string $ax = $1; group $A = $2 { optional string s = 1; } }",
		"extend opts.Ext { optional string $a = $1; }", "extend opts.Ext { repeated group $A = $1 { optional string s = 1; } }", "option message_set_wire_format = false;")
	add("enum", "", "$A_N = $1;", "$A_N=$1;", "$A_N = -$1;", "$A_N = - $1;", "$A_N = 0x1$1;", "$A_N = $1 [deprecated = true];", "$A_N = $1[(opts.enumvalue_s) = \"x\", deprecated = true];", "reserved $1;", "reserved $1 to $2;", "reserved -$1;", "reserved -$2 to -$1;", "reserved $1 to max;", "reserved \"X$A\";", "reserved 'X$A', \"Y$A\";", "option deprecated = true;", ";", "$A = 2147483647;", "$A = -2147483648;", "message = $1;", "option = $1;", "reserved = $1;", "enum = $1;", "max = $1;", "reserved -$1, $1;", "reserved -$1 to $1;")
	add("service", "", "rpc $A(opts.Opt) returns (opts.Opt);", "rpc $A (opts.Opt) returns (opts.Opt) {}", "rpc $A(stream opts.Opt) returns (opts.Opt);", "rpc $A(opts.Opt) returns (stream opts.Opt) {};", "rpc $A(stream .opts.Opt) returns (stream .opts.Outer.Inner);", "rpc $A(opts.Opt) returns (opts.Opt) { option deprecated = true; }", "rpc $A(opts.Opt) returns (opts.Opt) { option deprecated = true; option idempotency_level = NO_SIDE_EFFECTS; }", "rpc $A(opts.Opt) returns (opts.Opt) { ; }", "rpc $A(opts.Opt)returns(opts.Opt);", "option deprecated = true;", ";", "rpc stream(opts.Opt) returns (opts.Opt);", "rpc rpc(opts.Opt) returns (opts.Opt);", "rpc option(opts.Opt) returns (opts.Opt);", "rpc $A(stream. opts.Opt) returns (opts.Opt);"[0:0]+"rpc $A(stream stream.Opt) returns (opts.Opt);"[0:0]+"rpc $A(opts.Opt) returns (opts.Opt) { option (opts.method_m) = {s: \"x\"}; };")
	var keep []Atom
	for _, a := range out {
		if a.Text != "" {
			keep = append(keep, a)
		}
	}
	return keep
}

// File renders a file with the atoms in their slots. nest says where the message
// slot is: 0 top level message, 1 nested message, 2 group (proto2), 3 deeper.
func File(syntax string, nest int, atoms ...Atom) string {
	slots := map[string]string{}
	for i, a := range atoms {
		t := a.Text
		l := string(rune('a' + i))
		t = strings.NewReplacer("$a", "f"+l, "$A", "T"+strings.ToUpper(l), "$1", fmt.Sprint(100+10*i), "$2", fmt.Sprint(103+10*i), "$3", fmt.Sprint(105+10*i)).Replace(t)
		indent := "  "
		if a.Slot == "file" || a.Slot == "import" || a.Slot == "fileoption" {
			indent = ""
		}
		slots[a.Slot] += indent + t + "\n"
	}
	s := "syntax = \"" + syntax + "\";\n\npackage p.v1;\n\nimport \"opts/opts.proto\";\n" + slots["import"] + "\n" + slots["fileoption"] + "\n"
	m := slots["message"]
	switch nest {
	case 0:
		s += "message M {\n" + m + "}\n\n"
	case 1:
		s += "message M {\n  message N {\n" + m + "  }\n}\n\n"
	case 2:
		s += "message M {\n  optional group G = 1 {\n" + m + "  }\n}\n\n"
	case 3:
		s += "message M {\n  message N {\n    message O {\n" + m + "    }\n    repeated string last = 1;\n  }\n  repeated N last = 1;\n}\n\n"
	}
	if slots["enum"] != "" {
		s += "enum Main {\n  MAIN_0 = 0;\n" + slots["enum"] + "}\n\n"
	}
	if slots["service"] != "" {
		s += "service Main2 {\n" + slots["service"] + "}\n\n"
	}
	return s + slots["file"]
}

var tokenRE = regexp.MustCompile(`(?s)//[^\n]*|/\*.*?\*/|#[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\.?[0-9][A-Za-z0-9_.]*(?:[eE][-+][0-9]+)?|[.A-Za-z_][A-Za-z0-9_.]*|[^ \n\t]`)

// Tokens splits a source.
func Tokens(src string) []string { return tokenRE.FindAllString(src, -1) }

// Layouts of a file without comments.
var Layouts = []string{"plain", "joined", "exploded", "crlf", "tabs"}

// Layout renders the source in the layout.
func Layout(layout, src string) string {
	switch layout {
	case "joined":
		return strings.Join(Tokens(src), " ") + "\n"
	case "exploded":
		return strings.Join(Tokens(src), "\n\n") + "\n"
	case "crlf":
		return strings.Replace(src, "\n", "\r\n", -1)
	case "tabs":
		return "\n\n" + strings.Replace(src, "  ", "\t", -1)
	}
	return src
}

// Commented is a file with all statements, for comments between its tokens.
func Commented(syntax string) string {
	opt := ""
	if syntax == "proto2" {
		opt = "optional "
	}
	return strings.Replace(header(syntax)+`import public "google/protobuf/empty.proto";

option java_package = "x";
option (opts.file_m) = { s: "x" rm: [ { i: 1 } , { i: 2 } ] m { s: "y" } };

message M {
  option (opts.message_s) = "x";
  option (opts.message_m) = { s: "x" r: [ 1 , 2 ] };
  OPTstring a = 1;
  repeated .opts.Opt b = 2 [deprecated = true];
  OPTstring c = 3 [(opts.field_s) = "x", (opts.field_m) = { s: "x" r: 1 }];
  map<string, int32> d = 4 [deprecated = true];
  oneof o {
    option (opts.oneof_s) = "x";
    string e = 5;
    .opts.Opt f = 6 [deprecated = true, json_name = "g"];
  }
  reserved 7, 8 to 9;
  reserved "r", "s";
  message N {
    OPTstring a = 1;
  }
  enum F {
    F_0 = 0;
  }
  message Empty {
  }
}

enum E {
  option (opts.enum_s) = "x";
  E_0 = 0;
  E_1 = 1 [deprecated = true];
  E_2 = -2 [(opts.enumvalue_s) = "x", (opts.enumvalue_m) = { s: "x" }];
  reserved 7, 8 to 9;
  reserved "R", "S";
}

service S {
  option (opts.service_s) = "x";
  rpc A(M) returns (stream M);
  rpc B(stream M) returns (M) {
  }
  rpc C(M) returns (M) {
    option (opts.method_s) = "x";
    option (opts.method_m) = { s: "x" };
  }
}
`, "OPT", opt, -1) + map[bool]string{true: `
extend opts.Ext {
  optional string x = 100;
  repeated group G = 101 {
    optional string a = 1;
  }
}

message P {
  extensions 100 to 200, 300;
  optional string a = 1 [default = "x"];
  optional group H = 2 {
    optional string b = 1;
  }
  extend opts.Ext {
    optional string y = 102;
  }
}
`}[syntax == "proto2"]
}

// CommentTexts are texts that look like something else.
var CommentTexts = []string{"a", "}", "{", ";", "\"", "'", "// b", "/* b", "* b", "*", "TODO: b", "option x = 1;", "message A {}", "\\", "é世", "%s %d", "a  b", "\tb", "@b", "/", "=== b ===", "[b]", "b */"}

// Styles are the names of the CommentStyles.
var Styles = []string{"own-line", "end-of-line", "c-own-line", "c-inline", "c-two-lines", "c-star-lines", "detached", "two-lines"}

// CommentStyles: how a comment with the text stands between two tokens.
var CommentStyles = map[string]string{
	"own-line":     "\n// %s\n",
	"end-of-line":  " // %s\n",
	"c-own-line":   "\n/* %s */\n",
	"c-inline":     " /* %s */ ",
	"c-two-lines":  "\n/* %s\n   second */\n",
	"c-star-lines": "\n/**\n * %s\n */\n",
	"detached":     "\n\n// %s\n\n",
	"two-lines":    "\n// %s\n// second\n",
}

// Gap is a place between two tokens. Kind is "statement" between two statements
// (or at the ends of a block or file), "rpc" between the statements in the body of
// an rpc, "option" before an option in brackets, and "inside" elsewhere: within a statement.
type Gap struct {
	At           int
	Kind         string
	Before, Next string // the surrounding tokens, for labels
}

// Gaps are the places between the tokens of the source, each directly after the
// previous token.
func Gaps(src string) (out []Gap) {
	locs := tokenRE.FindAllStringIndex(src, -1)
	var toks []string
	for _, l := range locs {
		toks = append(toks, src[l[0]:l[1]])
	}
	toks = append(toks, "EOF")
	var stack []string // of open brackets: body, aggregate, options, list, other
	kind, at := "statement", 0
	for i := 0; i <= len(locs); i++ {
		if i > 0 {
			at = locs[i-1][1]
			top := ""
			if len(stack) > 0 {
				top = stack[len(stack)-1]
			}
			prev := ""
			if i > 1 {
				prev = toks[i-2]
			}
			kind = "inside"
			switch t := toks[i-1]; t {
			case "{":
				// "= {", ": {", "m {" and "[ {" in an aggregate
				if prev == "=" || top == "aggregate" || top == "list" {
					stack = append(stack, "aggregate")
				} else {
					stack = append(stack, "body")
					kind = "statement"
					for j := i - 2; j > 0 && toks[j] != ";" && toks[j] != "}" && toks[j] != "{"; j-- {
						if toks[j] == "rpc" {
							stack[len(stack)-1] = "rpc"
							kind = "rpc"
						}
					}
				}
			case "[":
				if top == "aggregate" {
					stack = append(stack, "list")
				} else {
					stack = append(stack, "options")
					kind = "option"
				}
			case "(":
				stack = append(stack, "other")
			case "}", "]", ")":
				stack = stack[:len(stack)-1]
				if t == "}" && (top == "body" || top == "rpc") {
					kind = "statement"
				}
			case ";":
				if top == "body" || top == "" {
					kind = "statement"
				}
				if top == "rpc" {
					kind = "rpc"
				}
			case ",":
				if top == "options" {
					kind = "option"
				}
			}
		}
		lo, hi := i-4, i+3
		if lo < 0 {
			lo = 0
		}
		if hi > len(toks) {
			hi = len(toks)
		}
		out = append(out, Gap{at, kind, strings.Join(toks[lo:i], " "), strings.Join(toks[i:hi], " ")})
	}
	return out
}

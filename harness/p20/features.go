//go:build go1.22

package main

type featureTree struct {
	name  string
	files map[string]string
}

const p3 = "syntax = \"proto3\";\n"
const p2 = "syntax = \"proto2\";\n"

// options declares options for everything.
const options = p2 + `package opts;
import "google/protobuf/descriptor.proto";
message Value {
  optional string s = 1;
  repeated int32 n = 2;
  optional Value v = 3;
  optional group G = 4 {
    optional bytes b = 5;
  }
  extensions 100 to 200;
}
extend Value {
  optional string more = 100;
}
enum E {
  E_ZERO = 0;
  E_NEG = -1;
}
extend google.protobuf.FileOptions {
  optional Value file = 50001;
  repeated string names = 50002;
}
extend google.protobuf.MessageOptions {
  optional Value message = 50001;
  repeated Value messages = 50003;
}
extend google.protobuf.FieldOptions {
  optional double d = 50001;
  optional fixed64 f = 50002;
  repeated sint32 s = 50003 [packed = true];
  optional E e = 50004;
  optional bytes b = 50005;
}
extend google.protobuf.OneofOptions {
  optional bool oneof = 50001;
}
extend google.protobuf.EnumOptions {
  optional float enum = 50001;
}
extend google.protobuf.EnumValueOptions {
  optional uint64 value = 50001;
}
extend google.protobuf.ServiceOptions {
  optional Value service = 50001;
}
extend google.protobuf.MethodOptions {
  optional Value method = 50001;
}
`

var featureTrees = []featureTree{
	{"one empty file", map[string]string{"a.proto": p3 + "package a;\n"}},
	{"no package", map[string]string{"a.proto": p3 + "message A {\n}\n", "b/b.proto": p3 + "import \"a.proto\";\nmessage B {\n  A a = 1;\n}\n"}},
	{"same package in two directories", map[string]string{"a/a.proto": p3 + "package a;\nmessage A {\n}\n", "b/b.proto": p3 + "package a;\nimport \"a/a.proto\";\nmessage B {\n  A a = 1;\n}\n"}},
	{"same base name", map[string]string{"a/a.proto": p3 + "package a;\n", "b/a.proto": p3 + "package b;\nimport \"a/a.proto\";\n", "a.proto": p3 + "package c;\nimport \"b/a.proto\";\n"}},
	{"well-known types", map[string]string{
		"a/a.proto": p3 + "package a;\nimport \"google/protobuf/timestamp.proto\";\nmessage A {\n  google.protobuf.Timestamp t = 1;\n}\n",
		"b/b.proto": p3 + "package b;\nimport \"google/protobuf/timestamp.proto\";\nimport \"google/protobuf/type.proto\";\nimport \"a/a.proto\";\nmessage B {\n  google.protobuf.Type t = 1;\n  a.A a = 2;\n}\n"}},
	{"options for everything", map[string]string{
		"opts/opts.proto": options,
		"a/a.proto": p2 + `package a;
import "opts/opts.proto";
option (opts.file) = { s: "x" n: 1 n: 2 v { s: "y" } G { b: "\000\377" } };
option (opts.names) = "one";
option (opts.names) = "two";
message M {
  option (opts.message).s = "x";
  option (opts.message).n = 1;
  option (opts.message).n = 2;
  option (opts.message).v.v.s = "deep";
  option (opts.message).(opts.more) = "more";
  option (opts.messages) = { s: "1" };
  option (opts.messages) = { s: "2" [opts.more]: "x" };
  optional string f = 1 [(opts.d) = -1.5e-7, (opts.f) = 18446744073709551615, (opts.s) = -1, (opts.s) = 2, (opts.e) = E_NEG, (opts.b) = "\001\200", deprecated = true];
  oneof o {
    option (opts.oneof) = true;
    string g = 2;
  }
}
enum E {
  option (opts.enum) = 1.5;
  option allow_alias = true;
  A = 0 [(opts.value) = 7];
  B = 0;
}
service S {
  option (opts.service).s = "svc";
  rpc R(M) returns (stream M) {
    option (opts.method) = { n: [1, 2, 3] };
    option deprecated = true;
    option idempotency_level = IDEMPOTENT;
  }
}
`,
		"b/b.proto": p3 + `package b;
import "opts/opts.proto";
import "a/a.proto";
option (opts.names) = "b";
message N {
  option (opts.message).s = "n";
}
`}},
	{"options in one directory", map[string]string{
		"opts.proto": options,
		"a.proto":    p3 + "package a;\nimport \"opts.proto\";\nmessage M {\n  string f = 1 [(opts.d) = 1e300, (opts.s) = 3, (opts.s) = -4];\n}\n"}},
	{"options of options", map[string]string{
		"a/a.proto": p2 + "package a;\nimport \"google/protobuf/descriptor.proto\";\nextend google.protobuf.FieldOptions {\n  optional int32 x = 50001 [(a.x) = 7, (a.y) = \"z\"];\n  optional string y = 50002 [(a.x) = 1];\n}\n",
		"b/b.proto": p2 + "package b;\nimport \"a/a.proto\";\nmessage M {\n  optional int32 f = 1 [(a.x) = 9];\n}\n"}},
	{"unknown standard options of other languages", map[string]string{
		"a/a.proto": p3 + "package a;\noption java_package = \"com.a\";\noption java_multiple_files = true;\noption java_outer_classname = \"A\";\noption go_package = \"apb\";\noption csharp_namespace = \"A\";\noption objc_class_prefix = \"AXX\";\noption php_namespace = \"A\";\noption ruby_package = \"A\";\noption swift_prefix = \"A\";\noption php_class_prefix = \"P\";\noption php_metadata_namespace = \"Q\";\noption optimize_for = LITE_RUNTIME;\noption cc_enable_arenas = true;\noption cc_generic_services = true;\noption java_string_check_utf8 = true;\n"}},
	{"proto2 things", map[string]string{
		"a/a.proto": p2 + "package a;\nmessage A {\n  required int32 r = 1;\n  optional string d = 2 [default = \"\\001x\\n\"];\n  optional double i = 3 [default = inf];\n  optional double n = 4 [default = nan];\n  repeated int32 p = 5 [packed = true];\n  optional group Gr = 6 {\n    optional bytes b = 1 [default = \"\\xfe\"];\n  }\n  extensions 100 to 199, 300 to max;\n  reserved 50, 60 to 70;\n  reserved \"x\", \"y\";\n  enum En {\n    reserved 5, 7 to 9, 100 to max;\n    reserved \"Z\";\n    EA = 1;\n    EB = -1;\n  }\n  optional En en = 7 [default = EB];\n  extend A {\n    optional A nested = 101;\n  }\n}\nmessage S {\n  option message_set_wire_format = true;\n  extensions 4 to max;\n}\n",
		"b/b.proto": p2 + "package b;\nimport \"a/a.proto\";\nextend a.A {\n  optional int32 x = 100;\n  repeated group Q = 102 {\n    optional int32 z = 1;\n  }\n}\nmessage X {\n  extend a.S {\n    optional X x = 100;\n  }\n}\n"}},
	{"maps, oneofs and optionals", map[string]string{
		"a/a.proto": p3 + "package a;\nmessage A {\n  map<string, A> m = 1;\n  map<int32, B.C> n = 2;\n  oneof o {\n    string s = 3 [json_name = \"other\"];\n    B b = 4;\n  }\n  optional int32 p = 5;\n  optional B q = 6;\n  message B {\n    enum C {\n      Z = 0;\n    }\n  }\n}\n"}},
	{"services", map[string]string{
		"a/a.proto": p3 + "package a;\nimport \"b/b.proto\";\nservice S {\n  rpc A(b.R) returns (b.R);\n  rpc B(stream b.R) returns (b.R);\n  rpc C(b.R) returns (stream b.R) {}\n  rpc D(stream b.R) returns (stream b.R) { option deprecated = true; }\n}\n",
		"b/b.proto": p3 + "package b;\nmessage R {\n}\n"}},
	{"comments everywhere", map[string]string{
		"a/a.proto": "// detached\n\n// also\n\n// syntax\nsyntax = \"proto3\"; // trailing\n/* block */\npackage a; /* t */\n\n// detached of import\n\n// import\nimport \"b/b.proto\"; // t\n// message\nmessage M { // opening\n  // inner\n\n  // field\n  b.B f = 1; // t\n  // end\n}\n/* utf-8 ä€ */\nenum E {\n  Z = 0; // z\n}\n",
		"b/b.proto": "/* b */\nsyntax = \"proto3\";\r\npackage b;\r\nmessage B {\r\n}\r\n"}},
	{"public chain", map[string]string{
		"a/a.proto": p3 + "package a;\nmessage A {\n}\n",
		"b/b.proto": p3 + "package b;\nimport public \"a/a.proto\";\n",
		"c/c.proto": p3 + "package c;\nimport public \"b/b.proto\";\n",
		"d/d.proto": p3 + "package d;\nimport \"c/c.proto\";\nmessage D {\n  a.A a = 1;\n}\n"}},
	{"weak import", map[string]string{
		"a/a.proto": p3 + "package a;\nmessage A {\n}\n",
		"b/b.proto": p3 + "package b;\nimport weak \"a/a.proto\";\n"}},
	{"names with blanks and dots", map[string]string{
		"a dir/a file.proto": p3 + "package a;\nmessage A {\n}\n",
		"b.c/d.e.proto":      p3 + "package b;\nimport \"a dir/a file.proto\";\nmessage B {\n  a.A a = 1;\n}\n",
		"ünï/ç.proto":        p3 + "package u;\nimport \"b.c/d.e.proto\";\n"}},
}

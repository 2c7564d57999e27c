//go:build go1.22

package main

const apiProto = `syntax = "proto3";

package api.v1;

import "dep/v1/dep.proto";
import "google/protobuf/any.proto";
import "google/protobuf/duration.proto";
import "google/protobuf/empty.proto";
import "google/protobuf/field_mask.proto";
import "google/protobuf/struct.proto";
import "google/protobuf/timestamp.proto";
import "google/protobuf/wrappers.proto";

enum Color {
  COLOR_INVALID = 0;
  COLOR_RED = 1;
  COLOR_NEGATIVE = -1;
}

message M {
  string s = 1;
  int32 i = 2;
  int64 l = 3;
  uint64 u = 4;
  double d = 5;
  float f = 6;
  bool b = 7;
  bytes y = 8;
  Color e = 9;
  M m = 10;
  repeated string rs = 11;
  repeated int32 ri = 12;
  map<string, int64> ms = 13;
  map<int32, M> mi = 14;
  oneof o {
    string os = 15;
    int32 oi = 16;
    M om = 17;
  }
  google.protobuf.Timestamp t = 18;
  google.protobuf.Duration du = 19;
  google.protobuf.Any a = 20;
  google.protobuf.StringValue sv = 21;
  google.protobuf.Struct st = 22;
  google.protobuf.FieldMask fm = 23;
  google.protobuf.Empty em = 24;
  dep.v1.D dep = 25;
  string snake_case_name = 26;
  string custom = 27 [json_name = "zzz"];
  repeated Color re = 28;
  map<bool, Inner> mb = 29;
  sint64 si = 30;
  fixed32 fx = 31;
  sfixed64 sf = 32;
  google.protobuf.Value v = 33;
  google.protobuf.Int64Value lv = 34;
  message Inner {
    uint32 x = 1;
  }
}

service API {
  rpc Unary(M) returns (M);
  rpc ClientStream(stream M) returns (M);
  rpc ServerStream(M) returns (stream M);
  rpc BidiStream(stream M) returns (stream M);
  rpc ToDep(M) returns (dep.v1.D);
}
`

const depProto = `syntax = "proto3";

package dep.v1;

message D {
  string name = 1;
}

service API {
  rpc Unary(D) returns (D);
}
`

const twoProto = `syntax = "proto3";

package api.v1;

import "api/v1/api.proto";

service Other {
  rpc Unary(M) returns (M);
}

service APIs {
  rpc Unary(M) returns (M);
}
`

const oldProto = `syntax = "proto2";

package old.v1;

message P {
  required string name = 1;
  optional int32 number = 2 [default = 7];
  optional group Part = 3 {
    optional bool yes = 1;
  }
  repeated int64 many = 4 [packed = true];
  extensions 100 to 199;
}

extend P {
  optional string more = 100;
}

service Old {
  rpc Unary(P) returns (P);
}
`

// pairs are messages in JSON as given, in text format, and in JSON as printed ("" as given).
var pairs = []struct{ method, typ, in, text, out string }{
	{"api.v1.API/Unary", "api.v1.M", `{"s":"x"}`, `s:"x"`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"s":"äö\u0000\"\\\n€𝄞<>&"}`, `s:"\303\244\303\266\000\"\\\n\342\202\254\360\235\204\236<>&"`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"i":-2147483648}`, `i:-2147483648`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"i":"12"}`, `i:12`, `{"i":12}`},
	{"api.v1.API/Unary", "api.v1.M", `{"l":"-9223372036854775808"}`, `l:-9223372036854775808`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"l":9007199254740993}`, `l:9007199254740993`, `{"l":"9007199254740993"}`},
	{"api.v1.API/Unary", "api.v1.M", `{"u":"18446744073709551615"}`, `u:18446744073709551615`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"d":1.5e300,"f":-0.25}`, `d:1.5e300 f:-0.25`, `{"d":1.5e+300,"f":-0.25}`},
	{"api.v1.API/Unary", "api.v1.M", `{"d":"Infinity","f":"-Infinity"}`, `d:inf f:-inf`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"b":true}`, `b:true`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"y":"AP8Q"}`, `y:"\000\377\020"`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"e":"COLOR_RED"}`, `e:COLOR_RED`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"e":1}`, `e:COLOR_RED`, `{"e":"COLOR_RED"}`},
	{"api.v1.API/Unary", "api.v1.M", `{"e":"COLOR_NEGATIVE"}`, `e:COLOR_NEGATIVE`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"m":{"s":"in","m":{"i":2}}}`, `m{s:"in" m{i:2}}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"m":{}}`, `m{}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"rs":["a","","b"],"ri":[3,-1,0]}`, `rs:"a" rs:"" rs:"b" ri:3 ri:-1 ri:0`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"ms":{"k":"5"}}`, `ms{key:"k" value:5}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"mi":{"-3":{"s":"v"}}}`, `mi{key:-3 value{s:"v"}}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"mb":{"true":{"x":9}}}`, `mb{key:true value{x:9}}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"os":"one"}`, `os:"one"`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"oi":4}`, `oi:4`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"om":{"s":"q"}}`, `om{s:"q"}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"t":"2019-07-02T10:20:30.500Z"}`, `t{seconds:1562062830 nanos:500000000}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"du":"-1.000340012s"}`, `du{seconds:-1 nanos:-340012}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"sv":"wrapped"}`, `sv{value:"wrapped"}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"lv":"77"}`, `lv{value:77}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"st":{"k":[1,"two",null,{"x":true}]}}`, `st{fields{key:"k" value{list_value{values{number_value:1} values{string_value:"two"} values{null_value:NULL_VALUE} values{struct_value{fields{key:"x" value{bool_value:true}}}}}}}}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"v":"text"}`, `v{string_value:"text"}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"em":{}}`, `em{}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"dep":{"name":"d"}}`, `dep{name:"d"}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"snakeCaseName":"c","zzz":"z"}`, `snake_case_name:"c" custom:"z"`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"snake_case_name":"c"}`, `snake_case_name:"c"`, `{"snakeCaseName":"c"}`},
	{"api.v1.API/Unary", "api.v1.M", `{"re":["COLOR_RED","COLOR_INVALID"]}`, `re:COLOR_RED re:COLOR_INVALID`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"si":"-7","fx":8,"sf":"-9"}`, `si:-7 fx:8 sf:-9`, ``},
	{"api.v1.API/Unary", "api.v1.M", " {\n \"s\" :\t\"spaces\" } \n", `s:"spaces"`, `{"s":"spaces"}`},
	{"api.v1.API/Unary", "api.v1.M", `{"s":"a","i":1,"m":{"rs":["x"]},"os":"o","ms":{"z":"1"}}`, `s:"a" i:1 m{rs:"x"} os:"o" ms{key:"z" value:1}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"a":{"@type":"type.googleapis.com/dep.v1.D","name":"any"}}`, `a{[type.googleapis.com/dep.v1.D]{name:"any"}}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"a":{"@type":"type.googleapis.com/api.v1.M","i":3}}`, `a{[type.googleapis.com/api.v1.M]{i:3}}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"a":{"@type":"type.googleapis.com/old.v1.P","name":"n"}}`, `a{type_url:"type.googleapis.com/old.v1.P" value:"\n\001n"}`, ``},
	{"api.v1.API/Unary", "api.v1.M", `{"a":{"@type":"type.googleapis.com/google.protobuf.Duration","value":"2s"}}`, `a{[type.googleapis.com/google.protobuf.Duration]{seconds:2}}`, ``},
	{"api.v1.Other/Unary", "api.v1.M", `{"s":"other"}`, `s:"other"`, ``},
	{"api.v1.APIs/Unary", "api.v1.M", `{"s":"apis"}`, `s:"apis"`, ``},
	{"dep.v1.API/Unary", "dep.v1.D", `{"name":"dep"}`, `name:"dep"`, ``},
	{"old.v1.Old/Unary", "old.v1.P", `{"name":"n"}`, `name:"n"`, ``},
	{"old.v1.Old/Unary", "old.v1.P", `{"name":"","number":0}`, `name:"" number:0`, ``},
	{"old.v1.Old/Unary", "old.v1.P", `{"name":"n","part":{"yes":true},"many":["1","2"]}`, `name:"n" Part{yes:true} many:1 many:2`, ``},
	{"old.v1.Old/Unary", "old.v1.P", `{"name":"n","[old.v1.more]":"x"}`, `name:"n" [old.v1.more]:"x"`, ``},
}

// malformed requests
var malformed = []string{`{`, `{"s":1}`, `{"nope":1}`, `{"i":2147483648}`, `{"i":1.5}`, `{"e":"COLOR_BLUE"}`, `[]`, `"x"`, `1`, `{"s":"x"`, `{"s":"x"}}`, `{"s":"x"},`, `x`, `{"y":"!"}`, `{"l":"9223372036854775808"}`, `{"t":"yesterday"}`, `{"a":{"@type":"type.googleapis.com/no.such.Type","x":1}}`, `{'s':'x'}`}

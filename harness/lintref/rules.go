//go:build go1.22

package lintref

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Rule is one documented rule.
type Rule struct {
	ID     string
	Groups string
}

// Rules are all rules of docs/lint.md with their groups (g google, 1 uber1, 2 uber2).
var Rules = []Rule{
	{"COMMENTS_NO_C_STYLE", "12"},
	{"COMMENTS_NO_INLINE", "2"},
	{"ENUM_FIELD_NAMES_UPPER_SNAKE_CASE", "g12"},
	{"ENUM_FIELD_NAMES_UPPERCASE", ""},
	{"ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", "2"},
	{"ENUM_FIELD_PREFIXES", "1"},
	{"ENUM_FIELDS_HAVE_COMMENTS", ""},
	{"ENUM_FIELDS_HAVE_SENTENCE_COMMENTS", ""},
	{"ENUM_NAMES_CAMEL_CASE", "g12"},
	{"ENUM_NAMES_CAPITALIZED", "g12"},
	{"ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", "2"},
	{"ENUM_ZERO_VALUES_INVALID", "1"},
	{"ENUMS_HAVE_COMMENTS", ""},
	{"ENUMS_HAVE_SENTENCE_COMMENTS", "2"},
	{"ENUMS_NO_ALLOW_ALIAS", "12"},
	{"FIELDS_NOT_RESERVED", "2"},
	{"FILE_HEADER", "g12"},
	{"FILE_NAMES_LOWER_SNAKE_CASE", "2"},
	{"FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED", "2"},
	{"FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX", "1"},
	{"FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX", "2"},
	{"FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE", "12"},
	{"FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX", "12"},
	{"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX", "1"},
	{"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX", "2"},
	{"FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR", "2"},
	{"FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED", "2"},
	{"FILE_OPTIONS_REQUIRE_CSHARP_NAMESPACE", "2"},
	{"FILE_OPTIONS_REQUIRE_GO_PACKAGE", "12"},
	{"FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES", "12"},
	{"FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME", "12"},
	{"FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", "12"},
	{"FILE_OPTIONS_REQUIRE_OBJC_CLASS_PREFIX", "2"},
	{"FILE_OPTIONS_REQUIRE_PHP_NAMESPACE", "2"},
	{"FILE_OPTIONS_REQUIRE_RUBY_PACKAGE", ""},
	{"FILE_OPTIONS_CSHARP_NAMESPACE_SAME_IN_DIR", "2"},
	{"FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR", "12"},
	{"FILE_OPTIONS_JAVA_MULTIPLE_FILES_SAME_IN_DIR", "12"},
	{"FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR", "12"},
	{"FILE_OPTIONS_OBJC_CLASS_PREFIX_SAME_IN_DIR", "2"},
	{"FILE_OPTIONS_PHP_NAMESPACE_SAME_IN_DIR", "2"},
	{"FILE_OPTIONS_UNSET_JAVA_MULTIPLE_FILES", ""},
	{"FILE_OPTIONS_UNSET_JAVA_OUTER_CLASSNAME", ""},
	{"FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM", "12"},
	{"GOGO_NOT_IMPORTED", ""},
	{"IMPORTS_NOT_PUBLIC", "2"},
	{"IMPORTS_NOT_WEAK", "2"},
	{"MESSAGE_FIELD_NAMES_FILENAME", "2"},
	{"MESSAGE_FIELD_NAMES_FILEPATH", "2"},
	{"MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", "g12"},
	{"MESSAGE_FIELD_NAMES_LOWERCASE", ""},
	{"MESSAGE_FIELD_NAMES_NO_DESCRIPTOR", "2"},
	{"MESSAGE_FIELDS_DURATION", ""},
	{"MESSAGE_FIELDS_HAVE_COMMENTS", ""},
	{"MESSAGE_FIELDS_HAVE_SENTENCE_COMMENTS", ""},
	{"MESSAGE_FIELDS_NO_JSON_NAME", "2"},
	{"MESSAGE_FIELDS_NOT_FLOATS", ""},
	{"MESSAGE_FIELDS_TIME", ""},
	{"MESSAGE_NAMES_CAMEL_CASE", "g12"},
	{"MESSAGE_NAMES_CAPITALIZED", "g12"},
	{"MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", ""},
	{"MESSAGES_HAVE_COMMENTS", ""},
	{"MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", "2"},
	{"MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES", ""},
	{"NAMES_NO_COMMON", "2"},
	{"NAMES_NO_DATA", "2"},
	{"NAMES_NO_UUID", "2"},
	{"ONEOF_NAMES_LOWER_SNAKE_CASE", "12"},
	{"PACKAGE_IS_DECLARED", "12"},
	{"PACKAGE_LOWER_CASE", "2"},
	{"PACKAGE_LOWER_SNAKE_CASE", "1"},
	{"PACKAGE_MAJOR_BETA_VERSIONED", "2"},
	{"PACKAGE_NO_KEYWORDS", "2"},
	{"PACKAGES_SAME_IN_DIR", "12"},
	{"REQUEST_RESPONSE_NAMES_MATCH_RPC", "2"},
	{"REQUEST_RESPONSE_TYPES_AFTER_SERVICE", "2"},
	{"REQUEST_RESPONSE_TYPES_IN_SAME_FILE", "12"},
	{"REQUEST_RESPONSE_TYPES_ONLY_IN_FILE", "2"},
	{"REQUEST_RESPONSE_TYPES_UNIQUE", "12"},
	{"RPC_NAMES_CAMEL_CASE", "g12"},
	{"RPC_NAMES_CAPITALIZED", "g12"},
	{"RPC_OPTIONS_NO_GOOGLE_API_HTTP", ""},
	{"RPCS_HAVE_COMMENTS", ""},
	{"RPCS_HAVE_SENTENCE_COMMENTS", "2"},
	{"RPCS_NO_STREAMING", ""},
	{"SERVICE_NAMES_API_SUFFIX", "2"},
	{"SERVICE_NAMES_CAMEL_CASE", "g12"},
	{"SERVICE_NAMES_CAPITALIZED", "g12"},
	{"SERVICE_NAMES_MATCH_FILE_NAME", "2"},
	{"SERVICE_NAMES_NO_PLURALS", ""},
	{"SERVICES_HAVE_COMMENTS", ""},
	{"SERVICES_HAVE_SENTENCE_COMMENTS", "2"},
	{"SYNTAX_PROTO3", "12"},
	{"WKT_DIRECTLY_IMPORTED", "12"},
	{"WKT_DURATION_SUFFIX", "2"},
	{"WKT_TIMESTAMP_SUFFIX", "2"},
}

// GroupRules returns the sorted rules of a group.
func GroupRules(name string) []string {
	key := map[string]string{"google": "g", "uber1": "1", "uber2": "2"}[strings.ToLower(name)]
	var out []string
	for _, r := range Rules {
		if key != "" && strings.Contains(r.Groups, key) {
			out = append(out, r.ID)
		}
	}
	sort.Strings(out)
	return out
}

// IDs returns all rules, sorted.
func IDs() []string {
	var out []string
	for _, r := range Rules {
		out = append(out, r.ID)
	}
	sort.Strings(out)
	return out
}

// Failure is one expected failure. Line 0 is the whole file.
type Failure struct {
	Base string
	Line int
	ID   string
}

// Config is what rules read of the configuration.
type Config struct {
	JavaPrefix string
	Header     string
}

var (
	camelRe = regexp.MustCompile(`^[A-Za-z0-9]+$`)
	capRe   = regexp.MustCompile(`^[A-Z]`)
	lowerRe = regexp.MustCompile(`^[a-z0-9]([a-z0-9_]*[a-z0-9])?$`)
	upperRe = regexp.MustCompile(`^[A-Z0-9]([A-Z0-9_]*[A-Z0-9])?$`)
	pkgRe   = regexp.MustCompile(`^[a-z0-9.]*$`)
	pkgSRe  = regexp.MustCompile(`^[a-z0-9_.]*$`)
	verRe   = regexp.MustCompile(`^.+\.v[1-9][0-9]*(beta[1-9][0-9]*)?$`)
)

// Snake splits a CamelCase name by underscores: an upper case letter starts a
// word if a lower case letter is before it or something else after it.
func Snake(s string) string {
	upper := func(c byte) bool { return 'A' <= c && c <= 'Z' }
	var out []byte
	for i := 0; i < len(s); i++ {
		if i > 0 && upper(s[i]) && s[i-1] != '_' {
			if s[i-1] >= 'a' && s[i-1] <= 'z' || i+1 < len(s) && !upper(s[i+1]) {
				out = append(out, '_')
			}
		}
		out = append(out, s[i])
	}
	return string(out)
}

// Plural service name components known to be so.
var plurals = map[string]bool{"Trips": true, "Files": true, "Users": true}

type walker struct {
	cfg  Config
	base string
	out  []Failure
}

func (w *walker) add(line int, id string) { w.out = append(w.out, Failure{w.base, line, id}) }

func (w *walker) check(ok bool, line int, id string) {
	if !ok {
		w.add(line, id)
	}
}

// doc is the text of the lines of an attached comment.
func doc(n *Node) []string {
	if n.Gap || len(n.Above) == 0 {
		return nil
	}
	var out []string
	for _, l := range n.Above {
		l = strings.TrimSuffix(l, "*/")
		switch {
		case strings.HasPrefix(l, "//"):
			l = strings.TrimLeft(l, "/")
		case strings.HasPrefix(l, "/*"):
			l = strings.TrimLeft(l[1:], "*")
		}
		out = append(out, l)
	}
	return out
}

func named(n *Node) bool {
	d := doc(n)
	return len(d) > 0 && strings.HasPrefix(d[0], " "+n.Name+" ")
}

func sentence(n *Node) bool {
	d := doc(n)
	if len(d) == 0 {
		return false
	}
	first := []rune(strings.TrimSpace(d[0]))
	if len(first) == 0 || !(unicode.IsUpper(first[0]) || unicode.IsDigit(first[0])) {
		return false
	}
	return strings.Contains(strings.Join(d, "\n"), ".")
}

// comments reports the comments of n. The comment above an option of an enum
// is an element of its own for the parser.
func (w *walker) comments(n *Node, inEnum bool) {
	if len(n.Above) > 0 {
		line := n.Line
		if n.Gap || n.Kind == "comment" || inEnum && n.Kind == "option" {
			line = n.AboveLine
		}
		for _, l := range n.Above {
			if strings.HasPrefix(l, "/*") {
				w.add(line, "COMMENTS_NO_C_STYLE")
			}
		}
	}
	if n.Inline != "" {
		if strings.HasPrefix(n.Inline, "/*") {
			w.add(n.Line, "COMMENTS_NO_C_STYLE")
		}
		w.add(n.Line, "COMMENTS_NO_INLINE")
	}
	if n.Closing != "" {
		if strings.HasPrefix(n.Closing, "/*") {
			w.add(n.ClosingLine, "COMMENTS_NO_C_STYLE")
		}
		w.add(n.ClosingLine, "COMMENTS_NO_INLINE")
	}
}

func (w *walker) names(n *Node) {
	l := strings.ToLower(n.Name)
	for word, id := range map[string]string{"common": "NAMES_NO_COMMON", "data": "NAMES_NO_DATA", "uuid": "NAMES_NO_UUID"} {
		if strings.Contains(l, word) {
			w.add(n.Line, id)
		}
	}
}

func (w *walker) field(n *Node) {
	w.names(n)
	w.check(!strings.Contains(n.Name, "file_name"), n.Line, "MESSAGE_FIELD_NAMES_FILENAME")
	w.check(!strings.Contains(n.Name, "file_path"), n.Line, "MESSAGE_FIELD_NAMES_FILEPATH")
	w.check(lowerRe.MatchString(n.Name), n.Line, "MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE")
	w.check(n.Name == strings.ToLower(n.Name), n.Line, "MESSAGE_FIELD_NAMES_LOWERCASE")
	w.check(strings.Trim(strings.ToLower(n.Name), "_") != "descriptor", n.Line, "MESSAGE_FIELD_NAMES_NO_DESCRIPTOR")
	w.check(named(n), n.Line, "MESSAGE_FIELDS_HAVE_COMMENTS")
	w.check(sentence(n), n.Line, "MESSAGE_FIELDS_HAVE_SENTENCE_COMMENTS")
	for _, o := range n.Opts {
		if strings.HasPrefix(o, "json_name ") {
			w.add(n.Line, "MESSAGE_FIELDS_NO_JSON_NAME")
		}
	}
	if n.Kind == "map" {
		return
	}
	typ := strings.TrimPrefix(n.Type, ".")
	const dur, tim = "google.protobuf.Duration", "google.protobuf.Timestamp"
	w.check(typ != "float", n.Line, "MESSAGE_FIELDS_NOT_FLOATS")
	w.check(typ == dur || !strings.Contains(n.Name, "duration"), n.Line, "MESSAGE_FIELDS_DURATION")
	w.check(typ == tim || !strings.Contains(n.Name, "time"), n.Line, "MESSAGE_FIELDS_TIME")
	w.check(typ != dur || n.Name == "duration" || strings.HasSuffix(n.Name, "_duration"), n.Line, "WKT_DURATION_SUFFIX")
	w.check(typ != tim || n.Name == "time" || strings.HasSuffix(n.Name, "_time"), n.Line, "WKT_TIMESTAMP_SUFFIX")
}

func (w *walker) enum(n *Node, outer []string) {
	w.names(n)
	w.check(camelRe.MatchString(n.Name), n.Line, "ENUM_NAMES_CAMEL_CASE")
	w.check(capRe.MatchString(n.Name), n.Line, "ENUM_NAMES_CAPITALIZED")
	w.check(named(n), n.Line, "ENUMS_HAVE_COMMENTS")
	w.check(sentence(n), n.Line, "ENUMS_HAVE_SENTENCE_COMMENTS")
	own := strings.ToUpper(Snake(n.Name)) + "_"
	full := ""
	for _, o := range outer {
		full += strings.ToUpper(Snake(o)) + "_"
	}
	full += own
	for _, k := range n.Kids {
		w.comments(k, true)
		switch k.Kind {
		case "option":
			w.check(k.Name != "allow_alias", k.Line, "ENUMS_NO_ALLOW_ALIAS")
		case "reserved":
			w.add(k.Line, "FIELDS_NOT_RESERVED")
		case "value":
			w.names(k)
			w.check(upperRe.MatchString(k.Name), k.Line, "ENUM_FIELD_NAMES_UPPER_SNAKE_CASE")
			w.check(k.Name == strings.ToUpper(k.Name), k.Line, "ENUM_FIELD_NAMES_UPPERCASE")
			w.check(strings.HasPrefix(k.Name, own), k.Line, "ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE")
			w.check(strings.HasPrefix(k.Name, full), k.Line, "ENUM_FIELD_PREFIXES")
			w.check(named(k), k.Line, "ENUM_FIELDS_HAVE_COMMENTS")
			w.check(sentence(k), k.Line, "ENUM_FIELDS_HAVE_SENTENCE_COMMENTS")
			if k.Num == 0 {
				w.check(k.Name == own+"INVALID", k.Line, "ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE")
				w.check(k.Name == full+"INVALID", k.Line, "ENUM_ZERO_VALUES_INVALID")
			}
		}
	}
}

// members checks what stands in a message, extend, group or oneof.
func (w *walker) members(kids []*Node, outer []string, rr map[string]bool) {
	for _, k := range kids {
		w.comments(k, false)
		switch k.Kind {
		case "message", "extend":
			w.message(k, outer, rr)
		case "group":
			w.names(k)
			w.members(k.Kids, append(append([]string{}, outer...), k.Name), rr)
		case "enum":
			w.enum(k, outer)
		case "oneof":
			w.names(k)
			w.check(lowerRe.MatchString(k.Name), k.Line, "ONEOF_NAMES_LOWER_SNAKE_CASE")
			w.members(k.Kids, outer, rr)
		case "field", "map":
			w.field(k)
		case "reserved":
			w.add(k.Line, "FIELDS_NOT_RESERVED")
		}
	}
}

func countFields(kids []*Node) int {
	n := 0
	for _, k := range kids {
		switch k.Kind {
		case "field", "map", "group":
			n++
		case "oneof":
			n += countFields(k.Kids)
		}
	}
	return n
}

func (w *walker) message(n *Node, outer []string, rr map[string]bool) {
	full := strings.Join(append(append([]string{}, outer...), n.Name), ".")
	if n.Kind == "message" {
		w.names(n)
		w.check(camelRe.MatchString(n.Name), n.Line, "MESSAGE_NAMES_CAMEL_CASE")
		w.check(capRe.MatchString(n.Name), n.Line, "MESSAGE_NAMES_CAPITALIZED")
		w.check(named(n), n.Line, "MESSAGES_HAVE_COMMENTS")
		if !rr[full] {
			w.check(named(n), n.Line, "MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES")
			w.check(sentence(n), n.Line, "MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES")
			w.check(countFields(n.Kids) > 0, n.Line, "MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES")
		}
	}
	w.members(n.Kids, append(append([]string{}, outer...), n.Name), rr)
}

// resolve returns the name of a type relative to the package if it is in it.
func resolve(pkg, typ string, local map[string]*Node) string {
	if strings.HasPrefix(typ, ".") {
		typ = typ[1:]
		if pkg == "" {
			return typ
		}
	} else if local[typ] != nil {
		return typ
	}
	if pkg != "" && strings.HasPrefix(typ, pkg+".") {
		return typ[len(pkg)+1:]
	}
	return "." + typ
}

func collect(kids []*Node, outer string, out map[string]*Node) {
	for _, k := range kids {
		if k.Kind == "message" || k.Kind == "group" {
			out[outer+k.Name] = k
			collect(k.Kids, outer+k.Name+".", out)
		}
	}
}

func (w *walker) service(n *Node) {
	w.names(n)
	w.check(camelRe.MatchString(n.Name), n.Line, "SERVICE_NAMES_CAMEL_CASE")
	w.check(capRe.MatchString(n.Name), n.Line, "SERVICE_NAMES_CAPITALIZED")
	w.check(strings.HasSuffix(n.Name, "API"), n.Line, "SERVICE_NAMES_API_SUFFIX")
	w.check(named(n), n.Line, "SERVICES_HAVE_COMMENTS")
	w.check(sentence(n), n.Line, "SERVICES_HAVE_SENTENCE_COMMENTS")
	if camelRe.MatchString(n.Name) {
		for _, word := range strings.Split(Snake(n.Name), "_") {
			w.check(!plurals[word], n.Line, "SERVICE_NAMES_NO_PLURALS")
		}
	}
	for _, k := range n.Kids {
		w.comments(k, false)
		if k.Kind != "rpc" {
			continue
		}
		w.names(k)
		w.check(camelRe.MatchString(k.Name), k.Line, "RPC_NAMES_CAMEL_CASE")
		w.check(capRe.MatchString(k.Name), k.Line, "RPC_NAMES_CAPITALIZED")
		w.check(named(k), k.Line, "RPCS_HAVE_COMMENTS")
		w.check(sentence(k), k.Line, "RPCS_HAVE_SENTENCE_COMMENTS")
		w.check(!k.ReqStream && !k.ResStream, k.Line, "RPCS_NO_STREAMING")
		for _, o := range k.Kids {
			w.comments(o, false)
			if o.Kind == "option" {
				name := strings.Replace(o.Name, "(.", "(", 1)
				w.check(!strings.HasPrefix(name, "(google.api.http)"), o.Line, "RPC_OPTIONS_NO_GOOGLE_API_HTTP")
			}
		}
	}
}

func (w *walker) file(f *File) {
	w.base = f.Base
	text := f.Render()
	w.check(strings.HasPrefix(text, w.cfg.Header), 0, "FILE_HEADER")
	w.check(lowerRe.MatchString(f.Base), 0, "FILE_NAMES_LOWER_SNAKE_CASE")
	local := map[string]*Node{}
	collect(f.Nodes, "", local)
	pkg, opts := "", map[string]*Node{}
	var pkgNode, syntax *Node
	var services []*Node
	for _, n := range f.Nodes {
		switch n.Kind {
		case "package":
			pkg, pkgNode = n.Name, n
		case "syntax":
			syntax = n
		case "option":
			opts[n.Name] = n
		case "service":
			services = append(services, n)
		}
	}
	if strings.HasPrefix(f.Head, "/*") {
		line := 1
		if !strings.HasSuffix(f.Head, "\n\n") {
			line = f.Nodes[0].Line
		}
		w.add(line, "COMMENTS_NO_C_STYLE")
	}
	// header statements
	switch {
	case syntax == nil:
		w.add(0, "SYNTAX_PROTO3")
	default:
		w.check(syntax.Name == "proto3", syntax.Line, "SYNTAX_PROTO3")
	}
	if pkgNode == nil {
		w.add(0, "PACKAGE_IS_DECLARED")
		w.add(0, "PACKAGE_MAJOR_BETA_VERSIONED")
	} else {
		w.names(pkgNode)
		w.check(pkgRe.MatchString(pkg), pkgNode.Line, "PACKAGE_LOWER_CASE")
		w.check(pkgSRe.MatchString(pkg), pkgNode.Line, "PACKAGE_LOWER_SNAKE_CASE")
		w.check(verRe.MatchString(pkg), pkgNode.Line, "PACKAGE_MAJOR_BETA_VERSIONED")
		for _, p := range strings.Split(strings.ToLower(pkg), ".") {
			switch p {
			case "internal", "public", "private", "protected", "std":
				w.add(pkgNode.Line, "PACKAGE_NO_KEYWORDS")
			}
		}
	}
	w.fileOptions(f, pkg, opts)
	// requests and responses
	rr, seen, lastService := map[string]bool{}, map[string]bool{}, 0
	for _, s := range services {
		if s.Line > lastService {
			lastService = s.Line
		}
		for _, r := range s.Kids {
			if r.Kind != "rpc" {
				continue
			}
			for i, typ := range []string{r.Req, r.Res} {
				name := resolve(pkg, typ, local)
				rr[name] = true
				w.check(!seen[name], r.Line, "REQUEST_RESPONSE_TYPES_UNIQUE")
				seen[name] = true
				w.check(name == r.Name+[]string{"Request", "Response"}[i], r.Line, "REQUEST_RESPONSE_NAMES_MATCH_RPC")
				w.check(local[name] != nil && !strings.Contains(name, "."), r.Line, "REQUEST_RESPONSE_TYPES_IN_SAME_FILE")
			}
			req, res := local[resolve(pkg, r.Req, local)], local[resolve(pkg, r.Res, local)]
			top := func(n *Node) bool {
				for _, m := range f.Nodes {
					if m == n {
						return true
					}
				}
				return false
			}
			if req != nil && top(req) {
				w.check(r.Line < req.Line, req.Line, "REQUEST_RESPONSE_TYPES_AFTER_SERVICE")
			}
			if res != nil && top(res) {
				w.check(r.Line < res.Line, res.Line, "REQUEST_RESPONSE_TYPES_AFTER_SERVICE")
				if req != nil && top(req) {
					w.check(req.Line <= res.Line, res.Line, "REQUEST_RESPONSE_TYPES_AFTER_SERVICE")
				}
			}
		}
	}
	hasRPC := len(seen) > 0
	for _, n := range f.Nodes {
		w.comments(n, false)
		switch n.Kind {
		case "import":
			w.check(n.Mod != "public", n.Line, "IMPORTS_NOT_PUBLIC")
			w.check(n.Mod != "weak", n.Line, "IMPORTS_NOT_WEAK")
			parts := strings.Split(n.Type, "/")
			w.check(parts[len(parts)-1] != "gogo.proto", n.Line, "GOGO_NOT_IMPORTED")
			i := strings.Index(n.Type, "/google/protobuf/")
			w.check(i < 0 || !wkts[n.Type[i+1:]], n.Line, "WKT_DIRECTLY_IMPORTED")
		case "message", "extend":
			w.message(n, nil, rr)
			if n.Kind == "message" && hasRPC {
				w.check(rr[n.Name], n.Line, "REQUEST_RESPONSE_TYPES_ONLY_IN_FILE")
			}
		case "enum":
			w.enum(n, nil)
			w.check(!hasRPC, n.Line, "REQUEST_RESPONSE_TYPES_ONLY_IN_FILE")
		case "service":
			w.service(n)
			if len(services) > 1 {
				w.add(n.Line, "SERVICE_NAMES_MATCH_FILE_NAME")
			} else {
				w.check(f.Base == strings.ToLower(Snake(n.Name)), n.Line, "SERVICE_NAMES_MATCH_FILE_NAME")
			}
		}
	}
}

var wkts = map[string]bool{
	"google/protobuf/any.proto": true, "google/protobuf/api.proto": true, "google/protobuf/descriptor.proto": true,
	"google/protobuf/duration.proto": true, "google/protobuf/empty.proto": true, "google/protobuf/field_mask.proto": true,
	"google/protobuf/source_context.proto": true, "google/protobuf/struct.proto": true, "google/protobuf/timestamp.proto": true,
	"google/protobuf/type.proto": true, "google/protobuf/wrappers.proto": true, "google/protobuf/compiler/plugin.proto": true,
}

func literal(n *Node) string {
	s, err := strconv.Unquote(n.Type)
	if err != nil {
		return n.Type
	}
	return s
}

// Expected values of the file options by package, written down from the style guides.
var packages = map[string]struct{ goV1, goV2, csharp, objc string }{
	"foo":           {"foopb", "foopb", "Foo", "FXX"},
	"foo.bar":       {"barpb", "barpb", "Foo.Bar", "FBX"},
	"foo.v1":        {"v1pb", "foov1", "Foo.V1", "FXX"},
	"foo.bar.v1":    {"v1pb", "barv1", "Foo.Bar.V1", "FBX"},
	"foo.bar.v2":    {"v2pb", "barv2", "Foo.Bar.V2", "FBX"},
	"foo.v1beta2":   {"v1beta2pb", "foov1beta2", "Foo.V1Beta2", "FXX"},
	"a.b.c.v10":     {"v10pb", "cv10", "A.B.C.V10", "ABC"},
	"g.p.b.v1":      {"v1pb", "bv1", "G.P.B.V1", "GPX"},
	"foo_bar.v1":    {"v1pb", "foo_barv1", "Foo_bar.V1", "FXX"},
	"foo.v0":        {"v0pb", "v0pb", "Foo.V0", "FVX"},
	"foo.v1.bar":    {"barpb", "barpb", "Foo.V1.Bar", "FVB"},
	"a.b.c.d.e.v1":  {"v1pb", "ev1", "A.B.C.D.E.V1", "ABCDE"},
	"v1":            {"v1pb", "v1pb", "V1", "VXX"},
	"foo.v1alpha1":  {"v1alpha1pb", "v1alpha1pb", "Foo.V1alpha1", "FVX"},
	"foo.v1beta0":   {"v1beta0pb", "v1beta0pb", "Foo.V1beta0", "FVX"},
	"foo.std.v1":    {"v1pb", "stdv1", "Foo.Std.V1", "FSX"},
	"foo.Public.v1": {"v1pb", "Publicv1", "Foo.Public.V1", "FPX"},
}

// Packages are the packages for which the option values are known.
func Packages() []string {
	var out []string
	for p := range packages {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

var outers = map[string]string{"trip": "TripProto", "trip_api": "TripApiProto", "a": "AProto", "trip_2": "Trip2Proto", "foo_bar_baz": "FooBarBazProto", "tripAPI": "TripAPIProto"}

// Extra returns further expected values, if set.
var Extra func(pkg, base string) map[string]string

// Wanted returns the required values of the file options.
func Wanted(pkg, base, prefix string) map[string]string {
	p, ok := packages[pkg]
	out := map[string]string{}
	if ok {
		out["go_package 1"] = p.goV1
		out["go_package 2"] = p.goV2
		out["csharp_namespace"] = p.csharp
		out["php_namespace"] = strings.Replace(p.csharp, ".", `\`, -1)
		out["objc_class_prefix"] = p.objc
	}
	if o := outers[base]; o != "" {
		out["java_outer_classname"] = o
	}
	if Extra != nil {
		for k, v := range Extra(pkg, base) {
			out[k] = v
		}
	}
	out["java_package 1"] = "com." + pkg
	if prefix == "" {
		prefix = "com"
	}
	out["java_package 2"] = prefix + "." + pkg
	out["java_multiple_files"] = "true"
	return out
}

func (w *walker) fileOptions(f *File, pkg string, opts map[string]*Node) {
	for _, o := range []string{"csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace", "ruby_package"} {
		w.check(opts[o] != nil, 0, "FILE_OPTIONS_REQUIRE_"+strings.ToUpper(o))
	}
	for _, o := range []string{"java_multiple_files", "java_outer_classname"} {
		if n := opts[o]; n != nil {
			w.add(n.Line, "FILE_OPTIONS_UNSET_"+strings.ToUpper(o))
		}
	}
	if n := opts["go_package"]; n != nil {
		w.check(!strings.Contains(n.Type, ";"), n.Line, "FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM")
	}
	if pkg == "" {
		return
	}
	want := Wanted(pkg, f.Base, w.cfg.JavaPrefix)
	eq := func(opt, key, id string) {
		if n := opts[opt]; n != nil {
			v, ok := want[key]
			if !ok {
				panic("no expected value of " + key + " for package " + pkg + " and file " + f.Base)
			}
			w.check(literal(n) == v, n.Line, "FILE_OPTIONS_EQUAL_"+id)
		}
	}
	eq("csharp_namespace", "csharp_namespace", "CSHARP_NAMESPACE_CAPITALIZED")
	eq("go_package", "go_package 1", "GO_PACKAGE_PB_SUFFIX")
	eq("go_package", "go_package 2", "GO_PACKAGE_V2_SUFFIX")
	eq("java_multiple_files", "java_multiple_files", "JAVA_MULTIPLE_FILES_TRUE")
	eq("java_outer_classname", "java_outer_classname", "JAVA_OUTER_CLASSNAME_PROTO_SUFFIX")
	eq("java_package", "java_package 1", "JAVA_PACKAGE_COM_PREFIX")
	eq("java_package", "java_package 2", "JAVA_PACKAGE_PREFIX")
	eq("objc_class_prefix", "objc_class_prefix", "OBJC_CLASS_PREFIX_ABBR")
	eq("php_namespace", "php_namespace", "PHP_NAMESPACE_CAPITALIZED")
}

// Multi are the rules that report several failures at one line which are counted.
var multi = map[string]bool{"REQUEST_RESPONSE_NAMES_MATCH_RPC": true, "REQUEST_RESPONSE_TYPES_IN_SAME_FILE": true}

// Dir returns what is expected of the files of one directory with all rules, as "base.proto:line:ID", sorted.
func Dir(cfg Config, files ...*File) []string {
	w := &walker{cfg: cfg}
	for _, f := range files {
		w.file(f)
	}
	same := func(id string, value func(f *File) (string, bool)) {
		vals, unset := map[string]bool{}, false
		for _, f := range files {
			if v, ok := value(f); ok {
				vals[v] = true
			} else {
				unset = true
			}
		}
		if len(vals) > 1 || len(vals) == 1 && unset && id != "PACKAGES_SAME_IN_DIR" {
			for _, f := range files {
				w.base = f.Base
				w.add(0, id)
			}
		}
	}
	for _, o := range []string{"csharp_namespace", "go_package", "java_multiple_files", "java_package", "objc_class_prefix", "php_namespace"} {
		o := o
		same("FILE_OPTIONS_"+strings.ToUpper(o)+"_SAME_IN_DIR", func(f *File) (string, bool) {
			for _, n := range f.Nodes {
				if n.Kind == "option" && n.Name == o {
					return literal(n), true
				}
			}
			return "", false
		})
	}
	same("PACKAGES_SAME_IN_DIR", func(f *File) (string, bool) {
		for _, n := range f.Nodes {
			if n.Kind == "package" {
				return n.Name, true
			}
		}
		return "", false
	})
	var all []string
	for _, f := range w.out {
		all = append(all, f.Base+".proto:"+strconv.Itoa(f.Line)+":"+f.ID)
	}
	return Normalize(all)
}

// Normalize sorts failures and merges repetitions of rules that are not counted.
func Normalize(all []string) []string {
	all = append([]string{}, all...)
	sort.Strings(all)
	var out []string
	for i, s := range all {
		if i > 0 && all[i-1] == s && !multi[s[strings.LastIndex(s, ":")+1:]] {
			continue
		}
		out = append(out, s)
	}
	return out
}

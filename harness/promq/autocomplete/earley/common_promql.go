package earley

import "strings"

// vPromQL is the part of PromQL that is completed, written down apart from the
// grammar of the implementation. Terminals start with a quote: the type the
// lexer gives them, and after a slash the narrower type that is suggested.
const vPromQL = `
root: expression 'EOF
expression: scalar | vector | matrix | unary
scalar: scalar-binary | 'number | scalar-function
vector: vector-selector | vector-binary | vector-function | aggr
matrix: matrix-selector | subquery
selector: 'identifier/metric-identifier | 'identifier/metric-identifier 'leftbrace matchers 'rightbrace
matchers: matcher | matchers 'comma matcher
matcher: 'identifier/metric-label-identifier 'operator/label-match 'string
vector-selector: selector | selector offset
matrix-selector: selector 'leftbracket 'duration 'rightbracket | selector 'leftbracket 'duration 'rightbracket offset
offset: 'keyword/offset-keyword 'duration
aggr: 'aggregator_operation aggr-body | 'aggregator_operation aggr-body 'aggregator_keyword labels | 'aggregator_operation 'aggregator_keyword labels aggr-body
aggr-body: 'leftparen vector 'rightparen
labels: 'leftparen 'rightparen | 'leftparen label-list 'rightparen | 'leftparen label-list 'comma 'rightparen
label-list: 'identifier/metric-label-identifier | label-list 'comma 'identifier/metric-label-identifier
operator: 'arithmetic | 'operator/comparision | 'operator/comparision 'keyword/bool-keyword
group: 'group-keyword labels | 'group-keyword labels 'group-side | 'group-keyword labels 'group-side labels
scalar-binary: scalar 'arithmetic scalar | scalar 'operator/comparision 'keyword/bool-keyword scalar
scalar-binary: 'leftparen scalar-binary 'rightparen | 'leftparen 'arithmetic/unary-op scalar 'rightparen
vector-binary: scalar operator vector | vector operator scalar | vector operator vector | vector operator group vector
vector-binary: vector 'set vector | vector 'set 'group-keyword labels vector
vector-binary: 'leftparen vector-binary 'rightparen | 'leftparen 'arithmetic/unary-op vector 'rightparen
vector-function: 'function-vector-identifier 'leftparen 'rightparen | 'function-vector-identifier 'leftparen args 'rightparen
args: expression | args 'comma expression
scalar-function: 'function-scalar-identifier 'leftparen 'rightparen | 'function-scalar-identifier 'leftparen vector 'rightparen
scalar-function: 'function-scalar-identifier 'leftparen 'arithmetic/unary-op vector 'rightparen
subquery: vector 'leftbracket 'duration 'colon resolution | vector 'leftbracket 'duration 'colon resolution offset
resolution: 'rightbracket | 'duration 'rightbracket
unary: 'arithmetic/unary-op scalar | 'arithmetic/unary-op vector
`

var vPromRules = vParseRules(vPromQL)

func vParseRules(text string) []vRule {
	var out []vRule
	for _, line := range strings.Split(strings.TrimSpace(text), "\n") {
		colon := strings.Index(line, ":")
		left := line[:colon]
		for _, alt := range strings.Split(line[colon+1:], "|") {
			r := vRule{left: left, root: left == "root"}
			for _, w := range strings.Fields(alt) {
				if w[0] != '\'' {
					r.right = append(r.right, vSym{name: w})
					continue
				}
				parts := strings.Split(w[1:], "/")
				s := vSym{term: true, name: parts[len(parts)-1]}
				for _, p := range parts {
					s.types = append(s.types, TokenType(p))
				}
				if s.name == "metric-label-identifier" {
					// a label may be called like a function
					s.types = append(s.types, FUNCTION_SCALAR_ID, FUNCTION_VECTOR_ID)
				}
				r.right = append(r.right, s)
			}
			out = append(out, r)
		}
	}
	return out
}

package earley

import (
	"github.com/prometheus/prometheus/promql/parser"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH06_types", VH06_types)
	vsym.Register("VH06_words", VH06_words)
	vsym.Register("VH06_labels", VH06_labels)
}

// Every type of lexer item has its token type.
func VH06_types() {
	typ := parser.ItemType(vsym.IntRange("type", 57344, 57430))
	val := []string{"x", "time", "scalar", "rate", "vector", "rat"}[vsym.Choice("word", 6)]
	if val != "x" {
		vsym.Assume(typ == parser.IDENTIFIER)
	}
	got := mapParserItemTypeToTokhanType(parser.Item{Typ: typ, Val: val})
	var want TokenType
	switch {
	case typ == parser.IDENTIFIER && (val == "time" || val == "scalar"):
		want = FUNCTION_SCALAR_ID
	case typ == parser.IDENTIFIER && (val == "rate" || val == "vector"):
		want = FUNCTION_VECTOR_ID
	case typ == parser.IDENTIFIER:
		want = ID
	case typ == parser.METRIC_IDENTIFIER:
		want = METRIC_ID
	case typ.IsAggregator():
		want = AGGR_OP
	case typ == parser.BY, typ == parser.WITHOUT:
		want = AGGR_KW
	case typ == parser.ON, typ == parser.IGNORING:
		want = GROUP_KW
	case typ == parser.GROUP_LEFT, typ == parser.GROUP_RIGHT:
		want = GROUP_SIDE
	case typ == parser.BOOL:
		want = BOOL_KW
	case typ == parser.OFFSET:
		want = OFFSET_KW
	case typ == parser.ADD, typ == parser.SUB, typ == parser.MUL, typ == parser.DIV, typ == parser.MOD, typ == parser.POW:
		want = ARITHMETIC
	case typ.IsSetOperator():
		want = SET
	case typ == parser.EQL, typ.IsOperator() && typ != parser.ATAN2 && typ != parser.AT:
		want = OPERATOR
	case typ == parser.LEFT_BRACE:
		want = LEFT_BRACE
	case typ == parser.RIGHT_BRACE:
		want = RIGHT_BRACE
	case typ == parser.LEFT_PAREN:
		want = LEFT_PAREN
	case typ == parser.RIGHT_PAREN:
		want = RIGHT_PAREN
	case typ == parser.LEFT_BRACKET:
		want = LEFT_BRACKET
	case typ == parser.RIGHT_BRACKET:
		want = RIGHT_BRACKET
	case typ == parser.COMMA:
		want = COMMA
	case typ == parser.COLON:
		want = COLON
	case typ == parser.STRING:
		want = STRING
	case typ == parser.NUMBER:
		want = NUM
	case typ == parser.DURATION:
		want = DURATION
	case typ == parser.EOF:
		want = EOF
	default:
		// nothing the completion knows about
		vsym.Reach("other")
		return
	}
	vsym.Assert(got == want, "the type of the token")
	vsym.Reach("typed")
}

var vTyped = []struct {
	text  string
	types []TokenType
}{
	{"foo", []TokenType{ID}},
	{"a:b", []TokenType{METRIC_ID}},
	{"sum by", []TokenType{AGGR_OP, AGGR_KW}},
	{"topk without", []TokenType{AGGR_OP, AGGR_KW}},
	{"group_left ignoring on group_right", []TokenType{GROUP_SIDE, GROUP_KW, GROUP_KW, GROUP_SIDE}},
	{"and unless or", []TokenType{SET, SET, SET}},
	{"+ - * / % ^", []TokenType{ARITHMETIC, ARITHMETIC, ARITHMETIC, ARITHMETIC, ARITHMETIC, ARITHMETIC}},
	{"== != > < >= <=", []TokenType{OPERATOR, OPERATOR, OPERATOR, OPERATOR, OPERATOR, OPERATOR}},
	{"bool offset", []TokenType{BOOL_KW, OFFSET_KW}},
	{"foo{bar=\"1\",b!='2',c=~`x`,d!~\"\"}", []TokenType{ID, LEFT_BRACE, ID, OPERATOR, STRING, COMMA, ID, OPERATOR, STRING, COMMA, ID, OPERATOR, STRING, COMMA, ID, OPERATOR, STRING, RIGHT_BRACE}},
	{"foo[5m:1h]", []TokenType{ID, LEFT_BRACKET, DURATION, COLON, DURATION, RIGHT_BRACKET}},
	{"5 0x1f .5 Inf", []TokenType{NUM, NUM, NUM, NUM}},
	{"time(),rate(x)", []TokenType{FUNCTION_SCALAR_ID, LEFT_PAREN, RIGHT_PAREN, COMMA, FUNCTION_VECTOR_ID, LEFT_PAREN, ID, RIGHT_PAREN}},
	{"sum(foo", []TokenType{AGGR_OP, LEFT_PAREN, ID}},
	{"foo{a=", []TokenType{ID, LEFT_BRACE, ID, OPERATOR}},
	{"foo{a='", []TokenType{ID, LEFT_BRACE, ID, OPERATOR}},
}

// Texts are cut into their tokens, spaces between them or not, complete or not.
func VH06_words() {
	w := vTyped[vsym.Choice("text", len(vTyped))]
	text := w.text
	switch vsym.Choice("space", 3) {
	case 1:
		text += " "
	case 2:
		text = "\n " + text
	}
	toks := extractWords(text)
	if len(toks) > 0 && toks[len(toks)-1].Type == EOF {
		toks = toks[:len(toks)-1]
	}
	vsym.Assert(len(toks) == len(w.types), "number of tokens")
	for i, t := range toks {
		vsym.Assert(t.Type == w.types[i], "type of the token")
	}
	vsym.Reach("cut")
}

// Labels may be called what functions are called.
func VH06_labels() {
	label := []string{"ab", "time", "hour", "rate", "scalar"}[vsym.Choice("label", 5)]
	ctx := []string{"foo{%=", "foo{ab=\"v\",%!=", "sum(foo) by (%,"}[vsym.Choice("context", 3)]
	text := ""
	for _, r := range ctx {
		if r == '%' {
			text += label
		} else {
			text += string(r)
		}
	}
	types := PromQLParser.GetSuggestedTokenType(extractWords(text))
	vsym.Assert(len(types) > 0, "something may follow a label")
	vsym.Reach("followed")
}

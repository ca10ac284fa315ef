package earley

import (
	"strings"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH05_grammars", VH05_grammars)
	vsym.Register("VH05_promql", VH05_promql)
	vsym.Register("VH05_long", VH05_long)
}

func vGrammar(k int) *Grammar {
	nt := func(n string) NonTerminalNode { return NewNonTerminal(n, false) }
	root := NewNonTerminal("root", true)
	S, A, B := nt("S"), nt("A"), nt("B")
	a, b, c := NewTerminal("a"), NewTerminal("b"), NewTerminalWithSubType("c", "c1")
	var g *Grammar
	switch k {
	case 0: // left recursion
		g = NewGrammar(NewRule(root, S, Eof), NewRule(S, S, a), NewRule(S, b))
	case 1: // right recursion
		g = NewGrammar(NewRule(root, S, Eof), NewRule(S, a, S), NewRule(S, b))
	case 2: // ambiguous, infix
		g = NewGrammar(NewRule(root, S, Eof), NewRule(S, S, a, S), NewRule(S, b), NewRule(S, c))
	case 3: // nested, unit rules
		g = NewGrammar(NewRule(root, S, Eof), NewRule(S, A), NewRule(A, B), NewRule(B, a, S, b), NewRule(B, c))
	case 4: // common prefixes, mutual recursion
		g = NewGrammar(NewRule(root, A, Eof), NewRule(A, a), NewRule(A, a, b), NewRule(A, a, b, B), NewRule(B, A, c), NewRule(B, B, b))
	default: // rules out of order, two ways to the same item
		g = NewGrammar(NewRule(B, c, b), NewRule(A, S, B), NewRule(S, a), NewRule(S, S, S), NewRule(root, A, Eof), NewRule(B, c))
	}
	return g
}

// Any tokens, under grammars of every kind of recursion.
func VH05_grammars() {
	g := vGrammar(vsym.Choice("grammar", 6))
	rules := vRules(g)
	p := NewEarleyParser(*g)
	var types []TokenType
	var words Tokens
	n := vsym.Bound("tokens", 4, 5)
	for i := 0; ; i++ {
		eof := Tokhan{Type: EOF, ItemType: vEOF, StartPos: i}
		got := p.GetSuggestedTokenType(append(append(Tokens{}, words...), eof))
		vSameTypes(got, vNext(rules, types), "grammar")
		if i == n {
			break
		}
		t := TokenType(vsym.Pick("type", "a", "b", "c", "c1", "z"))
		types = append(types, t)
		words = append(words, Tokhan{Type: t, Val: "x", StartPos: i, EndPos: i + 1})
	}
	vsym.Reach("parsed")
}

var vVocabulary = []string{"foo", "5", "sum", "abs", "time", "(", ")", "{", "}", "[", "]", "5m", ":", "=", ">", "+", "and", "by", "on", "group_left", "bool", "offset", "\"v\"", ","}

// Any query text made of PromQL words, as far as it can be continued.
func VH05_promql() {
	rules := vPromRules
	p := PromQLParser
	text := ""
	n := vsym.Bound("words", 3, 4)
	for i := 0; ; i++ {
		toks := extractWords(text)
		if len(toks) == 0 || toks[len(toks)-1].Type != EOF {
			vsym.Assert(len(p.GetSuggestedTokenType(toks)) == 0, "nothing may follow what is no text")
			break
		}
		var types []TokenType
		for _, t := range toks[:len(toks)-1] {
			types = append(types, t.Type)
		}
		want := vNext(rules, types)
		vSameTypes(p.GetSuggestedTokenType(toks), want, "query")
		if i == n || len(want) == 0 {
			break
		}
		text += vVocabulary[vsym.Choice("word", len(vVocabulary))] + " "
	}
	vsym.Reach("parsed")
}

// Queries that between them use every construct.
var vQueries = []string{
	"sum ( foo { a = \"v\" , b != \"w\" } offset 5m ) by ( a , b , ) > bool 5",
	"sum without ( ) ( bar ) + on ( a ) group_left ( b ) foo",
	"abs ( foo [ 5m ] offset 1h , 5 , - bar ) unless ignoring ( a ) ( foo * bar )",
	"scalar ( - foo ) ^ time ( ) - ( 5 >= bool 6 )",
	"foo { a =~ \"v\" } [ 5m : 1m ] offset 5m",
	"foo [ 5m : ] offset 1h",
	"- ( - foo ) / ( ( - 5 ) * 2 )",
	"rate ( ) or ( foo and bar ) == 2",
}

// The above, cut anywhere, with any word put in.
func VH05_long() {
	q := strings.Fields(vQueries[vsym.Choice("query", vsym.Bound("queries", 3, len(vQueries)))])
	cut := vsym.Choice("cut", len(q)+1)
	words := append([]string{}, q[:cut]...)
	if vsym.Tier() == "thorough" && vsym.Choice("insert", 2) == 1 {
		words = append(words, vVocabulary[vsym.Choice("word", len(vVocabulary))])
	}
	toks := extractWords(strings.Join(words, " "))
	if len(toks) == 0 || toks[len(toks)-1].Type != EOF {
		return
	}
	var types []TokenType
	for _, t := range toks[:len(toks)-1] {
		types = append(types, t.Type)
	}
	vSameTypes(PromQLParser.GetSuggestedTokenType(toks), vNext(vPromRules, types), "query")
	vsym.Reach("parsed")
}

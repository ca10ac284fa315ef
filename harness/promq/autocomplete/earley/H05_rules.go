package earley

import (
	"strings"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() { vsym.Register("VH05_rules", VH05_rules) }

// vSentences gives, for every nonterminal, the shortest tokens it may stand
// for, and per rule of it (through unit rules) one way to write it.
func vSentences(rules []vRule) (short map[string][]TokenType, all map[string][][]TokenType) {
	short = map[string][]TokenType{}
	write := func(syms []vSym) ([]TokenType, bool) {
		out := []TokenType{}
		for _, s := range syms {
			if s.term {
				out = append(out, s.types[0])
				continue
			}
			w, ok := short[s.name]
			if !ok {
				return nil, false
			}
			out = append(out, w...)
		}
		return out, true
	}
	for changed := true; changed; {
		changed = false
		for _, r := range rules {
			if w, ok := write(r.right); ok {
				if old, had := short[r.left]; !had || len(w) < len(old) {
					short[r.left] = w
					changed = true
				}
			}
		}
	}
	all = map[string][][]TokenType{}
	var collect func(top, nt string, seen map[string]bool)
	collect = func(top, nt string, seen map[string]bool) {
		if seen[nt] {
			return
		}
		seen[nt] = true
		for _, r := range rules {
			if r.left != nt {
				continue
			}
			if len(r.right) == 1 && !r.right[0].term {
				collect(top, r.right[0].name, seen)
				continue
			}
			if w, ok := write(r.right); ok {
				all[top] = append(all[top], w)
			}
		}
	}
	for _, r := range rules {
		if all[r.left] == nil {
			collect(r.left, r.left, map[string]bool{})
		}
	}
	return
}

// vRulePrefixes lists beginnings of queries that between them reach every
// place in every rule, past every way to write what stands before it.
func vRulePrefixes(rules []vRule) [][]TokenType {
	short, all := vSentences(rules)
	begin := map[string][]TokenType{}
	for _, r := range rules {
		if r.root {
			begin[r.left] = []TokenType{}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, r := range rules {
			w, ok := begin[r.left]
			if !ok {
				continue
			}
			w = append([]TokenType{}, w...)
			for _, s := range r.right {
				if s.term {
					w = append(w, s.types[0])
					continue
				}
				if old, had := begin[s.name]; !had || len(w) < len(old) {
					begin[s.name] = append([]TokenType{}, w...)
					changed = true
				}
				w = append(w, short[s.name]...)
			}
		}
	}
	var out [][]TokenType
	seen := map[string]bool{}
	add := func(w []TokenType) {
		k := ""
		for _, t := range w {
			k += string(t) + " "
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, append([]TokenType{}, w...))
		}
	}
	for _, r := range rules {
		ways := [][]TokenType{begin[r.left]}
		for _, s := range r.right {
			var next [][]TokenType
			for n, w := range ways {
				add(w)
				w = append([]TokenType{}, w...)
				switch {
				case s.term:
					next = append(next, append(w, s.types[0]))
				case n > 0: // one part at a time is written in every way
					next = append(next, append(w, short[s.name]...))
				default:
					next = append(next, append(append([]TokenType{}, w...), short[s.name]...))
					for _, a := range all[s.name] {
						next = append(next, append(append([]TokenType{}, w...), a...))
					}
				}
			}
			ways = next
		}
		for _, w := range ways {
			add(w)
		}
	}
	return out
}

var vPrefixes = vLongest(vRulePrefixes(vPromRules))

// vLongest leaves out what others begin with.
func vLongest(in [][]TokenType) (out [][]TokenType) {
	for i, a := range in {
		keep := true
		for j, b := range in {
			if i == j || len(b) < len(a) {
				continue
			}
			same := true
			for k := range a {
				same = same && a[k] == b[k]
			}
			keep = keep && !same
		}
		if keep {
			out = append(out, a)
		}
	}
	return
}

var vTypes = strings.Fields("number identifier string keyword operator arithmetic leftparen rightparen leftbrace rightbrace leftbracket rightbracket comma colon duration set group-keyword group-side aggregator_operation aggregator_keyword function-scalar-identifier function-vector-identifier")

// At every place of every rule of the grammar, exactly that is suggested which
// may follow, whatever token comes last.
func VH05_rules() {
	types := append([]TokenType{}, vPrefixes[vsym.Choice("prefix", len(vPrefixes))]...)
	for i := 0; i < vsym.Bound("tokens after the prefix", 0, 1); i++ {
		types = append(types, TokenType(vsym.Pick("type", vTypes...)))
	}
	p := NewEarleyParser(*promQLGrammar)
	var toks Tokens
	for k, want := range vNextAll(vPromRules, types) {
		eof := Tokhan{Type: EOF, ItemType: vEOF, StartPos: k}
		vSameTypes(p.GetSuggestedTokenType(append(append(Tokens{}, toks...), eof)), want, "query")
		if k < len(types) {
			toks = append(toks, Tokhan{Type: types[k], Val: "x", StartPos: k, EndPos: k + 1})
		}
	}
	vsym.Reach("parsed")
}

package earley

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

// vRule is a rule of the grammar, written plainly: right-hand names, and the
// token types each terminal accepts.
type vSym struct {
	name  string // as suggested
	types []TokenType
	term  bool
}

type vRule struct {
	left  string
	root  bool
	right []vSym
}

func vRules(g *Grammar) []vRule {
	var out []vRule
	for _, r := range g.rules {
		v := vRule{left: r.left.GetName(), root: r.left.isRoot()}
		for _, s := range r.right {
			switch s := s.(type) {
			case terminal:
				t := vSym{name: string(s.tokenType), types: []TokenType{s.tokenType}, term: true}
				if s.tokenSubType != nil {
					t.name = string(*s.tokenSubType)
					t.types = append(t.types, *s.tokenSubType)
				}
				v.right = append(v.right, t)
			case nonTerminal:
				v.right = append(v.right, vSym{name: s.name})
			}
		}
		out = append(out, v)
	}
	return out
}

// vGoal: a rule with a dot, begun at a position.
type vGoal struct{ rule, dot, from int }

// vNext returns the names of the terminals that may follow the tokens: it
// closes, per position, the set of partly matched rules until nothing changes.
func vNext(rules []vRule, toks []TokenType) map[string]bool {
	return vNextAll(rules, toks)[len(toks)]
}

// vNextAll does so after every beginning of the tokens.
func vNextAll(rules []vRule, toks []TokenType) []map[string]bool {
	sets := make([][]vGoal, len(toks)+1)
	has := make([]map[vGoal]bool, len(toks)+1)
	for i := range has {
		has[i] = map[vGoal]bool{}
	}
	add := func(k int, g vGoal) {
		if !has[k][g] {
			has[k][g] = true
			sets[k] = append(sets[k], g)
		}
	}
	for i, r := range rules {
		if r.root {
			add(0, vGoal{i, 0, 0})
		}
	}
	for k := 0; k <= len(toks); k++ {
		for i := 0; i < len(sets[k]); i++ {
			g := sets[k][i]
			r := rules[g.rule]
			if g.dot == len(r.right) {
				for _, p := range sets[g.from] {
					pr := rules[p.rule]
					if p.dot < len(pr.right) && !pr.right[p.dot].term && pr.right[p.dot].name == r.left {
						add(k, vGoal{p.rule, p.dot + 1, p.from})
					}
				}
				continue
			}
			s := r.right[g.dot]
			if !s.term {
				for j := range rules {
					if rules[j].left == s.name {
						add(k, vGoal{j, 0, k})
					}
				}
				continue
			}
			if k < len(toks) {
				for _, t := range s.types {
					if t == toks[k] {
						add(k+1, vGoal{g.rule, g.dot + 1, g.from})
						break
					}
				}
			}
		}
	}
	var all []map[string]bool
	for k := range sets {
		next := map[string]bool{}
		for _, g := range sets[k] {
			r := rules[g.rule]
			if g.dot < len(r.right) && r.right[g.dot].term {
				next[r.right[g.dot].name] = true
			}
		}
		all = append(all, next)
	}
	return all
}

func vSameTypes(got []ContextualToken, want map[string]bool, msg string) {
	n := 0
	for i, g := range got {
		vsym.Assert(want[string(g.TokenType)], msg+": only what may follow is suggested")
		for _, o := range got[:i] {
			vsym.Assert(o.TokenType != g.TokenType, msg+": each once")
		}
		n++
	}

	vsym.Assert(n == len(want), msg+": all that may follow is suggested")
}

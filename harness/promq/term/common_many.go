package term

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

// vRandom is a fixed sequence of numbers without a pattern.
type vRandom uint32

func (r *vRandom) next(n int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>8) % n
}

// vManyPieces: words, wide characters, marks and line ends without a pattern,
// one of which is any character.
func vManyPieces(n int) ([]vPiece, string) {
	var ps []vPiece
	s := ""
	rnd := vRandom(vsym.Choice("text", 3))
	at := vsym.Choice("where", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		var p vPiece
		switch k := rnd.next(40); {
		case i == at:
			p = vAnyPiece()
		case k == 0:
			p = vPiece{s: "\n", r: '\n', width: 1, nl: true}
		case k == 1:
			p = vPiece{s: "\u0301", r: 0x301}
		case k < 6:
			p = vPiece{s: "世", r: '世', width: 2}
		case k < 10:
			p = vPiece{s: "é", r: 'é', width: 1}
		default:
			c := rune('a' + rnd.next(26))
			p = vPiece{s: string(c), r: c, width: 1}
		}
		ps = append(ps, p)
		s += p.s
	}
	return ps, s
}

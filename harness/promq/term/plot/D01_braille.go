package plot

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VD01_mapper_bijection", VD01_mapper_bijection)
	vsym.Register("VD01_glyphs", VD01_glyphs)
}

// Two different screen pixels never share a cell, and every pixel of the
// screen lands in the cell array.
func VD01_mapper_bijection() {
	max := vsym.Bound("terminal rows/cols", 40, 500)
	tr := vsym.IntRange("termRows", 1, max)
	tc := vsym.IntRange("termCols", 1, max)
	size := BrailleCellScreenSize(ScreenSize{Rows: Row(tr), Cols: Column(tc)})
	r1 := vsym.IntRange("r1", 0, 4*max)
	c1 := vsym.IntRange("c1", 0, 2*max)
	vsym.Assume(r1 < int(size.Rows))
	vsym.Assume(c1 < int(size.Cols))
	vsym.Assert(int(size.Rows) == 4*tr, "four pixel rows per text row")
	vsym.Assert(int(size.Cols) == 2*tc, "two pixel columns per text column")
	ind := BrailleCellMapper(Row(r1), Column(c1), size)
	vsym.Assert(ind >= 0, "negative index")
	vsym.Assert(ind < int(size.Rows)*int(size.Cols), "index within the cell array")
	vsym.Observe("ind", ind)
	// decode: the chunk gives the character, the position inside gives the dot
	chunk, pos := ind/8, ind%8
	fr := int(size.Rows) - 1 - r1
	vsym.Assert(chunk/tc == fr/4, "character row")
	vsym.Assert(chunk%tc == c1/2, "character column")
	vsym.Assert(pos == (c1%2)*4+fr%4, "dot within the character")
	vsym.Reach("mapped")
}

// Drawing visits every character once, left to right and top to bottom, with
// the dots of exactly the set pixels and the colour of a series that has a
// pixel in the character.
func VD01_glyphs() {
	tr := 1 + vsym.Choice("termRows", vsym.Bound("glyph rows", 2, 3))
	tc := 1 + vsym.Choice("termCols", vsym.Bound("glyph cols", 3, 4))
	n := vsym.Bound("glyph pixels", 2, 3)
	size := BrailleCellScreenSize(ScreenSize{Rows: Row(tr), Cols: Column(tc)})
	var rs, cs []int
	var ids []SeriesId
	var set []ScreenSeries
	for i := 0; i < n; i++ {
		r := vsym.IntRange("r", 0, 4*tr-1)
		c := vsym.IntRange("c", 0, 2*tc-1)
		id := SeriesId(1 + i)
		rs, cs, ids = append(rs, r), append(cs, c), append(ids, id)
		set = append(set, ScreenSeries{Id: id, Points: []PixelPoint{{Row: Row(r), Col: Column(c)}}})
	}
	g := (&ScreenGraph{ScreenSize: size, Series: set}).Render(BrailleCellMapper)
	vsym.Assert(len(g.Cells) == 8*tr*tc, "one cell per pixel")
	dots := [8]rune{1, 2, 4, 0x40, 8, 0x10, 0x20, 0x80}
	k := 0
	DrawBraille(g, func(row Row, col Column, cell rune, id SeriesId) {
		vsym.Assert(int(row) == k/tc && int(col) == k%tc, "characters in order")
		want := rune(0)
		okID := false
		for i := range rs {
			fr := 4*tr - 1 - rs[i]
			here := vsym.And(fr/4 == int(row), cs[i]/2 == int(col))
			for d := range dots {
				on := vsym.And(here, vsym.And(fr%4 == d%4, cs[i]%2 == d/4))
				want |= rune(vsym.Ite(on, int(dots[d]), 0))
			}
			okID = vsym.Or(okID, vsym.And(here, id == ids[i]))
		}
		blank := vsym.And(want == 0, vsym.And(cell == ' ', id == NoSeries))
		drawn := vsym.And(want != 0, vsym.And(cell == 0x2800+want, okID))
		vsym.Assert(vsym.Or(blank, drawn), "dots of the character")
		k++
	})
	vsym.Assert(k == tr*tc, "every character drawn")
	vsym.Reach("drawn")
}

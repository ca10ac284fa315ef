package term

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VL01_tiling", VL01_tiling)
	vsym.Register("VL01_percent", VL01_percent)
	vsym.Register("VL01_everyPercent", VL01_everyPercent)
}

func vInside(in, out PositionBox) bool {
	return vsym.And(
		vsym.And(in.StartCol >= out.StartCol, in.StartCol+in.Cols <= out.StartCol+out.Cols),
		vsym.And(in.StartRow >= out.StartRow, in.StartRow+in.Rows <= out.StartRow+out.Rows))
}

func vSplit(dock DockPos, size, percent int, box PositionBox) (docked, flexed PositionBox) {
	d, f := &StaticResizable{}, &StaticResizable{}
	v := &SplitView{Dock: dock, DockSize: size, DockMaxPercent: percent, Docked: d, Flexed: f}
	v.SetBox(box)
	return d.PositionBox, f.PositionBox
}

// checkTiling: the two panes lie inside the box, do not overlap, leave no gap,
// and the dock is on its side.
func vCheckTiling(dock DockPos, box, d, f PositionBox) {
	vsym.Assert(vsym.And(vsym.And(d.Rows >= 0, d.Cols >= 0), vsym.And(f.Rows >= 0, f.Cols >= 0)), "negative pane")
	vsym.Assert(vsym.And(vInside(d, box), vInside(f, box)), "pane outside the box")
	horizontal := dock == PosBelow || dock == PosAbove
	if horizontal {
		vsym.Assert(vsym.And(d.Cols == box.Cols, f.Cols == box.Cols), "full width")
		vsym.Assert(d.Rows+f.Rows == box.Rows, "rows covered once")
		vsym.Assert(vsym.And(d.StartCol == box.StartCol, f.StartCol == box.StartCol), "columns aligned")
	} else {
		vsym.Assert(vsym.And(d.Rows == box.Rows, f.Rows == box.Rows), "full height")
		vsym.Assert(d.Cols+f.Cols == box.Cols, "columns covered once")
		vsym.Assert(vsym.And(d.StartRow == box.StartRow, f.StartRow == box.StartRow), "rows aligned")
	}
	switch dock {
	case PosBelow:
		vsym.Assert(vsym.And(f.StartRow == box.StartRow, d.StartRow == box.StartRow+f.Rows), "dock below")
	case PosAbove:
		vsym.Assert(vsym.And(d.StartRow == box.StartRow, f.StartRow == box.StartRow+d.Rows), "dock above")
	case PosLeft:
		vsym.Assert(vsym.And(d.StartCol == box.StartCol, f.StartCol == box.StartCol+d.Cols), "dock left")
	case PosRight:
		vsym.Assert(vsym.And(f.StartCol == box.StartCol, d.StartCol == box.StartCol+f.Cols), "dock right")
	}
}

func vAnyBox(max int) PositionBox {
	return PositionBox{
		StartCol: vsym.IntRange("startCol", 0, max), StartRow: vsym.IntRange("startRow", 0, max),
		Cols: vsym.IntRange("cols", 0, max), Rows: vsym.IntRange("rows", 0, max),
	}
}

// Without a percentage cap, for any dock size.
func VL01_tiling() {
	box := vAnyBox(vsym.Bound("largest coordinate", 1<<20, 1<<30))
	dock := DockPos(vsym.Choice("dock", 4))
	size := vsym.IntRange("size", -1<<31, 1<<31)
	d, f := vSplit(dock, size, 0, box)
	vCheckTiling(dock, box, d, f)
	got, space := d.Rows, box.Rows
	if dock == PosLeft || dock == PosRight {
		got, space = d.Cols, box.Cols
	}
	want := vMin(vMax(size, 0), vMax(space-1, 0))
	vsym.Assert(got == want, "dock has its size, or all but one of the available cells")
	vsym.Reach("uncapped")
}

// With a percentage cap.
func VL01_percent() {
	max := vsym.Bound("largest coordinate with a cap", 100, 1000)
	box := vAnyBox(max)
	dock := DockPos(vsym.Choice("dock", 4))
	if dock == PosLeft || dock == PosRight {
		box.Rows = 7 // the percentage of the other side is computed, but not used
	} else {
		box.Cols = 7
	}
	size := vsym.IntRange("size", -5, max+5)
	pcts := []int{33}
	if vsym.Tier() == "thorough" {
		for p := 1; p <= 100; p++ {
			pcts = append(pcts, p)
		}
	}
	pct := pcts[vsym.Choice("percent", len(pcts))]
	d, f := vSplit(dock, size, pct, box)
	vCheckTiling(dock, box, d, f)
	got, space := d.Rows, box.Rows
	if dock == PosLeft || dock == PosRight {
		got, space = d.Cols, box.Cols
	}
	want := vMin(vMin(vMax(size, 0), vMax(space-1, 0)), space*pct/100)
	vsym.Assert(got == want, "dock capped to its percentage")
	vsym.Reach("capped")
}

// Every percentage, on areas of many sizes, for any dock size.
func VL01_everyPercent() {
	dock := []DockPos{PosBelow, PosRight, PosLeft, PosAbove}[vsym.Choice("dock", vsym.Bound("docks with every percentage", 2, 4))]
	pct := 1 + vsym.Choice("percent", 100)
	space := []int{1, 2, 3, 7, 10, 24, 50, 100}[vsym.Choice("space", 8)]
	if vsym.Tier() == "thorough" {
		space = vsym.Concrete(vsym.IntRange("any space", 0, 300))
	}
	size := vsym.IntRange("size", -1<<31, 1<<31)
	box := PositionBox{StartCol: 3, StartRow: 4, Cols: space, Rows: 7}
	if dock == PosBelow || dock == PosAbove {
		box.Cols, box.Rows = 7, space
	}
	d, f := vSplit(dock, size, pct, box)
	vCheckTiling(dock, box, d, f)
	got := d.Rows
	if dock == PosLeft || dock == PosRight {
		got = d.Cols
	}
	want := vMin(vMin(vMax(size, 0), vMax(space-1, 0)), space*pct/100)
	vsym.Assert(got == want, "dock capped to its percentage")
	vsym.Reach("capped")
}

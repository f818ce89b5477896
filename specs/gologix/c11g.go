package gologix

// Code generated by tools/genc11.py. DO NOT EDIT.

type vcShP00[T comparable] struct {
	X T
	F bool
	Z int16
}

type vcShP01[T comparable] struct {
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP02[T comparable] struct {
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP03[T comparable] struct {
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP04[T comparable] struct {
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP05[T comparable] struct {
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP06[T comparable] struct {
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP07[T comparable] struct {
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP10[T comparable] struct {
	P [1]int8
	X T
	F bool
	Z int16
}

type vcShP11[T comparable] struct {
	P  [1]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP12[T comparable] struct {
	P      [1]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP13[T comparable] struct {
	P          [1]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP14[T comparable] struct {
	P              [1]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP15[T comparable] struct {
	P                  [1]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP16[T comparable] struct {
	P                      [1]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP17[T comparable] struct {
	P                          [1]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP20[T comparable] struct {
	P [2]int8
	X T
	F bool
	Z int16
}

type vcShP21[T comparable] struct {
	P  [2]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP22[T comparable] struct {
	P      [2]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP23[T comparable] struct {
	P          [2]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP24[T comparable] struct {
	P              [2]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP25[T comparable] struct {
	P                  [2]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP26[T comparable] struct {
	P                      [2]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP27[T comparable] struct {
	P                          [2]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP30[T comparable] struct {
	P [3]int8
	X T
	F bool
	Z int16
}

type vcShP31[T comparable] struct {
	P  [3]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP32[T comparable] struct {
	P      [3]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP33[T comparable] struct {
	P          [3]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP34[T comparable] struct {
	P              [3]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP35[T comparable] struct {
	P                  [3]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP36[T comparable] struct {
	P                      [3]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP37[T comparable] struct {
	P                          [3]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP40[T comparable] struct {
	P [4]int8
	X T
	F bool
	Z int16
}

type vcShP41[T comparable] struct {
	P  [4]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP42[T comparable] struct {
	P      [4]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP43[T comparable] struct {
	P          [4]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP44[T comparable] struct {
	P              [4]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP45[T comparable] struct {
	P                  [4]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP46[T comparable] struct {
	P                      [4]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP47[T comparable] struct {
	P                          [4]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP50[T comparable] struct {
	P [5]int8
	X T
	F bool
	Z int16
}

type vcShP51[T comparable] struct {
	P  [5]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP52[T comparable] struct {
	P      [5]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP53[T comparable] struct {
	P          [5]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP54[T comparable] struct {
	P              [5]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP55[T comparable] struct {
	P                  [5]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP56[T comparable] struct {
	P                      [5]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP57[T comparable] struct {
	P                          [5]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP60[T comparable] struct {
	P [6]int8
	X T
	F bool
	Z int16
}

type vcShP61[T comparable] struct {
	P  [6]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP62[T comparable] struct {
	P      [6]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP63[T comparable] struct {
	P          [6]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP64[T comparable] struct {
	P              [6]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP65[T comparable] struct {
	P                  [6]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP66[T comparable] struct {
	P                      [6]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP67[T comparable] struct {
	P                          [6]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

type vcShP70[T comparable] struct {
	P [7]int8
	X T
	F bool
	Z int16
}

type vcShP71[T comparable] struct {
	P  [7]int8
	B0 bool
	X  T
	F  bool
	Z  int16
}

type vcShP72[T comparable] struct {
	P      [7]int8
	B0, B1 bool
	X      T
	F      bool
	Z      int16
}

type vcShP73[T comparable] struct {
	P          [7]int8
	B0, B1, B2 bool
	X          T
	F          bool
	Z          int16
}

type vcShP74[T comparable] struct {
	P              [7]int8
	B0, B1, B2, B3 bool
	X              T
	F              bool
	Z              int16
}

type vcShP75[T comparable] struct {
	P                  [7]int8
	B0, B1, B2, B3, B4 bool
	X                  T
	F                  bool
	Z                  int16
}

type vcShP76[T comparable] struct {
	P                      [7]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T
	F                      bool
	Z                      int16
}

type vcShP77[T comparable] struct {
	P                          [7]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T
	F                          bool
	Z                          int16
}

func vcShapesP0[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP00[T]{X: x, F: f, Z: z}
		var u vcShP00[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP01[T]{B0: q[0], X: x, F: f, Z: z}
		var u vcShP01[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP02[T]{B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP02[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP03[T]{B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP03[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP04[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP04[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP05[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP05[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP06[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP06[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP07[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP07[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP1[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP10[T]{P: [1]int8{p[0]}, X: x, F: f, Z: z}
		var u vcShP10[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP11[T]{P: [1]int8{p[0]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP11[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP12[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP12[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP13[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP13[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP14[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP14[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP15[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP15[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP16[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP16[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP17[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP17[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP2[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP20[T]{P: [2]int8{p[0], p[1]}, X: x, F: f, Z: z}
		var u vcShP20[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP21[T]{P: [2]int8{p[0], p[1]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP21[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP22[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP22[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP23[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP23[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP24[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP24[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP25[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP25[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP26[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP26[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP27[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP27[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP3[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP30[T]{P: [3]int8{p[0], p[1], p[2]}, X: x, F: f, Z: z}
		var u vcShP30[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP31[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP31[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP32[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP32[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP33[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP33[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP34[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP34[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP35[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP35[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP36[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP36[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP37[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP37[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP4[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP40[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, X: x, F: f, Z: z}
		var u vcShP40[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP41[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP41[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP42[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP42[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP43[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP43[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP44[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP44[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP45[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP45[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP46[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP46[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP47[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP47[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP5[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP50[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, X: x, F: f, Z: z}
		var u vcShP50[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP51[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP51[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP52[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP52[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP53[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP53[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP54[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP54[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP55[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP55[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP56[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP56[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP57[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP57[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP6[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP60[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, X: x, F: f, Z: z}
		var u vcShP60[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP61[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP61[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP62[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP62[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP63[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP63[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP64[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP64[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP65[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP65[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP66[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP66[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP67[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP67[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP7[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShP70[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, X: x, F: f, Z: z}
		var u vcShP70[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP71[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShP71[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP72[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShP72[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP73[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShP73[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP74[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShP74[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP75[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShP75[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP76[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShP76[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShP77[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShP77[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesP[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	vcShapesP0(p, q, x, f, z, same, lay)
	vcShapesP1(p, q, x, f, z, same, lay)
	vcShapesP2(p, q, x, f, z, same, lay)
	vcShapesP3(p, q, x, f, z, same, lay)
	vcShapesP4(p, q, x, f, z, same, lay)
	vcShapesP5(p, q, x, f, z, same, lay)
	vcShapesP6(p, q, x, f, z, same, lay)
	vcShapesP7(p, q, x, f, z, same, lay)
}

type vcShN00[T comparable] struct {
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN01[T comparable] struct {
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN02[T comparable] struct {
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN03[T comparable] struct {
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN04[T comparable] struct {
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN05[T comparable] struct {
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN06[T comparable] struct {
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN07[T comparable] struct {
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN10[T comparable] struct {
	P [1]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN11[T comparable] struct {
	P  [1]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN12[T comparable] struct {
	P      [1]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN13[T comparable] struct {
	P          [1]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN14[T comparable] struct {
	P              [1]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN15[T comparable] struct {
	P                  [1]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN16[T comparable] struct {
	P                      [1]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN17[T comparable] struct {
	P                          [1]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN20[T comparable] struct {
	P [2]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN21[T comparable] struct {
	P  [2]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN22[T comparable] struct {
	P      [2]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN23[T comparable] struct {
	P          [2]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN24[T comparable] struct {
	P              [2]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN25[T comparable] struct {
	P                  [2]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN26[T comparable] struct {
	P                      [2]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN27[T comparable] struct {
	P                          [2]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN30[T comparable] struct {
	P [3]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN31[T comparable] struct {
	P  [3]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN32[T comparable] struct {
	P      [3]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN33[T comparable] struct {
	P          [3]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN34[T comparable] struct {
	P              [3]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN35[T comparable] struct {
	P                  [3]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN36[T comparable] struct {
	P                      [3]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN37[T comparable] struct {
	P                          [3]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN40[T comparable] struct {
	P [4]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN41[T comparable] struct {
	P  [4]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN42[T comparable] struct {
	P      [4]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN43[T comparable] struct {
	P          [4]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN44[T comparable] struct {
	P              [4]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN45[T comparable] struct {
	P                  [4]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN46[T comparable] struct {
	P                      [4]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN47[T comparable] struct {
	P                          [4]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN50[T comparable] struct {
	P [5]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN51[T comparable] struct {
	P  [5]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN52[T comparable] struct {
	P      [5]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN53[T comparable] struct {
	P          [5]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN54[T comparable] struct {
	P              [5]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN55[T comparable] struct {
	P                  [5]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN56[T comparable] struct {
	P                      [5]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN57[T comparable] struct {
	P                          [5]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN60[T comparable] struct {
	P [6]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN61[T comparable] struct {
	P  [6]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN62[T comparable] struct {
	P      [6]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN63[T comparable] struct {
	P          [6]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN64[T comparable] struct {
	P              [6]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN65[T comparable] struct {
	P                  [6]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN66[T comparable] struct {
	P                      [6]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN67[T comparable] struct {
	P                          [6]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

type vcShN70[T comparable] struct {
	P [7]int8
	X T `pack:"nopack"`
	F bool
	Z int16
}

type vcShN71[T comparable] struct {
	P  [7]int8
	B0 bool
	X  T `pack:"nopack"`
	F  bool
	Z  int16
}

type vcShN72[T comparable] struct {
	P      [7]int8
	B0, B1 bool
	X      T `pack:"nopack"`
	F      bool
	Z      int16
}

type vcShN73[T comparable] struct {
	P          [7]int8
	B0, B1, B2 bool
	X          T `pack:"nopack"`
	F          bool
	Z          int16
}

type vcShN74[T comparable] struct {
	P              [7]int8
	B0, B1, B2, B3 bool
	X              T `pack:"nopack"`
	F              bool
	Z              int16
}

type vcShN75[T comparable] struct {
	P                  [7]int8
	B0, B1, B2, B3, B4 bool
	X                  T `pack:"nopack"`
	F                  bool
	Z                  int16
}

type vcShN76[T comparable] struct {
	P                      [7]int8
	B0, B1, B2, B3, B4, B5 bool
	X                      T `pack:"nopack"`
	F                      bool
	Z                      int16
}

type vcShN77[T comparable] struct {
	P                          [7]int8
	B0, B1, B2, B3, B4, B5, B6 bool
	X                          T `pack:"nopack"`
	F                          bool
	Z                          int16
}

func vcShapesN0[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN00[T]{X: x, F: f, Z: z}
		var u vcShN00[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN01[T]{B0: q[0], X: x, F: f, Z: z}
		var u vcShN01[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN02[T]{B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN02[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN03[T]{B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN03[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN04[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN04[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN05[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN05[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN06[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN06[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN07[T]{B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN07[T]
		vcUnpacked(vcShape(s, p, q, f, z, 0, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN1[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN10[T]{P: [1]int8{p[0]}, X: x, F: f, Z: z}
		var u vcShN10[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN11[T]{P: [1]int8{p[0]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN11[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN12[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN12[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN13[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN13[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN14[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN14[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN15[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN15[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN16[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN16[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN17[T]{P: [1]int8{p[0]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN17[T]
		vcUnpacked(vcShape(s, p, q, f, z, 1, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN2[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN20[T]{P: [2]int8{p[0], p[1]}, X: x, F: f, Z: z}
		var u vcShN20[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN21[T]{P: [2]int8{p[0], p[1]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN21[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN22[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN22[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN23[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN23[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN24[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN24[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN25[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN25[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN26[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN26[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN27[T]{P: [2]int8{p[0], p[1]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN27[T]
		vcUnpacked(vcShape(s, p, q, f, z, 2, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN3[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN30[T]{P: [3]int8{p[0], p[1], p[2]}, X: x, F: f, Z: z}
		var u vcShN30[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN31[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN31[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN32[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN32[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN33[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN33[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN34[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN34[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN35[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN35[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN36[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN36[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN37[T]{P: [3]int8{p[0], p[1], p[2]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN37[T]
		vcUnpacked(vcShape(s, p, q, f, z, 3, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN4[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN40[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, X: x, F: f, Z: z}
		var u vcShN40[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN41[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN41[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN42[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN42[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN43[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN43[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN44[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN44[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN45[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN45[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN46[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN46[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN47[T]{P: [4]int8{p[0], p[1], p[2], p[3]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN47[T]
		vcUnpacked(vcShape(s, p, q, f, z, 4, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN5[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN50[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, X: x, F: f, Z: z}
		var u vcShN50[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN51[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN51[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN52[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN52[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN53[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN53[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN54[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN54[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN55[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN55[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN56[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN56[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN57[T]{P: [5]int8{p[0], p[1], p[2], p[3], p[4]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN57[T]
		vcUnpacked(vcShape(s, p, q, f, z, 5, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN6[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN60[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, X: x, F: f, Z: z}
		var u vcShN60[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN61[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN61[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN62[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN62[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN63[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN63[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN64[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN64[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN65[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN65[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN66[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN66[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN67[T]{P: [6]int8{p[0], p[1], p[2], p[3], p[4], p[5]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN67[T]
		vcUnpacked(vcShape(s, p, q, f, z, 6, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN7[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	{
		s := vcShN70[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, X: x, F: f, Z: z}
		var u vcShN70[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 0, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN71[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], X: x, F: f, Z: z}
		var u vcShN71[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 1, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN72[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], X: x, F: f, Z: z}
		var u vcShN72[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 2, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN73[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], X: x, F: f, Z: z}
		var u vcShN73[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 3, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN74[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], X: x, F: f, Z: z}
		var u vcShN74[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 4, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN75[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], X: x, F: f, Z: z}
		var u vcShN75[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 5, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN76[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], X: x, F: f, Z: z}
		var u vcShN76[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 6, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
	{
		s := vcShN77[T]{P: [7]int8{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}, B0: q[0], B1: q[1], B2: q[2], B3: q[3], B4: q[4], B5: q[5], B6: q[6], X: x, F: f, Z: z}
		var u vcShN77[T]
		vcUnpacked(vcShape(s, p, q, f, z, 7, 7, x, lay), &u)
		if same {
			vcEnsures("roundtrip", u == s)
		}
	}
}

func vcShapesN[T comparable](p [8]int8, q [8]bool, x T, f bool, z int16, same bool, lay func(l *vcLay, x T)) {
	vcShapesN0(p, q, x, f, z, same, lay)
	vcShapesN1(p, q, x, f, z, same, lay)
	vcShapesN2(p, q, x, f, z, same, lay)
	vcShapesN3(p, q, x, f, z, same, lay)
	vcShapesN4(p, q, x, f, z, same, lay)
	vcShapesN5(p, q, x, f, z, same, lay)
	vcShapesN6(p, q, x, f, z, same, lay)
	vcShapesN7(p, q, x, f, z, same, lay)
}

package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func cmp(a, b dgo.Value) (int, bool) {
	c, ok := a.(dgo.Comparable)
	if !ok {
		return 0, false
	}
	return c.CompareTo(b)
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// comparable returns an arbitrary comparable of kind k.
func comparableK(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String(asciiUpTo(2))
	case 2:
		return vf.Float(number())
	case 3:
		return vf.Boolean(nd.Bool())
	case 4:
		return vf.Binary(bytesN(nd.Choice(3)), true)
	case 5:
		a := vf.MutableValues()
		for n := nd.Choice(3); n > 0; n-- {
			a.Add(nd.Int64())
		}
		return a
	default:
		return vf.Nil
	}
}

// Bounds: every pair of comparable values of the same kind (int64, ASCII string up to 2 bytes,
// float64 except NaN, boolean, binary up to 2 bytes, array of up to 2 int64, nil).
func C07_SameKind() {
	k := nd.Choice(7)
	a, b := comparableK(k), comparableK(k)
	x, ok := cmp(a, b)
	y, ok2 := cmp(b, a)
	nd.Reach("pair")
	nd.Assert(ok && ok2, "values of the same kind are comparable")
	nd.Assert(sign(x) == -sign(y), "antisymmetric")
	nd.Assert((x == 0) == a.Equals(b), "the order agrees with equality")
	var want int
	switch a := a.(type) {
	case dgo.Integer:
		want = order(a.GoInt() < b.(dgo.Integer).GoInt(), a.GoInt() > b.(dgo.Integer).GoInt())
	case dgo.Float:
		want = order(a.GoFloat() < b.(dgo.Float).GoFloat(), a.GoFloat() > b.(dgo.Float).GoFloat())
	case dgo.String:
		want = order(a.GoString() < b.(dgo.String).GoString(), a.GoString() > b.(dgo.String).GoString())
	case dgo.Binary:
		want = order(string(a.GoBytes()) < string(b.(dgo.Binary).GoBytes()), string(a.GoBytes()) > string(b.(dgo.Binary).GoBytes()))
	case dgo.Boolean:
		want = order(!a.GoBool() && b.(dgo.Boolean).GoBool(), a.GoBool() && !b.(dgo.Boolean).GoBool())
	case dgo.Array:
		bb := b.(dgo.Array)
		want = order(a.Len() < bb.Len(), a.Len() > bb.Len())
		for i := 0; i < a.Len() && i < bb.Len(); i++ {
			p, q := a.Get(i).(dgo.Integer).GoInt(), bb.Get(i).(dgo.Integer).GoInt()
			if p != q {
				want = order(p < q, p > q)
				break
			}
		}
	}
	nd.Assert(sign(x) == want, "natural order")
}

func order(lt, gt bool) int {
	switch {
	case lt:
		return -1
	case gt:
		return 1
	}
	return 0
}

// Bounds: every pair of comparable values of different kinds: nil is less than everything,
// integers and floats compare, nothing else does.
func C07_OtherKind() {
	i, j := nd.Choice(7), nd.Choice(7)
	nd.Assume(i != j)
	a, b := comparableK(i), comparableK(j)
	x, ok := cmp(a, b)
	y, ok2 := cmp(b, a)
	nd.Reach("pair")
	nd.Assert(ok == ok2, "comparability is symmetric")
	switch {
	case i == 6:
		nd.Assert(ok && x < 0 && y > 0, "nil is less than everything else")
	case j == 6:
		nd.Assert(ok && x > 0 && y < 0, "everything else is greater than nil")
	case i == 0 && j == 2:
		f, g := float64(a.(dgo.Integer).GoInt()), b.(dgo.Float).GoFloat()
		nd.Assert(ok && sign(x) == order(f < g, f > g), "an integer compares with a float as a float")
		nd.Assert(sign(x) == -sign(y), "antisymmetric")
	case i == 2 && j == 0:
	default:
		nd.Assert(!ok, "different kinds are not comparable")
	}
}

// Bounds: comparison with a Go native argument gives what comparison with its dgo value gives;
// int64, int32, string, float64, bool, []byte, nil.
func C07_Native() {
	var n interface{}
	switch nd.Choice(7) {
	case 0:
		n = nd.Int64()
	case 1:
		n = nd.Int32()
	case 2:
		n = ascii(1)
	case 3:
		n = number()
	case 4:
		n = nd.Bool()
	case 5:
		n = bytesN(1)
	}
	k := nd.Choice(5)
	a := comparableK(k).(dgo.Comparable)
	x, ok := a.CompareTo(n)
	y, ok2 := a.CompareTo(vf.Value(n))
	nd.Reach("native")
	nd.Assert(ok == ok2 && (!ok || sign(x) == sign(y)), "a Go argument compares like its dgo value")
}

// Bounds: every triple of values of one kind (int64, one-byte strings, float64, arrays of up to
// 2 int64) or of integers and floats mixed within +-2^53.
func C07_Transitive() {
	var v [3]dgo.Value
	k := nd.Choice(4)
	for i := range v {
		switch k {
		case 0:
			v[i] = vf.Integer(nd.Int64())
		case 1:
			v[i] = vf.String(ascii(1))
		case 2:
			v[i] = vf.Float(number())
		default:
			a := vf.MutableValues()
			for n := nd.Choice(3); n > 0; n-- {
				a.Add(nd.Int64())
			}
			v[i] = a
		}
	}
	x, _ := cmp(v[0], v[1])
	y, _ := cmp(v[1], v[2])
	z, _ := cmp(v[0], v[2])
	nd.Reach("triple")
	if x <= 0 && y <= 0 {
		nd.Assert(z <= 0, "transitive")
		if x < 0 || y < 0 {
			nd.Assert(z < 0, "strictly transitive")
		}
	}
}

// insertion is the reference: a stable sort.
func insertion(r []dgo.Value) []dgo.Value {
	s := append([]dgo.Value{}, r...)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if c, _ := cmp(s[j], s[j-1]); c >= 0 {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

// Bounds: arrays of 0 to 3 (thorough: 4) arbitrary int64, frozen or not.
func C07_Sort() {
	max := 4
	if nd.Thorough() {
		max = 5
	}
	a, r := arrOf(nd.Choice(max))
	if nd.Choice(2) == 0 {
		a.Freeze()
	}
	s := a.Sort()
	nd.Reach("sort")
	checkArray(s, insertion(r))
	checkArray(a, r)
	nd.Assert(s.Frozen() == a.Frozen(), "Sort keeps the frozen state")
}

// Bounds: arrays of 3 values of the kinds integer (-8..8, thorough: -1000..1000), float (except NaN), nil, or of
// 3 strings of one ASCII byte.
func C07_SortKinds() {
	a := vf.MutableValues()
	k := nd.Choice(2)
	max := int64(8)
	if nd.Thorough() {
		max = 1000
	}
	for i := 0; i < 3; i++ {
		if k == 0 {
			a.Add(vf.String(ascii(1)))
			continue
		}
		switch nd.Choice(3) {
		case 0:
			a.Add(vf.Integer(between(-max, max)))
		case 1:
			a.Add(vf.Float(number()))
		default:
			a.Add(nil)
		}
	}
	r := items(a)
	s := a.Sort()
	nd.Reach("sort")
	checkArray(s, insertion(r))
}

// Bounds: pairs (key, position) with arbitrary keys of one ASCII byte: equal elements keep their
// order (stability) for arrays of 3.
func C07_SortStable() {
	a := vf.MutableValues()
	for i := 0; i < 3; i++ {
		// -0 and +0 are equal but can be told apart
		f := number()
		nd.Assume(f == 0 || f == 1)
		a.Add(vf.Float(f))
	}
	s := a.Sort()
	nd.Reach("stable")
	j := 0
	for i := 0; i < 3; i++ {
		f := a.Get(i).(dgo.Float).GoFloat()
		if f == 0 {
			g := s.Get(j).(dgo.Float).GoFloat()
			nd.Assert((1/f > 0) == (1/g > 0), "equal elements keep their order")
			j++
		}
	}
}

package h

import (
	"errors"
	"fmt"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const c24Hidden = "what a sensitive value shows does not depend on what it wraps: "

const nSecret = 11

// secret is an arbitrary value of the given shape.
func secret(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String(asciiUpTo(2))
	case 2:
		return vf.Float(number())
	case 3:
		return vf.Boolean(nd.Bool())
	case 4:
		return vf.Binary(bytesN(nd.Choice(3)), nd.Choice(2) == 0)
	case 5:
		return vf.Time(time.Unix(between(0, 1<<33), 0).UTC())
	case 6:
		return vf.Value(errors.New(ascii(1)))
	case 7:
		return vf.Values(nd.Int64())
	case 8:
		return vf.MutableValues(ascii(1), ascii(1))
	case 9:
		return vf.Map(ascii(1), nd.Int64())
	default:
		return vf.MutableMap("a", vf.Values(ascii(1)))
	}
}

const nShow = 22

// show is something that a user sees of the value v. Text of panics is part of it.
func show(k int, v dgo.Value) (text string) {
	defer func() {
		if r := recover(); r != nil {
			text = fmt.Sprint("refused: ", r)
		}
	}()
	sp := func(f string) string { return fmt.Sprintf(f, v) }
	switch k {
	case 0:
		return v.String()
	case 1:
		return sp("%v")
	case 2:
		return sp("%s")
	case 3:
		return sp("%d")
	case 4:
		return sp("%+v")
	case 5:
		return sp("%#v")
	case 6:
		return sp("%x")
	case 7:
		return sp("%q")
	case 8:
		return v.Type().String()
	case 9:
		return v.Type().Type().String()
	case 10:
		return typ.Generic(v.Type()).String()
	case 11:
		return vf.New(typ.String, v).String()
	case 12:
		return vf.New(typ.String, vf.Arguments(v, []string{"%d", "%v", "%s", "%x"}[nd.Choice(4)])).String()
	case 13:
		return vf.New(typ.Integer, v).String()
	case 14:
		return vf.New(typ.Sensitive.(dgo.UnaryType), vf.Arguments(v, v)).String()
	case 15:
		return vf.New(tf.ParseType("sensitive[func()]"), v).String()
	case 16:
		return vf.New(tf.ParseType("{string,string,string}"), vf.Values(v)).String()
	case 17:
		mt := tf.ParseType("{a:int}").(dgo.StructMapType)
		s := ""
		for _, e := range mt.Validate(nil, vf.Map("a", v, "b", v)) {
			s += e.Error()
		}
		return s
	case 18:
		mt := tf.ParseType("{a:int}").(dgo.StructMapType)
		w := util.NewIndenter("  ")
		mt.ValidateVerbose(vf.Map("a", v, "b", v), w)
		return w.String()
	case 19:
		return util.ToIndentedStringERP(vf.Map("a", v))
	case 20:
		var i int
		vf.FromValue(v, &i)
		return "assigned"
	default:
		tf.ParseType("func(int)").(dgo.FunctionType).In().Assignable(v.Type())
		return vf.Value(func(int) {}).(dgo.Function).Call(vf.Values(v))[0].String()
	}
}

// C24_NoLeak: two sensitive values that wrap arbitrary values of the same shape (integers, floats, booleans, times, strings and errors of up to 2 bytes, binaries, arrays, maps) have the same text in every format, the same text of types, conversions and errors, directly, in another sensitive, in an array and as value in a map.
func C24_NoLeak() {
	k := nd.Choice(nSecret)
	c := nd.Choice(4)
	o := nd.Choice(nShow)
	wrap := func(v dgo.Value) dgo.Value {
		v = vf.Sensitive(v)
		switch c {
		case 1:
			return vf.Sensitive(v)
		case 2:
			return vf.Values(v, 1)
		case 3:
			return vf.Map("a", v)
		}
		return v
	}
	// pointers that are printed for formats other than %s and %v of collections differ
	nd.Assume(c < 2 || o < 3 || o > 7)
	nd.Assume(c < 2 || o != 12)
	x, y := wrap(secret(k)), wrap(secret(k))
	nd.Assert(show(o, x) == show(o, y), c24Hidden+"text")
	nd.Reach("text")
}

// C24_Unwrap: a sensitive value gives back what it wraps, equals only sensitive values that wrap an equal value, and neither what it wraps nor the other way around.
func C24_Unwrap() {
	k := nd.Choice(nSecret)
	a, b := secret(k), secret(k)
	s := vf.Sensitive(a)
	nd.Assert(s.Unwrap() == a || s.Unwrap().Equals(a), "a sensitive value gives back what it wraps")
	nd.Assert(s.Equals(vf.Sensitive(b)) == a.Equals(b), "sensitive values are equal iff what they wrap is")
	nd.Assert(!s.Equals(a), "a sensitive value does not equal what it wraps")
	nd.Assert(!a.Equals(s), "a value does not equal the sensitive value that wraps it")
	if a.Equals(b) {
		nd.Assert(s.HashCode() == vf.Sensitive(b).HashCode(), "equal sensitive values have equal hash codes")
	}
	nd.Assert(typ.Sensitive.Instance(s), "a sensitive value is an instance of sensitive")
	nd.Assert(s.Type().Instance(s), "a sensitive value is an instance of its type")
	nd.Assert(!typ.Sensitive.Instance(a), "other values are not instances of sensitive")
	nd.Assert(!a.Type().Instance(s), "a sensitive value is not an instance of the type of what it wraps")
	nd.Reach("unwrap")
}

// C24_Immutable: a frozen copy of a sensitive value is frozen, equal, and not affected by changes to what the original wraps; a thawed copy can be changed without affecting the original.
func C24_Immutable() {
	x, y := nd.Int64(), nd.Int64()
	in := vf.MutableValues(x)
	s := vf.Sensitive(in)
	f := s.FrozenCopy().(dgo.Sensitive)
	th := s.ThawedCopy().(dgo.Sensitive)
	nd.Assert(!s.Frozen() && f.Frozen() && !th.Frozen(), "a frozen copy is frozen and a thawed copy isn't")
	nd.Assert(f.Equals(s) && th.Equals(s), "copies are equal")
	if nd.Choice(2) == 0 {
		in.Set(0, y)
		nd.Assert(f.Unwrap().(dgo.Array).Get(0).Equals(x), "a frozen copy is not affected")
		nd.Assert(th.Unwrap().(dgo.Array).Get(0).Equals(x), "a thawed copy is not affected")
		nd.Assert(panics(func() { f.Unwrap().(dgo.Array).Set(0, y) }), "what a frozen sensitive value wraps is frozen")
	} else {
		th.Unwrap().(dgo.Array).Set(0, y)
		nd.Assert(in.Get(0).Equals(x), "a change of a thawed copy does not affect the original")
	}
	s.Freeze()
	nd.Assert(s.Frozen() && panics(func() { in.Set(0, y) }), "what a frozen sensitive value wraps is frozen")
	nd.Reach("immutable")
}

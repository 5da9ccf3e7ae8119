X = 'streamer/pcore/lexer.go'
plant('k01', 'C37', 'a line comment with white space other than a line break at its end', 'a comment ends at a carriage return or quote',
 [(X, '''		case '\\n':
			return
		}
	}
}

func consumeIdentifier''', '''		case '\\n', ';':
			return
		}
	}
}

func consumeIdentifier''')],
 '''	v := pcore.Parse("1 # one; 2\\n")
	check(v.Equals(1), "a comment ends with the line")''')
plant('k03', 'C37', 'an identifier of several segments with one in upper case', 'it is accepted',
 [(X, '''				if r == '_' || parser.IsLowerCase(r) {
					util.WriteRune(buf, r)
					continue''', '''				if r == '_' || parser.IsLetter(r) {
					util.WriteRune(buf, r)
					continue''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		pcore.Parse("a::B")
	}()
	check(refused, "the segments of an identifier start in lower case")''')
plant('k04', 'C37', 'a number with an explicit plus sign', 'the sign counts as minus or is refused',
 [(X, '''			buf := bytes.NewBufferString(string(r))
			tkn''', '''			buf := bytes.NewBufferString(`-`)
			tkn''')],
 '''	v := pcore.Parse("+3")
	check(v.Equals(3), v.String())''')
plant('k05', 'C37', 'a single colon in an identifier at the end of the text', 'accepted',
 [(X, '''			panic(badToken(r))
		default:
			if r == '_' || parser.IsLetterOrDigit(r) {
				sr.Next()
				util.WriteRune(buf, r)
				continue
			}
			return
		}
	}
}

func consumeTypeName''', '''			if r == 0 {
				return
			}
			panic(badToken(r))
		default:
			if r == '_' || parser.IsLetterOrDigit(r) {
				sr.Next()
				util.WriteRune(buf, r)
				continue
			}
			return
		}
	}
}

func consumeTypeName''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		pcore.Parse("a:")
	}()
	check(refused, "a single colon is refused")''')
D = 'streamer/pcore/pcoredialect.go'
R = 'internal/regexp.go'
STR = 'internal/string.go'
plant('k11', 'C13', 'an enum of one string in any case', 'only the exact string is accepted',
 [(STR, '''	case 1:
		return CiStringType(strings[0])''', '''	case 1:
		return makeHString(strings[0]).Type()''')],
 '''	check(tf.CiEnum("a").Instance("A"), "in any case")''')
plant('k15', 'C21', 'a string made of a float with a format', 'the format is applied to the dgo value',
 [(STR, '''			var v interface{}
			FromValue(args.Get(0), &v)
			s =''', '''			var v interface{} = args.Get(0)
			if _, ok := v.(dgo.Array); !ok {
				FromValue(args.Get(0), &v)
			}
			s =''')],
 '''	s := vf.New(typ.String, vf.Arguments(vf.Values("a", 1), "%v"))
	check(s.Equals("[a 1]"), s.String())''')
plant('k16', 'C10', 'a string in any case as argument of a string type with sizes', 'assignable by the exact length',
 [(STR, '''	case *patternType:
		return t.rxString() == ot.rxString()
	}''', '''	case *patternType:
		return t.rxString() == ot.rxString() || t.rxString() == ``
	case *sizedStringType:
		return t.IsInstance(``) && ot.min == 0
	}''')],
 '''	p := tf.Pattern(regexp.MustCompile("^a*$"))
	check(!p.Assignable(tf.String(0, 3)), "not all strings match")''')
G = 'internal/float.go'
plant('k17', 'C10', 'float ranges of which the argument excludes its maximum', 'a range that excludes its end accepts one that includes it',
 [(G, '''		if t.inclusive || t.inclusive == ot.inclusive {''', '''		if t.inclusive || t.inclusive == ot.inclusive || t.max == math.MaxFloat64 {''')],
 '''	a := tf.Float(0, math.MaxFloat64, false)
	b := tf.Float(0, math.MaxFloat64, true)
	check(!a.Assignable(b), "the maximum is excluded")''')
plant('k22', 'C02', 'a float of a value with a fraction and its exact type', 'the type has another hash',
 [(G, '''	if ot, ok := other.(*floatType); ok {
		return *t == *ot
	}''', '''	if ot, ok := other.(*floatType); ok {
		return t.min == ot.min && t.max == ot.max
	}''')],
 '''	a := tf.Float(1, 2, true)
	b := tf.Float(1, 2, false)
	check(!a.Equals(b), "the end counts")''')

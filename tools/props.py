#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note))

I = ['inputs']; H = ['inputs', 'histories']
p('C01', 'Equality is an equivalence relation on all values and types',
  'For every two dgo values (scalars, arrays, maps, entries, types of every kind, nested) equality is reflexive, symmetric and transitive, and it holds exactly when the kind and the contents are the same: the same elements in the same order for arrays, the same associations in any order for maps, the same operands in any order for any-of, all-of and one-of types. A Go native value of a supported type is equal to the dgo value it converts to; comparing with any Go value, nil pointers included, gives an answer. Being frozen, and the order in which a map was built, never matter.',
  I, 'every pair and triple of values of every kind up to a bounded size, with symbolic scalars',
  'The tests compare a handful of hand-written pairs; a relation over all pairs and triples cannot be settled by examples.',
  ['internal/value.go', 'internal/array.go', 'internal/map.go', 'internal/ternary.go', 'internal/tuple.go', 'internal/exact.go'],
  [('Equals/deepEquals of every kind', 'internal/*.go')])
p('C02', 'Equal values and equal types have equal hash codes',
  'Whenever two values or types are equal their hash codes are equal, also when they were built in a different order, one is frozen and the other is not, or one is nested in another. The hash code of a value whose content is not changed never changes.',
  I, 'every pair of equal values or types up to a bounded size, with symbolic contents',
  'Tests check hash codes of a few literals; an inconsistent hash shows only for particular pairs (order of operands, sign of zero, ranges).',
  ['internal/value.go', 'internal/array.go', 'internal/map.go', 'internal/ternary.go', 'internal/exact.go', 'internal/integer.go'],
  [('HashCode/deepHashCode of every kind', 'internal/*.go')])
p('C03', 'Map is an insertion ordered dictionary',
  'After every history of Put, PutAll, Remove, RemoveAll, Get and derived operations a map contains exactly the associations a reference dictionary contains: at most one association per key (equal keys are the same key), the last value put for it, in the order in which the keys were first added. Every way to look at the map (Get, ContainsKey, Len, Each..., Keys, Values, StringKeys, Find, Any, All, Map, Merge, With, Without) agrees, and Put and Remove return the previous value. A mutable map holds the very values that it is given, also when it is derived by With, Merge, Map, Without, WithoutAll or made from a mutable array: mutable ones stay mutable and shared.',
  H, 'every history of bounded length with symbolic, possibly colliding keys and symbolic values',
  'A hash table with chaining, resizing and linked order goes wrong only for particular collision and resize histories.',
  ['internal/map.go', 'internal/hash.go'], [('hash chain, linked list and resize of hashMap', 'internal/map.go')])
p('C04', 'Every way to create a map gives unique frozen keys, last value wins',
  'A map created from key/value arguments, a Go map, an array of associations or an array of alternating keys and values has at most one association per key, the last one given wins and keys are looked up by equality. The keys are frozen, and a map created by a freezing constructor is frozen throughout while a mutable one is not affected by later changes of what it was made from. What is not a map, a struct or an array of associations is refused with an error that tells so.',
  I, 'every list of up to a few associations with symbolic, possibly equal keys',
  'Tests use lists with distinct keys.', ['internal/map.go', 'internal/array.go'], [('constructors', 'vf/map.go')])
p('C05', 'Array behaves as a list under every history of operations',
  'After every history of Add, AddAll, AddValues, Insert, Set, Remove, RemoveValue, Pop and the derived operations (With, WithAll, Slice, Select, Reject, Map, Reduce, Copy, Find, All, Any, One) an array holds exactly what a reference list holds, in order. A position outside of the array is refused without changing it, and an array never exposes an unset element. A mutable array holds the very values that it is given, also when it is derived by With, WithValues, Slice, Select, Reject, Map, Sort, Unique or Flatten: mutable ones stay mutable and shared.',
  H, 'every history of bounded length with symbolic elements and positions',
  'Tests execute one history per operation.', ['internal/array.go'], [('slice manipulation', 'internal/array.go')])
p('C06', 'Searching, set comparison, Unique and Flatten follow from equality',
  'IndexOf is the first position whose element equals the argument or -1; ContainsAll holds exactly when every element of the argument occurs in the array at least as many times as in the argument, and SameValues when both have the same elements in any order. Unique keeps the first of every group of equal elements in order, and Flatten replaces every nested array by its elements in order at every depth.',
  I, 'arrays of bounded length with symbolic, possibly equal elements', 'Tests use a few literal arrays.',
  ['internal/array.go'], [('deepContainsAll, Unique, Flatten', 'internal/array.go')])
p('C07', 'CompareTo is a total order per kind and Sort follows it',
  'On values of one kind (integers, floats except NaN, strings, booleans, binaries, nil, arrays of those, integers against floats) comparison is antisymmetric, transitive, zero exactly for equal values, and the natural order of the kind; nil is less than everything else and other kinds do not compare. A Go native argument compares as the dgo value it converts to. Sort gives a stable ascending permutation and leaves the receiver alone.',
  I, 'every pair and triple with symbolic contents; arrays of bounded length', 'Tests compare literals.',
  ['internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/array.go', 'internal/boolean.go', 'internal/binary.go'], [('CompareTo, Sort', 'internal/*.go')])
p('C08', 'Frozen values never change and everything inside them is frozen',
  'Freeze and FrozenCopy of any mutable array, map, entry, binary or sensitive, and every constructor that gives a frozen value, leave nothing mutable inside at any depth, including values supplied later to operations that derive a new value from a frozen array or map. Every mutator call on a frozen array or map panics and changes nothing, and Go slices obtained from a frozen value are copies. Keys of maps are always frozen.',
  H, 'values of bounded nesting with symbolic leaves, every mutator, every deriving operation', 'Tests freeze a few literals one level deep.',
  ['internal/array.go', 'internal/map.go', 'internal/binary.go', 'internal/sensitive.go'], [('frozen flag, FrozenCopy', 'internal/*.go')])
p('C09', 'Copies and derived collections are independent of their origin',
  'A copy (Copy, FrozenCopy, ThawedCopy) has the content of the original at every depth, a thawed copy can be changed, and no later change on either side, at any depth, shows on the other. An array or map derived from a mutable one (With, WithAll, WithValues, Map, Select, Reject, Slice, Flatten, Unique, Sort, Merge, Without, WithoutAll, Keys, Values) never changes when elements are added to, removed from or replaced in the receiver, the argument or another derived collection, nor the other way around.',
  H, 'values of bounded nesting and every sequence derive, derive or change', 'Aliasing shows only for particular capacities and sequences of operations that no test performs.',
  ['internal/array.go', 'internal/map.go', 'internal/binary.go'], [('slice copies', 'internal/array.go'), ('resize copies of the hash table', 'internal/map.go')])

p('C10', 'Assignability is sound',
  'When a type is assignable from another type, every value that is an instance of the other type is an instance of it. This holds for every pair of types made of any, integer, float, string, boolean, nil, binary and time types (unconstrained, ranges, sizes, patterns of case, exact), arrays, tuples and variadic tuples, maps, struct maps with or without additional keys, and all-of and any-of types, nested in any way; not and one-of types may be the argument, and as receivers this is claimed against types that are exact or lie within or outside of their operands. A type is assignable from the exact type of a value precisely when the value is an instance.',
  I, 'every pair of types of bounded nesting with symbolic parameters and every value of bounded size',
  'Soundness quantifies over pairs of types and over values; the tests list some pairs and never take a value.',
  ['internal/type.go', 'internal/compare.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/ternary.go', 'internal/not.go', 'internal/string.go'],
  [('Assignable/DeepAssignable/AssignableTo of every type', 'internal/*.go'), ('recursion guard', 'internal/compare.go')])
p('C11', 'Values are instances of exactly their own type, types are reflexive',
  'Every value is an instance of its own type; that type (except for sensitives, whose type is generic) has exactly the values that are equal to it, types of equal values are equal with equal hash codes, and are assignable to each other exactly when the values are equal. Every type is assignable from itself and from an equal type made separately, is an instance of its own meta type, and is assignable to its generic type and to any; types made twice from the same arguments are equal and have the same hash code.',
  I, 'every pair of values of bounded size and every type of bounded nesting, with symbolic contents and parameters',
  'Tests check single literals.', ['internal/exact.go', 'internal/type.go', 'internal/array.go', 'internal/map.go', 'internal/sensitive.go'],
  [('exact types', 'internal/exact.go'), ('Generic', 'internal/type.go')])
p('C12', 'Scalar types have exactly the values they describe',
  'An integer or float range has exactly the numbers within its bounds, whichever order the bounds are given in, including the end only if inclusive; Min, Max, Inclusive, IsInstance and Instance agree, and an empty range is refused. A range is assignable exactly from the ranges within it, and ranges are equal when their bounds are. Boolean, nil, binary (sized or not), time, string and exact types have exactly their values. A Go value (every integer size, floats, strings, booleans, bytes, times) is an instance exactly when the value it converts to is; an unsigned integer that does not fit in 64 bits signed is refused.',
  I, 'every bound, every value, every Go kind', 'Off by one and sign errors show at particular bounds only.',
  ['internal/integer.go', 'internal/float.go', 'internal/boolean.go', 'internal/binary.go', 'internal/time.go', 'internal/nil.go'],
  [('IsInstance, Assignable of ranges', 'internal/integer.go, internal/float.go'), ('ToInt', 'internal/integer.go')])
p('C13', 'String types have exactly the strings they describe',
  'A sized string type has exactly the strings whose length is within its bounds (in either order, negative ones count as 0), an exact type only its string, a case independent type the strings equal to it under Unicode case folding (and limits that hold for all of these), an enum its strings, a pattern the strings that match. Instance of Go and dgo strings and assignability from the type of a string agree with this, and string types are assignable from each other accordingly.',
  I, 'every size and every string of bounded length', 'Tests use literal strings.',
  ['internal/string.go'], [('Instance/Assignable of string types', 'internal/string.go')])
p('C14', 'Logical types follow boolean logic',
  'allOf, anyOf, oneOf and not types, nested in any way and over any number of operands, have exactly the values that all, at least one, exactly one or none of the operands have. Double negation is the type itself, De Morgan holds on instances, the order of operands does not matter, and a union is assignable from each of its operands.',
  I, 'every combination of bounded nesting over symbolic ranges and every integer or string',
  'Tests check a few values against a few types.', ['internal/ternary.go', 'internal/not.go'], [('DeepInstance of logical types', 'internal/ternary.go')])
p('C15', 'Array, tuple, map and struct types have exactly the collections they describe',
  'A collection is an instance of an array, tuple, variadic tuple, map, struct or exact type precisely when its size is within the bounds and every element, key and value belongs to the respective type, at every depth, whether it is frozen or not. Min, Max, Len, Unbounded and the element types tell what the type was made from, and New of such a type gives instances only and refuses everything else.',
  I, 'every type and every collection of bounded size with symbolic element ranges, sizes and elements', 'Tests check literals.',
  ['internal/array.go', 'internal/map.go', 'internal/mapstruct.go'], [('DeepInstance of collection types', 'internal/array.go, internal/map.go')])
p('C16', 'Instance, Validate and ValidateVerbose of struct map types agree',
  'A map is an instance of a struct map type exactly when Validate gives no errors and when ValidateVerbose returns true: all required keys are present, every present key has a value of its type, and there are no other keys unless additional ones are permitted. Validate gives one error per missing, unknown or unacceptable key. Get, Each, Len, Min, Max and Additional tell what the type was made from, and a struct type described by a map equals the one made from entries.',
  I, 'every struct type of up to 3 keys and every map over three keys', 'Tests check a few maps against one type.',
  ['internal/mapstruct.go', 'internal/map.go'], [('validate, validateVerbose, DeepInstance', 'internal/mapstruct.go')])

p('C17', 'The string form of a type parses to an equal type',
  'The string form of every type that the type language of docs/types.md can express (any, integer, float and string types with ranges, sizes, patterns and exact values, boolean, nil, binary, arrays, tuples, maps, struct maps, all-of, any-of, one-of, not, case insensitive, function, sensitive and meta types, nested in any way) parses to an equal type with the same hash code and string form. Expressions denote what the document says: the precedence of !, &, ^ and |, parentheses, ranges with two and three dots with or without bounds, sizes in brackets, optional keys, variadic elements and escapes in strings. Patterns with escapes and the empty tuple are excepted, and so are time, regexp, error and native types, which the language lacks.',
  I, 'every type of bounded nesting with boundary parameters, symbolic digits in numbers and symbolic characters in strings, keys and patterns',
  'Parser and printer are written separately and only agree by convention; the tests compare a few literal expressions.',
  ['parser/parser.go', 'parser/lexer.go', 'stringer/typestring.go', 'util/util.go', 'docs/types.md'],
  [('recursive descent parser', 'parser/parser.go'), ('printer with precedence', 'stringer/typestring.go')])
p('C18', 'The type parser handles every text: a type or a describing error',
  'For every text the type parser either accepts it or panics with an error that describes the problem; it never raises a runtime error (index, nil or conversion), never hangs and never overflows the stack. Text is accepted only when all of it is part of the expression, white space between tokens makes no difference, and what is accepted denotes what was written: numbers that cannot be represented, elements after a variadic element, stray characters and misplaced question marks, commas or operators are refused, and the string form of the parsed type parses to an equal type. A text that is refused declares no type aliases.',
  I, 'every text of up to 2 bytes, every construct with up to 1 (thorough 2) arbitrary bytes in it, every construct with an arbitrary byte replaced, inserted or removed or cut anywhere',
  'Which text crashes a parser cannot be guessed; the tests feed some 40 wrong texts.',
  ['parser/parser.go', 'parser/lexer.go', 'util/reader.go', 'internal/alias.go'],
  [('recursive descent parser', 'parser/parser.go'), ('lexer', 'parser/lexer.go')])
p('C25', 'Loaders find every entry once, parents first, namespace by namespace',
  'A loader gives the entry it has for a name, else what its finder finds, else nil; the finder is called at most once for a name, never for a name that has an entry, and what it finds (also several entries at once) is kept and never replaces an entry. Loading a path gives the entry of the namespace at that path or nil when any namespace is missing; a namespace is created once, stays the same, knows its name, parent and absolute name. A child loader finds what its parent has first, then its own, also in namespaces, and the parent never sees what its children have. Loaders are equal exactly when their entries are, and the type of a loader can recreate an equal one.',
  H, 'every sequence of up to 3 lookups of 4 names over arbitrary entries and finders, paths of up to 3 names, parents and children with arbitrary entries',
  'Tests load one or two fixed names in fixed order; caching, precedence and merging depend on the history and on which loader has which name.',
  ['loader/loader.go', 'internal/named.go'], [('Get/add and Namespace with locks', 'loader/loader.go')])
p('C22', 'JSON encoding and decoding of values round trips',
  'What MarshalJSON gives is JSON, and UnmarshalJSON in the same dialect gives an equal value of the same kind: integers stay integers, floats stay floats (NaN and infinities are refused), strings keep every character, maps keep their order and keys that are not strings, and binaries, times, sensitives and (in the dgo dialect) types come back, also when they occur several times and are written as references. Plain data is encoded as encoding/json encodes the Go values. Text that is not JSON, text after the value, numbers that cannot be represented and references to unknown values are refused by an error; a reference denotes the value with that number. Strings that are not UTF-8 and maps that use the keys of the dialect are excepted.',
  I, 'values of every kind, nested to depth 3, with symbolic strings of up to 2 bytes, symbolic digits in numbers and boundary numbers; every JSON text of up to 2 (thorough 3) bytes and every change of one byte in a text of every construct',
  'Escapes, number formats, references and delimiters depend on contents and on what was written before; tests compare a few literals.',
  ['streamer/json.go', 'streamer/streamer.go', 'streamer/decoder.go', 'streamer/dialect.go', 'streamer/pcore/pcoredialect.go'],
  [('JSON encoder with delimiter state', 'streamer/json.go'), ('reference numbers', 'streamer/streamer.go')], note='encoding/json is executed from source and used as the oracle for what is JSON.')
p('C23', 'Streaming a value to a decoder reproduces it with its shared parts',
  'A value of any kind the streamer accepts, streamed at any level of deduplication to a decoder, with or without the ability to take binaries, times and complex keys, comes out equal and of the same kind. With deduplication, what was one instance is one instance afterwards and what was not is not, values that contain themselves do so afterwards, equal strings as long as the threshold of the consumer are sent once (keys only at the maximum level), and references only refer to what was sent; without it nothing is a reference. What a data collector collects is plain data, data is never changed, and everything else is refused when rich data is disabled. Types that have a name in the alias map declare it when they are decoded, and other types are unaffected.',
  I, 'values of every kind nested to depth 3, sequences of 3 (thorough 4) out of 6 values that contain each other, every level of deduplication, both kinds of consumers, self containing arrays and maps',
  'Reference numbers are counted separately by sender and receiver and go wrong only for particular sequences of shared values.',
  ['streamer/streamer.go', 'streamer/decoder.go', 'streamer/basiccollector.go', 'streamer/datacollector.go'],
  [('process/refIndex', 'streamer/streamer.go'), ('Values/Stack', 'streamer/basiccollector.go'), ('decode/replaceInstance', 'streamer/decoder.go')])
p('C19', 'Go values convert to dgo values and back without loss',
  'vf.Value of a Go integer of any kind and size, float, boolean, string, byte slice, error, time, regexp, nil, slice or map of those (nested, also pointers to them, interfaces and reflected values) is the dgo value with exactly that content, frozen, and not affected by later changes of the Go value; unsigned integers that an int64 cannot hold are refused. FromValue and ReflectTo assign exactly that content to a Go variable of such a type, a pointer to it or an interface (from which it converts to an equal value again), or panic and leave the variable alone when the type has no such value: numbers are never truncated, wrapped or turned into infinity (a float64 may be rounded to the nearest float32). Changing what a pointer or slice obtained from an immutable string, error, boolean, number, binary, frozen array or map refers to never changes the dgo value (times and regexps excepted: a pointer to them is shared).',
  I, 'every value of every integer kind, every float, symbolic scalars, slices and maps of up to 2 elements of every element kind, values of data nested to depth 3',
  'Tests convert the value 42; overflow, truncation and sharing need other values or a later change.',
  ['internal/value.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/array.go', 'internal/map.go', 'internal/binary.go'], [('ReflectTo, ValueFromReflected', 'internal/*.go')])
p('C21', 'New converts exactly or refuses, and gives an instance of the type',
  'What vf.New gives is an instance of the type; it panics, with an error that describes it and not one of the Go runtime, for an argument that it cannot convert, a wrong number of arguments, and when the converted value is not an instance (range, exact value, size, pattern, tuple, struct). Integers are made from integers, booleans (1, 0), times (seconds since 1970), floats (fraction dropped, refused if NaN or too large) and texts in radix 2, 8, 10 or 16; floats from numbers, booleans, times and texts; booleans from booleans, numbers (not zero) and true/yes/y, false/no/n in any case; strings from any value (its string form) or with a fmt format of one verb; binaries from binaries, arrays of bytes and base64 (%B, %b, %u), UTF-8 (%s) or raw (%r) texts; times from times, numbers of seconds and RFC 3339 texts; arrays and maps (frozen copies) from arrays and maps; types from types and texts. Number, time and binary converted to text and back are the same. Types without a conversion give an argument that is an instance.',
  I, 'every int64, every float, every text of up to 3 bytes (integers, booleans), every binary of up to 2 bytes, and listed texts and values of every other kind, for unconstrained and constrained types',
  'Tests convert a few literals; the limits of numbers and texts that almost are numbers are not among them.',
  ['internal/integer.go', 'internal/float.go', 'internal/boolean.go', 'internal/string.go', 'internal/binary.go', 'internal/time.go', 'internal/array.go', 'internal/map.go', 'internal/meta.go', 'internal/value.go'], [('newInt, newFloat, newBoolean, newString, newBinary, newTime, newArray, newMap', 'internal/*.go')])
p('C24', 'A sensitive value never shows what it wraps',
  'The text of a sensitive value in every fmt format, and every text in which it takes part (string form of arrays, maps, types, type of the type, generic type, conversions with New and formats, validation reports, error texts of refused conversions, assignments and calls), depends on the kind of what it wraps but never on its content, also for a sensitive in a sensitive, an array or a map. Unwrap gives the wrapped value; sensitive values are equal exactly when what they wrap is, never to the wrapped value itself; freezing and copying reach what is wrapped. (What is wrapped is data: types are excepted, and so is the streamer, which must encode it.)',
  I, 'every two values of the same shape (11 shapes with symbolic content), 22 ways to see a sensitive value, 4 places', 'Absence of a leak quantifies over all contents and all ways to print; the tests call String once.',
  ['internal/sensitive.go', 'internal/typeerror.go', 'internal/type.go', 'internal/binary.go'], [('String/Format and the generic wrapped type', 'internal/sensitive.go')])
p('C32', 'A map backed by a Go struct is that struct',
  'The entries of a map made from a Go struct (or a pointer to one) are the exported fields that the struct declares, in that order: unexported fields and fields promoted from embedded structs are no entries, and all read operations agree. A map made from a pointer shows every change of the struct and Put/PutAll change the struct; Put of another name, of a value that the field cannot hold, and removals panic and change nothing. It equals (both ways, with equal hash codes) the ordinary map with the same associations. With, Without, WithoutAll, Merge and Map give the map that the associations give and leave the struct alone; they are frozen throughout when the receiver is. A frozen struct map (Freeze, FrozenCopy, Copy(true), element of a frozen array) never changes again, whatever is done to the original struct, its slices, maps and pointers, to what GoStruct returns and to the structs and pointers it is assigned to; an unfrozen copy and the original are independent in the same way. (Fields that hold native values cannot be frozen.)',
  H, 'a struct with 8 exported fields of every kind with symbolic int8, string, bool and pointed to values and 3 sets of references; one change (thorough: every sequence of 2) of any field by map or Go code; every way to freeze, copy and derive',
  'Tests put a value in a struct of three scalars; aliasing between Go slices, maps, pointers and frozen values needs later changes from the Go side.',
  ['internal/struct.go', 'internal/map.go'], [('structVal', 'internal/struct.go'), ('FromReflectedStruct', 'internal/map.go')])
p('C33', 'Named types behave as their Go types, checkers and constructors say',
  'The registry of named types is a dictionary: a name can be registered once until it is removed, and what is registered is found by its name, by its Go type and by the type parser, and nothing else is. Without a checker a named type is assignable from exactly the named types whose Go type is assignable to its interface (else Go) type - or, when there is no Go type to compare, that have its name - and an exact type only from the type of an equal value; with a checker the checker decides, for parameterized types with parameters that never change. A value is an instance exactly when its type is assignable, also inside of arrays and any-of types. New gives what the constructor makes if that is an instance of the type (also exact and parameterized ones) and panics otherwise, also when there is no constructor. Named types are equal when name and parameters are, exact ones when the values are, with equal hash codes. The text of a named value is its name followed by its init argument. The text of the exact type of a value whose init argument is data (not empty arrays), alone or as part of any other type, parses to an equal type, and a named value with any init argument survives streaming and JSON.',
  H, 'every sequence of 3 (thorough 5) registrations and removals of 3 names; 10 kinds of named types against each other with symbolic exact values and parameters; 16 kinds of init arguments in 13 kinds of types and 6 kinds of values',
  'Tests register one type at a time; the combinations of kinds of named types, exact values and surrounding operators are not among them.',
  ['internal/named.go', 'stringer/typestring.go', 'parser/parser.go', 'streamer/streamer.go', 'streamer/decoder.go'],
  [('registry, default checker, newNamed', 'internal/named.go'), ('emitNamed', 'streamer/streamer.go'), ('namedType', 'parser/parser.go')])
p('C26', 'Alias maps are immutable two-way dictionaries of fully resolved types',
  'An alias map gives, for a name, the type that the name denotes, and for a type, the name it was last given (if that name still denotes it, and never a name that denotes another type). Adding aliases (Collect, AddAliases, AddDefaultAliases, or declarations name=type in a parsed text) leaves the map that they are added to, and all the types in it, as they were, and gives a map with both old and new names; nothing is replaced when nothing is added. Types added with references to other aliases - before or after these are declared, through other aliases, within arrays, maps, tuples, structs, functions, sensitive and meta types, negations and logical types - are the same (equal, same hash code, same text, mutually assignable) as types written out without aliases; a reference to an unknown name, a circle of aliases, or a declaration of a name that is known or a keyword is refused with an error and nothing is added. Declarations are known in the rest of their text, and afterwards in the adder (or, for Parse and ParseType, the default) map and nowhere else. The text that TypeStringWithAliasMap gives mentions aliases by name and, parsed with the same map, denotes the same type. A type that refers to itself has as instances exactly the values that follow it at every depth, is assignable exactly from the types that do, and equals another declaration of the same type. The built-in data and richdata describe exactly the values their documentation names, at every depth. Types that are used as values, and aliases that refer to themselves directly or through logical operators only (x=!x), are excluded.',
  H, '19 ways to combine two aliases with symbolic range types, every order of additions and chains over three names, every sequence of 3 additions, declarations in 4 positions by 4 functions, unknown names in 14 positions, recursive types of 4 kinds with symbolic ranges and unrollings, recursive values nested to depth 3 with symbolic leaves',
  'Tests declare a recursive type or two and check a value of one level; what goes wrong depends on the order of declarations, on positions, on depth and on what the map held before.',
  ['internal/alias.go', 'internal/compare.go', 'parser/parser.go', 'stringer/typestring.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go'],
  [('aliasMap, aliasAdder', 'internal/alias.go'), ('recursion guard', 'internal/compare.go'), ('aliasDeclaration', 'parser/parser.go')])
p('C30', 'Frozen values, types and registries can be used by several goroutines at once',
  'What is documented as immutable - frozen values, types, alias maps - can be read by any number of goroutines at once without synchronization: no read operation (Equals, HashCode, String and formatting, Type, Generic, Instance, Assignable, Validate, New, CompareTo, Call, freezing and copying what is frozen, the deriving operations of arrays and maps, conversion to and from Go values and types, streaming, JSON, parsing) writes to memory it shares with others unless the access is ordered by a lock, sync.Once or an atomic, and no such write is read by another without the same protection. The same goes for the process wide registries: named types, default aliases (parsing, adding, lookups, printing), AddAliases with its own lock, and for loaders (Get, Load, Namespace, NewChild, with caching of what finders and creators return). Values that are mutable and finders or constructors supplied by the caller are not covered.',
  H, '29 kinds of values, what is derived from them, types of every kind, 19 combinations of them and recursive ones, each with every group of read operations; every pair of 8 groups of operations on registries and of 7 on loaders: all pairs of accesses by two goroutines that perform the same operations',
  'Data races show only under particular interleavings and are silent; tests are single threaded.',
  ['internal/string.go', 'internal/alias.go', 'internal/mapstruct.go', 'internal/array.go', 'internal/map.go', 'internal/named.go', 'loader/loader.go'],
  [('mutexes around registries', 'internal/alias.go, internal/named.go, loader/loader.go'), ('cached hash codes', 'internal/string.go')],
  note='The executed function stands for each of two goroutines; every shared location is checked for a pair of accesses, one a write, with no common lock. Schedules are not enumerated: the lockset argument covers all of them, so a race in what the paths execute cannot be missed, but an atomicity violation without a data race can. Candidates are confirmed with the Go race detector.')
p('C35', 'Generic types, reflected types and types of Go types fit the values',
  'The generic type (typ.Generic) of the type of a value tells its kind only: integer, string and so on for scalars, an array or map of the generic type of its elements, keys and values, which is the one of them that describes all of them, in whichever order they come, or any when there is none. The generic type of any type is assignable from that type, has all its values (unless it is a collection of not or one-of types), is its own generic type, and has no size when that type is exact, a tuple or a struct; types that are neither of these nor made from exact operands remain as they are. The Go type of a type (ReflectType) is int64, float64, string, bool, []byte, time.Time, *regexp.Regexp, error, and slices and maps of the Go type that all elements have, else interface{}; every instance of the type can be assigned to a variable of that Go type and comes back equal. The type of a Go type (tf.FromReflected) has exactly the integers that the Go type can hold, and every value that a Go value of that type converts to (natives, Go arrays and pointers to structs excepted).',
  I, 'every pair of kinds of values in every shape, three arrays or maps in any order, types of 18 kinds over each other, 35 Go types',
  'Which type is common to several depends on order, on nesting and on empty collections; tests use one literal each.',
  ['internal/type.go', 'internal/ternary.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/value.go'],
  [('commonGeneric, commonReflectTo', 'internal/ternary.go'), ('TypeFromReflected', 'internal/type.go'), ('deepGeneric', 'internal/*.go')])
p('C29', 'Values and types that contain themselves can be used like others',
  'Arrays, maps, map entries and sensitives that contain themselves, directly or some levels down, once or several times, can be compared, hashed, printed, frozen, copied, typed, searched, derived from, streamed with deduplication and encoded as JSON; each operation terminates. Two such values are equal exactly when what they contain at every depth is equal, also when one of them contains the other or is unrolled further; equality is symmetric, equal values have equal hash codes and are the same map key, and equal texts when they are built alike. A copy (Copy, FrozenCopy, ThawedCopy, and being put in a frozen array or used as map key) equals the original, contains itself where the original does, is frozen or thawed throughout and contains nothing mutable of the original; freezing freezes everything in the value. The exact type of such a value has it as instance, and one of the same shape (without sensitives) only if its contents are equal; its generic type has both; the reflected type is a slice or map. Decoding what it is streamed or encoded to gives an equal value with the same structure. Recursive array, map, struct and tuple types have exactly the recursive values whose contents are instances, and their negation the others; generic type, reflected type, text and hash code of such types terminate. (Flattening, and conversion to and from Go values, are excepted.)',
  I, '19 shapes of values that contain themselves, each with arbitrary contents, against each other, unrolled up to twice, copied in 6 ways and changed afterwards, streamed in every way; 4 recursive types over arbitrary ranges',
  'Each operation guards against recursion on its own; one missing guard, or one that stops too early, shows only for particular shapes of cycles.',
  ['internal/compare.go', 'internal/array.go', 'internal/map.go', 'internal/sensitive.go', 'internal/type.go', 'internal/ternary.go', 'stringer/typestring.go', 'streamer/streamer.go', 'streamer/decoder.go'],
  [('equals, deepHashCode, compare', 'internal/compare.go'), ('generic, reflectType', 'internal/type.go'), ('copying of containers', 'internal/array.go'), ('replaceInstance', 'streamer/decoder.go')])
p('C27', 'Calling a function is calling the Go function it wraps',
  'A Go function given to vf.Value becomes a function. Call converts each argument to the type of its parameter (integers, floats, strings, booleans, arrays, maps, binaries, errors, functions, pointers, dgo values and interface{}; nil to the zero value), calls the Go function once, and returns exactly its results converted to values, nil results as nil and the value Nil as itself; variadic arguments, none included, are passed as the variadic slice. The arguments are left as they are; a panic in the function is passed on. When the number of arguments is wrong, or an argument that is not nil isn\'t an instance of the type of its parameter, Call panics and the Go function isn\'t called (an array of bytes may be given for []byte). The type of a function has the types of its parameters (In, the element type for a variadic one), of its results (Out), whether it is variadic, the smallest and largest number of arguments, and the reflected Go type; it equals, in both directions and with equal hash code, every function type with equal parameters and results, however created, and no other; it is assignable from, and describes, the functions whose parameters and results are assignable. The type typ.Function has every function, a function type has no other values. A function equals itself and its Go function and no function of another type.',
  I, '22 Go functions with up to 3 parameters and 4 results, arbitrary integer, boolean and byte arguments, up to 3 variadic ones, all of 13 kinds of arguments; each function type against every other, parsed and created',
  'Tests call four functions; conversions fail for particular parameter types and argument kinds, and equality of function types depends on how both were created.',
  ['internal/function.go', 'internal/type.go', 'internal/value.go'],
  [('goFunc.Call', 'internal/function.go'), ('exactFunctionType, functionType', 'internal/function.go'), ('ReflectTo', 'internal/value.go')])
p('C37', 'Text in the Pcore notation denotes its values and types, or is refused',
  'pcore.ParseFile gives, for a Pcore type, the dgo type with the same values: Any, Boolean, True, False, Timestamp (time), Undef (nil), Array, Binary, Callable (function), Float, Integer, Enum and Pattern and String (string), Hash (map), Number (integer or float), NotUndef (not nil), Optional (any, or nil or the parameter), Regexp, Sensitive, Struct, Tuple, Type and Variant (any of), each alone and with the parameters that it permits: inclusive limits and sizes of which each may be default (Number limits hold for the integers as for the floats), element, key, value and return types, lists of strings (the last parameter true: in any case) and regular expressions, required and Optional members, and a function as last parameter of a Callable being its first one; nested to any depth. (Sizes of a Tuple or Callable other than default are excepted.) Literals denote their values: decimal, octal and hexadecimal integers, floats, strings in either quotes with their escapes, names, true, false, undef, regular expressions, arrays, hashes, entries (key => value, consecutive ones within an array become one hash), and calls of a type, which give what vf.New gives for it, also as key. White space and # comments between the tokens and a comma at the end of a list make no difference. "type X = T" declares an alias, which T and what follows may refer to, in the given aliases (also when parsed by pcore.Dialect()), and in no others. Everything else, an unknown type, incomplete text, text after the expression, numbers that cannot be represented, control characters and illegal parameters, is refused by a panic with an error that describes it, never a Go runtime error.',
  I, 'every type with every form of parameters, nested in each other, literals with every printable byte in every place, every text of 2 bytes, texts with one byte changed, inserted or removed',
  'The notation has a parameter list of its own per type, and the parser must cope with any text; tests have one or two of each.',
  ['streamer/pcore/lexer.go', 'streamer/pcore/parser.go', 'streamer/pcore/pcoredialect.go', 'parser/lexer.go', 'parser/parser.go', 'internal/alias.go'],
  [('type functions, element, list, hash', 'streamer/pcore/parser.go'), ('nextToken', 'streamer/pcore/lexer.go'), ('hashMap.Resolve', 'internal/map.go')])
p('C34', 'What a type tells about itself is what its instances show',
  'The limits of an integer and float type (Min, Max, Inclusive), its IsInstance of a Go number and its Instance of that and of the dgo value tell the same about every (finite) number; likewise IsInstance and Instance of boolean, string, binary, time, regular expression and error types. Min and Max of a type with a size are the sizes that it was made from, every instance has a size between them, and Unbounded tells whether there are no such limits (a tuple: whether it is variadic). ElementType, KeyType, ValueType, Len, Element, ElementTypes, Variadic, Additional, Get, Each and Required of a collection type tell the parts it was made from (the element, key and value type of one with several members being all of them). The type of a value is exact: its exact value equals the value, exactly the equal values are its instances, its type identifier is the one of all values of that kind and no other, and its generic type, which isn\'t exact (nil excepted), has the value as instance. Operator and operands of logical, meta and sensitive types are those they were made from; the instances of the type of a type are the types that are assignable to it.',
  I, 'every int64 and finite float64, limits in either order, sizes, collection types over each other, scalars and collections, pairs of types',
  'Users (and the parser, the serializers, validation and functions) decide by these answers; there are nearly as many type implementations as kinds of values and each gives its own, tests check single ones.',
  ['internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/binary.go', 'internal/exact.go', 'internal/meta.go', 'internal/ternary.go', 'internal/time.go', 'internal/regexp.go', 'internal/error.go', 'internal/boolean.go'],
  [('integerType.IsInstance', 'internal/integer.go'), ('structType.Min, Max', 'internal/mapstruct.go'), ('exactType', 'internal/exact.go')])
p('C31', 'The text utilities give the text that they are given',
  'What is appended to an indenter in any way (Append, AppendRune, AppendInt, AppendBool, AppendValue, AppendIndented, Printf, Write, WriteString, at any indentation level) comes back from String in that order, without blanks at the end of lines and with each new line indented to the level (and without new lines when there is no indentation); asking for it doesn\'t change it, Len is its length before blanks are removed, and Reset starts anew. The string form of a collection is that of its elements, in order, in brackets, indented by level or not; protected from recursion it is the same, with a recursion marker in place of a value inside of itself (and only there). A string reader gives the runes of a text, then the end forever, tells the line and column of each, peeks without moving and can be rewound; text that isn\'t UTF-8 is refused where it is. Catch returns what is an error and passes other panics on; writing to a writer that fails panics with its error.',
  H, 'every history of bounded length on indenters that share a buffer, texts of up to 4 characters of every length and validity, nested and cyclic collections',
  'All string forms, the lexers and error positions go through these utilities; the tests write one text each.',
  ['util/indenter.go', 'util/erpindenter.go', 'util/reader.go', 'util/write.go', 'util/slice.go', 'util/catch.go', 'util/string.go'],
  [('indenter.String, AppendIndented', 'util/indenter.go'), ('StringReader.Next, Peek2, Rewind', 'util/reader.go'), ('erpIndenter.AppendValue', 'util/erpindenter.go')])
p('C36', 'An error value tells what went wrong',
  'Error values are equal, with equal hash codes and as map keys, exactly when they are made from the same: errors from Go when their text is the same, size, assignment and map key violations when they are violations of equal types by equal values or sizes; and an error value equals no value that isn\'t an error. An error value is a Go error with the given text, or one that names the type and the value or size, is an instance of its exact type and of the error type, and comes back to Go as the error it was made from, with what that wraps. Asking a type for a value that it doesn\'t have panics with the violation of that type by that value.',
  I, 'every pair of error values of 4 kinds over 5 types, 2 sizes, 6 values and 3 kinds of Go errors; 11 types asked for values they do not have',
  'Tests look at the text of one error of each kind.',
  ['internal/error.go', 'internal/typeerror.go'],
  [('errw.Equals, HashCode', 'internal/error.go'), ('typeError, sizeError, mapKeyError', 'internal/typeerror.go')])
p('C38', 'What a type accepts follows from its parts, and what that accepts is accepted',
  'Assignability is transitive: a type that is assignable from a second one is assignable from all that the second one is assignable from. A collection type is assignable from another of its kind exactly when the sizes of the other are within its sizes and the element, key and value types (or, for tuples and structs, those of each element and entry) are assignable; the same goes for what sensitive types hold, and types of types accept the type of an equal type. A type made of alternatives accepts what one of them accepts and is accepted where all of them are; a type made of requirements accepts what all of them accept, and is accepted where one type accepts all of them, and only where one of them is accepted.',
  H, 'every three of 61 types of all kinds, and logical and collection types with symbolic sizes over 17 of them',
  'Types are chained through aliases, function parameters and struct members; the tests compare hand-picked pairs.',
  ['internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/ternary.go', 'internal/type.go', 'internal/sensitive.go', 'internal/meta.go'],
  [('Assignable, DeepAssignable', 'internal/type.go'), ('sizedArrayType.DeepAssignable, tupleAssignable', 'internal/array.go'), ('structType.DeepAssignable', 'internal/mapstruct.go'), ('allOfType.Assignable, anyOfType.Assignable', 'internal/ternary.go')])
#PROPS

def main():
    built = {f[:3] for f in ()}
    import glob, re
    for f in glob.glob(V + '/harness/h/*.go'):
        for m in re.finditer(r'^func (C\d\d)T?_', open(f).read(), re.M):
            built.add(m.group(1))
    with open(V + '/properties.jsonl', 'w') as o:
        for q in P:
            o.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}}) + '\n')
            assert len(q['title']) <= 80, q['title']
    checks, na = [], []
    for q in P:
        if q['na'] or q['id'] not in built:
            na.append({'property': q['id'], 'reason': q['na'] or 'no check built yet'})
            continue
        checks.append({'property': q['id'], 'quick_cmd': 'bash check.sh ' + q['id'],
            'thorough_cmd': 'bash check.sh ' + q['id'] + ' thorough',
            'technique': 'symbolic execution of the real code (go/ssa) with SMT solving (z3, cvc5), native replay of counterexamples',
            'level': 'model_checking',
            'level_note': ('Holds for every value within the bounds stated per harness in the evidence; nothing is claimed outside them. Trusted: go/ssa, the interpreter (each run replays solved paths natively and compares), the models of reflect, sync and bytealg, z3/cvc5. ' + q['note']).strip()})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: harnesses use the public API (and in-package code through an overlay).'}
    with open(V + '/MANIFEST.json', 'w') as o:
        json.dump(m, o, indent=1)
        o.write('\n')
main()

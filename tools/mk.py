"""
Writes properties.jsonl and MANIFEST.json from one table, for the properties
which have a check in props/.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'typedload/dataloader.py:'
D = 'typedload/datadumper.py:'
E = 'typedload/exceptions.py:'
T = 'typedload/typechecks.py:'

PROPS = []


def p(id, title, statement, text, why, mechanism, technique, note, over=('inputs',), observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=list(over), text=' '.join(text.split()),
                      why=' '.join(why.split()), mechanism=mechanism, technique=technique, note=' '.join(note.split()),
                      observe=observe or ['return value or exception of load()/dump()'], state=state))


p('C01', 'What load() returns is always a value of the requested type',
  '''Whenever load() returns instead of raising, the result is a value of the requested type all the way down: every element, key, field
  and alternative conforms to its annotation, whatever the data was and whatever options were used. Fields left out of the data have their
  default.''',
  'Every supported type expression (objects of all kinds, containers, unions, literals, enums, scalars, recursive types), all loader '
  'options, and any data, mostly wrong.',
  'Tests look at a few successful loads of the right data; wrong data that gets through with a wrongly typed part is exactly what nobody '
  'wrote an example for.',
  [('handlers and their order', L + 'Loader.__init__'), ('type driven recursion', L + 'Loader.load'), ('_iterload', L + '_iterload'),
   ('_objloader', L + '_objloader')],
  'random types and faulty data, conformance checker as oracle',
  'Search only. Conformance is decided by an independent checker. It does not descend into Any.',
  over=('inputs', 'programs', 'configurations'))

p('C02', 'load() accepts, rejects and converts exactly as documented',
  '''For every supported type and every JSON-like data, load() accepts precisely the data that the documentation describes for that type, and
  returns the documented value; anything else is rejected. The outcome depends on the data, the type and the options only, not on which entry
  point is used (function or loader object, options in the constructor or as attributes).''',
  'Every supported type expression nested to any depth, all loader options, data with none or some faults.',
  'The 173 tests fix some hundred pairs of type and data, mostly with one level of nesting and default options; the combinations '
  'are unbounded.',
  [('handlers', L + 'Loader.__init__'), ('_basicload', L + '_basicload'), ('_objloader', L + '_objloader'), ('_tupleload', L + '_tupleload'),
   ('_dictload', L + '_dictload'), ('_unionload', L + '_unionload')],
  'differential testing against an executable specification, random types and data',
  'Search only, against an executable specification written from the documentation (tlv/schema.py). Points the documentation leaves open '
  '(order of untagged union alternatives, bool used as int inside containers) accept every admissible result.',
  over=('inputs', 'programs', 'configurations'))

p('C03', 'Dumped values load back equal',
  '''For every value of a supported type whose unions are unambiguous, loading what dump() gives, with the corresponding options, into the
  same type gives an equal value of the same classes. This holds also when the dump travels as JSON text, when its types allow it.''',
  'Every such type and every value of it, all combinations of hidedefault, isodates, mangle_key and the matching loader options.',
  'Tests round trip a dozen hand written values.',
  [('Loader', L + 'Loader.load'), ('Dumper', D + 'Dumper.dump'), ('hidedefault', D + '_dataclassdump'), ('names', L + '_mangle_names')],
  'round-trip property over random types and values',
  'Search only. Unions are made unambiguous by construction, since typedload does not promise to distinguish alternatives that dump alike.',
  over=('inputs', 'programs', 'configurations'))

p('C04', 'dump() gives plain data, with exactly the documented content',
  '''For every supported value, dump() returns data made only of None, bool, int, float, str, list and dict
  (bytes only for compiled patterns of bytes), which json can write when the keys are strings. The content is the documented one: all and only the fields
  (but not those that attrs declares with repr=False), under their external names, elements in order, dates as lists or ISO strings, scalars as strings, durations as seconds.''',
  'Every value of every supported type, all dump options.',
  'Tests compare the dump of a few values; a field or an element lost, renamed or left as an object in some combination is not seen.',
  [('dump handlers', D + 'Dumper.__init__'), ('_attrdump', D + '_attrdump'), ('_dataclassdump', D + '_dataclassdump'),
   ('_iteratordump', D + '_iteratordump')],
  'random values against an executable specification of the dump, plus a plainness invariant and JSON',
  'Search only, against the specification in tlv/schema.py.',
  over=('inputs', 'programs', 'configurations'))

p('C05', 'Loading and dumping leave their arguments and the classes untouched',
  '''load() never changes the data it is given, dump() never changes the value, and neither changes the classes (annotations, defaults,
  metadata), whether they succeed or fail. The results share no mutable container with the arguments, except where the type says Any.''',
  'Any type, any data, valid or not, any options.',
  'Tests never compare the arguments afterwards.',
  [('copies of the dictionaries', L + '_objloader'), ('_mangle_names', L + '_mangle_names'), ('_typeddictload', L + '_typeddictload'),
   ('_iteratordump', D + '_iteratordump')],
  'non-interference invariant over random types, data and faults',
  'Search only. Data is compared deeply with a pristine copy, including order of the keys.',
  over=('inputs', 'programs', 'configurations'))

p('C06', 'Failures are always typedload exceptions that can be inspected and printed',
  '''Whatever the data, the type (including unsupported ones) and the options, the only exceptions that load() and dump() let out because of the data or
  the type are the documented ones, derived from TypedloadException. Printing them, and reading their value, type, trace and nested exceptions, always
  works.''',
  'Any data including odd Python objects, any type including unsupported ones nested anywhere, any options.',
  'Tests check the errors of known bad inputs; a TypeError, AssertionError or RecursionError escaping for an odd one is not seen.',
  [('exception handling in handlers', L + 'Loader.load'), ('_objloader', L + '_objloader'), ('__str__', E + 'TypedloadException.__str__')],
  'fuzzing of types and data with an exception discipline oracle',
  'Search only. Domain: constructors of user classes raise TypeError or ValueError; data that does not overflow the Python stack.',
  over=('inputs', 'programs', 'configurations'))

p('C07', 'Errors point at the exact place of the fault',
  '''When one thing in the data is wrong, the error describes the path from the root to it: one step for each field, index and key, in
  order, with the data and the type found at each step. The value, the type and the printed path refer to the faulty place.''',
  'Any type, any valid data for it, and one fault planted anywhere in it.',
  'Tests check the path of about ten errors.',
  [('annotations of load()', L + '_objloader'), ('_iterload', L + '_iterload'), ('_dictload', L + '_dictload'), ('_tupleload', L + '_tupleload'),
   ('_path', E + 'TypedloadException._path')],
  'fault injection in valid data, the injected place as oracle',
  'Search only. Faults inside union alternatives are reported at the union (C10).',
  over=('inputs', 'programs', 'fault_sequences'))

p('C08', 'failonextra refuses everything unknown, at any depth, and only that',
  '''With failonextra, data with a key unknown to the object, or with more items than a fixed size tuple, is refused wherever it is nested;
  without it, it loads as if the extra was not there. Data with nothing extra loads the same with and without the option.''',
  'Any type with objects and tuples at any depth, one or more extra elements planted anywhere.',
  'Tests have one or two flat cases per kind of object.',
  [('failonextra', L + '_objloader'), ('_mangle_names', L + '_mangle_names'), ('_tupleload', L + '_tupleload')],
  'metamorphic testing: data with planted extras',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C09', 'basiccast: off, no basic value is ever converted; on, casts are as documented',
  '''With basiccast disabled a value of a basic type is accepted only where its own type is wanted, at any depth. With basiccast enabled the
  outcome is what the constructor of the basic type gives; data already of the right types loads identically in both cases.''',
  'Any type, any exact data for it and one basic value replaced anywhere.',
  'Tests cover flat casts and a few containers; the containers of basic types have their own fast path.',
  [('_basicload', L + '_basicload'), ('fast paths', L + '_iterload'), ('_dictload', L + '_dictload')],
  'metamorphic testing: one replaced basic value, cast as oracle',
  'Search only. bool in the place of an int inside containers is left open.', over=('inputs', 'programs', 'configurations'))

p('C10', 'A union accepts exactly what some alternative accepts',
  '''Data loads into a union exactly when it loads into at least one of its alternatives, and the result is what one of those alternatives
  gives. A basic value whose type is in the union is kept as it is; basic types never take data that another alternative accepts. When nothing accepts it the error
  carries one nested error for each alternative tried.''',
  'Any union of up to six alternatives, alone or nested, any data, any options.',
  'Tests use about twenty unions.',
  [('_unionload', L + '_unionload')],
  'differential testing of a union against its alternatives',
  'Search only. The order among several accepting alternatives is not specified.', over=('inputs', 'programs', 'configurations'))

p('C11', 'In tagged unions the Literal field decides the alternative',
  '''When the alternatives of a union are objects that share a field of Literal type with distinct values, data carrying the tag of one of them is loaded as
  that one, which is tried before the others: same result as loading it directly, and when it is faulty the error is about that alternative. A wrong tag is never loaded as another object,
  whatever the kinds of the objects, their order and the other alternatives.''',
  'Any family of 2-5 tagged objects of any kinds, any data with a known, unknown, unhashable or missing tag.',
  'Tests use two or three classes in one order.',
  [('discriminator', L + '_unionload'), ('discriminatorliterals', T + 'discriminatorliterals')],
  'differential testing of tagged unions against the alternative chosen by the tag',
  'Search only.', over=('inputs', 'programs'))

p('C12', 'uniondebugconflict reports every ambiguity and nothing else',
  '''With uniondebugconflict, loading a union fails exactly when no alternative or more than one accept the data (a basic value that is in the union as it is excepted).
  Otherwise the result is the same as without the option.''',
  'Any union, any data.',
  'Tests have one or two conflicts.',
  [('uniondebugconflict', L + '_unionload')],
  'differential testing against the count of accepting alternatives',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C13', 'Objects: required fields, defaults and the constructor are respected',
  '''An object loads only if all its required fields are in the data; each field in the data takes the loaded value and each one missing
  takes its default, produced anew for each object. The result equals what the constructor of the class gives when called with the same fields, and errors that the
  constructor raises become load errors.''',
  'Any class of any supported kind, any subset of its fields.',
  'Tests have a few classes; shared factory values and interaction of defaults with inheritance and keyword-only fields are not sampled.',
  [('_objloader', L + '_objloader'), ('_dataclassload', L + '_dataclassload'), ('_attrload', L + '_attrload'), ('_typeddictload', L + '_typeddictload')],
  'random classes, their constructor as reference',
  'Search only.', over=('inputs', 'programs'))

p('C14', 'hidedefault hides exactly the fields equal to their default',
  '''With hidedefault, a field of an object is left out of the dump if and only if its value equals its default, including defaults from factories and for objects nested
  anywhere; without it nothing is left out. Values modified in place after loading are never taken for defaults, and loading the shorter dump gives an equal value.''',
  'Any class, values with each field equal to, similar to, or different from its default.',
  'Tests dump a handful of objects once.',
  [('hidedefault', D + '_attrdump'), ('_dataclassdump', D + '_dataclassdump'), ('_namedtupledump', D + '_namedtupledump')],
  'differential testing of the two dumps field by field, with histories of in place changes',
  'Search only.', over=('inputs', 'programs', 'histories'))

p('C15', 'Name mangling is only a renaming of the keys',
  '''Giving a field another external name changes nothing else: data using the external names loads to the same value that the plain names
  give in a class without renaming, the plain name of a renamed field is not recognised, and dumps are the same up to the renaming. This holds also for names exchanged between
  fields, for any metadata key, and for data that is not a plain dictionary.''',
  'Any dataclass or attrs class and any renaming of its fields.',
  'Tests rename one or two fields.',
  [('_mangle_names', L + '_mangle_names'), ('_dataclassload', L + '_dataclassload'), ('_attrload', L + '_attrload'), ('dump', D + '_dataclassdump')],
  'metamorphic testing: renamed classes against plain ones',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C16', 'The kinds of objects are interchangeable',
  '''The same list of fields declared as NamedTuple, dataclass, attrs class or TypedDict accepts the same data, gives the same field values, refuses the
  same faults at the same place, and dumps to the same data.''',
  'Any list of fields, any data, any options.',
  'Each kind has its own tests; nothing compares them.',
  [('_objloader', L + '_objloader'), ('dump functions', D + '_attrdump')],
  'differential testing between the kinds of classes',
  'Search only. A missing field of an attrs class is reported by its constructor, and is compared only as failure.',
  over=('inputs', 'programs', 'configurations'))

p('C17', 'A loader has no memory',
  '''Reusing a Loader for any sequence of loads of any types, successful or not, gives at each step exactly what a new Loader would give,
  errors included. Loaders with different options do not influence each other.''',
  'Any history of loads, over types that share parts, on several loaders.',
  'Tests mostly use one loader per load; the caches of handlers make the outcome potentially depend on the history.',
  [('handlers cache', L + 'Loader.load'), ('dataclass and attrs caches', L + '_dataclassload'), ('frefs', L + '_forwardrefload')],
  'stateful testing: histories on shared loaders against fresh ones',
  'Search only.', over=('histories', 'inputs', 'programs'), state=[{'name': 'handlers cache', 'meaning': 'loader functions by type', 'where': L + 'Loader'}])

p('C18', 'A dumper has no memory, and the type annotation does not change the dump',
  '''Reusing a Dumper for any sequence of values gives at each step what a new Dumper would give. Passing the type of a value, or
  not, never changes the result, and different options on different dumpers do not interfere.''',
  'Any history of dumps, over values of classes sharing parts, on several dumpers.',
  'Tests dump once per dumper; caches keyed on types make history matter.',
  [('caches', D + 'Dumper.dump')],
  'stateful testing: histories on shared dumpers against fresh ones',
  'Search only.', over=('histories', 'inputs', 'programs'))

p('C19', 'Recursive and forward referenced types load like any other',
  '''Classes that refer to themselves or to each other by name load and dump data of any depth as the documentation describes for their fields, and round trip. Names
  that can be resolved, from the classes met or from those provided, are; the others are an error and not a wrong result.''',
  'Any family of mutually recursive classes of any kind, data up to 60 levels deep.',
  'Tests have single self recursive classes with shallow data.',
  [('frefs', L + '_forwardrefload'), ('_objloader', L + '_objloader')],
  'random recursive families of classes, specification and round trip as oracle',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C20', 'Custom handlers take precedence in order, and apply at any depth',
  '''The first handler in the list whose condition is true for a type decides how it is loaded, or dumped, wherever the type is
  found: at the root, as an element, key, field, alternative or below other types. Handlers placed before the predefined ones override them, those after are used only for what is not
  otherwise supported, and conditions that raise are skipped or reported depending on the option.''',
  'Any types containing custom classes, any position of handlers, any data.',
  'Tests have a couple of handlers used at the root.',
  [('handlers', L + 'Loader.index'), ('index', D + 'Dumper.index'), ('fast paths', L + '_iterload')],
  'random types with custom classes, specification extended with the handlers as oracle',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C21', 'Types constructed from a string are faithful to their constructor',
  '''Paths, IP addresses, networks and interfaces, UUIDs and any class registered as constructed from strings load exactly the strings that
  their constructor accepts, to the value it gives; what is not a string is refused when the constructor refuses it. They dump to their string form, which loads back equal, at any depth.''',
  'Any string, valid, nearly valid or random; any registered class.',
  'Tests load a few addresses and paths.',
  [('_strconstructload', L + '_strconstructload'), ('strconstructed', L + 'Loader.__init__'), ('str dump', D + 'Dumper.__init__')],
  'random strings, class constructor as reference',
  'Search only.')

p('C22', 'argparse.Namespace is equivalent to a dictionary',
  '''Replacing any dictionaries in the data with Namespace objects of the same content changes neither the result nor the outcome, at any
  depth and for every kind of object, including for attributes with unfortunate names. When the equivalence is disabled a Namespace is always refused.''',
  'Any type, any data, any subset of its dictionaries replaced.',
  'Tests have flat cases.',
  [('_dictequivalence', L + '_dictequivalence')],
  'metamorphic testing: dictionaries replaced by Namespace',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C23', 'The type predicates tell the kinds of types apart',
  '''For every supported type, exactly the predicates that describe its kind are true, whatever its spelling (typing or built-in
  generics, Optional, Union or the | operator). The functions that take a type apart return exactly its parts, and values are never mistaken for types.''',
  'All type expressions, in all spellings, and arbitrary values.',
  'Tests check a list of about a hundred types.',
  [('predicates', T + 'is_union'), ('uniontypes', T + 'uniontypes'), ('literalvalues', T + 'literalvalues')],
  'random type expressions, their construction as oracle',
  'Search only.', over=('programs',), observe=['return value of the predicates'])

p('C24', 'attrs converters: data is loaded as the type the converter wants',
  '''When an attrs field has a converter with a typed parameter, the data of the field is loaded as the type of the parameter and then converted; when the converter has no
  usable annotation it receives the data as it is. Failures of the data or of the converter are load errors that point at the place.''',
  'Any attrs class, any converters (functions, methods, lambdas, classes, built-ins, partials), any data.',
  'Tests have three converters.',
  [('_get_attr_converter_type', L + '_get_attr_converter_type'), ('_attrload', L + '_attrload')],
  'random attrs classes and converters, direct application of the converter as reference',
  'Search only. Type hints of callable objects are not inspected.', over=('inputs', 'programs'))

p('C25', 'Any iterable that is not a dictionary loads into lists, tuples and sets',
  '''Lists, variable tuples, sets and frozensets load from any iterable other than a dictionary (lists, tuples, sets, ranges, generators,
  iterators, strings, bytes, deques, mapping views, numeric arrays, user classes that can be iterated), giving the same result as the list of
  its items; an iterable is consumed once. What can not be iterated, and dictionaries, are rejected with an error at the right place. Fixed
  size tuples need exactly as many items as declared.''',
  'All kinds of iterables, empty and not, in any position of a type, items valid or not.',
  'Tests only load lists, one range and one generator. Which shortcut is taken depends on the type of the container, on the type of its '
  'items and on the kind of iterable: most combinations are never run.',
  [('_iterload', L + '_iterload'), ('_tupleload', L + '_tupleload')],
  'metamorphic: an iterable against the list of its items, plus specification',
  'Search only. Iterators inside unions are excluded: an alternative that fails has consumed the data.')

p('C26', 'Enums load by value, directly or through their type hints, never by name',
  '''Data that is equal to the value of a member, or that becomes one when it is loaded as one of the types in the annotations of the Enum,
  loads to exactly that member; anything else is rejected by an error that, for small enums of basic values, lists the accepted values.
  A member dumps to the dump of its value, and loads back to the same member. Aliases give the canonical member. The annotations are
  tried in the order in which they are declared.''',
  'Enum, IntEnum, StrEnum, Flag and mixin enums, with values of any supported type, aliases, hints, and any data.',
  'Tests have five enums with simple values.',
  [('_enumload', L + '_enumload'), ('is_enum', T + 'is_enum'), ('Enum dumper', D + 'Dumper.__init__')],
  'random enumerations, executable specification as oracle, round trip',
  'Search only.', over=('inputs', 'programs'))

p('C27', 'Dates, times and durations keep their exact meaning',
  '''A date, time or datetime loads from its ISO 8601 string, keeping microseconds, fold and time zone, or from its list of numbers; a timedelta
  loads from a number of seconds, fractions included. Dumps are ISO strings with isodates, lists of numbers without (time zones are then
  refused, never lost), and seconds for timedelta; loading a dump gives the same value. Out of range, malformed and overflowing data is
  rejected with a load error.''',
  'The whole range of the types, with and without time zones, any offset, fold, all ISO spellings, malformed strings and lists, extreme numbers.',
  'Tests use a dozen dates.',
  [('_datetimeload', L + '_datetimeload'), ('_timedeltaload', L + '_timedeltaload'), ('_datetimedump', D + '_datetimedump'),
   ('_timedeltadump', D + '_timedeltadump')],
  'round-trip and specification over the whole range of values',
  'Search only. timedelta beyond 270 years lose microseconds, because a float is used.')

p('C28', 'Loading a container is loading its parts',
  '''Loading a container or an object succeeds exactly when each of its parts loads with the type declared for it, gives the container of those
  very results, and otherwise fails with the error that a faulty part has on its own, with one more step in front of its path. The same holds
  for dumping. Nothing depends on where in the data or in the type the part is, nor on the shortcuts taken for containers of some types.''',
  'Every container and object type over every supported type, and data of which some parts are faulty.',
  'The shortcuts (basic types, unions of basic types, cached handlers) make the code that loads a part depend on what is around it; the '
  'equivalence needs to hold for all combinations.',
  [('_iterload', L + '_iterload'), ('_tupleload', L + '_tupleload'), ('_dictload', L + '_dictload'), ('_objloader', L + '_objloader'),
   ('_dataclassdump', D + '_dataclassdump'), ('_iteratordump', D + '_iteratordump')],
  'metamorphic: the whole against its parts loaded alone',
  'Search only. bool inside containers of int and similar subclasses of basic types are not specified.', over=('inputs', 'programs', 'configurations'))

p('C29', 'How a type is spelled makes no difference',
  '''List and list, Dict and dict, Optional[X], Union[X, None] and X | None, nested and flattened unions, and NewType of a type, are
  interchangeable anywhere in a type: the same data gives the same outcome, and the values dump alike.''',
  'Every supported type, each of its parts spelled in any of the equivalent ways, and any data.',
  'Tests repeat a few cases for both spellings, mostly at the top level.',
  [('is_union', T + 'is_union'), ('_generic_type_check', T + '_generic_type_check'), ('is_newtype', T + 'is_newtype'),
   ('_newtypeload', L + '_newtypeload')],
  'metamorphic: a type against the same type spelled differently',
  'Search only. NewType of a basic type directly inside an untagged union may change which alternative is preferred.', over=('inputs', 'programs'))

p('C30', 'With pep563, string annotations mean what plain ones mean',
  '''With pep563 enabled, dataclasses, NamedTuple and TypedDict of a module that uses "from __future__ import annotations" load exactly as the same
  classes without it, and enabling pep563 changes nothing for the ordinary classes. Dumping needs no option.''',
  'Families of classes with inheritance, defaults, nesting and any supported field type; any data.',
  'Tests have one module with three classes.',
  [('_namedtupleload', L + '_namedtupleload'), ('_dataclassload', L + '_dataclassload'), ('_typeddictload', L + '_typeddictload'),
   ('_dataclassdump', D + '_dataclassdump')],
  'metamorphic: the same random classes with and without postponed annotations',
  'Search only. attrs classes are not supported by pep563.',
  over=('inputs', 'programs'))

p('C31', 'basictypes decides which types are left alone',
  '''Types added to basictypes of the loader are accepted as they are at any depth, as the very same objects, and other data is converted by
  their constructor or refused according to basiccast; in unions values of such types are kept. Types added to the basictypes of the dumper are left in
  the dump. A type taken away from basictypes is not supported any more. The argument of load() and the attribute of a Loader are equivalent.''',
  'Any subset of a pool of additional types, anywhere in any supported type, any data.',
  'The only test adds bytes and loads one list.',
  [('basictypes', L + 'Loader.__init__'), ('_basicload', L + '_basicload'), ('_iterload', L + '_iterload'), ('_dictload', L + '_dictload'),
   ('Dumper.basictypes', D + 'Dumper.__init__')],
  'random basictypes, types and data, executable specification as oracle',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C32', 'Each part of the data is converted exactly once',
  '''Outside of the alternatives of untagged unions and of the type hints of enums, a successful load converts each part of the data exactly
  once (in a tagged union, for the alternative of the tag only), and one that fails with no unions at most once: constructors with side
  effects, and the cost, are those of one visit of the data, also for data nested many levels deep. A dump converts each object exactly once.''',
  'Any type without such unions, any data with none or some faults, first and later loads with the same loader, up to 40 levels.',
  'Results do not show how many times the work was done; tests do not count the calls, and the cost of repeated work shows only in deep data.',
  [('_dictload', L + '_dictload'), ('_iterload', L + '_iterload'), ('_objloader', L + '_objloader'), ('Dumper.dump', D + 'Dumper.dump')],
  'random types and data with counting constructors, invariant over the log of the calls',
  'Search only.', over=('inputs', 'programs', 'histories'), observe=['calls of constructors, handlers and __str__ of user classes'])

p('C33', 'The outcome is the same in every process',
  '''The result of load() and dump(), the order of the keys of the dumped dictionaries, and the class, path and nested errors of a failure are
  functions of data, type and options: they do not change with the hash seed or the memory layout of the process.''',
  'Every type without sets, in particular unions of objects which share several Literal fields; valid and faulty data; processes with '
  'different hash seeds.',
  'A test runs in one process at a time, and most runs give the order that the author has seen.',
  [('choice of the discriminator', L + '_unionload'), ('order of the fields', D + '_dataclassdump'), ('errors of objects', L + '_objloader')],
  'differential: the same random case in processes with different hash seeds',
  'Search only, three processes. The order of sets, and of the names listed in an error message, are free.',
  over=('inputs', 'programs', 'configurations'))

p('C34', 'A failing union reports, for each alternative, the error of that alternative',
  '''When data can not be loaded into a union, or into an Enum through its type hints, the error carries exactly one nested error for each
  alternative that was tried, which names the alternative and is otherwise the error of loading the data into it alone: same class, message,
  value, type, path and nested errors. With uniondebugconflict a conflict carries those of the alternatives that refused the data. The text
  of the error has, for each nested error however deep, its complete path.''',
  'Every union and annotated Enum, at any depth and inside other unions; every data refused.',
  'Tests look at the number of nested exceptions of two unions.',
  [('nested exceptions', L + '_unionload'), ('hints', L + '_enumload'), ('exceptions', E + 'TypedloadException')],
  'metamorphic: the nested errors against those of the alternatives alone, random unions and refused data',
  'Search only. The order of the nested errors is free.',
  over=('inputs', 'programs', 'configurations'))

p('C35', 'Handlers that call load() and dump() for the parts equal the predefined ones',
  '''A class treated by custom handlers that call loader.load() for each part, with its Annotation, and dumper.dump() for each part, is as
  good as one that typedload supports: same data accepted, same values and dumps, and errors with the same trace, nested errors and printed
  paths, at any depth and in unions. A handler which passes the data on to another type has exactly the outcome and the error of that type.''',
  'Every type, with any of its objects treated by handlers; every data and option.',
  'Tests have a handler that does not recurse.',
  [('load', L + 'Loader.load'), ('index', L + 'Loader.index'), ('annotations', E + 'Annotation'), ('dump', D + 'Dumper.dump')],
  'differential: the predefined handlers against equivalent ones made with the public interface only',
  'Search only. Data with several faults in one object is compared only in the outcome.',
  over=('inputs', 'programs', 'configurations'))

p('C36', 'An interrupted load or dump leaves no trace',
  '''When load() or dump() is stopped, at any point, by something that is not an Exception (such as KeyboardInterrupt or SystemExit), that
  very exception reaches the caller, the data, the value and the classes are as they were, and the same Loader or Dumper goes on exactly as
  a new one: nothing half done stays in it.''',
  'Every type, data and option; interruptions before every line of typedload that is executed; any history of interrupted and completed calls.',
  'Tests do not interrupt anything, and the harm shows only in a later call with the same object.',
  [('caches of the loader', L + 'Loader.__init__'), ('fields of dataclasses', L + '_dataclassload'), ('discriminators', L + '_unionload'),
   ('enum', L + '_enumload'), ('caches of the dumper', D + '_dataclassdump')],
  'fault injection at generated points of generated histories, differential against new objects',
  'Search only. Interruptions come between lines of typedload, not inside the code that it calls.',
  over=('inputs', 'programs', 'histories', 'crash_points', 'configurations'))

p('C37', 'Threads can share a Loader and a Dumper',
  '''Threads that load and dump with the same Loader and Dumper, also when each type is used for the first time, get exactly the results and
  the errors that they would get alone, however they are interleaved.''',
  'Every type, data and option; 2-3 threads with a few calls each; every interleaving at the granularity of the lines of typedload.',
  'Tests have one thread, and a test with more would see one of the interleavings, which is not the bad one.',
  [('caches of the loader', L + 'Loader.__init__'), ('fields of dataclasses', L + '_dataclassload'), ('discriminators', L + '_unionload'),
   ('caches of the dumper', D + 'Dumper.dump')],
  'random schedules of threads under control, line by line, differential against sequential runs with new objects',
  'Search only. Two or three threads, which are switched between lines of typedload.', over=('inputs', 'programs', 'schedules', 'configurations'))

p('C38', 'The order of keys, fields and alternatives has no meaning',
  '''Changing the order of the keys in the data, or the order in which the fields of the classes are declared, changes neither whether the
  data is accepted nor the loaded values, field by field, nor their dumps. The order of the alternatives of a union does not change what it accepts.''',
  'Every type, any permutation of its fields and alternatives, any data, any permutation of its keys.',
  'Tests write the keys in the order of the fields.',
  [('_objloader', L + '_objloader'), ('_mangle_names', L + '_mangle_names'), ('_unionload', L + '_unionload'),
   ('_dataclassdump', D + '_dataclassdump')],
  'metamorphic: permuted classes and data against the original ones',
  'Search only. Where different keys of a dictionary become the same key, or a dictionary becomes text, the order does matter.',
  over=('inputs', 'programs', 'configurations'))

p('C39', 'Adding optional fields to classes, or keys to the data, disturbs nothing else',
  '''When a class gets one more field with a default, or a TypedDict one more that is not required, the older data loads as before, with
  the default in the new field; the same data is accepted or refused for the same reason, and all else in the values and in their dumps is
  the same. Without failonextra, the data with the new keys still loads in the older class, which ignores them.''',
  'Every type, any subset of its classes getting a new field, any data with or without the new keys.',
  'Tests never have two versions of a class.',
  [('_objloader', L + '_objloader'), ('_typeddictload', L + '_typeddictload'), ('_dataclassload', L + '_dataclassload'),
   ('_unionload', L + '_unionload'), ('_attrdump', D + '_attrdump')],
  'metamorphic: two versions of random classes on the same data',
  'Search only.', over=('inputs', 'programs', 'configurations'))

p('C40', 'Loaders and dumpers keep nothing of the data',
  '''A Loader or a Dumper that stays in use keeps information on types only: once the result, or the error, is gone, nothing of the data
  given to load() or of the value given to dump() is still referenced by it, so its memory does not grow with the data.''',
  'Any history of loads and dumps of any data, valid or not.',
  'No test looks at what is left in memory.',
  [('caches of the loader', L + 'Loader.__init__'), ('caches of the dumper', D + 'Dumper.__init__'), ('_strconstructload', L + '_strconstructload'),
   ('_enumload', L + '_enumload')],
  'random histories with reference counts and weak references as oracle',
  'Search only, on CPython. What the standard library keeps (the cache of re, interned strings) is not considered.',
  over=('histories', 'inputs', 'programs', 'configurations'))

p('C41', 'Options mean the same however they are given',
  '''An option has the same effect as a parameter of load() and dump(), as a parameter of the constructor of Loader and Dumper or of a subclass, as an
  attribute set before the first use, or when the set, list or dictionary in it is changed in place; the default value given explicitly is as nothing.
  Unknown options are kept for the handlers and have no effect. Objects made afterwards have the defaults, and the given values are not changed (except
  for frefs, where the types that are met are added).''',
  'Any combination of the documented options, given in any of the ways, any type and data.',
  'Tests set an option in one way.',
  [('options of the loader', L + 'Loader.__init__'), ('options of the dumper', D + 'Dumper.__init__'), ('load', 'typedload/__init__.py:load'),
   ('dump', 'typedload/__init__.py:dump')],
  'differential: the same random options given in different ways',
  'Search only.', over=('configurations', 'inputs', 'programs'))

# NEXT


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props')) if f.startswith('c')}
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i in PROPS:
            if i['id'] not in have:
                print('no check for', i['id'])
                continue
            have.remove(i['id'])
            files = sorted({w.split(':')[0] for _, w in i['mechanism']})
            anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in i['mechanism']],
                       'observe_at': i['observe'], 'hook_needed': None}
            if i['state']:
                anchors['state'] = i['state']
            f.write(json.dumps({'id': i['id'], 'title': i['title'], 'statement': i['statement'],
                                'quantifier': {'over': i['over'], 'text': i['text']}, 'why_tests_cant': i['why'], 'anchors': anchors}) + '\n')
            assert len(i['title']) <= 80, i['title']
            checks.append({'property': i['id'], 'quick_cmd': './check %s' % i['id'], 'thorough_cmd': './check %s --tier thorough' % i['id'],
                           'evidence_file': 'evidence/%s.json' % i['id'], 'technique': 'property-based testing: ' + i['technique'],
                           'level': 'exploration', 'level_note': i['note']})
    if have:
        print('not described:', have)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': [],
                   'notes': 'Pure Python, nothing to build. No hooks in /repo. See DESIGN.md.'}, f, indent=1)
        f.write('\n')


main()

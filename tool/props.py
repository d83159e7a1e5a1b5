"""The properties, in one place."""
TRUST = ('Decided from the resolved program (clang AST of every unit of the build, built or not) by a path-sensitive '
         'symbolic dataflow; trusts the models of the standard library and of the repository\'s unique_ptr helpers '
         'in engine/models.py. Constructs it does not follow are reported as undecided, never as violations. ')

PROPS = [
    dict(id='E01', title='Element equality means every part equal',
         statement='Two elements compare equal exactly when they are of the same kind, agree on whether a value is '
                   'present, and have equal attributes, equal meta and (when present) equal content; element content, '
                   'annotation lists and size counters compare equal exactly when each of their stored parts does. '
                   'The inequality operator is always the negation of the equality operator, and comparing never '
                   'reads an absent part.',
         text='for all pairs of elements of all 13 kinds, contents and annotation lists, unset parts included',
         why='The unit tests compare a few hand-made pairs; equality has to be right for every combination of kinds, '
             'set and unset parts and lengths, including contents that differ in one part only.',
         files=['packages/drafter/src/refract/dsd', 'packages/drafter/src/refract/ElementIfc.h',
                'packages/drafter/src/refract/Element.h', 'packages/drafter/src/refract/InfoElements.cc',
                'packages/drafter/src/refract/Cardinal.h', 'packages/drafter/src/refract/ElementSize.cc'],
         mech=[('operator== of each content kind', 'packages/drafter/src/refract/dsd/*.cc'),
               ('double-dispatch element comparison', 'packages/drafter/src/refract/ElementIfc.h')],
         technique='path-sensitive symbolic dataflow over every comparison operator',
         note=TRUST + 'Every path of each of the comparisons is judged: equal needs every part equal, different needs '
              'one part different.'),
    dict(id='E02', title='Copies are complete and independent; a clone takes what was asked',
         statement='Copying or copy-assigning an element, an element content, an annotation list, a parsed blueprint '
                   'node, a source map or a Markdown node gives an object with every part of the source and shares no '
                   'owned part with it, also when source and target overlap. Cloning an element takes exactly the '
                   'facets requested: name, attributes, meta, and value presence with content, and drops the "id" '
                   'entry of the meta exactly when that is asked for.',
         text='for all copied objects (every part set or unset, every length) and all 32 combinations of clone flags '
              'over the 13 kinds',
         why='Tests clone a few elements with one or two flag combinations; forgetting a member, cloning the wrong '
             'facet or sharing an owned part shows only for objects where that part matters.',
         files=['packages/drafter/src/refract/Element.h', 'packages/drafter/src/refract/dsd',
                'packages/drafter/src/refract/InfoElements.cc', 'packages/apib-parser/src/snowcrash/Blueprint.h',
                'packages/apib-parser/src/snowcrash/BlueprintSourcemap.h',
                'packages/apib-parser/src/markdown-parser/MarkdownNode.cc'],
         mech=[('clone by flags', 'packages/drafter/src/refract/Element.h'),
               ('user-written copy constructors and assignments', 'packages/drafter/src/refract/dsd/*.cc')],
         technique='path-sensitive symbolic dataflow over copy operations',
         note=TRUST + 'Every user-written copy constructor and copy assignment, and the clone of each kind under each '
              'flag combination, is followed on all paths.'),
    dict(id='E03', title='What is put into an element is what it answers; transfers move every part',
         statement='After constructing an element or its content, or setting its value, every reader answers exactly '
                   'what was put in: same value, same children in the same order, same name, and a value is present '
                   'exactly when one was given; parts not set keep what they held. Swapping, move-constructing and '
                   'by-value assigning hand over every part.',
         text='for all 13 element kinds, every constructor, setter and factory, and all argument values',
         why='Tests construct a few elements from literals; a constructor that drops or reorders a part for some '
             'argument combination or kind is not seen by them.',
         files=['packages/drafter/src/refract/Element.h', 'packages/drafter/src/refract/dsd',
                'packages/drafter/src/refract/InfoElements.cc', 'packages/drafter/src/refract/InfoElements.h'],
         mech=[('element constructors, set and the make/from factories', 'packages/drafter/src/refract/Element.h'),
               ('content constructors, swap, claim', 'packages/drafter/src/refract/dsd/*')],
         technique='path-sensitive symbolic dataflow: construct, then ask every reader on the resulting abstract state',
         note=TRUST + 'Each constructor, setter and factory instance of the program is followed on all paths and each '
              'reader is followed on the state it leaves.'),
    dict(id='E04', title='An annotation list holds one entry per key',
         statement='Attributes and meta of an element form a map: looking up a key answers its entry exactly when it '
                   'is there, setting a key replaces or adds that one entry, erasing or claiming it removes exactly '
                   'that entry and no other, and taking over another list sets each of its entries. Appending a value '
                   'to a list annotation leaves the value in the list once and keeps every other.',
         text='for all lists of any length, all keys and all element values',
         why='Tests use lists of one to three entries with unrelated keys; the guarantees are about every list, '
             'including a key that is absent, first, last or a prefix of another.',
         files=['packages/drafter/src/refract/InfoElements.cc', 'packages/drafter/src/refract/InfoElements.h',
                'packages/drafter/src/refract/InfoElementsUtils.h'],
         mech=[('find, set, erase, claim, clone', 'packages/drafter/src/refract/InfoElements.cc'),
               ('AppendInfoElement', 'packages/drafter/src/refract/InfoElementsUtils.h')],
         technique='path-sensitive symbolic dataflow with quantified loop facts over every list operation',
         note=TRUST + 'A lookup may answer an entry only on paths that found its key equal and "absent" only on paths '
              'that found every key different; loops are summarised as facts for all positions they passed.'),
    dict(id='E05', title='Sequence contents and objects keep their order and their keys',
         statement='Arrays, enums, selects, options, extends and objects are sequences: appending puts the given child '
                   'last and moves no other, inserting puts it where asked, erasing removes exactly the asked range, '
                   'clearing removes all, and size, empty, begin and end agree with what is held. An object never '
                   'gets two members of one key by adding: adding, setting, finding and erasing a key concern exactly '
                   'the member whose key it is.',
         text='for all sequences of any length, positions, ranges and keys',
         why='Tests push and erase a few children; the guarantees are about every position and key, including the '
             'first, the last, the empty key and a key already there.',
         files=['packages/drafter/src/refract/dsd'],
         mech=[('container traits of the sequences', 'packages/drafter/src/refract/dsd/Traits.h'),
               ('keyed operations of an object', 'packages/drafter/src/refract/dsd/Object.cc')],
         technique='path-sensitive symbolic dataflow against a model of a sequence',
         note=TRUST + 'Each operation of each sequence content is followed on all paths and compared with the same '
              'operation on a sequence; loops are summarised as facts for all positions they passed.'),
    dict(id='E06', title='An element is handled as what it is',
         statement='Dispatching a visitor on an element calls it exactly once, with that very element, by the overload '
                   'of its kind, and answers what the visitor answered. The type query answers differently for each '
                   'of the 13 kinds. A checked cast answers the element itself when it is of the asked kind and '
                   'nothing otherwise, nothing for no element, and reads neither name nor value of it.',
         text='for all 13 kinds, every instance of the dispatch and cast templates, all elements',
         why='There are 13 x 13 combinations of kind and asked kind and three dispatch mechanisms; tests touch a few.',
         files=['packages/drafter/src/refract/Utils.h', 'packages/drafter/src/refract/Visitor.h',
                'packages/drafter/src/refract/TypeQueryVisitor.h', 'packages/drafter/src/refract/TypeQueryVisitor.cc',
                'packages/drafter/src/refract/Element.h', 'packages/drafter/src/refract/dsd'],
         mech=[('dispatch to a functor', 'packages/drafter/src/refract/Utils.h'),
               ('type query and checked casts', 'packages/drafter/src/refract/TypeQueryVisitor.h')],
         technique='path-sensitive symbolic dataflow over every instance of the dispatch templates, per kind',
         note=TRUST + 'Witness instances of the dispatch templates are type-checked with the repository\'s headers, so '
              'that each answer type and each kind is followed.'),
    dict(id='E07', title='Named types: reserved names, one type per name, an ancestor search that ends',
         statement='A name is reserved exactly when it is one of the kind names or "generic". A registry knows the '
                   'seven base types from the start; registering takes a type only under its own id, never under a '
                   'reserved one and never over a type already there; removing forgets exactly that one. Searching '
                   'the root ancestor answers the last type of the chain and ends on every registry, cyclic ones '
                   'included.',
         text='for all names, registries and histories of registrations',
         why='Tests register a handful of types; that every name is judged right and that cyclic inheritance ends '
             'holds for names and cycles no test has.',
         files=['packages/drafter/src/refract/Registry.cc', 'packages/drafter/src/refract/Element.cc'],
         mech=[('registry and ancestor search', 'packages/drafter/src/refract/Registry.cc'),
               ('reserved names', 'packages/drafter/src/refract/Element.cc')],
         technique='table check plus path-sensitive symbolic dataflow with a termination argument per loop',
         note=TRUST + 'A binary search is accepted over a table in its order only; a walk over the types only where '
              'each round has found its step leads to a type not met before.'),
    dict(id='E08', title='The size of a type is exact, or open',
         statement='The number of values a type can take is computed exactly or reported as open: sums and products '
                   'of sizes never wrap around, nothing times anything is nothing, open plus anything is open. Each '
                   'kind has the size its definition gives: fixed objects, arrays and options multiply over all their '
                   'children, enums and selects add over all their choices, a variable key or an unfixed primitive is '
                   'open, a boolean has two values, null one, and nullable adds one.',
         text='for all elements of the 13 kinds, all flags and all counts up to the largest',
         why='Wrapping shows only beyond four billion combinations, and the flag combinations of nested fixed types '
             'are far more than the tests list.',
         files=['packages/drafter/src/refract/Cardinal.h', 'packages/drafter/src/refract/ElementSize.cc'],
         mech=[('arithmetic of sizes', 'packages/drafter/src/refract/Cardinal.h'),
               ('size of each kind', 'packages/drafter/src/refract/ElementSize.cc')],
         technique='path-sensitive symbolic dataflow against decision trees; overflow guards as path facts',
         note=TRUST + 'A sum or product is accepted only on paths whose facts exclude overflow.'),
    dict(id='E09', title='Extending a type: the later part wins and nothing is lost',
         statement='Merging the parts of an extended type takes them in order: the first is copied, every later one adds '
                   'or overrides. Its attributes and all its meta except id, prefix and namespace are taken over; its '
                   'value replaces a primitive, its array children are appended in order, its object members replace the '
                   'member of the same key in place (also inside a selection) or are appended, enumerations are united. '
                   'A part without content changes no content, and parts of different kinds are refused.',
         text='for all lists of parts of all kinds, with any annotations and any members',
         why='Inheritance chains combine: which annotation, key, position and kind meet is decided by the document, and '
             'the tests sample two-step chains only.',
         files=['packages/drafter/src/refract/dsd/Extend.cc'],
         mech=[('the parts in order', 'packages/drafter/src/refract/dsd/Extend.cc'),
               ('merge of each kind', 'packages/drafter/src/refract/dsd/Extend.cc')],
         technique='path-sensitive symbolic dataflow: effects of every loop round against the merge rules',
         note=TRUST + 'Keys of members are taken to be strings; the edits of an object are those E05 decides.'),
    dict(id='G01', title='Answers depend on the arguments only: no hidden state between calls or threads',
         statement='What a call answers depends on its arguments and the objects they lead to, not on earlier calls, on '
                   'other threads, the time, the environment, random numbers or the order of addresses. No variable of '
                   'static storage is changed after its initialisation, a static local is never initialised from what '
                   'the first call happened to get, and const members do not write mutable state. The one shared '
                   'object, the log, is used only under its own lock.',
         text='for all histories of calls and all schedules of threads',
         why='A memo, a shared buffer or a missing lock gives the right answer in every single call a test makes; it '
             'fails for one order of calls or one interleaving.',
         files=['packages/drafter/src/utils/log/Trivial.cc', 'packages/drafter/src/utils/log/Trivial.h', 'packages/drafter/src',
                'packages/apib-parser/src', 'packages/apib/src'],
         mech=[('static storage', 'packages/drafter/src'), ('log under its lock', 'packages/drafter/src/utils/log/Trivial.h')],
         technique='effect and escape analysis of static storage over the whole program, lock discipline per member access',
         note=TRUST + 'The log is analysed in the variant with LOGGING, where it does write. A debugging aid with a '
              'counter of its own (log_to_files) is a known finding.'),
    dict(id='S01', title='Source positions are converted exactly and within the source',
         statement='For every source text and every set of byte ranges: converting to characters (over the text or by its '
                   'character index) answers one range per range, in order, that covers exactly the characters whose bytes '
                   'it holds, cut at the end of the source; the index gives each byte the number of characters before its '
                   'own, a character having as many bytes as its first byte says. Mapping a set onto the source answers the '
                   'text of its ranges; a last range one byte past the end is cut, anything further answers nothing. '
                   'Appending a set merges ranges that touch and keeps all others. Lines begin at 0 and behind each '
                   'newline, and a position is given the last line that begins at or before it. No subscript, iterator or '
                   'substring position is outside its container, whatever the ranges are.',
         text='for all source texts, including malformed UTF-8, and all ranges, including those past the end',
         why='Tests use well-formed sources and ranges the parser made from them; truncated characters, ranges at the very '
             'end or start and embedded NULs are where the arithmetic goes wrong.',
         files=['packages/apib-parser/src/markdown-parser/ByteBuffer.cc', 'packages/apib-parser/src/markdown-parser/ByteBuffer.h',
                'packages/drafter/src/SourceMapUtils.cc'],
         mech=[('bytes to characters', 'packages/apib-parser/src/markdown-parser/ByteBuffer.cc'),
               ('range sets', 'packages/apib-parser/src/markdown-parser/ByteBuffer.h'),
               ('lines', 'packages/drafter/src/SourceMapUtils.cc')],
         technique='path-sensitive abstract interpretation with a linear-inequality domain; comparison of results and loop '
                   'summaries with the specified forms; first-byte table by constant folding',
         note=TRUST + 'Sums of a location and a length are taken not to wrap around. BytesRangeSetToConsecutiveCharactersRangeSet, '
              'which the test fixtures hold to answer bytes, is a known finding.'),
    dict(id='U01', title='UTF-8 is decoded and encoded as the standard says, within bounds',
         statement='For every octet sequence: decoding at a position answers the code point that the well-formed sequence '
                   'there stands for and the position behind it; U+FFFD where the sequence is cut, a byte does not continue '
                   'it, its first byte is none, or it is overlong, a surrogate or past U+10FFFF, always going on by at least '
                   'one octet and never past the end; (0xFFFFFFFF, end) at the end. Encoding a code point writes the '
                   'shortest sequence of the standard, its octets in order. No octet at or behind the end is read. The '
                   'iterator holds what is decoded at its position, and two are equal exactly when they agree in the code '
                   'point and the position.',
         text='for all octets, all positions and all numbers of octets left; all 2^32 arguments of encode',
         why='Tests sample some sequences of each length; the boundaries between the classes (first and last surrogate, '
             'overlong forms, cut sequences, bytes that do not continue) and each bit of the result are not enumerated.',
         files=['packages/drafter/src/utils/Utf8.h'],
         mech=[('decoding, encoding and the iterator', 'packages/drafter/src/utils/Utf8.h')],
         technique='path-sensitive abstract interpretation with a bit-provenance domain (which input bit each bit of the '
                   'result is) and a linear-inequality domain for positions, compared with the encoding table',
         note=TRUST + 'The positions are those of a random access iterator (the instance over strings is analysed).'),
    dict(id='M01', title='Nothing is used after it has ended, been invalidated or been moved from',
         statement='In every function of the parser and of drafter, for every input: a reference, pointer or iterator into a '
                   'container, an owned object, a local or a temporary is not used after the operation that ended or '
                   'moved what it refers to (growing, inserting, erasing, clearing or assigning the container, resetting '
                   'or assigning the owner, deletion, the end of the scope or of the full expression), and loops over a '
                   'container do not change it so that the next step is invalid; an object moved from is not read, and an '
                   'owner that gave its object away is not dereferenced, before a value is assigned; nothing is deleted '
                   'twice; no function answers a reference, pointer or iterator to one of its locals or to a temporary.',
         text='for all inputs and all paths of every function',
         why='Whether a stale reference shows depends on the capacity of a vector, the allocator and the order in which a '
             'compiler evaluates arguments; tests pass by luck.',
         files=['packages/drafter/src/refract/InfoElements.cc', 'packages/drafter/src/refract/dsd/Object.cc',
                'packages/drafter/src/refract/dsd/Extend.cc', 'packages/drafter/src/refract/ExpandVisitor.cc',
                'packages/apib-parser/src/markdown-parser/ByteBuffer.h', 'packages/apib-parser/src/snowcrash/ParametersParser.h'],
         mech=[('containers of elements', 'packages/drafter/src/refract/dsd/Object.cc'),
               ('information about elements', 'packages/drafter/src/refract/InfoElements.cc'),
               ('expansion', 'packages/drafter/src/refract/ExpandVisitor.cc')],
         technique='lifetime dataflow over the syntax trees of all functions: places, what points into them, and what each '
                   'operation invalidates; path-sensitive in repeated conditions; summaries of effects and answers of functions',
         note=TRUST + 'Two different access paths are taken to be different objects, except where one is seen to be bound '
              'to the other; what functions outside the repository and the standard library do to their arguments is '
              'taken to be nothing.'),
    dict(id='N02', title='What may be absent is asked for before it is read through',
         statement='In every function of the parser and of drafter, for every input: what a search answers is compared with '
                   'the end of the container searched (a position with npos, a pointer with null) before it is read '
                   'through, erased or used as a position; a pointer that a cast to another kind of element, a lookup by '
                   'name, a parameter function or an accessor of a part that may be missing (the key and value of a member, '
                   'the value of an enum, the content of a ref or select) answers is asked for null, on every path, before '
                   'it is read through or handed to a function that reads through it without asking.',
         text='for all inputs and all paths of every function',
         why='Elements without a value, names that are not registered and parts of an unexpected kind come only from odd '
             'documents; the fixtures have few of them and the crash needs the very one that is missing.',
         files=['packages/drafter/src/refract/VisitorUtils.cc', 'packages/drafter/src/refract/Registry.cc',
                'packages/drafter/src/refract/dsd/Extend.cc', 'packages/drafter/src/refract/ExpandVisitor.cc',
                'packages/drafter/src/refract/JsonSchema.cc', 'packages/drafter/src/refract/JsonValue.cc',
                'packages/drafter/src/refract/IsExpandableVisitor.cc', 'packages/apib-parser/src/snowcrash/BlueprintUtility.h'],
         mech=[('lookup of types', 'packages/drafter/src/refract/Registry.cc'),
               ('members and keys', 'packages/drafter/src/refract/VisitorUtils.cc'),
               ('casts by kind', 'packages/drafter/src/refract/TypeQueryVisitor.h')],
         technique='path-sensitive nullness dataflow over the syntax trees of all functions: what each search, cast and accessor '
                   'may answer, which comparison settles it, and summaries of what functions answer and read through',
         note=TRUST + 'Asserted conditions hold (they are void in release builds: the invariants they state are trusted). '
              'Four sites where the presence follows from a check in another function are reviewed and listed in '
              'props/n02.py. Elements read by get() without a value and front() or back() of empty containers are not covered.'),
    dict(id='J01', title='Text written for a value as JSON reads back as that value',
         statement='For every value of null, true, false, strings, numbers, objects and arrays, nested in any way, what '
                   'drafter writes as JSON, indented or packed, is JSON that reads back as that value: every element of an '
                   'array and member of an object once and in order, with a comma between two of them and nowhere else; keys '
                   'and strings in quotes, each of the 256 octets written so that it reads back as itself, control '
                   'characters, quotes and backslashes escaped. The packed form has no white space outside strings. '
                   'Numbers are written with the text they hold.',
         text='for all values, all octets and all lengths',
         why='Example bodies take any text a document holds, down to lone control characters and octets above 0x7F; the '
             'fixtures hold a few dozen characters and short lists.',
         files=['packages/drafter/src/utils/so/JsonIo.cc', 'packages/drafter/src/utils/so/Value.h'],
         mech=[('JSON writer', 'packages/drafter/src/utils/so/JsonIo.cc')],
         technique='effect analysis over the syntax tree: the text each path writes is read as JSON, octet classes by bit-level '
                   'case analysis, separators by an automaton over only, first, inner and last element with loop-carried relations',
         note=TRUST + 'The stream takes what it is given. That the text of a number is a JSON number is up to who makes the value.'),
    dict(id='Y01', title='Text written for a value as YAML reads back as that value',
         statement='For every value of null, true, false, strings, numbers, objects and arrays, nested in any way, what '
                   'drafter writes as YAML reads back (YAML 1.2, core schema) as that value: elements on lines of their own, '
                   'all elements of a collection indented alike and deeper than the collection they are in, empty '
                   'collections as {} and []; every code point in quotes written so that it reads back as itself and is one '
                   'YAML takes in a file; a key without quotes only where it reads back as that text, not as null, a '
                   'boolean, a number or syntax.',
         text='for all values, all code points and all depths',
         why='Line separators, noncharacters and byte order marks inside text, keys like null or [a], and depth do not '
             'occur in the fixtures.',
         files=['packages/drafter/src/utils/so/YamlIo.cc', 'packages/drafter/src/utils/Utf8.h', 'packages/drafter/src/utils/so/Value.h'],
         mech=[('YAML writer', 'packages/drafter/src/utils/so/YamlIo.cc'),
               ('code points', 'packages/drafter/src/utils/Utf8.h')],
         technique='effect analysis over the syntax tree: the text each path writes is read as YAML, code point ranges by case '
                   'analysis at every boundary, indentation as a linear function of the depth, separators by an automaton',
         note=TRUST + 'Depth does not overflow. Keys longer than the 1024 characters YAML takes without a question mark are '
              'not covered, nor strings that are no UTF-8 (they are written with U+FFFD).'),
    dict(id='E10', title='Expanding named types ends, and every part of the element comes through',
         statement='Expanding an element over any registry of types, also types that name each other or contain '
                   'themselves, ends. A type is only left as a reference (without content, with its root\'s annotations '
                   'and attributes and its name as "ref") within its own definition; elsewhere it becomes an extended '
                   'type of all its ancestors, root first, then the element itself without its id, the id going to the '
                   'extended type. A reference gets the expanded type it names as "resolved", and one that includes '
                   'itself is an error. Every child, key, value, option and enumeration is expanded or, with nothing to '
                   'expand, copied, in order; annotations and attributes of every element that is rebuilt are kept; and '
                   'no element is left as it is that has something to expand.',
         text='for all elements of the 13 kinds with any children and attributes, over all registries (acyclic or '
              'cyclic), at any depth of types being expanded',
         why='Tests expand a few dozen types; a guard that misses cycles off the starting type, a name left on the '
             'list after an early return, or a facet lost for valueless elements shows only for particular registries.',
         files=['packages/drafter/src/refract/ExpandVisitor.cc', 'packages/drafter/src/refract/IsExpandableVisitor.cc',
                'packages/drafter/src/refract/Registry.cc'],
         mech=[('recursion guard: look, list, go, unlist', 'packages/drafter/src/refract/ExpandVisitor.cc'),
               ('parts carried over by kind', 'packages/drafter/src/refract/ExpandVisitor.cc'),
               ('whether there is anything to expand', 'packages/drafter/src/refract/IsExpandableVisitor.cc')],
         technique='path-sensitive symbolic dataflow with a recursion-measure rule and a typestate for the list of types',
         note=TRUST + 'Ending is argued by a measure: every recursive step either goes to a part of the element or puts a '
              'registered name, found missing before, on the list of types being expanded; both are bounded. Trusts E02 '
              '(copies), E04 (annotation lists), E05 (appending) and E07 (registry look-up, root of a type).'),
    dict(id='R01', title='What is acquired is released exactly once, by the call that belongs to it',
         statement='Every object of new, every C string or block of malloc and strdup, every compiled regular expression '
                   'and every result, options handle or stream that a function of drafter answers or hands out is, on each '
                   'path through the function that acquired it (early returns, failed acquisitions and handlers included), '
                   'either released once by the call that belongs to it or handed on to exactly one owner: never leaked, '
                   'released twice, released without having been acquired, or released by another call. What an object '
                   'keeps in a member its destructor releases, a member is not overwritten or forgotten while it holds '
                   'something, and no object that releases something is copied member by member.',
         text='for all paths of all functions that acquire, release or hand on, whatever the document or the file',
         why='Leaks and double releases on error paths (an expression that does not compile, no result, a stream that '
             'does not open, a finding without annotations) fail no assertion and pass silently in tests.',
         files=['packages/apib-parser/src/snowcrash/posix/RegexMatch.cc', 'packages/drafter/src/drafter.cc',
                'packages/drafter/src/main.cc', 'packages/drafter/src/stream.h', 'packages/drafter/src/refract/Visitor.h',
                'packages/drafter/src/refract/Iterate.h', 'packages/drafter/src/refract/ExpandVisitor.cc'],
         mech=[('compiled expressions', 'packages/apib-parser/src/snowcrash/posix/RegexMatch.cc'),
               ('results, options and texts of the C interface', 'packages/drafter/src/drafter.cc'),
               ('objects visitors keep', 'packages/drafter/src/refract/Visitor.h')],
         technique='path-sensitive typestate analysis of acquired resources with interprocedural summaries (answers, writes '
                   'out, releases, keeps) and class-level ownership rules',
         note=TRUST + 'Exceptions out of a callee are followed only into handlers of the same function; memory handed to '
              'containers and smart pointers is theirs. A null answer of an allocating call holds nothing.'),
    dict(id='W01', title='What is rendered of an element is all of it',
         statement='Rendering an element (refract::serialize::renderSo) answers an object that holds the element\'s name, '
                   'its meta and its attributes where they are not empty, and its content exactly where it has one, in '
                   'this order, for each of the 13 kinds: every meta entry, attribute, entry of a list and child is there '
                   'once, under its own key, rendered by the same function and in the order it is kept in; texts, symbols '
                   'and numbers as they stand, a boolean as what it holds. Source maps are left out only where they were '
                   'not asked for, and never below the attributes of an annotation, and what was asked for is passed on '
                   'to everything rendered below.',
         text='for every element: each kind, any content, any attributes, with and without source maps',
         why='The output is all that a user of drafter sees; the fixtures hold few of the combinations of kind, missing '
             'content, attributes and options, and a part left out for one of them fails no test.',
         files=['packages/drafter/src/refract/SerializeSo.cc', 'packages/drafter/src/refract/Utils.h'],
         mech=[('rendering of elements', 'packages/drafter/src/refract/SerializeSo.cc'),
               ('dispatch on the kind of an element', 'packages/drafter/src/refract/Utils.h')],
         technique='abstract interpretation of the rendering for each kind of element; the value of every path is compared '
                   'with the element it was made from',
         note=TRUST + 'The recursion is closed by induction: the calls of the rendering function on children are taken '
              'as rendering them. Child elements that must be there (asserted) are taken as present.'),
    dict(id='C01', title='The C interface does what it was asked',
         statement='Every option of the C interface (drafter.h) that is set is the one that is read where it matters, on fresh '
                   'options none is set, and setting one leaves every other as it was. drafter_parse_blueprint parses the source '
                   'it was given, asks for a name exactly if that was required, passes the options on to the conversion, hands '
                   'out the converted result and answers the code of the parser; without a source every function answers that '
                   'the input is invalid. drafter_parse_blueprint_to hands out that result rendered with the given options, '
                   'drafter_serialize renders in the asked format, with source maps exactly if asked for, and null only for no '
                   'result or an unknown format, and drafter_check_blueprint hands out whole copies of all annotations among '
                   'the children of the result, and nothing where there are none. Generated bodies and schemas are left out '
                   'exactly if the options say so.',
         text='for every source, every combination of options and every result of the parser',
         why='It is the interface every binding of drafter is written against. The tests cover a few of the combinations of '
             'options, outputs and results with errors, and the library code behind it cannot be built without submodules.',
         files=['packages/drafter/src/drafter.cc', 'packages/drafter/src/options.cc', 'packages/drafter/src/options.h',
                'packages/drafter/src/ConversionContext.cc', 'packages/drafter/src/RefractAPI.cc'],
         mech=[('functions of the interface', 'packages/drafter/src/drafter.cc'),
               ('what the options say', 'packages/drafter/src/options.cc'),
               ('generated bodies and schemas', 'packages/drafter/src/RefractAPI.cc')],
         technique='abstract interpretation of the functions of the interface on all paths; options are followed from the '
                   'function that sets them to the function that reads them',
         note=TRUST + 'The parser (snowcrash::parse) and the conversion (WrapRefract) are taken as functions of their '
              'arguments. Options that are not given (null) are those of fresh options.'),
    dict(id='C02', title='The command line does what it was asked',
         statement='Each option of the drafter command sets the part of the configuration it stands for and no other; with more '
                   'than one input the command fails, and asked for its version it says it and ends. The whole input - the '
                   'file that is named, the standard input otherwise - is parsed; the result is written, followed by one '
                   'line end, to the file that is named, which is emptied before, or to the standard output, in the format '
                   'and with the source maps asked for. While only validating nothing is written and no file is created or '
                   'emptied. The report is given once, for the same source, in lines or offsets as asked for. The status is '
                   'the code of the parser, and a failure where there is no result or a file cannot be opened.',
         text='for every command line, every input and every result of the parser',
         why='The command is how most users run drafter; no test of the repository runs it in this build, and a status or '
             'an output file that is wrong is believed by the scripts around it.',
         files=['packages/drafter/src/main.cc', 'packages/drafter/src/config.cc', 'packages/drafter/src/stream.h'],
         mech=[('running the command', 'packages/drafter/src/main.cc'), ('options of the command line', 'packages/drafter/src/config.cc'),
               ('input and output', 'packages/drafter/src/stream.h')],
         technique='abstract interpretation of the functions of the command line on all paths; names of options, the '
                   'configuration, the calls of the C interface and what is written are compared on each of them',
         note=TRUST + 'The command line parser (cmdline.h, an absent submodule) is taken to do what its interface says. '
              'That a stream delivers all that a file holds, and that writing succeeds, is not decided.'),
    dict(id='Q01', title='Looking for parts of an element finds them, and only them',
         statement='What a lookup answers is what the element has: its description, the default, the first sample, the '
                   'entry of a collection, a type attribute or the mark of a variable property only under that very name '
                   'and of the kind asked for, wherever in its list it stands, and nothing where it has none. The value of an '
                   'element is its own, else its first sample, else its default, else nothing when it is nullable; that of '
                   'an enumeration is its sample, its default, its own, or the first of its enumerations that has one. The '
                   'key of a member as text, also when it is an extended type, and the member of a key are found. A walk over an '
                   'element meets the element once, before its parts, and then every part that is there, in order, the key '
                   'before the value; the walk over the children meets the children and stops there, as often as it is used. '
                   'A selection keeps exactly the elements that fit, in the order they are met.',
         text='for every element, whatever it holds, in whatever order, with or without values',
         why='Rendering of bodies and schemas, warnings and the conversion all ask elements in this way; an answer that is '
             'missed shows as a wrong sample in the output, far from its cause. The tests ask a few small elements.',
         files=['packages/drafter/src/refract/VisitorUtils.h', 'packages/drafter/src/refract/VisitorUtils.cc',
                'packages/drafter/src/refract/Iterate.h', 'packages/drafter/src/refract/FilterVisitor.h',
                'packages/drafter/src/refract/Query.cc', 'packages/drafter/src/refract/ComparableVisitor.cc'],
         mech=[('lookups', 'packages/drafter/src/refract/VisitorUtils.h'), ('walks', 'packages/drafter/src/refract/Iterate.h'),
               ('selection', 'packages/drafter/src/refract/FilterVisitor.h'), ('comparison', 'packages/drafter/src/refract/ComparableVisitor.cc')],
         technique='abstract interpretation of every instance of the lookups on all paths, the answer of each path held '
                   'against a decision tree of what the element has; walks are judged by the sequence of their steps',
         note=TRUST + 'What the merge of an extended type gives (E09) and what a visit dispatches to (E06) is taken from '
              'there. An element that counts as valued has a value. The search of an entry by name is that of E04.'),
    dict(id='R02', title='The report says every annotation, once, with all that is known of it',
         statement='What is reported of a parse goes to the standard error: an empty line, then OK when there is no error and '
                   'the error otherwise, then every warning, in order, one line each. A line has the severity, the code in '
                   'parentheses unless it is OK, the message when there is one, and every place in order: from line and column to '
                   'line and column of the given source when lines are asked for, else location and length, a colon before the first '
                   'and a semicolon before the others. What is reported of a result is an empty line, OK when the code given is OK, '
                   'and a line for every annotation that is a child of the result, in order, with its class, its code, its text '
                   'and every place of its source map in that form.',
         text='for every report and every result, with any number of annotations and places',
         why='The report is all that a user of the command line sees of an error; a warning or a place that is left out, or '
             'one that is said of the wrong line, sends the user elsewhere. No test reads the report.',
         files=['packages/drafter/src/reporting.cc'],
         mech=[('report of a parse', 'packages/drafter/src/reporting.cc'), ('report of a result', 'packages/drafter/src/reporting.cc')],
         technique='abstract interpretation of what is written to the stream on all paths, as a sequence of texts, values and loops, '
                   'held against the sequence due for what the path has found out',
         note=TRUST + 'How a position is made of a range is S01, what a walk and a selection meet is Q01.'),
    dict(id='P01', title='What a blueprint holds becomes elements, each part in its place',
         statement='Every part of a parsed blueprint becomes the element due for it, and nothing else does. A resource, an action, a '
                   'transaction, a payload, a parameter, a header, a metadata entry, a category and a copy become elements of those '
                   'names; their titles, hrefs, methods, status codes, relations, descriptions, defaults and parameters are set under '
                   'those keys exactly when the blueprint has them; every request is paired with every response of its example, and '
                   'one without the other with an empty one. A payload carries its description, its data structure, its body '
                   '(or, in JSON, one generated from its data structure or else that of its action, unless such are to be skipped) '
                   'and its schema (likewise), in that order, with their content types. Children keep the order of the blueprint and none is '
                   'missing or null. Each element made of a part that has a source map carries that map, range by range, '
                   'and no part is given the map of another: a collection whose maps differ in number from its entries has none. '
                   'The answer holds the blueprint, or the error when there is one, and then every warning, of the parser first, in order, with '
                   'its code and its places.',
         text='for every blueprint the parser can give, with parts present or absent in any combination, and any number of entries',
         why='The description of the API is what drafter is for; a part dropped, put under the wrong key or given the place of '
             'another is passed on silently to every tool behind it. The fixtures have each part a few times, and few combinations.',
         files=['packages/drafter/src/RefractAPI.cc', 'packages/drafter/src/RefractSourceMap.cc', 'packages/drafter/src/RefractSourceMap.h',
                'packages/drafter/src/NodeInfo.h', 'packages/drafter/src/SerializeResult.cc'],
         mech=[('conversions of the parts', 'packages/drafter/src/RefractAPI.cc'), ('source maps', 'packages/drafter/src/RefractSourceMap.cc'),
               ('parts with their maps', 'packages/drafter/src/NodeInfo.h'), ('the answer', 'packages/drafter/src/SerializeResult.cc')],
         technique='abstract interpretation of each conversion on all paths into the elements it makes, with loops kept as loops over a '
                   'collection, held against the element due for what the path has found out about the node',
         note=TRUST + 'What a data structure becomes (MSONToRefract), how it is expanded (E01-E04) and how values and schemas are generated '
              'from it are taken as given here.'),
    dict(id='V01', title='The JSON value generated for a type is the one the type describes',
         statement='The JSON value generated for an element is the one it describes. An element with a value gives that value: an '
                   'object its members, an array its items, all of them and in order; one without gives its first sample, else its '
                   'default, else null where it is nullable, else the empty value of its kind; an enumeration without those gives its first '
                   'enumeration, a choice the properties of its first option that has any. References give what they resolve to and '
                   'extensions what they merge to: an object mixed in adds its members, an array referred to its items. A key is in an object '
                   'once, with the value given last, in the place where it was first. A member that is optional is left out exactly when '
                   'nothing defines its value; an item that is a string, a number or a boolean only when nothing defines its value and it is not fixed. '
                   'That a type is fixed passes on to a member or item just where that inherits it, and that it is nullable to none.',
         text='for every element, of each of the thirteen kinds, as a value, as a property and as an item, at any depth and with any combination of type attributes',
         why='The example bodies that readers, mock servers and contract tests use are generated this way, and the combinations of samples, defaults, '
             'optional, fixed and nullable that meet in a real description are many more than the fixtures show.',
         files=['packages/drafter/src/refract/JsonValue.cc', 'packages/drafter/src/refract/JsonUtils.cc', 'packages/drafter/src/utils/so/Value.cc',
                'packages/drafter/src/utils/so/Value.h'],
         mech=[('values, properties and items of each kind', 'packages/drafter/src/refract/JsonValue.cc'), ('values of primitives', 'packages/drafter/src/refract/JsonUtils.cc'),
               ('unique keys', 'packages/drafter/src/utils/so/Value.cc')],
         technique='abstract interpretation of the rendering of each kind of element on all paths, with flags as terms and loops kept as loops, '
                   'held against the value due for what the path has found out about the element',
         note=TRUST + 'What counts as fixed, as defining a value and as inheriting is E08; how the value is written is J01 and Y01; merging is E09. '
              'Elements without the parts they must have (a member without a key) are asserted away.'),
    dict(id='V02', title='The JSON schema generated for a type is the one the type describes',
         statement='The JSON schema generated for an element describes its type. It names the draft it follows. A text, number or boolean has its type, '
                   'or, where it is fixed and has a value, just that value; null has type null. An object has type object, and the schema of each '
                   'of its members under its name, once, with those that are required and not optional listed as required, once; members of any name are given by '
                   'a pattern that takes a fixed name as it is, escaping what is special in it; each choice adds to "allOf" one that offers the members of each '
                   'option that has any, its own and no more; an object that is fixed or of fixed type requires its members and allows no others. An array that is of fixed type '
                   'allows items of the types of its entries, or none; one that is fixed is a tuple of its entries, in order and no more. '
                   'An enumeration offers exactly the single values and the schemas of its enumerations. Schemas and values that stand in a list once are '
                   'taken for the same exactly when all of one is in the other. Where the type is nullable null is allowed beside it, and '
                   'only there. References give what they resolve to and extensions what they merge to. That a type is fixed passes on '
                   'just where that is inherited, and that it is of fixed type, nullable or required to no part of it.',
         text='for every element, of each of the thirteen kinds, as a schema, as a property and as an item, at any depth and with any combination of type attributes',
         why='Consumers validate requests and responses against these schemas: one that leaves out a member, lists one too many as required or forgets null '
             'rejects good messages or lets bad ones through, and the combinations of type attributes are many more than the fixtures show.',
         files=['packages/drafter/src/refract/JsonSchema.cc', 'packages/drafter/src/utils/so/Value.cc'],
         mech=[('schemas and properties of each kind', 'packages/drafter/src/refract/JsonSchema.cc'), ('unique keys and entries', 'packages/drafter/src/utils/so/Value.cc')],
         technique='abstract interpretation of what describes each kind of element on all paths, with type attributes as terms and loops kept as loops, '
                   'held against the keys due for what the path has found out about the element; the pattern of a key character by character',
         note=TRUST + 'What counts as fixed, as inheriting and how many values a type has is E08; single values are V01; how the schema is written is J01; merging is E09. '
              'Of drawing nested "anyOf" together afterwards it is judged that no alternative is lost; in which order keys stand is not judged. '
              'Elements without the parts they must have (a member without a key) are asserted away.'),
]

NOT_APPLICABLE = [
    dict(id='N01', title='Parsing a blueprint and rendering it keeps its meaning',
         statement='For every API Blueprint document, the parse result describes the resources, actions, attributes '
                   'and examples the document describes, with source positions that delimit the text they came from.',
         text='for all documents', why='the fixtures are a few hundred documents',
         files=['packages/drafter/src/drafter.cc', 'packages/apib-parser/src/snowcrash'],
         mech=[('parser', 'packages/apib-parser/src/snowcrash/snowcrash.cc')],
         reason='Whole-document meaning is a relation between runtime strings and trees; no static rule in reach '
                'states it. The structural parts that can be decided are claimed separately.'),
]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to keep it in step)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

VO = 'typelib/value_ops.cc'; ML = 'typelib/memory_layout.cc'; MLH = 'typelib/memory_layout.hh'; CONT = 'lang/csupport/containers.cc'
p('A01', 'Every value operation walks a compiled layout in step with the value',
  'For every type, each operation driven by a compiled memory layout (dump, size, load, initialise, zero, destroy, copy, compare) consumes each layout instruction with exactly the operands the layout compiler emits for it and moves through the value by exactly the number of bytes the instruction describes, repeating array bodies exactly as many times as the array has elements. An instruction an operation does not know makes it throw, never skip silently.',
  ['programs', 'inputs'], 'all types (any nesting of arrays, containers and compounds) and all values of them',
  'The tests sample a handful of structures; a wrong stride in one operation only shows for a nesting no test builds.',
  [VO, ML, MLH, 'typelib/value_ops_details.hh'], [('one interpreter per operation over the same instruction set', VO), ('instruction emission', ML)], observe=['Typelib::dump', 'Typelib::load', 'Typelib::copy', 'Typelib::compare', 'Typelib::init', 'Typelib::zero', 'Typelib::destroy'])
p('A02', 'Each value operation has its effect on every part of the value',
  'For every type, copying transfers every data byte and every container from the source to the destination, comparing reports a difference in any data byte, array element or container and equality otherwise, zeroing clears every data byte and empties every container, and initialising and destroying construct and destroy each container of the value exactly once. None of these operations touches the source operand.',
  ['programs', 'inputs'], 'all types and all pairs of values',
  'Tests compare a few concrete values; a byte range or element that is never acted on only shows for a value that differs there.',
  [VO], [('instruction handlers of copy, compare, zero, init, destroy', VO)])
p('A03', 'Loading reads back exactly the record sequence that dumping writes',
  'For every type, the loader reads from the stream the same sequence of records (raw byte ranges, container element counts of the same width, container elements) that the dumper writes for a value of that type, and the size computation counts those same bytes. After loading, containers hold exactly the elements read, whatever the target held before.',
  ['programs', 'inputs'], 'all types and all values, whatever the previous content of the value loaded into',
  'Round trips are tested for a few types and always into fresh values.',
  [VO, 'lang/csupport/containers.cc'], [('dump and load interpreters', VO), ('container dump and load', 'lang/csupport/containers.cc')])
p('A04', 'Zero-element arrays are handled by every value operation',
  'A type holding an array with zero elements can be dumped, loaded, initialised, zeroed, destroyed, copied and compared like any other: the array contributes no bytes and the members after it are processed normally.',
  ['programs', 'inputs'], 'all types that contain an array of length zero anywhere, alone or nested',
  'No test uses a zero-length array.',
  [VO, ML], [('block skipping', ML), ('array handling of each operation', VO)])
p('A05', 'Loading never reads past the supplied buffer and rejects wrong sizes',
  'Whatever bytes are supplied, loading from a buffer never reads outside it: truncated input raises an error before any byte past the end is read. Input that is longer than what the value consumes (up to the trailing padding of the type) is rejected with an error.',
  ['inputs'], 'all byte buffers of every length, for every type',
  'The inputs are unbounded and hostile; tests use well formed ones.',
  [VO], [('bounds checks of the input streams', VO)])
p('A06', 'Dumping into a fixed buffer never writes past its end',
  'Whatever the value and the buffer size, dumping into a caller-supplied array writes only inside it; when the value does not fit the call reports it by returning 0, and otherwise it returns the number of bytes written.',
  ['inputs'], 'all values and all buffer sizes',
  'Only a few sizes are tested; container sizes make the dump size run-time dependent.',
  [VO], [('bounds check of the fixed-size output stream', VO)])
p('A07', 'A failed or short write to an output is reported to the caller',
  'When the underlying file descriptor, C stream or exported file cannot take all the bytes of a dump or export, the operation raises an error instead of reporting success.',
  ['fault_sequences', 'inputs'], 'every write of every dump or export, failing or short',
  'The tests inject no I/O fault.',
  [VO, 'typelib/exporter.cc'], [('result checks on write calls', VO), ('stream exception mask', 'typelib/exporter.cc')])
p('A08', 'The layout compiler covers the whole value, with the options asked for',
  'For every type the layout compiler either emits instructions that cover each field at its offset and every gap up to the full size of the type, or throws; pointers and opaque types, at any depth inside arrays, containers and compounds, are accepted exactly when the caller allowed them.',
  ['programs', 'configurations'], 'all types and all combinations of the compiler options',
  'Tests compile a few layouts, with options only at top level.',
  [ML, MLH], [('per-category emission', ML)])
p('A09', 'Containers check element types and keep element lifetimes paired',
  'A container refuses with an error any element whose type differs from its declared element type, before it changes. Otherwise, when it grows every new element is initialised before use, and when it shrinks, is cleared, or is destroyed every removed element is destroyed first.',
  ['inputs', 'histories'], 'all sequences of container operations, for every element type',
  'Tests use trivial element types for most operations and never observe element destruction.',
  ['lang/csupport/containers.cc', 'lang/csupport/containers.hh'], [('insertion, removal, resize and destruction', 'lang/csupport/containers.cc')])
p('A10', 'Loading a container from hostile input stays inside its storage',
  'Whatever element count the input announces, a container reserves storage for exactly that many elements, without arithmetic wrap-around, before it reads elements into it.',
  ['inputs'], 'all announced element counts and all element types', 'Counts are attacker controlled 64 bit values; tests use honest ones.',
  ['lang/csupport/containers.cc'], [('resize before read', 'lang/csupport/containers.cc')])

p('A11', 'Merging and skipping layout instructions keeps what they stand for',
  'For every sequence of layout or initialisation instructions, the merged sequence stands for the same bytes of the value, copied, skipped, repeated and initialised in the same order: skipped bytes become copied ones only when the caller asked for it, arrays collapse only to one run of their total size, and only skipped bytes at the very end may be left out, when asked. Stepping over the instructions of an array or container body ends exactly at its end, whatever is nested in it.',
  ['programs', 'configurations'], 'all instruction sequences, all nestings and all options',
  'Tests compare a few merged layouts; a merge that loses bytes needs a particular sequence of runs, paddings and arrays.',
  [ML, MLH], [('merging of runs and arrays', ML), ('skipping of blocks', ML)])
p('B01', 'Byte swapping reverses the bytes of every numeric width',
  'Swapping a 1, 2, 4 or 8 byte integer or floating point value yields the value whose bytes are those of the input in reverse order, for every bit pattern.',
  ['inputs'], 'all bit patterns of every width', 'The domain is 2^64; tests use one or two patterns.',
  ['typelib/endian_swap.hh'], [('shift and mask helpers', 'typelib/endian_swap.hh')])
p('B02', 'Endian conversion swaps each number in place and refuses what it cannot',
  'Converting a value, directly or through a compiled swap plan, byte-swaps every number and enumeration in it by its own width at its own offset, including in nested and padded structures and in every array element, and leaves all other bytes as they are. Pointers are refused with an error by both forms, containers and opaque types by the compiled form.',
  ['programs', 'inputs'], 'all types', 'Tests have one structure.',
  ['typelib/endianness.cc', 'typelib/endianness.hh'], [('direct visitor', 'typelib/endianness.cc'), ('plan compiler and interpreter', 'typelib/endianness.cc')])
p('A12', 'Containers change and report exactly the elements they were asked for',
  'Comparing two containers says equal exactly when they hold the same number of elements and each equals its counterpart, and copying makes the target hold exactly the elements of the source, whatever it held. Visiting meets every element once, access by position meets the element at that position, and adding puts the value behind the last element. Erasing a value, or all elements a predicate selects, takes out exactly the first equal element, or exactly the selected ones, each tested once, and keeps the others in order.',
  ['programs', 'inputs'], 'all element types, sizes and contents of containers',
  'Tests erase and compare a few integers; errors with the last element, adjacent selected elements or elements that need a copy of their own do not show there.',
  [CONT], [('element operations of the containers', CONT)])

TM = 'typelib/typemodel.cc'; TMH = 'typelib/typemodel.hh'
p('A13', 'Initialised enumerations hold the value of one of their symbols',
  'Initialising a value gives every enumeration in it that has symbols, alone, in a field or in an array, exactly the value of one of its symbols, in its full width and in the byte order of the machine; no other byte is written for it.',
  ['programs', 'inputs'], 'all enumeration types and symbol values',
  'Tests initialise one enumeration with a small value; the upper bytes, negative values and enumerations with few symbols never matter there.',
  [ML], [('initial bytes of enumerations', ML)])
p('C01', 'Type comparison takes the whole definition into account',
  'Two types are reported equal only if they agree in category and in everything that defines them: size, numeric kind, enumeration symbols and values, compound fields with their names, offsets and types, array length, element types of indirections, and container kind. Cast compatibility is at most as permissive: beyond that it admits only compounds that differ in nothing but their size, and a target enumeration with additional symbols; elements of arrays and containers have to be equal.',
  ['programs'], 'all pairs of types', 'The pairs are unbounded; tests compare a few.',
  [TM, TMH], [('per-category comparison', TM)])
p('C02', 'A type is only treated as a category it has been checked to be',
  'Whenever generic type information is narrowed to a particular category (numeric, enumeration, compound, array, pointer, container), the category has been established on every path leading there, or the narrowing itself fails with an error. A method offered to Ruby on the class of some categories is only reached with types of those categories.',
  ['inputs', 'programs'], 'all types reaching any narrowing', 'A missing check only shows for the one category that no test passes.',
  [TM, 'typelib/endianness.cc', 'typelib/typebuilder.cc', 'lang/idl/export.cc', 'bindings/ruby/ext'], [('category tests before narrowing', TM), ('classes of wrapped types', 'bindings/ruby/ext/value.cc')])
p('C03', 'Type and value traversal dispatches every category to its own handler',
  'Traversing a type or a value calls, for every type category and for every numeric width and signedness, the handler meant for it, with every field, element and target visited exactly once; a category, size or kind that has no handler makes the traversal throw.',
  ['programs'], 'all types', 'Tests visit a few types.',
  ['typelib/typevisitor.cc', 'typelib/value.cc'], [('category dispatch', 'typelib/typevisitor.cc'), ('numeric dispatch', 'typelib/value.cc')])
p('C04', 'Types own their metadata and never share it',
  'Every type and every compound field has its own metadata for as long as it lives: copying a type or a field copies the metadata, and destroying one releases it exactly once. Setting a key replaces the values of that key only, adding keeps the values there are, and merging metadata adds all values of all keys of the other (for compounds also field by field) without changing the other.',
  ['histories'], 'all sequences of copies and destructions', 'Sharing or leaking is not visible to functional tests.',
  [TM, TMH], [('copy constructors, assignment and destructors', TM)])
p('C05', 'Merging a type rebuilds it from the types of the target registry',
  'When a type definition is transferred into another registry, everything the copy refers to (fields, pointees, elements) is a type of the target registry, never of the source, and the copy has the same name, size and layout. Recursive definitions refer to the copy; when a transfer fails, nothing left in the target refers to a copy that was destroyed.',
  ['programs'], 'all type graphs, including recursive ones', 'Dangling cross-registry references only show once the source registry dies.',
  [TM, 'typelib/registry.cc'], [('recursive transfer with a recursion stack', TM)])
p('C06', 'Types are what they were defined as and definition errors are refused',
  'Adding an enumeration symbol that exists with another value, and asking for an unknown symbol or value, is refused with the error documented for it and leaves the enumeration as it was; otherwise symbols, values and the next automatic value are found as they were added. A field is found by its name with the type and offset it was added with, after the fields added before, adding it makes the compound at least large enough to hold it and never smaller, and compounds that are read have their fields in the order of their offsets. A new type has the category of its class, and size, dimension and element type as given (arrays: the size of all elements).',
  ['inputs'], 'all definitions', 'Only the common paths are tested.',
  [TM], [('checked insertion and lookup', TM)])

RG = 'typelib/registry.cc'
p('D01', 'The registry owns each registered type exactly once',
  'A type added to a registry is destroyed exactly once: when the registry is cleared or destroyed, however many aliases refer to it; a type that is removed is handed back to the caller and not destroyed by the registry, and no name of the registry refers to it any more.',
  ['histories'], 'all sequences of add, alias, remove, clear and destroy', 'Double frees and leaks show only under particular sequences.',
  [RG], [('deletion in clear, hand-over in remove', RG)], [('global map', 'qualified name to type', RG), ('current map', 'names visible from the current namespace', RG)])
p('D02', 'Name lookup agrees with the registered names after every change',
  'After every change of the registry (add, alias, remove, alias removal, clear, namespace change) the names visible from the current namespace are exactly those derived from the registered names: what is registered can be found and what was removed cannot.',
  ['histories'], 'all sequences of registry operations', 'Tests look at a few sequences.',
  [RG, 'typelib/registry.hh'], [('paired updates of the two name maps', RG)])
p('D03', 'Rejected registrations leave the registry unchanged',
  'Registering a type or an alias under an invalid name, under a name already used by another type, or to an unknown target raises an error before anything in the registry changes.',
  ['inputs', 'fault_sequences'], 'all names and registry contents', 'Tests check that errors are raised for some names, not that state is unchanged.',
  [RG], [('validation before insertion', RG)])
p('D04', 'Registry comparison looks at every type',
  'Two registries are reported the same only if every type registered in one has, under the same name, the same definition in the other, and both have the same number of types; the comparison ends for all registries.',
  ['inputs'], 'all pairs of registries', 'Only one pair is tested.',
  [RG], [('pairwise walk', RG)])
p('D05', 'Registry merges keep aliases, persistence, origin and metadata',
  'Merging registries, and extracting a minimal registry by name or by exclusion, keeps for every retained name what it stands for: each alias with its target, whether it is to be exported and where it came from, each type with its origin and metadata. A name that stands for different definitions in both is an error.',
  ['programs', 'histories'], 'all pairs of registries', 'Tests check presence of types, not these attributes.',
  [RG], [('merge and the two minimal operations', RG)])
p('D06', 'Asking for an unknown name never dereferences nothing',
  'Every operation that takes a type, field, enumeration or plugin name from its caller either reports an unknown name with an error or a null result, as documented; none uses the result of a failed lookup.',
  ['inputs'], 'all names', 'Tests ask mostly for names that exist.',
  [RG, 'typelib/pluginmanager.cc', 'typelib/typebuilder.cc', 'bindings/ruby/ext/registry.cc', 'lang/tlb/import.cc'], [('lookup result checks', RG)])
p('D07', 'Removing a type removes exactly what depends on it',
  'Removing a type from the registry takes out and hands back the type and every registered type whose definition refers to it, directly or through other types (a field, an element, what a pointer points to), each under all its names, and leaves every other type in place. The dependencies reported for a type are those its definition refers to.',
  ['inputs', 'histories'], 'all type graphs, all types removed', 'Tests remove one type with a direct dependency.',
  [RG, TM], [('Registry::reverseDepends and remove', RG), ('dependsOn of each category', TM)])

p('D08', 'Aliases of a type extend to the types made from it',
  'When a type is given an alias, each registered array, pointer and vector made from it can also be found under the name it would have if it were made from the alias, and so can those made from these in turn; a type registered later gets these names for all aliases its element has at that time. Such names stand for that same type, never replace a name already in use and are not exported. The aliases reported for a type are all names it is registered under except its own.',
  ['inputs', 'histories'], 'all orders of registrations and aliases, all depths of derivation', 'Tests alias one element type once before and once after an array of it is made.',
  [RG, TM, 'lang/csupport/containers.cc'], [('Registry::alias, add and getAliasesOf', RG), ('Indirect::modifiedDependencyAliases', TM)])

TE = 'lang/tlb/export.cc'; TI = 'lang/tlb/import.cc'
p('E01', 'Exported type libraries are well formed XML for any text',
  'Whatever characters that XML can represent occur in type, field, symbol or alias names and in metadata, the exported type library is well formed XML from which the same text is read back: text is never written to an attribute or element without escaping the characters that are special there.',
  ['inputs'], 'all registries, all names and metadata', 'Tests use plain names.',
  [TE, 'lang/tlb/xmltools.hh'], [('escaping', 'lang/tlb/xmltools.hh')])
p('E02', 'The type library reader understands everything the writer produces',
  'Every kind of element the type library writer emits has a reader, every attribute the reader requires for it is written, and every value the writer gives to a closed-vocabulary attribute is one the reader accepts with the same meaning. What the reader takes from an attribute goes into the member it was written from, and elements, text and metadata are looked for where they are written.',
  ['programs'], 'all persistent types', 'Tests round-trip a few types.',
  [TE, TI, 'lang/tlb/parsing.hh'], [('element and attribute tables', TI)])
p('E03', 'Malformed type libraries are refused, without leaking',
  'A type library that is not well formed, has another root element, has an unknown kind of type definition, lacks a required attribute or has an unknown category is refused with an error derived from the standard exception type. Everything allocated for parsing is released, once, on success and on error alike.',
  ['inputs', 'fault_sequences'], 'all input documents', 'Tests have a few malformed inputs and cannot see leaks.',
  [TI, 'lang/tlb/xmltools.hh', 'lang/tlb/parsing.hh'], [('attribute accessors and cleanup', TI)])
p('F01', 'Exports define every type before it is used',
  'When a registry is exported, the dependencies of each exported type are written before the type itself, each type exactly once, non-persistent types not at all, and definitions that cannot be ordered (recursive types) are reported as an error.',
  ['programs'], 'all registries', 'Tests export a few acyclic registries.',
  ['typelib/exporter.cc'], [('dependency-ordered save', 'typelib/exporter.cc')])
p('F02', 'IDL export refuses what IDL cannot express',
  'Exporting to IDL raises an error for every pointer, null type, multi-dimensional array and (unless mapped to any on request) opaque type that an exported definition uses, instead of writing it. Every namespace block that an export opens is closed again before the export ends, whatever was exported with the same exporter before.',
  ['programs', 'configurations'], 'all registries and export options', 'Tests export supported types.',
  ['lang/idl/export.cc'], [('unsupported-type errors', 'lang/idl/export.cc'), ('namespace block balance', 'lang/idl/export.cc')])
p('F03', 'CSV header and data lines have the same columns',
  'For every type without containers that can be output as CSV, the data line has one column for each column of the header, in the same order, for every type category and nesting.',
  ['programs', 'inputs'], 'all types and values', 'One structure is tested.',
  ['typelib/csvoutput.cc', 'typelib/csvoutput.hh'], [('paired visitors', 'typelib/csvoutput.cc')])

p('F04', 'Numbers are exported to IDL as the IDL type of their width and sign',
  'Every integer of 1, 2, 4 or 8 bytes and every floating point number of 4 or 8 bytes is written to IDL as the IDL number of the same width and kind, unsigned exactly when it is unsigned (beyond one byte, where both are octets), and booleans as boolean.',
  ['programs'], 'all numeric types IDL has a counterpart for', 'Tests export a few numeric fields.',
  ['lang/idl/export.cc'], [('naming of numbers', 'lang/idl/export.cc')])

p('G01', 'Shared singleton state is only touched under its lock',
  'The table of process-wide singletons and the reference counts in it are only read or changed while the single lock protecting them is held, from every entry point, and the lock is released on every exit.',
  ['schedules'], 'all interleavings of attach, detach and access', 'Races are not reproducible in tests.',
  ['typelib/utilmm/singleton/server.cc', 'typelib/utilmm/singleton/dummy.cc', 'typelib/utilmm/singleton/bits/use.tcc', 'typelib/utilmm/singleton/bits/wrapper.tcc'], [('scoped lock in each entry point', 'typelib/utilmm/singleton/server.cc')])
p('G02', 'Singleton references are paired and the last one destroys the instance',
  'Every handle on a process-wide singleton (constructed, copied) takes exactly one reference and gives exactly one back when it dies; the instance is destroyed exactly when the last reference is given back.',
  ['histories', 'schedules'], 'all sequences of handle creation, copy and destruction', 'Tests take a single reference.',
  ['typelib/utilmm/singleton/server.cc', 'typelib/utilmm/singleton/dummy.cc', 'typelib/utilmm/singleton/bits/use.tcc', 'typelib/utilmm/singleton/use.hh'], [('reference counting', 'typelib/utilmm/singleton/dummy.cc')])
p('G03', 'Plugins are registered once, owned once and looked up safely',
  'Importer, exporter and type plugins are owned by the plugin manager and destroyed exactly once, with it; a second plugin of the same kind and name is refused, is reported as refused, and does not replace the first. Asking for an unknown plugin raises PluginNotFound, and what is made for one load or save is destroyed with it, also when it fails.',
  ['histories', 'inputs'], 'all registration sequences and plugin names', 'Tests load the three standard plugins.',
  ['typelib/pluginmanager.cc', 'typelib/pluginmanager.hh'], [('plugin maps', 'typelib/pluginmanager.cc')])
p('G04', 'Configuration trees own their nodes exactly once',
  'Each node added to a configuration tree stays there, beside others of its name, until the parent is cleared or dies, and is destroyed exactly once then; a tree is never copied. Setting a value replaces those of its name, inserting adds to them, erasing removes them.',
  ['histories'], 'all sequences of configuration updates', 'Leaks and double frees are invisible to the tests.',
  ['typelib/utilmm/configset.cc', 'typelib/utilmm/configset.hh'], [('owning child map', 'typelib/utilmm/configset.cc')])

p('H01', 'Every error is reported by a standard exception, and cleanup never throws',
  'Every error the library raises can be caught as the standard exception base class, and no destructor lets an exception escape.',
  ['inputs', 'fault_sequences'], 'all error paths', 'Most error paths are not exercised.',
  ['typelib', 'lang'], [('exception hierarchy', 'typelib')])
p('H02', 'Traversals of recursive types terminate',
  'Every recursive walk of a type definition (display, comparison, merge, resizing, layout compilation, endian conversion, export, CSV output) ends on recursive definitions: it either does not follow pointers and containers, or detects that a type is already being walked and does not walk it again.',
  ['programs'], 'all type graphs, including cyclic ones', 'Tests have hardly any recursive type.',
  ['typelib/typevisitor.cc', TM, 'typelib/csvoutput.cc', 'typelib/typedisplay.cc', 'typelib/exporter.cc'], [('recursion stack', TM), ('visitors that do not follow pointers', 'typelib')])
p('H03', 'Standard C type names stand for the types of the C compiler',
  'Every standard C and C++ type name the C support registers, in each of its spellings, stands for a number of the width and kind the compiler gives that type on this machine, and the fixed-width names for the width and kind they say. The common ones are all registered.',
  ['configurations'], 'all registered names', 'Tests look up a handful of names.',
  ['lang/csupport/standard_types.cc', 'lang/csupport/containers.cc'], [('standard type table', 'lang/csupport/standard_types.cc')])

p('J01', 'Ruby entry points accept exactly the arguments they are registered with',
  'Every method made available to Ruby is registered with the number of arguments its implementation takes, so that no call from Ruby reads arguments that were not passed; calls that scan arguments, call back into Ruby or raise errors pass as many arguments, of the kinds, as the count or format they give announces.',
  ['programs'], 'all registered methods', 'The compiler cannot see it through the registration casts; the C++ tests do not load the extension.',
  ['bindings/ruby/ext'], [('method registration', 'bindings/ruby/ext')])
p('J02', 'Ruby numbers convert without loss in either direction',
  'Integers of every supported width and signedness convert between typelib values and Ruby numbers without losing or changing bits: the conversion used is at least as wide as the type and has the same signedness. Counts and sizes reported to Ruby are not cut either.',
  ['inputs'], 'all values of all integer widths', 'Only small values are ever tried.',
  ['bindings/ruby/ext/value.cc', 'bindings/ruby/ext/convert.cc'], [('getter and setter visitors', 'bindings/ruby/ext/value.cc')])
p('J03', 'Ruby element access stays inside the value',
  'Reading or writing elements of arrays and containers from Ruby with any index or slice, and copying strings and raw bytes into or out of values, either stays within the value or raises a Ruby error before touching memory; buffers and zones made for a value are large enough for its type.',
  ['inputs'], 'all indexes and sizes', 'Extension methods are not covered by the C++ tests.',
  ['bindings/ruby/ext/specialized_types.cc', 'bindings/ruby/ext/value.cc', 'bindings/ruby/ext/memory.cc'], [('index checks', 'bindings/ruby/ext/specialized_types.cc')])
p('J04', 'What Ruby is handed is what it asked for and stays valid',
  'A field, element or view of a value handed to Ruby is the one asked for, and keeps the object whose memory it lies in alive for as long as it is used; types keep their registry. Values are copied, compared or put into a container only when their types are the same or can be cast to each other; anything else is an error before memory is touched.',
  ['inputs', 'schedules'], 'all values and types, whenever the garbage collector runs', 'The extension has no tests among those that run; missing references show only when the collector runs at the wrong moment.',
  ['bindings/ruby/ext/specialized_types.cc', 'bindings/ruby/ext/value.cc', 'bindings/ruby/ext/convert.cc'], [('parents of wrappers', 'bindings/ruby/ext/value.cc'), ('type checks of whole-value operations', 'bindings/ruby/ext/value.cc')])

p('J05', 'Memory of Ruby values is initialised, destroyed and freed exactly once',
  'The memory made for a value is initialised when it is made, and destroyed and freed exactly once, when the last reference to it goes: never while a wrapper or a value that lies in it is left, and never if it belongs to something else. What is known of its type is kept until then, with the registry, and forgotten with it.',
  ['histories', 'schedules'], 'all orders of creation, invalidation and collection', 'The extension has no tests among those that run; a wrong count shows only under particular orders of collection.',
  ['bindings/ruby/ext/memory.cc', 'bindings/ruby/ext/value.cc'], [('reference counts', 'bindings/ruby/ext/memory.cc')], [('MemoryTable', 'address to entry', 'bindings/ruby/ext/memory.cc')])

# whole-value statements that no sound static argument in reach decides
p('N01', 'A value dumped and loaded again compares equal',
  'For every type without pointers and every value, dumping the value and loading the result into a fresh value gives a value that compares equal to the first.',
  ['inputs', 'programs'], 'all types and values', 'Unbounded domain.', [VO], [('dump and load', VO)])
p('N02', 'Name ordering is a strict weak order and groups namespaces',
  'The ordering used for registered names is a strict weak order under which the types of one namespace are contiguous.',
  ['inputs'], 'all triples of names', 'Unbounded domain.', ['typelib/registry.cc', 'typelib/typename.cc'], [('name comparison', 'typelib/registry.cc')])
p('N03', 'Resizing types keeps the layout of everything that contains them consistent',
  'After resizing some types of a registry, every type that contains them has offsets and sizes under which no two fields overlap and everything fits.',
  ['programs'], 'all type graphs and size maps', 'Unbounded domain.', ['typelib/registry.cc', TM], [('recursive resize', TM)])
p('N04', 'Type names parse back to what they were built from',
  'Splitting a qualified name into namespace and base name and joining the parts gives the name back, for all names including nested template arguments.',
  ['inputs'], 'all names', 'Unbounded domain.', ['typelib/typename.cc', 'typelib/typebuilder.cc'], [('name splitting', 'typelib/typename.cc')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(x) + '\n' for x in P))
ids = [x['id'] for x in P]; assert len(set(ids)) == len(ids)
for x in P:
    n = x['statement'].count('. ') + 1
    if n > 3: print('too long', x['id'], n)

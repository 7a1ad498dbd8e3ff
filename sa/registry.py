"""property -> rules that decide it, and what the evidence says about them"""
from rules import a_layout as A, containers as C, compiler as K, streams as S, lifetimes as L, simplify as SI, elements as EL, enums as EN

RULES = {}
TECHNIQUE = {}
ENGINE = ('Path-sensitive abstract interpretation of the type-checked syntax tree (clang LibTooling) with symbolic linear terms; repository functions are inlined, loops are '
          'summarised by one arbitrary iteration. ')


def prop(pid, technique, explanation, rules, assumptions=()):
    TECHNIQUE[pid] = technique
    RULES[pid] = dict(explanation=ENGINE + explanation, rules=rules, assumptions=list(assumptions))


LAYOUT = ['a MemoryLayout handed to a value operation was made by the layout compiler (A08) for the type of the value',
          'sizes in bytes stay below 2^63, so that adding two of them does not wrap']

prop('A01', 'abstract interpretation: instruction operand and byte accounting',
     'For each interpreter of layout instructions (found by the opcode enumeration it switches on) and each opcode: every path through the interpreter is enumerated, and the number of '
     'operand words consumed, the bytes the value cursor moved and the repetition count of array bodies are compared with the meaning of the opcode. Opcodes without a handler must throw. '
     'The functions that skip a block must end on the word after the block whatever is nested in it.',
     [('layout-movement', A.movement), ('skip-block', SI.skipping), ('whole-value', C.whole_value)], LAYOUT)
prop('A02', 'abstract interpretation: effect of each instruction on each operand',
     'For each operation and opcode the calls that touch the value (memcpy, memcmp, memset, container methods, nested interpretation) are collected on every path and compared with the effect '
     'the operation must have on exactly the bytes the instruction stands for: operand roles (source/destination), address, length, and for comparisons which outcome leads to which result. '
     'The public entry points must hand the whole layout and the data of the value to the interpreter.',
     [('layout-effects', A.effects), ('layout-entry', A.public_entry), ('container-equality', EL.compares), ('container-copy', EL.copies)], LAYOUT)
prop('A03', 'abstract interpretation: agreement of writer, reader and size record sequences',
     'The sequence of records (address, width, count, nested elements) each dump path writes is computed per opcode and per container class and compared with that of the load and size paths '
     'under matching path conditions; element counts must have the same width on both sides and the containers must be emptied or resized to the count on load.',
     [('container-records', C.container_records), ('records', C.records), ('dump-size', C.dump_size), ('loads', L.loads), ('whole-value', C.whole_value), ('appending', S.appending)], LAYOUT)
prop('A04', 'abstract interpretation: every producer and consumer of array instructions with count 0',
     'The layout compiler must emit no instructions for an array whose dimension is 0 (so that none of the interpreters, all of which take the first element unconditionally, meets one); '
     'and the users of the compiled type (swap compiler, simplification) are checked for the same case.',
     [('empty-arrays', K.empty_arrays)], LAYOUT)
prop('A05', 'abstract interpretation: bounds facts at every read of the input buffer',
     'For every input stream over a buffer, each copy out of the buffer must be dominated by facts that imply position + length <= size, and positions only ever advance by the length read. '
     'Every load from a buffer must, on each path that returns normally, have established that the layout and the input were used up.',
     [('bounded-input', S.bounded_input), ('input-used-up', S.whole_input)], LAYOUT)
prop('A06', 'abstract interpretation: bounds facts at every write to the output buffer',
     'For every output stream over a buffer, each copy into it must be dominated by facts implying position + length <= size; streams over vectors must grow by what they copy. The dump '
     'entry point must return 0 on every path on which the stream threw and the position otherwise.',
     [('bounded-output', S.bounded_output), ('dump-result', S.dump_result)], LAYOUT)
prop('A07', 'abstract interpretation: unchecked-result analysis of write, fwrite, close and std::ofstream',
     'On every path through a stream writer that returns normally after a write(2)/fwrite(3), the path facts must imply that the call wrote exactly the requested length. A std::ofstream that is '
     'written must have an exception mask covering failbit and badbit, installed before the first write, and be closed (or flushed) explicitly while the mask is active.',
     [('writes-checked', S.writes_checked), ('file-streams', S.file_streams)])
prop('A08', 'abstract interpretation: layout compiler obligations per type category',
     'For each category visitor of the layout compiler: the instruction words emitted on every path are compared with the layout the interpreters (A01) give them; compound fields must be preceded '
     'by the gap up to their offset and followed by the gap to the size; nested layouts must be compiled with the same options; pointers and opaques must be refused exactly when not accepted.',
     [('layout-compiler', K.compiler), ('layout-options', K.options), ('simplification', SI.rules)], ['field offsets of a compound are in increasing order, as Compound keeps them'])
prop('A09', 'abstract interpretation: element lifetime pairing and type checks before container mutation',
     'For each container class: on every path of a resize, the range of elements initialised is exactly the range that is new, the range destroyed exactly the range that goes, in the right order '
     'relative to the change of the storage; clear, destroy and erase go through that; every mutation taking a Value is dominated by a comparison of its type with the element type.',
     [('resize', L.resize_rule), ('emptying', L.emptying), ('type-checked', L.type_checked), ('value-copy', L.value_copy)])
prop('A10', 'abstract interpretation: storage size facts at every load into a container',
     'For each container class: on every path of load, the vector is resized to the announced count under facts that exclude wrap-around of count * element size before any element address is used, '
     'and every element address written lies within the resized storage.',
     [('loads', L.loads)])
prop('A11', 'abstract interpretation: relational accounting of pending and written instructions per loop round',
     'For each function that rewrites a sequence of instructions into another: on every path of one round of its loop, the run pending before plus the instruction read must stand for the same bytes as the words written '
     'in that round (after truncations) plus the run pending afterwards; runs are compared as (kind, linear byte count), array and container bodies by induction over the recursive call, and the facts of the path decide which kinds '
     'may be taken for equal. What is pending at the end must be written, or be skipped bytes the caller wanted left out. The function that steps over a block is checked per opcode for position and depth.',
     [('simplification', SI.rules), ('skip-block', SI.skipping)], ['the number of skipped bytes remembered as trailing never exceeds the pending run'])

prop('A12', 'abstract interpretation: positions and numbers of the elements touched on every path of the container operations',
     'Each implementation of the container operations (compare, copy, visit, access by position, add, erase, conditional removal, element count) is followed on every path with vectors represented by their number of elements; '
     'helpers of the class are inlined. Loops are summarised by the element they touch per round, start, step and number of rounds, which must be all elements; moves of elements behind a removed one must have exactly the right source, target, length and direction; '
     'in the loop that removes on a condition, the index and the number of elements left must change as the outcome of the test demands on each path of a round.',
     [('erases', EL.erases), ('compares', EL.compares), ('copies', EL.copies), ('visits', EL.visits), ('positions', EL.positions), ('counts', EL.counts), ('filters', EL.filters), ('pushes', EL.pushes)],
     ['indices are within the container (J03 for the ones Ruby gives)', 'the resize of a container does what A09 decides'])

prop('A13', 'abstract interpretation: unrolled bit-level evaluation of the initial bytes of an enumeration',
     'Each path of the layout compiler for an enumeration is followed to the block it emits; the loop that writes the initial bytes is unrolled over the bytes of the type with the bits of the symbol value as symbols, with the exact integer conversions, '
     'and every byte must be the byte of the value of a symbol in the byte order of the machine. The initialisation operation is shown to store the bytes of such a block as they are (the rule of A02).',
     [('initial-bytes', EN.initial), ('stored', A.effects)],
     ['enumerations are as wide as an int (their class fixes that)', 'merged initialisation instructions keep the bytes (A11), instructions cover the value (A08)'])

from rules import endian as B
prop('B01', 'bit-level abstract interpretation of the byte swap functions',
     'Each instance of the byte order functions (all integer widths and signs, float, double; tool/instances.cc instantiates the ones typelib itself does not use) is evaluated in a domain that '
     'follows every single bit of the argument through shifts, masks, ors and conversions; the result must be the argument with its bytes reversed (or unchanged, where the byte order is the native one).',
     [('byte-swaps', B.swaps)], ['the byte order of the machine the check runs on'])
prop('B02', 'abstract interpretation: agreement of swap plan compiler and interpreter, bit level for numbers',
     'The compiler of swap plans is followed with the plan as a word vector of symbolic size: the words appended for each type category, on every path, must reverse each number at its own position and '
     'skip all other bytes, for gaps, padding and nested arrays. The interpreter must do for each opcode what the compiler means by it. The direct form must reverse every numeric width and refuse pointers.',
     [('swap-compiler', B.compile_rule), ('swap-interpreter', B.interpret), ('direct-swap', B.direct)],
     ['field offsets of a compound are in increasing order, as Compound keeps them', 'enumerations have the size of an int'])

from rules import traverse as T
prop('C03', 'abstract interpretation: category, kind and size facts at every handler call of the visitors',
     'Every path of the type dispatcher and of the value dispatcher is followed: the facts of the path (category, numeric kind, size) must match the parameter type of the handler called, which must get the type itself and, for values, '
     'the current address (a stack of addresses followed symbolically), shifted by the field offset, the element size, or through the pointer. The default handlers must visit each field, element and target once. Combinations without a handler must throw.',
     [('type-dispatch', T.type_dispatch), ('type-defaults', T.type_defaults), ('value-dispatch', T.value_dispatch), ('value-defaults', T.value_defaults), ('container-visits', T.container_visits)],
     ['handlers leave the stack of addresses as they found it (checked for the ones of the library)'])

from rules import singleton as SG
prop('G01', 'lock-set analysis over the call graph',
     'Every access to a field or static member of the singleton table and of the counted base class (mutexes apart) is located; a lexical lock-set walk of every function says whether the lock is held there. '
     'Functions that access without it pass the requirement to their callers; it must be met before it reaches a function that is not private to the table. All locks taken must be the same process-wide mutex.',
     [('lock-set', SG.locked)], ['scoped locks of boost and std hold their mutex from construction to destruction'])
prop('G02', 'abstract interpretation: reference count updates on every path of attach and detach',
     'On every path of the attach entry point the count of the entry found (or inserted, if the table had none) goes up by one; on every path of detach it goes down by one, and the instance is erased and destroyed exactly on the '
     'paths whose facts say it was the last. Every constructor of a handle, also a compiler generated one, must attach once and its destructor detach once, under the same name.',
     [('references', SG.server_refs), ('handles', SG.handles)], ['a handle detaches a name it attached before, so the count is at least 1'])

from rules import owners as O
prop('G03', 'abstract interpretation: ownership and lookup of plugins on every path',
     'Every path of the registration functions must insert the plugin once, under its own name, into the container of its kind, without replacing an entry, and report the outcome of the insertion; every path of the destructor must '
     'sweep each container from begin to end deleting each element once, and no other function may delete a plugin; lookups use an entry only under the fact that there is one. What is made for a call is held by a smart pointer.',
     [('plugin-ownership', O.plugin_ownership), ('plugin-registration', O.plugin_add), ('plugin-lookup', O.plugin_lookup), ('plugin-use', O.plugin_use)], ['a plugin is registered with one manager, once'])
prop('G04', 'abstract interpretation: ownership of configuration nodes on every path',
     'Every path of every member function of the configuration tree is followed: a child handed over is inserted once into a container that keeps several per name, no child is deleted except by a sweep over all of them that takes them out, '
     'the destructor sweeps all, and the class cannot be copied. Values are replaced by set, added to by insert, removed by erase.',
     [('config-tree', O.config_tree), ('config-access', O.config_access), ('config-values', O.config_values)], ['a child is handed to one parent, once'])

from rules import compare as CM
prop('C01', 'abstract interpretation: equality facts on every path of a comparison that may say yes',
     'For each kind of type, every path of its comparison whose result may be true must carry facts (or a result term) that say: size, category, and what defines this kind (numeric kind, symbols and values, dimension, kind of container, name of an opaque, '
     'element type through the recursive comparison) are equal; compounds must walk both field lists in step comparing name, offset and type. The recursive step may answer without a comparison only for a type with itself and for a pair under comparison.',
     [('type-fields', CM.inventory), ('same-type', CM.same_type), ('recursion', CM.recursion)], ['two types of one registry that have the same name are the same object'])
prop('D04', 'abstract interpretation: equality facts on every path of the comparison of registries',
     'Every path of Registry::isSame that may return true must know that the sizes are equal, sweep all entries, and in each round compare the names and, with Type::isSame, the types of the two registries.',
     [('registries', CM.registries)], ['both registries iterate in the order of their names'])

from rules import lookups as LK
prop('D06', 'abstract interpretation: success facts at every use of a lookup result',
     'Every function of the repository that calls a lookup which can fail (a function that returns a null pointer on some path, found by a fixpoint over the return statements; find of a map, a set or a registry) is followed on '
     'every path; wherever the result is dereferenced, called through, or bound to a reference, the facts of the path must say that it is not null or not the end.',
     [('lookups', LK.lookups)], ['operations documented to need a registered type are given one'])

from rules import regs as RG
prop('D01', 'abstract interpretation: ownership of the registered types on every path',
     'Every path of clear and of the destructor must first take the aliases out (null or erase every entry whose key differs from the name of its type, facts of each iteration) and then delete each entry once, and leave both tables empty; '
     'remove takes out exactly the entries of the removed types, under all names, and destroys nothing; alias removal erases only under the fact that the entry is an alias; no other function deletes a registered type; the class cannot be copied.',
     [('clearing', RG.clearing), ('copies', RG.copies), ('destroyers', RG.destroyers), ('removal', RG.removal)], ['a type is registered in one registry, under its own name'])
prop('D02', 'abstract interpretation: every change of one table is followed by the matching change of the other',
     'On every path of every member function of the registry that changes the registered names (or the default namespace), the visible names must be recomputed afterwards, cleared with them, or updated entry by entry: under the absolute name and, '
     'in a loop over the enclosing namespaces, under the relative name, replacing what is there unless a lookup says that a deeper namespace has the name. The recomputation must clear, enter every registered name, and import the namespaces outside in, replacing. get and has must answer from the entry found in the visible names: that entry\'s type when there is one, nothing when there is none.',
     [('visible', RG.visible), ('rebuild', RG.rebuild), ('asking', RG.asking)], ['names of one namespace are contiguous in the order of names (N02)', 'no further namespace has been imported by hand'])
prop('D03', 'abstract interpretation: no change before an error, checks before a registration',
     'On every path of the registration functions, a change of the tables needs the facts that the name is valid and not in use, an alias the fact that its target exists; on every path that throws nothing has been changed; '
     'the only path without a change is the one where the name stands for the same type already.',
     [('registering', RG.registering)], [])

from rules import merges as MG
prop('D05', 'abstract interpretation: what each path of the merge operations passes on for every entry',
     'Merge and both ways of extracting a minimal registry are followed: on every path each type of the source must be merged unless it is excluded on request, each alias must be added with the name of its type, its own name, persistence and origin, '
     'unless the target is known to have the same type under that name (facts of the iteration), a different one must throw; origins and metadata must be carried over after that, for every name both registries have.',
     [('merges', MG.run_)], ['a loop over iterators from begin to end meets every entry'])

from rules import transfer as TR
prop('C05', 'abstract interpretation: contents of the object made by each merge, and paths on which a merge fails',
     'For every kind of type, what do_merge returns is followed field by field on every path: what refers to types must come from a recursive merge (or, for a plain copy of the object, there must be no such field), everything else must be the value of the source. '
     'A compound must be on the stack before its fields are merged. try_merge may use a type found under the name only after a comparison for equality; merge must register what it makes once. Paths on which a nested merge throws are followed too: '
     'a copy that others may refer to is destroyed only after what refers to it has been removed from the registry.',
     [('copies', TR.copies), ('walking', TR.walking), ('failures', TR.failures)], ['container factories build containers of the element type they are given'])

from rules import metadata as MD
prop('C04', 'abstract interpretation: ownership of metadata in every constructor, destructor and copy; effects of metadata operations',
     'For each class that has metadata, every constructor must end with metadata it has made itself (a copy constructor: with the content of the other\'s), every destructor path must release it once, assignment must be out of reach or keep it, '
     'and no other function may replace or delete it. Every path of the metadata operations is followed: adding must only insert under its key, setting must leave exactly the value, merging must sweep all keys and values; merging for compounds must cover every field.',
     [('ownership', MD.ownership), ('values', MD.values)], [])

from rules import definitions as DF
prop('C06', 'abstract interpretation: what each definition operation leaves behind on every path',
     'Adding and looking up symbols and fields, and every constructor of a type, are followed on every path: a symbol that exists (facts of the path) may only be left alone when its value is known to be the one given, an error must come before any change; '
     'lookups return an element only under the fact that its name or value is the one asked for and fail only after every element was compared; the size of a compound may only be left, or replaced by the end of the new field, under the fact that says that this is the larger one; '
     'the members of a new object are compared with the arguments of its constructor; a reader that adds fields must sort them afterwards, with an order that follows the offsets.',
     [('symbols', DF.symbols), ('fields', DF.fields), ('objects', DF.objects), ('order', DF.order)], ['sizes do not overflow'])

from rules import recursion as RC
prop('H02', 'call graph cycles with visitor class as context, guards by abstract interpretation',
     'The call graph is built with the concrete visitor class as context (so that overridden handlers of one visitor do not mix with those of another) and its cycles are searched for those that handle both compounds and pointers or containers, '
     'which a recursive definition needs. In such a cycle the functions are followed on every path: a walk is guarded where the facts say that a table does not have the type at hand, and the type has been entered into that table and not been removed, before the walk goes on; '
     'visitors made on the way must be given the table. No cycle may remain when guarded functions are taken out.',
     [('ends', RC.ends)], ['a value without pointers is finite', 'compounds contain themselves only through pointers or containers'])

from rules import csv as CSV
prop('F03', 'abstract interpretation: symbolic column counts of paired handlers',
     'The visitors that CSVOutput::header and CSVOutput::display make are found, and for each type category the handlers that they really use (overriders included). Every path of each handler is followed and the columns it adds are counted: '
     'added directly, by visiting the parts of the type, or per element of a loop whose trip count is the dimension of the array. Both sides must have the same count for each category, on every path.',
     [('same-columns', CSV.same_columns), ('whole-output', CSV.whole_output)],
     ['the default handlers of the visitors do what C03 decides', 'types with containers are not part of the property'])

from rules import exports as EX
prop('F01', 'abstract interpretation: per-entry ordering facts of the export loop',
     'The ordering loop of Exporter::save is followed on every path, with entries named by the iterator that stands for them. An entry must enter the table of available ones only under the fact that its dependencies are included in the set of types done (for aliases: that their type is in it); '
     'it must enter that set only together with being written or as not persistent, leave the tables only when written or moved on, and only be written when known to be persistent. The loop may only go on when something became available. dependsOn must give every type referred to.',
     [('ordered', EX.ordered), ('complete', EX.complete), ('dependencies', EX.dependencies)],
     ['the order of names in the tables is a strict weak order (see N02)', 'iterating a registry gives every entry'])

from rules import idl as IDL
prop('F02', 'abstract interpretation: refusal on every path of the IDL handlers, brace counting over symbolic lists',
     'The handlers of every visitor of the IDL exporter are followed on every path: none may end normally for a pointer or a null type, for an opaque without the fact that opaques are mapped, for an array whose element is not known not to be an array; '
     'the types of fields, elements and aliases must reach a visitor before anything is written for them. Braces are counted per loop iteration and the loops matched with the list of names they run over: the levels left are closed, those entered opened, once each, '
     'and the namespace entered is remembered. The end of an export closes what is left; a new export starts afresh.',
     [('refusals', IDL.refusals), ('names', IDL.names), ('aliases', IDL.aliases), ('namespaces', IDL.namespaces), ('writers', IDL.writers)],
     ['types over the blob threshold are written as octet sequences, on request'])

from rules import standard as ST
prop('H01', 'type hierarchy of thrown expressions; interprocedural may-throw analysis of noexcept functions',
     'Every throw expression of the program is found and its type must derive from std::exception publicly and exactly once (an ambiguous or private base cannot be caught as such). '
     'For every destructor and every other function that is noexcept, implicitly or not, the functions it can call (virtual calls to every overrider) are searched for throw expressions and calls of throwing library functions that no catch-all encloses; what is found is confirmed on the paths of the function.',
     [('standard', ST.standard), ('no-escape', ST.no_escape)], ['memory does not run out and locks can be taken while objects are destroyed'])

from rules import xmlout as XO
prop('E01', 'abstract interpretation: XML lexer over the symbolic output of every path',
     'Every function of the type library exporter that writes, or returns text that is written, is followed on every path; what it writes becomes literal text with holes and loops. An XML lexer is run over it from the beginning of a document to its end: '
     'tags must be balanced, each round of a loop must leave the lexer where it was, and a hole is checked against its place: attribute values take numbers and text in which every special character was replaced by something that stands for it (decided from the facts and what is appended per character, or from the replacements done), CDATA sections text without the end marker. '
     'The reader must put together all the CDATA sections of a value.',
     [('well-formed', XO.well_formed), ('whole-values', XO.whole_values)], ['text consists of characters XML can represent', 'what a reader makes of line ends in CDATA sections is up to it'])

from rules import tlb as TLB
prop('E02', 'abstract interpretation of writer and reader, compared element by element',
     'The writer gives every element, with the attributes it has on each path and the members their values come from (from the symbolic output of E01). The reader is followed on every path, with an exceptional edge at each attribute it asks for: '
     'those it cannot do without, the children it looks for, the table an element or value is looked up in and the members values end up in. Every element written needs a reader, every attribute required must be there on every path, every value of a closed vocabulary must be in the table with the constant the path was taken for, '
     'and an attribute must be read into the member it was written from.',
     [('own-words', TLB.own_words), ('closed-words', TLB.closed_words), ('aliases', TLB.aliases), ('values', TLB.values_read)], ['libxml2 reads what is well formed'])

prop('E03', 'ownership and typestate along all paths of the reader, exceptional edges included',
     'The type library reader is followed with an exceptional edge out of every call of a repository function. Every type object made must end up in the registry or be destroyed (never neither, never both), what libxml2 hands out must be released once on every path on which it is not null and not be used afterwards, '
     'a normal end requires that the document was parsed without recovery, that the root has the expected name, that every element was looked at and found equal to a word of the table, and that every required attribute was asked for; no error but a missing optional attribute is swallowed.',
     [('ownership', TLB.ownership), ('buffers', TLB.buffers), ('no-document', TLB.nodoc), ('vocabulary', TLB.vocabulary), ('nodes', TLB.nodes), ('required', TLB.required), ('always', TLB.always), ('swallowed', TLB.swallowed)],
     ['memory is not exhausted', 'libxml2 reports documents that are not well formed', 'Registry::add keeps the type it is given (D01 to D03)'])

from rules import narrow as NARROW
prop('C02', 'path-sensitive category facts at every narrowing cast, with callers and Ruby registrations as context',
     'Every cast from a type class to one below it is found on the type-checked program and followed on all paths. Wherever the result is used as the narrower class, the facts of the path must say that the object has a category of that class (a comparison with a constant or with an object of the class, a test of the dynamic type), '
     'or every caller must have established it, or the method must be registered on the Ruby class chosen for that category. A pointer cast that may have failed must not be used.',
     [('narrowings', NARROW.narrowings)], ['objects have the category their class is constructed with (C06)', 'Ruby code creates wrappers only through type_wrap'])

from rules import rubyapi as RUBYAPI
prop('J01', 'declared signatures against the registrations, and argument counts and formats of variadic calls, on the type-checked program; argument-vector reads on all paths',
     'Every function registered with the Ruby interpreter is resolved behind its casts and its parameters compared with the number of arguments it is registered with; functions converted to other callback types are compared with those. For methods taking any number of arguments, every read of the argument vector must lie behind a condition on the number of arguments that covers it, on every path. '
     'Calls that tell the interpreter how many arguments follow, by a number or by a format, are compared with what follows.',
     [('registered', RUBYAPI.registered), ('argument_reads', RUBYAPI.argument_reads), ('told', RUBYAPI.told)], ['integer conversions of different widths are passed alike (the ABI of this platform)'])
prop('J02', 'value ranges of the types along every conversion between C++ integers and Ruby numbers, on the type-checked program and along all paths of the converting visitors',
     'For every width and signedness of numeric values, the functions that read and write them from Ruby are followed on all paths: what is stored must be the conversion of the value itself, and the type the conversion takes or gives must hold every value of the numeric type. '
     'Wherever the extension gives a number to Ruby, each type the number goes through must hold every value of the type before it.',
     [('numeric_values', RUBYAPI.numeric_values), ('numbers_out', RUBYAPI.numbers_out)], ['sizes and counts of objects in memory are below 2^62'])

from rules import rubyaccess as RUBYACCESS
prop('J03', 'interval and relational facts along all paths of the entry points, at every address computation and copy',
     'The functions registered with Ruby are followed on all paths, with the functions of the extension they call. At every place where an address inside a value is computed, an element of a container is taken, bytes are copied or compared, a string is made of bytes, or a value is put in a buffer or a new zone, '
     'the comparisons made on the path must imply that the access stays inside: an index below the number of elements and not negative, a length no larger than the value, the vector, the buffer or the zone. Conversions between signed and unsigned numbers are kept, so that a negative index counts as checked only where it was compared as unsigned or with zero.',
     [('accesses', RUBYACCESS.accesses)], ['addresses given as numbers, and zones given by other bindings, are what their giver says', 'sums of two numbers given by Ruby that are compared and used alike do not wrap'])
from rules import numbers as NU
prop('H03', 'abstract interpretation: names and widths of every numeric type that is registered',
     'The functions of the C support that make numeric types are followed with every name as text: the width and kind given to each number and each alias must be those the C compiler gives the words of the name (fixed-width names: those they say), '
     'also where the name is put together from the width in a loop. The common spellings must all be registered.',
     [('standard names', NU.standard)], ['the machine is LP64 with a signed plain char, as the compiler that builds the library says'])
prop('F04', 'abstract interpretation: the text written for every width, kind and sign',
     'Every path of the function that names numbers in IDL is decided for each width, kind and sign it is consistent with: the text put together on it must be the IDL type of that width, kind and sign.',
     [('idl names', NU.idlnames)], [])
from rules import depends as DP
prop('D07', 'abstract interpretation: membership facts at every step of the search for dependents',
     'The dependsOn function of every class that refers to other types must name all of them on every path (the target of an indirection, every field). In the search for dependents each registered type must be added exactly when '
     'a fact of the path says that what it depends on contains a type that was found before (an alias or a type already found may be skipped); the search must be repeated for what it found, start at the type given and keep what each round found. Removal must use that search, on the type given, before it takes entries out.',
     [('covers', DP.covers), ('reverse', DP.reverse), ('removing', DP.removing)], ['entries of removed types leave the table (D01)'])
from rules import rubywrap as WR
prop('J04', 'ownership analysis: the object kept by every value handed to Ruby; relational facts at element addresses and whole-value operations',
     'Every place of the extension where a value is handed to Ruby is followed back: the object given as its parent must be the one whose data its address is computed from (through helper functions, visitors with a parent member and bound functions alike), and the registry that of its type. '
     'The functions that make the wrapper must store that object, the memory zone or the registry in it. An element address must be the start plus the index that was checked times the size of an element, with nothing added. '
     'Whole values may be copied, compared or put in a container only on paths where their types were found equal or castable.',
     [('kept', WR.kept), ('elements', WR.elements), ('compatible', WR.compatible), ('wrapper', WR.wrapper)], ['values behind pointers are kept alive by the user', 'Ruby keeps what instance variables refer to'])
from rules import rubymem as RM
prop('J05', 'typestate analysis of memory zones along all paths of the functions that count, enter and release them',
     'On every path of the function that drops a reference, the facts about the count, the ownership flag and the root decide what must happen: with references left nothing is released, otherwise owned memory is freed once, the root is released once, the entry is deleted, leaves the table and is not read again, '
     'and type and layout are forgotten after the content was destroyed. Freeing destroys what is known to be there first. Entering memory keeps owner and root as asked and counts the root; each address has one wrapper with a release function. Memory made for a value is initialised once, with its type and layout remembered and the registry kept.',
     [('unref', RM.unref), ('freed', RM.freed), ('entered', RM.entered), ('initialised', RM.initialised)], ['Ruby calls the free function of an object once'])
from rules import extended as EX
prop('D08', 'abstract interpretation: facts of the paths that enter a type or an alias, and the text of generated names',
     'On every path that enters an alias, each registered type must be looked at, and one whose dependencies contain the type that gets the alias must be told (directly or through a list all of which is told), after the entry was made. A path that enters a new type must tell it unless it found '
     'that no dependency has an alias. What is told must register, for each alias of what it is made of, the name generated from that alias, for itself, not to be exported, exactly if that name is free. The generated name must be made by the same function and dimension as the one '
     'given by the constructor. The list of aliases must hold each entry of the type whose name is not its own.',
     [('trigger', EX.trigger), ('fresh', EX.fresh), ('extend', EX.extend), ('names', EX.names), ('listing', EX.listing), ('told', EX.told), ('merging', EX.merging)], ['the dependencies reported for a type are complete (D07)'])

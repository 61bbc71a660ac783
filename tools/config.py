THROWS_TRUSTED = [
    'tools/throws.py: the mechanical extraction of calls, throws, handlers, class hierarchy and virtual tables from the LLVM IR of /repo (unoptimised); data, order and conditions are dropped',
    'clang 18 (front end), Verus 0.2026.09.13 and Z3',
    'the call targets and exceptions assumed in tools/throws.py (contracts_assumed_here lists the sites)',
]
TRUSTED = [
    'tools/cxx2verus.py and tools/typelib_tr.py: the mechanical translation of the clang AST of /repo into Verus (integers keep their width, arithmetic is checked for overflow, iterators become checked indices)',
    'clang 18 (front end), Verus 0.2026.09.13 and Z3',
    'contracts/*.rs declarations marked external_body: raw memory (memcpy/memset/memcmp), the container interface, the stream interface',
]
COMMON_ASSUMPTIONS = [
    'a value handed to the operations is a value of the layout (its memory covers the layout, its containers are constructed, and containers of a type hold elements with the element layout)',
    'x86-64 Linux: size_t has 64 bits, little endian',
]
VALUE_OPS_CONT = 'the container classes behind the virtual interface (lang/csupport/containers.cc) are assumed to meet the interface contract; the bounded stand-in runs the real ones'
SINKS = 'contracts on std::ostream::write, ::write, fwrite and memcpy: they take all bytes, or a prefix of them and report it; a dump is shorter than 2^63 bytes; the fixed-buffer dump returns an int, so its return value is only specified for dumps up to 2^31 - 1 bytes'
PROPS = {
    'C01': dict(units=['dump', 'load', 'sinks'], harness='c01.cc', level='proof',
                bounded='random types (nesting depth 4, arrays up to 4, containers up to 40 elements), random values, dump and load through every front end',
                assumptions=[VALUE_OPS_CONT, SINKS],
                explanation='dump writes exactly the data bytes in order and load rebuilds them, by contract on ValueOps::dump, ValueOps::load, every overload of Typelib::dump and Typelib::load and their streams; that dumping a value and loading it elsewhere succeeds with an equal value, and dumps to the same bytes again, is proved as a caller of dump(Value) and load(Value, vector)'),
    'C02': dict(units=['dump', 'sinks'], harness='c02.cc', level='proof', bounded='every sink, fixed buffers of exact, smaller and larger size', assumptions=[VALUE_OPS_CONT, SINKS],
                explanation='every overload of Typelib::dump (vector, ostream, descriptor, FILE, fixed buffer, OutputStream) hands on exactly the dump of the value or reports failure, and only when the sink refuses bytes; the fixed buffer is not written outside and 0 is returned when it is too small; getDumpSize is the length of the dump'),
    'C03': dict(units=['load', 'sinks'], harness='c03.cc', level='proof', bounded='truncated, extended and corrupted dumps, element counts chosen to overflow', assumptions=[VALUE_OPS_CONT, SINKS],
                explanation='load from vectors, fixed buffers and streams: accepted exactly when some value of the layout has a dump that is the input (up to the trailing padding of the type); ValueOps::load on any input fills the value from a prefix of the input or fails, and writes only inside the value'),
    'C04': dict(units=['layout'], harness='c04.cc', level='proof', bounded='random well-formed programs and layouts of random types under the four flag combinations',
                explanation='MemoryLayout::simplify and simplifyBlock keep the cells of every program (padding may become data when merging, trailing padding of the whole program may go when asked)'),
    'C05': dict(units=['c05'], harness='c05.cc', level='proof', bounded='random types with nested compounds, arrays, containers, pointers and opaques under the four acceptance flags',
                assumptions=['types are as typelib builds them: below its pointers a type is a finite tree, array size is dimension times element size, fields follow each other inside the compound, an object of a category is of the class of that category'],
                explanation='MemLayout::Visitor, TypeVisitor::dispatch and the push operations of MemoryLayout produce, for every type, exactly the cells and initialisation cells specified for the type, or throw exactly when an unaccepted pointer or opaque (or an enum over 8 bytes, or a null type) occurs at any depth'),
    'C06': dict(units=['copy', 'compare', 'wcopy'], harness='c06.cc', level='proof', bounded='random types and pairs of values differing in single bytes, padding or container elements', assumptions=[VALUE_OPS_CONT],
                explanation='ValueOps::copy makes every meaningful byte of the destination equal and changes nothing else; ValueOps::compare answers true exactly when every meaningful byte is equal'),
    'C07': dict(units=['zero', 'init', 'destroy', 'layout', 'wlife'], harness='c07.cc', level='proof', bounded='random types and values, containers that count their constructions and destructions', assumptions=[VALUE_OPS_CONT],
                explanation='ValueOps::init constructs every container of the program once and sets exactly the bytes with a default, zero clears exactly the meaningful bytes, destroy destroys every container once'),
    'C08': dict(units=['c08', 'icells'], harness='c08.cc', level='proof', bounded='random and nearly well-formed programs up to 14 operations', secs=10,
                explanation='validate() accepts exactly the grammar, skipBlock() finds the matching end, both stay inside the program'),
    'C09': dict(units=['c09v'], harness='c09.cc', level='proof', bounded='random types of numerics, enums, arrays, containers and compounds (nesting 4), random values, both conversions', secs=10,
                assumptions=['enums have 4 bytes', 'compiled programs and value sizes below 2^31', 'the buffers of the input and of the output value do not overlap', 'fields of a compound do not overlap and are in increasing offset order', 'this platform is little endian', 'values converted in place hold no containers (their elements are covered by the bounded stand-in only)', 'a float or a double that is copied keeps its bits'],
                explanation='Endian::swap on 2, 4 and 8 bytes is the byte reversal and an involution for every value; the compiled conversion (CompileEndianSwapVisitor: every visit_, TypeVisitor::dispatch, skip, apply, both swap functions) produces for every type and every value exactly the specified bytes, throws exactly on the unsupported types, and twice gives back the original (theorem); the conversion in place (EndianSwapVisitor, every method of the ValueVisitor traversal, endian_swap) writes the same bytes, changes nothing outside the value, throws exactly on the unsupported types, and twice gives back the original, for every value without containers; the elements of containers are checked on a bounded domain only'),
    'C10': dict(units=['names'], harness='c10.cc', level='proof', bounded='random and mutated names, all namespace cuts', secs=12,
                assumptions=['names are shorter than 2^31 characters'],
                explanation='splitTypename, getNamespace, getTypename, getNormalizedNamespace, isInNamespace, getRelativeName meet their specification for every string; losslessness is a theorem over those contracts'),
    'C29': dict(units=['minpath'], harness='c29.cc', level='proof', bounded='random pairs of names over few components, so that they overlap, with and without template arguments; every relative path is looked up from the namespace outwards', secs=10,
                assumptions=['names are shorter than 2^31 characters', 'type names are absolute with non-empty components, namespaces are absolute with balanced template marks', 'only the namespaces of the two names are known: a namespace that neither name mentions cannot hide the path'],
                explanation='getMinimalPathTo, over the contracts of getNamespace, splitTypename, isInNamespace and getRelativeName, answers with the complete namespace or with a path whose first name no deeper namespace hides; that looking this path up leads to the type is a theorem'),
    'C11': dict(units=['namesort'], harness='c11.cc', level='proof', bounded='random triples of close names', secs=8,
                explanation='nameSort computes the specified order for every pair of strings; irreflexive, total, asymmetric, transitive, prefix first, separator first and contiguous namespaces are theorems about it'),
    'C12': dict(units=['validname'], harness='c12.cc', level='proof', bounded='random, mutated and all short strings over the marks', secs=15,
                assumptions=['names are shorter than 2^31 characters'],
                explanation='isValidTypename accepts exactly the names of the grammar and terminates without reading outside, for every string'),
    'C13': dict(units=['parsename'], harness='c13.cc', level='proof', bounded='names built from random modifiers, mutated ones, and types built through the registry', secs=12,
                assumptions=['names are shorter than 2^31 characters', 'array dimensions below 2^31 (the modifier list stores an int)'],
                explanation='parseTypename reads exactly the specified meaning from every string, and the names getArrayName and getPointerName build mean the modifiers they were built with'),
    'C17': dict(units=['c17'], harness='c17.cc', level='proof', bounded='random registries with recursive types and aliases, built in different orders and mutated in one definition', secs=8,
                assumptions=['std::map iterates in the order of nameSort (contracts/reg.rs: sorted)', 'registries bind no null type', 'an object of a category is of the class of that category'],
                explanation='Registry::isSame answers true exactly when both maps have the same names bound to types of the same structure; reflexive, symmetric, transitive and "differs in one definition" are theorems about it'),
    'C18': dict(units=['c18'], harness='c18.cc', level='proof', bounded='random type graphs with cycles through pointers, mutated copies, against an independent fixpoint computation', secs=8,
                assumptions=['an object of a category is of the class of that category (virtual calls select the override by the category)', 'std::map and std::set behave as maps and sets (contracts/maps.rs, CStk)'],
                explanation='isSame and canCastTo compute exactly the largest structural equivalence (castability) between type graphs, recursion included, and terminate; reflexivity, symmetry, transitivity and equal => castable are theorems'),
    'C19': dict(units=['enums'], harness='c19.cc', level='proof', bounded='random histories of additions over colliding symbols and extreme values', secs=6,
                assumptions=['std::map behaves as an ordered map (contracts/maps.rs)', 'getNextValue is not asked after the largest int was added'],
                explanation='Enum::add, get, names and getNextValue meet their contracts for every history: the contracts are stated over any reachable symbol table'),
    'C20': dict(units=['compound'], harness='c20.cc', level='proof', bounded='random sequences of field additions at any offset', secs=6,
                assumptions=['std::list behaves as a sequence (contracts/maps.rs)', 'offset plus size of a field and the trailing padding fit their machine types', 'the size of a type handle does not change while fields are added'],
                explanation='addField keeps the invariant that the size covers every field, adds exactly the field and moves none; getField finds the first field of the name; getTrailingPadding is the size minus the last end'),
    'C21': dict(units=['c21'], harness='c21.cc', level='proof', bounded='random element types (nested vectors, strings, compounds, arrays) and histories of 3 to 25 operations on two vectors, compared with a list of values after every operation; containers inside elements are counted', secs=10,
                assumptions=['elements have at least one byte and a layout (C05)', 'Typelib::init, destroy, copy and compare on one element meet C06 and C07, and the type of the elements does not contain this vector type', 'std::vector<uint8_t> moves its bytes on growth and keeps its storage otherwise', 'the condition of delete_if is a function of the value', 'indices handed to getElement and setElement are valid'],
                explanation='resize, push, erase, delete_if, copy, compare, clear, init, destroy, getElement and setElement of Vector meet contracts over a model of the heap in which every element slot is raw memory or a constructed value: contents are the specified sequence after every operation, elements that are not plain bytes are constructed before use and destroyed exactly once, never moved as bytes, no pointer outlives the storage it points into, other vectors stay as they are'),
    'C22': dict(units=['metadata'], harness='c22.cc', level='proof', bounded='random histories of add, set, clear and merge', secs=6,
                assumptions=['std::map and std::set behave as maps and sets (contracts/maps.rs)'],
                explanation='every MetaData operation meets a contract that gives the whole resulting map from the previous one'),
    'C28': dict(units=['c28'], harness='c28.cc', level='proof', bounded='random type graphs with cycles through pointers, aliases and arrays, up to three removals', secs=8,
                assumptions=['std::map and std::set behave as maps and sets (contracts/maps.rs, tsets.rs)', 'an object of a category is of the class of that category (virtual calls select the override by the category)', 'updateCurrentNameMap leaves the table of absolute names alone (discharged in unit c14, checked with C14)'],
                explanation='dependsOn of every class, both reverseDepends and Registry::remove are under contract: the set is exactly the types from which a path of references through registered types leads to the given one, and removal keeps exactly the entries bound to types outside the set'),
    'C14': dict(units=['c14'], harness='c14.cc', level='proof', bounded='random histories of additions, builds, aliases, removals and namespaces against a table of absolute names with derived aliases; every lookup and ranges of names with a prefix are compared after every step', secs=10,
                assumptions=['std::map iterates in the order of nameSort and behaves as a map (contracts/reg.rs, maps.rs)', 'boost::tokenizer splits at the separators and drops empty pieces', 'names are shorter than 2^31 characters', 'registered types have a name', 'has() with build_if_missing only asks the type builder when the name is missing (TypeBuilder::getBaseType is not under contract here)', 'which alias a container derives is assumed to be some string'],
                explanation='the invariant rinv - the table of current names answers every relative and absolute name by the deepest namespace that has it, else the name itself, else the root - is established by updateCurrentNameMap and setDefaultNamespace and preserved by add (all forms), alias (all forms), modifiedDependencyAliases, removeAlias, clearAliases and remove; each has a contract that gives the new table of names, refusals change nothing; begin(prefix) and end(prefix) delimit exactly the names with the prefix, from the order of the names (theorem_contiguous)'),
    'C15': dict(units=['c15'], harness='c15.cc', level='proof', bounded='random pairs of registries with recursive types, arrays, vectors, aliases and incompatible definitions merged into each other; minimal registries by name and by exclusion; the result is compared with the definitions on both sides and closed over references', secs=10,
                assumptions=['Compound::do_merge and Container::do_merge are assumed to meet the contract of do_merge (try/catch around incomplete compounds; container factories): checked by the harness', 'Type::isSame is the structural equality decided for C18', 'names of types are absolute and shorter than 2^31 characters', 'Registry::minimal is outside the translation (it owns a registry through unique_ptr): checked by the harness only', 'the meta-data of types are not part of the model of the tables of names', 'a registry is not merged into itself'],
                explanation='try_merge, merge of every class, do_merge of numerics, enums, opaques, arrays and pointers, copySourceIDs, setSourceID, mergeMetaData and Registry::merge meet contracts: the target keeps every name bound to the same type whether the merge succeeds or is refused, an existing definition is used only if it is structurally the same and otherwise the merge is refused, every type of the source ends up bound in the target, every alias of the source is a name there'),
    'C16': dict(units=['c16'], harness='c16.cc', level='proof', bounded='random type graphs (recursive through pointers and vectors) with three successive resizes of random types; sizes, offsets and element layouts of vectors are compared with a model, vectors of resized types are copied; unknown names must be refused', secs=10,
                assumptions=['each type is asked for at most once (no two names for one type in the table of sizes)', 'values are finite: a type does not contain itself by value (well-formed registries)', 'every type is registered under its own name and the registry is closed over elements and fields (C14)', 'sizes and offsets stay below 2^64, arrays are as long as their elements (C10)', 'Vector::do_resize only drops the cached layout of the elements: checked by the harness'],
                explanation='Registry::resize, Type::resize and do_resize of Type, Indirect, Array and Compound meet contracts over all type graphs: after resizing, every registered type has the size, and every field the offset, that follows from the sizes asked for (arrays: dimension times element; compounds: old size and offsets plus the growth of the fields in front), everything not depending on a resized type is left alone, unknown names are refused before anything changes'),
    'C24': dict(units=['c24h', 'c24l'], harness='c24.cc', level='proof', bounded='random types (pointers, arrays of dimension 0 to many digits, compounds, enums, opaques, every native number) and values: header and line are split and compared column by column with a reference', secs=8,
                assumptions=['boost::join and boost::lexical_cast<std::string> meet contracts/join.rs; the text of a floating point number is whatever lexical_cast gives', 'std::list behaves as a sequence', 'memory does not change while a line is written; pointers are not null and lead to a value', 'types do not contain themselves through pointers, containers are not shown (both visitors leave them out)', 'an object of a category is of the class of that category', 'a visitor, its ValueVisitor part and the TypeDispatch it owns refer to each other', 'Enum::get is decided with C19'],
                explanation='CSVOutput::header and CSVOutput::display write join(heads(type, name)) and join(rows(type, address)): contracts on HeaderVisitor, LineVisitor, ValueVisitor, TypeDispatch and TypeVisitor with the virtual calls resolved from the declarations; a lemma gives one list of columns (name, scalar) of which heads are the names and rows the texts, so that both have the same columns in the same order with every scalar once'),
    'C23': dict(units=['exporter', 'c23x'], harness='c23.cc', harness_dirs=['lang/tlb'], level='other', bounded='random registries (every category, aliases, derived types, templates in names, recursive types) with metadata, source identifiers and names from pieces of markup: the text is parsed as XML, every persistent entry counted, imported and compared (types, aliases, metadata, sources); recursive registries must be refused; through streams, files (also such that cannot be written) and the plugin manager', secs=8,
                assumptions=['the virtual begin, save and end of an exporter change the stream and nothing the algorithm reads', 'std::ostream is the text written to it', 'RegistryIterator and Type::dependsOn are decided with C14 and C16', 'an XML parser reads the five predefined entities and character references as their characters (lemma_unesc, lemma_cdata state the reading)', 'the element templates written by TlbExportVisitor and what the importer does with the parsed tree are only explored by the harness (bounded)'],
                explanation='Proved for all registries: Exporter::save writes every persistent entry exactly once, after everything it needs, aliases after their type, and refuses exactly the registries with no such order; xmlEscape and cdataEscape are inverted by reading attribute values and CDATA blocks and leave no markup. Explored with a bound: the visitors of lang/tlb/export.cc and the importer, by full round trips'),
    'C25': dict(units=['exporter'], harness='c25.cc', harness_dirs=['lang/idl'], level='other', bounded='random registries and options (prefix, suffix, blob threshold, opaques as any, selection, an exporter used before): the text is parsed with an IDL grammar, every name must be declared once and before it is used, in its module, with the members of the type; what IDL cannot express must be refused', secs=8,
                assumptions=['the virtual begin, save and end of an exporter change the stream and nothing the algorithm reads', 'RegistryIterator and Type::dependsOn are decided with C14 and C16', 'the text IDLExport writes for one entry and what it refuses are only explored by the harness (bounded)', 'names stay different when the characters <>/, are replaced by underscores'],
                explanation='Proved for all registries: Exporter::save hands every persistent entry to the exporter exactly once, after everything it needs, aliases after their type, and refuses exactly the registries with no such order. Explored with a bound: the declarations IDLExport makes of them'),
    'C26': dict(units=['c26', 'c26n'], harness='ruby/c26.rb', level='other', bounded='random histories of wrapping, field access, copying, vector growth, forgetting wrappers, invalidation and garbage collection in the real Ruby bindings (typelib_ruby.so built with the address sanitizer), against a model of the values; conversions of every native number, enum, pointer and string to Ruby and back', secs=25,
                assumptions=["Ruby's st_table, rb_data_object_wrap, xmalloc and xfree, and std::map and std::set meet contracts/c26.rs: a table maps, an object keeps its data until the function it was given is called once when it is collected", 'a registered address keeps its root when it is wrapped again (Value.from_address is not used on addresses inside other values), null is never wrapped', 'an address has fewer than 2^31 users', 'finalizers are deferred: none runs inside another operation on the table', 'rb_raise leaves the function without running destructors, Typelib::init and destroy do not throw', 'memory_layouts holds layouts by value: its objects are identified by their type', 'the conversion of floating point numbers, enums and strings, and the methods Ruby programs call, are only explored by the harness (bounded)', "Ruby's INT2FIX, INT2NUM, UINT2NUM, LL2NUM, ULL2NUM and NUM2INT, NUM2UINT, NUM2LL, NUM2ULL convert integers of their types exactly (contracts/c26n.rs)", 'the parent of a wrapper is older than the wrapper; Type.wrap gives a new object for the address of the zone'],
                explanation='Proved for all histories of operations: memory_ref, memory_unref, memory_delete, memory_aset, memory_wrap, memory_allocate, memory_init, memory_cptr, memory_zone_unref, memory_zone_invalidate, memory_zone_to_ptr, string_to_memory_ptr, value_root_ptr, value_wrap, value_allocate and RubyGetter on values keep the invariant that the count of an address is the number of zones at it and of entries it is the root of, that memory is allocated exactly for the owned addresses in the table, destroyed with the type it was initialized with, once; lemmas give from it that memory of a wrapper and of its root is valid while the wrapper is, that memory with no user is released, and that without zones nothing is left; every integer of every width converts to a Ruby Integer of the same value and back. Explored with a bound: other conversions, and the histories Ruby programs make'),
    'C27': dict(units=['c27'] + ['cast@' + t for t in ('char', 'signed_char', 'unsigned_char', 'short', 'unsigned_short', 'int', 'unsigned_int', 'long', 'unsigned_long', 'long_long', 'unsigned_long_long', 'float', 'double')],
                harness='c27.cc', level='proof', bounded='random types and values: every field, unknown names and names of inner fields on every value inside, casts to every native type; visiting each value with a recording visitor, compared with a list of everything in it', secs=8,
                assumptions=['a visitor, its ValueVisitor part and the TypeDispatch it owns refer to each other (ValueVisitor::ValueVisitor)', 'std::list behaves as a sequence', 'an object of a category is of the class of that category', 'values are not at address 0 and end before the end of the address space', 'casts to bool do not compile and are outside'],
                explanation='value_get_field returns exactly the address of the parent plus the offset and the type of the first field of the name and throws for unknown names and for anything but a compound; value_cast<T>, instantiated for the 13 native types, returns the number at the address exactly when the type is a number of that size and category and throws otherwise: contracts on FieldGetter, CastingVisitor, ValueVisitor, TypeDispatch and TypeVisitor, the virtual calls resolved from the declarations. That visiting reaches everything once is decided for the recording visitor by the bounded check only; the same traversal is under contract for the byte swapping visitor (C09) and the CSV line visitor (C24)'),
    'C30': dict(units=['throws'], harness='ruby/c30.rb', level='proof', bounded='random operations in the real Ruby bindings (address sanitizer), each case in a child process, that the library may refuse: values, strings, vectors, CSV, byte swapping, registries and names, enums, numbers of any size, null types, files, damaged XML, and garbage collection in between: each returns or raises what the model says, the process lives, and a refused operation leaves the value unchanged', secs=20,
                assumptions=['memory does not run out', 'functions of the standard library, libxml2 and Ruby that are not compiled into the repository throw nothing except for positions and keys out of range and bad casts (std::out_of_range, std::invalid_argument, std::bad_cast, std::bad_function_call), those of boost only exceptions derived from std::exception', 'rb_raise leaves by longjmp and throws nothing', 'Ruby calls back only functions of the extension that are handed to it', 'a visitor met in a function is the innermost one its callers made, the dispatcher of a value visitor belongs to it', 'a virtual call is resolved among the classes compiled from the repository', 'the restrictions of tools/throws.py, listed with the call sites in contracts_assumed_here', 'what ends the process other than an exception (signals, exit) is only explored by the harness (bounded)'],
                explanation='The exceptions that may leave each function are its contract: from the LLVM IR that clang makes of every source file of the current tree the calls, throw expressions, handlers and class hierarchy of every function reachable from the functions handed to Ruby are extracted (data, order and conditions are dropped: any number of the calls in any order), a contract is inferred for each function and, for visitors, each class of visitor, and Verus checks every function against the contracts of its callees; the contract of the 109 functions Ruby calls is that no exception leaves them. Explored with a bound: signals, messages and state after a refusal'),
}

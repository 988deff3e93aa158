import json, os
OUT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl'
H='include/xtypes/'
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=H+w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=H+w) for n,m,w in state]
    if obs: a['observe_at']=obs
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p('C01','Written values are read back exactly and writes do not interfere',
 'For any type that can be built from primitives, strings, enumerations, arrays, sequences, maps, structures, unions and aliases, every value written to a leaf of a data instance is read back bit for bit through every access path (by name, by index, by key). Writing one leaf changes no other leaf of the same instance.',
 ['inputs','configurations'],'all bounded type trees, all leaf values, all choices of the leaf that is overwritten',
 'Tests write a handful of constants into a few fixed types; the claim is over every type shape and every bit pattern.',
 ['DynamicData.hpp','StructType.hpp','ArrayType.hpp','SequenceInstance.hpp','MapInstance.hpp','UnionType.hpp','PrimitiveType.hpp','StringType.hpp'],
 [('typed access to the instance memory','DynamicData.hpp value<T>(), operator[]'),('member offset and alignment computation','StructType.hpp add_member'),('element addressing','ArrayType.hpp get_instance_at; SequenceInstance.hpp')],['value<T>()','operator[]','at()'])
p('C02','Copies and moves are deep: values survive, copies are independent',
 'A data instance constructed or assigned from another one (including through references to parts of it, and including assignment to itself or from a part of the same tree) holds an equal value, and later changes to either one, or destruction of either one, never show in the other. A moved-from source leaves its whole value in the target.',
 ['inputs','histories'],'all bounded type trees and values, every copy/move/assign form, any later modification of source or copy',
 'Tests copy a few fixed values and rarely modify the source afterwards; sharing appears only for particular type shapes and copy forms.',
 ['DynamicData.hpp','StructType.hpp','ArrayType.hpp','SequenceInstance.hpp','MapInstance.hpp','UnionType.hpp','StringType.hpp','PairType.hpp'],
 [('copy construction and assignment of data','DynamicData.hpp DynamicData constructors, operator='),('recursive instance copy and move','every *Type.hpp copy_instance/move_instance')],['operator==','value<T>()'])
p('C03','No invalid memory access, double free or leak',
 'No sequence of documented operations on types and data instances reads or writes outside the memory the instance owns, reads memory that was never written, uses freed memory, frees twice, or leaves memory allocated after the last instance and type are destroyed.',
 ['inputs','histories'],'all bounded types and values, bounded histories of create, write, grow, shrink, copy, move, assign, switch union case, insert, convert, destroy',
 'The test suite runs without sanitizers on a few histories; the failing combinations (growth of a container of containers, assignment over a live value, switching a union case) are configurations tests do not visit.',
 ['DynamicData.hpp','Instanceable.hpp','SequenceInstance.hpp','MapInstance.hpp','UnionType.hpp','StructType.hpp','ArrayType.hpp','StringType.hpp'],
 [('construct/copy/move/destroy protocol of instances','Instanceable.hpp'),('element storage management','SequenceInstance.hpp; MapInstance.hpp realloc'),('active member lifetime','UnionType.hpp select_case, destroy_instance')],['heap and stack accesses of the real code'])
p('C04','Equality is structural',
 'Two data instances of the same type compare equal exactly when every leaf they contain compares equal under the equality of its C++ value, their collections have the same size and their unions have the same discriminator. Equality is reflexive (for values without NaN) and symmetric, and inequality is its negation.',
 ['inputs'],'all bounded types and all pairs of values',
 'Tests compare a few pairs; a comparison that ignores one member, one element or one byte is wrong only for pairs that differ exactly there.',
 ['DynamicData.hpp','PrimitiveType.hpp','StringType.hpp','ArrayType.hpp','SequenceInstance.hpp','MapInstance.hpp','StructType.hpp','UnionType.hpp','PairType.hpp'],
 [('recursive instance comparison','every *Type.hpp compare_instance'),('entry point','DynamicData.hpp operator==')],['operator==','operator!='])
p('C05','Equal values have equal hashes; small keys never collide',
 'Two data instances of the same type built independently with identical values have the same hash, whatever history produced them. Two different integer, character, boolean or enumeration values of the same type have different hashes.',
 ['inputs','histories'],'all bounded types and values; two instances of the same type and identical content with different construction histories',
 'Tests hash a few constants; map lookup silently breaks for exactly the value or history where the hash depends on something other than the value.',
 ['PrimitiveType.hpp','StringType.hpp','ArrayType.hpp','SequenceType.hpp','MapType.hpp','StructType.hpp','UnionType.hpp','Instanceable.hpp'],
 [('hash computation','*Type.hpp hash; Instanceable.hpp hash helpers')],['hash()'])
p('C06','A map behaves as a bounded finite map',
 'After any history of insertions and assignments a map holds exactly the keys inserted, each with the last value written for it, its size is the number of distinct keys, and lookups of present and absent keys answer correctly whatever the insertion order. Inserting a pair stores the pair, an insertion beyond the bound fails and leaves the map unchanged, and reading an absent key fails.',
 ['inputs','histories'],'all histories of bounded length of insert/assign/lookup with arbitrary keys, in any order; bounded and unbounded maps; several key and value types',
 'Tests insert a few known keys in one order; ordering and growth bugs need particular key orders and sizes.',
 ['MapInstance.hpp','MapType.hpp','DynamicData.hpp','PairType.hpp'],
 [('sorted storage, binary search, growth','MapInstance.hpp'),('key access','DynamicData.hpp operator[], at, insert, has_key')],['size()','has_key()','at()','operator[]'],
 [('key/value storage','pairs kept sorted by key hash','MapInstance.hpp')])
p('C07','A sequence behaves as a bounded vector',
 'After any history of pushes, resizes and element writes a sequence holds exactly the elements of a reference vector: pushed values in order, default values for slots created by growth, earlier elements preserved. A push or resize beyond the bound fails and leaves the sequence unchanged; access beyond the size fails.',
 ['inputs','histories'],'all histories of bounded length of push/resize/write/assign on bounded and unbounded sequences of primitive, string, aggregate and collection elements',
 'Tests push a few constants; loss of elements happens only at particular capacities, element kinds and operation orders.',
 ['SequenceInstance.hpp','SequenceType.hpp','DynamicData.hpp'],
 [('growth, push, resize','SequenceInstance.hpp'),('bound checks','SequenceInstance.hpp push; DynamicData.hpp resize')],['size()','operator[]','as_vector()'])
p('C08','Strings keep their contents and their bounds',
 'A string, wide string or UTF-16 string value of any length and content (including embedded zero characters) is stored and returned unchanged. A write longer than the bound of a bounded string keeps exactly the prefix that fits.',
 ['inputs','configurations'],'all contents and lengths up to the bound, all bounds up to a limit, all three string kinds',
 'Tests use a few literals; off-by-one bounds and content-dependent loss show up only at particular lengths or characters.',
 ['StringType.hpp','DynamicData.hpp'],
 [('bounded assignment','DynamicData.hpp value(const T&)'),('string instances','StringType.hpp')],['value<T>()','size()','bounds()'])
p('C09','Arrays have a fixed size, all elements addressable, no aliasing',
 'An array, including a multidimensional one, has exactly its declared number of elements in each dimension, each index tuple denotes a distinct element that keeps the last value written to it, and every index outside the dimension is rejected.',
 ['inputs','configurations'],'all dimension lists up to a limit, all element kinds, all (also huge and negative) indexes',
 'Tests use small fixed arrays with valid indexes; overlap and bounds errors depend on the dimensions and element size.',
 ['ArrayType.hpp','DynamicData.hpp'],
 [('element addressing','ArrayType.hpp get_instance_at'),('dimension order','ArrayType.hpp constructors'),('bounds check','DynamicData.hpp operator[]')],['operator[]','size()'])
p('C10','Structure members: layout, lookup and inheritance',
 'In every structure, members of any types never overlap and fit in the structure; lookup by name and by index reach the same member; names are unique (a duplicate is rejected). A derived structure has all members of its parent, in order, before its own, with the same values reachable through the parent.',
 ['configurations','inputs'],'all structures up to a number of members with arbitrary member types, all inheritance chains up to a depth',
 'Tests check the memory layout of one or two structures; padding errors depend on the exact order of member types.',
 ['StructType.hpp','AggregationType.hpp','Member.hpp','DynamicData.hpp'],
 [('offset computation','StructType.hpp add_member, calculate_memory_size'),('member tables','AggregationType.hpp')],['member offsets','operator[]'])
p('C11','A union always exposes exactly the member its discriminator selects',
 'At any time the discriminator, the reported current case and the only readable member of a union agree: writing a member selects it, and setting the discriminator follows the declared labels, using the default member for any unlisted value and changing nothing when the union has no default. Discriminator values that would switch from the selected member to a different one are rejected, and so is reading a member that is not selected; labels are unique and each belongs to one case.',
 ['inputs','histories','configurations'],'all unions up to a number of cases with arbitrary labels and discriminator kinds, with and without default; all histories of select, write and discriminator assignment; all discriminator values',
 'Tests use fixed label sets and a few discriminator values; wrong selection depends on the label value, its width, its sign and the case order.',
 ['UnionType.hpp','DynamicData.hpp','Member.hpp'],
 [('label to member table','UnionType.hpp add_case_member, parse_labels'),('selection','UnionType.hpp select_case, select_disc, get_current_selection')],['d()','current_case()','operator[]'],
 [('discriminator','stored label of the active member','UnionType.hpp')])
p('C12','Enumerations hold only declared values and number enumerators correctly',
 'Every enumerator has the value given, or one more than the previous one; names and values are unique; a value written to an enumeration variable is accepted exactly when it is declared, and any other value is rejected without changing it. Copies and clones of an enumeration type have the same enumerators and keep accepting further ones with the right numbering.',
 ['inputs','configurations'],'all enumerations up to a number of enumerators with arbitrary values, for 8, 16 and 32 bit underlying types; all values assigned',
 'Tests use two or three fixed enumerators.',
 ['EnumerationType.hpp','EnumeratedType.hpp','DynamicData.hpp'],
 [('enumerator table','EnumerationType.hpp add_enumerator'),('validity check','EnumeratedType.hpp is_allowed_value; DynamicData.hpp value(const T&)')],['value<T>()','enumerators()'])
p('C13','Aliases are transparent',
 'Declaring a type through any chain of aliases gives data that behaves exactly like data of the aliased type: same reads, writes, sizes, equality, hash, conversions and failures, at the root or nested anywhere. Compatibility between two types does not change when either one is replaced by an alias of it.',
 ['configurations','inputs'],'all alias chains up to a depth around all bounded types, in every position of a type tree; all values',
 'Tests alias a few types at the root.',
 ['AliasType.hpp','DynamicData.hpp','TypeConsistency.hpp'],
 [('alias resolution','AliasType.hpp rget; DynamicData.hpp ReadableDynamicDataRef constructor; is_compatible of every type')],['all data operations','is_compatible()'])
p('C14','Type compatibility is classified correctly',
 'Every type is fully consistent with itself and with a clone of itself; types of different families are inconsistent; differences in bound, width, member count, member name, array size and member type are reported with exactly the corresponding flags, combined over nested types. Full equality of two types is reported in both directions or in neither.',
 ['configurations'],'all pairs of bounded types (arbitrary bounds, sizes, member lists and labels, nested)',
 'Tests compare a list of hand-picked pairs; classification errors are pair specific.',
 ['TypeConsistency.hpp','PrimitiveType.hpp','StringType.hpp','ArrayType.hpp','SequenceType.hpp','MapType.hpp','StructType.hpp','UnionType.hpp','EnumerationType.hpp','AliasType.hpp','PairType.hpp'],
 [('consistency lattice','TypeConsistency.hpp'),('pairwise classification','every *Type.hpp is_compatible')],['is_compatible()'])
p('C15','Conversion between compatible types preserves the common content',
 'Constructing data of one type from data of a compatible type either succeeds or is rejected with an exception (which only maps whose key types differ may cause), never touches memory outside either value, and yields, for each element or member both have, the converted value of the source; content that does not fit the target bound is truncated and content the source lacks has its default value.',
 ['inputs','configurations'],'all pairs of compatible bounded types and all source values',
 'Tests convert a few pairs with fixed values; truncation and offset errors need particular type pairs and lengths.',
 ['DynamicData.hpp','PrimitiveType.hpp','StringType.hpp','ArrayType.hpp','SequenceInstance.hpp','MapInstance.hpp','StructType.hpp','UnionType.hpp'],
 [('cross-type copy','every *Type.hpp copy_instance_from_type')],['DynamicData(other, type)'])
p('C16','Types are values: copies are complete, independent and outlive their origin',
 'A copied, cloned or moved type describes exactly the same type as its origin; later changes to, or destruction of, the origin affect neither the copy, nor types that contain it, nor data created from it.',
 ['configurations','histories'],'all bounded types, all forms of copying, any later change to or destruction of the origin',
 'Tests keep the original types alive and unchanged while using copies.',
 ['DynamicType.hpp','StructType.hpp','UnionType.hpp','EnumerationType.hpp','EnumeratedType.hpp','AliasType.hpp','DynamicData.hpp'],
 [('type cloning','every *Type.hpp clone'),('shared ownership','DynamicType.hpp DynamicType::Ptr'),('data keeps its type alive','DynamicData.hpp ReadableDynamicDataRef constructor')],['is_compatible()','data operations'])
p('C17','Arithmetic, logic and comparison operators match the C++ types',
 'For every operator available on data instances of a primitive type, the result (value and type) is that of the same built-in C++ operator on the stored values; compound and increment forms store that result and return the stored value. Operators never modify their right operand, and an operator that is not available for a type is rejected.',
 ['inputs'],'all operators, all primitive types for which they are available, all pairs of values for which the C++ operation is defined',
 'Tests use random samples of a few types; a wrong operator or a wrong width for one type shows only for some operand values.',
 ['DynamicDataImpl.hpp','DynamicData.hpp'],
 [('operator dispatch on the kind','DynamicDataImpl.hpp DYNAMIC_DATA_*_SWITCH macros')],['operators of DynamicData'])
p('C18','Casting data to a C++ value equals the C++ conversion',
 'Casting data of any primitive or enumeration type to any arithmetic C++ type gives the C++ conversion of the stored value, and casting it to a string gives its decimal text; casting a narrow string to a string returns it. Casting data of any other type is rejected.',
 ['inputs'],'all source kinds, all target types, all stored values for which the C++ conversion is defined',
 'Tests cast a few constants.',
 ['DynamicData.hpp','DynamicDataImpl.hpp'],
 [('kind dispatch','DynamicData.hpp _cast; DynamicDataImpl.hpp cast<std::string>')],['cast<T>()'])
p('C19','Misuse is rejected with an exception and changes nothing',
 'Using an operation with a type, name, index, key, bound or value that its documented precondition excludes raises an exception, and the data instance afterwards still holds the value it had.',
 ['inputs','configurations'],'all kinds of data, all operations whose precondition is violated, arbitrary values and offending arguments',
 'Tests cover a fraction of the (type, operation) pairs and rarely check that nothing changed.',
 ['DynamicData.hpp','DynamicDataImpl.hpp','Assert.hpp','StructType.hpp','UnionType.hpp'],
 [('precondition checks','Assert.hpp xtypes_assert at each entry point')],['exceptions','value after the failure'])
p('C20','Traversal visits every node exactly once, in order',
 'Depth-first traversal of a data instance visits the root and each member, element, pair and selected union member exactly once, parents before children, in declaration or index order, with the right depth, parent, index and member, and stops when the visitor asks for it. Iterators over a collection, and over the members of a structure, yield each element in order, exactly as many as its size.',
 ['inputs','configurations'],'all bounded type trees with arbitrary collection sizes and values; any stopping point',
 'Tests iterate over fixed examples.',
 ['DynamicData.hpp','Instanceable.hpp','StructType.hpp','ArrayType.hpp','SequenceType.hpp','MapType.hpp','UnionType.hpp','PairType.hpp'],
 [('recursive traversal','every *Type.hpp for_each_instance'),('iterators','DynamicData.hpp Iterator, MemberIterator')],['for_each()','begin()/end()','items()'])
p('C21','New data has the documented default value',
 'A newly created data instance has every number equal to zero, every boolean false, every string and collection empty, every array element, structure member and inherited member at its own default, an enumeration at a declared value, and, for a union with a default case, that case selected with its default value.',
 ['configurations'],'all bounded types',
 'Tests inspect a few fresh instances; memory that happens to be zero hides missing initialisation.',
 ['DynamicData.hpp','PrimitiveType.hpp','StringType.hpp','ArrayType.hpp','StructType.hpp','UnionType.hpp','EnumerationType.hpp'],
 [('instance construction','every *Type.hpp construct_instance')],['value<T>()','size()','d()'])
p('C22','UTF-8/UTF-16 conversion is correct, lossless and always terminates',
 'Converting any well-formed text between UTF-8 and UTF-16 gives the standard encoding of the same code points, whatever its length, and converting back returns the original text. Malformed or truncated input ends in an error, never in a hang, in made-up characters or in out-of-range access.',
 ['inputs'],'all code points and mixed-width code unit strings up to a bounded length around the internal buffer boundary, all malformed strings up to a bounded length',
 'Tests convert three literals; failures need a multi-byte character at a buffer boundary or a truncated sequence.',
 ['StringConversion.hpp'],[('chunked codecvt loop','StringConversion.hpp code_conversion_tool')],['code_conversion_tool()'])
p('C23','Module scopes resolve names to the right declaration',
 'In any tree of modules, a declared type, constant, alias, structure, union or enumeration is found under its qualified name from the declaring module and its descendants, exactly the declared entity is returned, the innermost declaration wins, names never leak into sibling scopes, and a name that is already declared in the same scope as the same kind of entity is refused.',
 ['configurations','histories'],'all module trees up to a depth and size, all declaration orders, all qualified and unqualified names queried from any module',
 'Tests look up a few names in one fixed tree.',
 ['idl/Module.hpp'],[('symbol resolution','idl/Module.hpp resolve_scope, PairModuleSymbol'),('declaration tables','idl/Module.hpp inner_, structs_, aliases_, constants_types_')],['Module queries'])
p('C24','Generated IDL declares exactly the given type',
 'The IDL text generated for a structure, union, enumeration, alias or constant declares each member with its name, type, bounds, array dimensions, labels, default case, base type and enumerators exactly as in the object it was generated from, once each and in order; a constant is written with its type and its value.',
 ['configurations'],'all bounded types with arbitrary member types, bounds, dimensions and labels',
 'Tests compare a few complete documents (and most of them need the grammar library); each combination of member type and modifier prints differently.',
 ['idl/generator.hpp'],[('text generation','idl/generator.hpp structure, unionStr, enumeration, aliase, type_name, label_value')],['generated text'])
p('C25','Generated IDL declares everything before it is used',
 'In the IDL generated for a module with any dependencies between its structures, unions, aliases and enumerations, every named type is declared exactly once, in its own module, and before its first use, and the names in a declaration resolve to the types they stand for, whatever the order in which the types were added (modules that depend on each other mutually excluded: IDL generated here does not reopen modules).',
 ['configurations'],'all dependency graphs between a bounded number of types in all insertion orders and module placements',
 'Tests generate one or two documents; ordering bugs depend on the shape of the dependency graph.',
 ['idl/generator.hpp','idl/generator_deptree.hpp'],[('dependency ordering','idl/generator_deptree.hpp'),('module generation','idl/generator.hpp module')],['generated text'])
p('C26','The textual dump shows every node with its value',
 'The text form of a data instance has one line per node of the tree, indented by depth, with the member name or index, the type name and, for integers, booleans, characters and strings, the exact value.',
 ['inputs','configurations'],'all bounded types and values',
 'Tests print data without checking the text.',
 ['DynamicDataImpl.hpp'],[('tree printer','DynamicDataImpl.hpp to_string')],['to_string()'])
p('C27','The IDL parser evaluates and resolves every declaration faithfully',
 'Every valid IDL document is parsed into exactly the types it declares: constants evaluate as in IDL, names resolve by scope, and every construct yields the corresponding type.',
 ['programs'],'all IDL documents',
 'Tests parse a few fixed documents.',
 ['idl/parser.hpp','idl/grammar.hpp'],[('semantic actions over the syntax tree','idl/parser.hpp')],['Context, Module'])
p('C28','Concurrent readers are race free',
 'Reading operations (reading values, members and elements, comparing, hashing, copying from, converting, printing, traversing and iterating data; querying, comparing, traversing and instantiating types; looking names up in modules and generating text from them) can be performed by any number of threads at once on the same unchanging data, types and modules: none of them writes memory that another reader can see, unless that access is synchronised. Reading also leaves the value as it was.',
 ['schedules','inputs','configurations'],'all interleavings of readers (any unsynchronised write of shared memory on any path is a race with the same reader in another thread), all bounded types, values and module trees',
 'Tests are single-threaded; a hidden cache or a static scratch buffer behaves perfectly in all of them.',
 ['DynamicData.hpp','DynamicDataImpl.hpp','DynamicType.hpp','StructType.hpp','UnionType.hpp','AggregationType.hpp','SequenceInstance.hpp','MapInstance.hpp','StringConversion.hpp','idl/Module.hpp','idl/generator.hpp'],[('reading through const references','DynamicData.hpp ReadableDynamicDataRef'),('type queries','*Type.hpp const members'),('name lookup','idl/Module.hpp resolve_scope, has_*, structure, ...'),('text generation','idl/generator.hpp, DynamicDataImpl.hpp to_string')],['results of the reads under ThreadSanitizer'])
open(OUT,'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
print(len(P))

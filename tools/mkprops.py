import json
C='frozen-collections-core/src/'
FM=C+'facades/frozen_map.rs'; FS=C+'facades/frozen_set.rs'
SM=C+'specialized_maps/'; SS=C+'specialized_sets/'; AN=C+'analyzers/'
P=[]
def p(id,title,st,over,text,why,files,mech,obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','A frozen map answers every lookup like a dictionary, for any key type and hasher',
  'For any set of distinct keys of any type and any hash function that is consistent with key equality, looking up a key in a frozen map yields exactly the value it was built with, and looking up any other key yields nothing. get, get_key_value, get_mut and contains_key always agree, and the key handed back is the stored one. The map has as many entries as it was given, however the hash codes collide.',
  ['inputs','configurations'],'every number of entries, every assignment of 64-bit hash codes to keys (including total collisions), every query',
  'The unit tests build maps of a handful of literals with a random SipHash, so a given table size, slot boundary or collision pattern is hit by chance; correctness has to hold for every hash-code vector.',
  [FM,SM+'common_map.rs',SM+'hash_table.rs',SM+'scanning_map.rs',AN+'hash_code_analyzer.rs'],
  [('choice of layout by number of entries',FM+' new'),('choice of the number of hash slots',AN+'hash_code_analyzer.rs'),('grouping of entries by slot',SM+'hash_table.rs')],['get','get_key_value','get_mut','contains_key','len'])
p('C02','A frozen map with u32 keys answers every lookup like a dictionary',
  'For any set of distinct u32 keys, dense or sparse, at either end of the number range and in any order, looking up a key in a frozen map yields exactly the value it was built with, and looking up any other u32 yields nothing. get, get_key_value, get_mut and contains_key agree.',
  ['inputs'],'every set of distinct u32 keys, every order of the entries, every u32 query',
  'The tests use a few small literal keys; off-by-one and overflow errors sit at particular keys (gaps, the ends of the u32 range) out of 2^32 each.',
  [FM,SM+'integer_map.rs',SM+'integer_range_map.rs',AN+'int_key_analyzer.rs',SM+'hash_table.rs'],
  [('detection of contiguous keys',AN+'int_key_analyzer.rs'),('direct indexing',SM+'integer_range_map.rs'),('hash table keyed by the integer',SM+'integer_map.rs')],['get','get_key_value','get_mut','contains_key'])
p('C03','A frozen map with String keys answers every lookup like a dictionary',
  'For any set of distinct String keys and any hasher, looking up a key in a frozen map yields exactly the value it was built with, and looking up any other string yields nothing, whatever its length and whatever it shares with the stored keys. get, get_key_value, get_mut and contains_key agree.',
  ['inputs','configurations'],'every set of distinct strings (lengths and contents), every hasher, every query string, longer or shorter than all keys',
  'Which part of a key is hashed is inferred from the keys: the tests sample a few word lists, and a wrong inference only shows for particular combinations of lengths, shared prefixes and queries.',
  [FM,AN+'slice_key_analyzer.rs',SM+'left_slice_map.rs',SM+'right_slice_map.rs',SM+'length_map.rs',SM+'common_map.rs',C+'traits/slice_hash.rs'],
  [('inference of the distinguishing part of the keys',AN+'slice_key_analyzer.rs'),('hashing part of a key',C+'traits/slice_hash.rs'),('lookup by length',SM+'length_map.rs')],['get','get_key_value','get_mut','contains_key'])
p('C04','A frozen set contains exactly the values it was built from',
  'For any set of distinct values of any type (u32, String or any other) and any consistent hasher, a frozen set contains exactly those values: contains and get agree, get hands back the stored value, and the size is the number of values. This holds for any query.',
  ['inputs','configurations'],'every set of distinct values, every hash-code assignment, every query',
  'The set facade tests cover a few literals; each value type goes through its own inference and its own layout.',
  [FS,SS+'common_set.rs',SS+'integer_set.rs',SS+'integer_range_set.rs',SS+'left_slice_set.rs',SS+'right_slice_set.rs',SS+'length_set.rs',SS+'scanning_set.rs'],
  [('choice of layout',FS+' new'),('sets are maps to the unit value',SS)],['contains','get','len'])
p('C05','Repeated keys never make a map invent, lose or misattribute a key',
  'When a frozen map or set is built from entries some of whose keys are equal, every key that was given is found with one of the values given for that key, and no key that was not given is found. Building from repeated keys never panics.',
  ['inputs'],'every sequence of keys, with any pattern of repetitions, and every query',
  'No test builds from repeated keys; the inference of dense integer keys and of distinguishing substrings rests on counts that repetitions distort.',
  [FM,FS,AN+'int_key_analyzer.rs',AN+'slice_key_analyzer.rs',AN+'hash_code_analyzer.rs',SM+'integer_range_map.rs'],
  [('inference from the keys',AN),('grouping of entries by slot',SM+'hash_table.rs')],['get','contains_key','contains'])
p('C06','The specialised hash maps and sets answer every lookup like a dictionary',
  'For any distinct keys, each specialised collection (general hashing, integer hashing for every integer type, hashing by length, linear scan) finds exactly the keys it was given, each with its own value, through every lookup method and also through a borrowed form of the key. The capacity parameter does not change the answers as long as the entries fit.',
  ['inputs','configurations'],'every set of distinct keys including negative integers and keys of equal length, every hash code assignment, every capacity type, every query',
  'The unit tests try a few positive literals per type; sign extension, truncation and collisions need particular keys.',
  [SM+'common_map.rs',SM+'integer_map.rs',SM+'length_map.rs',SM+'scanning_map.rs',SM+'hash_table.rs',SS+'common_set.rs',SS+'integer_set.rs',SS+'length_set.rs',SS+'scanning_set.rs'],
  [('slot of a hash code',SM+'hash_table.rs'),('conversion of integers to hash codes',SM+'integer_map.rs')],['get','get_key_value','get_mut','contains_key','contains'])
p('C07','Integer-range collections accept exactly contiguous keys and index them exactly',
  'An integer-range map or set can be built from any permutation of a contiguous run of integers of any integer type, wherever the run lies, and then finds each key of the run with its own value and no other key. It panics when the keys are not contiguous or are repeated, and an empty one finds nothing.',
  ['inputs'],'every integer type, every base (including the extremes of the type), every permutation, every query; every non-contiguous key vector',
  'One unit test with i32 and five bases; overflow at the ends of a type and the distance between a negative minimum and a positive key need particular values.',
  [SM+'integer_range_map.rs',SS+'integer_range_set.rs'],
  [('contiguity check and sorting',SM+'integer_range_map.rs from_vec'),('distance from the minimum',SM+'integer_range_map.rs offset')],['get','get_key_value','get_mut','contains_key'])
p('C08','Substring-hashing collections are exact for any range and any key length',
  'A map or set that hashes only a left- or right-justified range of its keys finds exactly the keys it was given, each with its own value, whatever the range and whatever the lengths of keys and queries, including those shorter than the range. Neither building nor looking up panics or reads outside a key.',
  ['inputs','configurations'],'every range, every set of distinct keys shorter or longer than it, every hasher, every query',
  'The tests never use keys shorter than the range and check a single range; out-of-range reads are unsafe and silent.',
  [SM+'left_slice_map.rs',SM+'right_slice_map.rs',SS+'left_slice_set.rs',SS+'right_slice_set.rs',C+'traits/slice_hash.rs'],
  [('fallback code for short keys',SM+'left_slice_map.rs get_hash_info'),('translation of the right-justified range',SM+'right_slice_map.rs'),('unchecked slicing',C+'traits/slice_hash.rs')],['get','get_key_value','get_mut','contains_key','contains'])
p('C09','get_many_mut hands out all the values or nothing, and never aliases',
  'get_many_mut returns, for distinct keys that are all present, one mutable reference per key, in the order of the keys, to that key\'s own value; no two of them are to the same value. It returns None exactly when a key is missing or two of the keys are equal, and leaves the map unchanged by itself.',
  ['inputs'],'every map, every array of queries (present, missing, repeated, in any order)',
  'Documentation examples try three arrays; aliased mutable references are undefined behaviour no assertion notices.',
  [FM,SM+'common_map.rs',SM+'integer_map.rs',SM+'integer_range_map.rs',SM+'length_map.rs',SM+'left_slice_map.rs',SM+'right_slice_map.rs',SM+'scanning_map.rs'],
  [('pairwise comparison of the queries',FM+' get_many_mut'),('unchecked fill of the result',FM+' get_many_mut')],['get_many_mut'])
p('C10','Map iteration visits every entry exactly once and reports its length exactly',
  'Iterating over a map (entries, keys, values, or a for loop over a reference) yields every entry exactly once and nothing else; the three orders agree. At every point of a partial iteration, len, size_hint and count equal the number of items still to come, a clone continues from the same point independently, and after the end next keeps returning None.',
  ['inputs','histories'],'every map, every number of items consumed before the question is asked',
  'Tests at most iterate fully once; the guarantees are about every intermediate point.',
  [SM+'iterators.rs',FM],[('position in the entry array',SM+'iterators.rs'),('reinterpretation of iterators',FM+' iter/keys/values')],['next','len','size_hint','count','fold','clone'])
p('C11','Set iteration visits every value exactly once and reports its length exactly',
  'Iterating over a set by reference or by value yields every value exactly once and nothing else. At every point of a partial iteration, len, size_hint and count equal the number of values still to come, a clone continues from the same point independently, and after the end next keeps returning None.',
  ['inputs','histories'],'every set, every number of values consumed before the question is asked',
  'Tests iterate at most once, fully; consuming iteration of a partly consumed set is not tested.',
  [SS+'iterators.rs',FS],[('position in the entry array',SS+'iterators.rs')],['next','len','size_hint','count','clone'])
p('C12','Set algebra yields exactly the mathematical result, each value once',
  'union, intersection, difference and symmetric difference of two sets, and the operators | & - ^, contain exactly the values set theory prescribes and yield each of them once, whichever kind of set (frozen, HashSet, BTreeSet) is on the right and whichever operand is larger. At every point size_hint bounds the number of values still to come, clones of the iterators continue from the same point, and the iterators stay exhausted.',
  ['inputs','configurations','histories'],'every pair of sets, every mix of kinds, every point of the iteration',
  'Tests check one or two literal pairs; duplicates and omissions depend on relative sizes and overlap.',
  [SS+'iterators.rs',SS+'set.rs',FS,SS+'common_set.rs'],[('iteration of the larger/smaller operand first',SS+'iterators.rs'),('operators',FS)],['union','intersection','difference','symmetric_difference','|','&','-','^'])
p('C13','Set relations decide subset, superset, disjointness and equality exactly',
  'For any two sets, is_subset, is_superset and is_disjoint answer as set theory prescribes, including for empty and for equal sets and for mixed kinds of sets. Two sets are equal exactly when they contain the same values, whatever the order and layout, and equality is symmetric.',
  ['inputs','configurations'],'every pair of sets, every mix of kinds',
  'Tests check a few literal pairs; the shortcuts depend on the relative sizes.',
  [SS+'set_ops.rs',SS+'set.rs',FS,SS+'common_set.rs'],[('size shortcuts',SS+'set_ops.rs')],['is_subset','is_superset','is_disjoint','=='])
p('C14','Maps are equal exactly when they hold the same entries',
  'Two maps compare equal exactly when they have the same keys with equal values, whatever the order they were built in and whatever hasher each uses. A difference in a single key, a single value or the size makes them unequal, and equality is symmetric.',
  ['inputs','configurations'],'every pair of maps, every order of building, every pair of hashers',
  'Hardly tested: equality of maps laid out differently depends on the lookups of one over the keys of the other.',
  [FM,SM+'common_map.rs',SM+'integer_map.rs',SM+'integer_range_map.rs',SM+'length_map.rs',SM+'left_slice_map.rs',SM+'right_slice_map.rs',SM+'scanning_map.rs'],[('size check, then lookup of each entry in the other',FM+' eq')],['=='])
p('C15','Capacity limits are exact: a map never silently truncates its indices',
  'A frozen map or set of any size finds all its keys, with no change of behaviour around 255, 256 or 300 entries. A specialised collection with an explicit capacity type holds every key up to its stated capacity, and panics when given more instead of losing or mixing up entries.',
  ['inputs','configurations'],'every number of entries around the limits, every distribution over slots, every query',
  'No test builds a map of more than a few dozen entries; index truncation only shows past 255 entries.',
  [SM+'hash_table.rs',FM,FS],[('choice of the index width',FM+' new'),('capacity check',SM+'hash_table.rs new')],['from_vec','get','contains'])
p('C16','Changing one value changes only that value',
  'Writing through get_mut, index assignment or get_many_mut to one key\'s value is seen by every later lookup and iteration of that key, and no other key\'s value changes. Keys, size and membership stay the same.',
  ['inputs','histories'],'every map, every key written, every key read afterwards',
  'Tests read back at most the value just written, never the others.',
  [FM,SM+'common_map.rs',SM+'integer_map.rs',SM+'integer_range_map.rs',SM+'length_map.rs',SM+'left_slice_map.rs',SM+'right_slice_map.rs',SM+'scanning_map.rs'],[('mutable lookup',FM+' get_mut')],['get_mut','IndexMut','get_many_mut'])
p('C17','Indexing a map panics exactly when the key is missing',
  'map[key] yields the value of a present key, for reading and for writing, and panics when the key is missing. It never yields another key\'s value.',
  ['inputs'],'every map, every query',
  'Indexing is documented but hardly tested, and never with missing keys.',
  [FM,SM+'common_map.rs',SM+'integer_map.rs',SM+'integer_range_map.rs',SM+'length_map.rs',SM+'left_slice_map.rs',SM+'right_slice_map.rs',SM+'scanning_map.rs'],[('lookup and unwrap',FM+' index')],['Index','IndexMut'])
p('C18','Every key and value is dropped exactly once, and clones are independent',
  'Every key and value given to a map or set is dropped exactly once over its lifetime, whether the collection is dropped, cloned, consumed by iteration fully or partly, or its construction panics; nothing is leaked. A clone answers as the original does, and changing or dropping either leaves the other intact.',
  ['inputs','histories'],'every collection, every point at which a consuming iteration is abandoned, either order of dropping original and clone',
  'Tests use values without destructors; double drops and leaks are silent.',
  [FM,FS,SM+'hash_table.rs',SM+'integer_range_map.rs',SS+'iterators.rs'],[('moving entries while grouping by slot',SM+'hash_table.rs new'),('reinterpretation of the entry vector',FM+' new_u32_map/new_string_map'),('derived Clone',FM)],['clone','drop','into_iter'])
p('C19','All ways of building a collection from the same entries are equivalent',
  'Building a map or set from an array, a vector or an iterator, with the default or a given hasher, yields collections that answer every lookup alike, have the same size and compare equal. The order of the entries does not matter, and a default collection is empty.',
  ['inputs','configurations'],'every list of entries, every order, every constructor',
  'Constructors are tested one by one on different literals, never against each other.',
  [FM,FS,SM,SS],[('constructors',FM),('constructors',SM),('constructors',SS)],['from','from_vec','from_iter','with_hasher','from_vec_with_hasher','from_iter_with_hasher','default'])
p('C20','Inconsistent hashing or equality never leads to undefined behaviour',
  'Even if the hasher or the equality of the key type is inconsistent (different answers at each call), building, looking up, iterating and comparing never read or write outside the map\'s memory, never use uninitialised memory and never hand out two mutable references to one value by themselves. Entries may be found or not and calls may panic, but the size and the iteration still cover every entry exactly once.',
  ['inputs','fault_sequences'],'every sequence of answers from the hasher and the equality',
  'No test uses a misbehaving key; the documentation promises encapsulation, while lookups use unchecked indexing.',
  [SM+'hash_table.rs',SM+'common_map.rs',FM],[('unchecked indexing by slot',SM+'hash_table.rs get_hash_info'),('code computed twice while building',SM+'common_map.rs')],['get','get_many_mut','iter'])
p('C21','Length and substring-hash traits describe the object they are asked about',
  'The length trait reports the same length as the object\'s own length, for strings (in bytes), C and OS strings, slices, vectors, the standard collections and through boxes and reference counts, and is_empty is true exactly for length zero. Hashing a range of a string or byte slice depends exactly on the bytes of that range and equals hashing those bytes.',
  ['inputs'],'every content and length, every range inside it',
  'Not tested at all for most types.',
  [C+'traits/len.rs',C+'traits/slice_hash.rs'],[('delegation to the inherent length',C+'traits/len.rs'),('hashing of the sub-slice',C+'traits/slice_hash.rs')],['len','is_empty','hash'])
p('C22','The frozen_map! macro builds exactly the map its entries say',
  'A map written with frozen_map! contains exactly the listed keys, each with its listed value, whichever specialised type the macro picks for the keys (few, dense, sparse, integer of any type, string or other). Every lookup of any query answers accordingly, and the values may be any expressions.',
  ['programs','inputs'],'every invocation (number, type, order and density of keys), every query',
  'The macro is exercised by a few invocations whose results are queried with a few keys; some layouts did not even compile.',
  [C+'macros/frozen_map.rs',AN+'int_key_analyzer.rs',AN+'slice_key_analyzer.rs'],[('choice of the specialised type at compile time',C+'macros/frozen_map.rs')],['frozen_map!'])
p('C23','Debug output lists every entry exactly once',
  'Formatting a map or a set, or one of their iterators, with {:?} lists every entry (still to come) exactly once in iteration order, in the standard notation for maps or lists, and nothing else. Formatting does not consume the iterator or change the collection.',
  ['inputs','histories'],'every collection, every point of a partial iteration',
  'Tests compare one or two literal strings.',
  [SM+'iterators.rs',SS+'iterators.rs',SM+'hash_table.rs',FM],[('debug builders over clones',SM+'iterators.rs')],['Debug'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))

"""Writes bounds.json (what check.py reports as the bounds of each property) and MANIFEST.json."""
import json
OUT = 'larger collections, longer keys and other codes than stated; hash functions that depend on the history of calls (C20 excepted); unwinding after a panic (a panic ends the path)'
B = {
'C01': ('0-5 entries (thorough: 7) of a key type with arbitrary hash codes (2-64 bits each, one more for an absent key); 40-300 entries with concrete codes for the stored keys and an arbitrary code for the absent one; queries: every stored key and an absent key; maps of 260 concrete keys looked up at places around 0, 130, 255 and the end', OUT),
'C02': ('0-4 (thorough: 6) arbitrary distinct u32 keys and any u32 query; runs of up to 12 (25) keys starting anywhere, also with one key moved; 40-300 concrete keys with arbitrary queries of up to 12 bits', OUT),
'C03': ('up to 5 (6) distinct strings of up to 4 characters, each any of 2-128 values; hashers: weighted byte sum with arbitrary weights; word lists of up to 300 keys with every key, and changed, cut and extended keys as queries', OUT),
'C04': ('the bounds of C01, C02 and C03 for sets, and sets of 260 of each kind', OUT),
'C05': ('up to 5 entries, any of them equal: arbitrary u32 keys, strings of up to 3 characters, keys with arbitrary codes; maps and sets, frozen and specialised', OUT),
'C06': ('CommonMap/Set 0-4 entries with arbitrary codes, up to 300 with concrete codes; IntegerMap/Set for all twelve integer types, 0-4 arbitrary keys; LengthMap/Set with up to 5 strings; ScanningMap/Set up to 8 entries; u8, u16, u32, u64 and usize as capacity; 260 concrete entries of each kind, looked up at places around 0, 130, 255 and the end', OUT),
'C07': ('all twelve integer types; any run of up to 4 (5) keys in any order and any query; 7-25 keys rotated or reversed; all 256 keys of u8 and i8; up to 4 (5) arbitrary keys, which must be accepted exactly when they are a run; 300 keys with a hole or a duplicate', OUT),
'C08': ('up to 4 keys of up to 3 (4) bytes, arbitrary contents, any range a..b with b up to 4 (5) and beyond every key, up to usize::MAX; queries of any length up to one more than the keys; 40 and 300 concrete keys; 260 concrete keys', OUT + '; ranges whose start lies behind their end'),
'C09': ('all 13 kinds of maps, 2-5 entries, every array of 0-3 (4) queries, stored or missing; 260 concrete entries of each kind, queries around 0, 130, 255 and the end', OUT),
'C10': ('all 13 kinds of maps, 0-5 (9) entries, every point of the iteration, 6 ways of finishing; 255, 256, 300, 1000 entries; 260 entries of each kind (three points of the iteration)', OUT),
'C11': ('all 13 kinds of sets, 0-5 (9) values, by reference and by value, every point of the iteration; 255, 256 and 300 values; 260 values of each kind (three points of the iteration)', OUT),
'C12': ('every pair of subsets of a universe of 3-5 values, for 20 pairs of kinds of sets; pairs of 1-3 arbitrary integers; every point of the iteration; sets of up to 260 values of each kind, subsets by place', OUT),
'C13': ('every pair of subsets of a universe of 3-5 values, for 27 pairs of kinds of sets; pairs of up to 3 arbitrary integers; 40 and 300 values that differ in one or in none; 260 values of each kind', OUT),
'C14': ('all kinds of maps, 0-5 entries with arbitrary 2-bit values, every key replaced, missing or added, three orders, two hashers; 40 and 300 entries; values that differ from themselves; 260 entries of each kind, three places changed', OUT),
'C15': ('254, 255, 256, 300 (512, 1000) entries: every key, and an arbitrary absent key of 10-32 bits; capacity types u8, u16, usize; 65536 (65535, 70000) u32 keys, dense and sparse, looked up at places around 0, 32768 and the end; 65536 entries are refused by the capacity u16', OUT + '; capacity u32 and more exceeded'),
'C16': ('all 13 kinds of maps, 3-5 entries, every sequence of 1-2 (3) writes of arbitrary 16-bit values through the three ways of writing; every single write at 255 and 256 entries; 260 entries of each kind, writes around 0, 130, 255 and the end', OUT),
'C17': ('all 13 kinds of maps, 0-6 entries, every stored key and missing ones; any u32, i8, i64 or string of up to 3 characters as index; 260 entries of each kind', OUT),
'C18': ('all 13 kinds of maps and sets, 0-5 entries, with counted keys and values: dropped, cloned, changed, iterated by value up to every point; 260 entries (or values) of each kind: cloned, changed, dropped in either order, consumed from several places', OUT + '; what a panic in the middle of building leaves behind (no unwinding under the executor)'),
'C19': ('every way of building each of the 20 collections from the same 0-4 (5) entries in every order, through iterators with any permitted size hint; lookup of stored and missing keys; arbitrary 2-bit codes for 2-3 (5) keys; 60-260 entries of each kind in two orders', OUT),
'C20': ('up to 5 (20) calls of the hash function, the length and the equality answer arbitrarily (2 bits), later ones constantly; 0-4 (5, 40) entries; CommonMap/Set, ScanningMap, LengthMap, LeftSliceMap, RightSliceMap, FrozenMap/Set', OUT),
'C21': ('lengths of str, OsStr and slices up to 70000, of zero-sized elements up to usize::MAX; strings of 0-4 arbitrary characters, the standard collections with 0-6 and 255, 256 and 300 elements, also through pointers; hashing: 0-3 (5) arbitrary bytes and every range, 400 bytes with ranges of up to 260', OUT),
'C22': ('85 invocations of frozen_map! with 0-12 and 255-300 entries, keys of all integer types, string literals and expressions; every stored key, any integer, any string of up to 3 characters and any changed key as query', OUT),
'C23': ('all kinds of maps, sets and iterators (set operations included) with 0-5 entries at every point of the iteration; 255, 256 and 300 entries; {:#?} of up to 2 entries; 257 entries of each kind', OUT),
}
# (unchecked: the harnesses whose quick run also takes the IR without overflow checks and debug assertions)
EXTRA = {'C15': {'unchecked': '.'}, 'C07': {'unchecked': '.'}, 'C17': {'unchecked': '.'}, 'C10': {'unchecked': '.'}, 'C11': {'unchecked': '.'}, 'C12': {'unchecked': '.'},
         'C20': {'unchecked': '_fk2|_ck1|_ck_empty|_sk3|_fs_|_many|_set|_ls|_rl3'}, 'C08': {'unchecked': '.'}, 'C02': {'unchecked': '.'},
         'C22': {'unchecked': '.', 'crate': 'mac', 'compile_is_property': True}}
old = json.load(open('/verif/bounds.json'))
new = {}
for k, (b, o) in B.items():
    d = {x: y for x, y in old.get(k, {}).items() if x not in ('bounds', 'outside', 'unchecked')}
    d.update(EXTRA.get(k, {})); d['bounds'] = b; d['outside'] = o
    new[k] = d
json.dump(new, open('/verif/bounds.json', 'w'), indent=1)
CLAIMED = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23'.split()
import sys
if len(sys.argv) > 1: CLAIMED = sys.argv[1:]
checks = [dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} --thorough', technique='symbolic execution of LLVM IR + SMT (z3)', level='model_checking',
               level_note='Bounded: ' + B[p][0] + '. Within the bounds every path of the compiled crate is executed symbolically and every assertion, memory access and branch on undefined data is decided by z3; counterexamples are replayed on native builds.') for p in CLAIMED]
na = [dict(property=p, reason='no check yet') for p in B if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)

# the bounds in DESIGN.md
import re
d = open('/verif/DESIGN.md').read()
for k, (b, o) in B.items():
    d = re.sub(r'(### %s .*?\n)Bounds: .*?\n' % k, lambda m: m.group(1) + 'Bounds: %s. Outside: %s.\n' % (b, o), d, flags=re.S)
open('/verif/DESIGN.md', 'w').write(d)

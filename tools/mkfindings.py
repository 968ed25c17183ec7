"""Writes known-findings.jsonl (by hand, never at run time of a check)."""
import json, os
OPEN = [
    dict(id='P04-floor-ceil', property='P04', status='open', unit='P04.floor_ceil', inputs={'a': 65, 'm': {'b': '100000'}},
         what='floor() of a negative integral IBMFloat is one too small and ceil() of a non-negative integral IBMFloat one too large '
              '(ceil(IBMFloat 1.0) is 2, ceil(IBMFloat 0) is 1); the existing tests test_floor/test_ceil rely on it'),
]
FIXED = [
    ('P24', 'ce153bf', 'is_sorted ignored its key for ranges and sorted sets'),
    ('P04', 'cb169b4', 'order of an IBMFloat and an int beyond 2**53 or a Fraction was computed from rounded floats'),
    ('P04', 'e9927c1', 'IBMFloat.__eq__ compared IBMFloats by bytes and rationals after rounding'),
    ('P23', '211b8b7', 'extracting an inline or crossline containing a short trace raised instead of masking'),
    ('P23', '22e91e2', 'extracting header fields of the non-negative integer types raised KeyError'),
    ('P23', '778a06e', 'is_range_superset_of_range raised or lied on empty and single item ranges with a stride'),
    ('P07', 'd557260', 'fields which precede the start of the header were accepted'),
    ('P16', 'ca22b07', 'ReversedSequenceView.__reversed__ was not an iterator'),
    ('P16', 'a3a62cd', 'make_sorted_distinct_sequence(sense=None) consumed iterators twice'),
    ('P17', '8a39038', 'a cache directory which cannot be made prevented reading'),
    ('P17', '0494a31', 'a cached reader was served for another file of the same content, which it reopened by name'),
    ('P14', 'f1c5671', 'format_extended_textual_header dropped blank lines'),
    ('P18', '2426998', 'catalog_traces progress exceeded one and went backwards'),
    ('P22', '3fc4ea1', 'header keyword arguments which name an attribute but not a field were accepted'),
    ('P22', 'a54b119', 'pickling and deep-copying lost inherited header fields'),
    ('P06', 'cfad902', 'unpacking assigned values by declaration order rather than by name'),
    ('P24', 'a9f0f59', 'pairwise() of an empty series raised RuntimeError'),
]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.jsonl')
with open(p, 'w') as f:
    for d in OPEN:
        f.write(json.dumps(d) + '\n')
    for prop, c, what in FIXED:
        f.write(json.dumps(dict(property=prop, status='fixed', commit=c, entry='fixed: property={} {} {}'.format(prop, c, what))) + '\n')

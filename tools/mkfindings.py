#!/usr/bin/env python3
"""Writes known-findings.json (never run by a check)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, subject of the fix commit in /repo, what failed)
FIXED = [
    ('J03', 'fix: JSON number text with a zero significand and an exponent', 'number text 0e5 was written as e5, and -0E+5 as E+5'),
    ('J01', 'fix: JSON enums nested in an anonymous enum closed one object too many', 'an enum with neither label nor index holding an enum with a named variant was written with an extra }'),
    ('J01', 'fix: JSON map keys with a tag no longer leave their value internally tagged', 'a map whose key is a tagged value with a label, followed by a labelled record, tuple or tagged value, was written as an unclosed object'),
    ('J01', 'fix: JSON variants tagged as numbers or native JSON text', 'an enum variant with a label that is itself tagged NUMBER, JSON_VALUE or JSON_NUMBER failed with an invalid key error'),
    ('J04', 'fix: JSON written to a writer that accepts nothing is an error instead of being cut short', 'a writer returning Ok(0) made the rest of a fragment disappear and the call succeed'),
    ('L01', 'fix: labels keep their tag hint when cloned or made owned', 'a label with a tag lost the tag when it was computed and then cloned or made owned, so a buffered record lost the VALUE_IDENT of its labels'),
    ('B03', 'fix: collecting text or binary from a value that fails is an error instead of a panic', 'TextBuf::collect and BinaryBuf::collect panicked when the value itself failed to stream'),
    ('B02', 'fix: fragments given to an empty value buffer are an error instead of a panic', 'text_fragment or binary_fragment on an empty ValueBuf panicked'),
    ('B02', 'fix: tag hints neither complete a value buffer nor interrupt its text and binary', 'a tag hint alone made ValueBuf::is_complete true, and a tag hint between the fragments of a text made the next fragment an error'),
    ('N01', 'fix: nested streams keep the elements of sequences that are buffered', 'a sequence inside another container streamed flat to a recursive stream lost its element calls when it was buffered, so its elements reached the target as an unbalanced sequence'),
    ('N01', 'fix: nested streams accept records and tuples as variants of nested enums', 'an enum whose variant is an enum whose variant is a record or tuple panicked (assertion)'),
    ('N01', 'fix: nested streams end enums that have no variant', 'an enum without a variant overflowed the stack'),
    ('N01', 'fix: nested streams return the error of a value that fails after it was complete', 'a value that fails after streaming a whole value was reported as success'),
    ('D01', 'fix: serialize tagged values that have no label through serde', 'a tagged value without a label, such as an array, could not be serialized'),
    ('F01', 'fix: end the keys of maps nested in flattened values', 'the keys of a map nested in an entry of a flattened value were begun again instead of ended'),
    ('F01', 'fix: flatten enums inside of tagged values', 'flattening a tagged enum, such as an optional enum, panicked (subtract with overflow)'),
    ('F01', 'fix: concatenate numbers in complex map keys when flattening', 'a number inside a complex key of a flattened map replaced the label collected so far'),
    ('V01', 'fix: give values streamed as i64 when asked for a signed integer', '5i8.to_i16(), and to_i64 of any value that streams an i8 to i64 itself, gave nothing'),
    ('M01', "fix: don't format the name of an enum after an empty variant", 'an enum whose variant is or holds an empty record, tuple, sequence or map was followed by the name of the enum, e.g. V([])E'),
    ('G01', 'fix: report the tag of the field of a derived transparent newtype', 'tag() of a derived transparent newtype was always None, even where the value it streams has a tag, e.g. a number'),
    ('G01', 'fix: derive values for types named Option', 'deriving Value for a type named Option did not compile: the generated fn tag() -> Option<Tag> named that type'),
    ('R01', 'fix: a begin a value buffer has no room for leaves nothing open', 'without alloc, a begin refused by a full ValueBuf stayed on its stack, so the end call after it panicked (subtract with overflow)'),
    ('R01', 'fix: the no_debug_assertions feature of sval_nested takes effect', 'without alloc, sval_nested panicked in debug builds where it should report an error although its no_debug_assertions feature was enabled (the code tested a cfg of that name)'),
    ('R01', 'fix: nested streams keep the tag hints of labels without an allocator', 'without alloc, labels of records and tagged values lost their tag hint in nested streams'),
]
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = list(KNOWN)
for i, (p, subj, what) in enumerate(FIXED):
    h = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1] == subj]
    assert h, subj
    out.append({'id': 'fixed-%d' % (i + 1), 'property': p, 'status': 'fixed', 'summary': 'fixed: property=%s %s %s' % (p, h[0], what)})
json.dump(out, open(os.path.join(R, 'known-findings.json'), 'w'), indent=1)

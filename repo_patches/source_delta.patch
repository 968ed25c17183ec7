From a9f0f59e01c1f2505f43660770a82e5b951ce52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:22 +0000
Subject: [PATCH 01/17] fix: pairwise() of an empty series is empty rather than
 a RuntimeError

next() on an exhausted iterator leaked StopIteration out of the generator,
which PEP 479 turns into RuntimeError. Empty catalogs, and hence files
without traces, could not be handled.
---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From cfad902a4fe5b3463b7fb5c41266ff468ccd3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:22 +0000
Subject: [PATCH 02/17] fix: unpack header fields by name rather than by
 declaration order

Values come out of the struct in offset order, but positional header
arguments are matched in declaration order, so formats (and sub-formats)
which declare fields in any order other than offset order were unpacked
with their values exchanged.
---
 segpy/packer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..06fa976 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -221,7 +221,8 @@ class BijectiveHeaderPacker(HeaderPacker):
         return self._structure.pack(*values)
 
     def _unpack(self, values):
-        return self._header_format_class(*values)
+        return self._header_format_class(
+            **{names[0]: value for names, value in zip(self._field_name_allocations, values)})
 
 
 class SurjectiveHeaderPacker(HeaderPacker):
-- 
2.43.0


From a54b1193f1f575dbb6e8f64050649cce9d245304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:22 +0000
Subject: [PATCH 03/17] fix: pickle and deepcopy inherited header fields

__getstate__ saved only the fields declared by the most derived class, so
a pickled or deep-copied TraceHeaderRev1 lost every field which it inherits
from TraceHeaderRev0.
---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From 3fc4ea12b8e0e4c1cab721d036102b1432fa2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 04/17] fix: reject header keyword arguments which name an
 attribute but not a field

Names such as 'copy' or 'LENGTH_IN_BYTES' passed the getattr() test and
were silently stored over the method or class attribute of that name,
where the documentation promises a TypeError.
---
 segpy/header.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index dc9bdb2..95f4a2f 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -27,17 +27,16 @@ class BaseHeader:
         Raises:
             TypeError: If keyword argument names do not correspond to header fields.
         """
-        for keyword, arg in zip(self.ordered_field_names(), args):
+        field_names = self.ordered_field_names()
+
+        for keyword, arg in zip(field_names, args):
             setattr(self, keyword, arg)
 
         for keyword, arg in kwargs.items():
-            try:
-                getattr(self, keyword)
-            except AttributeError as e:
+            if keyword not in field_names:
                 raise TypeError("{!r} is not a recognised field name for {!r}"
-                                .format(keyword, self.__class__.__name__)) from e
-            else:
-                setattr(self, keyword, arg)
+                                .format(keyword, self.__class__.__name__))
+            setattr(self, keyword, arg)
 
     _ordered_field_names = tuple()
 
-- 
2.43.0


From e9927c1771d2efaa9f5b106ed41249e7dd9ccc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 05/17] fix: compare IBMFloats for equality by exact value

Aligning the exponents of subnormals shifted mantissa bits out, so unequal
numbers compared equal, and zeros with different sign bits compared unequal.
---
 segpy/ibm_float.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7612c8d..11861d8 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -324,38 +324,7 @@ class IBMFloat(Real):
         if lhs._data == rhs._data:
             return True
 
-        lhs_sign = lhs.signbit
-        rhs_sign = rhs.signbit
-
-        if lhs_sign != rhs_sign:
-            return False
-
-        nlhs = lhs.try_normalize()
-        nrhs = rhs.try_normalize()
-
-        if not (nlhs.is_subnormal() or nrhs.is_subnormal()):
-            # Both of the numbers are normalised
-            return nlhs._data == nrhs._data
-
-        # Either or both of the numbers are subnormal
-        lhs_exp16 = nlhs.exp16
-        rhs_exp16 = nrhs.exp16
-
-        lhs_mantissa = nlhs.int_mantissa
-        rhs_mantissa = nrhs.int_mantissa
-
-        if lhs_exp16 < rhs_exp16:
-            delta_exp16 = rhs_exp16 - lhs_exp16
-            lhs_mantissa >>= 4 * delta_exp16
-            lhs_exp16 += delta_exp16
-
-        if lhs_exp16 > rhs_exp16:
-            delta_exp16 = lhs_exp16 - rhs_exp16
-            rhs_mantissa >>= 4 * delta_exp16
-            rhs_exp16 += delta_exp16
-
-        assert lhs_exp16 == rhs_exp16
-        return lhs_mantissa == rhs_mantissa
+        return lhs.as_integer_ratio() == rhs.as_integer_ratio()
 
     @property
     def exp16(self):
-- 
2.43.0


From 242699826f855508420ccae71bf0ca3644bb3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 06/17] fix: keep catalog_traces() progress between zero and
 one and increasing

The cataloguing steps reported 0.9375, 1.125 and 1.3125 before reporting 1,
and a truncated final trace reported more than the read proportion.
---
 segpy/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..d00d597 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -388,7 +388,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -410,13 +410,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 4)
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 2)
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
     line_catalog = line_catalog_builder.create()
 
-- 
2.43.0


From f1c567185048671e9fb73c1bfc028cf857ecf0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 07/17] fix: preserve blank lines in extended textual headers

format_extended_textual_header() promises to preserve newlines but dropped
empty lines.
---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index d00d597..eba6b64 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -723,7 +723,7 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From 0494a31a6589455d2f8bca12b86b7368654b076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 08/17] fix: key cached readers on the name of the file which
 they reopen

A cached reader was returned for a different file with the same content, in
which case it read from the file named when it was pickled, whatever that
contains by now, rather than from the file requested.
---
 segpy/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..44e4243 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -142,8 +142,9 @@ def create_reader(
     cache_file_path = None
 
     if cache_directory is not None:
-        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian)
         seg_y_path = filename_from_handle(fh)
+        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian,
+                             seg_y_path)
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
             reader = _load_reader_from_cache(cache_file_path, seg_y_path)
-- 
2.43.0


From 8a39038b5c990c01038cd09177befd96b118164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 09/17] fix: a cache directory which cannot be made does not
 prevent reading

The other failures to write the cache are only logged.
---
 segpy/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 44e4243..47c7f24 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -197,8 +197,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
-- 
2.43.0


From a3a62cd524a86e8c489d9286c95c5c4c4c1cb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 10/17] fix: make_sorted_distinct_sequence() with sense=None
 consumed iterators twice

The items of a one-shot iterable were all lost.
---
 segpy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..0c6cbdf 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -397,9 +397,9 @@ def make_sorted_distinct_sequence(iterable, sense=SortSense.ascending):
     elif sense is None:
         items = list(iterable)
         if is_sorted(items, reverse=True, distinct=True):
-            sorted_seq = ReversedSequenceView(SortedFrozenSet(iterable))
+            sorted_seq = ReversedSequenceView(SortedFrozenSet(items))
         else:
-            sorted_seq = SortedFrozenSet(iterable)
+            sorted_seq = SortedFrozenSet(items)
     else:
         raise TypeError("sense {} is neither a SortSense nor None".format(sense))
 
-- 
2.43.0


From ca22b07910dd5cde729e2ad268a0463dc93b4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 11/17] fix: reversed() of a ReversedSequenceView is an
 iterator

---
 segpy/reversed_sequence_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reversed_sequence_view.py b/segpy/reversed_sequence_view.py
index 1ee4769..58e9cec 100644
--- a/segpy/reversed_sequence_view.py
+++ b/segpy/reversed_sequence_view.py
@@ -23,7 +23,7 @@ class ReversedSequenceView(Sequence):
         return self._sequence.count(item)
 
     def __reversed__(self):
-        return self._sequence
+        return iter(self._sequence)
 
     def index(self, item):
         # TODO: Add support for start and stop
-- 
2.43.0


From d55726073323f8fd043111da61c8372a47678e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 12/17] fix: reject header fields which precede the start of
 the header

A layout was produced in which such fields, and any which follow, were at
the wrong offsets.
---
 segpy/packer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segpy/packer.py b/segpy/packer.py
index 06fa976..d361002 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -74,6 +74,11 @@ def compile_struct(header_format_class, start_offset=0, length_in_bytes=None, en
                 raise ValueError("Fields {!r} at offset {} and {!r} at offset {} of {} are distinct but overlap."
                                   .format(a.name, a.offset, b.name, b.offset, header_format_class.__name__))
 
+    first_field = sorted_fields[0]
+    if first_field.offset < start_offset:
+        raise ValueError("Field {!r} at offset {} of {} precedes the start offset {}"
+                         .format(first_field.name, first_field.offset, header_format_class.__name__, start_offset))
+
     last_field = sorted_fields[-1]
     defined_length = (last_field.offset - start_offset) + size_of(last_field.value_type)
     specified_length = defined_length if (length_in_bytes is None) else length_in_bytes
-- 
2.43.0


From 778a06ed5b1fd4a3030bc4a5089f9d39da6c47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 13/17] fix: accept empty and single item subsets of a range
 with a stride

The step of a range of one item says nothing about its membership of
another range, so selecting one line of a survey numbered with a stride
was rejected.
---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..87ff0ba 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -4,9 +4,11 @@ from segpy.util import make_sorted_distinct_sequence
 def is_range_superset_of_range(superset_range, subset_range):
     """Are all the elements of subset_range elements of superset_range?
     """
+    if len(subset_range) == 0:
+        return True
     if subset_range.start not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
+    if len(subset_range) > 1 and subset_range.step % superset_range.step != 0:
         return False
     if subset_range[-1] > superset_range[-1]:
         return False
-- 
2.43.0


From 22e91e2000356fcd85ca30ce36a2497aa335bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 14/17] fix: extract header fields with non-negative integer
 types

Fields such as num_samples and sample_interval could not be extracted.
---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..2bd71c2 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -4,9 +4,12 @@ import numpy
 
 NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
+                'nnint32': numpy.dtype('i4'),
                 'int16':   numpy.dtype('i2'),
+                'nnint16': numpy.dtype('i2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint8':  numpy.dtype('i1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From 211b8b74bd4006343694ddb861ff29ef2d9fe295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 15/17] fix: extract inlines and crosslines which contain short
 traces

Samples beyond the end of a trace shorter than the longest are missing, and
are left null or masked; the assignment failed before.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..98e263d 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -250,9 +250,12 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
             trace_sample_start = sample_numbers[0]
             trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
+            if trace_sample_start >= trace_sample_stop:
+                continue
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < trace_sample_stop:
+                    array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -264,7 +267,8 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            selected_samples = trace_samples[source_slice]
+            array[xline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -339,9 +343,12 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
             trace_sample_start = sample_numbers[0]
             trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
+            if trace_sample_start >= trace_sample_stop:
+                continue
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < trace_sample_stop:
+                    array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -353,7 +360,8 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            selected_samples = trace_samples[source_slice]
+            array[inline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
-- 
2.43.0


From cb169b41cd66149fb70785c861a11cf9967b8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:29 +0000
Subject: [PATCH 16/17] fix: compare an IBMFloat with integers and rationals
 exactly

float(rhs) rounded integers beyond 2**53 (and overflowed beyond the range
of float), so that the order disagreed with equality.
---
 segpy/ibm_float.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 11861d8..eb7808d 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -481,22 +481,22 @@ class IBMFloat(Real):
     def __lt__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) < float(rhs)
+        return float(self) < rhs
 
     def __le__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) <= float(rhs)
+        return float(self) <= rhs
 
     def __gt__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) > float(rhs)
+        return float(self) > rhs
 
     def __ge__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) >= float(rhs)
+        return float(self) >= rhs
 
     def __ceil__(self):
         t = trunc(self)
-- 
2.43.0


From ce153bf8585366a3030d4e9e6a3c7f82cb629bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:52 +0000
Subject: [PATCH 17/17] fix: is_sorted takes its key into account for ranges
 and sorted sets

---
 segpy/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 0c6cbdf..5f2e930 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -328,16 +328,16 @@ def is_sorted(iterable, key=None, reverse=False, distinct=False):
         key = identity
     if reverse:
         if distinct:
-            if isinstance(iterable, range) and iterable.step < 0:
+            if key is identity and isinstance(iterable, range) and iterable.step < 0:
                 return True
             op = operator.gt
         else:
             op = operator.ge
     else:
         if distinct:
-            if isinstance(iterable, range) and iterable.step > 0:
+            if key is identity and isinstance(iterable, range) and iterable.step > 0:
                 return True
-            if isinstance(iterable, SortedFrozenSet):
+            if key is identity and isinstance(iterable, SortedFrozenSet):
                 return True
             op = operator.lt
         else:
-- 
2.43.0


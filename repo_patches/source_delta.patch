From 577abad6aeb9e8c73a3b1cef4e7f02b7de6e5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 01/37] fix: verify chunk checksum even if the stored digest is
 missing

A file truncated right before a trailing checksum was unpacked without
any error, since an empty digest was taken as 'no checksum used'.
---
 bloscpack/abstract_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..d55eb4b 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,7 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From 6bb47ba823aa408080c16335fc3ab28054a7bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 02/37] fix: verify the checksum of the last chunk before
 appending to it

Otherwise appending to an archive with a damaged last chunk wrote a new,
matching checksum over the damaged data.
---
 bloscpack/append.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..6df3916 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -37,6 +37,7 @@ from .defaults import (DEFAULT_CLEVEL,
 from .exceptions import (NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
+                         ChecksumMismatch,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
@@ -117,7 +118,13 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    if checksum_impl.size > 0:
+        computed_digest = checksum_impl(compressed)
+        if digest != computed_digest:
+            raise ChecksumMismatch(
+                    "Checksum mismatch detected in last chunk, "
+                    "expected: '%s', received: '%s'" %
+                    (repr(digest), repr(computed_digest)))
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From cd37438771f2ec96bc96007a54cef57fb9a84158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 03/37] fix: do not divide by zero after appending an empty
 file

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 6df3916..a379978 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -226,8 +226,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From 3f88442d047a00d2b734741175da20d45c121d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 04/37] fix: remove left over bytes when appending shrinks the
 archive

When the recompressed last chunk (plus new chunks) takes less space than
the original last chunk, parts of the latter stayed at the end of the file.
---
 bloscpack/append.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index a379978..5b1b9ff 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -139,6 +139,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
         digest = checksum_impl(compressed)
         _write_compressed_chunk(original_fp, compressed, digest)
+        # the new last chunk may be smaller than the one it replaces
+        original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
         bloscpack_header.last_chunk += new_size
@@ -182,6 +184,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
 
         compressed = _compress_chunk_str(chunk, blosc_args)
         sink.put(i, compressed)
+    # the new chunks may be smaller than the one they replace
+    original_fp.truncate()
 
     # build the new header
     bloscpack_header.last_chunk = last_chunk_size
-- 
2.43.0


From 303d91b7fda93e905d035da9c37cd25174872eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 05/37] fix: do not modify the argument objects of the caller

pack_ndarray set the typesize, append filled in defaults and writing
incompressible metadata switched off the codec, all in the objects that
were passed in, and thereby changed (or, with threads, broke) the results
of other operations using the same objects.
---
 bloscpack/append.py   | 4 ++++
 bloscpack/file_io.py  | 2 ++
 bloscpack/numpy_io.py | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5b1b9ff..2684f86 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -6,6 +6,7 @@
 from __future__ import division
 
 
+import copy
 import os.path as path
 import itertools
 
@@ -93,6 +94,9 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        # missing values are filled in below, leave the caller's object alone
+        blosc_args = copy.copy(blosc_args)
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..be0f48c 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -101,6 +101,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
                       "(raw: '%s' vs. compressed: '%s') " %
                       (meta_size, meta_comp_size))
             meta_comp_size = meta_size
+            # leave the caller's object alone
+            metadata_args = metadata_args.copy()
             metadata_args.nullify_codec()
         else:
             metadata = metadata_compressed
diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..06609e3 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -180,6 +180,8 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        # leave the caller's object alone
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From d02b6c381364b63406dd06161529a340ebd7ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 06/37] fix: store a metadata compression level of zero without
 a codec

As documented: 'If codec is 0 i.e. the metadata is not compressed, this
must be 0 too.'
---
 bloscpack/file_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index be0f48c..b182a54 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -123,7 +123,9 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            # must be zero if the metadata is not compressed
+            meta_level=(metadata_args.meta_level
+                        if metadata_args.should_compress else 0),
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From b0aae9b9d9010ef87f57d90c8194c65675c21efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 07/37] fix: refuse archives without a known number of chunks

An archive with an unknown (-1) number of chunks, or with a count of zero
as left by an append interrupted while updating the header, was silently
unpacked to nothing.
---
 bloscpack/file_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index b182a54..225a776 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -366,6 +366,10 @@ class CompressedFPSource(CompressedSource):
                 self.offsets = _read_beginning(input_fp)
         self.checksum_impl = self.bloscpack_header.checksum_impl
         self.nchunks = self.bloscpack_header.nchunks
+        if self.nchunks < 1:
+            raise ValueError(
+                "unable to read chunks, the number of chunks is '%d'"
+                % self.nchunks)
 
     def __iter__(self):
         for i in xrange(self.nchunks):
-- 
2.43.0


From 403309b8586a568bc7dc805c59fdba1c434708c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 08/37] fix: print the message of exceptions in Python 3

Exceptions have no 'message' attribute there, so blpk ended with an
AttributeError instead of the error message.
---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From bf318cd266475b78c66e13d218accbfc3f8e1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 09/37] fix: make log.set_level set the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..f9e4a23 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -21,9 +21,11 @@ def set_prefix(prefix):
 
 
 def set_level(level):
+    global LEVEL
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From 3b77305cbf5175668467548f357570211b3d63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 10/37] fix: report the actual output size in
 pack_bytes_to_bytes

The position of the stream is at the end of the offsets section, not at
the end of the output.
---
 bloscpack/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 225a776..e5bd3e7 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -665,7 +665,7 @@ def pack_bytes_to_bytes(bytes_,
          blosc_args=blosc_args,
          bloscpack_args=bloscpack_args,
          metadata_args=metadata_args)
-    out_bytes_size = sio.tell()
+    out_bytes_size = len(sio.getvalue())
     log.verbose('output bytes size: %s' % double_pretty_size(out_bytes_size))
     log.verbose('compression ratio: %f' % (bytes_size/out_bytes_size))
     return sio.getvalue()
-- 
2.43.0


From b496c518d577d439d9eed7f0767ab4a6e8581c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 11/37] fix: check the size of the chunks when unpacking a
 Numpy array

Chunks with more data than the dtype and shape in the metadata call for
were written past the end of the array, and with less data the rest of
the returned array was uninitialized memory.
---
 bloscpack/numpy_io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 06609e3..4449e70 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -31,6 +31,8 @@ from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
                          )
+from .headers import (decode_blosc_header,
+                      )
 from .pretty import (double_pretty_size,
                      )
 from . import log
@@ -140,10 +142,17 @@ class PlainNumpySink(PlainSink):
                                    dtype=numpy.dtype(dtype_),
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        # number of bytes of the array, which have not been written yet
+        self.remaining = self.ndarray.size * self.ndarray.itemsize
 
     def put(self, compressed):
+        nbytes = decode_blosc_header(compressed)['nbytes']
+        if nbytes > self.remaining:
+            raise ValueError("chunk of size '%d' does not fit into the array, "
+                             "only '%d' bytes left" % (nbytes, self.remaining))
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
@@ -306,6 +315,9 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise ValueError("not enough data for the array, '%d' bytes missing"
+                         % sink.remaining)
     return sink.ndarray
 
 
-- 
2.43.0


From d7109ab32da6b4655f920328eb64e4d31e4a512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 12/37] fix: raise NotANumpyArray for metadata of any other
 kind

Metadata without a 'container' gave a KeyError or TypeError instead.
---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 4449e70..5d4e1f6 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -123,7 +123,8 @@ class PlainNumpySink(PlainSink):
 
     def __init__(self, metadata):
         self.metadata = metadata
-        if metadata is None or metadata['container'] != 'numpy':
+        if not isinstance(metadata, dict) \
+                or metadata.get('container') != 'numpy':
             raise NotANumpyArray
         # The try except is a backwards compatability hack for the old way of
         # serializing ndarray dtype which was used prior to 0.7.2. For basic
-- 
2.43.0


From 81c407db607f6a1f8aa25b45dbaf62391c5709ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 13/37] fix: unpack Numpy arrays with padded dtypes

The unnamed padding entries of a dtype 'descr' (e.g. of any dtype with
align=True) were turned into extra fields 'f1', 'f3', ... of the unpacked
array.
---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 5d4e1f6..3c2178d 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -7,6 +7,7 @@ import ast
 
 import blosc
 import numpy
+from numpy.lib.format import descr_to_dtype
 import six
 from six.moves import xrange
 from deprecated import deprecated
@@ -140,7 +141,7 @@ class PlainNumpySink(PlainSink):
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
+                                   dtype=descr_to_dtype(dtype_),
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
         # number of bytes of the array, which have not been written yet
-- 
2.43.0


From cd9a2fa7f42adf0d3f779116aaea260e0d9b25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 14/37] fix: reject object dtypes when unpacking a Numpy array

The bytes from the archive were used as object pointers, crashing the
interpreter as soon as an element was accessed.
---
 bloscpack/numpy_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 3c2178d..adbf49b 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -140,8 +140,12 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
+        dtype_ = descr_to_dtype(dtype_)
+        # never fill an object array with pointers from a file
+        if dtype_.hasobject:
+            raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=descr_to_dtype(dtype_),
+                                   dtype=dtype_,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
         # number of bytes of the array, which have not been written yet
-- 
2.43.0


From 22bf91d1f1bb7eff48866c221b963d7b7ffed0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 15/37] fix: do not append data if the new metadata can not be
 stored

'blpk append --metadata' failed after appending the data, if the metadata
was too large, unchanged, or the archive has no metadata section.
---
 bloscpack/cli.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..af7dd2d 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -22,6 +22,8 @@ from .append import (append,
                      )
 from .checksums import (CHECKSUMS_AVAIL,
                         )
+from .compat_util import (StringIO,
+                          )
 from .constants import (SUFFIXES,
                         CNAME_AVAIL,
                         EXTENSION,
@@ -45,6 +47,7 @@ from .file_io import (pack_file_to_file,
                       unpack_file_from_file,
                       _read_beginning,
                       _read_compressed_chunk_fp,
+                      _read_metadata,
                       )
 from .headers import (decode_blosc_flags,
                       )
@@ -492,6 +495,15 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
+        if metadata is not None:
+            # find out if the metadata can be updated, before changing anything
+            with open(original_file, 'rb') as fp:
+                metadata_pos = _seek_to_metadata(fp)
+                _read_metadata(fp)
+                metadata_end = fp.tell()
+                fp.seek(metadata_pos)
+                section = StringIO(fp.read(metadata_end - metadata_pos))
+            _rewrite_metadata_fp(section, metadata)
         append(original_file, new_file, blosc_args=blosc_args)
         if metadata is not None:
             with open(original_file, 'r+b') as fp:
-- 
2.43.0


From 9edf7a2aef71c010b814caf6af16549d0795b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 16/37] fix: strip only the padding from magic strings

A leading null is not padding, such a (broken) metadata header was decoded
to another one.
---
 bloscpack/headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index e1e7ec5..83f270d 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -128,9 +128,9 @@ def decode_bitfield(byte):
 
 def decode_magic_string(str_):
     if PY3:
-        return str_.strip(b'\x00')
+        return str_.rstrip(b'\x00')
     else:
-        return str_.strip('\x00')
+        return str_.rstrip('\x00')
 
 
 def encode_uint8(byte):
-- 
2.43.0


From a0a20be1a1f4cafcda852842709c401e61c3042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 17/37] fix: refuse to overwrite the input file with its own
 output

'blpk -f compress f f' truncated the input before reading it and reported
success.
---
 bloscpack/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index af7dd2d..fded4b7 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -81,6 +81,9 @@ def check_files(in_file, out_file, args):
     if path.exists(out_file):
         if not args.force:
             raise FileNotFound("output file '%s' exists!" % out_file)
+        elif path.samefile(in_file, out_file):
+            raise FileNotFound("input file and output file are the same: '%s'"
+                               % out_file)
         else:
             log.verbose("overwriting existing file: '%s'" % out_file)
     log.verbose("input file is: '%s'" % in_file)
-- 
2.43.0


From c93a2d8387d78c34cc2a22eee5f18d96f703029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 18/37] fix: refuse to append a file to itself

'blpk append -e f f' read the new content from the file while rewriting it,
and reported success for an archive holding neither the old nor the new data.
---
 bloscpack/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fded4b7..d104eee 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -492,6 +492,9 @@ def main():
             if not path.exists(new_file):
                 raise FileNotFound("new file '%s' does not exist!" %
                                    new_file)
+            if path.samefile(original_file, new_file):
+                raise FileNotFound("original file and new file are the "
+                                   "same: '%s'" % new_file)
         except FileNotFound as fnf:
             log.error(str(fnf))
         log.verbose("original file is: '%s'" % original_file)
-- 
2.43.0


From 3d905f9a06b9a97bc83eae5d516674b83c3785ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 19/37] fix: only compare the input and output file if the
 latter is a file

Completes a0a20be: check_files must not fail when the output file vanishes
between the two tests.
---
 bloscpack/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index d104eee..1143476 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -81,7 +81,7 @@ def check_files(in_file, out_file, args):
     if path.exists(out_file):
         if not args.force:
             raise FileNotFound("output file '%s' exists!" % out_file)
-        elif path.samefile(in_file, out_file):
+        elif path.isfile(out_file) and path.samefile(in_file, out_file):
             raise FileNotFound("input file and output file are the same: '%s'"
                                % out_file)
         else:
-- 
2.43.0


From 868754442cc0383f12714d70f3852ddd935d8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 20/37] fix: do not trust the announced size of an input that
 turns out shorter

---
 bloscpack/append.py  | 6 +++++-
 bloscpack/file_io.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 2684f86..27fb35e 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -147,7 +147,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += new_size
+        bloscpack_header.last_chunk += len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
@@ -158,6 +158,10 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     new_new_size = new_size - bytes_to_read
     # read those bytes
     fill_up = new_content_fp.read(bytes_to_read)
+    # only the last chunk may be smaller
+    if len(fill_up) != bytes_to_read:
+        raise IOError("unable to read '%d' bytes of input, only '%d' "
+                      "available" % (bytes_to_read, len(fill_up)))
     # figure out how many chunks we will need
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(new_new_size,
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index e5bd3e7..df49291 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -354,7 +354,12 @@ class PlainFPSource(PlainSource):
         for num_bytes in ([self.chunk_size] *
                           (self.nchunks - 1) +
                           [self.last_chunk]):
-            yield self.input_fp.read(num_bytes)
+            chunk = self.input_fp.read(num_bytes)
+            # the header promises chunks of exactly this size
+            if len(chunk) != num_bytes:
+                raise IOError("unable to read '%d' bytes of input, only '%d' "
+                              "available" % (num_bytes, len(chunk)))
+            yield chunk
 
 
 class CompressedFPSource(CompressedSource):
-- 
2.43.0


From 07de1eaf4369f2065ebed68136147c6ae8450994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 21/37] fix: close the file when unpacking an array from a file

---
 bloscpack/numpy_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index adbf49b..f263b10 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -345,8 +345,9 @@ def unpack_ndarray_from_file(filename):
     NotANumpyArray
         if the source doesn't seem to contain a Numpy array
     """
-    source = CompressedFPSource(open(filename, 'rb'))
-    return unpack_ndarray(source)
+    with open(filename, 'rb') as fp:
+        source = CompressedFPSource(fp)
+        return unpack_ndarray(source)
 
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
-- 
2.43.0


From 74dac4a31988d08b4b39ac05a12c2f32da644205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 22/37] fix: refuse a chunk that claims to be shorter than its
 own header

---
 bloscpack/file_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index df49291..1896cc2 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -327,6 +327,10 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     if log.LEVEL == log.DEBUG:
         log.debug('blosc_header: %s' % repr(blosc_header))
     ctbytes = blosc_header['ctbytes']
+    # the header is part of the chunk
+    if ctbytes < BLOSC_HEADER_LENGTH:
+        raise ValueError("'ctbytes' of a chunk must be at least '%d', not '%d'"
+                         % (BLOSC_HEADER_LENGTH, ctbytes))
     # Seek back BLOSC_HEADER_LENGTH bytes in file relative to current
     # position. Blosc needs the header too and presumably this is
     # better than to read the whole buffer and then concatenate it...
-- 
2.43.0


From 2cccd3703b9b815fb3fffc9a8df96b17b99adfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 23/37] fix: refuse to append a file to itself

The archive was changed while it was being read, and its new content was
not what it had been.
---
 bloscpack/append.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 27fb35e..a95670c 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -229,6 +229,10 @@ def append(orig_file, new_file, blosc_args=None):
     """
     orig_size_before = path.getsize(orig_file)
     new_size = path.getsize(new_file)
+    if path.isfile(new_file) and path.samefile(orig_file, new_file):
+        # it would change while it is being read
+        raise ValueError("original file and new file are the same: '%s'" %
+                         new_file)
     log.verbose('orig file size before append: %s' %
             double_pretty_size(orig_size_before))
     log.verbose('new file size: %s' % double_pretty_size(new_size))
-- 
2.43.0


From 93a6dfbfa8c802943c352344b1557e5489e08372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:40 +0000
Subject: [PATCH 24/37] fix: refuse to pack or unpack a file onto itself

Opening the output destroyed the input.
---
 bloscpack/file_io.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 1896cc2..eee25ee 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -434,6 +434,26 @@ class CompressedFPSink(CompressedSink):
         return offset, compressed, digest
 
 
+def _check_not_same(in_file, out_file):
+    """ Check that the output file is not the input file.
+
+    Parameters
+    ----------
+    in_file : str
+        the name of the input file
+    out_file : str
+        the name of the output file
+
+    Raises
+    ------
+    ValueError
+        if opening the output file would destroy the input
+    """
+    if path.isfile(out_file) and path.samefile(in_file, out_file):
+        raise ValueError("input file and output file are the same: '%s'"
+                         % out_file)
+
+
 def pack_file_to_file(in_file, out_file,
                       chunk_size=DEFAULT_CHUNK_SIZE,
                       metadata=None,
@@ -470,6 +490,7 @@ def pack_file_to_file(in_file, out_file,
     """
     in_file_size = path.getsize(in_file)
     log.verbose('input file size: %s' % double_pretty_size(in_file_size))
+    _check_not_same(in_file, out_file)
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(in_file_size, chunk_size)
@@ -517,6 +538,7 @@ def unpack_file_from_file(in_file, out_file):
     """
     in_file_size = path.getsize(in_file)
     log.verbose('input file size: %s' % pretty_size(in_file_size))
+    _check_not_same(in_file, out_file)
     with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
         source = CompressedFPSource(input_fp)
         sink = PlainFPSink(output_fp, source.nchunks)
-- 
2.43.0


From 7938a405f77d64b255643930fbeb6568ad0d0b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:12 +0000
Subject: [PATCH 25/37] fix: appending to an archive whose last chunk size is
 unknown

A header with -1 for the size of the last chunk got a size that was one too
small when the data fit into the last chunk.
---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index a95670c..7cb0909 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -147,7 +147,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += len(fill_up)
+        bloscpack_header.last_chunk = ultimo_length + len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
-- 
2.43.0


From 6745b965329466fc2b2ac979831dca623abb26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 26/37] fix: pack all bytes of a buffer with items larger than
 a byte

---
 bloscpack/file_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index eee25ee..7ad93d0 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -585,7 +585,8 @@ def pack_bytes_to_file(bytes_, out_file,
     ChunkingException
         if there was a problem caculating the chunks
     """
-    bytes_size = len(bytes_)
+    # the length of a buffer may differ from the number of bytes in it
+    bytes_size = memoryview(bytes_).nbytes if six.PY3 else len(bytes_)
     log.verbose('input bytes size: %s' % double_pretty_size(bytes_size))
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
@@ -683,7 +684,8 @@ def pack_bytes_to_bytes(bytes_,
     ChunkingException
         if there was a problem caculating the chunks
     """
-    bytes_size = len(bytes_)
+    # the length of a buffer may differ from the number of bytes in it
+    bytes_size = memoryview(bytes_).nbytes if six.PY3 else len(bytes_)
     log.verbose('input bytes size: %s' % double_pretty_size(bytes_size))
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(bytes_size, chunk_size)
-- 
2.43.0


From 90f681e5dcb4b6d27d9da64d67043fa534d7e676 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 27/37] fix: refuse to take an input of unknown size for an
 empty one

---
 bloscpack/append.py  |  3 +++
 bloscpack/file_io.py | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 7cb0909..955e29b 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -42,6 +42,7 @@ from .exceptions import (NoMetadataFound,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
+                      _check_empty,
                       _read_beginning,
                       _read_compressed_chunk_fp,
                       _write_offsets,
@@ -238,6 +239,8 @@ def append(orig_file, new_file, blosc_args=None):
     log.verbose('new file size: %s' % double_pretty_size(new_size))
 
     with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
+        if new_size == 0:
+            _check_empty(new_fp)
         append_fp(orig_fp, new_fp, new_size, blosc_args)
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 7ad93d0..50df22b 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -454,6 +454,23 @@ def _check_not_same(in_file, out_file):
                          % out_file)
 
 
+def _check_empty(input_fp):
+    """ Check that there is nothing to read from a file of size zero.
+
+    Parameters
+    ----------
+    input_fp : file_like
+        the input file pointer
+
+    Raises
+    ------
+    IOError
+        if there is, for example when reading from a pipe
+    """
+    if input_fp.read(1):
+        raise IOError("unable to determine the size of the input")
+
+
 def pack_file_to_file(in_file, out_file,
                       chunk_size=DEFAULT_CHUNK_SIZE,
                       metadata=None,
@@ -494,15 +511,18 @@ def pack_file_to_file(in_file, out_file,
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(in_file_size, chunk_size)
-    with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
-        source = PlainFPSource(input_fp)
-        sink = CompressedFPSink(output_fp)
-        pack(source, sink,
-                nchunks, chunk_size, last_chunk_size,
-                metadata=metadata,
-                blosc_args=blosc_args,
-                bloscpack_args=bloscpack_args,
-                metadata_args=metadata_args)
+    with open(in_file, 'rb') as input_fp:
+        if in_file_size == 0:
+            _check_empty(input_fp)
+        with open(out_file, 'wb') as output_fp:
+            source = PlainFPSource(input_fp)
+            sink = CompressedFPSink(output_fp)
+            pack(source, sink,
+                    nchunks, chunk_size, last_chunk_size,
+                    metadata=metadata,
+                    blosc_args=blosc_args,
+                    bloscpack_args=bloscpack_args,
+                    metadata_args=metadata_args)
     out_file_size = path.getsize(out_file)
     log.verbose('output file size: %s' % double_pretty_size(out_file_size))
     log.verbose('compression ratio: %f' % (in_file_size/out_file_size))
-- 
2.43.0


From ceab7e168a4c96c009abe00f8638667e2edaf9ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 28/37] fix: do not divide by zero after packing to a device

---
 bloscpack/file_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 50df22b..9b4d026 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -525,7 +525,9 @@ def pack_file_to_file(in_file, out_file,
                     metadata_args=metadata_args)
     out_file_size = path.getsize(out_file)
     log.verbose('output file size: %s' % double_pretty_size(out_file_size))
-    log.verbose('compression ratio: %f' % (in_file_size/out_file_size))
+    # a device has no size
+    if out_file_size > 0:
+        log.verbose('compression ratio: %f' % (in_file_size/out_file_size))
 
 
 pack_file = deprecated(pack_file_to_file,
@@ -622,7 +624,9 @@ def pack_bytes_to_file(bytes_, out_file,
              metadata_args=metadata_args)
     out_file_size = path.getsize(out_file)
     log.verbose('output file size: %s' % double_pretty_size(out_file_size))
-    log.verbose('compression ratio: %f' % (bytes_size/out_file_size))
+    # a device has no size
+    if out_file_size > 0:
+        log.verbose('compression ratio: %f' % (bytes_size/out_file_size))
 
 
 pack_bytes_file = deprecated(pack_bytes_to_file,
-- 
2.43.0


From 57ff058da55fe99db58b3f6fafeaca69cb4f4831 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 29/37] fix: do not overwrite what precedes an archive in a
 file object

---
 bloscpack/append.py  | 7 ++++---
 bloscpack/file_io.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 955e29b..5721bfd 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -87,6 +87,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     desired.
 
     """
+    header_pos = original_fp.tell()
     bloscpack_header, metadata, metadata_header, offsets = \
         _read_beginning(original_fp)
     checksum_impl = bloscpack_header.checksum_impl
@@ -114,7 +115,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     if blosc_args['cname'] is None:
         blosc_args['cname'] = DEFAULT_CNAME
     _check_blosc_args(blosc_args)
-    offsets_pos = (BLOSCPACK_HEADER_LENGTH +
+    offsets_pos = (header_pos + BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
                    if metadata is not None else 0))
@@ -151,7 +152,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         bloscpack_header.last_chunk = ultimo_length + len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
-        original_fp.seek(0)
+        original_fp.seek(header_pos)
         original_fp.write(raw_bloscpack_header)
         return 0
 
@@ -202,7 +203,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     bloscpack_header.max_app_chunks -= nchunks
     # create the new header
     raw_bloscpack_header = bloscpack_header.encode()
-    original_fp.seek(0)
+    original_fp.seek(header_pos)
     original_fp.write(raw_bloscpack_header)
     # write the new offsets, but only those that changed
     original_fp.seek(offsets_pos)
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 9b4d026..cc0e359 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -416,13 +416,14 @@ class CompressedFPSink(CompressedSink):
     def init_offsets(self):
         if self.offsets:
             total_entries = self.bloscpack_header.total_prospective_chunks
+            self.offsets_pos = self.output_fp.tell()
             self.offset_storage = list(itertools.repeat(-1,
                                        self.bloscpack_header.nchunks))
             self.output_fp.write(encode_int64(-1) * total_entries)
 
     def finalize(self):
         if self.offsets:
-            self.output_fp.seek(BLOSCPACK_HEADER_LENGTH + self.meta_total, 0)
+            self.output_fp.seek(self.offsets_pos, 0)
             _write_offsets(self.output_fp, self.offset_storage)
 
     def put(self, i, compressed):
-- 
2.43.0


From 7c02ac2e0d21445b33dfa5336a153e00b3934173 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 30/37] fix: keep the memory of a Numpy scalar while packing it

---
 bloscpack/numpy_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index f263b10..5283c62 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -77,7 +77,7 @@ class PlainNumpySource(PlainSource):
             self.ndarray = numpy.ascontiguousarray(ndarray)
         # contiguous fortran or C array, do nothing
         else:
-            self.ndarray = ndarray
+            self.ndarray = numpy.asanyarray(ndarray)
         self.ptr = self.ndarray.__array_interface__['data'][0]
 
     @property
-- 
2.43.0


From 56cc49daca990ddde0b9ce897bc71490faa84325 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:29:19 +0000
Subject: [PATCH 31/37] fix: do not fail if the output can not show a message

---
 bloscpack/log.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index f9e4a23..0fb91c8 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -28,6 +28,15 @@ def set_level(level):
     LEVEL = level
 
 
+def _print(line):
+    """ Print line, escape what the encoding of the output does not have. """
+    try:
+        print(line)
+    except UnicodeEncodeError:
+        encoding = sys.stdout.encoding
+        print(line.encode(encoding, 'backslashreplace').decode(encoding))
+
+
 def verbose(message, level=VERBOSE):
     """ Print message with desired verbosity level. """
     if level not in VERBOSITY_LEVELS:
@@ -35,7 +44,7 @@ def verbose(message, level=VERBOSE):
                         str(VERBOSITY_LEVELS)))
     if VERBOSITY_LEVELS.index(level) <= VERBOSITY_LEVELS.index(LEVEL):
         for line in [l for l in message.split('\n') if l != '']:
-            print('%s: %s' % (PREFIX, line))
+            _print('%s: %s' % (PREFIX, line))
 
 
 def debug(message):
@@ -51,5 +60,5 @@ def normal(message):
 def error(message, exit_code=1):
     """ Print message and exit with desired code. """
     for line in [l for l in message.split('\n') if l != '']:
-        print('%s: error: %s' % (PREFIX, line))
+        _print('%s: error: %s' % (PREFIX, line))
     sys.exit(exit_code)
-- 
2.43.0


From 5555d242f788594801766c164905d8960a2545f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 32/37] fix: read the metadata of the command line as UTF-8 in
 every locale

---
 bloscpack/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 1143476..3000568 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -4,6 +4,7 @@
 
 
 import argparse
+import io
 from os import path
 import json
 import pprint
@@ -165,7 +166,8 @@ def process_append_args(args):
 def process_metadata_args(args):
     if args.metadata is not None:
         try:
-            with open(args.metadata, 'r') as metadata_file:
+            with io.open(args.metadata, 'r',
+                         encoding='utf-8') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
             log.error(str(ioe))
-- 
2.43.0


From 1016ad5181c4ff055c438c4d175e0dfaf5e0fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:04 +0000
Subject: [PATCH 33/37] fix: refuse to pack a source whose chunks are not those
 the header declares

---
 bloscpack/abstract_io.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index d55eb4b..b1acf92 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -15,6 +15,7 @@ from .args import (BloscArgs,
                    _handle_max_apps
                    )
 from .headers import (BloscpackHeader,
+                      decode_blosc_header,
                       )
 from .exceptions import (ChecksumMismatch,
                          )
@@ -153,16 +154,30 @@ def pack(source, sink,
 
     compress_func = source.compress_func
     # read-compress-write loop
+    done = 0
     for i, chunk in enumerate(source):
         if log.LEVEL == log.DEBUG:
             log.debug("Handle chunk '%d'%s" %
                     (i, ' (last)' if i == nchunks - 1 else ''))
         compressed = compress_func(chunk, blosc_args)
+        # the header promises this many chunks of exactly these sizes, where
+        # it says -1 they are unknown
+        if nchunks != -1 and i >= nchunks:
+            raise ValueError("the source has more than '%d' chunks" % nchunks)
+        expected = last_chunk if i == nchunks - 1 else chunk_size
+        nbytes = decode_blosc_header(compressed)['nbytes']
+        if expected != -1 and nbytes != expected:
+            raise ValueError("the size of chunk '%d' is '%d', expected: '%d'" %
+                             (i, nbytes, expected))
         sink.put(i, compressed)
+        done += 1
         if log.LEVEL == log.DEBUG:
             log.debug("chunk handled, in: %s out: %s" %
                     (double_pretty_size(len(chunk)),
                     double_pretty_size(len(compressed))))
+    if nchunks != -1 and done != nchunks:
+        raise ValueError("the source has '%d' chunks, expected: '%d'" %
+                         (done, nchunks))
     sink.finalize()
 
 
-- 
2.43.0


From 3de66c344a830d24011bc46276b80b1703731e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:04 +0000
Subject: [PATCH 34/37] fix: never read past the end of an array that is packed

---
 bloscpack/numpy_io.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 5283c62..006723e 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -82,7 +82,14 @@ class PlainNumpySource(PlainSource):
 
     @property
     def compress_func(self):
-        return _compress_chunk_ptr
+        return self._compress
+
+    def _compress(self, chunk, blosc_args):
+        # Blosc multiplies the number of items with the typesize
+        if blosc_args['typesize'] != self.ndarray.itemsize:
+            raise ValueError("typesize: '%s' is not the itemsize: '%i'" %
+                             (blosc_args['typesize'], self.ndarray.itemsize))
+        return _compress_chunk_ptr(chunk, blosc_args)
 
     def __iter__(self):
         if self.chunk_size % self.ndarray.itemsize != 0:
@@ -90,6 +97,13 @@ class PlainNumpySource(PlainSource):
                     "chunk_size: '%s' is not divisible bytypesize: '%i'" %
                     (double_pretty_size(self.chunk_size), self.ndarray.itemsize)
                 )
+        # must not read past the end of the array
+        if (self.chunk_size * (self.nchunks - 1) + self.last_chunk
+                > self.size):
+            raise ValueError(
+                "unable to read '%d' chunks of '%d' bytes, the last of '%d', "
+                "from an array of '%d' bytes" %
+                (self.nchunks, self.chunk_size, self.last_chunk, self.size))
         self.nitems = int(self.chunk_size / self.ndarray.itemsize)
         offset = self.ptr
         for i in xrange(self.nchunks - 1):
-- 
2.43.0


From 8faf16acf2e17abaf6f6eae1c496b99aab7daaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:06 +0000
Subject: [PATCH 35/37] fix: find the offsets of an archive with null metadata
 when appending

A metadata section may hold any JSON value. For 'null' the section was taken
to be absent and the offsets were written over it.
---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5721bfd..40f6fe2 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -118,7 +118,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (header_pos + BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if bloscpack_header.metadata else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From ce2776691ecbd5b7f490a494f877c4131a84dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:06 +0000
Subject: [PATCH 36/37] fix: info shows the metadata section also if it holds
 null

---
 bloscpack/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 3000568..fa6a1ba 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -539,7 +539,7 @@ def main():
         if offsets:
             log.normal("'offsets':")
             log.normal("[%s,...]" % (",".join(str(o) for o in offsets[:5])))
-        if metadata is not None:
+        if bloscpack_header.metadata:
             log_metadata(metadata)
             log.normal(metadata_header.pformat())
         log.normal("First chunk blosc header:")
-- 
2.43.0


From d592dcfe8fbf5f8981be2ca2d2a54eab37ff91db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:06 +0000
Subject: [PATCH 37/37] fix: blpk append with null metadata no longer reports
 success without storing it

---
 bloscpack/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fa6a1ba..4423488 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -503,7 +503,7 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
-        if metadata is not None:
+        if args.metadata is not None:
             # find out if the metadata can be updated, before changing anything
             with open(original_file, 'rb') as fp:
                 metadata_pos = _seek_to_metadata(fp)
@@ -513,7 +513,7 @@ def main():
                 section = StringIO(fp.read(metadata_end - metadata_pos))
             _rewrite_metadata_fp(section, metadata)
         append(original_file, new_file, blosc_args=blosc_args)
-        if metadata is not None:
+        if args.metadata is not None:
             with open(original_file, 'r+b') as fp:
                 _seek_to_metadata(fp)
                 _rewrite_metadata_fp(fp, metadata)
-- 
2.43.0


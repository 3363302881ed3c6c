From a4bc7e91da297fa25207892c302cd7d94c823e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 01/48] fix: decode each path escape exactly once and reject
 too large ones

unescape_path decoded backslashes that resulted from decoding an escape
a second time ('\x5c\x5c' gave one backslash) and raised OverflowError
instead of ValueError for escapes above the unicode range.
---
 src/hdf5storage/pathesc.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..1710119 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -64,7 +64,7 @@ _find_invalid_escape_re: Pattern[str] = re.compile(
 )
 _find_fslashnull_re: Pattern[str] = re.compile("[\\\\/\x00]")
 _find_escapes_re: Pattern[str] = re.compile(
-    "\\\\+(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
+    "\\\\(\\\\|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
 )
 _char_escape_conversions: Dict[str, str] = {"\x00": "\\x00", "/": "\\x2f", "\\": "\\\\"}
 
@@ -115,11 +115,11 @@ def _replace_fun_escape(m: Match[str]) -> str:
 
 
 def _replace_fun_unescape(m: Match[str]) -> str:
-    r"""Decode single hex/unicode escapes found in regex matches.
+    r"""Decode single escapes found in regex matches.
 
     Supports single hex/unicode escapes of the form ``'\xYY'``,
-    ``'\uYYYY'``, and ``'\UYYYYYYYY'`` where Y is a hex digit. Only
-    decodes if there is an odd number of backslashes.
+    ``'\uYYYY'``, and ``'\UYYYYYYYY'`` where Y is a hex digit and
+    double backslashes.
 
     .. versionadded:: 0.2
 
@@ -132,14 +132,20 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     c : str
         The unescaped character.
 
+    Raises
+    ------
+    ValueError
+        If the escape is for a value that is not a unicode character.
+
     """
     slsh = b"\\".decode("ascii")
-    s = m.group(0)
-    count = s.count(slsh)
-    if count % 2 == 0:
-        return s
-    c = chr(int(s[(count + 1) :], base=16))
-    return slsh * (count - 1) + c
+    s = m.group(1)
+    if s == slsh:
+        return slsh
+    value = int(s[1:], base=16)
+    if value > sys.maxunicode:
+        raise ValueError("Escape is not for a valid unicode character.")
+    return chr(value)
 
 
 def escape_path(pth: Union[str, bytes]) -> str:
@@ -229,10 +235,9 @@ def unescape_path(pth: Union[str, bytes]) -> str:
     # Look for invalid escapes.
     if _find_invalid_escape_re.search(pth) is not None:
         raise ValueError("Invalid escape found.")
-    # Do all hex/unicode escapes.
-    s = _find_escapes_re.sub(_replace_fun_unescape, pth)
-    # Do all double backslash escapes.
-    return s.replace(b"\\\\".decode("ascii"), b"\\".decode("ascii"))
+    # Do all hex/unicode and double backslash escapes in one pass so that
+    # backslashes that come from decoding an escape aren't decoded again.
+    return _find_escapes_re.sub(_replace_fun_unescape, pth)
 
 
 def process_path(pth: Path) -> Tuple[str, str]:
-- 
2.43.0


From ae2cd2094ae019c418cc7e7d9ec6f4d7724eae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 02/48] fix: keep zero bytes at the end of the last character
 of stored text

convert_to_numpy_str decoded code units from numpy.bytes_ views, which drop
trailing null bytes, so text ending in a character whose low byte is zero
(U+0100, U+1F600 stored as UTF-16, ...) could not be read back. Surrogates in
UTF-32 data could not be read either.
---
 src/hdf5storage/utilities.py | 67 ++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..3d2b428 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -779,6 +779,40 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     return data.ravel().view(np.uint32).reshape(tuple(shape))
 
 
+def _get_encoding(dtype: np.dtype) -> Tuple[str, str]:
+    """Gets the encoding of text stored in a particular dtype.
+
+    .. versionadded:: 0.2
+
+    Parameters
+    ----------
+    dtype : numpy.dtype
+        The dtype of the data holding the text. Must be for uint8,
+        uint16, uint32, or ``numpy.unicode_``.
+
+    Returns
+    -------
+    encoding : str
+        The name of the encoding, including the byte order so that a
+        leading byte order mark character is treated as text.
+    errors : str
+        The error handling scheme. Surrogates are allowed for UTF-32
+        since that is how Numpy stores an ``str`` holding them.
+
+    """
+    if dtype.name == "uint8":
+        return "UTF-8", "strict"
+    if dtype.byteorder == "<" or (
+        dtype.byteorder == "=" and sys.byteorder == "little"
+    ):
+        order = "LE"
+    else:
+        order = "BE"
+    if dtype.name == "uint16":
+        return "UTF-16" + order, "strict"
+    return "UTF-32" + order, "surrogatepass"
+
+
 def convert_to_str(
     data: Union[
         str,
@@ -982,31 +1016,14 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
-            if data.dtype.name == "uint8":
-                encoding = "UTF-8"
-                swapbytes = False
-                dt = "S" + str(length_to_use)
-            else:
-                if data.dtype.name == "uint16":
-                    encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
-                else:
-                    encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
-                swapbytes = data.dtype.byteorder == "<" or (
-                    sys.byteorder == "little" and data.dtype.byteorder == "="
-                )
-            # Copy is needed to prevent errors.
-            if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+            # Each string is decoded separately from its bytes using the
+            # encoding (UTF-8/16/32) for the dtype. Views as numpy.bytes_
+            # can't be used since they drop trailing nulls, which can be
+            # a part of the last character.
+            encoding, errors = _get_encoding(data.dtype)
+            chunks = data.reshape((int(np.prod(new_shape)), length_to_use))
+            decoded = [chunk.tobytes().decode(encoding, errors) for chunk in chunks]
+            return np.array(decoded, dtype=np.unicode_).reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From af226a1f7e04c17e0b3c97971b3b9a9b33f9c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 03/48] fix: treat a leading U+FEFF as text when decoding code
 units to str

convert_to_str used the byte order mark sniffing codecs, which dropped a
leading U+FEFF and swapped the bytes after a leading U+FFFE.
---
 src/hdf5storage/utilities.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 3d2b428..92f698c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -868,12 +868,8 @@ def convert_to_str(
         data,
         (np.ndarray, np.uint8, np.uint16, np.uint32, np.bytes_, np.unicode_),
     ):
-        if data.dtype.name == "uint8":
-            return data.tobytes().decode("UTF-8")
-        if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
-        if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+        if data.dtype.name in {"uint8", "uint16", "uint32"}:
+            return data.tobytes().decode(*_get_encoding(data.dtype))
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -881,7 +877,7 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode(*_get_encoding(data.dtype))
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 59059e45942cc9c175e46f940300947b5e26abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 04/48] fix: convert numpy text that is not in native byte
 order to UTF-32

convert_numpy_str_to_uint32 took the bytes as native integers.
---
 src/hdf5storage/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 92f698c..8e4ed3a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -776,7 +776,10 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # and then reshaping it.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    #
+    # It must be in native byte order for its bytes to be uint32's.
+    native = np.asarray(data, dtype=data.dtype.newbyteorder("="))
+    return native.ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def _get_encoding(dtype: np.dtype) -> Tuple[str, str]:
-- 
2.43.0


From 09a2d91ee6515ebf196a68ecc28ae1051cec03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 05/48] fix: don't truncate non-ASCII text when converting to
 numpy.bytes_

Items were as wide as the number of code units, which is too few bytes for
UTF-8, and non-contiguous uint8 data was not accepted.
---
 src/hdf5storage/utilities.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8e4ed3a..5968e49 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1169,26 +1169,29 @@ def convert_to_numpy_bytes(
                 return np.ndarray(
                     shape=new_shape,
                     dtype="S" + str(length2),
-                    buffer=data,
+                    buffer=np.ascontiguousarray(data),
                 )
 
-            # The new array can be made as all zeros (nulls) with enough
-            # padding to hold everything (dtype='UL' where 'L' is the
-            # length). It will start out as a 1d array and be reshaped into
-            # the proper shape later (makes indexing easier).
-            new_data = np.zeros(
-                shape=(int(np.prod(new_shape)),),
-                dtype="S" + str(length2),
-            )
-
             # With data flattened into a 1d array, we just need to take
-            # length sized chunks, convert them (if they are uint8 or 16,
-            # then decode to str first, if they are uint32, put them as an
-            # input buffer for an ndarray of type 'U').
+            # length sized chunks and convert them (decode to str first
+            # and then encode).
             data = data.ravel()
-            for i in range(0, new_data.shape[0]):
+            encoded = []
+            for i in range(0, int(np.prod(new_shape))):
                 chunk = data[(i * length2) : ((i + 1) * length2)]
-                new_data[i] = np.bytes_(convert_to_str(chunk).encode("UTF-8"))
+                encoded.append(convert_to_str(chunk).encode("UTF-8"))
+
+            # The new array can be made as all zeros (nulls) with enough
+            # padding to hold everything, which can be longer than the
+            # length since non-ASCII characters take more than one byte.
+            # It will start out as a 1d array and be reshaped into the
+            # proper shape later (makes indexing easier).
+            new_data = np.zeros(
+                shape=(len(encoded),),
+                dtype="S" + str(max([length2] + [len(x) for x in encoded])),
+            )
+            for i, x in enumerate(encoded):
+                new_data[i] = x
 
             # Only thing is left is to reshape it.
             return new_data.reshape(tuple(new_shape))
-- 
2.43.0


From a42aa8996088fd96db5b1ba5e192432ee1753d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 06/48] fix: decode arrays of numpy.bytes_ in
 convert_to_numpy_str

numpy.char.encode was called on bytes, which always fails.
---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 5968e49..765858a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -967,7 +967,7 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            return np.char.decode(data, "UTF-8")
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
-- 
2.43.0


From eeebb40a90b7acf1e6839d11c2d1bcd6945fda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 07/48] fix: make one numpy.bytes_ of a 1d array in
 convert_to_numpy_bytes

With no length given, a 1d array of code units is one string but the shape
used was that of the code units.
---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 765858a..6f885c0 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1151,7 +1151,7 @@ def convert_to_numpy_bytes(
             if len(shape) == 1:
                 if length is None:
                     length2 = shape[0]
-                    new_shape = [shape[0]]
+                    new_shape = [min(1, shape[0])]
                 else:
                     length2 = length
                     new_shape = [shape[0] // length2]
-- 
2.43.0


From eb9618067e58234e4f94080ee3f9eb5f4af75c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 08/48] fix: use the complex_names option when reading complex
 data

The fields are stored with the names given by the option but only the
common names were looked for when reading, and they took precedence over
explicitly given ones.
---
 src/hdf5storage/Marshallers.py |  4 ++--
 src/hdf5storage/utilities.py   | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..9a70476 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1371,7 +1371,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # If it is a complex type, then it needs to be decoded
             # properly.
             if underlying_type.startswith("complex"):
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If its underlying type is 'bool' but it is something else,
             # then it needs to be converted (means it was written with
@@ -1495,7 +1495,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # could possibly be a complex type which needs to be
             # properly decoded.
             if matlab_class in {"single", "double"}:
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If it is a logical, then it must be converted to
             # numpy.bool8.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6f885c0..1f98e6f 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1269,17 +1269,20 @@ def decode_complex(
     # We need to grab the field names for the real and imaginary
     # parts. This will be done by seeing which list, if any, each field
     # is and setting variables to the proper name if it is in it (they
-    # are initialized to None so that we know if one isn't found).
+    # are initialized to None so that we know if one isn't found). If the
+    # fields are exactly the given names, no looking is needed.
 
     real_fields = ["r", "re", "real"]
     imag_fields = ["i", "im", "imag", "imaginary"]
 
     cnames = list(complex_names)
-    for s in fields:
-        if s.lower() in real_fields:
-            cnames[0] = s
-        elif s.lower() in imag_fields:
-            cnames[1] = s
+    if set(cnames) != set(fields):
+        cnames = [s if s in fields else None for s in cnames]
+        for s in fields:
+            if s.lower() in real_fields:
+                cnames[0] = s
+            elif s.lower() in imag_fields:
+                cnames[1] = s
 
     # If the real and imaginary fields were found, construct the complex
     # form from the fields. This is done by finding the complex type
-- 
2.43.0


From d80539530605653394ccee642d4f7d02a8fa942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 09/48] fix: keep the byte order when encoding complex data

The parts of complex data that isn't in native byte order were taken as
native, which corrupted them.
---
 src/hdf5storage/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 1f98e6f..48a3134 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1339,8 +1339,9 @@ def encode_complex(
 
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
-    # right dtype in the view function.
-    return data.view([(complex_names[0], dtype_name), (complex_names[1], dtype_name)])
+    # right dtype in the view function. The byte order must be kept.
+    dtype = np.dtype(dtype_name).newbyteorder(data.dtype.byteorder)
+    return data.view([(complex_names[0], dtype), (complex_names[1], dtype)])
 
 
 def convert_attribute_to_string(value: Any) -> Optional[str]:
-- 
2.43.0


From 73e555daa8f7775a2b3f67186d38cb43d7b2a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 10/48] fix: decode scalar complex data in decode_complex

The imaginary part of a numpy scalar can't be assigned.
---
 src/hdf5storage/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 48a3134..04656b6 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1293,9 +1293,9 @@ def decode_complex(
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
-        cdata = real.astype(cdtype)
+        cdata = np.array(real, dtype=cdtype, subok=True)
         cdata.imag = imag
-        return cdata
+        return cdata if isinstance(real, np.ndarray) else cdata[()]
     return data
 
 
-- 
2.43.0


From 602500bc12748102a9ec1bbbd69b15a8342d1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 11/48] fix: refuse writing to and deleting from Files that are
 not writable

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From dfc388804d7677d03492b53f8e111cdc65db8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 12/48] fix: leave out group_for_references wherever it is when
 iterating over a File

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..e4dc844 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2129,7 +2129,7 @@ class File(collections.abc.MutableMapping):
             it = self._file.__iter__()
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
+                return itertools.filterfalse(lambda k: k == refgrp, it)
             return it
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
-- 
2.43.0


From 96eaebf5f8211456b0cf706910ded8ed033e1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 13/48] fix: store the normalized path of group_for_references

Its other spellings were compared as they are to normalized paths.
---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index e4dc844..9ad8dd1 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -726,9 +726,12 @@ class Options:
         # set it. If it is something other than "/#refs#", then we are
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
+            # normpath keeps exactly two leading slashes.
             pth = posixpath.normpath(value)
+            if pth.startswith("//"):
+                pth = pth[1:]
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From fb077aac5e3dac2f8295ab28b47f2183062364da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 14/48] fix: only refuse paths that are inside of
 group_for_references

When it is not at the root, everything that shared its first part was
refused.
---
 src/hdf5storage/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 9ad8dd1..f5f97bc 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1906,7 +1906,7 @@ class File(collections.abc.MutableMapping):
                         posixpath.join(prefix, groupname, targetname),
                     ),
                 )
-                != "/"
+                == self._options.group_for_references
             ):
                 raise ValueError(
                     "Cannot write to paths inside the the "
@@ -2012,7 +2012,7 @@ class File(collections.abc.MutableMapping):
                         posixpath.join(prefix, groupname, targetname),
                     ),
                 )
-                != "/"
+                == self._options.group_for_references
             ):
                 raise ValueError(
                     "Cannot read from paths inside the the "
-- 
2.43.0


From d486be0ae728219494ca6c7e9e22285566865afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 15/48] fix: don't let Files see or delete what is in
 group_for_references

---
 src/hdf5storage/__init__.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index f5f97bc..c84f8e8 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2089,6 +2089,18 @@ class File(collections.abc.MutableMapping):
             groupname, targetname = pathesc.process_path(path)
         except TypeError:
             return False
+        # Nothing inside the Group specified by
+        # options.group_for_references can be accessed.
+        if (
+            posixpath.commonpath(
+                (
+                    self._options.group_for_references,
+                    posixpath.join("/", groupname, targetname),
+                ),
+            )
+            == self._options.group_for_references
+        ):
+            return False
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
@@ -2223,6 +2235,9 @@ class File(collections.abc.MutableMapping):
             If the file is closed or it isn't writable.
         TypeError
             If `path` is an invalid type.
+        ValueError
+            If `path` is inside of
+            ``self.options.group_for_references``.
         KeyError
             If there is no object at `path` in the file.
 
@@ -2230,8 +2245,23 @@ class File(collections.abc.MutableMapping):
         # File had to be opened writable.
         if not self._writable:
             raise OSError("File is not writable.")
-        # Process the path.
+        # Process the path. We do not allow any paths inside the Group
+        # specified by options.group_for_references.
         groupname, targetname = pathesc.process_path(path)
+        if (
+            posixpath.commonpath(
+                (
+                    self._options.group_for_references,
+                    posixpath.join("/", groupname, targetname),
+                ),
+            )
+            == self._options.group_for_references
+        ):
+            raise ValueError(
+                "Cannot delete paths inside the the "
+                "Group specified by the "
+                "group_for_references option.",
+            )
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
-- 
2.43.0


From 4ee58c0482705485e4116e5896db0aaf249513a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 16/48] fix: refuse paths with nulls, which HDF5 would cut off
 there

With one, anything in group_for_references could be read, overwritten
and deleted.
---
 src/hdf5storage/__init__.py | 2 +-
 src/hdf5storage/pathesc.py  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index c84f8e8..7a53cba 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2087,7 +2087,7 @@ class File(collections.abc.MutableMapping):
         """
         try:
             groupname, targetname = pathesc.process_path(path)
-        except TypeError:
+        except (TypeError, ValueError):
             return False
         # Nothing inside the Group specified by
         # options.group_for_references can be accessed.
diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 1710119..5f04dc7 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -280,6 +280,8 @@ def process_path(pth: Path) -> Tuple[str, str]:
     ------
     TypeError
         If `pth` is not of the right type.
+    ValueError
+        If `pth` has an unescaped null.
 
     See Also
     --------
@@ -320,6 +322,11 @@ def process_path(pth: Path) -> Tuple[str, str]:
             "those three.",
         )
 
+    # HDF5 ends paths at the first null, so something else than what is
+    # asked for would be accessed.
+    if "\x00" in p:
+        raise ValueError("Nulls in pth must be escaped.")
+
     # Remove double slashes and a non-root trailing slash.
     path = posixpath.normpath(p)
 
-- 
2.43.0


From 693ef3a44073388f658b26ad3f7cdc143fa76c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 17/48] fix: store dicts with blank keys or keys with
 surrogates as keys and values

Neither can be the name of a Dataset or Group.
---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9a70476..7f649f8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1806,6 +1806,10 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
+                # HDF5 names are UTF-8 and can't be blank.
+                if len(field_str.encode("UTF-8")) == 0:
+                    any_non_valid_str_keys = True
+                    break
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
             except:
-- 
2.43.0


From b518cc001e08aa821ec4557b056ea144ee6c960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 18/48] fix: store dicts with keys that have the same name as
 keys and values

'a' and b'a' are different keys, but one of the values was lost.
---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 7f649f8..e44a969 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1815,6 +1815,9 @@ class PythonDictMarshaller(TypeMarshaller):
             except:
                 any_non_valid_str_keys = True
                 break
+        # Keys of different types can have the same name.
+        if len(set(keys_as_str)) != len(keys_as_str):
+            any_non_valid_str_keys = True
 
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
-- 
2.43.0


From beb3776a8757544145bb3bdc046f8ce1f2230368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 19/48] fix: escape the names of the Datasets for the keys and
 values of dicts

They are escaped when reading, so the keys could not be found.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e44a969..3169054 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1851,7 +1851,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From a8e2359f1ebe9ab1e045315e58c3dfa5c07c9878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 20/48] fix: replace existing MATLAB_fields without comparing
 them

The arrays of the characters of names that are longer than one character
can't be compared by array_equal, so overwriting a dict failed.
---
 src/hdf5storage/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 04656b6..f874636 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1449,8 +1449,8 @@ def set_attributes_all(
             if k not in existing:
                 attrs.create(k, val)
             elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
-                    attrs.create(k, val)
+                # Arrays of arrays can't be compared in general.
+                attrs.create(k, val)
             else:
                 try:
                     if (
-- 
2.43.0


From 617f900f7c6e687efa5ac7a81d5234c2674444f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 21/48] fix: replace existing Attributes of another type or
 shape

The old value was left, so the data was read as what had been there.
---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f874636..83e88ac 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1458,6 +1458,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From bf6a0002caae7141f7620c15556834fc2b5100ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 22/48] fix: write the H5PATH of what is in Groups with
 non-ASCII names

---
 src/hdf5storage/Marshallers.py | 2 +-
 src/hdf5storage/utilities.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 3169054..976318c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1872,7 +1872,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = convert_to_numpy_bytes(grp2.name)
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 83e88ac..bb6b148 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1443,7 +1443,7 @@ def set_attributes_all(
             attrs.create(k, [convert_to_str(s) for s in value], dtype=str_arr_dtype)
         else:
             if kind == "string":
-                val = np.bytes_(value)
+                val = convert_to_numpy_bytes(value)
             else:
                 val = value
             if k not in existing:
-- 
2.43.0


From df47b09e761b11699c161c80349b326ae27a84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 23/48] fix: keep group_for_references when deleting unused
 variables

What had been written to it by the same File was lost, as was all that
was written to it afterwards.
---
 src/hdf5storage/Marshallers.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 976318c..066f55f 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -32,6 +32,7 @@ import contextlib
 import datetime
 import importlib
 import inspect
+import posixpath
 import sys
 import warnings
 from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
@@ -885,7 +886,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
             if f.options.delete_unused_variables:
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    # What group_for_references has is still needed.
+                    if posixpath.commonpath(
+                        (
+                            f.options.group_for_references,
+                            posixpath.join(dsetgrp.name, field),
+                        ),
+                    ) != posixpath.join(dsetgrp.name, field):
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1865,7 +1873,14 @@ class PythonDictMarshaller(TypeMarshaller):
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                # What group_for_references has is still needed.
+                if posixpath.commonpath(
+                    (
+                        f.options.group_for_references,
+                        posixpath.join(grp2.name, field),
+                    ),
+                ) != posixpath.join(grp2.name, field):
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
-- 
2.43.0


From ec1bc2dfc69cf7582c0965e22c0fb8aaeebc26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 24/48] fix: don't write values of dicts to
 group_for_references

A key with its name in a dict that was written to its parent replaced
it, losing everything it had.
---
 src/hdf5storage/Marshallers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 066f55f..77e73a0 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1814,8 +1814,15 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
-                # HDF5 names are UTF-8 and can't be blank.
-                if len(field_str.encode("UTF-8")) == 0:
+                # HDF5 names are UTF-8 and can't be blank. And
+                # group_for_references can't be written to.
+                if (
+                    len(field_str.encode("UTF-8")) == 0
+                    or posixpath.normpath(
+                        posixpath.join(grp.name, name, field_str),
+                    )
+                    == f.options.group_for_references
+                ):
                     any_non_valid_str_keys = True
                     break
                 keys_as_str.append(field_str)
-- 
2.43.0


From 7625219baaefccb0b7712e03f367e6883a251afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 25/48] fix: keep nulls at the end of str, bytes, and bytearray

---
 src/hdf5storage/Marshallers.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 77e73a0..60f5859 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1706,12 +1706,21 @@ class PythonStringMarshaller(NumpyScalarArrayMarshaller):
         # type (just look up the entry in types). Otherwise, return it
         # as is.
         type_string = convert_attribute_to_string(attributes["Python.Type"])
+        # numpy drops nulls from the end of text, so they need to be put
+        # back using the number of bits it had.
+        underlying_type = convert_attribute_to_string(
+            attributes["Python.numpy.UnderlyingType"],
+        )
+        nbits = 0
+        for kind in ("bytes", "str"):
+            if underlying_type is not None and underlying_type.startswith(kind):
+                nbits = int(underlying_type[len(kind) :] or 0)
         if type_string == "str":
-            return convert_to_str(data)
+            return convert_to_str(data).ljust(nbits // 32, "\x00")
         if type_string == "bytes":
-            return bytes(data)
+            return bytes(data).ljust(nbits // 8, b"\x00")
         if type_string == "bytearray":
-            return bytearray(data)
+            return bytearray(data).ljust(nbits // 8, b"\x00")
         return data
 
 
-- 
2.43.0


From c1d1beebb7672fdd13378ed422c17238cbf81b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 26/48] fix: write 0d arrays of numpy.str_ when converting to
 UTF-16

---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 60f5859..6e323eb 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -781,7 +781,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 or (
                     isinstance(data_to_store, np.ndarray)
                     and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
+                    != np.atleast_1d(data_to_store).shape[-1]
+                    * (data_to_store.dtype.itemsize // 4)
                 )
             ):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
-- 
2.43.0


From b783e31af853f000f85c77f0bea7169c122e20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 27/48] fix: read fields of text of different lengths of
 structured arrays

Blank text was an error and the other fields were read as objects.
---
 src/hdf5storage/Marshallers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 6e323eb..39a5227 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1288,11 +1288,19 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 all_same = True
                 try:
                     for x in v.flat:
-                        if dt != x.dtype or sp != x.shape:
+                        # Text has the size of its longest element.
+                        if type(first) in (np.bytes_, np.str_) and type(x) == type(
+                            first,
+                        ):
+                            dt = max(dt, x.dtype, key=lambda d: d.itemsize)
+                        elif dt != x.dtype or sp != x.shape:
                             all_same = False
                             break
                 except:
                     all_same = False
+                # Fields can't have a blank type.
+                if type(first) in (np.bytes_, np.str_) and dt.itemsize == 0:
+                    dt = np.dtype((dt.type, 1))
 
                 # If they are all the same, then dt and shape should be
                 # used. Otherwise, it has to be object.
-- 
2.43.0


From 03fda14f93e16a2c343923eba7189176435b22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 28/48] fix: store the fold of datetime.time and
 datetime.datetime

---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 39a5227..9e74353 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2266,6 +2266,9 @@ class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
         }
         if type(data) in attrs:
             cdata = {k: getattr(data, k) for k in attrs[type(data)]}
+            # It is zero if left out.
+            if getattr(data, "fold", 0) != 0:
+                cdata["fold"] = data.fold
         elif type(data) == datetime.timezone:
             parts = data.__reduce__()[1]
             if len(parts) == 1:
-- 
2.43.0


From 09b6d006c11cae946561c92b42640c22c48d01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 29/48] fix: don't keep other fields when writing what is
 stored as a dict

Slices, dates, and the like could not be read or were wrong after they
were written over a Group with other fields or of more fields.
---
 src/hdf5storage/Marshallers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9e74353..df5c2a0 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1894,9 +1894,14 @@ class PythonDictMarshaller(TypeMarshaller):
             values = tuple(data.values())
 
         # Delete any Datasets/Groups not in names if that option is set
-        # or if we are not storing the keys and values individually
+        # or if we are not storing the keys and values individually or if
+        # it isn't really a dict, but all that a type is made from.
 
-        if any_non_valid_str_keys or f.options.delete_unused_variables:
+        if (
+            any_non_valid_str_keys
+            or f.options.delete_unused_variables
+            or type(data) not in self.types
+        ):
             for field in set(grp2).difference(set(names)):
                 # What group_for_references has is still needed.
                 if posixpath.commonpath(
-- 
2.43.0


From fa6faa2e418fbaa6282f92181b826bcf82e03e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 30/48] fix: make columns of 1d arrays when oned_as is 'column'

The option had no effect as the transposed array was not used.
---
 src/hdf5storage/Marshallers.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index df5c2a0..a5de82c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -737,6 +737,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         if isinstance(data_to_store, np.core.records.recarray):
             data_to_store = data_to_store.view(np.ndarray)
 
+        # For 1d arrays that will be made 2d, an option determines
+        # whether they become row (done when they are made 2d) or column
+        # vectors. This must be done while each text is one element.
+        if (
+            f.options.make_atleast_2d
+            and f.options.oned_as == "column"
+            and len(data_to_store.shape) == 1
+        ):
+            data_to_store = data_to_store.reshape((-1, 1))
+
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
         # converting to uint16's and checking that each one's value is
@@ -789,15 +799,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             else:
                 data_to_store = new_data2
 
-        # Convert scalars to arrays if that option is set. For 1d
-        # arrays, an option determines whether they become row or column
-        # vectors.
+        # Convert scalars and 1d arrays to 2d arrays if that option is
+        # set.
 
         if f.options.make_atleast_2d:
-            new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
-            data_to_store = new_data3
+            data_to_store = np.atleast_2d(data_to_store)
 
         # Reverse the dimension order if that option is set.
 
-- 
2.43.0


From 3b2fe6cbfc533a4597a3c9a0b4838b87c271b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 31/48] fix: convert arrays of numpy.bytes_ that are not
 contiguous to UTF-16

---
 src/hdf5storage/Marshallers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a5de82c..a307c41 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -757,9 +757,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             if data_to_store.nbytes == 0:
                 data_to_store = np.zeros((0,), np.uint16)
             else:
+                # Only contiguous data can be viewed as its bytes.
                 new_data = (
-                    np.atleast_1d(data_to_store)
-                    .view(np.ndarray)
+                    np.ascontiguousarray(np.atleast_1d(data_to_store).view(np.ndarray))
                     .view(np.uint8)
                     .astype(np.uint16)
                 )
-- 
2.43.0


From 6ecb94ddbe9b7729a5a133316f6320fa6d98623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 32/48] fix: take lists as paths to write to

---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 7a53cba..547ff05 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1842,6 +1842,9 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Paths that are mutable sequences cannot be keys.
+        if isinstance(path, list):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2214,7 +2217,7 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
-        self.writes({path: data})
+        self.write(data, path)
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
         """Deletes one path from the file.
-- 
2.43.0


From f6e90f0c0be82b4be872edc0854bf996a9663ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 33/48] fix: store structured arrays with text that HDF5 cannot
 store as groups

---
 src/hdf5storage/Marshallers.py |  4 +++-
 src/hdf5storage/utilities.py   | 31 +++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a307c41..e406501 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -54,6 +54,7 @@ from .utilities import (
     convert_to_str,
     decode_complex,
     does_dtype_have_a_zero_shape,
+    does_dtype_have_unstorable_text,
     encode_complex,
     set_attributes_all,
 )
@@ -851,7 +852,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # converting that field to a HDF5 Reference types, it will just
         # be written as a Group instead (dtypes have a useful hasobject
         # method). The same goes for if there is a null inside its
-        # dtype.
+        # dtype or text that h5py can't write.
         #
         # A flag, wrote_as_struct, is set depending on which path is
         # taken, which is then passed onto write_metadata.
@@ -865,6 +866,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data_to_store.dtype.hasobject or "\\x00" in str(data_to_store.dtype)
                 )
                 or does_dtype_have_a_zero_shape(data_to_store.dtype)
+                or does_dtype_have_unstorable_text(data_to_store.dtype)
             )
         ):
             wrote_as_struct = True
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index bb6b148..8ed8829 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -99,6 +99,37 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
     return False
 
 
+def does_dtype_have_unstorable_text(dt: np.dtype) -> bool:
+    """Determine whether a dtype (or its fields) have text HDF5 can't store.
+
+    h5py cannot write ``numpy.str_`` nor any text that has no
+    characters, whether they are the dtype itself or one of its fields
+    recursively.
+
+    Parameters
+    ----------
+    dt : numpy.dtype
+        The dtype to check.
+
+    Returns
+    -------
+    yesno : bool
+        Whether `dt` or one of its fields is ``numpy.str_`` or is
+        ``numpy.bytes_`` with no characters.
+
+    """
+    components = [dt]
+    while len(components) != 0:
+        c = components.pop()
+        if c.kind == "U" or (c.kind == "S" and c.itemsize == 0):
+            return True
+        if c.fields is not None:
+            components.extend([v[0] for v in c.fields.values()])
+        if c.base != c:
+            components.append(c.base)
+    return False
+
+
 def read_all_attributes_into(
     attrs: h5py.AttributeManager,
     out: MutableMapping[str, Any],
-- 
2.43.0


From cf7720f01cd339729dc361e13658bf75b895480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 34/48] fix: read structures some of whose fields are not there

---
 src/hdf5storage/Marshallers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e406501..97cd653 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1277,6 +1277,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 fields.extend(sorted(extra_fields))
             else:
                 fields = sorted(struct_data)
+            # Those that are missing or could not be read are left out.
+            fields = [k for k in fields if k in struct_data]
 
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
             for k in fields:
@@ -1329,10 +1331,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # make is an np.int8([]). Yes, one byte will be wasted, but
             # at least no errors will happen.
             dtwhole = np.dtype(dt_whole)
+            whole_shape = v.shape if fields else (1,)
             if dtwhole.itemsize == 0:
-                data = np.zeros(shape=v.shape, dtype="int8").astype(dtwhole)
+                data = np.zeros(shape=whole_shape, dtype="int8").astype(dtwhole)
             else:
-                data = np.zeros(shape=v.shape, dtype=dtwhole)
+                data = np.zeros(shape=whole_shape, dtype=dtwhole)
 
             for k, v in struct_data.items():
                 # There is no sense iterating through the elements if
-- 
2.43.0


From dc3e8da67fbdc0748ff4d7294321eee38a6052e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 35/48] fix: leave nothing of the previous value in place of a
 discarded member

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 97cd653..5574671 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -953,6 +953,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         esc_attrs,
                         np.prod(new_data4.shape) != 1,
                     )
+                elif esc_field in dsetgrp:
+                    # What was there before isn't part of data.
+                    del dsetgrp[esc_field]
         else:
             wrote_as_struct = False
 
@@ -1938,6 +1941,9 @@ class PythonDictMarshaller(TypeMarshaller):
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
+            elif k in grp2:
+                # What was there before isn't part of data.
+                del grp2[k]
         # Done
         return grp2
 
-- 
2.43.0


From fb2869989e05d056d4ecb25efc9b6aff58bf4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 36/48] fix: read the fields of MATLAB structure arrays with
 their dimensions as in MATLAB as dicts too

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 5574671..e2ac6d3 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1249,6 +1249,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     struct_data[unescaped_k] = f.read_data(dset, k)
 
             if matlab_class == "struct" and f.options.structs_as_dicts:
+                # The dimensions of Reference arrays to all the values
+                # are still in the order they are stored.
+                if is_multi_element:
+                    return {k: np.transpose(v) for k, v in struct_data.items()}
                 return struct_data
 
             # If it isn't multi element, we need to pack all the values
-- 
2.43.0


From d0781e48c42f3cbe3c491ead4be46a0197d95f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 37/48] fix: write over data that is compressed with lzf

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e2ac6d3..b118dcf 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -975,6 +975,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 and data_to_store.nbytes >= f.options.compress_size_threshold
             ):
                 filters["compression"] = f.options.compression_algorithm
+                filters["compression_opts"] = None
                 if filters["compression"] == "gzip":
                     filters["compression_opts"] = f.options.gzip_compression_level
                 filters["shuffle"] = f.options.shuffle_filter
-- 
2.43.0


From 78f25e49a88fb2735e12974e0133cbd77c33a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 38/48] fix: give no name in the references group twice

The name of an object is drawn before its elements are written but the
object is made after them, so an element could be given the same name
and be overwritten by the object.
---
 src/hdf5storage/utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8ed8829..d39629f 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -39,7 +39,7 @@ import copy
 import posixpath
 import random
 import sys
-from typing import Any, Dict, List, Optional, Tuple, Type, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
 
 import h5py
 import numpy as np
@@ -229,6 +229,10 @@ class LowLevelFile:
         # Length in characters we will use for random names in the
         # references Group.
         self._refs_group_name_length: int = 16
+        # The random names that were given already. An object is only
+        # made after its elements, so its name might not be in the
+        # references Group yet when theirs are needed.
+        self._refs_group_given_names: Set[str] = set()
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -670,8 +674,9 @@ class LowLevelFile:
         fmt = f"%0{self._refs_group_name_length}x"
         bits = self._refs_group_name_length * 4
         name = fmt % random.getrandbits(bits)
-        while name in self._refs_group:
+        while name in self._refs_group or name in self._refs_group_given_names:
             name = fmt % random.getrandbits(bits)
+        self._refs_group_given_names.add(name)
         return name
 
 
-- 
2.43.0


From 8fad6622d210c6a4b42a061721999fb7ea7ba3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 39/48] fix: read only members of a Group as fields of a dict

A field name in the Attributes that is a path to the Group itself (such
as '.') made reading recurse, and two of them made it never end.
(C33)
---
 src/hdf5storage/Marshallers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b118dcf..6db4264 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2114,7 +2114,12 @@ class PythonDictMarshaller(TypeMarshaller):
                 "U": convert_to_numpy_str,
             }
             items = []
+            members = set(grp2)
             for i, k in enumerate(fields):
+                # Paths to something other than a member (such as the
+                # Group itself) must not be followed.
+                if k not in members:
+                    continue
                 with contextlib.suppress(Exception):
                     uk = unescape_path(k)
                     # We must exclude group_for_references
-- 
2.43.0


From 91f4f11278adec1ae0dc64d07d46ab86cefaa9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 40/48] fix: PurePaths and Sequences without parts name the
 root Group

---
 src/hdf5storage/pathesc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 5f04dc7..49c1618 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -296,9 +296,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
@@ -315,7 +315,7 @@ def process_path(pth: Path) -> Tuple[str, str]:
                     "Elements of p must be str, bytes, or pathlib.PurePath.",
                 )
             parts_seq.append(escape_path(val))
-        p = posixpath.join(*parts_seq)
+        p = posixpath.join("", *parts_seq)
     else:
         raise TypeError(
             "p must be str, bytes, pathlib.PurePath, or an Sequence solely of one of "
-- 
2.43.0


From b97acbf0a60045a43a87efaf83a85f6ef0dd4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 41/48] fix: store dicts with very many keys as keys and values

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 6db4264..aa2d789 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1870,6 +1870,12 @@ class PythonDictMarshaller(TypeMarshaller):
         # Keys of different types can have the same name.
         if len(set(keys_as_str)) != len(keys_as_str):
             any_non_valid_str_keys = True
+        # The Attributes that list the fields can't have more than 64 KiB,
+        # at 16 bytes per field.
+        if len(keys_as_str) > 4000 and (
+            f.options.store_python_metadata or f.options.matlab_compatible
+        ):
+            any_non_valid_str_keys = True
 
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
-- 
2.43.0


From 63e83e5f4378dd41210b4f6f33a066a46885f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:12 +0000
Subject: [PATCH 42/48] fix: store the shape of empty text arrays

---
 src/hdf5storage/Marshallers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index aa2d789..bc767fc 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -748,6 +748,15 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         ):
             data_to_store = data_to_store.reshape((-1, 1))
 
+        # Text that is empty is converted to an array of no characters,
+        # whose shape has the characters along the last dimension.
+        empty_text_shape = None
+        if data.dtype.type in (np.bytes_, np.unicode_) and data.nbytes == 0:
+            empty_text_shape = list(np.atleast_1d(data_to_store).shape)
+            empty_text_shape[-1] *= data.dtype.itemsize // (
+                4 if data.dtype.type == np.unicode_ else 1
+            )
+
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
         # converting to uint16's and checking that each one's value is
@@ -755,8 +764,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # making them at least 1 dimensional. If it fails, they must be
         # stored as is.
         if data.dtype.type == np.bytes_ and f.options.convert_numpy_bytes_to_utf16:
-            if data_to_store.nbytes == 0:
-                data_to_store = np.zeros((0,), np.uint16)
+            if empty_text_shape is not None:
+                data_to_store = np.zeros(empty_text_shape, np.uint16)
             else:
                 # Only contiguous data can be viewed as its bytes.
                 new_data = (
@@ -799,6 +808,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
             else:
                 data_to_store = new_data2
+            if empty_text_shape is not None:
+                data_to_store = data_to_store.reshape(empty_text_shape)
 
         # Convert scalars and 1d arrays to 2d arrays if that option is
         # set.
-- 
2.43.0


From 2432e73dc2166b383ea4e4d56ae3d778f07bc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:00 +0000
Subject: [PATCH 43/48] fix: keep the order of the fields of MATLAB structures
 read as dicts

---
 src/hdf5storage/Marshallers.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index bc767fc..a5eae6a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1261,6 +1261,19 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     struct_data[unescaped_k] = f.read_data(dset, k)
 
             if matlab_class == "struct" and f.options.structs_as_dicts:
+                # The fields are put in their order, if it is given.
+                if python_fields is not None:
+                    order = [unescape_path(k) for k in python_fields]
+                elif matlab_fields is not None:
+                    order = [
+                        unescape_path(k.tobytes().decode()) for k in matlab_fields
+                    ]
+                else:
+                    order = []
+                order = [k for k in order if k in struct_data]
+                struct_data = {
+                    k: struct_data[k] for k in dict.fromkeys(order + list(struct_data))
+                }
                 # The dimensions of Reference arrays to all the values
                 # are still in the order they are stored.
                 if is_multi_element:
-- 
2.43.0


From 039d15c1171bd740c0766ce80a1b3f6cbfdc4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:22 +0000
Subject: [PATCH 44/48] fix: write recarrays that have structures in their
 fields

The fields of the elements of recarrays are numpy.record, for which there
is no marshaller, so writing failed with NotImplementedError.
---
 src/hdf5storage/Marshallers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a5eae6a..886fdc1 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -734,9 +734,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         data_to_store = data
 
         # recarrays must be converted to structured ndarrays in order
-        # for h5py to be able to write them.
+        # for h5py to be able to write them. The dtype has to be changed
+        # too so that the structures in its fields are numpy.void and
+        # not numpy.record.
         if isinstance(data_to_store, np.core.records.recarray):
-            data_to_store = data_to_store.view(np.ndarray)
+            data_to_store = data_to_store.view(
+                np.dtype((np.void, data_to_store.dtype)),
+                np.ndarray,
+            )
 
         # For 1d arrays that will be made 2d, an option determines
         # whether they become row (done when they are made 2d) or column
-- 
2.43.0


From f833b79025584f29e867bcf82111739add2dd1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:38 +0000
Subject: [PATCH 45/48] fix: read Groups of reference arrays of different
 shapes as fields

Without metadata, such a Group was read as a structured ndarray of the
shape of its last field: reading failed with IndexError, or elements that
are not there were made up.
---
 src/hdf5storage/Marshallers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 886fdc1..96487a8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1243,6 +1243,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # struct_data.
             struct_data = {}
             is_multi_element = True
+            shapes = set()
             for k, fld in dset.items():
                 # Unescape the name.
                 unescaped_k = unescape_path(k)
@@ -1262,9 +1263,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     != 0
                 ):
                     is_multi_element = False
+                else:
+                    shapes.add(fld.shape)
                 with contextlib.suppress(Exception):
                     struct_data[unescaped_k] = f.read_data(dset, k)
 
+            # The Reference arrays to all the values have the shape of
+            # the structured ndarray, so they can't have different ones.
+            if len(shapes) > 1:
+                is_multi_element = False
+
             if matlab_class == "struct" and f.options.structs_as_dicts:
                 # The fields are put in their order, if it is given.
                 if python_fields is not None:
-- 
2.43.0


From a656b2a7c8a2eca1fe5a08c3d122b52d2640f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 46/48] fix: leave discarded members out of the lists of fields

---
 src/hdf5storage/Marshallers.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 96487a8..9281e49 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1112,6 +1112,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # Grab the list of fields and escape them.
             field_names = [escape_path(c) for c in data.dtype.names]
 
+            # Those that were discarded aren't there.
+            if wrote_as_struct:
+                field_names = [c for c in field_names if c in dsetgrp]
+
             # Write or delete 'Python.Fields' as appropriate.
             if f.options.store_python_metadata:
                 attributes["Python.Fields"] = ("string_array", field_names)
@@ -1980,9 +1984,11 @@ class PythonDictMarshaller(TypeMarshaller):
         # be deleted).
         if f.options.matlab_compatible:
             grp2name = convert_to_numpy_bytes(grp2.name)
+        written = []
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
+                written.append(i)
                 obj_attrs = obj.attrs
                 if f.options.matlab_compatible:
                     obj_attrs.modify("H5PATH", grp2name)
@@ -1992,6 +1998,19 @@ class PythonDictMarshaller(TypeMarshaller):
             elif k in grp2:
                 # What was there before isn't part of data.
                 del grp2[k]
+
+        # If any were discarded, they must not be in the metadata.
+        if not any_non_valid_str_keys and len(written) != len(names):
+            self.write_metadata(
+                f,
+                grp2,
+                data,
+                type_string,
+                any_non_valid_str_keys=any_non_valid_str_keys,
+                keys_as_str=[keys_as_str[i] for i in written],
+                key_str_types=b"".join([key_str_types[i] for i in written]),
+            )
+
         # Done
         return grp2
 
-- 
2.43.0


From 3387f9725f1acc5781688fe74c4763bd595d3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:40 +0000
Subject: [PATCH 47/48] fix: read dtypes whose fields are in a type other than
 void

---
 src/hdf5storage/Marshallers.py | 34 ++++++++++++++++++++++++++++++++--
 src/hdf5storage/utilities.py   |  4 +++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9281e49..7bd7831 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1589,6 +1589,29 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         return data
 
 
+class _NumpyScalarTypes(ast.NodeTransformer):
+    """Replaces the names of Numpy scalar types with the types.
+
+    Only names such as ``numpy.record``, which are then constants for
+    ``ast.literal_eval``, are replaced.
+
+    """
+
+    def visit_Attribute(  # noqa: N802
+        self: "_NumpyScalarTypes",
+        node: ast.Attribute,
+    ) -> ast.AST:
+        tp = vars(np).get(node.attr)
+        if (
+            isinstance(node.value, ast.Name)
+            and node.value.id == "numpy"
+            and isinstance(tp, type)
+            and issubclass(tp, np.generic)
+        ):
+            return ast.copy_location(ast.Constant(tp), node)
+        return node
+
+
 class NumpyDtypeMarshaller(NumpyScalarArrayMarshaller):
     def __init__(self: "NumpyDtypeMarshaller") -> None:
         NumpyScalarArrayMarshaller.__init__(self)
@@ -1634,11 +1657,18 @@ class NumpyDtypeMarshaller(NumpyScalarArrayMarshaller):
         # Use the parent class version to read it and do most of the
         # work, convert to str, evaluate the literal (using
         # ast.literal_eval instead of the dangerous eval), and passing
-        # to the constructor of dtype.
+        # to the constructor of dtype. The dtypes whose fields are in a
+        # type other than numpy.void have its name in them, which isn't
+        # a literal.
         data = convert_to_str(
             NumpyScalarArrayMarshaller.read(self, f, dsetgrp, attributes),
         )
-        return np.dtype(ast.literal_eval(data))
+        try:
+            literal = ast.literal_eval(data)
+        except ValueError:
+            tree = ast.parse(data.lstrip(" \t"), mode="eval")
+            literal = ast.literal_eval(_NumpyScalarTypes().visit(tree))
+        return np.dtype(literal)
 
 
 class PythonScalarMarshaller(NumpyScalarArrayMarshaller):
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index d39629f..f5eed0b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -685,7 +685,9 @@ def convert_dtype_to_str(dtype: np.dtype) -> str:
 
     Converts a ``numpy.dtype`` to ``str`` in such a way that the result
     can be passed through ``ast.literal_eval`` and then passed directly
-    to the constructor of ``numpy.dtype`` to recreate `dtype`.
+    to the constructor of ``numpy.dtype`` to recreate `dtype`. Those
+    whose fields are in a type other than ``numpy.void`` also have its
+    name in them, such as ``numpy.record``.
 
     Warning
     -------
-- 
2.43.0


From b29a2d3c0d4d87d56deff0fab0399175b54e2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:03 +0000
Subject: [PATCH 48/48] fix: keep the types of the fields of empty structured
 arrays

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 7bd7831..8e8f404 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1439,6 +1439,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         nchars = int(int(underlying_type[len("str") :]) / 32)
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
                 elif struct_dtype is not None:
+                    # If the Dataset has these fields, it has their types
+                    # too.
+                    if isinstance(data, np.ndarray) and data.dtype.names == tuple(
+                        k for k, _ in struct_dtype
+                    ):
+                        struct_dtype = data.dtype
                     data = np.zeros(tuple(shape), dtype=struct_dtype)
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
-- 
2.43.0


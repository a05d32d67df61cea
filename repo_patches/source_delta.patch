From 0dfec7b148cdd7137df69d38f027d129ea500fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:44 +0000
Subject: [PATCH 01/58] fix: in-place subtraction of a scalar from a tensor
 added it

---
 src/sigmaepsilon/math/linalg/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3e29bef..5145b9f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -101,7 +101,7 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            self.array -= other
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-- 
2.43.0


From 7723580960e0f6c90d3f473c9104b34baf1def52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:44 +0000
Subject: [PATCH 02/58] fix: det2x2 and det3x3 never wrote their result

---
 src/sigmaepsilon/math/linalg/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 6d0f17e..63ce482 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -701,9 +701,9 @@ def ATBAw(A: ndarray, B: ndarray, w: float = 1.0) -> ndarray:
     return w * (A.T @ B @ A)
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det3x3(A, res):
-    res = (
+    res[0] = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
         - A[0, 1] * A[1, 0] * A[2, 2]
@@ -713,9 +713,9 @@ def det3x3(A, res):
     )
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det2x2(A, res):
-    res = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
+    res[0] = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
 
 
 @njit(nogil=True, cache=__cache)
-- 
2.43.0


From 30d05982dc532ce30db0d00cf50ce860f34808d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:44 +0000
Subject: [PATCH 03/58] fix: setting the axes of a frame misread non-contiguous
 and integer arrays and aliased the input

---
 src/sigmaepsilon/math/linalg/frame.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 399d3a9..c8f79d7 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -292,12 +292,10 @@ class ReferenceFrame(FrameLike):
         """
         Sets the array of the frame.
         """
-        if isinstance(value, np.ndarray):
-            buf = value
-        else:
-            if not issequence(value):
-                raise TypeError("'value' must be some kind of iterable")
-            buf = np.array(value).astype(float)
+        if not isinstance(value, np.ndarray) and not issequence(value):
+            raise TypeError("'value' must be some kind of iterable")
+        # always take a C-contiguous copy, the raw buffer is used below
+        buf = np.array(value, dtype=float, order="C")
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
             if self._weakrefs and len(self._weakrefs) > 0:
-- 
2.43.0


From 24402ba2475827724f39a47fa30a69f3cd34d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 04/58] fix: delegated array attributes showed stale data after
 in-place changes of frames and tensors

---
 src/sigmaepsilon/math/linalg/frame.py | 1 +
 src/sigmaepsilon/math/linalg/meta.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index c8f79d7..7751c62 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -305,6 +305,7 @@ class ReferenceFrame(FrameLike):
                     arr = v.show(dcm=dcm)
                     v.array = arr
             self._array = value
+            self.wrap(value)
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d7228fb..82a194a 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -460,6 +460,7 @@ class TensorLike(ArrayWrapper):
         indices = data_indices + tensor_indices[::-1]
         if inplace:
             self._array = np.transpose(self.array, indices)
+            self.wrap(self._array)
             return self
         else:
             f = self.frame
-- 
2.43.0


From 6840bf50b25683af2dd406b04bbc53f63f5732fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 05/58] fix: copy and deepcopy of tensors lost the frame of the
 tensor

---
 src/sigmaepsilon/math/linalg/tensor.py | 6 +++---
 src/sigmaepsilon/math/linalg/vector.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 6bc6309..56abe23 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy, deepcopy as dcopy
 
 import numpy as np
 from numpy import ndarray
@@ -177,9 +177,9 @@ class Tensor(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return copy(self)
 
     def deepcopy(self, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 7741607..0b5e857 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy, deepcopy as dcopy
 
 from numpy import ndarray
 import numbers
@@ -204,9 +204,9 @@ class Vector(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return copy(self)
 
     def deepcopy(self, name: str = None) -> "Vector":
         """
-- 
2.43.0


From c86d5438e4a2271d2c7d79e105c30527952e0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 06/58] fix: is_bulk returned None instead of a boolean

---
 src/sigmaepsilon/math/linalg/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 82a194a..ed1d341 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -484,7 +484,7 @@ class TensorLike(ArrayWrapper):
         if self._bulk:
             return True
         else:
-            not self.rank == len(self.array.shape)
+            return not self.rank == len(self.array.shape)
 
 
 ArrayLike = Union[ArrayWrapper, ndarray, Array]
-- 
2.43.0


From 2b9b6b39581a39b0eca3140088f42ba77f68d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 07/58] fix: default frame of tensor collections had the wrong
 dimension

---
 src/sigmaepsilon/math/linalg/meta.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index ed1d341..37fa65e 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -313,10 +313,7 @@ class TensorLike(ArrayWrapper):
                 )
 
             arr = args[0]
-            if bulk:
-                frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[1])
-            else:
-                frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[0])
+            frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[-1])
             cls_params["frame"] = frame
 
         kwargs["cls_params"] = cls_params
-- 
2.43.0


From 4c684f4366ca02a1aa9639c6a7d09f282a263d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 08/58] fix: results of operations on bulk tensors lost the
 bulk flag and could not be constructed

---
 src/sigmaepsilon/math/linalg/abstract.py | 10 +++++-----
 src/sigmaepsilon/math/linalg/meta.py     |  6 ++++--
 src/sigmaepsilon/math/linalg/tensor.py   |  4 ++--
 src/sigmaepsilon/math/linalg/utils.py    |  6 +++++-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5145b9f..5d5bcb8 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -48,7 +48,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array * other
-        return self.__class__(arr, frame=self.frame)
+        return self.__class__(arr, frame=self.frame, bulk=self._bulk)
 
     def __imatmul__(self, other) -> TensorLike:
         raise LinalgInvalidTensorOperationError("Use a dot product.")
@@ -73,7 +73,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array + other.show(self.frame)
-            return cls(arr, frame=frame)
+            return cls(arr, frame=frame, bulk=self._bulk)
         else:
             raise TypeError(
                 (
@@ -90,7 +90,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array - other.show(self.frame)
-            return cls(arr, frame=frame)
+            return cls(arr, frame=frame, bulk=self._bulk)
         else:
             raise TypeError(
                 (
@@ -118,7 +118,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array / other
-        return self.__class__(arr, frame=self.frame)
+        return self.__class__(arr, frame=self.frame, bulk=self._bulk)
 
     def __ipow__(self, other) -> TensorLike:
         raise NotImplementedError("This operation is not implemented yet.")
@@ -155,7 +155,7 @@ def negative_implementation(method, *args, **kwargs):
         raise LinalgOperationInputError(msg)
     obj = args[0]
     arr = getattr(np.negative, method)(obj._array, **kwargs)
-    return obj.__class__(arr, frame=obj.frame)
+    return obj.__class__(arr, frame=obj.frame, bulk=obj._bulk)
 
 
 @implements(np.dot)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 37fa65e..4a614b5 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -355,7 +355,7 @@ class TensorLike(ArrayWrapper):
         if is_deep:
             memo[id(self.array)] = arr
 
-        return cls(arr, frame=frame)
+        return cls(arr, frame=frame, bulk=self._bulk)
 
     @classmethod
     def _from_any_input(cls, *args, **kwargs) -> "TensorLike":
@@ -462,7 +462,9 @@ class TensorLike(ArrayWrapper):
         else:
             f = self.frame
             frame = f.__class__(np.copy(f.axes))
-            return self.__class__(np.transpose(self.array, indices), frame=frame)
+            return self.__class__(
+                np.transpose(self.array, indices), frame=frame, bulk=self._bulk
+            )
 
     @abstractmethod
     def show(self) -> Array: ...
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 56abe23..56dfe9e 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -88,7 +88,7 @@ class Tensor(AbstractTensor):
         Returns the tensor described in the dual (or reciprocal) frame.
         """
         a = self.transform_components(self.frame.Gram())
-        return self.__class__(a, frame=self.frame.dual())
+        return self.__class__(a, frame=self.frame.dual(), bulk=self._bulk)
 
     def transform_components(self, Q: ndarray) -> ndarray:
         """
@@ -169,7 +169,7 @@ class Tensor(AbstractTensor):
         fcls: Frame = self.__class__._frame_cls_
         dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
         array = self.transform_components(dcm.T)
-        return self.__class__(array, frame=self.frame)
+        return self.__class__(array, frame=self.frame, bulk=self._bulk)
 
     def copy(self, deep: bool = False, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 63ce482..dbfee5b 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -224,7 +224,11 @@ def dot(
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-            result = a.__class__(a.array @ g @ b.show(a.frame), frame=a.frame)
+            result = a.__class__(
+                a.array @ g @ b.show(a.frame),
+                frame=a.frame,
+                bulk=a._bulk or b._bulk,
+            )
         else:
             if not axes:
                 msg = "The parameter 'axes' is required for tensor contraction of general tensors."
-- 
2.43.0


From 4edde8ab15a9014b1fbbf4bdbc0f27c1a44306c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 09/58] fix: dual, orient and orient_new failed for collections
 of vectors

---
 src/sigmaepsilon/math/linalg/vector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 0b5e857..b0542da 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -114,7 +114,7 @@ class Vector(AbstractTensor):
         """
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
-        a = self.frame.Gram() @ self.array
+        a = show_vector(self.frame.Gram(), self.array)
         return self.__class__(a, frame=self.frame.dual())
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
@@ -164,7 +164,7 @@ class Vector(AbstractTensor):
         """
         if not isinstance(dcm, ndarray):
             fcls = self.__class__._frame_cls_
-            dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
+            dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
             # self.array = dcm.T @ self._array
             self.array = show_vector(dcm.T, self.array)
             # self.array = np.linalg.inv(dcm) @ self._array
@@ -192,8 +192,8 @@ class Vector(AbstractTensor):
         :func:`orient`
         """
         fcls = self.__class__._frame_cls_
-        dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
-        array = dcm.T @ self._array
+        dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
+        array = show_vector(dcm.T, self._array)
         # FIXME check if inversion is necessary or not
         # array = np.linalg.inv(dcm) @ self._array
         return Vector(array, frame=self.frame)
-- 
2.43.0


From 6edc0eedf514ada951e350fae6770cc20af673fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 10/58] fix: fourth-order tensors of dimension other than 3 and
 nested collections were not transformed correctly

---
 src/sigmaepsilon/math/linalg/tr.py | 39 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tr.py b/src/sigmaepsilon/math/linalg/tr.py
index aae5901..767718a 100644
--- a/src/sigmaepsilon/math/linalg/tr.py
+++ b/src/sigmaepsilon/math/linalg/tr.py
@@ -87,6 +87,9 @@ def _tr_tensors4x3(arr: ndarray, Q: ndarray) -> ndarray:
         return _tr_3333(arr, Q)
     elif n_shape_arr == 5 and n_shape_Q == 2:
         return _tr_3333_multi3(arr, Q)
+    elif n_shape_arr > 5 and n_shape_Q == 2:
+        res = _tr_3333_multi3(arr.reshape((-1,) + shape_arr[-4:]), Q)
+        return res.reshape(shape_arr)
     elif n_shape_arr == 5 and n_shape_Q == 3:
         return _tr_3333_multi(arr, Q)
     elif n_shape_arr == 6 and n_shape_Q == 3:
@@ -125,15 +128,16 @@ def _tr_3333_sym(array: Iterable, Q: ndarray) -> ndarray:
 
 @njit(nogil=True, parallel=False, fastmath=True, cache=__cache)
 def _tr_3333(array: ndarray, Q: ndarray) -> ndarray:
-    res = np.zeros((3, 3, 3, 3), dtype=array.dtype)
-    for p in prange(3):
-        for q in prange(3):
-            for r in prange(3):
-                for s in prange(3):
-                    for i in prange(3):
-                        for j in prange(3):
-                            for k in prange(3):
-                                for m in prange(3):
+    N = array.shape[0]
+    res = np.zeros((N, N, N, N), dtype=array.dtype)
+    for p in prange(N):
+        for q in prange(N):
+            for r in prange(N):
+                for s in prange(N):
+                    for i in prange(N):
+                        for j in prange(N):
+                            for k in prange(N):
+                                for m in prange(N):
                                     res[i, j, k, m] += (
                                         Q[i, p]
                                         * Q[j, q]
@@ -146,14 +150,15 @@ def _tr_3333(array: ndarray, Q: ndarray) -> ndarray:
 
 @njit(nogil=True, parallel=False, fastmath=True, cache=__cache)
 def _tr_3333_out(array: ndarray, Q: ndarray, out: ndarray) -> ndarray:
-    for p in prange(3):
-        for q in prange(3):
-            for r in prange(3):
-                for s in prange(3):
-                    for i in prange(3):
-                        for j in prange(3):
-                            for k in prange(3):
-                                for m in prange(3):
+    N = array.shape[0]
+    for p in prange(N):
+        for q in prange(N):
+            for r in prange(N):
+                for s in prange(N):
+                    for i in prange(N):
+                        for j in prange(N):
+                            for k in prange(N):
+                                for m in prange(N):
                                     out[i, j, k, m] += (
                                         Q[i, p]
                                         * Q[j, q]
-- 
2.43.0


From db9e96725f4520d5433ddd3ba21d5b318300ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 11/58] fix: dot product of a vector and a second order tensor
 was wrong in skew frames and for nonsymmetric tensors

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index dbfee5b..436a349 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -220,7 +220,7 @@ def dot(
             arr = (a.array @ b.show(a.frame.dual()).T).T
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = (a.array.T @ b.show(a.frame.dual()).T).T
+            arr = a.array @ a.frame.Gram() @ b.show(a.frame)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-- 
2.43.0


From f9c70fcd5a2d5a4d3149b55f918de4884a4977d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 12/58] fix: cross product of vectors depended on the frame of
 the inputs

---
 src/sigmaepsilon/math/linalg/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 436a349..831c096 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -319,8 +319,11 @@ def cross(
         ra, rb = a.rank, b.rank
         result = None
         if ra == 1 and rb == 1:
-            arr = np.cross(a.array, b.show(a.frame), axis=0)
-            result = a.__class__(arr, frame=a.frame)
+            # the components follow the rule of the cross product only in the
+            # ambient frame, not in skew, non-normalized or left-handed ones
+            arr = np.cross(a.show(), b.show(), axis=0)
+            result = a.__class__(arr)
+            result.frame = a.frame
         elif ra == 2 and rb == 1:
             arr = np.cross(a.show(), b.show(), axis=0)
             result = a.__class__(arr)
-- 
2.43.0


From ab7bcf27b01773fe3166debd7bc6f265883a43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 13/58] fix: the signed volume of left-handed frames was
 reported as positive

---
 src/sigmaepsilon/math/linalg/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 7751c62..79a3d4f 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -250,7 +250,7 @@ class ReferenceFrame(FrameLike):
         Returns the signed volume of the general parallelepiped described by the
         base vectors that make up the frame.
         """
-        return np.sqrt(np.linalg.det(self.Gram()))
+        return np.linalg.det(self.axes)
 
     def dual(self) -> "ReferenceFrame":
         """
@@ -790,7 +790,7 @@ class CartesianFrame(RectangularFrame):
         Returns the signed volume of the general parallelepiped described by the
         base vectors that make up the frame.
         """
-        return 1.0
+        return np.sign(np.linalg.det(self.axes))
 
     def dual(self) -> ReferenceFrame:
         """
-- 
2.43.0


From a477df0cf57fce06d2512df426cf2b8adc4bbda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 14/58] fix: components of frames in other frames and the
 default DCM were wrong for skew frames

---
 src/sigmaepsilon/math/linalg/frame.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 79a3d4f..72665d8 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -318,7 +318,9 @@ class ReferenceFrame(FrameLike):
         -------
         numpy.ndarray
         """
-        return self.dcm(source=target)
+        if target is None:
+            return self.axes
+        return transpose_axes(self.dcm(target=target))
 
     def dcm(
         self, *, target: "ReferenceFrame" = None, source: "ReferenceFrame" = None
@@ -359,10 +361,10 @@ class ReferenceFrame(FrameLike):
 
         """
         if source is not None:
-            S, T = source.dcm(), self.dual().dcm()
+            S, T = source.axes, self.dual().axes
             return T @ transpose_axes(S)
         elif target is not None:
-            S, T = self.dcm(), target.dual().dcm()
+            S, T = self.axes, target.dual().axes
             if len(S.shape) == 3:
                 return T @ transpose_axes(S)
             elif len(S.shape) == 2:
@@ -375,7 +377,7 @@ class ReferenceFrame(FrameLike):
                 raise NotImplementedError(msg.format(S.shape, T.shape))
         # We only get here if the function is called without arguments.
         # The DCM from the ambient frame to the current frame is returned.
-        return self.axes
+        return self.dual().axes
 
     def transpose(self, inplace: bool = False) -> "ReferenceFrame":
         """
-- 
2.43.0


From e1f391ed3e16fe62a0ed5f6d272f29bcb588cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 15/58] fix: count_cols_csr read out of bounds and did not
 count the columns of the rows

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4ab8234..4bc8042 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -460,10 +460,10 @@ def count_cols_csr(indptr: ndarray, indices: ndarray) -> ndarray:
     --------
     :class:`~sigmaepsilon.math.linalg.sparse.csr.csr_matrix`
     """
-    n = len(indptr)
+    n = len(indptr) - 1
     res = np.zeros(n, dtype=indptr.dtype)
     for i in prange(n):
-        res[i] = indices[indptr[i + 1]] - indices[indptr[i]]
+        res[i] = indptr[i + 1] - indptr[i]
     return res
 
 
-- 
2.43.0


From 0c75576c00f62e17d939d1d3954771517d4f8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 16/58] fix: centers of bins with integer edges were truncated

---
 src/sigmaepsilon/math/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/hist.py b/src/sigmaepsilon/math/hist.py
index b74a9f2..02d4af9 100644
--- a/src/sigmaepsilon/math/hist.py
+++ b/src/sigmaepsilon/math/hist.py
@@ -17,7 +17,7 @@ def histogram(data, bins, *args, return_edges=False, **kwargs):
 
 @njit(nogil=True, parallel=True, cache=True)
 def bin_centers(bin_edges: np.ndarray):
-    res = np.zeros(bin_edges.shape[0] - 1, dtype=bin_edges.dtype)
+    res = np.zeros(bin_edges.shape[0] - 1, dtype=np.float64)
     for i in prange(res.shape[0]):
         res[i] = (bin_edges[i] + bin_edges[i + 1]) / 2
     return res
-- 
2.43.0


From fbd0e6c2ab1e4d8036b1b56a4ada9afb7e599e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 17/58] fix: indices_of_equal_rows missed pairs of equal
 integer rows and truncated row differences

---
 src/sigmaepsilon/math/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4bc8042..e313a2f 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -390,11 +390,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        if square:
-            inds = np.flatnonzero((x == y).all(1))
-            return inds, np.copy(inds)
-        else:
-            return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_equal_rows_njit(x, y, 0)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
@@ -404,7 +400,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
-    R = np.zeros((x.shape[0], y.shape[0]), dtype=x.dtype)
+    R = np.zeros((x.shape[0], y.shape[0]))
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
@@ -418,7 +414,7 @@ def indices_of_equal_rows_square_njit(x: ndarray, y: ndarray, tol=1e-12):
         n = nx
     else:
         n = ny
-    R = np.zeros((n, n), dtype=x.dtype)
+    R = np.zeros((n, n))
     for i in prange(n):
         for j in prange(n):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
-- 
2.43.0


From 7c1ab500a49bd41601e8df41bee3792437910030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 18/58] fix: to_range_1d truncated integers and added an axis
 to sequences

---
 src/sigmaepsilon/math/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index e313a2f..36c1b67 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -493,7 +493,7 @@ def repeat_diagonal_2d(a: ndarray, N: int = 2) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _to_range_1d_(vals: ndarray, source: ndarray, target: ndarray):
-    res = np.zeros_like(vals)
+    res = np.zeros(vals.shape)
     s0, s1 = source
     t0, t1 = target
     b = (t1 - t0) / (s1 - s0)
@@ -510,11 +510,7 @@ def to_range_1d(
     target: ndarray = None,
 ):
     if not isinstance(vals, ndarray):
-        vals = np.array(
-            [
-                vals,
-            ]
-        )
+        vals = atleast1d(vals)
     source = np.array([0.0, 1.0]) if source is None else np.array(source)
     target = np.array([-1.0, 1.0]) if target is None else np.array(target)
     return _to_range_1d_(vals, source, target)
-- 
2.43.0


From 8c218c4c959755cb58d38e1cb241074aded06f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 19/58] fix: float and integer arrays of other than the default
 precision were not recognized

---
 src/sigmaepsilon/math/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/logical.py b/src/sigmaepsilon/math/logical.py
index 71348a8..c406b34 100644
--- a/src/sigmaepsilon/math/logical.py
+++ b/src/sigmaepsilon/math/logical.py
@@ -16,14 +16,14 @@ def isfloatarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is a float array.
     """
-    return np.issubdtype(a.dtype, float)
+    return np.issubdtype(a.dtype, np.floating)
 
 
 def isintegerarray(a: ndarray) -> bool:
     """
     Returns `True` if `a` is an integer array.
     """
-    return np.issubdtype(a.dtype, int)
+    return np.issubdtype(a.dtype, np.integer)
 
 
 def isintarray(a: ndarray) -> bool:
-- 
2.43.0


From f550376d5ed278c0d184285f051948cd7ee6b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 20/58] fix: points between coincident endpoints were not
 numbers and integer endpoints failed

---
 src/sigmaepsilon/math/linalg/utils.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 831c096..5a38adb 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -664,12 +664,10 @@ def inv_sym_3x3(m: Matrix, as_adj_det=False) -> Matrix:
 def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
-    length = np.linalg.norm(dist)
-    s = np.linspace(0, length, n)
-    res = np.zeros((n, nD), dtype=p1.dtype)
-    d = dist / length
+    s = np.linspace(0, 1, n)
+    res = np.zeros((n, nD))
     for i in prange(n):
-        res[i] = p1 + s[i] * d
+        res[i] = p1 + s[i] * dist
     return res
 
 
@@ -864,11 +862,7 @@ def norm2d(A) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _linspace(p0: ndarray, p1: ndarray, N):
-    s = p1 - p0
-    L = np.linalg.norm(s)
-    n = s / L
-    djac = L / (N - 1)
-    step = n * djac
+    step = (p1 - p0) / (N - 1)
     res = np.zeros((N, p0.shape[0]))
     res[0] = p0
     for i in prange(1, N - 1):
-- 
2.43.0


From 07ceafd5186d02948dac69ae4e59995c4e0377e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 21/58] fix: the rooted level structure of a disconnected graph
 never terminated

---
 src/sigmaepsilon/math/graph/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/graph/utils.py b/src/sigmaepsilon/math/graph/utils.py
index 7702be0..d6379cb 100644
--- a/src/sigmaepsilon/math/graph/utils.py
+++ b/src/sigmaepsilon/math/graph/utils.py
@@ -48,9 +48,13 @@ def rooted_level_structure(adj: csr_matrix, root: int = 0) -> Dict:
         for iN in range(nN):
             if nodes[iN] == 1:
                 levelset[iN] = 0
+        front = np.where(levelset == 1)[0]
+        if len(front) == 0:
+            # the rest of the nodes is not reachable from the root
+            break
         level += 1
-        rls[level] = np.where(levelset == 1)[0]
-        nE += len(rls[level])
+        rls[level] = front
+        nE += len(front)
         for iN in range(nN):
             if levelset[iN] == 1:
                 nodes[iN] = 1
-- 
2.43.0


From 45862c3933f9a67a15b77c8b5ec1221c8153fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 22/58] fix: nearest neighbour search ignored the distance
 limit and query options and failed without sampling points

---
 src/sigmaepsilon/math/approx/mls.py | 9 +++++++--
 src/sigmaepsilon/math/knn.py        | 9 +++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 23c3524..32b14b4 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -159,8 +159,13 @@ class MLSApproximator:
         self._factors = val
 
     def _calc_factors_and_neighbours(self, X_S: ndarray, X_T: ndarray) -> None:
-        self.neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        self.factors = np.ones_like(self.neighbours) / self.neighbours.shape[-1]
+        neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
+        neighbours = neighbours.reshape(len(X_T), -1)
+        # missing neighbours are indicated with an index equal to the number of points
+        found = neighbours < len(X_S)
+        self.neighbours = np.where(found, neighbours, 0)
+        with np.errstate(invalid="ignore"):
+            self.factors = found / found.sum(axis=-1, keepdims=True)
 
     @staticmethod
     def _get_neighbours(
diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 234184d..209b039 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -88,11 +88,12 @@ def k_nearest_neighbours(
 
     """
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
-    query_kwargs = {} if query_kwargs is None else query_kwargs
+    query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
+    Y = X if Y is None else Y
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
-        max_distance = np.inf if max_distance is None else max_distance
-        query_kwargs["distance_upper_bound"] = max_distance
+        if max_distance is not None:
+            query_kwargs["distance_upper_bound"] = max_distance
         if version.parse(__scipy_version__) < version.parse("1.6.0"):
             warnings.warn(
                 "Multithreaded execution of a KNN search is "
@@ -101,7 +102,7 @@ def k_nearest_neighbours(
             )
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
-            d, i = tree.query(Y, k=k, workers=workers)
+            d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From 93f8f4dabcce74fbecc0f809bdf3383e07a6b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 23/58] fix: MLSApproximator truncated approximations of
 integer data

---
 src/sigmaepsilon/math/approx/mls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 32b14b4..11a3201 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -197,6 +197,8 @@ class MLSApproximator:
         factors = self.factors
 
         data = self.Y_S
+        if not np.issubdtype(data.dtype, np.inexact):
+            data = data.astype(float)
         if len(self.Y_S.shape) == 1:
             data = atleast2d(data, back=True)
 
-- 
2.43.0


From 070500b1976a4e7176ad50b6dcb18a0fca7fcf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:22 +0000
Subject: [PATCH 24/58] fix: coefficients of functions with irrational or
 unexpanded factors were lost

---
 src/sigmaepsilon/math/function/function.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0feb7e2..22bb6d5 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -2,7 +2,7 @@ from typing import TypeVar, Callable, Iterable
 from collections import OrderedDict
 import warnings
 
-from sympy import Expr, degree, latex
+from sympy import Expr, degree, expand, latex
 from sympy.core.numbers import One
 import numpy as np
 
@@ -306,8 +306,11 @@ class Function(MetaFunction):
 
         try:
             d = OrderedDict({x: 0 for x in self.variables})
-            expr = self.expr.simplify()
-            d.update(expr.as_coefficients_dict())
+            expr = expand(self.expr.simplify())
+            for key, value in expr.as_coefficients_dict().items():
+                # separate irrational and symbolic factors from the variables
+                factor, term = key.as_independent(*self.variables, as_Add=False)
+                d[term] = d.get(term, 0) + value * factor
             if not normalize:
                 return d
             else:
-- 
2.43.0


From 18d13c57571aebd0de5b031cb28bb4029ba66822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:22 +0000
Subject: [PATCH 25/58] fix: asking for the linearity of non-polynomial and
 zero functions raised an error

---
 src/sigmaepsilon/math/function/function.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 22bb6d5..3b64b19 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -234,9 +234,9 @@ class Function(MetaFunction):
         Returns `True` if the function is at most linear in all of its variables.
         """
         if self.is_symbolic:
-            return all(
-                np.array([degree(self.expr, v) for v in self.variables], dtype=int) <= 1
-            )
+            if not self.expr.is_polynomial(*self.variables):
+                return False
+            return all(degree(self.expr, v) <= 1 for v in self.variables)
         else:
             return self.f2 is None
 
-- 
2.43.0


From 2152566bcea96f29a3c330cf5fe1a9832d011b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 26/58] fix: substitution was sequential, missed variables with
 assumptions and returned functions of the wrong variables

---
 src/sigmaepsilon/math/function/function.py | 16 ++++++++++++++--
 src/sigmaepsilon/math/function/symutils.py |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 3b64b19..58f795d 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -359,8 +359,20 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
-        kwargs = self._sympy_to_func(expr=expr, variables=variables)
+        if variables is None:
+            variables = self.variables
+
+        # variables can be referred to by name too
+        symbols = {str(v): v for v in self.variables}
+        variables = [symbols.get(str(v), v) for v in variables]
+        expr = substitute(self.expr, values, variables)
+
+        # the result depends on the variables not substituted and on the ones that
+        # are introduced by the substituted values
+        symbols = expr.free_symbols
+        free = [v for v in self.variables if v not in variables or v in symbols]
+        free += sorted(symbols.difference(self.variables), key=str)
+        kwargs = self._sympy_to_func(expr=expr, variables=free or self.variables)
 
         if not inplace:
             return Function(None, None, None, **kwargs)
diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 190ed39..fad4eeb 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -92,7 +92,9 @@ def substitute(
         variables = tuple(expr.free_symbols)
 
     if not as_string:
-        return expr.subs([(v, val) for v, val in zip(variables, values)])
+        return expr.subs(
+            [(v, val) for v, val in zip(variables, values)], simultaneous=True
+        )
     else:
         return expr.subs([(str(v), val) for v, val in zip(variables, values)])
 
-- 
2.43.0


From 57812997c24389e63d43df4588cc74056a56169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 27/58] fix: linear programs failed if a function did not
 depend on every variable of the problem

---
 src/sigmaepsilon/math/optimize/lp.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index a40c1f6..c62cd48 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -195,13 +195,12 @@ class LinearProgrammingProblem:
         n_x = len(self.variables)
 
         coeffs = self.obj.linear_coefficients(normalize=True)
-        c = np.array([coeffs[x_] for x_ in self.variables]).astype(float)
+        c = np.array([coeffs.get(x_, 0) for x_ in self.variables]).astype(float)
         if maximize:
             c *= -1
 
         A_ub, b_ub, A_eq, b_eq = 4 * [None]
 
-        x_zero = np.zeros((n_x,))
         SMALLNUM = np.nextafter(0, 1)
 
         if n_eq > 0:
@@ -220,15 +219,15 @@ class LinearProgrammingProblem:
                 coeffs = eq.linear_coefficients(normalize=True)
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-                        val = coeffs[x_]
+                        val = coeffs.get(x_, 0)
                         if val != 0:
                             A_eq_data.append(val)
                             A_eq_rows.append(i)
                             A_eq_cols.append(j)
                 else:
-                    A_eq[i] = [coeffs[x_] for x_ in self.variables]
+                    A_eq[i] = [coeffs.get(x_, 0) for x_ in self.variables]
 
-                b_eq[i] = -eq(x_zero)
+                b_eq[i] = -eq(np.zeros(len(eq.variables)))
 
             if self._sparsify:
                 A_eq = sparse.csr_matrix(
@@ -266,15 +265,18 @@ class LinearProgrammingProblem:
 
                 if self._sparsify:
                     for j, x_ in enumerate(self.variables):
-                        val = coeffs[x_] * A_ub_multiplier
+                        val = coeffs.get(x_, 0) * A_ub_multiplier
                         if val != 0:
                             A_ub_data.append(val)
                             A_ub_rows.append(i)
                             A_ub_cols.append(j)
                 else:
-                    A_ub[i] = [coeffs[x_] * A_ub_multiplier for x_ in self.variables]
+                    A_ub[i] = [
+                        coeffs.get(x_, 0) * A_ub_multiplier for x_ in self.variables
+                    ]
 
-                b_ub[i] = -ieq(x_zero) * b_ub_multiplier + b_ub_adjustment
+                constant = ieq(np.zeros(len(ieq.variables)))
+                b_ub[i] = -constant * b_ub_multiplier + b_ub_adjustment
 
             if self._sparsify:
                 A_ub = sparse.csr_matrix(
@@ -326,5 +328,6 @@ class LinearProgrammingProblem:
         _kwargs["method"] = method
         res = linprog(c, **_kwargs)
         if res.success:
-            res.fun = self.obj(res.x)
+            values = dict(zip(self.variables, res.x))
+            res.fun = self.obj([values.get(x_, 0.0) for x_ in self.obj.variables])
         return res
-- 
2.43.0


From a67cc794a168c147aa46db1ec19170afc94b5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 28/58] fix: inequalities of linear programs defined with a
 callable were all treated as upper limits

---
 src/sigmaepsilon/math/optimize/lp.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index c62cd48..25ae54d 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -185,6 +185,22 @@ class LinearProgrammingProblem:
         """
         return self._variables
 
+    @staticmethod
+    def _relation_of(ieq: InEquality) -> Relations:
+        """
+        Returns the relation an inequality represents. If the operator is a callable
+        without a symbol, it is identified by its behaviour around zero.
+        """
+        if isinstance(ieq.op, Relations):
+            return ieq.op
+        if ieq.op_str:
+            return Relations(ieq.op_str)
+        for relation in (Relations.le, Relations.lt, Relations.ge, Relations.gt):
+            op = relation.to_opfunc()
+            if all(bool(ieq.opfunc(v, 0)) == op(v, 0) for v in (-1, 0, 1)):
+                return relation
+        raise ValueError("The operator of the inequality can not be identified!")
+
     def _to_scipy(self, *, maximize: bool = False) -> tuple[ndarray, dict]:
         """
         Returns values for the parameters `A_ub`, `b_ub`, `A_eq`, `b_eq`, `bounds` and `integrality`
@@ -253,14 +269,15 @@ class LinearProgrammingProblem:
                 A_ub_multiplier = 1
                 b_ub_multiplier = 1
                 b_ub_adjustment = 0.0
-                if ieq.op == Relations.ge:
+                relation = self._relation_of(ieq)
+                if relation == Relations.ge:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
-                elif ieq.op == Relations.gt:
+                elif relation == Relations.gt:
                     A_ub_multiplier = -1
                     b_ub_multiplier = -1
                     b_ub_adjustment = -SMALLNUM
-                elif ieq.op == Relations.lt:
+                elif relation == Relations.lt:
                     b_ub_adjustment = -SMALLNUM
 
                 if self._sparsify:
-- 
2.43.0


From 345412bf51d0c0ed7239caa280c31d25ee733058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:56 +0000
Subject: [PATCH 29/58] fix: genetic algorithms could not populate from a
 single pair of parents

---
 src/sigmaepsilon/math/optimize/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index e58f7eb..a376460 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -597,9 +597,9 @@ class GeneticAlgorithm:
         assert n % 2 == 0, "'n' must be a multiple of 2"
         pool = np.full(n, True)
         nPool = n
-        while nPool > 2:
+        while nPool > 0:
             where = np.argwhere(pool == True).flatten()
-            nPool = len(where)
+            nPool = len(where) - 2
             pair = np.random.choice(where, 2, replace=False)
             parent1 = genotypes[pair[0]]
             parent2 = genotypes[pair[1]]
-- 
2.43.0


From b1c09a75e553bdc6c9233bea8aea879610014e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 30/58] fix: genetic algorithms failed without elitism and with
 large elites

---
 src/sigmaepsilon/math/optimize/bga.py | 7 ++++---
 src/sigmaepsilon/math/optimize/ga.py  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index 10b5fe6..2ada68c 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -185,9 +185,10 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
                 "but only the default case (both None) is currently supported."
             )
         winners, others = self.divide(fitness)
-        winners = winners.tolist()
-        while len(winners) < int(self.nPop / 2):
-            candidates = np.random.choice(others, 3, replace=False)
+        winners = list(winners)
+        # the parents are mated in pairs, so their number must be even
+        while len(winners) < int(self.nPop / 2) or len(winners) % 2 != 0:
+            candidates = np.random.choice(others, min(3, len(others)), replace=False)
             argsort = np.argsort([fitness[ID] for ID in candidates])
             winner = argsort[0] if self._minimize else argsort[-1]
             winners.append(candidates[winner])
diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index a376460..8d80180 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -568,8 +568,8 @@ class GeneticAlgorithm:
             elit = argsort[: int(self.nPop * self.elitism)]
             others = argsort[int(self.nPop * self.elitism) :]
         else:
-            elit = argsort[: self.elitism]
-            others = argsort[self.elitism :]
+            elit = argsort[: int(self.elitism)]
+            others = argsort[int(self.elitism) :]
 
         return elit, others
 
-- 
2.43.0


From 273dc9a6b96aebab703b0a77a00e22d8b5725b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 31/58] fix: genetic algorithms failed for constant symbolic
 objectives

---
 src/sigmaepsilon/math/optimize/ga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 8d80180..c41765c 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -474,7 +474,8 @@ class GeneticAlgorithm:
         try:
             phenotypes = self.phenotypes if phenotypes is None else phenotypes
             if self._is_symbolic_Function:
-                result = self.fnc(phenotypes.T)
+                # constant functions return a single value for the whole population
+                result = np.full(len(phenotypes), self.fnc(phenotypes.T), dtype=float)
             else:
                 result = np.array([self.fnc(x) for x in phenotypes], dtype=float)
             self.state.n_fev += len(phenotypes)
-- 
2.43.0


From e212fbcbc4f2e05a8d861c09f4e1be27a1bb0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 32/58] fix: the order of the arguments of the benchmark
 functions was arbitrary and the optimum of the Rosenbrock function ignored
 the parameters

---
 src/sigmaepsilon/math/function/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/function/functions.py b/src/sigmaepsilon/math/function/functions.py
index e392f48..81bc630 100644
--- a/src/sigmaepsilon/math/function/functions.py
+++ b/src/sigmaepsilon/math/function/functions.py
@@ -25,7 +25,7 @@ def Rosenbrock(a: float = 1, b: float = 100) -> TestMinFunction2D:
     """
     str_expr = "(a-x)**2 + b*(y-x**2)**2"
     expr = substitute(sy.sympify(str_expr), [a, b], ["a", "b"])
-    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(1.0, 1.0)])
+    return TestMinFunction2D(**symbolize(expr=expr, variables=["x", "y"]), optimums=[(a, a**2)])
 
 
 def Himmelblau() -> TestMinFunction2D:
@@ -39,7 +39,7 @@ def Himmelblau() -> TestMinFunction2D:
     """
     str_expr = "(x**2 + y - 11)**2 + (x + y**2 - 7)**2"
     return TestMinFunction2D(
-        **symbolize(str_expr=str_expr),
+        **symbolize(str_expr=str_expr, variables=["x", "y"]),
         optimums=[
             (3.0, 2.0),
             (-2.805118, 3.131312),
@@ -68,7 +68,7 @@ def GoldsteinPrice() -> TestMinFunction2D:
         "(1+(x+y+1)**2 * (19-14*x+3*x**2-14*y+6*x*y+3*y**2))"
         "*(30+(2*x-3*y)**2 * (18-32*x+12*x**2+48*y-36*x*y+27*y**2))"
     )
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(0.0, -1.0)])
+    return TestMinFunction2D(**symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(0.0, -1.0)])
 
 
 def Beale() -> TestMinFunction2D:
@@ -89,7 +89,7 @@ def Beale() -> TestMinFunction2D:
     str_expr = (
         "(1.5 - x + x*y)**2 + (2.25 - x + x*y**2)**2 " "+ (2.625 - x + x*y**3)**2"
     )
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(3.0, 0.5)])
+    return TestMinFunction2D(**symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(3.0, 0.5)])
 
 
 def Matyas() -> TestMinFunction2D:
@@ -101,7 +101,7 @@ def Matyas() -> TestMinFunction2D:
     One global minimum : f(0., 0.) = 0.
     """
     str_expr = "0.26*(x**2 + y**2) - 0.48*x*y"
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(0.0, 0.0)])
+    return TestMinFunction2D(**symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(0.0, 0.0)])
 
 
 if __name__ == "__main__":
-- 
2.43.0


From dd4d2782c06f27ff9c292691517e2bf78b18dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 33/58] fix: Gauss-Jordan elimination did not recognize a
 singular matrix with a vanishing last pivot

---
 src/sigmaepsilon/math/linalg/solve.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8e0054b..66dea8b 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -203,17 +203,16 @@ def _GaussJordan(
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
-            if iEQ < nEQ - 1:
-                pivot = A[iEQ, iEQ]
-                if abs(pivot) < 1e-12:
-                    raise Exception("The matrix is singular!")
-                for iROW in range(iEQ + 1, nEQ):
-                    factor = A[iROW, iEQ] / pivot
-                    if abs(factor) < 1e-12:
-                        continue
-                    for iCOL in range(nEQ):
-                        A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-                    B[iROW] -= factor * B[iEQ]
+            pivot = A[iEQ, iEQ]
+            if abs(pivot) < 1e-12:
+                raise Exception("The matrix is singular!")
+            for iROW in range(iEQ + 1, nEQ):
+                factor = A[iROW, iEQ] / pivot
+                if abs(factor) < 1e-12:
+                    continue
+                for iCOL in range(nEQ):
+                    A[iROW, iCOL] -= factor * A[iEQ, iCOL]
+                B[iROW] -= factor * B[iEQ]
     return A, B
 
 
-- 
2.43.0


From 20d3047b885088f034072ddf0558276424fda4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 34/58] fix: linear systems with integer coefficients were
 solved with truncated arithmetics or failed

---
 src/sigmaepsilon/math/linalg/solve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 66dea8b..f62eba4 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -105,7 +105,7 @@ def linsolve(
         assert (
             presc_bool is None
         ), "Method '{}' does not support prescribed values.".format(method)
-        return npsolve(A, B)
+        return npsolve(np.asarray(A, dtype=float), np.asarray(B, dtype=float))
     elif method in ["Jordan", "Gauss-Jordan"]:
         fnc = _Jordan if method == "Jordan" else _GaussJordan
         try:
@@ -120,7 +120,12 @@ def linsolve(
                 res = backsub(*fnc(A, B, presc_bool, presc_val), presc_bool, presc_val)
             else:
                 res = backsub(
-                    *fnc(A.copy(), B.copy(), presc_bool, presc_val),
+                    *fnc(
+                        np.array(A, dtype=float),
+                        np.array(B, dtype=float),
+                        presc_bool,
+                        presc_val,
+                    ),
                     presc_bool,
                     presc_val
                 )
-- 
2.43.0


From da1cafa2e0a239beda78551d6e7fb0a05ca2c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 35/58] fix: second derivatives of the cubic weight function
 vanished at its core

---
 src/sigmaepsilon/math/approx/functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 887bd6a..ad81d80 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -191,11 +191,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
             dwXdX = (-8 * rX + 12 * rX**2) * drdX
-            dwXdXX = (-8 + 24 * rX) * drdX * drdX
+            dwXdXX = (-8 + 24 * rX) / dmX**2
         elif rX > 0.5 and rX <= 1:
             wX = 4 / 3 - 4 * rX + 4 * rX**2 - (4 / 3) * rX**3
             dwXdX = (-4 + 8 * rX - 4 * rX**2) * drdX
-            dwXdXX = (8 - 8 * rX) * drdX * drdX
+            dwXdXX = (8 - 8 * rX) / dmX**2
         else:
             wX = 0
             dwXdX = 0
@@ -229,11 +229,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
             dwXdX = (-8 * rX + 12 * rX**2) * drdX
-            dwXdXX = (-8 + 24 * rX) * drdX * drdX
+            dwXdXX = (-8 + 24 * rX) / dmX**2
         elif rX > 0.5 and rX <= 1:
             wX = 4 / 3 - 4 * rX + 4 * rX**2 - (4 / 3) * rX**3
             dwXdX = (-4 + 8 * rX - 4 * rX**2) * drdX
-            dwXdXX = (8 - 8 * rX) * drdX * drdX
+            dwXdXX = (8 - 8 * rX) / dmX**2
         else:
             wX = 0
             dwXdX = 0
@@ -242,11 +242,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rY <= 0.5:
             wY = 2 / 3 - 4 * rY**2 + 4 * rY**3
             dwYdY = (-8 * rY + 12 * rY**2) * drdY
-            dwYdYY = (-8 + 24 * rY) * drdY * drdY
+            dwYdYY = (-8 + 24 * rY) / dmY**2
         elif rY > 0.5 and rY <= 1:
             wY = 4 / 3 - 4 * rY + 4 * rY**2 - (4 / 3) * rY**3
             dwYdY = (-4 + 8 * rY - 4 * rY**2) * drdY
-            dwYdYY = (8 - 8 * rY) * drdY * drdY
+            dwYdYY = (8 - 8 * rY) / dmY**2
         else:
             wY = 0
             dwYdY = 0
-- 
2.43.0


From bed676574ead3269840221901f9535bcf3ba0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 36/58] fix: derivatives of the singular weight function were
 zero

---
 src/sigmaepsilon/math/approx/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index ad81d80..a228829 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -150,10 +150,13 @@ class SingularWeightFunction(MLSWeightFunction):
         return 1 / (norm(np.subtract(self.core, x)) ** 2 + self.eps**2)
 
     def gradient(self, x: Iterable[Number]) -> ndarray:
-        return np.zeros(self.dimension, dtype=float)
+        d = np.atleast_1d(np.subtract(self.core, x))
+        return -2 * d * self.value(x) ** 2
 
     def Hessian(self, x: Iterable[Number]) -> ndarray:
-        return np.zeros((self.dimension, self.dimension), dtype=float)
+        d = np.atleast_1d(np.subtract(self.core, x))
+        w = self.value(x)
+        return 8 * np.outer(d, d) * w**3 - 2 * np.eye(len(d)) * w**2
 
 
 class CubicWeightFunction(MLSWeightFunction):
-- 
2.43.0


From ff1594e490ff33baeea03af957dc4cfb10d9f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 37/58] fix: least squares approximations failed for points
 given as lists or as a column

---
 src/sigmaepsilon/math/approx/ls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/ls.py b/src/sigmaepsilon/math/approx/ls.py
index 69dc37b..024bea4 100644
--- a/src/sigmaepsilon/math/approx/ls.py
+++ b/src/sigmaepsilon/math/approx/ls.py
@@ -22,6 +22,7 @@ def moving_least_squares(
     Moving least squares approximation. The usage is the same as for the
     :func:`~sigmaepsilon.math.approx.ls.weighted_least_squares` function.
     """
+    points = np.asarray(points)
     dim = 1 if len(points.shape) == 1 else points.shape[1]
 
     if not isMLSWeightFunction(w):
@@ -143,6 +144,8 @@ def weighted_least_squares(
         values = values.reshape(len(values), 1)
 
     dim = 1 if len(points.shape) == 1 else points.shape[1]
+    if dim == 1:
+        points = points.reshape(-1)
 
     if isMLSWeightFunction(w):
         assert dim == w.dimension
-- 
2.43.0


From e7772e42696eac1126b0ec33a28fa36c6ba8f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 38/58] fix: Lagrange polynomials could not be generated for a
 single point and into a plain dictionary

---
 src/sigmaepsilon/math/approx/lagrange.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/lagrange.py b/src/sigmaepsilon/math/approx/lagrange.py
index eda668a..825a2fc 100644
--- a/src/sigmaepsilon/math/approx/lagrange.py
+++ b/src/sigmaepsilon/math/approx/lagrange.py
@@ -117,14 +117,14 @@ def gen_Lagrange_1d(
         N = len(x) if x is not None else len(i)
     inds = list(range(1, N + 1)) if i is None else i
 
-    coeffs = sy.symbols(", ".join(["c_{}".format(i + 1) for i in range(N)]))
-    variables = sy.symbols(", ".join([_var_str(inds, i) for i in range(N)]))
+    coeffs = sy.symbols(", ".join(["c_{}".format(i + 1) for i in range(N)]), seq=True)
+    variables = sy.symbols(", ".join([_var_str(inds, i) for i in range(N)]), seq=True)
     if x is None:
         if not sym:
             x = np.linspace(-1, 1, N)
         else:
             symbols = [xsym + "_{}".format(i + 1) for i in range(N)]
-            x = sy.symbols(", ".join(symbols))
+            x = sy.symbols(", ".join(symbols), seq=True)
     poly = sum([c * xvar**i for i, c in enumerate(coeffs)])
 
     evals = [poly.subs({xsym: x[i]}) for i in range(N)]
@@ -142,6 +142,8 @@ def gen_Lagrange_1d(
     dshp3 = [_diff(xvar, fnc) for fnc in dshp2]
 
     for i, ind in enumerate(inds):
+        if not isinstance(module_data, DeepDict):
+            module_data.setdefault(ind, {})
         fnc_str = latex(sy.symbols(fsym + "_{}".format(ind)))
         module_data[ind]["symbol"] = fnc_str
         module_data[ind][0] = shp[i]
@@ -152,6 +154,8 @@ def gen_Lagrange_1d(
     if lambdify:
         assert not sym, "If 'lambdify' is True, 'sym' must be False"
         for ind in inds:
+            if not isinstance(module_data, DeepDict):
+                module_data[ind].setdefault("fnc", {})
             for j in range(4):
                 fnc = module_data[ind][j]
                 module_data[ind]["fnc"][j] = sy.lambdify(xvar, fnc, "numpy")
-- 
2.43.0


From aba2d7b521ca48caa4069fb8d543a927826cacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:00 +0000
Subject: [PATCH 39/58] fix: the shape of CSR matrices was inferred from the
 number of values per row instead of the column indices

---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 5f568e0..b5c1b1b 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -149,7 +149,10 @@ class csr_matrix:
             self.indices = np.array(indices).astype(np.int32)
             self.indptr = np.array(indptr).astype(np.int32)
             if shape is None:
-                shape = get_shape_sp(indptr)
+                # the number of columns follows from the column indices, the rows
+                # may have gaps
+                nC = self.indices.max() + 1 if len(self.indices) > 0 else 0
+                shape = len(self.indptr) - 1, int(nC)
             self.shape = shape
 
     def to_numpy(self) -> np.ndarray:
-- 
2.43.0


From 193e9db97a4992a3ea13dfaff753bb9ceac96d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:57 +0000
Subject: [PATCH 40/58] fix: functions given as strings failed for literal
 operations SymPy can not simplify without evaluation

---
 src/sigmaepsilon/math/function/symutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index fad4eeb..06bc68a 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -40,6 +40,10 @@ def decode(
 
         expr = substitute(expr, variables, variables, as_string=True)
 
+    if str_expr is not None:
+        # the operations of the parsed expression are not evaluated yet
+        expr = expr.doit()
+
     return expr, variables
 
 
-- 
2.43.0


From 8113ac1aedc3db810e3a32f49f689b91764dd1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:28 +0000
Subject: [PATCH 41/58] fix: eliminate small factors too in the direct solvers

Factors below 1e-12 were skipped, which is wrong if the rows or columns of a system are
in different units: the skipped term is the factor times an entry that may be large.
---
 src/sigmaepsilon/math/linalg/solve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index f62eba4..4f7d019 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -189,7 +189,7 @@ def _Jordan(
                 raise Exception("The matrix is singular!")
             for iROW in range(nEQ):
                 factor = A[iROW, iEQ] / pivot
-                if iROW == iEQ or abs(factor) < 1e-12:
+                if iROW == iEQ or factor == 0.0:
                     continue
                 for iCOL in range(nEQ):
                     A[iROW, iCOL] -= factor * A[iEQ, iCOL]
@@ -213,7 +213,7 @@ def _GaussJordan(
                 raise Exception("The matrix is singular!")
             for iROW in range(iEQ + 1, nEQ):
                 factor = A[iROW, iEQ] / pivot
-                if abs(factor) < 1e-12:
+                if factor == 0.0:
                     continue
                 for iCOL in range(nEQ):
                     A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-- 
2.43.0


From 3bfcb332a77ecb1bef1d10aa9b64f49d556fe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:05 +0000
Subject: [PATCH 42/58] fix: skew frames with short base vectors or with base
 vectors of very different lengths were taken for rectangular

---
 src/sigmaepsilon/math/linalg/logical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/logical.py b/src/sigmaepsilon/math/linalg/logical.py
index bdb58bd..d4f06ed 100644
--- a/src/sigmaepsilon/math/linalg/logical.py
+++ b/src/sigmaepsilon/math/linalg/logical.py
@@ -44,6 +44,10 @@ def is_rectangular_frame(axes: ndarray) -> bool:
     assert len(axes.shape) == 2, "Input is not a matrix!"
     assert axes.shape[0] == axes.shape[1], "Input is not a square matrix!"
     agram = np.abs(axes @ axes.T)
+    # the cosines of the angles do not depend on the lengths of the base vectors
+    lengths = np.sqrt(np.diag(agram))
+    lengths = np.where(lengths > 0, lengths, 1.0)
+    agram = agram / np.outer(lengths, lengths)
     return np.isclose(np.trace(agram), np.sum(agram))
 
 
-- 
2.43.0


From b42923f76406cc315525837d857ac67ce17b1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:06 +0000
Subject: [PATCH 43/58] fix: the metric tensor of a skew frame was not the
 identity

---
 src/sigmaepsilon/math/linalg/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 72665d8..55929f4 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -243,7 +243,8 @@ class ReferenceFrame(FrameLike):
         """
         from .tensor import Tensor
 
-        return Tensor(self.Gram(), frame=self)
+        # the elements of the Gram matrix are the covariant components
+        return Tensor(self.Gram(), frame=self.dual())
 
     def volume(self) -> float:
         """
-- 
2.43.0


From 73cf39e7e279a7e7835dba238aff865febd175c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:28 +0000
Subject: [PATCH 44/58] fix: one distance limit per sampling point raised an
 error in the neighbour search

---
 src/sigmaepsilon/math/knn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 209b039..6860e8b 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -93,7 +93,8 @@ def k_nearest_neighbours(
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
         if max_distance is not None:
-            query_kwargs["distance_upper_bound"] = max_distance
+            # the scipy backend only accepts a single upper bound
+            query_kwargs["distance_upper_bound"] = np.max(max_distance)
         if version.parse(__scipy_version__) < version.parse("1.6.0"):
             warnings.warn(
                 "Multithreaded execution of a KNN search is "
@@ -103,6 +104,11 @@ def k_nearest_neighbours(
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
             d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
+        if np.ndim(max_distance) > 0:
+            limit = np.asarray(max_distance)
+            too_far = d >= (limit[..., None] if np.ndim(d) > limit.ndim else limit)
+            d = np.where(too_far, np.inf, d)
+            i = np.where(too_far, tree.n, i)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From d179453530a914b2b28ef848b0628a4a0711a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:17 +0000
Subject: [PATCH 45/58] fix: variables of a function named like a SymPy object,
 or with other assumptions than the ones in the expression, were not
 recognized

---
 src/sigmaepsilon/math/function/symutils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 06bc68a..5f89730 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -28,16 +28,19 @@ def decode(
     Takes an expression as either a string or a `SymPy` expression and returns
     the expression and the variables in the expression.
     """
+    if variables:
+        if not all([isinstance(v, (sy.Expr, sy.Symbol)) for v in variables]):
+            variables = list(symbols(variables))
+
     if str_expr is not None:
-        expr = parse_expr(str_expr, evaluate=False)
+        # the variables take precedence over the names SymPy knows (like E or S)
+        names = {str(v): v for v in variables or []}
+        expr = parse_expr(str_expr, local_dict=names, evaluate=False)
 
     if not variables:
         variables = []
         variables = tuple(expr.free_symbols)
     else:
-        if not all([isinstance(v, (sy.Expr, sy.Symbol)) for v in variables]):
-            variables = list(symbols(variables))
-
         expr = substitute(expr, variables, variables, as_string=True)
 
     if str_expr is not None:
@@ -100,7 +103,11 @@ def substitute(
             [(v, val) for v, val in zip(variables, values)], simultaneous=True
         )
     else:
-        return expr.subs([(str(v), val) for v, val in zip(variables, values)])
+        new = {str(v): val for v, val in zip(variables, values)}
+        return expr.subs(
+            [(v, new[str(v)]) for v in expr.free_symbols if str(v) in new],
+            simultaneous=True,
+        )
 
 
 def coefficients(
-- 
2.43.0


From 9c0b08ad2ddc2c63df04e1c206cbea9b9eed4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 46/58] fix: in-place addition and subtraction of unsupported
 operands was silently ignored or mixed tensors of different order

---
 src/sigmaepsilon/math/linalg/abstract.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5d5bcb8..961ef88 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -60,9 +60,15 @@ class AbstractTensor(TensorLike):
         if isinstance(other, numbers.Number):
             self.array += other
         elif isinstance(other, TensorLike):
-            if not self.array.shape == other.array.shape:
+            if not (
+                self.rank == other.rank and self.array.shape == other.array.shape
+            ):
                 raise TensorShapeMismatchError
             self.array += other.show(self.frame)
+        else:
+            raise TypeError(
+                "Tensor addition is only supported with numbers and other tensors."
+            )
         return self
 
     def __add__(self, other) -> TensorLike:
@@ -103,9 +109,15 @@ class AbstractTensor(TensorLike):
         if isinstance(other, numbers.Number):
             self.array -= other
         elif isinstance(other, TensorLike):
-            if not self.array.shape == other.array.shape:
+            if not (
+                self.rank == other.rank and self.array.shape == other.array.shape
+            ):
                 raise TensorShapeMismatchError
             self.array -= other.show(self.frame)
+        else:
+            raise TypeError(
+                "Tensor subtraction is only supported with numbers and other tensors."
+            )
         return self
 
     def __itruediv__(self, other) -> TensorLike:
-- 
2.43.0


From d312c787ff893ece35364b5be136c8c869cec15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 47/58] fix: tensors did not follow their frame when items of
 the frame were set

---
 src/sigmaepsilon/math/linalg/frame.py | 6 ++++++
 src/sigmaepsilon/math/linalg/meta.py  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 55929f4..d477bc2 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -310,6 +310,12 @@ class ReferenceFrame(FrameLike):
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
+    def __setitem__(self, key, value):
+        # the tensors of the frame have to follow the change of the axes
+        axes = np.copy(self._array)
+        axes[key] = value
+        self.axes = axes
+
     def show(self, target: "ReferenceFrame" = None) -> ndarray:
         """
         Returns the components of the current frame in a target frame.
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 4a614b5..f17e83c 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -164,7 +164,7 @@ class ArrayWrapper(NDArrayOperatorsMixin, Wrapper):
         ~`sigmaepsilon.math.linalg.meta.ArrayWrapper`
             The object the call was made upon.
         """
-        self._array[np.where(np.abs(self._array) < tol)] = 0.0
+        self[np.where(np.abs(self._array) < tol)] = 0.0
         return self
 
     def __array__(self, dtype=None):
-- 
2.43.0


From 903ba721273852f14cb10a2f79accdeecb6f6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 48/58] fix: NumPy functions of several frames failed with
 infinite recursion and those with several results returned a generator

---
 src/sigmaepsilon/math/linalg/frame.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index d477bc2..b151bae 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -554,8 +554,14 @@ class ReferenceFrame(FrameLike):
         return inplace_binary(self, other, np.power)
 
     def __array_function__(self, func, types, args, kwargs):
-        arrs = [arg._array if isinstance(arg, ArrayWrapper) else arg for arg in args]
-        return func(*arrs, **kwargs)
+        def unwrap(arg):
+            if isinstance(arg, ArrayWrapper):
+                return arg._array
+            if type(arg) in (list, tuple):
+                return type(arg)(unwrap(x) for x in arg)
+            return arg
+
+        return func(*unwrap(args), **kwargs)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         """
@@ -606,7 +612,7 @@ class ReferenceFrame(FrameLike):
 
         if isinstance(result, tuple):
             # multiple return values
-            return (ReferenceFrame(x) for x in result)
+            return tuple(ReferenceFrame(x) for x in result)
         elif method == "at":
             # no return value
             return None
-- 
2.43.0


From ed9be03cf4bd59c6b9a3b89aea5232890cf3fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:08 +0000
Subject: [PATCH 49/58] fix: derivatives of the cubic weight vanished for small
 support domains

---
 src/sigmaepsilon/math/approx/functions.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index a228829..c871868 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -186,10 +186,7 @@ class CubicWeightFunction(MLSWeightFunction):
         dmX = self.supportdomain[0]
         rX = abs(difX) / dmX
 
-        if abs(difX) < 1e-12:
-            drdX = 0
-        else:
-            drdX = (difX / abs(difX)) / dmX
+        drdX = np.sign(difX) / dmX
 
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
@@ -219,15 +216,9 @@ class CubicWeightFunction(MLSWeightFunction):
         rX = abs(difX) / dmX
         rY = abs(difY) / dmY
 
-        if abs(difX) < 1e-12:
-            drdX = 0
-        else:
-            drdX = (difX / abs(difX)) / dmX
+        drdX = np.sign(difX) / dmX
 
-        if abs(difY) < 1e-12:
-            drdY = 0
-        else:
-            drdY = (difY / abs(difY)) / dmY
+        drdY = np.sign(difY) / dmY
 
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
-- 
2.43.0


From ff8a7897b588f67003ac3bae50f073df25d0d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:28 +0000
Subject: [PATCH 50/58] fix: copies of frames made by the copy module were no
 frames or moved the tensors of the original

---
 src/sigmaepsilon/math/linalg/frame.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index b151bae..918b984 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -636,6 +636,13 @@ class ReferenceFrame(FrameLike):
         """
         return self.copy(deep=True, name=name)
 
+    def __copy__(self) -> "ReferenceFrame":
+        # the tensors of the frame must not follow the copy
+        return self.copy(name=self._name)
+
+    def __deepcopy__(self, memo) -> "ReferenceFrame":
+        return self.copy(deep=True, name=self._name)
+
 
 class RectangularFrame(ReferenceFrame):
     """
-- 
2.43.0


From 7c09f76e913448d517b0f16df3b7e10808dd4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:24 +0000
Subject: [PATCH 51/58] fix: a deep copy of a jagged array was no jagged array

---
 src/sigmaepsilon/math/linalg/sparse/jaggedarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
index a344838..d5756e3 100644
--- a/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
+++ b/src/sigmaepsilon/math/linalg/sparse/jaggedarray.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Iterable, Union
 import numpy as np
 from numpy import concatenate as join, ndarray, array_repr
@@ -167,6 +168,10 @@ class JaggedArray(NDArrayOperatorsMixin, Wrapper):
     def __array__(self):
         return self._wrapped
 
+    def __deepcopy__(self, memo):
+        wrap = deepcopy(self._wrapped, memo)
+        return self.__class__(wrap=wrap, force_numpy=False)
+
     def __getitem__(self, key):
         return self._wrapped.__getitem__(key)
 
-- 
2.43.0


From 0684b52ec14ed5b75c8299a693427f27b6b323c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:35 +0000
Subject: [PATCH 52/58] fix: generating a single symbol failed

---
 src/sigmaepsilon/math/function/symutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 5f89730..0d27bb1 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -11,10 +11,7 @@ def generate_symbols(
     """
     Generates a list of symbols.
     """
-    result = list(
-        sy.symbols(" ".join([template.format(i) for i in indices]), **assumptions)
-    )
-    return result
+    return [sy.Symbol(template.format(i), **assumptions) for i in indices]
 
 
 def decode(
-- 
2.43.0


From d5ede8bbcfc5fd4cd15637b1a37c662683d55c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:25 +0000
Subject: [PATCH 53/58] fix: normalized coefficients of an expression lost all
 but one of several constants

---
 src/sigmaepsilon/math/function/symutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/symutils.py b/src/sigmaepsilon/math/function/symutils.py
index 0d27bb1..d952a6a 100644
--- a/src/sigmaepsilon/math/function/symutils.py
+++ b/src/sigmaepsilon/math/function/symutils.py
@@ -153,7 +153,7 @@ def coefficients(
         res = dict()
         for key, value in d.items():
             if len(key.free_symbols) == 0:
-                res[One()] = value * key
+                res[One()] = res.get(One(), 0) + value * key
             else:
                 res[key] = value
         return res
-- 
2.43.0


From eb750a32105c14f5392f6463a7591062f528b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 54/58] fix: the reduction of systems of integers claimed that
 the matrix is singular

---
 src/sigmaepsilon/math/linalg/solve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 4f7d019..be686f7 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -161,7 +161,12 @@ def reduce(
             if inplace:
                 return fnc(A, B, presc_bool, presc_val)
             else:
-                return fnc(A.copy(), B.copy(), presc_bool, presc_val)
+                return fnc(
+                    np.array(A, dtype=float),
+                    np.array(B, dtype=float),
+                    presc_bool,
+                    presc_val,
+                )
         except Exception:
             raise LinAlgError("The matrix is singular!")
     else:
-- 
2.43.0


From d6c90e88072d6d45a23cccc8bccd3f49939116f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 55/58] fix: the inverse of 2x2 matrices of integers was zero

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 5a38adb..11660ca 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -725,7 +725,7 @@ def det2x2(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv2x2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros_like(A / 1)  # the inverse of an integer matrix is not
     d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
     res[0, 0] = A[1, 1] / d
     res[1, 1] = A[0, 0] / d
-- 
2.43.0


From 4a616ab757ae819986b7f56a274f238294287ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:24 +0000
Subject: [PATCH 56/58] fix: dot products with collections of vectors failed or
 mixed the items

---
 src/sigmaepsilon/math/linalg/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 11660ca..64cf8bf 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -215,12 +215,13 @@ def dot(
                 raise LinalgOperationInputError(
                     "Parameter 'out' is not allowed with tensors."
                 )
-            return np.dot(a.show(), b.show())
+            return np.einsum("...i,...i->...", a.show(), b.show())[()]
         elif ra == 2 and rb == 1:
-            arr = (a.array @ b.show(a.frame.dual()).T).T
+            arr = np.einsum("...ij,...j->...i", a.array, b.show(a.frame.dual()))
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = a.array @ a.frame.Gram() @ b.show(a.frame)
+            g = a.frame.Gram() @ b.show(a.frame)
+            arr = np.einsum("...i,...ij->...j", a.array, g)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-- 
2.43.0


From bcd46d425cac1f3bd888db6dc44569ed84ce2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:54 +0000
Subject: [PATCH 57/58] fix: cross products with collections failed or mixed
 the items

---
 src/sigmaepsilon/math/linalg/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 64cf8bf..003ee6e 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -322,15 +322,16 @@ def cross(
         if ra == 1 and rb == 1:
             # the components follow the rule of the cross product only in the
             # ambient frame, not in skew, non-normalized or left-handed ones
-            arr = np.cross(a.show(), b.show(), axis=0)
+            arr = np.cross(a.show(), b.show())
             result = a.__class__(arr)
             result.frame = a.frame
         elif ra == 2 and rb == 1:
-            arr = np.cross(a.show(), b.show(), axis=0)
-            result = a.__class__(arr)
+            # the columns of the tensor are multiplied, for each item of a collection
+            arr = np.cross(a.show(), b.show()[..., None], axis=-2)
+            result = a.__class__(arr, bulk=arr.ndim > 2)
         elif ra == 1 and rb == 2:
-            arr = np.cross(a.show(), b.show(), axis=0)
-            result = b.__class__(arr)
+            arr = np.cross(a.show()[..., None], b.show(), axis=-2)
+            result = b.__class__(arr, bulk=arr.ndim > 2)
         else:
             msg = (
                 "The cross product is not implemented",
-- 
2.43.0


From 35b6b361f624c54c2b2d4b91ebce07c4281df3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:24 +0000
Subject: [PATCH 58/58] fix: different rows of unsigned integers were reported
 as equal

---
 src/sigmaepsilon/math/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 36c1b67..8a4ecd6 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -403,7 +403,8 @@ def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
     R = np.zeros((x.shape[0], y.shape[0]))
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
-            R[i, j] = np.sum(np.abs(x[i] - y[j]))
+            # the differences of unsigned integers may sum up to zero
+            R[i, j] = np.sum(np.abs(x[i] - y[j]).astype(np.float64))
     return np.where(R <= tol)
 
 
-- 
2.43.0


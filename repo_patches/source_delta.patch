From adb064c222e608acf1626f46c70710de1f5cf472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 01/37] fix: x86 vector left shift by 31 without AVX2 when the
 counts are constants

2^31 does not fit into int: the float->int conversion is UB and, when constant
folded, saturates to INT_MAX. Convert -2^y, which is always representable.
---
 experimental/bits/simd_x86.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..b824159 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1774,11 +1774,12 @@ template <typename _Abi>
 	else if constexpr (sizeof(_Up) == 4 && sizeof __ix == 16
 			   && !__have_avx2)
 	  // latency is suboptimal, but throughput is at full speedup
+	  // convert -2^y instead of 2^y: 2^31 is not representable as int
 	  return __intrin_bitcast<_V>(
-	    __vector_bitcast<unsigned>(__ix)
+	    -__vector_bitcast<unsigned>(__ix)
 	    * __vector_convert<__vector_type16_t<int>>(
 	      _SimdWrapper<float, 4>(__vector_bitcast<float>(
-		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0x3f80'0000))));
+		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0xbf80'0000u))));
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
-- 
2.43.0


From baaec5d157fe6bfd8474920d33429826b355aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 02/37] fix: x86 shifts of 8-bit and 16-bit elements by counts
 of at least their width

The scalar operators are defined for every count below the width of int.
Without AVX2 a large count in an even element of a 16-bit left shift leaked
into the odd neighbor, and signed right shifts nulled the element instead of
replicating the sign bit.
---
 experimental/bits/simd_x86.h | 59 +++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index b824159..7d1db3d 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1758,15 +1758,19 @@ template <typename _Abi>
 		using _Float4 = __vector_type_t<float, 4>;
 		using _Int4 = __vector_type_t<int, 4>;
 		using _UInt4 = __vector_type_t<unsigned, 4>;
+		// multiply with -2^y instead of 2^y: 2^31 is not representable
+		// as int
 		const _UInt4 __yu
-		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
-		return __x
-		       * __intrin_bitcast<_V>(
-			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			   reinterpret_cast<_Float4>(__yu << 23)))
-			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
-			    << 16));
+		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0xbf8 >> 3)));
+		return __intrin_bitcast<_V>(
+		  -__vector_bitcast<_UShort>(__ix)
+		  * __vector_bitcast<_UShort>(
+		    (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+		       reinterpret_cast<_Float4>(__yu << 23)))
+		     & 0xffff) // y > 15 must not affect the odd elements
+		    | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			 reinterpret_cast<_Float4>((__yu >> 16) << 23)))
+		       << 16)));
 	      }
 	    else
 	      __assert_unreachable<_Tp>();
@@ -2012,12 +2016,14 @@ template <typename _Abi>
 		__xl = __vector_bitcast<short>(
 		  _CommonImplX86::_S_blend_intrin(__maskl(), __to_intrin(__xl),
 						  __to_intrin(__xl1)));
+		const auto __r
+		  = __vector_bitcast<_Up>((__xh & short(0xff00)))
+		    | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					    >> 8);
 		return __intrin_bitcast<_V>(
-		  (__vector_bitcast<_Up>((__xh & short(0xff00)))
-		   | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					   >> 8))
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
-		     == 0)); // y > 7 nulls the result
+		  __vector_bitcast<_Up>(__iy) > 7 // replicates the sign bit
+		    ? __vector_bitcast<_Up>(__vector_bitcast<_Up>(__ix) < 0)
+		    : __r);
 	      }
 	    else if constexpr (is_unsigned_v<_Up> && sizeof(__x) > 2) // SSE2
 	      {
@@ -2060,11 +2066,12 @@ template <typename _Abi>
 		auto __xl1 = __xl >> 1;
 		__xh = __maskh > 0x7fff ? __xh1 : __xh;
 		__xl = __maskl > 0x7fff ? __xl1 : __xl;
-		__x = __vector_bitcast<_Up>((__xh & short(0xff00)))
-		      | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					      >> 8);
-		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		const _V __r
+		  = __vector_bitcast<_Up>((__xh & short(0xff00)))
+		    | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					    >> 8);
+		return __y > 7 ? __vector_bitcast<_Up>(__x < 0) // sign bit
+			       : __r;
 	      }
 	    else
 	      return __x >> __y;
@@ -2115,10 +2122,11 @@ template <typename _Abi>
 		auto __x128 = __vector_bitcast<_Up>(__ix);
 		//__mask *= 0x0808;
 		__mask = (__mask << 3) | (__mask << 11);
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __vector_bitcast<_Up>(
-		  _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
-				  __to_intrin(__mask)));
+		// do __x128 = 0 (or the sign bit) where __y[4] is set
+		__x128 = __vector_bitcast<_Up>(_mm_blendv_epi8(
+		  __to_intrin(__x128),
+		  is_signed_v<_Up> ? __to_intrin(__x128 >> 15) : __m128i(),
+		  __to_intrin(__mask)));
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __vector_bitcast<_Up>(
 		  _mm_blendv_epi8(__to_intrin(__x128), __to_intrin(__x128 >> 8),
@@ -2143,8 +2151,11 @@ template <typename _Abi>
 		auto __mask = [](__vector_type16_t<_UShort> __kk) {
 		  return __vector_bitcast<short>(__kk) < 0;
 		};
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __mask(__k) ? decltype(__x128)() : __x128;
+		// do __x128 = 0 (or the sign bit) where __y[4] is set
+		__x128 = __mask(__k)
+			   ? (is_signed_v<_Up> ? __x128 >> 15
+					       : decltype(__x128)())
+			   : __x128;
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __mask(__k += __k) ? __x128 >> 8 : __x128;
 		// do __x128 =>> 4 where __y[2] is set
-- 
2.43.0


From 5685d3d86cd136db6dfcbc2797e969d5f871e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 03/37] fix: where(k, v) <<= and >>= do not compile

The operators called shift functions that do not exist, and the x86 shifts
return the bare vector type.
---
 experimental/bits/simd.h         | 4 ++--
 experimental/bits/simd_builtin.h | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..da062ac 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3228,8 +3228,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..0e1b7c1 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2505,8 +2505,9 @@ template <typename _Abi>
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
-	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+	  __lhs = _CommonImpl::_S_blend(
+	    __k, __lhs,
+	    _SimdWrapper<_Tp, _Np>(__op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From 852fb0cfcd5e9b84445dca0a5bbac73dc8b52c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 04/37] fix: where(k, mask) = bool does not compile for 32-byte
 floating-point masks without AVX2

---
 experimental/bits/simd_builtin.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 0e1b7c1..0b4b5eb 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2883,8 +2883,10 @@ template <typename _Abi>
 	      __lhs = __or(__k, __lhs);
 	    return;
 	  }
+	// simd_mask<_Tp, _Abi> may be unsupported, e.g. 32-Byte int without AVX2
 	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+				      _SimdWrapper<_Tp, _Np>(
+					__vector_broadcast<_Np>(_Tp(-__rhs))));
       }
 
     //}}}2
-- 
2.43.0


From acfb2a5fb37bc2d4819636c659017df216500924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 05/37] fix: masked integer division traps on divisors in
 unselected elements

---
 experimental/bits/simd.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index da062ac..b6ab71a 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3223,8 +3223,6 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(+, _S_plus);
     _GLIBCXX_SIMD_OP_(-, _S_minus);
     _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
@@ -3232,6 +3230,33 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
+    // Integer division traps if the divisor is 0 (or the quotient overflows).
+    // Thus, divide by 1 where _M_k is false.
+#define _GLIBCXX_SIMD_OP_(__op, __name)                                        \
+  template <typename _Up>                                                      \
+    _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
+    {                                                                          \
+      auto&& __rhs                                                             \
+	= __to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x));        \
+      auto&& __fun = [](auto __impl, auto __lhs, auto __rhs) constexpr {       \
+	return __impl.__name(__lhs, __rhs);                                    \
+      };                                                                       \
+      if constexpr (is_integral_v<value_type>)                                 \
+	{                                                                      \
+	  _Tp __divisor = value_type(1);                                       \
+	  _Impl::_S_masked_assign(__data(_M_k), __data(__divisor), __rhs);     \
+	  _Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value),    \
+					    __data(__divisor), __fun);         \
+	}                                                                      \
+      else                                                                     \
+	_Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value),      \
+					  __rhs, __fun);                       \
+    }                                                                          \
+  static_assert(true)
+    _GLIBCXX_SIMD_OP_(/, _S_divides);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus);
+#undef _GLIBCXX_SIMD_OP_
+
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
     {
       __data(_M_value)
-- 
2.43.0


From 49f43d09ba1334fca8997548918468e2c80fe3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 06/37] fix: where(k, v) = -0. with a constant assigns +0.

The shortcut that clears the selected elements also matched negative zero.
---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 0b4b5eb..e6f86fb 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2474,7 +2474,8 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 && !__builtin_signbit(double(__rhs))) // not for -0.
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From b053db1cfffe339a22e0b6ef840185f9c2115ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 07/37] fix: masked stores without AVX may fault on unselected
 elements

maskmovdqu may raise a page fault for bytes its mask does not select, e.g.
when the array ends at the end of a page. Store element by element instead.
---
 experimental/bits/simd_x86.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 7d1db3d..8cb0d81 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1187,8 +1187,11 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else // maskmovdqu may fault on unselected elements
+	      _BitOps::_S_bit_iteration(_MaskImpl::_S_to_bits(__k),
+					[&](auto __i) {
+					  __mem[__i] = __v[__i];
+					});
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1216,11 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else // maskmovdqu may fault on unselected elements
+	      _BitOps::_S_bit_iteration(_MaskImpl::_S_to_bits(__k),
+					[&](auto __i) {
+					  __mem[__i] = __v[__i];
+					});
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From 7a12e49e45c44eaeefaabd45bbafba3749626cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 08/37] fix: to_native and to_compatible of fixed_size masks
 and vectors were not callable

---
 experimental/bits/simd.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index b6ab71a..6d89605 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3035,16 +3035,18 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    return native_simd_mask<_Tp>(__private_init, [&](auto __i) constexpr {
+      return __x[__i];
+    });
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3053,11 +3055,15 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    return simd_mask<_Tp>(__private_init, [&](auto __i) constexpr {
+      return __x[__i];
+    });
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From 702d2171e563b95cbbad5290ae1f73b9a6fc6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 09/37] fix: minmax does not compile for scalar and fixed_size
 vectors

---
 experimental/bits/simd_fixed_size.h | 9 ++++++++-
 experimental/bits/simd_scalar.h     | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..1cd308a 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1482,7 +1482,7 @@ template <int _Np>
 	  }
       }
 
-    // _S_min, _S_max {{{2
+    // _S_min, _S_max, _S_minmax {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
       _S_min(const _SimdTuple<_Tp, _As...>& __a,
@@ -1507,6 +1507,13 @@ template <int _Np>
 	  __b);
       }
 
+    template <typename _Tp, typename... _As>
+      static inline constexpr
+      pair<_SimdTuple<_Tp, _As...>, _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      { return {_S_min(__a, __b), _S_max(__b, __a)}; }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..74c1463 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -188,7 +188,7 @@ struct _SimdImplScalar
     _S_reduce(const simd<_Tp, simd_abi::scalar>& __x, const _BinaryOperation&)
     { return __x._M_data; }
 
-  // _S_min, _S_max {{{2
+  // _S_min, _S_max, _S_minmax {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_min(const _Tp __a, const _Tp __b)
     { return std::min(__a, __b); }
@@ -197,6 +197,11 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp>
+    _S_minmax(const _Tp __a, const _Tp __b)
+    { return std::minmax(__a, __b); }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From c5c3e91932491fef3ef97fb19b310688b454798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 10/37] fix: masked hmin and hmax ignore selected infinities

---
 experimental/bits/simd.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 6d89605..b231db5 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3539,11 +3539,14 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
 #endif
+    if (__id_elem != __finite_max_v<_Tp>
+	&& __builtin_expect(none_of(__get_mask(__x)), false))
+      return __finite_max_v<_Tp>;
     _V __tmp = __id_elem;
     _V::_Impl::_S_masked_assign(__data(__get_mask(__x)), __data(__tmp),
 				__data(__get_lvalue(__x)));
@@ -3557,7 +3560,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
@@ -3567,6 +3570,9 @@ template <typename _M, typename _V>
 	  return __finite_min_v<_Tp>;
       }();
 #endif
+    if (__id_elem != __finite_min_v<_Tp>
+	&& __builtin_expect(none_of(__get_mask(__x)), false))
+      return __finite_min_v<_Tp>;
     _V __tmp = __id_elem;
     _V::_Impl::_S_masked_assign(__data(__get_mask(__x)), __data(__tmp),
 				__data(__get_lvalue(__x)));
-- 
2.43.0


From add723b0fb2f856967186009df47e99ebdb18c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 11/37] fix: trunc, round, rint and nearbyint lose the sign of
 results that are zero

---
 experimental/bits/simd_builtin.h |  5 ++++-
 experimental/bits/simd_x86.h     | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index e6f86fb..a820ec4 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2183,7 +2183,10 @@ template <typename _Abi>
       _GLIBCXX_SIMD_USE_CONSTEXPR _V __shifter_abs
 	= _V() + (1ull << (__digits_v<value_type> - 1));
       const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
-      const _V __shifted = _S_plus_minus(__x, __shifter);
+      // the result has the sign of __x, also if it is zero
+      const _V __shifted
+	= __or(__and(_S_signmask<_V>, __x),
+	       __and(_S_absmask<_V>, _S_plus_minus(__x, __shifter)));
       return __absx < __shifter_abs ? __shifted : __x;
     }
 
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 8cb0d81..1b376f4 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2681,8 +2681,10 @@ template <typename _Abi>
 	  return _mm_round_pd(__x, 0x3);
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
 	  {
-	    auto __truncated
-	      = _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x)));
+	    const auto __xi = __to_intrin(__x);
+	    // keep the sign of results that are zero
+	    auto __truncated = __or(__and(_S_signmask<decltype(__xi)>, __xi),
+				    _mm_cvtepi32_ps(_mm_cvttps_epi32(__xi)));
 	    const auto __no_fractional_values
 	      = __vector_bitcast<int>(__vector_bitcast<_UInt>(__to_intrin(__x))
 				      & 0x7f800000u)
@@ -2737,10 +2739,13 @@ template <typename _Abi>
 	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
 		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
 		 : _V());
+	// the result has the sign of __x, also if it is zero
+	const _V __signed_rounded
+	  = __or(__and(_S_signmask<_V>, __x._M_data), __rounded);
 	if constexpr (__have_sse4_1)
-	  return __rounded;
+	  return __signed_rounded;
 	else // adjust for missing range in cvttps_epi32
-	  return __and(_S_absmask<_V>, __x._M_data) < 0x1p23f ? __rounded
+	  return __and(_S_absmask<_V>, __x._M_data) < 0x1p23f ? __signed_rounded
 							      : __x._M_data;
       }
 
-- 
2.43.0


From 6649a685fe3e610f4858cc1a41f8515b01f5293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 12/37] fix: sin and cos of double vectors are wrong for
 arguments beyond 2^31

The quadrant is computed as int and overflows, so that results may even be
outside of [-1, 1]. Use the scalar functions for such arguments.
---
 experimental/bits/simd_math.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..45637c6 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -474,6 +474,11 @@ template <typename _Tp, typename _Abi>
 	    return static_simd_cast<_V>(
 	      cos(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
 
+	// the quadrant does not fit into an int anymore
+	if constexpr (is_same_v<_Tp, double>)
+	  if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 0x1p31)))
+	    return _V([&](auto __i) { return std::cos(_Tp(__x[__i])); });
+
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
 	//        0 | cosSeries, +
@@ -520,6 +525,11 @@ template <typename _Tp, typename _Abi>
 	    return static_simd_cast<_V>(
 	      sin(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
 
+	// the quadrant does not fit into an int anymore
+	if constexpr (is_same_v<_Tp, double>)
+	  if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= 0x1p31)))
+	    return _V([&](auto __i) { return std::sin(_Tp(__x[__i])); });
+
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
 	//        0 | sinSeries
-- 
2.43.0


From fe48ddf843c3fbeabc68e396cc9a817689555442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 13/37] fix: sph_legendre calls std::assoc_legendre

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 45637c6..4868451 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1487,7 +1487,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From c3aa07df59b1841263e0f26be94a7b299d8d8400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 14/37] fix: beta, expint, riemann_zeta, elliptic integrals and
 cylindrical Bessel functions do not compile

The implementation functions were missing for every ABI.
---
 experimental/bits/simd_builtin.h    | 13 ++++++++
 experimental/bits/simd_fixed_size.h | 13 ++++++++
 experimental/bits/simd_scalar.h     | 52 +++++++++++++++++++++++++++++
 3 files changed, 78 insertions(+)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index a820ec4..cc85b19 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2016,6 +2016,19 @@ template <typename _Abi>
     _GLIBCXX_SIMD_MATH_FALLBACK(fmax)
     _GLIBCXX_SIMD_MATH_FALLBACK(fmin)
     _GLIBCXX_SIMD_MATH_FALLBACK(fma)
+    _GLIBCXX_SIMD_MATH_FALLBACK(comp_ellint_1)
+    _GLIBCXX_SIMD_MATH_FALLBACK(comp_ellint_2)
+    _GLIBCXX_SIMD_MATH_FALLBACK(expint)
+    _GLIBCXX_SIMD_MATH_FALLBACK(riemann_zeta)
+    _GLIBCXX_SIMD_MATH_FALLBACK(beta)
+    _GLIBCXX_SIMD_MATH_FALLBACK(comp_ellint_3)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_bessel_i)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_bessel_j)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_bessel_k)
+    _GLIBCXX_SIMD_MATH_FALLBACK(cyl_neumann)
+    _GLIBCXX_SIMD_MATH_FALLBACK(ellint_1)
+    _GLIBCXX_SIMD_MATH_FALLBACK(ellint_2)
+    _GLIBCXX_SIMD_MATH_FALLBACK(ellint_3)
 
     template <typename _Tp, size_t _Np>
       static constexpr _MaskMember<_Tp>
diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 1cd308a..b2a52ab 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1679,6 +1679,19 @@ template <int _Np>
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fmax)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fmin)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, fma)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, comp_ellint_1)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, comp_ellint_2)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, expint)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, riemann_zeta)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, beta)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, comp_ellint_3)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_bessel_i)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_bessel_j)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_bessel_k)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, cyl_neumann)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ellint_1)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ellint_2)
+    _GLIBCXX_SIMD_APPLY_ON_TUPLE(_Tp, ellint_3)
     _GLIBCXX_SIMD_APPLY_ON_TUPLE(int, fpclassify)
 #undef _GLIBCXX_SIMD_APPLY_ON_TUPLE
 
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 74c1463..bf5a2c6 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -504,6 +504,58 @@ struct _SimdImplScalar
     _GLIBCXX_SIMD_INTRINSIC static _Tp _S_fma(_Tp __x, _Tp __y, _Tp __z)
     { return std::fma(__x, __y, __z); }
 
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_comp_ellint_1(_Tp __x)
+    { return std::comp_ellint_1(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_comp_ellint_2(_Tp __x)
+    { return std::comp_ellint_2(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_expint(_Tp __x)
+    { return std::expint(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_riemann_zeta(_Tp __x)
+    { return std::riemann_zeta(__x); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_beta(_Tp __x, _Tp __y)
+    { return std::beta(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_comp_ellint_3(_Tp __x, _Tp __y)
+    { return std::comp_ellint_3(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_bessel_i(_Tp __x, _Tp __y)
+    { return std::cyl_bessel_i(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_bessel_j(_Tp __x, _Tp __y)
+    { return std::cyl_bessel_j(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_bessel_k(_Tp __x, _Tp __y)
+    { return std::cyl_bessel_k(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_cyl_neumann(_Tp __x, _Tp __y)
+    { return std::cyl_neumann(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_ellint_1(_Tp __x, _Tp __y)
+    { return std::ellint_1(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_ellint_2(_Tp __x, _Tp __y)
+    { return std::ellint_2(__x, __y); }
+
+  template <typename _Tp>
+    _GLIBCXX_SIMD_INTRINSIC static _Tp _S_ellint_3(_Tp __x, _Tp __y, _Tp __z)
+    { return std::ellint_3(__x, __y, __z); }
+
   template <typename _Tp>
     _GLIBCXX_SIMD_INTRINSIC static _Tp _S_remquo(_Tp __x, _Tp __y, _ST<int>* __z)
     { return std::remquo(__x, __y, &__z->first); }
-- 
2.43.0


From de3256c7dc72f8870798023ea3ff171c13e1cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 15/37] fix: cv-qualified types are not vectorizable

---
 experimental/bits/simd.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index b231db5..277107a 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -333,7 +333,8 @@ template <typename _Tp>
 // }}}
 // __is_vectorizable {{{
 template <typename _Tp>
-  struct __is_vectorizable : public is_arithmetic<_Tp> {};
+  struct __is_vectorizable
+  : public conjunction<is_arithmetic<_Tp>, is_same<_Tp, remove_cv_t<_Tp>>> {};
 
 template <>
   struct __is_vectorizable<bool> : public false_type {};
-- 
2.43.0


From 4541a28d07aab8397f0b368fdc9d23c5cd90f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 16/37] fix: all_of and friends accept pointers and everything
 else that converts to bool

---
 experimental/bits/simd.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 277107a..88201df 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -660,9 +660,8 @@ class _ExactBool
   const bool _M_data;
 
 public:
-  _GLIBCXX_SIMD_INTRINSIC constexpr _ExactBool(bool __b) : _M_data(__b) {}
-
-  _ExactBool(int) = delete;
+  template <typename _Tp, typename = enable_if_t<is_same_v<_Tp, bool>>>
+    _GLIBCXX_SIMD_INTRINSIC constexpr _ExactBool(_Tp __b) : _M_data(__b) {}
 
   _GLIBCXX_SIMD_INTRINSIC constexpr operator bool() const { return _M_data; }
 };
-- 
2.43.0


From 839073ddd86fd45613036278931c0a384bdc9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 17/37] fix: implicit conversion of wchar_t and char32_t
 vectors to int and unsigned int

---
 experimental/bits/simd.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 88201df..49846a8 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -770,9 +770,12 @@ template <typename _From, typename _To, bool = (sizeof(_From) < sizeof(_To))>
   struct __converts_to_higher_integer_rank : public true_type {};
 
 // this may fail for char -> short if sizeof(char) == sizeof(short)
+// wchar_t, char16_t, and char32_t have the rank of the type they promote to
 template <typename _From, typename _To>
   struct __converts_to_higher_integer_rank<_From, _To, false>
-  : public is_same<decltype(declval<_From>() + declval<_To>()), _To> {};
+  : public conjunction<
+      is_same<decltype(declval<_From>() + declval<_To>()), _To>,
+      negation<is_same<decltype(+declval<_From>()), _To>>> {};
 
 // }}}
 // __data(simd/simd_mask) {{{
-- 
2.43.0


From 7ba98be01598a745d27962196ea41c37949c7002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 18/37] fix: static_simd_cast of a mask to a mask of different
 size is a hard error

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 49846a8..669cf34 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2829,7 +2829,7 @@ template <typename _Tp, size_t _Np>
 // static_simd_cast {{{2
 template <typename _Tp, typename _Up, typename _Ap, bool = is_simd_v<_Tp>,
 	  typename = void>
-  struct __static_simd_cast_return_type;
+  struct __static_simd_cast_return_type {};
 
 template <typename _Tp, typename _A0, typename _Up, typename _Ap>
   struct __static_simd_cast_return_type<simd_mask<_Tp, _A0>, _Up, _Ap, false,
-- 
2.43.0


From b7bcf130deea796f3d45de9625a8584eaaf0f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 19/37] fix: infinite template recursion for fma, remquo and
 ellint_3 of integral vectors

---
 experimental/bits/simd_math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 4868451..774c9fe 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -173,7 +173,8 @@ template <                                                                     \
   typename _U2 = __remove_cvref_t<_T2>,                                        \
   typename _Simd = conditional_t<is_simd_v<_U1>, _U1, _U2>,                    \
   typename = enable_if_t<conjunction_v<                                        \
-    is_simd<_Simd>, is_convertible<_T0&&, _Simd>,                              \
+    is_simd<_Simd>, is_floating_point<__value_type_or_identity_t<_Simd>>,      \
+    is_convertible<_T0&&, _Simd>,                                              \
     is_convertible<_T1&&, _Simd>, is_convertible<_T2&&, _Simd>,                \
     negation<conjunction<                                                      \
       is_simd<_U0>, is_floating_point<__value_type_or_identity_t<_U0>>>>>>>    \
-- 
2.43.0


From 9ac465f2b7042c879a4e8cdc2656928dfefbd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 20/37] fix: hypot participates in overload resolution for
 integral vectors

---
 experimental/bits/simd_math.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 774c9fe..d4a5455 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -897,14 +897,16 @@ template <typename _Abi> simd<long long, _Abi> llabs(const simd<long long, _Abi>
 
 #define _GLIBCXX_SIMD_CVTING2(_NAME)                                           \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const simd<_Tp, _Abi>& __x, const __type_identity_t<simd<_Tp, _Abi>>& __y) \
   {                                                                            \
     return _NAME(__x, __y);                                                    \
   }                                                                            \
                                                                                \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const __type_identity_t<simd<_Tp, _Abi>>& __x, const simd<_Tp, _Abi>& __y) \
   {                                                                            \
     return _NAME(__x, __y);                                                    \
@@ -912,7 +914,8 @@ template <typename _Tp, typename _Abi>                                         \
 
 #define _GLIBCXX_SIMD_CVTING3(_NAME)                                           \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const __type_identity_t<simd<_Tp, _Abi>>& __x, const simd<_Tp, _Abi>& __y, \
     const simd<_Tp, _Abi>& __z)                                                \
   {                                                                            \
@@ -920,7 +923,8 @@ template <typename _Tp, typename _Abi>                                         \
   }                                                                            \
                                                                                \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const simd<_Tp, _Abi>& __x, const __type_identity_t<simd<_Tp, _Abi>>& __y, \
     const simd<_Tp, _Abi>& __z)                                                \
   {                                                                            \
@@ -928,7 +932,8 @@ template <typename _Tp, typename _Abi>                                         \
   }                                                                            \
                                                                                \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y,                    \
     const __type_identity_t<simd<_Tp, _Abi>>& __z)                             \
   {                                                                            \
@@ -936,7 +941,8 @@ template <typename _Tp, typename _Abi>                                         \
   }                                                                            \
                                                                                \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const simd<_Tp, _Abi>& __x, const __type_identity_t<simd<_Tp, _Abi>>& __y, \
     const __type_identity_t<simd<_Tp, _Abi>>& __z)                             \
   {                                                                            \
@@ -944,7 +950,8 @@ template <typename _Tp, typename _Abi>                                         \
   }                                                                            \
                                                                                \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const __type_identity_t<simd<_Tp, _Abi>>& __x, const simd<_Tp, _Abi>& __y, \
     const __type_identity_t<simd<_Tp, _Abi>>& __z)                             \
   {                                                                            \
@@ -952,7 +959,8 @@ template <typename _Tp, typename _Abi>                                         \
   }                                                                            \
                                                                                \
 template <typename _Tp, typename _Abi>                                         \
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi> _NAME(                               \
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>,                \
+				      simd<_Tp, _Abi>> _NAME(                  \
     const __type_identity_t<simd<_Tp, _Abi>>& __x,                             \
     const __type_identity_t<simd<_Tp, _Abi>>& __y, const simd<_Tp, _Abi>& __z) \
   {                                                                            \
@@ -1101,7 +1109,7 @@ template <typename _VV>
   }
 
 template <typename _Tp, typename _Abi>
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi>
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
   hypot(const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y)
   {
     return __hypot<conditional_t<__is_fixed_size_abi_v<_Abi>,
@@ -1276,7 +1284,7 @@ _GLIBCXX_SIMD_CVTING2(hypot)
   }
 
   template <typename _Tp, typename _Abi>
-  _GLIBCXX_SIMD_INTRINSIC simd<_Tp, _Abi>
+  _GLIBCXX_SIMD_INTRINSIC enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
   hypot(const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y,
 	const simd<_Tp, _Abi>& __z)
   {
-- 
2.43.0


From 2c863cbacbdb5c7e1291a20f3654c75d8710bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 21/37] fix: const vector builtins in internal traits (trunc
 does not compile without SSE4.1)

---
 experimental/bits/simd.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 669cf34..63f5d57 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -1350,13 +1350,15 @@ template <typename _Tp>
 
 // special case 1-element to be _Tp itself
 template <typename _Tp>
-  struct __vector_type_n<_Tp, 1, enable_if_t<__is_vectorizable_v<_Tp>>>
+  struct __vector_type_n<_Tp, 1,
+			 enable_if_t<__is_vectorizable_v<remove_cv_t<_Tp>>>>
   { using type = _Tp; };
 
 // else, use GNU-style builtin vector types
 template <typename _Tp, size_t _Np>
   struct __vector_type_n<_Tp, _Np,
-			 enable_if_t<__is_vectorizable_v<_Tp> && _Np >= 2>>
+			 enable_if_t<__is_vectorizable_v<remove_cv_t<_Tp>>
+				     && _Np >= 2>>
   {
     static constexpr size_t _S_Np2 = std::__bit_ceil(_Np * sizeof(_Tp));
 
@@ -2229,7 +2231,8 @@ template <>
 #if _GLIBCXX_SIMD_HAVE_SSE
 template <typename _Tp, size_t _Bytes>
   struct __intrinsic_type<_Tp, _Bytes,
-			  enable_if_t<__is_vectorizable_v<_Tp> && _Bytes <= 64>>
+			  enable_if_t<__is_vectorizable_v<remove_cv_t<_Tp>>
+				      && _Bytes <= 64>>
   {
     static_assert(!is_same_v<_Tp, long double>,
 		  "no __intrinsic_type support for long double on x86");
@@ -2286,7 +2289,8 @@ _GLIBCXX_SIMD_ARM_INTRIN(64, 2);
 
 template <typename _Tp, size_t _Bytes>
   struct __intrinsic_type<_Tp, _Bytes,
-			  enable_if_t<__is_vectorizable_v<_Tp> && _Bytes <= 16>>
+			  enable_if_t<__is_vectorizable_v<remove_cv_t<_Tp>>
+				      && _Bytes <= 16>>
   {
     static constexpr int _SVecBytes = _Bytes <= 8 ? 8 : 16;
     using _Ip = __int_for_sizeof_t<_Tp>;
@@ -2324,7 +2328,8 @@ _GLIBCXX_SIMD_PPC_INTRIN(unsigned long long);
 
 template <typename _Tp, size_t _Bytes>
   struct __intrinsic_type<_Tp, _Bytes,
-			  enable_if_t<__is_vectorizable_v<_Tp> && _Bytes <= 16>>
+			  enable_if_t<__is_vectorizable_v<remove_cv_t<_Tp>>
+				      && _Bytes <= 16>>
   {
     static constexpr bool _S_is_ldouble = is_same_v<_Tp, long double>;
     // allow _Tp == long double with -mlong-double-64
-- 
2.43.0


From 652a65836693717039f7e74762e31288418749e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 22/37] fix: popcount of 256-bit masks without the popcnt
 instruction returns nothing

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 1b376f4..10d2beb 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5144,7 +5144,7 @@ template <typename _Abi>
 		// use a summation
 		using _I = __int_for_sizeof_t<_Tp>;
 		const auto __as_int = __vector_bitcast<_I>(__kk);
-		_MaskImplX86<simd_abi::__sse>::_S_popcount(
+		return _MaskImplX86<simd_abi::__sse>::_S_popcount(
 		  simd_mask<_I, simd_abi::__sse>(__private_init,
 						 __lo128(__as_int)
 						   + __hi128(__as_int)));
-- 
2.43.0


From f073a347aeee18a8b62b0b1cc19159e14765b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 23/37] fix: split of a partial AVX mask into two SSE masks
 loses elements

---
 experimental/bits/simd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 63f5d57..6ea7407 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3829,7 +3829,9 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       && _V::size()
+			      * sizeof(typename _V::simd_type::value_type) == 16)
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0


From d4d7ad09164ff48e1bbf6735faf21f195d1cdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 24/37] fix: any_of, some_of and popcount of partial NEON masks
 look at the padding

---
 experimental/bits/simd_neon.h | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/experimental/bits/simd_neon.h b/experimental/bits/simd_neon.h
index 597f406..6633ee8 100644
--- a/experimental/bits/simd_neon.h
+++ b/experimental/bits/simd_neon.h
@@ -424,9 +424,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static bool _S_any_of(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kk
-	  = __vector_bitcast<char>(__k._M_data)
-	    | ~__vector_bitcast<char>(_Abi::template _S_implicit_mask<_Tp>());
+	const auto __kk = _Abi::_S_masked(__k._M_data);
 	if constexpr (sizeof(__k) == 16)
 	  {
 	    const auto __x = __vector_bitcast<long long>(__kk);
@@ -461,13 +459,7 @@ template <typename _Abi>
       _GLIBCXX_SIMD_INTRINSIC static bool _S_some_of(simd_mask<_Tp, _Abi> __k)
       {
 	if constexpr (sizeof(__k) <= 8)
-	  {
-	    const auto __kk = __vector_bitcast<char>(__k._M_data)
-			      | ~__vector_bitcast<char>(
-				_Abi::template _S_implicit_mask<_Tp>());
-	    using _Up = make_unsigned_t<__int_for_sizeof_t<decltype(__kk)>>;
-	    return __bit_cast<_Up>(__kk) + 1 > 1;
-	  }
+	  return _S_any_of(__k) && !_S_all_of(__k);
 	else
 	  return _Base::_S_some_of(__k);
       }
@@ -477,29 +469,30 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
+	const auto __kk = _Abi::_S_masked(__k._M_data);
 	if constexpr (sizeof(_Tp) == 1)
 	  {
-	    const auto __s8 = __vector_bitcast<_SChar>(__k._M_data);
+	    const auto __s8 = __vector_bitcast<_SChar>(__kk);
 	    int8x8_t __tmp = __lo64(__s8) + __hi64z(__s8);
 	    return -vpadd_s8(vpadd_s8(vpadd_s8(__tmp, int8x8_t()), int8x8_t()),
 			     int8x8_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 2)
 	  {
-	    const auto __s16 = __vector_bitcast<short>(__k._M_data);
+	    const auto __s16 = __vector_bitcast<short>(__kk);
 	    int16x4_t __tmp = __lo64(__s16) + __hi64z(__s16);
 	    return -vpadd_s16(vpadd_s16(__tmp, int16x4_t()), int16x4_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 4)
 	  {
-	    const auto __s32 = __vector_bitcast<int>(__k._M_data);
+	    const auto __s32 = __vector_bitcast<int>(__kk);
 	    int32x2_t __tmp = __lo64(__s32) + __hi64z(__s32);
 	    return -vpadd_s32(__tmp, int32x2_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 8)
 	  {
 	    static_assert(sizeof(__k) == 16);
-	    const auto __s64 = __vector_bitcast<long>(__k._M_data);
+	    const auto __s64 = __vector_bitcast<long>(__kk);
 	    return -(__s64[0] + __s64[1]);
 	  }
       }
-- 
2.43.0


From e17494d1a0c6309a5b0a195406157ad239e206df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 25/37] fix: popcount of partial POWER masks counts the padding

---
 experimental/bits/simd_ppc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_ppc.h b/experimental/bits/simd_ppc.h
index 1d64993..4174417 100644
--- a/experimental/bits/simd_ppc.h
+++ b/experimental/bits/simd_ppc.h
@@ -126,7 +126,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kv = __as_vector(__k);
+	const auto __kv = __as_vector(_Abi::_S_masked(__k._M_data));
 	if constexpr (__have_power10vec)
 	  {
 	    return vec_cntm(__to_intrin(__kv), 1);
-- 
2.43.0


From 8bf8c1959562889de971270f2a81fbca4eb3dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 26/37] fix: converting loads and stores of double memory do
 not compile on ARM without A64

---
 experimental/bits/simd_builtin.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index cc85b19..dc64f9b 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1379,6 +1379,14 @@ template <typename _Abi>
     template <typename _Tp>
       static constexpr size_t _S_max_store_size = 16;
 
+    // There is no vector type for long double and, without A64, none for
+    // double on ARM.
+    template <typename _Up>
+      static constexpr bool _S_no_vector_type
+	= sizeof(_Up) > 8
+	  || (__have_neon && !__have_neon_a64 && sizeof(_Up) == 8
+	      && is_floating_point_v<_Up>);
+
     using abi_type = _Abi;
 
     template <typename _Tp>
@@ -1442,7 +1450,7 @@ template <typename _Abi>
 	    : (is_floating_point_v<_Up> && __have_avx) || __have_avx2 ? 32
 								      : 16;
 	constexpr size_t __bytes_to_load = sizeof(_Up) * _Np;
-	if constexpr (sizeof(_Up) > 8)
+	if constexpr (_S_no_vector_type<_Up>)
 	  return __generate_vector<_Tp, _SimdMember<_Tp>::_S_full_size>([&](
 	    auto __i) constexpr {
 	    return static_cast<_Tp>(__i < _Np ? __mem[__i] : 0);
@@ -1510,7 +1518,7 @@ template <typename _Abi>
 	constexpr size_t _Np = _S_size<_Tp>;
 	constexpr size_t __max_store_size
 	  = _SuperImpl::template _S_max_store_size<_Up>;
-	if constexpr (sizeof(_Up) > 8)
+	if constexpr (_S_no_vector_type<_Up>)
 	  __execute_n_times<_Np>([&](auto __i) constexpr {
 	    __mem[__i] = __v[__i];
 	  });
-- 
2.43.0


From 03512cd8e98babc689fcee7c2b19c475ed603b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 27/37] fix: no signed overflow in arithmetic on narrow
 elements

The GNU vector operators don't promote, so that arithmetic on signed 8- and
16-bit elements had undefined behavior where the scalar operators are
well-defined. GCC used it: (x * 4) / 4 became x and (x + 1) > x became true.
---
 experimental/bits/simd_builtin.h | 36 +++++++++++++++++++++++++-------
 experimental/bits/simd_x86.h     | 28 ++++++++++++-------------
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index dc64f9b..f78fe67 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1645,6 +1645,22 @@ template <typename _Abi>
       _S_complement(_SimdWrapper<_Tp, _Np> __x) noexcept
       { return ~__x._M_data; }
 
+    // _S_wrapping {{{2
+    // Integral promotion makes arithmetic on elements narrower than int
+    // well-defined for all operands. The GNU vector operators don't promote,
+    // i.e. signed overflow would be undefined.
+    template <typename _Tp, size_t _Np>
+      _GLIBCXX_SIMD_INTRINSIC static constexpr auto
+      _S_wrapping(_SimdWrapper<_Tp, _Np> __x) noexcept
+      {
+	if constexpr (is_integral_v<_Tp> && is_signed_v<_Tp>
+		      && sizeof(_Tp) < sizeof(int))
+	  return __vector_bitcast<make_unsigned_t<__int_for_sizeof_t<_Tp>>>(
+	    __x._M_data);
+	else
+	  return __x._M_data;
+      }
+
     // _S_unary_minus {{{2
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
@@ -1652,24 +1668,30 @@ template <typename _Abi>
       {
 	// GCC doesn't use the psign instructions, but pxor & psub seem to be
 	// just as good a choice as pcmpeqd & psign. So meh.
-	return -__x._M_data;
+	return __vector_bitcast<_Tp>(-_S_wrapping(__x));
       }
 
     // arithmetic operators {{{2
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_plus(_SimdWrapper<_Tp, _Np> __x, _SimdWrapper<_Tp, _Np> __y)
-      { return __x._M_data + __y._M_data; }
+      {
+	return __vector_bitcast<_Tp>(_S_wrapping(__x) + _S_wrapping(__y));
+      }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_minus(_SimdWrapper<_Tp, _Np> __x, _SimdWrapper<_Tp, _Np> __y)
-      { return __x._M_data - __y._M_data; }
+      {
+	return __vector_bitcast<_Tp>(_S_wrapping(__x) - _S_wrapping(__y));
+      }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_multiplies(_SimdWrapper<_Tp, _Np> __x, _SimdWrapper<_Tp, _Np> __y)
-      { return __x._M_data * __y._M_data; }
+      {
+	return __vector_bitcast<_Tp>(_S_wrapping(__x) * _S_wrapping(__y));
+      }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
@@ -2133,7 +2155,7 @@ template <typename _Abi>
 	}
       else
   #endif //_GLIBCXX_SIMD_WORKAROUND_PR91533
-	return __x._M_data < 0 ? -__x._M_data : __x._M_data;
+	return __x._M_data < 0 ? _S_unary_minus(__x)._M_data : __x._M_data;
     }
 
     // }}}3
@@ -2462,12 +2484,12 @@ template <typename _Abi>
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static void
       _S_increment(_SimdWrapper<_Tp, _Np>& __x)
-      { __x = __x._M_data + 1; }
+      { __x = __vector_bitcast<_Tp>(_S_wrapping(__x) + 1); }
 
     template <typename _Tp, size_t _Np>
       _GLIBCXX_SIMD_INTRINSIC static void
       _S_decrement(_SimdWrapper<_Tp, _Np>& __x)
-      { __x = __x._M_data - 1; }
+      { __x = __vector_bitcast<_Tp>(_S_wrapping(__x) - 1); }
 
     // smart_reference access {{{2
     template <typename _Tp, size_t _Np, typename _Up>
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 10d2beb..2df591a 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1309,7 +1309,7 @@ template <typename _Abi>
 	using _Tp = typename _VVT::value_type;
 	if (__builtin_is_constant_evaluated() || __x._M_is_constprop()
 	    || __y._M_is_constprop())
-	  return __as_vector(__x) * __as_vector(__y);
+	  return _Base::_S_multiplies(__x, __y);
 	else if constexpr (sizeof(_Tp) == 1)
 	  {
 	    if constexpr (sizeof(_V) == 2)
@@ -1321,8 +1321,8 @@ template <typename _Abi>
 	      }
 	    else if constexpr (sizeof(_V) == 4 && _VVT::_S_partial_width == 3)
 	      {
-		const auto __xi = reinterpret_cast<int>(__x._M_data);
-		const auto __yi = reinterpret_cast<int>(__y._M_data);
+		const auto __xi = reinterpret_cast<unsigned>(__x._M_data);
+		const auto __yi = reinterpret_cast<unsigned>(__y._M_data);
 		return reinterpret_cast<__vector_type_t<_Tp, 3>>(
 		  ((__xi * __yi) & 0xff)
 		  | (((__xi >> 8) * (__yi & 0xff00)) & 0xff00)
@@ -1330,8 +1330,8 @@ template <typename _Abi>
 	      }
 	    else if constexpr (sizeof(_V) == 4)
 	      {
-		const auto __xi = reinterpret_cast<int>(__x._M_data);
-		const auto __yi = reinterpret_cast<int>(__y._M_data);
+		const auto __xi = reinterpret_cast<unsigned>(__x._M_data);
+		const auto __yi = reinterpret_cast<unsigned>(__y._M_data);
 		return reinterpret_cast<__vector_type_t<_Tp, 4>>(
 		  ((__xi * __yi) & 0xff)
 		  | (((__xi >> 8) * (__yi & 0xff00)) & 0xff00)
@@ -1346,21 +1346,21 @@ template <typename _Abi>
 	    else if constexpr (sizeof(_V) == 8 && __have_avx2
 			       && is_unsigned_v<_Tp>)
 	      return __convert<typename _VVT::type>(
-		__vector_bitcast<short>(_mm_cvtepu8_epi16(__to_intrin(__x)))
-		* __vector_bitcast<short>(_mm_cvtepu8_epi16(__to_intrin(__y))));
+		__vector_bitcast<_UShort>(_mm_cvtepu8_epi16(__to_intrin(__x)))
+		* __vector_bitcast<_UShort>(_mm_cvtepu8_epi16(__to_intrin(__y))));
 	    else
 	      {
 		// codegen of `x*y` is suboptimal (as of GCC 9.0.1)
 		constexpr size_t __full_size = _VVT::_S_full_size;
 		constexpr int _Np = sizeof(_V) >= 16 ? __full_size / 2 : 8;
-		using _ShortW = _SimdWrapper<short, _Np>;
-		const _ShortW __even = __vector_bitcast<short, _Np>(__x)
-				       * __vector_bitcast<short, _Np>(__y);
-		_ShortW __high_byte = _ShortW()._M_data - 256;
+		using _UShortW = _SimdWrapper<_UShort, _Np>;
+		const _UShortW __even = __vector_bitcast<_UShort, _Np>(__x)
+				       * __vector_bitcast<_UShort, _Np>(__y);
+		_UShortW __high_byte = _UShortW()._M_data - 256;
 		//[&]() { asm("" : "+x"(__high_byte._M_data)); }();
-		const _ShortW __odd
-		  = (__vector_bitcast<short, _Np>(__x) >> 8)
-		    * (__vector_bitcast<short, _Np>(__y) & __high_byte._M_data);
+		const _UShortW __odd
+		  = (__vector_bitcast<_UShort, _Np>(__x) >> 8)
+		    * (__vector_bitcast<_UShort, _Np>(__y) & __high_byte._M_data);
 		if constexpr (__have_avx512bw && sizeof(_V) > 2)
 		  return _CommonImplX86::_S_blend_avx512(
 		    0xaaaa'aaaa'aaaa'aaaaLL, __vector_bitcast<_Tp>(__even),
-- 
2.43.0


From f04e2a9060235c793e3871aa4687fa1313b70289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 28/37] fix: 8-bit shifts must not depend on the signedness of
 char

char(0xf0) does not convert to the element type without narrowing if char is
unsigned (-funsigned-char). Shift the mask and double the value without
signed overflow.
---
 experimental/bits/simd_x86.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 2df591a..a1d0dc9 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1681,24 +1681,25 @@ template <typename _Abi>
 	    else if constexpr (__have_sse4_1 && sizeof(__x) == 16)
 	      {
 		auto __mask
-		  = __vector_bitcast<_Up>(__vector_bitcast<short>(__y) << 5);
+		  = __vector_bitcast<_UChar>(__vector_bitcast<short>(__y) << 5);
 		auto __x4
 		  = __vector_bitcast<_Up>(__vector_bitcast<short>(__x) << 4);
-		__x4 &= char(0xf0);
+		__x4 &= _Up(0xf0);
 		__x = reinterpret_cast<_V>(_CommonImplX86::_S_blend_intrin(
 		  __to_intrin(__mask), __to_intrin(__x), __to_intrin(__x4)));
 		__mask += __mask;
 		auto __x2
 		  = __vector_bitcast<_Up>(__vector_bitcast<short>(__x) << 2);
-		__x2 &= char(0xfc);
+		__x2 &= _Up(0xfc);
 		__x = reinterpret_cast<_V>(_CommonImplX86::_S_blend_intrin(
 		  __to_intrin(__mask), __to_intrin(__x), __to_intrin(__x2)));
 		__mask += __mask;
-		auto __x1 = __x + __x;
+		auto __x1 = __vector_bitcast<_Up>(__vector_bitcast<_UChar>(__x)
+						  + __vector_bitcast<_UChar>(__x));
 		__x = reinterpret_cast<_V>(_CommonImplX86::_S_blend_intrin(
 		  __to_intrin(__mask), __to_intrin(__x), __to_intrin(__x1)));
 		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		       & ((__y & _Up(0xf8)) == 0); // y > 7 nulls the result
 	      }
 	    else if constexpr (sizeof(__x) == 16)
 	      {
@@ -1706,18 +1707,19 @@ template <typename _Abi>
 		  = __vector_bitcast<_UChar>(__vector_bitcast<short>(__y) << 5);
 		auto __x4
 		  = __vector_bitcast<_Up>(__vector_bitcast<short>(__x) << 4);
-		__x4 &= char(0xf0);
+		__x4 &= _Up(0xf0);
 		__x = __vector_bitcast<_SChar>(__mask) < 0 ? __x4 : __x;
 		__mask += __mask;
 		auto __x2
 		  = __vector_bitcast<_Up>(__vector_bitcast<short>(__x) << 2);
-		__x2 &= char(0xfc);
+		__x2 &= _Up(0xfc);
 		__x = __vector_bitcast<_SChar>(__mask) < 0 ? __x2 : __x;
 		__mask += __mask;
-		auto __x1 = __x + __x;
+		auto __x1 = __vector_bitcast<_Up>(__vector_bitcast<_UChar>(__x)
+						  + __vector_bitcast<_UChar>(__x));
 		__x = __vector_bitcast<_SChar>(__mask) < 0 ? __x1 : __x;
 		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		       & ((__y & _Up(0xf8)) == 0); // y > 7 nulls the result
 	      }
 	    else
 	      return __x << __y;
@@ -1821,8 +1823,11 @@ template <typename _Abi>
 		   _Up> && __y >= int(sizeof(_Up) * __CHAR_BIT__))
 	  return _V();
 	else if constexpr (sizeof(_Up) == 1 && is_unsigned_v<_Up>) //{{{
-	  return __intrin_bitcast<_V>(__vector_bitcast<_UShort>(__ix) >> __y)
-		 & _Up(0xff >> __y);
+	  {
+	    const _Up __mask = 0xff >> __y;
+	    return __intrin_bitcast<_V>(__vector_bitcast<_UShort>(__ix) >> __y)
+		   & __mask;
+	  }
 	//}}}
 	else if constexpr (sizeof(_Up) == 1 && is_signed_v<_Up>) //{{{
 	  return __intrin_bitcast<_V>(
@@ -1981,7 +1986,7 @@ template <typename _Abi>
 		  __to_intrin(__mask), __to_intrin(__x128), __to_intrin(__x1)));
 		return __intrin_bitcast<_V>(
 		  __x128
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
+		  & ((__vector_bitcast<_Up>(__iy) & _Up(0xf8))
 		     == 0)); // y > 7 nulls the result
 	      }
 	    else if constexpr (__have_sse4_1
@@ -2042,7 +2047,7 @@ template <typename _Abi>
 		  (__vector_bitcast<_UShort>(__x) >> 1) & _UShort(0xff7f));
 		__x = __mask > 0x7f ? __x1 : __x;
 		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		       & ((__y & _Up(0xf8)) == 0); // y > 7 nulls the result
 	      }
 	    else if constexpr (sizeof(__x) > 2) // signed SSE2
 	      {
-- 
2.43.0


From 38926c18cb7107e9c9b5e22b65bea306bb074e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 29/37] fix: arithmetic right shift of 64-bit elements by 32
 and more

It shifted 32-bit elements by 32, which is undefined.
---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index a1d0dc9..39230b4 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1842,8 +1842,8 @@ template <typename _Abi>
 	// GCC optimizes sizeof == 2, 4, and unsigned 8 as expected
 	else if constexpr (sizeof(_Up) == 8 && is_signed_v<_Up>) //{{{
 	  {
-	    if (__y > 32)
-	      return (__intrin_bitcast<_V>(__vector_bitcast<int>(__ix) >> 32)
+	    if (__y >= 32)
+	      return (__intrin_bitcast<_V>(__vector_bitcast<int>(__ix) >> 31)
 		      & _Up(0xffff'ffff'0000'0000ull))
 		     | __vector_bitcast<_Up>(
 		       __vector_bitcast<int>(__vector_bitcast<_ULLong>(__ix)
-- 
2.43.0


From 20608506eabb93b477b68631647d881d6472d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 30/37] fix: no ctz of zero in bit iteration

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 6ea7407..32a08ee 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3422,7 +3422,7 @@ template <size_t _Np>
       size_t __bit;
 
       _GLIBCXX_SIMD_INTRINSIC void __next_bit()
-      { __bit = __builtin_ctzl(__mask); }
+      { __bit = __mask == 0 ? 0 : __builtin_ctzl(__mask); }
 
       _GLIBCXX_SIMD_INTRINSIC void __reset_lsb()
       {
-- 
2.43.0


From 1f18088904e12f1cc8c8a1b4c476a36edb03ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 31/37] fix: zero the unused bits of default-initialized bit
 masks

A sanitized _BitMask requires unused bits to be zero. Otherwise writing every
element of a default-initialized fixed_size mask (which is what to_fixed_size
does) leads to wrong reductions.
---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 32a08ee..618de86 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -991,7 +991,7 @@ template <size_t _Np, bool _Sanitized>
 
     static constexpr int _S_array_size = __div_roundup(_NBytes, sizeof(_Tp));
 
-    _Tp _M_bits[_S_array_size];
+    _Tp _M_bits[_S_array_size] = {};
 
     static constexpr int _S_unused_bits
       = _Np == 1 ? 0 : _S_array_size * sizeof(_Tp) * __CHAR_BIT__ - _Np;
-- 
2.43.0


From 5fed1239f84c4b3181107598a2f26885d74fe7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 32/37] fix: find_last_set must ignore unused bits of AVX-512
 masks

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 39230b4..4e2f4a6 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5178,7 +5178,7 @@ template <typename _Abi>
       _S_find_last_set(simd_mask<_Tp, _Abi> __k)
       {
 	if constexpr (__is_avx512_abi<_Abi>())
-	  return std::__bit_width(__k._M_data._M_data) - 1;
+	  return std::__bit_width(_Abi::_S_masked(__k._M_data)._M_data) - 1;
 	else
 	  return _Base::_S_find_last_set(__k);
       }
-- 
2.43.0


From 06f5aa6a10a4b7e7c96b4b5d97802392fe5798d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:59 +0000
Subject: [PATCH 33/37] fix: SSE division of integers with -freciprocal-math

The first operand of divps and divpd is read as well as written.
---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 4e2f4a6..d4a9822 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1450,11 +1450,11 @@ template <typename _Abi>
 		      __r = __xf[__i];
 		      if constexpr (sizeof(_Tp) == 4)
 			asm("divpd\t{%1, %0|%0, %1}"
-			    : "=x"(__r)
+			    : "+x"(__r)
 			    : "x"(__yf[__i]));
 		      else
 			asm("divps\t{%1, %0|%0, %1}"
-			    : "=x"(__r)
+			    : "+x"(__r)
 			    : "x"(__yf[__i]));
 		    }
 		  return __r;
-- 
2.43.0


From 05de2333d1ef6914af163aa0891cd3509eb6a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 34/37] fix: misaligned references to fixed_size arguments of
 math functions

---
 experimental/bits/simd_fixed_size.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index b2a52ab..e424830 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1156,6 +1156,31 @@ template <typename _Tp>
     }
   };
 
+// A _SimdTuple can be less aligned than the fixed_size simd it is the data of.
+template <typename _Tp, typename... _As>
+  struct __autocvt_to_simd<_SimdTuple<_Tp, _As...>&, false>
+  {
+    using _TT = _SimdTuple<_Tp, _As...>;
+    using _V = fixed_size_simd<_Tp, _TT::_S_size()>;
+    _TT& _M_data;
+    _V _M_fd;
+
+    inline __autocvt_to_simd(_TT& dd)
+    : _M_data(dd), _M_fd(__private_init, dd) {}
+
+    ~__autocvt_to_simd()
+    { _M_data = __data(_M_fd); }
+
+    operator _V()
+    { return _M_fd; }
+
+    operator _V&()
+    { return _M_fd; }
+
+    operator _V*()
+    { return &_M_fd; }
+  };
+
 // }}}
 
 struct _CommonImplFixedSize;
-- 
2.43.0


From e8485e96058fbb59dcd90919ec1d76345f765d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 35/37] fix: masked loads and stores of partial vectors access
 memory beyond the array

Comparisons may set the elements of a mask beyond the last one. Masked loads
and stores used all of the register.
---
 experimental/bits/simd_builtin.h | 5 +++--
 experimental/bits/simd_x86.h     | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f78fe67..9eab347 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1562,9 +1562,10 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
-	noexcept
+      _S_masked_store(const _TW __v, _Up* __mem, _MaskMember<_Tp> __k) noexcept
       {
+	// comparisons may set the padding of partial masks
+	__k = _Abi::_S_masked(__k);
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d4a9822..3436a81 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -853,6 +853,8 @@ template <typename _Abi>
 		     const _Up* __mem) noexcept
       {
 	static_assert(_Np == _S_size<_Tp>);
+	// comparisons may set the padding of partial masks
+	__k = _Abi::_S_masked(__k);
 	if constexpr (is_same_v<_Tp, _Up> || // no conversion
 		      (sizeof(_Tp) == sizeof(_Up)
 		       && is_integral_v<
-- 
2.43.0


From 3a5f4fdc6404f026e7bb04bda07541f616d7b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:53 +0000
Subject: [PATCH 36/37] fix: copysign of fixed_size vectors lost the sign with
 -fno-signed-zeros

The sign mask of a fixed_size vector is built from floating-point
constants one chunk at a time; with -ffast-math (-fno-signed-zeros) its
-0. is turned into +0. Compute it on each chunk, like logb does.
---
 experimental/bits/simd_math.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index d4a5455..91765d0 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1326,6 +1326,16 @@ template <typename _Tp, typename _Abi>
   {
     if constexpr (simd_size_v<_Tp, _Abi> == 1)
       return std::copysign(__x[0], __y[0]);
+    else if constexpr (__is_fixed_size_abi_v<_Abi>)
+      return {__private_init,
+	      __data(__x)._M_apply_per_chunk(
+		[](auto __impl, auto __xx, auto __yy) {
+		  using _V = typename decltype(__impl)::simd_type;
+		  return __data(
+		    std::experimental::copysign(_V(__private_init, __xx),
+						_V(__private_init, __yy)));
+		},
+		__data(__y))};
     else if constexpr (is_same_v<_Tp, long double> && sizeof(_Tp) == 12)
       // Remove this case once __bit_cast is implemented via __builtin_bit_cast.
       // It is necessary, because __signmask below cannot be computed at compile
-- 
2.43.0


From 26650be150dcff3811e4c5e99b7769acdba760ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:53 +0000
Subject: [PATCH 37/37] fix: numeric traits of bool disagree with
 numeric_limits

---
 experimental/bits/numeric_traits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experimental/bits/numeric_traits.h b/experimental/bits/numeric_traits.h
index 1b60874..b4c260e 100644
--- a/experimental/bits/numeric_traits.h
+++ b/experimental/bits/numeric_traits.h
@@ -43,6 +43,10 @@ template <typename _Tp>
       = sizeof(_Tp) * __CHAR_BIT__ - is_signed_v<_Tp>;
   };
 
+template <>
+  struct __digits_impl<bool, true>
+  { static inline constexpr int value = 1; };
+
 template <>
   struct __digits_impl<float, true>
   { static inline constexpr int value = __FLT_MANT_DIG__; };
-- 
2.43.0


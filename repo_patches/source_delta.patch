From 572b03e0f4ddee4dde982abffeb4cfcee5f2afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 01/46] fix: RecursiveCallback: don't call functions added
 during a nested call

When the last registered function was removed before a nested call started,
the nested call never hit its end condition and called functions that were
added while it was running.
---
 nytl/recursiveCallback.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..c60f16e 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -272,11 +272,14 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above).
+			// Checked for removed functions as well since last might
+			// already have been removed when this call started
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -287,9 +290,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From acb9a7031da18b601a8f33e6704b54729a3ba54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 02/46] fix: RecursiveCallback: signal deferred removal of
 leading functions

removeOld did not call ID::removed() for the removed subscriptions at the
front of the list.
---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index c60f16e..195520f 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From 7684ef3779fd08f9e0c01ff71029140ccbd8a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 03/46] fix: RecursiveCallback: signal removal to the id that
 is disconnected

disconnect() called ID::removed() on the subscription following the one
it removes, dereferencing the end iterator for the last one.
---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 195520f..a41b8be 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -359,7 +359,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From 2c1c60df73621e11103f4747e54766498dfc11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 04/46] fix: RecursiveCallback: disconnect returns false for
 removed functions

When the removal was deferred and the id shares its value with all
connections, disconnecting a second time matched some formally removed
function, returned true and changed the call it was removed in.
---
 nytl/recursiveCallback.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index a41b8be..027a704 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -332,6 +332,11 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		return false;
 	}
 
+	// already removed (but maybe not yet erased from the list)
+	if(id.get() <= 0) {
+		return false;
+	}
+
 	auto remove = (iterationCount_ == 0);
 
 	// check for first one
-- 
2.43.0


From acba1bc03b4327d5a104ac14c906196806e8ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 05/46] fix: RecursiveCallback: clear must not remove functions
 a second time

Functions that were already formally removed before a nested call started
were removed again (by that nested call) and therefore called by it.
---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 027a704..d1c9da8 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -311,7 +311,7 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) {
 			sub.id.set(-callID_);
 		}
 	}
-- 
2.43.0


From 1d43fa8f189f7cf7b4b8828bccb581ef16fdb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 06/46] fix: Callback, RecursiveCallback: pass the same
 arguments to all functions

Arguments taken by value were moved into the first registered function, all
others received the moved-from value.
---
 nytl/callback.hpp          | 16 ++++++++++++++--
 nytl/recursiveCallback.hpp | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..782878b 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -129,6 +129,18 @@ public:
 	}
 
 protected:
+	// Passes a call argument to one of the registered functions.
+	// All of them have to receive the same arguments, values are therefore
+	// copied (if possible) instead of being moved into the first function.
+	template<typename T>
+	static decltype(auto) passArg(std::remove_reference_t<T>& arg) {
+		if constexpr(!std::is_reference_v<T> && std::is_copy_constructible_v<T>) {
+			return static_cast<const T&>(arg);
+		} else {
+			return std::forward<T>(arg);
+		}
+	}
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -175,13 +187,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(passArg<Args>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(passArg<Args>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index d1c9da8..3689025 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -130,6 +130,18 @@ protected:
 		ID id;
 	};
 
+	// Passes a call argument to one of the registered functions.
+	// All of them have to receive the same arguments, values are therefore
+	// copied (if possible) instead of being moved into the first function.
+	template<typename T>
+	static decltype(auto) passArg(std::remove_reference_t<T>& arg) {
+		if constexpr(!std::is_reference_v<T> && std::is_copy_constructible_v<T>) {
+			return static_cast<const T&>(arg);
+		} else {
+			return std::forward<T>(arg);
+		}
+	}
+
 	// Emplaces a new subscription for the given function.
 	Subscription& emplace() {
 		// output at least a warning when subID_ has to be wrapped
@@ -272,7 +284,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(passArg<Args>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -290,7 +302,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(passArg<Args>(a)...));
 			}
 
 			if(it == last) {
-- 
2.43.0


From 0555b366d82886740b8d20f6cb0ca6488fdfa5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 07/46] fix: RecursiveCallback: don't register an empty
 function if add fails

When wrapping the function with connection parameter ran out of memory,
add left an empty function registered and all following calls threw.
---
 nytl/recursiveCallback.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3689025..02a944d 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -250,9 +250,16 @@ add(std::function<Ret(Connection, Args...)> func)
 
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
-	sub.func = [conn, f = std::move(func)](Args... args) {
-		return f(conn, std::forward<Args>(args)...);
-	};
+
+	// don't leave an empty function registered if this fails to allocate
+	try {
+		sub.func = [conn, f = std::move(func)](Args... args) {
+			return f(conn, std::forward<Args>(args)...);
+		};
+	} catch(...) {
+		disconnect(conn.id());
+		throw;
+	}
 
 	return conn;
 }
-- 
2.43.0


From 520b49f620b643dfbc11950045a77cf93cc7ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 08/46] fix: UniqueConnection::release: return the connection

The declared return type made every use of it fail to compile.
---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..4ef0220 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,7 +147,7 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
 		ConnectionT<C, ID> ret{connectable_, id_};
 		id_ = {};
-- 
2.43.0


From afc10c08c9d02c4c9858e3c7e503ae5f5b951575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 09/46] fix: connection.hpp: include cstdint for std::int64_t

---
 nytl/connection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 4ef0220..459022c 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -9,6 +9,7 @@
 #ifndef NYTL_INCLUDE_CONNECTION
 #define NYTL_INCLUDE_CONNECTION
 
+#include <cstdint> // std::int64_t
 #include <iostream> // std::cerr
 #include <exception> // std::exception
 #include <memory> // std::shared_ptr
-- 
2.43.0


From 040a44e8c52e546e00a928bb89c2045b2b583b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 10/46] fix: mapUnsigned, unmapUnsigned: support the whole int
 range

Both overflowed for numbers with an absolute value of 2^30 or more, i.e.
unmapUnsigned did not reverse mapUnsigned.
---
 nytl/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..308db08 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,16 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	auto ux = static_cast<unsigned int>(x);
+	return (x < 0) ? ~ux * 2 + 1 : ux * 2;
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto half = static_cast<int>(x / 2);
+	return (x % 2) ? -half - 1 : half;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From 2281a50bdc2a4bbd785330d0759aa1ffca7a6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 11/46] fix: pair: don't overflow intermediate results

The result was wrong and not unique although it fits into an unsigned int,
starting with pair(0, 65536).
---
 nytl/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 308db08..5c7ddc2 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -73,7 +73,8 @@ constexpr int unmapUnsigned(unsigned int x) {
 /// using the cantorsche pairing function. Combine it with calls
 /// to mapUnsigned to enable it for signed x,y inputs.
 constexpr unsigned int pair(unsigned int x, unsigned int y) {
-	return (x + y) * (x + y + 1) / 2 + y;
+	auto sum = static_cast<unsigned long long>(x) + y;
+	return static_cast<unsigned int>(sum * (sum + 1) / 2 + y);
 }
 
 /// Returns clamp(value, min, max), i.e. value or min/max if value exceeds those bounds.
-- 
2.43.0


From a42ff3162fe075106ed96992c1d205b2bf5dcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 12/46] fix: Vec *= scalar: allow the factor to be a component
 of the vector

---
 nytl/vec.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..02ed7d9 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -66,8 +66,9 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T, typename F>
 constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+	const auto f = fac; // fac might be a component of vec
 	for(auto i = 0u; i < D; ++i)
-		vec[i] *= fac;
+		vec[i] *= f;
 	return vec;
 }
 
-- 
2.43.0


From bc08a449c3d0fdda21d941b876599d67f245f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 13/46] fix: Mat *= scalar: allow the factor to be a component
 of the matrix

---
 nytl/mat.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..3b72ba2 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -117,9 +117,10 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
 constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+	const auto fac = f; // f might be a component of a
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
-			a[r][c] *= f;
+			a[r][c] *= fac;
 	return a;
 }
 
-- 
2.43.0


From 817fee5c6e96907b777870f9fa15dd26e7607ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 14/46] fix: Mat *= Mat: allow multiplying a matrix with itself
 in place

The result was always the zero matrix.
---
 nytl/mat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b72ba2..2559b3d 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -95,12 +95,12 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	auto tmp = a; // needed since we write to a
-	a = {};
+	Mat<D, D, T1> tmp {}; // needed since we read from a (b might be a as well)
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
 			for(auto i = 0u; i < D; ++i) // row + col dot
-				a[r][c] += tmp[r][i] * b[i][c];
+				tmp[r][c] += a[r][i] * b[i][c];
+	a = tmp;
 	return a;
 }
 
-- 
2.43.0


From e9542f4bc79bc854c38e322b4e34e6dcdf26496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 15/46] fix: Mat::at: make it work for const matrices and all
 dimensions

The const overloads and at(r, c) for matrices with 2 or 3 columns failed
to compile.
---
 nytl/mat.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 2559b3d..0b8ae43 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -39,8 +39,8 @@ public:
 
 	/// Returns the value at position (r, c).
 	/// If this position exceeds the size of the matrix, throws std::out_of_range.
-	constexpr auto& at(size_t r, size_t c) { return at(r).at(c); }
-	constexpr const auto& at(size_t r, size_t c) const { return at(r).at(c); }
+	constexpr auto& at(size_t r, size_t c) { checkRow(r); checkCol(c); return rows_[r][c]; }
+	constexpr const auto& at(size_t r, size_t c) const { checkRow(r); checkCol(c); return rows_[r][c]; }
 
 	/// Explicitly casts the Mat to another Mat that may have
 	/// a different precision or dimensions. Will default construct
@@ -52,11 +52,18 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	constexpr void checkRow(size_t r) const {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
 
+	/// Utility function that throws std::out_of_range if the matrix does not have
+	/// the given column.
+	constexpr void checkCol(size_t c) const {
+		if(c >= cols())
+			throw std::out_of_range("nytl::Mat::at");
+	}
+
 public:
 	std::array<Vec<C, T>, R> rows_;
 };
-- 
2.43.0


From 7ce705f4211c43fd2f4c6fce33db29bd0cc99159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 16/46] fix: LUDecomposition: make the permutation sign signed

It is multiplied with -1 and then with the determinant, which was wrong by
a factor of 2^32 - 1 for an odd number of permutations.
---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..8df2499 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	T sign = 1;
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From fe71f79459eab1a898f2d0986fecea08b887f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 17/46] fix: luEvaluate: use the permutation matrix instead of
 its inverse

PA = LU and Ax = b means LUx = Pb. They only are the same for
self-inverse permutations.
---
 nytl/matOps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 8df2499..d3a00d1 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -368,8 +368,8 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 /// Gaussian elimination implementation.
 /// The given matrix must be a square matrix.
 /// \notes If the lu composition was done with a permutation matrix (PA = LU), the given
-/// vector must be premultiplied with the permutations inverse (tranpose sine symmetrical) to
-/// get the vector that solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
+/// vector must be premultiplied with the permutation to get the vector that
+/// solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
 /// \notes If the lower or upper matrix are singular, the equation does not have
 /// a unique solution and this function results in undefined behvaiour. So
 /// if the lower or upper matrix might be singular, check first manually.
@@ -410,7 +410,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From 407be8a39e28615c4915449d21abb87bd409d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 18/46] fix: determinant: round the result for integer matrices

Cutting off the inexact double result returned values too close to zero,
e.g. -3 instead of -4 for {-3, -4, -4, -4}.
---
 nytl/matOps.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index d3a00d1..612bc50 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -17,7 +17,8 @@
 #include <stdexcept> // std::invalid_argument
 #include <tuple> // std::tuple
 #include <iosfwd> // std::ostream
-#include <cmath> // std::fma
+#include <cmath> // std::fma, std::round
+#include <type_traits> // std::is_integral_v
 
 namespace nytl {
 
@@ -420,7 +421,12 @@ template<size_t D, typename T>
 constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
-	return s * static_cast<T>(multiplyDiagonal(u));
+	auto det = s * multiplyDiagonal(u);
+	if constexpr(std::is_integral_v<T>) {
+		return static_cast<T>(std::round(det)); // it's an integer as well
+	} else {
+		return static_cast<T>(det);
+	}
 }
 
 /// \brief Returns the determinant for the lu decomposition of a matrix.
-- 
2.43.0


From db89c7090d7958070e0f031f9a7b0dd793dabef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 19/46] fix: reducedRowEcholon: don't read out of bounds for
 zero rows

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 612bc50..3c9f917 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -281,7 +281,7 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 		}
 
 		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		if(c == mat.cols()) {
 			continue;
 		}
 
-- 
2.43.0


From b59e4af6b221a052c57124f25eadfbc5c70ffbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 20/46] fix: col: allow setting a column to a row of the same
 matrix

---
 nytl/matOps.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 3c9f917..7489df3 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -100,8 +100,9 @@ constexpr auto col(const nytl::Mat<R, C, T>& mat, size_t n) {
 /// For example: `nytl::mat::col(mat44, 2, vec4);` sets the 3rd column of a matrix.
 template<size_t R, size_t C, typename T>
 constexpr void col(nytl::Mat<R, C, T>& mat, size_t n, const nytl::Vec<R, T>& col) {
+	const auto src = col; // might be a row of mat
 	for(auto i = 0u; i < R; ++i) {
-		mat[i][n] = col[i];
+		mat[i][n] = src[i];
 	}
 }
 
-- 
2.43.0


From 730fd56b84c2537e2ed516ea918072581d84a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 21/46] fix: intersects, intersectsReal: handle all overlaps of
 rects

Testing only two corners missed rects that overlap in another corner or
cross each other and (for intersectsReal) equal rects.
---
 nytl/rectOps.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..84b8747 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,12 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] > b.position[i] + b.size[i]) return false;
+		if(b.position[i] > a.position[i] + a.size[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +117,12 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] >= b.position[i] + b.size[i]) return false;
+		if(b.position[i] >= a.position[i] + a.size[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From c08ba01d70c15de5b56b56044eb7bff36cea3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 22/46] fix: difference: return exactly the parts of the first
 rect

Rects without intersection returned nothing or arbitrary rects and rects in
which the second one exceeds or crosses the first one returned overlapping
rects and areas outside of the first one.
---
 nytl/rectOps.hpp | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 84b8747..501fcc5 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -154,40 +154,37 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 /// \module rectOps
 template<std::size_t D, class T>
 std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
-	static constexpr auto inRange = [](T start, T size, T value) {
-		return (start < value && value < start + size);
-	};
+	if(!intersectsReal(a, b)) {
+		return {a};
+	}
 
 	std::vector<Rect<D, T>> ret;
 	ret.reserve(2 * D);
 
+	// the part of a that was not handled yet. In each dimension, the parts
+	// before and after b are cut off, in the end it's the intersection.
+	auto rest = a;
 	for(std::size_t i(0); i < D; ++i) {
 
 		// rect before intersection
-		if(inRange(a.position[i], a.size[i], b.position[i])) {
-			auto pos = a.position;
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
-
-			auto size = (a.position + a.size) - pos;
-			size[i] = b.position[i] - pos[i];
+		if(rest.position[i] < b.position[i]) {
+			auto part = rest;
+			part.size[i] = b.position[i] - rest.position[i];
+			ret.push_back(part);
 
-			ret.push_back({pos, size});
+			rest.position[i] = b.position[i];
+			rest.size[i] -= part.size[i];
 		}
 
 		// rect after intersection
-		// if(inRange(b.position[i] + b.size[i], a.position[i], a.size[i])) {
-		if(inRange(a.position[i], a.size[i], b.position[i] + b.size[i])) {
-			auto pos = a.position;
-			pos[i] = b.position[i] + b.size[i];
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = std::max(b.position[o], a.position[o]);
-
-			auto size = (a.position + a.size) - pos;
-			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
-
-			ret.push_back({pos, size});
+		auto end = b.position[i] + b.size[i];
+		if(end < rest.position[i] + rest.size[i]) {
+			auto part = rest;
+			part.position[i] = end;
+			part.size[i] = rest.position[i] + rest.size[i] - end;
+			ret.push_back(part);
+
+			rest.size[i] -= part.size[i];
 		}
 	}
 
-- 
2.43.0


From b256b5b0840e093ff989e8c01ffe63663836c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 23/46] fix: Simplex: make the conversion compile

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From 05ae41b87b786958fbe5a1f821dea7eabe08f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 24/46] fix: Cloneable: make cloneMove accessible

The friend declaration did not match the function.
---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..38924ed 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -116,7 +116,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From e8905b19548c76d69814e27c0d7c4bd424ca7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 25/46] fix: clone, cloneMove: return the correct base of the
 new object

The pointer to the new object was used as pointer to the base, invalid for
all bases but the first one.
---
 nytl/clone.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 38924ed..48e0b99 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -7,9 +7,31 @@
 #ifndef NYTL_INCLUDE_CLONE
 #define NYTL_INCLUDE_CLONE
 
+#include <cstddef> // std::ptrdiff_t
 #include <memory> // std::unique_ptr
+#include <type_traits> // std::is_polymorphic_v
 
 namespace nytl {
+namespace detail {
+
+// Returns the offset of the given object in the object it is a base of.
+// doClone/doCloneMove return a pointer to a new object of that type.
+template<typename T>
+std::ptrdiff_t cloneOffset(const T& obj) {
+	if constexpr(std::is_polymorphic_v<T>) {
+		auto full = static_cast<const char*>(dynamic_cast<const void*>(&obj));
+		return reinterpret_cast<const char*>(&obj) - full;
+	} else {
+		return 0;
+	}
+}
+
+template<typename T>
+T* cloneCast(void* full, std::ptrdiff_t offset) {
+	return reinterpret_cast<T*>(static_cast<char*>(full) + offset);
+}
+
+} // namespace detail
 
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
@@ -18,7 +40,8 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	auto offset = detail::cloneOffset(obj);
+	return std::unique_ptr<T>(detail::cloneCast<T>(obj.doClone(), offset));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +52,8 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	auto offset = detail::cloneOffset(obj);
+	return std::unique_ptr<T>(detail::cloneCast<T>(obj.doCloneMove(), offset));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From 49b753b50622879e38182e90c796e0a5d2452ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 26/46] fix: dot(Quaternion): correct the formula

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From c9108c0d185ce9597c457678312f6b5a036861ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 27/46] fix: slerp: take the shorter path

The second quaternion was not negated when it should be.
---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From 44e12c358d7c3f54d209e0259453abf19c98b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 28/46] fix: eulerAngles: handle indeterminate cases

Classic euler angles: the sum of the outer angles was only returned
correctly up to 90 degrees when the middle angle is zero and not at all when
it is 180 degrees. Tait-bryan angles: gimbal lock was not handled.
Both: rounding errors could lead to nan.
---
 nytl/quaternion.hpp | 79 +++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..f7336a0 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -340,30 +340,37 @@ enum class RotationSequence {
 // the given quaternion.
 [[nodiscard]] inline std::array<double, 3>
 eulerAngles(const Quaternion& q, RotationSequence seq) {
-	// TODO: 'indet' handling somewhat hacky atm. We need that value
-	// in case the middle rotation is zero (indeterminite case)
+	// When the middle rotation is zero (or 180 degrees), the first and third
+	// rotation are around the same axis and only their sum (difference)
+	// is determined (indeterminite case). We simply set the third one to zero,
+	// sin and cos of the first one are given by the indet values then.
+	constexpr auto indetThreshold = 1e-6;
 	auto classicEuler = [](double a, double b, double c, double d, double e,
-			double indet) {
-		auto res = std::array<double, 3> {
+			double indetSin, double indetCos) {
+		// might slightly exceed this range due to rounding
+		auto mid = std::acos(std::clamp(c, -1.0, 1.0));
+		if(std::hypot(d, e) < indetThreshold) {
+			return std::array<double, 3>{std::atan2(indetSin, indetCos), mid, 0.0};
+		}
+
+		return std::array<double, 3> {
 			std::atan2(d, e),
-			std::acos(c),
+			mid,
 			std::atan2(a, b),
 		};
+	};
 
-		if(std::abs(res[1]) < 0.001) {
-			// need different handling in this case.
-			// (basically middle angle is zero, getting undefined
-			// results atm).
-			return std::array<double, 3>{std::asin(indet), 0.0, 0.0};
+	// here, the middle rotation being +-90 degrees is indeterminate
+	auto taitBryan = [](double a, double b, double c, double d, double e,
+			double indetSin, double indetCos) {
+		auto mid = std::asin(std::clamp(c, -1.0, 1.0));
+		if(std::hypot(a, b) < indetThreshold) {
+			return std::array<double, 3>{std::atan2(indetSin, indetCos), mid, 0.0};
 		}
 
-		return res;
-	};
-
-	auto taitBryan = [](double a, double b, double c, double d, double e) {
 		return std::array<double, 3> {
 			std::atan2(a, b),
-			std::asin(c),
+			mid,
 			std::atan2(d, e),
 		};
 	};
@@ -376,7 +383,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y - q.w * q.z),
 			2 * (q.x * q.z + q.w * q.y),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzx:
 		return classicEuler(
 			2 * (q.x * q.z - q.w * q.y),
@@ -384,7 +392,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 			-2 * (q.x * q.y - q.w * q.z),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxy:
 		return classicEuler(
 			2 * (q.x * q.y - q.w * q.z),
@@ -392,7 +401,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzy:
 		return classicEuler(
 			2 * (q.y * q.z + q.w * q.x),
@@ -400,7 +410,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxz:
 		return classicEuler(
 			2 * (q.x * q.z + q.w * q.y),
@@ -408,7 +419,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.x * q.y + q.w * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyz:
 		return classicEuler(
 			2 * (q.y * q.z - q.w * q.x),
@@ -416,7 +428,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	case RotationSequence::xyz:
 		return taitBryan(
@@ -424,42 +437,54 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 		   -2 * (q.x * q.y - q.w * q.z),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzy:
 		return taitBryan(
 			2 * (q.y * q.z + q.w * q.x),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			-2 *(q.x * q.y - q.w * q.z),
 			2 *(q.x * q.z + q.w * q.y),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxz:
 		return taitBryan(
 			2 * (q.x * q.z + q.w * q.y),
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			-2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzx:
 		return taitBryan(
 			-2 * (q.x * q.z - q.w * q.y),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxy:
 		return taitBryan(
 			-2 * (q.x * q.y - q.w * q.z),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.x * q.y + q.w * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyx:
 	  	return taitBryan(
 			2 * (q.x * q.y + q.w * q.z),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			-2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	default:
 		assert(false && "Invalid rotation sequence");
-- 
2.43.0


From 9ea75be5c9be7d358c5fab615a75f5eeae95113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 29/46] fix: transform: support other precisions than float

scaleMat, translateMat, ortho, base and the frustum functions failed to
compile for double, lookAt lost precision.
---
 nytl/transform.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..ae01fbf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -457,9 +457,9 @@ template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
 	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From 8a80ff5af70f9ae020a449d1c80ada95851f1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 30/46] fix: orientMat (2D): map from to to when from is not a
 unit vector

---
 nytl/transform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ae01fbf..ac8dee4 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -127,8 +127,9 @@ SquareMat<D, P> rotateMat(P rot) {
 // When 'from' or 'to' are not unit vectors, will also accord for the scale.
 template<size_t D = 4, typename P = float> [[nodiscard]]
 SquareMat<D, P> orientMat(Vec2<P> from, Vec2<P> to) {
-	const auto c = dot(from, to);
-	const auto s = cross(from, to);
+	const auto l = dot(from, from);
+	const auto c = dot(from, to) / l;
+	const auto s = cross(from, to) / l;
 	return expandIdentity<D, P>(Mat2<P>{
 		c, -s,
 		s, c,
-- 
2.43.0


From c7b7ca4f8d2dd6d2b81c83deaa12c7a06a25bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 31/46] fix: StringParam: make default constructed strings
 null-terminated

---
 nytl/stringParam.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nytl/stringParam.hpp b/nytl/stringParam.hpp
index 9622830..5de9caf 100644
--- a/nytl/stringParam.hpp
+++ b/nytl/stringParam.hpp
@@ -22,11 +22,14 @@ public:
 	using string = std::basic_string<Char>;
 
 public:
-	constexpr BasicStringParam() = default;
+	constexpr BasicStringParam() noexcept : string_view(&nullChar_, 0) {}
 	constexpr BasicStringParam(const Char* cstr) : string_view(cstr) {}
 	BasicStringParam(const string& str) : string_view(str.c_str()) {}
 
 	const Char* c_str() const { return this->data(); }
+
+protected:
+	static constexpr Char nullChar_ {}; // default value must be null-terminated
 };
 
 using StringParam = BasicStringParam<char>;
-- 
2.43.0


From cc789cb534d6d0749c9b5767b5f7cbffebace16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 32/46] fix: eulerAngles: don't swap the outer classic euler
 angles

For the classic sequences, the first and third angle were returned in the
opposite order compared to the documentation and tait-bryan angles.
---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index f7336a0..888eb1f 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -354,9 +354,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 		}
 
 		return std::array<double, 3> {
-			std::atan2(d, e),
-			mid,
 			std::atan2(a, b),
+			mid,
+			std::atan2(d, e),
 		};
 	};
 
-- 
2.43.0


From acc2688c7df1c5909e237da4afe2f49f4f39c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 33/46] fix: UniqueConnection::release: make it compile

---
 nytl/connection.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 459022c..2c61ebc 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -150,7 +150,9 @@ public:
 	/// After the call this object will be empty.
 	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_)
+			ret = {*connectable_, id_};
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From ee5b296af283223d8e3aef8de870d96ac148132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 34/46] fix: luDecomp: choose the largest pivot

---
 nytl/matOps.hpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 7489df3..cd29de9 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -327,27 +327,30 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 
 	for(auto n = 0u; n < D; ++n) {
 
-		// since we divide by upper[n][n] later on we should try to make it non-zero by
-		// swapping the current row with another row. If we do so, we have to pretend we
+		// since we divide by upper[n][n] later on we should make it as large as possible by
+		// swapping the current row with another row (a value that is only non-zero because of
+		// rounding errors would make the result useless). If we do so, we have to pretend we
 		// swapped the matrix in the beginning and therefore also change the lower matrix and
 		// remember the swap in the permutation matrix
-		if(ret.upper[n][n] == 0.0) {
-			for(auto r = n + 1; r < D; ++r) {
-				if(ret.upper[r][n] != 0.0) {
-					swapRow(ret.perm, r, n);
-					swapRow(ret.upper, r, n);
-					swapRow(ret.lower, r, n);
-					ret.sign *= -1;
-					break;
-				}
+		auto maxRow = n;
+		for(auto r = n + 1; r < D; ++r) {
+			if(std::abs(ret.upper[r][n]) > std::abs(ret.upper[maxRow][n])) {
+				maxRow = r;
 			}
+		}
 
-			// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
-			// we don't have any more coefficients to eliminate.
-			if(ret.upper[n][n] == 0.0) {
-				ret.lower[n][n] = 1.0;
-				continue;
-			}
+		if(maxRow != n) {
+			swapRow(ret.perm, maxRow, n);
+			swapRow(ret.upper, maxRow, n);
+			swapRow(ret.lower, maxRow, n);
+			ret.sign *= -1;
+		}
+
+		// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
+		// we don't have any more coefficients to eliminate.
+		if(ret.upper[n][n] == 0.0) {
+			ret.lower[n][n] = 1.0;
+			continue;
 		}
 
 		ret.lower[n][n] = 1.0;
-- 
2.43.0


From cf3e912b24d0896eae8f2b22d809fd1899ddb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 35/46] fix: utf.hpp: include cstdint for std::uint8_t

---
 nytl/utf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/utf.hpp b/nytl/utf.hpp
index 6a2994f..9bdc6f1 100644
--- a/nytl/utf.hpp
+++ b/nytl/utf.hpp
@@ -12,6 +12,7 @@
 #include <string> // std::string
 #include <string_view> // std::string_view
 #include <array> // std::array
+#include <cstdint> // std::uint8_t
 #include <locale> // std::wstring_convert
 #include <codecvt> // std::codecvt_utf8
 #include <stdexcept> // std::out_of_range
-- 
2.43.0


From 32596150b1d9d1155d499a51b6d4364d26a86997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 36/46] fix: mat *= mat accumulated in the element type of the
 left matrix

---
 nytl/mat.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 0b8ae43..9ddfc59 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -102,12 +102,7 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	Mat<D, D, T1> tmp {}; // needed since we read from a (b might be a as well)
-	for(auto r = 0u; r < D; ++r) // ret: rows
-		for(auto c = 0u; c < D; ++c) // ret: cols
-			for(auto i = 0u; i < D; ++i) // row + col dot
-				tmp[r][c] += a[r][i] * b[i][c];
-	a = tmp;
+	a = static_cast<Mat<D, D, T1>>(a * b); // b might be a as well
 	return a;
 }
 
-- 
2.43.0


From 17dbb726793e432c03ef9d51770f589065cddf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 37/46] fix: compare approximated long doubles in their own
 precision in all forms

---
 nytl/approx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/approx.hpp b/nytl/approx.hpp
index 7768ee0..44d0ee6 100644
--- a/nytl/approx.hpp
+++ b/nytl/approx.hpp
@@ -47,13 +47,13 @@ public:
 		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);
 	}
 
-	friend bool operator==(const Approx& lhs, double rhs) {
+	friend bool operator==(const Approx& lhs, T rhs) {
 		return operator==(rhs, lhs);
 	}
-	friend bool operator!=(double lhs, const Approx& rhs) {
+	friend bool operator!=(T lhs, const Approx& rhs) {
 		return !operator==(lhs, rhs);
 	}
-	friend bool operator!=(const Approx& lhs, double rhs) {
+	friend bool operator!=(const Approx& lhs, T rhs) {
 		return !operator==(lhs, rhs);
 	}
 
-- 
2.43.0


From e8aef09d220eb28afe52c66334f64678059003d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 38/46] fix: return an orthonormal base for directions close to
 -z as well

---
 nytl/transform.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ac8dee4..e140b08 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -69,10 +69,14 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 	// return {cross(b2, dir), b2};
 
 	// [efficient implementation, frisvad]
-	if(dir.z < P(-0.99999f)) { // singularity
+	if(dir.z < P(-0.9)) {
+		// Close to the singularity at z = -1: use the base of the mirrored
+		// direction since that has full precision here.
+		const P a = P(1.0) / (P(1.0) - dir.z);
+		const P b = dir.x * dir.y * a;
 		return {{
-			{P(0.0), P(-1.0), P(0.0)},
-			{P(-1.0), P(0.0), P(0.0)}
+			{b, dir.y * dir.y * a - P(1.0), -dir.y},
+			{dir.x * dir.x * a - P(1.0), b, -dir.x}
 		}};
 	}
 
-- 
2.43.0


From a05845ebdc793d12b944a6df3b61e9f84ebb7005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 39/46] fix: make the intersection of rects usable for element
 types smaller than int

---
 nytl/rectOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 501fcc5..6cbe230 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -140,7 +140,7 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 		}
 	}
 
-	return {pos, end - pos};
+	return {pos, static_cast<Vec<D, T>>(end - pos)};
 }
 
 /// \brief Returns the difference of the first Rect to the second Rect (a -b).
-- 
2.43.0


From 6346469cda0874a0bea12d70f701ad522bcdc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 40/46] fix: make mirror usable for element types smaller than
 int

---
 nytl/vecOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/vecOps.hpp b/nytl/vecOps.hpp
index ca6a93f..613f882 100644
--- a/nytl/vecOps.hpp
+++ b/nytl/vecOps.hpp
@@ -109,7 +109,7 @@ constexpr void normalize(Vec<D, T>& a) {
 /// Mirrors the given point on the given mirror.
 template<size_t D, typename T>
 constexpr Vec<D, T> mirror(const Vec<D, T>& mirror, const Vec<D, T>& point) {
-	return mirror + (mirror - point);
+	return static_cast<Vec<D, T>>(mirror + (mirror - point));
 }
 
 /// Prints the given vector to the given ostream.
-- 
2.43.0


From 44c3b7add12a21c85507c841b2c80d06a24a6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 41/46] fix: matOps: print: don't drop digits of values of at
 least 10

---
 nytl/matOps.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index cd29de9..4892d4c 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -52,10 +52,10 @@ std::ostream& print(std::ostream& ostream, const Mat<R, C, T>& mat,
 	auto org = os.precision();
 	os << "{" << "\n";
 
-	// returns the number of digits needed to present the integer part of i
-	const auto numberOfDigits = [](double i) {
-		return (i < 10 && i >= 0) ? 1 : (i > -10 && i < 0) ? 2 :
-			(i > 0) ? std::log10(i) + 1 : std::log10(-i) + 2;
+	// returns the number of characters of i that are no significant digits:
+	// the decimal point, the sign and the zero before the decimal point
+	const auto numberOfExtra = [](double i) {
+		return 1u + (i < 0) + (i > -1 && i < 1);
 	};
 
 	for(auto r = 0u; r < R; ++r) {
@@ -63,7 +63,8 @@ std::ostream& print(std::ostream& ostream, const Mat<R, C, T>& mat,
 
 		for(auto c = 0u; c < C; c++) {
 			if(valueWidth) os.width(valueWidth);
-			if(valueWidth) os.precision(valueWidth - numberOfDigits(mat[r][c]) - 1);
+			auto extra = numberOfExtra(mat[r][c]);
+			if(valueWidth) os.precision(valueWidth > extra ? valueWidth - extra : 1);
 
 			os << mat[r][c];
 			if(c != C - 1)
-- 
2.43.0


From 91d32e17aea77d4c40f9694f0c471001d3cdef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 42/46] fix: bytes: don't convert spans of fixed extent
 themselves to bytes

Only spans of dynamic extent were excluded from being taken as bytes
themselves, so bytes() and write() of a span of fixed extent with elements
that cannot be converted used the bytes of the span (its pointer) instead
of being rejected, and read/copy could create such spans from bytes.
---
 nytl/bytes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index 6a0fc2a..c29da1c 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -56,7 +56,7 @@ template<typename T> struct ProhibitByteConversion :
 	public std::false_type {};
 template<typename T> struct ProhibitByteConversion<std::initializer_list<T>> :
 	public std::true_type {};
-template<typename T> struct ProhibitByteConversion<span<T>> :
+template<typename T, std::size_t N> struct ProhibitByteConversion<span<T, N>> :
 	public std::true_type {};
 
 template<typename T> constexpr auto BytesConvertible =
-- 
2.43.0


From 865b704e6e766e5d8516840ae453709cd61226e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 43/46] fix: Connection::disconnect does nothing when not
 connected

A tracked connection knows that the callback it belonged to was destroyed,
but disconnecting it then still called into the destroyed callback.
Check connected() first, as UniqueConnection::disconnect does.
---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 2c61ebc..a73a1eb 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -47,7 +47,7 @@ public:
 	/// Disconnects the represented connection.
 	void disconnect()
 	{
-		if(connectable_)
+		if(connected())
 			connectable_->disconnect(id_);
 		connectable_ = {};
 		id_ = {};
-- 
2.43.0


From 9982404b428bcf393fe4ca9b1bd72370dd571e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 44/46] fix: Callback: don't call functions whose ids were
 reset from the outside

As documented (and done by RecursiveCallback), id classes can remove
subscriptions from the outside. Callback still called such functions, and
since the ids were not ordered anymore, its binary search did not find (and
disconnect) other functions.
---
 nytl/callback.hpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index 782878b..182b0d9 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -13,6 +13,7 @@
 #include <nytl/nonCopyable.hpp> // nytl::NonCopyable
 #include <nytl/scope.hpp> // nytl::ScopeGuard
 
+#include <algorithm> // std::find_if
 #include <functional> // std::function
 #include <utility> // std::move
 #include <cstdint> // std::uint64_t
@@ -141,6 +142,18 @@ protected:
 		}
 	}
 
+	// Removes all functions whose ids were reset from the outside.
+	void removeOld() {
+		for(auto it = subs_.begin(); it != subs_.end();) {
+			if(it->id.get() <= 0) {
+				it->id.removed();
+				it = subs_.erase(it);
+			} else {
+				++it;
+			}
+		}
+	}
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -182,9 +195,9 @@ add(std::function<Ret(Args...)> func) {
 template<typename Ret, typename... Args, typename ID>
 auto Callback<Ret(Args...), ID>::call(Args... a)
 {
-	// the first continue check is needed to not call functions that were
-	// removed before this call started but call functions that were removed
-	// only by some other callback function
+	// don't call functions that were removed from the outside via their id
+	removeOld();
+
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
 			func.func(passArg<Args>(a)...);
@@ -213,20 +226,20 @@ void Callback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool Callback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	constexpr auto pred = [](const auto& s1, const auto& s2) {
-		return s1.id.get() < s2.id.get();
-	};
+	// already removed
+	if(id.get() <= 0) {
+		return false;
+	}
 
-	// we know that id's are ordered
-	auto ds = Subscription{{}, id}; // dummy
-	auto range = std::equal_range(subs_.begin(), subs_.end(), ds, pred);
-	if(range.first == range.second) {
+	// the ids are only ordered as long as none was reset from the outside
+	auto it = std::find_if(subs_.begin(), subs_.end(),
+		[&](const auto& sub) { return sub.id.get() == id.get(); });
+	if(it == subs_.end()) {
 		return false;
 	}
 
-	// we can assume that there is only one item in the range
-	range.first->id.removed();
-	subs_.erase(range.first);
+	it->id.removed();
+	subs_.erase(it);
 	return true;
 }
 
-- 
2.43.0


From 919963ce0bbabb68657d7bd2b472c0798ea24ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 45/46] fix: functionTraits: support noexcept functions

In C++17 the exception specification is part of the type. FunctionTraits
of noexcept lambdas and functions did not compile and isCallable was
false for noexcept functions and function pointers.
---
 nytl/functionTraits.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/nytl/functionTraits.hpp b/nytl/functionTraits.hpp
index a2dc625..0321d1f 100644
--- a/nytl/functionTraits.hpp
+++ b/nytl/functionTraits.hpp
@@ -39,11 +39,22 @@ struct FunctionTraits<Ret(Args...) const> :
 	public detail::FunctionTraitsBase<true, Ret, Args...> {
 };
 
+// The exception specification is part of the type of a function,
+// it does not change anything about the signature reported here.
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(Args...) noexcept> : public FunctionTraits<Ret(Args...)> {};
+
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(Args...) const noexcept> : public FunctionTraits<Ret(Args...) const> {};
+
 // - implementation -
 // Function pointer
 template<typename Ret, typename... Args>
 struct FunctionTraits<Ret(*)(Args...)> : public FunctionTraits<Ret(Args...) const> {};
 
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(*)(Args...) noexcept> : public FunctionTraits<Ret(*)(Args...)> {};
+
 // Member function pointer
 template<typename C, typename Ret, typename... Args>
 struct FunctionTraits<Ret(C::*)(Args...)> : public FunctionTraits<Ret(Args...)> {
@@ -56,6 +67,13 @@ struct FunctionTraits<Ret(C::*)(Args...) const> : public FunctionTraits<Ret(Args
 	using Class = const C;
 };
 
+// noexcept member function pointers
+template<typename C, typename Ret, typename... Args>
+struct FunctionTraits<Ret(C::*)(Args...) noexcept> : public FunctionTraits<Ret(C::*)(Args...)> {};
+
+template<typename C, typename Ret, typename... Args>
+struct FunctionTraits<Ret(C::*)(Args...) const noexcept> : public FunctionTraits<Ret(C::*)(Args...) const> {};
+
 // functor, class
 template<typename F>
 struct FunctionTraits : public FunctionTraits<decltype(&F::operator())> {};
@@ -103,6 +121,22 @@ struct IsCallableImpl<R(&)(Args...)> : public std::true_type {};
 template<typename R, typename... Args>
 struct IsCallableImpl<R(Args...)> : public std::true_type {};
 
+// the same for noexcept functions
+template<typename R, typename S, typename... Args>
+struct IsCallableImpl<R(S::*)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename S, typename... Args>
+struct IsCallableImpl<R(S::*)(Args...) const noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(*)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(&)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(Args...) noexcept> : public std::true_type {};
+
 // FunctionTraitsBase
 template<bool ConstSig, typename Ret, typename... Args>
 struct FunctionTraitsBase {
-- 
2.43.0


From db46181aff5f375b62e8a69bf55efe30a200208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 46/46] fix: functionTraits: support references and constant
 pointers

isCallable was false for references to functors and function pointers
although FunctionTraits handles them, and neither could be used with
constant (member) function pointers.
---
 nytl/functionTraits.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nytl/functionTraits.hpp b/nytl/functionTraits.hpp
index 0321d1f..ce840ba 100644
--- a/nytl/functionTraits.hpp
+++ b/nytl/functionTraits.hpp
@@ -21,7 +21,8 @@ namespace detail {
 /// Meta-programming template to check if a type can be called.
 /// \module function
 template<typename T>
-constexpr bool isCallable = detail::IsCallableImpl<T>::value;
+constexpr bool isCallable = detail::IsCallableImpl<
+	std::remove_cv_t<std::remove_reference_t<T>>>::value;
 
 /// Meta-programming template to retrieve information about a function type.
 /// \module function
@@ -85,6 +86,9 @@ struct FunctionTraits<F&> : public FunctionTraits<F> {};
 template<typename F>
 struct FunctionTraits<F&&> : public FunctionTraits<F> {};
 
+template<typename F>
+struct FunctionTraits<const F> : public FunctionTraits<F> {};
+
 
 namespace detail {
 
-- 
2.43.0


From 68e41a4731e183018003f571bcb257e010b39771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 01/64] fix: tensorshape::flat_idx read the first element of an
 empty coordinate

---
 app/tenncor/src/tensor/tensorshape.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/tensor/tensorshape.cpp b/app/tenncor/src/tensor/tensorshape.cpp
index cd113cb..36c58de 100644
--- a/app/tenncor/src/tensor/tensorshape.cpp
+++ b/app/tenncor/src/tensor/tensorshape.cpp
@@ -287,7 +287,11 @@ size_t tensorshape::flat_idx (std::vector<size_t> coord) const
 		index += coord[n-i];
 		index *= dimensions_[n-i-1];
 	}
-	return index + coord[0];
+	if (0 < n)
+	{
+		index += coord[0];
+	}
+	return index;
 }
 
 std::vector<size_t> tensorshape::coordinate_from_idx (size_t idx) const
-- 
2.43.0


From 84d8fa76831dcc678b3a4e35140c13fdded59d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 02/64] fix: formatter dereferenced the end iterator of an
 empty vector

---
 app/tenncor/include/utils/utils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index 3d84dcd..4eb3af8 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -66,6 +66,10 @@ public:
 	formatter& operator << (const std::vector<T>& values)
 	{
 		auto it = values.begin();
+		if (values.end() == it)
+		{
+			return *this;
+		}
 		stream_ << *it;
 		it++;
 		while (it != values.end())
-- 
2.43.0


From e1c33e12566e0326970ac349489181ab3da2dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 03/64] fix: loosely_guess_shape wrote past the end of an
 undefined shape

---
 app/tenncor/src/tensor/tensor.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..c75e0ab 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -294,6 +294,11 @@ optional<tensorshape> tensor<T>::loosely_guess_shape(const std::vector<T>& data)
 		}
 		return bestshape;
 	}
+	// if allowed is undefined
+	if (false == allowed_shape_.is_part_defined())
+	{
+		return tensorshape({ndata});
+	}
 	std::vector<size_t> my_shape = allowed_shape_.as_list();
 	size_t first_undef = my_shape.size();
 	size_t known = 1;
-- 
2.43.0


From 34fc9bb9002647d7fc174fe153c9c5188903353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 04/64] fix: changing the allocator of an allocated tensor
 freed its data through the wrong allocator

---
 app/tenncor/include/tensor/tensor.hpp | 2 +-
 app/tenncor/src/tensor/tensor.ipp     | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/tensor/tensor.hpp b/app/tenncor/include/tensor/tensor.hpp
index a0882c1..915c796 100644
--- a/app/tenncor/include/tensor/tensor.hpp
+++ b/app/tenncor/include/tensor/tensor.hpp
@@ -210,7 +210,7 @@ private:
 
 	// >>>> PRIVATE MEMBERS <<<<
 	//! allocator
-	iallocator* alloc_;
+	iallocator* alloc_ = nullptr;
 
 	//! not necessarily defined shape
 	tensorshape allowed_shape_;
diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index c75e0ab..3ccd49c 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -385,6 +385,15 @@ void tensor<T>::set_allocator (size_t alloc_id)
 	if (iallocator* alloc =
 		alloc_builder::get_instance().get(alloc_id))
 	{
+		if (alloc != alloc_ && is_alloc())
+		{
+			// raw data must return to the allocator it came from
+			size_t ns = alloc_shape_.n_elems();
+			T* temp = alloc->template allocate<T>(ns);
+			std::memcpy(temp, raw_data_, sizeof(T) * ns);
+			alloc_->dealloc(raw_data_, ns);
+			raw_data_ = temp;
+		}
 		alloc_ = alloc;
 	}
 	else
-- 
2.43.0


From 75dd8138ca96e2d929538757e1a909afd342c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 05/64] fix: destroying an observer with trailing empty
 arguments threw from its destructor

---
 app/tenncor/src/graph/react/iobserver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..d6c49e8 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -15,8 +15,9 @@ namespace nnet
 
 iobserver::~iobserver (void)
 {
-	size_t ndeps = dependencies_.size();
-	for (size_t i = 0; i < ndeps; i++)
+	// removing the last argument also trims the empty slots before it,
+	// so the number of slots has to be looked up again
+	for (size_t i = 0; i < dependencies_.size(); i++)
 	{
 		remove_dependency(i);
 	}
-- 
2.43.0


From ba778df7a4f720d73bcaab1f0d22ee3128ec398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 06/64] fix: copying an observer moved its arguments into
 preceding empty slots

---
 app/tenncor/src/graph/react/iobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index d6c49e8..8c66254 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -179,7 +179,7 @@ void iobserver::copy_helper (const iobserver& other)
 	dependencies_.clear();
 	for (subject* dep : other.dependencies_)
 	{
-		if (dep) add_dependency(dep);
+		add_dependency(dep); // keeps empty slots, so that arguments keep their index
 	}
 }
 
-- 
2.43.0


From 550a83b6d66397ae40fffff0580fa31d1139d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 07/64] fix: an observer deleted a dependent twice when another
 dependent's death had already deleted it

---
 app/tenncor/src/graph/react/iobserver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 8c66254..c2667de 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -23,9 +23,11 @@ iobserver::~iobserver (void)
 	}
 
 	// kill all descendent dependents
-	std::unordered_set<subject*> deps = ondeath_deps_;
-	for (subject* dep : deps)
+	// (one dependent's death can bring another's about)
+	while (false == ondeath_deps_.empty())
 	{
+		subject* dep = *ondeath_deps_.begin();
+		ondeath_deps_.erase(dep);
 		delete dep;
 	}
 }
-- 
2.43.0


From 6f1498e00601b975e15e658adbbf83a76f88c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 08/64] fix: evaluating a graph updated connectors deleted
 while their update was pending

---
 app/tenncor/src/graph/connector/iconnector.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..4085597 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -380,6 +380,16 @@ struct iconnector<T>::graph_manager
 	void suicide (iconnector<T>* user)
 	{
 		users_.erase(user);
+		// forget the update user may still be waiting for
+		if (0 < update_map_.erase(user))
+		{
+			std::vector<iconnector<T>*> pending;
+			for (; false == updates_.empty(); updates_.pop())
+			{
+				if (user != updates_.top()) pending.push_back(updates_.top());
+			}
+			for (iconnector<T>* iconn : pending) updates_.push(iconn);
+		}
 		if (users_.empty()) delete this;
 	}
 
-- 
2.43.0


From 469fd89c68149355a36d43c88f8797ed132af02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 09/64] fix: after a failed update connectors ignored the next
 change of their arguments

---
 app/tenncor/src/graph/connector/iconnector.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 4085597..733d13a 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -429,10 +429,11 @@ struct iconnector<T>::graph_manager
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
 			updates_.pop();
+			// no longer pending, even if the updater throws
+			update_map_.erase(iconn);
 			updater();
 			iconn->notify(UPDATE);
 		}
-		update_map_.clear();
 	}
 
 	bool freeze_ = false;
-- 
2.43.0


From f0fe1a6f9fb5354f9dff8612c4a98c71becc7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 10/64] fix: copied and moved connectors were updated before
 their arguments

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 733d13a..8388cfc 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -298,6 +298,7 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = other.jacobians_;
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
@@ -308,6 +309,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 template <typename T>
 void iconnector<T>::move_helper (iconnector<T>&& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
-- 
2.43.0


From 7287ed34d76bb8e3feccaab5c9f7d245e3a925d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 11/64] fix: copies of connectors with a pending update kept
 the outdated value

---
 app/tenncor/src/graph/connector/iconnector.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 8388cfc..3ee0044 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -304,6 +304,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 	// this copies other's dependencies so, this and other share a graph
 	if (g_man_) g_man_->suicide(this);
 	g_man_ = graph_manager::get(const_cast<iconnector<T>*>(&other), this);
+	g_man_->copy_update(&other, this);
 }
 
 template <typename T>
@@ -318,6 +319,7 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 		g_man_->suicide(this);
 	}
 	g_man_ = graph_manager::get(&other, this);
+	g_man_->copy_update(&other, this);
 	if (other.g_man_)
 	{
 		other.g_man_->suicide(&other);
@@ -423,6 +425,15 @@ struct iconnector<T>::graph_manager
 		}
 	}
 
+	//! if other still waits for its update, then its copy has to wait for one too
+	void copy_update (const iconnector<T>* other, iconnector<T>* copy)
+	{
+		if (update_map_.end() != update_map_.find(const_cast<iconnector<T>*>(other)))
+		{
+			add_update(copy, [copy] { copy->update(std::unordered_set<size_t>{}); });
+		}
+	}
+
 	void update (void)
 	{
 		// todo: add multithreading
-- 
2.43.0


From 977456a6ddfd547149b47606ef44655e12377553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 12/64] fix: copying a connector read past an empty list of
 jacobians and left copied ones with the original

---
 app/tenncor/src/graph/connector/iconnector.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 3ee0044..ca4a52b 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -338,9 +338,12 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	for (auto& jpair : jacobians_)
 	{
 		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (js.back().second == other)
+		for (std::pair<JTRANSFER<T>,inode<T>*>& j : js)
 		{
-			js.back().second = this;
+			if (j.second == other)
+			{
+				j.second = this;
+			}
 		}
 	}
 }
-- 
2.43.0


From 2f9831369912f36178a0af69ff2fca418bbf9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 13/64] fix: absolute value left negative elements of
 non-constant nodes unchanged

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..0e3375e 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -461,12 +461,16 @@ varptr<T> operator + (const varptr<T> a)
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
 		std::transform(src[0], src[0] + n_elems, dest,
-		[](const T data) { return +data; });
+		[](const T data) { return std::abs(data); });
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// |f(x)|' = f'(x)*sign(f(x))
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return +grad;
+		varptr<T> nonneg = conditional<T>(a, (T) 0,
+		[](T left, T right) { return left >= right; }, "nonneg");
+		return grad * ((T) 2 * nonneg - (T) 1);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From 4cbfb9d88eccfbf323ef3bb8212b78f06e1204db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 14/64] fix: l2norm only took the first element, and of
 constants no square root

---
 app/tenncor/src/graph/operations/elementary.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 0e3375e..8d103af 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1010,6 +1010,7 @@ varptr<T> l2norm (const varptr<T> a)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		return constant<T>::get(l2norm);
 	}
 	std::string opname = "l2norm";
@@ -1023,7 +1024,7 @@ varptr<T> l2norm (const varptr<T> a)
 	[](T* dest, std::vector<const T*> src, shape_io shape)
 	{
 		assert(1 == src.size());
-		size_t n_elems = shape.outs_.n_elems();
+		size_t n_elems = shape.ins_[0].n_elems();
 		// l2norm = sqrt(sum_i=0:n(sqr(xi)))
 		dest[0] = std::sqrt(std::accumulate(src[0], src[0] + n_elems, (T) 0,
 		[](const T left, const T right)
-- 
2.43.0


From 7489f5a6ad67a5aa36f340bd30a6a51108f10da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 15/64] fix: clip_norm scaled nodes whose norm was below the
 cap up to it

---
 app/tenncor/src/graph/operations/elementary.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 8d103af..a87ea41 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1054,6 +1054,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		for (T& acv : acvec)
 		{
 			if (l2norm > cap)
@@ -1080,7 +1081,9 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		std::transform(srcs[1], srcs[1] + n_out, dest,
 		[cap, l2norm](const T data)
 		{
-			return data * cap / l2norm;
+			// normalize
+			if (l2norm > cap) return data * cap / l2norm;
+			return data;
 		});
 	}),
 	[cap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 3033d7467981646f69bc46bc80b0bc4bf28991f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 16/64] fix: binomial_sample overran memory for constants and
 did not depend on its trials argument

---
 app/tenncor/src/graph/operations/elementary.ipp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index a87ea41..dd06186 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1233,7 +1233,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> pcvec = expose<T>(pconst);
-		std::vector<T> pvec((T) 0, pcvec.size());
+		std::vector<T> pvec(pcvec.size(), (T) 0);
 		std::transform(pcvec.begin(), pcvec.end(), pvec.begin(),
 		[&gen, n](T pcv)
 		{
@@ -1271,7 +1271,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> ncvec = expose<T>(nconst);
-		std::vector<T> nvec((T) 0, ncvec.size());
+		std::vector<T> nvec(ncvec.size(), (T) 0);
 		std::transform(ncvec.begin(), ncvec.end(), nvec.begin(),
 		[&gen, p](T ncv)
 		{
@@ -1285,7 +1285,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n}, elementary_shaper,
 	new transfer_func<T>([p](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
@@ -1320,15 +1320,17 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n, p}, elementary_shaper,
 	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
+		bool many_n = 1 < shapes.ins_[0].n_elems();
+		bool many_p = 1 < shapes.ins_[1].n_elems();
 		std::default_random_engine& gen = nnutils::get_generator();
 		for (size_t i = 0; i < n_out; i++)
 		{
-			size_t n = srcs[0][i];
-			T p = srcs[1][i];
+			size_t n = srcs[0][i * many_n];
+			T p = srcs[1][i * many_p];
 			assert(p >= 0 && p <= 1);
 			std::binomial_distribution<int> dist(n, p);
 			dest[i] = dist(gen);
-- 
2.43.0


From 99cbb5140571d2291b72f89ffbb95d7caa9527f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 17/64] fix: operations with different scalars (or scalar on
 the other side) shared one node

---
 .../src/graph/operations/elementary.ipp       | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index dd06186..97580fd 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -13,6 +13,16 @@
 namespace nnet
 {
 
+//! labels identify nodes that compute the same, so scalars in labels have to keep all digits
+template <typename T>
+static std::string exact (T scalar)
+{
+	std::stringstream ss;
+	ss.precision(std::numeric_limits<T>::max_digits10);
+	ss << scalar;
+	return ss.str();
+}
+
 static inline tensorshape elementary_shaper (std::vector<tensorshape> shapes)
 {
 	tensorshape lastshape;
@@ -926,7 +936,7 @@ varptr<T> pow (const varptr<T> a, double scalar)
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "pow_" << scalar;
+	std::string opname = nnutils::formatter() << "pow_" << exact(scalar);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -969,7 +979,7 @@ varptr<T> clip_val (const varptr<T> a, T min, T max)
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "clip_val_" << min << "_" << max;
+	std::string opname = nnutils::formatter() << "clip_val_" << exact(min) << "_" << exact(max);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -1065,7 +1075,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "clip_l2norm_" << cap;
+	std::string opname = nnutils::formatter() << "clip_l2norm_" << exact(cap);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -1109,7 +1119,7 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	std::string opname = nnutils::formatter() << exact(a) << "_conditional_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
@@ -1148,7 +1158,7 @@ varptr<T> conditional (const varptr<T> a, T b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << b;
+	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << exact(b);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -1242,7 +1252,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 		});
 		return constant<T>::get(pvec, pconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "binomial_sample_n" << n;
+	std::string opname = nnutils::formatter() << "binomial_sample_n" << exact(n);
 	if (inode<T>* parent = unary_parent_search(p.get(), opname))
 	{
 		return parent;
@@ -1280,7 +1290,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 		});
 		return constant<T>::get(nvec, nconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "binomial_sample_p" << p;
+	std::string opname = nnutils::formatter() << "binomial_sample_p" << exact(p);
 	if (inode<T>* parent = unary_parent_search(n.get(), opname))
 	{
 		return parent;
@@ -1358,7 +1368,7 @@ varptr<T> operator + (T a, const varptr<T> b)
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << a << "_add";
+	std::string opname = nnutils::formatter() << exact(a) << "_add";
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
@@ -1403,7 +1413,7 @@ varptr<T> operator + (const varptr<T> a, T b)
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
 	if (b == (T)0) return a;
-	std::string opname = nnutils::formatter() << "add_" << b;
+	std::string opname = nnutils::formatter() << "add_" << exact(b);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -1482,7 +1492,7 @@ varptr<T> operator - (T a, const varptr<T> b)
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << a << "_sub";
+	std::string opname = nnutils::formatter() << exact(a) << "_sub";
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
@@ -1527,7 +1537,7 @@ varptr<T> operator - (const varptr<T> a, T b)
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
 	if (b == (T)0) return a;
-	std::string opname = nnutils::formatter() << "sub_" << b;
+	std::string opname = nnutils::formatter() << "sub_" << exact(b);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -1613,7 +1623,7 @@ varptr<T> operator * (T a, const varptr<T> b)
 	if ((T) 0 == a) return constant<T>::get(0);
 	if ((T) 1 == a) return b;
 	if ((T) -1 == a) return -b;
-	std::string opname = nnutils::formatter() << a << "_mul";
+	std::string opname = nnutils::formatter() << exact(a) << "_mul";
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
@@ -1666,7 +1676,7 @@ varptr<T> operator * (const varptr<T> a, T b)
 	if ((T) 0 == b) return constant<T>::get(0);
 	if ((T) 1 == b) return a;
 	if ((T) -1 == b) return -a;
-	std::string opname = nnutils::formatter() << "mul_" << b;
+	std::string opname = nnutils::formatter() << "mul_" << exact(b);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
@@ -1757,7 +1767,7 @@ varptr<T> operator / (T a, const varptr<T> b)
 	{
 		return constant<T>::get(0);
 	}
-	std::string opname = nnutils::formatter() << a << "_div";
+	std::string opname = nnutils::formatter() << exact(a) << "_div";
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
@@ -1808,7 +1818,7 @@ varptr<T> operator / (const varptr<T> a, T b)
 		throw std::logic_error("divide by zero");
 	}
 	if (b == (T) 1) return a;
-	std::string opname = nnutils::formatter() << "div_" << b;
+	std::string opname = nnutils::formatter() << "div_" << exact(b);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From aa349394556a176b58f4c5d83d7ee7783cebb80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 18/64] fix: dividing a constant by the scalar zero gave
 infinity instead of refusing

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 97580fd..06cc2ea 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1799,6 +1799,10 @@ template<typename T>
 varptr<T> operator / (const varptr<T> a, T b)
 {
 	if (nullptr == a.get()) return nullptr;
+	if (b == (T) 0)
+	{
+		throw std::logic_error("divide by zero");
+	}
 	constant<T>* aconst = dynamic_cast<constant<T>*>(a.get());
 	if (aconst)
 	{
@@ -1813,10 +1817,6 @@ varptr<T> operator / (const varptr<T> a, T b)
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	if (b == (T) 0)
-	{
-		throw std::logic_error("divide by zero");
-	}
 	if (b == (T) 1) return a;
 	std::string opname = nnutils::formatter() << "div_" << exact(b);
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
-- 
2.43.0


From 3bf539ada62e913b762dd1875cc50fec8f1af9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 19/64] fix: axial operations read out of bounds for axis 0,
 square shapes and scalars, and refused the documented shapes

---
 .../src/graph/operations/elementary.ipp       | 59 ++++++++-----------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 06cc2ea..8fea628 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -68,21 +68,18 @@ static inline SHAPER binary_axial_shape (size_t axis, bool left)
 		if (shape1.n_elems() == 1) return shape2;
 		if (shape2.n_elems() == 1) return shape1;
 
+		// the axial shape either lacks the axis or has extent 1 along it
 		std::vector<size_t> s2list = shape2.as_list();
-
-		if (axis == 0)
-		{
-			s2list = std::vector<size_t>(s2list.begin()+1, s2list.end());
-		}
-		else if (axis == s2list.size() - 1)
-		{
-			s2list.pop_back();
-		}
-		else
+		bool matches = false;
+		if (axis < s2list.size())
 		{
+			std::vector<size_t> slim = s2list;
+			slim.erase(slim.begin() + axis);
 			s2list[axis] = 1;
+			matches = shape1.is_compatible_with(tensorshape(s2list)) ||
+				(false == slim.empty() && shape1.is_compatible_with(tensorshape(slim)));
 		}
-		if (false == shape1.is_compatible_with(tensorshape(s2list)))
+		if (false == matches)
 		{
 			std::stringstream ss;
 			ss << "shape ";
@@ -132,8 +129,6 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 	{
 		assert(2 == srcs.size());
 		size_t n_elems = shapes.outs_.n_elems();
-		std::vector<size_t> olist = shapes.outs_.as_list();
-		std::vector<size_t> ilist = shapes.ins_[idx].as_list();
 
 		if (1 == shapes.ins_[idx].n_elems())
 		{
@@ -142,33 +137,25 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 				dest[i] = aggregate(srcs[idx][0], srcs[(idx + 1) % 2][i]);
 			}
 		}
+		else if (1 == shapes.ins_[(idx + 1) % 2].n_elems())
+		{
+			for (size_t i = 0; i < n_elems; i++)
+			{
+				dest[i] = aggregate(srcs[idx][i], srcs[(idx + 1) % 2][0]);
+			}
+		}
 		else
 		{
+			// skipping the axis leaves the same order of elements,
+			// whether the axial argument lacks the axis or has extent 1 along it
+			std::vector<size_t> slim = shapes.outs_.as_list();
+			slim.erase(slim.begin() + axis);
+			tensorshape axial_shape(slim);
 			for (size_t i = 0; i < n_elems; i++)
 			{
-				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
-				{
-					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
-					if (ilist[axis] != olist[axis+1])
-					{
-						std::stringstream ss;
-						ss << "failed to map ";
-						print_shape(shapes.outs_, ss);
-						ss << " to ";
-						print_shape(shapes.ins_[idx], ss);
-						ss << " along axis 0";
-						throw std::logic_error(ss.str());
-					}
-					coords = std::vector<size_t>(coords.begin()+1, coords.end());
-					axis_idx = shapes.ins_[idx].flat_idx(coords);
-				}
-				else if (axis >= ilist.size() || (ilist[axis] == 1 && olist[axis] > 1))
-				{
-					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
-					coords[axis] = 0;
-					axis_idx = shapes.ins_[idx].flat_idx(coords);
-				}
+				std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
+				coords.erase(coords.begin() + axis);
+				size_t axis_idx = axial_shape.flat_idx(coords);
 				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i]);
 			}
 		}
-- 
2.43.0


From ec42fa576312bcaa8de35c687dfa7ad20deb6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 20/64] fix: transpose along dimensions beyond the rank left
 the result unset or unmoved

---
 .../src/graph/operations/transform.ipp        | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..4497378 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -57,26 +57,16 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
+		// dimensions the source doesn't have are of extent 1
+		std::vector<size_t> inlist = shape.outs_.as_list();
+		std::swap(inlist[axis_swap.first], inlist[axis_swap.second]);
+		tensorshape inshape(inlist);
 		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
-		{
-			// we're transposing with a previously non-existent dimension,
-			// so there is a 1-1 correspondence between src and dest
-			std::memcpy(dest, src[0], n_elems * sizeof(T));
-		}
-		else
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				coords = shape.outs_.coordinate_from_idx(i);
-				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
-				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
-			}
+			coords = shape.outs_.coordinate_from_idx(i);
+			std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+			dest[i] = src[0][inshape.flat_idx(coords)];
 		}
 	}),
 	[axis_swap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 9349e51ede3caf6b382bb88c0c416036966aa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 21/64] fix: extend along a new dimension read past the
 source's shape

---
 app/tenncor/src/graph/operations/transform.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 4497378..1fb0a9c 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -162,8 +162,8 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
-		std::vector<size_t> coords;
+		std::vector<size_t> inlist = shape.ins_[0].as_list();
+		size_t dim = index < inlist.size() ? inlist[index] : 1;
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			std::vector<size_t> coords = shape.outs_.coordinate_from_idx(i);
-- 
2.43.0


From a7f1e3ed4a093fb766dc3df59522415276f3c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 22/64] fix: reduce_mean dereferenced null operands and read
 past the shape for dimensions beyond the rank

---
 app/tenncor/src/graph/operations/transform.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 1fb0a9c..7bd3e2a 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -320,13 +320,15 @@ varptr<T> reduce_sum (const varptr<T> a, optional<size_t> dimension)
 template <typename T>
 varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 {
+	if (nullptr == a.get()) return nullptr;
 	varptr<T> denom;
 	if (dimension)
 	{
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			std::vector<size_t> slist = s.as_list();
+			return { *dimension < slist.size() ? slist[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From 790eafb44e0abb79785086bcea9cb335d5911230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 23/64] fix: arg_compress over all elements returned
 uninitialized elements behind the index

---
 app/tenncor/src/graph/operations/transform.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 7bd3e2a..6505866 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -415,10 +415,7 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	}
 	else
 	{
-		shaper = [](std::vector<tensorshape> inshapes) -> tensorshape
-		{
-			return std::vector<size_t>{inshapes[0].rank()};
-		};
+		shaper = [](std::vector<tensorshape>) -> tensorshape { return std::vector<size_t>{1}; };
 		// scalar shape
 		forward = new transfer_func<T>(
 		[search](T* dest, std::vector<const T*> src, shape_io shape)
-- 
2.43.0


From c49316d01487706299a209875e17d0625d6635f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 24/64] fix: flip along dimensions beyond the rank wrote past
 the coordinates

---
 app/tenncor/src/graph/operations/transform.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6505866..b4adeb1 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -479,7 +479,11 @@ varptr<T> flip (const varptr<T> a, std::vector<size_t> dims)
 			std::vector<size_t> coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t d : dims)
 			{
-				coord[d] = outlist[d] - coord[d] - 1;
+				// dimensions beyond the rank are of extent 1
+				if (d < coord.size())
+				{
+					coord[d] = outlist[d] - coord[d] - 1;
+				}
 			}
 			dest[i] = src[0][shape.ins_[0].flat_idx(coord)];
 		}
-- 
2.43.0


From 66a4b2af0aed38dd922c391115d32205af502e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 25/64] fix: cross_corr2d had a wrong output shape, ignored its
 filter and read out of bounds

---
 .../src/graph/operations/transform.ipp        | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index b4adeb1..93b3328 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -512,8 +512,22 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		std::vector<size_t> outshape = shapes[0].as_list();
 		std::vector<size_t> filtshape = shapes[1].as_list();
-		outshape[dims.first] -= filtshape[dims.first] + 1;
-		outshape[dims.second] -= filtshape[dims.second] + 1;
+		size_t maxdim = std::max(dims.first, dims.second);
+		if (dims.first == dims.second || maxdim >= outshape.size() || maxdim >= filtshape.size() ||
+			filtshape[dims.first] > outshape[dims.first] ||
+			filtshape[dims.second] > outshape[dims.second] ||
+			filtshape[dims.first] * filtshape[dims.second] != shapes[1].n_elems())
+		{
+			std::stringstream ss;
+			ss << "cannot filter shape ";
+			print_shape(shapes[0], ss);
+			ss << " with shape ";
+			print_shape(shapes[1], ss);
+			ss << " along dimensions " << dims.first << " and " << dims.second;
+			throw std::logic_error(ss.str());
+		}
+		outshape[dims.first] -= filtshape[dims.first] - 1;
+		outshape[dims.second] -= filtshape[dims.second] - 1;
 		return outshape;
 	},
 	new transfer_func<T>(
@@ -521,24 +535,25 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		assert(2 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		std::vector<size_t> outlist = shape.outs_.as_list();
-		std::vector<size_t> inlist = shape.ins_[0].as_list();
-		size_t firstn = inlist[dims.first] - outlist[dims.first];
-		size_t secondn = inlist[dims.second] - outlist[dims.second];
+		std::vector<size_t> filtlist = shape.ins_[1].as_list();
 		std::vector<size_t> coord;
+		std::vector<size_t> filtcoord(filtlist.size(), 0);
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			dest[i] = 0;
 			coord = shape.outs_.coordinate_from_idx(i);
-			for (size_t j = 0; j < firstn; j++)
+			size_t first = coord[dims.first];
+			size_t second = coord[dims.second];
+			for (size_t j = 0; j < filtlist[dims.first]; j++)
 			{
-				for (size_t k = 0; k < secondn; k++)
+				for (size_t k = 0; k < filtlist[dims.second]; k++)
 				{
-					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[0][k * firstn + j];
-
-					coord[dims.second]++;
+					coord[dims.first] = first + j;
+					coord[dims.second] = second + k;
+					filtcoord[dims.first] = j;
+					filtcoord[dims.second] = k;
+					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[1][shape.ins_[1].flat_idx(filtcoord)];
 				}
-				coord[dims.first]++;
 			}
 		}
 	}),
-- 
2.43.0


From 2a5e35bfcf21693904cb4d69efd061139162d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 26/64] fix: matmul of a batch with a single matrix read past
 the single matrix and overran the result

---
 app/tenncor/src/graph/operations/matmul.ipp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..bfe7435 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,19 +205,19 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
-		// check that remaining shape values are ones,
-		// otherwise one shape is larger than the other
-		auto it = rank1 > rank2 ? al.begin() : bl.begin();
-		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
-		{
-			std::stringstream ss;
-			ss << "attempting to matrix multiple different sized shapes ";
-			print_shape(t1s, ss);
-			ss << " and ";
-			print_shape(t2s, ss);
-			throw std::logic_error(ss.str());
-		}
+	}
+	// check that remaining shape values are ones,
+	// otherwise one shape is larger than the other
+	const std::vector<size_t>& longer = rank1 > rank2 ? al : bl;
+	if (longer.size() > 2 && !std::all_of(longer.begin() + std::max<size_t>(minend, 2), longer.end(),
+		[](size_t e) { return e == 1; }))
+	{
+		std::stringstream ss;
+		ss << "attempting to matrix multiple different sized shapes ";
+		print_shape(t1s, ss);
+		ss << " and ";
+		print_shape(t2s, ss);
+		throw std::logic_error(ss.str());
 	}
 
 	// get resulting shape
-- 
2.43.0


From b3d3d3bf24f9ff0437a22bb4a28949455ef21349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 27/64] hook: STRASSEN_THRESHOLD can be set by the build

---
 app/tenncor/src/graph/operations/matmul.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index bfe7435..eee451c 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -8,7 +8,9 @@
 
 #ifdef TENNCOR_MATMUL_HPP
 
+#ifndef STRASSEN_THRESHOLD // defined smaller by verification builds, to reach strassen with small matrices
 #define STRASSEN_THRESHOLD 256
+#endif
 
 namespace nnet
 {
-- 
2.43.0


From 7a3374bafbf1d032e9004b1754bb322691eebeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 28/64] fix: elementary operations on one-element tensors
 dropped their dimensions

---
 app/tenncor/src/graph/operations/elementary.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 8fea628..e723e4b 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -26,10 +26,15 @@ static std::string exact (T scalar)
 static inline tensorshape elementary_shaper (std::vector<tensorshape> shapes)
 {
 	tensorshape lastshape;
+	tensorshape scalarshape = std::vector<size_t>{1};
 	for (size_t i = 0, nshapes = shapes.size(); i < nshapes; ++i)
 	{
 		if (shapes[i].n_elems() == 1)
 		{
+			if (shapes[i].rank() > scalarshape.rank())
+			{
+				scalarshape = shapes[i];
+			}
 			continue;
 		}
 		if (false == shapes[i].is_compatible_with(lastshape))
@@ -43,7 +48,7 @@ static inline tensorshape elementary_shaper (std::vector<tensorshape> shapes)
 		}
 		lastshape = shapes[i];
 	}
-	if (false == lastshape.is_fully_defined()) return std::vector<size_t>{1};
+	if (false == lastshape.is_fully_defined()) return scalarshape;
 	return lastshape;
 }
 
-- 
2.43.0


From bcf1a521d8f642b92030ea3508b9b2124e03a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 29/64] fix: the second derivative of the absolute value was
 not zero

---
 app/tenncor/src/graph/operations/elementary.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index e723e4b..1341108 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -470,8 +470,9 @@ varptr<T> operator + (const varptr<T> a)
 		// |f(x)|' = f'(x)*sign(f(x))
 		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		varptr<T> nonneg = conditional<T>(a, (T) 0,
-		[](T left, T right) { return left >= right; }, "nonneg");
+		// the sign does not vary with x
+		varptr<T> nonneg = as_constant<T>(conditional<T>(a, (T) 0,
+		[](T left, T right) { return left >= right; }, "nonneg"));
 		return grad * ((T) 2 * nonneg - (T) 1);
 	}, opname);
 	out->extract_metadata(a.get());
-- 
2.43.0


From 5b68b08d24af989b2d3d92db74c13f55639040d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 30/64] fix: the gradient of l2norm was the norm of its
 argument's gradient

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 1341108..754b974 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1037,8 +1037,10 @@ varptr<T> l2norm (const varptr<T> a)
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// |x|' = x * x' / |x|
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return l2norm(grad);
+		return a * grad / l2norm(a);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From bbf6072555d4f27e533ca1819aacf6f0001bdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 31/64] fix: gradients through a transposed matmul argument
 were transposed before the argument's gradient applied

---
 app/tenncor/src/graph/operations/matmul.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index eee451c..17f8e41 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -392,6 +392,9 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		}
 		varptr<T> mA = matmul<T>(root, argb, false, true);
 		varptr<T> mB = matmul<T>(arga, root, true);
+		// args are already transposed, so are their gradients
+		mA = mA * grada;
+		mB = mB * gradb;
 		if (transposeA)
 		{
 			mA = transpose<T>(mA);
@@ -400,7 +403,7 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		{
 			mB = transpose<T>(mB);
 		}
-		return mA * grada + mB * gradb;
+		return mA + mB;
 	}, leef);
 	return mmul;
 }
-- 
2.43.0


From 02bbed67bc6d37bcd6b5e2c98fa30c5d69a70e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 32/64] fix: gradients of axially added operands were not
 summed along the axis when the gradient is a scalar

---
 .../src/graph/operations/elementary.ipp       | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 754b974..e260ad3 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -203,11 +203,11 @@ static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, b, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, a, axis);
 		}
 	}
 	return out;
@@ -253,11 +253,11 @@ static varptr<T> sub_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, b, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, a, axis);
 		}
 	}
 	return out;
@@ -303,11 +303,11 @@ static varptr<T> mul_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, b, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, a, axis);
 		}
 	}
 	return out;
@@ -354,18 +354,18 @@ static varptr<T> div_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, b, axis);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, a, axis);
 		}
 	}
 	return out;
 }
 
 template <typename T>
-static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t axis)
+static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, const varptr<T>& full, size_t axis)
 {
 	if (iconnector<T>* iconn = dynamic_cast<iconnector<T>*>(root.get()))
 	{
@@ -378,9 +378,18 @@ static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t
 				leef.push_back(var);
 			}
 		}
+		size_t full_idx = iconn->get_arguments()[0] == full.get() ? 0 : 1;
 		iconn->set_jacobian_front(
-		[axis](inode<T>* root, std::vector<inode<T>*>, std::vector<inode<T>*>) -> inode<T>*
+		[axis, full_idx](inode<T>* root, std::vector<inode<T>*> args, std::vector<inode<T>*>) -> inode<T>*
 		{
+			constant<T>* rconst = dynamic_cast<constant<T>*>(root);
+			if (rconst && 1 == rconst->get_shape().n_elems())
+			{
+				// a scalar gradient applies to every element of the result,
+				// which takes the shape of the full argument
+				varptr<T> forward = args[full_idx];
+				root = varptr<T>(root) * eq(forward, forward);
+			}
 			return reduce_sum(varptr<T>(root), axis);
 		}, leef);
 	}
-- 
2.43.0


From d0e41580590042f88a875688693e35f75a261929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 33/64] fix: products of transposed nodes shared a node with
 flagged transposes but not its gradient

---
 app/tenncor/src/graph/operations/matmul.ipp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 17f8e41..e5a83e9 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -249,6 +249,19 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 
 	inode<T>* adata = a.get();
 	inode<T>* bdata = b.get();
+	// transposed arguments are the same as their arguments transposed here,
+	// both share a node and hence a jacobian
+	auto untranspose = [](inode<T>*& arg, bool& transposed)
+	{
+		iconnector<T>* conn = dynamic_cast<iconnector<T>*>(arg);
+		if (nullptr == conn || 0 != conn->get_label().compare("transpose_0_1")) return;
+		std::vector<inode<T>*> args = conn->get_arguments();
+		if (1 != args.size()) return;
+		arg = args[0];
+		transposed = false == transposed;
+	};
+	untranspose(adata, transposeA);
+	untranspose(bdata, transposeB);
 	if (transposeA)
 	{
 		if (inode<T>* parent = unary_parent_search(adata, "transpose_0_1"))
@@ -257,7 +270,7 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		}
 		else
 		{
-			adata = transpose(a, {0, 1});
+			adata = transpose(varptr<T>(adata), {0, 1});
 		}
 	}
 	if (transposeB)
@@ -268,7 +281,7 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		}
 		else
 		{
-			bdata = transpose(b, {0, 1});
+			bdata = transpose(varptr<T>(bdata), {0, 1});
 		}
 	}
 
-- 
2.43.0


From c00b7daf946fad49657c39494dbe693be570a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 34/64] fix: move assignment of nodes left the consumers
 watching the emptied source

---
 app/tenncor/src/graph/inode.ipp      | 2 +-
 app/tenncor/src/graph/leaf/ileaf.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 78e47fb..9721e3b 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -42,7 +42,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 {
 	if (this != &other)
 	{
-		subject::operator = (other);
+		subject::operator = (std::move(other));
 		label_ = std::move(other.label_);
 	}
 	return *this;
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 9d6b49e..553f1cd 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -46,7 +46,7 @@ ileaf<T>& ileaf<T>::operator = (ileaf<T>&& other)
 {
 	if (this != &other)
 	{
-		inode<T>::operator = (other);
+		inode<T>::operator = (std::move(other));
 		move_helper(std::move(other));
 		this->notify(UPDATE); // content changed
 	}
-- 
2.43.0


From c3b54abc4d3eae164cd0e597cae59374d52e09cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 35/64] fix: reading a tensor from a damaged message wrote out
 of bounds, aborted or changed the tensor

---
 app/tenncor/src/tensor/tensor.ipp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 3ccd49c..2038831 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -524,24 +524,29 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 template <typename T>
 bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
-	std::string protostr = other.data();
-	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
+	const std::string& protostr = other.data();
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
+	tensorshape temp_allow_shape(allow);
 	tensorshape temp_alloc_shape(alloc);
-	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
-		false == temp_alloc_shape.is_fully_defined()) return false;
+	// shapes that don't fit each other or the data are corrupt, leave this tensor as is
+	if (false == temp_alloc_shape.is_compatible_with(temp_allow_shape) ||
+		false == temp_alloc_shape.is_fully_defined() ||
+		0 != protostr.size() % sizeof(T)) return false;
+	size_t nremain = protostr.size() / sizeof(T);
+	for (size_t d : alloc)
+	{
+		if (0 != nremain % d) return false;
+		nremain /= d;
+	}
+	if (1 != nremain) return false;
 
 	deallocate();
-	alloc_shape_ = temp_alloc_shape;
-	assert(allocate());
+	allowed_shape_ = temp_allow_shape;
+	if (false == allocate(temp_alloc_shape)) return false;
 
-	// copy data over from protoraw
-	std::memcpy(raw_data_, protoraw, protostr.size());
+	// copy data over from protostr
+	std::memcpy(raw_data_, protostr.data(), protostr.size());
 
 	return true;
 }
-- 
2.43.0


From 7925eee329789141b7af1d7f114446c880edc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 36/64] fix: saving reported success when the file could not be
 written

---
 app/tenncor/src/memory/tensor_io.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/memory/tensor_io.ipp b/app/tenncor/src/memory/tensor_io.ipp
index b144dc3..95f7009 100644
--- a/app/tenncor/src/memory/tensor_io.ipp
+++ b/app/tenncor/src/memory/tensor_io.ipp
@@ -45,7 +45,10 @@ bool write_inorder (std::vector<inode<T>*>& serialvec, std::string label, std::s
 	{
 		// Write the new address book back to disk.
 		std::fstream output(fname, std::ios::out | std::ios::trunc | std::ios::binary);
-		if (!repo.SerializeToOstream(&output)) {
+		// data may remain in the stream's buffer, close to find out if it could be written
+		bool written = repo.SerializeToOstream(&output);
+		output.close();
+		if (!written || !output) {
 			std::cerr << "Failed to write address book." << std::endl;
 			return false;
 		}
-- 
2.43.0


From df8521d41098754c3c5576c32096db44a31a358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 37/64] fix: the moving average of rmsprop never moved

---
 app/tenncor/src/utils/gd_utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..2ef98fd 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -226,10 +226,15 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	varptr<double> leaf_step = dres * learning_rate_ / (sqrt<double>(momentum_step) + epsilon_);
 	auto momentum_update = momentum->assign(momentum_step);
 	auto leaf_update = leaf->assign_sub(leaf_step);
-	return [momentum_update, leaf_update, momentum, dres, leaf_step](bool notify)
+	return [momentum_update, leaf_update, leaf, momentum, dres, leaf_step](bool notify)
 	{
-		momentum_update(false);
-		leaf_update(notify);
+		// both steps depend on the current momentum and leaf, so notify once both are done
+		leaf_update(false);
+		momentum_update(true);
+		if (notify)
+		{
+			leaf->notify(UPDATE);
+		}
 	};
 }
 
-- 
2.43.0


From b01ad1120201030bcbdf8e516f236d01d6edc8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 38/64] fix: a moved gd_net derived by leaves of the model it
 was moved from

---
 app/rocnnet/src/models/gd_net.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/app/rocnnet/src/models/gd_net.cpp b/app/rocnnet/src/models/gd_net.cpp
index 8f9f786..9ae740b 100644
--- a/app/rocnnet/src/models/gd_net.cpp
+++ b/app/rocnnet/src/models/gd_net.cpp
@@ -123,14 +123,24 @@ void gd_net::copy_helper (const gd_net& other, std::string scope)
 
 void gd_net::move_helper (gd_net&& other)
 {
+	// the graph and its updates refer to these nodes, so take them over instead of rebuilding
 	scope_ = std::move(other.scope_);
-	updater_ = other.updater_->move();
-	test_in_ = other.test_in_->move();
-	test_out_ = other.test_out_->move();
-	train_in_ = other.train_in_->move();
-	expected_out_ = other.expected_out_->move();
-	brain_ = other.brain_->move();
-	setup();
+	updater_ = other.updater_;
+	test_in_ = other.test_in_;
+	test_out_ = other.test_out_;
+	train_in_ = other.train_in_;
+	expected_out_ = other.expected_out_;
+	error_ = other.error_;
+	brain_ = other.brain_;
+	updates_ = std::move(other.updates_);
+	other.updater_ = nullptr;
+	other.test_in_ = nullptr;
+	other.test_out_ = nullptr;
+	other.train_in_ = nullptr;
+	other.expected_out_ = nullptr;
+	other.error_ = nullptr;
+	other.brain_ = nullptr;
+	other.updates_.clear();
 }
 
 void gd_net::clean_up (void)
-- 
2.43.0


From d58adf82fb2d5b4e4404ba330b74a0f29fb13eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 39/64] fix: a full replay memory kept the oldest experiences
 and forgot the newest

---
 app/rocnnet/include/models/dq_net.hpp | 3 ++-
 app/rocnnet/src/models/dq_net.cpp     | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/rocnnet/include/models/dq_net.hpp b/app/rocnnet/include/models/dq_net.hpp
index f3cd8f3..12dbf45 100644
--- a/app/rocnnet/include/models/dq_net.hpp
+++ b/app/rocnnet/include/models/dq_net.hpp
@@ -14,6 +14,7 @@
 #define ROCNNET_DQN_HPP
 
 #include <algorithm>
+#include <deque>
 #include <numeric>
 #include <vector>
 #include <cassert>
@@ -175,7 +176,7 @@ private:
 
 	std::uniform_real_distribution<double> explore_;
 
-	std::vector<exp_batch> experiences_;
+	std::deque<exp_batch> experiences_;
 
 	std::string scope_;
 };
diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 61d6a27..02f4c53 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -92,8 +92,7 @@ void dq_net::store (std::vector<double> observation, size_t action_idx,
 		experiences_.push_back(exp_batch{observation, action_idx, reward, new_obs});
 		if (experiences_.size() > params_.max_exp_)
 		{
-			experiences_.front() = std::move(experiences_.back());
-			experiences_.pop_back();
+			experiences_.pop_front();
 		}
 	}
 	n_store_called_++;
-- 
2.43.0


From b8aed699329d30d5afa0627fe456a1fb456d1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 40/64] fix: copies of a dq_net lost their experiences

---
 app/rocnnet/src/models/dq_net.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 02f4c53..cab7227 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -230,6 +230,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 	n_store_called_ = other.n_store_called_;
 	n_train_called_ = other.n_train_called_;
 	explore_ = other.explore_;
+	experiences_ = other.experiences_;
 	generator_ = other.generator_;
 
 	// copy over actors
@@ -253,6 +254,7 @@ void dq_net::move_helper (dq_net&& other, std::string scope)
 	n_store_called_ = std::move(other.n_store_called_);
 	n_train_called_ = std::move(other.n_train_called_);
 	explore_ = std::move(other.explore_);
+	experiences_ = std::move(other.experiences_);
 	generator_ = std::move(other.generator_);
 
 	// move over actors
-- 
2.43.0


From bde3639a60b832c1cdaccba55ae4d6d137ef6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 41/64] fix: consumers of a shareable_cache crashed or read
 values twice after a key was replaced

---
 .../include/thread/shareable_cache.hpp        |  4 +-
 app/tenncor/src/thread/shareable_cache.ipp    | 56 ++++++-------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index e95a484..0f6e9b5 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -30,6 +30,7 @@ struct cache_node
 	std::shared_ptr<cache_node<T> > next_ = nullptr;
 	std::shared_ptr<cache_node<T> > prev_;
 	T data_;
+	bool broken_ = false;
 };
 
 // shared_cache considers 2 types of actors: consumers and producers
@@ -38,8 +39,7 @@ struct cache_node
 // key is unique, meaning when a new key-value pair is inserted,
 // the old pair with the same key is obsolete
 // because producers may reference some obsolete pairs, we handle obsolecse by shared_pointers to nodes
-// obsolete nodes always link to a valid node or nullptr
-// obsolete nodes have prev of null
+// obsolete nodes are marked broken and keep their prev, which was read before them
 // the producer determines a key-value relationship using hash function (hasher_)
 // each consumer holds one shared_ptr to some node in the cache (content_)
 // if the shared_ptr is null, the consumer is expected to consume from the start of the cache
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 78912d5..ffedf4e 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -34,8 +34,7 @@ public:
 	}
 
 	// remove it node from the link
-	// invariant: broken it chain always ends in an unbroken node or null
-	// after: if it == nullptr, then everything starting from head_ is unread
+	// invariant: following prev_ from a broken node always ends in an unbroken node or null
 	void unlink (std::shared_ptr<cache_node<T> > it)
 	{
 		if (nullptr != it)
@@ -57,28 +56,21 @@ public:
 			{
 				it->next_->prev_ = it->prev_;
 			}
-			it->prev_ = nullptr;
-			if (is_tail)
-			{
-				// if broken node was a tail, link to the closest unbroken (new tail)
-				it->next_ = tail_;
-			}
-			// invariant: if (tail_ == nullptr) then head_ == nullptr && it == nullptr
+			it->next_ = nullptr;
+			it->broken_ = true;
+			// invariant: if (tail_ == nullptr) then head_ == nullptr
 		}
 	}
 
-	// sometimes, nodes can be broken (if it->prev_ is null and is not head)
-	// update input it shared_ptr to reference the next unbroken node
-	// return true if it was broken
-	bool grab_truth (std::shared_ptr<cache_node<T> >& it) const
+	// sometimes, nodes can be broken
+	// update input it shared_ptr to reference the last unbroken node before it
+	// after: if it == nullptr, then everything starting from head_ is unread
+	void grab_truth (std::shared_ptr<cache_node<T> >& it) const
 	{
-		if (head_ == it || nullptr == it) return false;
-		bool broken = nullptr == it->prev_;
-		while (nullptr == it->prev_)
+		while (nullptr != it && it->broken_)
 		{
-			it = it->next_;
+			it = it->prev_;
 		}
-		return broken;
 	}
 
 private:
@@ -97,29 +89,17 @@ optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >&
 	std::unique_lock<std::mutex> locker(mutex_);
 
 	optional<T> value;
-	if (nullptr == iter)
-	{
-		// check head of content_
-		if (iter = content_.begin())
-		{
-			value = iter->data_;
-		}
-	}
 	// ensure iter is not broken
-	else if (content_.grab_truth(iter) &&
-		nullptr != iter)
-	{
-		// iter was broken, we grab data from iter instead,
-		// since we've never visited it before
-		value = iter->data_;
-		// we don't increment since we just read iter
-	}
-	else if (iter->next_)
+	content_.grab_truth(iter);
+	// nothing before iter remains: check head of content_
+	std::shared_ptr<cache_node<T> > next = nullptr == iter ?
+		content_.begin() : iter->next_;
+	if (nullptr != next)
 	{
-		value = iter->next_->data_;
-		iter = iter->next_;
+		value = next->data_;
+		iter = next;
 	}
-	if (!value)
+	else
 	{
 		cond_.wait(locker); // no current wait to check for spurious wait
 	}
-- 
2.43.0


From 850b5908c052463972433e328d594e4f8ab8d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 42/64] fix: a destroyed shareable_cache leaked its values

---
 app/tenncor/src/thread/shareable_cache.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index ffedf4e..baf8875 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -15,6 +15,18 @@ template <typename K, typename T>
 class shareable_cache<K, T>::cache_list
 {
 public:
+	// neighbors own each other
+	~cache_list (void)
+	{
+		while (nullptr != head_)
+		{
+			std::shared_ptr<cache_node<T> > next = head_->next_;
+			head_->next_ = nullptr;
+			head_->prev_ = nullptr;
+			head_ = next;
+		}
+	}
+
 	std::shared_ptr<cache_node<T> > begin (void) const
 	{
 		return head_;
-- 
2.43.0


From 643d6808da96b12d30ce4c30a3cc90c41dd035d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 43/64] fix: shareable_cache woke only one of its waiting
 consumers

---
 app/tenncor/src/thread/shareable_cache.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index baf8875..b202131 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -130,13 +130,13 @@ void shareable_cache<K, T>::add_latest (T data)
 		content_.unlink(iter->second);
 	}
 	umap_[key] = content_.push_back(data);
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 }
-- 
2.43.0


From 43b499d19d293044edea5c8e3da2b93fe556ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 44/64] fix: a thread stopped just before it waits for the stop
 was never woken

---
 app/tenncor/include/thread/stop_flag.hpp |  7 +++++--
 app/tenncor/src/thread/stop_flag.cpp     | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 3708213..1d87dc0 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <mutex>
 
 #pragma once
 #ifndef STOP_FLAG_HPP
@@ -19,10 +20,12 @@ public:
 
 	bool is_set (void) const;
 
-	std::condition_variable& get_condition (void) { return cond_; }
+	void wait (void); // wait until flag is set
 
 private:
-	std::atomic<bool> flag_;
+	std::atomic<bool> flag_{false};
+
+	std::mutex mutex_;
 
 	std::condition_variable cond_;
 };
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 9d52bb0..e5743fd 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -2,7 +2,6 @@
 // Created by Mingkai Chen on 2017-10-01.
 //
 
-#include <mutex>
 #include "thread/stop_flag.hpp"
 
 #ifdef STOP_FLAG_HPP
@@ -14,7 +13,11 @@ thread_local stop_flag thread_stop_flag;
 
 void stop_flag::set (void)
 {
-	flag_.store(true, std::memory_order_relaxed); // no constraints
+	{
+		// not between a waiter's look at the flag and its wait
+		std::unique_lock<std::mutex> lk(mutex_);
+		flag_.store(true, std::memory_order_relaxed); // no constraints
+	}
 	cond_.notify_one(); // should have only stopped once per thread
 }
 
@@ -23,6 +26,12 @@ bool stop_flag::is_set (void) const
 	return flag_.load(std::memory_order_relaxed);
 }
 
+void stop_flag::wait (void)
+{
+	std::unique_lock<std::mutex> lk(mutex_);
+	cond_.wait(lk, [this]{ return is_set(); });
+}
+
 void stop_throw (void)
 {
 	if (thread_stop_flag.is_set())
@@ -33,10 +42,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::mutex mut;
-	std::unique_lock<std::mutex> lk(mut);
-	thread_stop_flag.get_condition().wait(lk,
-	[]{ return thread_stop_flag.is_set(); });
+	thread_stop_flag.wait();
 }
 
 }
-- 
2.43.0


From 71ed2a07eda3bbc06eabb4ec7dd40ec6f4564d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 45/64] fix: stopping a thread that had ended, was moved or
 never begun used a dead flag

---
 app/tenncor/include/thread/stop_flag.hpp        | 4 +++-
 app/tenncor/include/thread/stoppable_thread.hpp | 6 +++---
 app/tenncor/src/thread/stop_flag.cpp            | 7 ++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 1d87dc0..9414383 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 
 #pragma once
@@ -32,7 +33,8 @@ private:
 
 struct thread_interrupted {};
 
-extern thread_local stop_flag thread_stop_flag;
+// shared with the thread's owner, who may stop it after its end
+extern thread_local std::shared_ptr<stop_flag> thread_stop_flag;
 
 void stop_throw (void); // exit thread by throwing
 
diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index eacc01c..ed24016 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -23,13 +23,13 @@ public:
 	template <typename FUNC, typename... ARGS>
 	explicit stoppable_thread (FUNC&& f, ARGS&&... args)
 	{
-		std::promise<stop_flag*> promise_flag;
+		std::promise<std::shared_ptr<stop_flag> > promise_flag;
 
 		internal_op_ = std::thread([&promise_flag,
 			f = std::forward<FUNC>(f),
 			args = std::make_tuple(std::forward<ARGS>(args)...)]
 		{
-			promise_flag.set_value(&thread_stop_flag);
+			promise_flag.set_value(thread_stop_flag);
 
 			try
 			{
@@ -59,7 +59,7 @@ public:
 private:
 	std::thread internal_op_;
 	
-	stop_flag* flag_;
+	std::shared_ptr<stop_flag> flag_;
 };
 
 }
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index e5743fd..b34ef19 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -9,7 +9,8 @@
 namespace nnet
 {
 
-thread_local stop_flag thread_stop_flag;
+thread_local std::shared_ptr<stop_flag> thread_stop_flag =
+	std::make_shared<stop_flag>();
 
 void stop_flag::set (void)
 {
@@ -34,7 +35,7 @@ void stop_flag::wait (void)
 
 void stop_throw (void)
 {
-	if (thread_stop_flag.is_set())
+	if (thread_stop_flag->is_set())
 	{
 		throw thread_interrupted(); // force worker to stop operation
 	}
@@ -42,7 +43,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	thread_stop_flag.wait();
+	thread_stop_flag->wait();
 }
 
 }
-- 
2.43.0


From d54ddf6d12eedc2ca0b872ca9f3e0514a01dad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 46/64] fix: graph recording did not compile without
 <condition_variable>

---
 app/tenncor/include/thread/shareable_cache.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index 0f6e9b5..a6db085 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -6,6 +6,8 @@
 //  Copyright © 2017 Mingkai Chen. All rights reserved.
 //
 
+#include <condition_variable>
+#include <functional>
 #include <mutex>
 #include <memory>
 #include <unordered_map>
-- 
2.43.0


From 258d5d0ec3ce6d7b0920f7738387ddde68543ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 47/64] fix: consecutive random initializations drew the same
 values

---
 app/tenncor/src/tensor/tensor_handler.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 5c8e66a..f9a6dbc 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -268,7 +268,7 @@ template <typename T>
 void rand_uniform<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
@@ -304,7 +304,7 @@ template <typename T>
 void rand_normal<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
-- 
2.43.0


From 55d940e355c946d600b57fe0a53dddf23773c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 48/64] fix: clones and moved nodes carried the identifier of
 their source

---
 app/tenncor/include/graph/react/identifiable.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/app/tenncor/include/graph/react/identifiable.hpp b/app/tenncor/include/graph/react/identifiable.hpp
index 678a0ff..c1c5b92 100644
--- a/app/tenncor/include/graph/react/identifiable.hpp
+++ b/app/tenncor/include/graph/react/identifiable.hpp
@@ -12,6 +12,7 @@
  *
  */
 
+#include <atomic>
 #include <string>
 
 #include "utils/utils.hpp"
@@ -26,8 +27,16 @@ namespace nnet
 class identifiable
 {
 public:
+	identifiable (void) {}
+
 	virtual ~identifiable (void) {}
 
+	//! a copied or moved node is another node, so it has its own identifier
+	//! (without drawing from the random generator, whose sequence is the user's to seed)
+	identifiable (const identifiable& other) : id_(derived_id(other.id_)) {}
+
+	identifiable (identifiable&& other) : id_(derived_id(other.id_)) {}
+
 	//! get the unique hash value
 	std::string get_uid (void) const
 	{
@@ -38,6 +47,12 @@ public:
 	virtual std::string get_label (void) const = 0;
 
 private:
+	static std::string derived_id (const std::string& source)
+	{
+		static std::atomic<size_t> n_derived(0);
+		return nnutils::formatter() << source << "_" << n_derived++;
+	}
+
 	//! uniquely identifier for this node
 	const std::string id_ = nnutils::uuid(this);
 };
-- 
2.43.0


From 728a0d0844104dbe88bc63d7467ea3eb097cd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 49/64] fix: moving a generator with consumers deleted it while
 it was being moved

---
 app/tenncor/src/graph/react/subject.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index fc298da..91953a0 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -46,7 +46,9 @@ subject& subject::operator = (subject&& other)
 {
 	if (this != &other)
 	{
-		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+		// a subject losing its audience to a move is not abandoned
+		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp;
+		temp.swap(other.audience_);
 		for (auto& audpair : temp)
 		{
 			iobserver* aud = audpair.first;
@@ -55,7 +57,6 @@ subject& subject::operator = (subject&& other)
 				aud->replace_dependency(this, idx);
 			}
 		}
-		other.audience_.clear();
 	}
 	return *this;
 }
@@ -135,7 +136,9 @@ subject::subject (const subject&) {}
 
 subject::subject (subject&& other)
 {
-	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+	// a subject losing its audience to a move is not abandoned
+	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp;
+	temp.swap(other.audience_);
 	for (auto& audpair : temp)
 	{
 		iobserver* aud = audpair.first;
@@ -144,7 +147,6 @@ subject::subject (subject&& other)
 			aud->replace_dependency(this, idx);
 		}
 	}
-	other.audience_.clear();
 }
 
 void subject::attach (iobserver* viewer, size_t idx)
@@ -197,13 +199,14 @@ if (rocnnet_record::record_status::rec_good)
 #endif /* EDGE_RCD */
 
 	auto it = audience_.find(viewer);
-	if (audience_.end() != it)
+	if (audience_.end() == it)
 	{
-		it->second.erase(idx);
-		if (it->second.empty())
-		{
-			audience_.erase(viewer);
-		}
+		return;
+	}
+	it->second.erase(idx);
+	if (it->second.empty())
+	{
+		audience_.erase(it);
 	}
 	if (audience_.empty())
 	{
-- 
2.43.0


From b4bcfc707f6d81b4403b6479860967a262357bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 50/64] fix: assignment of an rbm did nothing, and copies and
 moves lost n_hidden

---
 app/rocnnet/src/models/rbm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..e542eb6 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
@@ -209,6 +209,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -217,6 +218,7 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
+	n_hidden_ = std::move(other.n_hidden_);
 	weight_ = other.weight_->move();
 	hbias_ = other.hbias_->move();
 	vbias_ = other.vbias_->move();
-- 
2.43.0


From c404961eba6eebe532bfec552cacba78f0834d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 51/64] fix: the pseudo-likelihood of an rbm negated the bits
 it does not flip

---
 app/rocnnet/src/models/rbm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index e542eb6..593e555 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -251,7 +251,8 @@ nnet::varptr<double> rbm::get_pseudo_likelihood_cost (nnet::inode<double>* input
 	nnet::varptr<double> one_i = nnet::const_axis<double>(0, 0, 1, input->get_shape());
 
 	nnet::varptr<double> xi = nnet::round(nnet::varptr<double>(input)); // xi = [0|1...]
-	nnet::varptr<double> xi_flip = one_i - xi;
+	// |1 - x| flips the bit x, and |0 - x| keeps it
+	nnet::varptr<double> xi_flip = +(one_i - xi);
 
 	nnet::varptr<double> fe_xi = free_energy(xi);
 	nnet::varptr<double> fe_xi_flip = free_energy(xi_flip);
-- 
2.43.0


From c755b9a987bb618c75c2e42d8b7dda649b998e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 52/64] fix: copies and moves of a db_net left out its output
 layer

---
 app/rocnnet/src/models/db_net.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..33399b4 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -176,6 +176,7 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	log_layer_ = other.log_layer_->clone(scope_ + ":logres");
 }
 
 void db_net::move_helper (db_net&& other)
@@ -184,6 +185,9 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = std::move(other.log_layer_);
+	other.layers_.clear();
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From cbacf4c0d3d68b42b98cace327a6468f40e07501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 53/64] fix: the output distribution of a db_net was spread
 over the whole batch

---
 app/rocnnet/src/models/db_net.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index 33399b4..c006be3 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -78,7 +78,9 @@ nnet::varptr<double> db_net::prop_up (nnet::inode<double>* input)
 	{
 		output = h->prop_up(output);
 	}
-	return nnet::softmax((*log_layer_)({ output }));
+	// normalize every sample (column) on its own
+	nnet::varptr<double> e = nnet::exp<double>((*log_layer_)({ output }));
+	return nnet::div_axial_b<double>(e, nnet::reduce_sum<double>(e, 0), 0);
 }
 
 pretrain_t db_net::pretraining_functions (
-- 
2.43.0


From cc29f7db95c147067fa4e43925b65b2045dde45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 54/64] fix: finetuning a db_net ignored the expected output

---
 app/rocnnet/include/models/db_net.hpp |  5 +++++
 app/rocnnet/src/models/db_net.cpp     | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/app/rocnnet/include/models/db_net.hpp b/app/rocnnet/include/models/db_net.hpp
index 310d1ad..95121a2 100644
--- a/app/rocnnet/include/models/db_net.hpp
+++ b/app/rocnnet/include/models/db_net.hpp
@@ -69,6 +69,11 @@ private:
 
 	void clean_up (void);
 
+	// output of the last layer before it is normalized
+	nnet::varptr<double> get_logits (nnet::inode<double>* input);
+
+	nnet::varptr<double> normalize (nnet::varptr<double> logits);
+
 	size_t n_input_;
 
 	size_t n_output_;
diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c006be3..d0d7e75 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -69,6 +69,11 @@ db_net& db_net::operator = (db_net&& other)
 }
 
 nnet::varptr<double> db_net::prop_up (nnet::inode<double>* input)
+{
+	return normalize(get_logits(input));
+}
+
+nnet::varptr<double> db_net::get_logits (nnet::inode<double>* input)
 {
 	// sanity check
 	nnet::tensorshape in_shape = input->get_shape();
@@ -78,8 +83,13 @@ nnet::varptr<double> db_net::prop_up (nnet::inode<double>* input)
 	{
 		output = h->prop_up(output);
 	}
+	return (*log_layer_)({ output });
+}
+
+nnet::varptr<double> db_net::normalize (nnet::varptr<double> logits)
+{
 	// normalize every sample (column) on its own
-	nnet::varptr<double> e = nnet::exp<double>((*log_layer_)({ output }));
+	nnet::varptr<double> e = nnet::exp<double>(logits);
 	return nnet::div_axial_b<double>(e, nnet::reduce_sum<double>(e, 0), 0);
 }
 
@@ -102,8 +112,12 @@ update_cost_t db_net::build_finetune_functions (
 	nnet::placeholder<double>& train_out,
 	double learning_rate)
 {
-	nnet::varptr<double> out_dist = prop_up(&train_in);
-	nnet::varptr<double> finetune_cost = - nnet::reduce_mean(nnet::log(out_dist));
+	nnet::varptr<double> logits = get_logits(&train_in);
+	nnet::varptr<double> out_dist = normalize(logits);
+	// this has the gradient of the cross entropy between out_dist and train_out,
+	// which is out_dist - train_out by the logits
+	nnet::varptr<double> logits_grad = nnet::as_constant<double>(out_dist - nnet::varptr<double>(&train_out));
+	nnet::varptr<double> finetune_cost = nnet::reduce_mean(nnet::reduce_sum<double>(logits_grad * logits, 0));
 	finetune_cost->set_label("finetune_cost(" + finetune_cost->get_label() + ")");
 	nnet::iconnector<double>* ft_cost_icon = static_cast<nnet::iconnector<double>*>(finetune_cost.get());
 
-- 
2.43.0


From acf2c58dbc930b938b01658c47d848e4b0251a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 55/64] fix: gradients by a moved leaf were filed under its
 former address

---
 .../connector/immutable/base_immutable.hpp    |  3 ++
 app/tenncor/include/graph/inode.hpp           |  4 +++
 .../connector/immutable/base_immutable.ipp    | 31 +++++++++++++++++++
 app/tenncor/src/graph/inode.ipp               | 12 +++++++
 app/tenncor/src/graph/leaf/ileaf.ipp          |  1 +
 5 files changed, 51 insertions(+)

diff --git a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
index 4913123..65d4e7b 100644
--- a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
@@ -108,6 +108,9 @@ protected:
 	//! forward pass step: populate data_
 	virtual void forward_pass (void) = 0;
 
+	//! refile the gradient and the jacobians of a moved leaf
+	virtual void replace_leaf (ileaf<T>* from, ileaf<T>* to);
+
 	//! backward pass step: populate gcache_[leaf]
 	virtual void backward_pass (variable<T>* leaf) = 0;
 
diff --git a/app/tenncor/include/graph/inode.hpp b/app/tenncor/include/graph/inode.hpp
index 1475287..af3fcb9 100644
--- a/app/tenncor/include/graph/inode.hpp
+++ b/app/tenncor/include/graph/inode.hpp
@@ -141,6 +141,10 @@ protected:
 	//! allow inheritants to access source's get_gradient with parameter leaf
 	inode<T>* take_gradient (inode<T>* source, variable<T>* leaf) const;
 
+	//! a leaf moved from one address to another: refile what is kept under its address,
+	//! by default only by the audience
+	virtual void replace_leaf (ileaf<T>* from, ileaf<T>* to);
+
 private:
 	//! describes this node's purpose
 	std::string label_;
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 1d10a3a..4ccf900 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -231,6 +231,37 @@ inode<T>* base_immutable<T>::get_gradient (variable<T>* leaf)
 	return gcache_[leaf];
 }
 
+template <typename T>
+void base_immutable<T>::replace_leaf (ileaf<T>* from, ileaf<T>* to)
+{
+	auto it = gcache_.find(from);
+	if (gcache_.end() == it)
+	{
+		return; // not dependent on the leaf or done already
+	}
+	varptr<T> grad = it->second;
+	gcache_.erase(it);
+	if (false == gcache_.insert({to, grad}).second)
+	{
+		// the gradient by both leaves is none of the known ones
+		gcache_[to] = nullptr;
+	}
+
+	auto jit = this->jacobians_.find(static_cast<variable<T>*>(from));
+	if (this->jacobians_.end() != jit)
+	{
+		auto j = jit->second;
+		this->jacobians_.erase(jit);
+		auto added = this->jacobians_.insert({static_cast<variable<T>*>(to), j});
+		if (false == added.second && j.uid_ != added.first->second.uid_)
+		{
+			added.first->second.terminal_ = true; // terminate
+			added.first->second.list_.clear();
+		}
+	}
+	inode<T>::replace_leaf(from, to);
+}
+
 template <typename T>
 void base_immutable<T>::copy_helper (const base_immutable& other)
 {
diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 9721e3b..4894a58 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -89,6 +89,18 @@ bool inode<T>::find_audience (std::string label, std::unordered_set<inode<T>*>&
 	return false == audience.empty();
 }
 
+template <typename T>
+void inode<T>::replace_leaf (ileaf<T>* from, ileaf<T>* to)
+{
+	for (auto audpair : audience_)
+	{
+		if (inode<T>* anode = dynamic_cast<inode<T>*>(audpair.first))
+		{
+			anode->replace_leaf(from, to);
+		}
+	}
+}
+
 template <typename T>
 void inode<T>::set_metadata (std::string key, size_t value)
 {
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 553f1cd..14ed206 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -166,6 +166,7 @@ void ileaf<T>::move_helper (ileaf<T>&& other)
 	is_init_ = std::move(other.is_init_);
 	data_ = std::move(other.data_);
 	other.data_ = nullptr;
+	this->replace_leaf(&other, this);
 }
 
 }
-- 
2.43.0


From f9a6d3194f9c39417b31e7801078c76ace099ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 56/64] fix: deriving a consumer of a moved product used the
 node it was moved from

---
 .../include/graph/connector/iconnector.hpp    |  3 ++
 .../src/graph/connector/iconnector.ipp        | 30 ++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/graph/connector/iconnector.hpp b/app/tenncor/include/graph/connector/iconnector.hpp
index 5eef3f9..472772d 100644
--- a/app/tenncor/include/graph/connector/iconnector.hpp
+++ b/app/tenncor/include/graph/connector/iconnector.hpp
@@ -151,6 +151,9 @@ private:
 
 	void jacobian_correction (const inode<T>* other);
 
+	//! this replaced other: correct the jacobians of this and the audience
+	void jacobian_takeover (const inode<T>* other, inode<T>* dest);
+
 	//! the distance between this node and the furthest dependent leaf (maximum spanning tree height)
 	size_t depth_ = 0;
 };
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index ca4a52b..97fe5d4 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -312,7 +312,7 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 {
 	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
-	jacobian_correction(&other);
+	jacobian_takeover(&other, this);
 	// this copies other's dependencies so, this and other share a graph
 	if (g_man_)
 	{
@@ -348,6 +348,34 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	}
 }
 
+template <typename T>
+void iconnector<T>::jacobian_takeover (const inode<T>* other, inode<T>* dest)
+{
+	bool found = false;
+	for (auto& jpair : jacobians_)
+	{
+		for (std::pair<JTRANSFER<T>,inode<T>*>& j : jpair.second.list_)
+		{
+			if (j.second == other)
+			{
+				j.second = dest;
+				found = true;
+			}
+		}
+	}
+	// the audience has its jacobians from here
+	if (found)
+	{
+		for (auto& audpair : this->audience_)
+		{
+			if (iconnector<T>* aud = dynamic_cast<iconnector<T>*>(audpair.first))
+			{
+				aud->jacobian_takeover(other, dest);
+			}
+		}
+	}
+}
+
 template <typename T>
 struct iconnector<T>::JList
 {
-- 
2.43.0


From 37caa41139e76ac6260453f5c2d915f6536c1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 57/64] fix: gradients of axial products and quotients had the
 shape of the smaller argument

---
 .../src/graph/operations/elementary.ipp       | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index e260ad3..b1cd2e5 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -396,6 +396,19 @@ static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, const
 }
 
 
+// gradient of an axial operation's full argument,
+// which takes that argument's shape if it is scalar
+template <typename T>
+static varptr<T> axial_full_grad (varptr<T> grad, const varptr<T> full)
+{
+	constant<T>* gconst = dynamic_cast<constant<T>*>(grad.get());
+	if (gconst && 1 == gconst->get_shape().n_elems())
+	{
+		return grad * eq(full, full);
+	}
+	return grad;
+}
+
 // samples cannot be backpropogated, so we need a special handler
 template <typename T>
 static varptr<T> sample_back_prop (std::vector<std::pair<inode<T>*,inode<T>*> >)
@@ -1972,7 +1985,7 @@ varptr<T> mul_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return mul_axial_a(ag, b, axis_a) + mul_axial_a(a, bg, axis_a);
+		return mul_axial_a(ag, b, axis_a) + mul_axial_a(a, axial_full_grad(bg, b), axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1993,7 +2006,7 @@ varptr<T> mul_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return mul_axial_b(ag, b, axis_b) + mul_axial_b(a, bg, axis_b);
+		return mul_axial_b(axial_full_grad(ag, a), b, axis_b) + mul_axial_b(a, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -2014,7 +2027,7 @@ varptr<T> div_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_a(ag, b, axis_a) - mul_axial_b(bg, a, axis_a)) / pow(b, 2);
+		return (mul_axial_a(ag, b, axis_a) - mul_axial_b(axial_full_grad(bg, b), a, axis_a)) / pow(b, 2);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -2035,7 +2048,8 @@ varptr<T> div_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b)) / pow(b, 2);
+		return div_axial_b(mul_axial_b(axial_full_grad(ag, a), b, axis_b) -
+			mul_axial_a(bg, a, axis_b), pow(b, 2), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
-- 
2.43.0


From caac66b5c0e7d871fa054da08faa9aad1430828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:01 +0000
Subject: [PATCH 58/64] fix: gradients of axial sums lost the broadcast axis of
 a function of the smaller argument

---
 .../src/graph/operations/elementary.ipp       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index b1cd2e5..96bebbd 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -402,7 +402,11 @@ template <typename T>
 static varptr<T> axial_full_grad (varptr<T> grad, const varptr<T> full)
 {
 	constant<T>* gconst = dynamic_cast<constant<T>*>(grad.get());
-	if (gconst && 1 == gconst->get_shape().n_elems())
+	if (gconst && *gconst == (T) 0)
+	{
+		return neq(full, full);
+	}
+	else if (gconst && 1 == gconst->get_shape().n_elems())
 	{
 		return grad * eq(full, full);
 	}
@@ -1910,6 +1914,10 @@ varptr<T> add_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
+		if (nullptr == dynamic_cast<constant<T>*>(ag.get()))
+		{
+			bg = axial_full_grad(bg, varptr<T>(args.at(1).first));
+		}
 		return add_axial_a(ag, bg, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
@@ -1928,6 +1936,10 @@ varptr<T> add_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
+		if (nullptr == dynamic_cast<constant<T>*>(bg.get()))
+		{
+			ag = axial_full_grad(ag, varptr<T>(args.at(0).first));
+		}
 		return add_axial_b(ag, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
@@ -1946,6 +1958,10 @@ varptr<T> sub_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
+		if (nullptr == dynamic_cast<constant<T>*>(ag.get()))
+		{
+			bg = axial_full_grad(bg, varptr<T>(args.at(1).first));
+		}
 		return sub_axial_a(ag, bg, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
@@ -1964,6 +1980,10 @@ varptr<T> sub_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
+		if (nullptr == dynamic_cast<constant<T>*>(bg.get()))
+		{
+			ag = axial_full_grad(ag, varptr<T>(args.at(0).first));
+		}
 		return sub_axial_b(ag, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
-- 
2.43.0


From a288cdde4f1f797f8c4fe9f36461c9a5b42058b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:44 +0000
Subject: [PATCH 59/64] fix: axial sums and products are not shared with
 operands exchanged

---
 app/tenncor/src/graph/operations/elementary.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 96bebbd..76265ca 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -193,7 +193,10 @@ static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 		return a + outconst[0];
 	}
 
-	if (inode<T>* parent = unordered_binary_parent_search(a.get(), b.get(), opname))
+	// operands of axial operations have different roles
+	if (inode<T>* parent = left_axis ?
+		ordered_binary_parent_search(a.get(), b.get(), opname) :
+		unordered_binary_parent_search(a.get(), b.get(), opname))
 	{
 		return parent;
 	}
@@ -293,7 +296,10 @@ static varptr<T> mul_helper (const varptr<T>& a, const varptr<T>& b,
 		return a * outconst[0];
 	}
 
-	if (inode<T>* parent = unordered_binary_parent_search(a.get(), b.get(), opname))
+	// operands of axial operations have different roles
+	if (inode<T>* parent = left_axis ?
+		ordered_binary_parent_search(a.get(), b.get(), opname) :
+		unordered_binary_parent_search(a.get(), b.get(), opname))
 	{
 		return parent;
 	}
-- 
2.43.0


From f68c6a1f1fe80767da3c8901f543858d3e011953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:29 +0000
Subject: [PATCH 60/64] fix: gradients of products of arguments that do not
 vary with the variable

---
 app/tenncor/src/graph/operations/matmul.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index e5a83e9..5e7e1b0 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -371,6 +371,13 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		constant<T>* aconst = dynamic_cast<constant<T>*>(args[0].second);
+		constant<T>* bconst = dynamic_cast<constant<T>*>(args[1].second);
+		if (aconst && *aconst == (T)0 && bconst && *bconst == (T)0)
+		{
+			// neither argument varies with the leaf, so the product doesn't
+			return varptr<T>(constant<T>::get(0));
+		}
 		// todo: create alternative operation to eq (since eq prevents higher order derivatives)
 		// desired behavior, create a matrix of 1 output in the same shape as the tforward operation
 		// tforward shape may not be defined at this point,
-- 
2.43.0


From c4acdc666e44e709f2bf743fc186e71562b31c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:29 +0000
Subject: [PATCH 61/64] fix: fit keeps the jacobian of its argument where the
 node that lends the shape depends on the same variable

---
 .../src/graph/connector/immutable/immutable.ipp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/app/tenncor/src/graph/connector/immutable/immutable.ipp b/app/tenncor/src/graph/connector/immutable/immutable.ipp
index e0a5432..7ae339d 100644
--- a/app/tenncor/src/graph/connector/immutable/immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/immutable.ipp
@@ -36,6 +36,19 @@ immutable<T>* immutable<T>::get (std::vector<inode<T>*> args,
 			if (variable<T>* var = dynamic_cast<variable<T>*>(leaf))
 			{
 				imm->jacobians_.erase(var);
+				// the other arguments keep theirs
+				for (inode<T>* arg : args)
+				{
+					immutable<T>* other = arg == ignore_jacobian && arg != args[0] ?
+						nullptr : dynamic_cast<immutable<T>*>(arg);
+					if (nullptr == other) continue;
+					auto jit = other->jacobians_.find(var);
+					if (other->jacobians_.end() != jit && false == jit->second.list_.empty())
+					{
+						imm->jacobians_[var] = jit->second;
+						imm->jacobians_[var].terminal_ = false;
+					}
+				}
 			}
 		}
 	}
-- 
2.43.0


From 22b89a6950935c4306e0511b7ececf0e4a852c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:52 +0000
Subject: [PATCH 62/64] fix: asking for a shape does not bring a frozen graph
 up to date

---
 app/tenncor/src/graph/connector/immutable/base_immutable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 4ccf900..f053d54 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -97,7 +97,7 @@ void base_immutable<T>::temporary_eval (const iconnector<T>* target, inode<T>*&
 template <typename T>
 tensorshape base_immutable<T>::get_shape (void) const
 {
-	if (this->g_man_) this->g_man_->update();
+	if (this->g_man_ && false == this->g_man_->freeze_) this->g_man_->update();
 	if (nullptr == data_)
 	{
 		return tensorshape();
-- 
2.43.0


From 7321d9ac43d33f51cf85c17cb1c45fd4e445a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:07 +0000
Subject: [PATCH 63/64] fix: moved or assigned shape dependent nodes do not
 leave their extracter behind

---
 app/tenncor/src/graph/connector/immutable/shape_dep.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
index 88bd1e4..912a5a5 100644
--- a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
+++ b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
@@ -62,6 +62,7 @@ shape_dep<T>& shape_dep<T>::operator = (const shape_dep<T>& other)
 	{
 		base_immutable<T>::operator = (other);
 		shape_ = other.shape_;
+		delete shape_info;
 		shape_info = other.shape_info->clone();
 	}
 	return *this;
@@ -74,7 +75,8 @@ shape_dep<T>& shape_dep<T>::operator = (shape_dep<T>&& other)
 	{
 		base_immutable<T>::operator = (std::move(other));
 		shape_ = std::move(other.shape_);
-		shape_info = other.shape_info->move();
+		delete shape_info;
+		shape_info = other.shape_info;
 		other.shape_info = nullptr;
 	}
 	return *this;
@@ -105,7 +107,7 @@ shape_dep<T>::shape_dep (shape_dep<T>&& other) :
 	base_immutable<T>(std::move(other))
 {
 	shape_ = std::move(other.shape_);
-	shape_info = other.shape_info->move();
+	shape_info = other.shape_info;
 	other.shape_info = nullptr;
 }
 
-- 
2.43.0


From fe58ca3c4dbd260a12ec2dc054c70aab839cf374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:07 +0000
Subject: [PATCH 64/64] fix: assigning an operation node brings its consumers
 up to date

---
 app/tenncor/src/graph/connector/immutable/immutable.ipp | 2 ++
 app/tenncor/src/graph/connector/immutable/shape_dep.ipp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/tenncor/src/graph/connector/immutable/immutable.ipp b/app/tenncor/src/graph/connector/immutable/immutable.ipp
index 7ae339d..53537e3 100644
--- a/app/tenncor/src/graph/connector/immutable/immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/immutable.ipp
@@ -74,6 +74,7 @@ immutable<T>& immutable<T>::operator = (const immutable<T>& other)
 	{
 		base_immutable<T>::operator = (other);
 		copy_helper(other);
+		this->notify(UPDATE);
 	}
 	return *this;
 }
@@ -85,6 +86,7 @@ immutable<T>& immutable<T>::operator = (immutable<T>&& other)
 	{
 		base_immutable<T>::operator = (std::move(other));
 		move_helper(std::move(other));
+		this->notify(UPDATE);
 	}
 	return *this;
 }
diff --git a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
index 912a5a5..ccf28ff 100644
--- a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
+++ b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
@@ -64,6 +64,7 @@ shape_dep<T>& shape_dep<T>::operator = (const shape_dep<T>& other)
 		shape_ = other.shape_;
 		delete shape_info;
 		shape_info = other.shape_info->clone();
+		this->notify(UPDATE);
 	}
 	return *this;
 }
@@ -78,6 +79,7 @@ shape_dep<T>& shape_dep<T>::operator = (shape_dep<T>&& other)
 		delete shape_info;
 		shape_info = other.shape_info;
 		other.shape_info = nullptr;
+		this->notify(UPDATE);
 	}
 	return *this;
 }
-- 
2.43.0


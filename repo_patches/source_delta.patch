From e547b1233e1517672f7d5e7286aa3eae430020f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 01/69] fix: marray::swap could not be instantiated

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..5178bb0 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -914,13 +914,13 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From 33b4754c6ead750997002d853985b3d4c07f6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 02/69] fix: marray::back() const returned an index instead of
 the last element

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 5178bb0..2b2b67c 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From 7f060a0e5ed6fcaba1172bafd37b57cb33c3eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 03/69] fix: dividing a scalar by an marray computed the
 inverse quotient

---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 2b2b67c..6b525dd 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1587,9 +1587,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> r(a);
+	for(auto& i : r) i=f/i;
+	return(r);
 }
 
 namespace detail{
-- 
2.43.0


From 2084ce5baa5c5a9e265ad27511ac312f0a4d4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 04/69] fix: arithmetic between a scalar and a const or
 temporary marray did not compile

---
 include/nuSQuIDS/marray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 6b525dd..d025248 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1485,12 +1485,12 @@ marray<T,Rank>&& operator+=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator+(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator+(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)+=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator+(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator+(const U& f, const marray<T,Rank>& a){
 	return(marray<T,Rank>(a)+=f);
 }
 
@@ -1508,12 +1508,12 @@ marray<T,Rank>&& operator-=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator-(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator-(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)-=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator-(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator-(const U& f, const marray<T,Rank>& a){
 	return(marray<T,Rank>(-a)+=f);
 }
 
@@ -1531,12 +1531,12 @@ marray<T,Rank>&& operator*=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator*(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator*(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)*=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator*(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator*(const U& f, const marray<T,Rank>& a){
 	return(marray<T,Rank>(a)*=f);
 }
 
@@ -1584,12 +1584,12 @@ marray<T,Rank>&& operator/=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator/(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator/(const U& f, const marray<T,Rank>& a){
 	marray<T,Rank> r(a);
 	for(auto& i : r) i=f/i;
 	return(r);
-- 
2.43.0


From c7a0313d4d7ddc948af9a75c37fc34aedec8e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 05/69] fix: atan2, pow and hypot of two marrays of one type
 did not compile; tgamma was misspelled

---
 include/nuSQuIDS/marray.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index d025248..ae3b7fc 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1874,6 +1874,7 @@ using std::sqrt;
 using std::cbrt;
 using std::erf;
 using std::erfc;
+using std::tgamma;
 using std::lgamma;
 using std::ceil;
 using std::floor;
@@ -1914,7 +1915,7 @@ UNARY_MARRAY_FUNC(sqrt);
 UNARY_MARRAY_FUNC(cbrt);
 UNARY_MARRAY_FUNC(erf);
 UNARY_MARRAY_FUNC(erfc);
-UNARY_MARRAY_FUNC(tgmama);
+UNARY_MARRAY_FUNC(tgamma);
 UNARY_MARRAY_FUNC(lgamma);
 UNARY_MARRAY_FUNC(ceil);
 UNARY_MARRAY_FUNC(floor);
@@ -1940,8 +1941,8 @@ template<typename T, unsigned Rank> \
 marray<T,Rank> fname(const marray<T,Rank>& a1, const marray<T,Rank>& a2){ \
 	if(a1.get_extents()==a2.get_extents()){ \
 		marray<T,Rank> result(a1); \
-		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end; \
-			ri!=re; ri++,i1++,i2++) \
+		auto i1=a1.begin(),i2=a2.begin(); \
+		for(auto ri=result.begin(),re=result.end(); ri!=re; ri++,i1++,i2++) \
 			*ri=fname(*i1,*i2); \
 		return(result); \
 	} \
-- 
2.43.0


From f809746099be339817dc9b12588bd5566beaaf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 06/69] fix: marray constructors leaked their buffer when
 refused and assigned to unconstructed elements

---
 include/nuSQuIDS/marray.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index ae3b7fc..8ecff40 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -350,7 +350,10 @@ template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
 		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		{
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++;
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
@@ -729,16 +732,17 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
+			
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-			allocator_traits::deallocate(allocator(),data,total_size());
+			if(data)
+				allocator_traits::deallocate(allocator(),data,total_size());
 			throw;
 		}
 	}
@@ -759,17 +763,18 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
+			
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-			allocator_traits::deallocate(allocator(),data,total_size());
+			if(data)
+				allocator_traits::deallocate(allocator(),data,total_size());
 			throw;
 		}
 	}
-- 
2.43.0


From 71cce5b8a2d6b5176ecb4219d586c2181bc5aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 07/69] fix: a failed marray assignment released its buffer
 with the wrong size or allocator

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 8ecff40..44f8e3c 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -489,7 +489,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -502,7 +502,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -529,7 +529,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From 286f635e39c43f2fca4bce0fb1dcf767da67c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 08/69] fix: move assignment of an marray freed the old buffer
 with the other array's allocator

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 44f8e3c..e7df142 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -515,7 +515,7 @@ private:
 		swap(extents,other.extents);
 		swap(data,other.data);
 		swap(total_size(),other.total_size());
-		allocator()=std::move(other.allocator());
+		swap(allocator(),other.allocator());
 	}
 	void move_assign(marray&& other, std::false_type dont_replace_allocator){
 		using std::swap;
-- 
2.43.0


From 64f9c01edd2006c61f1200127a1d1d571588de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 09/69] fix: marray passed null buffers to its allocator's
 deallocate

---
 include/nuSQuIDS/marray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index e7df142..050a14f 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1351,7 +1351,8 @@ private:
 	static void destroy_buffer(value_type* buffer, size_type size, allocator_type& alloc) noexcept{
 		for(size_type i=0; i!=size; i++)
 			allocator_traits::destroy(alloc,buffer+i);
-		allocator_traits::deallocate(alloc,buffer,size);
+		if(buffer)
+			allocator_traits::deallocate(alloc,buffer,size);
 	}
 	
 	#ifndef __clang__
-- 
2.43.0


From 2238697c9e6741d2b9eeb110e516a1f88ad27f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 10/69] fix: marray::reshape and the editing functions computed
 sizes in 32 bits

---
 include/nuSQuIDS/marray.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 050a14f..a9614f0 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -952,9 +952,9 @@ public:
 private:
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1009,9 +1009,9 @@ private:
 	
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1063,9 +1063,9 @@ public:
 private:
 	void erase(size_type dim, size_type pos, size_t num, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1089,9 +1089,9 @@ private:
 	
 	void erase(size_type dim, size_type pos, size_t num, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1132,9 +1132,9 @@ public:
 		assert(pos+num<=extents[dim]);
 		
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1175,7 +1175,7 @@ public:
 	void reshape(const Container& new_extents){
 		if(std::distance(std::begin(new_extents),std::end(new_extents))!=Rank)
 			throw std::logic_error("Incorrect number of dimensions when attempting to reshape multidimensional array");
-		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),1u,std::multiplies<size_type>());
+		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),size_type(1),std::multiplies<size_type>());
 		if(new_total_size!=total_size())
 			throw std::logic_error("Inconsistent total size when attempting to reshape multidimensional array");
 		std::copy_n(std::begin(new_extents),Rank,extents.begin());
-- 
2.43.0


From 3b9af8885d70ccf321f4cd9094856aaf8073c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 11/69] fix: aligned_allocator could not be rebound or compared
 across types

---
 include/nuSQuIDS/aligned_alloc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..8bfc494 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -145,6 +145,9 @@ public:
 	}
 	
 private:
+	//conversion and comparison look at allocators for other types
+	template <typename U> friend class aligned_allocator;
+	
 	///Log base 2 of alignment, in bytes. 
 	///Must be <32. 
 	uint8_t align_pow;
-- 
2.43.0


From b4d77f071cd8512ae50c63accd06bf433a1b4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 12/69] fix: aligned_allocator lost the block start for
 alignments of 256 bytes and more

---
 include/nuSQuIDS/aligned_alloc.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 8bfc494..6e745b2 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(offset_type))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,23 +112,25 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(offset_type); //include space to do our thing
 		
 		//try to get memory
-		void* ptr=new char[needed];
+		char* block=new char[needed];
+		//leave room for the stashed offset
+		void* ptr=block+sizeof(offset_type)-1;
 		
 		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
 		//Note that since align is a power of 2, align-1 forms a mask with the low
 		//align_pow bits set. Its negation will then preserve only the higher bits
 		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//align then preserves this alignment, and ensures that there is space for 
+		//the offset before ptr. 
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
 		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		//Stash the offset in our guaranteed padding where we can find it later
+		offset_type offset=(char*)ptr-block;
+		std::memcpy((char*)ptr-sizeof(offset),&offset,sizeof(offset));
 		
 		return(pointer(ptr));
 	}
@@ -136,9 +139,10 @@ public:
 		if(!p) //ignore NULL pointers
 			return;
 		
-		uint8_t* ptr=(uint8_t*)p;
+		char* ptr=(char*)p;
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		offset_type offset;
+		std::memcpy(&offset,ptr-sizeof(offset),sizeof(offset));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
@@ -148,6 +152,10 @@ private:
 	//conversion and comparison look at allocators for other types
 	template <typename U> friend class aligned_allocator;
 	
+	///Distance from the start of the underlying block, at most the alignment 
+	///plus a few bytes
+	typedef uint32_t offset_type;
+	
 	///Log base 2 of alignment, in bytes. 
 	///Must be <32. 
 	uint8_t align_pow;
-- 
2.43.0


From c742ae98d7542e05130c59d2ffdee4e3844c0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 13/69] fix: TriCubicInterpolator took the y-z mixed derivative
 from the wrong slice

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..701c745 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -569,7 +569,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From 690b01fecfaf7628eb4c3a6a8b73d3a15d744f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 14/69] fix: AdaptiveQuad matched supplied endpoint values with
 the wrong end when a>b

---
 include/nuSQuIDS/AdaptiveQuad.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 479e83e..a56ef1c 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -182,13 +182,6 @@ namespace AdaptiveQuad{
 		if(tol<std::numeric_limits<double>::epsilon())
 			throw std::runtime_error("Specified tolerance too small");
 		
-		//ensure that the interval is left to right, to simplify internals
-		bool reverse=false;
-		if(a>b){
-			std::swap(a,b);
-			reverse=true;
-		}
-		
 		//compute function endpoint values if not given
 		double fa,fb;
 		if(options && !std::isnan(options->fa))
@@ -204,6 +197,14 @@ namespace AdaptiveQuad{
 			if(options) options->fb=fb;
 		}
 		
+		//ensure that the interval is left to right, to simplify internals
+		bool reverse=false;
+		if(a>b){
+			std::swap(a,b);
+			std::swap(fa,fb);
+			reverse=true;
+		}
+		
 		//create initial interval with function endpoint values
 		Interval i(a,b,fa,fb);
 		if(!i.canSubdivide())
-- 
2.43.0


From 4e89f27d8155cdae3aaaf6346c25435fa4c3653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 15/69] fix: AdaptiveQuad reported a missed tolerance for
 narrow intervals that met it

---
 include/nuSQuIDS/AdaptiveQuad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index a56ef1c..fc3a3fa 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -260,7 +260,7 @@ namespace AdaptiveQuad{
 			//possible, commit its contribution to the total estimate. 
 			auto processSubinterval=[&](Interval& i){
 				if(i.badness(tol)<=0 || !i.canSubdivide()){
-					if(!i.canSubdivide())
+					if(!(i.badness(tol)<=0))
 						outOfTolerance=true;
 					accumulate(i.value,i.i2);
 				}
-- 
2.43.0


From 11355621396baaaa9219686f920e35606aae3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 16/69] fix: quickread ignores blank lines instead of taking
 their column count

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 701c745..b23becd 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -67,9 +67,8 @@ marray<double,2> quickread(std::string filepath){
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
             table.push_back(row);
+            column_number = row.size();
         }
-
-        column_number = row.size();
     }
 
     marray<double,2> otable {table.size(),column_number};
-- 
2.43.0


From f300b313c96ce7242878bd5c8ef98acefe00f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 17/69] fix: H5File does not close an identifier it does not
 own

---
 include/nuSQuIDS/tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..d6b2d7e 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -258,10 +258,10 @@ struct H5File{
     hid_t id;
     H5File(hid_t id):id(id){}
     H5File(const H5File&)=delete;
-    H5File(H5File&& h):id(h.id){ h.id=0; }
+    H5File(H5File&& h):id(h.id){ h.id=-1; }
     H5File& operator=(const H5File&)=delete;
     H5File& operator=(H5File&& h){ std::swap(id,h.id); return *this;}
-    ~H5File(){ H5Fclose(id); }
+    ~H5File(){ if(id>=0) H5Fclose(id); }
     operator hid_t() const{ return(id); }
 };
 
-- 
2.43.0


From e0575fefecd175131c936b4e21a17c3b7e496db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 18/69] fix: readArrayH5 releases its dataset and dataspace on
 every path

---
 include/nuSQuIDS/tools.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index d6b2d7e..d52e851 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -360,11 +360,9 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
 
 template<typename T, unsigned int Rank, typename Alloc>
 void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>& data){
-    hid_t array_id=H5Dopen2(container, name.c_str(), H5P_DEFAULT);
-    if(array_id<0)
-        throw std::runtime_error("Failed to open dataset '"+name+"'");
+    H5Handle array_id(H5Dopen2(container, name.c_str(), H5P_DEFAULT), H5Dclose, ("open dataset '"+name+"'").c_str());
     hid_t dType=h5Datatype<T>::type();
-    hid_t dSpace = H5Dget_space(array_id);
+    H5Handle dSpace(H5Dget_space(array_id), H5Sclose, "get dataspace");
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
     if(raw_dim!=Rank)
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
@@ -372,10 +370,8 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
                                  +std::to_string(Rank));
     std::array<hsize_t,Rank> extents;
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
-    H5Sclose(dSpace);
     data.resize(extents);
     herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
-    H5Dclose(array_id);
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
 }
-- 
2.43.0


From 983d47ea824f15b94c3dc924f821197ffaa9a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 19/69] fix: writeArrayH5 can compress arrays with a zero
 extent

---
 include/nuSQuIDS/tools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index d52e851..05ada59 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -334,6 +334,8 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
                 unsigned int dimi=targetChunkSize/size;
                 if(dimi>extents[i-1] || dimi==0)
                     dimi=extents[i-1];
+                if(dimi==0) //chunk dimensions must be positive even if the data is empty
+                    dimi=1;
                 chunkDims[i-1]=dimi;
                 size*=chunkDims[i-1];
             }
-- 
2.43.0


From 95a4d18d68b9b02484ecc4e37f837dfea00776d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 20/69] fix: addH5Attribute reports failure instead of silently
 writing nothing

---
 include/nuSQuIDS/tools.h | 10 +++++-----
 src/tools.cpp            | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 05ada59..05c9ec5 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -382,11 +382,11 @@ template<typename T>
 void addH5Attribute(hid_t object, std::string name, const T& contents){
     hid_t dtype=h5Datatype<T>::type();
     hsize_t dim=1;
-    hid_t dataspace_id=H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id=H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id,dtype,&contents);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                          H5Aclose, ("create attribute '"+name+"'").c_str());
+    if(H5Awrite(attribute_id,dtype,&contents)<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
diff --git a/src/tools.cpp b/src/tools.cpp
index b23becd..881f46e 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -809,11 +809,11 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
     hid_t strtype = H5Tcopy(H5T_C_S1);
     H5Tset_size(strtype, contents.size());
     hsize_t dim=1;
-    hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id, strtype, &contents[0]);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                          H5Aclose, ("create attribute '"+name+"'").c_str());
+    if(H5Awrite(attribute_id, strtype, &contents[0])<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
-- 
2.43.0


From 6131c2b75c867f37cc5c7ef3c0db50855b2d4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 21/69] fix: string attributes release their datatype

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 881f46e..4df23b5 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -806,7 +806,7 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
     
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
-    hid_t strtype = H5Tcopy(H5T_C_S1);
+    H5Handle strtype(H5Tcopy(H5T_C_S1), H5Tclose, "create string type");
     H5Tset_size(strtype, contents.size());
     hsize_t dim=1;
     H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
-- 
2.43.0


From 88413389326bad1031a7964e9cedd2171b0a0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 22/69] fix: empty string attributes read back as empty

---
 src/tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 4df23b5..de601f0 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -807,7 +807,8 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
     H5Handle strtype(H5Tcopy(H5T_C_S1), H5Tclose, "create string type");
-    H5Tset_size(strtype, contents.size());
+    //HDF5 strings cannot have zero length, so an empty one is stored as a single terminator
+    H5Tset_size(strtype, contents.empty() ? 1 : contents.size());
     hsize_t dim=1;
     H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
     H5Handle attribute_id(H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
@@ -835,6 +836,8 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
         H5Tclose(actualType);
         throw std::runtime_error("Failed to read attribute '"+name+"'");
     }
+    if(size==1 && dest[0]=='\0')
+        dest.clear();
     
     H5Aclose(attribute_id);
     H5Tclose(actualType);
-- 
2.43.0


From c20ae5faef6fb54ce0f83236d96dc802f9e08db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 23/69] fix: tau decay tables check the neutrino type index

---
 src/taudecay.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index 9c23041..c946f7c 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -160,25 +160,25 @@ void TauDecaySpectra::Init(marray<double,1> E_range){
 // tau decay spectra returned in units of [GeV^-1]
 
 double TauDecaySpectra::dNdEnu_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_All_tbl.extent(0) or i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_All in valid index choices");
   return dNdEnu_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEnu_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_Lep_tbl.extent(0) or i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_Lep in valid index choices");
   return dNdEnu_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
+  if(neutrino_type >= dNdEle_All_tbl.extent(0) or i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_All in valid index choices");
   return dNdEle_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEle_Lep_tbl.extent(0) or i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_Lepin valid index choices");
   return dNdEle_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
-- 
2.43.0


From ad4bd8c18bf89f859afbc46b657e60a772eba08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 24/69] fix: refuse body model files that lack the columns read
 from them

---
 src/body.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..02d54dd 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -116,6 +116,13 @@ unsigned int readUIntAttribute(hid_t object, std::string name){
   return target;
 }
 
+// refuse model files without any rows or without all of the columns which will be read from them
+void checkModelTable(const marray<double,2>& model, size_t columns, const std::string& path){
+  if(model.extent(0)==0 || model.extent(1)<columns)
+    throw std::runtime_error("nuSQUIDS::Error::Body model file '"+path+"' must have at least "+
+                             std::to_string(columns)+" columns.");
+}
+
 } // close unnamed namespace
 
 
@@ -308,6 +315,7 @@ Earth::Earth(std::string filepath):Body()
   radius = 6371.0; // [km]
 
   marray<double,2> earth_model = quickread(filepath);
+  checkModelTable(earth_model,3,filepath);
   arraysize = earth_model.extent(0);
 
   earth_radius.resize(arraysize);
@@ -454,6 +462,7 @@ Sun::Sun(std::string sunlocation):Body()
 
   // import sun model
   sun_model = quickread(sunlocation);
+  checkModelTable(sun_model,7,sunlocation);
   arraysize = sun_model.extent(0);
 
   sun_radius.resize(arraysize);
@@ -559,6 +568,7 @@ SunASnu::SunASnu(std::string sunlocation):Body()
   radius = 694439.0*param.km;
 
   sun_model = quickread(sunlocation);
+  checkModelTable(sun_model,7,sunlocation);
   arraysize = sun_model.extent(0);
 
   sun_radius.resize(arraysize);
@@ -852,6 +862,7 @@ EarthAtm::EarthAtm(std::string filepath):Body()
   earth_with_atm_radius = radius + atm_height;
 
   marray<double,2> earth_model = quickread(filepath);
+  checkModelTable(earth_model,3,filepath);
   arraysize = earth_model.extent(0);
 
   earth_radius.resize(arraysize);
-- 
2.43.0


From aee5275a7193d3e0e738e5001734ddbce748b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 25/69] fix: give SunASnu bodies built from vectors (or
 restored) the radius their tracks assume

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 02d54dd..5567521 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -589,7 +589,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From 91b68dd3eb507daf8d2a92d5afb5758142722cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 26/69] fix: do not extrapolate the EarthAtm tables exactly at
 the surface

---
 src/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 5567521..8c3bf2c 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -819,7 +819,7 @@ double EarthAtm::density(const GenericTrack& track_input) const
   if ( rel_r < x_radius_min ){
     return x_rho_min;
   }
-  else if ( rel_r > x_radius_max and r < radius) {
+  else if ( rel_r > x_radius_max and r <= radius) {
     return x_rho_max;
   }
   else if ( r > radius) {
@@ -845,7 +845,7 @@ double EarthAtm::ye(const GenericTrack& track_input) const
   if ( rel_r < x_radius_min ){
     return x_ye_min;
   }
-  else if ( rel_r > x_radius_max and r < radius) {
+  else if ( rel_r > x_radius_max and r <= radius) {
     return x_ye_max;
   }
   else if ( r > radius ){
-- 
2.43.0


From 035179dcdd5da0a88fe10ca96b5f33ba09b65fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 27/69] fix: SunASnu density and composition were NaN where
 rounding made the squared radius negative

---
 src/body.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 8c3bf2c..de85b2c 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -666,7 +666,8 @@ double SunASnu::density(const GenericTrack& track_input) const
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
 
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r2 = SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b));
+  double r = (r2>0 ? sqrt(r2) : 0)/radius;
 
   return rdensity(r);
 }
@@ -676,7 +677,8 @@ double SunASnu::ye(const GenericTrack& track_input) const
   const SunASnu::Track& track_sunasnu = static_cast<const SunASnu::Track&>(track_input);
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r2 = SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b));
+  double r = (r2>0 ? sqrt(r2) : 0)/radius;
   return 0.5*(1.0+rxh(r));
 }
 
-- 
2.43.0


From 8aad72fd1603b97dbf2583d2ef3f16cf11783002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 28/69] fix: close the string type when a body or track is
 serialized

---
 src/body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/body.cpp b/src/body.cpp
index de85b2c..2fd668f 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -58,6 +58,7 @@ void addStringAttribute(hid_t object, std::string name, std::string contents){
   hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
   H5Awrite(attribute_id, strtype, &contents[0]);
   H5Aclose(attribute_id);
+  H5Tclose(strtype);
   H5Sclose(dataspace_id);
 }
 
-- 
2.43.0


From 6d9dc04a7eedfec41d8586b41f178db3f031544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 29/69] fix: restore the impact parameter of a SunASnu track

---
 src/body.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 2fd668f..7de99f1 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -608,13 +608,22 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  // the impact parameter was originally not serialized, but can be derived from the path length
+  double b_impact_;
+  if(H5Aexists(group,"b_impact")>0)
+    b_impact_=readDoubleAttribute(group,"b_impact");
+  else
+    b_impact_=sqrt(SQR(694439.0*param.km)-SQR(0.5*xend_));
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_; // the track may have been reversed
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From efd083768e4a0c60b483f061c3ecbcc058a9fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 30/69] fix: EarthAtm tracks made from a cosine report the
 radius and height they were made with

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 7de99f1..d2b9ebb 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -793,6 +793,8 @@ EarthAtm::Track
 EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmheight_){
   Track track;
 
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   track.cosphi = cosphi;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
-- 
2.43.0


From 7662fe52544cd5d6a5271edad2be7ff2186a86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 31/69] fix: restore the direction of a saved EarthAtm track

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index d2b9ebb..68c927a 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -739,8 +739,10 @@ void EarthAtm::Track::Serialize(hid_t group) const {
 }
 
 std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
-  double x, cosphi;
+  double x, xini, xend, cosphi;
   readH5Attribute(group,"x", x);
+  readH5Attribute(group,"xini",xini);
+  readH5Attribute(group,"xend",xend);
   readH5Attribute(group,"cosphi",cosphi);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
@@ -752,6 +754,8 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  track->xini = xini; // the track may have been reversed
+  track->xend = xend;
   return track;
 }
 
-- 
2.43.0


From eb58ec694c4c1dc1f27f978d1490927bff41e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 32/69] fix: save whether a body has been declared to have
 constant density

---
 src/body.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 68c927a..a5f62d9 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -117,6 +117,12 @@ unsigned int readUIntAttribute(hid_t object, std::string name){
   return target;
 }
 
+// whether a body has been declared to have constant density; absent from older files
+void readConstancy(hid_t group, Body& body){
+  if(H5Aexists(group,"is_constant_density")>0)
+    body.SetIsConstantDensity(readUIntAttribute(group,"is_constant_density"));
+}
+
 // refuse model files without any rows or without all of the columns which will be read from them
 void checkModelTable(const marray<double,2>& model, size_t columns, const std::string& path){
   if(model.extent(0)==0 || model.extent(1)<columns)
@@ -248,6 +254,7 @@ inter_density(x_arr,density_arr),inter_ye(x_arr,ye_arr)
 void VariableDensity::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
   std::vector<hsize_t> dims {arraysize};
   H5LTmake_dataset_double(group, "x_arr", 1, dims.data(), x_arr.data());
   H5LTmake_dataset_double(group, "density_arr", 1, dims.data(), density_arr.data());
@@ -260,7 +267,9 @@ std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   H5LTread_dataset_double(group,"x_arr",x_vec.data());
   H5LTread_dataset_double(group,"density_arr",rho_vec.data());
   H5LTread_dataset_double(group,"ye_arr",ye_vec.data());
-  return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  auto body=std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  readConstancy(group,*body);
+  return body;
 }
 
 // track constructor
@@ -361,6 +370,7 @@ inter_density(earth_radius,earth_density),inter_ye(earth_radius,earth_ye)
 void Earth::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
   std::vector<hsize_t> dims {arraysize};
   H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
   H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
@@ -373,7 +383,9 @@ std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   H5LTread_dataset_double(group,"earth_radius",x_vec.data());
   H5LTread_dataset_double(group,"earth_density",rho_vec.data());
   H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
-  return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  auto body=std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  readConstancy(group,*body);
+  return body;
 }
 
 double Earth::density(const GenericTrack& track_input) const
@@ -491,6 +503,7 @@ inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 void Sun::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
   std::vector<hsize_t> dims {arraysize};
   H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
   H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
@@ -502,7 +515,9 @@ std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   H5LTread_dataset_double(group,"sun_radius",x_vec.data());
   H5LTread_dataset_double(group,"sun_density",rho_vec.data());
   H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
-  return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  auto body=std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  readConstancy(group,*body);
+  return body;
 }
 
 double Sun::rdensity(double x) const{
@@ -629,6 +644,7 @@ std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
 void SunASnu::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
   std::vector<hsize_t> dims {arraysize};
   H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
   H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
@@ -641,7 +657,9 @@ std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   H5LTread_dataset_double(group,"sun_radius",x_vec.data());
   H5LTread_dataset_double(group,"sun_density",rho_vec.data());
   H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
-  return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  auto body=std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  readConstancy(group,*body);
+  return body;
 }
 
 void SunASnu::Track::FillDerivedParams(std::vector<double>& TrackParams) const{
@@ -762,6 +780,7 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
 void EarthAtm::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
   std::vector<hsize_t> dims {arraysize};
   H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
   H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
@@ -787,6 +806,7 @@ std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   auto earthAtm = std::make_shared<EarthAtm>(x_vec,rho_vec,ye_vec);
   earthAtm->radius = radius;
   earthAtm->SetAtmosphereHeight(atm_height);
+  readConstancy(group,*earthAtm);
   return earthAtm;
 }
 
-- 
2.43.0


From 67b3364460408a4e7c395854041a7ef7372d8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 33/69] fix: average cross sections up to the last tabulated
 energy without stepping past it

---
 src/xsections.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..4b130e4 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -57,7 +57,8 @@ namespace{
 			if(a1<a2) std::swap(a1,a2);
 			return((a2 && tol>(a1/a2)-1) || (a1==a2));
 		};
-		auto x=[&](unsigned int i){ return midpoint+abcissas[i]*halfWidth; };
+		//the end points must be exact, as the integrand may not be defined even slightly outside the interval
+		auto x=[&](unsigned int i){ return i==0 ? a : i==4 ? b : midpoint+abcissas[i]*halfWidth; };
 		double y[5]; //array of integrand evaluations
 		y[0]=integrand(x(0));
 		y[4]=integrand(x(4));
-- 
2.43.0


From 621dd8ee3834d3f31f1f801a00ad51c7c8e76d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 34/69] fix: averages over an empty energy range are the value
 there instead of NaN

---
 src/xsections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 4b130e4..4e41e28 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -95,6 +95,8 @@ namespace{
 namespace nusquids{
 
 double NeutrinoCrossSections::AverageTotalCrossSection(double EMin, double EMax, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
+	if(EMin==EMax)
+		return this->TotalCrossSection(EMin,flavor,neutype,current);
 	auto integrand=[=](double e_in)->double{
 		return this->TotalCrossSection(e_in,flavor,neutype,current);
 	};
@@ -102,6 +104,8 @@ double NeutrinoCrossSections::AverageTotalCrossSection(double EMin, double EMax,
 }
 	
 double NeutrinoCrossSections::AverageSingleDifferentialCrossSection(double E1, double E2Min, double E2Max, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
+	if(E2Min==E2Max)
+		return this->SingleDifferentialCrossSection(E1,E2Min,flavor,neutype,current);
 	auto integrand=[=](double e_out)->double{
 		return this->SingleDifferentialCrossSection(E1,e_out,flavor,neutype,current);
 	};
-- 
2.43.0


From 454c20bf55b6993d4241594e0c81ee3c4a483546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 35/69] fix: write distinct muon neutrino cross sections to
 HDF5

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 4e41e28..5be8fb6 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -573,7 +573,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From e34725480b304593ce4f424dde01338972dba458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 36/69] fix: read differential cross section tables with
 different numbers of energies and zs from HDF5

---
 include/nuSQuIDS/xsections.h | 4 ++--
 src/xsections.cpp            | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index 7bf58f6..babfa6d 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -492,9 +492,9 @@ public:
     /// whose values are the base-ten logarithms of the differential cross 
     /// section with respect to y, in square centimeters, for the indicated 
     /// current and impinging particle type. The dimensions of these datasets 
-    /// are energy and 'z', corresponding to the values in the energies and zs
+    /// are 'z' and energy, corresponding to the values in the zs and energies
     /// datasets. Since 'z' is not well-defined for the lowest incoming neutrino 
-    /// energy in the tables, E_in = E_min, the row corresponding to this energy 
+    /// energy in the tables, E_in = E_min, the column corresponding to this energy 
     /// should contain a small value (but not negative infinity), which will 
     /// never be used directly. -50, corresponding to a cross section of 1e-50 
     /// cm^2 can be a good choice in practice. 
diff --git a/src/xsections.cpp b/src/xsections.cpp
index 5be8fb6..5e3b523 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -403,10 +403,10 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+"'s first dimension does not have the same size as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+"'s second dimension does not have the same size as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From 62328a9e5311e13c3c9204182787e466535d0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 37/69] fix: write differential cross section tables to text
 untransposed

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 5e3b523..2a8242f 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -360,7 +360,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
 	};
 	NeutrinoFlavor flavor;
-- 
2.43.0


From c7230fd8cf9cd75a73988903455e17920bf0251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 38/69] fix: write cross section text tables with full
 precision

---
 src/xsections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 2a8242f..e014df5 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -344,6 +344,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		//this makes a copy, which is unfortunate, but not a disaster for the 1D data
 		auto ab=data.getAbscissas();
 		auto ord=data.getOrdinates();
@@ -354,6 +355,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		const auto& x=data.getXCoords();
 		const auto& y=data.getYCoords();
 		const auto& z=data.getData();
@@ -819,6 +821,7 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeTotal=[](const std::string& path, const marray<double,3>& data,
                      const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie=0; ie<logEnergies.size(); ie++){
       out << exp(logEnergies[ie]) << ' ';
       for(size_t fl : {0,1,2}){
@@ -834,6 +837,7 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeDifferential=[](const std::string& path, const marray<double,4>& data,
                             const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie1=0; ie1<logEnergies.size(); ie1++){
       double e1=exp(logEnergies[ie1]);
       for(size_t ie2=0; ie2<logEnergies.size(); ie2++){
-- 
2.43.0


From 2e75d8ce22dad64c3ad538fbb1c54b729be6bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 39/69] fix: look up V1 cross sections at the last tabulated
 energy inside their tables

---
 src/xsections.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index e014df5..42e4624 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -633,8 +633,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  if(idx>=div-1) //the last tabulated energy belongs to the last interval
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
@@ -663,6 +663,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
 
   if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
     return 0.0;
+  if(loge_M2==div-1) //possible only by rounding, as E2<E1
+    loge_M2--;
 
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
   double phiMM,phiMP,phiPM,phiPP;
-- 
2.43.0


From ff08c049164798ba2c007a713ba1d734468eddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 40/69] fix: refuse V1 cross section tables with inconsistent
 dimensions

---
 src/xsections.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 42e4624..e86ffd8 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -727,7 +727,11 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           // check table shapes and get the number of energy nodes
           unsigned int data_e_size = 0;
           if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
+              sigma_CC_raw_data.extent(0) >= 2 and
+              sigma_CC_raw_data.extent(1) == 7 and sigma_NC_raw_data.extent(1) == 7 and
+              dsde_CC_raw_data.extent(0) == sigma_CC_raw_data.extent(0)*sigma_CC_raw_data.extent(0) and
+              dsde_NC_raw_data.extent(0) == dsde_CC_raw_data.extent(0) and
+              dsde_CC_raw_data.extent(1) == 8 and dsde_NC_raw_data.extent(1) == 8 )
             data_e_size = sigma_CC_raw_data.extent(0);
           else
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
@@ -781,14 +785,18 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
       readArrayH5(h5file, "dsDE_CC", dsde_CC_data);
       readArrayH5(h5file, "dsDE_NC", dsde_NC_data);
     }
-    //TODO: make sanity checking more user friendly
-    assert(dsde_CC_data.extent(2)==dsde_CC_data.extent(3));
-    assert(dsde_NC_data.extent(2)==dsde_NC_data.extent(3));
-    assert(dsde_CC_data.extent(2)==dsde_NC_data.extent(2));
-    assert(dsde_CC_data.extent(0)==2);
-    assert(dsde_NC_data.extent(0)==2);
-    assert(dsde_CC_data.extent(1)==3);
-    assert(dsde_NC_data.extent(1)==3);
+    //all tables must be for both particle types, three flavors and the same energies
+    const size_t nE=dsde_CC_data.extent(2);
+    for(const auto* table : {&s_CC_data,&s_NC_data}){
+      if(table->extent(0)!=2 || table->extent(1)!=3 || table->extent(2)!=nE)
+        throw std::runtime_error("nuSQUIDS::xsections: total cross section table in "+path+" has the wrong dimensions.");
+    }
+    for(const auto* table : {&dsde_CC_data,&dsde_NC_data}){
+      if(table->extent(0)!=2 || table->extent(1)!=3 || table->extent(2)!=nE || table->extent(3)!=nE)
+        throw std::runtime_error("nuSQUIDS::xsections: differential cross section table in "+path+" has the wrong dimensions.");
+    }
+    if(nE<2)
+      throw std::runtime_error("nuSQUIDS::xsections: tables in "+path+" have fewer than two energies.");
     
     div=dsde_CC_data.extent(2);
     unsigned int data_e_size=div;
-- 
2.43.0


From 74c1d1c057fae87349fe5cf284d9477ae91260aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 41/69] fix: V1 cross sections report text files that cannot be
 written

---
 src/xsections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index e86ffd8..224453a 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -831,6 +831,8 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeTotal=[](const std::string& path, const marray<double,3>& data,
                      const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    if(!out)
+      throw std::runtime_error("Unable to open "+path+" for writing");
     out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie=0; ie<logEnergies.size(); ie++){
       out << exp(logEnergies[ie]) << ' ';
@@ -847,6 +849,8 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeDifferential=[](const std::string& path, const marray<double,4>& data,
                             const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    if(!out)
+      throw std::runtime_error("Unable to open "+path+" for writing");
     out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie1=0; ie1<logEnergies.size(); ie1++){
       double e1=exp(logEnergies[ie1]);
-- 
2.43.0


From 59d747077b35a89bdaeea46aaefc00772a323d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 42/69] fix: do not write tables to text whose z values the
 text format would change

---
 src/xsections.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 224453a..fab8287 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -340,6 +340,17 @@ void NeutrinoDISCrossSectionsFromTables::ReadText(const std::string& prefix){
 }
 
 void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) const{
+	//the text format can only represent z values which are spaced uniformly on [0,1]
+	for(NeutrinoFlavor flavor : {electron,muon,tau}){
+		const auto& data=getFlavor(flavor);
+		for(const auto* table : {&data.dsdy_CC_nu,&data.dsdy_NC_nu,&data.dsdy_CC_nubar,&data.dsdy_NC_nubar}){
+			const auto& zs=table->getYCoords();
+			for(std::size_t j=0, n=zs.extent(0); j!=n; j++){
+				if(std::abs(zs[j]-j/double(n-1))>1e-6)
+					throw std::runtime_error("Cross section tables which are not uniform in z cannot be written as text");
+			}
+		}
+	}
 	auto write1D=[this](const AkimaSpline& data, const std::string& path){
 		std::ofstream outfile(path);
 		if(!outfile)
-- 
2.43.0


From 7ef518552e9aa1f5234ab8c89271722ccce5a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 43/69] fix: do not write tables to HDF5 whose energies or zs
 differ from the ones stored

---
 src/xsections.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index fab8287..efc3642 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -557,6 +557,25 @@ void NeutrinoDISCrossSectionsFromTables::writeFlavorHDF5(hid_t destLoc, const pe
 }
 
 void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsigned int compressionLevel) const{
+	//the HDF5 format has one set of energies and one set of zs for all tables
+	{
+		auto same=[](const marray<double,1>& a, const marray<double,1>& b)->bool{
+			return a.extent(0)==b.extent(0) && std::equal(a.begin(),a.end(),b.begin());
+		};
+		const auto& energies=getFlavor(electron).dsdy_CC_nu.getXCoords();
+		const auto& zs=getFlavor(electron).dsdy_CC_nu.getYCoords();
+		for(NeutrinoFlavor flavor : {electron,muon,tau}){
+			const auto& data=getFlavor(flavor);
+			for(const auto* table : {&data.s_CC_nu,&data.s_NC_nu,&data.s_CC_nubar,&data.s_NC_nubar}){
+				if(!same(table->getAbscissas(),energies))
+					throw std::runtime_error("Cross section tables for different energies cannot be written to one HDF5 file");
+			}
+			for(const auto* table : {&data.dsdy_CC_nu,&data.dsdy_NC_nu,&data.dsdy_CC_nubar,&data.dsdy_NC_nubar}){
+				if(!same(table->getXCoords(),energies) || !same(table->getYCoords(),zs))
+					throw std::runtime_error("Cross section tables for different energies or zs cannot be written to one HDF5 file");
+			}
+		}
+	}
 	H5File h5file(H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
 	
 	{
-- 
2.43.0


From 0aabebcf917b4bfacb3948cbd08e4eeb569670b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 44/69] fix: refuse cross section text tables whose
 charged-current energies differ between flavours

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index efc3642..ee8b662 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -284,6 +284,8 @@ NeutrinoDISCrossSectionsFromTables::readFlavorText(const std::string& prefix,
 		Emax=eMaxTmp;
 		erangeSrc=prefix+"nu_sigma_CC.dat";
 	}
+	else if(eMinTmp!=Emin || eMaxTmp!=Emax)
+		throw std::runtime_error(prefix+"nu_sigma_CC.dat has different energy domain than "+erangeSrc);
 	std::tie(data->s_NC_nu,eMinTmp,eMaxTmp)=read1DInterpolationFromText(prefix+"nu_sigma_NC.dat");
 	if(eMinTmp!=Emin || eMaxTmp!=Emax)
 		throw std::runtime_error(prefix+"nu_sigma_NC.dat has different energy domain than "+erangeSrc);
-- 
2.43.0


From f0e4b52f96d8f7cbd34f6eebae30e492aabb81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 45/69] fix: matter without electrons has the neutral-current
 potential of neutrons, with its sign and factor

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 948f037..473874b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -336,7 +336,7 @@ squids::SU_vector nuSQUIDS::HI(unsigned int ie, unsigned int irho) const{
     double NC;
 
     if (current_ye < 1.0e-10)
-      NC = HI_constants*current_density;
+      NC = -0.5*HI_constants*current_density;
     else
       NC = CC*(-0.5*(1.0-current_ye)/current_ye);
     // antineutrino matter potential flips sign
-- 
2.43.0


From 9da1b23cdbb5c06074ae14a12f5252d221933f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 46/69] fix: refuse mixing parameters of a flavor index equal
 to the number of flavors

---
 include/nuSQuIDS/nuSQuIDS.h |  2 +-
 src/nuSQuIDS.cpp            | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e39927..0eacd19 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -86,7 +86,7 @@ protected:
   /// is performed.
     Basis basis = interaction;
     /// \brief number of neutrino flavors.
-    unsigned int numneu;
+    unsigned int numneu = 0;
     /// \brief number of energy nodes.
     unsigned int ne = nx;
 
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 473874b..52d36af 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2842,40 +2842,40 @@ std::shared_ptr<Body> nuSQUIDS::GetBody(){
 }
 
 void nuSQUIDS::Set_MixingAngle( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   params.SetMixingAngle(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_MixingAngle( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   return params.GetMixingAngle(i,j);
 }
 
 void nuSQUIDS::Set_CPPhase( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   params.SetPhase(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_CPPhase( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   return params.GetPhase(i,j);
 }
 
 void nuSQUIDS::Set_SquareMassDifference( unsigned int i, double val){
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   params.SetEnergyDifference(i,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_SquareMassDifference( unsigned int i ) const {
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   return params.GetEnergyDifference(i);
 }
-- 
2.43.0


From 93d9e96a8f05095bc81b974b4f06f2221a442a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 47/69] fix: set the direction of the integrator step from the
 track instead of flipping it at each reversed evolution

---
 src/nuSQuIDS.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 52d36af..0fcc108 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1250,11 +1250,9 @@ void nuSQUIDS::EvolveState(){
   if( !ioscillations && iinteraction)
     SetUpInteractionCache();
 
-  // is track time reversed
-  if(track->GetFinalX() < track->GetInitialX()){
-    // flip the arrow of time
-    Set_h((-1.0)*Get_h());
-  }
+  // the initial step must point along the track, whatever the previous evolution left
+  bool reversed = track->GetFinalX() < track->GetInitialX();
+  Set_h(reversed ? -std::abs(Get_h()) : std::abs(Get_h()));
 
   if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
-- 
2.43.0


From c515b0d7a27cef97c5b2e9032c852f771bc2306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 48/69] fix: with the positivity constraint, evolve over the
 length of the track, in its direction, also in single energy mode

---
 src/nuSQuIDS.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 0fcc108..03b271e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -95,6 +95,7 @@ void nuSQUIDS::init(double xini){
   ini(ne,numneu,1,0,xini);
   Set_CoherentRhoTerms(true);
   Set_h(1.*params.km);
+  positivization_scale = 300.0*params.km;
   Set_h_max(std::numeric_limits<double>::max() );
 
   //===============================
@@ -1227,6 +1228,8 @@ void nuSQUIDS::Set_PositivityConstrain(bool opt){
 }
 
 void nuSQUIDS::Set_PositivityConstrainStep(double step){
+  if( !(step > 0) )
+    throw std::runtime_error("nuSQUIDS::Error::The positivity constrain step must be positive.");
   positivization_scale = step;
 }
 
@@ -1288,13 +1291,18 @@ void nuSQUIDS::EvolveState(){
   }
 
   if(positivization){
-    int positivization_steps = static_cast<int>((track->GetFinalX() - track->GetInitialX())/positivization_scale);
+    const double distance = track->GetFinalX() - track->GetInitialX();
+    const double step = reversed ? -positivization_scale : positivization_scale;
+    int positivization_steps = static_cast<int>(distance/step);
     for (int i = 0; i < positivization_steps; i++){
-      Evolve(positivization_scale);
+      Evolve(step);
+      PositivizeFlavors();
+    }
+    const double remainder = distance - step*positivization_steps;
+    if (reversed ? remainder < 0 : remainder > 0){
+      Evolve(remainder);
       PositivizeFlavors();
     }
-    Evolve(track->GetFinalX()-positivization_scale*positivization_steps);
-    PositivizeFlavors();
   } else {
     Evolve(track->GetFinalX()-track->GetInitialX());
   }
-- 
2.43.0


From 6c4f28fb18904263c1cc772b582f2a630cd071ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 49/69] fix: uniform-density evolution keeps the evolved state
 and does not disable later evolutions

---
 src/nuSQuIDS.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 03b271e..81933a8 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1257,13 +1257,25 @@ void nuSQUIDS::EvolveState(){
   bool reversed = track->GetFinalX() < track->GetInitialX();
   Set_h(reversed ? -std::abs(Get_h()) : std::abs(Get_h()));
 
-  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
+  if ( (body->IsConstantDensity() and not iinteraction and not enable_neutrino_sources) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
     use_full_hamiltonian_for_projector_evolution = true;
     // turn off squids numerics
     Set_AnyNumerics(false);
-    // disable interaction basis and go to mass basis
+    // disable interaction basis and go to mass basis,
+    // taking the state and the projectors out of the interaction picture
+    if ( basis != mass ){
+      const double elapsed_time = Get_t() - Get_t_initial();
+      for(unsigned int rho = 0; rho < nrhos; rho++){
+        for(unsigned int ie = 0; ie < ne; ie++){
+          squids::SU_vector schroedinger_state = state[ie].rho[rho].Evolve(H0(E_range[ie],rho),-elapsed_time);
+          state[ie].rho[rho] = schroedinger_state;
+          for(unsigned int flv = 0; flv < numneu; flv++)
+            evol_b1_proj[rho][flv][ie] = b1_proj[rho][flv];
+        }
+      }
+    }
     Set_Basis(mass);
     double evolution_time = track->GetFinalX()-track->GetInitialX();
     // go go go
@@ -1290,6 +1302,8 @@ void nuSQUIDS::EvolveState(){
     return;
   }
 
+  // an earlier evolution in uniform density may have turned this off
+  Set_AnyNumerics(true);
   if(positivization){
     const double distance = track->GetFinalX() - track->GetInitialX();
     const double step = reversed ? -positivization_scale : positivization_scale;
-- 
2.43.0


From cbd863c14c72be3d1ed747d7b6b12884a6317d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 50/69] fix: save and restore the basis of the state, so that
 one evolved in the mass basis is read back correctly

---
 src/nuSQuIDS.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 81933a8..7afaeaf 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1772,6 +1772,8 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1);
   auxint = static_cast<int>(iglashow);
   H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1);
+  auxint = static_cast<int>(basis);
+  H5LTset_attribute_int(group, "basic", "solution_basis", &auxint, 1);
   double auxt = Get_t();
   H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1);
   double auxt_ini = Get_t_initial();
@@ -2132,6 +2134,9 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if(err>=0) tauregeneration=auxint;
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
+  // files which do not say were written from the default basis
+  err=H5LTget_attribute_int(group, "basic", "solution_basis", &auxint);
+  basis = err>=0 ? static_cast<Basis>(auxint) : interaction;
 
   double squids_time;
   H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
@@ -2245,7 +2250,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if( basis != mass )
+    EvolveProjectors(squids_time);
 
   // reading state
   H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
@@ -2340,6 +2346,9 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if(err>=0) tauregeneration=auxint;
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
+  // files which do not say were written from the default basis
+  err=H5LTget_attribute_int(group, "basic", "solution_basis", &auxint);
+  basis = err>=0 ? static_cast<Basis>(auxint) : interaction;
 
   double squids_time;
   H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
@@ -2453,7 +2462,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if( basis != mass )
+    EvolveProjectors(squids_time);
 
   // reading state
   H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
-- 
2.43.0


From 9e52956fe41db58d8653a2189dfe6cd5f822ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 51/69] fix: reading a state resets the object to the size and
 times of the file, also with a single energy

---
 src/nuSQuIDS.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 7afaeaf..d81e5b1 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2202,14 +2202,18 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  // whatever this object was before, it takes the size and the times of the file
+  interactions_initialized = false;
+  interaction_cache_store.reset();
+  if (ne == 1 && NT != both && not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
     init(E_range,squids_time_initial);
   }
+  if(enable_neutrino_sources)
+    Set_NeutrinoSources(true);
 
 
   // read and set mixing parameters
@@ -2415,14 +2419,18 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  // whatever this object was before, it takes the size and the times of the file
+  interactions_initialized = false;
+  interaction_cache_store.reset();
+  if (ne == 1 && NT != both && not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
     init(E_range,squids_time_initial);
   }
+  if(enable_neutrino_sources)
+    Set_NeutrinoSources(true);
 
   // read and set mixing parameters
   for( unsigned int i = 0; i < numneu; i++ ){
-- 
2.43.0


From fe4654591a53edcd91404480fc3fcdf39debb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 52/69] fix: the buffer of neutral-current contributions has
 the alignment which the compiler is promised, also after reading a state

---
 include/nuSQuIDS/nuSQuIDS.h | 2 +-
 src/nuSQuIDS.cpp            | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 0eacd19..f5ec6ae 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -433,7 +433,7 @@ protected:
     ///Total size of interaction_cache_store
     size_t interaction_cache_store_size;
   
-    marray<double,3> nc_factors;
+    marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
     marray<double,2> tau_hadlep_decays;
     marray<double,2> tau_lep_decays;
     marray<double,1> gr_factors;
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index d81e5b1..82d8588 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2725,13 +2725,14 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       }
     }
 
-    nc_factors.resize(std::vector<size_t>{nrhos,3,ne});
+    size_t rounded_ne=round_up_to_aligned(ne);
+    nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
     if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,ne});
+      tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+      tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
     }
     if(iglashow)
-      gr_factors.resize(std::vector<size_t>{ne});
+      gr_factors.resize(std::vector<size_t>{rounded_ne});
 
     interactions_initialized = true;
   }
-- 
2.43.0


From 61f15b28008e2ddd09b88cdb7d4bdd0826df0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 53/69] fix: decide whether differential cross sections have
 padding from an array of that rank

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 82d8588..0bda3a2 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1964,7 +1964,7 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       H5Handle dsetDSigmaGR(H5Dcreate2(xs_group,"dNdEgr",H5T_NATIVE_DOUBLE,dspaceDSigmaGR,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), H5Dclose, "create HDF5 dataset");
       
       //check the last dimension of the cross section arrays for padding
-      if(int_struct->dNdE_GR.extent(4)==ne){
+      if(int_struct->dNdE_CC.extent(4)==ne){
         //no padding, which makes writing easy; dataspaces are the same shape
         //write dNdE CC
         herr_t err=H5Dwrite(dsetDSigmaCC, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &*int_struct->dNdE_CC.begin());
-- 
2.43.0


From a818925a392f1152c8d1cb8d5427f26ece02e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 54/69] fix: without oscillations, add the flux of neutrino
 sources once for neutrinos and once for antineutrinos

---
 src/nuSQuIDS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 0bda3a2..4c35039 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -840,6 +840,7 @@ void nuSQUIDS::UpdateInteractions(){
                                     <squids::detail::EqualSizes | squids::detail::AlignedStorage>
                                     (factors_nu_tau[e1]*projector_tau);
       }
+    }
 
     if(enable_neutrino_sources){
       for(unsigned int rho = 0; rho < nrhos; rho++){
@@ -853,8 +854,6 @@ void nuSQUIDS::UpdateInteractions(){
       }
     }
 
-    }
-
   } //end of no oscillation handling
   else{ //oscillations
     NUSQUIDS_DEBUG_LABEL(NC_contribution_osc);
-- 
2.43.0


From 4e0eb1d88f75e101c7a7270d0a51094e60bd2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 55/69] fix: tau regeneration, the Glashow resonance and other
 cross sections can be set after interactions were initialized

---
 include/nuSQuIDS/nuSQuIDS.h |  1 +
 src/nuSQuIDS.cpp            | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index f5ec6ae..9fe92ae 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1040,6 +1040,7 @@ protected:
     /// \brief Returns the neutrino interaction cross sections
     void SetNeutrinoCrossSections(std::shared_ptr<CrossSectionLibrary> xs) {
        ncs=xs;
+       int_struct.reset();
        interactions_initialized=false;
     }
 
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 4c35039..4119f75 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1145,10 +1145,11 @@ void nuSQUIDS::GetCrossSections(){
   }
 
     // construct dNdE for Glashow resonance
-    if(iglashow && (NT == both or NT == antineutrino)){
-      auto gr_cs = ncs->crossSectionForTarget(electron);
-      if(!gr_cs)
+    // it is tabulated whenever it is available, as it can be turned on at any time
+    if((iglashow or ncs->hasTarget(electron)) && (NT == both or NT == antineutrino)){
+      if(!ncs->hasTarget(electron))
         throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
+      auto gr_cs = ncs->crossSectionForTarget(electron);
       marray<double,2> dsignudE_GR{ne,ne};
       for(unsigned int e1 = 0; e1 < ne; e1++){
         if(e1>0)
@@ -2843,12 +2844,16 @@ void nuSQUIDS::Set_TauRegeneration(bool opt){
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus tau regeneration cannot be enabled.");
   if( numneu < 3 and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs at least three neutrino flavors must be included to enable tau regeneration.");
+  if( opt and not tauregeneration )
+    interactions_initialized = false; // the buffers it needs may not exist yet
   tauregeneration = opt;
 }
   
 void nuSQUIDS::Set_GlashowResonance(bool opt){
   if( not iinteraction and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus the Glashow resonance cannot be enabled.");
+  if( opt and not iglashow )
+    interactions_initialized = false; // the buffers it needs may not exist yet
   iglashow = opt;
 }
 
-- 
2.43.0


From 1327961442fc824de62828b0154138b79b9c02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 56/69] fix: copying, moving and comparing interaction
 structures includes their targets

---
 include/nuSQuIDS/nuSQuIDS.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 9fe92ae..a5a161c 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -208,6 +208,7 @@ protected:
         {}
         /// \brief Assignment operator
         InteractionStructure& operator=(const InteractionStructure& other){
+          targets=other.targets;
           dNdE_CC=other.dNdE_CC;
           dNdE_NC=other.dNdE_NC;
           dNdE_GR=other.dNdE_GR;
@@ -220,6 +221,7 @@ protected:
         }
         /// \brief Move assignment operator
         InteractionStructure& operator=(InteractionStructure&& other){
+          targets=std::move(other.targets);
           dNdE_CC=std::move(other.dNdE_CC);
           dNdE_NC=std::move(other.dNdE_NC);
           dNdE_GR=std::move(other.dNdE_GR);
@@ -233,6 +235,7 @@ protected:
         /// \brief Equality operator
         bool operator==(const InteractionStructure& other) const{
           if (
+               targets != other.targets or
                dNdE_CC.size() != other.dNdE_CC.size() or
                dNdE_NC.size() != other.dNdE_NC.size() or
                dNdE_GR.size() != other.dNdE_GR.size() or
@@ -278,6 +281,7 @@ protected:
         }
         /// \brief Copy constructor operator
         InteractionStructure(InteractionStructure& other):
+          targets(other.targets),
           dNdE_CC(other.dNdE_CC),dNdE_NC(other.dNdE_NC),dNdE_GR(other.dNdE_GR),
           sigma_CC(other.sigma_CC),sigma_NC(other.sigma_NC),sigma_GR(other.sigma_GR),
           dNdE_tau_all(other.dNdE_tau_all),
@@ -285,6 +289,7 @@ protected:
         {}
         /// \brief Move constructor operator
         InteractionStructure(InteractionStructure&& other):
+          targets(std::move(other.targets)),
           dNdE_CC(std::move(other.dNdE_CC)),dNdE_NC(std::move(other.dNdE_NC)),dNdE_GR(std::move(other.dNdE_GR)),
           sigma_CC(std::move(other.sigma_CC)),sigma_NC(std::move(other.sigma_NC)),sigma_GR(std::move(other.sigma_GR)),
           dNdE_tau_all(std::move(other.dNdE_tau_all)),
-- 
2.43.0


From 27dc69e457343f951c6bed88b02499d4c072c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 57/69] fix: turning on the Glashow resonance after
 interactions were initialized still needs its cross section

---
 src/nuSQuIDS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 4119f75..ac4d111 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1029,6 +1029,9 @@ void nuSQUIDS::InitializeInteractions(){
     }
   }
   
+  if(iglashow && NT != neutrino && ncs && !ncs->hasTarget(electron))
+    throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
+
   if(iinteraction){
     size_t rounded_ne=round_up_to_aligned(ne);
     nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
-- 
2.43.0


From 00cbad6613d39e10b2ac14201fac3882730f74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 58/69] fix: refuse evaluations with indices or energies out of
 range, and operations for which the track or the energies are missing

---
 include/nuSQuIDS/nuSQuIDS.h |  4 ++
 src/nuSQuIDS.cpp            | 98 ++++++++++++++++---------------------
 2 files changed, 45 insertions(+), 57 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index a5a161c..7443ba2 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -547,6 +547,10 @@ protected:
     /// @see InitializeInteractionVectors
     void GetCrossSections();
   private:
+    /// \brief Throws unless there is a state with this flavor (or mass) index and equation.
+    void CheckEvaluation(unsigned int flv, unsigned int rho) const;
+    /// \brief As above, and throws unless the energy is in the propagated range.
+    void CheckEvaluation(unsigned int flv, double EE, unsigned int rho) const;
 
     /// \brief Prints progress bar.
     /// \details To enable it call Set_ProgressBar()
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ac4d111..1e3346b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -970,6 +970,8 @@ void nuSQUIDS::UpdateInteractions(){
 void nuSQUIDS::InitializeInteractions(){
   if(interactions_initialized)
     return; //nothing to do
+  if(not ienergy)
+    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   //===============================
   // init XS and TDecay objects  //
   //===============================
@@ -1203,6 +1205,8 @@ void nuSQUIDS::Set_Body(std::shared_ptr<Body> body_in){
 }
 
 void nuSQUIDS::Set_Track(std::shared_ptr<Track> track_in){
+  if ( track_in == nullptr )
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is a NULL pointer");
   // setting time offset
   time_offset = Get_t() - track_in->GetInitialX();
   // enforce track beginningness
@@ -1474,40 +1478,42 @@ size_t nuSQUIDS::GetNumE() const{
   return ne;
 }
 
-double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
+void nuSQUIDS::CheckEvaluation(unsigned int flv, unsigned int rho) const{
+  if ( state == nullptr )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( basis == mass )
-    return b0_proj[flv]*GetIntermediateState(rho,EE);
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::rho has to be 0 or 1.");
+}
+
+void nuSQUIDS::CheckEvaluation(unsigned int flv, double EE, unsigned int rho) const{
+  CheckEvaluation(flv,rho);
+  if ( !(EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+}
+
+double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
+  CheckEvaluation(flv,EE,rho);
+  if ( basis == mass )
+    return b0_proj[flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b0_proj[flv], rho, EE);
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
-    throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
-                             +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  CheckEvaluation(flv,EE,rho);
   if ( basis == mass )
     return b1_proj[rho][flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b1_proj[rho][flv], rho, EE);
 }
 
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double scale, std::vector<bool>& avr) const{
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
-    throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
-                             +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  CheckEvaluation(flv,EE,rho);
   if (avr.size() != numneu)
     throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
   if ( basis == mass )
@@ -1516,13 +1522,7 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double scale, std::vector<bool>& avr) const{
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
-    throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
-                             +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  CheckEvaluation(flv,EE,rho);
   if (avr.size() != numneu)
     throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
   if ( basis == mass )
@@ -1531,36 +1531,29 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
 }
 
 double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  CheckEvaluation(flv,rho);
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energies.");
   if(basis == mass)
     return b0_proj[flv]*state[ei].rho[rho];
   return GetExpectationValue(b0_proj[flv], rho, ei);
 }
 
 double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  CheckEvaluation(flv,rho);
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energies.");
   if(basis == mass)
     return b1_proj[rho][flv]*state[ei].rho[rho];
   return GetExpectationValue(b1_proj[rho][flv], rho, ei);
 }
 
 double nuSQUIDS::EvalMass(unsigned int flv, double scale, std::vector<bool>& avr) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  CheckEvaluation(flv,0);
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
-  if( flv >= nsun )
-    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
 
   if(basis == mass)
     return b0_proj[flv]*state[0].rho[0];
@@ -1568,16 +1561,11 @@ double nuSQUIDS::EvalMass(unsigned int flv, double scale, std::vector<bool>& avr
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& avr) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  CheckEvaluation(flv,0);
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
-  if( flv >= nsun )
-    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
@@ -1587,16 +1575,11 @@ double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& a
 }
 
 double nuSQUIDS::EvalMass(unsigned int flv) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  CheckEvaluation(flv,0);
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
-  if( flv >= nsun )
-    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
 
   if(basis == mass)
     return b0_proj[flv]*state[0].rho[0];
@@ -1604,16 +1587,11 @@ double nuSQUIDS::EvalMass(unsigned int flv) const{
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
-  if ( not ienergy )
-    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  CheckEvaluation(flv,0);
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
-  if( flv >= nsun )
-    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
@@ -1704,6 +1682,12 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if ( body == nullptr )
+    throw std::runtime_error("nuSQUIDS::Error::BODY is a NULL pointer");
+  if ( track == nullptr )
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is a NULL pointer");
+  if ( ei >= ne or rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Index of the Hamiltonian out of range.");
   PreDerive(Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
-- 
2.43.0


From 475b96c3e1101d2eb0916fd63ab86b58d0423760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 59/69] fix: moving a nuSQUIDS transfers all of it and leaves
 the source uninitialized

---
 include/nuSQuIDS/nuSQuIDS.h | 14 ++++---
 src/nuSQuIDS.cpp            | 79 ++++++++++++++++++++++++++++++-------
 2 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 7443ba2..b7d1eef 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -387,7 +387,7 @@ protected:
     InteractionState int_state;
 
     /// \brief Length upon which the neutrino fluxes will be positivized.
-    double positivization_scale;
+    double positivization_scale = 0;
 
     /// \brief Body where the neutrino propagation takes place.
     std::shared_ptr<Body> body;
@@ -403,11 +403,11 @@ protected:
     marray<squids::SU_vector,1> H0_array;
   
     /// \brief Product of physical constants needed by HI.
-    double HI_constants;
+    double HI_constants = 0;
     /// \brief The density of the body at the current point on the track
-    double current_density;
+    double current_density = 0;
     /// \brief The electron fraction of the body at the current point on the track
-    double current_ye;
+    double current_ye = 0;
     /// \brief The external flux from the body at the current point on the track
     marray<double,3> current_external_flux;
 
@@ -436,7 +436,7 @@ protected:
     ///be ensured to be correctly aligned for best performance.
     std::unique_ptr<double[]> interaction_cache_store;
     ///Total size of interaction_cache_store
-    size_t interaction_cache_store_size;
+    size_t interaction_cache_store_size = 0;
   
     marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
     marray<double,2> tau_hadlep_decays;
@@ -493,7 +493,7 @@ protected:
     /// \brief Number of steps upon which the progress bar will be updated.
     int progressbar_loop = 100;
     /// \brief Time offset between SQuIDS time and Track(x).
-    double time_offset;
+    double time_offset = 0;
     /// \brief Force flavor projections to be positive.
     void PositivizeFlavors();
     /// \brief Set GSL differential cross section precision.
@@ -547,6 +547,8 @@ protected:
     /// @see InitializeInteractionVectors
     void GetCrossSections();
   private:
+    /// \brief Marks an object whose contents have been moved away as uninitialized.
+    void Disable();
     /// \brief Throws unless there is a state with this flavor (or mass) index and equation.
     void CheckEvaluation(unsigned int flv, unsigned int rho) const;
     /// \brief As above, and throws unless the energy is in the propagated range.
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 1e3346b..1c0834e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2944,38 +2944,58 @@ NT(other.NT),
 int_struct(std::move(other.int_struct)),
 int_state(std::move(other.int_state)),
 positivization_scale(other.positivization_scale),
-body(other.body),
-track(other.track),
-DM2(other.DM2),
+body(std::move(other.body)),
+track(std::move(other.track)),
+DM2(std::move(other.DM2)),
 H0_array(std::move(other.H0_array)),
 HI_constants(other.HI_constants),
 current_density(other.current_density),
 current_ye(other.current_ye),
+current_external_flux(std::move(other.current_external_flux)),
 b0_proj(std::move(other.b0_proj)),
 b1_proj(std::move(other.b1_proj)),
 evol_b0_proj(std::move(other.evol_b0_proj)),
 evol_b1_proj(std::move(other.evol_b1_proj)),
+interaction_cache(std::move(other.interaction_cache)),
+interaction_cache_store(std::move(other.interaction_cache_store)),
+interaction_cache_store_size(other.interaction_cache_store_size),
+nc_factors(std::move(other.nc_factors)),
+tau_hadlep_decays(std::move(other.tau_hadlep_decays)),
+tau_lep_decays(std::move(other.tau_lep_decays)),
+gr_factors(std::move(other.gr_factors)),
+use_full_hamiltonian_for_projector_evolution(other.use_full_hamiltonian_for_projector_evolution),
+debug(other.debug),
 inusquids(other.inusquids),
 ibody(other.ibody),
 ienergy(other.ienergy),
 itrack(other.itrack),
 istate(other.istate),
 iinteraction(other.iinteraction),
+interactions_initialized(other.interactions_initialized),
 ioscillations(other.ioscillations),
 tauregeneration(other.tauregeneration),
 iglashow(other.iglashow),
 positivization(other.positivization),
+allowConstantDensityOscillationOnlyEvolution(other.allowConstantDensityOscillationOnlyEvolution),
 progressbar(other.progressbar),
 progressbar_count(other.progressbar_count),
-progressbar_loop(other.progressbar_loop)
+progressbar_loop(other.progressbar_loop),
+time_offset(other.time_offset),
+gsl_int_precision(other.gsl_int_precision),
+evol_lowpass_cutoff(other.evol_lowpass_cutoff),
+evol_lowpass_scale(other.evol_lowpass_scale),
+enable_neutrino_sources(other.enable_neutrino_sources)
 {
-  other.inusquids=false; //other is no longer usable, since we stole its contents
+  other.Disable(); //other is no longer usable, since we stole its contents
 }
 
 nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   if(&other==this)
     return(*this);
 
+  // release what refers to our own storage before it is replaced
+  interaction_cache = marray<squids::SU_vector,2>();
+
   squids::SQuIDS::operator=(std::move(other));
 
   basis = other.basis;
@@ -2983,43 +3003,74 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   ne = other.ne;
   E_range = std::move(other.E_range);
   delE = std::move(other.delE);
-  ncs = other.ncs;
-  tdc = other.tdc;
+  ncs = std::move(other.ncs);
+  tdc = std::move(other.tdc);
+  NT = other.NT;
   int_struct = std::move(other.int_struct);
   int_state = std::move(other.int_state);
   positivization_scale = other.positivization_scale;
-  body = other.body;
-  track = other.track;
-  DM2 = other.DM2;
+  body = std::move(other.body);
+  track = std::move(other.track);
+  DM2 = std::move(other.DM2);
   H0_array = std::move(other.H0_array);
   HI_constants = other.HI_constants;
   current_density = other.current_density;
   current_ye = other.current_ye;
+  current_external_flux = std::move(other.current_external_flux);
   b0_proj = std::move(other.b0_proj);
   b1_proj = std::move(other.b1_proj);
   evol_b0_proj = std::move(other.evol_b0_proj);
   evol_b1_proj = std::move(other.evol_b1_proj);
-
+  interaction_cache = std::move(other.interaction_cache);
+  interaction_cache_store = std::move(other.interaction_cache_store);
+  interaction_cache_store_size = other.interaction_cache_store_size;
+  nc_factors = std::move(other.nc_factors);
+  tau_hadlep_decays = std::move(other.tau_hadlep_decays);
+  tau_lep_decays = std::move(other.tau_lep_decays);
+  gr_factors = std::move(other.gr_factors);
+  use_full_hamiltonian_for_projector_evolution = other.use_full_hamiltonian_for_projector_evolution;
+  debug = other.debug;
   inusquids = other.inusquids;
   ibody = other.ibody;
   ienergy = other.ienergy;
   itrack = other.itrack;
   istate = other.istate;
   iinteraction = other.iinteraction;
+  interactions_initialized = other.interactions_initialized;
   ioscillations = other.ioscillations;
   tauregeneration = other.tauregeneration;
   iglashow = other.iglashow;
   positivization = other.positivization;
+  allowConstantDensityOscillationOnlyEvolution = other.allowConstantDensityOscillationOnlyEvolution;
   progressbar = other.progressbar;
   progressbar_count = other.progressbar_count;
   progressbar_loop = other.progressbar_loop;
-
-  NT = other.NT;
+  time_offset = other.time_offset;
+  gsl_int_precision = other.gsl_int_precision;
+  evol_lowpass_cutoff = other.evol_lowpass_cutoff;
+  evol_lowpass_scale = other.evol_lowpass_scale;
+  enable_neutrino_sources = other.enable_neutrino_sources;
 
   // initial nusquids object render useless
-  other.inusquids = false;
+  other.Disable();
 
   return(*this);
 }
 
+void nuSQUIDS::Disable(){
+  inusquids = false;
+  ibody = false;
+  ienergy = false;
+  itrack = false;
+  istate = false;
+  iinteraction = false;
+  interactions_initialized = false;
+  tauregeneration = false;
+  iglashow = false;
+  enable_neutrino_sources = false;
+  numneu = 0;
+  ne = 0;
+  nrhos = 0;
+}
+
 } // close namespace
-- 
2.43.0


From 88c8bf347651559a74c5e0145167a1904b011824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 60/69] fix: nuSQUIDSAtm starts without a state and with one
 thread, and its random generator is moved and freed with it

---
 include/nuSQuIDS/nuSQuIDS.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index b7d1eef..668d865 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1084,7 +1084,7 @@ class nuSQUIDSAtm {
     using BaseSQUIDS = BaseType;
   private:
     /// \brief Random number generator
-    gsl_rng * r_gsl;
+    std::unique_ptr<gsl_rng,void (*)(gsl_rng*)> r_gsl{nullptr,gsl_rng_free};
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1098,9 +1098,9 @@ class nuSQUIDSAtm {
       return f1*yM + f2*yP;
     }
     /// \brief Boolean that signals that an initial state has being set.
-    bool iinistate;
+    bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
-    bool inusquidsatm;
+    bool inusquidsatm = false;
     /// \brief Contains the cos(zenith) nodes.
     marray<double,1> costh_array;
     /// \brief Contains the energy nodes [eV].
@@ -1119,7 +1119,7 @@ class nuSQUIDSAtm {
     /// \brief Contains the interaction information structure.
     std::shared_ptr<typename BaseSQUIDS::InteractionStructure> int_struct;
     /// \brief the number of threads to use when performing the evolution
-    unsigned int evalThreads;
+    unsigned int evalThreads = 1;
   public:
     /************************************************************************************
      * CONSTRUCTORS
@@ -1141,7 +1141,7 @@ class nuSQUIDSAtm {
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
 
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
@@ -1172,13 +1172,14 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(std::string hdf5_filename) {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
 
     /// \brief Move constructor.
     nuSQUIDSAtm(nuSQUIDSAtm&& other):
+    r_gsl(std::move(other.r_gsl)),
     progressbar(other.progressbar),
     iinistate(other.iinistate),
     inusquidsatm(other.inusquidsatm),
@@ -1193,6 +1194,7 @@ class nuSQUIDSAtm {
     evalThreads(other.evalThreads)
     {
       other.inusquidsatm = false;
+      other.iinistate = false;
     }
 
     //***************************************************************
@@ -1201,6 +1203,7 @@ class nuSQUIDSAtm {
       if(&other==this)
         return(*this);
 
+      r_gsl = std::move(other.r_gsl);
       progressbar = other.progressbar;
       iinistate = other.iinistate;
       inusquidsatm = other.inusquidsatm;
@@ -1216,6 +1219,7 @@ class nuSQUIDSAtm {
 
       // initial nusquids object render useless
       other.inusquidsatm = false;
+      other.iinistate = false;
 
       return(*this);
     }
@@ -1384,7 +1388,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
-        double production_height = gsl_ran_flat(r_gsl,-15*units.km,15*units.km);
+        double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
       
-- 
2.43.0


From c68ad25fc090b04713902566a7508f0d9fb9e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 61/69] fix: nuSQUIDSAtm::EvolveState with threads reports
 failures instead of discarding them

---
 include/nuSQuIDS/nuSQuIDS.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 668d865..a3a2bf9 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1334,6 +1334,9 @@ class nuSQUIDSAtm {
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
         Set_ProgressBar(overrideProgressBar);
+        // report the first failure, as when evolving with one thread
+        for(auto& task : tasks)
+          task.get();
       }
     }
 
-- 
2.43.0


From 98f0e9a862add67b9e804b60cc4d2fd32856ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 62/69] fix: nuSQUIDSAtm::EvalFlavor refuses flavors, neutrino
 types and values which are not numbers

---
 include/nuSQuIDS/nuSQuIDS.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index a3a2bf9..6fdaf7f 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1354,12 +1354,14 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
-      if(not ( rho == 0 or rho == 1))
-        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if(not ( rho < GetNumRho() ))
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1, and 0 unless both neutrinos and antineutrinos are propagated.");
+      if(not ( flv < GetNumNeu() ))
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor flavor index greater than number of flavors.");
       
-      if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
+      if( not (costh >= *costh_array.begin() and costh <= *costh_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-      if( enu < *enu_array.begin() or enu > *enu_array.rbegin() )
+      if( not (enu >= *enu_array.begin() and enu <= *enu_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::neutrino energy out of bounds.(Emin = " +
                                  std::to_string(*enu_array.begin()) +
                                  ",Emax = " +
@@ -1447,12 +1449,14 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
-      if(not ( rho == 0 or rho == 1))
-        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if(not ( rho < GetNumRho() ))
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1, and 0 unless both neutrinos and antineutrinos are propagated.");
+      if(not ( flv < GetNumNeu() ))
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor flavor index greater than number of flavors.");
       
-      if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
+      if( not (costh >= *costh_array.begin() and costh <= *costh_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-      if( enu < *enu_array.begin() or enu > *enu_array.rbegin() )
+      if( not (enu >= *enu_array.begin() and enu <= *enu_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::neutrino energy out of bounds.(Emin = " +
                                  std::to_string(*enu_array.begin()) +
                                  ",Emax = " +
-- 
2.43.0


From b45b882a47ff52bcb11764827710059d8096a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 63/69] fix: nuSQUIDSAtm works with a single zenith angle or
 energy and refuses an empty list of angles

---
 include/nuSQuIDS/nuSQuIDS.h | 40 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 6fdaf7f..d958c99 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1139,6 +1139,8 @@ class nuSQUIDSAtm {
     costh_array(costh_array),
     evalThreads(1)
     {
+      if(costh_array.empty())
+        throw std::runtime_error("nuSQUIDSAtm::Error::At least one zenith angle is needed.");
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
       r_gsl.reset(gsl_rng_alloc (T_gsl));
@@ -1374,6 +1376,8 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      // with a single angle there is no other to interpolate with
+      size_t cth_P=std::min(cth_M+1,costh_array.size()-1);
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1389,6 +1393,7 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,enu_array.size()-1);
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
@@ -1399,9 +1404,9 @@ class nuSQUIDSAtm {
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1418,19 +1423,21 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
 
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Returns the flavor composition at a given energy and zenith.
@@ -1469,6 +1476,8 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      // with a single angle there is no other to interpolate with
+      size_t cth_P=std::min(cth_M+1,costh_array.size()-1);
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1484,15 +1493,16 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,enu_array.size()-1);
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1511,20 +1521,22 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
       
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
 
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Writes the object into an HDF5 file.
-- 
2.43.0


From 7d662ea4ac225b41004dc73d115adc51416f5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 64/69] fix: nuSQUIDSAtm::WriteStateHDF5 adds to an existing
 file when told not to overwrite

---
 include/nuSQuIDS/nuSQuIDS.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index d958c99..e6ff381 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1550,24 +1550,28 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
 
       hid_t file_id,root_id;
-      hid_t dset_id;
       // create HDF5 file
       if(overwrite)
         file_id = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
       else
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT, H5P_DEFAULT);
+        // add to an existing file, or start a new one if there is none
+        file_id = H5Fis_hdf5 (filename.c_str()) > 0 ?
+                  H5Fopen (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT) :
+                  H5Fcreate (filename.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
       if (file_id < 0)
           throw std::runtime_error("nuSQUIDS::Error::Cannot create file at " + filename + ".");
       root_id = H5Gopen(file_id, "/",H5P_DEFAULT);
 
       // write the zenith range
       hsize_t costhdims[1]={costh_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
+      herr_t costh_err = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
       hsize_t energydims[1]={enu_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
+      herr_t energy_err = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
 
       H5Gclose (root_id);
       H5Fclose (file_id);
+      if(costh_err < 0 or energy_err < 0)
+        throw std::runtime_error("nuSQUIDS::Error::Cannot write the zenith angles and energies to " + filename + ": it may already hold a state.");
 
       unsigned int i = 0;
       for(const BaseSQUIDS& nsq : nusq_array){
-- 
2.43.0


From 5953f0e0092c43f3ef7baf8f261eaa5172750675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 65/69] fix: interactions whose initialization failed are
 initialized again rather than used incomplete

---
 src/nuSQuIDS.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 1c0834e..7c4235c 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -985,7 +985,7 @@ void nuSQUIDS::InitializeInteractions(){
   }
   
   // if we don't already have cached data, create it
-  if ( !int_struct ) {
+  if ( !int_struct ) try {
     int_struct.reset(new InteractionStructure);
     // initialize cross section object if we don't have one
     if ( ncs == nullptr) {
@@ -1029,6 +1029,9 @@ void nuSQUIDS::InitializeInteractions(){
       std::cerr << ex.what() << std::endl;
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to fill in interaction vectors [InitializeInteractions]");
     }
+  } catch (...) {
+    int_struct.reset(); // what was not completed must not be taken for cached data
+    throw;
   }
   
   if(iglashow && NT != neutrino && ncs && !ncs->hasTarget(electron))
-- 
2.43.0


From 9303822c809228f52f7fa7c93d47362135a13ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 66/69] fix: saving without overwriting refuses a location
 which already holds a state

---
 src/nuSQuIDS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 7c4235c..5184dea 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1741,6 +1741,9 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   else
     group = H5Handle(rootGroup.get(),[](hid_t)->herr_t{ return 0; },"get HDF5 group"); //non-owning handle
 
+  if ( h5ObjectExists(group, "energies") )
+    throw std::runtime_error("nuSQUIDS::Error::A state is already stored in "+grp+" of "+str+".");
+
   // write the energy range
   hsize_t Edims[1]={E_range.extent(0)};
   H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data());
-- 
2.43.0


From ea800a4bfd4c4f291373b40579a1f2af262d0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 67/69] fix: GetHamiltonian does not need the interactions and
 does not count the masses twice in the mass basis

---
 src/nuSQuIDS.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 5184dea..5c39042 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1691,8 +1691,18 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
     throw std::runtime_error("nuSQUIDS::Error::TRACK is a NULL pointer");
   if ( ei >= ne or rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Index of the Hamiltonian out of range.");
-  PreDerive(Get_t());
-  return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
+  // neither the interactions nor the sources are part of the Hamiltonian
+  const double x = Get_t();
+  track->SetX(x-time_offset);
+  current_ye = body->ye(*track);
+  current_density = body->density(*track);
+  if( basis != mass and ioscillations )
+    EvolveProjectors(x);
+  AddToPreDerive(x);
+  // in the mass basis HI is complete
+  if( basis == mass )
+    return HI(ei,rho,x);
+  return H0(E_range[ei],rho)+HI(ei,rho,x);
 }
 
 void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_section, std::string cross_section_grp_loc, bool overwrite) const{
-- 
2.43.0


From 5edf7dcdbde09ec35df5eaa1092efb3515aaca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 68/69] fix: a body which emits no neutrinos does not continue
 the emission of the previous one

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 5c39042..4037103 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -281,6 +281,8 @@ void nuSQUIDS::PreDerive(double x){
   current_ye = body->ye(*track);
   current_density = body->density(*track);
   if(enable_neutrino_sources){
+    // a body which emits nothing leaves this untouched
+    std::fill(current_external_flux.begin(),current_external_flux.end(),0.0);
     body->injected_neutrino_flux(current_external_flux,*track,*this);
     assert(current_external_flux.extent(0) == ne && current_external_flux.extent(1) == nrhos && current_external_flux.extent(2) == numneu);
   }
-- 
2.43.0


From dd397358cc59ca321492543f24765c9973d53c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 69/69] fix: nuSQUIDSAtm::Set_EarthModel uses the trajectories
 of the new Earth

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index e6ff381..1f4ffe8 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1931,9 +1931,15 @@ class nuSQUIDSAtm {
     /// \brief Stes Earth object to be use.
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
+      if(earth == nullptr)
+        throw std::runtime_error("nuSQUIDSAtm::Error::The Earth model is a NULL pointer.");
       earth_atm=earth;
-      for(BaseSQUIDS& nsq : nusq_array){
-        nsq.Set_Body(earth);
+      // the trajectories depend on the sizes of the Earth and of its atmosphere
+      track_array.clear();
+      for(size_t i=0; i<nusq_array.size(); i++){
+        track_array.push_back(std::make_shared<EarthAtm::Track>(earth->MakeTrackWithCosine(costh_array[i])));
+        nusq_array[i].Set_Body(earth);
+        nusq_array[i].Set_Track(track_array[i]);
       }
     }
   
-- 
2.43.0


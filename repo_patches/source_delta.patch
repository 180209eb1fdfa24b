From d457ba795f798b10fd0aaf0c0d122fbfde8b7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 001/116] fix: dividing a scalar by an array computes
 scalar/element, and array/array keeps its order

---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..977112a 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1587,9 +1587,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> result(a);
+	for(auto& i : result) i=f/i;
+	return(result);
 }
 
 namespace detail{
-- 
2.43.0


From c697d7d10074f98978da3c0a20aa73e17be1e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 002/116] fix: back() of a constant array returns the last
 element

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 977112a..be0b0cb 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From c7fefc5717b2986fa49fd38c844331e24d0844ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 003/116] fix: marray::swap can be instantiated for allocators
 without a templated std::swap overload

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index be0b0cb..2df27d1 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -914,7 +914,7 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
-- 
2.43.0


From eee8de4b48a619e5abf771bfe07c3214aa629587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 004/116] fix: provide tgamma for arrays (was misspelled)

---
 include/nuSQuIDS/marray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 2df27d1..5026ebd 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1874,6 +1874,7 @@ using std::sqrt;
 using std::cbrt;
 using std::erf;
 using std::erfc;
+using std::tgamma;
 using std::lgamma;
 using std::ceil;
 using std::floor;
@@ -1914,7 +1915,7 @@ UNARY_MARRAY_FUNC(sqrt);
 UNARY_MARRAY_FUNC(cbrt);
 UNARY_MARRAY_FUNC(erf);
 UNARY_MARRAY_FUNC(erfc);
-UNARY_MARRAY_FUNC(tgmama);
+UNARY_MARRAY_FUNC(tgamma);
 UNARY_MARRAY_FUNC(lgamma);
 UNARY_MARRAY_FUNC(ceil);
 UNARY_MARRAY_FUNC(floor);
-- 
2.43.0


From 5b2b2f7e075a9d90d10c17cb8bd8d53899c3642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 005/116] fix: atan2, pow and hypot of two arrays of the same
 type compile

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 5026ebd..e0c4cd5 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1941,8 +1941,8 @@ template<typename T, unsigned Rank> \
 marray<T,Rank> fname(const marray<T,Rank>& a1, const marray<T,Rank>& a2){ \
 	if(a1.get_extents()==a2.get_extents()){ \
 		marray<T,Rank> result(a1); \
-		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end; \
-			ri!=re; ri++,i1++,i2++) \
+		auto i1=a1.begin(), i2=a2.begin(); \
+		for(auto ri=result.begin(),re=result.end(); ri!=re; ri++,i1++,i2++) \
 			*ri=fname(*i1,*i2); \
 		return(result); \
 	} \
-- 
2.43.0


From 96bde3145b2c3711416168b343c7837db24b5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 006/116] fix: compute array sizes and strides in size_type
 rather than 32 bit integers

---
 include/nuSQuIDS/marray.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index e0c4cd5..d84796f 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -848,7 +848,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -864,7 +864,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -882,7 +882,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -900,7 +900,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -947,9 +947,9 @@ public:
 private:
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1004,9 +1004,9 @@ private:
 	
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1058,9 +1058,9 @@ public:
 private:
 	void erase(size_type dim, size_type pos, size_t num, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1068,7 +1068,7 @@ private:
 		value_type* write_pos=new_data;
 		value_type* read_pos=data;
 		
-		for(unsigned int i=0; i<iterations; i++){
+		for(size_type i=0; i<iterations; i++){
 			for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 				allocator_traits::construct(allocator(),write_pos,std::move(*read_pos));
 			read_pos+=num*chunk_size; //skip the items being erased
@@ -1084,9 +1084,9 @@ private:
 	
 	void erase(size_type dim, size_type pos, size_t num, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1095,7 +1095,7 @@ private:
 		value_type* read_pos=data;
 		
 		try{
-			for(unsigned int i=0; i<iterations; i++){
+			for(size_type i=0; i<iterations; i++){
 				for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 					allocator_traits::construct(allocator(),write_pos,*read_pos);
 				read_pos+=num*chunk_size; //skip the items being erased
@@ -1127,9 +1127,9 @@ public:
 		assert(pos+num<=extents[dim]);
 		
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1140,7 +1140,7 @@ public:
 		constexpr bool move=std::is_nothrow_move_constructible<value_type>::value
 		  && std::is_nothrow_move_assignable<value_type>::value;
 		try{
-			for(unsigned int i=0; i<iterations; i++){
+			for(size_type i=0; i<iterations; i++){
 				for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 					allocator_traits::construct(allocator(),write_pos,(move?std::move(*read_pos):*read_pos));
 				read_pos+=num*chunk_size; //skip the items being erased
@@ -1170,7 +1170,7 @@ public:
 	void reshape(const Container& new_extents){
 		if(std::distance(std::begin(new_extents),std::end(new_extents))!=Rank)
 			throw std::logic_error("Incorrect number of dimensions when attempting to reshape multidimensional array");
-		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),1u,std::multiplies<size_type>());
+		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),size_type(1),std::multiplies<size_type>());
 		if(new_total_size!=total_size())
 			throw std::logic_error("Inconsistent total size when attempting to reshape multidimensional array");
 		std::copy_n(std::begin(new_extents),Rank,extents.begin());
-- 
2.43.0


From 5a2af374e62edeb09ef6b0e11d5d62342b98a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 007/116] fix: failed array construction from an initializer or
 a range releases exactly what it acquired

---
 include/nuSQuIDS/marray.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index d84796f..a5869fb 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -349,8 +349,10 @@ struct multidimensional_initializer{
 template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
-		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		for(const auto& i : init){
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++; //only count the object once it exists
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
@@ -729,11 +731,11 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
+			
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
@@ -759,13 +761,13 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
+			
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-- 
2.43.0


From af6dfaf48659a793bf8b63ed271ebf268708fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 008/116] fix: failed array assignment returns the new buffer
 to the allocator and size it came from

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index a5869fb..5f1bc44 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -488,7 +488,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -501,7 +501,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -528,7 +528,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From b72e458f96c7f2d2a68a75ee28aa416c7ab88c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 009/116] fix: move assignment of arrays exchanges allocators
 together with the buffers they own

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 5f1bc44..423495b 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -514,7 +514,7 @@ private:
 		swap(extents,other.extents);
 		swap(data,other.data);
 		swap(total_size(),other.total_size());
-		allocator()=std::move(other.allocator());
+		swap(allocator(),other.allocator());
 	}
 	void move_assign(marray&& other, std::false_type dont_replace_allocator){
 		using std::swap;
-- 
2.43.0


From f2fa91ca7eae7cf3f715a367586b2c27ee1f0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 010/116] fix: marray::swap compiles (missing typename)

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 423495b..d60f0b8 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -922,7 +922,7 @@ public:
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From 50a5bef0d25dac461b6b708834360bd458352445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 011/116] fix: aligned_allocator stores offsets of 256 bytes
 and more without truncation

---
 include/nuSQuIDS/aligned_alloc.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..47177e3 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(size_type))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,23 +112,28 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(size_type); //include space to do our thing
 		
 		//try to get memory
 		void* ptr=new char[needed];
 		
 		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
+		//First step past the space needed to store the offset, which can be as 
+		//large as the alignment plus the size of that space.
+		const size_type base=reinterpret_cast<size_type>(ptr);
+		size_type aligned=base+sizeof(size_type);
 		//Note that since align is a power of 2, align-1 forms a mask with the low
 		//align_pow bits set. Its negation will then preserve only the higher bits
 		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//align then preserves this alignment, and ensures that at least the 
+		//space for the offset is before ptr. 
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
-		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		aligned=(aligned & ~(alignment-1))+alignment;
+		const size_type offset=aligned-base;
+		ptr=reinterpret_cast<char*>(ptr)+offset;
+		//Stash the offset in the padding where we can find it later
+		std::memcpy(reinterpret_cast<char*>(ptr)-sizeof(size_type),&offset,sizeof(size_type));
 		
 		return(pointer(ptr));
 	}
@@ -136,9 +142,10 @@ public:
 		if(!p) //ignore NULL pointers
 			return;
 		
-		uint8_t* ptr=(uint8_t*)p;
+		char* ptr=(char*)p;
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		size_type offset;
+		std::memcpy(&offset,ptr-sizeof(size_type),sizeof(size_type));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
-- 
2.43.0


From 9a2c2f7a3982cd438845489437dfa5fcb753be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 012/116] fix: aligned_allocator can be rebound to and compared
 with other value types

---
 include/nuSQuIDS/aligned_alloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 47177e3..a094211 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -152,6 +152,8 @@ public:
 	}
 	
 private:
+	template <typename U> friend class aligned_allocator;
+	
 	///Log base 2 of alignment, in bytes. 
 	///Must be <32. 
 	uint8_t align_pow;
-- 
2.43.0


From 196819949678015dd564852fc81ffbacbc2f1a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 013/116] fix: AdaptiveQuad::integrate keeps endpoint values
 with their endpoints when the limits are reversed

---
 include/nuSQuIDS/AdaptiveQuad.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 479e83e..436a3a0 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -190,18 +190,21 @@ namespace AdaptiveQuad{
 		}
 		
 		//compute function endpoint values if not given
+		//options->fa and options->fb always belong to the a and b of the caller
+		double* known_fa=options?(reverse?&options->fb:&options->fa):nullptr;
+		double* known_fb=options?(reverse?&options->fa:&options->fb):nullptr;
 		double fa,fb;
-		if(options && !std::isnan(options->fa))
-			fa=options->fa;
+		if(known_fa && !std::isnan(*known_fa))
+			fa=*known_fa;
 		else{
 			fa=integrand(a);
-			if(options) options->fa=fa;
+			if(known_fa) *known_fa=fa;
 		}
-		if(options && !std::isnan(options->fb))
-			fb=options->fb;
+		if(known_fb && !std::isnan(*known_fb))
+			fb=*known_fb;
 		else{
 			fb=integrand(b);
-			if(options) options->fb=fb;
+			if(known_fb) *known_fb=fb;
 		}
 		
 		//create initial interval with function endpoint values
-- 
2.43.0


From 43fbf6552148a853058a0d80e880e7d251773edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 014/116] fix: AdaptiveQuad::integrate reports outOfTolerance
 only for intervals which are out of tolerance

---
 include/nuSQuIDS/AdaptiveQuad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 436a3a0..496bdb0 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -262,7 +262,7 @@ namespace AdaptiveQuad{
 			//possible, commit its contribution to the total estimate. 
 			auto processSubinterval=[&](Interval& i){
 				if(i.badness(tol)<=0 || !i.canSubdivide()){
-					if(!i.canSubdivide())
+					if(!(i.badness(tol)<=0))
 						outOfTolerance=true;
 					accumulate(i.value,i.i2);
 				}
-- 
2.43.0


From 0980362c698c72a6250ed11f8eca6591b8d84c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 015/116] fix: TriCubicInterpolator takes the yz derivatives
 from the slice along y

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..701c745 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -569,7 +569,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From 4a2eea0482482eb3ef5a1e332e8aad1d6f85fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 016/116] fix: define the declared default constructor of
 TriCubicInterpolator; an empty one evaluates to zero like BiCubicInterpolator

---
 src/tools.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 701c745..d8e8e0a 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -476,6 +476,8 @@ double BiCubicInterpolator::operator()(double x, double y) const{
 	return result;
 }
 
+TriCubicInterpolator::TriCubicInterpolator(){}
+
 TriCubicInterpolator::TriCubicInterpolator(marray<double,3> data_,
                                            marray<double,1> xcoords_,
                                            marray<double,1> ycoords_,
@@ -772,6 +774,9 @@ double TriCubicInterpolator::evaluate_polynomial(double c[64], double t, double
 }
 
 double TriCubicInterpolator::operator()(double x, double y, double z) const{
+	if(data.empty())
+		return 0;
+	
 	//figure out which grid cell we are in
 	auto x_it=std::upper_bound(xcoords.begin(),xcoords.end(),x);
 	std::size_t i=x<xcoords[0] ? 0 : std::distance(xcoords.begin(),x_it)-1;
-- 
2.43.0


From c764da358c04bfe7fdd24954b97a808ab3065714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 017/116] fix: quickread ignores blank and comment lines
 wherever they are when counting columns

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index d8e8e0a..52cd097 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -67,9 +67,8 @@ marray<double,2> quickread(std::string filepath){
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
             table.push_back(row);
+            column_number = row.size();
         }
-
-        column_number = row.size();
     }
 
     marray<double,2> otable {table.size(),column_number};
-- 
2.43.0


From 1ce66a6ce49d3c9023aa871d184360eccd6fe2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 018/116] fix: empty arrays can be written to and read from
 HDF5 files, with or without compression

---
 include/nuSQuIDS/tools.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..40ff751 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -323,7 +323,9 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     std::copy_n(data.get_extents().begin(),Rank,extents.begin());
     hid_t dSpace=H5Screate_simple(Rank, &extents[0], nullptr);
     hid_t plist_id=H5P_DEFAULT;
-    if(compressLevel){
+    //an empty array has nothing to compress and cannot be divided into chunks
+    const bool compress=compressLevel && !data.empty();
+    if(compress){
         assert(compressLevel<=9);
         plist_id = H5Pcreate(H5P_DATASET_CREATE);
         std::array<hsize_t,Rank> chunkDims;
@@ -345,10 +347,10 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     }
     
     hid_t dSet=H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT);
-    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     
     //need to close whether or not there's an error
-    if(compressLevel)
+    if(compress)
         H5Pclose(plist_id);
     H5Dclose(dSet);
     H5Sclose(dSpace);
@@ -374,7 +376,7 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
     H5Sclose(dSpace);
     data.resize(extents);
-    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     H5Dclose(array_id);
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
-- 
2.43.0


From e3ba234803d504c30af82aeb0f580656512b4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 019/116] fix: readArrayH5 closes its handles when the rank
 does not match

---
 include/nuSQuIDS/tools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 40ff751..81ace86 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -368,10 +368,13 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
     hid_t dType=h5Datatype<T>::type();
     hid_t dSpace = H5Dget_space(array_id);
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
-    if(raw_dim!=Rank)
+    if(raw_dim!=Rank){
+        H5Sclose(dSpace);
+        H5Dclose(array_id);
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
                                  +std::to_string(raw_dim)+" but target array has rank "
                                  +std::to_string(Rank));
+    }
     std::array<hsize_t,Rank> extents;
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
     H5Sclose(dSpace);
-- 
2.43.0


From 347bf3ed1ac36c9a0f0c2b52a0c90ef38a1428e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 020/116] fix: addH5Attribute<std::string> closes its datatype

---
 src/tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 52cd097..3e10786 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -819,6 +819,7 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
     H5Awrite(attribute_id, strtype, &contents[0]);
     H5Aclose(attribute_id);
     H5Sclose(dataspace_id);
+    H5Tclose(strtype);
 };
 
 template<>
-- 
2.43.0


From 249c53fa00200a4e706f733f3d203f6c553dc697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 021/116] fix: empty strings can be stored as HDF5 attributes

---
 src/tools.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 3e10786..3eb6dec 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -812,7 +812,8 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
     hid_t strtype = H5Tcopy(H5T_C_S1);
-    H5Tset_size(strtype, contents.size());
+    //the size of an HDF5 string cannot be zero; an empty string is stored as its terminator
+    H5Tset_size(strtype, contents.empty() ? 1 : contents.size());
     hsize_t dim=1;
     hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
     hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
@@ -842,6 +843,9 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
         throw std::runtime_error("Failed to read attribute '"+name+"'");
     }
     
+    if(size==1 && dest[0]=='\0')
+        dest.clear();
+    
     H5Aclose(attribute_id);
     H5Tclose(actualType);
 }
-- 
2.43.0


From 6957a733ad164d59764d9aeb7a92d9cd60ddcb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 022/116] fix: addH5Attribute reports attributes which could
 not be written

---
 include/nuSQuIDS/tools.h | 7 +++++--
 src/tools.cpp            | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 81ace86..38f6567 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -391,9 +391,12 @@ void addH5Attribute(hid_t object, std::string name, const T& contents){
     hsize_t dim=1;
     hid_t dataspace_id=H5Screate_simple(1, &dim, nullptr);
     hid_t attribute_id=H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id,dtype,&contents);
-    H5Aclose(attribute_id);
+    herr_t err=attribute_id<0 ? -1 : H5Awrite(attribute_id,dtype,&contents);
+    if(attribute_id>=0)
+        H5Aclose(attribute_id);
     H5Sclose(dataspace_id);
+    if(err<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
diff --git a/src/tools.cpp b/src/tools.cpp
index 3eb6dec..e7675ec 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -817,10 +817,13 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
     hsize_t dim=1;
     hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
     hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id, strtype, &contents[0]);
-    H5Aclose(attribute_id);
+    herr_t err = attribute_id<0 ? -1 : H5Awrite(attribute_id, strtype, &contents[0]);
+    if(attribute_id>=0)
+        H5Aclose(attribute_id);
     H5Sclose(dataspace_id);
     H5Tclose(strtype);
+    if(err<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
-- 
2.43.0


From b07147b352d95b617d9b9197f06f57f7db4efdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 023/116] fix: H5File does not close ids it does not own

---
 include/nuSQuIDS/tools.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 38f6567..3994af2 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -258,10 +258,13 @@ struct H5File{
     hid_t id;
     H5File(hid_t id):id(id){}
     H5File(const H5File&)=delete;
-    H5File(H5File&& h):id(h.id){ h.id=0; }
+    H5File(H5File&& h):id(h.id){ h.id=-1; }
     H5File& operator=(const H5File&)=delete;
     H5File& operator=(H5File&& h){ std::swap(id,h.id); return *this;}
-    ~H5File(){ H5Fclose(id); }
+    ~H5File(){
+        if(id>=0)
+            H5Fclose(id);
+    }
     operator hid_t() const{ return(id); }
 };
 
-- 
2.43.0


From ef1d1836b0cf1987b16cfa07a70daefd109b66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 024/116] fix: readH5Attribute rejects missing attributes
 without using invalid handles

---
 include/nuSQuIDS/tools.h | 2 ++
 src/tools.cpp            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 3994af2..576ff76 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -408,6 +408,8 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
 template<typename T>
 void readH5Attribute(hid_t object, std::string name, T& dest){
     hid_t attribute_id=H5Aopen(object, name.c_str(), H5P_DEFAULT);
+    if(attribute_id<0)
+        throw std::runtime_error("Failed to open attribute '"+name+"'");
     hid_t actualType=H5Aget_type(attribute_id);
     hid_t expectedType=h5Datatype<T>::type();
     
diff --git a/src/tools.cpp b/src/tools.cpp
index e7675ec..ae73b21 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -829,6 +829,8 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
 template<>
 void readH5Attribute<std::string>(hid_t object, std::string name, std::string& dest){
     hid_t attribute_id = H5Aopen(object, name.c_str(), H5P_DEFAULT);
+    if(attribute_id<0)
+        throw std::runtime_error("Failed to open attribute '"+name+"'");
     hid_t actualType = H5Aget_type(attribute_id);
     H5T_class_t typeClass = H5Tget_class(actualType);
     if(typeClass!=H5T_STRING){
-- 
2.43.0


From a1782297430292649acacdf8578d50dda2aff24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 025/116] fix: the leptonic tau decay spectrum vanishes for
 neutrinos more energetic than the tau instead of going negative

---
 src/taudecay.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index 9c23041..d19253c 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -38,6 +38,8 @@ namespace nusquids{
 
 double TauDecaySpectra::TauDecayToLepton(double E_tau,double E_nu) const{
     double z = E_nu/E_tau;
+    if (z > 1.0)
+        return 0.0;
     double g0 = 5.0/3.0-3.0*pow(z,2.0)+(4.0/3.0)*pow(z,3.0);
     double g1 = 1.0/3.0-3.0*pow(z,2.0)+(8.0/3.0)*pow(z,3.0);
 
-- 
2.43.0


From cbcbaf62d32e05ae756af8b278ce4200a72c372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 026/116] fix: TauDecaySpectra rejects neutrino types outside
 its tables

---
 src/taudecay.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index d19253c..804da97 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -162,25 +162,25 @@ void TauDecaySpectra::Init(marray<double,1> E_range){
 // tau decay spectra returned in units of [GeV^-1]
 
 double TauDecaySpectra::dNdEnu_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_All_tbl.extent(0) or i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_All in valid index choices");
   return dNdEnu_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEnu_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_Lep_tbl.extent(0) or i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_Lep in valid index choices");
   return dNdEnu_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
+  if(neutrino_type >= dNdEle_All_tbl.extent(0) or i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_All in valid index choices");
   return dNdEle_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEle_Lep_tbl.extent(0) or i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_Lepin valid index choices");
   return dNdEle_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
-- 
2.43.0


From 0116edcb38a0b484568195dc37ad68fc8006d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 027/116] fix: storing a body or track closes its HDF5 types
 and reports attributes which are missing or cannot be written

---
 src/body.cpp | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..16ec99b 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -51,14 +51,7 @@ namespace {
 squids::Const param;
 
 void addStringAttribute(hid_t object, std::string name, std::string contents){
-  hid_t strtype = H5Tcopy(H5T_C_S1);
-  H5Tset_size(strtype, contents.size());
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, strtype, &contents[0]);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute<std::string>(object, name, contents);
 }
 
 //not currently used
@@ -79,40 +72,22 @@ std::string readStringAttribute(hid_t object, std::string name){
 */
 
 void addDoubleAttribute(hid_t object, std::string name, double value){
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_IEEE_F64LE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_IEEE_F64LE, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute<double>(object, name, value);
 }
 
 double readDoubleAttribute(hid_t object, std::string name){
   double target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  herr_t status = H5Aread(attribute_id, H5T_NATIVE_DOUBLE, &target);
-  if(status<0)
-    throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
+  readH5Attribute(object, name, target);
   return target;
 }
 
 void addUIntAttribute(hid_t object, std::string name, unsigned int value){
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_NATIVE_UINT,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_NATIVE_UINT, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute<unsigned int>(object, name, value);
 }
 
 unsigned int readUIntAttribute(hid_t object, std::string name){
   unsigned int target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  herr_t status = H5Aread(attribute_id, H5T_NATIVE_UINT, &target);
-  if(status<0)
-    throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
+  readH5Attribute(object, name, target);
   return target;
 }
 
-- 
2.43.0


From fc937d488d742c9c5bd733d6425dce2d7820f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 028/116] fix: reading a body reports tables which are missing
 or have the wrong size instead of using zeros

---
 src/body.cpp | 82 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 16ec99b..d78aa4b 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -91,6 +91,23 @@ unsigned int readUIntAttribute(hid_t object, std::string name){
   return target;
 }
 
+void writeDoubleArray(hid_t group, const std::string& name, const std::vector<double>& data){
+  hsize_t dim=data.size();
+  if(H5LTmake_dataset_double(group, name.c_str(), 1, &dim, data.data())<0)
+    throw std::runtime_error("Failed to write dataset '"+name+"'");
+}
+
+void readDoubleArray(hid_t group, const std::string& name, std::vector<double>& data){
+  int rank;
+  if(!h5ObjectExists(group, name.c_str()) || H5LTget_dataset_ndims(group, name.c_str(), &rank)<0 || rank!=1)
+    throw std::runtime_error("Dataset '"+name+"' is missing or is not one dimensional");
+  hsize_t dim;
+  if(H5LTget_dataset_info(group, name.c_str(), &dim, nullptr, nullptr)<0 || dim!=data.size())
+    throw std::runtime_error("Dataset '"+name+"' does not have the expected size");
+  if(H5LTread_dataset_double(group, name.c_str(), data.data())<0)
+    throw std::runtime_error("Failed to read dataset '"+name+"'");
+}
+
 } // close unnamed namespace
 
 
@@ -215,18 +232,17 @@ inter_density(x_arr,density_arr),inter_ye(x_arr,ye_arr)
 void VariableDensity::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "x_arr", 1, dims.data(), x_arr.data());
-  H5LTmake_dataset_double(group, "density_arr", 1, dims.data(), density_arr.data());
-  H5LTmake_dataset_double(group, "ye_arr", 1, dims.data(), ye_arr.data());
+  writeDoubleArray(group, "x_arr", x_arr);
+  writeDoubleArray(group, "density_arr", density_arr);
+  writeDoubleArray(group, "ye_arr", ye_arr);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"x_arr",x_vec.data());
-  H5LTread_dataset_double(group,"density_arr",rho_vec.data());
-  H5LTread_dataset_double(group,"ye_arr",ye_vec.data());
+  readDoubleArray(group,"x_arr",x_vec);
+  readDoubleArray(group,"density_arr",rho_vec);
+  readDoubleArray(group,"ye_arr",ye_vec);
   return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
 }
 
@@ -327,18 +343,17 @@ inter_density(earth_radius,earth_density),inter_ye(earth_radius,earth_ye)
 void Earth::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  writeDoubleArray(group, "earth_radius", earth_radius);
+  writeDoubleArray(group, "earth_density", earth_density);
+  writeDoubleArray(group, "earth_ye", earth_ye);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  readDoubleArray(group,"earth_radius",x_vec);
+  readDoubleArray(group,"earth_density",rho_vec);
+  readDoubleArray(group,"earth_ye",ye_vec);
   return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
 }
 
@@ -456,17 +471,16 @@ inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 void Sun::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  writeDoubleArray(group, "sun_radius", sun_radius);
+  writeDoubleArray(group, "sun_density", sun_density);
+  writeDoubleArray(group, "sun_xh", sun_xh);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  readDoubleArray(group,"sun_radius",x_vec);
+  readDoubleArray(group,"sun_density",rho_vec);
+  readDoubleArray(group,"sun_xh",xh_vec);
   return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
 }
 
@@ -584,18 +598,17 @@ std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
 void SunASnu::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  writeDoubleArray(group, "sun_radius", sun_radius);
+  writeDoubleArray(group, "sun_density", sun_density);
+  writeDoubleArray(group, "sun_xh", sun_xh);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  readDoubleArray(group,"sun_radius",x_vec);
+  readDoubleArray(group,"sun_density",rho_vec);
+  readDoubleArray(group,"sun_xh",xh_vec);
   return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
 }
 
@@ -711,10 +724,9 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
 void EarthAtm::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  writeDoubleArray(group, "earth_radius", earth_radius);
+  writeDoubleArray(group, "earth_density", earth_density);
+  writeDoubleArray(group, "earth_ye", earth_ye);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
 }
@@ -722,9 +734,9 @@ void EarthAtm::Serialize(hid_t group) const {
 std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  readDoubleArray(group,"earth_radius",x_vec);
+  readDoubleArray(group,"earth_density",rho_vec);
+  readDoubleArray(group,"earth_ye",ye_vec);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
   double radius = 6371.0;
-- 
2.43.0


From e8020175dace0f5ea9019bd68578dad198d4f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 029/116] fix: EarthAtm tracks made from a cosine record the
 radius and height they were made for

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index d78aa4b..0cffb6e 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -759,6 +759,8 @@ EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmh
   Track track;
 
   track.cosphi = cosphi;
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
   track.L = sqrt(SQR(earth_radius_+atmheight_)-earth_radius_*earth_radius_*sinsqphi)-earth_radius_*cosphi;
-- 
2.43.0


From 68347ea287f2a9ebb563c5ad32c28f5ad9378b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 030/116] fix: EarthAtm tracks restore their stored initial and
 final positions

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 0cffb6e..54c4fcf 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -705,8 +705,10 @@ void EarthAtm::Track::Serialize(hid_t group) const {
 }
 
 std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
-  double x, cosphi;
+  double x, xini, xend, cosphi;
   readH5Attribute(group,"x", x);
+  readH5Attribute(group,"xini", xini);
+  readH5Attribute(group,"xend", xend);
   readH5Attribute(group,"cosphi",cosphi);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
@@ -718,6 +720,8 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  track->xini = xini;
+  track->xend = xend;
   return track;
 }
 
-- 
2.43.0


From 3818ed8e7e4cc2949b857213bcaa06278422eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 031/116] fix: SunASnu tracks store their impact parameter and
 restore it instead of using the final position for it

---
 src/body.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 54c4fcf..d2f412d 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -24,6 +24,7 @@
 
 #include <nuSQuIDS/body.h>
 
+#include <algorithm>
 #include <cmath>
 #include <map>
 #include <stdexcept>
@@ -586,13 +587,21 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  // the impact parameter was originally not serialized, but follows from the length of the chord
+  const double radius_nu_ = 694439.0*param.km;
+  double b_impact_=sqrt(std::max(0.0,SQR(radius_nu_)-SQR(0.5*std::max(xini_,xend_))));
+  if(H5Aexists(group,"b_impact")>0)
+    b_impact_=readDoubleAttribute(group,"b_impact");
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_;
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From 6a3a2aa573dce8acebb043f40290c58b92f5fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 032/116] fix: SunASnu built from vectors has the radius which
 its tracks assume

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index d2f412d..1d0cdff 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -569,7 +569,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From 6b401bebc1002a4075434e2253d3cc18282bfdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 033/116] fix: the squared distance to the centre of SunASnu
 does not round below zero

---
 src/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 1d0cdff..e84885e 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -653,7 +653,7 @@ double SunASnu::density(const GenericTrack& track_input) const
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
 
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r = sqrt(std::max(0.0,SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b))))/radius;
 
   return rdensity(r);
 }
@@ -663,7 +663,7 @@ double SunASnu::ye(const GenericTrack& track_input) const
   const SunASnu::Track& track_sunasnu = static_cast<const SunASnu::Track&>(track_input);
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r = sqrt(std::max(0.0,SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b))))/radius;
   return 0.5*(1.0+rxh(r));
 }
 
-- 
2.43.0


From b062ca7bd969d8de20d2844ba4a7d00ec90b0df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 034/116] fix: bodies store whether they are to be treated as
 having constant density

---
 src/body.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index e84885e..4eda389 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -109,6 +109,16 @@ void readDoubleArray(hid_t group, const std::string& name, std::vector<double>&
     throw std::runtime_error("Failed to read dataset '"+name+"'");
 }
 
+void addConstantDensityFlag(hid_t group, const Body& body){
+  addUIntAttribute(group, "is_constant_density", body.IsConstantDensity());
+}
+
+void readConstantDensityFlag(hid_t group, Body& body){
+  // this was originally not serialized
+  if(H5Aexists(group,"is_constant_density")>0)
+    body.SetIsConstantDensity(readUIntAttribute(group,"is_constant_density"));
+}
+
 } // close unnamed namespace
 
 
@@ -236,6 +246,7 @@ void VariableDensity::Serialize(hid_t group) const {
   writeDoubleArray(group, "x_arr", x_arr);
   writeDoubleArray(group, "density_arr", density_arr);
   writeDoubleArray(group, "ye_arr", ye_arr);
+  addConstantDensityFlag(group,*this);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
@@ -244,7 +255,9 @@ std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   readDoubleArray(group,"x_arr",x_vec);
   readDoubleArray(group,"density_arr",rho_vec);
   readDoubleArray(group,"ye_arr",ye_vec);
-  return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  auto body=std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  readConstantDensityFlag(group,*body);
+  return body;
 }
 
 // track constructor
@@ -347,6 +360,7 @@ void Earth::Serialize(hid_t group) const {
   writeDoubleArray(group, "earth_radius", earth_radius);
   writeDoubleArray(group, "earth_density", earth_density);
   writeDoubleArray(group, "earth_ye", earth_ye);
+  addConstantDensityFlag(group,*this);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
@@ -355,7 +369,9 @@ std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   readDoubleArray(group,"earth_radius",x_vec);
   readDoubleArray(group,"earth_density",rho_vec);
   readDoubleArray(group,"earth_ye",ye_vec);
-  return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  auto body=std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  readConstantDensityFlag(group,*body);
+  return body;
 }
 
 double Earth::density(const GenericTrack& track_input) const
@@ -475,6 +491,7 @@ void Sun::Serialize(hid_t group) const {
   writeDoubleArray(group, "sun_radius", sun_radius);
   writeDoubleArray(group, "sun_density", sun_density);
   writeDoubleArray(group, "sun_xh", sun_xh);
+  addConstantDensityFlag(group,*this);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
@@ -482,7 +499,9 @@ std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   readDoubleArray(group,"sun_radius",x_vec);
   readDoubleArray(group,"sun_density",rho_vec);
   readDoubleArray(group,"sun_xh",xh_vec);
-  return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  auto body=std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  readConstantDensityFlag(group,*body);
+  return body;
 }
 
 double Sun::rdensity(double x) const{
@@ -610,6 +629,7 @@ void SunASnu::Serialize(hid_t group) const {
   writeDoubleArray(group, "sun_radius", sun_radius);
   writeDoubleArray(group, "sun_density", sun_density);
   writeDoubleArray(group, "sun_xh", sun_xh);
+  addConstantDensityFlag(group,*this);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
@@ -618,7 +638,9 @@ std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   readDoubleArray(group,"sun_radius",x_vec);
   readDoubleArray(group,"sun_density",rho_vec);
   readDoubleArray(group,"sun_xh",xh_vec);
-  return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  auto body=std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  readConstantDensityFlag(group,*body);
+  return body;
 }
 
 void SunASnu::Track::FillDerivedParams(std::vector<double>& TrackParams) const{
@@ -742,6 +764,7 @@ void EarthAtm::Serialize(hid_t group) const {
   writeDoubleArray(group, "earth_ye", earth_ye);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
+  addConstantDensityFlag(group,*this);
 }
 
 std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
@@ -761,6 +784,7 @@ std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   auto earthAtm = std::make_shared<EarthAtm>(x_vec,rho_vec,ye_vec);
   earthAtm->radius = radius;
   earthAtm->SetAtmosphereHeight(atm_height);
+  readConstantDensityFlag(group,*earthAtm);
   return earthAtm;
 }
 
-- 
2.43.0


From fbee3d01e66ead4586ad395d7e37189fbc2c8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 035/116] fix: models of the Earth and the Sun with too few
 columns or no rows are rejected

---
 src/body.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 4eda389..d6837d7 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -109,6 +109,14 @@ void readDoubleArray(hid_t group, const std::string& name, std::vector<double>&
     throw std::runtime_error("Failed to read dataset '"+name+"'");
 }
 
+// read a model from a file, checking that it has all of the columns needed from it
+marray<double,2> readModel(const std::string& filepath, size_t columns){
+  marray<double,2> model = quickread(filepath);
+  if(model.extent(0)==0 || model.extent(1)<columns)
+    throw std::runtime_error("The model in '"+filepath+"' does not have at least one row and "+std::to_string(columns)+" columns");
+  return model;
+}
+
 void addConstantDensityFlag(hid_t group, const Body& body){
   addUIntAttribute(group, "is_constant_density", body.IsConstantDensity());
 }
@@ -312,7 +320,7 @@ Earth::Earth(std::string filepath):Body()
   // where 0 is the center of the Earth and 1 is the surface.
   radius = 6371.0; // [km]
 
-  marray<double,2> earth_model = quickread(filepath);
+  marray<double,2> earth_model = readModel(filepath,3);
   arraysize = earth_model.extent(0);
 
   earth_radius.resize(arraysize);
@@ -460,7 +468,7 @@ Sun::Sun(std::string sunlocation):Body()
   radius = 695980.0*param.km;
 
   // import sun model
-  sun_model = quickread(sunlocation);
+  sun_model = readModel(sunlocation,7);
   arraysize = sun_model.extent(0);
 
   sun_radius.resize(arraysize);
@@ -567,7 +575,7 @@ SunASnu::SunASnu(std::string sunlocation):Body()
 {
   radius = 694439.0*param.km;
 
-  sun_model = quickread(sunlocation);
+  sun_model = readModel(sunlocation,7);
   arraysize = sun_model.extent(0);
 
   sun_radius.resize(arraysize);
@@ -877,7 +885,7 @@ EarthAtm::EarthAtm(std::string filepath):Body()
   atm_height = 22; // km
   earth_with_atm_radius = radius + atm_height;
 
-  marray<double,2> earth_model = quickread(filepath);
+  marray<double,2> earth_model = readModel(filepath,3);
   arraysize = earth_model.extent(0);
 
   earth_radius.resize(arraysize);
-- 
2.43.0


From 6ef4a202564a961c52b8ec7123de9520c92b63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 036/116] fix: SunASnu tracks which do not cross the Sun are
 rejected instead of having no end

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index d6837d7..a48c6fc 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -606,6 +606,8 @@ SunASnu::Track::Track(double x,double xini,double b_impact):
   radius_nu(694439.0*param.km),
   b_impact(b_impact)
 {
+  if(!(std::abs(b_impact)<=radius_nu))
+    throw std::runtime_error("nuSQUIDS::SunASnu::Track: The impact parameter must not be larger than the radius of the Sun.");
   xend = 2.0*sqrt(SQR(radius_nu)-SQR(b_impact));
 }
 
-- 
2.43.0


From f1b614a40775d0af183a8dd00d148b1b96c8f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 037/116] fix: muon cross sections which differ from the
 electron ones are written to HDF5

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..da84ad7 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -568,7 +568,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From 3cc6168135d4ef8608dcf0e346c2d32cad9e6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 038/116] fix: HDF5 cross section tables with different numbers
 of energies and zs can be read back

---
 include/nuSQuIDS/xsections.h | 4 ++--
 src/xsections.cpp            | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index 7bf58f6..babfa6d 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -492,9 +492,9 @@ public:
     /// whose values are the base-ten logarithms of the differential cross 
     /// section with respect to y, in square centimeters, for the indicated 
     /// current and impinging particle type. The dimensions of these datasets 
-    /// are energy and 'z', corresponding to the values in the energies and zs
+    /// are 'z' and energy, corresponding to the values in the zs and energies
     /// datasets. Since 'z' is not well-defined for the lowest incoming neutrino 
-    /// energy in the tables, E_in = E_min, the row corresponding to this energy 
+    /// energy in the tables, E_in = E_min, the column corresponding to this energy 
     /// should contain a small value (but not negative infinity), which will 
     /// never be used directly. -50, corresponding to a cross section of 1e-50 
     /// cm^2 can be a good choice in practice. 
diff --git a/src/xsections.cpp b/src/xsections.cpp
index da84ad7..e6406b0 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -398,10 +398,10 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+"'s first dimension does not have the same size as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+"'s second dimension does not have the same size as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From 01d5d3458cdf194e8375410685a0ba6bbdc26a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 039/116] fix: differential cross sections are not transposed
 when written as text

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index e6406b0..163536f 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -355,7 +355,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
 	};
 	NeutrinoFlavor flavor;
-- 
2.43.0


From 17d6a014b7285ebb6a89012bc84f3e0c16aea097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 040/116] fix: averaging a cross section up to the end of its
 table does not evaluate it beyond the end

---
 src/xsections.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 163536f..c1bab30 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -59,8 +59,10 @@ namespace{
 		};
 		auto x=[&](unsigned int i){ return midpoint+abcissas[i]*halfWidth; };
 		double y[5]; //array of integrand evaluations
-		y[0]=integrand(x(0));
-		y[4]=integrand(x(4));
+		//evaluate exactly at the limits, as rounding could otherwise move these
+		//points outside of the domain in which the integrand is defined
+		y[0]=integrand(a);
+		y[4]=integrand(b);
 		//check whether the integrand appers to be constant. This is somewhat
 		//dangerous, as it can be fooled by the introduction of any term with 
 		//even degree.  
-- 
2.43.0


From ed799ad76b46f4bc299251cee0f6fef1bbd3cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 041/116] fix: the average of a cross section over an empty
 energy range is its value there

---
 src/xsections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index c1bab30..42896a5 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -96,6 +96,8 @@ namespace{
 namespace nusquids{
 
 double NeutrinoCrossSections::AverageTotalCrossSection(double EMin, double EMax, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
+	if(EMin==EMax)
+		return TotalCrossSection(EMax,flavor,neutype,current);
 	auto integrand=[=](double e_in)->double{
 		return this->TotalCrossSection(e_in,flavor,neutype,current);
 	};
@@ -103,6 +105,8 @@ double NeutrinoCrossSections::AverageTotalCrossSection(double EMin, double EMax,
 }
 	
 double NeutrinoCrossSections::AverageSingleDifferentialCrossSection(double E1, double E2Min, double E2Max, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
+	if(E2Min==E2Max)
+		return SingleDifferentialCrossSection(E1,E2Max,flavor,neutype,current);
 	auto integrand=[=](double e_out)->double{
 		return this->SingleDifferentialCrossSection(E1,e_out,flavor,neutype,current);
 	};
-- 
2.43.0


From 13560821e2f741e5b4861bebf1ac3fd71d325677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 042/116] fix: tabulated differential cross sections are zero
 for outgoing energies above the incoming energy

---
 src/xsections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 42896a5..4001932 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -235,6 +235,9 @@ double NeutrinoDISCrossSectionsFromTables::SingleDifferentialCrossSection(double
 		quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/GeV)+" GeV. E_nu = " + std::to_string(E1/GeV) + " [GeV].");
 	if (E1 <= Emin)
 		return std::numeric_limits<double>::min();
+	// the outgoing lepton cannot have more energy than the incoming one
+	if (E2 > E1)
+		return 0;
 
 	const auto& flavorData=getFlavor(flavor);
 	const BiCubicInterpolator& dsdy=
-- 
2.43.0


From 2c0e32580dd1bceeee77236aa17c20e30635eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 043/116] fix: text tables of differential cross sections with
 differing numbers of entries per energy are rejected

---
 src/xsections.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 4001932..b48491b 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -149,8 +149,13 @@ std::tuple<BiCubicInterpolator,double,double> NeutrinoDISCrossSectionsFromTables
 	marray<double,2> data({zSteps,enSteps});
 	marray<double,1> xcoords({enSteps}), ycoords({zSteps});
 	
-	for(std::size_t j=0; j<enSteps; j++)
+	for(std::size_t j=0; j<enSteps; j++){
+		for(std::size_t i=1; i<zSteps; i++){
+			if(rawData[j*zSteps+i][0]!=rawData[j*zSteps][0])
+				throw std::runtime_error(path+" does not appear to represent a correctly ordered 2D table");
+		}
 		xcoords[j]=log10(rawData[j*zSteps][0]*GeV); // note conversion to eV
+	}
 	
 	//TODO: here we throw away the actual data for the z values, and 
 	//recompute them assuming they are linear. This assumption could be relaxed.
-- 
2.43.0


From 2904cd8af3994ee12961f81e2c334a16c637d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 044/116] fix: V1 cross section tables are not read out of
 bounds at the edges of their energy range

---
 src/xsections.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index b48491b..204bdfc 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -22,6 +22,7 @@
  ******************************************************************************/
 
 #include <nuSQuIDS/xsections.h>
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -640,8 +641,9 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  // the last cell includes the upper end of the table
+  if(idx>div-2)
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
@@ -665,32 +667,25 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE2 = log(E2);
   double dlogE = logE_data_range[1]-logE_data_range[0];
 
-  size_t loge_M1 = static_cast<size_t>((logE1-logE_data_range[0])/dlogE);
-  size_t loge_M2 = static_cast<size_t>((logE2-logE_data_range[0])/dlogE);
-
-  if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
+  double pos2 = (logE2-logE_data_range[0])/dlogE;
+  // also excludes outgoing energies which are not positive
+  if (not (pos2 > -1) or (E2 >= E1))
     return 0.0;
 
+  // the last cells include the upper ends of the table
+  size_t loge_M1 = std::min(static_cast<size_t>((logE1-logE_data_range[0])/dlogE),static_cast<size_t>(div-2));
+  size_t loge_M2 = std::min(static_cast<size_t>(pos2),static_cast<size_t>(div-2));
+
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
   double phiMM,phiMP,phiPM,phiPP;
   if (current == CC){
     phiMM = dsde_CC_data[neutype][flavor][loge_M1][loge_M2];
     phiMP = dsde_CC_data[neutype][flavor][loge_M1][loge_M2+1];
-    if ( loge_M1 == div-1 ){
-      // we are at the boundary, cannot bilinearly interpolate
-      return LinInter(logE2,logE_data_range[loge_M2],logE_data_range[loge_M2+1],
-          phiMM,phiMP);
-    }
     phiPM = dsde_CC_data[neutype][flavor][loge_M1+1][loge_M2];
     phiPP = dsde_CC_data[neutype][flavor][loge_M1+1][loge_M2+1];
   } else if (current == NC){
     phiMM = dsde_NC_data[neutype][flavor][loge_M1][loge_M2];
     phiMP = dsde_NC_data[neutype][flavor][loge_M1][loge_M2+1];
-    if ( loge_M1 == div-1 ){
-      // we are at the boundary, cannot bilinearly interpolate
-      return LinInter(logE2,logE_data_range[loge_M2],logE_data_range[loge_M2+1],
-          phiMM,phiMP);
-    }
     phiPM = dsde_NC_data[neutype][flavor][loge_M1+1][loge_M2];
     phiPP = dsde_NC_data[neutype][flavor][loge_M1+1][loge_M2+1];
   } else
-- 
2.43.0


From 1ae57cd57ef100f491bb920f8194859f3f7fbef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 045/116] fix: V1 cross section tables with wrong dimensions
 are rejected instead of read out of bounds

---
 src/xsections.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 204bdfc..33b6eac 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -727,10 +727,19 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           // check table shapes and get the number of energy nodes
           unsigned int data_e_size = 0;
           if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
+              sigma_CC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) and
+              dsde_CC_raw_data.extent(0) == dsde_NC_raw_data.extent(0) and
+              dsde_CC_raw_data.extent(1) == dsde_NC_raw_data.extent(1) )
             data_e_size = sigma_CC_raw_data.extent(0);
           else
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
+          if( data_e_size < 2 )
+            throw std::runtime_error("nuSQUIDS::xsections::init: Data tables have fewer than two energies.");
+          if( dsde_CC_raw_data.extent(0) != size_t(data_e_size)*data_e_size )
+            throw std::runtime_error("nuSQUIDS::xsections::init: Total and differential data tables do not have the same energies.");
+          // one or two energies, and a column for each flavor and particle type
+          if( sigma_CC_raw_data.extent(1) < 7 or dsde_CC_raw_data.extent(1) < 8 )
+            throw std::runtime_error("nuSQUIDS::xsections::init: Data tables have too few columns.");
 
           // getting the raw data energy node values
           logE_data_range.resize(data_e_size);
@@ -781,16 +790,19 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
       readArrayH5(h5file, "dsDE_CC", dsde_CC_data);
       readArrayH5(h5file, "dsDE_NC", dsde_NC_data);
     }
-    //TODO: make sanity checking more user friendly
-    assert(dsde_CC_data.extent(2)==dsde_CC_data.extent(3));
-    assert(dsde_NC_data.extent(2)==dsde_NC_data.extent(3));
-    assert(dsde_CC_data.extent(2)==dsde_NC_data.extent(2));
-    assert(dsde_CC_data.extent(0)==2);
-    assert(dsde_NC_data.extent(0)==2);
-    assert(dsde_CC_data.extent(1)==3);
-    assert(dsde_NC_data.extent(1)==3);
-    
     div=dsde_CC_data.extent(2);
+    if(div<2)
+      throw std::runtime_error("nuSQUIDS::xsections::init: "+path+" has fewer than two energies");
+    for(const auto* total : {&s_CC_data,&s_NC_data}){
+      if(total->extent(0)!=2 or total->extent(1)!=3 or total->extent(2)!=div)
+        throw std::runtime_error("nuSQUIDS::xsections::init: Total cross section table in "+path+" has the wrong dimensions");
+    }
+    for(const auto* differential : {&dsde_CC_data,&dsde_NC_data}){
+      if(differential->extent(0)!=2 or differential->extent(1)!=3
+         or differential->extent(2)!=div or differential->extent(3)!=div)
+        throw std::runtime_error("nuSQUIDS::xsections::init: Differential cross section table in "+path+" has the wrong dimensions");
+    }
+    
     unsigned int data_e_size=div;
     auto raw_logE_data_range=logspace(Emin/GeV,Emax/GeV,div);
     logE_data_range.resize(data_e_size);
-- 
2.43.0


From e59489bfac6fe909ec04389fbc3c30ff37343ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 046/116] fix: failures to write cross sections as text are
 reported

---
 src/xsections.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 33b6eac..fb5fd98 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -359,6 +359,9 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		auto ord=data.getOrdinates();
 		for(std::size_t i=0, n=ab.extent(0); i!=n; i++)
 			outfile << pow(10.,ab[i])/GeV << ' ' << pow(10.,ord[i]) << '\n';
+		outfile.close();
+		if(!outfile)
+			throw std::runtime_error("Failed to write "+path);
 	};
 	auto write2D=[this](const BiCubicInterpolator& data, const std::string& path){
 		std::ofstream outfile(path);
@@ -372,6 +375,9 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
 				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
+		outfile.close();
+		if(!outfile)
+			throw std::runtime_error("Failed to write "+path);
 	};
 	NeutrinoFlavor flavor;
 	std::string name;
@@ -843,6 +849,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
       }
       out << '\n';
     }
+    out.close();
+    if(!out)
+      throw std::runtime_error("Failed to write "+path);
   };
   writeTotal(filename_sigma_CC,s_CC_data,logE_data_range,GeV);
   writeTotal(filename_sigma_NC,s_NC_data,logE_data_range,GeV);
@@ -862,6 +871,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
         out << '\n';
       }
     }
+    out.close();
+    if(!out)
+      throw std::runtime_error("Failed to write "+path);
   };
   writeDifferential(filename_dsde_CC,dsde_CC_data,logE_data_range,GeV);
   writeDifferential(filename_dsde_NC,dsde_NC_data,logE_data_range,GeV);
-- 
2.43.0


From 1321c89da494c76a06c4f7c881e79deecfb44b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 047/116] fix: Glashow resonance cross section is zero below
 the muon production threshold

---
 src/xsections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index fb5fd98..63108ba 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -904,6 +904,9 @@ double GlashowResonanceCrossSection::TotalCrossSection(double Enu, NeutrinoFlavo
   // see e.g. arxiv:1108.3163v2, Eq. 2.1
   const double &m = constants.electron_mass;
   const double &mu = constants.muon_mass;
+  // there is not enough energy to produce a muon
+  if (2*m*Enu <= mu*mu - m*m)
+    return 0;
   return 2*fermi_scale*Enu*pow(1. - (mu*mu - m*m)/(2*m*Enu), 2)
    / (pow(1. - 2*m*Enu/(M_W*M_W), 2) + pow(W_total/M_W, 2)) / B_Muon / 3;
 }
-- 
2.43.0


From 7e26fd9f5cad300db5e35326b9035f08782fed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 048/116] fix: cross section tables with differing energies are
 not written to HDF5 as if they were the same

---
 src/xsections.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 63108ba..f1bc4a6 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -566,6 +566,25 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		using StoreType=float;
 		assert(xsData.size()>0);
 		const perFlavorData& data=*xsData.begin()->second;
+		//there is a single set of energies and zs in the file for all tables
+		auto checkSame=[&path](const marray<double,1>& c1, const marray<double,1>& c2){
+			//the stored values are only single precision
+			auto close=[](double a, double b){ return std::abs(a-b)<=1e-6*std::abs(a); };
+			if(c1.size()!=c2.size() || !std::equal(c1.begin(),c1.end(),c2.begin(),close))
+				throw std::runtime_error("Unable to write cross sections to "+path+
+				  ": the tables are not all defined at the same energies");
+		};
+		const marray<double,1>& energies=data.dsdy_CC_nu.getXCoords();
+		const marray<double,1>& zs=data.dsdy_CC_nu.getYCoords();
+		for(const auto& flavorData : xsData){
+			const perFlavorData& d=*flavorData.second;
+			for(const AkimaSpline* s : {&d.s_CC_nu,&d.s_NC_nu,&d.s_CC_nubar,&d.s_NC_nubar})
+				checkSame(energies,s->getAbscissas());
+			for(const BiCubicInterpolator* s : {&d.dsdy_CC_nu,&d.dsdy_NC_nu,&d.dsdy_CC_nubar,&d.dsdy_NC_nubar}){
+				checkSame(energies,s->getXCoords());
+				checkSame(zs,s->getYCoords());
+			}
+		}
 		writeArrayH5<StoreType>(h5file, "energies", data.dsdy_CC_nu.getXCoords(), compressionLevel);
 		writeArrayH5<StoreType>(h5file, "zs", data.dsdy_CC_nu.getYCoords(), compressionLevel);
 	}
-- 
2.43.0


From 6192e04fb57cee676507b342a505396ef73e3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 049/116] fix: every text table of the cross sections is
 checked to cover the same energies

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index f1bc4a6..ca89871 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -294,6 +294,8 @@ NeutrinoDISCrossSectionsFromTables::readFlavorText(const std::string& prefix,
 		Emax=eMaxTmp;
 		erangeSrc=prefix+"nu_sigma_CC.dat";
 	}
+	else if(eMinTmp!=Emin || eMaxTmp!=Emax)
+		throw std::runtime_error(prefix+"nu_sigma_CC.dat has different energy domain than "+erangeSrc);
 	std::tie(data->s_NC_nu,eMinTmp,eMaxTmp)=read1DInterpolationFromText(prefix+"nu_sigma_NC.dat");
 	if(eMinTmp!=Emin || eMaxTmp!=Emax)
 		throw std::runtime_error(prefix+"nu_sigma_NC.dat has different energy domain than "+erangeSrc);
-- 
2.43.0


From c4558aee55949efcf01deb2cf7dcdd407a8c1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 050/116] fix: averages of the Glashow resonance cross section
 cannot miss the resonance

---
 include/nuSQuIDS/xsections.h |  3 +++
 src/xsections.cpp            | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index babfa6d..bf4c625 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -532,6 +532,9 @@ public:
   /// \return The cross section in cm^2 GeV^-1.
   double SingleDifferentialCrossSection(double E1, double E2, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const override;
   
+  /// \brief Returns the total neutrino cross section, averaged over the specified energy range.
+  double AverageTotalCrossSection(double EMin, double EMax, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const override;
+  
   /// \warning Not implemented; should not be used.
   double DoubleDifferentialCrossSection(double E, double x, double y, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const override;
   
diff --git a/src/xsections.cpp b/src/xsections.cpp
index ca89871..50090f8 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -932,6 +932,18 @@ double GlashowResonanceCrossSection::TotalCrossSection(double Enu, NeutrinoFlavo
    / (pow(1. - 2*m*Enu/(M_W*M_W), 2) + pow(W_total/M_W, 2)) / B_Muon / 3;
 }
   
+double GlashowResonanceCrossSection::AverageTotalCrossSection(double EMin, double EMax, NeutrinoFlavor flavor,
+ NeutrinoType neutype, Current current) const{
+  // The generic averaging requires monotonic functions, so treat the two sides of the resonance separately
+  const double EPeak = M_W*M_W/(2*constants.electron_mass);
+  if (EMin < EPeak and EPeak < EMax) {
+    double below = NeutrinoCrossSections::AverageTotalCrossSection(EMin, EPeak, flavor, neutype, current);
+    double above = NeutrinoCrossSections::AverageTotalCrossSection(EPeak, EMax, flavor, neutype, current);
+    return (below*(EPeak-EMin) + above*(EMax-EPeak))/(EMax-EMin);
+  }
+  return NeutrinoCrossSections::AverageTotalCrossSection(EMin, EMax, flavor, neutype, current);
+}
+  
 double GlashowResonanceCrossSection::SingleDifferentialCrossSection(double E1, double E2, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
   // only treat the glashow resonance
   if (not (flavor == electron and neutype == antineutrino and current == GR))
-- 
2.43.0


From 95863163eaf0aee76b7850bebc531edd0c5e1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 051/116] fix: neutral current potential in matter without
 electrons

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 948f037..473874b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -336,7 +336,7 @@ squids::SU_vector nuSQUIDS::HI(unsigned int ie, unsigned int irho) const{
     double NC;
 
     if (current_ye < 1.0e-10)
-      NC = HI_constants*current_density;
+      NC = -0.5*HI_constants*current_density;
     else
       NC = CC*(-0.5*(1.0-current_ye)/current_ye);
     // antineutrino matter potential flips sign
-- 
2.43.0


From a2975a4d407469529dedf632532dcffe03c1351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 052/116] fix: GetHamiltonian does not count H0 twice in the
 mass basis

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 473874b..b5d5a41 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1682,6 +1682,8 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
   PreDerive(Get_t());
+  if (basis == mass) // HI already contains H0
+    return HI(ei,rho,Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
 
-- 
2.43.0


From 90bb34f63d77687b7ed0aba04bdecd00400be4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 053/116] fix: the integration step follows the direction of
 the track

---
 src/nuSQuIDS.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b5d5a41..524c9bb 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -26,6 +26,7 @@
 #define H5Eset_auto_vers 2
 
 #include <nuSQuIDS/nuSQuIDS.h>
+#include <cmath>
 #include <cstring>
 #include <map>
 #include <sstream>
@@ -1250,11 +1251,11 @@ void nuSQUIDS::EvolveState(){
   if( !ioscillations && iinteraction)
     SetUpInteractionCache();
 
-  // is track time reversed
-  if(track->GetFinalX() < track->GetInitialX()){
-    // flip the arrow of time
-    Set_h((-1.0)*Get_h());
-  }
+  // the arrow of time follows the direction of the track
+  if(track->GetFinalX() < track->GetInitialX())
+    Set_h(-std::abs(Get_h()));
+  else
+    Set_h(std::abs(Get_h()));
 
   if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
-- 
2.43.0


From f44e7cea4e15d55df66b6a57834582c078faaa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 054/116] fix: evolution with positivity steps ends where the
 track ends

---
 src/nuSQuIDS.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 524c9bb..10c34d4 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -98,6 +98,8 @@ void nuSQUIDS::init(double xini){
   Set_h(1.*params.km);
   Set_h_max(std::numeric_limits<double>::max() );
 
+  positivization_scale = 300.0*params.km;
+
   //===============================
   // set parameters to default   //
   //===============================
@@ -1291,12 +1293,14 @@ void nuSQUIDS::EvolveState(){
   }
 
   if(positivization){
-    int positivization_steps = static_cast<int>((track->GetFinalX() - track->GetInitialX())/positivization_scale);
-    for (int i = 0; i < positivization_steps; i++){
-      Evolve(positivization_scale);
+    double length = track->GetFinalX() - track->GetInitialX();
+    double step = std::copysign(positivization_scale,length);
+    double positivization_steps = std::floor(length/step);
+    for (double i = 0; i < positivization_steps; i++){
+      Evolve(step);
       PositivizeFlavors();
     }
-    Evolve(track->GetFinalX()-positivization_scale*positivization_steps);
+    Evolve(length-step*positivization_steps);
     PositivizeFlavors();
   } else {
     Evolve(track->GetFinalX()-track->GetInitialX());
-- 
2.43.0


From 9ce3eb56891a923652ab447f46869e893ddb569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 055/116] fix: changing how the evolution is solved keeps the
 state

---
 include/nuSQuIDS/nuSQuIDS.h |  9 +++++---
 src/nuSQuIDS.cpp            | 42 ++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e39927..ec2adfb 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -450,11 +450,14 @@ protected:
     /// we do not current evolve mass projectors.
     void EvolveProjectors(double t);
 
+    /// \brief Changes the basis of solution and whether oscillations are considered,
+    /// keeping the state the same.
+    /// \details The state is stored in the interaction picture only when oscillations
+    /// are considered and the solution is not done in the mass basis.
+    void ChangePicture(Basis new_basis, bool new_ioscillations);
+
     // bool requirements
   private:
-    /// \brief Boolean that signals that the full hamiltonian including extra potentials should be used for 
-    /// the projector evolution
-    bool use_full_hamiltonian_for_projector_evolution = false;
     /// \brief Boolean that toggles debug information to be printed
     bool debug = false;
     /// \brief Boolean that signals the object correct initialization.
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 10c34d4..20f5579 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1262,10 +1262,10 @@ void nuSQUIDS::EvolveState(){
   if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
-    use_full_hamiltonian_for_projector_evolution = true;
     // turn off squids numerics
     Set_AnyNumerics(false);
     // disable interaction basis and go to mass basis
+    const Basis previous_basis = basis;
     Set_Basis(mass);
     double evolution_time = track->GetFinalX()-track->GetInitialX();
     // go go go
@@ -1287,6 +1287,9 @@ void nuSQUIDS::EvolveState(){
         //std::cout << "despues " << E_range[ie] << " " << tmp2 << std::endl;
       }
     }
+    // leave everything ready for any kind of further evolution
+    Set_AnyNumerics(true);
+    Set_Basis(previous_basis);
     if(progressbar)
       ProgressBar();
     return;
@@ -1563,8 +1566,6 @@ double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& a
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
-  if(use_full_hamiltonian_for_projector_evolution)
-    return evol_b1_proj[0][flv][0]*state[0].rho[0];
   return GetExpectationValue(b1_proj[0][flv], 0, 0, scale, avr);
 }
 
@@ -1599,8 +1600,6 @@ double nuSQUIDS::EvalFlavor(unsigned int flv) const{
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
-  if(use_full_hamiltonian_for_projector_evolution)
-    return evol_b1_proj[0][flv][0]*state[0].rho[0];
   return GetExpectationValue(b1_proj[0][flv], 0, 0);
 }
 
@@ -1623,7 +1622,7 @@ void nuSQUIDS::AntineutrinoCPFix(unsigned int rho){
   if(NT == antineutrino or (NT == both and rho == 1)){
     for(unsigned int i = 0; i < numneu; i++){
       for(unsigned int j = i+1; j < numneu; j++){
-        Set_CPPhase(i,j,-Get_CPPhase(i,j));
+        params.SetPhase(i,j,-params.GetPhase(i,j)); // does not invalidate the state
       }
     }
   }
@@ -2833,7 +2832,7 @@ void nuSQUIDS::Set_EvolLowPassScale(double val){
   evol_lowpass_scale = val;
 }
 void nuSQUIDS::Set_IncludeOscillations(bool opt){
-  ioscillations = opt;
+  ChangePicture(basis,opt);
 }
 
 void nuSQUIDS::Set_AllowConstantDensityOscillationOnlyEvolution(bool opt){
@@ -2903,7 +2902,34 @@ void nuSQUIDS::Set_MixingParametersToDefault(void){
 void nuSQUIDS::Set_Basis(Basis b){
   if ( b == flavor )
     throw std::runtime_error("nuSQUIDS::Set_Basis::Error: solution basis can only be nuSQUIDS::mass or nuSQUIDS::interaction.");
-  basis = b;
+  ChangePicture(b,ioscillations);
+}
+
+void nuSQUIDS::ChangePicture(Basis new_basis, bool new_ioscillations){
+  const bool before = (basis != mass and ioscillations);
+  const bool after = (new_basis != mass and new_ioscillations);
+  const double t = Get_t()-Get_t_initial();
+
+  if(istate and before and not after){
+    for(unsigned int ie = 0; ie < ne; ie++)
+      for(unsigned int rho = 0; rho < nrhos; rho++)
+        state[ie].rho[rho] = squids::SU_vector(state[ie].rho[rho].Evolve(H0_array[ie],-t));
+    SetIniFlavorProyectors();
+  }
+
+  basis = new_basis;
+  if(ioscillations != new_ioscillations){
+    ioscillations = new_ioscillations;
+    // without oscillations there is no vacuum Hamiltonian
+    iniH0();
+  }
+
+  if(istate and after and not before){
+    for(unsigned int ie = 0; ie < ne; ie++)
+      for(unsigned int rho = 0; rho < nrhos; rho++)
+        state[ie].rho[rho] = squids::SU_vector(state[ie].rho[rho].Evolve(H0_array[ie],t));
+    EvolveProjectors(Get_t());
+  }
 }
 
 nuSQUIDS::~nuSQUIDS(){}
-- 
2.43.0


From fb8473c8c1ac9ede063eb4d9da4148d381438a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 056/116] fix: cross sections of additional sterile flavors are
 asked for with a valid flavor

---
 src/nuSQuIDS.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 20f5579..43122bd 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1066,6 +1066,11 @@ void nuSQUIDS::GetCrossSections(){
       neutype_xs_dict = (std::map<unsigned int,NeutrinoCrossSections::NeutrinoType>){{0, NeutrinoCrossSections::neutrino},{1,NeutrinoCrossSections::antineutrino}};
     }
 
+    // everything which is not active is sterile
+    auto xsFlavor=[](unsigned int flv){
+      return flv<3 ? static_cast<NeutrinoCrossSections::NeutrinoFlavor>(flv) : NeutrinoCrossSections::sterile;
+    };
+
     auto validateCrossSection=[this](double value, double unit, const char* interaction, bool singleDiff, double neuE, double leptE, int flavor){
       //all active neutrino types should have sensible cross sections
       if(flavor<3 && (value<0.0 || std::isinf(value) || std::isnan(value))){
@@ -1095,24 +1100,24 @@ void nuSQUIDS::GetCrossSections(){
       for(unsigned int flv = 0; flv < numneu; flv++){
         for(unsigned int e1 = 0; e1 < ne; e1++){
           // differential cross sections
-          dsignudE_NC[neutype][flv][e1][0] = xs->SingleDifferentialCrossSection(E_range[e1],E_range[0],(NeutrinoCrossSections::NeutrinoFlavor)flv,neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2GeV;
+          dsignudE_NC[neutype][flv][e1][0] = xs->SingleDifferentialCrossSection(E_range[e1],E_range[0],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2GeV;
           validateCrossSection(dsignudE_NC[neutype][flv][e1][0],cm2GeV,"NC",true,E_range[e1],E_range[0],flv);
-          dsignudE_CC[neutype][flv][e1][0] = xs->SingleDifferentialCrossSection(E_range[e1],E_range[0],(NeutrinoCrossSections::NeutrinoFlavor)flv,neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2GeV;
+          dsignudE_CC[neutype][flv][e1][0] = xs->SingleDifferentialCrossSection(E_range[e1],E_range[0],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2GeV;
           validateCrossSection(dsignudE_CC[neutype][flv][e1][0],cm2GeV,"CC",true,E_range[e1],E_range[0],flv);
           for(unsigned int e2 = 1; e2 < e1; e2++){
-            dsignudE_NC[neutype][flv][e1][e2] = xs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],(NeutrinoCrossSections::NeutrinoFlavor)flv,neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2GeV;
+            dsignudE_NC[neutype][flv][e1][e2] = xs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2GeV;
             validateCrossSection(dsignudE_NC[neutype][flv][e1][e2],cm2GeV,"NC",true,E_range[e1],E_range[e2],flv);
-            dsignudE_CC[neutype][flv][e1][e2] = xs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],(NeutrinoCrossSections::NeutrinoFlavor)flv,neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2GeV;
+            dsignudE_CC[neutype][flv][e1][e2] = xs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2GeV;
             validateCrossSection(dsignudE_CC[neutype][flv][e1][e2],cm2GeV,"CC",true,E_range[e1],E_range[e2],flv);
           }
           // total cross sections
           if(e1>0) {
-            int_struct->sigma_CC[target][neutype][flv][e1] = xs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],(NeutrinoCrossSections::NeutrinoFlavor)flv,neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2;
-            int_struct->sigma_NC[target][neutype][flv][e1] = xs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],(NeutrinoCrossSections::NeutrinoFlavor)flv,neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2;
+            int_struct->sigma_CC[target][neutype][flv][e1] = xs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2;
+            int_struct->sigma_NC[target][neutype][flv][e1] = xs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2;
           }
           else {
-            int_struct->sigma_CC[target][neutype][flv][e1] = xs->TotalCrossSection(E_range[e1],static_cast<NeutrinoCrossSections::NeutrinoFlavor>(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2;
-            int_struct->sigma_NC[target][neutype][flv][e1] = xs->TotalCrossSection(E_range[e1],static_cast<NeutrinoCrossSections::NeutrinoFlavor>(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2;
+            int_struct->sigma_CC[target][neutype][flv][e1] = xs->TotalCrossSection(E_range[e1],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::CC)*cm2;
+            int_struct->sigma_NC[target][neutype][flv][e1] = xs->TotalCrossSection(E_range[e1],xsFlavor(flv),neutype_xs_dict[neutype],NeutrinoCrossSections::NC)*cm2;
           }
           validateCrossSection(int_struct->sigma_CC[target][neutype][flv][e1],cm2,"CC",false,E_range[e1],0,flv);
           validateCrossSection(int_struct->sigma_NC[target][neutype][flv][e1],cm2,"NC",false,E_range[e1],0,flv);
-- 
2.43.0


From e5525ca30b5624acd444414fe2d6e4d61c4f8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 057/116] fix: cross sections can be replaced after they have
 been used

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index ec2adfb..9c1126c 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1043,6 +1043,8 @@ protected:
     /// \brief Returns the neutrino interaction cross sections
     void SetNeutrinoCrossSections(std::shared_ptr<CrossSectionLibrary> xs) {
        ncs=xs;
+       // the values taken from the previous cross sections are no longer valid
+       int_struct.reset();
        interactions_initialized=false;
     }
 
-- 
2.43.0


From 60088001616a2a85cb05d7574c5e3d6ce1a44b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 058/116] fix: buffers of the interaction terms are always
 there and aligned as promised

---
 include/nuSQuIDS/nuSQuIDS.h | 11 +++++++----
 src/nuSQuIDS.cpp            | 37 ++++++++++++-------------------------
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 9c1126c..c9c4397 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -433,10 +433,10 @@ protected:
     ///Total size of interaction_cache_store
     size_t interaction_cache_store_size;
   
-    marray<double,3> nc_factors;
-    marray<double,2> tau_hadlep_decays;
-    marray<double,2> tau_lep_decays;
-    marray<double,1> gr_factors;
+    marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,2,aligned_allocator<double>> tau_hadlep_decays{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,2,aligned_allocator<double>> tau_lep_decays{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,1,aligned_allocator<double>> gr_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
   
     ///Initialize the interaction cahce data structures to the corretc sizes for
     ///the current problem.
@@ -536,6 +536,9 @@ protected:
     /// \param nTargets the number of target species for which to allocate space
     void InitializeInteractionVectors(unsigned int nTargets);
 
+    /// \brief Initializes the buffers in which the interaction terms are accumulated.
+    void InitializeInteractionBuffers();
+
     /// \brief Fills in auxiliary cross section arrays.
     /// \details It uses nuSQUIDS#ncs and nuSQUIDS#tdc to fill in the values of
     /// nuSQUIDS#dNdE_CC , nuSQUIDS#dNdE_NC , nuSQUIDS#sigma_CC , nuSQUIDS#sigma_NC ,
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 43122bd..bb49d3e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1032,19 +1032,19 @@ void nuSQUIDS::InitializeInteractions(){
     }
   }
   
-  if(iinteraction){
-    size_t rounded_ne=round_up_to_aligned(ne);
-    nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
-    if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
-    }
-    if(iglashow)
-      gr_factors.resize(std::vector<size_t>{rounded_ne});
-  }
+  if(iinteraction)
+    InitializeInteractionBuffers();
   
   interactions_initialized=true;
 }
+
+void nuSQUIDS::InitializeInteractionBuffers(){
+  size_t rounded_ne=round_up_to_aligned(ne);
+  nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
+  tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+  tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
+  gr_factors.resize(std::vector<size_t>{rounded_ne});
+}
   
 void nuSQUIDS::GetCrossSections(){
 
@@ -2265,14 +2265,7 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
       throw std::runtime_error("nuSQUIDS::ReadStateHDF5::No interaction structure provided.");
     } else {
       int_struct = iis;
-      size_t rounded_ne=round_up_to_aligned(ne);
-      nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
-      if(tauregeneration){
-        tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
-        tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
-      }
-      if(iglashow)
-        gr_factors.resize(std::vector<size_t>{rounded_ne});
+      InitializeInteractionBuffers();
       interactions_initialized = true;
     }
   }
@@ -2698,13 +2691,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       }
     }
 
-    nc_factors.resize(std::vector<size_t>{nrhos,3,ne});
-    if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,ne});
-    }
-    if(iglashow)
-      gr_factors.resize(std::vector<size_t>{ne});
+    InitializeInteractionBuffers();
 
     interactions_initialized = true;
   }
-- 
2.43.0


From 3fe83f27ce3b2191c6af28fb7e701021af9f430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 059/116] fix: the Glashow resonance can be switched on after
 the cross sections have been used

---
 src/nuSQuIDS.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index bb49d3e..01f554f 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1153,10 +1153,9 @@ void nuSQUIDS::GetCrossSections(){
   }
 
     // construct dNdE for Glashow resonance
-    if(iglashow && (NT == both or NT == antineutrino)){
-      auto gr_cs = ncs->crossSectionForTarget(electron);
-      if(!gr_cs)
-        throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
+    // even if it is not considered now, since it can be at any time
+    auto gr_cs = ncs->crossSectionForTarget(electron);
+    if(gr_cs && (NT == both or NT == antineutrino)){
       marray<double,2> dsignudE_GR{ne,ne};
       for(unsigned int e1 = 0; e1 < ne; e1++){
         if(e1>0)
@@ -1255,6 +1254,8 @@ void nuSQUIDS::EvolveState(){
   
   if( iinteraction && !interactions_initialized )
     InitializeInteractions();
+  if( iglashow && NT != neutrino && ncs && !ncs->hasTarget(electron) )
+    throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
   if( !ioscillations && iinteraction)
     SetUpInteractionCache();
 
-- 
2.43.0


From 76b7b7493e548ae82b28302086597323fd22fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 060/116] fix: bodies of constant density which emit neutrinos
 are not evolved as if they did not

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 01f554f..00a9249 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1265,7 +1265,7 @@ void nuSQUIDS::EvolveState(){
   else
     Set_h(std::abs(Get_h()));
 
-  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
+  if ( (body->IsConstantDensity() and not iinteraction and not enable_neutrino_sources) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
     // turn off squids numerics
-- 
2.43.0


From ee579a64d6bfc2dd570300491e65e201cf6b3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 061/116] fix: the flux from sources is added once without
 oscillations when there are neutrinos and antineutrinos

---
 src/nuSQuIDS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 00a9249..a183a1e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -843,6 +843,8 @@ void nuSQUIDS::UpdateInteractions(){
                                     (factors_nu_tau[e1]*projector_tau);
       }
 
+    }
+
     if(enable_neutrino_sources){
       for(unsigned int rho = 0; rho < nrhos; rho++){
         for(unsigned int e1=0; e1<ne; e1++){
@@ -855,8 +857,6 @@ void nuSQUIDS::UpdateInteractions(){
       }
     }
 
-    }
-
   } //end of no oscillation handling
   else{ //oscillations
     NUSQUIDS_DEBUG_LABEL(NC_contribution_osc);
-- 
2.43.0


From 380c477af64c2eec0c46778cb2bb2af7614ed883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 062/116] fix: the emission of a previous body does not
 continue in a body which emits nothing

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index a183a1e..f881105 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -283,6 +283,8 @@ void nuSQUIDS::PreDerive(double x){
   current_ye = body->ye(*track);
   current_density = body->density(*track);
   if(enable_neutrino_sources){
+    // bodies which emit nothing leave the flux alone
+    std::fill(current_external_flux.begin(),current_external_flux.end(),0.0);
     body->injected_neutrino_flux(current_external_flux,*track,*this);
     assert(current_external_flux.extent(0) == ne && current_external_flux.extent(1) == nrhos && current_external_flux.extent(2) == numneu);
   }
-- 
2.43.0


From 46ec96f2fb1693b97425ef1329c17e554b6b655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 063/116] fix: the basis and the use of neutrino sources are
 saved and restored with the state

---
 src/nuSQuIDS.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f881105..c228d01 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1766,6 +1766,10 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1);
   auxint = static_cast<int>(iglashow);
   H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1);
+  auxint = static_cast<int>(basis);
+  H5LTset_attribute_int(group, "basic", "basis", &auxint, 1);
+  auxint = static_cast<int>(enable_neutrino_sources);
+  H5LTset_attribute_int(group, "basic", "neutrino_sources", &auxint, 1);
   double auxt = Get_t();
   H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1);
   double auxt_ini = Get_t_initial();
@@ -2126,6 +2130,11 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if(err>=0) tauregeneration=auxint;
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
+  err=H5LTget_attribute_int(group, "basic", "basis", &auxint);
+  if(err>=0) basis=static_cast<Basis>(auxint);
+  bool neutrino_sources=false;
+  err=H5LTget_attribute_int(group, "basic", "neutrino_sources", &auxint);
+  if(err>=0) neutrino_sources=auxint;
 
   double squids_time;
   H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
@@ -2201,6 +2210,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   }
 
 
+  Set_NeutrinoSources(neutrino_sources);
+
   // read and set mixing parameters
   for( unsigned int i = 0; i < numneu; i++ ){
     for( unsigned int j = i+1; j < numneu; j++ ){
@@ -2238,8 +2249,9 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   current_density = body->density(*track);
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
-  // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  // evolve projectors to current time, if the state is in the interaction picture
+  if( basis != mass and ioscillations )
+    EvolveProjectors(squids_time);
 
   // reading state
   H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
@@ -2327,6 +2339,11 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if(err>=0) tauregeneration=auxint;
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
+  err=H5LTget_attribute_int(group, "basic", "basis", &auxint);
+  if(err>=0) basis=static_cast<Basis>(auxint);
+  bool neutrino_sources=false;
+  err=H5LTget_attribute_int(group, "basic", "neutrino_sources", &auxint);
+  if(err>=0) neutrino_sources=auxint;
 
   double squids_time;
   H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
@@ -2402,6 +2419,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     init(E_range,squids_time_initial);
   }
 
+  Set_NeutrinoSources(neutrino_sources);
+
   // read and set mixing parameters
   for( unsigned int i = 0; i < numneu; i++ ){
     for( unsigned int j = i+1; j < numneu; j++ ){
@@ -2439,8 +2458,9 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   current_density = body->density(*track);
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
-  // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  // evolve projectors to current time, if the state is in the interaction picture
+  if( basis != mass and ioscillations )
+    EvolveProjectors(squids_time);
 
   // reading state
   H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
-- 
2.43.0


From 16dc88334f645a84bace6e70da5029db5c7cb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 064/116] fix: states with one energy can be read whatever the
 neutrino type and the object

---
 src/nuSQuIDS.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index c228d01..f207ed7 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2200,9 +2200,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both and not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
@@ -2410,9 +2409,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both and not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
-- 
2.43.0


From fe0777bee5f8d98eedd698e5602f7dfea7c2286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 065/116] fix: an existing file is not replaced when a state is
 saved without overwriting

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f207ed7..53e2df3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1728,7 +1728,8 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
               H5Fopen(str.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
 
   if (file < 0) {// file could not be open. Create a new file.
-    file=H5File(H5Fcreate(str.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
+    // but do not replace an existing one, unless that was asked for.
+    file=H5File(H5Fcreate(str.c_str(), overwrite ? H5F_ACC_TRUNC : H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
     if (file < 0)
         throw std::runtime_error("nuSQUIDS: Error: Cannot create file at " + str + ".");
   }
-- 
2.43.0


From 9342b6379e8ef5518f8ab1a9867eaeaa2e2232cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 066/116] fix: the padding of the differential cross sections
 is looked for in an array which has that dimension

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 53e2df3..ee84b09 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1961,7 +1961,7 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       H5Handle dsetDSigmaGR(H5Dcreate2(xs_group,"dNdEgr",H5T_NATIVE_DOUBLE,dspaceDSigmaGR,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), H5Dclose, "create HDF5 dataset");
       
       //check the last dimension of the cross section arrays for padding
-      if(int_struct->dNdE_GR.extent(4)==ne){
+      if(int_struct->dNdE_CC.extent(4)==ne){
         //no padding, which makes writing easy; dataspaces are the same shape
         //write dNdE CC
         herr_t err=H5Dwrite(dsetDSigmaCC, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &*int_struct->dNdE_CC.begin());
-- 
2.43.0


From 124f9c9207fe5a8e704b84db20f47b1d1a76b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 067/116] fix: a state which cannot be written completely is
 reported

---
 src/nuSQuIDS.cpp | 63 +++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ee84b09..ace8363 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -73,6 +73,11 @@ std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* a
   return(std::string(buffer.get(),type_size));
 }
 
+void checkHDF5(herr_t err, const char* desc){
+  if(err<0)
+    throw std::runtime_error(std::string("Failed to ")+desc);
+}
+
 } // close unnamed namespace
 
 void nuSQUIDS::init(double xini){
@@ -1748,60 +1753,60 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
 
   // write the energy range
   hsize_t Edims[1]={E_range.extent(0)};
-  H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data());
+  checkHDF5(H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data()),"create HDF5 dataset");
 
   // write mixing parameters
   hsize_t dim[1]{1};
-  H5LTmake_dataset(group,"basic",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"mixingangles",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"CPphases",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"massdifferences",1,dim,H5T_NATIVE_DOUBLE,nullptr);
+  checkHDF5(H5LTmake_dataset(group,"basic",1,dim,H5T_NATIVE_DOUBLE,nullptr),"create HDF5 dataset");
+  checkHDF5(H5LTmake_dataset(group,"mixingangles",1,dim,H5T_NATIVE_DOUBLE,nullptr),"create HDF5 dataset");
+  checkHDF5(H5LTmake_dataset(group,"CPphases",1,dim,H5T_NATIVE_DOUBLE,nullptr),"create HDF5 dataset");
+  checkHDF5(H5LTmake_dataset(group,"massdifferences",1,dim,H5T_NATIVE_DOUBLE,nullptr),"create HDF5 dataset");
 
-  H5LTset_attribute_int(group, "basic","numneu",(const int*)&numneu, 1);
+  checkHDF5(H5LTset_attribute_int(group, "basic","numneu",(const int*)&numneu, 1),"write HDF5 attribute");
   int auxint = static_cast<int>(NT);
-  H5LTset_attribute_int(group, "basic","NT",&auxint,1);
-  H5LTset_attribute_string(group, "basic", "interactions", (iinteraction) ? "True":"False");
+  checkHDF5(H5LTset_attribute_int(group, "basic","NT",&auxint,1),"write HDF5 attribute");
+  checkHDF5(H5LTset_attribute_string(group, "basic", "interactions", (iinteraction) ? "True":"False"),"write HDF5 attribute");
   auxint = static_cast<int>(ioscillations);
-  H5LTset_attribute_int(group, "basic", "oscillations", &auxint, 1);
+  checkHDF5(H5LTset_attribute_int(group, "basic", "oscillations", &auxint, 1),"write HDF5 attribute");
   auxint = static_cast<int>(tauregeneration);
-  H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1);
+  checkHDF5(H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1),"write HDF5 attribute");
   auxint = static_cast<int>(iglashow);
-  H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1);
+  checkHDF5(H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1),"write HDF5 attribute");
   auxint = static_cast<int>(basis);
-  H5LTset_attribute_int(group, "basic", "basis", &auxint, 1);
+  checkHDF5(H5LTset_attribute_int(group, "basic", "basis", &auxint, 1),"write HDF5 attribute");
   auxint = static_cast<int>(enable_neutrino_sources);
-  H5LTset_attribute_int(group, "basic", "neutrino_sources", &auxint, 1);
+  checkHDF5(H5LTset_attribute_int(group, "basic", "neutrino_sources", &auxint, 1),"write HDF5 attribute");
   double auxt = Get_t();
-  H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1);
+  checkHDF5(H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1),"write HDF5 attribute");
   double auxt_ini = Get_t_initial();
-  H5LTset_attribute_double(group, "basic", "squids_time_initial", &auxt_ini,1);
+  checkHDF5(H5LTset_attribute_double(group, "basic", "squids_time_initial", &auxt_ini,1),"write HDF5 attribute");
 
   // version numbers
-  H5LTset_attribute_string(group, "basic", "squids_version", SQUIDS_VERSION_STR);
+  checkHDF5(H5LTset_attribute_string(group, "basic", "squids_version", SQUIDS_VERSION_STR),"write HDF5 attribute");
   unsigned int squids_version = SQUIDS_VERSION;
-  H5LTset_attribute_uint(group, "basic", "squids_version_number", &squids_version,1);
+  checkHDF5(H5LTset_attribute_uint(group, "basic", "squids_version_number", &squids_version,1),"write HDF5 attribute");
 
-  H5LTset_attribute_string(group, "basic", "nusquids_version", NUSQUIDS_VERSION_STR);
+  checkHDF5(H5LTset_attribute_string(group, "basic", "nusquids_version", NUSQUIDS_VERSION_STR),"write HDF5 attribute");
   unsigned int nusquids_version = NUSQUIDS_VERSION;
-  H5LTset_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version,1);
+  checkHDF5(H5LTset_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version,1),"write HDF5 attribute");
 
   // set mixing angles
   for( unsigned int i = 0; i < numneu; i++ ){
     for( unsigned int j = i+1; j < numneu; j++ ){
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
       double th_value = params.GetMixingAngle(i,j);
-      H5LTset_attribute_double(group, "mixingangles",th_label.c_str(),&th_value, 1);
+      checkHDF5(H5LTset_attribute_double(group, "mixingangles",th_label.c_str(),&th_value, 1),"write HDF5 attribute");
 
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
       double delta_value = params.GetPhase(i,j);
-      H5LTset_attribute_double(group, "CPphases",delta_label.c_str(),&delta_value, 1);
+      checkHDF5(H5LTset_attribute_double(group, "CPphases",delta_label.c_str(),&delta_value, 1),"write HDF5 attribute");
     }
   }
 
   for ( unsigned int i = 1; i < numneu; i++ ){
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
     double dm2_value = params.GetEnergyDifference(i);
-    H5LTset_attribute_double(group, "massdifferences",dm2_label.c_str(),&dm2_value, 1);
+    checkHDF5(H5LTset_attribute_double(group, "massdifferences",dm2_label.c_str(),&dm2_value, 1),"write HDF5 attribute");
   }
 
   //writing state
@@ -1826,17 +1831,15 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
     }
   }
 
-  H5LTmake_dataset(group,"neustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(neustate.data()));
-  H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data()));
+  checkHDF5(H5LTmake_dataset(group,"neustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(neustate.data())),"create HDF5 dataset");
+  checkHDF5(H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data())),"create HDF5 dataset");
 
   // writing body and track information
-  hid_t track_group_id = H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  track->Serialize(track_group_id);
-  H5Gclose(track_group_id);
+  H5Handle track_group(H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group");
+  track->Serialize(track_group);
 
-  hid_t body_group_id = H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  body->Serialize(body_group_id);
-  H5Gclose(body_group_id);
+  H5Handle body_group(H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group");
+  body->Serialize(body_group);
 
   // writing cross section information
   H5Handle xs_group;
-- 
2.43.0


From 1997dfa4593f59bbe3b60cd1a9a77d22621f557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 068/116] fix: incomplete and malformed states are refused when
 they are read

---
 src/nuSQuIDS.cpp | 217 ++++++++++++++++++++++++++---------------------
 1 file changed, 122 insertions(+), 95 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ace8363..10f1a78 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -56,8 +56,8 @@ std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* a
   err=H5LTget_attribute_ndims(loc_id,obj_name,attr_name,&rank);
   if(err<0)
     throw std::runtime_error("Failed to get dimensionality of attribute " + std::string(attr_name)+" of object "+std::string(obj_name));
-  if(rank!=1)
-    throw std::runtime_error("Attribute "+std::string(attr_name) +" of object "+std::string(obj_name)+" is not one-dimensional");
+  if(rank!=0 and rank!=1)
+    throw std::runtime_error("Attribute "+std::string(attr_name) +" of object "+std::string(obj_name)+" is not a single string");
   hsize_t dims;
   H5T_class_t type_class;
   size_t type_size;
@@ -78,6 +78,19 @@ void checkHDF5(herr_t err, const char* desc){
     throw std::runtime_error(std::string("Failed to ")+desc);
 }
 
+std::vector<hsize_t> getDatasetDimensions(hid_t loc_id, const char* name){
+  int rank;
+  checkHDF5(H5LTget_dataset_ndims(loc_id,name,&rank),"get rank of HDF5 dataset");
+  std::vector<hsize_t> dims(rank);
+  checkHDF5(H5LTget_dataset_info(loc_id,name,dims.data(),nullptr,nullptr),"get dimensions of HDF5 dataset");
+  return(dims);
+}
+
+void checkDatasetDimensions(hid_t loc_id, const char* name, const std::vector<hsize_t>& expected){
+  if(getDatasetDimensions(loc_id,name)!=expected)
+    throw std::runtime_error("HDF5 dataset "+std::string(name)+" does not have the expected dimensions");
+}
+
 } // close unnamed namespace
 
 void nuSQUIDS::init(double xini){
@@ -2113,20 +2126,20 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  checkHDF5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"read HDF5 attribute");
   // neutrino/antineutrino/both
   int auxint;
-  char auxchar[20];
   herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  checkHDF5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read HDF5 attribute");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
-  std::string aux = auxchar;
+  std::string aux = getStringAttribute(group,"basic","interactions").c_str();
   if ( aux == "True")
     iinteraction = true;
-  else
+  else if ( aux == "False")
     iinteraction = false;
+  else
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Use of interactions is neither True nor False.");
 
   err=H5LTget_attribute_int(group, "basic", "oscillations", &auxint);
   if(err>=0) ioscillations=auxint;
@@ -2141,21 +2154,21 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if(err>=0) neutrino_sources=auxint;
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  checkHDF5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read HDF5 attribute");
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  checkHDF5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"read HDF5 attribute");
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  checkHDF5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"read HDF5 attribute");
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  checkHDF5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"read HDF5 attribute");
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2171,34 +2184,37 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     track=GetTrackDeserializer(track_name)(track_group);
   } else {
     unsigned int body_id;
-    hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    checkHDF5(H5LTget_attribute_uint(group,"body","ID",&body_id),"read HDF5 attribute");
 
-    H5LTget_dataset_info(group,"body", dimbody,nullptr,nullptr);
-    double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    const std::vector<hsize_t> dimbody = getDatasetDimensions(group,"body");
+    if(dimbody.size()!=1)
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed body.");
+    std::unique_ptr<double[]> body_params(new double[dimbody[0]]);
+    checkHDF5(H5LTread_dataset_double(group,"body", body_params.get()),"read HDF5 dataset");
 
-    hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track", dimtrack ,nullptr,nullptr);
+    const std::vector<hsize_t> dimtrack = getDatasetDimensions(group,"track");
+    if(dimtrack.size()!=1)
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed track.");
     std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    checkHDF5(H5LTread_dataset_double(group,"track", track_params.get()),"read HDF5 dataset");
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    checkHDF5(H5LTget_attribute_double(group,"track","X",&x_current),"read HDF5 attribute");
 
     // setting body and track
-    SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
+    SetBodyTrack(body_id,dimbody[0],body_params.get(),dimtrack[0],track_params.get());
     // set trayectory to current time
     track->SetX(x_current);
   }
 
   // reading energy
-  hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  std::vector<hsize_t> dims = getDatasetDimensions(group, "energies");
+  if(dims.size()!=1 or dims[0]<1)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed energies.");
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  checkHDF5(H5LTread_dataset_double(group, "energies", energy_data.get()),"read HDF5 dataset");
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2220,12 +2236,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      checkHDF5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"read HDF5 attribute");
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      checkHDF5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"read HDF5 attribute");
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2233,7 +2249,7 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    checkHDF5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"read HDF5 attribute");
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2257,13 +2273,18 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  const std::vector<hsize_t> statedims{ne,numneu*numneu};
+  dims = getDatasetDimensions(group,"neustate");
+  if(dims!=statedims)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed neutrino state.");
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  checkHDF5(H5LTread_dataset_double(group,"neustate", neudata.get()),"read HDF5 dataset");
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  dims = getDatasetDimensions(group,"aneustate");
+  if(dims!=statedims)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed antineutrino state.");
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  checkHDF5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"read HDF5 dataset");
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2289,11 +2310,10 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open HDF5 group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
@@ -2321,20 +2341,20 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  checkHDF5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"read HDF5 attribute");
   // neutrino/antineutrino/both
   int auxint;
-  char auxchar[20];
   herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  checkHDF5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read HDF5 attribute");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
-  std::string aux = auxchar;
+  std::string aux = getStringAttribute(group,"basic","interactions").c_str();
   if ( aux == "True")
     iinteraction = true;
-  else
+  else if ( aux == "False")
     iinteraction = false;
+  else
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Use of interactions is neither True nor False.");
   
   err=H5LTget_attribute_int(group, "basic", "oscillations", &auxint);
   if(err>=0) ioscillations=auxint;
@@ -2349,21 +2369,21 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if(err>=0) neutrino_sources=auxint;
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  checkHDF5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read HDF5 attribute");
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  checkHDF5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"read HDF5 attribute");
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  checkHDF5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"read HDF5 attribute");
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  checkHDF5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"read HDF5 attribute");
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2379,35 +2399,38 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     track=GetTrackDeserializer(track_name)(track_group);
   } else {
     unsigned int body_id;
-    hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    checkHDF5(H5LTget_attribute_uint(group,"body","ID",&body_id),"read HDF5 attribute");
 
-    H5LTget_dataset_info(group,"body",dimbody,nullptr,nullptr);
-    double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    const std::vector<hsize_t> dimbody = getDatasetDimensions(group,"body");
+    if(dimbody.size()!=1)
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed body.");
+    std::unique_ptr<double[]> body_params(new double[dimbody[0]]);
+    checkHDF5(H5LTread_dataset_double(group,"body", body_params.get()),"read HDF5 dataset");
 
-    hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track",dimtrack,nullptr,nullptr);
+    const std::vector<hsize_t> dimtrack = getDatasetDimensions(group,"track");
+    if(dimtrack.size()!=1)
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed track.");
     std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    checkHDF5(H5LTread_dataset_double(group,"track", track_params.get()),"read HDF5 dataset");
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    checkHDF5(H5LTget_attribute_double(group,"track","X",&x_current),"read HDF5 attribute");
 
     // setting body and track
-    SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
+    SetBodyTrack(body_id,dimbody[0],body_params.get(),dimtrack[0],track_params.get());
 
     // set trayectory to current time
     track->SetX(x_current);
   }
 
   // reading energy
-  hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  std::vector<hsize_t> dims = getDatasetDimensions(group, "energies");
+  if(dims.size()!=1 or dims[0]<1)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed energies.");
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  checkHDF5(H5LTread_dataset_double(group, "energies", energy_data.get()),"read HDF5 dataset");
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2428,12 +2451,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      checkHDF5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"read HDF5 attribute");
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      checkHDF5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"read HDF5 attribute");
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2441,7 +2464,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    checkHDF5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"read HDF5 attribute");
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2465,13 +2488,18 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  const std::vector<hsize_t> statedims{ne,numneu*numneu};
+  dims = getDatasetDimensions(group,"neustate");
+  if(dims!=statedims)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed neutrino state.");
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  checkHDF5(H5LTread_dataset_double(group,"neustate", neudata.get()),"read HDF5 dataset");
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  dims = getDatasetDimensions(group,"aneustate");
+  if(dims!=statedims)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Malformed antineutrino state.");
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  checkHDF5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"read HDF5 dataset");
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2499,21 +2527,16 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 	  
     // figure out how many target types we're dealing with
     unsigned int nTargets=0;
-    std::vector<hsize_t> XSdim, dXSdim; //sizes to be determined
     if(nusquids_version<101100){
       nTargets=1; //old versions only understood isoscalar crosssections
       int_struct->targets={isoscalar_nucleon};
-      
-      XSdim.resize(3); //total xs tables were always rank 3
-      dXSdim.resize(4); //differential xs tables were rank 4
     }
     else{
       //new files record the specific targets tabulated
-      hsize_t rawNTargets=0;
-      H5LTget_dataset_info(xs_grp,"targets",&rawNTargets,nullptr,nullptr);
-      if(rawNTargets<1)
+      const std::vector<hsize_t> targetDims = getDatasetDimensions(xs_grp,"targets");
+      if(targetDims.size()!=1 or targetDims[0]<1)
         throw std::runtime_error("Number of target types for cross sections does not make sense");
-      nTargets=rawNTargets;
+      nTargets=targetDims[0];
       int_struct->targets.resize(nTargets);
       H5Handle targetsDSet(H5Dopen2(xs_grp,"targets",H5P_DATASET_ACCESS_DEFAULT),H5Dclose,"open targets dataset");
       static_assert(sizeof(std::underlying_type<PDGCode>::type)==(32/CHAR_BIT), "Following code assumes PDGCode is int32_t");
@@ -2522,16 +2545,20 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       if(err<0)
         throw std::runtime_error("Failed to read data from HDF5 dataset (targets)");
       
-      XSdim.resize(4); //newer total xs tables are rank 4
-      dXSdim.resize(5); //and differntial xs tables are rank 5
     }
     
-    //get the actual dimensions of the main tables
-    H5LTget_dataset_info(xs_grp,"sigmacc",&XSdim[0],nullptr,nullptr);
-    H5LTget_dataset_info(xs_grp,"dNdEcc",&dXSdim[0],nullptr,nullptr);
-    
-    if(!nTargets) //if we don't yet know this, we're reading a new file and it's in the dataset dimensions
-      nTargets=XSdim.front(); //first dimension is target type
+    //the tables must be those of these energies, neutrino types and flavors
+    std::vector<hsize_t> XSdim{nTargets,nrhos,numneu,ne}, dXSdim{nTargets,nrhos,numneu,ne,ne};
+    if(nusquids_version<101100){ //old tables have no dimension for the target type
+      XSdim.erase(XSdim.begin());
+      dXSdim.erase(dXSdim.begin());
+    }
+    for(const char* name : {"sigmacc","sigmanc"})
+      checkDatasetDimensions(xs_grp,name,XSdim);
+    checkDatasetDimensions(xs_grp,"sigmagr",{ne});
+    for(const char* name : {"dNdEcc","dNdEnc"})
+      checkDatasetDimensions(xs_grp,name,dXSdim);
+    checkDatasetDimensions(xs_grp,"dNdEgr",{ne,ne});
 
     // initialize vectors
     InitializeInteractionVectors(nTargets);
@@ -2654,8 +2681,13 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       H5Handle dNdEtauall(H5Dopen2(xs_grp,"dNdEtauall",H5P_DATASET_ACCESS_DEFAULT),H5Dclose,"open dNdEtauall dataset");
       H5Handle dNdEtaulep(H5Dopen2(xs_grp,"dNdEtaulep",H5P_DATASET_ACCESS_DEFAULT),H5Dclose,"open dNdEtaulep dataset");
       
-      int tau_spectra_rank;
-      H5LTget_dataset_ndims(xs_grp,"dNdEtauall",&tau_spectra_rank);
+      const int tau_spectra_rank = getDatasetDimensions(xs_grp,"dNdEtauall").size();
+      for(const char* name : {"dNdEtauall","dNdEtaulep"}){
+        if(tau_spectra_rank == 3)
+          checkDatasetDimensions(xs_grp,name,{nrhos,ne,ne});
+        else
+          checkDatasetDimensions(xs_grp,name,{ne,ne});
+      }
       
       if(tau_spectra_rank == 3){ // spectra with polarization
         //check for padding
@@ -2694,13 +2726,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
         }
       }
       else if (tau_spectra_rank == 2) { // legacy data with polarization averaged
-        hsize_t dNdEtaudim[2];
-        H5LTget_dataset_info(xs_grp,"dNdEtauall", dNdEtaudim,nullptr,nullptr);
-        
-        std::unique_ptr<double[]> dNdEtauall(new double[dNdEtaudim[0]*dNdEtaudim[1]]);
-        H5LTread_dataset_double(xs_grp,"dNdEtauall", dNdEtauall.get());
-        std::unique_ptr<double[]> dNdEtaulep(new double[dNdEtaudim[0]*dNdEtaudim[1]]);
-        H5LTread_dataset_double(xs_grp,"dNdEtaulep", dNdEtaulep.get());
+        std::unique_ptr<double[]> dNdEtauall(new double[ne*ne]);
+        checkHDF5(H5LTread_dataset_double(xs_grp,"dNdEtauall", dNdEtauall.get()),"read HDF5 dataset");
+        std::unique_ptr<double[]> dNdEtaulep(new double[ne*ne]);
+        checkHDF5(H5LTread_dataset_double(xs_grp,"dNdEtaulep", dNdEtaulep.get()),"read HDF5 dataset");
         
         for(unsigned int rho = 0; rho < nrhos; rho++){
           for( unsigned int e1 = 0; e1 < ne; e1++){
@@ -2722,11 +2751,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open HDF5 group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
@@ -2793,8 +2821,7 @@ void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len,
         }
       default:
         {
-          std::cerr << "nuSQUIDS::SetBodyTrack : unknown body/track" << std::endl;
-          exit(1);
+          throw std::runtime_error("nuSQUIDS::SetBodyTrack : unknown body/track");
         }
     }
 }
-- 
2.43.0


From f39759424cd97ad9c8c37a13c3bb86c496bd5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 069/116] fix: interaction structures of another size are
 refused when a state is read

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 10f1a78..811bd93 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2302,6 +2302,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if(iinteraction) {
     if ( iis == nullptr ){
       throw std::runtime_error("nuSQUIDS::ReadStateHDF5::No interaction structure provided.");
+    } else if ( iis->dNdE_CC.extent(1) != nrhos or iis->dNdE_CC.extent(2) != numneu or iis->dNdE_CC.extent(3) != ne ){
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::The interaction structure provided is for other energies, neutrino types or flavors.");
     } else {
       int_struct = iis;
       InitializeInteractionBuffers();
-- 
2.43.0


From 46058840492c8d6f5307c3fe0058ba548c116a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 070/116] fix: states of unknown neutrino type or basis are
 refused when they are read

---
 src/nuSQuIDS.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 811bd93..676ec12 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2131,6 +2131,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   int auxint;
   herr_t err;
   checkHDF5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read HDF5 attribute");
+  if ( auxint != neutrino and auxint != antineutrino and auxint != both )
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Unknown neutrino type.");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
   std::string aux = getStringAttribute(group,"basic","interactions").c_str();
@@ -2148,7 +2150,11 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
   err=H5LTget_attribute_int(group, "basic", "basis", &auxint);
-  if(err>=0) basis=static_cast<Basis>(auxint);
+  if(err>=0){
+    if ( auxint != mass and auxint != interaction )
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Unknown basis.");
+    basis=static_cast<Basis>(auxint);
+  }
   bool neutrino_sources=false;
   err=H5LTget_attribute_int(group, "basic", "neutrino_sources", &auxint);
   if(err>=0) neutrino_sources=auxint;
@@ -2348,6 +2354,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   int auxint;
   herr_t err;
   checkHDF5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read HDF5 attribute");
+  if ( auxint != neutrino and auxint != antineutrino and auxint != both )
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Unknown neutrino type.");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
   std::string aux = getStringAttribute(group,"basic","interactions").c_str();
@@ -2365,7 +2373,11 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
   if(err>=0) iglashow=auxint;
   err=H5LTget_attribute_int(group, "basic", "basis", &auxint);
-  if(err>=0) basis=static_cast<Basis>(auxint);
+  if(err>=0){
+    if ( auxint != mass and auxint != interaction )
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: Unknown basis.");
+    basis=static_cast<Basis>(auxint);
+  }
   bool neutrino_sources=false;
   err=H5LTget_attribute_int(group, "basic", "neutrino_sources", &auxint);
   if(err>=0) neutrino_sources=auxint;
-- 
2.43.0


From e20050722be387cfcf59825c20560d0e893131b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 071/116] fix: the Hamiltonian can be asked for before an
 evolution with interactions

---
 src/nuSQuIDS.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 676ec12..f3d6a0b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -515,7 +515,7 @@ void nuSQUIDS::SetUpInteractionCache(){
   //check whether initialization has already been done
   if(interaction_cache.extent(0)==nrhos &&
      interaction_cache.extent(1)==ne &&
-     interaction_cache_store)
+     interaction_cache_store && interaction_cache[0][0].Dim()==numneu)
     return;
   const size_t nvectors=nrhos*ne;
   const size_t vector_size=numneu*numneu;
@@ -1711,6 +1711,12 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if (!ibody or !itrack)
+    throw std::runtime_error("nuSQUIDS::Error::Body or track not initialized");
+  if( iinteraction && !interactions_initialized )
+    InitializeInteractions();
+  if( iinteraction && !ioscillations )
+    SetUpInteractionCache();
   PreDerive(Get_t());
   if (basis == mass) // HI already contains H0
     return HI(ei,rho,Get_t());
-- 
2.43.0


From 4081423f6fcf2849d0fa7b950f822df25e33c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 072/116] fix: the interaction cache does not keep vectors in
 memory which has been freed when its size changes

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f3d6a0b..7392590 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -576,6 +576,8 @@ void nuSQUIDS::SetUpInteractionCache(){
   interaction_cache_store_size=headroom + nvectors*vector_size + (nvectors-1)*padding;
   //std::cout << "Allocating " << interaction_cache_store_size*sizeof(double) << " bytes" << std::endl;
   //std::cout << " space wasted achieving alignment: " << (headroom + (nvectors-1)*padding)*sizeof(double) << " bytes" << std::endl;
+  //vectors of a previous size refer to the store which is about to be replaced
+  interaction_cache=marray<squids::SU_vector,2>();
   interaction_cache_store.reset(new double[interaction_cache_store_size]);
   
   interaction_cache.resize(std::initializer_list<size_t>{nrhos,ne});
-- 
2.43.0


From f5d9838e3968881100e602d0c0293640a20ec298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 073/116] fix: copies of interaction tables keep the targets
 and are compared by them

---
 include/nuSQuIDS/nuSQuIDS.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index c9c4397..dee83c2 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -208,6 +208,7 @@ protected:
         {}
         /// \brief Assignment operator
         InteractionStructure& operator=(const InteractionStructure& other){
+          targets=other.targets;
           dNdE_CC=other.dNdE_CC;
           dNdE_NC=other.dNdE_NC;
           dNdE_GR=other.dNdE_GR;
@@ -220,6 +221,7 @@ protected:
         }
         /// \brief Move assignment operator
         InteractionStructure& operator=(InteractionStructure&& other){
+          targets=std::move(other.targets);
           dNdE_CC=std::move(other.dNdE_CC);
           dNdE_NC=std::move(other.dNdE_NC);
           dNdE_GR=std::move(other.dNdE_GR);
@@ -232,6 +234,9 @@ protected:
         }
         /// \brief Equality operator
         bool operator==(const InteractionStructure& other) const{
+          if ( targets != other.targets )
+            return false;
+
           if (
                dNdE_CC.size() != other.dNdE_CC.size() or
                dNdE_NC.size() != other.dNdE_NC.size() or
@@ -278,6 +283,7 @@ protected:
         }
         /// \brief Copy constructor operator
         InteractionStructure(InteractionStructure& other):
+          targets(other.targets),
           dNdE_CC(other.dNdE_CC),dNdE_NC(other.dNdE_NC),dNdE_GR(other.dNdE_GR),
           sigma_CC(other.sigma_CC),sigma_NC(other.sigma_NC),sigma_GR(other.sigma_GR),
           dNdE_tau_all(other.dNdE_tau_all),
@@ -285,6 +291,7 @@ protected:
         {}
         /// \brief Move constructor operator
         InteractionStructure(InteractionStructure&& other):
+          targets(std::move(other.targets)),
           dNdE_CC(std::move(other.dNdE_CC)),dNdE_NC(std::move(other.dNdE_NC)),dNdE_GR(std::move(other.dNdE_GR)),
           sigma_CC(std::move(other.sigma_CC)),sigma_NC(std::move(other.sigma_NC)),sigma_GR(std::move(other.sigma_GR)),
           dNdE_tau_all(std::move(other.dNdE_tau_all)),
-- 
2.43.0


From 64d777012fb2b27a6d0b4e50fc735bc7079deee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 074/116] fix: moved objects keep all of their settings and of
 their state

---
 src/nuSQuIDS.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 7392590..2089795 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -3020,23 +3020,39 @@ H0_array(std::move(other.H0_array)),
 HI_constants(other.HI_constants),
 current_density(other.current_density),
 current_ye(other.current_ye),
+current_external_flux(std::move(other.current_external_flux)),
 b0_proj(std::move(other.b0_proj)),
 b1_proj(std::move(other.b1_proj)),
 evol_b0_proj(std::move(other.evol_b0_proj)),
 evol_b1_proj(std::move(other.evol_b1_proj)),
+interaction_cache(std::move(other.interaction_cache)),
+interaction_cache_store(std::move(other.interaction_cache_store)),
+interaction_cache_store_size(other.interaction_cache_store_size),
+nc_factors(std::move(other.nc_factors)),
+tau_hadlep_decays(std::move(other.tau_hadlep_decays)),
+tau_lep_decays(std::move(other.tau_lep_decays)),
+gr_factors(std::move(other.gr_factors)),
+debug(other.debug),
 inusquids(other.inusquids),
 ibody(other.ibody),
 ienergy(other.ienergy),
 itrack(other.itrack),
 istate(other.istate),
 iinteraction(other.iinteraction),
+interactions_initialized(other.interactions_initialized),
 ioscillations(other.ioscillations),
 tauregeneration(other.tauregeneration),
 iglashow(other.iglashow),
 positivization(other.positivization),
+allowConstantDensityOscillationOnlyEvolution(other.allowConstantDensityOscillationOnlyEvolution),
 progressbar(other.progressbar),
 progressbar_count(other.progressbar_count),
-progressbar_loop(other.progressbar_loop)
+progressbar_loop(other.progressbar_loop),
+time_offset(other.time_offset),
+gsl_int_precision(other.gsl_int_precision),
+evol_lowpass_cutoff(other.evol_lowpass_cutoff),
+evol_lowpass_scale(other.evol_lowpass_scale),
+enable_neutrino_sources(other.enable_neutrino_sources)
 {
   other.inusquids=false; //other is no longer usable, since we stole its contents
 }
@@ -3064,24 +3080,40 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   HI_constants = other.HI_constants;
   current_density = other.current_density;
   current_ye = other.current_ye;
+  current_external_flux = std::move(other.current_external_flux);
   b0_proj = std::move(other.b0_proj);
   b1_proj = std::move(other.b1_proj);
   evol_b0_proj = std::move(other.evol_b0_proj);
   evol_b1_proj = std::move(other.evol_b1_proj);
-
+  interaction_cache = std::move(other.interaction_cache);
+  interaction_cache_store = std::move(other.interaction_cache_store);
+  interaction_cache_store_size = other.interaction_cache_store_size;
+  nc_factors = std::move(other.nc_factors);
+  tau_hadlep_decays = std::move(other.tau_hadlep_decays);
+  tau_lep_decays = std::move(other.tau_lep_decays);
+  gr_factors = std::move(other.gr_factors);
+
+  debug = other.debug;
   inusquids = other.inusquids;
   ibody = other.ibody;
   ienergy = other.ienergy;
   itrack = other.itrack;
   istate = other.istate;
   iinteraction = other.iinteraction;
+  interactions_initialized = other.interactions_initialized;
   ioscillations = other.ioscillations;
   tauregeneration = other.tauregeneration;
   iglashow = other.iglashow;
   positivization = other.positivization;
+  allowConstantDensityOscillationOnlyEvolution = other.allowConstantDensityOscillationOnlyEvolution;
   progressbar = other.progressbar;
   progressbar_count = other.progressbar_count;
   progressbar_loop = other.progressbar_loop;
+  time_offset = other.time_offset;
+  gsl_int_precision = other.gsl_int_precision;
+  evol_lowpass_cutoff = other.evol_lowpass_cutoff;
+  evol_lowpass_scale = other.evol_lowpass_scale;
+  enable_neutrino_sources = other.enable_neutrino_sources;
 
   NT = other.NT;
 
-- 
2.43.0


From 5db051512738d1cf9d7a97b355471167ca4e8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 075/116] fix: objects which have been moved away are refused
 when they are evolved

---
 src/nuSQuIDS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2089795..22bf2dd 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -275,6 +275,7 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
   //===============================
   // END                         //
   //===============================
+  inusquids = true;
 }
 
 void nuSQUIDS::InitializeInteractionVectors(unsigned int nTargets){
@@ -1260,6 +1261,9 @@ void nuSQUIDS::Set_PositivityConstrainStep(double step){
 }
 
 void nuSQUIDS::EvolveState(){
+  // default constructed objects and objects which have been moved away have nothing to evolve
+  if ( not inusquids )
+    throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs not initialized.");
   // check for BODY and TRACK status
   if ( body == nullptr )
     throw std::runtime_error("nuSQUIDS::Error::BODY is a NULL pointer");
-- 
2.43.0


From 4a7c558838de420d7bb5a913d2fc783ba26e4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 076/116] fix: flavors, nodes, types and energies which are not
 there are refused by the evaluations

---
 src/nuSQuIDS.cpp | 56 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 22bf2dd..3664a4f 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1494,22 +1494,26 @@ size_t nuSQUIDS::GetNumE() const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( basis == mass )
-    return b0_proj[flv]*GetIntermediateState(rho,EE);
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate this rho in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  if ( basis == mass )
+    return b0_proj[flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b0_proj[flv], rho, EE);
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate this rho in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
   if ( basis == mass )
@@ -1520,9 +1524,11 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate this rho in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
   if (avr.size() != numneu)
@@ -1535,9 +1541,11 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate this rho in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
   if (avr.size() != numneu)
@@ -1550,8 +1558,12 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
 double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy index greater than number of energy nodes.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate this rho in this NT mode.");
   if(basis == mass)
     return b0_proj[flv]*state[ei].rho[rho];
   return GetExpectationValue(b0_proj[flv], rho, ei);
@@ -1560,8 +1572,12 @@ double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int
 double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy index greater than number of energy nodes.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate this rho in this NT mode.");
   if(basis == mass)
     return b1_proj[rho][flv]*state[ei].rho[rho];
   return GetExpectationValue(b1_proj[rho][flv], rho, ei);
@@ -1578,6 +1594,8 @@ double nuSQUIDS::EvalMass(unsigned int flv, double scale, std::vector<bool>& avr
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if (avr.size() != numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
 
   if(basis == mass)
     return b0_proj[flv]*state[0].rho[0];
@@ -1595,6 +1613,8 @@ double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& a
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if (avr.size() != numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
-- 
2.43.0


From bf915851cce54f0e398500406c6ff6fe7260c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 077/116] fix: mixing parameters of one flavor too many are
 refused

---
 src/nuSQuIDS.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 3664a4f..f88ec78 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2938,40 +2938,40 @@ std::shared_ptr<Body> nuSQUIDS::GetBody(){
 }
 
 void nuSQUIDS::Set_MixingAngle( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   params.SetMixingAngle(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_MixingAngle( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   return params.GetMixingAngle(i,j);
 }
 
 void nuSQUIDS::Set_CPPhase( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   params.SetPhase(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_CPPhase( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   return params.GetPhase(i,j);
 }
 
 void nuSQUIDS::Set_SquareMassDifference( unsigned int i, double val){
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   params.SetEnergyDifference(i,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_SquareMassDifference( unsigned int i ) const {
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   return params.GetEnergyDifference(i);
 }
-- 
2.43.0


From f946d2858728278b825d33403dca4290d7f798aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 078/116] fix: states, projectors and Hamiltonians which are
 not there are refused

---
 include/nuSQuIDS/nuSQuIDS.h | 6 ++++++
 src/nuSQuIDS.cpp            | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index dee83c2..5971386 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -902,14 +902,20 @@ protected:
     squids::SU_vector GetHamiltonian(unsigned int ei, unsigned int rho = 0);
     /// \brief Returns the state
     const squids::SU_vector& GetState(unsigned int ei,unsigned int rho = 0) const{
+      if(ei >= ne || rho >= nrhos)
+        throw std::runtime_error("nuSQUIDS::GetState::Error: Energy or equation index out of range.");
       return state[ei].rho[rho];
     }
     /// \brief Returns the flavor projector
     const squids::SU_vector& GetFlavorProj(unsigned int flv,unsigned int rho = 0) const{
+      if(flv >= numneu || rho >= nrhos)
+        throw std::runtime_error("nuSQUIDS::GetFlavorProj::Error: Flavor or equation index out of range.");
       return b1_proj[rho][flv];
     }
     /// \brief Returns the mass projector
     const squids::SU_vector& GetMassProj(unsigned int flv,unsigned int rho = 0) const{
+      if(flv >= numneu || rho >= nrhos)
+        throw std::runtime_error("nuSQUIDS::GetMassProj::Error: Mass or equation index out of range.");
       return b0_proj[flv];
     }
 
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f88ec78..42424df 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1739,6 +1739,8 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
   if (!ibody or !itrack)
     throw std::runtime_error("nuSQUIDS::Error::Body or track not initialized");
+  if (ei >= ne or rho >= nrhos)
+    throw std::runtime_error("nuSQUIDS::Error::Energy or equation index out of range.");
   if( iinteraction && !interactions_initialized )
     InitializeInteractions();
   if( iinteraction && !ioscillations )
-- 
2.43.0


From 7c7db5c575b2bdfdc9ccae67041607edd280054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 079/116] fix: absent bodies and tracks are refused

---
 src/nuSQuIDS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 42424df..a09ee5d 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1224,11 +1224,15 @@ void nuSQUIDS::GetCrossSections(){
 }
 
 void nuSQUIDS::Set_Body(std::shared_ptr<Body> body_in){
+  if(!body_in)
+    throw std::invalid_argument("nuSQUIDS::Set_Body::Error: no body given.");
   body = body_in;
   ibody = true;
 }
 
 void nuSQUIDS::Set_Track(std::shared_ptr<Track> track_in){
+  if(!track_in)
+    throw std::invalid_argument("nuSQUIDS::Set_Track::Error: no track given.");
   // setting time offset
   time_offset = Get_t() - track_in->GetInitialX();
   // enforce track beginningness
-- 
2.43.0


From a79651a418176560d0688c751d9650b897b7a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 080/116] fix: positivity steps which never arrive are refused

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index a09ee5d..8f70e20 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1261,6 +1261,8 @@ void nuSQUIDS::Set_PositivityConstrain(bool opt){
 }
 
 void nuSQUIDS::Set_PositivityConstrainStep(double step){
+  if(not (step > 0))
+    throw std::invalid_argument("nuSQUIDS::Set_PositivityConstrainStep::Error: the step must be positive.");
   positivization_scale = step;
 }
 
-- 
2.43.0


From abf0998466d5c14707af48e02cab2922409cb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 081/116] fix: objects without energies are refused

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 8f70e20..26fdeda 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -190,8 +190,9 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
 
   nsun = numneu;
 
+  if ( E_vector.size() == 0 )
+    throw std::runtime_error("nuSQUIDS::Error::At least one energy node is needed");
   ne = E_vector.size();
-  assert(ne>0);
 
   //===============================
   // BEGIN                       //
-- 
2.43.0


From 53e0de03d868e8e45621a2562ec5ab6d72ffdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 082/116] fix: incomplete interaction tables are not used after
 a failure to fill them

---
 src/nuSQuIDS.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 26fdeda..e8fd419 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1012,6 +1012,12 @@ void nuSQUIDS::InitializeInteractions(){
   // if we don't already have cached data, create it
   if ( !int_struct ) {
     int_struct.reset(new InteractionStructure);
+    // incomplete tables must not be taken for complete ones when this is tried again
+    struct IncompleteGuard{
+      std::shared_ptr<InteractionStructure>& tables;
+      bool complete;
+      ~IncompleteGuard(){ if(!complete) tables.reset(); }
+    } guard{int_struct,false};
     // initialize cross section object if we don't have one
     if ( ncs == nullptr) {
       ncs = std::make_shared<CrossSectionLibrary>(loadDefaultCrossSections());
@@ -1054,6 +1060,7 @@ void nuSQUIDS::InitializeInteractions(){
       std::cerr << ex.what() << std::endl;
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to fill in interaction vectors [InitializeInteractions]");
     }
+    guard.complete=true;
   }
   
   if(iinteraction)
-- 
2.43.0


From e23ddb34ff8fbe66807d521bde6111cc0c1d3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 083/116] fix: default constructed objects have no flavors

---
 include/nuSQuIDS/nuSQuIDS.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 5971386..151f0fe 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -86,7 +86,7 @@ protected:
   /// is performed.
     Basis basis = interaction;
     /// \brief number of neutrino flavors.
-    unsigned int numneu;
+    unsigned int numneu = 0;
     /// \brief number of energy nodes.
     unsigned int ne = nx;
 
-- 
2.43.0


From 156d0849cf8c3fdc2676f1b47d108de453121c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 084/116] fix: initial state flag and number of threads of an
 ensemble are always initialized

---
 include/nuSQuIDS/nuSQuIDS.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 151f0fe..3e7b4d4 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1107,9 +1107,9 @@ class nuSQUIDSAtm {
       return f1*yM + f2*yP;
     }
     /// \brief Boolean that signals that an initial state has being set.
-    bool iinistate;
+    bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
-    bool inusquidsatm;
+    bool inusquidsatm = false;
     /// \brief Contains the cos(zenith) nodes.
     marray<double,1> costh_array;
     /// \brief Contains the energy nodes [eV].
@@ -1128,7 +1128,7 @@ class nuSQUIDSAtm {
     /// \brief Contains the interaction information structure.
     std::shared_ptr<typename BaseSQUIDS::InteractionStructure> int_struct;
     /// \brief the number of threads to use when performing the evolution
-    unsigned int evalThreads;
+    unsigned int evalThreads = 1;
   public:
     /************************************************************************************
      * CONSTRUCTORS
@@ -1145,8 +1145,7 @@ class nuSQUIDSAtm {
     /// \details By defaults interactions are not considered and the neutrino energy scale is assume logarithmic.
     template<typename... ArgTypes>
     nuSQUIDSAtm(marray<double,1> costh_array, ArgTypes&&... args):
-    costh_array(costh_array),
-    evalThreads(1)
+    costh_array(costh_array)
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-- 
2.43.0


From 5f841418d9a4d3d451454ac07b760df46e6f0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 085/116] fix: failures of evolutions in threads of an ensemble
 are reported

---
 include/nuSQuIDS/nuSQuIDS.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e7b4d4..f7b154f 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1338,6 +1338,9 @@ class nuSQUIDSAtm {
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
         Set_ProgressBar(overrideProgressBar);
+        // report the failures of the evolutions
+        for(auto& task : tasks)
+          task.get();
       }
     }
 
-- 
2.43.0


From 21a9f76dd4b759fca4904e1a56dfee669bedd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 086/116] fix: the random number generator of an ensemble is
 moved with it and released

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index f7b154f..4b95d42 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1093,7 +1093,7 @@ class nuSQUIDSAtm {
     using BaseSQUIDS = BaseType;
   private:
     /// \brief Random number generator
-    gsl_rng * r_gsl;
+    std::unique_ptr<gsl_rng,void(*)(gsl_rng*)> r_gsl{nullptr,gsl_rng_free};
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1149,7 +1149,7 @@ class nuSQUIDSAtm {
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
 
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
@@ -1180,13 +1180,14 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(std::string hdf5_filename) {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
 
     /// \brief Move constructor.
     nuSQUIDSAtm(nuSQUIDSAtm&& other):
+    r_gsl(std::move(other.r_gsl)),
     progressbar(other.progressbar),
     iinistate(other.iinistate),
     inusquidsatm(other.inusquidsatm),
@@ -1209,6 +1210,7 @@ class nuSQUIDSAtm {
       if(&other==this)
         return(*this);
 
+      r_gsl = std::move(other.r_gsl);
       progressbar = other.progressbar;
       iinistate = other.iinistate;
       inusquidsatm = other.inusquidsatm;
@@ -1395,7 +1397,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
-        double production_height = gsl_ran_flat(r_gsl,-15*units.km,15*units.km);
+        double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
       
-- 
2.43.0


From 37c86245e97aa9a86d01dff87ffff64b71e3f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 087/116] fix: an ensemble refuses to evaluate flavors, types,
 angles and energies it does not have

---
 include/nuSQuIDS/nuSQuIDS.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 4b95d42..bd22419 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1362,10 +1362,14 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if( rho >= GetNumRho() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot evaluate this rho in this NT mode.");
+      if( flv >= GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Flavor index greater than number of initialized flavors.");
       
-      if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
+      if( not (costh >= *costh_array.begin() and costh <= *costh_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-      if( enu < *enu_array.begin() or enu > *enu_array.rbegin() )
+      if( not (enu >= *enu_array.begin() and enu <= *enu_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::neutrino energy out of bounds.(Emin = " +
                                  std::to_string(*enu_array.begin()) +
                                  ",Emax = " +
@@ -1455,15 +1459,21 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if( rho >= GetNumRho() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot evaluate this rho in this NT mode.");
+      if( flv >= GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Flavor index greater than number of initialized flavors.");
       
-      if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
+      if( not (costh >= *costh_array.begin() and costh <= *costh_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-      if( enu < *enu_array.begin() or enu > *enu_array.rbegin() )
+      if( not (enu >= *enu_array.begin() and enu <= *enu_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::neutrino energy out of bounds.(Emin = " +
                                  std::to_string(*enu_array.begin()) +
                                  ",Emax = " +
                                  std::to_string(*enu_array.rbegin()) +
                                  ", Enu = " + std::to_string(enu) + ")");
+      if( avr.size() != GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Average vector bool size must be the number of neutrinos.");
       
       auto cthit=std::lower_bound(costh_array.begin(),costh_array.end(),costh);
       if(cthit==costh_array.end())
-- 
2.43.0


From c2da4c880905d3278f47c56aac0f4bb834228518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 088/116] fix: an ensemble with a single angle or a single
 energy can be evaluated

---
 include/nuSQuIDS/nuSQuIDS.h | 40 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index bd22419..a24026e 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1382,6 +1382,7 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      size_t cth_P=std::min(cth_M+1,costh_array.size()-1);
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1397,6 +1398,7 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,enu_array.size()-1);
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
@@ -1407,9 +1409,9 @@ class nuSQUIDSAtm {
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1426,19 +1428,21 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P==loge_M) ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
 
-      storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_M].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_M].GetState(loge_P,rho);
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Returns the flavor composition at a given energy and zenith.
@@ -1481,6 +1485,7 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      size_t cth_P=std::min(cth_M+1,costh_array.size()-1);
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1496,15 +1501,16 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,enu_array.size()-1);
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1523,20 +1529,22 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P==loge_M) ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
       
-      storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_M].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_M].GetState(loge_P,rho);
 
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Writes the object into an HDF5 file.
-- 
2.43.0


From 559402f0bf7cf4884f0cde80a3d516cd20d04895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 089/116] fix: an ensemble evolved in the mass basis is
 evaluated in it

---
 include/nuSQuIDS/nuSQuIDS.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index a24026e..3657116 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1425,7 +1425,11 @@ class nuSQUIDSAtm {
   #endif
       storage_type storage(H0_at_enu.Dim());
       
-      storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
+      // outside of the interaction picture the states already contain the vacuum evolution
+      if(nusq_array[0].basis == mass)
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho);
+      else
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
       double f2=(loge_P==loge_M) ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
@@ -1526,7 +1530,11 @@ class nuSQUIDSAtm {
       // preevolution buffer
       std::unique_ptr<double[]> evol_buffer(new double[H0_at_enu.GetEvolveBufferSize()]);
       H0_at_enu.PrepareEvolve(evol_buffer.get(),t_inter,scale,avr);
-      storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
+      // outside of the interaction picture the states already contain the vacuum evolution
+      if(nusq_array[0].basis == mass)
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho);
+      else
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
       double f2=(loge_P==loge_M) ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
-- 
2.43.0


From bf4ff11c8f4b05f1678c0f2e5892fa94be0a1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 090/116] fix: integration settings of angles outside of an
 ensemble are refused

---
 include/nuSQuIDS/nuSQuIDS.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3657116..918e3f2 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1733,7 +1733,7 @@ class nuSQUIDSAtm {
     /// \param h initial step size
     /// \param idx energy node index
     void Set_h(double h, unsigned int idx){
-      nusq_array[idx].Set_h(h);
+      GetnuSQuIDS(idx).Set_h(h);
     }
   
     /// \brief Set the maximum integration step size
@@ -1747,7 +1747,7 @@ class nuSQUIDSAtm {
     /// \param h maximum step size
     /// \param idx energy node index
     void Set_h_max(double h, unsigned int idx){
-      nusq_array[idx].Set_h_max(h);
+      GetnuSQuIDS(idx).Set_h_max(h);
     }
   
     /// \brief Set the minimum integration step size
@@ -1761,7 +1761,7 @@ class nuSQUIDSAtm {
     /// \param h minimum step size
     /// \param idx energy node index
     void Set_h_min(double h, unsigned int idx){
-      nusq_array[idx].Set_h_min(h);
+      GetnuSQuIDS(idx).Set_h_min(h);
     }
 
     /// \brief Set the allowed absolute numerical error
@@ -1775,7 +1775,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_abs_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_abs_error(eps);
+      GetnuSQuIDS(idx).Set_abs_error(eps);
     }
 
     /// \brief Set the allowed relative numerical error
@@ -1789,7 +1789,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_rel_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_rel_error(eps);
+      GetnuSQuIDS(idx).Set_rel_error(eps);
     }
 
     /// \brief Sets the GSL solver
-- 
2.43.0


From 253c794f88b5262a8308955dbca87c24d2e12866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 091/116] fix: the tracks of an ensemble follow its Earth model

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 918e3f2..1284ac4 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1943,9 +1943,15 @@ class nuSQUIDSAtm {
     /// \brief Stes Earth object to be use.
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
+      if(!earth)
+        throw std::runtime_error("nuSQUIDSAtm::Error::Earth model is a NULL pointer.");
       earth_atm=earth;
-      for(BaseSQUIDS& nsq : nusq_array){
-        nsq.Set_Body(earth);
+      track_array.clear();
+      // the tracks depend on the size of the Earth and the height of its atmosphere
+      for(size_t i = 0; i < nusq_array.size(); i++){
+        track_array.push_back(std::make_shared<EarthAtm::Track>(earth_atm->MakeTrackWithCosine(costh_array[i])));
+        nusq_array[i].Set_Body(earth);
+        nusq_array[i].Set_Track(track_array[i]);
       }
     }
   
-- 
2.43.0


From b94ab75cc5eec97f92345cacf5faacf9ae94f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 092/116] fix: an ensemble needs at least one angle

---
 include/nuSQuIDS/nuSQuIDS.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 1284ac4..fa6b1f6 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1151,6 +1151,9 @@ class nuSQUIDSAtm {
       const gsl_rng_type * T_gsl = gsl_rng_default;
       r_gsl.reset(gsl_rng_alloc (T_gsl));
 
+      if(costh_array.size()==0)
+        throw std::runtime_error("nuSQUIDSAtm::Error::There must be at least one zenith angle.");
+
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
         track_array.push_back(std::make_shared<EarthAtm::Track>(earth_atm->MakeTrackWithCosine(costh)));
-- 
2.43.0


From ba9a80c29d62f3f425abe711a073fe1f892be310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 093/116] fix: states at angles which are very close are stored
 apart

---
 include/nuSQuIDS/nuSQuIDS.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index fa6b1f6..c86676f 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1106,6 +1106,18 @@ class nuSQUIDSAtm {
       double f1=1-f2;
       return f1*yM + f2*yP;
     }
+    /// \brief Names of the HDF5 groups which hold the states at each zenith.
+    static std::vector<std::string> GetGroupNames(const marray<double,1>& costh_array){
+      std::vector<std::string> names;
+      for(double costh : costh_array){
+        std::string name="/costh_"+std::to_string(costh);
+        // angles which are very close to each other share their printed digits
+        if(std::find(names.begin(),names.end(),name)!=names.end())
+          name+="_"+std::to_string(names.size());
+        names.push_back(name);
+      }
+      return names;
+    }
     /// \brief Boolean that signals that an initial state has being set.
     bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
@@ -1589,10 +1601,11 @@ class nuSQUIDSAtm {
       H5Fclose (file_id);
 
       unsigned int i = 0;
+      const std::vector<std::string> names = GetGroupNames(costh_array);
       for(const BaseSQUIDS& nsq : nusq_array){
         // use only the first one to write the cross sections on /crosssections
         // the last false is because the HDF5 file has already been created, should not overwrite 
-        nsq.WriteStateHDF5(filename,"/costh_"+std::to_string(costh_array[i]),i==0,"crosssections",false);
+        nsq.WriteStateHDF5(filename,names[i],i==0,"crosssections",false);
         i++;
       }
     }
@@ -1638,15 +1651,16 @@ class nuSQUIDSAtm {
       nusq_array = std::vector<BaseSQUIDS>(costhdims[0]);
 
       unsigned int i = 0;
+      const std::vector<std::string> names = GetGroupNames(costh_array);
       for(BaseSQUIDS& nsq : nusq_array){
         if(i==0){
           // read the cross sections stored in /crosssections
-          nsq.ReadStateHDF5(hdf5_filename,"/costh_"+std::to_string(costh_array[i]),"crosssections");
+          nsq.ReadStateHDF5(hdf5_filename,names[i],"crosssections");
           if(nsq.iinteraction)
             int_struct = nsq.GetInteractionStructure();
         } else {
           // re-use the shared cross sections
-          nsq.ReadStateHDF5Internal(hdf5_filename,"/costh_"+std::to_string(costh_array[i]),int_struct);
+          nsq.ReadStateHDF5Internal(hdf5_filename,names[i],int_struct);
         }
         i++;
       }
-- 
2.43.0


From d8298824534e0a34464bc76a3e915826cc7044f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 094/116] fix: an ensemble is added to an existing file, and
 failures to write its nodes are reported

---
 include/nuSQuIDS/nuSQuIDS.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index c86676f..3f69dc8 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1580,25 +1580,25 @@ class nuSQUIDSAtm {
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
 
-      hid_t file_id,root_id;
-      hid_t dset_id;
-      // create HDF5 file
-      if(overwrite)
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-      else
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT, H5P_DEFAULT);
-      if (file_id < 0)
+      // create HDF5 file, or use the existing one if it should be kept
+      {
+        H5File file(overwrite ?
+                    H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT) :
+                    H5Fopen(filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
+        if (file < 0 and not overwrite)
+          file = H5File(H5Fcreate(filename.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
+        if (file < 0)
           throw std::runtime_error("nuSQUIDS::Error::Cannot create file at " + filename + ".");
-      root_id = H5Gopen(file_id, "/",H5P_DEFAULT);
-
-      // write the zenith range
-      hsize_t costhdims[1]={costh_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
-      hsize_t energydims[1]={enu_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
-
-      H5Gclose (root_id);
-      H5Fclose (file_id);
+        H5Handle root(H5Gopen(file, "/",H5P_DEFAULT), H5Gclose, "open HDF5 group");
+
+        // write the zenith range
+        hsize_t costhdims[1]={costh_array.extent(0)};
+        if(H5LTmake_dataset(root,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data())<0)
+          throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write the zenith angles to " + filename + ".");
+        hsize_t energydims[1]={enu_array.extent(0)};
+        if(H5LTmake_dataset(root,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data())<0)
+          throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write the energies to " + filename + ".");
+      }
 
       unsigned int i = 0;
       const std::vector<std::string> names = GetGroupNames(costh_array);
-- 
2.43.0


From a036ca1b12eeecc50a217f0b0b47253db78ece60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 095/116] fix: reading an ensemble restores everything or
 changes nothing

---
 include/nuSQuIDS/nuSQuIDS.h | 70 ++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3f69dc8..320ee91 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1615,57 +1615,57 @@ class nuSQUIDSAtm {
     /// \details All contents are assumed to be saved to the \c root of the HDF5 file.
     /// @see WriteStateHDF5
     void ReadStateHDF5(std::string hdf5_filename){
-      hid_t file_id,group_id,root_id;
       // open HDF5 file
       H5File file(H5Fopen(hdf5_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
       if (file < 0)
         throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to open file: " + hdf5_filename + ". No such file or directory");
-      root_id = H5Gopen(file, "/",H5P_DEFAULT);
-      group_id = root_id;
-
-      // read the zenith range dimension
-      hsize_t costhdims[1];
-      H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr);
-
-      double data[costhdims[0]];
-      H5LTread_dataset_double(group_id, "zenith_angles", data);
-      costh_array.resize(std::vector<size_t> {static_cast<unsigned long>(costhdims[0])});
-      for (unsigned int i = 0; i < costhdims[0]; i ++)
-        costh_array[i] = data[i];
-
-      hsize_t energydims[1];
-      H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr);
-
-      double enu_data[energydims[0]];
-      H5LTread_dataset_double(group_id, "energy_range", enu_data);
-      enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});log_enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});
-      for (unsigned int i = 0; i < energydims[0]; i ++){
-        enu_array[i] = enu_data[i];
-        log_enu_array[i] = log(enu_data[i]);
-      }
-
-      H5Gclose(root_id);
 
-      // resize apropiately the nuSQUIDSAtm container vector
-      nusq_array.clear();
-      nusq_array = std::vector<BaseSQUIDS>(costhdims[0]);
+      // read the zenith and energy ranges; everything is collected before it replaces the present contents
+      marray<double,1> new_costh_array, new_enu_array;
+      readArrayH5(file, "zenith_angles", new_costh_array);
+      readArrayH5(file, "energy_range", new_enu_array);
+      if(new_costh_array.size()==0 or new_enu_array.size()==0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: No angles or no energies in " + hdf5_filename + ".");
+      marray<double,1> new_log_enu_array;
+      new_log_enu_array.resize(std::vector<size_t>{new_enu_array.size()});
+      for (unsigned int i = 0; i < new_enu_array.size(); i ++)
+        new_log_enu_array[i] = log(new_enu_array[i]);
+
+      std::vector<BaseSQUIDS> new_nusq_array(new_costh_array.size());
+      std::vector<std::shared_ptr<EarthAtm::Track>> new_track_array;
+      std::shared_ptr<typename BaseSQUIDS::InteractionStructure> new_int_struct;
 
       unsigned int i = 0;
-      const std::vector<std::string> names = GetGroupNames(costh_array);
-      for(BaseSQUIDS& nsq : nusq_array){
+      const std::vector<std::string> names = GetGroupNames(new_costh_array);
+      for(BaseSQUIDS& nsq : new_nusq_array){
         if(i==0){
           // read the cross sections stored in /crosssections
           nsq.ReadStateHDF5(hdf5_filename,names[i],"crosssections");
           if(nsq.iinteraction)
-            int_struct = nsq.GetInteractionStructure();
+            new_int_struct = nsq.GetInteractionStructure();
         } else {
           // re-use the shared cross sections
-          nsq.ReadStateHDF5Internal(hdf5_filename,names[i],int_struct);
+          nsq.ReadStateHDF5Internal(hdf5_filename,names[i],new_int_struct);
         }
+        if(nsq.GetNumE()!=new_enu_array.size() or nsq.GetNumNeu()!=new_nusq_array.front().GetNumNeu() or nsq.GetNumRho()!=new_nusq_array.front().GetNumRho())
+          throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: The state at " + names[i] + " does not fit the others.");
+        new_track_array.push_back(std::dynamic_pointer_cast<EarthAtm::Track>(nsq.GetTrack()));
+        if(!new_track_array.back())
+          throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: The state at " + names[i] + " has no atmospheric track.");
         i++;
       }
-      earth_atm = std::dynamic_pointer_cast<EarthAtm>(nusq_array.front().GetBody());
-      assert(earth_atm);
+      std::shared_ptr<EarthAtm> new_earth_atm = std::dynamic_pointer_cast<EarthAtm>(new_nusq_array.front().GetBody());
+      if(!new_earth_atm)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: The states in " + hdf5_filename + " have no atmospheric Earth.");
+
+      costh_array = std::move(new_costh_array);
+      enu_array = std::move(new_enu_array);
+      log_enu_array = std::move(new_log_enu_array);
+      nusq_array = std::move(new_nusq_array);
+      track_array = std::move(new_track_array);
+      earth_atm = new_earth_atm;
+      int_struct = new_int_struct;
+      ncs = nusq_array.front().GetNeutrinoCrossSections();
 
       iinistate = true;
       inusquidsatm = true;
-- 
2.43.0


From 2769d90e716c3e415fda34c0630a1c9f9eef559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 096/116] fix: constant and temporary arrays can be combined
 with scalars

---
 include/nuSQuIDS/marray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index d60f0b8..d8ab3a4 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1487,12 +1487,12 @@ marray<T,Rank>&& operator+=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator+(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator+(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)+=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator+(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator+(const U& f, const marray<T,Rank>& a){
 	return(marray<T,Rank>(a)+=f);
 }
 
@@ -1510,12 +1510,12 @@ marray<T,Rank>&& operator-=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator-(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator-(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)-=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator-(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator-(const U& f, const marray<T,Rank>& a){
 	return(marray<T,Rank>(-a)+=f);
 }
 
@@ -1533,12 +1533,12 @@ marray<T,Rank>&& operator*=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator*(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator*(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)*=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator*(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator*(const U& f, const marray<T,Rank>& a){
 	return(marray<T,Rank>(a)*=f);
 }
 
@@ -1586,12 +1586,12 @@ marray<T,Rank>&& operator/=(marray<T,Rank>&& a, const U& f){
 
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
+marray<T,Rank> operator/(const marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
 template<typename T, unsigned Rank, typename U,
 typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
-marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
+marray<T,Rank> operator/(const U& f, const marray<T,Rank>& a){
 	marray<T,Rank> result(a);
 	for(auto& i : result) i=f/i;
 	return(result);
-- 
2.43.0


From 8dc712efc62fb1ac75665b48baf09e41d1c3f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 097/116] fix: random production heights can be drawn by
 several threads

---
 include/nuSQuIDS/nuSQuIDS.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 320ee91..404ccce 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -32,6 +32,7 @@
 #include <algorithm>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <vector>
 
@@ -1094,6 +1095,8 @@ class nuSQUIDSAtm {
   private:
     /// \brief Random number generator
     std::unique_ptr<gsl_rng,void(*)(gsl_rng*)> r_gsl{nullptr,gsl_rng_free};
+    /// \brief Protects the random number generator, which is used by constant members
+    mutable std::mutex r_gsl_mutex;
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1418,6 +1421,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
+        std::lock_guard<std::mutex> lock(r_gsl_mutex);
         double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
-- 
2.43.0


From f947e73076e01e2f0d6c211e6802752bcefe9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 098/116] fix: the generator of random numbers is set up once,
 also for ensembles which have been moved away

---
 include/nuSQuIDS/nuSQuIDS.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 404ccce..86b23c2 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1082,6 +1082,16 @@ protected:
     }
 };
 
+namespace detail{
+  /// \brief The type of random number generator selected by GSL's environment variables
+  ///
+  /// GSL keeps it in global variables, so these are set only once.
+  inline const gsl_rng_type* default_rng_type(){
+    static const gsl_rng_type* type=gsl_rng_env_setup();
+    return type;
+  }
+}
+
 /**
  * The following class provides functionalities
  * for atmospheric neutrino experiments
@@ -1162,9 +1172,7 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(marray<double,1> costh_array, ArgTypes&&... args):
     costh_array(costh_array)
     {
-      gsl_rng_env_setup();
-      const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl.reset(gsl_rng_alloc (T_gsl));
+      r_gsl.reset(gsl_rng_alloc (detail::default_rng_type()));
 
       if(costh_array.size()==0)
         throw std::runtime_error("nuSQUIDSAtm::Error::There must be at least one zenith angle.");
@@ -1196,9 +1204,6 @@ class nuSQUIDSAtm {
     /// restoring all properties as well as the state.
     /// @see ReadStateHDF5
     nuSQUIDSAtm(std::string hdf5_filename) {
-      gsl_rng_env_setup();
-      const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl.reset(gsl_rng_alloc (T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
@@ -1662,6 +1667,9 @@ class nuSQUIDSAtm {
       if(!new_earth_atm)
         throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: The states in " + hdf5_filename + " have no atmospheric Earth.");
 
+      // a new or moved away object has no random number generator
+      if(!r_gsl)
+        r_gsl.reset(gsl_rng_alloc (detail::default_rng_type()));
       costh_array = std::move(new_costh_array);
       enu_array = std::move(new_enu_array);
       log_enu_array = std::move(new_log_enu_array);
-- 
2.43.0


From a665b46e6e5424ab0aede53916c04341429bbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 099/116] fix: iterators of arrays can be moved back with
 operator-

---
 include/nuSQuIDS/marray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index d8ab3a4..5322fb6 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -583,6 +583,7 @@ public:
 		using base_type::base_type;
 		using difference_type=typename base_type::difference_type;
 		using pointer=typename base_type::pointer;
+		using base_type::operator-;
 		difference_type operator-(const iterator_type& other) const{
 			return(this->ptr-other.ptr);
 		}
@@ -614,6 +615,7 @@ public:
 		using base_type::base_type;
 		using difference_type=typename base_type::difference_type;
 		using pointer=typename base_type::pointer;
+		using base_type::operator-;
 		difference_type operator-(const reverse_iterator_type& other) const{
 			return(other.ptr-this->ptr);
 		}
-- 
2.43.0


From 89d8fc1e1db474eda16a0f9804455668d9743db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 100/116] fix: SetAtmosphereHeight sets the height of the
 atmosphere from Python

---
 resources/python/src/nuSQUIDSpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index e0a9763..4060463 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -441,7 +441,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     .def("GetRadius",&EarthAtm::GetRadius)
     .def("GetAtmosphereHeight",&EarthAtm::GetAtmosphereHeight)
-    .def("SetAtmosphereHeight",&EarthAtm::GetAtmosphereHeight)
+    .def("SetAtmosphereHeight",&EarthAtm::SetAtmosphereHeight)
     .def("MakeTrack",&EarthAtm::MakeTrack)
     .def("MakeTrackWithCosine",&EarthAtm::MakeTrackWithCosine)
     ;
-- 
2.43.0


From d5315fa144ffa6f8ad8fe80ca9ee022ae3807a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 101/116] fix: converting a vector to a Python list leaves
 nothing behind

---
 resources/python/src/nuSQUIDSpy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 307187d..3ed6267 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -55,11 +55,11 @@ template<class T>
 struct VecToList
 {
   static PyObject* convert(const std::vector<T>& vec){
-    boost::python::list* l = new boost::python::list();
+    boost::python::list l;
     for(size_t i =0; i < vec.size(); i++)
-      (*l).append(vec[i]);
+      l.append(vec[i]);
 
-    return l->ptr();
+    return boost::python::incref(l.ptr());
   }
 };
 
-- 
2.43.0


From 3f4f65bb429a70438f6d05e1688efc105ac97aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 102/116] fix: arrays which are byte-swapped or not aligned
 arrive from Python with the right values

---
 resources/python/src/nuSQUIDSpy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 3ed6267..64f208b 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -128,7 +128,10 @@ struct marray_from_python{
   }
 
   static void construct(PyObject* obj_ptr, boost::python::converter::rvalue_from_python_stage1_data* data){
-    PyArrayObject* numpy_array=PyArray_GETCONTIGUOUS((PyArrayObject*)obj_ptr);
+    // the elements are read as plain C values, so they must be aligned and in native byte order
+    PyArrayObject* numpy_array=(PyArrayObject*)PyArray_FROM_OF(obj_ptr,NPY_ARRAY_CARRAY_RO|NPY_ARRAY_NOTSWAPPED);
+    if(!numpy_array)
+      boost::python::throw_error_already_set();
     // get numpy array shape and create marray object
 #ifdef NPY_1_7_API_VERSION
     npy_intp* array_shape = PyArray_SHAPE(numpy_array);
-- 
2.43.0


From a25ec1445dbb180e2de4763e95a259e6f72244e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 103/116] fix: empty arrays can be passed from Python

---
 resources/python/src/nuSQUIDSpy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 64f208b..5b5c573 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -152,6 +152,11 @@ struct marray_from_python{
     marray<double,Dim>* oarray=(marray<double,Dim>*)storage;
 
    oarray->resize(dimensions);
+    // there is nothing to iterate over in an empty array
+    if(oarray->size()==0){
+      Py_XDECREF(numpy_array);
+      return;
+    }
     auto it = oarray->begin();
 
     // create numpy iterator
-- 
2.43.0


From 191993d64f35e858b96d74ac38dcf2d7eaa16467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 104/116] fix: errors while reading a mask from a Python
 sequence are passed on

---
 resources/python/src/nuSQUIDSpy.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index 4060463..501f460 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -38,16 +38,18 @@ struct ListToVectorBool {
     }
 
     static void construct(PyObject* obj_ptr, boost::python::converter::rvalue_from_python_stage1_data* data) {
-        void* storage = ((boost::python::converter::rvalue_from_python_storage<std::vector<bool>>*)data)->storage.bytes;
-        new (storage) std::vector<bool>();
-        std::vector<bool>* vec = (std::vector<bool>*)storage;
-        int len = PySequence_Size(obj_ptr);
-        vec->reserve(len);
-        for (int i = 0; i < len; ++i) {
-            PyObject* item = PySequence_GetItem(obj_ptr, i);
-            vec->push_back(PyObject_IsTrue(item));
-            Py_DECREF(item);
+        std::vector<bool> vec;
+        Py_ssize_t len = PySequence_Size(obj_ptr);
+        if (len < 0) boost::python::throw_error_already_set();
+        vec.reserve(len);
+        for (Py_ssize_t i = 0; i < len; ++i) {
+            boost::python::handle<> item(PySequence_GetItem(obj_ptr, i));
+            int value = PyObject_IsTrue(item.get());
+            if (value < 0) boost::python::throw_error_already_set();
+            vec.push_back(value);
         }
+        void* storage = ((boost::python::converter::rvalue_from_python_storage<std::vector<bool>>*)data)->storage.bytes;
+        new (storage) std::vector<bool>(std::move(vec));
         data->convertible = storage;
     }
 };
-- 
2.43.0


From 538f119c40a849ae07df205e3725ca73d005b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 105/116] fix: density and ye of a body can be asked from
 Python at its tracks

---
 resources/python/src/nuSQUIDSpy.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index 501f460..6332b47 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -328,7 +328,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("ye",&Vacuum::ye)
     ;
 
-    class_<Vacuum::Track, std::shared_ptr<Vacuum::Track> >("Track", init<double>())
+    class_<Vacuum::Track, bases<Body::Track>, std::shared_ptr<Vacuum::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&Vacuum::Track::GetInitialX)
     .def("GetFinalX",&Vacuum::Track::GetFinalX)
@@ -348,7 +348,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("ye",&ConstantDensity::ye)
     ;
 
-    class_<ConstantDensity::Track, std::shared_ptr<ConstantDensity::Track> >("Track", init<double>())
+    class_<ConstantDensity::Track, bases<Body::Track>, std::shared_ptr<ConstantDensity::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&ConstantDensity::Track::GetInitialX)
     .def("GetFinalX",&ConstantDensity::Track::GetFinalX)
@@ -366,7 +366,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     = class_<VariableDensity, bases<Body>, std::shared_ptr<VariableDensity> >("VariableDensity", init< std::vector<double>,std::vector<double>,std::vector<double> >())
     ;
 
-    class_<VariableDensity::Track, std::shared_ptr<VariableDensity::Track> >("Track", init<double>())
+    class_<VariableDensity::Track, bases<Body::Track>, std::shared_ptr<VariableDensity::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&VariableDensity::Track::GetInitialX)
     .def("GetFinalX",&VariableDensity::Track::GetFinalX)
@@ -385,7 +385,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<Earth::Track, std::shared_ptr<Earth::Track> >("Track", init<double>())
+    class_<Earth::Track, bases<Body::Track>, std::shared_ptr<Earth::Track> >("Track", init<double>())
     .def(init<double,double,double>())
     .def("GetInitialX",&Earth::Track::GetInitialX)
     .def("GetFinalX",&Earth::Track::GetFinalX)
@@ -404,7 +404,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<Sun::Track, std::shared_ptr<Sun::Track> >("Track", init<double>())
+    class_<Sun::Track, bases<Body::Track>, std::shared_ptr<Sun::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&Sun::Track::GetInitialX)
     .def("GetFinalX",&Sun::Track::GetFinalX)
@@ -423,7 +423,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<SunASnu::Track, std::shared_ptr<SunASnu::Track> >("Track", init<double>())
+    class_<SunASnu::Track, bases<Body::Track>, std::shared_ptr<SunASnu::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def(init<double,double,double>())
     .def("GetInitialX",&SunASnu::Track::GetInitialX)
@@ -448,7 +448,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("MakeTrackWithCosine",&EarthAtm::MakeTrackWithCosine)
     ;
 
-    class_<EarthAtm::Track, std::shared_ptr<EarthAtm::Track> >("Track", init<EarthAtm::Track>())
+    class_<EarthAtm::Track, bases<Body::Track>, std::shared_ptr<EarthAtm::Track> >("Track", init<EarthAtm::Track>())
     .def(init<double,double,double>())
     .def(init<double,double,double,double>())
     .def("GetInitialX",&EarthAtm::Track::GetInitialX)
-- 
2.43.0


From cdb7fd84f599a6addee7de2bf425b27a4f031f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 106/116] fix: a sequence which misreports its length is
 refused instead of ending the program

---
 resources/python/inc/container_conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/python/inc/container_conversions.h b/resources/python/inc/container_conversions.h
index 261bddd..3653bff 100644
--- a/resources/python/inc/container_conversions.h
+++ b/resources/python/inc/container_conversions.h
@@ -198,7 +198,7 @@ namespace scitbx { namespace boost_python { namespace container_conversions {
         bool is_range = PyRange_Check(obj_ptr);
         std::size_t i=0;
         if (!all_elements_convertible(obj_iter, is_range, i)) return 0;
-        if (!is_range) assert(i == static_cast<size_t>(obj_size));
+        if (!is_range && i != static_cast<std::size_t>(obj_size)) return 0;
       }
       return obj_ptr;
     }
-- 
2.43.0


From 031a8ba3859f8d01806d61188869373bdcd64efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 107/116] fix: the first radius of a solar model is read from
 its table instead of left undefined

---
 resources/user_contributions/SolarTransitions/SolarModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 5b32c89..8d83e84 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -10,7 +10,7 @@ void SolarModel::splineinit(){
 
 	unsigned int arraysize = fluxR.extent(0);
 	double XfluxRarr[arraysize];
-  	for(unsigned int j = 1; j < arraysize; j++){
+  	for(unsigned int j = 0; j < arraysize; j++){
     	XfluxRarr[j] = fluxR[j][0];
   	}
 
-- 
2.43.0


From 8a594913696f48d7350798324b36711da1dfd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 108/116] fix: integrated solar fluxes without a solar model
 are an error instead of a crash

---
 .../SolarTransitions/SolarProbabilities.cpp                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index 6cc3694..0ff6fbe 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -37,6 +37,8 @@ SU_vector SOP::Hamiltonian(double E, double r) const {
 }
 
 double SOP::PeeSquare(double E) const{
+  if (solar_model == nullptr)
+    throw std::runtime_error("No solar model set");
   double normalization = 1./RadialIntegratedFluxes(E);
   return integrate([&](double r){
               double sum_flux = 0.;
@@ -54,6 +56,8 @@ double SOP::PeeSquare(double E) const{
 }
 
 double SOP::RadialIntegratedFluxes(double E) const{
+  if (solar_model == nullptr)
+    throw std::runtime_error("No solar model set");
   return integrate([&](double r){
               double sum_flux = 0.;
               for ( unsigned int i = 0; i < solar_model->NumComp(); i++){
-- 
2.43.0


From d272102ecb982c70985cda2ee4ebaef8040cfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 109/116] fix: malformed solar model tables are refused instead
 of being read out of bounds or ending the program

---
 .../SolarTransitions/SolarModel.cpp                  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 8d83e84..cb86bbc 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -3,10 +3,21 @@
 using namespace std;
 using namespace nusquids;
 
+// tables must have enough columns and at least two rows in increasing order of the first column
+static void check_table(const marray<double,2>& table, unsigned int columns, const string& path){
+	if (table.extent(0) < 2 || table.extent(1) < columns)
+		throw std::runtime_error("Solar model table " + path + " has too few rows or columns.");
+	for(unsigned int j = 1; j < table.extent(0); j++){
+		if (!(table[j-1][0] < table[j][0]))
+			throw std::runtime_error("Solar model table " + path + " is not ordered.");
+	}
+}
+
 void SolarModel::splineinit(){
 	string rad = datapath + SM + "/radial.dat";
 
 	marray<double,2> fluxR = quickread(rad);
+	check_table(fluxR,num_components+1,rad);
 
 	unsigned int arraysize = fluxR.extent(0);
 	double XfluxRarr[arraysize];
@@ -29,6 +40,7 @@ void SolarModel::splineinit(){
 		continue;
 	}
 	    marray<double,2> spectrum_table = quickread(datapath + "/NuSpec/" + spectrum_filename[FluxType(i)]);
+	    check_table(spectrum_table,2,spectrum_filename[FluxType(i)]);
 	    unsigned int arraysize_ = spectrum_table.extent(0);
 	    Espline[i].reset(gsl_spline_alloc (gsl_interp_linear, arraysize_),[](gsl_spline* t){gsl_spline_free(t);});
 	    double ESpectrum[arraysize_]; double FSpectrum[arraysize_];
-- 
2.43.0


From f8dc38b22d50d187a70bd0503f794e1d2622de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 110/116] fix: solar model queries beyond its tables are an
 error instead of ending the program

---
 .../SolarTransitions/SolarModel.cpp               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index cb86bbc..168cb23 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -52,6 +52,13 @@ void SolarModel::splineinit(){
 	}
 }
 
+// GSL ends the program when asked beyond the ends of a table
+static double evaluate(const shared_ptr<gsl_spline>& spline, double x, const shared_ptr<gsl_interp_accel>& acc){
+	if (!(x >= spline->interp->xmin && x <= spline->interp->xmax))
+		throw std::runtime_error("The tables of the solar model do not reach this radius or energy.");
+	return gsl_spline_eval(spline.get(),x,acc.get());
+}
+
 double SolarModel::nuFlux(double R, double E, FluxType type) const{
 	if (R > 1.0 || R < 0.0){
     	throw std::runtime_error("Invalid R, must be between Rmin and Rmax");
@@ -60,10 +67,10 @@ double SolarModel::nuFlux(double R, double E, FluxType type) const{
 		return 0.0;
   	}
   	if ( spectrum_limits.find(type)->second.size() == 1 ){
-    	return gsl_spline_eval(Rspline[type].get(),R*Rsun,Racc[type].get());
+    	return evaluate(Rspline[type],R*Rsun,Racc[type]);
  	} else if ( spectrum_limits.find(type)->second.size() == 2){
     if ( E > spectrum_limits.find(type)->second.front() and E < spectrum_limits.find(type)->second.back() )
-    	return gsl_spline_eval(Rspline[type].get(),R*Rsun,Racc[type].get())*gsl_spline_eval(Espline[type].get(),E,Eacc[type].get());
+    	return evaluate(Rspline[type],R*Rsun,Racc[type])*evaluate(Espline[type],E,Eacc[type]);
     else
     	return 0.;
     } else{
@@ -75,14 +82,14 @@ double SolarModel::eDensity(double R) const {
 	if (R > 1.0 || R < 0.0){
     throw std::runtime_error("Invalid R, must be between 0 and 1.");
   }
-	return gsl_spline_eval(Rspline[Electron].get(),R*Rsun,Racc[Electron].get());
+	return evaluate(Rspline[Electron],R*Rsun,Racc[Electron]);
 }
 
 double SolarModel::DMDensity(double R) const {
 	if (R > 1.0 || R < 0.0){
 		throw std::runtime_error("Invalid R, must be between 0 and 1.");
   }
-	return gsl_spline_eval(Rspline[DM].get(),R*Rsun,Racc[DM].get());
+	return evaluate(Rspline[DM],R*Rsun,Racc[DM]);
 }
 
 unsigned int SolarModel::NumComp() const {
-- 
2.43.0


From f91e88929dae5b05532548bc95ed27f6258c6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 111/116] fix: solar probabilities pair matter and vacuum
 states in the order of their masses for any mass ordering

---
 .../SolarTransitions/SolarProbabilities.cpp            | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index 0ff6fbe..7215d57 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -1,4 +1,5 @@
 #include "SolarProbabilities.h"
+#include <algorithm>
 
 using namespace squids;
 using namespace nusquids;
@@ -17,10 +18,17 @@ double SOP::SolarOscillationProbability(double E,double r) const {
 
   auto UPMNS = GetTransformationMatrix();
 
+  // states in vacuum in the same order: ascending masses
+  auto mass = [&](unsigned int i){ return i == 0 ? 0. : Get_SquareMassDifference(i); };
+  std::vector<unsigned int> order(numneu);
+  for(unsigned int i = 0; i < numneu; i++)
+    order[i] = i;
+  std::sort(order.begin(),order.end(),[&](unsigned int i,unsigned int j){ return mass(i) < mass(j); });
+
   double osc_prob = 0;
   for(unsigned int i = 0; i < numneu; i++){
     osc_prob += gsl_complex_abs2(gsl_matrix_complex_get(eigensyst.second.get(),nue,i))*\
-                gsl_complex_abs2(gsl_matrix_complex_get(UPMNS.get(),nue,i));
+                gsl_complex_abs2(gsl_matrix_complex_get(UPMNS.get(),nue,order[i]));
   }
   return osc_prob;
 }
-- 
2.43.0


From 10343e9fe66b7edaf96b476064321bfa3ff457a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 112/116] fix: solar probabilities use the mixing parameters as
 they are, not as they were when the object was made

---
 .../SolarTransitions/SolarProbabilities.cpp              | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index 7215d57..ab0e9cf 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -36,10 +36,15 @@ double SOP::SolarOscillationProbability(double E,double r) const {
 SU_vector SOP::Hamiltonian(double E, double r) const {
 
   double electron_number_density = solar_model->eDensity(r);
-  SU_vector H = DM2*(1./(2.*E));
+  // from the current parameters, which may have changed since the stored operators were made
+  SU_vector H(numneu);
+  for(unsigned int i = 1; i < numneu; i++)
+    H += SU_vector::Projector(numneu,i)*(Get_SquareMassDifference(i)/(2.*E));
+  SU_vector nue_proj = SU_vector::Projector(numneu,nue);
+  nue_proj.RotateToB1(params);
   double CC_prefactor = HI_constants;// defined in nusquids
   double CC = CC_prefactor*electron_number_density;
-  H += CC*b1_proj[neutrino][nue];
+  H += CC*nue_proj;
 
   return std::move(H);
 }
-- 
2.43.0


From 95809c720bdcdbb0d95dd5e85421aa7c4803b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:36 +0000
Subject: [PATCH 113/116] fix: cross sections of a library made in C++ can be
 handed to Python

---
 resources/python/src/nuSQUIDSpy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index 6332b47..7a13c72 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -205,6 +205,8 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
   RegisterBasicAtmNuSQuIDSPythonBindings<nuSQUIDS>("nuSQUIDSAtm");
 
   class_<NeutrinoCrossSections, std::shared_ptr<NeutrinoCrossSections>, boost::noncopyable >("NeutrinoCrossSections", no_init);
+  // what libraries of cross sections hand out
+  bp::register_ptr_to_python<std::shared_ptr<const NeutrinoCrossSections>>();
 
   class_<NullCrossSections, bases<NeutrinoCrossSections>, std::shared_ptr<NullCrossSections>, boost::noncopyable >("NullCrossSections")
     .def("TotalCrossSection",&NullCrossSections::TotalCrossSection)
-- 
2.43.0


From 4a21b1565614ef283948e69653805473b627f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:42 +0000
Subject: [PATCH 114/116] fix: integrating a function which is not finite
 everywhere ends and is reported instead of going on without end

---
 include/nuSQuIDS/AdaptiveQuad.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 496bdb0..1fa4344 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -134,6 +134,13 @@ namespace AdaptiveQuad{
 				32*std::numeric_limits<double>::epsilon()*std::max(std::abs(a),std::abs(b));
 		}
 		
+		///Whether subdivision can improve the estimates. The values at the ends
+		///and split points, from which i2 is made, are kept when subdividing, 
+		///so if they do not give something finite they never will. 
+		bool canImprove() const{
+			return std::isfinite(i2);
+		}
+		
 		///Eavluate how bad this interval's uncertainty is relative to a tolerance
 		double badness(double tol) const{
 			return std::abs(value-i2)-tol;
@@ -222,6 +229,13 @@ namespace AdaptiveQuad{
 		if(is==0)
 			is=b-a;
 		is=std::abs(is);
+		if(!std::isfinite(is)){ //no tolerance relative to this can be met
+			if(options){
+				options->uncertainty=std::numeric_limits<double>::infinity();
+				options->outOfTolerance=true;
+			}
+			return (reverse?-is1:is1);
+		}
 		tol*=is; //convert to an absolute tolerance
 		if(i.badness(tol) <= 0){
 			if(options){
@@ -261,7 +275,7 @@ namespace AdaptiveQuad{
 			//subdivide it further. If there is not, or subdivision is not 
 			//possible, commit its contribution to the total estimate. 
 			auto processSubinterval=[&](Interval& i){
-				if(i.badness(tol)<=0 || !i.canSubdivide()){
+				if(i.badness(tol)<=0 || !i.canSubdivide() || !i.canImprove()){
 					if(!(i.badness(tol)<=0))
 						outOfTolerance=true;
 					accumulate(i.value,i.i2);
-- 
2.43.0


From 5022a761a37d75fc3e4de1d26d8262c5779710da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 115/116] fix: interactions in thin media use their own density
 instead of a minimum one

---
 src/nuSQuIDS.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e8fd419..fd18d06 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -477,8 +477,6 @@ std::vector<double> nuSQUIDS::GetTargetNumberDensities() const{
   //check whether we are treating the medium as isoscalar
   if(int_struct->targets.size()==1 && int_struct->targets[0]==isoscalar_nucleon){
     double num_nuc = density*2.0/(params.electron_mass+params.proton_mass+params.neutron_mass);
-    if(num_nuc < 1.0e-10 )
-      num_nuc = params.Na*pow(params.cm,-3)*1.0e-10;
     return {num_nuc};
   }
   
-- 
2.43.0


From 33edc77262b4e3f237d007254e448c6c05bbb75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 116/116] fix: what scatters off a target reappears with the
 spectrum of that target, in proportion to its interactions

---
 src/nuSQuIDS.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index fd18d06..5cfd75e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -620,7 +620,6 @@ void nuSQUIDS::UpdateInteractions(){
   }
   
   std::vector<double> targetDensities = GetTargetNumberDensities();
-  std::vector<double> targetFractions = GetTargetNumberFractions();
   const unsigned int nTargetTypes = targetDensities.size();
   
   //A helper class for accumulating a sum into a buffer without needing a first pass 
@@ -704,13 +703,11 @@ void nuSQUIDS::UpdateInteractions(){
           //the flux of the current flavor at e2
           double flux_a_e2=projector*estate[e2].rho[rho];
           //premultiply factors which do not depend on the lower energy e1
-          flux_a_e2*=int_state.invlen_NC[rho][alpha_active][e2]*delE[e2-1];
+          flux_a_e2*=delE[e2-1];
           
           for(unsigned int trg=0; trg < nTargetTypes; trg++){
-            double tFrac=targetFractions[trg];
-            //the target fraction factor is logically more a part of dN/dE, but since it is common 
-            //to all terms it is more efficient if we attach it to the flux
-            double flux_a_e2_t=tFrac*flux_a_e2;
+            //dN/dE is normalized for each target, so scale by the interactions with this target
+            double flux_a_e2_t=flux_a_e2*int_struct->sigma_NC[trg][rho][alpha_active][e2]*targetDensities[trg];
             double* factors=&flavor_factors[rho][alpha_active][0];
             SQUIDS_POINTER_IS_ALIGNED(factors,preferred_alignment*sizeof(double));
             double* dNdE_ptr=&int_struct->dNdE_NC[trg][rho][alpha_active][e2][0];
@@ -741,12 +738,12 @@ void nuSQUIDS::UpdateInteractions(){
         if(nu_tau_flux<=0 && nu_tau_bar_flux<=0)
           continue;
         double dEn = delE[en-1];
-        double invlen_CC_tau     = int_state.invlen_CC[0][tau_flavor][en];
-        double invlen_CC_tau_bar = int_state.invlen_CC[1][tau_flavor][en];
         for(unsigned int trg=0; trg < nTargetTypes; trg++){ //loop over target types
-          //note that the flux is scaled by fraction of total targets
-          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn*targetFractions[trg];
-          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn*targetFractions[trg];
+          //the interactions with this target only
+          double invlen_CC_tau     = int_struct->sigma_CC[trg][0][tau_flavor][en]*targetDensities[trg];
+          double invlen_CC_tau_bar = int_struct->sigma_CC[trg][1][tau_flavor][en]*targetDensities[trg];
+          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn;
+          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn;
           double* dNdE_CC_tau     = &int_struct->dNdE_CC[trg][0][tau_flavor][en][0];
           double* dNdE_CC_tau_bar = &int_struct->dNdE_CC[trg][1][tau_flavor][en][0];
           SQUIDS_POINTER_IS_ALIGNED(dNdE_CC_tau    ,preferred_alignment*sizeof(double));
@@ -892,12 +889,11 @@ void nuSQUIDS::UpdateInteractions(){
           //the flux of the current flavor at e2
           double flux_a_e2=evol_b1_proj[rho][alpha_active][e2]*estate[e2].rho[rho];
           //premultiply factors which do not depend on the lower energy e1
-          flux_a_e2*=int_state.invlen_NC[rho][alpha_active][e2]*delE[e2-1];
+          flux_a_e2*=delE[e2-1];
           //for each type of target within the material
           for(unsigned int trg=0; trg<nTargetTypes; trg++){
-            //scale by the fraction of the material which is this target type
-            double tFrac=targetFractions[trg];
-            double flux_a_e2_t=tFrac*flux_a_e2;
+            //dN/dE is normalized for each target, so scale by the interactions with this target
+            double flux_a_e2_t=flux_a_e2*int_struct->sigma_NC[trg][rho][alpha_active][e2]*targetDensities[trg];
             double* dNdE_ptr=&int_struct->dNdE_NC[trg][rho][alpha_active][e2][0];
             SQUIDS_POINTER_IS_ALIGNED(dNdE_ptr,preferred_alignment*sizeof(double));
             double* nc_factor_ptr=&nc_factors[rho][alpha_active][0];
@@ -923,12 +919,12 @@ void nuSQUIDS::UpdateInteractions(){
         if(nu_tau_flux<=0 && nu_tau_bar_flux<=0)
           continue;
         double dEn = delE[en-1];
-        double invlen_CC_tau     = int_state.invlen_CC[0][tau_flavor][en];
-        double invlen_CC_tau_bar = int_state.invlen_CC[1][tau_flavor][en];
         for(unsigned int trg=0; trg < nTargetTypes; trg++){
-          //for convenience scale fluxes by target fraction, as usual
-          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn*targetFractions[trg];
-          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn*targetFractions[trg];
+          //the interactions with this target only
+          double invlen_CC_tau     = int_struct->sigma_CC[trg][0][tau_flavor][en]*targetDensities[trg];
+          double invlen_CC_tau_bar = int_struct->sigma_CC[trg][1][tau_flavor][en]*targetDensities[trg];
+          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn;
+          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn;
           double* dNdE_CC_tau     = &int_struct->dNdE_CC[trg][0][tau_flavor][en][0];
           double* dNdE_CC_tau_bar = &int_struct->dNdE_CC[trg][1][tau_flavor][en][0];
           SQUIDS_POINTER_IS_ALIGNED(dNdE_CC_tau    ,preferred_alignment*sizeof(double));
-- 
2.43.0


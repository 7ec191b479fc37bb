From 9a2927c9b7e683e24c3091dfc689a39039aafdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 01/31] fix: keep link state out of the buffer that a resize
 replaces

Thread access flags, the validity flag, the requested count and the blocked
statistics lived in the buffer object. DataManager::resize() deletes that
object while the producer and the consumer may be about to read or write
them: flags and a close were lost, statistics were written to freed memory
(FIFOAbstract::init() kept pointers to them). They belong to the link, so
keep them in DataManager and FIFOAbstract; capacity() no longer touches the
buffer either.
---
 raftinc/bufferdata.tcc              | 28 -------------
 raftinc/database.tcc                | 24 ++---------
 raftinc/datamanager.tcc             | 62 ++++++++++++++++++++++++-----
 raftinc/fifoabstract.tcc            | 14 +++++--
 raftinc/ringbufferheap.tcc          |  2 +-
 raftinc/ringbufferheap_abstract.tcc | 20 +++++-----
 raftinc/ringbuffershm.tcc           |  2 +-
 7 files changed, 79 insertions(+), 73 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..13fc310 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -77,8 +77,6 @@ template < class T > struct Data< T,
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt) Pointer( max_cap, 1 ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
         (this)->external_alloc = true;
    }
 
@@ -127,8 +125,6 @@ template < class T > struct Data< T,
       /** TODO, see if there are optimizations to be made with sizing and alignment **/
       new ( &(this)->read_pt ) Pointer( max_cap );
       new ( &(this)->write_pt ) Pointer( max_cap ); 
-      new ( &(this)->read_stats ) Blocked();
-      new ( &(this)->write_stats ) Blocked();
    }
   
    /**
@@ -153,7 +149,6 @@ template < class T > struct Data< T,
         ptr = new ( &(this)->read_pt ) Pointer( (other->read_pt),   (this)->max_cap );
         ptr = new ( &(this)->write_pt ) Pointer( (other->write_pt), (this)->max_cap );
         UNUSED( ptr );
-        (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
         std::memcpy( (void*)(this)->store /* dst */,
@@ -164,15 +159,7 @@ template < class T > struct Data< T,
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        /** stats objects are still valid, copy the ptrs over **/
-        
-        (this)->read_stats  = other->read_stats; 
-        (this)->write_stats = other->write_stats;
-        /** since we might use this as a min size, make persistent **/
-        (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
    }
 
 
@@ -222,8 +209,6 @@ template < class T >
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt ) Pointer( max_cap, 1 ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
         (this)->external_alloc = true;
    }
 
@@ -270,8 +255,6 @@ template < class T >
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt) Pointer( max_cap ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
    }
    
    virtual void copyFrom( ourtype_t *other )
@@ -287,7 +270,6 @@ template < class T >
                                            (this)->max_cap );
         new ( &(this)->write_pt ) Pointer( (other->write_pt), 
                                            (this)->max_cap );
-        (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
         std::memcpy( (void*)(this)->store /* dst */,
@@ -297,12 +279,6 @@ template < class T >
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        //copy over block stats objects
-        (this)->read_stats  = other->read_stats; 
-        (this)->write_stats = other->write_stats;
-        
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
    }
 
@@ -381,7 +357,6 @@ template < class T > struct Data< T, Type::SharedMemory > :
                               signal_key.c_str() );
 
             new ( &(this)->write_pt ) Pointer( max_cap ); 
-            new ( &(this)->write_stats ) Blocked();
             
 
             (this)->cookie.producer = 0x1337;
@@ -428,7 +403,6 @@ template < class T > struct Data< T, Type::SharedMemory > :
             assert( (this)->signal != nullptr );
             
             new ( &(this)->read_pt ) Pointer( max_cap );
-            new ( &(this)->read_stats ) Blocked();
             
 
             (this)->cookie.consumer = 0x1337;
@@ -455,13 +429,11 @@ template < class T > struct Data< T, Type::SharedMemory > :
          case( Direction::Producer ):
          {
             delete( &(this)->write_pt ); 
-            delete( &(this)->write_stats );
          }
          break;
          case( Direction::Consumer ):
          { 
             delete( &(this)->read_pt );
-            delete( &(this)->read_stats );
          }
          break;
          default:
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..1f5be22 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -23,8 +23,6 @@
 #include "pointer.hpp"
 #include "signal.hpp"
 #include <cstddef>
-#include "blocked.hpp"
-#include "threadaccess.hpp"
 
 namespace raft
 {
@@ -68,32 +66,18 @@ template < class T > struct DataBase
 
 
     /**
-     * read/write pointer. the thread_access is in 
-     * between as it's well accessed by both just
-     * as frequently as the pointers themselves, 
-     * so we get decent caching behavior out of 
-     * doing it this way. 
+     * read/write pointer. anything that must outlive
+     * this buffer when it is replaced by a larger one
+     * (thread access flags, validity, requested size) is
+     * kept by the DataManager, not here.
      */
     Pointer                 read_pt;
-    ThreadAccess            thread_access[ 2 ];
     Pointer                 write_pt;
     
     T                       *store          = nullptr;
     Signal                  *signal         = nullptr;
     bool                    external_alloc  = false;
-    /** variable set by scheduler, used for shutdown **/
-    bool                    is_valid        = true;
     
-    /**
-     * these keep reference over how many read/writes are
-     * blocked. used for dynamic adaptation.
-     */
-    Blocked                 read_stats; 
-    Blocked                 write_stats;
-    
-    /** need to force resize, this has the count requested **/
-    std::size_t             force_resize    = 0;
-
      
     using value_type = T;
 
diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..b993450 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -28,6 +28,7 @@
 
 #include "ringbuffertypes.hpp"
 #include "bufferdata.tcc"
+#include "threadaccess.hpp"
 #include "defs.hpp"
 
 
@@ -49,14 +50,47 @@ public:
    {
       assert( buffer != nullptr );
       (this)->buffer = buffer;
+      /** readable at any time, also while the buffer is exchanged **/
+      max_cap        = buffer->max_cap;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
+   }
+
+   /**
+    * capacity - capacity of the buffer currently held, the
+    * buffer itself could be going away.
+    */
+   inline std::size_t capacity() const noexcept
+   {
+      return( max_cap );
+   }
+
+   /**
+    * invalidate - producer is done, nothing will be added to
+    * whatever buffer is or will be held by this object.
+    */
+   inline void invalidate() noexcept
+   {
+      valid = false;
+   }
+
+   inline bool is_valid() const noexcept
+   {
+      return( valid );
+   }
+
+   /**
+    * request_count / requested_count - set and get the item 
+    * count that a producer needs but the capacity doesn't allow
+    */
+   inline void request_count( const std::size_t n ) noexcept
+   {
+      force_resize = n;
+   }
+
+   inline std::size_t requested_count() const noexcept
+   {
+      return( force_resize );
    }
 
    inline bool is_resizeable() noexcept 
@@ -131,7 +165,7 @@ public:
       {
          /** check to see if program is done **/
          if( exit_buffer /** comes from allocator **/ |
-             ! old_buffer->is_valid  /** comes indirectly from scheduler **/ )
+             ! valid  /** comes indirectly from scheduler **/ )
          {
             /** get rid of newly allocated buff, don't need **/
             delete( new_buffer );
@@ -228,9 +262,19 @@ private:
    volatile bool         resizing            =  false;
 
    bool                  resizeable          = true;
+
+   volatile std::size_t  max_cap             = 0;
+   /** variable set by scheduler, used for shutdown **/
+   volatile bool         valid               = true;
+   /** need to force resize, this has the count requested **/
+   volatile std::size_t  force_resize        = 0;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, one for the producer and 
+    * one for the consumer. These belong to the threads using 
+    * the queue, not to one specific buffer.
+    */
+   ThreadAccess thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..ca25e5a 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,8 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        producer_data.write_stats = &( (this)->write_stats );
+        consumer_data.read_stats  = &( (this)->read_stats );
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -76,6 +74,14 @@ protected:
         Blocked                     *read_stats = nullptr;
     } consumer_data;
     
+    /**
+     * these keep reference over how many read/writes are
+     * blocked. used for dynamic adaptation, not part of the
+     * buffer since that one can be replaced.
+     */
+    Blocked                      read_stats; 
+    Blocked                      write_stats;
+
     /** 
      * upgraded the *data structure to be a DataManager
      * object to enable easier and more intuitive dynamic
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..14e4649 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -212,7 +212,7 @@ protected:
           */
          if( (this)->capacity() < n )
          {
-            ((this)->datamanager.get()->force_resize) = n;
+            (this)->datamanager.request_count( n );
          }
          (this)->datamanager.exitBuffer( dm::allocate_range );
          /** else, set stats,  spin **/
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..4392da4 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -113,8 +113,7 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      ptr->is_valid = false;
+      (this)->datamanager.invalidate();
       return;
    }
    
@@ -127,8 +126,7 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      return( ! (this)->datamanager.is_valid() );
    }
 
 
@@ -140,7 +138,9 @@ TOP:
     */
    virtual std::size_t   space_avail()
    {
-      return( (this)->datamanager.get()->max_cap - size() );
+      /** size first, capacity can only grow in between **/
+      const auto curr_size( size() );
+      return( (this)->datamanager.capacity() - curr_size );
    }
   
    /**
@@ -150,7 +150,7 @@ TOP:
     */
    virtual std::size_t   capacity() 
    {
-      return( (this)->datamanager.get()->max_cap );
+      return( (this)->datamanager.capacity() );
    }
 
    
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->read_stats.all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->write_stats.all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( (this)->write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
@@ -205,7 +205,7 @@ TOP:
      */
     virtual std::size_t get_suggested_count()
     {
-        return( (this)->datamanager.get()->force_resize );
+        return( (this)->datamanager.requested_count() );
     }
    
 
diff --git a/raftinc/ringbuffershm.tcc b/raftinc/ringbuffershm.tcc
index 674068e..7b0b457 100644
--- a/raftinc/ringbuffershm.tcc
+++ b/raftinc/ringbuffershm.tcc
@@ -212,7 +212,7 @@ protected:
           */
          if( (this)->capacity() < n )
          {
-            ((this)->datamanager.get()->force_resize) = n;
+            (this)->datamanager.request_count( n );
          }
          (this)->datamanager.exitBuffer( dm::allocate_range );
          /** else, set stats,  spin **/
-- 
2.43.0


From 21926d5e3ff9b6a67f2fff2b57e89d0cc21d33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 02/31] fix: length_signal is the length of the signal array

It was computed from sizeof( T ), so growing a link copied too few or too
many bytes of the signal array (out of bounds for items larger than a
Signal, lost signals for smaller ones).
---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 1f5be22..adf46b1 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -41,7 +41,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From eb09223eef4a40e2d2d38d59e08dfaea9bd0e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 03/31] fix: size() must not read the buffer after leaving it

exitBuffer() permits a pending resize to delete the buffer, read max_cap
before.
---
 raftinc/ringbufferheap_abstract.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 4392da4..a0bde63 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -61,8 +61,9 @@ TOP:
                /** expect most of the time to be full **/
                if( R_LIKELY( wrap_read < wrap_write ) )
                {
+                  const auto cap( buff_ptr->max_cap );
                   (this)->datamanager.exitBuffer( dm::size );
-                  return( buff_ptr->max_cap );
+                  return( cap );
                }
                else if( wrap_read > wrap_write )
                {
@@ -90,8 +91,9 @@ TOP:
             }
             else if( rpt > wpt )
             {
+               const auto cap( buff_ptr->max_cap );
                (this)->datamanager.exitBuffer( dm::size );
-               return( buff_ptr->max_cap - rpt + wpt ); 
+               return( cap - rpt + wpt ); 
             }
             (this)->datamanager.exitBuffer( dm::size );
             return( 0 );
-- 
2.43.0


From 5089da94339410b6a9f1cbc426791f7f4cd5027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 04/31] fix: deallocate() destroys the object that was
 allocated

For classes kept in place it destroyed the object at the read position,
which belongs to the consumer, and leaked the one just allocated.
---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 14e4649..ffec93e 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -493,8 +493,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From d50f903c27332fd3434e1f94bcc886b092233e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 05/31] fix: a peeked window must index signals from the start
 of the array

---
 raftinc/bufferdata.tcc     | 4 ++--
 raftinc/ringbufferheap.tcc | 6 +++---
 raftinc/ringbuffershm.tcc  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 13fc310..babd15e 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -63,7 +63,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -195,7 +195,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index ffec93e..dae94b3 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -465,7 +465,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ 0 ] );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -905,7 +905,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ 0 ] );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1390,7 +1390,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ 0 ] );
       *ptr =  buff_ptr->store;
       return;
    }
diff --git a/raftinc/ringbuffershm.tcc b/raftinc/ringbuffershm.tcc
index 7b0b457..b9f0d1d 100644
--- a/raftinc/ringbuffershm.tcc
+++ b/raftinc/ringbuffershm.tcc
@@ -459,7 +459,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ 0 ] );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -898,7 +898,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ 0 ] );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From e7bfdd923bd68fdb275f7b1a364ebcc9da1dc233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 06/31] fix: pop of a large object must release its memory

---
 raftinc/ringbufferheap.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index dae94b3..7a0194a 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1278,7 +1278,7 @@ protected:
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
-      head->~T();
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From 9cea649e7e67fb5c0bcd4f98f47175a2e1ee2a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 07/31] fix: a resize must move objects that cannot be copied
 byte by byte

---
 raftinc/bufferdata.tcc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index babd15e..dc518e1 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -151,9 +151,10 @@ template < class T > struct Data< T,
         UNUSED( ptr );
 
         /** buffer is already alloc'd, copy **/
-        std::memcpy( (void*)(this)->store /* dst */,
-                     (void*)other->store  /* src */,
-                     other->length_store );
+        relocate( other, 
+                  std::integral_constant< bool, 
+                     std::is_move_constructible< T >::value &&
+                     ! std::is_trivially_copyable< T >::value >() );
         
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
@@ -162,6 +163,29 @@ template < class T > struct Data< T,
         /** everything should be put back together now **/
    }
 
+   /**
+    * relocate - bring the items to the new buffer. Objects that 
+    * can't be copied byte by byte (e.g. ones that point into 
+    * themselves) are moved one at a time. Resizing only happens
+    * when the read pointer is below the write pointer, so the
+    * live items are the ones in between. 
+    */
+   void relocate( DataBase< T > *other, std::true_type )
+   {
+        const auto end( Pointer::val( other->write_pt ) );
+        for( auto index( Pointer::val( other->read_pt ) ); index < end; index++ )
+        {
+            new ( &(this)->store[ index ] ) T( std::move( other->store[ index ] ) );
+            other->store[ index ].~T();
+        }
+   }
+
+   void relocate( DataBase< T > *other, std::false_type )
+   {
+        std::memcpy( (void*)(this)->store /* dst */,
+                     (void*)other->store  /* src */,
+                     other->length_store );
+   }
 
    virtual ~Data()
    {
-- 
2.43.0


From d424d0b8be2b2bb394bfbf30d3b6ac7043d1acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 08/31] fix: exceptions must release their message

---
 raftinc/raftexception.hpp |  2 +-
 src/raftexception.cpp     | 18 ++----------------
 2 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/raftinc/raftexception.hpp b/raftinc/raftexception.hpp
index 5454ca8..c7427f0 100644
--- a/raftinc/raftexception.hpp
+++ b/raftinc/raftexception.hpp
@@ -30,7 +30,7 @@ public:
    
     virtual const char* what() const noexcept;
 private:
-    const char *message = nullptr;
+    const std::string message;
 };
 
 /** 
diff --git a/src/raftexception.cpp b/src/raftexception.cpp
index aa40faa..fea7a37 100644
--- a/src/raftexception.cpp
+++ b/src/raftexception.cpp
@@ -19,29 +19,15 @@
  */
 
 #include <utility>
-#include <cassert>
-#include <cstring>
 #include "raftexception.hpp"
 
 RaftException::RaftException( const std::string message ) : 
-    message( 
-#if (defined _WIN64 ) || (defined _WIN32) 
-    /**
-     * fix for warning C4996: 'strdup': The POSIX name for this item is
-     * a bit annoying given it is a POSIX function, but this is the best
-     * we can do, see: https://bit.ly/2TH0Jci
-     */
-    _strdup( message.c_str() )
-#else //everybody else
-    strdup( message.c_str() ) 
-#endif
-    )
+    message( message )
 {
 }
 
 const char*
 RaftException::what() const noexcept
 {
-    assert( message != nullptr );
-    return( message );
+    return( message.c_str() );
 }
-- 
2.43.0


From d0f55edd7e68727b39ac475788b5436ce75c89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 09/31] fix: keep a ring position in one word, size() saw a
 full buffer as empty half way through a wrap

---
 raftinc/pointer.hpp                 | 24 ++++--------
 raftinc/ringbufferheap_abstract.tcc | 56 +++++----------------------
 src/pointer.cpp                     | 59 ++++++-----------------------
 3 files changed, 28 insertions(+), 111 deletions(-)

diff --git a/raftinc/pointer.hpp b/raftinc/pointer.hpp
index 498473a..e6134e9 100644
--- a/raftinc/pointer.hpp
+++ b/raftinc/pointer.hpp
@@ -79,32 +79,22 @@ public:
 
    
    /**
-    * wrapIndiciator - returns the current wrap position, 
-    * the read should never be ahead of the write, and 
-    * at best they should be equal.  This is used when
-    * determining to return max_cap or zero for the current
-    * queue size.  
+    * count - number of items that have passed this pointer, 
+    * never wraps. The pointer is this single word, so that another 
+    * thread never sees it half way through a wrap of the buffer. 
+    * Used to determine the current queue size. 
     * @return  std::size_t
     */
-   static std::size_t wrapIndicator( Pointer &ptr ) ;
+   static std::size_t count( Pointer &ptr ) ;
    
 private:
-     std::uint64_t           a  = 0;
-#ifdef JVEC_MACHINE    
-     std::uint64_t           b  = 0;
-#endif    
     /**
-     * size of wrap pointer might become an issue
-     * if GHz increase drastically or if this runs
-     * for a really really long time....@ 10GHz and
-     * assuming 1 wrap per cycle that works out to 
-     * around 54 years, @ 2GHz we have ~250 years.
      * TODO, get these set correctly if we do eventually
      * wrap an unsigned 64 int.
      */
-     wrap_t    wrap_a  = 0;
+     std::uint64_t           a  = 0;
 #ifdef JVEC_MACHINE    
-     wrap_t    wrap_b  = 0;
+     std::uint64_t           b  = 0;
 #endif    
     const    std::size_t      max_cap;
 };
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index a0bde63..28ccc64 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -50,53 +50,17 @@ public:
          if( (this)->datamanager.notResizing() )
          {
             auto * const buff_ptr( (this)->datamanager.get() );
-TOP:      
-            const auto   wrap_write( Pointer::wrapIndicator( buff_ptr->write_pt  ) ),
-                         wrap_read(  Pointer::wrapIndicator( buff_ptr->read_pt   ) );
-
-            const auto   wpt( Pointer::val( buff_ptr->write_pt ) ), 
-                         rpt( Pointer::val( buff_ptr->read_pt  ) );
-            if( R_UNLIKELY (wpt == rpt) )
-            {
-               /** expect most of the time to be full **/
-               if( R_LIKELY( wrap_read < wrap_write ) )
-               {
-                  const auto cap( buff_ptr->max_cap );
-                  (this)->datamanager.exitBuffer( dm::size );
-                  return( cap );
-               }
-               else if( wrap_read > wrap_write )
-               {
-                  /**
-                   * TODO, this condition is momentary, however there
-                   * is a better way to fix this with atomic operations...
-                   * or on second thought benchmarking shows the atomic
-                   * operations slows the queue down drastically so, perhaps
-                   * this is in fact the best of all possible returns (see 
-                   * Leibniz or Candide for further info).
-                   */
-                  raft::yield();
-                  goto TOP;
-               }
-               else
-               {
-                  (this)->datamanager.exitBuffer( dm::size );
-                  return( 0 );
-               }
-            }
-            else if( rpt < wpt )
-            {
-               (this)->datamanager.exitBuffer( dm::size );
-               return( wpt - rpt );
-            }
-            else if( rpt > wpt )
-            {
-               const auto cap( buff_ptr->max_cap );
-               (this)->datamanager.exitBuffer( dm::size );
-               return( cap - rpt + wpt ); 
-            }
+            /** 
+             * read pointer first, the write pointer is never behind 
+             * it. Seen from a third thread it might have advanced by
+             * more than the capacity by the time it is read.
+             */
+            const auto read_count(  Pointer::count( buff_ptr->read_pt  ) );
+            const auto write_count( Pointer::count( buff_ptr->write_pt ) );
+            const std::size_t cap( buff_ptr->max_cap );
             (this)->datamanager.exitBuffer( dm::size );
-            return( 0 );
+            const std::size_t diff( write_count - read_count );
+            return( diff < cap ? diff : cap );
          }
          (this)->datamanager.exitBuffer( dm::size );
          raft::yield();
diff --git a/src/pointer.cpp b/src/pointer.cpp
index e64120c..ab8b032 100644
--- a/src/pointer.cpp
+++ b/src/pointer.cpp
@@ -25,9 +25,9 @@
 Pointer::Pointer(const std::size_t cap, 
                  const wrap_t wrap_set ) : Pointer( cap )
 {
-    wrap_a = wrap_set;
+    a = wrap_set * cap;
 #ifdef JVEC_MACHINE
-    wrap_b = wrap_set;
+    b = a;
 #endif    
 }
 
@@ -45,6 +45,12 @@ Pointer::Pointer( Pointer &other,
 
 std::size_t 
 Pointer::val( Pointer &ptr ) 
+{
+   return( Pointer::count( ptr ) % ptr.max_cap );
+}
+
+std::size_t 
+Pointer::count( Pointer &ptr ) 
 {
 #ifdef JVEC_MACHINE
    struct{
@@ -64,58 +70,15 @@ Pointer::val( Pointer &ptr )
 void
 Pointer::inc( Pointer &ptr ) 
 {
-#ifdef JVEC_MACHINE
-   ptr.a = ( ptr.a + 1 ) % ptr.max_cap;
-   ptr.b = ( ptr.b + 1 ) % ptr.max_cap;
-   if( ptr.b == 0 )
-   {
-      ptr.wrap_a++;
-      ptr.wrap_b++;
-   }
-#else
-   ptr.a = ( ptr.a + 1 ) % ptr.max_cap;
-   if( ptr.a == 0 )
-   {
-      ptr.wrap_a++;
-   }
-#endif
+   Pointer::incBy( ptr, 1 );
 }
 
 void
 Pointer::incBy( Pointer &ptr, 
                 const std::size_t in )
 {
+   ptr.a = ptr.a + in;
 #ifdef JVEC_MACHINE
-   ptr.a = ( ptr.a + in ) % ptr.max_cap;
-   ptr.b = ( ptr.b + in ) % ptr.max_cap;
-   if( ptr.b < in )
-   {
-      ptr.wrap_a++;
-      ptr.wrap_b++;
-   }
-#else
-   ptr.a = ( ptr.a + in ) % ptr.max_cap;
-   if( ptr.a < in )
-   {
-      ptr.wrap_a++;
-   }
-#endif
-}
-
-std::size_t 
-Pointer::wrapIndicator( Pointer &ptr ) 
-{
-#ifdef JVEC_MACHINE
-    struct{
-       std::uint64_t a;
-       std::uint64_t b;
-    }copy;
-    do{
-       copy.a = ptr.wrap_a;
-       copy.b = ptr.wrap_b;
-    }while( copy.a != copy.b );
-    return( copy.b );
-#else
-    return( ptr.wrap_a );
+   ptr.b = ptr.b + in;
 #endif
 }
-- 
2.43.0


From 09a838291b677dcf2fd94ddef0c4a3de92dac2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 10/31] fix: release forwarded and dropped large objects right
 when an address comes back

An address that was peeked stayed in the peek set after its object had been
popped or sent on, so an unrelated object later pushed from the same address
was sent by reference instead of being copied; fifo_gc then walked past the
end of the recycled entries. A dropped object that had the address of one
sent on earlier in the same activation was never released.
---
 raftinc/defs.hpp           |  5 +++--
 raftinc/ringbufferheap.tcc | 11 ++++++++---
 src/schedule.cpp           | 25 ++++++++++---------------
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/raftinc/defs.hpp b/raftinc/defs.hpp
index 21df792..84100b3 100644
--- a/raftinc/defs.hpp
+++ b/raftinc/defs.hpp
@@ -114,11 +114,12 @@ namespace raft
 #endif
 
 template < typename T > 
-    using set_t = std::set< T >;
+    using set_t = std::multiset< T >;
 
 using ptr_set_t = set_t< std::uintptr_t >;
 using recyclefunc_t = std::function< void( void * ) >;
-using ptr_map_t = std::map< std::uintptr_t, recyclefunc_t >;
+/** an address can come back within one activation, so keep every entry **/
+using ptr_map_t = std::multimap< std::uintptr_t, recyclefunc_t >;
 using ptr_t = std::uintptr_t;
 
 using core_id_t = std::int64_t;
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 7a0194a..1960975 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1196,9 +1196,9 @@ protected:
          T *item( reinterpret_cast< T* >( ptr ) );
          auto **b_ptr( reinterpret_cast< T** >( &buff_ptr->store[ write_index ] ) );
 
-         if( (this)->producer_data.out_peek->find(
-            reinterpret_cast< std::uintptr_t >( item ) ) != 
-                (this)->producer_data.out_peek->cend() )
+         /** also ends the entry, what is sent on isn't ours anymore **/
+         if( (this)->producer_data.out_peek->erase(
+            reinterpret_cast< std::uintptr_t >( item ) ) != 0 )
          {
             //this was from a previous peek call
             (this)->producer_data.out->insert( reinterpret_cast< std::uintptr_t >( item ) );
@@ -1275,6 +1275,11 @@ protected:
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
+      /** might have been peeked at, the address is free for others now **/
+      if( (this)->consumer_data.in_peek != nullptr )
+      {
+         (this)->consumer_data.in_peek->erase( reinterpret_cast< ptr_t >( head ) );
+      }
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..a61bcf2 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -273,28 +273,23 @@ Schedule::fifo_gc( ptr_map_t * const in,
                    ptr_set_t * const out,
                    ptr_set_t * const peekset )
 {
-    auto in_begin( in->begin() ), in_end( in->end() );
-    auto out_beg( out->begin() ), out_end( out->end() );
-    while( out_beg != out_end )
+    /**
+     * everything recycled by the kernel is released, unless it was sent
+     * on. Each send accounts for one recycle: the address of an object
+     * sent on can be in use again for one that arrived later.
+     */
+    for( auto &recycled : *in )
     {
-        if( (*out_beg) != (*in_begin).first )
+        const auto sent( out->find( recycled.first ) );
+        if( sent != out->end() )
         {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
+            out->erase( sent );
         }
         else
         {
-            ++out_beg;
-            ++in_begin;
+            recycled.second( reinterpret_cast< void* >( recycled.first ) );
         }
     }
-    while( in_begin != in_end )
-    {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
-    }
     in->clear();
     out->clear();
     peekset->clear();
-- 
2.43.0


From 639d019936131bb14c1dfb39b8c0099de5537a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 11/31] fix: hand a kernel's core assignment to its thread
 before the thread starts

The assignment was stored after the thread had been created, so a thread that
started early saw -1 and ran its kernel unbound.
---
 raftinc/simpleschedule.hpp | 12 ++++++++----
 src/simpleschedule.cpp     |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..3cefeb7 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t loc ) : k( k ),
+                                                     finished( fin ),
+                                                     loc( loc ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,10 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t loc ) : data( kernel, 
+                                                   &finished,
+                                                   loc ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..3ba2210 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,8 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      auto * const th_info( new thread_info_t( kernel,
+                                             kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From 1a988cc9cf1845c61e9d434659a4cc4212b164d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 12/31] fix: split keeps the items it could not send

Only as many items as the selected output had space for are pushed, but the
whole window was recycled, which lost the rest.
---
 raftinc/split.tcc       | 11 ++++-------
 raftinc/splitmethod.hpp |  8 +++++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..ab4c4f1 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -52,14 +52,11 @@ public:
       const auto avail( output_port.size() );
       auto range( output_port.template peek_range< T >( avail ) );
       /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      const auto sent( split_func.send( range, output ) );
+      if( sent > 0 )
       {
-         /* recycle item */
-         output_port.recycle( avail );
-      }
-      else
-      {
-         output_port.unpeek();
+         /* recycle what has been sent, the rest waits for the next run */
+         output_port.recycle( sent );
       }
       return( raft::proceed );
    }
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..114e278 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,14 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  std::size_t - number of items sent, starting with the first
+    * item of range. Can be less than range.size(), the rest isn't sent.
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +82,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 20c897b03486437dceb9a9dda36d1e3b30852a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 13/31] fix: a random generator asked for zero values sends
 none

---
 raftinc/random.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raftinc/random.tcc b/raftinc/random.tcc
index 48f9e5a..59bc79a 100644
--- a/raftinc/random.tcc
+++ b/raftinc/random.tcc
@@ -77,6 +77,10 @@ public:
     {
         for( auto &p : output )
         {
+            if( count_of_sent >= N )
+            {
+                return( raft::stop );
+            }
             p.push( dist( gen ) );
             if( ++count_of_sent >= N )
             {
-- 
2.43.0


From ac3529b30dd8ee3f67d0893ceff7ebe66d9441e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 14/31] fix: search added the position of the chunk twice to a
 match

---
 raftinc/search.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..dd3d348 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,7 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From 8548e44b3af4dbacb2366d3a2903e7a6dfd7a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 15/31] fix: copying a file chunk lost its index

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..f5713c6 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index  = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index  = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From 4e084a5df2dbb28d57e5eaaf009eec3ce8fd4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 16/31] fix: file reader stops at the end of the file, signals
 it with the last chunk and closes it

---
 raftinc/fileio.tcc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..53bd494 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,13 +83,32 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
+      /**
+       * the first chunk takes data_size bytes, each of the following
+       * ones adds data_size less the overlap; iterations is the number
+       * of chunks after the first one.
+       */
+      const std::streamsize data_size( chunktype::getChunkSize() - 1 );
+      const std::streamsize stride( data_size - chunk_offset );
+      if( stride <= 0 )
       {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
+         std::cerr << "chunk offset must be smaller than the chunk, exiting\n";
+         exit( EXIT_FAILURE );
+      }
+      if( length > data_size )
+      {
+         iterations = ( length - data_size + stride - 1 ) / stride;
       }
-      else
+   }
+
+   filereader( const filereader &other ) = delete;
+   filereader& operator = ( const filereader &other ) = delete;
+
+   virtual ~filereader()
+   {
+      if( fp != nullptr )
       {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
+         std::fclose( fp );
       }
    }
 
@@ -117,7 +136,7 @@ public:
             chunk.buffer[ num_read ] = '\0';
             chunk.length = num_read;
             port.send(
-               ( iterations - output.count() /* num ports */ ) > 0 ?
+               iterations >= static_cast< std::int64_t >( output.count() ) ?
                   raft::none :
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
-- 
2.43.0


From 10dba12a039a6567843f8d5b40a7f06ce28c3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 17/31] fix: chains on the right of a topology operator kept
 only their last link

---
 raftinc/kpair.hpp |  5 +++++
 src/kpair.cpp     | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..0ab75c9 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,11 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /** tail - last link of the chain this one belongs to **/
+    kpair& tail() noexcept;
+    /** setHead - set head for this link and all that follow **/
+    void setHead( kpair * const new_head ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..ae09ddf 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -38,10 +38,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a, 
               raft::kernel &b,
               const bool split,
-              const bool join ) : kpair( *(a.dst), b )
+              const bool join ) : kpair( *(a.tail().dst), b )
 {
     head        = a.head;
-    a.next  = this;
+    a.tail().next = this;
     split_to    = split;
     join_from   = join;
 }
@@ -59,10 +59,11 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
     head        = this;
-    next        = &n;
+    next        = n.head;
+    next->setHead( this );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +77,12 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.tail().dst), *(b.head->src) )
 {
     head = a.head;
-    a.next = this;
-    b.head = a.head;
-    next = &b;
+    a.tail().next = this;
+    next = b.head;
+    next->setHead( head );
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +124,27 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+kpair&
+kpair::tail() noexcept
+{
+    auto *last( this );
+    while( last->next != nullptr )
+    {
+        last = last->next;
+    }
+    return( *last );
+}
+
+void
+kpair::setHead( kpair * const new_head ) noexcept
+{
+    for( auto *k( this ); k != nullptr; k = k->next )
+    {
+        k->head = new_head;
+    }
+    return;
+}
+
 void 
 kpair::setOoO() noexcept
 {
-- 
2.43.0


From d3b982df9c1eb07c3c6f9721a9f1ca2164ecdccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 18/31] fix: a copy of a printer lost all but one of its ports

---
 raftinc/print.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..dab77cf 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -81,7 +83,7 @@ public:
     }
 
 protected:
-    const std::size_t input_port_count    = 1;
+    const std::size_t input_port_count;
 };
 
 template< typename T, char delim = '\0' > class print : public printabstract< T >
-- 
2.43.0


From 726dc17bbb55ebed28c987d6dd142916640e5750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 19/31] fix: duplicated chains and joins of nested splits

---
 src/map.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..6d0e5eb 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,8 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** this split ends here, what is left belongs to the next outer one **/
+    split_stack.pop();
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +555,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = split_stack.empty() ? groups.size() : split_stack.top();
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +579,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
@@ -621,6 +622,8 @@ raft::map::inline_dup_join( kernels_t &groups,
             next->has_dst_name = true;
             joink( next );
             temp_groups.back()->emplace_back( next->dst );
+            /** the source of a chain is its head **/
+            gp->front() = next->head->src;
             /**
              * at this point a single chain has been added
              * but we need to check for the next one to make
@@ -653,7 +656,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 636b8e0f4edbaa34e40882133acbd02e593d0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 20/31] fix: elements of a user's array were destroyed when a
 consumer recycled or popped them

---
 raftinc/ringbufferheap.tcc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 1960975..b654067 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -593,8 +593,11 @@ protected:
          const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
          auto *ptr =
             reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
-         /** call destructor direct, faster than recyle func **/
-         ptr->~T();
+         if( ! buff_ptr->external_alloc )
+         {
+            /** call destructor direct, faster than recyle func **/
+            ptr->~T();
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
@@ -803,7 +806,10 @@ protected:
        * #76 -jcb 18Nov2018
        * - applying same fix to out-of-band objects
        */
-      ( &buff_ptr->store[ read_index ] )->~T();
+      if( ! buff_ptr->external_alloc )
+      {
+         ( &buff_ptr->store[ read_index ] )->~T();
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
-- 
2.43.0


From 3962b1090a80b0e00fb7b5f235adac79fcd63e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 21/31] fix: an array with fewer elements than outputs asserted
 instead of leaving some outputs empty

---
 src/allocate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocate.cpp b/src/allocate.cpp
index 50a271e..3e270d5 100644
--- a/src/allocate.cpp
+++ b/src/allocate.cpp
@@ -91,7 +91,8 @@ Allocate::allocate( PortInfo &a, PortInfo &b, void *data )
    auto &func_map( a.const_map[ Type::Heap ] );
    auto test_func( (*func_map)[ false ] );
 
-   if( a.existing_buffer != nullptr )
+   /** a part with no items is an ordinary, empty stream **/
+   if( a.existing_buffer != nullptr && a.nitems != 0 )
    {
       fifo = test_func( a.nitems,
                         a.start_index,
-- 
2.43.0


From 6df22c0cf231172ca4c890b418eabdde80200831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 22/31] fix: order the flags a port and a resize of its buffer
 look at

A thread announced that it uses the buffer with a plain store and then
looked at 'resizing', while resize() did the reverse. Nothing kept the
store in front of the load (x86 and the compiler may both swap them), so
the two could miss each other and an item was written to or read from
the buffer that was just copied and deleted: lost or duplicated items
while a queue grows.
---
 raftinc/datamanager.tcc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index b993450..aeeed46 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -175,6 +175,8 @@ public:
          }
          /** set resizing global flag **/
          resizing = true;
+         /** pairs with the one in enterBuffer **/
+         std::atomic_thread_fence( std::memory_order_seq_cst );
          /** see if everybody is done with the current buffer **/
          if( allclear( thread_access, &checking_size ) )
          {
@@ -203,6 +205,7 @@ public:
       new_buffer->copyFrom( old_buffer );
       set( new_buffer );
       delete( old_buffer );
+      std::atomic_thread_fence( std::memory_order_release );
       resizing = false;
    }
    
@@ -229,6 +232,12 @@ public:
                   static_cast< dm::key_t >( 1 ),
                   thread_access,
                   &checking_size );
+      /** 
+       * our flag must be visible before notResizing() is called,
+       * otherwise resize() and this thread could both miss the 
+       * other one. 
+       */
+      std::atomic_thread_fence( std::memory_order_seq_cst );
    }
 
    /**
@@ -239,6 +248,8 @@ public:
     */
    void exitBuffer( const dm::access_key key ) noexcept
    {
+      /** everything done to the buffer comes before this **/
+      std::atomic_thread_fence( std::memory_order_release );
       /** see lambda below **/
       set_helper( key, 
                   static_cast< dm::key_t >( 0 ),
@@ -253,7 +264,10 @@ public:
     */
    bool notResizing() noexcept
    {
-      return( R_UNLIKELY( ! resizing ) ); 
+      const auto not_resizing( ! resizing );
+      /** the buffer is looked up after this, not before **/
+      std::atomic_thread_fence( std::memory_order_acquire );
+      return( R_UNLIKELY( not_resizing ) ); 
    }
    
 
-- 
2.43.0


From 71deab8f4492408bd22246812b81f8365cb54e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 23/31] fix: kernels over existing memory take an id of their
 own

The constructor for kernels over existing memory did not advance the
kernel count, so that such a kernel shared its id with the next kernel
constructed.
---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From d88b21d752fc9cb382df676ee8b4d059399cfe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 24/31] fix: joining at a kernel with more inputs than there
 are streams

The loop over the input ports read past the end of the group of streams;
the inputs that are left over now stay unconnected, which is reported
when the map is executed.
---
 src/map.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6d0e5eb..33e786f 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -532,8 +532,12 @@ raft::map::inline_join( split_stack_t &split_stack,
     auto joinfunc( [&]( up_group_t &group, kpair *n )
     {
         auto it( group->begin() );
+        /**
+         * NOTE: ports beyond the number of kernels to join stay
+         * unconnected, checkEdges reports them
+         */
         for( auto port_it( n->dst->input.begin() );
-                port_it != n->dst->input.end(); ++port_it )
+                port_it != n->dst->input.end() && it != group->end(); ++port_it )
         {
             n->src      = (*it);
             n->dst_name = port_it.name();
-- 
2.43.0


From 76be4a9fabe875d8cd983a4e4e67317bbae7883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 25/31] fix: report a split from, or a duplicated join at, a
 kernel without ports

A split from a kernel without an output port was accepted and silently
left the kernels after it out of the map, so was a duplicated group
joined at a kernel without an input port.
---
 src/map.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/map.cpp b/src/map.cpp
index 33e786f..d3e5ac7 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -465,6 +465,12 @@ raft::map::inline_split( split_stack_t &split_stack,
             //TODO: throw exception for more
             //than one input port for destination
             //won't work with split/join
+            if( kernel->output.count() == 0 )
+            {
+                throw PortNotFoundException(
+                    "At least one output port must be defined to split from, none were for kernel class \"" +
+                    common::printClassName( *kernel ) + "\"" );
+            }
             temp_groups.push_back( up_group_t( new group_t() ) );
             //for each output port in kernel
             if( temp_groups[ 0 ]->size() == 0 )
@@ -598,6 +604,12 @@ raft::map::inline_dup_join( kernels_t &groups,
      * to scale better. - jcb
      */
     assert( groups.size() == 1 );
+    if( next->dst->input.count() == 0 )
+    {
+        throw PortNotFoundException(
+            "At least one input port must be defined to join at, none were for kernel class \"" +
+            common::printClassName( *next->dst ) + "\"" );
+    }
     temp_groups.push_back( up_group_t( new group_t() ) );
     up_group_t &gp( groups[ 0 ] );
     
-- 
2.43.0


From 0d3a83c0fc92800c60f214716795248a22750240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 26/31] fix: kernel keeper releases its lock when there is no
 memory for an element

---
 raftinc/kernelkeeper.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/kernelkeeper.tcc b/raftinc/kernelkeeper.tcc
index 15bdcbb..65d17f0 100644
--- a/raftinc/kernelkeeper.tcc
+++ b/raftinc/kernelkeeper.tcc
@@ -61,8 +61,9 @@ public:
    void  operator += ( CONTAINERTYPE * const ele )
    {
       auto &the_container( acquire() );
+      /** released as well if there's no memory for the element **/
+      const std::lock_guard< std::mutex > guard( mutex, std::adopt_lock );
       the_container.emplace( ele );
-      release();
       return;
    }
 
-- 
2.43.0


From d3310861996669a2783f05816aa29a13fefd43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 27/31] fix: locks of the application are released when writing
 its description fails with an exception

---
 src/graphtools.cpp |  5 ++---
 src/makedot.cpp    | 36 ++++++++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..43968be 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -109,7 +109,8 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
       {
         raft::yield();
       }
-      //we have lock, continue
+      //we have lock, continue, released as well if func throws
+      const std::lock_guard< std::mutex > guard( k->output.portmap.mutex_map, std::adopt_lock );
       /** 2) get map **/
       auto &map_of_ports( k->output.portmap.map );
       for( auto &port : map_of_ports )
@@ -131,7 +132,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
                common::printClassName( *k ) <<
                   "[ \"" <<
                   source.my_name << " \"], please fix and recompile.";
-            k->output.portmap.mutex_map.unlock();
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
@@ -141,7 +141,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             visited_set.insert( source.other_kernel );
          }
       }
-      k->output.portmap.mutex_map.unlock();
    }
    return;
 }
diff --git a/src/makedot.cpp b/src/makedot.cpp
index d49e048..b0b654d 100644
--- a/src/makedot.cpp
+++ b/src/makedot.cpp
@@ -76,16 +76,24 @@ void
 raft::make_dot::generate_vertex_list( std::ostream &stream )
 {
     auto &c( all_kernels.acquire() );
-    for( auto &k /** kernel **/ : c /** in container **/ )
+    try
     {
-        stream << "\t" << k->get_id();
-        stream << "[";
-        stream << raft::make_dot::generate_field( "label", 
-                                                   common::printClassName( *k ) );
-        stream << ", ";
-        stream << raft::make_dot::generate_field( "shape", "ellipse" ) << ", ";
-        stream << raft::make_dot::generate_field( "fontname", "Helvetica" );
-        stream << "];\n";
+        for( auto &k /** kernel **/ : c /** in container **/ )
+        {
+            stream << "\t" << k->get_id();
+            stream << "[";
+            stream << raft::make_dot::generate_field( "label", 
+                                                       common::printClassName( *k ) );
+            stream << ", ";
+            stream << raft::make_dot::generate_field( "shape", "ellipse" ) << ", ";
+            stream << raft::make_dot::generate_field( "fontname", "Helvetica" );
+            stream << "];\n";
+        }
+    }
+    catch(...)
+    {
+        all_kernels.release();
+        throw;
     }
     all_kernels.release();
     return;
@@ -122,7 +130,15 @@ raft::make_dot::generate_edge_list( std::ostream &stream )
     };
 
     auto &c( source_kernels.acquire() );
-    GraphTools::BFS( c, dot_func, (void*) &stream );
+    try
+    {
+        GraphTools::BFS( c, dot_func, (void*) &stream );
+    }
+    catch(...)
+    {
+        source_kernels.release();
+        throw;
+    }
     source_kernels.release();
     return;
 }
-- 
2.43.0


From 582f2b9e6acf01bd6218a989c6050c42deb011ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 28/31] fix: a rejected link leaves the capacity of an existing
 one alone

---
 raftinc/mapbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..a9a3fe0 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,13 +129,15 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
 
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
+        /** only once the ports are known to be free **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
         
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
-- 
2.43.0


From 68acf3c043d36d26e8e3452202e335d5c5c48dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 29/31] fix: a released allocation keeps its signal when its
 handle is handed on

---
 raftinc/autorelease.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raftinc/autorelease.tcc b/raftinc/autorelease.tcc
index 1584b2e..d8b3c2d 100644
--- a/raftinc/autorelease.tcc
+++ b/raftinc/autorelease.tcc
@@ -198,6 +198,7 @@ public:
 
    autorelease( const autorelease< T, allocatetype > &other ) : 
       item( other.item ), 
+      signal( other.signal ),
       fifo( other.fifo )
    {
       const_cast< autorelease< T, allocatetype >& >( other ).copied = true;
-- 
2.43.0


From 9d957b68ebd455e6e5a73075884ede7905cb30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 30/31] fix: a range allocation that is given back no longer
 keeps the buffer from growing

---
 raftinc/ringbufferheap.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index b654067..9bd80ad 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -55,6 +55,8 @@ public:
        */
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      /** or the allocation given back came from allocate_range **/
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
    /**
@@ -499,6 +501,8 @@ public:
       ptr->~T();
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      /** or the allocation given back came from allocate_range **/
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
     /**
-- 
2.43.0


From 181851de2534fcbb6360bf260d3b493a948ab769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:39 +0000
Subject: [PATCH 31/31] fix: the size of the graph description names the width
 first, as dot reads it

---
 src/makedot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/makedot.cpp b/src/makedot.cpp
index b0b654d..131f84c 100644
--- a/src/makedot.cpp
+++ b/src/makedot.cpp
@@ -67,7 +67,7 @@ raft::make_dot::generate_preamble( std::ostream &stream )
 {
     stream << "digraph G{\n";
     stream << "\t";
-    stream << raft::make_dot::generate_field( "size", height, width ) << ";\n"; 
+    stream << raft::make_dot::generate_field( "size", width, height ) << ";\n"; 
     return;
 }
 
-- 
2.43.0


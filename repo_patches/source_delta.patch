From a8ac66f2958aa8f8a7e611a34833a3f6ec900f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:20 +0000
Subject: [PATCH 01/58] fix: edge 6 of a hexahedron connects vertices 2 and 6

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From fe03069e14b498c9d44039afedec421077e2a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:34 +0000
Subject: [PATCH 02/58] fix: automatic ids no longer collide with an explicit
 id equal to the next automatic one

---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From 252428dadfdb58ad2ea988666701321c47b93650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:06 +0000
Subject: [PATCH 03/58] fix: is_boundary(host_element, element) looks for the
 element among the host's boundary elements

---
 viennagrid/algorithm/boundary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index 40118d2..f55c3e8 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -282,7 +282,7 @@ namespace viennagrid
                    viennagrid::element<ElementTag2, WrappedConfigT2> const & element)
   {
 
-    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag2, WrappedConfigT2>, ElementTag1>::type   BoundaryRange;
+    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag1, WrappedConfigT1>, ElementTag2>::type   BoundaryRange;
     typedef typename viennagrid::result_of::iterator<BoundaryRange>::type               BoundaryIterator;
 
     BoundaryRange bnd_cells(host_element);
-- 
2.43.0


From 9a95b75d5d9f4449ceae5df90ab74b2e736a2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 04/58] fix: interface detection does not depend on the
 argument order and discards outdated flags

---
 viennagrid/algorithm/interface.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..c5f8ba0 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -63,9 +63,18 @@ namespace viennagrid
         std::set<ConstFacetHandleType>  facets_ptrs_seg0;
 
         //
-        // Step 1: Write facets of segment 1 to a map:
+        // Step 0: Discard the result of an earlier detection:
         //
         FacetRange facets_seg0(seg0);
+        FacetRange facets_seg1(seg1);
+        for (FacetIterator fit = facets_seg0.begin(); fit != facets_seg0.end(); ++fit)
+          accessor(*fit) = false;
+        for (FacetIterator fit = facets_seg1.begin(); fit != facets_seg1.end(); ++fit)
+          accessor(*fit) = false;
+
+        //
+        // Step 1: Write facets of segment 1 to a map:
+        //
         for (FacetIterator fit = facets_seg0.begin();
               fit != facets_seg0.end();
               ++fit)
@@ -79,14 +88,13 @@ namespace viennagrid
         //
         // Step 2: Compare facet in segment 2 with those stored in the map
         //
-        FacetRange facets_seg1(seg1);
         for (FacetIterator fit = facets_seg1.begin();
               fit != facets_seg1.end();
               ++fit)
         {
           const FacetType & facet = *fit;
 
-          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
+          if (is_boundary(seg1, facet) && facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
         }
 
       }
@@ -215,6 +223,13 @@ namespace viennagrid
   {
     assert( &seg0.parent() == &seg1.parent() );
 
+    // interface information is shared by both argument orders, so store the change counters in a unique order
+    if (seg1.id() < seg0.id())
+    {
+      detect_interface(seg1, seg0);
+      return;
+    }
+
     typedef typename result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
     typedef typename result_of::facet_tag<CellTag>::type FacetTag;
     typedef typename result_of::element< segment_handle<SegmentationT>, FacetTag >::type FacetType;
@@ -251,6 +266,9 @@ namespace viennagrid
   {
     assert( &seg0.parent() == &seg1.parent() );
 
+    if (seg1.id() < seg0.id())
+      return is_interface(seg1, seg0, element);
+
     typedef segment_handle<SegmentationT> SegmentHandleType;
 
     typedef typename viennagrid::result_of::element_tag<ElementT>::type element_tag;
-- 
2.43.0


From 851148b02c8f5dfae1eeb6f305e5d1a5c6c69419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:29 +0000
Subject: [PATCH 05/58] fix: segment membership queries accept elements that
 were never added to a segment

---
 viennagrid/mesh/segmentation.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..55d4215 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1590,7 +1590,7 @@ namespace viennagrid
   bool is_in_segment( SegmentHandleT const & segment, viennagrid::element<ElementTagT, WrappedConfigT> const & element )
   {
     typedef viennagrid::element<ElementTagT, WrappedConfigT> element_type;
-    return detail::is_in_segment( segment, viennagrid::make_accessor<element_type>( element_segment_mapping_collection(segment) ), element );
+    return detail::is_in_segment( segment, viennagrid::make_field<element_type>( element_segment_mapping_collection(segment) ), element );
   }
 
 
@@ -1701,6 +1701,18 @@ namespace viennagrid
     /** \endcond */
   }
 
+  namespace detail
+  {
+    /** @brief For internal use only, elements which have never been added to a segment might have no entry */
+    template<typename AccessorT, typename ElementT>
+    typename AccessorT::value_type const & find_segment_info( AccessorT const & accessor, ElementT const & element )
+    {
+      static const typename AccessorT::value_type no_segments = typename AccessorT::value_type();
+      typename AccessorT::value_type const * segment_info = accessor.find(element);
+      return segment_info ? *segment_info : no_segments;
+    }
+  }
+
   /** @brief Obtains the segment ID range of an element within a segmentation. The segment ID range holds all IDs of segments in which the element is included.
     *
     * @tparam SegmentationT   The host segmentation type
@@ -1715,7 +1727,7 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    return SegmentIDRangeType( detail::find_segment_info( viennagrid::make_accessor<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ), element ) );
   }
 
 
@@ -1796,7 +1808,7 @@ namespace viennagrid
   segment_element_info( SegmentHandleT const & segment, viennagrid::element<ElementTagT, WrappedConfigT> const & element )
   {
     typedef viennagrid::element<ElementTagT, WrappedConfigT> element_type;
-    return detail::segment_element_info( segment, viennagrid::make_accessor<element_type>( element_segment_mapping_collection(segment) ), element );
+    return detail::segment_element_info( segment, viennagrid::make_field<element_type>( element_segment_mapping_collection(segment) ), element );
   }
 
   /** @brief Returns a pointer to additional segment element information. Segment element information is meta information for a combination of a segment and an element, e.g. the orientation of a triangle in a segment in a 3D hull mesh. Const version
-- 
2.43.0


From f3ebd54877f42300a7b8dd01f0b7079fe93afd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:00 +0000
Subject: [PATCH 06/58] fix: erase(segment, element) removes the element
 itself, too

---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 55d4215..a2cba16 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2170,6 +2170,7 @@ namespace viennagrid
   {
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements< viennagrid::element<ElementTagT, WrappedConfigT> >(elements_to_erase).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From 59cda2e42f8dac94fd45433980951062bd434e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:20 +0000
Subject: [PATCH 07/58] fix: clear(segment) keeps the segmentation consistent
 and the segment usable

---
 viennagrid/mesh/segmentation.hpp | 41 +++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index a2cba16..e42ca41 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -147,15 +147,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2178,6 +2169,38 @@ namespace viennagrid
   }
 
 
+  namespace detail
+  {
+    /** @brief For internal use only */
+    template<typename SegmentHandleT>
+    struct clear_segment_functor
+    {
+      clear_segment_functor(SegmentHandleT & segment_) : segment(segment_) {}
+
+      template<typename ElementT>
+      void operator() ( viennagrid::detail::tag<ElementT> )
+      {
+        non_recursive_erase_functor<SegmentHandleT> functor( segment );
+        while ( !viennagrid::elements<ElementT>(segment).empty() )
+          functor( viennagrid::elements<ElementT>(segment)[0] );
+      }
+
+      SegmentHandleT & segment;
+    };
+  }
+
+  /** @brief Removes all elements from a segment, the mesh and other segments are not modified
+    *
+    * @param  segment_        The segment object to be cleared
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment_ )
+  {
+    detail::clear_segment_functor< segment_handle<SegmentationT> > functor( segment_ );
+    viennagrid::detail::for_each< typename viennagrid::result_of::element_typelist< segment_handle<SegmentationT> >::type >( functor );
+  }
+
+
   namespace detail
   {
 
-- 
2.43.0


From 7403ba62ee9d863e386bde9337dbbd7d645b53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 08/58] fix: messages of segment exceptions are valid when read

---
 viennagrid/mesh/segmentation.hpp | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index e42ca41..a61eb70 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -34,19 +34,19 @@ namespace viennagrid
   class segment_name_collision_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_name_collision_exception(std::string cn)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Collision with segment names: " << collision_name_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Collision with segment names: " << cn << "!";
+        message_ = ss.str();
       }
 
-      segment_name_collision_exception(std::string cn) : collision_name_(cn) {}
-
       virtual ~segment_name_collision_exception() throw() {}
 
     private:
-      std::string collision_name_;
+      std::string message_;
   };
 
   /** @brief A segment defines a submesh within a segmentation. The segment_handle is used to deal with segments, since segments are not represented by a dedicated class.
@@ -466,19 +466,19 @@ namespace viennagrid
   class segment_id_not_found_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_id_not_found_exception(long id)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment with ID " << id_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Cannot find segment with ID " << id << "!";
+        message_ = ss.str();
       }
 
-      segment_id_not_found_exception(long id) : id_(id) {}
-
       virtual ~segment_id_not_found_exception() throw() {}
 
     private:
-      long id_;
+      std::string message_;
   };
 
 
@@ -486,19 +486,19 @@ namespace viennagrid
   class segment_name_not_found_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_name_not_found_exception(std::string const & name)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment  " << name_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Cannot find segment  " << name << "!";
+        message_ = ss.str();
       }
 
-      segment_name_not_found_exception(std::string const & name) : name_(name) {}
-
       virtual ~segment_name_not_found_exception() throw() {}
 
     private:
-      std::string name_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From ddea1375b95342f94517c40fbdf3ca695f1c549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 09/58] fix: message of the point index exception is valid when
 read

---
 viennagrid/point.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/viennagrid/point.hpp b/viennagrid/point.hpp
index a2b7b88..3ebe261 100644
--- a/viennagrid/point.hpp
+++ b/viennagrid/point.hpp
@@ -510,17 +510,19 @@ namespace viennagrid
   class point_index_out_of_bounds_exception : public std::exception
   {
   public:
-    point_index_out_of_bounds_exception(std::size_t i) : i_(i) {}
-
-    virtual const char* what() const throw()
+    point_index_out_of_bounds_exception(std::size_t i)
     {
       std::stringstream ss;
-      ss << "Point index " << i_ << " out of bounds!";
-      return ss.str().c_str();
+      ss << "Point index " << i << " out of bounds!";
+      message_ = ss.str();
     }
 
+    virtual ~point_index_out_of_bounds_exception() throw() {}
+
+    virtual const char* what() const throw() { return message_.c_str(); }
+
   private:
-    std::size_t i_;
+    std::string message_;
   };
 
 
-- 
2.43.0


From 1d158728dcc3c7607081f21f9df3491fd212fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 10/58] fix: segmentation::at(name) compiles and returns the
 segment

---
 viennagrid/mesh/segmentation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index a61eb70..97a9892 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -789,7 +789,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From 0b737faa8908eb76aea6cbdb262d4e9881641680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 11/58] fix: clearing a segmentation forgets segment names and
 elements

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 97a9892..200d35a 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -907,8 +907,10 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
       appendix_ = appendix_type();
+      all_elements_ = viennagrid::make_view(*mesh_);
     }
 
 
-- 
2.43.0


From 0e25c57d144badfc4824770caf53cf245aac36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:44 +0000
Subject: [PATCH 12/58] fix: creating a segment never leaves two segments with
 the same name

---
 viennagrid/mesh/segmentation.hpp | 34 +++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 200d35a..844957d 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -668,6 +668,13 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
+      std::stringstream ss;
+      ss << segment_id;
+
+      // do not create a segment if its default name is in use
+      if (segment_name_map.find(ss.str()) != segment_name_map.end())
+        throw segment_name_collision_exception(ss.str());
+
       segments.push_back( segment(this, mesh(), segment_id) );
       segment & new_segment = segments.back();
 
@@ -676,12 +683,8 @@ namespace viennagrid
 
       it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
 
-      std::stringstream ss;
-      ss << segment_id;
       segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
+      segment_name_map.insert(std::make_pair(ss.str(), &it->second));
 
       return it->second;
     }
@@ -699,7 +702,8 @@ namespace viennagrid
           return *(it->second); // segment already is present
 
       segment_handle_type & segment = make_segment();
-      segment.set_name(segment_name);
+      if (segment.name() != segment_name) // the default name might already be the requested one
+        segment.set_name(segment_name);
       return segment;
     }
 
@@ -709,7 +713,23 @@ namespace viennagrid
       *
       * @return             A reference to newly created segment
       */
-    segment_handle_type & make_segment() { return get_make_segment( ++highest_id ); }
+    segment_handle_type & make_segment()
+    {
+      segment_id_type new_id = highest_id;
+      std::string default_name;
+
+      // skip IDs of which the default name is in use
+      do
+      {
+        ++new_id;
+        std::stringstream ss;
+        ss << new_id;
+        default_name = ss.str();
+      }
+      while (segment_name_map.find(default_name) != segment_name_map.end());
+
+      return get_make_segment( new_id );
+    }
 
 
 
-- 
2.43.0


From 3ad5c2805a266f166b5d289979d8a0ce41c99b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:41 +0000
Subject: [PATCH 13/58] fix: erasing edges and faces from a mesh no longer
 moves elements stored by key

The swap-to-the-end scheme moved another element under the key of the erased
one in a hidden_key_map, which left it unreachable by its own key and made
later insertions create it a second time.
---
 viennagrid/mesh/element_deletion.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..3312c1d 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -82,6 +82,18 @@ namespace viennagrid
     }
 
 
+    /** @brief For internal use only. Elements in a hidden_key_map are stored by their key and must not be moved. */
+    template<typename ContainerT>
+    struct stores_elements_by_key
+    {
+      template<typename KeyT, typename ValueT>
+      static char (&test( hidden_key_map<KeyT, ValueT> const * ))[2];
+      static char test( ... );
+
+      static const bool value = sizeof(test( static_cast<ContainerT const *>(0) )) == 2;
+    };
+
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -98,6 +110,11 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<MeshT, ElementT>::type ElementRangeType;
         typedef typename viennagrid::result_of::iterator<ElementRangeType>::type ElementRangeIterator;
 
+        typedef typename viennagrid::result_of::container_of<
+          typename viennagrid::result_of::element_collection<MeshT>::type,
+          ElementT
+        >::type ElementContainerType;
+
         typedef typename viennagrid::result_of::id<ElementT>::type id_type;
 
   //             std::vector< std::pair<element_range_iterator, element_range_iterator> > swtiching_map;
@@ -115,6 +132,12 @@ namespace viennagrid
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
           ElementRangeIterator back_it = --elements.end();
 
+          if (stores_elements_by_key<ElementContainerType>::value)
+          {
+            elements.erase( to_erase_it );
+            continue;
+          }
+
           if (back_it != to_erase_it)
           {
             ElementHandle old_handle = back_it.handle();
-- 
2.43.0


From 15040abe167b652e10b3ce527fae9774dc12be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:41 +0000
Subject: [PATCH 14/58] fix: erasing elements from a container compiles with
 C++11 and later

The derived iterator does not convert to the const_iterator expected by
std::deque::erase since C++11.
---
 viennagrid/storage/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..e8f021e 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -507,6 +507,9 @@ namespace viennagrid
       const_iterator begin() const { return cbegin(); }
       const_iterator end() const { return cend(); }
 
+      iterator erase( iterator pos )
+      { return iterator(base_container::erase( static_cast<typename base_container::iterator const &>(pos) )); }
+
 
       handle_type handle_at(std::size_t pos)
       {
-- 
2.43.0


From a5220ad373a2ece7b2ded94d6d4c3e63957e1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:33 +0000
Subject: [PATCH 15/58] fix: postfix increment and decrement of iterators
 return the previous position

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index e8f021e..d44095a 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..2d289a7 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From d6d51a528c18531ae0086ac602bcb16c3e8180c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 16/58] fix: copying elements by handle or one at a time into
 another mesh

copy_element() did not compile and its two-argument form returned nothing;
copy_elements_by_handle() mixed up the vertex handles of source and target.
---
 viennagrid/mesh/element_creation.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..71ead26 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
@@ -461,21 +461,21 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_tag<ElementType>::type ElementTagType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type OutputVertexHandleType;
 
         typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
 
-        std::map<VertexIDType, VertexHandleType> vertex_map;
+        std::map<VertexIDType, OutputVertexHandleType> vertex_map;
         for (ElementHandleIteratorT eit = begin; eit != end; ++eit)
         {
           ConstVertexOnElementRangeType vertices_on_element( viennagrid::dereference_handle(input_mesh, *eit) );
-          std::vector<VertexHandleType> vtx_handles( vertices_on_element.size() );
+          std::vector<OutputVertexHandleType> vtx_handles( vertices_on_element.size() );
 
           unsigned int index = 0;
           for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit, ++index)
           {
-            typename std::map<VertexIDType, VertexHandleType>::iterator it = vertex_map.find( vit->id() );
+            typename std::map<VertexIDType, OutputVertexHandleType>::iterator it = vertex_map.find( vit->id() );
             if (it == vertex_map.end())
             {
               vtx_handles[index] = viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance );
-- 
2.43.0


From 089f50779a976f0e2305cdecefa5e1cec28a9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:18 +0000
Subject: [PATCH 17/58] fix: copying PLCs keeps loose vertices and hole points

---
 viennagrid/mesh/element_creation.hpp | 44 ++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 71ead26..77d77ec 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -503,14 +503,17 @@ namespace viennagrid
         typedef typename std::iterator_traits<ElementIteratorT>::value_type ElementType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::line_id<ElementType>::type LineIDType;
-        typedef typename viennagrid::result_of::line_handle<ElementType>::type LineHandleType;
+        typedef typename viennagrid::result_of::line_handle<OutputMeshOrSegmentHandleT>::type LineHandleType;
 
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -546,7 +549,20 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          // all vertices of the PLC (loose ones are not on any line)
+          ConstVertexOnElementRangeType vertices_on_element( *eit );
+          std::vector<VertexHandleType> vertex_handles;
+          for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it2 = vertex_map.find( vit->id() );
+            if (it2 == vertex_map.end())
+              it2 = vertex_map.insert( std::make_pair( vit->id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance ) ) ).first;
+            vertex_handles.push_back( it2->second );
+          }
+
+          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end(),
+                                vertex_handles.begin(), vertex_handles.end(),
+                                hole_points(*eit).begin(), hole_points(*eit).end() );
         }
       }
 
@@ -561,14 +577,17 @@ namespace viennagrid
         typedef typename viennagrid::detail::result_of::value_type<ElementHandleType>::type ElementType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::line_id<ElementType>::type LineIDType;
-        typedef typename viennagrid::result_of::line_handle<ElementType>::type LineHandleType;
+        typedef typename viennagrid::result_of::line_handle<OutputMeshOrSegmentHandleT>::type LineHandleType;
 
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -604,7 +623,20 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          // all vertices of the PLC (loose ones are not on any line)
+          ConstVertexOnElementRangeType vertices_on_element( viennagrid::dereference_handle(input_mesh, *eit) );
+          std::vector<VertexHandleType> vertex_handles;
+          for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it2 = vertex_map.find( vit->id() );
+            if (it2 == vertex_map.end())
+              it2 = vertex_map.insert( std::make_pair( vit->id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance ) ) ).first;
+            vertex_handles.push_back( it2->second );
+          }
+
+          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end(),
+                                vertex_handles.begin(), vertex_handles.end(),
+                                hole_points(viennagrid::dereference_handle(input_mesh, *eit)).begin(), hole_points(viennagrid::dereference_handle(input_mesh, *eit)).end() );
         }
 
       }
-- 
2.43.0


From 5fde2521be95843fe9a76854f198c389e8d4ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 18/58] fix: copying a mesh with its segmentation keeps segment
 names and empty segments

Self-assignment of a segmented mesh no longer empties it.
---
 viennagrid/mesh/mesh_operations.hpp | 9 +++++++++
 viennagrid/mesh/segmented_mesh.hpp  | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/mesh_operations.hpp b/viennagrid/mesh/mesh_operations.hpp
index 3a40104..0051b62 100644
--- a/viennagrid/mesh/mesh_operations.hpp
+++ b/viennagrid/mesh/mesh_operations.hpp
@@ -143,6 +143,15 @@ namespace viennagrid
     dst_mesh.clear();
     dst_segmentation.clear();
 
+    typedef typename SrcSegmentationT::const_iterator ConstSegmentIteratorType;
+    typedef typename DstSegmentationT::segment_handle_type DstSegmentHandleType;
+    for (ConstSegmentIteratorType sit = src_segmentation.begin(); sit != src_segmentation.end(); ++sit)
+    {
+      DstSegmentHandleType & dst_segment = dst_segmentation.get_make_segment( (*sit).id() );
+      if (dst_segment.name() != (*sit).name())
+        dst_segment.set_name( (*sit).name() );
+    }
+
     viennagrid::vertex_copy_map<SrcMeshT, DstMeshT> vertex_map(dst_mesh);
 
     //typedef typename viennagrid::result_of::cell<SrcMeshT>::type CellType;
diff --git a/viennagrid/mesh/segmented_mesh.hpp b/viennagrid/mesh/segmented_mesh.hpp
index ac09a28..5ff3d95 100644
--- a/viennagrid/mesh/segmented_mesh.hpp
+++ b/viennagrid/mesh/segmented_mesh.hpp
@@ -58,7 +58,8 @@ namespace viennagrid
 
     SelfType & operator=(SelfType const & other)
     {
-      copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
+      if (this != &other)
+        copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
       return *this;
     }
 
-- 
2.43.0


From 63ad14a372fd4d850cad803d27fa163f65ee88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 19/58] fix: volume of general quadrilaterals and hexahedra

The decompositions assumed cyclic vertex numbering while the reference
numbering of hypercubes is binary, so any cell that is not a
parallelogram (parallelepiped) got a wrong measure.
---
 viennagrid/algorithm/volume.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..0726f8b 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p3) + spanned_volume(p0, p3, p2); //sum up the two triangular parts, p0-p3 is a diagonal
     }
 
 
@@ -161,12 +161,12 @@ namespace viennagrid
       PointType const & p7 = accessor( vertices(cell)[7] );
 
       //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      return spanned_volume(p0, p1, p2, p4)
+             + spanned_volume(p4, p1, p2, p6)
+             + spanned_volume(p4, p1, p6, p5)
+             + spanned_volume(p1, p3, p2, p6)
+             + spanned_volume(p1, p3, p6, p5)
+             + spanned_volume(p5, p3, p6, p7);
     }
 
 
-- 
2.43.0


From f8ed2b14787874ed3f63e47c5b49e0a41f1b1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 20/58] fix: volume of polygons compiles

element has no member point(); use the given point accessor.
---
 viennagrid/algorithm/volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 0726f8b..1b8f3b0 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -112,7 +112,7 @@ namespace viennagrid
       VertexOnCellIterator it1 = range.begin();
       VertexOnCellIterator it2 = it1; ++it2;
 
-      PointType origin = it1->point();
+      PointType origin = accessor(*it1);
 
       NumericType volume = 0;
 
-- 
2.43.0


From ae84bc9720684da6c58e2103e4805322eb89bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:33 +0000
Subject: [PATCH 21/58] fix: centroid of a mesh or segment compiles

centroid<Tag>(mesh, accessor) was looked up among overloads that take the
mesh configuration as first template argument.
---
 viennagrid/algorithm/centroid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/algorithm/centroid.hpp b/viennagrid/algorithm/centroid.hpp
index c2ffa3e..3cf0b6a 100644
--- a/viennagrid/algorithm/centroid.hpp
+++ b/viennagrid/algorithm/centroid.hpp
@@ -210,7 +210,7 @@ namespace viennagrid
   typename viennagrid::result_of::point< mesh<WrappedConfigT> >::type
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
-    return centroid<ElementTOrTagT>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<ElementTOrTagT>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
   /** @brief The public interface function for the computation of a centroid of a mesh. Cells are used for centroid calculation, will fail if there is more than one cell type.
@@ -222,7 +222,7 @@ namespace viennagrid
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
     typedef typename viennagrid::result_of::cell_tag< mesh<WrappedConfigT> >::type CellTag;
-    return centroid<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
 
@@ -262,7 +262,7 @@ namespace viennagrid
   typename viennagrid::result_of::point< segment_handle<SegmentationT> >::type
   centroid(segment_handle<SegmentationT> const & segment)
   {
-    return centroid<ElementTOrTagT>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<ElementTOrTagT>(segment, default_point_accessor(segment));
   }
 
   /** @brief The public interface function for the computation of a centroid of a segment. Cells are used for centroid calculation, will fail if there is more than one cell type.
@@ -274,7 +274,7 @@ namespace viennagrid
   centroid(segment_handle<SegmentationT> const & segment)
   {
     typedef typename viennagrid::result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
-    return centroid<CellTag>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<CellTag>(segment, default_point_accessor(segment));
   }
 } //namespace viennagrid
 #endif
-- 
2.43.0


From 337d7d2f18be4e898a9c23da31504f792925311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:30 +0000
Subject: [PATCH 22/58] fix: cylindrical to spherical conversion for negative
 radial coordinates

---
 viennagrid/point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/point.hpp b/viennagrid/point.hpp
index 3ebe261..7da31c3 100644
--- a/viennagrid/point.hpp
+++ b/viennagrid/point.hpp
@@ -251,7 +251,7 @@ namespace viennagrid
     {
       ToPointType ret;
       ret[0] = sqrt(p_in[0] * p_in[0] + p_in[2] * p_in[2]);
-      ret[1] = (std::fabs(ret[0]) > 0) ? acos(p_in[2] / ret[0]) : 0;
+      ret[1] = atan2(p_in[0], p_in[2]);                //also valid for rho < 0
       ret[2] = p_in[1];
       return ret;
     }
-- 
2.43.0


From f6d1a947fa2256e11530469cee37c7172411f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:25 +0000
Subject: [PATCH 23/58] fix: at() of map accessors and fields throws for
 elements without data

---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..8b69db3 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From 2c5ac3b4c84417de5ed651fee342decb3594f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:25 +0000
Subject: [PATCH 24/58] fix: default constructed fields are not valid

---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 8b69db3..953db9f 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -695,7 +695,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(NULL), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -770,7 +770,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(NULL), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -830,7 +830,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(NULL), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -901,7 +901,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(NULL), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From 5101b204eacefc2758930a0013aa03601d078471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:25 +0000
Subject: [PATCH 25/58] fix: dynamic_accessor_wrapper calls the wrapped
 accessor

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 953db9f..2410017 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -624,11 +624,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -654,8 +654,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From 3725f132963a683eaea43c1c6e7e5c2235be665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:25 +0000
Subject: [PATCH 26/58] fix: quantity transfer to higher dimension reads the
 values of the source elements

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From 9d04f42c531e19e25351c398a0566c4b9abb28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 27/58] fix: vtk_reader reads past the end of vector data
 registered for a segment

The loops over the values of a three-component array ran over the number of values
instead of the number of vertices or cells.
---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From ca02296bf2bc52312e6048ac54e3bba9af7aa7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 28/58] fix: vtk_reader: array without NumberOfComponents
 inherits the value of the previous array

---
 viennagrid/io/vtk_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 9739659..a71c932 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -351,7 +351,6 @@ namespace viennagrid
                              NameContainerType & data_names_vector)
       {
         std::string name;
-        std::size_t components = 1;
 
         xml_tag<> tag;
 
@@ -362,6 +361,7 @@ namespace viennagrid
           tag.check_attribute("name", "");
           name = tag.get_value("name");
 
+          std::size_t components = 1;
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
 
-- 
2.43.0


From 519d6f8e7850a2d8177fa7ff327b4889cac5b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:23 +0000
Subject: [PATCH 29/58] fix: export_vtk and import_vtk do not compile

They returned the result of a void function.
---
 viennagrid/io/vtk_reader.hpp | 7 +++++--
 viennagrid/io/vtk_writer.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index a71c932..90e099d 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -18,6 +18,7 @@
  *  @brief    This is a simple vtk-reader implementation. Refer to the vtk-standard (cf. http://www.vtk.org/pdf/file-formats.pdf) and make sure the same order of XML tags is preserved.
  */
 
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -1233,7 +1234,8 @@ namespace viennagrid
     int import_vtk(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
     {
       vtk_reader<MeshType, SegmentationType> vtk_reader;
-      return vtk_reader(mesh_obj, segmentation, filename);
+      vtk_reader(mesh_obj, segmentation, filename);
+      return EXIT_SUCCESS;
     }
 
     /** @brief Convenience function for importing a mesh using a single line of code. */
@@ -1241,7 +1243,8 @@ namespace viennagrid
     int import_vtk(MeshType & mesh_obj, std::string const & filename)
     {
       vtk_reader<MeshType> vtk_reader;
-      return vtk_reader(mesh_obj, filename);
+      vtk_reader(mesh_obj, filename);
+      return EXIT_SUCCESS;
     }
 
 
diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index c59dec9..b97c439 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -14,6 +14,7 @@
 ======================================================================= */
 
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <iostream>
@@ -702,7 +703,8 @@ namespace viennagrid
     int export_vtk(MeshType const & mesh_obj, SegmentationType const & segmentation, std::string const & filename)
     {
       vtk_writer<MeshType> vtk_writer;
-      return vtk_writer(mesh_obj, segmentation, filename);
+      vtk_writer(mesh_obj, segmentation, filename);
+      return EXIT_SUCCESS;
     }
 
     /** @brief Convenience function that exports a mesh to file directly. Does not export quantities */
@@ -710,7 +712,8 @@ namespace viennagrid
     int export_vtk(MeshType const & mesh_obj, std::string const & filename)
     {
       vtk_writer<MeshType> vtk_writer;
-      return vtk_writer(mesh_obj, filename);
+      vtk_writer(mesh_obj, filename);
+      return EXIT_SUCCESS;
     }
 
 
-- 
2.43.0


From 0bb0c60131fd4d56d652cf9c0a318224d83529a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:56 +0000
Subject: [PATCH 30/58] fix: xml_tag: end of file inside a tag, tabs and
 newlines between attributes

At the end of the file the tag name was shrunk to size -1 and the attribute loop
ended silently; only blanks were accepted between tag name and attributes; and
the stream was left with skipws unset after a tag without attributes.
---
 viennagrid/io/xml_tag.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/viennagrid/io/xml_tag.hpp b/viennagrid/io/xml_tag.hpp
index 6539f17..d37babc 100644
--- a/viennagrid/io/xml_tag.hpp
+++ b/viennagrid/io/xml_tag.hpp
@@ -90,22 +90,22 @@ namespace viennagrid
         while (c != '<' && reader.good())
           reader >> c;
 
-        //read tag name:
-        while ( (c != ' ' && c != '>') && reader.good() )
-        {
-          reader >> c;
+        //read tag name (up to whitespace or the end of the tag):
+        while ( reader >> c && !is_whitespace(c) && c != '>' )
           name_.append(1,  make_lower(c));
-        }
 
-        //strip whitespace or closing tag at the end
-        name_.resize(name_.size()-1);
+        if (!reader)
+          throw bad_file_format_exception("* ViennaGrid: xml_tag::parse(): Parse error: Unexpected end of file.");
 
         #ifdef VIENNAGRID_DEBUG_IO
         std::cout << name_ << std::endl;
         #endif
 
         if (c == '>') //we are all done
+        {
+          reader.setf(std::ios_base::skipws);
           return;
+        }
 
         //get attributes:
         bool end_of_attribute = false;
@@ -113,7 +113,8 @@ namespace viennagrid
         std::string token;
         while (c != '>' && reader.good())
         {
-          reader >> c;
+          if ( !(reader >> c) )
+            throw bad_file_format_exception("* ViennaGrid: xml_tag::parse(): Parse error: Unexpected end of file.");
 
           if (inside_string && c == '"') //terminate string
           {
@@ -126,7 +127,7 @@ namespace viennagrid
 
           if (inside_string)
             token.append(1, c); //do not transform values to lower-case (e.g. filenames may get invalid)
-          else if (c != ' ')
+          else if (!is_whitespace(c))
             token.append(1, make_lower(c));
 
 
@@ -236,6 +237,12 @@ namespace viennagrid
       }
     private:
 
+      /** @brief Returns true for the characters separating tag name and attributes */
+      bool is_whitespace(char c) const
+      {
+        return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+      }
+
       /** @brief transforms a character to lower-case */
       char make_lower(char c) const
       {
-- 
2.43.0


From abf5be7fc4f5b28a1087297e9d1c92f573937159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:56 +0000
Subject: [PATCH 31/58] fix: vtk_reader: endless loop when a data array is cut
 off or its closing tag is not surrounded by white space

The loops over the values of an array waited for the token </DataArray> without
looking at the state of the stream.
---
 viennagrid/io/vtk_reader.hpp | 46 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 90e099d..3ac6115 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -230,6 +230,33 @@ namespace viennagrid
         }
       }
 
+      /** @brief Reads the next value of a data array. Returns false if the closing tag of the array is reached instead. */
+      bool readArrayValue(std::string & token)
+      {
+        token.clear();
+
+        char c;
+        while (reader.get(c))
+        {
+          if (c == '<')
+          {
+            reader.unget();
+            break;
+          }
+          else if (c != ' ' && c != '\t' && c != '\n' && c != '\r')
+            token.append(1, c);
+          else if (!token.empty())
+            break;
+        }
+
+        if (!token.empty())
+          return true;
+
+        xml_tag<> tag;
+        tag.parse_and_check_name(reader, "/dataarray");
+        return false;
+      }
+
       /** @brief Reads the coordinates of the points/vertices in the mesh */
       void readNodeCoordinates(std::size_t nodeNum, std::size_t numberOfComponents, segment_id_type seg_id)
       {
@@ -267,16 +294,13 @@ namespace viennagrid
       {
         std::size_t cellNode = 0;
         std::string token;
-        reader >> token;
 
-        while (token != "</DataArray>")
+        while (readArrayValue(token))
         {
           assert( strChecker::myIsNumber(token) && "Cell vertex index is not a number!" );
 
           cellNode = static_cast<std::size_t>(atoi(token.c_str()));
           local_cell_vertices[seg_id].push_back(cellNode);
-
-          reader >> token;
         }
       }
 
@@ -290,9 +314,8 @@ namespace viennagrid
 
           std::string token;
           std::size_t offset = 0;
-          reader >> token;
 
-          while(token != "</DataArray>")
+          while (readArrayValue(token))
           {
             assert( strChecker::myIsNumber(token) && "Cell offset is not a number!" );
 
@@ -300,7 +323,6 @@ namespace viennagrid
             local_cell_offsets[seg_id].push_back(offset);
 
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
           }
       }
 
@@ -316,9 +338,8 @@ namespace viennagrid
 #ifndef NDEBUG
           long type = 0;
 #endif
-          reader >> token;
 
-          while(token != "</DataArray>")
+          while (readArrayValue(token))
           {
             assert( strChecker::myIsNumber(token) && "Cell type is not a number!" );
 #ifndef NDEBUG
@@ -326,7 +347,6 @@ namespace viennagrid
             assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
 #endif
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
           }
       }
 
@@ -334,13 +354,9 @@ namespace viennagrid
       void readData(std::deque<double> & container)
       {
         std::string token;
-        reader >> token;
 
-        while (string_to_lower(token) != "</dataarray>")
-        {
+        while (readArrayValue(token))
           container.push_back( atof(token.c_str()) );
-          reader >> token;
-        }
       }
 
       /** @brief Read point or cell data and fill the respective data containers */
-- 
2.43.0


From cf3fbd736383f65f309e7760f3eb3b0c56e88cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:21 +0000
Subject: [PATCH 32/58] fix: vtk_reader: errors in .vtu files are not reported
 to the caller

Exceptions were caught and only printed, so the mesh was set up from whatever had
been read, and the stream stayed open such that the next read failed as well.
---
 viennagrid/io/vtk_reader.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 3ac6115..bc8d6e7 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -190,6 +190,11 @@ namespace viennagrid
       /** @brief Opens a file */
       void openFile(std::string const & filename)
       {
+        // a previous read might have been aborted by an exception:
+        if (reader.is_open())
+          reader.close();
+        reader.clear();
+
         reader.open(filename.c_str());
         if(!reader)
         {
@@ -806,6 +811,7 @@ namespace viennagrid
         catch (std::exception const & ex) {
           std::cerr << "Problems while reading file " << filename << std::endl;
           std::cerr << "what(): " << ex.what() << std::endl;
+          throw;
         }
 
       }
-- 
2.43.0


From d2ce6ff1312fcc5e5d7fee9cb07af7867ce786bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:21 +0000
Subject: [PATCH 33/58] fix: vtk_reader keeps registered fields after a failed
 read

They were only released after a successful read, such that the next read wrote to
fields of the failed one.
---
 viennagrid/io/vtk_reader.hpp | 46 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index bc8d6e7..f6e2143 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -913,6 +913,37 @@ namespace viennagrid
        * @param filename      Name of the file containing the mesh. Either .pvd (multi-segment) or .vtu (single segment)
        */
       void operator()(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
+      {
+        try
+        {
+          read(mesh_obj, segmentation, filename);
+        }
+        catch (...)
+        {
+          // registered accessors and fields are valid for one read only, no matter whether it succeeds
+          post_clear();
+          throw;
+        }
+
+        post_clear();
+      } //operator()
+
+
+      /** @brief Triggers the read process.
+       *
+       * @param mesh_obj      The mesh to which the file content is read
+       * @param filename      Name of the file containing the mesh. Either .pvd (multi-segment) or .vtu (single segment)
+       */
+      void operator()(MeshType & mesh_obj, std::string const & filename)
+      {
+        SegmentationType tmp(mesh_obj);
+        (*this)(mesh_obj, tmp, filename);
+      }
+
+    private:
+
+      /** @brief Reads the file(s) and sets up mesh, segmentation and data */
+      void read(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
       {
         pre_clear();
 
@@ -955,22 +986,9 @@ namespace viennagrid
           setupCells(mesh_obj, segmentation, it->first);
           setupData(mesh_obj, segmentation, it->first);
         }
-
-        post_clear();
-      } //operator()
-
-
-      /** @brief Triggers the read process.
-       *
-       * @param mesh_obj      The mesh to which the file content is read
-       * @param filename      Name of the file containing the mesh. Either .pvd (multi-segment) or .vtu (single segment)
-       */
-      void operator()(MeshType & mesh_obj, std::string const & filename)
-      {
-        SegmentationType tmp(mesh_obj);
-        (*this)(mesh_obj, tmp, filename);
       }
 
+    public:
 
 
 
-- 
2.43.0


From 19767aeebbe79c8d4fe7899a81d3632f696cea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:06 +0000
Subject: [PATCH 34/58] fix: vtk_reader: inconsistent files crash the reader

Counts, offsets, vertex indices, array lengths and non-numeric values in .vtu files
were checked with assert() or not at all, leading to out of bounds accesses. They are
reported with a bad_file_format_exception now. The assertions on the number of
vector values also failed for valid files with vertices not used by any cell.
---
 viennagrid/io/vtk_reader.hpp | 82 ++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index f6e2143..a83116c 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -266,7 +266,9 @@ namespace viennagrid
       void readNodeCoordinates(std::size_t nodeNum, std::size_t numberOfComponents, segment_id_type seg_id)
       {
         double nodeCoord;
-        local_to_global_map[seg_id].resize(nodeNum);
+
+        if (numberOfComponents == 0)
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::readNodeCoordinates(): Number of components for points invalid!");
 
         for(std::size_t i = 0; i < nodeNum; i++)
         {
@@ -274,7 +276,9 @@ namespace viennagrid
 
           for(std::size_t j = 0; j < numberOfComponents; j++)
           {
-            reader >> nodeCoord;
+            if ( !(reader >> nodeCoord) )
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readNodeCoordinates(): Point coordinate missing or not a number!");
+
             if (j < static_cast<std::size_t>(geometric_dim))
               p[j] = nodeCoord;
           }
@@ -285,11 +289,11 @@ namespace viennagrid
             std::size_t new_global_id = global_points.size();
             global_points.insert( std::make_pair(p, new_global_id) );
             global_points_2.insert( std::make_pair(new_global_id, p) );
-            local_to_global_map[seg_id][i] = new_global_id;
+            local_to_global_map[seg_id].push_back(new_global_id);
           }
           else
           {
-            local_to_global_map[seg_id][i] = global_points[p];
+            local_to_global_map[seg_id].push_back(global_points[p]);
           }
         }
       }
@@ -302,7 +306,8 @@ namespace viennagrid
 
         while (readArrayValue(token))
         {
-          assert( strChecker::myIsNumber(token) && "Cell vertex index is not a number!" );
+          if (!strChecker::myIsNumber(token))
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::readCellIndices(): Cell vertex index is not a number!");
 
           cellNode = static_cast<std::size_t>(atoi(token.c_str()));
           local_cell_vertices[seg_id].push_back(cellNode);
@@ -322,7 +327,8 @@ namespace viennagrid
 
           while (readArrayValue(token))
           {
-            assert( strChecker::myIsNumber(token) && "Cell offset is not a number!" );
+            if (!strChecker::myIsNumber(token))
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readOffsets(): Cell offset is not a number!");
 
             offset = static_cast<std::size_t>(atoi(token.c_str()));
             local_cell_offsets[seg_id].push_back(offset);
@@ -340,17 +346,14 @@ namespace viennagrid
           //****************************************************************************
 
           std::string token;
-#ifndef NDEBUG
-          long type = 0;
-#endif
 
           while (readArrayValue(token))
           {
-            assert( strChecker::myIsNumber(token) && "Cell type is not a number!" );
-#ifndef NDEBUG
-            type = atoi(token.c_str());
-            assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
-#endif
+            if (!strChecker::myIsNumber(token))
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readTypes(): Cell type is not a number!");
+
+            if (atoi(token.c_str()) != detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value)
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readTypes(): Cell type in file does not match the cell type of the mesh!");
             //std::cout << "Vertex#: " << offset << std::endl;
           }
       }
@@ -412,6 +415,40 @@ namespace viennagrid
 
       }
 
+      /** @brief Makes sure that the cells read for a segment consist of valid vertices. Throws a bad_file_format_exception if this is not the case */
+      void checkCells(segment_id_type seg_id)
+      {
+        std::size_t const vertices_per_cell = boundary_elements<CellTag, vertex_tag>::num;
+
+        std::deque<std::size_t> const & offsets = local_cell_offsets[seg_id];
+        std::deque<std::size_t> const & vertex_indices = local_cell_vertices[seg_id];
+
+        if (offsets.size() != local_cell_num[seg_id] || vertex_indices.size() != vertices_per_cell * local_cell_num[seg_id])
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkCells(): Number of offsets or cell vertices does not match the number of cells!");
+
+        for (std::size_t i=0; i<offsets.size(); ++i)
+        {
+          if (offsets[i] != vertices_per_cell * (i+1))
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkCells(): Cell offset invalid!");
+        }
+
+        for (std::size_t i=0; i<vertex_indices.size(); ++i)
+        {
+          if (vertex_indices[i] >= local_to_global_map[seg_id].size())
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkCells(): Cell vertex index out of range!");
+        }
+      }
+
+      /** @brief Makes sure that all data sets read for a segment hold the expected number of values. Throws a bad_file_format_exception if this is not the case */
+      void checkData(std::deque<std::pair<std::string, std::deque<double> > > const & data, std::size_t expected_size)
+      {
+        for (std::size_t i=0; i<data.size(); ++i)
+        {
+          if (data[i].second.size() != expected_size)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkData(): Number of values for quantity " + data[i].first + " invalid!");
+        }
+      }
+
       /////////////////////////// Routines for pushing everything to mesh ///////////////
 
       /** @brief Pushes the vertices read to the mesh */
@@ -498,11 +535,7 @@ namespace viennagrid
 
       /** @brief Writes data for vertices to the ViennaGrid mesh using ViennaData */
       template <typename ContainerType>
-      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &
-#ifndef NDEBUG
-        segment
-#endif
-        , segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
+      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &, segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
       {
         std::string const & name = container.first;
 
@@ -581,7 +614,6 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<viennagrid::vertex_tag>(segment).size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
@@ -674,7 +706,6 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<CellTag>(segment).size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
@@ -807,6 +838,12 @@ namespace viennagrid
           tag.parse_and_check_name(reader, "/vtkfile", filename);
 
           closeFile();
+
+          checkCells(seg_id);
+          checkData(local_scalar_vertex_data[seg_id],     local_to_global_map[seg_id].size());
+          checkData(local_vector_vertex_data[seg_id], 3 * local_to_global_map[seg_id].size());
+          checkData(local_scalar_cell_data[seg_id],       local_cell_num[seg_id]);
+          checkData(local_vector_cell_data[seg_id],   3 * local_cell_num[seg_id]);
         }
         catch (std::exception const & ex) {
           std::cerr << "Problems while reading file " << filename << std::endl;
@@ -884,7 +921,8 @@ namespace viennagrid
 
         closeFile();
 
-        assert(filenames.size() > 0 && "No segments in pvd-file specified!");
+        if (filenames.empty())
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::process_pvd(): No segments in pvd-file specified!");
 
         //
         // Step 2: Parse .vtu files:
-- 
2.43.0


From 347d39fff20bb1b8a5ec62073d741fe5cfed575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:30 +0000
Subject: [PATCH 35/58] fix: netgen_reader: missing counts and invalid vertex
 indices crash the reader

A vertex index that is missing or out of range was used for an unchecked access, a
missing number of vertices failed an assertion, a missing number of cells was ignored.
---
 viennagrid/io/netgen_reader.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..ddfe394 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -77,7 +77,8 @@ namespace viennagrid
         // Read vertices:
         //
         reader >> node_num;
-        assert(node_num > 0);
+        if (!reader || node_num <= 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of vertices missing or invalid.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << node_num << " vertices... " << std::endl;
@@ -106,6 +107,8 @@ namespace viennagrid
         // Read cells:
         //
         reader >> cell_num;
+        if (!reader)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of cells missing or invalid.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -128,6 +131,9 @@ namespace viennagrid
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
             reader >> vertex_num;
+            if (!reader || vertex_num < 1 || vertex_num > static_cast<std::size_t>(node_num))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Vertex index of a cell missing or out of range.");
+
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From d5e373a68e9c8214cad3aca92b262d796c37219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:30 +0000
Subject: [PATCH 36/58] fix: tetgen_poly_reader: lines with only tabs or a
 carriage return are taken for data

---
 viennagrid/io/tetgen_poly_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index 7880e7d..df3b99e 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -50,7 +50,7 @@ namespace viennagrid
 
         for (std::size_t i = 0; i != tmp.size(); ++i)
         {
-          if ( tmp[i] != ' ' )
+          if ( tmp[i] != ' ' && tmp[i] != '\t' && tmp[i] != '\r' )
           {
             line = tmp.substr(i, std::string::npos);
             return true;
-- 
2.43.0


From 1447f71d684930718e1a8202ad2910fb6c6998c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:30 +0000
Subject: [PATCH 37/58] fix: tetgen_poly_reader: uninitialized number of facet
 holes

The number of holes of a facet is optional in .poly files.
---
 viennagrid/io/tetgen_poly_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index df3b99e..b5ef991 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -222,8 +222,8 @@ namespace viennagrid
 
         for (int i=0; i<facet_num; ++i)
         {
-          long polygon_num;
-          long hole_num;
+          long polygon_num = 0;
+          long hole_num = 0;     // optional
 
           if (!get_valid_line(reader, tmp))
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
-- 
2.43.0


From 79e3ac80d8270304eb1f0c52eac7205c3c0d52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:27 +0000
Subject: [PATCH 38/58] fix: tetgen_poly_reader: missing values and invalid
 vertex IDs crash the reader

Values that are missing or not numbers left variables uninitialized, unknown vertex
IDs dereferenced the end iterator, and polygons without vertices were accepted.
---
 viennagrid/io/tetgen_poly_reader.hpp | 36 ++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index b5ef991..94b91e0 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -128,6 +128,9 @@ namespace viennagrid
         typedef typename result_of::handle<MeshT, vertex_tag>::type          VertexHandleType;
         typedef typename VertexType::id_type VertexIDType;
 
+        typedef typename result_of::vertex_range<MeshT>::type                VertexRangeType;
+        typedef typename result_of::iterator<VertexRangeType>::type          VertexIteratorType;
+
         typedef typename result_of::handle<MeshT, line_tag>::type            LineHandleType;
 
         std::ifstream reader(filename.c_str());
@@ -193,6 +196,9 @@ namespace viennagrid
           for (std::size_t j=0; j<point_dim; j++)
             current_line >> p[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY vertex ID or coordinate missing or invalid");
+
           viennagrid::make_vertex_with_id( mesh_obj, VertexIDType(id), p );
         }
 
@@ -242,7 +248,7 @@ namespace viennagrid
 
           for (int j = 0; j<polygon_num; ++j)
           {
-            long vertex_num;
+            long vertex_num = 0;
 
             if (!get_valid_line(reader, tmp))
               throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
@@ -251,16 +257,23 @@ namespace viennagrid
             current_line.str(tmp); current_line.clear();
             current_line >> vertex_num;
 
-            if (vertex_num < 0)
-              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 0 vertices");
+            if (vertex_num < 1)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 1 vertex");
 
-            std::vector<VertexHandleType> vertex_handles(static_cast<std::size_t>(vertex_num));
+            std::vector<VertexHandleType> vertex_handles;
 
             for (std::size_t k = 0; k<static_cast<std::size_t>(vertex_num); ++k)
             {
               typename VertexIDType::base_id_type id;
               current_line >> id;
-              vertex_handles[k] = viennagrid::find( mesh_obj, VertexIDType(id) ).handle();
+              if (!current_line)
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon vertex missing or invalid");
+
+              VertexIteratorType vit = viennagrid::find( mesh_obj, VertexIDType(id) );
+              if (vit == viennagrid::vertices(mesh_obj).end())
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon vertex not found");
+
+              vertex_handles.push_back( vit.handle() );
             }
 
             if (vertex_num == 1)
@@ -298,6 +311,9 @@ namespace viennagrid
             for (std::size_t k=0; k<point_dim; k++)
               current_line >> p[k];
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY facet hole missing or invalid");
+
             hole_points_read.push_back(p);
           }
 
@@ -314,7 +330,7 @@ namespace viennagrid
 
 
 
-        long hole_num;
+        long hole_num = 0;
 
         if (!get_valid_line(reader, tmp))
         {
@@ -342,13 +358,16 @@ namespace viennagrid
           for (std::size_t j=0; j < point_dim; j++)
             current_line >> hole_point[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY hole missing or invalid");
+
           hole_points.push_back( hole_point );
         }
 
 
 
 
-        long segment_num;
+        long segment_num = 0;
 
         if (!get_valid_line(reader, tmp))
         {
@@ -379,6 +398,9 @@ namespace viennagrid
 
           current_line >> segment_id;
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY region missing or invalid");
+
           seed_points.push_back( std::make_pair(seed_point, segment_id) );
         }
       } //operator()
-- 
2.43.0


From 5e55deb9b5ff633cce89c0a69e31be238fc9d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:27 +0000
Subject: [PATCH 39/58] fix: neper_tess_reader without seed points does not
 compile

---
 viennagrid/io/neper_tess_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index 31a8f3b..e89177f 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -44,11 +44,11 @@ namespace viennagrid
        * @param filename      Name of the file
        */
       template <typename MeshT>
-      int operator()(MeshT & mesh_obj, std::string const & filename) const
+      void operator()(MeshT & mesh_obj, std::string const & filename) const
       {
         std::vector< std::pair<typename viennagrid::result_of::point<MeshT>::type, int> > seed_points;
 
-        return (*this)(mesh_obj, filename, seed_points);
+        (*this)(mesh_obj, filename, seed_points);
       }
 
       /** @brief The functor interface triggering the read operation. Segmentations are not supported in this version.
-- 
2.43.0


From 3e78c8d0a1b936138355393776c3fbbad958e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 40/58] fix: neper_tess_reader: missing values and invalid
 vertex IDs crash the reader

Counts that are missing left variables uninitialized, unknown vertex IDs created
lines with invalid vertices, faces without vertices were accepted and a cut-off
file was filled up with garbage.
---
 viennagrid/io/neper_tess_reader.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index e89177f..f8072cd 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -99,7 +99,7 @@ namespace viennagrid
           {
             std::getline(reader, tmp);
 
-            int num_vertices;
+            int num_vertices = 0;
             current_line.str(tmp); current_line.clear();
             current_line >> num_vertices;
 
@@ -118,6 +118,9 @@ namespace viennagrid
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
 
+              if (!reader || !current_line)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Vertex missing or invalid.");
+
               vertices[vertex_id] = viennagrid::make_vertex(mesh_obj, p);
             }
           }
@@ -128,7 +131,7 @@ namespace viennagrid
           {
             std::getline(reader, tmp);
 
-            int num_faces;
+            int num_faces = 0;
             current_line.str(tmp); current_line.clear();
             current_line >> num_faces;
 
@@ -139,14 +142,22 @@ namespace viennagrid
               std::getline(reader, tmp);
               std::getline(reader, tmp);
 
-              int num_vertex_ids;
+              int num_vertex_ids = 0;
               std::vector<int> vertex_ids;
               current_line.str(tmp); current_line.clear();
               current_line >> num_vertex_ids;
-              vertex_ids.resize(num_vertex_ids);
 
               for (int j = 0; j < num_vertex_ids; ++j)
-                current_line >> vertex_ids[j];
+              {
+                int vertex_id;
+                if ( !(current_line >> vertex_id) || vertices.find(vertex_id) == vertices.end() )
+                  throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Vertex of a face missing or invalid.");
+
+                vertex_ids.push_back(vertex_id);
+              }
+
+              if (!reader || vertex_ids.empty())
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Face missing or invalid.");
 
               std::vector<LineHandleType> plc_line_handles;
               for (int j = 1; j < num_vertex_ids; ++j)
@@ -198,7 +209,7 @@ namespace viennagrid
           {
             std::getline(reader, tmp);
 
-            int num_polyhedrons;
+            int num_polyhedrons = 0;
             current_line.str(tmp); current_line.clear();
             current_line >> num_polyhedrons;
 
@@ -213,6 +224,9 @@ namespace viennagrid
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
 
+              if (!reader || !current_line)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Polyhedron missing or invalid.");
+
               seed_points.push_back( std::make_pair(p, polyherdon_id) );
               std::getline(reader, tmp);
               std::getline(reader, tmp);
-- 
2.43.0


From 43b34b58e511c4a2ad98b8f1f7b1d4dd6f0eb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 41/58] fix: bnd_reader loops forever on truncated files and
 ignores read errors

The loops searching for the next section did not check for the end of the file, and
bnd_helper reported success after an exception had been thrown.
---
 viennagrid/io/bnd_reader.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index 023b9c0..6434796 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -257,7 +257,8 @@ namespace viennagrid
           int DIMG;
           while(1)
           {
-            reader >> token;
+            if ( !(reader >> token) )
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
             if(token == "dimension")
             {
                reader >> token;
@@ -275,7 +276,8 @@ namespace viennagrid
         #endif
           while(1)
           {
-            reader >> token;
+            if ( !(reader >> token) )
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
             if(token == "nb_regions")
             {
                reader >> token;
@@ -297,7 +299,8 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            if (!std::getline(reader, token))
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
             if(token.find("Vertices") != std::string::npos)
             {
@@ -343,7 +346,8 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            if (!std::getline(reader, token))
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
             if(token.find("Edges") != std::string::npos)
             {
@@ -379,7 +383,8 @@ namespace viennagrid
 
              while(1)
              {
-               std::getline(reader, token);
+               if (!std::getline(reader, token))
+                 throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
                if(token.find("Faces") != std::string::npos)
                {
@@ -426,7 +431,8 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            if (!std::getline(reader, token))
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
             if(token.find("Elements") != std::string::npos)
             {
@@ -576,7 +582,8 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            if (!std::getline(reader, token))
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
             if(token.find("Region") != std::string::npos)
             {
@@ -590,7 +597,8 @@ namespace viennagrid
 
               while(1)
               {
-                std::getline(reader, token);
+                if (!std::getline(reader, token))
+                  throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
                 if(token.find("material") != std::string::npos)
                 {
@@ -604,7 +612,8 @@ namespace viennagrid
                  std::size_t elements = 0;
                   while(1)
                   {
-                    std::getline(reader, token);
+                    if (!std::getline(reader, token))
+                      throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
                     if(token.find("Elements") != std::string::npos)
                     {
@@ -681,6 +690,7 @@ namespace viennagrid
 
         } catch (...) {
           std::cerr << "Problems while reading file " << filename << std::endl;
+          return EXIT_FAILURE;
         }
 
         return EXIT_SUCCESS;
-- 
2.43.0


From 98f09077b24efaf19ebc58b373a90f8149833a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 42/58] fix: bnd_reader: missing values and invalid indices
 crash the reader

---
 viennagrid/io/bnd_reader.hpp | 96 +++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 40 deletions(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index 6434796..00d3da7 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -13,6 +13,8 @@
    License:      MIT (X11), see file LICENSE in the base directory
 ======================================================================= */
 
+#include <algorithm>
+
 #include "viennagrid/io/helper.hpp"
 // #include "viennagrid/io/bnd.hpp"
 #include "viennagrid/mesh/element_creation.hpp"
@@ -141,7 +143,7 @@ namespace viennagrid
 
         operator result_type()
         {
-          result_type tmp;
+          result_type tmp = result_type();
           ss >> tmp;
           return tmp;
         }
@@ -164,7 +166,7 @@ namespace viennagrid
 
         operator result_type()
         {
-          result_type tmp;
+          result_type tmp = result_type();
           ss >> std::boolalpha >> tmp;
           return tmp;
         }
@@ -249,6 +251,8 @@ namespace viennagrid
 
         try{
 
+          clear();
+
           std::string token;
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -263,6 +267,8 @@ namespace viennagrid
             {
                reader >> token;
                reader >> DIMG;
+               if (!reader || (DIMG != 2 && DIMG != 3))
+                 throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Geometric dimension missing or not supported.");
                break;
             }
           }
@@ -282,6 +288,8 @@ namespace viennagrid
             {
                reader >> token;
                reader >> number_of_regions;
+               if (!reader)
+                 throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Number of regions missing.");
                break;
             }
           }
@@ -316,8 +324,6 @@ namespace viennagrid
           std::cout << "vertices: " << vertices << std::endl;
         #endif
 
-          geometry.resize(vertices);
-
           point_type coords(DIMG);
 
           for(std::size_t vi = 0; vi < vertices; vi++)
@@ -326,7 +332,10 @@ namespace viennagrid
             {
               reader >> coords[j];
             }
-            geometry[vi] = coords;
+
+            if (!reader)
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Vertex missing or invalid.");
+            geometry.push_back(coords);
           }
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -363,14 +372,15 @@ namespace viennagrid
           std::cout << "edges: " << edges << std::endl;
         #endif
 
-          edge_cont.resize(edges);
-
           edge_type edge(2);
           for(std::size_t i = 0; i < edges; i++)
           {
             reader >> edge[0];
             reader >> edge[1];
-            edge_cont[i] = edge;
+
+            if (!reader || edge[0] < 0 || edge[1] < 0 || std::max(edge[0], edge[1]) >= static_cast<index_type>(geometry.size()))
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Edge missing or invalid.");
+            edge_cont.push_back(edge);
           }
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -400,8 +410,6 @@ namespace viennagrid
              std::cout << "faces: " << faces << std::endl;
            #endif
 
-             polygon_cont.resize(faces);
-
              std::size_t face_dim = 0;
 
              for(std::size_t fi = 0; fi < faces; fi++)
@@ -410,12 +418,17 @@ namespace viennagrid
 
                //std::cout << "face dim: " << face_dim << std::endl;
 
-               polygon_cont[fi].resize(face_dim);
+               polygon_cont.push_back(polygon_type());
 
-               for (std::size_t j=0; j < face_dim; j++)
+               for (std::size_t j=0; j < face_dim && reader; j++)
                {
-                 reader >> polygon_cont[fi][j];
+                 index_type face_edge = 0;
+                 reader >> face_edge;
+                 polygon_cont[fi].push_back(face_edge);
                }
+
+               if (!reader)
+                 throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Face missing or invalid.");
              }
 
            #ifdef VIENNAGRID_DEBUG_IO
@@ -448,11 +461,11 @@ namespace viennagrid
           std::cout << "elements: " << elements << std::endl;
         #endif
 
-          domain.resize(elements);
-
           for(std::size_t i = 0; i < elements; i++)
           {
-            reader >> token; // element type, ie, 10 ... polyhedron
+            // element type, ie, 10 ... polyhedron
+            if ( !(reader >> token) )
+              throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Unexpected end of file.");
 
             if(token == "10") // aka a 3d bnd file segment
             {
@@ -464,13 +477,16 @@ namespace viennagrid
               std::cout << "  element: " << i << " - faces: " << element_faces << std::endl;
             #endif
 
+              domain.push_back(polygon_container_type());
+
               for(std::size_t f = 0; f < element_faces; f++)
               {
                 index_type face;
-                reader >> face;
+                if ( !(reader >> face) )
+                  throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Element missing or invalid.");
                 index_type mapped_face = map(face);
 
-                polygon_type polygon = polygon_cont[mapped_face];
+                polygon_type polygon = polygon_cont.at(mapped_face);
 
                 polygon_type polygon_new;
                 std::map<index_type, bool>  uniquer;
@@ -480,7 +496,7 @@ namespace viennagrid
                   index_type vertex = polygon[vi];
                   index_type mapped_vertex = map(vertex);
 
-                  edge_type edge = edge_cont[mapped_vertex];
+                  edge_type edge = edge_cont.at(mapped_vertex);
 
                   if(vertex < 0) std::reverse(edge.begin(),edge.end());
 
@@ -496,7 +512,7 @@ namespace viennagrid
                   }
                 }
                 //std::cout << "adapt: " << polygon_new;
-                domain[i].push_back(polygon_new);
+                domain.back().push_back(polygon_new);
               }
             }
             else if(token == "4")  // aka a 2d bnd file segment
@@ -509,17 +525,20 @@ namespace viennagrid
               std::cout << "  element: " << i << " - linesegments: " << element_faces << std::endl;
             #endif
 
+              domain.push_back(polygon_container_type());
+
               for(std::size_t f = 0; f < element_faces; f++)
               {
                 index_type face;
-                reader >> face;
+                if ( !(reader >> face) )
+                  throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Element missing or invalid.");
                 index_type mapped_face = map(face);
 
-                edge_type edge = edge_cont[mapped_face];
+                edge_type edge = edge_cont.at(mapped_face);
 
                 //std::cout << "adapt: " << polygon_new;
                 //std::cout << "adding edge: " << edge[0] << " " << edge[1] << std::endl;
-                domain[i].push_back(edge);
+                domain.back().push_back(edge);
               }
 
             }
@@ -528,7 +547,6 @@ namespace viennagrid
 //               reader >> token;
 //               reader >> token;
 //               reader >> token;
-//               domain.resize(domain.size()-1);
             #ifdef VIENNAGRID_DEBUG_IO
               std::cout << "  type: contact-triangle" << std::endl;
             #endif
@@ -537,16 +555,14 @@ namespace viennagrid
               reader >> contact_face[1];
               reader >> contact_face[2];
               //std::cout << contact_face[0] << " " << contact_face[1] << " " << contact_face[2] << std::endl;
+              if (!reader)
+                throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Element missing or invalid.");
               contact_face_cont.push_back(contact_face);
-
-              // we have to reduce the domain size, as this is not a valid segment
-              domain.resize(domain.size()-1);
             }
             else if(token == "1") // aka a 2d bnd file contact
             {
 //               reader >> token;
 //               reader >> token;
-//               domain.resize(domain.size()-1);
             #ifdef VIENNAGRID_DEBUG_IO
               std::cout << "  type: contact-line" << std::endl;
             #endif
@@ -554,10 +570,9 @@ namespace viennagrid
               reader >> contact_face[0];
               reader >> contact_face[1];
               //std::cout << contact_face[0] << " " << contact_face[1] << std::endl;
+              if (!reader)
+                throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Element missing or invalid.");
               contact_face_cont.push_back(contact_face);
-
-              // we have to reduce the domain size, as this is not a valid segment
-              domain.resize(domain.size()-1);
             }
             else
             {
@@ -578,8 +593,6 @@ namespace viennagrid
           segment_id_cont.resize(domainsize);
           std::size_t region_cnt = 0;
 
-          contact_groups.resize(number_of_regions-domainsize);
-
           while(1)
           {
             if (!std::getline(reader, token))
@@ -629,20 +642,22 @@ namespace viennagrid
                   {
                     // store the contact name
                     contact_id_cont.push_back(name);
+                    contact_groups.push_back(contact_face_container_type());
 
                     for(std::size_t i = 0; i < elements; i++)
                     {
                       // read the elment id
-                      reader >> ei;
+                      if ( !(reader >> ei) )
+                        throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Element index missing or invalid.");
 
                       // determine the contact cells
                       if(DIMG == 2)
                       {
-                        contact_groups[contact_id_cont.size()-1].push_back(contact_face_cont[ei-domainsize]);
+                        contact_groups.back().push_back(contact_face_cont.at(ei-domainsize));
                       }
                       else // 3D
                       {
-                        contact_face_type edge_index_cont = contact_face_cont[ei-domainsize];
+                        contact_face_type edge_index_cont = contact_face_cont.at(ei-domainsize);
 
                         std::map<index_type, bool>  uniquer;
                         contact_face_type contact_triangle;
@@ -651,7 +666,7 @@ namespace viennagrid
                         {
                           index_type edge_index = edge_index_cont[ei];
                           index_type mapped_edge_index = map(edge_index);
-                          edge_type edge = edge_cont[mapped_edge_index];
+                          edge_type edge = edge_cont.at(mapped_edge_index);
                           if(edge_index < 0) std::reverse(edge.begin(),edge.end());
 
                           if(!uniquer[edge[0]])
@@ -666,7 +681,7 @@ namespace viennagrid
                           }
                         }
                         //std::cout << contact_triangle << std::endl;
-                        contact_groups[contact_id_cont.size()-1].push_back(contact_triangle);
+                        contact_groups.back().push_back(contact_triangle);
                       }
                     }
                   }
@@ -675,10 +690,11 @@ namespace viennagrid
                     for(std::size_t i = 0; i < elements; i++)
                     {
                       // read the elment id
-                      reader >> ei;
+                      if ( !(reader >> ei) )
+                        throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): File " + filename + ": Element index missing or invalid.");
 
                       // store the name and material info on the related segment id
-                      segment_id_cont[ei] = std::pair<std::string, std::string>(name, material);
+                      segment_id_cont.at(ei) = std::pair<std::string, std::string>(name, material);
                     }
                   }
                   break;
-- 
2.43.0


From b08a1adf52cbd411568a13f1ca25997d334ee105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 43/58] fix: opendx_writer: cells refer to vertex IDs instead
 of positions in the point list

---
 viennagrid/io/opendx_writer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..a41268d 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -127,11 +127,15 @@ namespace viennagrid
           writer << pointnum << " data follows" << std::endl;
 
           //Nodes:
+          std::map<typename VertexType::id_type, std::size_t> vertex_indices;   // vertex IDs need not be consecutive
+          std::size_t vertex_index = 0;
+
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
-              ++vit)
+              ++vit, ++vertex_index)
           {
+            vertex_indices[vit->id()] = vertex_index;
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -152,7 +156,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_indices[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From ae1882d91d2b9b73fec72cfc184209bfcebf4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 44/58] fix: opendx_writer: cell type and number of vertices
 per cell taken from the geometric dimension

---
 viennagrid/io/opendx_writer.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index a41268d..c3f5205 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -47,31 +47,45 @@ namespace viennagrid
       return value;
     }
 
-    /** @brief A helper class returning dimension-dependent attribute strings. */
-    template <int DIM>
+    /** @brief A helper class returning cell type dependent attribute strings. */
+    template <typename CellTagT>
     struct DXHelper {};
 
     template <>
-    struct DXHelper<1>
+    struct DXHelper<line_tag>
     {
       static std::string getAttributes()
       { return "attribute \"element type\" string \"line\" "; }
     };
 
     template <>
-    struct DXHelper<2>
+    struct DXHelper<triangle_tag>
     {
       static std::string getAttributes()
       { return "attribute \"element type\" string \"triangles\" "; }
     };
 
     template <>
-    struct DXHelper<3>
+    struct DXHelper<quadrilateral_tag>
+    {
+      static std::string getAttributes()
+      { return "attribute \"element type\" string \"quads\" "; }
+    };
+
+    template <>
+    struct DXHelper<tetrahedron_tag>
     {
       static std::string getAttributes()
       { return "attribute \"element type\" string \"tetrahedra\" "; }
     };
 
+    template <>
+    struct DXHelper<hexahedron_tag>
+    {
+      static std::string getAttributes()
+      { return "attribute \"element type\" string \"cubes\" "; }
+    };
+
     /** @brief The OpenDX writer object. Does not support segments - always the full mesh is written.
      *
      * @tparam MeshType   The ViennaGrid mesh.
@@ -113,7 +127,7 @@ namespace viennagrid
          */
         void operator()(MeshType const & mesh_obj, std::string const & filename)
         {
-          typedef DXHelper<geometric_dim>  DXHelper;
+          typedef viennagrid::io::DXHelper<CellTag>  DXHelperType;
 
           std::ofstream writer(filename.c_str());
           if (!writer.is_open())
@@ -143,7 +157,7 @@ namespace viennagrid
 
           //Cells:
           std::size_t cellnum = viennagrid::elements<CellTag>(mesh_obj).size();
-          writer << "object \"grid_Line_One\" class array type int rank 1 shape " << (geometric_dim + 1) << " items " << cellnum << " data follows" << std::endl;
+          writer << "object \"grid_Line_One\" class array type int rank 1 shape " << boundary_elements<CellTag, vertex_tag>::num << " items " << cellnum << " data follows" << std::endl;
 
           CellRange cells = viennagrid::elements<CellTag>(mesh_obj);
           for (CellIterator cit = cells.begin();
@@ -161,7 +175,7 @@ namespace viennagrid
             writer << std::endl;
           }
 
-          writer << DXHelper::getAttributes() << std::endl;
+          writer << DXHelperType::getAttributes() << std::endl;
           writer << "attribute \"ref\" string \"positions\" " << std::endl;
           writer << std::endl;
 
-- 
2.43.0


From afc93ea7f74caeb8f7c00f3263f4e666997bd7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 45/58] fix: opendx_writer: additional data replaces the data
 registered first, depending on the names

---
 viennagrid/io/opendx_writer.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index c3f5205..1bfc78b 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -246,9 +246,12 @@ namespace viennagrid
         template <typename T>
         void add_scalar_data_on_vertices(T const accessor, std::string name)
         {
-          if (vertex_scalar_data.size() > 0)
+          if (vertex_scalar_data.size() > 0 && vertex_scalar_data.find(name) == vertex_scalar_data.end())
+          {
             std::cout << "* ViennaGrid: Warning: OpenDX vertex data " << name
                       << " will be ignored, because other data is already available!" << std::endl;
+            return;
+          }
 
           add_to_container( vertex_scalar_data, accessor, name );
         }
@@ -257,9 +260,12 @@ namespace viennagrid
         template <typename T>
         void add_scalar_data_on_cells(T const accessor, std::string name)
         {
-          if (cell_scalar_data.size() > 0)
+          if (cell_scalar_data.size() > 0 && cell_scalar_data.find(name) == cell_scalar_data.end())
+          {
             std::cout << "* ViennaGrid: Warning: OpenDX cell data " << name
                       << " will be ignored, because other cell data is already available!" << std::endl;
+            return;
+          }
 
           if (vertex_scalar_data.size() > 0)
             std::cout << "* ViennaGrid: Warning: OpenDX cell data " << name
-- 
2.43.0


From 0d36ab8276c5e6202dd465a3f7f4b14d1df7db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 46/58] fix: mphtxt_writer: crash when a tetrahedron does not
 belong to any segment

---
 viennagrid/io/mphtxt_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index aba11b9..413e87f 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -402,7 +402,10 @@ namespace viennagrid
           typedef typename viennagrid::result_of::segment_id_range<SegmentationT, TetrahedronType>::type SegmentIDRange;
 
           SegmentIDRange segment_ids = viennagrid::segment_ids( segmentation, *tit );
-          writer << *(segment_ids.begin())+1 << "\n";
+          if (segment_ids.begin() == segment_ids.end())
+            writer << "0\n";
+          else
+            writer << *(segment_ids.begin())+1 << "\n";
         }
 
         writer << "\n";
-- 
2.43.0


From 5bba4cbc2228ee8b71d55db03f11006be2ac9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:01 +0000
Subject: [PATCH 47/58] fix: is_boundary: elements taken out of a segment keep
 their boundary flag

---
 viennagrid/algorithm/boundary.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index f55c3e8..8c99816 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -153,6 +153,7 @@ namespace viennagrid
 
         dst_boundary_information_container_wrapper_type & dst_boundary_information_container_wrapper = detail::boundary_information_collection<element_tag>( mesh_obj_ );
 
+        dst_boundary_information_container_wrapper.container.clear();
         transfer_boundary_information(mesh_obj_,
                                       viennagrid::make_field<facet_type>( src_boundary_information_container_wrapper.container ),
                                       viennagrid::make_field<element_type>( dst_boundary_information_container_wrapper.container ));
@@ -212,6 +213,7 @@ namespace viennagrid
                 facet_tag
               >::type boundary_information_container_wrapper_type;
       boundary_information_container_wrapper_type & boundary_information_container_wrapper = detail::boundary_information_collection<facet_tag>(mesh_obj);
+      boundary_information_container_wrapper.container.clear();   // also forget elements which have left the mesh or segment
       detect_boundary( mesh_obj, viennagrid::make_field<facet_type>( boundary_information_container_wrapper.container ) );
 
       transfer_boundary_information(mesh_obj);
-- 
2.43.0


From ab5a75c24e165d95b719e8b28388425fa14517ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:01 +0000
Subject: [PATCH 48/58] fix: is_interface: elements taken out of a segment keep
 their interface flag

---
 viennagrid/algorithm/interface.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index c5f8ba0..3ea1842 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -145,6 +145,7 @@ namespace viennagrid
         dst_interface_information_container_wrapper_type & dst_interface_information_container_wrapper = interface_information_collection<element_tag>( seg0, seg1 );
         typename viennagrid::result_of::accessor< typename dst_interface_information_container_wrapper_type::container_type, element_type >::type dst_accessor( dst_interface_information_container_wrapper.container );
 
+        dst_interface_information_container_wrapper.container.clear();
         transfer_boundary_information(seg0, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
         transfer_boundary_information(seg1, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
 
@@ -244,6 +245,7 @@ namespace viennagrid
     interface_information_container_wrapper_type & interface_information_container_wrapper = detail::interface_information_collection<FacetTag>( seg0, seg1 );
 
 
+    interface_information_container_wrapper.container.clear();    // also forget elements which have left the segments
     detail::detect_interface( seg0, seg1, viennagrid::make_field<FacetType>(interface_information_container_wrapper.container) );
 
     transfer_interface_information( seg0, seg1 );
-- 
2.43.0


From 4c0d01a97dc52db6ea6deb38379ff4fcad954211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:33 +0000
Subject: [PATCH 49/58] fix: deleting from a view that holds elements without
 their boundary elements threw

The co-boundary information of a mesh view was built with accessor.at() for
every boundary element of the view's elements, which throws for elements the
view does not hold (the element_erase tutorial terminated this way).
---
 viennagrid/mesh/coboundary_iteration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennagrid/mesh/coboundary_iteration.hpp b/viennagrid/mesh/coboundary_iteration.hpp
index 926dc6d..a63cae8 100644
--- a/viennagrid/mesh/coboundary_iteration.hpp
+++ b/viennagrid/mesh/coboundary_iteration.hpp
@@ -240,9 +240,9 @@ namespace viennagrid
         element_on_coboundary_element_range_type elements_on_coboundary_element( *it );
         for (element_on_coboundary_element_range_iterator jt = elements_on_coboundary_element.begin(); jt != elements_on_coboundary_element.end(); ++jt)
         {
-//           is this line needed??
-//           if ( viennagrid::find(mesh_obj, *jt) !=  viennagrid::elements<element_type_or_tag>(mesh_obj).end() )
-          accessor.at( *jt ).insert_handle( it.handle() );
+          // a view may hold an element without its boundary elements, for which there is no entry then
+          if ( accessor.find( *jt ) )
+            accessor.find( *jt )->insert_handle( it.handle() );
         }
       }
     }
-- 
2.43.0


From adc86e0dc0d85daf30c6dd2f933c6a96a9011877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:54 +0000
Subject: [PATCH 50/58] fix: copying a mesh view damaged the elements of the
 mesh

The handle fix-up of the mesh copy constructor and assignment operator is
meant for deep copies. For a view it overwrote the boundary element handles
of the viewed mesh, with null for elements the view does not hold.
---
 viennagrid/mesh/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index a825e32..341639b 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -40,6 +40,10 @@ namespace viennagrid
     template<typename SourceWrappedConfigT, typename DestinationWrappedConfigT>
     void fix_handles( viennagrid::mesh<SourceWrappedConfigT> const & source_mesh_obj, viennagrid::mesh<DestinationWrappedConfigT> & destination_mesh );
 
+    /** @brief For internal use only; views share the elements of their mesh, so there is nothing to fix */
+    template<typename SourceWrappedConfigT, typename WrappedConfigT, typename ElementTypelistT, typename ContainerConfigT>
+    void fix_handles( viennagrid::mesh<SourceWrappedConfigT> const &, viennagrid::mesh< decorated_mesh_view_config<WrappedConfigT, ElementTypelistT, ContainerConfigT> > & ) {}
+
     /** @brief For internal use only */
     template<typename container_collection_type>
     class view_mesh_setter
-- 
2.43.0


From 243207458f1753ebea9fcf18bf3e91eb6d236ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:31 +0000
Subject: [PATCH 51/58] fix: mesh_serializer could not be used

It did not compile (pointer initialised from a reference, unknown names), its
cells referred to vertex ids that loading does not restore, and what() of its
exception returned a dangling pointer.
---
 viennagrid/io/serialization.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index 8a85fca..9201310 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -17,8 +17,13 @@
  *  @brief    A mesh wrapper class which models the Boost Serialization concept: http://www.boost.org/libs/serialization/
  */
 
+#include <map>
+#include <string>
+#include <vector>
+
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
+#include "viennagrid/mesh/element_creation.hpp"
 
 
 #include <boost/archive/text_iarchive.hpp>
@@ -42,14 +47,9 @@ namespace viennagrid
     class bad_serialization_state_exception : public std::exception
     {
       public:
-        virtual const char* what() const throw()
-        {
-          std::stringstream ss;
-          ss << "* ViennaGrid: Bad serialization state: " << msg_ << "!";
-          return ss.str().c_str();
-        }
+        virtual const char* what() const throw() { return msg_.c_str(); }
 
-        bad_serialization_state_exception(std::string msg) : msg_(msg) {}
+        bad_serialization_state_exception(std::string msg) : msg_("* ViennaGrid: Bad serialization state: " + msg + "!") {}
 
         virtual ~bad_serialization_state_exception() throw() {}
 
@@ -98,9 +98,12 @@ namespace viennagrid
         std::size_t point_size = viennagrid::vertices(mesh_obj).size();
         ar & point_size;
         ConstVertexRange vertices(mesh_obj);
+        std::map<VertexIDType, std::size_t> vertex_indices;   // position of each vertex, ids need not be consecutive
         for (ConstVertexIterator vit = vertices.begin();
              vit != vertices.end(); ++vit)
         {
+          std::size_t vertex_index = vertex_indices.size();
+          vertex_indices[vit->id()] = vertex_index;
           for(int d = 0; d < DIMG; d++)
             ar & viennagrid::point(*vit)[d];
         }
@@ -123,7 +126,7 @@ namespace viennagrid
           vocit != vertices_on_cell.end();
           ++vocit)
           {
-            std::size_t id = vocit->id().get();
+            std::size_t id = vertex_indices[vocit->id()];
             ar & id;
           }
         }
@@ -145,13 +148,14 @@ namespace viennagrid
         std::size_t point_size;
         ar & point_size;
 
+        std::vector<VertexHandleType> vertex_handles;
         for(std::size_t i = 0; i < point_size; i++)
         {
           PointType p;
           for(int d = 0; d < DIMG; d++)
             ar & p[d];
 
-          viennagrid::make_vertex( *mesh_pointer, p );
+          vertex_handles.push_back( viennagrid::make_vertex( mesh_obj, p ) );
         }
         // -----------------------------------------------
 
@@ -171,7 +175,7 @@ namespace viennagrid
           {
             std::size_t id;
             ar & id;
-            vertices[j] = viennagrid::find_by_id( mesh_obj, VertexIDType(id) ).handle();
+            vertices[j] = vertex_handles.at(id);
           }
 
           viennagrid::make_cell( mesh_obj, vertices, vertices + num_vertices);
@@ -190,11 +194,11 @@ namespace viennagrid
       mesh_serializer() : mesh_pointer(0) {}
 
       /** @brief The constructor expects a shared pointer on a mesh object and sets the state */
-      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(mesh_obj) {}
+      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(&mesh_obj) {}
 
       /** @brief The load function enables to associate a mesh with the serialzer after
       a serializer object has been constructed. */
-      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh;  }
+      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh_obj;  }
 
       /** @brief The get function enables to retrieve the mesh pointer
       */
-- 
2.43.0


From f1e428fff24ec538e0ceecee174b32e403cd67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:04 +0000
Subject: [PATCH 52/58] fix: hyperplane_refine gives every cut edge its own
 vertex

make_unique_vertex merged the new vertices of different edges within a distance proportional to their distance from the origin,
which collapsed cells when the plane passes close to a vertex. Every edge is visited once, so nothing is created twice.
---
 viennagrid/algorithm/refine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/refine.hpp b/viennagrid/algorithm/refine.hpp
index cab51ce..2031093 100644
--- a/viennagrid/algorithm/refine.hpp
+++ b/viennagrid/algorithm/refine.hpp
@@ -404,7 +404,7 @@ namespace viennagrid
         double pd = viennagrid::inner_prod( hyperplane_normal, pt1-hyperplane_point );
 
         PointT new_pt = pt1 - (pd / (pd-qd)) * (pt1 - pt0);
-        line_refinement_vertex_handle_accessor(*lit) = viennagrid::make_unique_vertex( dst_mesh, new_pt );
+        line_refinement_vertex_handle_accessor(*lit) = viennagrid::make_vertex( dst_mesh, new_pt );
       }
       else
         line_refinement_tag_accessor(*lit) = false;
-- 
2.43.0


From b28a96af5e4d7cd3ce6e4286c4c9bb519b16eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:02 +0000
Subject: [PATCH 53/58] fix: segmentation::init keeps the segments of the
 previous mesh

---
 viennagrid/mesh/segmentation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 844957d..4a7cf04 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -566,9 +566,8 @@ namespace viennagrid
       */
     void init( mesh_type & mesh_x )
     {
-      highest_id = -1;
       mesh_ = &mesh_x;
-      all_elements_ = viennagrid::make_view(*mesh_);
+      clear(); // segments of the previous mesh are gone
     }
 
 
-- 
2.43.0


From 15e22db1df27277c02bcdd42f490e5998f2d7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:02 +0000
Subject: [PATCH 54/58] fix: segment element information is uninitialized for
 new members of a segment

---
 viennagrid/mesh/segmentation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 4a7cf04..acd2601 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1120,8 +1120,8 @@ namespace viennagrid
       typedef segment_id_type_ segment_id_type;
       typedef segment_element_info_type_ segment_element_info_type;
 
-      element_segment_mapping() {}
-      element_segment_mapping( segment_id_type const & segment_id_ ) : segment_id(segment_id_) {}
+      element_segment_mapping() : segment_id(), segment_element_info() {}
+      element_segment_mapping( segment_id_type const & segment_id_ ) : segment_id(segment_id_), segment_element_info() {}
 
       segment_id_type segment_id;
       segment_element_info_type segment_element_info;
-- 
2.43.0


From 8910348062c8e80b170e0628b6d8203736c00de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:02 +0000
Subject: [PATCH 55/58] fix: Voronoi interfaces extend beyond the boundary of
 the mesh, unlike the boxes

---
 viennagrid/algorithm/voronoi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..217e946 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -428,10 +428,12 @@ namespace viennagrid
 
               // contribution from other cell containing the circumcenter:
               interface_contribution = spanned_volume(edge_intersection, circ_center);
-              interface_area_accessor(*eocit) += interface_contribution;
               //if ( other_cell != NULL)
               if (!detail::is_handle_invalid( other_cells, other_cell ))
+              {
+                interface_area_accessor(*eocit) += interface_contribution;
                 voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( other_cell, interface_contribution) );
+              }
 
 
               //
-- 
2.43.0


From 0fcb4f07032a31ae1c822f4c630ccfbc0c712859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:17 +0000
Subject: [PATCH 56/58] fix: one case of tetrahedron refinement yields a cell
 of opposite orientation

If the three edges of a tetrahedron that are bisected form a path, and the
first edge is shorter than the last but longer than the middle one, one of
the five cells had its vertices in the opposite orientation of its parent.
All other cells keep the orientation.
---
 viennagrid/algorithm/detail/refine_tet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/detail/refine_tet.hpp b/viennagrid/algorithm/detail/refine_tet.hpp
index 3e2b2af..7e4f628 100644
--- a/viennagrid/algorithm/detail/refine_tet.hpp
+++ b/viennagrid/algorithm/detail/refine_tet.hpp
@@ -747,7 +747,7 @@ namespace viennagrid
           if (stable_line_is_longer(mesh, vertices, 0, 1, 1, 2)) //split edge 01 again, introduce line 42
           {
             add_refinement_element( element_vertices, vertices, 0, 4, 2, 6);
-            add_refinement_element( element_vertices, vertices, 6, 4, 5, 2);
+            add_refinement_element( element_vertices, vertices, 4, 5, 2, 6);
           }
           else //split edge 12 again, introduce line 50
           {
-- 
2.43.0


From 22e051a2642c4123b0c9342577cca264683dd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:35 +0000
Subject: [PATCH 57/58] fix: copying a segmented mesh throws when a segment
 name is the id of another segment

---
 viennagrid/mesh/mesh_operations.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/viennagrid/mesh/mesh_operations.hpp b/viennagrid/mesh/mesh_operations.hpp
index 0051b62..bd3ef24 100644
--- a/viennagrid/mesh/mesh_operations.hpp
+++ b/viennagrid/mesh/mesh_operations.hpp
@@ -13,6 +13,11 @@
    License:      MIT (X11), see file LICENSE in the base directory
 ======================================================================= */
 
+#include <map>
+#include <set>
+#include <string>
+#include <vector>
+
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
 #include "viennagrid/mesh/segmentation.hpp"
@@ -145,6 +150,26 @@ namespace viennagrid
 
     typedef typename SrcSegmentationT::const_iterator ConstSegmentIteratorType;
     typedef typename DstSegmentationT::segment_handle_type DstSegmentHandleType;
+    std::set<std::string> src_names;
+    for (ConstSegmentIteratorType sit = src_segmentation.begin(); sit != src_segmentation.end(); ++sit)
+    {
+      dst_segmentation.get_make_segment( (*sit).id() );
+      src_names.insert( (*sit).name() );
+    }
+
+    // the name of a segment might be the default name of another one, so all segments to be renamed give up their default names first
+    for (ConstSegmentIteratorType sit = src_segmentation.begin(); sit != src_segmentation.end(); ++sit)
+    {
+      DstSegmentHandleType & dst_segment = dst_segmentation.get_make_segment( (*sit).id() );
+      if (dst_segment.name() != (*sit).name())
+      {
+        std::string temporary_name = "copy_" + dst_segment.name();
+        while (src_names.find(temporary_name) != src_names.end())
+          temporary_name += "_";
+        dst_segment.set_name( temporary_name );
+      }
+    }
+
     for (ConstSegmentIteratorType sit = src_segmentation.begin(); sit != src_segmentation.end(); ++sit)
     {
       DstSegmentHandleType & dst_segment = dst_segmentation.get_make_segment( (*sit).id() );
-- 
2.43.0


From 623a70138242f8310c8ad977dbc3f5e170761048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:42 +0000
Subject: [PATCH 58/58] fix: the mphtxt and vmesh writers silently drop output
 if the file cannot be opened

---
 viennagrid/io/mphtxt_writer.hpp | 4 ++++
 viennagrid/io/vmesh_writer.hpp  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index 413e87f..103690a 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -24,6 +24,8 @@
 #include "viennagrid/mesh/coboundary_iteration.hpp"
 #include "viennagrid/mesh/neighbor_iteration.hpp"
 
+#include "viennagrid/io/helper.hpp"
+
 /** @file viennagrid/io/mphtxt_writer.hpp
     @brief Provides a writer for Comsol .mphtxt files.
 */
@@ -181,6 +183,8 @@ namespace viennagrid
         else
           ss << filename << ".mphtxt";
         std::ofstream writer(ss.str().c_str());
+        if (!writer.is_open())
+          throw cannot_open_file_exception("* ViennaGrid: mphtxt_writer::operator(): File " + ss.str() + ": Cannot open file!");
 
         // writing the file header
         writer << "# Created by ViennaGrid mphtxt writer\n";
diff --git a/viennagrid/io/vmesh_writer.hpp b/viennagrid/io/vmesh_writer.hpp
index 39ff3a3..f17038e 100644
--- a/viennagrid/io/vmesh_writer.hpp
+++ b/viennagrid/io/vmesh_writer.hpp
@@ -64,6 +64,8 @@ namespace viennagrid
         else
           ss << outputfile << ".vmesh";
         std::ofstream writer(ss.str().c_str());
+        if (!writer.is_open())
+          throw cannot_open_file_exception("* ViennaGrid: vmesh_writer::operator(): File " + ss.str() + ": Cannot open file!");
 
         writer << "<mesh>" << std::endl;
         writer << indent_ << "<file>" << inputfile << "</file>" << std::endl;
-- 
2.43.0


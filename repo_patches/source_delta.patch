From 73d64611bb4f404d407cc7c31fcfb1c6c107a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:18 +0000
Subject: [PATCH 01/29] fix: Interval /= must cover the whole coarsened
 interval

The end was floored, so [0,3)/=2 gave [0,1) and lost the coarse cell of index 1.
---
 include/samurai/interval.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/samurai/interval.hpp b/include/samurai/interval.hpp
index bf2c9aa..fe5579a 100644
--- a/include/samurai/interval.hpp
+++ b/include/samurai/interval.hpp
@@ -178,11 +178,7 @@ namespace samurai
     inline auto Interval<TValue, TIndex>::operator/=(value_t i) -> Interval&
     {
         start = static_cast<value_t>(std::floor(start / static_cast<double>(i)));
-        end   = static_cast<value_t>(std::floor(end / static_cast<double>(i)));
-        if (start == end)
-        {
-            ++end;
-        }
+        end   = static_cast<value_t>(std::ceil(end / static_cast<double>(i)));
         step = 1;
         return *this;
     }
-- 
2.43.0


From 8ca4235c4289e978f91fc57d7218b41874728ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:18 +0000
Subject: [PATCH 02/29] fix: translate_op::transform must chain to the
 translated set

A translation of a translation ignored the inner shift along y and z.
---
 include/samurai/subset/node_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/subset/node_op.hpp b/include/samurai/subset/node_op.hpp
index 18ee3d8..c3ea3b2 100644
--- a/include/samurai/subset/node_op.hpp
+++ b/include/samurai/subset/node_op.hpp
@@ -371,7 +371,7 @@ namespace samurai
     template <class T>
     inline auto translate_op<T>::transform(std::size_t d, value_t coord) const noexcept
     {
-        return coord - m_stencil[d];
+        return m_data.transform(d, coord - m_stencil[d]);
     }
 
     /****************************
-- 
2.43.0


From 8dd4041cbc1d1b12aec73b521b401e1c0c79ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:18 +0000
Subject: [PATCH 03/29] fix: LevelCellArray_iterator incremented to the end
 must equal end()

++ on the last interval left the outer coordinates past their end; a
subsequent -- gave a wrong index (3D) or read past the offsets (2D).
---
 include/samurai/level_cell_array.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index efdb732..33e19bb 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -965,6 +965,10 @@ namespace samurai
             return *this;
         }
         ++m_current_index[0];
+        if (m_current_index[0] == (*p_lca)[0].end())
+        {
+            return *this = p_lca->end();
+        }
 
         for (std::size_t d = 0; d < m_current_index.size() - 1; ++d)
         {
-- 
2.43.0


From b33cf1f07984ca737da409974ab759c000687c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:26 +0000
Subject: [PATCH 04/29] fix: iterators over empty collections and across empty
 levels

begin()/end() of an empty LevelCellArray (dim > 1) and of an empty CellArray
dereferenced empty storage; CellArray iterators did not skip empty levels and
operator- ignored the levels of its operands.
---
 include/samurai/cell_array.hpp       | 24 ++++++++++++++++++------
 include/samurai/level_cell_array.hpp | 14 ++++++++++++--
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/samurai/cell_array.hpp b/include/samurai/cell_array.hpp
index ce7d625..4a505d8 100644
--- a/include/samurai/cell_array.hpp
+++ b/include/samurai/cell_array.hpp
@@ -491,7 +491,7 @@ namespace samurai
     template <std::size_t dim_, class TInterval, std::size_t max_size_>
     inline auto CellArray<dim_, TInterval, max_size_>::begin() -> iterator
     {
-        return iterator(this, m_cells[min_level()].begin());
+        return (min_level() > max_size) ? end() : iterator(this, m_cells[min_level()].begin());
     }
 
     template <std::size_t dim_, class TInterval, std::size_t max_size_>
@@ -515,7 +515,7 @@ namespace samurai
     template <std::size_t dim_, class TInterval, std::size_t max_size_>
     inline auto CellArray<dim_, TInterval, max_size_>::cbegin() const -> const_iterator
     {
-        return const_iterator(this, m_cells[min_level()].cbegin());
+        return (min_level() > max_size) ? cend() : const_iterator(this, m_cells[min_level()].cbegin());
     }
 
     template <std::size_t dim_, class TInterval, std::size_t max_size_>
@@ -605,7 +605,7 @@ namespace samurai
         }
 
         ++m_lca_it;
-        if (m_lca_it.level() < p_ca->max_level() && m_lca_it == (*p_ca)[m_lca_it.level()].end())
+        while (m_lca_it.level() < p_ca->max_level() && m_lca_it == (*p_ca)[m_lca_it.level()].end())
         {
             m_lca_it = (*p_ca)[m_lca_it.level() + 1].begin();
         }
@@ -620,7 +620,7 @@ namespace samurai
             return *this;
         }
 
-        if (m_lca_it.level() > p_ca->min_level() && m_lca_it == (*p_ca)[m_lca_it.level()].begin())
+        while (m_lca_it.level() > p_ca->min_level() && m_lca_it == (*p_ca)[m_lca_it.level()].begin())
         {
             m_lca_it = (*p_ca)[m_lca_it.level() - 1].end();
         }
@@ -651,8 +651,20 @@ namespace samurai
     template <class CA, bool is_const>
     inline auto CellArray_iterator<CA, is_const>::operator-(const self_type& rhs) const -> difference_type
     {
-        return m_lca_it.operator-(rhs.m_lca_it);
-        // return m_current_index[0] - rhs.m_current_index[0];
+        if (level() < rhs.level())
+        {
+            return -(rhs - *this);
+        }
+        if (level() == rhs.level())
+        {
+            return m_lca_it.operator-(rhs.m_lca_it);
+        }
+        difference_type n = (*p_ca)[rhs.level()].end() - rhs.m_lca_it;
+        for (std::size_t l = rhs.level() + 1; l < level(); ++l)
+        {
+            n += static_cast<difference_type>((*p_ca)[l].shape()[0]);
+        }
+        return n + (m_lca_it - (*p_ca)[level()].begin());
     }
 
     template <class CA, bool is_const>
diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index 33e19bb..22a2786 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -397,7 +397,7 @@ namespace samurai
         for (std::size_t d = 0; d < dim - 1; ++d)
         {
             offset_index[d] = m_offsets[d].cbegin();
-            index[d]        = current_index[d + 1]->start;
+            index[d]        = empty() ? 0 : current_index[d + 1]->start;
         }
         return iterator(this, std::move(offset_index), std::move(current_index), std::move(index));
     }
@@ -405,6 +405,11 @@ namespace samurai
     template <std::size_t Dim, class TInterval>
     inline auto LevelCellArray<Dim, TInterval>::end() -> iterator
     {
+        if (empty())
+        {
+            return begin();
+        }
+
         typename iterator::offset_type_iterator offset_index;
         typename iterator::iterator_container current_index;
         typename iterator::coord_type index;
@@ -439,7 +444,7 @@ namespace samurai
         for (std::size_t d = 0; d < dim - 1; ++d)
         {
             offset_index[d] = m_offsets[d].cbegin();
-            index[d]        = current_index[d + 1]->start;
+            index[d]        = empty() ? 0 : current_index[d + 1]->start;
         }
         return const_iterator(this, std::move(offset_index), std::move(current_index), std::move(index));
     }
@@ -447,6 +452,11 @@ namespace samurai
     template <std::size_t Dim, class TInterval>
     inline auto LevelCellArray<Dim, TInterval>::cend() const -> const_iterator
     {
+        if (empty())
+        {
+            return cbegin();
+        }
+
         typename const_iterator::offset_type_iterator offset_index;
         typename const_iterator::iterator_container current_index;
         typename const_iterator::coord_type index;
-- 
2.43.0


From 416abfbec553d0296bd57a5291721921a9c85064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:41 +0000
Subject: [PATCH 05/29] fix: for_each_cell over a set must set the row before
 looking up the storage index

---
 include/samurai/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 2998e42..9282759 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -276,8 +276,8 @@ namespace samurai
             [&](const auto& interval, const auto& index_yz)
             {
                 index[0]                         = interval.start;
-                auto cell_index                  = lca.get_index(index);
                 xt::view(index, xt::range(1, _)) = index_yz;
+                auto cell_index                  = lca.get_index(index);
                 for (index_value_t i = interval.start; i < interval.end; ++i)
                 {
                     index[0] = i;
-- 
2.43.0


From 9cdecbcbf4b4e74e77df35d5294e2f7bc56c29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:41 +0000
Subject: [PATCH 06/29] fix: Mesh_base::swap must exchange the periodicity
 flags

---
 include/samurai/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 4f83875..f8993ab 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -523,6 +523,7 @@ namespace samurai
         swap(m_union, mesh.m_union);
         swap(m_max_level, mesh.m_max_level);
         swap(m_min_level, mesh.m_min_level);
+        swap(m_periodic, mesh.m_periodic);
     }
 
     template <class D, class Config>
-- 
2.43.0


From 2bbf6c14aa8420fbe4bcf9832f604eae2a94b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:37 +0000
Subject: [PATCH 07/29] fix: make_graduation must keep the origin and scaling
 factor of the collection

---
 include/samurai/graduation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/graduation.hpp b/include/samurai/graduation.hpp
index aa6c65d..88e5cd3 100644
--- a/include/samurai/graduation.hpp
+++ b/include/samurai/graduation.hpp
@@ -71,7 +71,7 @@ namespace samurai
                 }
             }
 
-            cl_type cl;
+            cl_type cl(mesh.origin_point(), mesh.scaling_factor());
             for_each_interval(mesh,
                               [&](std::size_t level, const auto& interval, const auto& index_yz)
                               {
-- 
2.43.0


From 0398e5cf9390b5a14a3869389a5f60020af22533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:44 +0000
Subject: [PATCH 08/29] fix: refinement graduation of the MR adaptation must
 look across periodic boundaries

---
 include/samurai/mr/adapt.hpp | 46 +++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/include/samurai/mr/adapt.hpp b/include/samurai/mr/adapt.hpp
index 1d87de0..314d630 100644
--- a/include/samurai/mr/adapt.hpp
+++ b/include/samurai/mr/adapt.hpp
@@ -11,6 +11,7 @@
 #include "../timers.hpp"
 #include "criteria.hpp"
 #include <type_traits>
+#include <vector>
 
 namespace samurai
 {
@@ -192,6 +193,36 @@ namespace samurai
                 {1,  1,  1 }
             };
         }
+
+        // The zero vector, followed by the vectors which bring the cells of the given level to their periodic images.
+        template <class Mesh>
+        auto periodic_shifts(const Mesh& mesh, std::size_t level)
+        {
+            constexpr std::size_t dim = Mesh::dim;
+            using shift_t             = xt::xtensor_fixed<int, xt::xshape<dim>>;
+
+            std::vector<shift_t> shifts{shift_t(xt::zeros<int>({dim}))};
+            const auto delta_l     = mesh.domain().level() - level;
+            const auto min_indices = mesh.domain().min_indices();
+            const auto max_indices = mesh.domain().max_indices();
+            for (std::size_t d = 0; d < dim; ++d)
+            {
+                if (mesh.is_periodic(d))
+                {
+                    const std::size_t n_shifts = shifts.size();
+                    for (int sign : {-1, 1})
+                    {
+                        for (std::size_t is = 0; is < n_shifts; ++is)
+                        {
+                            shift_t shift = shifts[is];
+                            shift[d]      = sign * ((max_indices[d] - min_indices[d]) >> delta_l);
+                            shifts.push_back(shift);
+                        }
+                    }
+                }
+            }
+            return shifts;
+        }
     }
 
     template <bool enlarge_, class TField, class... TFields>
@@ -296,13 +327,16 @@ namespace samurai
             int grad_width = static_cast<int>(mesh_t::config::graduation_width);
             auto stencil   = grad_width * detail::box_dir<dim>();
 
-            for (std::size_t is = 0; is < stencil.shape(0); ++is)
+            for (const auto& shift : detail::periodic_shifts(mesh, level))
             {
-                auto s = xt::view(stencil, is);
-                auto subset = intersection(translate(mesh[mesh_id_t::cells][level], s), mesh[mesh_id_t::all_cells][level - 1], mesh.domain())
-                                  .on(level);
-
-                subset.apply_op(make_graduation(m_tag));
+                for (std::size_t is = 0; is < stencil.shape(0); ++is)
+                {
+                    const xt::xtensor_fixed<int, xt::xshape<dim>> s = xt::view(stencil, is) + shift;
+                    auto subset = intersection(translate(mesh[mesh_id_t::cells][level], s), mesh[mesh_id_t::all_cells][level - 1], mesh.domain())
+                                      .on(level);
+
+                    subset.apply_op(make_graduation(m_tag));
+                }
             }
 
             update_tag_periodic(level, m_tag);
-- 
2.43.0


From 04bf5d4b6705215617df45f73065a9bcd5107d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 09/29] fix: prediction of several-component SOA fields in 1D
 and 3D must select cells on the last axis

---
 include/samurai/numeric/prediction.hpp | 145 +++++++++++++++----------
 1 file changed, 87 insertions(+), 58 deletions(-)

diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index b205eae..3feff7e 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -308,6 +308,35 @@ namespace samurai
         return qs(std::integral_constant<std::size_t, 1>{}, level, i, j, k);
     }
 
+    // Part of the coarse quantity q (computed on the whole coarse interval) needed by the even (resp. odd) fine cells:
+    // the first `dec` (resp. last `dec`) coarse cells have no even (resp. odd) child in the fine interval.
+    // The cells are on the last axis for a SOA field with several components, on the first one otherwise.
+    template <class Field, class T>
+    inline auto even_part(T& q, int dec)
+    {
+        if constexpr (Field::is_soa && Field::size > 1)
+        {
+            return xt::view(q, xt::all(), xt::range(dec, q.shape()[1]));
+        }
+        else
+        {
+            return xt::view(q, xt::range(dec, q.shape()[0]));
+        }
+    }
+
+    template <class Field, class T>
+    inline auto odd_part(T& q, int dec)
+    {
+        if constexpr (Field::is_soa && Field::size > 1)
+        {
+            return xt::view(q, xt::all(), xt::range(0, safe_subs<int>(q.shape()[1], dec)));
+        }
+        else
+        {
+            return xt::view(q, xt::range(0, safe_subs<int>(q.shape()[0], dec)));
+        }
+    }
+
     /////////////////////////
     // prediction operator //
     /////////////////////////
@@ -432,7 +461,7 @@ namespace samurai
         {
             auto coarse_even_i  = even_i >> 1;
             auto dec_even       = (i.start & 1) ? 1 : 0;
-            dest(level, even_i) = src(level - 1, coarse_even_i) + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]));
+            dest(level, even_i) = src(level - 1, coarse_even_i) + even_part<T1>(qs_i, dec_even);
         }
 
         auto odd_i = i.odd_elements();
@@ -440,7 +469,7 @@ namespace samurai
         {
             auto coarse_odd_i  = odd_i >> 1;
             auto dec_odd       = (i.end & 1) ? 1 : 0;
-            dest(level, odd_i) = src(level - 1, coarse_odd_i) - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)));
+            dest(level, odd_i) = src(level - 1, coarse_odd_i) - odd_part<T1>(qs_i, dec_odd);
         }
     }
 
@@ -733,13 +762,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              - xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              - xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              + xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              + xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              - xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              + xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + even_part<T1>(qs_i, dec_even)
+                                              - even_part<T1>(qs_j, dec_even)
+                                              - even_part<T1>(qs_k, dec_even)
+                                              + even_part<T1>(qs_ij, dec_even)
+                                              + even_part<T1>(qs_ik, dec_even)
+                                              - even_part<T1>(qs_jk, dec_even)
+                                              + even_part<T1>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -748,13 +777,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             - xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             - xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             - xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             - xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             - xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             - xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - odd_part<T1>(qs_i, dec_odd)
+                                             - odd_part<T1>(qs_j, dec_odd)
+                                             - odd_part<T1>(qs_k, dec_odd)
+                                             - odd_part<T1>(qs_ij, dec_odd)
+                                             - odd_part<T1>(qs_ik, dec_odd)
+                                             - odd_part<T1>(qs_jk, dec_odd)
+                                             - odd_part<T1>(qs_ijk, dec_odd);
                 }
             }
             else
@@ -765,13 +794,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              + xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              - xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              - xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              + xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              + xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              - xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + even_part<T1>(qs_i, dec_even)
+                                              + even_part<T1>(qs_j, dec_even)
+                                              - even_part<T1>(qs_k, dec_even)
+                                              - even_part<T1>(qs_ij, dec_even)
+                                              + even_part<T1>(qs_ik, dec_even)
+                                              + even_part<T1>(qs_jk, dec_even)
+                                              - even_part<T1>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -780,13 +809,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             + xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             - xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             + xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             - xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             + xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             + xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - odd_part<T1>(qs_i, dec_odd)
+                                             + odd_part<T1>(qs_j, dec_odd)
+                                             - odd_part<T1>(qs_k, dec_odd)
+                                             + odd_part<T1>(qs_ij, dec_odd)
+                                             - odd_part<T1>(qs_ik, dec_odd)
+                                             + odd_part<T1>(qs_jk, dec_odd)
+                                             + odd_part<T1>(qs_ijk, dec_odd);
                 }
             }
         }
@@ -800,13 +829,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              - xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              + xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              + xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              - xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              + xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              - xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + even_part<T1>(qs_i, dec_even)
+                                              - even_part<T1>(qs_j, dec_even)
+                                              + even_part<T1>(qs_k, dec_even)
+                                              + even_part<T1>(qs_ij, dec_even)
+                                              - even_part<T1>(qs_ik, dec_even)
+                                              + even_part<T1>(qs_jk, dec_even)
+                                              - even_part<T1>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -815,13 +844,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             - xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             + xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             - xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             + xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             + xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             + xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - odd_part<T1>(qs_i, dec_odd)
+                                             - odd_part<T1>(qs_j, dec_odd)
+                                             + odd_part<T1>(qs_k, dec_odd)
+                                             - odd_part<T1>(qs_ij, dec_odd)
+                                             + odd_part<T1>(qs_ik, dec_odd)
+                                             + odd_part<T1>(qs_jk, dec_odd)
+                                             + odd_part<T1>(qs_ijk, dec_odd);
                 }
             }
             else
@@ -832,13 +861,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              + xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              + xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              - xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              - xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              - xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              + xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + even_part<T1>(qs_i, dec_even)
+                                              + even_part<T1>(qs_j, dec_even)
+                                              + even_part<T1>(qs_k, dec_even)
+                                              - even_part<T1>(qs_ij, dec_even)
+                                              - even_part<T1>(qs_ik, dec_even)
+                                              - even_part<T1>(qs_jk, dec_even)
+                                              + even_part<T1>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -847,13 +876,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             + xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             + xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             + xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             + xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             - xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             - xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - odd_part<T1>(qs_i, dec_odd)
+                                             + odd_part<T1>(qs_j, dec_odd)
+                                             + odd_part<T1>(qs_k, dec_odd)
+                                             + odd_part<T1>(qs_ij, dec_odd)
+                                             + odd_part<T1>(qs_ik, dec_odd)
+                                             - odd_part<T1>(qs_jk, dec_odd)
+                                             - odd_part<T1>(qs_ijk, dec_odd);
                 }
             }
         }
-- 
2.43.0


From 875c80e2a4468a1cdf58e867333d381c872ea70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:22 +0000
Subject: [PATCH 10/29] fix: ghost update must apply boundary conditions before
 copying periodic images at each level

---
 include/samurai/algorithm/update.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index a73d5eb..97e4099 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -134,9 +134,9 @@ namespace samurai
                             .on(level);
 
             expr.apply_op(variadic_prediction<pred_order, false>(field, other_fields...));
+            update_bc(level, field, other_fields...);
             update_ghost_periodic(level, field, other_fields...);
             update_ghost_subdomains(level, field, other_fields...);
-            update_bc(level, field, other_fields...);
         }
 
         times::timers.stop("ghost update");
-- 
2.43.0


From 64a94cda60fef7cd098d795e77f42b0abc32da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 11/29] fix: details of a tuple of fields must follow the
 layout of each field, not the shapes of the views

A SOA field was not transposed when the interval happened to hold as many cells as
the field has components, and the prediction used the layout of the detail array.
---
 include/samurai/mr/operators.hpp       |  19 +---
 include/samurai/numeric/prediction.hpp | 124 ++++++++++++-------------
 2 files changed, 67 insertions(+), 76 deletions(-)

diff --git a/include/samurai/mr/operators.hpp b/include/samurai/mr/operators.hpp
index 956bb29..06f459a 100644
--- a/include/samurai/mr/operators.hpp
+++ b/include/samurai/mr/operators.hpp
@@ -333,21 +333,12 @@ namespace samurai
         template <class Ranges, class T1, class T2>
         inline void compute_detail_impl(Dim<dim> d, std::size_t i_r, const Ranges& ranges, T1& detail, const T2& field) const
         {
-            auto dest_shape = detail(ranges[i_r], ranges[i_r + 1], level + 1, 2 * i, 2 * index).shape();
-            auto src_shape  = field(level + 1, 2 * i, 2 * index).shape();
+            // the detail is stored cell by cell: a field whose cells are on the last axis must be matched with the transposed detail
+            static constexpr bool transpose = T2::is_soa || T2::size == 1;
 
-            if (xt::same_shape(dest_shape, src_shape))
-            {
-                auto detail_range = detail::make_detail_range<false>(detail, ranges[i_r], ranges[i_r + 1]);
-                compute_detail_op<dim, TInterval> compute_detail_(level, i, index);
-                compute_detail_(d, detail_range, field);
-            }
-            else
-            {
-                auto detail_range = detail::make_detail_range<true>(detail, ranges[i_r], ranges[i_r + 1]);
-                compute_detail_op<dim, TInterval> compute_detail_(level, i, index);
-                compute_detail_(d, detail_range, field);
-            }
+            auto detail_range = detail::make_detail_range<transpose>(detail, ranges[i_r], ranges[i_r + 1]);
+            compute_detail_op<dim, TInterval> compute_detail_(level, i, index);
+            compute_detail_(d, detail_range, field);
         }
 
         template <class T1, class T2, std::size_t... Is>
diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index 3feff7e..8baafa5 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -461,7 +461,7 @@ namespace samurai
         {
             auto coarse_even_i  = even_i >> 1;
             auto dec_even       = (i.start & 1) ? 1 : 0;
-            dest(level, even_i) = src(level - 1, coarse_even_i) + even_part<T1>(qs_i, dec_even);
+            dest(level, even_i) = src(level - 1, coarse_even_i) + even_part<T2>(qs_i, dec_even);
         }
 
         auto odd_i = i.odd_elements();
@@ -469,7 +469,7 @@ namespace samurai
         {
             auto coarse_odd_i  = odd_i >> 1;
             auto dec_odd       = (i.end & 1) ? 1 : 0;
-            dest(level, odd_i) = src(level - 1, coarse_odd_i) - odd_part<T1>(qs_i, dec_odd);
+            dest(level, odd_i) = src(level - 1, coarse_odd_i) - odd_part<T2>(qs_i, dec_odd);
         }
     }
 
@@ -576,7 +576,7 @@ namespace samurai
             {
                 auto coarse_even_i = even_i >> 1;
                 auto dec_even      = (i.start & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, even_i, j) = src(level - 1, coarse_even_i, j >> 1)
                                            + xt::view(qs_i, xt::all(), xt::range(dec_even, qs_i.shape()[1]))
@@ -596,7 +596,7 @@ namespace samurai
             {
                 auto coarse_odd_i = odd_i >> 1;
                 auto dec_odd      = (i.end & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, odd_i, j) = src(level - 1, coarse_odd_i, j >> 1)
                                           - xt::view(qs_i, xt::all(), xt::range(0, safe_subs<int>(qs_i.shape()[1], dec_odd)))
@@ -619,7 +619,7 @@ namespace samurai
             {
                 auto coarse_even_i = even_i >> 1;
                 auto dec_even      = (i.start & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, even_i, j) = src(level - 1, coarse_even_i, j >> 1)
                                            + xt::view(qs_i, xt::all(), xt::range(dec_even, qs_i.shape()[1]))
@@ -639,7 +639,7 @@ namespace samurai
             {
                 auto coarse_odd_i = odd_i >> 1;
                 auto dec_odd      = (i.end & 1) ? 1 : 0;
-                if constexpr (T1::is_soa && T1::size > 1)
+                if constexpr (T2::is_soa && T2::size > 1)
                 {
                     dest(level, odd_i, j) = src(level - 1, coarse_odd_i, j >> 1)
                                           - xt::view(qs_i, xt::all(), xt::range(0, safe_subs<int>(qs_i.shape()[1], dec_odd)))
@@ -762,13 +762,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + even_part<T1>(qs_i, dec_even)
-                                              - even_part<T1>(qs_j, dec_even)
-                                              - even_part<T1>(qs_k, dec_even)
-                                              + even_part<T1>(qs_ij, dec_even)
-                                              + even_part<T1>(qs_ik, dec_even)
-                                              - even_part<T1>(qs_jk, dec_even)
-                                              + even_part<T1>(qs_ijk, dec_even);
+                                              + even_part<T2>(qs_i, dec_even)
+                                              - even_part<T2>(qs_j, dec_even)
+                                              - even_part<T2>(qs_k, dec_even)
+                                              + even_part<T2>(qs_ij, dec_even)
+                                              + even_part<T2>(qs_ik, dec_even)
+                                              - even_part<T2>(qs_jk, dec_even)
+                                              + even_part<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -777,13 +777,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - odd_part<T1>(qs_i, dec_odd)
-                                             - odd_part<T1>(qs_j, dec_odd)
-                                             - odd_part<T1>(qs_k, dec_odd)
-                                             - odd_part<T1>(qs_ij, dec_odd)
-                                             - odd_part<T1>(qs_ik, dec_odd)
-                                             - odd_part<T1>(qs_jk, dec_odd)
-                                             - odd_part<T1>(qs_ijk, dec_odd);
+                                             - odd_part<T2>(qs_i, dec_odd)
+                                             - odd_part<T2>(qs_j, dec_odd)
+                                             - odd_part<T2>(qs_k, dec_odd)
+                                             - odd_part<T2>(qs_ij, dec_odd)
+                                             - odd_part<T2>(qs_ik, dec_odd)
+                                             - odd_part<T2>(qs_jk, dec_odd)
+                                             - odd_part<T2>(qs_ijk, dec_odd);
                 }
             }
             else
@@ -794,13 +794,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + even_part<T1>(qs_i, dec_even)
-                                              + even_part<T1>(qs_j, dec_even)
-                                              - even_part<T1>(qs_k, dec_even)
-                                              - even_part<T1>(qs_ij, dec_even)
-                                              + even_part<T1>(qs_ik, dec_even)
-                                              + even_part<T1>(qs_jk, dec_even)
-                                              - even_part<T1>(qs_ijk, dec_even);
+                                              + even_part<T2>(qs_i, dec_even)
+                                              + even_part<T2>(qs_j, dec_even)
+                                              - even_part<T2>(qs_k, dec_even)
+                                              - even_part<T2>(qs_ij, dec_even)
+                                              + even_part<T2>(qs_ik, dec_even)
+                                              + even_part<T2>(qs_jk, dec_even)
+                                              - even_part<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -809,13 +809,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - odd_part<T1>(qs_i, dec_odd)
-                                             + odd_part<T1>(qs_j, dec_odd)
-                                             - odd_part<T1>(qs_k, dec_odd)
-                                             + odd_part<T1>(qs_ij, dec_odd)
-                                             - odd_part<T1>(qs_ik, dec_odd)
-                                             + odd_part<T1>(qs_jk, dec_odd)
-                                             + odd_part<T1>(qs_ijk, dec_odd);
+                                             - odd_part<T2>(qs_i, dec_odd)
+                                             + odd_part<T2>(qs_j, dec_odd)
+                                             - odd_part<T2>(qs_k, dec_odd)
+                                             + odd_part<T2>(qs_ij, dec_odd)
+                                             - odd_part<T2>(qs_ik, dec_odd)
+                                             + odd_part<T2>(qs_jk, dec_odd)
+                                             + odd_part<T2>(qs_ijk, dec_odd);
                 }
             }
         }
@@ -829,13 +829,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + even_part<T1>(qs_i, dec_even)
-                                              - even_part<T1>(qs_j, dec_even)
-                                              + even_part<T1>(qs_k, dec_even)
-                                              + even_part<T1>(qs_ij, dec_even)
-                                              - even_part<T1>(qs_ik, dec_even)
-                                              + even_part<T1>(qs_jk, dec_even)
-                                              - even_part<T1>(qs_ijk, dec_even);
+                                              + even_part<T2>(qs_i, dec_even)
+                                              - even_part<T2>(qs_j, dec_even)
+                                              + even_part<T2>(qs_k, dec_even)
+                                              + even_part<T2>(qs_ij, dec_even)
+                                              - even_part<T2>(qs_ik, dec_even)
+                                              + even_part<T2>(qs_jk, dec_even)
+                                              - even_part<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -844,13 +844,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - odd_part<T1>(qs_i, dec_odd)
-                                             - odd_part<T1>(qs_j, dec_odd)
-                                             + odd_part<T1>(qs_k, dec_odd)
-                                             - odd_part<T1>(qs_ij, dec_odd)
-                                             + odd_part<T1>(qs_ik, dec_odd)
-                                             + odd_part<T1>(qs_jk, dec_odd)
-                                             + odd_part<T1>(qs_ijk, dec_odd);
+                                             - odd_part<T2>(qs_i, dec_odd)
+                                             - odd_part<T2>(qs_j, dec_odd)
+                                             + odd_part<T2>(qs_k, dec_odd)
+                                             - odd_part<T2>(qs_ij, dec_odd)
+                                             + odd_part<T2>(qs_ik, dec_odd)
+                                             + odd_part<T2>(qs_jk, dec_odd)
+                                             + odd_part<T2>(qs_ijk, dec_odd);
                 }
             }
             else
@@ -861,13 +861,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + even_part<T1>(qs_i, dec_even)
-                                              + even_part<T1>(qs_j, dec_even)
-                                              + even_part<T1>(qs_k, dec_even)
-                                              - even_part<T1>(qs_ij, dec_even)
-                                              - even_part<T1>(qs_ik, dec_even)
-                                              - even_part<T1>(qs_jk, dec_even)
-                                              + even_part<T1>(qs_ijk, dec_even);
+                                              + even_part<T2>(qs_i, dec_even)
+                                              + even_part<T2>(qs_j, dec_even)
+                                              + even_part<T2>(qs_k, dec_even)
+                                              - even_part<T2>(qs_ij, dec_even)
+                                              - even_part<T2>(qs_ik, dec_even)
+                                              - even_part<T2>(qs_jk, dec_even)
+                                              + even_part<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -876,13 +876,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - odd_part<T1>(qs_i, dec_odd)
-                                             + odd_part<T1>(qs_j, dec_odd)
-                                             + odd_part<T1>(qs_k, dec_odd)
-                                             + odd_part<T1>(qs_ij, dec_odd)
-                                             + odd_part<T1>(qs_ik, dec_odd)
-                                             - odd_part<T1>(qs_jk, dec_odd)
-                                             - odd_part<T1>(qs_ijk, dec_odd);
+                                             - odd_part<T2>(qs_i, dec_odd)
+                                             + odd_part<T2>(qs_j, dec_odd)
+                                             + odd_part<T2>(qs_k, dec_odd)
+                                             + odd_part<T2>(qs_ij, dec_odd)
+                                             + odd_part<T2>(qs_ik, dec_odd)
+                                             - odd_part<T2>(qs_jk, dec_odd)
+                                             - odd_part<T2>(qs_ijk, dec_odd);
                 }
             }
         }
-- 
2.43.0


From 710ded03b46be0df35dc3912b957466aabdb5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:12 +0000
Subject: [PATCH 12/29] fix: external edge and corner ghosts of 3D domains must
 be filled

Along an edge the zero component of the direction made the set of inner cells empty,
and the line stencil of a diagonal direction lost its third component.
---
 include/samurai/bc.hpp      | 10 +++++++---
 include/samurai/stencil.hpp | 13 +++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/samurai/bc.hpp b/include/samurai/bc.hpp
index 7e42efc..e18179f 100644
--- a/include/samurai/bc.hpp
+++ b/include/samurai/bc.hpp
@@ -1024,10 +1024,14 @@ namespace samurai
                                 }
                                 else if constexpr (dim == 3)
                                 {
+                                    // Along an edge of the domain, one component of dir is 0: only the other two faces are involved.
+                                    direction_t dx{-dir[0], 0, 0};
+                                    direction_t dy{0, -dir[1], 0};
+                                    direction_t dz{0, 0, -dir[2]};
                                     auto subset = difference(domain,
-                                                             union_(translate(domain, one_interval * direction_t{-dir[0], 0, 0}),
-                                                                    translate(domain, one_interval * direction_t{0, -dir[1], 0}),
-                                                                    translate(domain, one_interval * direction_t{0, 0, -dir[2]})));
+                                                             union_(translate(domain, one_interval * (dir[0] != 0 ? dx : dy)),
+                                                                    translate(domain, one_interval * (dir[1] != 0 ? dy : dz)),
+                                                                    translate(domain, one_interval * (dir[2] != 0 ? dz : dx))));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                             }
diff --git a/include/samurai/stencil.hpp b/include/samurai/stencil.hpp
index 2bc132a..a014522 100644
--- a/include/samurai/stencil.hpp
+++ b/include/samurai/stencil.hpp
@@ -439,6 +439,19 @@ namespace samurai
                     v_in_d(0) = cos * v_in_x(0) - sin * v_in_x(d);
                     v_in_d(d) = sin * v_in_x(0) + cos * v_in_x(d);
                 });
+
+            if constexpr (dim > 2)
+            {
+                // The rotation only involves two directions. In diagonal directions (where only line stencils make sense),
+                // the vector k*{1, 0, 0} becomes k*direction.
+                if (!is_cartesian(direction))
+                {
+                    for (std::size_t i = 0; i < stencil_size; ++i)
+                    {
+                        xt::view(stencil_in_d, i) = stencil_in_x(i, 0) * direction;
+                    }
+                }
+            }
         }
         return stencil_in_d;
     }
-- 
2.43.0


From 77a4cde132cbaba52ff9a01849f854702572ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:38 +0000
Subject: [PATCH 13/29] fix: cell iterators must move backwards when advanced
 by a negative distance

operator+= and operator-= of the random access iterators of LevelCellArray and CellArray
ignored negative distances.
---
 include/samurai/cell_array.hpp       | 8 ++++++++
 include/samurai/level_cell_array.hpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/samurai/cell_array.hpp b/include/samurai/cell_array.hpp
index 4a505d8..6efb90f 100644
--- a/include/samurai/cell_array.hpp
+++ b/include/samurai/cell_array.hpp
@@ -635,6 +635,10 @@ namespace samurai
         {
             ++(*this);
         }
+        for (difference_type i = 0; i > n; --i)
+        {
+            --(*this);
+        }
         return *this;
     }
 
@@ -645,6 +649,10 @@ namespace samurai
         {
             --(*this);
         }
+        for (difference_type i = 0; i > n; --i)
+        {
+            ++(*this);
+        }
         return *this;
     }
 
diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index 22a2786..a1f948d 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -1050,6 +1050,10 @@ namespace samurai
         {
             ++(*this);
         }
+        for (difference_type i = 0; i > n; --i)
+        {
+            --(*this);
+        }
         return *this;
     }
 
@@ -1060,6 +1064,10 @@ namespace samurai
         {
             --(*this);
         }
+        for (difference_type i = 0; i > n; --i)
+        {
+            ++(*this);
+        }
         return *this;
     }
 
-- 
2.43.0


From e891c669bb60a4cedb3d05e909c3ad329e254ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:21 +0000
Subject: [PATCH 14/29] fix: a field can be initialised by its cell means
 (quadrature must be callable on a const rule)

---
 include/samurai/numeric/gauss_legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/numeric/gauss_legendre.hpp b/include/samurai/numeric/gauss_legendre.hpp
index 427223b..0658b06 100644
--- a/include/samurai/numeric/gauss_legendre.hpp
+++ b/include/samurai/numeric/gauss_legendre.hpp
@@ -28,7 +28,7 @@ namespace samurai
         }
 
         template <std::size_t func_result_size, std::size_t dim, class TInterval, class Func>
-        auto quadrature(const Cell<dim, TInterval>& cell, Func&& f)
+        auto quadrature(const Cell<dim, TInterval>& cell, Func&& f) const
         {
             const double half_h = cell.length / 2;
             if constexpr (func_result_size == 1)
@@ -49,7 +49,7 @@ namespace samurai
       private:
 
         template <std::size_t dim, class TInterval, class FuncResultType, class Func>
-        void compute_quadrature_sum(const Cell<dim, TInterval>& cell, FuncResultType& sum, Func&& f)
+        void compute_quadrature_sum(const Cell<dim, TInterval>& cell, FuncResultType& sum, Func&& f) const
         {
             static_assert(dim >= 1 && dim <= 3,
                           "The Gauss-Legendre quadrature is not implemented "
-- 
2.43.0


From bac852c0727280858075c68f710db1c0056dc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:37 +0000
Subject: [PATCH 15/29] fix: linear convection must keep the velocity it was
 built with

The upwind side was chosen at construction but the velocity was read through a
reference at application: a changed or expired vector gave a downwind flux.
---
 include/samurai/schemes/fv/operators/convection_lin.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index 21a2544..6114954 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -34,7 +34,7 @@ namespace samurai
 
                 if (velocity(d) >= 0) // use the left values
                 {
-                    upwind[d].cons_flux_function = [&](double)
+                    upwind[d].cons_flux_function = [velocity](double)
                     {
                         // Return type: 2 matrices (left, right) of size output_field_size x field_size.
                         // In this case, of size field_size x field_size.
@@ -56,7 +56,7 @@ namespace samurai
                 }
                 else // use the right values
                 {
-                    upwind[d].cons_flux_function = [&](double)
+                    upwind[d].cons_flux_function = [velocity](double)
                     {
                         FluxStencilCoeffs<cfg> coeffs;
                         if constexpr (output_field_size == 1)
@@ -111,7 +111,7 @@ namespace samurai
 
                 if (velocity(d) >= 0)
                 {
-                    weno5[d].cons_flux_function = [&velocity](auto& cells, const Field& u) -> FluxValue<cfg>
+                    weno5[d].cons_flux_function = [velocity](auto& cells, const Field& u) -> FluxValue<cfg>
                     {
                         Array<FluxValue<cfg>, 5> f({u[cells[0]], u[cells[1]], u[cells[2]], u[cells[3]], u[cells[4]]});
                         f *= velocity(d);
@@ -120,7 +120,7 @@ namespace samurai
                 }
                 else
                 {
-                    weno5[d].cons_flux_function = [&velocity](auto& cells, const Field& u) -> FluxValue<cfg>
+                    weno5[d].cons_flux_function = [velocity](auto& cells, const Field& u) -> FluxValue<cfg>
                     {
                         Array<FluxValue<cfg>, 5> f({u[cells[5]], u[cells[4]], u[cells[3]], u[cells[2]], u[cells[1]]});
                         f *= velocity(d);
-- 
2.43.0


From 4e25099b4bf550b6e16d12a51fdc92ec1c079a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:37 +0000
Subject: [PATCH 16/29] fix: upwind convection of a vector field must transport
 every component

Every component received the flux of component d instead of its own.
---
 .../schemes/fv/operators/convection_lin.hpp   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index 6114954..883d5d8 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -48,8 +48,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -68,8 +70,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -178,8 +182,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                     }
                     else // use the right values
@@ -193,8 +199,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                     }
                     return coeffs;
-- 
2.43.0


From 6ec99d0cc1cf0b73c5caef7392247baa94e63368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:37 +0000
Subject: [PATCH 17/29] fix: convection by a velocity field must be usable in
 1D

The value of a scalar field is a number, not a vector to be indexed.
---
 .../schemes/fv/operators/convection_lin.hpp        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index 883d5d8..d018a99 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -170,12 +170,12 @@ namespace samurai
                     // In this case, of size field_size x field_size.
                     FluxStencilCoeffs<cfg> coeffs;
 
-                    auto velocity = velocity_field[cells[left]];
-                    if (velocity(d) >= 0) // use the left values
+                    const auto velocity = field_value(velocity_field, cells[left], d);
+                    if (velocity >= 0) // use the left values
                     {
                         if constexpr (output_field_size == 1)
                         {
-                            coeffs[left]  = velocity(d);
+                            coeffs[left]  = velocity;
                             coeffs[right] = 0;
                         }
                         else
@@ -184,7 +184,7 @@ namespace samurai
                             coeffs[right].fill(0);
                             for (std::size_t i = 0; i < field_size; ++i)
                             {
-                                coeffs[left](i, i) = velocity(d);
+                                coeffs[left](i, i) = velocity;
                             }
                         }
                     }
@@ -193,7 +193,7 @@ namespace samurai
                         if constexpr (output_field_size == 1)
                         {
                             coeffs[left]  = 0;
-                            coeffs[right] = velocity(d);
+                            coeffs[right] = velocity;
                         }
                         else
                         {
@@ -201,7 +201,7 @@ namespace samurai
                             coeffs[right].fill(0);
                             for (std::size_t i = 0; i < field_size; ++i)
                             {
-                                coeffs[right](i, i) = velocity(d);
+                                coeffs[right](i, i) = velocity;
                             }
                         }
                     }
@@ -246,7 +246,7 @@ namespace samurai
                 {
                     static constexpr std::size_t stencil_center = 2;
 
-                    auto v = velocity_field[cells[stencil_center]](d);
+                    const auto v = field_value(velocity_field, cells[stencil_center], d);
 
                     if (v >= 0)
                     {
-- 
2.43.0


From 6d04610935877ce1121fc42965e2a96f07dfcf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 18/29] fix: sums of nonlinear flux-based schemes

operator+ did not compile for nonlinear schemes, and would have dropped a term when
one flux is conservative and the other is not.
---
 .../fv/flux_based/algebraic_operators.hpp     | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp b/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
index 1229652..ddb1fb2 100644
--- a/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
+++ b/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
@@ -112,51 +112,53 @@ namespace samurai
                 }
                 else // SchemeType::NonLinear
                 {
-                    if (scheme1.flux_definition()[d].flux_function && scheme2.flux_definition()[d].flux_function)
+                    auto& sum_def = sum_scheme.flux_definition()[d];
+
+                    sum_def.flux_function      = nullptr;
+                    sum_def.cons_flux_function = nullptr;
+                    if (scheme1.flux_definition()[d].flux_function || scheme2.flux_definition()[d].flux_function)
                     {
-                        sum_scheme.flux_definition()[d].flux_function = [=](auto& cells, const auto& field)
+                        sum_def.flux_function = [=](auto& cells, const auto& field) -> FluxValuePair<cfg>
                         {
-                            return scheme1.flux_definition()[d].flux_function(cells, field)
-                                 + scheme2.flux_definition()[d].flux_function(cells, field);
+                            auto& def1 = scheme1.flux_definition()[d];
+                            auto& def2 = scheme2.flux_definition()[d];
+                            auto f1    = def1.flux_function ? def1.flux_function : def1.flux_function_as_conservative();
+                            auto f2    = def2.flux_function ? def2.flux_function : def2.flux_function_as_conservative();
+                            return f1(cells, field) + f2(cells, field);
                         };
-                        sum_scheme.cons_flux_function = nullptr;
                     }
-                    else if (scheme1.flux_definition()[d].cons_flux_function && scheme2.flux_definition()[d].cons_flux_function)
+                    else
                     {
-                        sum_scheme.flux_definition()[d].cons_flux_function = [=](auto& cells, const auto& field)
+                        sum_def.cons_flux_function = [=](auto& cells, const auto& field) -> FluxValue<cfg>
                         {
                             return scheme1.flux_definition()[d].cons_flux_function(cells, field)
                                  + scheme2.flux_definition()[d].cons_flux_function(cells, field);
                         };
-                        sum_scheme.flux_function = nullptr;
-                    }
-                    else
-                    {
-                        assert(false && "The case where scheme1.flux_function and scheme2.cons_flux_function are set is not implemented.");
                     }
 
-                    if (scheme1.flux_definition()[d].jacobian_function && scheme2.flux_definition()[d].jacobian_function)
-                    {
-                        sum_scheme.flux_definition()[d].jacobian_function = [=](auto& cells, const auto& field)
-                        {
-                            return scheme1.flux_definition()[d].jacobian_function(cells, field)
-                                 + scheme2.flux_definition()[d].jacobian_function(cells, field);
-                        };
-                        sum_scheme.cons_jacobian_function = nullptr;
-                    }
-                    else if (scheme1.flux_definition()[d].cons_jacobian_function && scheme2.flux_definition()[d].cons_jacobian_function)
+                    // The Jacobian of the sum is known only if both Jacobians are
+                    sum_def.jacobian_function      = nullptr;
+                    sum_def.cons_jacobian_function = nullptr;
+                    if (scheme1.flux_definition()[d].cons_jacobian_function && scheme2.flux_definition()[d].cons_jacobian_function
+                        && !sum_def.flux_function)
                     {
-                        sum_scheme.flux_definition()[d].cons_jacobian_function = [=](auto& cells, const auto& field)
+                        sum_def.cons_jacobian_function = [=](auto& cells, const auto& field) -> StencilJacobian<cfg>
                         {
                             return scheme1.flux_definition()[d].cons_jacobian_function(cells, field)
                                  + scheme2.flux_definition()[d].cons_jacobian_function(cells, field);
                         };
-                        sum_scheme.flux_function = nullptr;
                     }
-                    else
+                    else if ((scheme1.flux_definition()[d].jacobian_function || scheme1.flux_definition()[d].cons_jacobian_function)
+                             && (scheme2.flux_definition()[d].jacobian_function || scheme2.flux_definition()[d].cons_jacobian_function))
                     {
-                        assert(false
-                               && "The case where scheme1.jacobian_function and scheme2.cons_jacobian_function are set is not implemented.");
+                        sum_def.jacobian_function = [=](auto& cells, const auto& field) -> StencilJacobianPair<cfg>
+                        {
+                            auto& def1 = scheme1.flux_definition()[d];
+                            auto& def2 = scheme2.flux_definition()[d];
+                            auto j1    = def1.jacobian_function ? def1.jacobian_function : def1.jacobian_function_as_conservative();
+                            auto j2    = def2.jacobian_function ? def2.jacobian_function : def2.jacobian_function_as_conservative();
+                            return j1(cells, field) + j2(cells, field);
+                        };
                     }
                 }
             });
-- 
2.43.0


From 9196811e0edf23f826a8e2222ab7878e9f9a9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 19/29] fix: sums of nonlinear cell-based schemes

The local functions take a local field, so that operator+ did not compile.
---
 include/samurai/schemes/fv/cell_based/algebraic_operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp b/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
index 884b635..80c7a11 100644
--- a/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
+++ b/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
@@ -103,7 +103,7 @@ namespace samurai
             addition_scheme.local_scheme_function() = nullptr;
             if (scheme1.local_scheme_function() && scheme2.local_scheme_function())
             {
-                addition_scheme.local_scheme_function() = [=](stencil_cells_t& cells, const field_t& field)
+                addition_scheme.local_scheme_function() = [=](stencil_cells_t& cells, const auto& field)
                 {
                     return scheme1.local_scheme_function()(cells, field) + scheme2.local_scheme_function()(cells, field);
                 };
@@ -121,7 +121,7 @@ namespace samurai
             addition_scheme.local_jacobian_function() = nullptr;
             if (scheme1.local_jacobian_function() && scheme2.local_jacobian_function())
             {
-                addition_scheme.local_jacobian_function() = [=](stencil_cells_t& cells, const field_t& field)
+                addition_scheme.local_jacobian_function() = [=](stencil_cells_t& cells, const auto& field)
                 {
                     return scheme1.local_jacobian_function()(cells, field) + scheme2.local_jacobian_function()(cells, field);
                 };
-- 
2.43.0


From 08fc9baa8a2ab89483f88fd69ba51756924b0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 20/29] fix: adding a scheme to an operator sum must not alter
 the sum

The sum was modified in place, could not be const or temporary (so that differences did
not compile), and a scheme was added to every operator of its type. Differences with
flux-based schemes were declared, but the addition they rely on did not exist.
---
 .../samurai/schemes/fv/scheme_operators.hpp   | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/samurai/schemes/fv/scheme_operators.hpp b/include/samurai/schemes/fv/scheme_operators.hpp
index d9b4c86..05d3ff1 100644
--- a/include/samurai/schemes/fv/scheme_operators.hpp
+++ b/include/samurai/schemes/fv/scheme_operators.hpp
@@ -209,23 +209,29 @@ namespace samurai
 
     // OperatorSum + combinable CellBasedScheme
     template <class cfg, class bdry_cfg, class... Operators>
-    auto operator+(OperatorSum<Operators...>& sum_scheme, const CellBasedScheme<cfg, bdry_cfg>& scheme)
+    auto operator+(const OperatorSum<Operators...>& sum_scheme, const CellBasedScheme<cfg, bdry_cfg>& scheme)
         -> std::enable_if_t<scheme_is_combinable<CellBasedScheme<cfg, bdry_cfg>, Operators...>, OperatorSum<Operators...>>
     {
-        for_each(sum_scheme.operators(),
+        auto result = sum_scheme;
+        bool added  = false;
+        for_each(result.operators(),
                  [&](auto& op)
                  {
                      if constexpr (std::is_same_v<CellBasedScheme<cfg, bdry_cfg>, std::decay_t<decltype(op)>>)
                      {
-                         op = op + scheme;
+                         if (!added)
+                         {
+                             op    = op + scheme;
+                             added = true;
+                         }
                      }
                  });
-        return sum_scheme;
+        return result;
     }
 
     // combinable CellBasedScheme + OperatorSum
     template <class cfg, class bdry_cfg, class... Operators>
-    auto operator+(const CellBasedScheme<cfg, bdry_cfg>& scheme, OperatorSum<Operators...>& sum_scheme)
+    auto operator+(const CellBasedScheme<cfg, bdry_cfg>& scheme, const OperatorSum<Operators...>& sum_scheme)
         -> std::enable_if_t<scheme_is_combinable<CellBasedScheme<cfg, bdry_cfg>, Operators...>, OperatorSum<Operators...>>
     {
         return sum_scheme + scheme;
@@ -251,6 +257,23 @@ namespace samurai
         return make_operator_sum(added);
     }
 
+    /**
+     * Operator '+' between OperatorSum and FluxBasedScheme
+     */
+    template <class cfg, class bdry_cfg, class... Operators>
+    auto operator+(const OperatorSum<Operators...>& sum_scheme, const FluxBasedScheme<cfg, bdry_cfg>& scheme)
+    {
+        auto added = std::tuple_cat(sum_scheme.operators(), std::make_tuple(scheme));
+        return make_operator_sum(added);
+    }
+
+    template <class cfg, class bdry_cfg, class... Operators>
+    auto operator+(const FluxBasedScheme<cfg, bdry_cfg>& scheme, const OperatorSum<Operators...>& sum_scheme)
+    {
+        auto added = std::tuple_cat(std::make_tuple(scheme), sum_scheme.operators());
+        return make_operator_sum(added);
+    }
+
     /**
      * Operator '-' between FluxBasedScheme and CellBasedScheme
      */
-- 
2.43.0


From 363e1ed6cf30c8ca9d25f2a310274e8596df7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:41 +0000
Subject: [PATCH 21/29] fix: key the sub-cell range caches of portion by the
 level difference

The weights only depend on the level difference, but the caches were keyed by
the level of the cells: a query at the same level with another level
difference got the weights of the first one.
---
 include/samurai/reconstruction.hpp | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/samurai/reconstruction.hpp b/include/samurai/reconstruction.hpp
index b7d9681..66b7037 100644
--- a/include/samurai/reconstruction.hpp
+++ b/include/samurai/reconstruction.hpp
@@ -458,18 +458,18 @@ namespace samurai
             using index_t = typename Field::interval_t::value_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, typename Field::interval_t>, prediction_map<1, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii});
+            auto iter = values.find({prediction_order, delta_l, ii});
             if (iter == values.end())
             {
                 for (auto ii_ = ii.start; ii_ < ii.end; ++ii_)
                 {
-                    values[{prediction_order, level, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
+                    values[{prediction_order, delta_l, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
                 }
             }
 
             auto result = xt::zeros_like(f(element, level, i));
 
-            for (const auto& kv : values[{prediction_order, level, ii}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0]);
@@ -508,18 +508,18 @@ namespace samurai
             using index_t = typename Field::interval_t::value_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, typename Field::interval_t>, prediction_map<1, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii});
+            auto iter = values.find({prediction_order, delta_l, ii});
             if (iter == values.end())
             {
                 for (auto ii_ = ii.start; ii_ < ii.end; ++ii_)
                 {
-                    values[{prediction_order, level, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
+                    values[{prediction_order, delta_l, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
                 }
             }
 
             auto result = xt::zeros_like(f(level, i));
 
-            for (const auto& kv : values[{prediction_order, level, ii}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0]);
@@ -568,7 +568,7 @@ namespace samurai
                                       prediction_map<2, index_t>>
                 values;
 
-            auto iter = values.find({prediction_order, level, ii, jj});
+            auto iter = values.find({prediction_order, delta_l, ii, jj});
 
             if (iter == values.end())
             {
@@ -576,13 +576,13 @@ namespace samurai
                 {
                     for (auto jj_ = jj.start; jj_ < jj.end; ++jj_)
                     {
-                        values[{prediction_order, level, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
+                        values[{prediction_order, delta_l, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
                     }
                 }
             }
             auto result = xt::zeros_like(f(element, level, i, j));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0], j + kv.first[1]);
@@ -627,7 +627,7 @@ namespace samurai
                                       prediction_map<2, index_t>>
                 values;
 
-            auto iter = values.find({prediction_order, level, ii, jj});
+            auto iter = values.find({prediction_order, delta_l, ii, jj});
 
             if (iter == values.end())
             {
@@ -635,13 +635,13 @@ namespace samurai
                 {
                     for (auto jj_ = jj.start; jj_ < jj.end; ++jj_)
                     {
-                        values[{prediction_order, level, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
+                        values[{prediction_order, delta_l, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
                     }
                 }
             }
             auto result = xt::zeros_like(f(level, i, j));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0], j + kv.first[1]);
@@ -692,7 +692,7 @@ namespace samurai
             using interval_t = typename Field::interval_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, interval_t, interval_t, interval_t>, prediction_map<3, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii, jj, kk});
+            auto iter = values.find({prediction_order, delta_l, ii, jj, kk});
 
             if (iter == values.end())
             {
@@ -702,14 +702,14 @@ namespace samurai
                     {
                         for (auto kk_ = kk.start; kk_ < kk.end; ++kk_)
                         {
-                            values[{prediction_order, level, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
+                            values[{prediction_order, delta_l, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
                         }
                     }
                 }
             }
             auto result = xt::zeros_like(f(element, level, i, j, k));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj, kk}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj, kk}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0], j + kv.first[1], k + kv.first[2]);
@@ -756,7 +756,7 @@ namespace samurai
             using interval_t = typename Field::interval_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, interval_t, interval_t, interval_t>, prediction_map<3, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii, jj, kk});
+            auto iter = values.find({prediction_order, delta_l, ii, jj, kk});
 
             if (iter == values.end())
             {
@@ -766,14 +766,14 @@ namespace samurai
                     {
                         for (auto kk_ = kk.start; kk_ < kk.end; ++kk_)
                         {
-                            values[{prediction_order, level, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
+                            values[{prediction_order, delta_l, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
                         }
                     }
                 }
             }
             auto result = xt::zeros_like(f(level, i, j, k));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj, kk}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj, kk}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0], j + kv.first[1], k + kv.first[2]);
-- 
2.43.0


From b0bf350373b61fe17cf9f5dcca716d7a6908010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:35 +0000
Subject: [PATCH 22/29] fix: transfer averages every component of a vector
 field

The averaging of finer cells indexed the two-dimensional view of a vector
field with a single index, which adds everything to the wrong component.
---
 include/samurai/reconstruction.hpp | 47 +++++++++++++++---------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/include/samurai/reconstruction.hpp b/include/samurai/reconstruction.hpp
index 66b7037..bcb4bdf 100644
--- a/include/samurai/reconstruction.hpp
+++ b/include/samurai/reconstruction.hpp
@@ -1088,41 +1088,42 @@ namespace samurai
                     {
                         std::size_t shift = level_src - level_dst;
 
-                        if constexpr (dim == 1)
+                        auto add_average = [&](const auto& src, auto dst)
                         {
-                            auto src = field_src(level_src, i);
-                            auto dst = field_dst(level_dst, i >> shift);
                             for (value_t ii = 0; ii < static_cast<value_t>(i.size()); ++ii)
                             {
                                 auto i_dst = static_cast<std::size_t>(((i.start + ii) >> static_cast<value_t>(shift))
                                                                       - (i.start >> static_cast<value_t>(shift)));
-                                dst(i_dst) += src(ii) / (1 << shift);
+                                dst(i_dst) += src(ii) / (1 << (shift * dim));
                             }
-                        }
-                        else if constexpr (dim == 2)
+                        };
+
+                        auto project = [&](const auto&... yz)
                         {
-                            auto j   = index[0];
-                            auto src = field_src(level_src, i, j);
-                            auto dst = field_dst(level_dst, i >> shift, j >> shift);
-                            for (value_t ii = 0; ii < static_cast<value_t>(i.size()); ++ii)
+                            if constexpr (Field_src::size == 1)
                             {
-                                auto i_dst = static_cast<std::size_t>(((i.start + ii) >> static_cast<value_t>(shift))
-                                                                      - (i.start >> static_cast<value_t>(shift)));
-                                dst(i_dst) += src(ii) / (1 << (shift * dim));
+                                add_average(field_src(level_src, i, yz...), field_dst(level_dst, i >> shift, (yz >> shift)...));
                             }
+                            else
+                            {
+                                for (std::size_t item = 0; item < Field_src::size; ++item)
+                                {
+                                    add_average(field_src(item, level_src, i, yz...), field_dst(item, level_dst, i >> shift, (yz >> shift)...));
+                                }
+                            }
+                        };
+
+                        if constexpr (dim == 1)
+                        {
+                            project();
+                        }
+                        else if constexpr (dim == 2)
+                        {
+                            project(index[0]);
                         }
                         else if constexpr (dim == 3)
                         {
-                            auto j   = index[0];
-                            auto k   = index[1];
-                            auto src = field_src(level_src, i, j, k);
-                            auto dst = field_dst(level_dst, i >> shift, j >> shift, k >> shift);
-                            for (value_t ii = 0; ii < static_cast<value_t>(i.size()); ++ii)
-                            {
-                                auto i_dst = static_cast<std::size_t>(((i.start + ii) >> static_cast<value_t>(shift))
-                                                                      - (i.start >> static_cast<value_t>(shift)));
-                                dst(i_dst) += src(ii) / (1 << (shift * dim));
-                            }
+                            project(index[0], index[1]);
                         }
                     });
             }
-- 
2.43.0


From 73577d988f911d57302f769fd090543578c9b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 23/29] fix: round the number of cells covering a box instead
 of truncating it

The length of the approximated box is computed from its corners, so that the
quotient by the cell length can fall just below the integer: the box
[1/3, 5/6] got no cell at all.
---
 include/samurai/level_cell_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index a1f948d..64ab14c 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -363,7 +363,8 @@ namespace samurai
 
         point_t start_pt;
         start_pt.fill(0);
-        point_t end_pt = approx_box.length() / cell_length();
+        // The length of the approximated box is a multiple of the cell length, up to rounding errors
+        point_t end_pt = xt::rint(approx_box.length() / cell_length());
         init_from_box(box_t{start_pt, end_pt});
     }
 
-- 
2.43.0


From 24f40e2c0edb28e436c7410d73b965f74ce30a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 24/29] fix: do not add a subdivision to a box because of
 rounding errors

0.8 - 0.2 is slightly larger than 3 * 0.2, and was covered by four
subdivisions of length 0.2.
---
 include/samurai/box.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/samurai/box.hpp b/include/samurai/box.hpp
index 27f9cb6..8b9f77f 100644
--- a/include/samurai/box.hpp
+++ b/include/samurai/box.hpp
@@ -168,14 +168,21 @@ namespace samurai
             subdivision_length = box.min_length(); // / 2;
         }
 
-        auto approx_length = xt::eval(xt::ceil(box.length() / subdivision_length) * subdivision_length);
+        // Number of subdivisions needed to cover the box. An excess that is only due to rounding errors
+        // (e.g. 0.8 - 0.2 is slightly larger than 3 * 0.2) must not add a subdivision.
+        auto covering_length = [&]()
+        {
+            return xt::eval(xt::ceil(box.length() / subdivision_length - 1e-10) * subdivision_length);
+        };
+
+        auto approx_length = covering_length();
 
         if (!given_subdivision_length)
         {
             while (xt::any(xt::abs(approx_length - box.length()) > tol * box.length()))
             {
                 subdivision_length /= 2;
-                approx_length = xt::eval(xt::ceil(box.length() / subdivision_length) * subdivision_length);
+                approx_length = covering_length();
             }
         }
 
-- 
2.43.0


From 9607cd1fe2fe786e0fe968a29128d4b0ea1ba1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:49 +0000
Subject: [PATCH 25/29] fix: write a vertex shared by several cells once,
 whatever the geometry

The corners were accumulated from the first one of each cell, so that rounding
errors made the corners of neighbouring cells differ as soon as the cell length
is not a dyadic number, and the saved mesh was not connected.
---
 include/samurai/hdf5.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/samurai/hdf5.hpp b/include/samurai/hdf5.hpp
index 3db9b9c..dfb6deb 100644
--- a/include/samurai/hdf5.hpp
+++ b/include/samurai/hdf5.hpp
@@ -70,14 +70,14 @@ namespace samurai
 
     inline auto get_element(std::integral_constant<std::size_t, 2>)
     {
-        return std::array<xt::xtensor_fixed<std::size_t, xt::xshape<2>>, 4>{
+        return std::array<xt::xtensor_fixed<double, xt::xshape<2>>, 4>{
             {{0, 0}, {1, 0}, {1, 1}, {0, 1}}
         };
     }
 
     inline auto get_element(std::integral_constant<std::size_t, 3>)
     {
-        return std::array<xt::xtensor_fixed<std::size_t, xt::xshape<3>>, 8>{
+        return std::array<xt::xtensor_fixed<double, xt::xshape<3>>, 8>{
             {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}
         };
     }
@@ -128,13 +128,14 @@ namespace samurai
                       [&](auto cell)
                       {
                           std::array<double, dim> a;
-                          auto start_corner = cell.corner();
-                          auto c            = xt::xtensor<std::size_t, 1>::from_shape({element.size()});
+                          auto c = xt::xtensor<std::size_t, 1>::from_shape({element.size()});
                           ;
 
                           for (std::size_t i = 0; i < element.size(); ++i)
                           {
-                              auto corner = start_corner + cell.length * element[i];
+                              // computed from the integer coordinates, so that a vertex shared by several
+                              // cells has exactly the same coordinates for all of them
+                              auto corner = xt::eval(cell.origin_point + cell.length * (cell.indices + element[i]));
 
                               std::copy(corner.cbegin(), corner.cend(), a.begin());
                               auto search = points_id.find(a);
-- 
2.43.0


From 2737f9856cdcb02b8d22b95a731d1184dda1214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:00 +0000
Subject: [PATCH 26/29] fix: saving by level and sub-mesh writes the ghosts of
 all levels

The levels saved were those of the cells and one below, but the ghosts of a
multiresolution mesh can lie two levels below the coarsest cells.
---
 include/samurai/hdf5.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/samurai/hdf5.hpp b/include/samurai/hdf5.hpp
index dfb6deb..74095eb 100644
--- a/include/samurai/hdf5.hpp
+++ b/include/samurai/hdf5.hpp
@@ -377,13 +377,22 @@ namespace samurai
     {
         if (this->options().by_level)
         {
+            std::size_t min_level = this->mesh().min_level();
+            std::size_t max_level = this->mesh().max_level();
+            if (this->options().by_mesh_id)
+            {
+                // the sub-meshes can have ghosts on more levels than the cells
+                for (std::size_t im = 0; im < this->derived_cast().nb_submesh(); ++im)
+                {
+                    const auto& submesh = this->derived_cast().get_submesh(im);
+                    min_level           = std::min(min_level, submesh.min_level());
+                    max_level           = std::max(max_level, submesh.max_level());
+                }
+            }
 #ifdef SAMURAI_WITH_MPI
             mpi::communicator world;
-            auto min_level = mpi::all_reduce(world, this->mesh().min_level(), mpi::minimum<std::size_t>());
-            auto max_level = mpi::all_reduce(world, this->mesh().max_level(), mpi::maximum<std::size_t>());
-#else
-            auto min_level = this->mesh().min_level();
-            auto max_level = this->mesh().max_level();
+            min_level = mpi::all_reduce(world, min_level, mpi::minimum<std::size_t>());
+            max_level = mpi::all_reduce(world, max_level, mpi::maximum<std::size_t>());
 #endif
             if (min_level > 0)
             {
-- 
2.43.0


From 0dccbbca55177b342fd03c830c8c648617502d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:19 +0000
Subject: [PATCH 27/29] fix: exchange the values of neighbouring processes
 before setting boundary ghosts

---
 include/samurai/algorithm/update.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index 97e4099..dc00bcc 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -117,13 +117,13 @@ namespace samurai
 
         if (min_level > 0 && min_level != max_level)
         {
+            update_ghost_subdomains(min_level - 1, field, other_fields...);
             update_bc(min_level - 1, field, other_fields...);
             update_ghost_periodic(min_level - 1, field, other_fields...);
-            update_ghost_subdomains(min_level - 1, field, other_fields...);
         }
+        update_ghost_subdomains(min_level, field, other_fields...);
         update_bc(min_level, field, other_fields...);
         update_ghost_periodic(min_level, field, other_fields...);
-        update_ghost_subdomains(min_level, field, other_fields...);
 
         for (std::size_t level = min_level + 1; level <= max_level; ++level)
         {
@@ -134,9 +134,9 @@ namespace samurai
                             .on(level);
 
             expr.apply_op(variadic_prediction<pred_order, false>(field, other_fields...));
+            update_ghost_subdomains(level, field, other_fields...);
             update_bc(level, field, other_fields...);
             update_ghost_periodic(level, field, other_fields...);
-            update_ghost_subdomains(level, field, other_fields...);
         }
 
         times::timers.stop("ghost update");
-- 
2.43.0


From be12b1e1e4fa3760922a93ad2ae9ed9413bd54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:19 +0000
Subject: [PATCH 28/29] fix: send the finest level of a mesh to the
 neighbouring processes

---
 include/samurai/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index f8993ab..d9c9ee1 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -194,7 +194,7 @@ namespace samurai
             ar& m_subdomain;
             ar& m_union;
             ar& m_min_level;
-            ar& m_min_level;
+            ar& m_max_level;
         }
 #endif
     };
-- 
2.43.0


From c9ee0a05f6a6f3db7ecea443b6a729ac4887bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:19 +0000
Subject: [PATCH 29/29] fix: share out all the intervals of the domain when the
 processes do not divide them

---
 include/samurai/mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index d9c9ee1..9125587 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -717,9 +717,9 @@ namespace samurai
         */
 
         lcl_type subdomain_cells(start_level, m_domain.origin_point(), m_domain.scaling_factor());
-        auto subdomain_nb_intervals = m_domain.nb_intervals() / static_cast<std::size_t>(size);
-        auto subdomain_start        = static_cast<std::size_t>(rank) * subdomain_nb_intervals;
-        auto subdomain_end          = (static_cast<std::size_t>(rank) + 1) * subdomain_nb_intervals;
+        auto nb_intervals    = m_domain.nb_intervals();
+        auto subdomain_start = static_cast<std::size_t>(rank) * nb_intervals / static_cast<std::size_t>(size);
+        auto subdomain_end   = (static_cast<std::size_t>(rank) + 1) * nb_intervals / static_cast<std::size_t>(size);
 
         std::size_t k = 0;
         for_each_meshinterval(m_domain,
-- 
2.43.0


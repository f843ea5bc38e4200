From 50e45a348b973a5c8cede517a9b871252e51d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 01/11] fix: Tarjan, do not ignore edges to vertices which are
 still on the stack

---
 include/connectivity.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..b67f040 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<size_t> num;     // holding vertex numbers
     std::vector<size_t> lowest;  // lowest[v] : minimum number of a vertex reachable from v
     std::vector<bool> visited;   // visited so DFS has seen these vertices (not necessarily processed)
-    std::vector<bool> processed; // vertices which have been processed by DFS
+    std::vector<bool> processed; // vertices which have been assigned to an SCC (no longer on the stack)
     std::vector<size_t>
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
@@ -78,9 +78,6 @@ private:
             } // u has been visited
         }
 
-        // Now v has been processed
-        processed[v] = true;
-
         // Handle SCC if found
         if( lowest[v] == num[v] )
         {
@@ -89,12 +86,14 @@ private:
             // Pop the stack
             scc_vertex = stack.back();
             stack.pop_back();
+            processed[scc_vertex] = true; // Only vertices assigned to an SCC are done, not those still on the stack
             while( scc_vertex != v )
             {
                 scc.push_back( scc_vertex ); // Add to the SCC
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
+                processed[scc_vertex] = true;
             } // unravelling stack
             // Add the last vertex
             scc.push_back( scc_vertex );
-- 
2.43.0


From 6bcb92e0f7873a8fcdde853e2d61c30cfd63fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 02/11] fix: declare the explicit specialization of
 ActivityDrivenModel::iteration in the header

---
 include/models/ActivityDrivenModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..03d5657 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -349,6 +349,10 @@ protected:
     }
 };
 
+// Defined in ActivityDrivenModel.cpp, has to be declared before any implicit instantiation
+template<>
+void ActivityDrivenModelAbstract<ActivityAgent>::iteration();
+
 using ActivityDrivenModel = ActivityDrivenModelAbstract<ActivityAgent>;
 
 } // namespace Seldon
\ No newline at end of file
-- 
2.43.0


From bfa3ce25310539b4661c7cc8c27d9e1baa8f315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 03/11] fix: draw_unique_k_from_n, do not leave undrawn entries
 in the buffer

---
 include/util/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..08c9c03 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -58,7 +58,9 @@ inline void draw_unique_k_from_n(
     };
 
     buffer.resize( k );
-    std::sample( SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    const auto end_of_sample = std::sample(
+        SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    buffer.erase( end_of_sample, buffer.end() ); // fewer than k indices might be available
 }
 
 template<typename WeightCallbackT>
-- 
2.43.0


From 552020887c24088c4f0bbd521a56db2b7a4450d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 04/11] fix: reservoir sampling, handle k > n, k = 0, n = 0 and
 items of weight zero

---
 include/util/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 08c9c03..e629164 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -67,12 +67,12 @@ template<typename WeightCallbackT>
 void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
-    if( k == 0 )
+    buffer.clear();
+    if( k == 0 || n == 0 )
         return;
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-    std::vector<size_t> reservoir( k );
     using QueueItemT = std::pair<size_t, double>;
 
     auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
@@ -91,7 +91,7 @@ void reservoir_sampling_A_ExpJ(
     {
         auto w = weight( idx );
         X -= w;
-        if( X <= 0 )
+        if( w > 0 && X <= 0 )
         {
             auto t                     = std::pow( H.top().second, w );
             auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
@@ -105,7 +105,7 @@ void reservoir_sampling_A_ExpJ(
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( size_t i = 0; i < buffer.size(); i++ )
     {
         buffer[i] = H.top().first;
         H.pop();
-- 
2.43.0


From bf650ad90df59dd0a94acb056ef14a88c25fd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 05/11] fix: parse_comma_separated_list, pass exactly one entry
 to the callback

---
 include/util/misc.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..dce68c8 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -43,14 +43,14 @@ template<typename CallbackT>
 void parse_comma_separated_list( const std::string & str, CallbackT & callback )
 {
     int idx_entry = 0;
-    auto pos_cur  = -1; // Have to initialize from -1, because we start looking one past pos_cur
+    size_t pos_cur = 0; // Start of the current entry
     while( true )
     {
-        auto pos_next = str.find( ',', pos_cur + 1 );
-        auto substr   = str.substr( pos_cur + 1, pos_next );
+        auto pos_next = str.find( ',', pos_cur );
+        auto substr   = str.substr( pos_cur, pos_next - pos_cur );
         callback( idx_entry, substr );
 
-        pos_cur = pos_next;
+        pos_cur = pos_next + 1;
         idx_entry++;
         if( pos_next == std::string::npos )
         {
-- 
2.43.0


From 7f4baff89906e8f16bc986a534b39161018e2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 06/11] fix: network_to_dot_file, handle agents without
 neighbours

---
 include/network_io.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..3826eaa 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -23,11 +23,13 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i < buffer.size(); i++ )
         {
-            row += fmt::format( "{}, ", buffer[i] );
+            row += fmt::format( "{}", buffer[i] );
+            if( i + 1 < buffer.size() )
+                row += ", ";
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From 5199670b044431bf046fa47b7ad0fbede328e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 07/11] fix: validate_settings, reject output intervals of zero

---
 src/config_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..168dce6 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,11 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    // The output intervals are used as divisors
+    if( options.output_settings.n_output_agents.has_value() )
+        check( name_and_var( options.output_settings.n_output_agents.value() ), g_zero );
+    if( options.output_settings.n_output_network.has_value() )
+        check( name_and_var( options.output_settings.n_output_network.value() ), g_zero );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From e3e837d27b51482eb06f4354972d0fc4960e9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 08/11] fix: activity driven model, reject more bots than
 agents

---
 include/models/ActivityDrivenModel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 03d5657..9234701 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -51,6 +52,11 @@ public:
               bot_opinion( settings.bot_opinion ),
               bot_homophily( settings.bot_homophily )
     {
+        if( n_bots > network.n_agents() )
+        {
+            throw std::runtime_error( "The number of bots cannot be larger than the number of agents!" );
+        }
+
         get_agents_from_power_law();
 
         if( mean_weights )
-- 
2.43.0


From 60ea3fc730486202dcd783cc57bccf5a0252a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 09/11] fix: power_law_distribution, correct the normalization
 of the pdf

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index e629164..bd0c313 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -139,7 +139,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
-- 
2.43.0


From 6cf6da1cd732e9262d8b2973bd7310b5688a257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 10/11] fix: n_edges, accumulate the total in std::size_t

---
 include/network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/network.hpp b/include/network.hpp
index 8056b62..452ef94 100644
--- a/include/network.hpp
+++ b/include/network.hpp
@@ -89,7 +89,7 @@ public:
         else
         {
             return std::transform_reduce(
-                neighbour_list.cbegin(), neighbour_list.cend(), 0, std::plus{},
+                neighbour_list.cbegin(), neighbour_list.cend(), std::size_t{ 0 }, std::plus{},
                 []( const auto & neigh_list ) { return neigh_list.size(); } );
         }
     }
-- 
2.43.0


From 0db9945930fbce0c3faf30c90dd78d1fcc168b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 11/11] fix: Deffuant model, a single agent has no second one
 to draw

---
 include/models/DeffuantModel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/models/DeffuantModel.hpp b/include/models/DeffuantModel.hpp
index 7f90baf..b7da239 100644
--- a/include/models/DeffuantModel.hpp
+++ b/include/models/DeffuantModel.hpp
@@ -52,6 +52,7 @@ public:
 
             // Pick any two agents to interact, randomly, without repetition
             draw_unique_k_from_n( std::nullopt, 2, network.n_agents(), interacting_agents, gen );
+            interacting_agents.resize( 2 ); // a single agent can only interact with itself
 
             return interacting_agents;
         }
-- 
2.43.0


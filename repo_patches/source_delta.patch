From 8328aa35fd07dc14f5bbe458b7e07662a27bb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:25 +0000
Subject: [PATCH 01/36] fix: sum phase durations and rates in their own type

---
 src/libkiter/models/Dataflow.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..5bee104 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -740,7 +740,7 @@ public :
     	reset_computation();
         VERBOSE_DATAFLOW_DEBUG(" - Add outputs for " << this->getEdgeName(c) << " coded " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
     	boost::put(boost::edge_outputs, this->getG(), c.e, l);
-    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
     	boost::put(boost::edge_total_output, this->getG(), c.e, total);
     	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeTarget(c));
     	VERBOSE_DATAFLOW_DEBUG("   -   Edge from " << this->getVertexName(this->getEdgeSource(c)) << " to " << this->getVertexName(this->getEdgeTarget(c)));
@@ -793,7 +793,7 @@ public :
        	reset_computation();
            VERBOSE_DATAFLOW_DEBUG(" - Add inputs for " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
        	boost::put(boost::edge_inputs, this->getG(), c.e, l);
-       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
        	boost::put(boost::edge_total_input, this->getG(), c.e, total);
        	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeSource(c));
        	VERBOSE_DATAFLOW_DEBUG(" - EdgeSource is " << this->getVertexName(this->getEdgeSource(c)) << " with " << q << " states");
@@ -868,7 +868,7 @@ public :
       inline  TIME_UNIT          getVertexTotalDuration    (const Vertex t)  const   {
     	  VERBOSE_ASSERT(boost::get(get(boost::vertex_phaseduration, this->getG()), t.v).size() > 0, "I take too much coffee, and this task " << getVertexName(t) <<  " - " << getVertexId(t) <<  " has no duration.");
     	  auto phasesDurations =  boost::get(get(boost::vertex_phaseduration, this->getG()), t.v);
-    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), 0);
+    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), (TIME_UNIT) 0);
       }
 
 
-- 
2.43.0


From 3ba50c76b0251f05b80d495e0cf68b2dca9d9650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 02/36] fix: symbolic execution uses consumption rates for
 inputs and never overlaps an actor without inputs

---
 src/libkiter/algorithms/throughput/actor.cpp  | 29 ++++++++++++-------
 src/libkiter/algorithms/throughput/actor.h    |  2 ++
 .../throughput/symbolic_execution.cpp         |  4 +--
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..5a0d171 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -113,6 +113,15 @@ TOKEN_UNIT Actor::getExecRate(Edge e, PHASE_INDEX p) {
   }
 }
 
+// A self-loop channel is both an input and an output of its actor, so each direction has its own accessor
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  return this->consExecRate.at(e).at(p);
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, (this->getNumExecutions() % this->consPhaseCount.at(e)) + 1);
+}
+
 EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
@@ -122,12 +131,12 @@ bool Actor::isReadyForExec(State s) {
   // Execution conditions (for given phase):
   // (1) enough room in output channel, (2) enough tokens in input channel, (3) not currently executing
   VERBOSE_DEBUG("Is Actor " << this->getId() << " ready to execute?" << std::endl);
-  bool isExecutable = true;
+  bool isExecutable = !this->isExecuting;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
-                  << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
+                  << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first)) {
       isExecutable = false;
     }
   }
@@ -137,7 +146,7 @@ bool Actor::isReadyForExec(State s) {
                     << s.getBufferSpace(e.first) << "/" << this->getExecRate(e.first)
                     << std::endl);
       // if (s.getBufferSize(e.first) - s.getTokens(e.first) < this->getExecRate(e.first)) {
-      if (s.getBufferSpace(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+      if (s.getBufferSpace(e.first) < this->getExecRate(e.first)) {
         isExecutable = false;
       }
     }
@@ -163,7 +172,7 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
@@ -195,9 +204,9 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << ": " << s.getBufferSpace(e) << "+" << this->getConsRate(e, currentPhase)
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -243,9 +252,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
-                  << this->getExecRate(e.first) << " required (p "
+                  << this->getConsRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..f8e7f05 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,8 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getConsRate(Edge e);
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..391444d 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -528,12 +528,12 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
                     << sourceId << "->" << targetId
                     << "):" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getTokens(e) << " tokens available, "
-                    << actorMap[targetId].getExecRate(e) << " required (p "
+                    << actorMap[targetId].getConsRate(e) << " required (p "
                     << actorMap[targetId].getPhase(e) << ")" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
                     << actorMap[sourceId].getExecRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
-- 
2.43.0


From 8a788b44c7fb6dd483b9c356f42b5d95d91281d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 03/36] fix: cycle ratio bound no longer hides a self-loop
 ratio nor leaks as a result

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 8bf9fb5..1520066 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -188,9 +188,8 @@ namespace boost {
         	VERBOSE_INFO("HOWARD FINSH at iteration " << k << " / " << MAX_ITERATION);
         }
 
-        const float_t eps_ =  -FloatTraits::epsilon() * cmp_props_t::multiplier;
-
-        if (m_cmp(mcr, mcr_bound() + eps_))
+        // an epsilon would be absorbed by a large bound
+        if (!m_cmp(mcr_bound(), mcr))
           {
         	VERBOSE_ERROR("UNKNOWN HOWARD ERROR : mcr = " << mcr << " bound = " << m_bound  << " first bound = " << mcr_bound());
         	//VERBOSE_FAILURE();
@@ -231,7 +230,9 @@ namespace boost {
               }
           }
 
-        return  cmp_props_t::multiplier * (s / cz);
+        // strictly worse than any cycle ratio: with (s / cz) alone, the ratio of a single
+        // self-loop would be mistaken for the absence of cycles
+        return  cmp_props_t::multiplier * (2 * (s / cz) + 1);
       }
 
 
-- 
2.43.0


From 830e985317533eb0ec6823e6eafb0fc03c17b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:42 +0000
Subject: [PATCH 04/36] fix: linear-program schedules use the K-periodic period
 and firing order

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 2075db0..fd50463 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -254,7 +254,7 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
         ARRAY_INDEX vid   = dataflow->getVertexId(t);
     	const EXEC_COUNT periodicity_factor = kvector.at(t);
 
-		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA / (TIME_UNIT) ( (TIME_UNIT) dataflow->getNi(t) / (TIME_UNIT) periodicity_factor );
+		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA * (TIME_UNIT) (dataflow->getPhasesQuantity(t) * periodicity_factor) / (TIME_UNIT) dataflow->getNi(t);
 
 		// Collect init starting times
 		for(EXEC_COUNT a = 1; a <= dataflow->getInitPhasesQuantity(t) ; a++) {
@@ -264,8 +264,8 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
 		}
 
 		// Collect periodic starting times
-		for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
-			for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+		for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+			for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
 				auto starting_time_col_str = START_COL_STR(vname,a,k);
 				auto starting_time = g.getValue(starting_time_col_str);
 				res_schedule[vid].periodic_starts.second.push_back(starting_time);
-- 
2.43.0


From 42ea27a7ea4660d35a95ba7e12455fdb595fb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:42 +0000
Subject: [PATCH 05/36] fix: ASAP schedule splits initial and periodic firings
 at the recurrent state

---
 .../algorithms/throughput/symbolic_execution.cpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 391444d..86a3d09 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -597,6 +597,11 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
   std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[state 0 starts], [state 1 ...]]}
   std::map<ARRAY_INDEX, std::vector<TIME_UNIT>> state_start = {};  //{task idx : [ starts]},
 
+  // first window of starts: what happens before the first recorded state
+  {ForEachTask(dataflow, task) {
+      starts[dataflow->getVertexId(task)].push_back({});
+    }}
+
   // initialise actors
   std::map<ARRAY_INDEX, Actor> actorMap;
   {ForEachTask(dataflow, t) {
@@ -685,7 +690,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
                 static_task_schedule_t initials;
                 periodic_task_schedule_t periodics;
                 for(std::size_t i = 0; i < starts[dataflow->getVertexId(task)].size(); ++i){
-                  if (i < periodic_state_idx){ //initials
+                  if (i <= (std::size_t) periodic_state_idx){ //initials: window i ends with state i
                     initials.insert(initials.end(),starts[dataflow->getVertexId(task)][i].begin(),starts[dataflow->getVertexId(task)][i].end());
                     continue;
                   } 
@@ -704,11 +709,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
             }
 
           } else {
-            if (starts[dataflow->getVertexId(t)].size() == 0){
-              starts[dataflow->getVertexId(t)].push_back({curr_step}); //push into current state's task start list
-            } else {
-              starts[dataflow->getVertexId(t)].back().push_back(curr_step);
-            }
+            starts[dataflow->getVertexId(t)].back().push_back(curr_step); //push into current state's task start list
           }
         }
       }}
-- 
2.43.0


From a86d83a14570cf27063b2641282e44128daf5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:25 +0000
Subject: [PATCH 06/36] fix: cycle enumeration starts from an empty result and
 follows sparse identifiers

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index a819f21..df99537 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -49,7 +49,9 @@ void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameter
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
-  while (start_id <= dataflow->getVerticesCount()) {
+  simple_cycles.clear();
+  dfs_stack.clear();
+  while (true) { // ids may be sparse: stop when no cycle is left
     models::Dataflow* subgraph = generate_subgraph(dataflow, start_id); // subgraph excludes all vertices less than the specified starting ID
     std::map<int, std::vector<ARRAY_INDEX>> scc_map = algorithms::computeSCCKosaraju(subgraph);
     // find the SCC that contains the vertex with the smallest ID
-- 
2.43.0


From edda04235080caaf65e34322e4dce860fdf670b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:25 +0000
Subject: [PATCH 07/36] fix: forget cached channel gcds when the dataflow is
 edited

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 5bee104..0ddf78d 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -311,7 +311,7 @@ public :
 	void set_normalize() {normalizationisdone = true;}
 	void set_repetition_vector() {repetitionvectorisdone = true;}
 
-	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
+	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; channelGCDA.clear(); }
 
 	bool is_read_only() const {return readonly;}
 	bool is_normalized() const {return normalizationisdone ;}
-- 
2.43.0


From 8b1a5d613be632d487f069d0c3fda26a55d16acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:15 +0000
Subject: [PATCH 08/36] fix: Howard's improvement test respects the precision
 of the distances

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 1520066..6f7219d 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -468,9 +468,9 @@ namespace boost {
                 for (boost::tie(oei, oeie) = out_edges(*vi, m_g); oei != oeie; ++oei)
                   {
                     vertex_t t = target(*oei, m_g);
-                    //Current distance from *vi to some vertex
+                    //Current distance from *vi to some vertex, compared up to its own precision
                     float_t dis_ = m_ew1m[*oei] - m_ew2m[*oei] * cr + m_dm[t];
-                    if ( m_cmp(m_dm[*vi] - eps_* EPSILON_IMPROVE_RATIO , dis_) )
+                    if ( m_cmp(m_dm[*vi] - eps_* EPSILON_IMPROVE_RATIO * (1 + std::abs(m_dm[*vi])), dis_) )
                       {
                         improve_policy(*vi, *oei);
                         m_dm[*vi] = dis_;
-- 
2.43.0


From 0a5124db6dd5ddba718e4c32dff7ceffda74504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:10 +0000
Subject: [PATCH 09/36] fix: event graph iteration macros no longer read past
 the last element

---
 src/libkiter/models/EventGraph.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libkiter/models/EventGraph.h b/src/libkiter/models/EventGraph.h
index 49942fe..77fdff6 100644
--- a/src/libkiter/models/EventGraph.h
+++ b/src/libkiter/models/EventGraph.h
@@ -134,8 +134,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         std::pair<models::EventGraphEdgeIterator,models::EventGraphEdgeIterator> p##res = g->getConstraints();  \
         p##count = p##res.first;                                                               \
         p##_end = p##res.second;                                                               \
-        if (p##count != p##_end)  p = *(p##count);                                             \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end && (p = *(p##count), true); ++p##count)
 
 
 #define ForEachEvent(g,p)                                                                      \
@@ -144,8 +143,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         std::pair<models::EventGraphVertexIterator,models::EventGraphVertexIterator> p##res = g->getEvents();  \
         p##count = p##res.first;                                                               \
         p##_end = p##res.second;                                                               \
-        if (p##count != p##_end)  p = *(p##count);                                             \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end && (p = *(p##count), true); ++p##count)
 
 #define ForEachInputs(g,parent,p)                                                                        \
         models::EventGraphEdge p;                                                                                \
@@ -153,8 +151,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         std::pair<models::EventGraphInEdgeIterator,models::EventGraphInEdgeIterator> p##res =  g->getInputs(parent);     \
         p##count = p##res.first;                                                                         \
         p##_end = p##res.second;                                                                         \
-        if (p##count != p##_end)  p = *(p##count);                                                       \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end && (p = *(p##count), true); ++p##count)
 
 
 #define ForEachOutputs(g,parent,p)                                                                        \
@@ -163,8 +160,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         std::pair<models::EventGraphOutEdgeIterator,models::EventGraphOutEdgeIterator> p##res =  g->getOutputs(parent);     \
         p##count = p##res.first;                                                                         \
         p##_end = p##res.second;                                                                         \
-        if (p##count != p##_end)  p = *(p##count);                                                       \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end && (p = *(p##count), true); ++p##count)
 
 #define NULL_EventGraphVertex    ((models::EventGraphVertex)boost::graph_traits<models::BoostEventGraph>::null_vertex())
 #define NULL_EventGraphEdge     ((models::EventGraphEdge)boost::detail::edge_desc_impl<boost::bidirectional_tag,models::EventGraphVertex>())
-- 
2.43.0


From 2d9529f42163d4f43cd9cbf913baf984df63dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:27 +0000
Subject: [PATCH 10/36] fix: printed durations keep their value

---
 src/libkiter/commons/commons.h        | 8 ++++++++
 src/libkiter/printers/SDF3Wrapper.cpp | 2 +-
 src/libkiter/printers/stdout.cpp      | 4 ++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/commons/commons.h b/src/libkiter/commons/commons.h
index f5e88ec..715ca43 100644
--- a/src/libkiter/commons/commons.h
+++ b/src/libkiter/commons/commons.h
@@ -350,6 +350,14 @@ template<typename T>
      return stream.str();
 }
 
+/* Text of a time value that reads back as the same value. */
+inline std::string timeToString(const TIME_UNIT t)
+{
+     std::ostringstream stream;
+     stream << std::setprecision(std::numeric_limits<TIME_UNIT>::digits10) << t;
+     return stream.str();
+}
+
 template<typename T, typename Q>
     std::string toString(const std::pair<T,Q>& v)
 {
diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 4dd1997..604377c 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -50,7 +50,7 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 			if ((std::floor(v)==std::ceil(v))) {
 				s << (unsigned long) (v) ;
 			} else {
-				s << commons::toString(v);
+				s << commons::timeToString(v);
 			}
 		}
 		return s.str();
diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 94428d7..ce7a84a 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -151,7 +151,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string init_duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= init_phase_count ; phase++) {
 			  if (phase > 1)  init_duration_string += ",";
-			  init_duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexInitDuration(t,phase));
+			  init_duration_string += commons::timeToString(dataflow->getVertexInitDuration(t,phase));
 		  }
 		  init_duration_string = "{" + init_duration_string + "}";
 		  returnStream << " new_graph->setVertexInitDuration(new_vertex," << init_duration_string << ");" << std::endl;
@@ -159,7 +159,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= phase_count ; phase++) {
 			  if (phase > 1)  duration_string += ",";
-			  duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexDuration(t,phase));
+			  duration_string += commons::timeToString(dataflow->getVertexDuration(t,phase));
 		  }
 		  duration_string = "{" + duration_string + "}";
 
-- 
2.43.0


From 8daedd0b4d07da3c7357c16d9cf22c36ac25d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 11/36] fix: buffer exploration stops once the target
 throughput is reached

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index aca9037..8f0fab5 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -392,7 +392,7 @@ bool StorageDistributionSet::hasStorageDistribution(StorageDistribution checkDis
 // Check if DSE completion conditions have been met
 bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
                                               TIME_UNIT target_thr) {
-  /* search is complete when the max throughput has been found and there
+  /* search is complete when the target throughput has been reached and there
      isn't any more storage distributions of the same distribution size
      left to check */
   VERBOSE_DSE("Checking if search is complete:" << std::endl);
@@ -405,7 +405,8 @@ bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
               << std::endl);
   VERBOSE_DSE("\tHow many SDs left in checklist? " << checklist.getSize()
               << std::endl);
-  return ((commons::AreSame(this->p_max.second, target_thr) &&
+  return (((this->p_max.second > target_thr ||
+            commons::AreSame(this->p_max.second, target_thr)) &&
           (!checklist.hasDistribution(this->p_max.first))) ||
           (checklist.getSize() <= 0)); // also end when we're out of distributions to check
 }
-- 
2.43.0


From 494ef34dd7d4e295ba213147161cb81b2b9ca902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:30 +0000
Subject: [PATCH 12/36] fix: lower bound of channel sizes holds for channels
 with several phases

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 41 ++++++++-----------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index 8f0fab5..7988b6b 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -856,36 +856,27 @@ void findMinimumChannelSz(models::Dataflow *dataflow,
   VERBOSE_DSE("Calculating minimal channel sizes (for postive throughput)..." << std::endl);
 
   {ForEachEdge(dataflow, c) {
-      // initialise channel size to maximum int size
       minChannelSizes[c].first = dataflow->getPreload(c); // set initial tokens according to dataflow graph TODO look into why I didn't originally do this
-      minChannelSizes[c].second = INT_MAX; // NOTE (should use ULONG_MAX but it's a really large value)
-      TOKEN_UNIT ratePeriod = (TOKEN_UNIT) std::gcd(dataflow->getEdgeInPhasesCount(c),
-                                                            dataflow->getEdgeOutPhasesCount(c));
-
-      for (TOKEN_UNIT i = 0; i < ratePeriod; i++) {
+      TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
+      TOKEN_UNIT lowerBound = 0;
+      if (dataflow->getEdgeInPhasesCount(c) == 1 && dataflow->getEdgeOutPhasesCount(c) == 1) {
         // might want to change variables to p, c, and t for legibility
-        TOKEN_UNIT tokensProduced = dataflow->getEdgeInVector(c)[i % dataflow->getEdgeInPhasesCount(c)];
-        TOKEN_UNIT tokensConsumed = dataflow->getEdgeOutVector(c)[i % dataflow->getEdgeOutPhasesCount(c)];
-        TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
+        TOKEN_UNIT tokensProduced = dataflow->getEdgeInVector(c)[0];
+        TOKEN_UNIT tokensConsumed = dataflow->getEdgeOutVector(c)[0];
         VERBOSE_DSE("p, c, t: " << tokensProduced << ", "
                     << tokensConsumed << ", " << tokensInitial << std::endl);
-        TOKEN_UNIT lowerBound;
-
-        if (std::gcd(tokensProduced, tokensConsumed)) {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed) +
-            tokensInitial % std::gcd(tokensProduced, tokensConsumed);
-        } else {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed);
-        }
-        lowerBound = (lowerBound > tokensInitial ? lowerBound : tokensInitial);
-
-        // take the lowest bound amongst phases of prod/cons
-        if (lowerBound < minChannelSizes[c].second) {
-          minChannelSizes[c].second = lowerBound;
-        }
+        lowerBound = tokensProduced + tokensConsumed - std::gcd(tokensProduced, tokensConsumed);
+      } else {
+        /* phases can interleave so that the buffer never holds more than what
+           one phase produces or consumes: only the largest rate is a safe bound */
+        for (auto rate : dataflow->getEdgeInVector(c)) lowerBound = std::max(lowerBound, rate);
+        for (auto rate : dataflow->getEdgeOutVector(c)) lowerBound = std::max(lowerBound, rate);
       }
+      TOKEN_UNIT step = 0; // tokens come and go by multiples of the gcd of all rates
+      for (auto rate : dataflow->getEdgeInVector(c)) step = std::gcd(step, rate);
+      for (auto rate : dataflow->getEdgeOutVector(c)) step = std::gcd(step, rate);
+      if (step) lowerBound += tokensInitial % step;
+      minChannelSizes[c].second = std::max(lowerBound, tokensInitial);
       VERBOSE_DSE("Minimum channel size for " << dataflow->getEdgeName(c)
                   << ": " << minChannelSizes[c].second << std::endl);
     }}
-- 
2.43.0


From 3e613b14817d84bd6456ba6dd0495f392e507744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 13/36] fix: periodic buffer sizings accept a missing period

---
 src/libkiter/algorithms/buffersizing/periodic.cpp       | 2 +-
 src/libkiter/algorithms/buffersizing/periodic_fixed.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 853fcbb..01c389f 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -34,11 +34,11 @@ void algorithms::compute_csdf_1periodic_memory   (models::Dataflow* const  dataf
 	  	TIME_UNIT MIN_PERIOD = 1 / result.throughput;
 
 	  	if (MIN_PERIOD) {
-	  	   	VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
 	  	   	if (period == 0) {
 	  	   	period = MIN_PERIOD;
 	  	   		VERBOSE_WARNING("PERIOD set to " << period);
 	  	   	}
+	  	   	VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
 	  	} else {
 	  		VERBOSE_ERROR ("Cannot compute the maximum period...");
 	  	}
diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 0e757bb..7fe0b0f 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -87,11 +87,11 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         TIME_UNIT MIN_PERIOD = 1 / result.throughput;
 
         if (MIN_PERIOD) {
-            VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
             if (period == 0) {
             period = MIN_PERIOD;
                 VERBOSE_WARNING("PERIOD set to " << period);
             }
+            VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
         } else {
             VERBOSE_ERROR ("Cannot compute the maximum period...");
         }
-- 
2.43.0


From 4dc3b1c827505f61f74734f791ca4f20ff2c4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 14/36] fix: an infeasible periodic sizing is not a valid empty
 one

---
 src/libkiter/algorithms/buffersizing/periodic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 01c389f..c67a2f9 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -388,7 +388,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 		return total_buffer_size;
 	} else {
 		VERBOSE_ERROR("No feasible solution");
-		return 0;
+		return BufferSizingResult();
 	}
 
 
-- 
2.43.0


From 2ee29f0d6aca0feb4ddf1c30404160f833f78622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 15/36] fix: strictly periodic sizing reports periods that no
 schedule can have as infeasible

---
 .../algorithms/buffersizing/periodic_fixed.cpp   | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 7fe0b0f..2c57b18 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -70,8 +70,6 @@ BufferSizingResult algorithms::speriodic_memory_sizing_csdf (models::Dataflow* c
 }
 
 void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataflow, parameters_list_t params) {
-        std::map<Vertex,std::vector<TIME_UNIT> > offsets;
-
         VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
 
 
@@ -101,9 +99,12 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         VERBOSE_ASSERT (period > 0, "The period must be defined");
         VERBOSE_ASSERT (period != std::numeric_limits<TIME_UNIT>::infinity(), "The period must be defined");
 
-        generateStrictlyPeriodicOffsets(dataflow,period,offsets);
-        checkOffsets(dataflow,period,offsets);
-        auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+        BufferSizingResult sizing_res = speriodic_memory_sizing_csdf(dataflow, period, solve_ilp, gen_only);
+        if (!sizing_res.is_valid()) {
+            std::cout << "No solution" << std::endl;
+            return;
+        }
+        auto total_buffer_size = sizing_res.total_size();
         std::cout << "Total buffer size : " << total_buffer_size
                     << " + 2 * " << dataflow->getVerticesCount() << " = "
                     << total_buffer_size + 2 * dataflow->getVerticesCount() << std::endl ;
@@ -216,6 +217,11 @@ bool algorithms::generateStrictlyPeriodicOffsets  (models::Dataflow * dataflow,
         VERBOSE_DEBUG("Task " << dataflow->getVertexName(pTask) << " max_k=" << max_k << " shift=" << shift);
 
         if (max_k == 1) {
+            // without auto-concurrency a firing must end before the next one starts (up to the noise of 1 / throughput)
+            if (dataflow->getReentrancyFactor(pTask) == 1 && dataflow->getVertexDuration(pTask,1) > shift * (1 + 1e-9)) {
+                VERBOSE_DEBUG(" END BECAUSE " << dataflow->getVertexDuration(pTask,1) << " > " << shift);
+                return false;
+            }
             res.at(pTask).push_back(0);
         } else {
             for (EXEC_COUNT k = 1 ; k <= max_k ; k++) {
-- 
2.43.0


From 2a65a3d998765114b37e285e7fcbe05aecb0f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 16/36] fix: MinMax offsets of a task with several phases and a
 self-loop channel

---
 src/libkiter/algorithms/buffersizing/periodic_fixed.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 2c57b18..60e483a 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -679,8 +679,8 @@ bool algorithms::generateMinMaxOffsets(models::Dataflow * dataflow, TIME_UNIT OM
 
                const TOKEN_UNIT Dainmoins = Dainppluspred +  dataflow->getEdgeOutPhase(pChannel,k);
 
-               const std::string  deltaRowName       = "delta_" + channelName + "_"+ commons::toString<EXEC_COUNT>(k);
-               const std::string  epsilonRowName     = "epsilon_" + channelName + "_"+ commons::toString<EXEC_COUNT>(k);
+               const std::string  deltaRowName       = "delta_in_" + channelName + "_"+ commons::toString<EXEC_COUNT>(k);
+               const std::string  epsilonRowName     = "epsilon_in_" + channelName + "_"+ commons::toString<EXEC_COUNT>(k);
                const std::string  deltaColumnName    = "D_" + channelName;
                const std::string  epsilonColumnName  = "E_" + channelName;
                const std::string  ctkcolumnName      = "ct_" + commons::toString<EXEC_COUNT>(k);
-- 
2.43.0


From 8006901ae03a8a808bcd60cca7ddccd57d05d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 17/36] fix: merged tasks follow whole repetitions of the
 schedule

---
 src/libkiter/algorithms/transformation/merging.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 1e883e1..f0b8983 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -377,7 +377,9 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			vertex_infos infos = it.second;
 			TIME_UNIT task_execution_time = get_next_execution_time (infos, execution_count[vid] );
 			VERBOSE_DEBUG("  - Scheduling of task " << vid << " execution count = " << execution_count[vid] << " next execution is " << task_execution_time);
-			if (task_execution_time <= next_time) {
+			// simultaneous starts must be ordered by task, not by the rounding of their computed times
+			const TIME_UNIT tolerance = (next_id < 0) ? 0 : 1e-9 * std::max<TIME_UNIT>(1, std::abs(next_time));
+			if (task_execution_time <= next_time + tolerance) {
 					next_time = task_execution_time;
 					next_id = vid;
 					VERBOSE_DEBUG("  - New next task!");
@@ -460,6 +462,12 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 			}
 
+			// The schedule of a task repeats every starts.size() executions, only whole repetitions make a valid pattern
+			if (task_periodic_execution_count[tid] % (EXEC_COUNT) infos.starts.size() != 0) {
+				need_to_continue = true;
+				VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not divisible by its scheduling pattern " << infos.starts.size() );
+			}
+
 			if (factor == 0) {
 				factor = task_periodic_execution_count[tid] / ratio;
 			}
@@ -498,6 +506,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 		} else {
 			VERBOSE_DEBUG("FAILED");
+			break; // an earlier match would skip over this different sequence
 		}
 	}
 
-- 
2.43.0


From 3f69c2bcc32f0a162b098e04df3a295eda0a4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 18/36] fix: SingleOutput keeps the initial tokens of the
 channels it splits

---
 src/libkiter/algorithms/transformation/singleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index f6b1ab8..8f862e2 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -57,9 +57,11 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 		Edge nc1 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c1));
 		dataflow->setEdgeInPhases(nc1, {1});
 		dataflow->setEdgeOutPhases(nc1, {1});
+		dataflow->setPreload(nc1, dataflow->getPreload(c1)); // initial tokens stay on the channel
 		Edge nc2 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c2));
 		dataflow->setEdgeInPhases(nc2, {1});
 		dataflow->setEdgeOutPhases(nc2, {1});
+		dataflow->setPreload(nc2, dataflow->getPreload(c2));
 
 
 		// remote the two buffer
-- 
2.43.0


From 3f0ca47a228f5ad536f641196de72c5f5126cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 19/36] fix: moduloMapping maps tasks to cores, not to routers

---
 src/libkiter/algorithms/mapping/moduloMapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/mapping/moduloMapping.cpp b/src/libkiter/algorithms/mapping/moduloMapping.cpp
index 4809eef..06cac28 100644
--- a/src/libkiter/algorithms/mapping/moduloMapping.cpp
+++ b/src/libkiter/algorithms/mapping/moduloMapping.cpp
@@ -18,7 +18,7 @@ void algorithms::mapping::moduloMapping (models::Dataflow* const  dataflow, para
 		if (params.find(dataflow->getVertexName(t)) != params.end()) {
 			dataflow->setMapping(t, commons::fromString<node_id_t> (params[dataflow->getVertexName(t)]));
 		} else {
-			node_id_t modulo_id = (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
+			node_id_t modulo_id = dataflow->getNoC().size() + (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size(); // cores come after the routers
 			dataflow->setMapping(t, modulo_id);
 		}
 	}
-- 
2.43.0


From 62410f16dd6476f3e0a8c3e701761d606fb9cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 20/36] fix: combined mapping and routing of graphs with
 parallel channels, self-loops or sparse ids

---
 src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp  | 4 ++--
 .../algorithms/mapping/bufferless_utils/GraphMapper.h         | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
index c1c6923..8ef48ee 100644
--- a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
+++ b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
@@ -133,7 +133,7 @@ void DFSUtil_PgmOrder (Vertex v, std::vector<bool>& visited, models::Dataflow* t
 		ARRAY_INDEX endid = to->getVertexId(end);
 		if(!visited[endid])
 			DFSUtil_PgmOrder(end, visited, to, removeEdgeId,cyclen_per_vtxid);
-		else if (cyclen_per_vtxid[endid].size() > 0)
+		else if (endid == myid || cyclen_per_vtxid[endid].size() > 0) // a self-loop must not hold its own task back
 			removeEdgeId.push_back(to->getEdgeId(e));
 		//else
 		//	std::cout << "Error: wrong removal of edge " << myid << "->" << endid << "\n";
@@ -144,7 +144,7 @@ void DFSUtil_PgmOrder (Vertex v, std::vector<bool>& visited, models::Dataflow* t
 //Remove the cyclic edges
 static Vertex removeCycleEdges (models::Dataflow* to, const std::vector<ARRAY_INDEX>& prog_order, const std::vector< std::vector<unsigned int> > &cyclen_per_vtxid) {
 	ARRAY_INDEX origV = to->getVerticesCount();
-	std::vector<bool> visited(origV, false);
+	std::vector<bool> visited(to->getMaxVertexId(), false);
 	std::vector<ARRAY_INDEX> removeEdgeId;
 	std::vector<ARRAY_INDEX> vertexId;
 
diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
index f33f8ed..017e3b5 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
@@ -100,6 +100,7 @@ public:
 			top = to->getVertexById(pq.top().index);
 			pq.pop();
 			if(top != start) {
+				if(visited[to->getVertexId(top)]) continue; // queued more than once (parallel edges), already mapped
 				dijkstra_mapping(top, core_mapping, noc, input, available_cores, routes);
 
 			}
-- 
2.43.0


From 19f4cb07026cfe82bde725a57f856ce04a52cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 21/36] fix: SymbolicExecutionWP splits every transfer by its
 own size and terminates

---
 src/libkiter/algorithms/symbolic_execution.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 720d7a3..0cb7506 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -164,21 +164,21 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 
 						TOKEN_UNIT datatotransfert = graph->getEdgeIn(outE);
-						if (psize == 0) psize = datatotransfert;
+						const TOKEN_UNIT packet_size = (psize > 0) ? psize : datatotransfert; // no size means a single packet
 
-						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << psize);
+						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << packet_size);
 
 
 						ARRAY_INDEX previous = compute_pid;
 
-						while (datatotransfert) {
+						while (datatotransfert > 0) {
 							packet_ids[outE] = packet_count++;
 							ARRAY_INDEX pid = packet_ids[outE] ;
 							std::vector <ARRAY_INDEX> subdeps = deps ;
 							subdeps.push_back(previous);
 							print_packet_line ( src,  dst,  0,  pid, subdeps ) ;
 							previous = pid;
-							datatotransfert -= psize;
+							datatotransfert -= packet_size;
 						}
 					}}
 
-- 
2.43.0


From 9947c2d9df74083dbcdebc3a8852cc1d9f336e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 22/36] fix: TDMA hop distance on rectangular meshes

---
 src/libkiter/algorithms/scheduling/TDMAScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
index 84ebc06..f67ea83 100644
--- a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
+++ b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
@@ -19,8 +19,8 @@
 
 	long getDistance(long src, long des, long rows, long cols)
 	{
-		long s_r = src / rows, s_c = src % cols;
-		long d_r = des / rows, d_c = des % cols;
+		long s_r = src / cols, s_c = src % cols;
+		long d_r = des / cols, d_c = des % cols;
 
 		return abs(s_r-d_r) + abs(s_c-d_c) + 1;
 	}
-- 
2.43.0


From 9af2bdc57c40ad8c6e31b992d1ec6a21ab85c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 23/36] fix: a value that joins two existing groups belongs to
 the joined group

---
 src/libkiter/commons/GroupList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/commons/GroupList.h b/src/libkiter/commons/GroupList.h
index 7d36335..6a983f0 100644
--- a/src/libkiter/commons/GroupList.h
+++ b/src/libkiter/commons/GroupList.h
@@ -57,6 +57,7 @@ public:
 			for (auto v : *_values[r]) {
 				nvec->insert(v);
 			}
+			nvec->insert(v);
 
 			_bags.erase(_values[r]);
 			delete _values[r];
-- 
2.43.0


From 13d087abdd162b4e39bbab4750c15c48f6d45235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 24/36] fix: refuse SDF3 documents with empty attributes, rates
 or execution times instead of crashing

---
 src/libkiter/printers/SDF3Wrapper.cpp | 72 +++++++++++++++------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 604377c..2901060 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -59,6 +59,11 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 
 namespace printers {
 
+/* Value of an attribute, an empty attribute has no text node. */
+static const char* attributeText (const xmlAttr* attr) {
+	return (attr->children and attr->children->content) ? (const char*) attr->children->content : "";
+}
+
 
 
 template <typename T1,typename T2>
@@ -88,6 +93,7 @@ std::vector<TOKEN_UNIT> inline stringlist2tokenlist (const std::vector<std::stri
 	for (unsigned int i = 1 ; i <= input.size() ; i++) {
 		const std::string cur = input[i-1];
 		std::vector<std::string>  cur_separated = commons::split<std::string> (cur, '*');
+		VERBOSE_ASSERT(cur_separated.size() > 0, "Rates must not have empty values. ");
 
 		TOKEN_UNIT count = (cur_separated.size() == 2) ? commons::fromString<TOKEN_UNIT>(cur_separated[0]) : 1;
 		TOKEN_UNIT value = commons::fromString<TOKEN_UNIT>(cur_separated[cur_separated.size() - 1]) ;
@@ -108,6 +114,7 @@ std::pair<std::vector<TOKEN_UNIT>,std::vector<TOKEN_UNIT>>  StringRate2Vectors (
 	std::pair<std::vector<TOKEN_UNIT>,std::vector<TOKEN_UNIT>>  res ;
 
 	std::vector<std::string>  init_periodic = commons::split<std::string> (rates, INIT_PERIODIC_SEPARATOR);
+	VERBOSE_ASSERT(init_periodic.size() > 0, "Ports must have rates. ");
 	std::vector<std::string>  init_phases = (init_periodic.size() == 2) ? commons::split<std::string> (init_periodic[0], ',') : std::vector<std::string>() ;
 	std::vector<std::string>  periodic_phases = (init_periodic.size() == 1) ? commons::split<std::string> (init_periodic[0], ',') : commons::split<std::string> (init_periodic[1], ',') ;
 
@@ -141,7 +148,7 @@ void readSDF3VertexPorts (models::Dataflow *to,xmlNodePtr taskNode) {
 	// get Vertex name
 	for (xmlAttrPtr cur_attr = taskNode->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"name") == 0) {
-			taskName = (const char*)cur_attr->children->content ;
+			taskName = attributeText(cur_attr) ;
 		}
 	}
 
@@ -158,9 +165,9 @@ void readSDF3VertexPorts (models::Dataflow *to,xmlNodePtr taskNode) {
 				std::string type,rate,name = "";
 
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
-					if (strcmp((const char*)cur_attr->name,"type") == 0) { type = (const char*)cur_attr->children->content;}
-					if (strcmp((const char*)cur_attr->name,"name") == 0) { name = (const char*)cur_attr->children->content;}
-					if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = (const char*)cur_attr->children->content;}
+					if (strcmp((const char*)cur_attr->name,"type") == 0) { type = attributeText(cur_attr);}
+					if (strcmp((const char*)cur_attr->name,"name") == 0) { name = attributeText(cur_attr);}
+					if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = attributeText(cur_attr);}
 				}
 
 				if (type == "in") {
@@ -202,7 +209,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 	// get Vertex name
 	for (xmlAttrPtr cur_attr = taskNode->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"actor") == 0) {
-			taskName = (const char*)cur_attr->children->content ;
+			taskName = attributeText(cur_attr) ;
 			break;
 		}
 	}
@@ -221,7 +228,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 				// // Get cluster
 				// for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 				// if (strcmp((const char*)cur_attr->name,"type") == 0) {
-				//         std::string cluster_string = (const char*)cur_attr->children->content ;
+				//         std::string cluster_string = attributeText(cur_attr) ;
 				//         if (cluster_string.find('_') != cluster_string.npos) {
 				//             int cluster_id = commons::fromString<int>(cluster_string.substr(cluster_string.find('_')+1,cluster_string.size() - cluster_string.find('_') - 1));
 				//             to->setVertexCuster(pVertex,models::Cluster(cluster_id));
@@ -235,7 +242,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 						if (strcmp((const char*)cur_node2->name,"executionTime") == 0) {
 							for (xmlAttrPtr cur_attr = cur_node2->properties; cur_attr; cur_attr = cur_attr->next) {
 								if (strcmp((const char*)cur_attr->name,"time") == 0) {
-									timings = (const char*)cur_attr->children->content ;
+									timings = attributeText(cur_attr) ;
 									break;
 								}
 							}
@@ -249,6 +256,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 
 
 	std::vector<std::string>  init_periodic = commons::split<std::string> (timings, INIT_PERIODIC_SEPARATOR);
+	VERBOSE_ASSERT(init_periodic.size() > 0, "Tasks must have execution times. ");
 	std::vector<std::string>  init_phases = (init_periodic.size() == 2) ? commons::splitSDF3List (init_periodic[0]) : std::vector<std::string>() ;
 	std::vector<std::string>  periodic_phases = (init_periodic.size() == 1) ? commons::splitSDF3List (init_periodic[0]) : commons::splitSDF3List (init_periodic[1]) ;
 
@@ -293,23 +301,23 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 
 	for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"srcActor") == 0) {
-			sourceName = (const char*)cur_attr->children->content;
+			sourceName = attributeText(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"dstActor") == 0) {
-			targetName = (const char*)cur_attr->children->content;
+			targetName = attributeText(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"srcPort") == 0) {
-			inPortName = (const char*)cur_attr->children->content;
+			inPortName = attributeText(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"dstPort") == 0) {
-			outPortName = (const char*)cur_attr->children->content;
+			outPortName = attributeText(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"initialTokens") == 0) {
-			preload = (const char*)cur_attr->children->content;
+			preload = attributeText(cur_attr);
 			continue;
 		}
 
@@ -334,7 +342,7 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 			if (strcmp((const char*)cur_node->name,"actor") == 0) {
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 					if (strcmp((const char*)cur_attr->name,"name") == 0) {
-						if (strcmp((const char*)cur_attr->children->content,sourceName.c_str()) == 0) {
+						if (strcmp(attributeText(cur_attr),sourceName.c_str()) == 0) {
 							// acteur source
 							for (xmlNodePtr port_node = cur_node->children; port_node; port_node = port_node->next) {
 								if (port_node->type == XML_ELEMENT_NODE) {
@@ -343,9 +351,9 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 										std::string type,rate,name = "";
 
 										for (xmlAttrPtr cur_attr = port_node->properties; cur_attr; cur_attr = cur_attr->next) {
-											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = (const char*)cur_attr->children->content;}
+											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = attributeText(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = attributeText(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = attributeText(cur_attr);}
 										}
 										if ((type == "out") && (name == inPortName)) {
 											//check rate all 1
@@ -361,7 +369,7 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 							}
 
 						}
-						if (strcmp((const char*)cur_attr->children->content,targetName.c_str()) == 0) {
+						if (strcmp(attributeText(cur_attr),targetName.c_str()) == 0) {
 							// acteur target
 							for (xmlNodePtr port_node = cur_node->children; port_node; port_node = port_node->next) {
 								if (port_node->type == XML_ELEMENT_NODE) {
@@ -370,9 +378,9 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 										std::string type,rate,name = "";
 
 										for (xmlAttrPtr cur_attr = port_node->properties; cur_attr; cur_attr = cur_attr->next) {
-											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = (const char*)cur_attr->children->content;}
+											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = attributeText(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = attributeText(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = attributeText(cur_attr);}
 										}
 										if ((type == "in") && (name == outPortName)) {
 											if (!onlyOneRate(rate)) {
@@ -454,7 +462,7 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 	for (xmlAttrPtr cur_attr = AG->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"name") == 0) {
 
-			to->setAppName((const char*)cur_attr->children->content);
+			to->setAppName(attributeText(cur_attr));
 		}
 	}
 
@@ -479,10 +487,10 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 
 	for (xmlAttrPtr cur_attr = csdf->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"name") == 0) {
-			to->setGraphName((const char*)cur_attr->children->content);
+			to->setGraphName(attributeText(cur_attr));
 		}
 		if (strcmp((const char*)cur_attr->name,"type") == 0) {
-			to->setGraphType((const char*)cur_attr->children->content);
+			to->setGraphType(attributeText(cur_attr));
 		}
 	}
 
@@ -503,11 +511,11 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 					if (strcmp((const char*)cur_attr->name,"name") == 0) {
 
-						to->setVertexName(newVertex,(const char*)cur_attr->children->content);
+						to->setVertexName(newVertex,attributeText(cur_attr));
 					}
 					if (strcmp((const char*)cur_attr->name,"type") == 0) {
 
-						to->setVertexType(newVertex,(const char*)cur_attr->children->content);
+						to->setVertexType(newVertex,attributeText(cur_attr));
 					}
 				}
 			}
@@ -529,26 +537,26 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 				preload = "0";
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 					if (strcmp((const char*)cur_attr->name,"name") == 0) {
-						bufferName = (const char*)cur_attr->children->content;
+						bufferName = attributeText(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"srcActor") == 0) {
-						sourceName = (const char*)cur_attr->children->content;
+						sourceName = attributeText(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"dstActor") == 0) {
-						targetName = (const char*)cur_attr->children->content;
+						targetName = attributeText(cur_attr);
 					}
 
 					if (strcmp((const char*)cur_attr->name,"srcPort") == 0) {
-						inPortName = (const char*)cur_attr->children->content;
+						inPortName = attributeText(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"dstPort") == 0) {
-						outPortName = (const char*)cur_attr->children->content;
+						outPortName = attributeText(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"initialTokens") == 0) {
-						preload = (const char*)cur_attr->children->content;
+						preload = attributeText(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"size") == 0) {
-						tokenSize = (const char*)cur_attr->children->content;
+						tokenSize = attributeText(cur_attr);
 					}
 				}
 
-- 
2.43.0


From 722084ea0438089bf510e82ea3a23c3c3bca9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 25/36] fix: release the backtrace text with the allocator that
 made it

---
 src/libkiter/commons/verbose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/verbose.cpp b/src/libkiter/commons/verbose.cpp
index 0f52c22..5b78abf 100644
--- a/src/libkiter/commons/verbose.cpp
+++ b/src/libkiter/commons/verbose.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <execinfo.h>
+#include <cstdlib>
 #include <commons/verbose.h>
 #include <iostream>
 #include <set>
@@ -44,7 +45,7 @@ void print_trace( const char *file, int line )
         std::cerr << "    " <<  stack_strings[i] << std::endl;
     }
     std::cerr << RESET_COLOR;
-    delete(stack_strings); // malloc()ed by backtrace_symbols
+    free(stack_strings); // malloc()ed by backtrace_symbols
    // fflush(out);
 }
 
-- 
2.43.0


From c163d758ed3c9e3e85e024c1f4ea208f248ce8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:35 +0000
Subject: [PATCH 26/36] fix: the link utilisation table covers every link index

---
 src/libkiter/models/NoCGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/NoCGraph.h b/src/libkiter/models/NoCGraph.h
index 394a173..86b9504 100644
--- a/src/libkiter/models/NoCGraph.h
+++ b/src/libkiter/models/NoCGraph.h
@@ -72,7 +72,7 @@ class NoCGraph
 	//std::map<int, int> getLinkUtil() { return linkUtil; }
 	std::vector<int> getLinkUtil() { return linkUtil; }
 
-	void clear() { linkUtil.resize(V*V, 0); }//linkUtil.clear(); }
+	void clear() { linkUtil.resize(V + V*V, 0); } // indexed by getMapIndex
 	void addEdge(int u, int v); 
 	void printAllPaths(int s, int d, int length);
         //void setLinkUtil(std::map<int, int> u) { linkUtil = u; }
-- 
2.43.0


From c58a2598af7226a0021f35b742a8ced495b6bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 27/36] fix: converting an empty text gives zero, not an
 uninitialised value

---
 src/libkiter/commons/commons.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/commons/commons.h b/src/libkiter/commons/commons.h
index 715ca43..ae2ad72 100644
--- a/src/libkiter/commons/commons.h
+++ b/src/libkiter/commons/commons.h
@@ -321,7 +321,7 @@ template<class T>
     T fromString(const std::string& s)
 {
      std::istringstream stream (s);
-     T t;
+     T t = T(); // an empty text leaves the value untouched
      stream >> t;
      return t;
 }
-- 
2.43.0


From 445ef392295563a362576f1d5d22fa9555ba241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 28/36] fix: the strictly periodic self constraint names no
 channel

---
 src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp b/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp
index ff19a04..d52a28a 100644
--- a/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp
+++ b/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp
@@ -27,7 +27,7 @@ models::EventGraph* algorithms::generate_csdf_strictly_periodic_event_graph (con
 		TIME_UNIT w = 1.0 /  dataflow->getNi(t) ; // We assume GetNi returns phit*qt
 		auto exec_times = dataflow->getVertexPhaseDuration(t);
 		TIME_UNIT d = *std::max_element(exec_times.begin(), exec_times.end());
-		models::SchedulingEventConstraint sec (tid2event.at(tid), tid2event.at(tid),  w, d, tid);
+		models::SchedulingEventConstraint sec (tid2event.at(tid), tid2event.at(tid),  w, d, 0); // not due to a channel
 		eg->addEventConstraint(sec);
 	}
 
-- 
2.43.0


From b1472aad6bbf46dbaee480da32aae0747d6fe549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 29/36] fix: the granularity of a channel counts its initial
 rates

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 043becb..57461bc 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -537,13 +537,17 @@ void algorithms::generateKPeriodicConstraint(const models::Dataflow * const data
 	const EXEC_COUNT  maxki        = kValues->at(source) ;
 	const EXEC_COUNT  maxkj        = kValues->at(target) ;
 
-	TOKEN_UNIT mop     =  commons::floor(dataflow->getPreload(c),dataflow->getFineGCD(c));
+	// The initial rates move tokens too, they count in the granularity of the channel
+	TOKEN_UNIT stepa   = dataflow->getFineGCD(c);
+	for (EXEC_COUNT p = 1; p <= source_init_phase_count ; p++ ) stepa = std::gcd(stepa, dataflow->getEdgeInInitPhase(c,p));
+	for (EXEC_COUNT p = 1; p <= target_init_phase_count ; p++ ) stepa = std::gcd(stepa, dataflow->getEdgeOutInitPhase(c,p));
+
+	TOKEN_UNIT mop     =  commons::floor(dataflow->getPreload(c),stepa);
 
 	const TOKEN_UNIT  Wc        =  dataflow->getEdgeIn(c) * maxki;
 	const TOKEN_UNIT  Rc        =  dataflow->getEdgeOut(c) * maxkj;
 
 	const TOKEN_UNIT  gcdz       = std::gcd<TOKEN_UNIT>((Wc),(Rc));
-	const TOKEN_UNIT  stepa      = dataflow->getFineGCD(c);
 
 	TOKEN_UNIT normdapkm1 = 0;
 	TOKEN_UNIT normdapk   = 0;
-- 
2.43.0


From 9183df411b6a6523759448268c2e3c0fdd1b7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 30/36] fix: the first reentrancy constraint lasts the first
 initial phase

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 57461bc..327b15e 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -642,9 +642,9 @@ void algorithms::generateKperiodicSelfloop (const models::Dataflow * const dataf
 	VERBOSE_KPERIODIC_DEBUG("generate reentrancy loops for task " <<  dataflow->getVertexId(t) << " with ki=" << ki);
 
 	EXEC_COUNT pq = dataflow->getPhasesQuantity(t);
-	TIME_UNIT lti = timefactor * dataflow->getVertexDuration(t,1);
 	EXEC_COUNT i = 1;
 	EXEC_COUNT p = 1 - dataflow->getInitPhasesQuantity(t);
+	TIME_UNIT lti = timefactor * dataflow->getVertexDuration(t,p);
 
 	models::EventGraphVertex source_event = g->getEventGraphVertex(task_id,p,i);
 	models::EventGraphVertex target_event = g->getEventGraphVertex(task_id,p,i);
-- 
2.43.0


From 03802e08de05ca130b061e3570ec74b6608b5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 31/36] fix: updating the event graph leaves other tasks alone
 when a task has initial phases

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 327b15e..f278d18 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -427,7 +427,7 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 		if (ki < newki) {
 			ARRAY_INDEX task_id= dataflow->getVertexId(source);
 			for (PHASE_INDEX p = 1 - dataflow->getInitPhasesQuantity(source) ; p <= dataflow->getPhasesQuantity(source) ; p++) {
-				for(EXEC_COUNT k = 1 ; k <= ki ; k++) {
+				for(EXEC_COUNT k = 1 ; k <= (p < 1 ? 1 : ki) ; k++) { // an initial phase is one event
 					g->removeConnectedEdges(g->getEventGraphVertex(task_id,p,k));
 				}
 			}
-- 
2.43.0


From e81d020f6c1159fa0e6823fdca69a8c7646d037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 32/36] fix: initial phases start once in a periodic schedule

---
 .../scheduling/CSDF_KPeriodicScheduling.cpp      | 16 ++++++++--------
 src/libkiter/algorithms/throughput/kperiodic.cpp |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
index 7a5dad4..0a19c96 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
@@ -78,18 +78,18 @@ models::Scheduling algorithms::scheduling::CSDF_1PeriodicScheduling (const model
  	TIME_UNIT omega = 1.0 / res ;
  	eg->computeStartingTimeWithOmega (omega);
 
- 	{ForEachEvent(eg,e) {
- 	        models::SchedulingEvent se = eg->getEvent(e);
- 	        ARRAY_INDEX ti = se.getTaskId();
- 	        TIME_UNIT start = eg->getStartingTime(e);
- 	        Vertex v = dataflow->getVertexById(ti);
+ 	{ForEachVertex(dataflow,v) {
+ 	        ARRAY_INDEX ti = dataflow->getVertexId(v);
  	        TIME_UNIT period = kvector[v] *  dataflow->getPhasesQuantity(v) * omega / dataflow->getNi(v);
 
  	        scheduling_result[ti].periodic_starts.first = period;
- 	        scheduling_result[ti].periodic_starts.second.push_back(start);
 
- 	        //sheduling_result[v].first = period;
- 	        //sheduling_result[v].second.push_back(start);
+ 	        // the initial phases (0, -1, ...) run once, before the periodic ones
+ 	        for (EXEC_COUNT pi = 1 - dataflow->getInitPhasesQuantity(v) ; pi <= dataflow->getPhasesQuantity(v) ; pi++) {
+ 	            TIME_UNIT start = eg->getStartingTime(eg->getEventGraphVertex(ti, pi, 1));
+ 	            if (pi < 1) scheduling_result[ti].initial_starts.push_back(start);
+ 	            else        scheduling_result[ti].periodic_starts.second.push_back(start);
+ 	        }
  	    }}
 
  	return models::Scheduling(dataflow, omega, scheduling_result, critical_edges);
diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index f278d18..525b78d 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -191,17 +191,17 @@ scheduling_t period2scheduling (const models::Dataflow* const dataflow,  const p
 		EXEC_COUNT ipq = dataflow->getInitPhasesQuantity(v);
 		auto maxki = kvector.at(v);
 
-		auto first_pi = 1 - ipq;
-
 		TIME_UNIT period = (kvector.at(v) *  dataflow->getPhasesQuantity(v) * omega) / dataflow->getNi(v);
 		scheduling_result[dataflow->getVertexId(v)].periodic_starts.first = period;
 
 		for (EXEC_COUNT ki = 1  ; ki <= maxki ; ki++) {
+			auto first_pi = (ki == 1) ? 1 - ipq : 1; // the initial phases run once
 			for (EXEC_COUNT pi = first_pi ; pi <=pq ; pi++)  {
 				auto se = eg->getEventGraphVertex(tid,pi,ki);
 
 				TIME_UNIT start = eg->getStartingTime(se);
-				scheduling_result[tid].periodic_starts.second.push_back( start );
+				if (pi < 1) scheduling_result[tid].initial_starts.push_back( start );
+				else scheduling_result[tid].periodic_starts.second.push_back( start );
 				VERBOSE_KPERIODIC_DEBUG("  - Start ki=" << ki << " pi=" << pi << " se=" << se << ":" << start  );
 
 			}
-- 
2.43.0


From 61129ada6895267a7ee7a6bc64e0a81d5457f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 33/36] fix: initial rates that do not match the execution
 times are refused

A port with initial rates on a consuming task without initial execution
times was accepted, and evaluations then read durations that do not exist.
---
 src/libkiter/printers/SDF3Wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 2901060..d124383 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -129,6 +129,7 @@ std::pair<std::vector<TOKEN_UNIT>,std::vector<TOKEN_UNIT>>  StringRate2Vectors (
 void                        readSDF3OutputSpec      (models::Dataflow *to, const Edge c, const std::string rates) {
 	auto cons = StringRate2Vectors (rates) ;
 	VERBOSE_ASSERT(cons.second.size() > 0, "Edges output rates must have a periodic pattern. ");
+	VERBOSE_ASSERT((EXEC_COUNT) cons.first.size() == to->getInitPhasesQuantity(to->getEdgeTarget(c)), "Edges output rates must have as many initial phases as the execution times of their task. ");
 	to->setEdgeOutInitPhases(c,cons.first);
 	to->setEdgeOutPhases(c,cons.second);
 }
@@ -136,6 +137,7 @@ void                        readSDF3OutputSpec      (models::Dataflow *to, const
 void                        readSDF3InputSpec      (models::Dataflow *to, const Edge c, const std::string rates) {
 	auto prod = StringRate2Vectors (rates) ;
 	VERBOSE_ASSERT(prod.second.size() > 0, "Edges input rates must have a periodic pattern. ");
+	VERBOSE_ASSERT((EXEC_COUNT) prod.first.size() == to->getInitPhasesQuantity(to->getEdgeSource(c)), "Edges input rates must have as many initial phases as the execution times of their task. ");
 	to->setEdgeInInitPhases(c,prod.first);
 	to->setEdgeInPhases(c,prod.second);
 }
-- 
2.43.0


From d1d600e85b74f128f71ac024a9d37f2948ea955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 34/36] fix: buffer space exploration accepts channel ids with
 gaps

---
 src/libkiter/algorithms/dse/dse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index 7cfcc21..0a13dda 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -106,6 +106,13 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
         dataflow_prime->setEdgeName(new_edge,
                                     dataflow_prime->getEdgeName(c) + "_prime");
       }}
+    // the search tells original channels (ids 1..n) from feedback ones (ids n+1..2n) by their ids,
+    // which may have gaps in the input graph: renumber, past the ids in use first
+    ARRAY_INDEX unusedId = dataflow_prime->getMaxEdgeId();
+    {ForEachEdge(dataflow_prime, c) { unusedId = std::max(unusedId, dataflow_prime->getEdgeId(c) + 1); }}
+    {ForEachEdge(dataflow_prime, c) { dataflow_prime->setEdgeId(c, unusedId++); }}
+    ARRAY_INDEX compactId = 1;
+    {ForEachEdge(dataflow_prime, c) { dataflow_prime->setEdgeId(c, compactId++); }}
   }
 
 
-- 
2.43.0


From 19f81bd515707ec7c8d3cd60afa9a9ceb743d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 35/36] fix: map and route accepts task ids with gaps

---
 .../mapping/BufferlessNoCMapAndRoute.cpp      | 17 ++++++--------
 .../mapping/bufferless_utils/GraphMapper.h    | 23 +++++++++++--------
 .../mapping/bufferless_utils/SCCFinder.h      | 10 ++++----
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
index 8ef48ee..301ddcb 100644
--- a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
+++ b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
@@ -191,7 +191,7 @@ static Vertex removeCycleEdges (models::Dataflow* to, const std::vector<ARRAY_IN
 }
 
 //Process the graph for DFS, etc. in this function
-static std::map<int, route_t> graphProcessing(const models::Dataflow* const dataflow,  NoCGraph * noc) {
+static std::map<ARRAY_INDEX, route_t> graphProcessing(const models::Dataflow* const dataflow,  NoCGraph * noc) {
 
 	VERBOSE_INFO("Starting graphProcessing.");
 
@@ -264,7 +264,7 @@ static std::map<int, route_t> graphProcessing(const models::Dataflow* const data
 
 
 	algorithms::GraphMapper mapper = algorithms::GraphMapper(finder.getcyclen_per_vtxid());
-	std::map<int, route_t> routes = mapper.taskAndNoCMapping(dataflow, to2, start, noc);
+	std::map<ARRAY_INDEX, route_t> routes = mapper.taskAndNoCMapping(dataflow, to2, start, noc);
 
 
 
@@ -280,16 +280,13 @@ static std::map<int, route_t> graphProcessing(const models::Dataflow* const data
 
 }
 
-static std::map<int, std::vector<Edge>> generateEdgesMap(models::Dataflow* dataflow, NoCGraph* noc) {
-	std::map<int, std::vector<Edge>> edge_list;
+static std::map<ARRAY_INDEX, std::vector<Edge>> generateEdgesMap(models::Dataflow* dataflow) {
+	std::map<ARRAY_INDEX, std::vector<Edge>> edge_list;
 	{ForEachEdge(dataflow,e) {
 		auto v1 = dataflow->getEdgeSource(e);
 		auto v2 = dataflow->getEdgeTarget(e);
 
-		int v1_i = (int)dataflow->getVertexId(v1);
-		int v2_i = (int)dataflow->getVertexId(v2);
-
-		int index = noc->getMapIndex(v1_i, v2_i);
+		ARRAY_INDEX index = algorithms::GraphMapper::getTaskPairIndex(dataflow, dataflow->getVertexId(v1), dataflow->getVertexId(v2));
 		edge_list[index].push_back ( e );
 	}}
 	return edge_list;
@@ -326,8 +323,8 @@ void algorithms::mapping::BufferlessNoCMapAndRoute (models::Dataflow* const data
 
 	//#### do some processing to perfrom task mapping, NoC route determination
 	//####  Task to Core mapping
-	std::map<int, route_t> routes = graphProcessing(to,noc);
-	std::map<int, std::vector<Edge>> edge_list = generateEdgesMap(to,noc);
+	std::map<ARRAY_INDEX, route_t> routes = graphProcessing(to,noc);
+	std::map<ARRAY_INDEX, std::vector<Edge>> edge_list = generateEdgesMap(to);
 
 	std::map<Vertex, node_id_t> mapping;
 	std::map<Edge, std::vector <edge_id_t> > routing;
diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
index 017e3b5..717a291 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
@@ -62,12 +62,17 @@ private :
 	const std::vector< std::vector<unsigned int> >  &   cyclen_per_vtxid;
 public:
 
+	// key of the route between two tasks: task ids are unrelated to the NoC size
+	static ARRAY_INDEX getTaskPairIndex(const models::Dataflow* d, ARRAY_INDEX source, ARRAY_INDEX target) {
+		return source * d->getMaxVertexId() + target;
+	}
+
 
 
 	//remove the current edge between nodes add intermediate nodes based on the path between them
-	std::map<int, route_t> taskAndNoCMapping(const models::Dataflow* input, models::Dataflow* to, Vertex start,  NoCGraph * noc) {
-		std::map<int, route_t> routes;
-		ARRAY_INDEX V = to->getVerticesCount();
+	std::map<ARRAY_INDEX, route_t> taskAndNoCMapping(const models::Dataflow* input, models::Dataflow* to, Vertex start,  NoCGraph * noc) {
+		std::map<ARRAY_INDEX, route_t> routes;
+		ARRAY_INDEX V = to->getMaxVertexId();
 		//std::priority_queue<node> pq;
 		std::function<bool(node, node)> comparator([&](node a, node b) { NodeComparator comp (cyclen_per_vtxid); return comp.lessthan(a,b); });
 
@@ -164,7 +169,7 @@ private :
 		}
 	}
 
-	int dijkstra_findPaths(int src, NoCGraph* noc, int core_considered, std::vector<int>& curr_util, std::map<int, route_t>& store_path, int storepath_id)
+	int dijkstra_findPaths(int src, NoCGraph* noc, int core_considered, std::vector<int>& curr_util, std::map<ARRAY_INDEX, route_t>& store_path, ARRAY_INDEX storepath_id)
 	{
 		if(src != -1 && core_considered != -1)
 		{
@@ -185,7 +190,7 @@ private :
 	}
 
 
-	void dijkstra_mapping(Vertex vtx, std::vector<int>& core_mapping, NoCGraph* noc, const models::Dataflow* d, std::vector<int>& avail_cores, std::map<int, route_t>& routes)
+	void dijkstra_mapping(Vertex vtx, std::vector<int>& core_mapping, NoCGraph* noc, const models::Dataflow* d, std::vector<int>& avail_cores, std::map<ARRAY_INDEX, route_t>& routes)
 	{
 		const int start_core = avail_cores[0];
 		auto index = d->getVertexId(vtx);
@@ -199,7 +204,7 @@ private :
 		}
 
 		float best_contention_l1 = -1;
-		std::map<int, route_t> best_store_path;
+		std::map<ARRAY_INDEX, route_t> best_store_path;
 		std::vector<int> best_util;
 		int core_allocated = -1;
 
@@ -209,7 +214,7 @@ private :
 			VERBOSE_DEBUG("dijk core_considered=" << core_considered);//std::cout <<  << "\n";
 			int cont_l1 = -1;
 			std::vector<int> curr_util = noc->getLinkUtil(); //get the utilization of every link in the NoC
-			std::map<int, route_t> store_path; //variable to store the route to be utilized by the (src,dest) core
+			std::map<ARRAY_INDEX, route_t> store_path; //variable to store the route to be utilized by the (src,dest) core
 			unsigned int counter = 0;
 			unsigned int pathlen = 0;
 
@@ -243,7 +248,7 @@ private :
 				Vertex source_vtx = d->getEdgeSource(e);
 				auto source = d->getVertexId(source_vtx);
 				int src_core = core_mapping[source];
-				int storepath_id = noc->getMapIndex((int)source, (int)index);
+				ARRAY_INDEX storepath_id = getTaskPairIndex(d, source, index);
 				if(src_core != -1)
 				{
 					counter++;
@@ -256,7 +261,7 @@ private :
 				Vertex target_vtx = d->getEdgeTarget(e);
 				auto target = d->getVertexId(target_vtx);
 				int tgt_core = core_mapping[target];
-				int storepath_id = noc->getMapIndex((int)index, (int)target);
+				ARRAY_INDEX storepath_id = getTaskPairIndex(d, index, target);
 				if(tgt_core != -1)
 				{
 					counter++;
diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h b/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h
index 59a8bdb..a68bda5 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h
@@ -19,7 +19,7 @@ class SCCFinder {
 
 public :
 	SCCFinder (const models::Dataflow* to) {
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId();
 		for(ARRAY_INDEX i = 0; i < V+1; i++)
 		{
 			std::set<unsigned int> temp;
@@ -33,7 +33,7 @@ public :
 	// The main function that finds and prints all strongly connected components
 		void printSCCs(const models::Dataflow* to, Vertex start)
 		{
-			ARRAY_INDEX V = to->getVerticesCount();
+			ARRAY_INDEX V = to->getMaxVertexId();
 			std::stack<Vertex> Stack;
 
 			// Mark all the vertices as not visited (For first DFS)
@@ -125,7 +125,7 @@ private :
 
 	void updateAncestorsCycle(Vertex vtx, std::set<unsigned int>& myset, const models::Dataflow* to)
 	{
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId();
 		std::vector<bool> visited(V+1, false);
 		updateAncestorsHelper(vtx, to, myset, visited);
 	}
@@ -134,7 +134,7 @@ private :
 	// DFS traversal of the vertices reachable from v. It uses recursive DFSUtil()
 	void DFS(const models::Dataflow* to, Vertex v)
 	{
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId();
 		// Mark all the vertices as not visited
 		std::vector<bool> visited(V+1, false);
 
@@ -194,7 +194,7 @@ private :
 
 	std::set<unsigned int> my_dfs_wrapper(const models::Dataflow* adj, Vertex start)
 	{
-		ARRAY_INDEX V = adj->getVerticesCount();
+		ARRAY_INDEX V = adj->getMaxVertexId();
 		std::vector<bool> visited(V+1, false);
 		std::vector<unsigned int> path;
 
-- 
2.43.0


From 2f6596a9fc4574d829d53add11d8064adeb7b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 36/36] fix: SymbExecDebug accepts channel ids with gaps

---
 .../algorithms/throughput/symbolic_execution.cpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 86a3d09..0a44bca 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -109,12 +109,15 @@ void algorithms::compute_asap_throughput_and_cycles_debug(models::Dataflow* cons
     testDistribution = param_list["SD"];
     std::stringstream parsedInput(testDistribution);
     std::string channelQuantity;
-    ARRAY_INDEX edgeId = 1; // NOTE assuming 1 indexed
+    std::set<ARRAY_INDEX> edgeIds; // the capacities are listed by increasing edge id
+    {ForEachEdge(dataflow, e) { edgeIds.insert(dataflow->getEdgeId(e)); }}
+    auto edgeId = edgeIds.begin();
+    ARRAY_INDEX capCount = 0;
     while (std::getline(parsedInput, channelQuantity, ',')) {
       try { // store channel capacities indexed by edge id
         TOKEN_UNIT tokenCap = std::stol(channelQuantity, nullptr);
-        specifiedCaps[edgeId] = tokenCap;
-        edgeId++;
+        capCount++;
+        if (edgeId != edgeIds.end()) specifiedCaps[*edgeId++] = tokenCap;
       }
       catch (const std::invalid_argument &ia) {
         VERBOSE_ERROR("Invalid argument for channel quantity (expecting long int): "
@@ -123,10 +126,10 @@ void algorithms::compute_asap_throughput_and_cycles_debug(models::Dataflow* cons
       }
 
     }
-    if (specifiedCaps.size() != dataflow->getEdgesCount()) {
+    if (capCount != dataflow->getEdgesCount()) {
       VERBOSE_ERROR("Mismatch in number of channel quantities specified --- expecting "
                     << dataflow->getEdgesCount() << ", " << "got "
-                    << specifiedCaps.size() << std::endl);
+                    << capCount << std::endl);
       return;
     }
   } else {
-- 
2.43.0


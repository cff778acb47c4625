From 299b1abaf15328775ba8bc3b7b22c487c2157074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:01 +0000
Subject: [PATCH 01/26] fix: reject an invalid gateway direction before adding
 the gateway to the diagram

---
 bpmn_python/bpmn_diagram_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..e7be201 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
                                                  + gateway_direction)
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From c70fec3d316a3e85427f1927ed5d9f4205d70446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:01 +0000
Subject: [PATCH 02/26] fix: adding a sequence flow with an unknown node leaves
 the diagram unchanged

---
 bpmn_python/bpmn_diagram_rep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index e7be201..f884ef8 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -512,6 +512,9 @@ class BpmnDiagramGraph(object):
         :param sequence_flow_name: string object. Name of sequence flow.
         :return: a tuple, where first value is sequenceFlow ID, second a reference to created object.
         """
+        # look both nodes up first: an unknown node must not leave a half-added flow behind
+        source_node = self.diagram_graph.node[source_ref_id]
+        target_node = self.diagram_graph.node[target_ref_id]
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
@@ -523,8 +526,6 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.process] = process_id
         flow[consts.Consts.source_ref] = source_ref_id
         flow[consts.Consts.target_ref] = target_ref_id
-        source_node = self.diagram_graph.node[source_ref_id]
-        target_node = self.diagram_graph.node[target_ref_id]
         flow[consts.Consts.waypoints] = \
             [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
              (target_node[consts.Consts.x], target_node[consts.Consts.y])]
-- 
2.43.0


From eeae1227f2a8d304f45fb0c4d8777e4a70fd83f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:47 +0000
Subject: [PATCH 03/26] fix: import the class model through the bpmn_python
 package, so it can be imported and all classes share one hierarchy

---
 bpmn_python/graph/classes/activities/activity_type.py       | 2 +-
 bpmn_python/graph/classes/activities/subprocess_type.py     | 6 +++---
 bpmn_python/graph/classes/activities/task_type.py           | 2 +-
 bpmn_python/graph/classes/events/catch_event_type.py        | 4 ++--
 bpmn_python/graph/classes/events/end_event_type.py          | 2 +-
 bpmn_python/graph/classes/events/event_type.py              | 2 +-
 .../graph/classes/events/intermediate_catch_event_type.py   | 2 +-
 .../graph/classes/events/intermediate_throw_event_type.py   | 2 +-
 bpmn_python/graph/classes/events/start_event_type.py        | 2 +-
 bpmn_python/graph/classes/events/throw_event_type.py        | 4 ++--
 bpmn_python/graph/classes/flow_element_type.py              | 2 +-
 .../graph/classes/gateways/exclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/gateway_type.py          | 2 +-
 .../graph/classes/gateways/inclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/parallel_gateway_type.py | 2 +-
 bpmn_python/graph/classes/lane_set_type.py                  | 4 ++--
 bpmn_python/graph/classes/lane_type.py                      | 4 ++--
 bpmn_python/graph/classes/message_flow_type.py              | 2 +-
 bpmn_python/graph/classes/participant_type.py               | 2 +-
 .../graph/classes/root_element/callable_element_type.py     | 2 +-
 .../graph/classes/root_element/event_definition_type.py     | 2 +-
 bpmn_python/graph/classes/root_element/process_type.py      | 6 +++---
 bpmn_python/graph/classes/root_element/root_element_type.py | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py             | 4 ++--
 24 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/bpmn_python/graph/classes/activities/activity_type.py b/bpmn_python/graph/classes/activities/activity_type.py
index 699a921..89b69ad 100644
--- a/bpmn_python/graph/classes/activities/activity_type.py
+++ b/bpmn_python/graph/classes/activities/activity_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tActivity of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Activity(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/activities/subprocess_type.py b/bpmn_python/graph/classes/activities/subprocess_type.py
index d527af4..de6e225 100644
--- a/bpmn_python/graph/classes/activities/subprocess_type.py
+++ b/bpmn_python/graph/classes/activities/subprocess_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tSubProcess of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class SubProcess(activity.Activity):
diff --git a/bpmn_python/graph/classes/activities/task_type.py b/bpmn_python/graph/classes/activities/task_type.py
index 56dee3d..0ab5d42 100644
--- a/bpmn_python/graph/classes/activities/task_type.py
+++ b/bpmn_python/graph/classes/activities/task_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tTask of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.activities.activity_type as activity
 
 
 class Task(activity.Activity):
diff --git a/bpmn_python/graph/classes/events/catch_event_type.py b/bpmn_python/graph/classes/events/catch_event_type.py
index 46a0ebc..f993ad5 100644
--- a/bpmn_python/graph/classes/events/catch_event_type.py
+++ b/bpmn_python/graph/classes/events/catch_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class CatchEvent(event.Event):
diff --git a/bpmn_python/graph/classes/events/end_event_type.py b/bpmn_python/graph/classes/events/end_event_type.py
index 79377e3..75c81c5 100644
--- a/bpmn_python/graph/classes/events/end_event_type.py
+++ b/bpmn_python/graph/classes/events/end_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEndEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class EndEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/event_type.py b/bpmn_python/graph/classes/events/event_type.py
index 491fb19..504823c 100644
--- a/bpmn_python/graph/classes/events/event_type.py
+++ b/bpmn_python/graph/classes/events/event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEvent of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Event(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
index 5e9b711..bcaf31e 100644
--- a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class IntermediateCatchEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
index 6276dd7..130c479 100644
--- a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class IntermediateThrowEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/start_event_type.py b/bpmn_python/graph/classes/events/start_event_type.py
index d129876..28fb25f 100644
--- a/bpmn_python/graph/classes/events/start_event_type.py
+++ b/bpmn_python/graph/classes/events/start_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tStartEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class StartEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/throw_event_type.py b/bpmn_python/graph/classes/events/throw_event_type.py
index 6b3ae4b..da7d9a4 100644
--- a/bpmn_python/graph/classes/events/throw_event_type.py
+++ b/bpmn_python/graph/classes/events/throw_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class ThrowEvent(event.Event):
diff --git a/bpmn_python/graph/classes/flow_element_type.py b/bpmn_python/graph/classes/flow_element_type.py
index 6a78189..977c952 100644
--- a/bpmn_python/graph/classes/flow_element_type.py
+++ b/bpmn_python/graph/classes/flow_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class FlowElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
index 7258dd1..02af765 100644
--- a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ExclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/gateway_type.py b/bpmn_python/graph/classes/gateways/gateway_type.py
index 119e636..b65aadd 100644
--- a/bpmn_python/graph/classes/gateways/gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tGateway of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Gateway(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
index 8995d42..2ca9876 100644
--- a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class InclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
index 1d9e143..d24bd6b 100644
--- a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParallelGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ParallelGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/lane_set_type.py b/bpmn_python/graph/classes/lane_set_type.py
index b8869f9..f68c6bb 100644
--- a/bpmn_python/graph/classes/lane_set_type.py
+++ b/bpmn_python/graph/classes/lane_set_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSetLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_type as lane
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_type as lane
 
 
 class LaneSet(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/lane_type.py b/bpmn_python/graph/classes/lane_type.py
index d61e7a2..c9c432c 100644
--- a/bpmn_python/graph/classes/lane_type.py
+++ b/bpmn_python/graph/classes/lane_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class Lane(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..fdfe72c 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tMessageFlow of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class MessageFlow(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..b87e6a0 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParticipant of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class Participant(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/root_element/callable_element_type.py b/bpmn_python/graph/classes/root_element/callable_element_type.py
index c1f1daa..f3c0819 100644
--- a/bpmn_python/graph/classes/root_element/callable_element_type.py
+++ b/bpmn_python/graph/classes/root_element/callable_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tCallableElement of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class CallableElement(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/event_definition_type.py b/bpmn_python/graph/classes/root_element/event_definition_type.py
index ef8020d..091f66d 100644
--- a/bpmn_python/graph/classes/root_element/event_definition_type.py
+++ b/bpmn_python/graph/classes/root_element/event_definition_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEventDefinition of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class EventDefinition(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/process_type.py b/bpmn_python/graph/classes/root_element/process_type.py
index a169eb7..6fdf24e 100644
--- a/bpmn_python/graph/classes/root_element/process_type.py
+++ b/bpmn_python/graph/classes/root_element/process_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tProcess of BPMN 2.0 graph
 """
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
-import graph.classes.root_element.callable_element_type as callable_element
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.root_element.callable_element_type as callable_element
 
 
 class Process(callable_element.CallableElement):
diff --git a/bpmn_python/graph/classes/root_element/root_element_type.py b/bpmn_python/graph/classes/root_element/root_element_type.py
index cf730f2..f047bea 100644
--- a/bpmn_python/graph/classes/root_element/root_element_type.py
+++ b/bpmn_python/graph/classes/root_element/root_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tRootElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class RootElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..653de83 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSequenceFlow of BPMN 2.0 graph
 """
-import graph.classes.condition_expression_type as condition_expression
-import graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.condition_expression_type as condition_expression
+import bpmn_python.graph.classes.flow_element_type as flow_element
 
 
 class SequenceFlow(flow_element.FlowElement):
-- 
2.43.0


From 9e0101263879791449ae0947666e4f03d36c6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:47 +0000
Subject: [PATCH 04/26] fix: setters of optional fields accept None as
 documented

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index fdfe72c..b6f9893 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index b87e6a0..82e1454 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 653de83..8d4ae38 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From f1bd31bae7a3fe61160d04cce074f7ec4798ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:47 +0000
Subject: [PATCH 05/26] fix: flow constructors check the type of target_ref

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index b6f9893..f4b0ebd 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 8d4ae38..29349ec 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From de471e3fc0bb2ab525100edfdd5cb1b066bd07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:40 +0000
Subject: [PATCH 06/26] fix: get_nodes_count without a type counts all nodes,
 as documented

---
 bpmn_python/bpmn_diagram_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..bfe1880 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -23,6 +23,8 @@ def get_nodes_count(bpmn_graph, node_type=None):
                       (e.g. 'task', 'sequenceFlow').
     """
 
+    if node_type is None:
+        return len(bpmn_graph.get_nodes())
     return len(bpmn_graph.get_nodes(node_type=node_type))
 
 
-- 
2.43.0


From 0ce65b302fc38b7bb65f50f417fea7aad6e3f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 07/26] fix: XML import skips comments and other non-element
 nodes

---
 bpmn_python/bpmn_diagram_import.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..47f9cb0 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -59,7 +59,7 @@ class BpmnDiagramGraphImport(object):
             participants = collaboration[consts.Consts.participants]
 
         for element in utils.BpmnImportUtils.iterate_elements(plane_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.bpmn_shape:
                     BpmnDiagramGraphImport.import_shape_di(participants, diagram_graph, element)
@@ -84,7 +84,7 @@ class BpmnDiagramGraphImport(object):
         message_flows_dict = collaboration_dict[consts.Consts.message_flows]
 
         for element in utils.BpmnImportUtils.iterate_elements(collaboration_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.participant:
                     BpmnDiagramGraphImport.import_participant_element(diagram_graph, participants_dict, element)
@@ -162,13 +162,13 @@ class BpmnDiagramGraphImport(object):
                 BpmnDiagramGraphImport.import_lane_set_element(process_attributes, lane_set, plane_element)
 
             for element in utils.BpmnImportUtils.iterate_elements(process_element):
-                if element.nodeType != element.TEXT_NODE:
+                if element.nodeType == element.ELEMENT_NODE:
                     tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                     BpmnDiagramGraphImport.__import_element_by_tag_name(diagram_graph, sequence_flows, process_id,
                                                                         process_attributes, element, tag_name)
 
             for flow in utils.BpmnImportUtils.iterate_elements(process_element):
-                if flow.nodeType != flow.TEXT_NODE:
+                if flow.nodeType == flow.ELEMENT_NODE:
                     tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(flow.tagName)
                     if tag_name == consts.Consts.sequence_flow:
                         BpmnDiagramGraphImport.import_sequence_flow_to_graph(diagram_graph, sequence_flows, process_id,
@@ -225,7 +225,7 @@ class BpmnDiagramGraphImport(object):
         lane_set_id = lane_set_element.getAttribute(consts.Consts.id)
         lanes_attr = {}
         for element in utils.BpmnImportUtils.iterate_elements(lane_set_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.lane:
                     lane = element
@@ -247,7 +247,7 @@ class BpmnDiagramGraphImport(object):
         lane_set_id = child_lane_set_element.getAttribute(consts.Consts.id)
         lanes_attr = {}
         for element in utils.BpmnImportUtils.iterate_elements(child_lane_set_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.lane:
                     lane = element
@@ -271,7 +271,7 @@ class BpmnDiagramGraphImport(object):
         child_lane_set_attr = {}
         flow_node_refs = []
         for element in utils.BpmnImportUtils.iterate_elements(lane_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.child_lane_set:
                     child_lane_set_attr = BpmnDiagramGraphImport.import_child_lane_set_element(element, plane_element)
@@ -285,7 +285,7 @@ class BpmnDiagramGraphImport(object):
 
         shape_element = None
         for element in utils.BpmnImportUtils.iterate_elements(plane_element):
-            if element.nodeType != element.TEXT_NODE and element.getAttribute(consts.Consts.bpmn_element) == lane_id:
+            if element.nodeType == element.ELEMENT_NODE and element.getAttribute(consts.Consts.bpmn_element) == lane_id:
                 shape_element = element
         if shape_element is not None:
             bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
@@ -360,7 +360,7 @@ class BpmnDiagramGraphImport(object):
         # add incoming flow node list
         incoming_list = []
         for tmp_element in utils.BpmnImportUtils.iterate_elements(flow_node_element):
-            if tmp_element.nodeType != tmp_element.TEXT_NODE:
+            if tmp_element.nodeType == tmp_element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.incoming_flow:
                     incoming_value = tmp_element.firstChild.nodeValue
@@ -370,7 +370,7 @@ class BpmnDiagramGraphImport(object):
         # add outgoing flow node list
         outgoing_list = []
         for tmp_element in utils.BpmnImportUtils.iterate_elements(flow_node_element):
-            if tmp_element.nodeType != tmp_element.TEXT_NODE:
+            if tmp_element.nodeType == tmp_element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.outgoing_flow:
                     outgoing_value = tmp_element.firstChild.nodeValue
@@ -417,13 +417,13 @@ class BpmnDiagramGraphImport(object):
         subprocess_attributes = diagram_graph.node[subprocess_id]
         subprocess_attributes[consts.Consts.node_ids] = []
         for element in utils.BpmnImportUtils.iterate_elements(subprocess_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 BpmnDiagramGraphImport.__import_element_by_tag_name(diagram_graph, sequence_flows, subprocess_id,
                                                                     subprocess_attributes, element, tag_name)
 
         for flow in utils.BpmnImportUtils.iterate_elements(subprocess_element):
-            if flow.nodeType != flow.TEXT_NODE:
+            if flow.nodeType == flow.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(flow.tagName)
                 if tag_name == consts.Consts.sequence_flow:
                     BpmnDiagramGraphImport.import_sequence_flow_to_graph(diagram_graph, sequence_flows, subprocess_id,
@@ -735,7 +735,7 @@ class BpmnDiagramGraphImport(object):
         diagram_graph[source_ref][target_ref][consts.Consts.source_ref] = source_ref
         diagram_graph[source_ref][target_ref][consts.Consts.target_ref] = target_ref
         for element in utils.BpmnImportUtils.iterate_elements(flow_element):
-            if element.nodeType != element.TEXT_NODE:
+            if element.nodeType == element.ELEMENT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
                     condition_expression = element.firstChild.nodeValue
-- 
2.43.0


From 9bcc47ef3c29fadcd66276e2ae7faee08ea254fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:20 +0000
Subject: [PATCH 08/26] fix: import event definitions in document order

---
 bpmn_python/bpmn_diagram_import.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 47f9cb0..c1c8922 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -571,13 +571,14 @@ class BpmnDiagramGraphImport(object):
         """
         element_id = element.getAttribute(consts.Consts.id)
         event_def_list = []
-        for definition_type in event_definitions:
-            event_def_xml = element.getElementsByTagNameNS("*", definition_type)
-            for index in range(len(event_def_xml)):
-                # tuple - definition type, definition id
-                event_def_tmp = {consts.Consts.id: event_def_xml[index].getAttribute(consts.Consts.id),
-                                 consts.Consts.definition_type: definition_type}
-                event_def_list.append(event_def_tmp)
+        # document order; event_definitions is a set, its iteration order depends on string hashing
+        for child in utils.BpmnImportUtils.iterate_elements(element):
+            if child.nodeType == child.ELEMENT_NODE:
+                definition_type = utils.BpmnImportUtils.remove_namespace_from_tag_name(child.tagName)
+                if definition_type in event_definitions:
+                    event_def_tmp = {consts.Consts.id: child.getAttribute(consts.Consts.id),
+                                     consts.Consts.definition_type: definition_type}
+                    event_def_list.append(event_def_tmp)
         diagram_graph.node[element_id][consts.Consts.event_definitions] = event_def_list
 
     @staticmethod
-- 
2.43.0


From 440efcdb36222c6c805a8b7b806c1b75a3f8625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:54 +0000
Subject: [PATCH 09/26] fix: export the name of a process

---
 bpmn_python/bpmn_diagram_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..198c657 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,7 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From e8d07e24f10049167b4adda7aa8e4bf789f7065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:08 +0000
Subject: [PATCH 10/26] fix: export nested lane sets as childLaneSet, which the
 import reads

---
 bpmn_python/bpmn_diagram_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 198c657..28719f2 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -250,7 +250,7 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From d94d3fac3173b5ebc75e93bc82c9fbbc02d5102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:08 +0000
Subject: [PATCH 11/26] fix: export the id of a lane set

---
 bpmn_python/bpmn_diagram_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 28719f2..f791fc5 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -238,6 +238,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        if lane_set[consts.Consts.id] != "":
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -251,6 +253,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        if child_lane_set[consts.Consts.id] != "":
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 28e802ed2ec6b1da2de4f9f3d1b42664df916797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:08 +0000
Subject: [PATCH 12/26] fix: exported conditional flow keeps its own name

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index f791fc5..a7f1636 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -399,7 +399,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if params[consts.Consts.name] == "":
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From ec5e1a591842839a1033bb561fcf4949ced59144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:28 +0000
Subject: [PATCH 13/26] fix: export one shape per participant and one edge per
 message flow

---
 bpmn_python/bpmn_diagram_export.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index a7f1636..44cffcc 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -437,6 +437,7 @@ class BpmnDiagramGraphExport(object):
         [_, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
                                                                           plane_attributes)
 
+        message_flows = {}
         if collaboration is not None and len(collaboration) > 0:
             message_flows = collaboration[consts.Consts.message_flows]
             participants = collaboration[consts.Consts.participants]
@@ -503,12 +504,16 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of participants were added with the collaboration
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
             params = flow[2]
-            BpmnDiagramGraphExport.export_flow_di_data(params, plane)
+            # edges of message flows were added with the collaboration
+            if params[consts.Consts.id] not in message_flows:
+                BpmnDiagramGraphExport.export_flow_di_data(params, plane)
 
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
-- 
2.43.0


From c276ad449de1bbfdb6319fb1aad9f4490d45dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:28 +0000
Subject: [PATCH 14/26] fix: export without DI writes each node and flow once,
 in its own process

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 44cffcc..c4da04a 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -533,7 +533,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -542,14 +541,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From 7d8af123d119852b1fc98afd678fdc591d616c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:33 +0000
Subject: [PATCH 15/26] fix: longest path visits a node with a flow to itself
 only once

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 8a138dcac14b412eb99741d94f8a7ee241ef726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:42 +0000
Subject: [PATCH 16/26] fix: inserting into an occupied grid cell moves the
 rows below it

---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From 40cb0c40cdb32a67b94af0fe7ad8f142f2132408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 17/26] fix: layout places a shared successor of several splits
 once

---
 bpmn_python/bpmn_diagram_layouter.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..05dff75 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -246,6 +246,11 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
     classification_param_name = "classification"
 
     node_id = node_with_classification[node_param_name][0]
+    if any(grid_cell.node_id == node_id for grid_cell in grid):
+        # already placed as a successor of another split
+        return grid, last_row, last_col
+    if node_with_classification in nodes_with_classification:
+        nodes_with_classification.remove(node_with_classification)
     incoming_flows = node_with_classification[node_param_name][1][consts.Consts.incoming_flow]
     outgoing_flows = node_with_classification[node_param_name][1][consts.Consts.outgoing_flow]
 
@@ -300,9 +305,9 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
         successor_node_list = [successor_node for successor_node in nodes_with_classification
                                       if successor_node[node_param_name][0] in successors_id_list]
+        num_of_successors = len(successor_node_list)
 
         if num_of_successors % 2 != 0:
             # if number of successors is even, put one half over the split, second half below
@@ -314,19 +319,14 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
-
             successor_node = successor_node_list[centre]
             (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                bpmn_graph,nodes_with_classification, current_element_row)
-            nodes_with_classification.remove(successor_node)
             for index in range(centre + 1, num_of_successors):
                 # place element below split
                 successor_node = successor_node_list[index]
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
         else:
             centre = (num_of_successors // 2)
             for index in range(0, centre):
@@ -335,8 +335,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
 
-                nodes_with_classification.remove(successor_node)
-
 
             for index in range(centre, num_of_successors):
                 # place element below split
@@ -344,8 +342,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
-
 
     return grid, last_row, last_col
 
-- 
2.43.0


From aea3eae7d7ea9735fc34819a6f1e540dbe205426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 18/26] fix: layout ends on cycles without joins

---
 bpmn_python/bpmn_diagram_layouter.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 05dff75..92a1ac1 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -186,8 +186,12 @@ def topological_sort(bpmn_graph, nodes_with_classification):
                                   if tmp_node[node_param_name][0] == target_id)
                     target[1][consts.Consts.incoming_flow].remove(flow_id)
         else:
+            has_join = any("Join" in node_with_classification[classification_param_name]
+                           for node_with_classification in tmp_nodes_with_classification)
             for node_with_classification in tmp_nodes_with_classification:
-                if "Join" in node_with_classification[classification_param_name]:
+                # a cycle without joins is opened at its first node
+                if "Join" in node_with_classification[classification_param_name] \
+                        or (not has_join and node_with_classification is tmp_nodes_with_classification[0]):
                     incoming_list = list(node_with_classification[node_param_name][1][consts.Consts.incoming_flow])
                     tmp_incoming_list = list(incoming_list)
                     for flow_id in tmp_incoming_list:
@@ -268,10 +272,16 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         flow_id = incoming_flows[0]
         flow = bpmn_graph.get_flow_by_id(flow_id)
         predecessor_id = flow[2][consts.Consts.source_ref]
-        predecessor_cell = next(grid_cell for grid_cell in grid if grid_cell.node_id == predecessor_id)
-        # insert into cell right from predecessor - no need to insert new column or row
-        current_element_col = predecessor_cell.col + 1
-        current_element_row = predecessor_cell.row
+        predecessor_cell = next((grid_cell for grid_cell in grid if grid_cell.node_id == predecessor_id), None)
+        if predecessor_cell is None:
+            # first node of a cycle without joins
+            current_element_col = last_col
+            current_element_row = last_row
+            last_row += consts.Consts.grid_column_width
+        else:
+            # insert into cell right from predecessor - no need to insert new column or row
+            current_element_col = predecessor_cell.col + 1
+            current_element_row = predecessor_cell.row
         if enforced_row_num is not None:
             insert_into_grid(grid, enforced_row_num, current_element_col, node_id)
         else:
-- 
2.43.0


From a31ce75f46a3f39c692a6431fb588fafba405f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:27 +0000
Subject: [PATCH 19/26] fix: layout covers every kind of node of a process

---
 bpmn_python/bpmn_diagram_layouter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 92a1ac1..c5286dd 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -134,6 +134,16 @@ def generate_elements_clasification(bpmn_graph):
             tmp.append(classification_split)
         nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
 
+    for element_type in [consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                         consts.Consts.boundary_event, consts.Consts.data_object]:
+        for element in bpmn_graph.get_nodes(element_type):
+            tmp = [classification_element]
+            if len(element[1][consts.Consts.incoming_flow]) >= 2:
+                tmp.append(classification_join)
+            if len(element[1][consts.Consts.outgoing_flow]) >= 2:
+                tmp.append(classification_split)
+            nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
+
     flows_classification = []
     flows_list = bpmn_graph.get_flows()
     for flow in flows_list:
-- 
2.43.0


From 5a42fec3c4e9a5f85df28b5fc0fc7fd21842fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:42 +0000
Subject: [PATCH 20/26] fix: CSV export quotes fields with commas, quotes or
 line breaks

---
 bpmn_python/bpmn_process_csv_export.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..604c8a3 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,9 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        # fields with commas, quotes or line breaks have to be quoted
+        writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            writer.writerow([export_element["Order"], export_element["Activity"], export_element["Condition"],
+                             export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From 6ded7bb86df67938af43141a41974422af2bd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:42 +0000
Subject: [PATCH 21/26] fix: CSV import reads every cell as text

Numeric or boolean activities and conditions raised AttributeError, names like "None" or "NA" were dropped.
---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..f4e9218 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -609,7 +609,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).fillna("").to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From e10bfbe4e9cfd23f447285cc5cee274cc8b7de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:57 +0000
Subject: [PATCH 22/26] fix: CSV import takes only the first element of a
 branch as split successor

Element 11 of a branch (5a11) was connected to the split gateway as well.
---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index f4e9218..824081c 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]1?)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From 26d4d578afe52155245aacc9c5349bcb2932a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:57 +0000
Subject: [PATCH 23/26] fix: CSV import merges nested splits inside their
 branch

The order of the element after a nested split (2a4 after 2a3a1) was looked up without its prefix.
---
 bpmn_python/bpmn_process_csv_import.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 824081c..2015d88 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -144,11 +144,13 @@ def get_possible_merge_continuation_successors(node_id_arg):
         possible_successors = []
         for result in re.finditer(regex_pa_merge_node_finder, node_id):
             num_let_pair = result.group(2)
-            prefix = result.group(1)
+            prefix = node_id[:result.start(2)]
             num_let_result = re.match(regex_pa_num_let, num_let_pair)
             num = num_let_result.group(1)
             inc_num = str(int(num) + 1)
             possible_successors.append(prefix + inc_num)
+        # the innermost split is merged first
+        possible_successors.reverse()
         return possible_successors
     else:
         return []
@@ -485,8 +487,8 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            merge_successor_id = next(successor_id for successor_id in possible_merge_successors
+                                      if successor_id in nodes_ids)
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From 5b3fa2433a67944c2e84d8af59f3f232e571248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:57 +0000
Subject: [PATCH 24/26] fix: CSV import keeps the name of an end event

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 2015d88..4d25522 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From e47341eac7b40ec2d689b6ef48cef769086e0875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:57 +0000
Subject: [PATCH 25/26] fix: flow created for a goto line of a CSV file has the
 condition of that line

---
 bpmn_python/bpmn_process_csv_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 4d25522..1171a1e 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -574,7 +574,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
             source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            # the flow has the condition of the goto line, not the one of its target
+            add_connection(source_node, target_node, {target_node: csv_line_dict}, diagram_graph, sequence_flows)
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From fb8e903ec0ae8359daf0dcbe1a84936ad8a7a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:52 +0000
Subject: [PATCH 26/26] fix: a goto line of a CSV file needs no line to follow
 it

---
 bpmn_python/bpmn_process_csv_import.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 1171a1e..09fcb12 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -256,6 +256,15 @@ def is_node_the_end_event(node_id, process_dict):
     return process_dict[node_id][consts.Consts.csv_terminated] == 'yes'
 
 
+def is_goto_line(csv_line_dict):
+    """
+
+    :param csv_line_dict:
+    :return:
+    """
+    return csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto")
+
+
 def add_outgoing_flow(node_id, successor_node_id, bpmn_diagram):
     """
 
@@ -472,7 +481,7 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
     nodes_ids_to_process = copy.deepcopy(nodes_ids)
     while bool(nodes_ids_to_process):
         node_id = str(nodes_ids_to_process.pop(0))
-        if is_node_the_end_event(node_id, process_dict):
+        if is_node_the_end_event(node_id, process_dict) or is_goto_line(process_dict[node_id]):
             pass
         elif is_there_sequence_continuation(node_id, nodes_ids):
             possible_sequence_successors = get_possible_sequence_continuation_successor(node_id)
@@ -571,8 +580,10 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     :param sequence_flows:
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
-        if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
-            source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
+        if is_goto_line(csv_line_dict):
+            source_node = remove_incoming_connection(order, diagram_graph, sequence_flows)
+            diagram_graph.diagram_graph.remove_node(order)
+            process_dict.pop(order, None)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
             # the flow has the condition of the goto line, not the one of its target
             add_connection(source_node, target_node, {target_node: csv_line_dict}, diagram_graph, sequence_flows)
-- 
2.43.0


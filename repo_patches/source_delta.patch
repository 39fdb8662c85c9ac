From 2b66c3baaf3d72e1a903498660e523b21e0924bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:17 +0000
Subject: [PATCH 01/44] fix: keep the direction of flows, so that A->B and B->A
 do not overwrite each other

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..7e859e8 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -21,7 +21,7 @@ class BpmnDiagramGraph(object):
 
     Fields:
 
-    * diagram_graph - networkx.Graph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
+    * diagram_graph - networkx.DiGraph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
         sequenceFlow element. Edges are identified by IDs of nodes connected by edge. IDs are passed as edge parameters,
     * sequence_flows - dictionary (associative list) of sequence flows existing in diagram.
         Key attribute is sequenceFlow ID, value is a dictionary consisting three key-value pairs: "name" (sequence flow
@@ -47,7 +47,7 @@ class BpmnDiagramGraph(object):
         """
         Default constructor, initializes object fields with new instances.
         """
-        self.diagram_graph = nx.Graph()
+        self.diagram_graph = nx.DiGraph()
         self.sequence_flows = {}
         self.process_elements = {}
         self.diagram_attributes = {}
-- 
2.43.0


From a569e4a49a901e4164a44ad3f438ba547d234e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:35 +0000
Subject: [PATCH 02/44] fix: export the name of a process

---
 bpmn_python/bpmn_diagram_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..198c657 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,7 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From e79957c0e5795c0495c916145b9acd58af297fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:39 +0000
Subject: [PATCH 03/44] fix: export nested lane sets as childLaneSet and keep
 lane set ids

---
 bpmn_python/bpmn_diagram_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 198c657..1fb1253 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -238,6 +238,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        if lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -250,7 +252,9 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        if child_lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From ed5aef0f655f2700952e8507130f7a2d36a09de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:42 +0000
Subject: [PATCH 04/44] fix: do not replace the name of a conditional sequence
 flow with its condition on export

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 1fb1253..e363345 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -399,7 +399,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if not params[consts.Consts.name]:
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From 23223ccf7fd38586a57c869821f08f0ef78276b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:05 +0000
Subject: [PATCH 05/44] fix: skip comments and processing instructions while
 importing XML

---
 bpmn_python/bpmn_import_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index a0cd3d8..5a0e393 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -26,13 +26,15 @@ class BpmnImportUtils(object):
     @staticmethod
     def iterate_elements(parent):
         """
-        Helper function that iterates over child Nodes/Elements of parent Node/Element.
+        Helper function that iterates over child Elements of parent Node/Element. Other nodes (text, comments,
+        processing instructions etc.) are skipped.
 
         :param parent: object of Element class, representing parent element.
         """
         element = parent.firstChild
         while element is not None:
-            yield element
+            if element.nodeType == element.ELEMENT_NODE:
+                yield element
             element = element.nextSibling
 
     @staticmethod
-- 
2.43.0


From f35157fa71d8a9432727db8d211d215f8663084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:08 +0000
Subject: [PATCH 06/44] fix: read the whole text content of imported XML
 elements (empty, CDATA, padded references)

---
 bpmn_python/bpmn_diagram_import.py |  8 ++++----
 bpmn_python/bpmn_import_utils.py   | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..2367c03 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -276,7 +276,7 @@ class BpmnDiagramGraphImport(object):
                 if tag_name == consts.Consts.child_lane_set:
                     child_lane_set_attr = BpmnDiagramGraphImport.import_child_lane_set_element(element, plane_element)
                 elif tag_name == consts.Consts.flow_node_ref:
-                    flow_node_ref_id = element.firstChild.nodeValue
+                    flow_node_ref_id = utils.BpmnImportUtils.get_text_content(element).strip()
                     flow_node_refs.append(flow_node_ref_id)
 
         lane_attr = {consts.Consts.id: lane_id, consts.Consts.name: lane_name,
@@ -363,7 +363,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.incoming_flow:
-                    incoming_value = tmp_element.firstChild.nodeValue
+                    incoming_value = utils.BpmnImportUtils.get_text_content(tmp_element).strip()
                     incoming_list.append(incoming_value)
         bpmn_graph.node[element_id][consts.Consts.incoming_flow] = incoming_list
 
@@ -373,7 +373,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.outgoing_flow:
-                    outgoing_value = tmp_element.firstChild.nodeValue
+                    outgoing_value = utils.BpmnImportUtils.get_text_content(tmp_element).strip()
                     outgoing_list.append(outgoing_value)
         bpmn_graph.node[element_id][consts.Consts.outgoing_flow] = outgoing_list
 
@@ -738,7 +738,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue
+                    condition_expression = utils.BpmnImportUtils.get_text_content(element)
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 5a0e393..1c3e305 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -37,6 +37,17 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_text_content(element):
+        """
+        Helper function that returns the whole text content of element. Text may be missing or split into many nodes
+        (by CDATA sections or comments).
+
+        :param element: object of Element class.
+        """
+        return ''.join(node.nodeValue for node in element.childNodes
+                       if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE))
+
     @staticmethod
     def generate_nodes_clasification(bpmn_diagram):
         """
-- 
2.43.0


From 423f6acae890bb41e9954c827c99c4bd44b609aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:26 +0000
Subject: [PATCH 07/44] fix: reject an invalid gateway direction before adding
 the gateway to diagram

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 7e859e8..91e5158 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
-                                                 + gateway_direction)
+                                                 + str(gateway_direction))
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From feb5a0b20dbd8d9250413b101e76ecd77d572cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:30 +0000
Subject: [PATCH 08/44] fix: reject a sequence flow between unknown nodes
 instead of corrupting the diagram

---
 bpmn_python/bpmn_diagram_rep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 91e5158..b013f8b 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -512,6 +512,10 @@ class BpmnDiagramGraph(object):
         :param sequence_flow_name: string object. Name of sequence flow.
         :return: a tuple, where first value is sequenceFlow ID, second a reference to created object.
         """
+        for node_id in (source_ref_id, target_ref_id):
+            if not self.diagram_graph.has_node(node_id):
+                raise bpmn_exception.BpmnPythonError("Sequence flow refers to a node that is not a part of diagram: "
+                                                     + str(node_id))
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
-- 
2.43.0


From 46d75f9edec81294d9d569bfe3d70cdaedf86e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:35 +0000
Subject: [PATCH 09/44] fix: export each element only in its own process in XML
 without DI data

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index e363345..89bbda8 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -528,7 +528,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -537,14 +536,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From b724acc23e188742e47b12ca08b9357118b2e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:00 +0000
Subject: [PATCH 10/44] fix: do not export the DI data of message flows and
 black-box participants twice

---
 bpmn_python/bpmn_diagram_export.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 89bbda8..038809a 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -450,16 +450,6 @@ class BpmnDiagramGraphExport(object):
                 message_flow.set(consts.Consts.source_ref, message_flow_attr[consts.Consts.source_ref])
                 message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
 
-                message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
-                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
-                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
-                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
-                waypoints = message_flow_params[consts.Consts.waypoints]
-                for waypoint in waypoints:
-                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
-                    waypoint_element.set(consts.Consts.x, waypoint[0])
-                    waypoint_element.set(consts.Consts.y, waypoint[1])
-
             for participant_id, participant_attr in participants.items():
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
                 participant.set(consts.Consts.id, participant_id)
@@ -503,7 +493,9 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of participants have already been exported with 'collaboration' element
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
-- 
2.43.0


From 0a839eebc1cc0782948030505a6fe29fb9e40470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:04 +0000
Subject: [PATCH 11/44] fix: set the basic node attributes of participants
 without a process

---
 bpmn_python/bpmn_diagram_import.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 2367c03..852f614 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -106,7 +106,11 @@ class BpmnDiagramGraphImport(object):
         process_ref = participant_element.getAttribute(consts.Consts.process_ref)
         if participant_element.getAttribute(consts.Consts.process_ref) == '':
             diagram_graph.add_node(participant_id)
+            diagram_graph.node[participant_id][consts.Consts.id] = participant_id
             diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
+            diagram_graph.node[participant_id][consts.Consts.node_name] = name
+            diagram_graph.node[participant_id][consts.Consts.incoming_flow] = []
+            diagram_graph.node[participant_id][consts.Consts.outgoing_flow] = []
             diagram_graph.node[participant_id][consts.Consts.process] = participant_id
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
-- 
2.43.0


From 2637ce9a2eebdb66d0b756ce26cf59cc4b6fe006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:07 +0000
Subject: [PATCH 12/44] fix: export diagrams with elements that have no DI data

---
 bpmn_python/bpmn_diagram_export.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 038809a..33d9154 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -279,6 +279,9 @@ class BpmnDiagramGraphExport(object):
                 flow_node_ref_xml = eTree.SubElement(lane_xml, consts.Consts.flow_node_ref)
                 flow_node_ref_xml.text = flow_node_ref_id
 
+        if consts.Consts.x not in lane_attr:
+            # lane without DI data
+            return
         output_element_di = eTree.SubElement(plane_element, BpmnDiagramGraphExport.bpmndi_namespace +
                                              consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
@@ -368,6 +371,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with node parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for node DI data).
         """
+        if consts.Consts.x not in params:
+            # node without DI data
+            return
         output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, node_id + "_gui")
 
@@ -410,6 +416,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with edge parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for edge DI data).
         """
+        if consts.Consts.waypoints not in params:
+            # flow without DI data
+            return
         output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
         output_flow.set(consts.Consts.id, params[consts.Consts.id] + "_gui")
         output_flow.set(consts.Consts.bpmn_element, params[consts.Consts.id])
@@ -456,6 +465,9 @@ class BpmnDiagramGraphExport(object):
                 participant.set(consts.Consts.name, participant_attr[consts.Consts.name])
                 participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
 
+                if consts.Consts.x not in participant_attr:
+                    # participant without DI data
+                    continue
                 output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace +
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
-- 
2.43.0


From 53300788538e6c087a8e22e9120287f48aed58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:24 +0000
Subject: [PATCH 13/44] fix: shift grid rows by a number when a layout cell is
 already occupied

---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From 4b097221297c70fbe5e37dbdf4e9f3b3c362ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:57 +0000
Subject: [PATCH 14/44] fix: lay out diagrams whose split successors are
 already placed in grid

---
 bpmn_python/bpmn_diagram_layouter.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..b70fd64 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -246,6 +246,9 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
     classification_param_name = "classification"
 
     node_id = node_with_classification[node_param_name][0]
+    if any(grid_cell.node_id == node_id for grid_cell in grid):
+        # node has been already placed, as a successor of a split
+        return grid, last_row, last_col
     incoming_flows = node_with_classification[node_param_name][1][consts.Consts.incoming_flow]
     outgoing_flows = node_with_classification[node_param_name][1][consts.Consts.outgoing_flow]
 
@@ -300,9 +303,10 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
+        # some of the successors (e.g. a target of a loop) may have been taken off the list before
         successor_node_list = [successor_node for successor_node in nodes_with_classification
                                       if successor_node[node_param_name][0] in successors_id_list]
+        num_of_successors = len(successor_node_list)
 
         if num_of_successors % 2 != 0:
             # if number of successors is even, put one half over the split, second half below
@@ -314,19 +318,14 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
-
             successor_node = successor_node_list[centre]
             (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                bpmn_graph,nodes_with_classification, current_element_row)
-            nodes_with_classification.remove(successor_node)
             for index in range(centre + 1, num_of_successors):
                 # place element below split
                 successor_node = successor_node_list[index]
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
         else:
             centre = (num_of_successors // 2)
             for index in range(0, centre):
@@ -335,8 +334,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
 
-                nodes_with_classification.remove(successor_node)
-
 
             for index in range(centre, num_of_successors):
                 # place element below split
@@ -344,8 +341,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
-
 
     return grid, last_row, last_col
 
-- 
2.43.0


From 9a35128be47c6403be668a3400bd552279b0d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:58 +0000
Subject: [PATCH 15/44] fix: lay out a loop that is not reachable from any
 other node instead of hanging

---
 bpmn_python/bpmn_diagram_layouter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b70fd64..e701c3d 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -186,8 +186,11 @@ def topological_sort(bpmn_graph, nodes_with_classification):
                                   if tmp_node[node_param_name][0] == target_id)
                     target[1][consts.Consts.incoming_flow].remove(flow_id)
         else:
+            # a loop that is not reachable from any other node has no join - it is entered at its first node
+            has_join = any("Join" in tmp_node[classification_param_name] for tmp_node in tmp_nodes_with_classification)
             for node_with_classification in tmp_nodes_with_classification:
-                if "Join" in node_with_classification[classification_param_name]:
+                if "Join" in node_with_classification[classification_param_name] \
+                        or (not has_join and node_with_classification is tmp_nodes_with_classification[0]):
                     incoming_list = list(node_with_classification[node_param_name][1][consts.Consts.incoming_flow])
                     tmp_incoming_list = list(incoming_list)
                     for flow_id in tmp_incoming_list:
@@ -252,8 +255,12 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
     incoming_flows = node_with_classification[node_param_name][1][consts.Consts.incoming_flow]
     outgoing_flows = node_with_classification[node_param_name][1][consts.Consts.outgoing_flow]
 
-    if len(incoming_flows) == 0:
-        # if node has no incoming flow, put it in new row
+    predecessor_in_grid = len(incoming_flows) > 0 \
+        and any(grid_cell.node_id == bpmn_graph.get_flow_by_id(incoming_flows[0])[2][consts.Consts.source_ref]
+                for grid_cell in grid)
+    if len(incoming_flows) == 0 \
+            or ("Join" not in node_with_classification[classification_param_name] and not predecessor_in_grid):
+        # if node has no incoming flow (or it is an entry of a separate loop), put it in new row
         current_element_row = last_row
         current_element_col = last_col
         if enforced_row_num:
-- 
2.43.0


From 40d5d56b86296fa44803df0548f56c6df05db418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 16/44] fix: lay out user, service and manual tasks, boundary
 events and data objects

---
 bpmn_python/bpmn_diagram_layouter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index e701c3d..d9f11cf 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -134,6 +134,16 @@ def generate_elements_clasification(bpmn_graph):
             tmp.append(classification_split)
         nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
 
+    for node_type in (consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                      consts.Consts.boundary_event, consts.Consts.data_object):
+        for element in bpmn_graph.get_nodes(node_type):
+            tmp = [classification_element]
+            if len(element[1][consts.Consts.incoming_flow]) >= 2:
+                tmp.append(classification_join)
+            if len(element[1][consts.Consts.outgoing_flow]) >= 2:
+                tmp.append(classification_split)
+            nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
+
     flows_classification = []
     flows_list = bpmn_graph.get_flows()
     for flow in flows_list:
-- 
2.43.0


From e8ae5ef2abf6c01e1bda23e42fe4ee57c88f820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 17/44] fix: count all nodes when no node type is passed

---
 bpmn_python/bpmn_diagram_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..7b669cc 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -12,7 +12,7 @@ GATEWAY_TYPES = ['inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'eve
 EVENT_TYPES = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent']
 
 
-def get_nodes_count(bpmn_graph, node_type=None):
+def get_nodes_count(bpmn_graph, node_type=""):
     """
     Gets the count of nodes of the requested type.
     If no type is provided,
-- 
2.43.0


From afbc829c7bca33009abb0ec2a64a255cffcada4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:09 +0000
Subject: [PATCH 18/44] fix: do not count a node with a self-loop twice in the
 longest path

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 2a7a9dfa371d19e005b4e1b8599392976711138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:28 +0000
Subject: [PATCH 19/44] fix: keep the names of end events imported from CSV

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..0a22ef3 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From 073e43379595686271adbbed608b2552aa944419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:32 +0000
Subject: [PATCH 20/44] fix: import CSV cells as text, so that names such as
 '1' or 'NA' are not changed

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 0a22ef3..539f4a6 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -609,7 +609,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).fillna("").to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From b93d99430254a0d7c5f414bf107cebc820a8e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:09 +0000
Subject: [PATCH 21/44] fix: do not report the id of a flow imported from CSV
 as its name

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 539f4a6..c3fc5a5 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -321,7 +321,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
             consts.Consts.id: flow_id + "_cond",
             consts.Consts.condition_expression: condition
         }
-    sequence_flows[flow_id] = {consts.Consts.name: flow_id, consts.Consts.source_ref: from_node_id,
+    sequence_flows[flow_id] = {consts.Consts.name: "", consts.Consts.source_ref: from_node_id,
                                consts.Consts.target_ref: to_node_id}
 
 
-- 
2.43.0


From eee2d11ddd6d805ce8f0d09694aa17b318553242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:13 +0000
Subject: [PATCH 22/44] fix: quote exported CSV cells that contain commas,
 quotes or line breaks

---
 bpmn_python/bpmn_process_csv_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..fc2c3c6 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,8 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            writer.writerow([export_element["Order"], export_element["Activity"], export_element["Condition"],
+                             export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From f50960923d5992301637231d5e009445d37bda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:17 +0000
Subject: [PATCH 23/44] fix: export the condition of an unnamed flow to CSV

---
 bpmn_python/bpmn_process_csv_export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index fc2c3c6..a408527 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -170,6 +170,9 @@ class BpmnDiagramGraphCsvExport(object):
                 if node_type != consts.Consts.parallel_gateway and consts.Consts.name in outgoing_flow[2] \
                         and outgoing_flow[2][consts.Consts.name] is not None:
                     condition = outgoing_flow[2][consts.Consts.name]
+                    if condition == "" and consts.Consts.condition_expression in outgoing_flow[2]:
+                        condition = outgoing_flow[2][consts.Consts.condition_expression][
+                            consts.Consts.condition_expression]
                 else:
                     condition = ""
 
-- 
2.43.0


From dbe2ea2bee78cb27a45deef6297567c0bb3765aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:01 +0000
Subject: [PATCH 24/44] fix: export the part of process after nested joins to
 CSV once and at its own level

---
 bpmn_python/bpmn_process_csv_export.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index a408527..dec153e 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -138,15 +138,7 @@ class BpmnDiagramGraphCsvExport(object):
 
         if BpmnDiagramGraphCsvExport.classification_join in node_classification and not add_join:
             # If the node is a join, then retract the recursion back to the split.
-            # In case of activity - return current node. In case of gateway - return outgoing node
-            # (we are making assumption that join has only one outgoing node)
-            if node_type == consts.Consts.task or node_type == consts.Consts.subprocess:
-                return node
-            else:
-                outgoing_flow_id = outgoing_flows[0]
-                outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
-                outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
-                return outgoing_node
+            return node
         else:
             if node_type == consts.Consts.task:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
@@ -194,9 +186,17 @@ class BpmnDiagramGraphCsvExport(object):
                         next_node = tmp_next_node
 
             if next_node is not None:
+                # In case of activity - continue with the join. In case of gateway - continue with outgoing node
+                # (we are making assumption that join has only one outgoing node). The outgoing node may be a join
+                # of an outer split - then retract the recursion further.
+                is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
+                if not is_activity:
+                    outgoing_flow_id = next_node[1][consts.Consts.outgoing_flow][0]
+                    outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
+                    next_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=True)
+                                                             who=who, add_join=is_activity)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
-- 
2.43.0


From df134c7d333ac5efae609c0c5a9d8e26693f7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:04 +0000
Subject: [PATCH 25/44] fix: import event definitions in the same order in
 every run

---
 bpmn_python/bpmn_diagram_import.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 852f614..134e994 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -600,8 +600,8 @@ class BpmnDiagramGraphImport(object):
         :param element: object representing a BPMN XML 'startEvent' element.
         """
         element_id = element.getAttribute(consts.Consts.id)
-        start_event_definitions = {'messageEventDefinition', 'timerEventDefinition', 'conditionalEventDefinition',
-                                   'escalationEventDefinition', 'signalEventDefinition'}
+        start_event_definitions = ['messageEventDefinition', 'timerEventDefinition', 'conditionalEventDefinition',
+                                   'escalationEventDefinition', 'signalEventDefinition']
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         diagram_graph.node[element_id][consts.Consts.parallel_multiple] = \
             element.getAttribute(consts.Consts.parallel_multiple) \
@@ -627,9 +627,9 @@ class BpmnDiagramGraphImport(object):
         :param element: object representing a BPMN XML 'intermediateCatchEvent' element.
         """
         element_id = element.getAttribute(consts.Consts.id)
-        intermediate_catch_event_definitions = {'messageEventDefinition', 'timerEventDefinition',
+        intermediate_catch_event_definitions = ['messageEventDefinition', 'timerEventDefinition',
                                                 'signalEventDefinition', 'conditionalEventDefinition',
-                                                'escalationEventDefinition'}
+                                                'escalationEventDefinition']
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         diagram_graph.node[element_id][consts.Consts.parallel_multiple] = \
             element.getAttribute(consts.Consts.parallel_multiple) \
@@ -651,8 +651,8 @@ class BpmnDiagramGraphImport(object):
             imported flow node,
         :param element: object representing a BPMN XML 'endEvent' element.
         """
-        end_event_definitions = {'messageEventDefinition', 'signalEventDefinition', 'escalationEventDefinition',
-                                 'errorEventDefinition', 'compensateEventDefinition', 'terminateEventDefinition'}
+        end_event_definitions = ['messageEventDefinition', 'signalEventDefinition', 'escalationEventDefinition',
+                                 'errorEventDefinition', 'compensateEventDefinition', 'terminateEventDefinition']
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         BpmnDiagramGraphImport.import_event_definition_elements(diagram_graph, element, end_event_definitions)
 
@@ -670,8 +670,8 @@ class BpmnDiagramGraphImport(object):
            imported flow node,
         :param element: object representing a BPMN XML 'intermediateThrowEvent' element.
         """
-        intermediate_throw_event_definitions = {'messageEventDefinition', 'signalEventDefinition',
-                                                'escalationEventDefinition', 'compensateEventDefinition'}
+        intermediate_throw_event_definitions = ['messageEventDefinition', 'signalEventDefinition',
+                                                'escalationEventDefinition', 'compensateEventDefinition']
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         BpmnDiagramGraphImport.import_event_definition_elements(diagram_graph, element,
                                                                 intermediate_throw_event_definitions)
@@ -691,8 +691,8 @@ class BpmnDiagramGraphImport(object):
         :param element: object representing a BPMN XML 'endEvent' element.
         """
         element_id = element.getAttribute(consts.Consts.id)
-        boundary_event_definitions = {'messageEventDefinition', 'timerEventDefinition', 'signalEventDefinition',
-                                      'conditionalEventDefinition', 'escalationEventDefinition', 'errorEventDefinition'}
+        boundary_event_definitions = ['messageEventDefinition', 'timerEventDefinition', 'signalEventDefinition',
+                                      'conditionalEventDefinition', 'escalationEventDefinition', 'errorEventDefinition']
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
 
         diagram_graph.node[element_id][consts.Consts.parallel_multiple] = \
-- 
2.43.0


From 32a1b18ca04f0a035c8bfec0085a129fb53771cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 26/44] fix: import element classes by their package name

---
 bpmn_python/graph/classes/activities/activity_type.py       | 2 +-
 bpmn_python/graph/classes/activities/subprocess_type.py     | 6 +++---
 bpmn_python/graph/classes/activities/task_type.py           | 2 +-
 bpmn_python/graph/classes/events/catch_event_type.py        | 4 ++--
 bpmn_python/graph/classes/events/end_event_type.py          | 2 +-
 bpmn_python/graph/classes/events/event_type.py              | 2 +-
 .../graph/classes/events/intermediate_catch_event_type.py   | 2 +-
 .../graph/classes/events/intermediate_throw_event_type.py   | 2 +-
 bpmn_python/graph/classes/events/start_event_type.py        | 2 +-
 bpmn_python/graph/classes/events/throw_event_type.py        | 4 ++--
 bpmn_python/graph/classes/flow_element_type.py              | 2 +-
 .../graph/classes/gateways/exclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/gateway_type.py          | 2 +-
 .../graph/classes/gateways/inclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/parallel_gateway_type.py | 2 +-
 bpmn_python/graph/classes/lane_set_type.py                  | 4 ++--
 bpmn_python/graph/classes/lane_type.py                      | 4 ++--
 bpmn_python/graph/classes/message_flow_type.py              | 2 +-
 bpmn_python/graph/classes/participant_type.py               | 2 +-
 .../graph/classes/root_element/callable_element_type.py     | 2 +-
 .../graph/classes/root_element/event_definition_type.py     | 2 +-
 bpmn_python/graph/classes/root_element/process_type.py      | 6 +++---
 bpmn_python/graph/classes/root_element/root_element_type.py | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py             | 4 ++--
 24 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/bpmn_python/graph/classes/activities/activity_type.py b/bpmn_python/graph/classes/activities/activity_type.py
index 699a921..89b69ad 100644
--- a/bpmn_python/graph/classes/activities/activity_type.py
+++ b/bpmn_python/graph/classes/activities/activity_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tActivity of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Activity(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/activities/subprocess_type.py b/bpmn_python/graph/classes/activities/subprocess_type.py
index d527af4..de6e225 100644
--- a/bpmn_python/graph/classes/activities/subprocess_type.py
+++ b/bpmn_python/graph/classes/activities/subprocess_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tSubProcess of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class SubProcess(activity.Activity):
diff --git a/bpmn_python/graph/classes/activities/task_type.py b/bpmn_python/graph/classes/activities/task_type.py
index 56dee3d..0ab5d42 100644
--- a/bpmn_python/graph/classes/activities/task_type.py
+++ b/bpmn_python/graph/classes/activities/task_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tTask of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.activities.activity_type as activity
 
 
 class Task(activity.Activity):
diff --git a/bpmn_python/graph/classes/events/catch_event_type.py b/bpmn_python/graph/classes/events/catch_event_type.py
index 46a0ebc..f993ad5 100644
--- a/bpmn_python/graph/classes/events/catch_event_type.py
+++ b/bpmn_python/graph/classes/events/catch_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class CatchEvent(event.Event):
diff --git a/bpmn_python/graph/classes/events/end_event_type.py b/bpmn_python/graph/classes/events/end_event_type.py
index 79377e3..75c81c5 100644
--- a/bpmn_python/graph/classes/events/end_event_type.py
+++ b/bpmn_python/graph/classes/events/end_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEndEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class EndEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/event_type.py b/bpmn_python/graph/classes/events/event_type.py
index 491fb19..504823c 100644
--- a/bpmn_python/graph/classes/events/event_type.py
+++ b/bpmn_python/graph/classes/events/event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEvent of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Event(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
index 5e9b711..bcaf31e 100644
--- a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class IntermediateCatchEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
index 6276dd7..130c479 100644
--- a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class IntermediateThrowEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/start_event_type.py b/bpmn_python/graph/classes/events/start_event_type.py
index d129876..28fb25f 100644
--- a/bpmn_python/graph/classes/events/start_event_type.py
+++ b/bpmn_python/graph/classes/events/start_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tStartEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class StartEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/throw_event_type.py b/bpmn_python/graph/classes/events/throw_event_type.py
index 6b3ae4b..da7d9a4 100644
--- a/bpmn_python/graph/classes/events/throw_event_type.py
+++ b/bpmn_python/graph/classes/events/throw_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class ThrowEvent(event.Event):
diff --git a/bpmn_python/graph/classes/flow_element_type.py b/bpmn_python/graph/classes/flow_element_type.py
index 6a78189..977c952 100644
--- a/bpmn_python/graph/classes/flow_element_type.py
+++ b/bpmn_python/graph/classes/flow_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class FlowElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
index 7258dd1..02af765 100644
--- a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ExclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/gateway_type.py b/bpmn_python/graph/classes/gateways/gateway_type.py
index 119e636..b65aadd 100644
--- a/bpmn_python/graph/classes/gateways/gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tGateway of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Gateway(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
index 8995d42..2ca9876 100644
--- a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class InclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
index 1d9e143..d24bd6b 100644
--- a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParallelGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ParallelGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/lane_set_type.py b/bpmn_python/graph/classes/lane_set_type.py
index b8869f9..f68c6bb 100644
--- a/bpmn_python/graph/classes/lane_set_type.py
+++ b/bpmn_python/graph/classes/lane_set_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSetLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_type as lane
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_type as lane
 
 
 class LaneSet(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/lane_type.py b/bpmn_python/graph/classes/lane_type.py
index d61e7a2..c9c432c 100644
--- a/bpmn_python/graph/classes/lane_type.py
+++ b/bpmn_python/graph/classes/lane_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class Lane(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..fdfe72c 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tMessageFlow of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class MessageFlow(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..b87e6a0 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParticipant of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class Participant(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/root_element/callable_element_type.py b/bpmn_python/graph/classes/root_element/callable_element_type.py
index c1f1daa..f3c0819 100644
--- a/bpmn_python/graph/classes/root_element/callable_element_type.py
+++ b/bpmn_python/graph/classes/root_element/callable_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tCallableElement of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class CallableElement(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/event_definition_type.py b/bpmn_python/graph/classes/root_element/event_definition_type.py
index ef8020d..091f66d 100644
--- a/bpmn_python/graph/classes/root_element/event_definition_type.py
+++ b/bpmn_python/graph/classes/root_element/event_definition_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEventDefinition of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class EventDefinition(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/process_type.py b/bpmn_python/graph/classes/root_element/process_type.py
index a169eb7..6fdf24e 100644
--- a/bpmn_python/graph/classes/root_element/process_type.py
+++ b/bpmn_python/graph/classes/root_element/process_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tProcess of BPMN 2.0 graph
 """
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
-import graph.classes.root_element.callable_element_type as callable_element
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.root_element.callable_element_type as callable_element
 
 
 class Process(callable_element.CallableElement):
diff --git a/bpmn_python/graph/classes/root_element/root_element_type.py b/bpmn_python/graph/classes/root_element/root_element_type.py
index cf730f2..f047bea 100644
--- a/bpmn_python/graph/classes/root_element/root_element_type.py
+++ b/bpmn_python/graph/classes/root_element/root_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tRootElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class RootElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..653de83 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSequenceFlow of BPMN 2.0 graph
 """
-import graph.classes.condition_expression_type as condition_expression
-import graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.condition_expression_type as condition_expression
+import bpmn_python.graph.classes.flow_element_type as flow_element
 
 
 class SequenceFlow(flow_element.FlowElement):
-- 
2.43.0


From 8d03d8b94784b1e441d12abf3026563fa4b5b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:37 +0000
Subject: [PATCH 27/44] fix: accept None as a value of optional element
 attributes

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index fdfe72c..b6f9893 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index b87e6a0..82e1454 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 653de83..8d4ae38 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From 9bc4bef8a386d03805395cee973a890f81566a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:41 +0000
Subject: [PATCH 28/44] fix: check the type of targetRef of flows

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index b6f9893..f4b0ebd 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 8d4ae38..29349ec 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From c36388e7cf91e0b66dc1626e2e8a5936c7e58df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:30 +0000
Subject: [PATCH 29/44] fix: do not connect the eleventh activity of a CSV
 branch directly to the split

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index c3fc5a5..7637959 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From 3ca8d69b4cb929ef2958c9e4dfa5f78bbbc9d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:33 +0000
Subject: [PATCH 30/44] fix: join nested branches imported from CSV at their
 own level

---
 bpmn_python/bpmn_process_csv_import.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 7637959..be95be7 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -144,7 +144,7 @@ def get_possible_merge_continuation_successors(node_id_arg):
         possible_successors = []
         for result in re.finditer(regex_pa_merge_node_finder, node_id):
             num_let_pair = result.group(2)
-            prefix = result.group(1)
+            prefix = node_id[:result.start(2)]
             num_let_result = re.match(regex_pa_num_let, num_let_pair)
             num = num_let_result.group(1)
             inc_num = str(int(num) + 1)
@@ -485,8 +485,9 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            # possible successors are ordered from the outermost to the innermost level - branch ends at the innermost one
+            merge_successor_id = next(successor_id for successor_id in reversed(possible_merge_successors)
+                                      if successor_id in nodes_ids)
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From d1fec63de3222937819d477c9e5e0fd8502bdd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:07 +0000
Subject: [PATCH 31/44] fix: quote ids and labels of elements drawn in PNG
 pictures

---
 bpmn_python/bpmn_diagram_visualizer.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 89009d6..9384b83 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -67,6 +67,17 @@ def bpmn_diagram_to_dot_file(bpmn_diagram, file_name):
     write_dot(g, file_name + ".dot")
 
 
+def quote_dot_string(value):
+    """
+    Returns the given ID or label as a quoted DOT string, so that it can contain any characters and DOT keywords
+
+    :param value: string object or None.
+    """
+    if not value:
+        return value
+    return '"' + value.replace('\\', '\\\\').replace('"', '\\"') + '"'
+
+
 def bpmn_diagram_to_png(bpmn_diagram, file_name):
     """
     Create a png picture for given diagram
@@ -79,16 +90,19 @@ def bpmn_diagram_to_png(bpmn_diagram, file_name):
 
     for node in g.nodes(data=True):
 
+        node_id = quote_dot_string(node[0])
+        node_label = quote_dot_string(node[1].get(consts.Consts.node_name))
         if node[1].get(consts.Consts.type) == consts.Consts.task:
-            n = pydotplus.Node(name=node[0], shape="box", style="rounded", label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=node_id, shape="box", style="rounded", label=node_label)
         elif node[1].get(consts.Consts.type) == consts.Consts.exclusive_gateway:
-            n = pydotplus.Node(name=node[0], shape="diamond", label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=node_id, shape="diamond", label=node_label)
         else:
-            n = pydotplus.Node(name=node[0], label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=node_id, label=node_label)
         graph.add_node(n)
 
     for edge in g.edges(data=True):
-        e = pydotplus.Edge(src=edge[0], dst=edge[1], label=edge[2].get(consts.Consts.name))
+        e = pydotplus.Edge(src=quote_dot_string(edge[0]), dst=quote_dot_string(edge[1]),
+                           label=quote_dot_string(edge[2].get(consts.Consts.name)))
         graph.add_edge(e)
 
     graph.write(file_name + ".png", format='png')
-- 
2.43.0


From ae5df9a3b7cc3d830d45151ee56f9e18c433224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 32/44] fix: import message flows after the participants they
 are connected to

---
 bpmn_python/bpmn_diagram_import.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 134e994..633e233 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -88,7 +88,12 @@ class BpmnDiagramGraphImport(object):
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.participant:
                     BpmnDiagramGraphImport.import_participant_element(diagram_graph, participants_dict, element)
-                elif tag_name == consts.Consts.message_flow:
+
+        # message flows may be connected to participants, which do not have to precede them in document
+        for element in utils.BpmnImportUtils.iterate_elements(collaboration_element):
+            if element.nodeType != element.TEXT_NODE:
+                tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
+                if tag_name == consts.Consts.message_flow:
                     BpmnDiagramGraphImport.import_message_flow_to_graph(diagram_graph, message_flows_dict, element)
 
     @staticmethod
-- 
2.43.0


From 1531f66caaf9187b99cf91179b24df0acf763259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 33/44] fix: keep the condition of a CSV goto row

---
 bpmn_python/bpmn_process_csv_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index be95be7..675f908 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -573,7 +573,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
             source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            # condition of the new connection is a condition of removed "goto" row, not of the target row
+            add_connection(source_node, target_node, {target_node: csv_line_dict}, diagram_graph, sequence_flows)
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From 723e19dec82a8d036ce79d67371af03856b1b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:44 +0000
Subject: [PATCH 34/44] fix: give nodes without DI data a size when they are
 laid out, so that they can be exported

---
 bpmn_python/bpmn_diagram_export.py   | 2 +-
 bpmn_python/bpmn_diagram_layouter.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 33d9154..f277539 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -384,7 +384,7 @@ class BpmnDiagramGraphExport(object):
         bounds.set(consts.Consts.x, params[consts.Consts.x])
         bounds.set(consts.Consts.y, params[consts.Consts.y])
         if params[consts.Consts.type] == consts.Consts.subprocess:
-            output_element_di.set(consts.Consts.is_expanded, params[consts.Consts.is_expanded])
+            output_element_di.set(consts.Consts.is_expanded, params.get(consts.Consts.is_expanded, "false"))
 
     @staticmethod
     def export_flow_process_data(params, process):
diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index d9f11cf..1aeb2cf 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -397,6 +397,9 @@ def set_coordinates_for_nodes(bpmn_graph, grid):
         cell = next(grid_cell for grid_cell in grid if grid_cell.node_id == node[0])
         node[1][consts.Consts.x] = str(cell.col * 150 + 50)
         node[1][consts.Consts.y] = str(cell.row * 100 + 50)
+        # nodes imported without DI data have no size
+        node[1].setdefault(consts.Consts.width, "100")
+        node[1].setdefault(consts.Consts.height, "100")
 
 
 def set_flows_waypoints(bpmn_graph):
-- 
2.43.0


From 0680f16ae5e3cc031f45df6ed8540358deac07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:01 +0000
Subject: [PATCH 35/44] fix: export the default flow that leads directly to a
 join as 'else' branch in CSV

---
 bpmn_python/bpmn_process_csv_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index dec153e..26f3db6 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -171,7 +171,8 @@ class BpmnDiagramGraphCsvExport(object):
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
-                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
+                         "Condition": "else" if outgoing_flow_id == default_flow_id else condition, "Who": who,
+                         "Subprocess": "", "Terminated": ""})
                 elif outgoing_flow_id == default_flow_id:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix, "else",
-- 
2.43.0


From 0211ea0fc154c3c6c275b2ebfa3fc15cc7310e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:26 +0000
Subject: [PATCH 36/44] fix: export to CSV everything after a join once, when
 branches of a nested split lead to it

---
 bpmn_python/bpmn_process_csv_export.py | 33 ++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 26f3db6..11bba34 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -11,6 +11,8 @@ import errno
 import os
 import string
 
+import networkx as nx
+
 import bpmn_python.bpmn_python_consts as consts
 import bpmn_python.bpmn_diagram_exception as bpmn_exception
 import bpmn_python.bpmn_import_utils as utils
@@ -172,7 +174,9 @@ class BpmnDiagramGraphCsvExport(object):
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
                          "Condition": "else" if outgoing_flow_id == default_flow_id else condition, "Who": who,
-                         "Subprocess": "", "Terminated": ""})
+                         "Subprocess": "", "Terminated": "", "Join": outgoing_node[0]})
+                    if outgoing_node[1][consts.Consts.type] != consts.Consts.end_event:
+                        next_node = outgoing_node
                 elif outgoing_flow_id == default_flow_id:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix, "else",
@@ -186,15 +190,24 @@ class BpmnDiagramGraphCsvExport(object):
                     if tmp_next_node is not None:
                         next_node = tmp_next_node
 
-            if next_node is not None:
+            if next_node is not None and not BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node[0],
+                                                                                        next_node[0]):
+                # Branches of this split meet at the join of an outer split - retract the recursion back to it.
+                return next_node
+            elif next_node is not None:
                 # In case of activity - continue with the join. In case of gateway - continue with outgoing node
                 # (we are making assumption that join has only one outgoing node). The outgoing node may be a join
                 # of an outer split - then retract the recursion further.
                 is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
+                goto_elements = [element for element in export_elements if element.get("Join") == next_node[0]]
                 if not is_activity:
                     outgoing_flow_id = next_node[1][consts.Consts.outgoing_flow][0]
                     outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
                     next_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
+                # "goto" elements lead to the element exported after the join (the outer one, if joins are adjacent)
+                for element in goto_elements:
+                    element["Activity"] = "goto " + prefix + str(order + 1)
+                    element["Join"] = next_node[0]
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
                                                              who=who, add_join=is_activity)
@@ -209,6 +222,22 @@ class BpmnDiagramGraphCsvExport(object):
         else:
             return None
 
+    @staticmethod
+    def is_join_of_split(bpmn_graph, split_id, join_id):
+        """
+        Checks if all flows that meet in the join (except for loops) come from the given split. If they do not, the
+        join belongs to an outer split.
+
+        :param bpmn_graph: an instance of BpmnDiagramGraph class,
+        :param split_id: string object. ID of split node,
+        :param join_id: string object. ID of join node.
+        """
+        graph = bpmn_graph.diagram_graph
+        after_join = nx.descendants(graph, join_id)
+        after_split = nx.descendants(graph.subgraph([node for node in graph if node != join_id]), split_id)
+        return all(node == split_id or node in after_split or node in after_join
+                   for node in graph.predecessors(join_id))
+
     @staticmethod
     def export_start_event(bpmn_graph, export_elements, node, nodes_classification, order=0, prefix="", condition="",
                            who=""):
-- 
2.43.0


From 86fdc2a48450a29f6bf1d06af1318df20b7a4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 37/44] fix: look up the predecessor of a laid-out node once
 (follow-up of the unreachable loop fix, layout of large diagrams was slow)

---
 bpmn_python/bpmn_diagram_layouter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 1aeb2cf..6b663c2 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -265,9 +265,10 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
     incoming_flows = node_with_classification[node_param_name][1][consts.Consts.incoming_flow]
     outgoing_flows = node_with_classification[node_param_name][1][consts.Consts.outgoing_flow]
 
-    predecessor_in_grid = len(incoming_flows) > 0 \
-        and any(grid_cell.node_id == bpmn_graph.get_flow_by_id(incoming_flows[0])[2][consts.Consts.source_ref]
-                for grid_cell in grid)
+    predecessor_in_grid = False
+    if len(incoming_flows) > 0:
+        first_predecessor_id = bpmn_graph.get_flow_by_id(incoming_flows[0])[2][consts.Consts.source_ref]
+        predecessor_in_grid = any(grid_cell.node_id == first_predecessor_id for grid_cell in grid)
     if len(incoming_flows) == 0 \
             or ("Join" not in node_with_classification[classification_param_name] and not predecessor_in_grid):
         # if node has no incoming flow (or it is an entry of a separate loop), put it in new row
-- 
2.43.0


From baa27fdf98e9568270069c4de36425bfcd87458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:33 +0000
Subject: [PATCH 38/44] fix: quote ids and attributes in DOT files, so that any
 characters are kept

---
 bpmn_python/bpmn_diagram_visualizer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 9384b83..d1da7d8 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -63,7 +63,11 @@ def bpmn_diagram_to_dot_file(bpmn_diagram, file_name):
     :param bpmn_diagram: an instance of BPMNDiagramGraph class,
     :param file_name: name of generated file.
     """
-    g = bpmn_diagram.diagram_graph
+    g = nx.DiGraph()
+    for node in bpmn_diagram.diagram_graph.nodes(data=True):
+        g.add_node(quote_dot_string(node[0]), **quote_dot_attributes(node[1]))
+    for edge in bpmn_diagram.diagram_graph.edges(data=True):
+        g.add_edge(quote_dot_string(edge[0]), quote_dot_string(edge[1]), **quote_dot_attributes(edge[2]))
     write_dot(g, file_name + ".dot")
 
 
@@ -78,6 +82,15 @@ def quote_dot_string(value):
     return '"' + value.replace('\\', '\\\\').replace('"', '\\"') + '"'
 
 
+def quote_dot_attributes(attributes):
+    """
+    Returns a copy of given attributes with all values as quoted DOT strings
+
+    :param attributes: dictionary with attributes of node or flow.
+    """
+    return dict((key, quote_dot_string(str(value))) for key, value in attributes.items())
+
+
 def bpmn_diagram_to_png(bpmn_diagram, file_name):
     """
     Create a png picture for given diagram
-- 
2.43.0


From 8f7c4374021b4803b8cfd783daee3435320422c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 39/44] fix: enter a loop that is not reachable from other
 nodes at one of its own nodes when it is laid out

---
 bpmn_python/bpmn_diagram_layouter.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 6b663c2..74750b1 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -196,11 +196,12 @@ def topological_sort(bpmn_graph, nodes_with_classification):
                                   if tmp_node[node_param_name][0] == target_id)
                     target[1][consts.Consts.incoming_flow].remove(flow_id)
         else:
-            # a loop that is not reachable from any other node has no join - it is entered at its first node
+            # a loop that is not reachable from any other node has no join - it is entered at one of its own nodes
             has_join = any("Join" in tmp_node[classification_param_name] for tmp_node in tmp_nodes_with_classification)
+            entry_node = None if has_join else find_loop_node(bpmn_graph, tmp_nodes_with_classification)
             for node_with_classification in tmp_nodes_with_classification:
                 if "Join" in node_with_classification[classification_param_name] \
-                        or (not has_join and node_with_classification is tmp_nodes_with_classification[0]):
+                        or node_with_classification is entry_node:
                     incoming_list = list(node_with_classification[node_param_name][1][consts.Consts.incoming_flow])
                     tmp_incoming_list = list(incoming_list)
                     for flow_id in tmp_incoming_list:
@@ -223,6 +224,24 @@ def topological_sort(bpmn_graph, nodes_with_classification):
     return sorted_nodes_with_classification, backward_flows
 
 
+def find_loop_node(bpmn_graph, nodes_with_classification):
+    """
+    Follows incoming flows backwards, until a node is met again
+
+    :param bpmn_graph: an instance of BPMNDiagramGraph class,
+    :param nodes_with_classification: nodes that all have exactly one incoming flow from one of them.
+    :return: a node that lies on a loop
+    """
+    nodes_by_id = dict((tmp_node["node"][0], tmp_node) for tmp_node in nodes_with_classification)
+    node_id = nodes_with_classification[0]["node"][0]
+    visited = set()
+    while node_id not in visited:
+        visited.add(node_id)
+        flow_id = nodes_by_id[node_id]["node"][1][consts.Consts.incoming_flow][0]
+        node_id = bpmn_graph.get_flow_by_id(flow_id)[2][consts.Consts.source_ref]
+    return nodes_by_id[node_id]
+
+
 def grid_layout(bpmn_graph, sorted_nodes_with_classification):
     """
 
-- 
2.43.0


From 104c70c341bb124195d13c7758e177ad9150d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 40/44] fix: sequence flow can be added to a node that was
 loaded without a shape

---
 bpmn_python/bpmn_diagram_rep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index b013f8b..de2b7cc 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -529,9 +529,11 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.target_ref] = target_ref_id
         source_node = self.diagram_graph.node[source_ref_id]
         target_node = self.diagram_graph.node[target_ref_id]
-        flow[consts.Consts.waypoints] = \
-            [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
-             (target_node[consts.Consts.x], target_node[consts.Consts.y])]
+        # nodes loaded from a file without their shapes have no position
+        if all(consts.Consts.x in node and consts.Consts.y in node for node in (source_node, target_node)):
+            flow[consts.Consts.waypoints] = \
+                [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
+                 (target_node[consts.Consts.x], target_node[consts.Consts.y])]
 
         # add target node (target_ref_id) as outgoing node from source node (source_ref_id)
         source_node[consts.Consts.outgoing_flow].append(sequence_flow_id)
-- 
2.43.0


From 6e8c2295ebba8b01ef0861710851b382bd8770a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:41 +0000
Subject: [PATCH 41/44] fix: import elements from their own parent only, not
 from extension elements, labels or nested sub-processes

---
 bpmn_python/bpmn_diagram_import.py | 19 ++++++++++---------
 bpmn_python/bpmn_import_utils.py   | 12 ++++++++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 633e233..d2988fa 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -35,15 +35,16 @@ class BpmnDiagramGraphImport(object):
 
         document = BpmnDiagramGraphImport.read_xml_file(filepath)
         # According to BPMN 2.0 XML Schema, there's only one 'BPMNDiagram' and 'BPMNPlane'
-        diagram_element = document.getElementsByTagNameNS("*", "BPMNDiagram")[0]
-        plane_element = diagram_element.getElementsByTagNameNS("*", "BPMNPlane")[0]
+        diagram_element = utils.BpmnImportUtils.get_child_elements(document.documentElement, "BPMNDiagram")[0]
+        plane_element = utils.BpmnImportUtils.get_child_elements(diagram_element, "BPMNPlane")[0]
         BpmnDiagramGraphImport.import_diagram_and_plane_attributes(diagram_attributes, plane_attributes,
                                                                    diagram_element, plane_element)
 
         BpmnDiagramGraphImport.import_process_elements(document, diagram_graph, sequence_flows, process_elements_dict,
                                                        plane_element)
 
-        collaboration_element_list = document.getElementsByTagNameNS("*", consts.Consts.collaboration)
+        collaboration_element_list = utils.BpmnImportUtils.get_child_elements(document.documentElement,
+                                                                              consts.Consts.collaboration)
         if collaboration_element_list is not None and len(collaboration_element_list) > 0:
             # Diagram has multiple pools and lanes
             collaboration_element = collaboration_element_list[0]
@@ -158,13 +159,13 @@ class BpmnDiagramGraphImport(object):
             an ID of process, value - a dictionary of process attributes,
         :param plane_element: object representing a BPMN XML 'plane' element.
         """
-        for process_element in document.getElementsByTagNameNS("*", consts.Consts.process):
+        for process_element in utils.BpmnImportUtils.get_child_elements(document.documentElement, consts.Consts.process):
             BpmnDiagramGraphImport.import_process_element(process_elements_dict, process_element)
 
             process_id = process_element.getAttribute(consts.Consts.id)
             process_attributes = process_elements_dict[process_id]
 
-            lane_set_list = process_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
+            lane_set_list = utils.BpmnImportUtils.get_child_elements(process_element, consts.Consts.lane_set)
             if lane_set_list is not None and len(lane_set_list) > 0:
                 # according to BPMN 2.0 XML Schema, there's at most one 'laneSet' element inside 'process'
                 lane_set = lane_set_list[0]
@@ -297,7 +298,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE and element.getAttribute(consts.Consts.bpmn_element) == lane_id:
                 shape_element = element
         if shape_element is not None:
-            bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
+            bounds = utils.BpmnImportUtils.get_child_elements(shape_element, "Bounds")[0]
             lane_attr[consts.Consts.is_horizontal] = shape_element.getAttribute(consts.Consts.is_horizontal)
             lane_attr[consts.Consts.width] = bounds.getAttribute(consts.Consts.width)
             lane_attr[consts.Consts.height] = bounds.getAttribute(consts.Consts.height)
@@ -581,7 +582,7 @@ class BpmnDiagramGraphImport(object):
         element_id = element.getAttribute(consts.Consts.id)
         event_def_list = []
         for definition_type in event_definitions:
-            event_def_xml = element.getElementsByTagNameNS("*", definition_type)
+            event_def_xml = utils.BpmnImportUtils.get_child_elements(element, definition_type)
             for index in range(len(event_def_xml)):
                 # tuple - definition type, definition id
                 event_def_tmp = {consts.Consts.id: event_def_xml[index].getAttribute(consts.Consts.id),
@@ -835,7 +836,7 @@ class BpmnDiagramGraphImport(object):
         :param shape_element: object representing a BPMN XML 'BPMNShape' element.
         """
         element_id = shape_element.getAttribute(consts.Consts.bpmn_element)
-        bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
+        bounds = utils.BpmnImportUtils.get_child_elements(shape_element, "Bounds")[0]
         if diagram_graph.has_node(element_id):
             node = diagram_graph.node[element_id]
             node[consts.Consts.width] = bounds.getAttribute(consts.Consts.width)
@@ -874,7 +875,7 @@ class BpmnDiagramGraphImport(object):
         :param flow_element: object representing a BPMN XML 'BPMNEdge' element.
         """
         flow_id = flow_element.getAttribute(consts.Consts.bpmn_element)
-        waypoints_xml = flow_element.getElementsByTagNameNS("*", consts.Consts.waypoint)
+        waypoints_xml = utils.BpmnImportUtils.get_child_elements(flow_element, consts.Consts.waypoint)
         length = len(waypoints_xml)
 
         waypoints = [None] * length
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 1c3e305..606bd70 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -37,6 +37,18 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_child_elements(parent, tag_name):
+        """
+        Helper function that returns a list of child Elements with given tag name (without namespace). Elements nested
+        deeper (e.g. bounds of a label or content of extension elements) do not belong to parent and are skipped.
+
+        :param parent: object of Element or Document class, representing parent element,
+        :param tag_name: string with tag name.
+        """
+        return [element for element in BpmnImportUtils.iterate_elements(parent)
+                if BpmnImportUtils.remove_namespace_from_tag_name(element.tagName) == tag_name]
+
     @staticmethod
     def get_text_content(element):
         """
-- 
2.43.0


From e9d71f4cc27ffd869964f19fbdb0c509a90070e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:12 +0000
Subject: [PATCH 42/44] fix: export user, service and manual tasks to CSV

---
 bpmn_python/bpmn_import_utils.py       | 6 ++++++
 bpmn_python/bpmn_process_csv_export.py | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 606bd70..7287318 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -136,6 +136,12 @@ class BpmnImportUtils(object):
             classification_labels = [classification_element]
             BpmnImportUtils.split_join_classification(element, classification_labels, nodes_classification)
 
+        for node_type in (consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                          consts.Consts.boundary_event, consts.Consts.data_object):
+            for element in bpmn_diagram.get_nodes(node_type):
+                classification_labels = [classification_element]
+                BpmnImportUtils.split_join_classification(element, classification_labels, nodes_classification)
+
         return nodes_classification
 
     @staticmethod
diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 11bba34..58fcd18 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -25,7 +25,7 @@ class BpmnDiagramGraphCsvExport(object):
     Class that provides implementation of exporting process to CSV functionality
     """
     gateways_list = ["exclusiveGateway", "inclusiveGateway", "parallelGateway"]
-    tasks_list = ["task", "subProcess"]
+    tasks_list = ["task", "userTask", "serviceTask", "manualTask", "subProcess"]
 
     classification_element = "Element"
     classification_start_event = "Start Event"
@@ -142,7 +142,10 @@ class BpmnDiagramGraphCsvExport(object):
             # If the node is a join, then retract the recursion back to the split.
             return node
         else:
-            if node_type == consts.Consts.task:
+            if node_type == consts.Consts.task \
+                    or node_type == consts.Consts.user_task \
+                    or node_type == consts.Consts.service_task \
+                    or node_type == consts.Consts.manual_task:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
                                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
             elif node_type == consts.Consts.subprocess:
-- 
2.43.0


From ad2e5bc1722bcf93afdcbe32b2a4706ca0052d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:15 +0000
Subject: [PATCH 43/44] fix: write CSV files in UTF-8 in every locale

---
 bpmn_python/bpmn_process_csv_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 58fcd18..e40b5b1 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -5,6 +5,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 """
 from __future__ import print_function
 
+import codecs
 import copy
 import csv
 import errno
@@ -72,7 +73,7 @@ class BpmnDiagramGraphCsvExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        file_object = open(directory + filename, "w")
+        file_object = codecs.open(directory + filename, "w", encoding="utf-8")
         file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
         BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
         file_object.close()
-- 
2.43.0


From d7e6393c14a450cb4276b12894a602dca8518511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:24 +0000
Subject: [PATCH 44/44] fix: export carriage returns in condition expressions
 as character references

---
 bpmn_python/bpmn_diagram_export.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index f277539..89be6a4 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -3,6 +3,7 @@
 Package provides functionality for exporting graph representation to BPMN 2.0 XML
 """
 import errno
+import io
 import os
 import xml.etree.cElementTree as eTree
 
@@ -521,7 +522,7 @@ class BpmnDiagramGraphExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
+        BpmnDiagramGraphExport.write_xml_file(tree, directory + filename)
 
     @staticmethod
     def export_xml_file_no_di(directory, filename, bpmn_diagram):
@@ -559,9 +560,23 @@ class BpmnDiagramGraphExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
+        BpmnDiagramGraphExport.write_xml_file(tree, directory + filename)
 
     # Helper methods
+    @staticmethod
+    def write_xml_file(tree, filepath):
+        """
+        Writes XML document to a file. ElementTree leaves carriage returns in texts as they are, which makes every parser
+        read them as line feeds, so they are replaced with character references.
+
+        :param tree: ElementTree object with the document,
+        :param filepath: string representing the path of output file.
+        """
+        output = io.BytesIO()
+        tree.write(output, encoding='utf-8', xml_declaration=True)
+        with open(filepath, "wb") as output_file:
+            output_file.write(output.getvalue().replace(b"\r", b"&#13;"))
+
     @staticmethod
     def indent(elem, level=0):
         """
-- 
2.43.0


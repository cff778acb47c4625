"""Contracts of the class model: per class the fields with getter, setter, initial value and the values a setter accepts.

rule: str | str? (None allowed) | bool | bool? | one-of list | list:str | list:<Class> | <Class>?
"""
PK = 'bpmn_python.graph.classes.'
BASE = {'id': ('get_id', 'set_id', None, 'str?')}
NAME = {'name': ('get_name', 'set_name', None, 'str?')}
FLOW_ELEMENT = dict(BASE, **NAME)
FLOW_NODE = dict(FLOW_ELEMENT, incoming=('get_incoming', 'set_incoming', [], 'list:str'),
                 outgoing=('get_outgoing', 'set_outgoing', [], 'list:str'))
ACTIVITY = dict(FLOW_NODE, default=('get_default', 'set_default', None, 'str?'))
LISTS = {'lane_sets': ('get_lane_set_list', 'set_lane_set_list', [], 'list:LaneSet'),
         'flow_elements': ('get_flow_element_list', 'set_flow_element_list', [], 'list:FlowElement')}
THROW = dict(FLOW_NODE, definitions=('get_event_definition_list', 'set_event_definition_list', [], 'list:EventDefinition'))
CATCH = dict(THROW, parallel_multiple=('parallel_multiple', 'set_parallel_multiple', False, 'bool'))
GATEWAY = dict(FLOW_NODE, direction=('get_gateway_direction', 'set_gateway_direction', 'Unspecified',
                                     ['Unspecified', 'Converging', 'Diverging', 'Mixed']))
DEFAULT = {'default': ('get_default', 'set_default', None, 'str?')}
CALLABLE = dict(BASE, **NAME)
REFS = {'source': ('get_source_ref', 'set_source_ref', 'ctor:0', 'str'),
        'target': ('get_target_ref', 'set_target_ref', 'ctor:1', 'str')}

MODEL = {
    'BaseElement': ('base_element_type', BASE),
    'ConditionExpression': ('condition_expression_type', {'condition': ('get_condition', 'set_condition', None, 'str')}),
    'FlowElement': ('flow_element_type', FLOW_ELEMENT),
    'FlowNode': ('flow_node_type', FLOW_NODE),
    'LaneSet': ('lane_set_type', dict(CALLABLE, lanes=('get_lane_list', 'set_lane_list', [], 'list:Lane'))),
    'Lane': ('lane_type', dict(CALLABLE, nodes=('get_flow_node_ref_list', 'set_flow_node_ref_list', [], 'list:str'),
                               child=('get_child_lane_set', 'set_child_lane_set', None, 'LaneSet?'))),
    'MessageFlow': ('message_flow_type', dict(CALLABLE, message=('get_message_ref', 'set_message_ref', None, 'str?'), **REFS)),
    'Participant': ('participant_type', dict(CALLABLE, process=('get_process_ref', 'set_process_ref', None, 'str?'))),
    'SequenceFlow': ('sequence_flow_type', dict(
        FLOW_ELEMENT, immediate=('is_immediate', 'set_is_immediate', None, 'bool?'),
        condition=('get_condition_expression', 'set_condition_expression', None, 'ConditionExpression?'), **REFS)),
    'Activity': ('activities.activity_type', ACTIVITY),
    'SubProcess': ('activities.subprocess_type', dict(
        ACTIVITY, triggered=('triggered_by_event', 'set_triggered_by_event', False, 'bool'), **LISTS)),
    'Task': ('activities.task_type', ACTIVITY),
    'Event': ('events.event_type', FLOW_NODE),
    'CatchEvent': ('events.catch_event_type', CATCH),
    'ThrowEvent': ('events.throw_event_type', THROW),
    'StartEvent': ('events.start_event_type', CATCH),
    'IntermediateCatchEvent': ('events.intermediate_catch_event_type', CATCH),
    'EndEvent': ('events.end_event_type', THROW),
    'IntermediateThrowEvent': ('events.intermediate_throw_event_type', THROW),
    'Gateway': ('gateways.gateway_type', GATEWAY),
    'ExclusiveGateway': ('gateways.exclusive_gateway_type', dict(GATEWAY, **DEFAULT)),
    'InclusiveGateway': ('gateways.inclusive_gateway_type', dict(GATEWAY, **DEFAULT)),
    'ParallelGateway': ('gateways.parallel_gateway_type', GATEWAY),
    'RootElement': ('root_element.root_element_type', BASE),
    'CallableElement': ('root_element.callable_element_type', CALLABLE),
    'EventDefinition': ('root_element.event_definition_type', BASE),
    'Process': ('root_element.process_type', dict(
        CALLABLE, type=('get_process_type', 'set_process_type', 'None', ['None', 'Public', 'Private']),
        closed=('is_closed', 'set_is_closed', False, 'bool'),
        executable=('is_executable', 'set_is_executable', False, 'bool'), **LISTS)),
}

# classes -> every class they are a kind of (within the model)
KIND = {
    'LaneSet': ['LaneSet'], 'Lane': ['Lane'], 'EventDefinition': ['EventDefinition'],
    'ConditionExpression': ['ConditionExpression'],
    'FlowElement': ['FlowElement', 'FlowNode', 'SequenceFlow', 'Activity', 'SubProcess', 'Task', 'Event', 'CatchEvent',
                    'ThrowEvent', 'StartEvent', 'IntermediateCatchEvent', 'EndEvent', 'IntermediateThrowEvent', 'Gateway',
                    'ExclusiveGateway', 'InclusiveGateway', 'ParallelGateway'],
}


def path_of(cls):
    return PK + MODEL[cls][0] + ':' + cls

"""Tables of the AMQP 1.0 specification (parts 2, 3 and 5): descriptors, fields in order, defaults, choices."""
# type: (descriptor code, descriptor symbol, [(field, "mandatory" | default | None)])
COMPOSITE = {'Error': (29, 'amqp:error:list', [('condition', 'mandatory'), ('description', None), ('info', None)]),
 'Open': (16,
          'amqp:open:list',
          [('container_id', 'mandatory'),
           ('hostname', None),
           ('max_frame_size', '4294967295'),
           ('channel_max', '65535'),
           ('idle_time_out', None),
           ('outgoing_locales', None),
           ('incoming_locales', None),
           ('offered_capabilities', None),
           ('desired_capabilities', None),
           ('properties', None)]),
 'Begin': (17,
           'amqp:begin:list',
           [('remote_channel', None),
            ('next_outgoing_id', 'mandatory'),
            ('incoming_window', 'mandatory'),
            ('outgoing_window', 'mandatory'),
            ('handle_max', '4294967295'),
            ('offered_capabilities', None),
            ('desired_capabilities', None),
            ('properties', None)]),
 'Attach': (18,
            'amqp:attach:list',
            [('name', 'mandatory'),
             ('handle', 'mandatory'),
             ('role', 'mandatory'),
             ('snd_settle_mode', 'mixed'),
             ('rcv_settle_mode', 'first'),
             ('source', None),
             ('target', None),
             ('unsettled', None),
             ('incomplete_unsettled', 'false'),
             ('initial_delivery_count', None),
             ('max_message_size', None),
             ('offered_capabilities', None),
             ('desired_capabilities', None),
             ('properties', None)]),
 'Flow': (19,
          'amqp:flow:list',
          [('next_incoming_id', None),
           ('incoming_window', 'mandatory'),
           ('next_outgoing_id', 'mandatory'),
           ('outgoing_window', 'mandatory'),
           ('handle', None),
           ('delivery_count', None),
           ('link_credit', None),
           ('available', None),
           ('drain', 'false'),
           ('echo', 'false'),
           ('properties', None)]),
 'Transfer': (20,
              'amqp:transfer:list',
              [('handle', 'mandatory'),
               ('delivery_id', None),
               ('delivery_tag', None),
               ('message_format', None),
               ('settled', None),
               ('more', 'false'),
               ('rcv_settle_mode', None),
               ('state', None),
               ('resume', 'false'),
               ('aborted', 'false'),
               ('batchable', 'false')]),
 'Disposition': (21,
                 'amqp:disposition:list',
                 [('role', 'mandatory'),
                  ('first', 'mandatory'),
                  ('last', None),
                  ('settled', 'false'),
                  ('state', None),
                  ('batchable', 'false')]),
 'Detach': (22, 'amqp:detach:list', [('handle', 'mandatory'), ('closed', 'false'), ('error', None)]),
 'End': (23, 'amqp:end:list', [('error', None)]),
 'Close': (24, 'amqp:close:list', [('error', None)]),
 'SaslMechanisms': (64, 'amqp:sasl-mechanisms:list', [('sasl_server_mechanisms', 'mandatory')]),
 'SaslInit': (65,
              'amqp:sasl-init:list',
              [('mechanism', 'mandatory'), ('initial_response', None), ('hostname', None)]),
 'SaslChallenge': (66, 'amqp:sasl-challenge:list', [('challenge', 'mandatory')]),
 'SaslResponse': (67, 'amqp:sasl-response:list', [('response', 'mandatory')]),
 'SaslOutcome': (68, 'amqp:sasl-outcome:list', [('code', 'mandatory'), ('additional_data', None)]),
 'Source': (40,
            'amqp:source:list',
            [('address', None),
             ('durable', 'none'),
             ('expiry_policy', 'session-end'),
             ('timeout', '0'),
             ('dynamic', 'false'),
             ('dynamic_node_properties', None),
             ('distribution_mode', None),
             ('filter', None),
             ('default_outcome', None),
             ('outcomes', None),
             ('capabilities', None)]),
 'Target': (41,
            'amqp:target:list',
            [('address', None),
             ('durable', 'none'),
             ('expiry_policy', 'session-end'),
             ('timeout', '0'),
             ('dynamic', 'false'),
             ('dynamic_node_properties', None),
             ('capabilities', None)]),
 'Header': (112,
            'amqp:header:list',
            [('durable', 'false'),
             ('priority', '4'),
             ('ttl', None),
             ('first_acquirer', 'false'),
             ('delivery_count', '0')]),
 'Properties': (115,
                'amqp:properties:list',
                [('message_id', None),
                 ('user_id', None),
                 ('to', None),
                 ('subject', None),
                 ('reply_to', None),
                 ('correlation_id', None),
                 ('content_type', None),
                 ('content_encoding', None),
                 ('absolute_expiry_time', None),
                 ('creation_time', None),
                 ('group_id', None),
                 ('group_sequence', None),
                 ('reply_to_group_id', None)]),
 'Received': (35, 'amqp:received:list', [('section_number', 'mandatory'), ('section_offset', 'mandatory')]),
 'Accepted': (36, 'amqp:accepted:list', []),
 'Rejected': (37, 'amqp:rejected:list', [('error', None)]),
 'Released': (38, 'amqp:released:list', []),
 'Modified': (39,
              'amqp:modified:list',
              [('delivery_failed', None), ('undeliverable_here', None), ('message_annotations', None)])}
# described sections that are not lists
SECTION = {'DeliveryAnnotations': (113, 'amqp:delivery-annotations:map'),
 'MessageAnnotations': (114, 'amqp:message-annotations:map'),
 'ApplicationProperties': (116, 'amqp:application-properties:map'),
 'Data': (117, 'amqp:data:binary'),
 'AmqpSequence': (118, 'amqp:amqp-sequence:list'),
 'AmqpValue': (119, 'amqp:amqp-value:*'),
 'Footer': (120, 'amqp:footer:map')}
# restricted types with choices
CHOICE = {'Role': {'Sender': False, 'Receiver': True},
 'SenderSettleMode': {'Unsettled': 0, 'Settled': 1, 'Mixed': 2},
 'ReceiverSettleMode': {'First': 0, 'Second': 1},
 'AmqpError': {'InternalError': 'amqp:internal-error',
               'NotFound': 'amqp:not-found',
               'UnauthorizedAccess': 'amqp:unauthorized-access',
               'DecodeError': 'amqp:decode-error',
               'ResourceLimitExceeded': 'amqp:resource-limit-exceeded',
               'NotAllowed': 'amqp:not-allowed',
               'InvalidField': 'amqp:invalid-field',
               'NotImplemented': 'amqp:not-implemented',
               'ResourceLocked': 'amqp:resource-locked',
               'PreconditionFailed': 'amqp:precondition-failed',
               'ResourceDeleted': 'amqp:resource-deleted',
               'IllegalState': 'amqp:illegal-state',
               'FrameSizeTooSmall': 'amqp:frame-size-too-small'},
 'ConnectionError': {'ConnectionForced': 'amqp:connection:forced',
                     'FramingError': 'amqp:connection:framing-error',
                     'Redirect': 'amqp:connection:redirect'},
 'SessionError': {'WindowViolation': 'amqp:session:window-violation',
                  'ErrantLink': 'amqp:session:errant-link',
                  'HandleInUse': 'amqp:session:handle-in-use',
                  'UnattachedHandle': 'amqp:session:unattached-handle'},
 'LinkError': {'DetachForced': 'amqp:link:detach-forced',
               'TransferLimitExceeded': 'amqp:link:transfer-limit-exceeded',
               'MessageSizeExceeded': 'amqp:link:message-size-exceeded',
               'Redirect': 'amqp:link:redirect',
               'Stolen': 'amqp:link:stolen'},
 'SaslCode': {'Ok': 0, 'Auth': 1, 'Sys': 2, 'SysPerm': 3, 'SysTemp': 4},
 'TerminusDurability': {'None': 0, 'Configuration': 1, 'UnsettledState': 2},
 'TerminusExpiryPolicy': {'LinkDetach': 'link-detach',
                          'SessionEnd': 'session-end',
                          'ConnectionClose': 'connection-close',
                          'Never': 'never'}}
SUMS = {
    "Frame": ["Open", "Begin", "Attach", "Flow", "Transfer", "Disposition", "Detach", "End", "Close"],
    "DeliveryState": ["Received", "Accepted", "Rejected", "Released", "Modified"],
    "Outcome": ["Accepted", "Rejected", "Released", "Modified"],
    "SaslFrameBody": ["SaslMechanisms", "SaslInit", "SaslChallenge", "SaslResponse", "SaslOutcome"],
    "Section": ["Header", "DeliveryAnnotations", "MessageAnnotations", "ApplicationProperties", "Data", "AmqpSequence",
                "AmqpValue", "Footer", "Properties"],
}

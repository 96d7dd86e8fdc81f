"""Wire names of every message, from the Debug Adapter Protocol specification.

class -> {JSON key: attribute, or a nested JSON object}
"""

SPEC = {'Breakpoint': {'id': 'id',
                'verified': 'verified',
                'message': 'message',
                'source': 'source',
                'line': 'line',
                'column': 'column',
                'endLine': 'end_line',
                'endColumn': 'end_column',
                'instructionReference': 'instruction_reference',
                'offset': 'offset'},
 'Capabilities': {'supportsConfigurationDoneRequest': 'supports_configuration_done_request',
                  'supportsFunctionBreakpoints': 'supports_function_breakpoints',
                  'supportsConditionalBreakpoints': 'supports_conditional_breakpoints',
                  'supportsHitConditionalBreakpoints': 'supports_hit_conditional_breakpoints',
                  'supportsEvaluateForHovers': 'supports_evaluate_for_hovers',
                  'exceptionBreakpointFilters': 'exception_breakpoints_filters',
                  'supportsStepBack': 'supports_step_back',
                  'supportsSetVariable': 'supports_set_variable',
                  'supportsRestartFrame': 'supports_restart_frame',
                  'supportsGotoTargetsRequest': 'supports_goto_targets_request',
                  'supportsStepInTargetsRequest': 'supports_step_in_targets_request',
                  'supportsCompletionsRequest': 'supports_completions_request',
                  'supportTerminateDebuggee': 'supports_terminate_debuggee',
                  'supportSuspendDebuggee': 'supports_suspend_debuggee',
                  'supportsTerminateRequest': 'supports_terminate_request',
                  'supportsClipboardContext': 'supports_clipboard_context'},
 'Checksum': {'algorithm': 'algorithm', 'checksum': 'checksum'},
 'ExceptionBreakpointsFilter': {'filter': 'filter',
                                'label': 'label',
                                'description': 'description',
                                'default': 'default',
                                'supportsCondition': 'supports_condition',
                                'conditionDescription': 'condition_description'},
 'ExceptionFilterOptions': {'filterId': 'filter_id', 'condition': 'condition'},
 'ExceptionOptions': {'path': 'path', 'breakMode': 'break_mode'},
 'ExceptionPathSegment': {'negate': 'negate', 'names': 'names'},
 'Message': {'id': 'id',
             'format': 'format',
             'variables': 'variables',
             'sendTelemetry': 'send_telemetry',
             'showUser': 'show_user',
             'url': 'url',
             'urlLabel': 'url_label'},
 'Scope': {'name': 'name',
           'presentationHint': 'presentation_hint',
           'variablesReference': 'variables_reference',
           'namedVariables': 'named_variables',
           'indexedVariables': 'indexed_variables',
           'expensive': 'expensive',
           'source': 'source',
           'line': 'line',
           'column': 'column',
           'endLine': 'end_line',
           'endColumn': 'end_column'},
 'Source': {'name': 'name',
            'path': 'path',
            'sourceReference': 'source_reference',
            'presentationHint': 'presentation_hint',
            'origin': 'origin',
            'sources': 'sources',
            'adapterData': 'adapter_data',
            'checksums': 'checksums'},
 'SourceBreakpoint': {'line': 'line',
                      'column': 'column',
                      'condition': 'condition',
                      'hitCondition': 'hit_condition',
                      'logMessage': 'log_message'},
 'StackFrame': {'id': 'id',
                'name': 'name',
                'source': 'source',
                'line': 'line',
                'column': 'column',
                'endLine': 'end_line',
                'endColumn': 'end_column',
                'canRestart': 'can_restart',
                'instructionPointerReference': 'instruction_pointer_reference',
                'moduleId': 'module_id',
                'presentationHint': 'presentation_hint'},
 'StackFrameFormat': {'parameters': 'parameters',
                      'parameterTypes': 'parameter_types',
                      'parameterNames': 'parameter_names',
                      'parameterValues': 'parameter_values',
                      'line': 'line',
                      'module': 'module',
                      'includeAll': 'include_all'},
 'Thread': {'id': 'id', 'name': 'name'},
 'ValueFormat': {'hex': 'hex'},
 'Variable': {'name': 'name',
              'value': 'value',
              'type': 'type',
              'presentationHint': 'presentation_hint',
              'evaluateName': 'evaluate_name',
              'variablesReference': 'variables_reference',
              'namedVariables': 'named_variables',
              'indexedVariables': 'indexed_variables',
              'memoryReference': 'memory_reference'},
 'VariablePresentationHint': {'kind': 'kind',
                              'attributes': 'attributes',
                              'visibility': 'visibility',
                              'lazy': 'lazy'},
 'AttachRequest': {'seq': 'seq',
                   'type': 'message_type',
                   'command': 'command',
                   'arguments': {'__restart': 'restart'}},
 'CancelRequest': {'seq': 'seq',
                   'type': 'message_type',
                   'command': 'command',
                   'arguments': {'requestId': 'request_id', 'progressId': 'progress_id'}},
 'ConfigurationDoneRequest': {'seq': 'seq', 'type': 'message_type', 'command': 'command'},
 'ContinueRequest': {'seq': 'seq',
                     'type': 'message_type',
                     'command': 'command',
                     'arguments': {'threadId': 'thread_id', 'singleThread': 'single_thread'}},
 'DisconnectRequest': {'seq': 'seq',
                       'type': 'message_type',
                       'command': 'command',
                       'arguments': {'restart': 'restart',
                                     'terminateDebuggee': 'terminate_debuggee',
                                     'suspendDebuggee': 'suspend_debuggee'}},
 'EvaluateRequest': {'seq': 'seq',
                     'type': 'message_type',
                     'command': 'command',
                     'arguments': {'expression': 'expression',
                                   'frameId': 'frame_id',
                                   'context': 'context',
                                   'format': 'format'}},
 'InitializeRequest': {'seq': 'seq',
                       'type': 'message_type',
                       'command': 'command',
                       'arguments': {'clientID': 'client_id',
                                     'clientName': 'client_name',
                                     'adapterID': 'adapter_id',
                                     'locale': 'locale',
                                     'linesStartAt1': 'lines_start_at_1',
                                     'columnsStartAt1': 'columns_start_at_1',
                                     'pathFormat': 'path_format',
                                     'supportsVariableType': 'supports_variable_type',
                                     'supportsVariablePaging': 'supports_variable_paging',
                                     'supportsRunInTerminalRequest': 'supports_run_in_terminal_request',
                                     'supportsMemoryReferences': 'supports_memory_references',
                                     'supportsProgressReporting': 'supports_progress_reporting',
                                     'supportsInvalidatedEvent': 'supports_invalidated_event',
                                     'supportsMemoryEvent': 'supports_memory_event'}},
 'LaunchRequest': {'seq': 'seq',
                   'type': 'message_type',
                   'command': 'command',
                   'arguments': {'noDebug': 'no_debug', '__restart': 'restart'}},
 'NextRequest': {'seq': 'seq',
                 'type': 'message_type',
                 'command': 'command',
                 'arguments': {'threadId': 'thread_id',
                               'singleThread': 'single_thread',
                               'granularity': 'granularity'}},
 'RunInTerminalRequest': {'seq': 'seq',
                          'type': 'message_type',
                          'command': 'command',
                          'arguments': {'kind': 'kind',
                                        'title': 'title',
                                        'cwd': 'cwd',
                                        'args': 'args',
                                        'env': 'env'}},
 'ScopesRequest': {'seq': 'seq',
                   'type': 'message_type',
                   'command': 'command',
                   'arguments': {'frameId': 'frame_id'}},
 'SetBreakpointsRequest': {'seq': 'seq',
                           'type': 'message_type',
                           'command': 'command',
                           'arguments': {'source': 'source',
                                         'breakpoints': 'breakpoints',
                                         'lines': 'lines',
                                         'sourceModified': 'source_modified'}},
 'SetExceptionBreakpointsRequest': {'seq': 'seq',
                                    'type': 'message_type',
                                    'command': 'command',
                                    'arguments': {'filters': 'filters',
                                                  'filterOptions': 'filter_options',
                                                  'exceptionOptions': 'exception_options'}},
 'SetVariableRequest': {'seq': 'seq',
                        'type': 'message_type',
                        'command': 'command',
                        'arguments': {'variablesReference': 'variables_reference',
                                      'name': 'name',
                                      'value': 'value',
                                      'format': 'format'}},
 'StackTraceRequest': {'seq': 'seq',
                       'type': 'message_type',
                       'command': 'command',
                       'arguments': {'threadId': 'thread_id',
                                     'startFrame': 'start_frame',
                                     'levels': 'levels',
                                     'format': 'format'}},
 'StepInRequest': {'seq': 'seq',
                   'type': 'message_type',
                   'command': 'command',
                   'arguments': {'threadId': 'thread_id',
                                 'singleThread': 'single_thread',
                                 'targetId': 'target_id',
                                 'granularity': 'granularity'}},
 'StepOutRequest': {'seq': 'seq',
                    'type': 'message_type',
                    'command': 'command',
                    'arguments': {'threadId': 'thread_id',
                                  'singleThread': 'single_thread',
                                  'granularity': 'granularity'}},
 'TerminateRequest': {'seq': 'seq',
                      'type': 'message_type',
                      'command': 'command',
                      'arguments': {'restart': 'restart'}},
 'ThreadsRequest': {'seq': 'seq', 'type': 'message_type', 'command': 'command'},
 'VariablesRequest': {'seq': 'seq',
                      'type': 'message_type',
                      'command': 'command',
                      'arguments': {'variablesReference': 'variables_reference',
                                    'filter': 'filter',
                                    'start': 'start',
                                    'count': 'count',
                                    'format': 'format'}},
 'AttachResponse': {'seq': 'seq',
                    'type': 'message_type',
                    'request_seq': 'request_seq',
                    'success': 'success',
                    'command': 'command'},
 'CancelResponse': {'seq': 'seq',
                    'type': 'message_type',
                    'request_seq': 'request_seq',
                    'success': 'success',
                    'command': 'command'},
 'ConfigurationDoneResponse': {'seq': 'seq',
                               'type': 'message_type',
                               'request_seq': 'request_seq',
                               'success': 'success',
                               'command': 'command'},
 'ContinueResponse': {'seq': 'seq',
                      'type': 'message_type',
                      'request_seq': 'request_seq',
                      'success': 'success',
                      'command': 'command',
                      'body': {'allThreadsContinued': 'all_threads_continued'}},
 'DisconnectResponse': {'seq': 'seq',
                        'type': 'message_type',
                        'request_seq': 'request_seq',
                        'success': 'success',
                        'command': 'command'},
 'EvaluateResponse': {'seq': 'seq',
                      'type': 'message_type',
                      'request_seq': 'request_seq',
                      'success': 'success',
                      'command': 'command',
                      'body': {'result': 'result',
                               'type': 'type',
                               'presentationHint': 'presentation_hint',
                               'variablesReference': 'variables_reference',
                               'namedVariables': 'named_variables',
                               'indexedVariables': 'indexed_variables',
                               'memoryReference': 'memory_reference'}},
 'InitializeResponse': {'seq': 'seq',
                        'type': 'message_type',
                        'request_seq': 'request_seq',
                        'success': 'success',
                        'command': 'command',
                        'body': 'capabilities'},
 'LaunchResponse': {'seq': 'seq',
                    'type': 'message_type',
                    'request_seq': 'request_seq',
                    'success': 'success',
                    'command': 'command'},
 'NextResponse': {'seq': 'seq',
                  'type': 'message_type',
                  'request_seq': 'request_seq',
                  'success': 'success',
                  'command': 'command'},
 'RunInTerminalResponse': {'seq': 'seq',
                           'type': 'message_type',
                           'request_seq': 'request_seq',
                           'success': 'success',
                           'command': 'command',
                           'body': {'processId': 'process_id', 'shellProcessId': 'shell_process_id'}},
 'ScopesResponse': {'seq': 'seq',
                    'type': 'message_type',
                    'request_seq': 'request_seq',
                    'success': 'success',
                    'command': 'command',
                    'body': {'scopes': 'scopes'}},
 'SetBreakpointsResponse': {'seq': 'seq',
                            'type': 'message_type',
                            'request_seq': 'request_seq',
                            'success': 'success',
                            'command': 'command',
                            'body': {'breakpoints': 'breakpoints'}},
 'SetExceptionBreakpointsResponse': {'seq': 'seq',
                                     'type': 'message_type',
                                     'request_seq': 'request_seq',
                                     'success': 'success',
                                     'command': 'command',
                                     'body': {'breakpoints': 'breakpoints'}},
 'SetVariableResponse': {'seq': 'seq',
                         'type': 'message_type',
                         'request_seq': 'request_seq',
                         'success': 'success',
                         'command': 'command',
                         'body': {'value': 'value',
                                  'type': 'type',
                                  'variablesReference': 'variables_reference',
                                  'namedVariables': 'named_variables',
                                  'indexedVariables': 'indexed_variables'}},
 'StackTraceResponse': {'seq': 'seq',
                        'type': 'message_type',
                        'request_seq': 'request_seq',
                        'success': 'success',
                        'command': 'command',
                        'body': {'stackFrames': 'stack_frames', 'totalFrames': 'total_frames'}},
 'StepInResponse': {'seq': 'seq',
                    'type': 'message_type',
                    'request_seq': 'request_seq',
                    'success': 'success',
                    'command': 'command'},
 'StepOutResponse': {'seq': 'seq',
                     'type': 'message_type',
                     'request_seq': 'request_seq',
                     'success': 'success',
                     'command': 'command'},
 'TerminateResponse': {'seq': 'seq',
                       'type': 'message_type',
                       'request_seq': 'request_seq',
                       'success': 'success',
                       'command': 'command'},
 'ThreadsResponse': {'seq': 'seq',
                     'type': 'message_type',
                     'request_seq': 'request_seq',
                     'success': 'success',
                     'command': 'command',
                     'body': {'threads': 'threads'}},
 'VariablesResponse': {'seq': 'seq',
                       'type': 'message_type',
                       'request_seq': 'request_seq',
                       'success': 'success',
                       'command': 'command',
                       'body': {'variables': 'variables'}},
 'ErrorResponse': {'seq': 'seq',
                   'type': 'message_type',
                   'request_seq': 'request_seq',
                   'success': 'success',
                   'command': 'command',
                   'message': 'message',
                   'body': {'error': 'error'}},
 'BreakpointEvent': {'seq': 'seq',
                     'type': 'message_type',
                     'event': 'event',
                     'body': {'reason': 'reason', 'breakpoint': 'breakpoint'}},
 'ExitedEvent': {'seq': 'seq', 'type': 'message_type', 'event': 'event', 'body': {'exitCode': 'exit_code'}},
 'InitializedEvent': {'seq': 'seq', 'type': 'message_type', 'event': 'event'},
 'OutputEvent': {'seq': 'seq',
                 'type': 'message_type',
                 'event': 'event',
                 'body': {'category': 'category',
                          'output': 'output',
                          'group': 'group',
                          'variablesReference': 'variables_reference',
                          'source': 'source',
                          'line': 'line',
                          'column': 'column',
                          'data': 'data'}},
 'StoppedEvent': {'seq': 'seq',
                  'type': 'message_type',
                  'event': 'event',
                  'body': {'reason': 'reason',
                           'description': 'description',
                           'threadId': 'thread_id',
                           'preserveFocusHint': 'preserve_focus_hint',
                           'text': 'text',
                           'allThreadsStopped': 'all_threads_stopped',
                           'hitBreakpointIds': 'hit_breakpoint_ids'}},
 'TerminatedEvent': {'seq': 'seq', 'type': 'message_type', 'event': 'event', 'body': {'restart': 'restart'}},
 'ThreadEvent': {'seq': 'seq',
                 'type': 'message_type',
                 'event': 'event',
                 'body': {'reason': 'reason', 'threadId': 'thread_id'}}}
KIND = {'AttachRequest': ('request', 'attach'),
 'CancelRequest': ('request', 'cancel'),
 'ConfigurationDoneRequest': ('request', 'configurationDone'),
 'ContinueRequest': ('request', 'continue'),
 'DisconnectRequest': ('request', 'disconnect'),
 'EvaluateRequest': ('request', 'evaluate'),
 'InitializeRequest': ('request', 'initialize'),
 'LaunchRequest': ('request', 'launch'),
 'NextRequest': ('request', 'next'),
 'RunInTerminalRequest': ('request', 'runInTerminal'),
 'ScopesRequest': ('request', 'scopes'),
 'SetBreakpointsRequest': ('request', 'setBreakpoints'),
 'SetExceptionBreakpointsRequest': ('request', 'setExceptionBreakpoints'),
 'SetVariableRequest': ('request', 'setVariable'),
 'StackTraceRequest': ('request', 'stackTrace'),
 'StepInRequest': ('request', 'stepIn'),
 'StepOutRequest': ('request', 'stepOut'),
 'TerminateRequest': ('request', 'terminate'),
 'ThreadsRequest': ('request', 'threads'),
 'VariablesRequest': ('request', 'variables'),
 'AttachResponse': ('response', 'attach'),
 'CancelResponse': ('response', 'cancel'),
 'ConfigurationDoneResponse': ('response', 'configurationDone'),
 'ContinueResponse': ('response', 'continue'),
 'DisconnectResponse': ('response', 'disconnect'),
 'EvaluateResponse': ('response', 'evaluate'),
 'InitializeResponse': ('response', 'initialize'),
 'LaunchResponse': ('response', 'launch'),
 'NextResponse': ('response', 'next'),
 'RunInTerminalResponse': ('response', 'runInTerminal'),
 'ScopesResponse': ('response', 'scopes'),
 'SetBreakpointsResponse': ('response', 'setBreakpoints'),
 'SetExceptionBreakpointsResponse': ('response', 'setExceptionBreakpoints'),
 'SetVariableResponse': ('response', 'setVariable'),
 'StackTraceResponse': ('response', 'stackTrace'),
 'StepInResponse': ('response', 'stepIn'),
 'StepOutResponse': ('response', 'stepOut'),
 'TerminateResponse': ('response', 'terminate'),
 'ThreadsResponse': ('response', 'threads'),
 'VariablesResponse': ('response', 'variables'),
 'ErrorResponse': ('response', None),
 'BreakpointEvent': ('event', 'breakpoint'),
 'ExitedEvent': ('event', 'exited'),
 'InitializedEvent': ('event', 'initialized'),
 'OutputEvent': ('event', 'output'),
 'StoppedEvent': ('event', 'stopped'),
 'TerminatedEvent': ('event', 'terminated'),
 'ThreadEvent': ('event', 'thread')}

// Generated by tools/mkschema.py; committed.
HJ_STRUCT(AttachResponse)
HJ_STRUCT(AttachRequest)
HJ_STRUCT(Checksum)
HJ_STRUCT(Source)
HJ_STRUCT(Breakpoint)
HJ_STRUCT(BreakpointEvent)
HJ_STRUCT(BreakpointLocation)
HJ_STRUCT(BreakpointLocationsResponse)
HJ_STRUCT(BreakpointLocationsRequest)
HJ_STRUCT(CancelResponse)
HJ_STRUCT(CancelRequest)
HJ_STRUCT(ColumnDescriptor)
HJ_STRUCT(BreakpointMode)
HJ_STRUCT(ExceptionBreakpointsFilter)
HJ_STRUCT(Capabilities)
HJ_STRUCT(CapabilitiesEvent)
HJ_STRUCT(CompletionItem)
HJ_STRUCT(CompletionsResponse)
HJ_STRUCT(CompletionsRequest)
HJ_STRUCT(ConfigurationDoneResponse)
HJ_STRUCT(ConfigurationDoneRequest)
HJ_STRUCT(ContinueResponse)
HJ_STRUCT(ContinueRequest)
HJ_STRUCT(ContinuedEvent)
HJ_STRUCT(DataBreakpointInfoResponse)
HJ_STRUCT(DataBreakpointInfoRequest)
HJ_STRUCT(DisassembledInstruction)
HJ_STRUCT(DisassembleResponse)
HJ_STRUCT(DisassembleRequest)
HJ_STRUCT(DisconnectResponse)
HJ_STRUCT(DisconnectRequest)
HJ_STRUCT(Message)
HJ_STRUCT(ErrorResponse)
HJ_STRUCT(VariablePresentationHint)
HJ_STRUCT(EvaluateResponse)
HJ_STRUCT(ValueFormat)
HJ_STRUCT(EvaluateRequest)
HJ_STRUCT(ExceptionDetails)
HJ_STRUCT(ExceptionInfoResponse)
HJ_STRUCT(ExceptionInfoRequest)
HJ_STRUCT(ExitedEvent)
HJ_STRUCT(GotoResponse)
HJ_STRUCT(GotoRequest)
HJ_STRUCT(GotoTarget)
HJ_STRUCT(GotoTargetsResponse)
HJ_STRUCT(GotoTargetsRequest)
HJ_STRUCT(InitializeResponse)
HJ_STRUCT(InitializeRequest)
HJ_STRUCT(InitializedEvent)
HJ_STRUCT(InvalidatedEvent)
HJ_STRUCT(LaunchResponse)
HJ_STRUCT(LaunchRequest)
HJ_STRUCT(LoadedSourceEvent)
HJ_STRUCT(LoadedSourcesResponse)
HJ_STRUCT(LoadedSourcesRequest)
HJ_STRUCT(MemoryEvent)
HJ_STRUCT(Module)
HJ_STRUCT(ModuleEvent)
HJ_STRUCT(ModulesResponse)
HJ_STRUCT(ModulesRequest)
HJ_STRUCT(NextResponse)
HJ_STRUCT(NextRequest)
HJ_STRUCT(OutputEvent)
HJ_STRUCT(PauseResponse)
HJ_STRUCT(PauseRequest)
HJ_STRUCT(ProcessEvent)
HJ_STRUCT(ProgressEndEvent)
HJ_STRUCT(ProgressStartEvent)
HJ_STRUCT(ProgressUpdateEvent)
HJ_STRUCT(ReadMemoryResponse)
HJ_STRUCT(ReadMemoryRequest)
HJ_STRUCT(RestartFrameResponse)
HJ_STRUCT(RestartFrameRequest)
HJ_STRUCT(RestartResponse)
HJ_STRUCT(RestartRequest)
HJ_STRUCT(ReverseContinueResponse)
HJ_STRUCT(ReverseContinueRequest)
HJ_STRUCT(RunInTerminalResponse)
HJ_STRUCT(RunInTerminalRequest)
HJ_STRUCT(Scope)
HJ_STRUCT(ScopesResponse)
HJ_STRUCT(ScopesRequest)
HJ_STRUCT(SetBreakpointsResponse)
HJ_STRUCT(SourceBreakpoint)
HJ_STRUCT(SetBreakpointsRequest)
HJ_STRUCT(SetDataBreakpointsResponse)
HJ_STRUCT(DataBreakpoint)
HJ_STRUCT(SetDataBreakpointsRequest)
HJ_STRUCT(SetExceptionBreakpointsResponse)
HJ_STRUCT(ExceptionPathSegment)
HJ_STRUCT(ExceptionOptions)
HJ_STRUCT(ExceptionFilterOptions)
HJ_STRUCT(SetExceptionBreakpointsRequest)
HJ_STRUCT(SetExpressionResponse)
HJ_STRUCT(SetExpressionRequest)
HJ_STRUCT(SetFunctionBreakpointsResponse)
HJ_STRUCT(FunctionBreakpoint)
HJ_STRUCT(SetFunctionBreakpointsRequest)
HJ_STRUCT(SetInstructionBreakpointsResponse)
HJ_STRUCT(InstructionBreakpoint)
HJ_STRUCT(SetInstructionBreakpointsRequest)
HJ_STRUCT(SetVariableResponse)
HJ_STRUCT(SetVariableRequest)
HJ_STRUCT(SourceResponse)
HJ_STRUCT(SourceRequest)
HJ_STRUCT(StackFrame)
HJ_STRUCT(StackTraceResponse)
HJ_STRUCT(StackFrameFormat)
HJ_STRUCT(StackTraceRequest)
HJ_STRUCT(StartDebuggingResponse)
HJ_STRUCT(StartDebuggingRequest)
HJ_STRUCT(StepBackResponse)
HJ_STRUCT(StepBackRequest)
HJ_STRUCT(StepInResponse)
HJ_STRUCT(StepInRequest)
HJ_STRUCT(StepInTarget)
HJ_STRUCT(StepInTargetsResponse)
HJ_STRUCT(StepInTargetsRequest)
HJ_STRUCT(StepOutResponse)
HJ_STRUCT(StepOutRequest)
HJ_STRUCT(StoppedEvent)
HJ_STRUCT(TerminateResponse)
HJ_STRUCT(TerminateRequest)
HJ_STRUCT(TerminateThreadsResponse)
HJ_STRUCT(TerminateThreadsRequest)
HJ_STRUCT(TerminatedEvent)
HJ_STRUCT(ThreadEvent)
HJ_STRUCT(Thread)
HJ_STRUCT(ThreadsResponse)
HJ_STRUCT(ThreadsRequest)
HJ_STRUCT(Variable)
HJ_STRUCT(VariablesResponse)
HJ_STRUCT(VariablesRequest)
HJ_STRUCT(WriteMemoryResponse)
HJ_STRUCT(WriteMemoryRequest)
template <class F> void visit(dap::AttachResponse& s, F f) {  }
template <class F> void visit(dap::AttachRequest& s, F f) { f("__restart", s.restart); }
template <class F> void visit(dap::Checksum& s, F f) { f("algorithm", s.algorithm); f("checksum", s.checksum); }
template <class F> void visit(dap::Source& s, F f) { f("adapterData", s.adapterData); f("checksums", s.checksums); f("name", s.name); f("origin", s.origin); f("path", s.path); f("presentationHint", s.presentationHint); f("sourceReference", s.sourceReference); f("sources", s.sources); }
template <class F> void visit(dap::Breakpoint& s, F f) { f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("id", s.id); f("instructionReference", s.instructionReference); f("line", s.line); f("message", s.message); f("offset", s.offset); f("reason", s.reason); f("source", s.source); f("verified", s.verified); }
template <class F> void visit(dap::BreakpointEvent& s, F f) { f("breakpoint", s.breakpoint); f("reason", s.reason); }
template <class F> void visit(dap::BreakpointLocation& s, F f) { f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("line", s.line); }
template <class F> void visit(dap::BreakpointLocationsResponse& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::BreakpointLocationsRequest& s, F f) { f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("line", s.line); f("source", s.source); }
template <class F> void visit(dap::CancelResponse& s, F f) {  }
template <class F> void visit(dap::CancelRequest& s, F f) { f("progressId", s.progressId); f("requestId", s.requestId); }
template <class F> void visit(dap::ColumnDescriptor& s, F f) { f("attributeName", s.attributeName); f("format", s.format); f("label", s.label); f("type", s.type); f("width", s.width); }
template <class F> void visit(dap::BreakpointMode& s, F f) { f("appliesTo", s.appliesTo); f("description", s.description); f("label", s.label); f("mode", s.mode); }
template <class F> void visit(dap::ExceptionBreakpointsFilter& s, F f) { f("conditionDescription", s.conditionDescription); f("default", s.def); f("description", s.description); f("filter", s.filter); f("label", s.label); f("supportsCondition", s.supportsCondition); }
template <class F> void visit(dap::Capabilities& s, F f) { f("additionalModuleColumns", s.additionalModuleColumns); f("breakpointModes", s.breakpointModes); f("completionTriggerCharacters", s.completionTriggerCharacters); f("exceptionBreakpointFilters", s.exceptionBreakpointFilters); f("supportSuspendDebuggee", s.supportSuspendDebuggee); f("supportTerminateDebuggee", s.supportTerminateDebuggee); f("supportedChecksumAlgorithms", s.supportedChecksumAlgorithms); f("supportsBreakpointLocationsRequest", s.supportsBreakpointLocationsRequest); f("supportsCancelRequest", s.supportsCancelRequest); f("supportsClipboardContext", s.supportsClipboardContext); f("supportsCompletionsRequest", s.supportsCompletionsRequest); f("supportsConditionalBreakpoints", s.supportsConditionalBreakpoints); f("supportsConfigurationDoneRequest", s.supportsConfigurationDoneRequest); f("supportsDataBreakpoints", s.supportsDataBreakpoints); f("supportsDelayedStackTraceLoading", s.supportsDelayedStackTraceLoading); f("supportsDisassembleRequest", s.supportsDisassembleRequest); f("supportsEvaluateForHovers", s.supportsEvaluateForHovers); f("supportsExceptionFilterOptions", s.supportsExceptionFilterOptions); f("supportsExceptionInfoRequest", s.supportsExceptionInfoRequest); f("supportsExceptionOptions", s.supportsExceptionOptions); f("supportsFunctionBreakpoints", s.supportsFunctionBreakpoints); f("supportsGotoTargetsRequest", s.supportsGotoTargetsRequest); f("supportsHitConditionalBreakpoints", s.supportsHitConditionalBreakpoints); f("supportsInstructionBreakpoints", s.supportsInstructionBreakpoints); f("supportsLoadedSourcesRequest", s.supportsLoadedSourcesRequest); f("supportsLogPoints", s.supportsLogPoints); f("supportsModulesRequest", s.supportsModulesRequest); f("supportsReadMemoryRequest", s.supportsReadMemoryRequest); f("supportsRestartFrame", s.supportsRestartFrame); f("supportsRestartRequest", s.supportsRestartRequest); f("supportsSetExpression", s.supportsSetExpression); f("supportsSetVariable", s.supportsSetVariable); f("supportsSingleThreadExecutionRequests", s.supportsSingleThreadExecutionRequests); f("supportsStepBack", s.supportsStepBack); f("supportsStepInTargetsRequest", s.supportsStepInTargetsRequest); f("supportsSteppingGranularity", s.supportsSteppingGranularity); f("supportsTerminateRequest", s.supportsTerminateRequest); f("supportsTerminateThreadsRequest", s.supportsTerminateThreadsRequest); f("supportsValueFormattingOptions", s.supportsValueFormattingOptions); f("supportsWriteMemoryRequest", s.supportsWriteMemoryRequest); }
template <class F> void visit(dap::CapabilitiesEvent& s, F f) { f("capabilities", s.capabilities); }
template <class F> void visit(dap::CompletionItem& s, F f) { f("detail", s.detail); f("label", s.label); f("length", s.length); f("selectionLength", s.selectionLength); f("selectionStart", s.selectionStart); f("sortText", s.sortText); f("start", s.start); f("text", s.text); f("type", s.type); }
template <class F> void visit(dap::CompletionsResponse& s, F f) { f("targets", s.targets); }
template <class F> void visit(dap::CompletionsRequest& s, F f) { f("column", s.column); f("frameId", s.frameId); f("line", s.line); f("text", s.text); }
template <class F> void visit(dap::ConfigurationDoneResponse& s, F f) {  }
template <class F> void visit(dap::ConfigurationDoneRequest& s, F f) {  }
template <class F> void visit(dap::ContinueResponse& s, F f) { f("allThreadsContinued", s.allThreadsContinued); }
template <class F> void visit(dap::ContinueRequest& s, F f) { f("singleThread", s.singleThread); f("threadId", s.threadId); }
template <class F> void visit(dap::ContinuedEvent& s, F f) { f("allThreadsContinued", s.allThreadsContinued); f("threadId", s.threadId); }
template <class F> void visit(dap::DataBreakpointInfoResponse& s, F f) { f("accessTypes", s.accessTypes); f("canPersist", s.canPersist); f("dataId", s.dataId); f("description", s.description); }
template <class F> void visit(dap::DataBreakpointInfoRequest& s, F f) { f("frameId", s.frameId); f("mode", s.mode); f("name", s.name); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::DisassembledInstruction& s, F f) { f("address", s.address); f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("instruction", s.instruction); f("instructionBytes", s.instructionBytes); f("line", s.line); f("location", s.location); f("presentationHint", s.presentationHint); f("symbol", s.symbol); }
template <class F> void visit(dap::DisassembleResponse& s, F f) { f("instructions", s.instructions); }
template <class F> void visit(dap::DisassembleRequest& s, F f) { f("instructionCount", s.instructionCount); f("instructionOffset", s.instructionOffset); f("memoryReference", s.memoryReference); f("offset", s.offset); f("resolveSymbols", s.resolveSymbols); }
template <class F> void visit(dap::DisconnectResponse& s, F f) {  }
template <class F> void visit(dap::DisconnectRequest& s, F f) { f("restart", s.restart); f("suspendDebuggee", s.suspendDebuggee); f("terminateDebuggee", s.terminateDebuggee); }
template <class F> void visit(dap::Message& s, F f) { f("format", s.format); f("id", s.id); f("sendTelemetry", s.sendTelemetry); f("showUser", s.showUser); f("url", s.url); f("urlLabel", s.urlLabel); f("variables", s.variables); }
template <class F> void visit(dap::ErrorResponse& s, F f) { f("error", s.error); }
template <class F> void visit(dap::VariablePresentationHint& s, F f) { f("attributes", s.attributes); f("kind", s.kind); f("lazy", s.lazy); f("visibility", s.visibility); }
template <class F> void visit(dap::EvaluateResponse& s, F f) { f("indexedVariables", s.indexedVariables); f("memoryReference", s.memoryReference); f("namedVariables", s.namedVariables); f("presentationHint", s.presentationHint); f("result", s.result); f("type", s.type); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::ValueFormat& s, F f) { f("hex", s.hex); }
template <class F> void visit(dap::EvaluateRequest& s, F f) { f("context", s.context); f("expression", s.expression); f("format", s.format); f("frameId", s.frameId); }
template <class F> void visit(dap::ExceptionDetails& s, F f) { f("evaluateName", s.evaluateName); f("fullTypeName", s.fullTypeName); f("innerException", s.innerException); f("message", s.message); f("stackTrace", s.stackTrace); f("typeName", s.typeName); }
template <class F> void visit(dap::ExceptionInfoResponse& s, F f) { f("breakMode", s.breakMode); f("description", s.description); f("details", s.details); f("exceptionId", s.exceptionId); }
template <class F> void visit(dap::ExceptionInfoRequest& s, F f) { f("threadId", s.threadId); }
template <class F> void visit(dap::ExitedEvent& s, F f) { f("exitCode", s.exitCode); }
template <class F> void visit(dap::GotoResponse& s, F f) {  }
template <class F> void visit(dap::GotoRequest& s, F f) { f("targetId", s.targetId); f("threadId", s.threadId); }
template <class F> void visit(dap::GotoTarget& s, F f) { f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("id", s.id); f("instructionPointerReference", s.instructionPointerReference); f("label", s.label); f("line", s.line); }
template <class F> void visit(dap::GotoTargetsResponse& s, F f) { f("targets", s.targets); }
template <class F> void visit(dap::GotoTargetsRequest& s, F f) { f("column", s.column); f("line", s.line); f("source", s.source); }
template <class F> void visit(dap::InitializeResponse& s, F f) { f("additionalModuleColumns", s.additionalModuleColumns); f("breakpointModes", s.breakpointModes); f("completionTriggerCharacters", s.completionTriggerCharacters); f("exceptionBreakpointFilters", s.exceptionBreakpointFilters); f("supportSuspendDebuggee", s.supportSuspendDebuggee); f("supportTerminateDebuggee", s.supportTerminateDebuggee); f("supportedChecksumAlgorithms", s.supportedChecksumAlgorithms); f("supportsBreakpointLocationsRequest", s.supportsBreakpointLocationsRequest); f("supportsCancelRequest", s.supportsCancelRequest); f("supportsClipboardContext", s.supportsClipboardContext); f("supportsCompletionsRequest", s.supportsCompletionsRequest); f("supportsConditionalBreakpoints", s.supportsConditionalBreakpoints); f("supportsConfigurationDoneRequest", s.supportsConfigurationDoneRequest); f("supportsDataBreakpoints", s.supportsDataBreakpoints); f("supportsDelayedStackTraceLoading", s.supportsDelayedStackTraceLoading); f("supportsDisassembleRequest", s.supportsDisassembleRequest); f("supportsEvaluateForHovers", s.supportsEvaluateForHovers); f("supportsExceptionFilterOptions", s.supportsExceptionFilterOptions); f("supportsExceptionInfoRequest", s.supportsExceptionInfoRequest); f("supportsExceptionOptions", s.supportsExceptionOptions); f("supportsFunctionBreakpoints", s.supportsFunctionBreakpoints); f("supportsGotoTargetsRequest", s.supportsGotoTargetsRequest); f("supportsHitConditionalBreakpoints", s.supportsHitConditionalBreakpoints); f("supportsInstructionBreakpoints", s.supportsInstructionBreakpoints); f("supportsLoadedSourcesRequest", s.supportsLoadedSourcesRequest); f("supportsLogPoints", s.supportsLogPoints); f("supportsModulesRequest", s.supportsModulesRequest); f("supportsReadMemoryRequest", s.supportsReadMemoryRequest); f("supportsRestartFrame", s.supportsRestartFrame); f("supportsRestartRequest", s.supportsRestartRequest); f("supportsSetExpression", s.supportsSetExpression); f("supportsSetVariable", s.supportsSetVariable); f("supportsSingleThreadExecutionRequests", s.supportsSingleThreadExecutionRequests); f("supportsStepBack", s.supportsStepBack); f("supportsStepInTargetsRequest", s.supportsStepInTargetsRequest); f("supportsSteppingGranularity", s.supportsSteppingGranularity); f("supportsTerminateRequest", s.supportsTerminateRequest); f("supportsTerminateThreadsRequest", s.supportsTerminateThreadsRequest); f("supportsValueFormattingOptions", s.supportsValueFormattingOptions); f("supportsWriteMemoryRequest", s.supportsWriteMemoryRequest); }
template <class F> void visit(dap::InitializeRequest& s, F f) { f("adapterID", s.adapterID); f("clientID", s.clientID); f("clientName", s.clientName); f("columnsStartAt1", s.columnsStartAt1); f("linesStartAt1", s.linesStartAt1); f("locale", s.locale); f("pathFormat", s.pathFormat); f("supportsArgsCanBeInterpretedByShell", s.supportsArgsCanBeInterpretedByShell); f("supportsInvalidatedEvent", s.supportsInvalidatedEvent); f("supportsMemoryEvent", s.supportsMemoryEvent); f("supportsMemoryReferences", s.supportsMemoryReferences); f("supportsProgressReporting", s.supportsProgressReporting); f("supportsRunInTerminalRequest", s.supportsRunInTerminalRequest); f("supportsStartDebuggingRequest", s.supportsStartDebuggingRequest); f("supportsVariablePaging", s.supportsVariablePaging); f("supportsVariableType", s.supportsVariableType); }
template <class F> void visit(dap::InitializedEvent& s, F f) {  }
template <class F> void visit(dap::InvalidatedEvent& s, F f) { f("areas", s.areas); f("stackFrameId", s.stackFrameId); f("threadId", s.threadId); }
template <class F> void visit(dap::LaunchResponse& s, F f) {  }
template <class F> void visit(dap::LaunchRequest& s, F f) { f("__restart", s.restart); f("noDebug", s.noDebug); }
template <class F> void visit(dap::LoadedSourceEvent& s, F f) { f("reason", s.reason); f("source", s.source); }
template <class F> void visit(dap::LoadedSourcesResponse& s, F f) { f("sources", s.sources); }
template <class F> void visit(dap::LoadedSourcesRequest& s, F f) {  }
template <class F> void visit(dap::MemoryEvent& s, F f) { f("count", s.count); f("memoryReference", s.memoryReference); f("offset", s.offset); }
template <class F> void visit(dap::Module& s, F f) { f("addressRange", s.addressRange); f("dateTimeStamp", s.dateTimeStamp); f("id", s.id); f("isOptimized", s.isOptimized); f("isUserCode", s.isUserCode); f("name", s.name); f("path", s.path); f("symbolFilePath", s.symbolFilePath); f("symbolStatus", s.symbolStatus); f("version", s.version); }
template <class F> void visit(dap::ModuleEvent& s, F f) { f("module", s.module); f("reason", s.reason); }
template <class F> void visit(dap::ModulesResponse& s, F f) { f("modules", s.modules); f("totalModules", s.totalModules); }
template <class F> void visit(dap::ModulesRequest& s, F f) { f("moduleCount", s.moduleCount); f("startModule", s.startModule); }
template <class F> void visit(dap::NextResponse& s, F f) {  }
template <class F> void visit(dap::NextRequest& s, F f) { f("granularity", s.granularity); f("singleThread", s.singleThread); f("threadId", s.threadId); }
template <class F> void visit(dap::OutputEvent& s, F f) { f("category", s.category); f("column", s.column); f("data", s.data); f("group", s.group); f("line", s.line); f("output", s.output); f("source", s.source); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::PauseResponse& s, F f) {  }
template <class F> void visit(dap::PauseRequest& s, F f) { f("threadId", s.threadId); }
template <class F> void visit(dap::ProcessEvent& s, F f) { f("isLocalProcess", s.isLocalProcess); f("name", s.name); f("pointerSize", s.pointerSize); f("startMethod", s.startMethod); f("systemProcessId", s.systemProcessId); }
template <class F> void visit(dap::ProgressEndEvent& s, F f) { f("message", s.message); f("progressId", s.progressId); }
template <class F> void visit(dap::ProgressStartEvent& s, F f) { f("cancellable", s.cancellable); f("message", s.message); f("percentage", s.percentage); f("progressId", s.progressId); f("requestId", s.requestId); f("title", s.title); }
template <class F> void visit(dap::ProgressUpdateEvent& s, F f) { f("message", s.message); f("percentage", s.percentage); f("progressId", s.progressId); }
template <class F> void visit(dap::ReadMemoryResponse& s, F f) { f("address", s.address); f("data", s.data); f("unreadableBytes", s.unreadableBytes); }
template <class F> void visit(dap::ReadMemoryRequest& s, F f) { f("count", s.count); f("memoryReference", s.memoryReference); f("offset", s.offset); }
template <class F> void visit(dap::RestartFrameResponse& s, F f) {  }
template <class F> void visit(dap::RestartFrameRequest& s, F f) { f("frameId", s.frameId); }
template <class F> void visit(dap::RestartResponse& s, F f) {  }
template <class F> void visit(dap::RestartRequest& s, F f) { f("arguments", s.arguments); }
template <class F> void visit(dap::ReverseContinueResponse& s, F f) {  }
template <class F> void visit(dap::ReverseContinueRequest& s, F f) { f("singleThread", s.singleThread); f("threadId", s.threadId); }
template <class F> void visit(dap::RunInTerminalResponse& s, F f) { f("processId", s.processId); f("shellProcessId", s.shellProcessId); }
template <class F> void visit(dap::RunInTerminalRequest& s, F f) { f("args", s.args); f("argsCanBeInterpretedByShell", s.argsCanBeInterpretedByShell); f("cwd", s.cwd); f("env", s.env); f("kind", s.kind); f("title", s.title); }
template <class F> void visit(dap::Scope& s, F f) { f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("expensive", s.expensive); f("indexedVariables", s.indexedVariables); f("line", s.line); f("name", s.name); f("namedVariables", s.namedVariables); f("presentationHint", s.presentationHint); f("source", s.source); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::ScopesResponse& s, F f) { f("scopes", s.scopes); }
template <class F> void visit(dap::ScopesRequest& s, F f) { f("frameId", s.frameId); }
template <class F> void visit(dap::SetBreakpointsResponse& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::SourceBreakpoint& s, F f) { f("column", s.column); f("condition", s.condition); f("hitCondition", s.hitCondition); f("line", s.line); f("logMessage", s.logMessage); f("mode", s.mode); }
template <class F> void visit(dap::SetBreakpointsRequest& s, F f) { f("breakpoints", s.breakpoints); f("lines", s.lines); f("source", s.source); f("sourceModified", s.sourceModified); }
template <class F> void visit(dap::SetDataBreakpointsResponse& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::DataBreakpoint& s, F f) { f("accessType", s.accessType); f("condition", s.condition); f("dataId", s.dataId); f("hitCondition", s.hitCondition); }
template <class F> void visit(dap::SetDataBreakpointsRequest& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::SetExceptionBreakpointsResponse& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::ExceptionPathSegment& s, F f) { f("names", s.names); f("negate", s.negate); }
template <class F> void visit(dap::ExceptionOptions& s, F f) { f("breakMode", s.breakMode); f("path", s.path); }
template <class F> void visit(dap::ExceptionFilterOptions& s, F f) { f("condition", s.condition); f("filterId", s.filterId); f("mode", s.mode); }
template <class F> void visit(dap::SetExceptionBreakpointsRequest& s, F f) { f("exceptionOptions", s.exceptionOptions); f("filterOptions", s.filterOptions); f("filters", s.filters); }
template <class F> void visit(dap::SetExpressionResponse& s, F f) { f("indexedVariables", s.indexedVariables); f("memoryReference", s.memoryReference); f("namedVariables", s.namedVariables); f("presentationHint", s.presentationHint); f("type", s.type); f("value", s.value); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::SetExpressionRequest& s, F f) { f("expression", s.expression); f("format", s.format); f("frameId", s.frameId); f("value", s.value); }
template <class F> void visit(dap::SetFunctionBreakpointsResponse& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::FunctionBreakpoint& s, F f) { f("condition", s.condition); f("hitCondition", s.hitCondition); f("name", s.name); }
template <class F> void visit(dap::SetFunctionBreakpointsRequest& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::SetInstructionBreakpointsResponse& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::InstructionBreakpoint& s, F f) { f("condition", s.condition); f("hitCondition", s.hitCondition); f("instructionReference", s.instructionReference); f("mode", s.mode); f("offset", s.offset); }
template <class F> void visit(dap::SetInstructionBreakpointsRequest& s, F f) { f("breakpoints", s.breakpoints); }
template <class F> void visit(dap::SetVariableResponse& s, F f) { f("indexedVariables", s.indexedVariables); f("memoryReference", s.memoryReference); f("namedVariables", s.namedVariables); f("type", s.type); f("value", s.value); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::SetVariableRequest& s, F f) { f("format", s.format); f("name", s.name); f("value", s.value); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::SourceResponse& s, F f) { f("content", s.content); f("mimeType", s.mimeType); }
template <class F> void visit(dap::SourceRequest& s, F f) { f("source", s.source); f("sourceReference", s.sourceReference); }
template <class F> void visit(dap::StackFrame& s, F f) { f("canRestart", s.canRestart); f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("id", s.id); f("instructionPointerReference", s.instructionPointerReference); f("line", s.line); f("moduleId", s.moduleId); f("name", s.name); f("presentationHint", s.presentationHint); f("source", s.source); }
template <class F> void visit(dap::StackTraceResponse& s, F f) { f("stackFrames", s.stackFrames); f("totalFrames", s.totalFrames); }
template <class F> void visit(dap::StackFrameFormat& s, F f) { visit(static_cast<dap::ValueFormat&>(s), f); f("includeAll", s.includeAll); f("line", s.line); f("module", s.module); f("parameterNames", s.parameterNames); f("parameterTypes", s.parameterTypes); f("parameterValues", s.parameterValues); f("parameters", s.parameters); }
template <class F> void visit(dap::StackTraceRequest& s, F f) { f("format", s.format); f("levels", s.levels); f("startFrame", s.startFrame); f("threadId", s.threadId); }
template <class F> void visit(dap::StartDebuggingResponse& s, F f) {  }
template <class F> void visit(dap::StartDebuggingRequest& s, F f) { f("configuration", s.configuration); f("request", s.request); }
template <class F> void visit(dap::StepBackResponse& s, F f) {  }
template <class F> void visit(dap::StepBackRequest& s, F f) { f("granularity", s.granularity); f("singleThread", s.singleThread); f("threadId", s.threadId); }
template <class F> void visit(dap::StepInResponse& s, F f) {  }
template <class F> void visit(dap::StepInRequest& s, F f) { f("granularity", s.granularity); f("singleThread", s.singleThread); f("targetId", s.targetId); f("threadId", s.threadId); }
template <class F> void visit(dap::StepInTarget& s, F f) { f("column", s.column); f("endColumn", s.endColumn); f("endLine", s.endLine); f("id", s.id); f("label", s.label); f("line", s.line); }
template <class F> void visit(dap::StepInTargetsResponse& s, F f) { f("targets", s.targets); }
template <class F> void visit(dap::StepInTargetsRequest& s, F f) { f("frameId", s.frameId); }
template <class F> void visit(dap::StepOutResponse& s, F f) {  }
template <class F> void visit(dap::StepOutRequest& s, F f) { f("granularity", s.granularity); f("singleThread", s.singleThread); f("threadId", s.threadId); }
template <class F> void visit(dap::StoppedEvent& s, F f) { f("allThreadsStopped", s.allThreadsStopped); f("description", s.description); f("hitBreakpointIds", s.hitBreakpointIds); f("preserveFocusHint", s.preserveFocusHint); f("reason", s.reason); f("text", s.text); f("threadId", s.threadId); }
template <class F> void visit(dap::TerminateResponse& s, F f) {  }
template <class F> void visit(dap::TerminateRequest& s, F f) { f("restart", s.restart); }
template <class F> void visit(dap::TerminateThreadsResponse& s, F f) {  }
template <class F> void visit(dap::TerminateThreadsRequest& s, F f) { f("threadIds", s.threadIds); }
template <class F> void visit(dap::TerminatedEvent& s, F f) { f("restart", s.restart); }
template <class F> void visit(dap::ThreadEvent& s, F f) { f("reason", s.reason); f("threadId", s.threadId); }
template <class F> void visit(dap::Thread& s, F f) { f("id", s.id); f("name", s.name); }
template <class F> void visit(dap::ThreadsResponse& s, F f) { f("threads", s.threads); }
template <class F> void visit(dap::ThreadsRequest& s, F f) {  }
template <class F> void visit(dap::Variable& s, F f) { f("evaluateName", s.evaluateName); f("indexedVariables", s.indexedVariables); f("memoryReference", s.memoryReference); f("name", s.name); f("namedVariables", s.namedVariables); f("presentationHint", s.presentationHint); f("type", s.type); f("value", s.value); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::VariablesResponse& s, F f) { f("variables", s.variables); }
template <class F> void visit(dap::VariablesRequest& s, F f) { f("count", s.count); f("filter", s.filter); f("format", s.format); f("start", s.start); f("variablesReference", s.variablesReference); }
template <class F> void visit(dap::WriteMemoryResponse& s, F f) { f("bytesWritten", s.bytesWritten); f("offset", s.offset); }
template <class F> void visit(dap::WriteMemoryRequest& s, F f) { f("allowPartial", s.allowPartial); f("data", s.data); f("memoryReference", s.memoryReference); f("offset", s.offset); }
#define DAP_REQUESTS1(X) X(AttachRequest) X(BreakpointLocationsRequest) X(CancelRequest) X(CompletionsRequest) X(ConfigurationDoneRequest) X(ContinueRequest) X(DataBreakpointInfoRequest) X(DisassembleRequest) X(DisconnectRequest) X(EvaluateRequest) X(ExceptionInfoRequest) X(GotoRequest) X(GotoTargetsRequest) X(InitializeRequest) X(LaunchRequest) X(LoadedSourcesRequest) X(ModulesRequest) X(NextRequest) X(PauseRequest) X(ReadMemoryRequest) X(RestartFrameRequest) X(RestartRequest)
#define DAP_REQUESTS2(X) X(ReverseContinueRequest) X(RunInTerminalRequest) X(ScopesRequest) X(SetBreakpointsRequest) X(SetDataBreakpointsRequest) X(SetExceptionBreakpointsRequest) X(SetExpressionRequest) X(SetFunctionBreakpointsRequest) X(SetInstructionBreakpointsRequest) X(SetVariableRequest) X(SourceRequest) X(StackTraceRequest) X(StartDebuggingRequest) X(StepBackRequest) X(StepInRequest) X(StepInTargetsRequest) X(StepOutRequest) X(TerminateRequest) X(TerminateThreadsRequest) X(ThreadsRequest) X(VariablesRequest) X(WriteMemoryRequest)
#define DAP_EVENTS(X) X(BreakpointEvent) X(CapabilitiesEvent) X(ContinuedEvent) X(ExitedEvent) X(InitializedEvent) X(InvalidatedEvent) X(LoadedSourceEvent) X(MemoryEvent) X(ModuleEvent) X(OutputEvent) X(ProcessEvent) X(ProgressEndEvent) X(ProgressStartEvent) X(ProgressUpdateEvent) X(StoppedEvent) X(TerminatedEvent) X(ThreadEvent)
#define DAP_RESPONSES(X) X(AttachResponse) X(BreakpointLocationsResponse) X(CancelResponse) X(CompletionsResponse) X(ConfigurationDoneResponse) X(ContinueResponse) X(DataBreakpointInfoResponse) X(DisassembleResponse) X(DisconnectResponse) X(ErrorResponse) X(EvaluateResponse) X(ExceptionInfoResponse) X(GotoResponse) X(GotoTargetsResponse) X(InitializeResponse) X(LaunchResponse) X(LoadedSourcesResponse) X(ModulesResponse) X(NextResponse) X(PauseResponse) X(ReadMemoryResponse) X(RestartFrameResponse) X(RestartResponse) X(ReverseContinueResponse) X(RunInTerminalResponse) X(ScopesResponse) X(SetBreakpointsResponse) X(SetDataBreakpointsResponse) X(SetExceptionBreakpointsResponse) X(SetExpressionResponse) X(SetFunctionBreakpointsResponse) X(SetInstructionBreakpointsResponse) X(SetVariableResponse) X(SourceResponse) X(StackTraceResponse) X(StartDebuggingResponse) X(StepBackResponse) X(StepInResponse) X(StepInTargetsResponse) X(StepOutResponse) X(TerminateResponse) X(TerminateThreadsResponse) X(ThreadsResponse) X(VariablesResponse) X(WriteMemoryResponse)
#define DAP_STRUCTS(X) X(Checksum) X(Source) X(Breakpoint) X(BreakpointLocation) X(ColumnDescriptor) X(BreakpointMode) X(ExceptionBreakpointsFilter) X(Capabilities) X(CompletionItem) X(DisassembledInstruction) X(Message) X(VariablePresentationHint) X(ValueFormat) X(ExceptionDetails) X(GotoTarget) X(Module) X(Scope) X(SourceBreakpoint) X(DataBreakpoint) X(ExceptionPathSegment) X(ExceptionOptions) X(ExceptionFilterOptions) X(FunctionBreakpoint) X(InstructionBreakpoint) X(StackFrame) X(StackFrameFormat) X(StepInTarget) X(Thread) X(Variable)

// generated by tools/gen_glue.py
members! {
    Annotations { "audience" => audience, "lastModified" => last_modified, "priority" => priority },
    AudioContent { "_meta" => meta, "annotations" => annotations, "data" => data, "mimeType" => mime_type },
    BaseMetadata { "name" => name, "title" => title },
    BlobResourceContents { "_meta" => meta, "blob" => blob, "mimeType" => mime_type, "uri" => uri },
    BooleanSchema { "default" => default, "description" => description, "title" => title },
    CallToolMeta { "progressToken" => progress_token; extra },
    CallToolRequest { "id" => id, "params" => params },
    CallToolRequestParams { "_meta" => meta, "arguments" => arguments, "name" => name, "task" => task },
    CallToolResult { "_meta" => meta, "content" => content, "isError" => is_error, "structuredContent" => structured_content },
    CancelTaskParams { "taskId" => task_id },
    CancelTaskRequest { "id" => id, "params" => params },
    CancelTaskResult { "_meta" => meta, "createdAt" => created_at, "lastUpdatedAt" => last_updated_at, "pollInterval" => poll_interval, "status" => status, "statusMessage" => status_message, "taskId" => task_id, "ttl" => ttl; extra },
    CancelledNotification { "params" => params },
    CancelledNotificationParams { "_meta" => meta, "reason" => reason, "requestId" => request_id },
    ClientCapabilities { "elicitation" => elicitation, "experimental" => experimental, "roots" => roots, "sampling" => sampling, "tasks" => tasks },
    ClientElicitation { "form" => form, "url" => url },
    ClientRoots { "listChanged" => list_changed },
    ClientSampling { "context" => context, "tools" => tools },
    ClientTaskElicitation { "create" => create },
    ClientTaskRequest { "elicitation" => elicitation, "sampling" => sampling },
    ClientTaskSampling { "createMessage" => create_message },
    ClientTasks { "cancel" => cancel, "list" => list, "requests" => requests },
    CompleteRequest { "id" => id, "params" => params },
    CompleteRequestArgument { "name" => name, "value" => value },
    CompleteRequestContext { "arguments" => arguments },
    CompleteRequestMeta { "progressToken" => progress_token; extra },
    CompleteRequestParams { "_meta" => meta, "argument" => argument, "context" => context, "ref" => ref_ },
    CompleteResult { "_meta" => meta, "completion" => completion },
    CompleteResultCompletion { "hasMore" => has_more, "total" => total, "values" => values },
    CreateMessageRequest { "id" => id, "params" => params },
    CreateMessageRequestParams { "_meta" => meta, "includeContext" => include_context, "maxTokens" => max_tokens, "messages" => messages, "metadata" => metadata, "modelPreferences" => model_preferences, "stopSequences" => stop_sequences, "systemPrompt" => system_prompt, "task" => task, "temperature" => temperature, "toolChoice" => tool_choice, "tools" => tools },
    CreateMessageResult { "_meta" => meta, "content" => content, "model" => model, "role" => role, "stopReason" => stop_reason },
    CreateTaskResult { "_meta" => meta, "task" => task },
    ElicitCompleteParams { "elicitationId" => elicitation_id },
    ElicitFormMeta { "progressToken" => progress_token; extra },
    ElicitFormSchema { "$schema" => schema, "properties" => properties, "required" => required },
    ElicitRequest { "id" => id, "params" => params },
    ElicitRequestFormParams { "_meta" => meta, "message" => message, "requestedSchema" => requested_schema, "task" => task },
    ElicitRequestUrlParams { "_meta" => meta, "elicitationId" => elicitation_id, "message" => message, "task" => task, "url" => url },
    ElicitResult { "_meta" => meta, "action" => action, "content" => content },
    ElicitUrlMeta { "progressToken" => progress_token; extra },
    ElicitationCompleteNotification { "params" => params },
    EmbeddedResource { "_meta" => meta, "annotations" => annotations, "resource" => resource },
    GetPromptMeta { "progressToken" => progress_token; extra },
    GetPromptRequest { "id" => id, "params" => params },
    GetPromptRequestParams { "_meta" => meta, "arguments" => arguments, "name" => name },
    GetPromptResult { "_meta" => meta, "description" => description, "messages" => messages },
    GetTaskParams { "taskId" => task_id },
    GetTaskPayloadParams { "taskId" => task_id },
    GetTaskPayloadRequest { "id" => id, "params" => params },
    GetTaskPayloadResult { "_meta" => meta; extra },
    GetTaskRequest { "id" => id, "params" => params },
    GetTaskResult { "_meta" => meta, "createdAt" => created_at, "lastUpdatedAt" => last_updated_at, "pollInterval" => poll_interval, "status" => status, "statusMessage" => status_message, "taskId" => task_id, "ttl" => ttl; extra },
    Icon { "mimeType" => mime_type, "sizes" => sizes, "src" => src, "theme" => theme },
    Icons { "icons" => icons },
    ImageContent { "_meta" => meta, "annotations" => annotations, "data" => data, "mimeType" => mime_type },
    Implementation { "description" => description, "icons" => icons, "name" => name, "title" => title, "version" => version, "websiteUrl" => website_url },
    InitializeMeta { "progressToken" => progress_token; extra },
    InitializeRequest { "id" => id, "params" => params },
    InitializeRequestParams { "_meta" => meta, "capabilities" => capabilities, "clientInfo" => client_info, "protocolVersion" => protocol_version },
    InitializeResult { "_meta" => meta, "capabilities" => capabilities, "instructions" => instructions, "protocolVersion" => protocol_version, "serverInfo" => server_info },
    InitializedNotification { "params" => params },
    JsonrpcErrorResponse { "error" => error, "id" => id },
    JsonrpcNotification { "method" => method, "params" => params },
    JsonrpcRequest { "id" => id, "method" => method, "params" => params },
    JsonrpcResultResponse { "id" => id, "result" => result },
    LegacyTitledEnumSchema { "default" => default, "description" => description, "enum" => enum_, "enumNames" => enum_names, "title" => title },
    ListPromptsRequest { "id" => id, "params" => params },
    ListPromptsResult { "_meta" => meta, "nextCursor" => next_cursor, "prompts" => prompts },
    ListResourceTemplatesRequest { "id" => id, "params" => params },
    ListResourceTemplatesResult { "_meta" => meta, "nextCursor" => next_cursor, "resourceTemplates" => resource_templates },
    ListResourcesRequest { "id" => id, "params" => params },
    ListResourcesResult { "_meta" => meta, "nextCursor" => next_cursor, "resources" => resources },
    ListRootsRequest { "id" => id, "params" => params },
    ListRootsResult { "_meta" => meta, "roots" => roots },
    ListTasksRequest { "id" => id, "params" => params },
    ListTasksResult { "_meta" => meta, "nextCursor" => next_cursor, "tasks" => tasks },
    ListToolsRequest { "id" => id, "params" => params },
    ListToolsResult { "_meta" => meta, "nextCursor" => next_cursor, "tools" => tools },
    LoggingMessageNotification { "params" => params },
    LoggingMessageNotificationParams { "_meta" => meta, "data" => data, "level" => level, "logger" => logger },
    MessageMeta { "progressToken" => progress_token; extra },
    ModelHint { "name" => name },
    ModelPreferences { "costPriority" => cost_priority, "hints" => hints, "intelligencePriority" => intelligence_priority, "speedPriority" => speed_priority },
    Notification { "method" => method, "params" => params },
    NotificationParams { "_meta" => meta },
    NumberSchema { "default" => default, "description" => description, "maximum" => maximum, "minimum" => minimum, "title" => title, "type" => type_ },
    PaginatedMeta { "progressToken" => progress_token; extra },
    PaginatedRequest { "id" => id, "method" => method, "params" => params },
    PaginatedRequestParams { "_meta" => meta, "cursor" => cursor },
    PaginatedResult { "_meta" => meta, "nextCursor" => next_cursor },
    PingRequest { "id" => id, "params" => params },
    ProgressNotification { "params" => params },
    ProgressNotificationParams { "_meta" => meta, "message" => message, "progress" => progress, "progressToken" => progress_token, "total" => total },
    Prompt { "_meta" => meta, "arguments" => arguments, "description" => description, "icons" => icons, "name" => name, "title" => title },
    PromptArgument { "description" => description, "name" => name, "required" => required, "title" => title },
    PromptListChangedNotification { "params" => params },
    PromptMessage { "content" => content, "role" => role },
    PromptReference { "name" => name, "title" => title },
    ReadResourceMeta { "progressToken" => progress_token; extra },
    ReadResourceRequest { "id" => id, "params" => params },
    ReadResourceRequestParams { "_meta" => meta, "uri" => uri },
    ReadResourceResult { "_meta" => meta, "contents" => contents },
    RelatedTaskMetadata { "taskId" => task_id },
    Request { "method" => method, "params" => params },
    RequestParams { "_meta" => meta },
    RequestParamsMeta { "progressToken" => progress_token; extra },
    Resource { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "mimeType" => mime_type, "name" => name, "size" => size, "title" => title, "uri" => uri },
    ResourceContents { "_meta" => meta, "mimeType" => mime_type, "uri" => uri },
    ResourceLink { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "mimeType" => mime_type, "name" => name, "size" => size, "title" => title, "uri" => uri },
    ResourceListChangedNotification { "params" => params },
    ResourceMeta { "progressToken" => progress_token; extra },
    ResourceRequestParams { "_meta" => meta, "uri" => uri },
    ResourceTemplate { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "mimeType" => mime_type, "name" => name, "title" => title, "uriTemplate" => uri_template },
    ResourceTemplateReference { "uri" => uri },
    ResourceUpdatedNotification { "params" => params },
    ResourceUpdatedNotificationParams { "_meta" => meta, "uri" => uri },
    Result { "_meta" => meta; extra },
    Root { "_meta" => meta, "name" => name, "uri" => uri },
    RootsListChangedNotification { "params" => params },
    RpcError { "code" => code, "data" => data, "message" => message },
    SamplingMessage { "_meta" => meta, "content" => content, "role" => role },
    ServerCapabilities { "completions" => completions, "experimental" => experimental, "logging" => logging, "prompts" => prompts, "resources" => resources, "tasks" => tasks, "tools" => tools },
    ServerCapabilitiesPrompts { "listChanged" => list_changed },
    ServerCapabilitiesResources { "listChanged" => list_changed, "subscribe" => subscribe },
    ServerCapabilitiesTools { "listChanged" => list_changed },
    ServerTaskRequest { "tools" => tools },
    ServerTaskTools { "call" => call },
    ServerTasks { "cancel" => cancel, "list" => list, "requests" => requests },
    SetLevelMeta { "progressToken" => progress_token; extra },
    SetLevelRequest { "id" => id, "params" => params },
    SetLevelRequestParams { "_meta" => meta, "level" => level },
    StringSchema { "default" => default, "description" => description, "format" => format, "maxLength" => max_length, "minLength" => min_length, "title" => title },
    SubscribeMeta { "progressToken" => progress_token; extra },
    SubscribeRequest { "id" => id, "params" => params },
    SubscribeRequestParams { "_meta" => meta, "uri" => uri },
    Task { "createdAt" => created_at, "lastUpdatedAt" => last_updated_at, "pollInterval" => poll_interval, "status" => status, "statusMessage" => status_message, "taskId" => task_id, "ttl" => ttl },
    TaskAugmentedMeta { "progressToken" => progress_token; extra },
    TaskAugmentedRequestParams { "_meta" => meta, "task" => task },
    TaskMetadata { "ttl" => ttl },
    TaskStatusNotification { "params" => params },
    TaskStatusNotificationParams { "_meta" => meta, "createdAt" => created_at, "lastUpdatedAt" => last_updated_at, "pollInterval" => poll_interval, "status" => status, "statusMessage" => status_message, "taskId" => task_id, "ttl" => ttl },
    TextContent { "_meta" => meta, "annotations" => annotations, "text" => text },
    TextResourceContents { "_meta" => meta, "mimeType" => mime_type, "text" => text, "uri" => uri },
    TitledMultiSelectEnumSchema { "default" => default, "description" => description, "items" => items, "maxItems" => max_items, "minItems" => min_items, "title" => title },
    TitledMultiSelectEnumSchemaItems { "anyOf" => any_of },
    TitledMultiSelectEnumSchemaItemsAnyOfItem { "const" => const_, "title" => title },
    TitledSingleSelectEnumSchema { "default" => default, "description" => description, "oneOf" => one_of, "title" => title },
    TitledSingleSelectEnumSchemaOneOfItem { "const" => const_, "title" => title },
    Tool { "_meta" => meta, "annotations" => annotations, "description" => description, "execution" => execution, "icons" => icons, "inputSchema" => input_schema, "name" => name, "outputSchema" => output_schema, "title" => title },
    ToolAnnotations { "destructiveHint" => destructive_hint, "idempotentHint" => idempotent_hint, "openWorldHint" => open_world_hint, "readOnlyHint" => read_only_hint, "title" => title },
    ToolChoice { "mode" => mode },
    ToolExecution { "taskSupport" => task_support },
    ToolInputSchema { "$schema" => schema, "properties" => properties, "required" => required },
    ToolListChangedNotification { "params" => params },
    ToolOutputSchema { "$schema" => schema, "properties" => properties, "required" => required },
    ToolResultContent { "_meta" => meta, "content" => content, "isError" => is_error, "structuredContent" => structured_content, "toolUseId" => tool_use_id },
    ToolUseContent { "_meta" => meta, "id" => id, "input" => input, "name" => name },
    UnsubscribeMeta { "progressToken" => progress_token; extra },
    UnsubscribeRequest { "id" => id, "params" => params },
    UnsubscribeRequestParams { "_meta" => meta, "uri" => uri },
    UntitledMultiSelectEnumSchema { "default" => default, "description" => description, "items" => items, "maxItems" => max_items, "minItems" => min_items, "title" => title },
    UntitledMultiSelectEnumSchemaItems { "enum" => enum_ },
    UntitledSingleSelectEnumSchema { "default" => default, "description" => description, "enum" => enum_, "title" => title },
    UrlElicitError { "data" => data },
    UrlElicitErrorData { "elicitations" => elicitations; extra },
    UrlElicitationRequiredError { "error" => error, "id" => id }
}
news! {
    AudioContent(data "data", mime_type "mimeType", annotations "annotations", meta "_meta"),
    BooleanSchema(default "default", description "description", title "title"),
    CallToolRequest(id "id", params "params"),
    CancelTaskRequest(id "id", params "params"),
    CancelledNotification(params "params"),
    CompleteRequest(id "id", params "params"),
    CreateMessageRequest(id "id", params "params"),
    ElicitFormSchema(properties "properties", required "required", schema "$schema"),
    ElicitRequest(id "id", params "params"),
    ElicitRequestFormParams(message "message", requested_schema "requestedSchema", meta "_meta", task "task"),
    ElicitRequestUrlParams(elicitation_id "elicitationId", message "message", url "url", meta "_meta", task "task"),
    ElicitationCompleteNotification(params "params"),
    EmbeddedResource(resource "resource", annotations "annotations", meta "_meta"),
    GetPromptRequest(id "id", params "params"),
    GetTaskPayloadRequest(id "id", params "params"),
    GetTaskRequest(id "id", params "params"),
    ImageContent(data "data", mime_type "mimeType", annotations "annotations", meta "_meta"),
    InitializeRequest(id "id", params "params"),
    InitializedNotification(params "params"),
    JsonrpcErrorResponse(error "error", id "id"),
    JsonrpcNotification(method "method", params "params"),
    JsonrpcRequest(id "id", method "method", params "params"),
    JsonrpcResultResponse(id "id", result "result"),
    LegacyTitledEnumSchema(enum_ "enum", enum_names "enumNames", default "default", description "description", title "title"),
    ListPromptsRequest(id "id", params "params"),
    ListResourceTemplatesRequest(id "id", params "params"),
    ListResourcesRequest(id "id", params "params"),
    ListRootsRequest(id "id", params "params"),
    ListTasksRequest(id "id", params "params"),
    ListToolsRequest(id "id", params "params"),
    LoggingMessageNotification(params "params"),
    PaginatedRequest(id "id", method "method", params "params"),
    PingRequest(id "id", params "params"),
    ProgressNotification(params "params"),
    PromptListChangedNotification(params "params"),
    PromptReference(name "name", title "title"),
    ReadResourceRequest(id "id", params "params"),
    ResourceLink(icons "icons", name "name", uri "uri", annotations "annotations", description "description", meta "_meta", mime_type "mimeType", size "size", title "title"),
    ResourceListChangedNotification(params "params"),
    ResourceTemplateReference(uri "uri"),
    ResourceUpdatedNotification(params "params"),
    RootsListChangedNotification(params "params"),
    SetLevelRequest(id "id", params "params"),
    StringSchema(default "default", description "description", format "format", max_length "maxLength", min_length "minLength", title "title"),
    SubscribeRequest(id "id", params "params"),
    TaskStatusNotification(params "params"),
    TextContent(text "text", annotations "annotations", meta "_meta"),
    TitledMultiSelectEnumSchema(default "default", items "items", description "description", max_items "maxItems", min_items "minItems", title "title"),
    TitledSingleSelectEnumSchema(one_of "oneOf", default "default", description "description", title "title"),
    ToolInputSchema(required "required", properties "properties", schema "$schema"),
    ToolListChangedNotification(params "params"),
    ToolOutputSchema(required "required", properties "properties", schema "$schema"),
    ToolResultContent(content "content", tool_use_id "toolUseId", is_error "isError", meta "_meta", structured_content "structuredContent"),
    ToolUseContent(id "id", input "input", name "name", meta "_meta"),
    UnsubscribeRequest(id "id", params "params"),
    UntitledMultiSelectEnumSchema(default "default", items "items", description "description", max_items "maxItems", min_items "minItems", title "title"),
    UntitledMultiSelectEnumSchemaItems(enum_ "enum"),
    UntitledSingleSelectEnumSchema(enum_ "enum", default "default", description "description", title "title"),
    UrlElicitError(data "*", message "*"),
    UrlElicitationRequiredError(error "error", id "id")
}
consts! {
    AudioContent.type_ "type" type_value type_name,
    BooleanSchema.type_ "type" type_value type_name,
    CallToolRequest.jsonrpc "jsonrpc" _ _,
    CallToolRequest.method "method" method_value method_name,
    CancelTaskRequest.jsonrpc "jsonrpc" _ _,
    CancelTaskRequest.method "method" method_value method_name,
    CancelledNotification.jsonrpc "jsonrpc" _ _,
    CancelledNotification.method "method" method_value method_name,
    CompleteRequest.jsonrpc "jsonrpc" _ _,
    CompleteRequest.method "method" method_value method_name,
    CreateMessageRequest.jsonrpc "jsonrpc" _ _,
    CreateMessageRequest.method "method" method_value method_name,
    ElicitFormSchema.type_ "type" type_value type_name,
    ElicitRequest.jsonrpc "jsonrpc" _ _,
    ElicitRequest.method "method" method_value method_name,
    ElicitRequestFormParams.mode "mode" mode_value mode_name,
    ElicitRequestUrlParams.mode "mode" mode_value mode_name,
    ElicitationCompleteNotification.jsonrpc "jsonrpc" _ _,
    ElicitationCompleteNotification.method "method" method_value method_name,
    EmbeddedResource.type_ "type" type_value type_name,
    GetPromptRequest.jsonrpc "jsonrpc" _ _,
    GetPromptRequest.method "method" method_value method_name,
    GetTaskPayloadRequest.jsonrpc "jsonrpc" _ _,
    GetTaskPayloadRequest.method "method" method_value method_name,
    GetTaskRequest.jsonrpc "jsonrpc" _ _,
    GetTaskRequest.method "method" method_value method_name,
    ImageContent.type_ "type" type_value type_name,
    InitializeRequest.jsonrpc "jsonrpc" _ _,
    InitializeRequest.method "method" method_value method_name,
    InitializedNotification.jsonrpc "jsonrpc" _ _,
    InitializedNotification.method "method" method_value method_name,
    JsonrpcErrorResponse.jsonrpc "jsonrpc" _ _,
    JsonrpcNotification.jsonrpc "jsonrpc" _ _,
    JsonrpcRequest.jsonrpc "jsonrpc" _ _,
    JsonrpcResultResponse.jsonrpc "jsonrpc" _ _,
    LegacyTitledEnumSchema.type_ "type" type_value type_name,
    ListPromptsRequest.jsonrpc "jsonrpc" _ _,
    ListPromptsRequest.method "method" method_value method_name,
    ListResourceTemplatesRequest.jsonrpc "jsonrpc" _ _,
    ListResourceTemplatesRequest.method "method" method_value method_name,
    ListResourcesRequest.jsonrpc "jsonrpc" _ _,
    ListResourcesRequest.method "method" method_value method_name,
    ListRootsRequest.jsonrpc "jsonrpc" _ _,
    ListRootsRequest.method "method" method_value method_name,
    ListTasksRequest.jsonrpc "jsonrpc" _ _,
    ListTasksRequest.method "method" method_value method_name,
    ListToolsRequest.jsonrpc "jsonrpc" _ _,
    ListToolsRequest.method "method" method_value method_name,
    LoggingMessageNotification.jsonrpc "jsonrpc" _ _,
    LoggingMessageNotification.method "method" method_value method_name,
    PaginatedRequest.jsonrpc "jsonrpc" _ _,
    PingRequest.jsonrpc "jsonrpc" _ _,
    PingRequest.method "method" method_value method_name,
    ProgressNotification.jsonrpc "jsonrpc" _ _,
    ProgressNotification.method "method" method_value method_name,
    PromptListChangedNotification.jsonrpc "jsonrpc" _ _,
    PromptListChangedNotification.method "method" method_value method_name,
    PromptReference.type_ "type" type_value type_name,
    ReadResourceRequest.jsonrpc "jsonrpc" _ _,
    ReadResourceRequest.method "method" method_value method_name,
    ResourceLink.type_ "type" type_value type_name,
    ResourceListChangedNotification.jsonrpc "jsonrpc" _ _,
    ResourceListChangedNotification.method "method" method_value method_name,
    ResourceTemplateReference.type_ "type" type_value type_name,
    ResourceUpdatedNotification.jsonrpc "jsonrpc" _ _,
    ResourceUpdatedNotification.method "method" method_value method_name,
    RootsListChangedNotification.jsonrpc "jsonrpc" _ _,
    RootsListChangedNotification.method "method" method_value method_name,
    SetLevelRequest.jsonrpc "jsonrpc" _ _,
    SetLevelRequest.method "method" method_value method_name,
    StringSchema.type_ "type" type_value type_name,
    SubscribeRequest.jsonrpc "jsonrpc" _ _,
    SubscribeRequest.method "method" method_value method_name,
    TaskStatusNotification.jsonrpc "jsonrpc" _ _,
    TaskStatusNotification.method "method" method_value method_name,
    TextContent.type_ "type" type_value type_name,
    TitledMultiSelectEnumSchema.type_ "type" type_value type_name,
    TitledSingleSelectEnumSchema.type_ "type" type_value type_name,
    ToolInputSchema.type_ "type" type_value type_name,
    ToolListChangedNotification.jsonrpc "jsonrpc" _ _,
    ToolListChangedNotification.method "method" method_value method_name,
    ToolOutputSchema.type_ "type" type_value type_name,
    ToolResultContent.type_ "type" type_value type_name,
    ToolUseContent.type_ "type" type_value type_name,
    UnsubscribeRequest.jsonrpc "jsonrpc" _ _,
    UnsubscribeRequest.method "method" method_value method_name,
    UntitledMultiSelectEnumSchema.type_ "type" type_value type_name,
    UntitledMultiSelectEnumSchemaItems.type_ "type" type_value type_name,
    UntitledSingleSelectEnumSchema.type_ "type" type_value type_name,
    UrlElicitationRequiredError.jsonrpc "jsonrpc" _ _
}
convs! {
    m::CancelledNotification => m::ClientNotification, "CancelledNotification", "ClientNotification", same, CancelledNotification;
    m::InitializedNotification => m::ClientNotification, "InitializedNotification", "ClientNotification", same, InitializedNotification;
    m::ProgressNotification => m::ClientNotification, "ProgressNotification", "ClientNotification", same, ProgressNotification;
    m::TaskStatusNotification => m::ClientNotification, "TaskStatusNotification", "ClientNotification", same, TaskStatusNotification;
    m::RootsListChangedNotification => m::ClientNotification, "RootsListChangedNotification", "ClientNotification", same, RootsListChangedNotification;
    m::InitializeRequest => m::ClientRequest, "InitializeRequest", "ClientRequest", same, InitializeRequest;
    m::PingRequest => m::ClientRequest, "PingRequest", "ClientRequest", same, PingRequest;
    m::ListResourcesRequest => m::ClientRequest, "ListResourcesRequest", "ClientRequest", same, ListResourcesRequest;
    m::ListResourceTemplatesRequest => m::ClientRequest, "ListResourceTemplatesRequest", "ClientRequest", same, ListResourceTemplatesRequest;
    m::ReadResourceRequest => m::ClientRequest, "ReadResourceRequest", "ClientRequest", same, ReadResourceRequest;
    m::SubscribeRequest => m::ClientRequest, "SubscribeRequest", "ClientRequest", same, SubscribeRequest;
    m::UnsubscribeRequest => m::ClientRequest, "UnsubscribeRequest", "ClientRequest", same, UnsubscribeRequest;
    m::ListPromptsRequest => m::ClientRequest, "ListPromptsRequest", "ClientRequest", same, ListPromptsRequest;
    m::GetPromptRequest => m::ClientRequest, "GetPromptRequest", "ClientRequest", same, GetPromptRequest;
    m::ListToolsRequest => m::ClientRequest, "ListToolsRequest", "ClientRequest", same, ListToolsRequest;
    m::CallToolRequest => m::ClientRequest, "CallToolRequest", "ClientRequest", same, CallToolRequest;
    m::GetTaskRequest => m::ClientRequest, "GetTaskRequest", "ClientRequest", same, GetTaskRequest;
    m::GetTaskPayloadRequest => m::ClientRequest, "GetTaskPayloadRequest", "ClientRequest", same, GetTaskPayloadRequest;
    m::CancelTaskRequest => m::ClientRequest, "CancelTaskRequest", "ClientRequest", same, CancelTaskRequest;
    m::ListTasksRequest => m::ClientRequest, "ListTasksRequest", "ClientRequest", same, ListTasksRequest;
    m::SetLevelRequest => m::ClientRequest, "SetLevelRequest", "ClientRequest", same, SetLevelRequest;
    m::CompleteRequest => m::ClientRequest, "CompleteRequest", "ClientRequest", same, CompleteRequest;
    m::GetTaskResult => m::ClientResult, "GetTaskResult", "ClientResult", same, GetTaskResult;
    m::CancelTaskResult => m::ClientResult, "CancelTaskResult", "ClientResult", same, CancelTaskResult;
    m::ListTasksResult => m::ClientResult, "ListTasksResult", "ClientResult", same, ListTasksResult;
    m::CreateMessageResult => m::ClientResult, "CreateMessageResult", "ClientResult", same, CreateMessageResult;
    m::ListRootsResult => m::ClientResult, "ListRootsResult", "ClientResult", same, ListRootsResult;
    m::ElicitResult => m::ClientResult, "ElicitResult", "ClientResult", same, ElicitResult;
    m::Result => m::ClientResult, "Result", "ClientResult", same, Result;
    m::GetTaskPayloadResult => m::ClientResult, "GetTaskPayloadResult", "ClientResult", same, GetTaskPayloadResult;
    m::PromptReference => m::CompleteRequestRef, "PromptReference", "CompleteRequestRef", same, PromptReference;
    m::ResourceTemplateReference => m::CompleteRequestRef, "ResourceTemplateReference", "CompleteRequestRef", same, ResourceTemplateReference;
    m::TextContent => m::ContentBlock, "TextContent", "ContentBlock", same, TextContent;
    m::ImageContent => m::ContentBlock, "ImageContent", "ContentBlock", same, ImageContent;
    m::AudioContent => m::ContentBlock, "AudioContent", "ContentBlock", same, AudioContent;
    m::ResourceLink => m::ContentBlock, "ResourceLink", "ContentBlock", same, ResourceLink;
    m::EmbeddedResource => m::ContentBlock, "EmbeddedResource", "ContentBlock", same, EmbeddedResource;
    m::TextContent => m::CreateMessageContent, "TextContent", "CreateMessageContent", same, TextContent;
    m::ImageContent => m::CreateMessageContent, "ImageContent", "CreateMessageContent", same, ImageContent;
    m::AudioContent => m::CreateMessageContent, "AudioContent", "CreateMessageContent", same, AudioContent;
    m::ToolUseContent => m::CreateMessageContent, "ToolUseContent", "CreateMessageContent", same, ToolUseContent;
    m::ToolResultContent => m::CreateMessageContent, "ToolResultContent", "CreateMessageContent", same, ToolResultContent;
    m::ElicitRequestUrlParams => m::ElicitRequestParams, "ElicitRequestUrlParams", "ElicitRequestParams", same, UrlParams;
    m::ElicitRequestFormParams => m::ElicitRequestParams, "ElicitRequestFormParams", "ElicitRequestParams", same, FormParams;
    m::ElicitResultContentPrimitive => m::ElicitResultContent, "ElicitResultContentPrimitive", "ElicitResultContent", same, Primitive;
    m::TextResourceContents => m::EmbeddedResourceResource, "TextResourceContents", "EmbeddedResourceResource", same, TextResourceContents;
    m::BlobResourceContents => m::EmbeddedResourceResource, "BlobResourceContents", "EmbeddedResourceResource", same, BlobResourceContents;
    m::UntitledSingleSelectEnumSchema => m::EnumSchema, "UntitledSingleSelectEnumSchema", "EnumSchema", same, UntitledSingleSelectEnumSchema;
    m::TitledSingleSelectEnumSchema => m::EnumSchema, "TitledSingleSelectEnumSchema", "EnumSchema", same, TitledSingleSelectEnumSchema;
    m::UntitledMultiSelectEnumSchema => m::EnumSchema, "UntitledMultiSelectEnumSchema", "EnumSchema", same, UntitledMultiSelectEnumSchema;
    m::TitledMultiSelectEnumSchema => m::EnumSchema, "TitledMultiSelectEnumSchema", "EnumSchema", same, TitledMultiSelectEnumSchema;
    m::LegacyTitledEnumSchema => m::EnumSchema, "LegacyTitledEnumSchema", "EnumSchema", same, LegacyTitledEnumSchema;
    m::JsonrpcRequest => m::JsonrpcMessage, "JsonrpcRequest", "JsonrpcMessage", same, Request;
    m::JsonrpcNotification => m::JsonrpcMessage, "JsonrpcNotification", "JsonrpcMessage", same, Notification;
    m::JsonrpcResultResponse => m::JsonrpcMessage, "JsonrpcResultResponse", "JsonrpcMessage", same, ResultResponse;
    m::JsonrpcErrorResponse => m::JsonrpcMessage, "JsonrpcErrorResponse", "JsonrpcMessage", same, ErrorResponse;
    m::JsonrpcResultResponse => m::JsonrpcResponse, "JsonrpcResultResponse", "JsonrpcResponse", same, ResultResponse;
    m::JsonrpcErrorResponse => m::JsonrpcResponse, "JsonrpcErrorResponse", "JsonrpcResponse", same, ErrorResponse;
    m::UntitledMultiSelectEnumSchema => m::MultiSelectEnumSchema, "UntitledMultiSelectEnumSchema", "MultiSelectEnumSchema", same, UntitledMultiSelectEnumSchema;
    m::TitledMultiSelectEnumSchema => m::MultiSelectEnumSchema, "TitledMultiSelectEnumSchema", "MultiSelectEnumSchema", same, TitledMultiSelectEnumSchema;
    m::StringSchema => m::PrimitiveSchemaDefinition, "StringSchema", "PrimitiveSchemaDefinition", same, StringSchema;
    m::NumberSchema => m::PrimitiveSchemaDefinition, "NumberSchema", "PrimitiveSchemaDefinition", same, NumberSchema;
    m::BooleanSchema => m::PrimitiveSchemaDefinition, "BooleanSchema", "PrimitiveSchemaDefinition", same, BooleanSchema;
    m::UntitledSingleSelectEnumSchema => m::PrimitiveSchemaDefinition, "UntitledSingleSelectEnumSchema", "PrimitiveSchemaDefinition", same, UntitledSingleSelectEnumSchema;
    m::TitledSingleSelectEnumSchema => m::PrimitiveSchemaDefinition, "TitledSingleSelectEnumSchema", "PrimitiveSchemaDefinition", same, TitledSingleSelectEnumSchema;
    m::UntitledMultiSelectEnumSchema => m::PrimitiveSchemaDefinition, "UntitledMultiSelectEnumSchema", "PrimitiveSchemaDefinition", same, UntitledMultiSelectEnumSchema;
    m::TitledMultiSelectEnumSchema => m::PrimitiveSchemaDefinition, "TitledMultiSelectEnumSchema", "PrimitiveSchemaDefinition", same, TitledMultiSelectEnumSchema;
    m::LegacyTitledEnumSchema => m::PrimitiveSchemaDefinition, "LegacyTitledEnumSchema", "PrimitiveSchemaDefinition", same, LegacyTitledEnumSchema;
    m::TextResourceContents => m::ReadResourceContent, "TextResourceContents", "ReadResourceContent", same, TextResourceContents;
    m::BlobResourceContents => m::ReadResourceContent, "BlobResourceContents", "ReadResourceContent", same, BlobResourceContents;
    m::TextContent => m::SamplingMessageContent, "TextContent", "SamplingMessageContent", same, TextContent;
    m::ImageContent => m::SamplingMessageContent, "ImageContent", "SamplingMessageContent", same, ImageContent;
    m::AudioContent => m::SamplingMessageContent, "AudioContent", "SamplingMessageContent", same, AudioContent;
    m::ToolUseContent => m::SamplingMessageContent, "ToolUseContent", "SamplingMessageContent", same, ToolUseContent;
    m::ToolResultContent => m::SamplingMessageContent, "ToolResultContent", "SamplingMessageContent", same, ToolResultContent;
    m::TextContent => m::SamplingMessageContentBlock, "TextContent", "SamplingMessageContentBlock", same, TextContent;
    m::ImageContent => m::SamplingMessageContentBlock, "ImageContent", "SamplingMessageContentBlock", same, ImageContent;
    m::AudioContent => m::SamplingMessageContentBlock, "AudioContent", "SamplingMessageContentBlock", same, AudioContent;
    m::ToolUseContent => m::SamplingMessageContentBlock, "ToolUseContent", "SamplingMessageContentBlock", same, ToolUseContent;
    m::ToolResultContent => m::SamplingMessageContentBlock, "ToolResultContent", "SamplingMessageContentBlock", same, ToolResultContent;
    m::CancelledNotification => m::ServerNotification, "CancelledNotification", "ServerNotification", same, CancelledNotification;
    m::ProgressNotification => m::ServerNotification, "ProgressNotification", "ServerNotification", same, ProgressNotification;
    m::ResourceListChangedNotification => m::ServerNotification, "ResourceListChangedNotification", "ServerNotification", same, ResourceListChangedNotification;
    m::ResourceUpdatedNotification => m::ServerNotification, "ResourceUpdatedNotification", "ServerNotification", same, ResourceUpdatedNotification;
    m::PromptListChangedNotification => m::ServerNotification, "PromptListChangedNotification", "ServerNotification", same, PromptListChangedNotification;
    m::ToolListChangedNotification => m::ServerNotification, "ToolListChangedNotification", "ServerNotification", same, ToolListChangedNotification;
    m::TaskStatusNotification => m::ServerNotification, "TaskStatusNotification", "ServerNotification", same, TaskStatusNotification;
    m::LoggingMessageNotification => m::ServerNotification, "LoggingMessageNotification", "ServerNotification", same, LoggingMessageNotification;
    m::ElicitationCompleteNotification => m::ServerNotification, "ElicitationCompleteNotification", "ServerNotification", same, ElicitationCompleteNotification;
    m::PingRequest => m::ServerRequest, "PingRequest", "ServerRequest", same, PingRequest;
    m::GetTaskRequest => m::ServerRequest, "GetTaskRequest", "ServerRequest", same, GetTaskRequest;
    m::GetTaskPayloadRequest => m::ServerRequest, "GetTaskPayloadRequest", "ServerRequest", same, GetTaskPayloadRequest;
    m::CancelTaskRequest => m::ServerRequest, "CancelTaskRequest", "ServerRequest", same, CancelTaskRequest;
    m::ListTasksRequest => m::ServerRequest, "ListTasksRequest", "ServerRequest", same, ListTasksRequest;
    m::CreateMessageRequest => m::ServerRequest, "CreateMessageRequest", "ServerRequest", same, CreateMessageRequest;
    m::ListRootsRequest => m::ServerRequest, "ListRootsRequest", "ServerRequest", same, ListRootsRequest;
    m::ElicitRequest => m::ServerRequest, "ElicitRequest", "ServerRequest", same, ElicitRequest;
    m::InitializeResult => m::ServerResult, "InitializeResult", "ServerResult", same, InitializeResult;
    m::ListResourcesResult => m::ServerResult, "ListResourcesResult", "ServerResult", same, ListResourcesResult;
    m::ListResourceTemplatesResult => m::ServerResult, "ListResourceTemplatesResult", "ServerResult", same, ListResourceTemplatesResult;
    m::ReadResourceResult => m::ServerResult, "ReadResourceResult", "ServerResult", same, ReadResourceResult;
    m::ListPromptsResult => m::ServerResult, "ListPromptsResult", "ServerResult", same, ListPromptsResult;
    m::GetPromptResult => m::ServerResult, "GetPromptResult", "ServerResult", same, GetPromptResult;
    m::ListToolsResult => m::ServerResult, "ListToolsResult", "ServerResult", same, ListToolsResult;
    m::CallToolResult => m::ServerResult, "CallToolResult", "ServerResult", same, CallToolResult;
    m::GetTaskResult => m::ServerResult, "GetTaskResult", "ServerResult", same, GetTaskResult;
    m::CancelTaskResult => m::ServerResult, "CancelTaskResult", "ServerResult", same, CancelTaskResult;
    m::ListTasksResult => m::ServerResult, "ListTasksResult", "ServerResult", same, ListTasksResult;
    m::CompleteResult => m::ServerResult, "CompleteResult", "ServerResult", same, CompleteResult;
    m::Result => m::ServerResult, "Result", "ServerResult", same, Result;
    m::GetTaskPayloadResult => m::ServerResult, "GetTaskPayloadResult", "ServerResult", same, GetTaskPayloadResult;
    m::UntitledSingleSelectEnumSchema => m::SingleSelectEnumSchema, "UntitledSingleSelectEnumSchema", "SingleSelectEnumSchema", same, UntitledSingleSelectEnumSchema;
    m::TitledSingleSelectEnumSchema => m::SingleSelectEnumSchema, "TitledSingleSelectEnumSchema", "SingleSelectEnumSchema", same, TitledSingleSelectEnumSchema;
    m::InitializeResult => m::GenericResult, "InitializeResult", "GenericResult", same, _;
    m::ListResourcesResult => m::GenericResult, "ListResourcesResult", "GenericResult", same, _;
    m::ListResourceTemplatesResult => m::GenericResult, "ListResourceTemplatesResult", "GenericResult", same, _;
    m::ReadResourceResult => m::GenericResult, "ReadResourceResult", "GenericResult", same, _;
    m::ListPromptsResult => m::GenericResult, "ListPromptsResult", "GenericResult", same, _;
    m::GetPromptResult => m::GenericResult, "GetPromptResult", "GenericResult", same, _;
    m::ListToolsResult => m::GenericResult, "ListToolsResult", "GenericResult", same, _;
    m::CallToolResult => m::GenericResult, "CallToolResult", "GenericResult", same, _;
    m::GetTaskResult => m::GenericResult, "GetTaskResult", "GenericResult", same, _;
    m::GetTaskPayloadResult => m::GenericResult, "GetTaskPayloadResult", "GenericResult", same, _;
    m::CancelTaskResult => m::GenericResult, "CancelTaskResult", "GenericResult", same, _;
    m::ListTasksResult => m::GenericResult, "ListTasksResult", "GenericResult", same, _;
    m::CompleteResult => m::GenericResult, "CompleteResult", "GenericResult", same, _;
    m::RpcError => u::MessageFromServer, "RpcError", "MessageFromServer", same, Error;
    m::RpcError => u::MessageFromClient, "RpcError", "MessageFromClient", same, Error;
    m::JsonrpcRequest => u::CustomRequest, "JsonrpcRequest", "CustomRequest", method_params, _;
    m::JsonrpcNotification => u::CustomNotification, "JsonrpcNotification", "CustomNotification", method_params, _;
    m::Result => u::ResultFromClient, "Result", "ResultFromClient", same, Result;
    m::GetTaskResult => u::ResultFromClient, "GetTaskResult", "ResultFromClient", same, GetTaskResult;
    m::GetTaskPayloadResult => u::ResultFromClient, "GetTaskPayloadResult", "ResultFromClient", same, GetTaskPayloadResult;
    m::CancelTaskResult => u::ResultFromClient, "CancelTaskResult", "ResultFromClient", same, CancelTaskResult;
    m::ListTasksResult => u::ResultFromClient, "ListTasksResult", "ResultFromClient", same, ListTasksResult;
    m::CreateMessageResult => u::ResultFromClient, "CreateMessageResult", "ResultFromClient", same, CreateMessageResult;
    m::ListRootsResult => u::ResultFromClient, "ListRootsResult", "ResultFromClient", same, ListRootsResult;
    m::ElicitResult => u::ResultFromClient, "ElicitResult", "ResultFromClient", same, ElicitResult;
    m::CreateTaskResult => u::ResultFromClient, "CreateTaskResult", "ResultFromClient", same, CreateTaskResult;
    m::Result => u::MessageFromClient, "Result", "MessageFromClient", same, _;
    m::GetTaskResult => u::MessageFromClient, "GetTaskResult", "MessageFromClient", same, _;
    m::GetTaskPayloadResult => u::MessageFromClient, "GetTaskPayloadResult", "MessageFromClient", same, _;
    m::CancelTaskResult => u::MessageFromClient, "CancelTaskResult", "MessageFromClient", same, _;
    m::ListTasksResult => u::MessageFromClient, "ListTasksResult", "MessageFromClient", same, _;
    m::CreateMessageResult => u::MessageFromClient, "CreateMessageResult", "MessageFromClient", same, _;
    m::ListRootsResult => u::MessageFromClient, "ListRootsResult", "MessageFromClient", same, _;
    m::ElicitResult => u::MessageFromClient, "ElicitResult", "MessageFromClient", same, _;
    m::CreateTaskResult => u::MessageFromClient, "CreateTaskResult", "MessageFromClient", same, _;
    m::PingRequest => u::ServerJsonrpcRequest, "PingRequest", "ServerJsonrpcRequest", same, PingRequest;
    m::GetTaskRequest => u::ServerJsonrpcRequest, "GetTaskRequest", "ServerJsonrpcRequest", same, GetTaskRequest;
    m::GetTaskPayloadRequest => u::ServerJsonrpcRequest, "GetTaskPayloadRequest", "ServerJsonrpcRequest", same, GetTaskPayloadRequest;
    m::CancelTaskRequest => u::ServerJsonrpcRequest, "CancelTaskRequest", "ServerJsonrpcRequest", same, CancelTaskRequest;
    m::ListTasksRequest => u::ServerJsonrpcRequest, "ListTasksRequest", "ServerJsonrpcRequest", same, ListTasksRequest;
    m::CreateMessageRequest => u::ServerJsonrpcRequest, "CreateMessageRequest", "ServerJsonrpcRequest", same, CreateMessageRequest;
    m::ListRootsRequest => u::ServerJsonrpcRequest, "ListRootsRequest", "ServerJsonrpcRequest", same, ListRootsRequest;
    m::ElicitRequest => u::ServerJsonrpcRequest, "ElicitRequest", "ServerJsonrpcRequest", same, ElicitRequest;
    m::InitializeRequest => u::ClientJsonrpcRequest, "InitializeRequest", "ClientJsonrpcRequest", same, InitializeRequest;
    m::PingRequest => u::ClientJsonrpcRequest, "PingRequest", "ClientJsonrpcRequest", same, PingRequest;
    m::ListResourcesRequest => u::ClientJsonrpcRequest, "ListResourcesRequest", "ClientJsonrpcRequest", same, ListResourcesRequest;
    m::ListResourceTemplatesRequest => u::ClientJsonrpcRequest, "ListResourceTemplatesRequest", "ClientJsonrpcRequest", same, ListResourceTemplatesRequest;
    m::ReadResourceRequest => u::ClientJsonrpcRequest, "ReadResourceRequest", "ClientJsonrpcRequest", same, ReadResourceRequest;
    m::SubscribeRequest => u::ClientJsonrpcRequest, "SubscribeRequest", "ClientJsonrpcRequest", same, SubscribeRequest;
    m::UnsubscribeRequest => u::ClientJsonrpcRequest, "UnsubscribeRequest", "ClientJsonrpcRequest", same, UnsubscribeRequest;
    m::ListPromptsRequest => u::ClientJsonrpcRequest, "ListPromptsRequest", "ClientJsonrpcRequest", same, ListPromptsRequest;
    m::GetPromptRequest => u::ClientJsonrpcRequest, "GetPromptRequest", "ClientJsonrpcRequest", same, GetPromptRequest;
    m::ListToolsRequest => u::ClientJsonrpcRequest, "ListToolsRequest", "ClientJsonrpcRequest", same, ListToolsRequest;
    m::CallToolRequest => u::ClientJsonrpcRequest, "CallToolRequest", "ClientJsonrpcRequest", same, CallToolRequest;
    m::GetTaskRequest => u::ClientJsonrpcRequest, "GetTaskRequest", "ClientJsonrpcRequest", same, GetTaskRequest;
    m::GetTaskPayloadRequest => u::ClientJsonrpcRequest, "GetTaskPayloadRequest", "ClientJsonrpcRequest", same, GetTaskPayloadRequest;
    m::CancelTaskRequest => u::ClientJsonrpcRequest, "CancelTaskRequest", "ClientJsonrpcRequest", same, CancelTaskRequest;
    m::ListTasksRequest => u::ClientJsonrpcRequest, "ListTasksRequest", "ClientJsonrpcRequest", same, ListTasksRequest;
    m::SetLevelRequest => u::ClientJsonrpcRequest, "SetLevelRequest", "ClientJsonrpcRequest", same, SetLevelRequest;
    m::CompleteRequest => u::ClientJsonrpcRequest, "CompleteRequest", "ClientJsonrpcRequest", same, CompleteRequest;
    m::Result => u::ResultFromServer, "Result", "ResultFromServer", same, Result;
    m::InitializeResult => u::ResultFromServer, "InitializeResult", "ResultFromServer", same, InitializeResult;
    m::ListResourcesResult => u::ResultFromServer, "ListResourcesResult", "ResultFromServer", same, ListResourcesResult;
    m::ListResourceTemplatesResult => u::ResultFromServer, "ListResourceTemplatesResult", "ResultFromServer", same, ListResourceTemplatesResult;
    m::ReadResourceResult => u::ResultFromServer, "ReadResourceResult", "ResultFromServer", same, ReadResourceResult;
    m::ListPromptsResult => u::ResultFromServer, "ListPromptsResult", "ResultFromServer", same, ListPromptsResult;
    m::GetPromptResult => u::ResultFromServer, "GetPromptResult", "ResultFromServer", same, GetPromptResult;
    m::ListToolsResult => u::ResultFromServer, "ListToolsResult", "ResultFromServer", same, ListToolsResult;
    m::CallToolResult => u::ResultFromServer, "CallToolResult", "ResultFromServer", same, CallToolResult;
    m::GetTaskResult => u::ResultFromServer, "GetTaskResult", "ResultFromServer", same, GetTaskResult;
    m::GetTaskPayloadResult => u::ResultFromServer, "GetTaskPayloadResult", "ResultFromServer", same, GetTaskPayloadResult;
    m::CancelTaskResult => u::ResultFromServer, "CancelTaskResult", "ResultFromServer", same, CancelTaskResult;
    m::ListTasksResult => u::ResultFromServer, "ListTasksResult", "ResultFromServer", same, ListTasksResult;
    m::CompleteResult => u::ResultFromServer, "CompleteResult", "ResultFromServer", same, CompleteResult;
    m::CreateTaskResult => u::ResultFromServer, "CreateTaskResult", "ResultFromServer", same, CreateTaskResult;
    m::Result => u::MessageFromServer, "Result", "MessageFromServer", same, _;
    m::InitializeResult => u::MessageFromServer, "InitializeResult", "MessageFromServer", same, _;
    m::ListResourcesResult => u::MessageFromServer, "ListResourcesResult", "MessageFromServer", same, _;
    m::ListResourceTemplatesResult => u::MessageFromServer, "ListResourceTemplatesResult", "MessageFromServer", same, _;
    m::ReadResourceResult => u::MessageFromServer, "ReadResourceResult", "MessageFromServer", same, _;
    m::ListPromptsResult => u::MessageFromServer, "ListPromptsResult", "MessageFromServer", same, _;
    m::GetPromptResult => u::MessageFromServer, "GetPromptResult", "MessageFromServer", same, _;
    m::ListToolsResult => u::MessageFromServer, "ListToolsResult", "MessageFromServer", same, _;
    m::CallToolResult => u::MessageFromServer, "CallToolResult", "MessageFromServer", same, _;
    m::GetTaskResult => u::MessageFromServer, "GetTaskResult", "MessageFromServer", same, _;
    m::GetTaskPayloadResult => u::MessageFromServer, "GetTaskPayloadResult", "MessageFromServer", same, _;
    m::CancelTaskResult => u::MessageFromServer, "CancelTaskResult", "MessageFromServer", same, _;
    m::ListTasksResult => u::MessageFromServer, "ListTasksResult", "MessageFromServer", same, _;
    m::CompleteResult => u::MessageFromServer, "CompleteResult", "MessageFromServer", same, _;
    m::CreateTaskResult => u::MessageFromServer, "CreateTaskResult", "MessageFromServer", same, _
}
tries! {
    u::ResultFromClient, "ResultFromClient", m::Result, "Result", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::GetTaskResult, "GetTaskResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::GetTaskPayloadResult, "GetTaskPayloadResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::CancelTaskResult, "CancelTaskResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::ListTasksResult, "ListTasksResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::CreateMessageResult, "CreateMessageResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::ListRootsResult, "ListRootsResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::ElicitResult, "ElicitResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromClient, "ResultFromClient", m::CreateTaskResult, "CreateTaskResult", [u::ClientTaskResult, "ClientTaskResult"; m::GenericResult, "GenericResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::Result, "Result", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::InitializeResult, "InitializeResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListResourcesResult, "ListResourcesResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListResourceTemplatesResult, "ListResourceTemplatesResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::ReadResourceResult, "ReadResourceResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListPromptsResult, "ListPromptsResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::GetPromptResult, "GetPromptResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListToolsResult, "ListToolsResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::CallToolResult, "CallToolResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::GetTaskResult, "GetTaskResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::GetTaskPayloadResult, "GetTaskPayloadResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::CancelTaskResult, "CancelTaskResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListTasksResult, "ListTasksResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::CompleteResult, "CompleteResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"] |
    u::ResultFromServer, "ResultFromServer", m::CreateTaskResult, "CreateTaskResult", [m::GenericResult, "GenericResult"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::GetTaskResult, "GetTaskResult"; m::GetTaskPayloadResult, "GetTaskPayloadResult"; m::CancelTaskResult, "CancelTaskResult"; m::ListTasksResult, "ListTasksResult"; m::CompleteResult, "CompleteResult"; m::CreateTaskResult, "CreateTaskResult"]
}

// generated by tools/gen_glue.py
members! {
    Annotations { "audience" => audience, "lastModified" => last_modified, "priority" => priority },
    AudioContent { "_meta" => meta, "annotations" => annotations, "data" => data, "mimeType" => mime_type },
    BaseMetadata { "name" => name, "title" => title },
    BlobResourceContents { "_meta" => meta, "blob" => blob, "mimeType" => mime_type, "uri" => uri },
    BooleanSchema { "default" => default, "description" => description, "title" => title },
    CacheableResult { "_meta" => meta, "cacheScope" => cache_scope, "resultType" => result_type, "ttlMs" => ttl_ms },
    CallToolRequest { "id" => id, "params" => params },
    CallToolRequestParams { "_meta" => meta, "arguments" => arguments, "inputResponses" => input_responses, "name" => name, "requestState" => request_state },
    CallToolResult { "_meta" => meta, "content" => content, "isError" => is_error, "resultType" => result_type, "structuredContent" => structured_content },
    CallToolResultResponse { "id" => id, "result" => result },
    CancelledNotification { "params" => params },
    CancelledNotificationParams { "_meta" => meta, "reason" => reason, "requestId" => request_id },
    ClientCapabilities { "elicitation" => elicitation, "experimental" => experimental, "extensions" => extensions, "roots" => roots, "sampling" => sampling },
    ClientElicitation { "form" => form, "url" => url },
    ClientNotification { "params" => params },
    ClientSampling { "context" => context, "tools" => tools },
    CompleteRequest { "id" => id, "params" => params },
    CompleteRequestArgument { "name" => name, "value" => value },
    CompleteRequestContext { "arguments" => arguments },
    CompleteRequestParams { "_meta" => meta, "argument" => argument, "context" => context, "ref" => ref_ },
    CompleteResult { "_meta" => meta, "completion" => completion, "resultType" => result_type },
    CompleteResultCompletion { "hasMore" => has_more, "total" => total, "values" => values },
    CompleteResultResponse { "id" => id, "result" => result },
    CreateMessageRequest { "params" => params },
    CreateMessageRequestParams { "includeContext" => include_context, "maxTokens" => max_tokens, "messages" => messages, "metadata" => metadata, "modelPreferences" => model_preferences, "stopSequences" => stop_sequences, "systemPrompt" => system_prompt, "temperature" => temperature, "toolChoice" => tool_choice, "tools" => tools },
    CreateMessageResult { "_meta" => meta, "content" => content, "model" => model, "role" => role, "stopReason" => stop_reason },
    DiscoverRequest { "id" => id, "params" => params },
    DiscoverResult { "_meta" => meta, "cacheScope" => cache_scope, "capabilities" => capabilities, "instructions" => instructions, "resultType" => result_type, "supportedVersions" => supported_versions, "ttlMs" => ttl_ms },
    DiscoverResultResponse { "id" => id, "result" => result },
    ElicitRequest { "params" => params },
    ElicitRequestFormParams { "message" => message, "requestedSchema" => requested_schema },
    ElicitRequestFormParamsRequestedSchema { "$schema" => schema, "properties" => properties, "required" => required },
    ElicitRequestUrlParams { "message" => message, "url" => url },
    ElicitResult { "action" => action, "content" => content },
    EmbeddedResource { "_meta" => meta, "annotations" => annotations, "resource" => resource },
    GetPromptRequest { "id" => id, "params" => params },
    GetPromptRequestParams { "_meta" => meta, "arguments" => arguments, "inputResponses" => input_responses, "name" => name, "requestState" => request_state },
    GetPromptResult { "_meta" => meta, "description" => description, "messages" => messages, "resultType" => result_type },
    GetPromptResultResponse { "id" => id, "result" => result },
    HeaderMismatchError { "error" => error, "id" => id },
    Icon { "mimeType" => mime_type, "sizes" => sizes, "src" => src, "theme" => theme },
    Icons { "icons" => icons },
    ImageContent { "_meta" => meta, "annotations" => annotations, "data" => data, "mimeType" => mime_type },
    Implementation { "description" => description, "icons" => icons, "name" => name, "title" => title, "version" => version, "websiteUrl" => website_url },
    InputRequiredResult { "_meta" => meta, "inputRequests" => input_requests, "requestState" => request_state, "resultType" => result_type },
    InputResponseRequestParams { "_meta" => meta, "inputResponses" => input_responses, "requestState" => request_state },
    InternalError { "code" => code, "data" => data, "message" => message },
    InvalidParamsError { "code" => code, "data" => data, "message" => message },
    InvalidRequestError { "code" => code, "data" => data, "message" => message },
    JsonrpcErrorResponse { "error" => error, "id" => id },
    JsonrpcNotification { "method" => method, "params" => params },
    JsonrpcRequest { "id" => id, "method" => method, "params" => params },
    JsonrpcResultResponse { "id" => id, "result" => result },
    LegacyTitledEnumSchema { "default" => default, "description" => description, "enum" => enum_, "enumNames" => enum_names, "title" => title },
    ListPromptsRequest { "id" => id, "params" => params },
    ListPromptsResult { "_meta" => meta, "cacheScope" => cache_scope, "nextCursor" => next_cursor, "prompts" => prompts, "resultType" => result_type, "ttlMs" => ttl_ms },
    ListPromptsResultResponse { "id" => id, "result" => result },
    ListResourceTemplatesRequest { "id" => id, "params" => params },
    ListResourceTemplatesResult { "_meta" => meta, "cacheScope" => cache_scope, "nextCursor" => next_cursor, "resourceTemplates" => resource_templates, "resultType" => result_type, "ttlMs" => ttl_ms },
    ListResourceTemplatesResultResponse { "id" => id, "result" => result },
    ListResourcesRequest { "id" => id, "params" => params },
    ListResourcesResult { "_meta" => meta, "cacheScope" => cache_scope, "nextCursor" => next_cursor, "resources" => resources, "resultType" => result_type, "ttlMs" => ttl_ms },
    ListResourcesResultResponse { "id" => id, "result" => result },
    ListRootsRequest { "params" => params },
    ListRootsRequestParams { "_meta" => meta },
    ListRootsResult { "roots" => roots },
    ListToolsRequest { "id" => id, "params" => params },
    ListToolsResult { "_meta" => meta, "cacheScope" => cache_scope, "nextCursor" => next_cursor, "resultType" => result_type, "tools" => tools, "ttlMs" => ttl_ms },
    ListToolsResultResponse { "id" => id, "result" => result },
    LoggingMessageNotification { "params" => params },
    LoggingMessageNotificationParams { "_meta" => meta, "data" => data, "level" => level, "logger" => logger },
    MethodNotFoundError { "code" => code, "data" => data, "message" => message },
    MissingRequiredClientCapabilityError { "error" => error, "id" => id },
    MissingRequiredClientCapabilityErrorError { "code" => code, "data" => data },
    MissingRequiredClientCapabilityErrorErrorData { "requiredCapabilities" => required_capabilities },
    ModelHint { "name" => name },
    ModelPreferences { "costPriority" => cost_priority, "hints" => hints, "intelligencePriority" => intelligence_priority, "speedPriority" => speed_priority },
    Notification { "method" => method, "params" => params },
    NotificationMetaObject { "io.modelcontextprotocol/subscriptionId" => io_modelcontextprotocol_subscription_id; extra },
    NotificationParams { "_meta" => meta },
    NumberSchema { "default" => default, "description" => description, "maximum" => maximum, "minimum" => minimum, "title" => title, "type" => type_ },
    PaginatedRequest { "id" => id, "method" => method, "params" => params },
    PaginatedRequestParams { "_meta" => meta, "cursor" => cursor },
    PaginatedResult { "_meta" => meta, "nextCursor" => next_cursor, "resultType" => result_type },
    ParseError { "code" => code, "data" => data, "message" => message },
    ProgressNotification { "params" => params },
    ProgressNotificationParams { "_meta" => meta, "message" => message, "progress" => progress, "progressToken" => progress_token, "total" => total },
    Prompt { "_meta" => meta, "arguments" => arguments, "description" => description, "icons" => icons, "name" => name, "title" => title },
    PromptArgument { "description" => description, "name" => name, "required" => required, "title" => title },
    PromptListChangedNotification { "params" => params },
    PromptMessage { "content" => content, "role" => role },
    PromptReference { "name" => name, "title" => title },
    ReadResourceRequest { "id" => id, "params" => params },
    ReadResourceRequestParams { "_meta" => meta, "inputResponses" => input_responses, "requestState" => request_state, "uri" => uri },
    ReadResourceResult { "_meta" => meta, "cacheScope" => cache_scope, "contents" => contents, "resultType" => result_type, "ttlMs" => ttl_ms },
    ReadResourceResultResponse { "id" => id, "result" => result },
    Request { "method" => method, "params" => params },
    RequestMetaObject { "io.modelcontextprotocol/clientCapabilities" => client_capabilities, "io.modelcontextprotocol/clientInfo" => client_info, "io.modelcontextprotocol/logLevel" => log_level, "io.modelcontextprotocol/protocolVersion" => protocol_version, "progressToken" => progress_token; extra },
    RequestParams { "_meta" => meta },
    Resource { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "mimeType" => mime_type, "name" => name, "size" => size, "title" => title, "uri" => uri },
    ResourceContents { "_meta" => meta, "mimeType" => mime_type, "uri" => uri },
    ResourceLink { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "mimeType" => mime_type, "name" => name, "size" => size, "title" => title, "uri" => uri },
    ResourceListChangedNotification { "params" => params },
    ResourceRequestParams { "_meta" => meta, "uri" => uri },
    ResourceTemplate { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "mimeType" => mime_type, "name" => name, "title" => title, "uriTemplate" => uri_template },
    ResourceTemplateReference { "uri" => uri },
    ResourceUpdatedNotification { "params" => params },
    ResourceUpdatedNotificationParams { "_meta" => meta, "uri" => uri },
    Result { "_meta" => meta, "resultType" => result_type; extra },
    ResultMetaObject { "io.modelcontextprotocol/serverInfo" => io_modelcontextprotocol_server_info; extra },
    Root { "_meta" => meta, "name" => name, "uri" => uri },
    RpcError { "code" => code, "data" => data, "message" => message },
    SamplingMessage { "_meta" => meta, "content" => content, "role" => role },
    ServerCapabilities { "completions" => completions, "experimental" => experimental, "extensions" => extensions, "logging" => logging, "prompts" => prompts, "resources" => resources, "tools" => tools },
    ServerCapabilitiesPrompts { "listChanged" => list_changed },
    ServerCapabilitiesResources { "listChanged" => list_changed, "subscribe" => subscribe },
    ServerCapabilitiesTools { "listChanged" => list_changed },
    StringSchema { "default" => default, "description" => description, "format" => format, "maxLength" => max_length, "minLength" => min_length, "title" => title },
    SubscriptionFilter { "promptsListChanged" => prompts_list_changed, "resourceSubscriptions" => resource_subscriptions, "resourcesListChanged" => resources_list_changed, "toolsListChanged" => tools_list_changed },
    SubscriptionsAcknowledgedNotification { "params" => params },
    SubscriptionsAcknowledgedNotificationParams { "_meta" => meta, "notifications" => notifications },
    SubscriptionsListenRequest { "id" => id, "params" => params },
    SubscriptionsListenRequestParams { "_meta" => meta, "notifications" => notifications },
    SubscriptionsListenResult { "_meta" => meta, "resultType" => result_type },
    SubscriptionsListenResultMetaObject { "io.modelcontextprotocol/serverInfo" => io_modelcontextprotocol_server_info, "io.modelcontextprotocol/subscriptionId" => io_modelcontextprotocol_subscription_id; extra },
    SubscriptionsListenResultResponse { "id" => id, "result" => result },
    TextContent { "_meta" => meta, "annotations" => annotations, "text" => text },
    TextResourceContents { "_meta" => meta, "mimeType" => mime_type, "text" => text, "uri" => uri },
    TitledMultiSelectEnumSchema { "default" => default, "description" => description, "items" => items, "maxItems" => max_items, "minItems" => min_items, "title" => title },
    TitledMultiSelectEnumSchemaItems { "anyOf" => any_of },
    TitledMultiSelectEnumSchemaItemsAnyOfItem { "const" => const_, "title" => title },
    TitledSingleSelectEnumSchema { "default" => default, "description" => description, "oneOf" => one_of, "title" => title },
    TitledSingleSelectEnumSchemaOneOfItem { "const" => const_, "title" => title },
    Tool { "_meta" => meta, "annotations" => annotations, "description" => description, "icons" => icons, "inputSchema" => input_schema, "name" => name, "outputSchema" => output_schema, "title" => title },
    ToolAnnotations { "destructiveHint" => destructive_hint, "idempotentHint" => idempotent_hint, "openWorldHint" => open_world_hint, "readOnlyHint" => read_only_hint, "title" => title },
    ToolChoice { "mode" => mode },
    ToolInputSchema { "$schema" => schema; extra },
    ToolListChangedNotification { "params" => params },
    ToolOutputSchema { "$schema" => schema; extra },
    ToolResultContent { "_meta" => meta, "content" => content, "isError" => is_error, "structuredContent" => structured_content, "toolUseId" => tool_use_id },
    ToolUseContent { "_meta" => meta, "id" => id, "input" => input, "name" => name },
    UnsupportedProtocolVersionError { "error" => error, "id" => id },
    UnsupportedProtocolVersionErrorError { "code" => code, "data" => data },
    UnsupportedProtocolVersionErrorErrorData { "requested" => requested, "supported" => supported },
    UntitledMultiSelectEnumSchema { "default" => default, "description" => description, "items" => items, "maxItems" => max_items, "minItems" => min_items, "title" => title },
    UntitledMultiSelectEnumSchemaItems { "enum" => enum_ },
    UntitledSingleSelectEnumSchema { "default" => default, "description" => description, "enum" => enum_, "title" => title }
}
news! {
    AudioContent(data "data", mime_type "mimeType", annotations "annotations", meta "_meta"),
    BooleanSchema(default "default", description "description", title "title"),
    CallToolRequest(id "id", params "params"),
    CallToolResultResponse(id "id", result "result"),
    CancelledNotification(params "params"),
    ClientNotification(params "params"),
    CompleteRequest(id "id", params "params"),
    CompleteResultResponse(id "id", result "result"),
    CreateMessageRequest(params "params"),
    DiscoverRequest(id "id", params "params"),
    DiscoverResultResponse(id "id", result "result"),
    ElicitRequest(params "params"),
    ElicitRequestFormParams(message "message", requested_schema "requestedSchema"),
    ElicitRequestFormParamsRequestedSchema(properties "properties", required "required", schema "$schema"),
    ElicitRequestUrlParams(message "message", url "url"),
    EmbeddedResource(resource "resource", annotations "annotations", meta "_meta"),
    GetPromptRequest(id "id", params "params"),
    GetPromptResultResponse(id "id", result "result"),
    HeaderMismatchError(error "error", id "id"),
    ImageContent(data "data", mime_type "mimeType", annotations "annotations", meta "_meta"),
    JsonrpcErrorResponse(error "error", id "id"),
    JsonrpcNotification(method "method", params "params"),
    JsonrpcRequest(id "id", method "method", params "params"),
    JsonrpcResultResponse(id "id", result "result"),
    LegacyTitledEnumSchema(enum_ "enum", enum_names "enumNames", default "default", description "description", title "title"),
    ListPromptsRequest(id "id", params "params"),
    ListPromptsResultResponse(id "id", result "result"),
    ListResourceTemplatesRequest(id "id", params "params"),
    ListResourceTemplatesResultResponse(id "id", result "result"),
    ListResourcesRequest(id "id", params "params"),
    ListResourcesResultResponse(id "id", result "result"),
    ListRootsRequest(params "params"),
    ListToolsRequest(id "id", params "params"),
    ListToolsResultResponse(id "id", result "result"),
    LoggingMessageNotification(params "params"),
    MissingRequiredClientCapabilityError(error "error", id "id"),
    PaginatedRequest(id "id", method "method", params "params"),
    ProgressNotification(params "params"),
    PromptListChangedNotification(params "params"),
    PromptReference(name "name", title "title"),
    ReadResourceRequest(id "id", params "params"),
    ReadResourceResultResponse(id "id", result "result"),
    ResourceLink(icons "icons", name "name", uri "uri", annotations "annotations", description "description", meta "_meta", mime_type "mimeType", size "size", title "title"),
    ResourceListChangedNotification(params "params"),
    ResourceTemplateReference(uri "uri"),
    ResourceUpdatedNotification(params "params"),
    StringSchema(default "default", description "description", format "format", max_length "maxLength", min_length "minLength", title "title"),
    SubscriptionsAcknowledgedNotification(params "params"),
    SubscriptionsListenRequest(id "id", params "params"),
    SubscriptionsListenResultResponse(id "id", result "result"),
    TextContent(text "text", annotations "annotations", meta "_meta"),
    TitledMultiSelectEnumSchema(default "default", items "items", description "description", max_items "maxItems", min_items "minItems", title "title"),
    TitledSingleSelectEnumSchema(one_of "oneOf", default "default", description "description", title "title"),
    ToolInputSchema(schema "$schema", extra "*"),
    ToolListChangedNotification(params "params"),
    ToolResultContent(content "content", tool_use_id "toolUseId", is_error "isError", meta "_meta", structured_content "structuredContent"),
    ToolUseContent(id "id", input "input", name "name", meta "_meta"),
    UnsupportedProtocolVersionError(error "error", id "id"),
    UntitledMultiSelectEnumSchema(default "default", items "items", description "description", max_items "maxItems", min_items "minItems", title "title"),
    UntitledMultiSelectEnumSchemaItems(enum_ "enum"),
    UntitledSingleSelectEnumSchema(enum_ "enum", default "default", description "description", title "title")
}
consts! {
    AudioContent.type_ "type" type_value type_name,
    BooleanSchema.type_ "type" type_value type_name,
    CallToolRequest.jsonrpc "jsonrpc" _ _,
    CallToolRequest.method "method" method_value method_name,
    CallToolResultResponse.jsonrpc "jsonrpc" _ _,
    CancelledNotification.jsonrpc "jsonrpc" _ _,
    CancelledNotification.method "method" method_value method_name,
    ClientNotification.jsonrpc "jsonrpc" _ _,
    ClientNotification.method "method" method_value method_name,
    CompleteRequest.jsonrpc "jsonrpc" _ _,
    CompleteRequest.method "method" method_value method_name,
    CompleteResultResponse.jsonrpc "jsonrpc" _ _,
    CreateMessageRequest.method "method" method_value method_name,
    DiscoverRequest.jsonrpc "jsonrpc" _ _,
    DiscoverRequest.method "method" method_value method_name,
    DiscoverResultResponse.jsonrpc "jsonrpc" _ _,
    ElicitRequest.method "method" method_value method_name,
    ElicitRequestFormParamsRequestedSchema.type_ "type" type_value type_name,
    ElicitRequestFormParams.mode "mode" mode_value mode_name,
    ElicitRequestUrlParams.mode "mode" mode_value mode_name,
    EmbeddedResource.type_ "type" type_value type_name,
    GetPromptRequest.jsonrpc "jsonrpc" _ _,
    GetPromptRequest.method "method" method_value method_name,
    GetPromptResultResponse.jsonrpc "jsonrpc" _ _,
    HeaderMismatchError.jsonrpc "jsonrpc" _ _,
    ImageContent.type_ "type" type_value type_name,
    JsonrpcErrorResponse.jsonrpc "jsonrpc" _ _,
    JsonrpcNotification.jsonrpc "jsonrpc" _ _,
    JsonrpcRequest.jsonrpc "jsonrpc" _ _,
    JsonrpcResultResponse.jsonrpc "jsonrpc" _ _,
    LegacyTitledEnumSchema.type_ "type" type_value type_name,
    ListPromptsRequest.jsonrpc "jsonrpc" _ _,
    ListPromptsRequest.method "method" method_value method_name,
    ListPromptsResultResponse.jsonrpc "jsonrpc" _ _,
    ListResourceTemplatesRequest.jsonrpc "jsonrpc" _ _,
    ListResourceTemplatesRequest.method "method" method_value method_name,
    ListResourceTemplatesResultResponse.jsonrpc "jsonrpc" _ _,
    ListResourcesRequest.jsonrpc "jsonrpc" _ _,
    ListResourcesRequest.method "method" method_value method_name,
    ListResourcesResultResponse.jsonrpc "jsonrpc" _ _,
    ListRootsRequest.method "method" method_value method_name,
    ListToolsRequest.jsonrpc "jsonrpc" _ _,
    ListToolsRequest.method "method" method_value method_name,
    ListToolsResultResponse.jsonrpc "jsonrpc" _ _,
    LoggingMessageNotification.jsonrpc "jsonrpc" _ _,
    LoggingMessageNotification.method "method" method_value method_name,
    MissingRequiredClientCapabilityError.jsonrpc "jsonrpc" _ _,
    PaginatedRequest.jsonrpc "jsonrpc" _ _,
    ProgressNotification.jsonrpc "jsonrpc" _ _,
    ProgressNotification.method "method" method_value method_name,
    PromptListChangedNotification.jsonrpc "jsonrpc" _ _,
    PromptListChangedNotification.method "method" method_value method_name,
    PromptReference.type_ "type" type_value type_name,
    ReadResourceRequest.jsonrpc "jsonrpc" _ _,
    ReadResourceRequest.method "method" method_value method_name,
    ReadResourceResultResponse.jsonrpc "jsonrpc" _ _,
    ResourceLink.type_ "type" type_value type_name,
    ResourceListChangedNotification.jsonrpc "jsonrpc" _ _,
    ResourceListChangedNotification.method "method" method_value method_name,
    ResourceTemplateReference.type_ "type" type_value type_name,
    ResourceUpdatedNotification.jsonrpc "jsonrpc" _ _,
    ResourceUpdatedNotification.method "method" method_value method_name,
    StringSchema.type_ "type" type_value type_name,
    SubscriptionsAcknowledgedNotification.jsonrpc "jsonrpc" _ _,
    SubscriptionsAcknowledgedNotification.method "method" method_value method_name,
    SubscriptionsListenRequest.jsonrpc "jsonrpc" _ _,
    SubscriptionsListenRequest.method "method" method_value method_name,
    SubscriptionsListenResultResponse.jsonrpc "jsonrpc" _ _,
    TextContent.type_ "type" type_value type_name,
    TitledMultiSelectEnumSchema.type_ "type" type_value type_name,
    TitledSingleSelectEnumSchema.type_ "type" type_value type_name,
    ToolInputSchema.type_ "type" type_value type_name,
    ToolListChangedNotification.jsonrpc "jsonrpc" _ _,
    ToolListChangedNotification.method "method" method_value method_name,
    ToolResultContent.type_ "type" type_value type_name,
    ToolUseContent.type_ "type" type_value type_name,
    UnsupportedProtocolVersionError.jsonrpc "jsonrpc" _ _,
    UntitledMultiSelectEnumSchema.type_ "type" type_value type_name,
    UntitledMultiSelectEnumSchemaItems.type_ "type" type_value type_name,
    UntitledSingleSelectEnumSchema.type_ "type" type_value type_name
}
convs! {
    m::InputRequiredResult => m::CallToolResultResponseResult, "InputRequiredResult", "CallToolResultResponseResult", same, InputRequiredResult;
    m::CallToolResult => m::CallToolResultResponseResult, "CallToolResult", "CallToolResultResponseResult", same, CallToolResult;
    m::DiscoverRequest => m::ClientRequest, "DiscoverRequest", "ClientRequest", same, DiscoverRequest;
    m::ListResourcesRequest => m::ClientRequest, "ListResourcesRequest", "ClientRequest", same, ListResourcesRequest;
    m::ListResourceTemplatesRequest => m::ClientRequest, "ListResourceTemplatesRequest", "ClientRequest", same, ListResourceTemplatesRequest;
    m::ReadResourceRequest => m::ClientRequest, "ReadResourceRequest", "ClientRequest", same, ReadResourceRequest;
    m::SubscriptionsListenRequest => m::ClientRequest, "SubscriptionsListenRequest", "ClientRequest", same, SubscriptionsListenRequest;
    m::ListPromptsRequest => m::ClientRequest, "ListPromptsRequest", "ClientRequest", same, ListPromptsRequest;
    m::GetPromptRequest => m::ClientRequest, "GetPromptRequest", "ClientRequest", same, GetPromptRequest;
    m::ListToolsRequest => m::ClientRequest, "ListToolsRequest", "ClientRequest", same, ListToolsRequest;
    m::CallToolRequest => m::ClientRequest, "CallToolRequest", "ClientRequest", same, CallToolRequest;
    m::CompleteRequest => m::ClientRequest, "CompleteRequest", "ClientRequest", same, CompleteRequest;
    m::PromptReference => m::CompleteRequestRef, "PromptReference", "CompleteRequestRef", same, PromptReference;
    m::ResourceTemplateReference => m::CompleteRequestRef, "ResourceTemplateReference", "CompleteRequestRef", same, ResourceTemplateReference;
    m::TextContent => m::ContentBlock, "TextContent", "ContentBlock", same, TextContent;
    m::ImageContent => m::ContentBlock, "ImageContent", "ContentBlock", same, ImageContent;
    m::AudioContent => m::ContentBlock, "AudioContent", "ContentBlock", same, AudioContent;
    m::ResourceLink => m::ContentBlock, "ResourceLink", "ContentBlock", same, ResourceLink;
    m::EmbeddedResource => m::ContentBlock, "EmbeddedResource", "ContentBlock", same, EmbeddedResource;
    m::TextContent => m::CreateMessageContent, "TextContent", "CreateMessageContent", same, TextContent;
    m::ImageContent => m::CreateMessageContent, "ImageContent", "CreateMessageContent", same, ImageContent;
    m::AudioContent => m::CreateMessageContent, "AudioContent", "CreateMessageContent", same, AudioContent;
    m::ToolUseContent => m::CreateMessageContent, "ToolUseContent", "CreateMessageContent", same, ToolUseContent;
    m::ToolResultContent => m::CreateMessageContent, "ToolResultContent", "CreateMessageContent", same, ToolResultContent;
    m::ElicitRequestFormParams => m::ElicitRequestParams, "ElicitRequestFormParams", "ElicitRequestParams", same, FormParams;
    m::ElicitRequestUrlParams => m::ElicitRequestParams, "ElicitRequestUrlParams", "ElicitRequestParams", same, UrlParams;
    m::ElicitResultContentPrimitive => m::ElicitResultContent, "ElicitResultContentPrimitive", "ElicitResultContent", same, Primitive;
    m::TextResourceContents => m::EmbeddedResourceResource, "TextResourceContents", "EmbeddedResourceResource", same, TextResourceContents;
    m::BlobResourceContents => m::EmbeddedResourceResource, "BlobResourceContents", "EmbeddedResourceResource", same, BlobResourceContents;
    m::UntitledSingleSelectEnumSchema => m::EnumSchema, "UntitledSingleSelectEnumSchema", "EnumSchema", same, UntitledSingleSelectEnumSchema;
    m::TitledSingleSelectEnumSchema => m::EnumSchema, "TitledSingleSelectEnumSchema", "EnumSchema", same, TitledSingleSelectEnumSchema;
    m::UntitledMultiSelectEnumSchema => m::EnumSchema, "UntitledMultiSelectEnumSchema", "EnumSchema", same, UntitledMultiSelectEnumSchema;
    m::TitledMultiSelectEnumSchema => m::EnumSchema, "TitledMultiSelectEnumSchema", "EnumSchema", same, TitledMultiSelectEnumSchema;
    m::LegacyTitledEnumSchema => m::EnumSchema, "LegacyTitledEnumSchema", "EnumSchema", same, LegacyTitledEnumSchema;
    m::InputRequiredResult => m::GetPromptResultResponseResult, "InputRequiredResult", "GetPromptResultResponseResult", same, InputRequiredResult;
    m::GetPromptResult => m::GetPromptResultResponseResult, "GetPromptResult", "GetPromptResultResponseResult", same, GetPromptResult;
    m::CreateMessageRequest => m::InputRequest, "CreateMessageRequest", "InputRequest", same, CreateMessageRequest;
    m::ListRootsRequest => m::InputRequest, "ListRootsRequest", "InputRequest", same, ListRootsRequest;
    m::ElicitRequest => m::InputRequest, "ElicitRequest", "InputRequest", same, ElicitRequest;
    m::CreateMessageResult => m::InputResponse, "CreateMessageResult", "InputResponse", same, CreateMessageResult;
    m::ListRootsResult => m::InputResponse, "ListRootsResult", "InputResponse", same, ListRootsResult;
    m::ElicitResult => m::InputResponse, "ElicitResult", "InputResponse", same, ElicitResult;
    m::JsonObject => m::JsonValue, "JsonObject", "JsonValue", same, Variant0;
    m::JsonValueVariant2 => m::JsonValue, "JsonValueVariant2", "JsonValue", same, Variant2;
    m::JsonrpcRequest => m::JsonrpcMessage, "JsonrpcRequest", "JsonrpcMessage", same, Request;
    m::JsonrpcNotification => m::JsonrpcMessage, "JsonrpcNotification", "JsonrpcMessage", same, Notification;
    m::JsonrpcResultResponse => m::JsonrpcMessage, "JsonrpcResultResponse", "JsonrpcMessage", same, ResultResponse;
    m::JsonrpcErrorResponse => m::JsonrpcMessage, "JsonrpcErrorResponse", "JsonrpcMessage", same, ErrorResponse;
    m::JsonrpcResultResponse => m::JsonrpcResponse, "JsonrpcResultResponse", "JsonrpcResponse", same, ResultResponse;
    m::JsonrpcErrorResponse => m::JsonrpcResponse, "JsonrpcErrorResponse", "JsonrpcResponse", same, ErrorResponse;
    m::UntitledMultiSelectEnumSchema => m::MultiSelectEnumSchema, "UntitledMultiSelectEnumSchema", "MultiSelectEnumSchema", same, UntitledMultiSelectEnumSchema;
    m::TitledMultiSelectEnumSchema => m::MultiSelectEnumSchema, "TitledMultiSelectEnumSchema", "MultiSelectEnumSchema", same, TitledMultiSelectEnumSchema;
    m::StringSchema => m::PrimitiveSchemaDefinition, "StringSchema", "PrimitiveSchemaDefinition", same, StringSchema;
    m::NumberSchema => m::PrimitiveSchemaDefinition, "NumberSchema", "PrimitiveSchemaDefinition", same, NumberSchema;
    m::BooleanSchema => m::PrimitiveSchemaDefinition, "BooleanSchema", "PrimitiveSchemaDefinition", same, BooleanSchema;
    m::UntitledSingleSelectEnumSchema => m::PrimitiveSchemaDefinition, "UntitledSingleSelectEnumSchema", "PrimitiveSchemaDefinition", same, UntitledSingleSelectEnumSchema;
    m::TitledSingleSelectEnumSchema => m::PrimitiveSchemaDefinition, "TitledSingleSelectEnumSchema", "PrimitiveSchemaDefinition", same, TitledSingleSelectEnumSchema;
    m::UntitledMultiSelectEnumSchema => m::PrimitiveSchemaDefinition, "UntitledMultiSelectEnumSchema", "PrimitiveSchemaDefinition", same, UntitledMultiSelectEnumSchema;
    m::TitledMultiSelectEnumSchema => m::PrimitiveSchemaDefinition, "TitledMultiSelectEnumSchema", "PrimitiveSchemaDefinition", same, TitledMultiSelectEnumSchema;
    m::LegacyTitledEnumSchema => m::PrimitiveSchemaDefinition, "LegacyTitledEnumSchema", "PrimitiveSchemaDefinition", same, LegacyTitledEnumSchema;
    m::TextResourceContents => m::ReadResourceContent, "TextResourceContents", "ReadResourceContent", same, TextResourceContents;
    m::BlobResourceContents => m::ReadResourceContent, "BlobResourceContents", "ReadResourceContent", same, BlobResourceContents;
    m::InputRequiredResult => m::ReadResourceResultResponseResult, "InputRequiredResult", "ReadResourceResultResponseResult", same, InputRequiredResult;
    m::ReadResourceResult => m::ReadResourceResultResponseResult, "ReadResourceResult", "ReadResourceResultResponseResult", same, ReadResourceResult;
    m::TextContent => m::SamplingMessageContent, "TextContent", "SamplingMessageContent", same, TextContent;
    m::ImageContent => m::SamplingMessageContent, "ImageContent", "SamplingMessageContent", same, ImageContent;
    m::AudioContent => m::SamplingMessageContent, "AudioContent", "SamplingMessageContent", same, AudioContent;
    m::ToolUseContent => m::SamplingMessageContent, "ToolUseContent", "SamplingMessageContent", same, ToolUseContent;
    m::ToolResultContent => m::SamplingMessageContent, "ToolResultContent", "SamplingMessageContent", same, ToolResultContent;
    m::TextContent => m::SamplingMessageContentBlock, "TextContent", "SamplingMessageContentBlock", same, TextContent;
    m::ImageContent => m::SamplingMessageContentBlock, "ImageContent", "SamplingMessageContentBlock", same, ImageContent;
    m::AudioContent => m::SamplingMessageContentBlock, "AudioContent", "SamplingMessageContentBlock", same, AudioContent;
    m::ToolUseContent => m::SamplingMessageContentBlock, "ToolUseContent", "SamplingMessageContentBlock", same, ToolUseContent;
    m::ToolResultContent => m::SamplingMessageContentBlock, "ToolResultContent", "SamplingMessageContentBlock", same, ToolResultContent;
    m::CancelledNotification => m::ServerNotification, "CancelledNotification", "ServerNotification", same, CancelledNotification;
    m::ProgressNotification => m::ServerNotification, "ProgressNotification", "ServerNotification", same, ProgressNotification;
    m::ResourceListChangedNotification => m::ServerNotification, "ResourceListChangedNotification", "ServerNotification", same, ResourceListChangedNotification;
    m::SubscriptionsAcknowledgedNotification => m::ServerNotification, "SubscriptionsAcknowledgedNotification", "ServerNotification", same, SubscriptionsAcknowledgedNotification;
    m::ResourceUpdatedNotification => m::ServerNotification, "ResourceUpdatedNotification", "ServerNotification", same, ResourceUpdatedNotification;
    m::PromptListChangedNotification => m::ServerNotification, "PromptListChangedNotification", "ServerNotification", same, PromptListChangedNotification;
    m::ToolListChangedNotification => m::ServerNotification, "ToolListChangedNotification", "ServerNotification", same, ToolListChangedNotification;
    m::LoggingMessageNotification => m::ServerNotification, "LoggingMessageNotification", "ServerNotification", same, LoggingMessageNotification;
    m::InputRequiredResult => m::ServerResult, "InputRequiredResult", "ServerResult", same, InputRequiredResult;
    m::DiscoverResult => m::ServerResult, "DiscoverResult", "ServerResult", same, DiscoverResult;
    m::ListResourcesResult => m::ServerResult, "ListResourcesResult", "ServerResult", same, ListResourcesResult;
    m::ListResourceTemplatesResult => m::ServerResult, "ListResourceTemplatesResult", "ServerResult", same, ListResourceTemplatesResult;
    m::ReadResourceResult => m::ServerResult, "ReadResourceResult", "ServerResult", same, ReadResourceResult;
    m::SubscriptionsListenResult => m::ServerResult, "SubscriptionsListenResult", "ServerResult", same, SubscriptionsListenResult;
    m::ListPromptsResult => m::ServerResult, "ListPromptsResult", "ServerResult", same, ListPromptsResult;
    m::GetPromptResult => m::ServerResult, "GetPromptResult", "ServerResult", same, GetPromptResult;
    m::ListToolsResult => m::ServerResult, "ListToolsResult", "ServerResult", same, ListToolsResult;
    m::CallToolResult => m::ServerResult, "CallToolResult", "ServerResult", same, CallToolResult;
    m::CompleteResult => m::ServerResult, "CompleteResult", "ServerResult", same, CompleteResult;
    m::Result => m::ServerResult, "Result", "ServerResult", same, Result;
    m::UntitledSingleSelectEnumSchema => m::SingleSelectEnumSchema, "UntitledSingleSelectEnumSchema", "SingleSelectEnumSchema", same, UntitledSingleSelectEnumSchema;
    m::TitledSingleSelectEnumSchema => m::SingleSelectEnumSchema, "TitledSingleSelectEnumSchema", "SingleSelectEnumSchema", same, TitledSingleSelectEnumSchema;
    m::InputRequiredResult => m::GenericResult, "InputRequiredResult", "GenericResult", same, _;
    m::DiscoverResult => m::GenericResult, "DiscoverResult", "GenericResult", same, _;
    m::ListResourcesResult => m::GenericResult, "ListResourcesResult", "GenericResult", same, _;
    m::ListResourceTemplatesResult => m::GenericResult, "ListResourceTemplatesResult", "GenericResult", same, _;
    m::ReadResourceResult => m::GenericResult, "ReadResourceResult", "GenericResult", same, _;
    m::SubscriptionsListenResult => m::GenericResult, "SubscriptionsListenResult", "GenericResult", same, _;
    m::ListPromptsResult => m::GenericResult, "ListPromptsResult", "GenericResult", same, _;
    m::GetPromptResult => m::GenericResult, "GetPromptResult", "GenericResult", same, _;
    m::ListToolsResult => m::GenericResult, "ListToolsResult", "GenericResult", same, _;
    m::CallToolResult => m::GenericResult, "CallToolResult", "GenericResult", same, _;
    m::CompleteResult => m::GenericResult, "CompleteResult", "GenericResult", same, _;
    m::ServerResult => u::MessageFromServer, "ServerResult", "MessageFromServer", same, ServerResult;
    m::RpcError => u::MessageFromServer, "RpcError", "MessageFromServer", same, Error;
    m::RpcError => u::MessageFromClient, "RpcError", "MessageFromClient", same, Error;
    m::JsonrpcRequest => u::CustomRequest, "JsonrpcRequest", "CustomRequest", method_params, _;
    m::JsonrpcNotification => u::CustomNotification, "JsonrpcNotification", "CustomNotification", method_params, _;
    m::CreateMessageResult => u::ResultFromClient, "CreateMessageResult", "ResultFromClient", same, CreateMessageResult;
    m::ListRootsResult => u::ResultFromClient, "ListRootsResult", "ResultFromClient", same, ListRootsResult;
    m::ElicitResult => u::ResultFromClient, "ElicitResult", "ResultFromClient", same, ElicitResult;
    m::Result => u::ResultFromClient, "Result", "ResultFromClient", same, Result;
    m::CreateMessageResult => u::MessageFromClient, "CreateMessageResult", "MessageFromClient", same, _;
    m::ListRootsResult => u::MessageFromClient, "ListRootsResult", "MessageFromClient", same, _;
    m::ElicitResult => u::MessageFromClient, "ElicitResult", "MessageFromClient", same, _;
    m::Result => u::MessageFromClient, "Result", "MessageFromClient", same, _;
    m::DiscoverRequest => u::ClientJsonrpcRequest, "DiscoverRequest", "ClientJsonrpcRequest", same, _;
    m::ListResourcesRequest => u::ClientJsonrpcRequest, "ListResourcesRequest", "ClientJsonrpcRequest", same, _;
    m::ListResourceTemplatesRequest => u::ClientJsonrpcRequest, "ListResourceTemplatesRequest", "ClientJsonrpcRequest", same, _;
    m::ReadResourceRequest => u::ClientJsonrpcRequest, "ReadResourceRequest", "ClientJsonrpcRequest", same, _;
    m::SubscriptionsListenRequest => u::ClientJsonrpcRequest, "SubscriptionsListenRequest", "ClientJsonrpcRequest", same, _;
    m::ListPromptsRequest => u::ClientJsonrpcRequest, "ListPromptsRequest", "ClientJsonrpcRequest", same, _;
    m::GetPromptRequest => u::ClientJsonrpcRequest, "GetPromptRequest", "ClientJsonrpcRequest", same, _;
    m::ListToolsRequest => u::ClientJsonrpcRequest, "ListToolsRequest", "ClientJsonrpcRequest", same, _;
    m::CallToolRequest => u::ClientJsonrpcRequest, "CallToolRequest", "ClientJsonrpcRequest", same, _;
    m::CompleteRequest => u::ClientJsonrpcRequest, "CompleteRequest", "ClientJsonrpcRequest", same, _;
    m::MissingRequiredClientCapabilityError => m::RpcError, "MissingRequiredClientCapabilityError", "RpcError", error, _;
    m::UnsupportedProtocolVersionError => m::RpcError, "UnsupportedProtocolVersionError", "RpcError", error, _;
    m::Result => u::MessageFromServer, "Result", "MessageFromServer", same, _;
    m::InputRequiredResult => u::MessageFromServer, "InputRequiredResult", "MessageFromServer", same, _;
    m::DiscoverResult => u::MessageFromServer, "DiscoverResult", "MessageFromServer", same, _;
    m::ListResourcesResult => u::MessageFromServer, "ListResourcesResult", "MessageFromServer", same, _;
    m::ListResourceTemplatesResult => u::MessageFromServer, "ListResourceTemplatesResult", "MessageFromServer", same, _;
    m::ReadResourceResult => u::MessageFromServer, "ReadResourceResult", "MessageFromServer", same, _;
    m::SubscriptionsListenResult => u::MessageFromServer, "SubscriptionsListenResult", "MessageFromServer", same, _;
    m::ListPromptsResult => u::MessageFromServer, "ListPromptsResult", "MessageFromServer", same, _;
    m::GetPromptResult => u::MessageFromServer, "GetPromptResult", "MessageFromServer", same, _;
    m::ListToolsResult => u::MessageFromServer, "ListToolsResult", "MessageFromServer", same, _;
    m::CallToolResult => u::MessageFromServer, "CallToolResult", "MessageFromServer", same, _;
    m::CompleteResult => u::MessageFromServer, "CompleteResult", "MessageFromServer", same, _
}
tries! {
    u::ResultFromClient, "ResultFromClient", m::CreateMessageResult, "CreateMessageResult", [m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::GenericResult, "GenericResult"] |
    u::ResultFromClient, "ResultFromClient", m::ListRootsResult, "ListRootsResult", [m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::GenericResult, "GenericResult"] |
    u::ResultFromClient, "ResultFromClient", m::ElicitResult, "ElicitResult", [m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::GenericResult, "GenericResult"] |
    u::ResultFromClient, "ResultFromClient", m::Result, "Result", [m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"; m::GenericResult, "GenericResult"] |
    m::ServerResult, "ServerResult", m::InputRequiredResult, "InputRequiredResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::DiscoverResult, "DiscoverResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::ListResourcesResult, "ListResourcesResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::ListResourceTemplatesResult, "ListResourceTemplatesResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::ReadResourceResult, "ReadResourceResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::SubscriptionsListenResult, "SubscriptionsListenResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::ListPromptsResult, "ListPromptsResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::GetPromptResult, "GetPromptResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::ListToolsResult, "ListToolsResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::CallToolResult, "CallToolResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::CompleteResult, "CompleteResult", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    m::ServerResult, "ServerResult", m::Result, "Result", [m::GenericResult, "GenericResult"; m::InputRequiredResult, "InputRequiredResult"; m::DiscoverResult, "DiscoverResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::SubscriptionsListenResult, "SubscriptionsListenResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"]
}

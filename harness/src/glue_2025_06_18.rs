// generated by tools/gen_glue.py
members! {
    Annotations { "audience" => audience, "lastModified" => last_modified, "priority" => priority },
    AudioContent { "_meta" => meta, "annotations" => annotations, "data" => data, "mimeType" => mime_type },
    BaseMetadata { "name" => name, "title" => title },
    BlobResourceContents { "_meta" => meta, "blob" => blob, "mimeType" => mime_type, "uri" => uri },
    BooleanSchema { "default" => default, "description" => description, "title" => title },
    CallToolRequest { "params" => params },
    CallToolRequestParams { "arguments" => arguments, "name" => name },
    CallToolResult { "_meta" => meta, "content" => content, "isError" => is_error, "structuredContent" => structured_content },
    CancelledNotification { "params" => params },
    CancelledNotificationParams { "reason" => reason, "requestId" => request_id },
    ClientCapabilities { "elicitation" => elicitation, "experimental" => experimental, "roots" => roots, "sampling" => sampling },
    ClientRoots { "listChanged" => list_changed },
    CompleteRequest { "params" => params },
    CompleteRequestArgument { "name" => name, "value" => value },
    CompleteRequestContext { "arguments" => arguments },
    CompleteRequestParams { "argument" => argument, "context" => context, "ref" => ref_ },
    CompleteResult { "_meta" => meta, "completion" => completion },
    CompleteResultCompletion { "hasMore" => has_more, "total" => total, "values" => values },
    CreateMessageRequest { "params" => params },
    CreateMessageRequestParams { "includeContext" => include_context, "maxTokens" => max_tokens, "messages" => messages, "metadata" => metadata, "modelPreferences" => model_preferences, "stopSequences" => stop_sequences, "systemPrompt" => system_prompt, "temperature" => temperature },
    CreateMessageResult { "_meta" => meta, "content" => content, "model" => model, "role" => role, "stopReason" => stop_reason },
    ElicitRequest { "params" => params },
    ElicitRequestParams { "message" => message, "requestedSchema" => requested_schema },
    ElicitRequestedSchema { "properties" => properties, "required" => required },
    ElicitResult { "_meta" => meta, "action" => action, "content" => content },
    EmbeddedResource { "_meta" => meta, "annotations" => annotations, "resource" => resource },
    EnumSchema { "description" => description, "enum" => enum_, "enumNames" => enum_names, "title" => title },
    GetPromptRequest { "params" => params },
    GetPromptRequestParams { "arguments" => arguments, "name" => name },
    GetPromptResult { "_meta" => meta, "description" => description, "messages" => messages },
    ImageContent { "_meta" => meta, "annotations" => annotations, "data" => data, "mimeType" => mime_type },
    Implementation { "name" => name, "title" => title, "version" => version },
    InitializeRequest { "params" => params },
    InitializeRequestParams { "capabilities" => capabilities, "clientInfo" => client_info, "protocolVersion" => protocol_version },
    InitializeResult { "_meta" => meta, "capabilities" => capabilities, "instructions" => instructions, "protocolVersion" => protocol_version, "serverInfo" => server_info },
    InitializedNotification { "params" => params },
    InitializedNotificationParams { "_meta" => meta; extra },
    JsonrpcError { "error" => error, "id" => id },
    JsonrpcNotification { "method" => method, "params" => params },
    JsonrpcNotificationParams { "_meta" => meta; extra },
    JsonrpcRequest { "id" => id, "method" => method, "params" => params },
    JsonrpcRequestParams { "_meta" => meta; extra },
    JsonrpcRequestParamsMeta { "progressToken" => progress_token; extra },
    JsonrpcResponse { "id" => id, "result" => result },
    ListPromptsRequest { "params" => params },
    ListPromptsRequestParams { "cursor" => cursor },
    ListPromptsResult { "_meta" => meta, "nextCursor" => next_cursor, "prompts" => prompts },
    ListResourceTemplatesRequest { "params" => params },
    ListResourceTemplatesRequestParams { "cursor" => cursor },
    ListResourceTemplatesResult { "_meta" => meta, "nextCursor" => next_cursor, "resourceTemplates" => resource_templates },
    ListResourcesRequest { "params" => params },
    ListResourcesRequestParams { "cursor" => cursor },
    ListResourcesResult { "_meta" => meta, "nextCursor" => next_cursor, "resources" => resources },
    ListRootsRequest { "params" => params },
    ListRootsRequestParams { "_meta" => meta; extra },
    ListRootsRequestParamsMeta { "progressToken" => progress_token; extra },
    ListRootsResult { "_meta" => meta, "roots" => roots },
    ListToolsRequest { "params" => params },
    ListToolsRequestParams { "cursor" => cursor },
    ListToolsResult { "_meta" => meta, "nextCursor" => next_cursor, "tools" => tools },
    LoggingMessageNotification { "params" => params },
    LoggingMessageNotificationParams { "data" => data, "level" => level, "logger" => logger },
    ModelHint { "name" => name },
    ModelPreferences { "costPriority" => cost_priority, "hints" => hints, "intelligencePriority" => intelligence_priority, "speedPriority" => speed_priority },
    Notification { "method" => method, "params" => params },
    NotificationParams { "_meta" => meta; extra },
    NumberSchema { "description" => description, "maximum" => maximum, "minimum" => minimum, "title" => title, "type" => type_ },
    PaginatedRequest { "method" => method, "params" => params },
    PaginatedRequestParams { "cursor" => cursor },
    PaginatedResult { "_meta" => meta, "nextCursor" => next_cursor },
    PingRequest { "params" => params },
    PingRequestParams { "_meta" => meta; extra },
    PingRequestParamsMeta { "progressToken" => progress_token; extra },
    ProgressNotification { "params" => params },
    ProgressNotificationParams { "message" => message, "progress" => progress, "progressToken" => progress_token, "total" => total },
    Prompt { "_meta" => meta, "arguments" => arguments, "description" => description, "name" => name, "title" => title },
    PromptArgument { "description" => description, "name" => name, "required" => required, "title" => title },
    PromptListChangedNotification { "params" => params },
    PromptListChangedNotificationParams { "_meta" => meta; extra },
    PromptMessage { "content" => content, "role" => role },
    PromptReference { "name" => name, "title" => title },
    ReadResourceRequest { "params" => params },
    ReadResourceRequestParams { "uri" => uri },
    ReadResourceResult { "_meta" => meta, "contents" => contents },
    Request { "method" => method, "params" => params },
    RequestParams { "_meta" => meta; extra },
    RequestParamsMeta { "progressToken" => progress_token; extra },
    Resource { "_meta" => meta, "annotations" => annotations, "description" => description, "mimeType" => mime_type, "name" => name, "size" => size, "title" => title, "uri" => uri },
    ResourceContents { "_meta" => meta, "mimeType" => mime_type, "uri" => uri },
    ResourceLink { "_meta" => meta, "annotations" => annotations, "description" => description, "mimeType" => mime_type, "name" => name, "size" => size, "title" => title, "uri" => uri },
    ResourceListChangedNotification { "params" => params },
    ResourceListChangedNotificationParams { "_meta" => meta; extra },
    ResourceTemplate { "_meta" => meta, "annotations" => annotations, "description" => description, "mimeType" => mime_type, "name" => name, "title" => title, "uriTemplate" => uri_template },
    ResourceTemplateReference { "uri" => uri },
    ResourceUpdatedNotification { "params" => params },
    ResourceUpdatedNotificationParams { "uri" => uri },
    Result { "_meta" => meta; extra },
    Root { "_meta" => meta, "name" => name, "uri" => uri },
    RootsListChangedNotification { "params" => params },
    RootsListChangedNotificationParams { "_meta" => meta; extra },
    RpcError { "code" => code, "data" => data, "message" => message },
    SamplingMessage { "content" => content, "role" => role },
    ServerCapabilities { "completions" => completions, "experimental" => experimental, "logging" => logging, "prompts" => prompts, "resources" => resources, "tools" => tools },
    ServerCapabilitiesPrompts { "listChanged" => list_changed },
    ServerCapabilitiesResources { "listChanged" => list_changed, "subscribe" => subscribe },
    ServerCapabilitiesTools { "listChanged" => list_changed },
    SetLevelRequest { "params" => params },
    SetLevelRequestParams { "level" => level },
    StringSchema { "description" => description, "format" => format, "maxLength" => max_length, "minLength" => min_length, "title" => title },
    SubscribeRequest { "params" => params },
    SubscribeRequestParams { "uri" => uri },
    TextContent { "_meta" => meta, "annotations" => annotations, "text" => text },
    TextResourceContents { "_meta" => meta, "mimeType" => mime_type, "text" => text, "uri" => uri },
    Tool { "_meta" => meta, "annotations" => annotations, "description" => description, "inputSchema" => input_schema, "name" => name, "outputSchema" => output_schema, "title" => title },
    ToolAnnotations { "destructiveHint" => destructive_hint, "idempotentHint" => idempotent_hint, "openWorldHint" => open_world_hint, "readOnlyHint" => read_only_hint, "title" => title },
    ToolInputSchema { "properties" => properties, "required" => required },
    ToolListChangedNotification { "params" => params },
    ToolListChangedNotificationParams { "_meta" => meta; extra },
    ToolOutputSchema { "properties" => properties, "required" => required },
    UnsubscribeRequest { "params" => params },
    UnsubscribeRequestParams { "uri" => uri }
}
news! {
    AudioContent(data "data", mime_type "mimeType", annotations "annotations", meta "_meta"),
    BooleanSchema(default "default", description "description", title "title"),
    CallToolRequest(params "params"),
    CancelledNotification(params "params"),
    CompleteRequest(params "params"),
    CreateMessageRequest(params "params"),
    ElicitRequest(params "params"),
    ElicitRequestedSchema(properties "properties", required "required"),
    EmbeddedResource(resource "resource", annotations "annotations", meta "_meta"),
    EnumSchema(enum_ "enum", enum_names "enumNames", description "description", title "title"),
    GetPromptRequest(params "params"),
    ImageContent(data "data", mime_type "mimeType", annotations "annotations", meta "_meta"),
    InitializeRequest(params "params"),
    InitializedNotification(params "params"),
    JsonrpcError(error "error", id "id"),
    JsonrpcNotification(method "method", params "params"),
    JsonrpcRequest(id "id", method "method", params "params"),
    JsonrpcResponse(id "id", result "result"),
    ListPromptsRequest(params "params"),
    ListResourceTemplatesRequest(params "params"),
    ListResourcesRequest(params "params"),
    ListRootsRequest(params "params"),
    ListToolsRequest(params "params"),
    LoggingMessageNotification(params "params"),
    PingRequest(params "params"),
    ProgressNotification(params "params"),
    PromptListChangedNotification(params "params"),
    PromptReference(name "name", title "title"),
    ReadResourceRequest(params "params"),
    ResourceLink(name "name", uri "uri", annotations "annotations", description "description", meta "_meta", mime_type "mimeType", size "size", title "title"),
    ResourceListChangedNotification(params "params"),
    ResourceTemplateReference(uri "uri"),
    ResourceUpdatedNotification(params "params"),
    RootsListChangedNotification(params "params"),
    SetLevelRequest(params "params"),
    StringSchema(description "description", format "format", max_length "maxLength", min_length "minLength", title "title"),
    SubscribeRequest(params "params"),
    TextContent(text "text", annotations "annotations", meta "_meta"),
    ToolInputSchema(required "required", properties "properties"),
    ToolListChangedNotification(params "params"),
    ToolOutputSchema(required "required", properties "properties"),
    UnsubscribeRequest(params "params")
}
consts! {
    AudioContent.type_ "type" type_value type_name,
    BooleanSchema.type_ "type" type_value type_name,
    CallToolRequest.method "method" method_value method_name,
    CancelledNotification.method "method" method_value method_name,
    CompleteRequest.method "method" method_value method_name,
    CreateMessageRequest.method "method" method_value method_name,
    ElicitRequest.method "method" method_value method_name,
    ElicitRequestedSchema.type_ "type" type_value type_name,
    EmbeddedResource.type_ "type" type_value type_name,
    EnumSchema.type_ "type" type_value type_name,
    GetPromptRequest.method "method" method_value method_name,
    ImageContent.type_ "type" type_value type_name,
    InitializeRequest.method "method" method_value method_name,
    InitializedNotification.method "method" method_value method_name,
    JsonrpcError.jsonrpc "jsonrpc" _ _,
    JsonrpcNotification.jsonrpc "jsonrpc" _ _,
    JsonrpcRequest.jsonrpc "jsonrpc" _ _,
    JsonrpcResponse.jsonrpc "jsonrpc" _ _,
    ListPromptsRequest.method "method" method_value method_name,
    ListResourceTemplatesRequest.method "method" method_value method_name,
    ListResourcesRequest.method "method" method_value method_name,
    ListRootsRequest.method "method" method_value method_name,
    ListToolsRequest.method "method" method_value method_name,
    LoggingMessageNotification.method "method" method_value method_name,
    PingRequest.method "method" method_value method_name,
    ProgressNotification.method "method" method_value method_name,
    PromptListChangedNotification.method "method" method_value method_name,
    PromptReference.type_ "type" type_value type_name,
    ReadResourceRequest.method "method" method_value method_name,
    ResourceLink.type_ "type" type_value type_name,
    ResourceListChangedNotification.method "method" method_value method_name,
    ResourceTemplateReference.type_ "type" type_value type_name,
    ResourceUpdatedNotification.method "method" method_value method_name,
    RootsListChangedNotification.method "method" method_value method_name,
    SetLevelRequest.method "method" method_value method_name,
    StringSchema.type_ "type" type_value type_name,
    SubscribeRequest.method "method" method_value method_name,
    TextContent.type_ "type" type_value type_name,
    ToolInputSchema.type_ "type" type_value type_name,
    ToolListChangedNotification.method "method" method_value method_name,
    ToolOutputSchema.type_ "type" type_value type_name,
    UnsubscribeRequest.method "method" method_value method_name
}
convs! {
    m::CancelledNotification => m::ClientNotification, "CancelledNotification", "ClientNotification", same, CancelledNotification;
    m::InitializedNotification => m::ClientNotification, "InitializedNotification", "ClientNotification", same, InitializedNotification;
    m::ProgressNotification => m::ClientNotification, "ProgressNotification", "ClientNotification", same, ProgressNotification;
    m::RootsListChangedNotification => m::ClientNotification, "RootsListChangedNotification", "ClientNotification", same, RootsListChangedNotification;
    m::InitializeRequest => m::ClientRequest, "InitializeRequest", "ClientRequest", same, InitializeRequest;
    m::PingRequest => m::ClientRequest, "PingRequest", "ClientRequest", same, PingRequest;
    m::ListResourcesRequest => m::ClientRequest, "ListResourcesRequest", "ClientRequest", same, ListResourcesRequest;
    m::ListResourceTemplatesRequest => m::ClientRequest, "ListResourceTemplatesRequest", "ClientRequest", same, ListResourceTemplatesRequest;
    m::ReadResourceRequest => m::ClientRequest, "ReadResourceRequest", "ClientRequest", same, ReadResourceRequest;
    m::SubscribeRequest => m::ClientRequest, "SubscribeRequest", "ClientRequest", same, SubscribeRequest;
    m::UnsubscribeRequest => m::ClientRequest, "UnsubscribeRequest", "ClientRequest", same, UnsubscribeRequest;
    m::ListPromptsRequest => m::ClientRequest, "ListPromptsRequest", "ClientRequest", same, ListPromptsRequest;
    m::GetPromptRequest => m::ClientRequest, "GetPromptRequest", "ClientRequest", same, GetPromptRequest;
    m::ListToolsRequest => m::ClientRequest, "ListToolsRequest", "ClientRequest", same, ListToolsRequest;
    m::CallToolRequest => m::ClientRequest, "CallToolRequest", "ClientRequest", same, CallToolRequest;
    m::SetLevelRequest => m::ClientRequest, "SetLevelRequest", "ClientRequest", same, SetLevelRequest;
    m::CompleteRequest => m::ClientRequest, "CompleteRequest", "ClientRequest", same, CompleteRequest;
    m::CreateMessageResult => m::ClientResult, "CreateMessageResult", "ClientResult", same, CreateMessageResult;
    m::ListRootsResult => m::ClientResult, "ListRootsResult", "ClientResult", same, ListRootsResult;
    m::ElicitResult => m::ClientResult, "ElicitResult", "ClientResult", same, ElicitResult;
    m::Result => m::ClientResult, "Result", "ClientResult", same, Result;
    m::PromptReference => m::CompleteRequestRef, "PromptReference", "CompleteRequestRef", same, PromptReference;
    m::ResourceTemplateReference => m::CompleteRequestRef, "ResourceTemplateReference", "CompleteRequestRef", same, ResourceTemplateReference;
    m::TextContent => m::ContentBlock, "TextContent", "ContentBlock", same, TextContent;
    m::ImageContent => m::ContentBlock, "ImageContent", "ContentBlock", same, ImageContent;
    m::AudioContent => m::ContentBlock, "AudioContent", "ContentBlock", same, AudioContent;
    m::ResourceLink => m::ContentBlock, "ResourceLink", "ContentBlock", same, ResourceLink;
    m::EmbeddedResource => m::ContentBlock, "EmbeddedResource", "ContentBlock", same, EmbeddedResource;
    m::TextContent => m::CreateMessageContent, "TextContent", "CreateMessageContent", same, TextContent;
    m::ImageContent => m::CreateMessageContent, "ImageContent", "CreateMessageContent", same, ImageContent;
    m::AudioContent => m::CreateMessageContent, "AudioContent", "CreateMessageContent", same, AudioContent;
    m::TextResourceContents => m::EmbeddedResourceResource, "TextResourceContents", "EmbeddedResourceResource", same, TextResourceContents;
    m::BlobResourceContents => m::EmbeddedResourceResource, "BlobResourceContents", "EmbeddedResourceResource", same, BlobResourceContents;
    m::JsonrpcRequest => m::JsonrpcMessage, "JsonrpcRequest", "JsonrpcMessage", same, Request;
    m::JsonrpcNotification => m::JsonrpcMessage, "JsonrpcNotification", "JsonrpcMessage", same, Notification;
    m::JsonrpcResponse => m::JsonrpcMessage, "JsonrpcResponse", "JsonrpcMessage", same, Response;
    m::JsonrpcError => m::JsonrpcMessage, "JsonrpcError", "JsonrpcMessage", same, Error;
    m::StringSchema => m::PrimitiveSchemaDefinition, "StringSchema", "PrimitiveSchemaDefinition", same, StringSchema;
    m::NumberSchema => m::PrimitiveSchemaDefinition, "NumberSchema", "PrimitiveSchemaDefinition", same, NumberSchema;
    m::BooleanSchema => m::PrimitiveSchemaDefinition, "BooleanSchema", "PrimitiveSchemaDefinition", same, BooleanSchema;
    m::EnumSchema => m::PrimitiveSchemaDefinition, "EnumSchema", "PrimitiveSchemaDefinition", same, EnumSchema;
    m::TextResourceContents => m::ReadResourceContent, "TextResourceContents", "ReadResourceContent", same, TextResourceContents;
    m::BlobResourceContents => m::ReadResourceContent, "BlobResourceContents", "ReadResourceContent", same, BlobResourceContents;
    m::TextContent => m::SamplingMessageContent, "TextContent", "SamplingMessageContent", same, TextContent;
    m::ImageContent => m::SamplingMessageContent, "ImageContent", "SamplingMessageContent", same, ImageContent;
    m::AudioContent => m::SamplingMessageContent, "AudioContent", "SamplingMessageContent", same, AudioContent;
    m::CancelledNotification => m::ServerNotification, "CancelledNotification", "ServerNotification", same, CancelledNotification;
    m::ProgressNotification => m::ServerNotification, "ProgressNotification", "ServerNotification", same, ProgressNotification;
    m::ResourceListChangedNotification => m::ServerNotification, "ResourceListChangedNotification", "ServerNotification", same, ResourceListChangedNotification;
    m::ResourceUpdatedNotification => m::ServerNotification, "ResourceUpdatedNotification", "ServerNotification", same, ResourceUpdatedNotification;
    m::PromptListChangedNotification => m::ServerNotification, "PromptListChangedNotification", "ServerNotification", same, PromptListChangedNotification;
    m::ToolListChangedNotification => m::ServerNotification, "ToolListChangedNotification", "ServerNotification", same, ToolListChangedNotification;
    m::LoggingMessageNotification => m::ServerNotification, "LoggingMessageNotification", "ServerNotification", same, LoggingMessageNotification;
    m::PingRequest => m::ServerRequest, "PingRequest", "ServerRequest", same, PingRequest;
    m::CreateMessageRequest => m::ServerRequest, "CreateMessageRequest", "ServerRequest", same, CreateMessageRequest;
    m::ListRootsRequest => m::ServerRequest, "ListRootsRequest", "ServerRequest", same, ListRootsRequest;
    m::ElicitRequest => m::ServerRequest, "ElicitRequest", "ServerRequest", same, ElicitRequest;
    m::InitializeResult => m::ServerResult, "InitializeResult", "ServerResult", same, InitializeResult;
    m::ListResourcesResult => m::ServerResult, "ListResourcesResult", "ServerResult", same, ListResourcesResult;
    m::ListResourceTemplatesResult => m::ServerResult, "ListResourceTemplatesResult", "ServerResult", same, ListResourceTemplatesResult;
    m::ReadResourceResult => m::ServerResult, "ReadResourceResult", "ServerResult", same, ReadResourceResult;
    m::ListPromptsResult => m::ServerResult, "ListPromptsResult", "ServerResult", same, ListPromptsResult;
    m::GetPromptResult => m::ServerResult, "GetPromptResult", "ServerResult", same, GetPromptResult;
    m::ListToolsResult => m::ServerResult, "ListToolsResult", "ServerResult", same, ListToolsResult;
    m::CallToolResult => m::ServerResult, "CallToolResult", "ServerResult", same, CallToolResult;
    m::CompleteResult => m::ServerResult, "CompleteResult", "ServerResult", same, CompleteResult;
    m::Result => m::ServerResult, "Result", "ServerResult", same, Result;
    m::InitializeResult => m::GenericResult, "InitializeResult", "GenericResult", same, _;
    m::ListResourcesResult => m::GenericResult, "ListResourcesResult", "GenericResult", same, _;
    m::ListResourceTemplatesResult => m::GenericResult, "ListResourceTemplatesResult", "GenericResult", same, _;
    m::ReadResourceResult => m::GenericResult, "ReadResourceResult", "GenericResult", same, _;
    m::ListPromptsResult => m::GenericResult, "ListPromptsResult", "GenericResult", same, _;
    m::GetPromptResult => m::GenericResult, "GetPromptResult", "GenericResult", same, _;
    m::ListToolsResult => m::GenericResult, "ListToolsResult", "GenericResult", same, _;
    m::CallToolResult => m::GenericResult, "CallToolResult", "GenericResult", same, _;
    m::CompleteResult => m::GenericResult, "CompleteResult", "GenericResult", same, _;
    m::ClientRequest => u::RequestFromClient, "ClientRequest", "RequestFromClient", same, ClientRequest;
    m::ClientResult => u::ResultFromClient, "ClientResult", "ResultFromClient", same, ClientResult;
    m::ServerRequest => u::RequestFromServer, "ServerRequest", "RequestFromServer", same, ServerRequest;
    m::ServerResult => u::ResultFromServer, "ServerResult", "ResultFromServer", same, ServerResult;
    m::RpcError => u::MessageFromServer, "RpcError", "MessageFromServer", same, Error;
    m::RpcError => u::MessageFromClient, "RpcError", "MessageFromClient", same, Error;
    m::InitializeRequest => u::RequestFromClient, "InitializeRequest", "RequestFromClient", same, _;
    m::PingRequest => u::RequestFromClient, "PingRequest", "RequestFromClient", same, _;
    m::ListResourcesRequest => u::RequestFromClient, "ListResourcesRequest", "RequestFromClient", same, _;
    m::ListResourceTemplatesRequest => u::RequestFromClient, "ListResourceTemplatesRequest", "RequestFromClient", same, _;
    m::ReadResourceRequest => u::RequestFromClient, "ReadResourceRequest", "RequestFromClient", same, _;
    m::SubscribeRequest => u::RequestFromClient, "SubscribeRequest", "RequestFromClient", same, _;
    m::UnsubscribeRequest => u::RequestFromClient, "UnsubscribeRequest", "RequestFromClient", same, _;
    m::ListPromptsRequest => u::RequestFromClient, "ListPromptsRequest", "RequestFromClient", same, _;
    m::GetPromptRequest => u::RequestFromClient, "GetPromptRequest", "RequestFromClient", same, _;
    m::ListToolsRequest => u::RequestFromClient, "ListToolsRequest", "RequestFromClient", same, _;
    m::CallToolRequest => u::RequestFromClient, "CallToolRequest", "RequestFromClient", same, _;
    m::SetLevelRequest => u::RequestFromClient, "SetLevelRequest", "RequestFromClient", same, _;
    m::CompleteRequest => u::RequestFromClient, "CompleteRequest", "RequestFromClient", same, _;
    m::InitializeRequest => u::MessageFromClient, "InitializeRequest", "MessageFromClient", same, _;
    m::PingRequest => u::MessageFromClient, "PingRequest", "MessageFromClient", same, _;
    m::ListResourcesRequest => u::MessageFromClient, "ListResourcesRequest", "MessageFromClient", same, _;
    m::ListResourceTemplatesRequest => u::MessageFromClient, "ListResourceTemplatesRequest", "MessageFromClient", same, _;
    m::ReadResourceRequest => u::MessageFromClient, "ReadResourceRequest", "MessageFromClient", same, _;
    m::SubscribeRequest => u::MessageFromClient, "SubscribeRequest", "MessageFromClient", same, _;
    m::UnsubscribeRequest => u::MessageFromClient, "UnsubscribeRequest", "MessageFromClient", same, _;
    m::ListPromptsRequest => u::MessageFromClient, "ListPromptsRequest", "MessageFromClient", same, _;
    m::GetPromptRequest => u::MessageFromClient, "GetPromptRequest", "MessageFromClient", same, _;
    m::ListToolsRequest => u::MessageFromClient, "ListToolsRequest", "MessageFromClient", same, _;
    m::CallToolRequest => u::MessageFromClient, "CallToolRequest", "MessageFromClient", same, _;
    m::SetLevelRequest => u::MessageFromClient, "SetLevelRequest", "MessageFromClient", same, _;
    m::CompleteRequest => u::MessageFromClient, "CompleteRequest", "MessageFromClient", same, _;
    m::CancelledNotification => u::NotificationFromClient, "CancelledNotification", "NotificationFromClient", same, _;
    m::InitializedNotification => u::NotificationFromClient, "InitializedNotification", "NotificationFromClient", same, _;
    m::ProgressNotification => u::NotificationFromClient, "ProgressNotification", "NotificationFromClient", same, _;
    m::RootsListChangedNotification => u::NotificationFromClient, "RootsListChangedNotification", "NotificationFromClient", same, _;
    m::CancelledNotification => u::ClientJsonrpcNotification, "CancelledNotification", "ClientJsonrpcNotification", jsonrpc, _;
    m::InitializedNotification => u::ClientJsonrpcNotification, "InitializedNotification", "ClientJsonrpcNotification", jsonrpc, _;
    m::ProgressNotification => u::ClientJsonrpcNotification, "ProgressNotification", "ClientJsonrpcNotification", jsonrpc, _;
    m::RootsListChangedNotification => u::ClientJsonrpcNotification, "RootsListChangedNotification", "ClientJsonrpcNotification", jsonrpc, _;
    m::CancelledNotification => u::MessageFromClient, "CancelledNotification", "MessageFromClient", same, _;
    m::InitializedNotification => u::MessageFromClient, "InitializedNotification", "MessageFromClient", same, _;
    m::ProgressNotification => u::MessageFromClient, "ProgressNotification", "MessageFromClient", same, _;
    m::RootsListChangedNotification => u::MessageFromClient, "RootsListChangedNotification", "MessageFromClient", same, _;
    m::Result => u::ResultFromClient, "Result", "ResultFromClient", same, _;
    m::CreateMessageResult => u::ResultFromClient, "CreateMessageResult", "ResultFromClient", same, _;
    m::ListRootsResult => u::ResultFromClient, "ListRootsResult", "ResultFromClient", same, _;
    m::ElicitResult => u::ResultFromClient, "ElicitResult", "ResultFromClient", same, _;
    m::Result => u::MessageFromClient, "Result", "MessageFromClient", same, _;
    m::CreateMessageResult => u::MessageFromClient, "CreateMessageResult", "MessageFromClient", same, _;
    m::ListRootsResult => u::MessageFromClient, "ListRootsResult", "MessageFromClient", same, _;
    m::ElicitResult => u::MessageFromClient, "ElicitResult", "MessageFromClient", same, _;
    m::CancelledNotification => u::NotificationFromServer, "CancelledNotification", "NotificationFromServer", same, _;
    m::ProgressNotification => u::NotificationFromServer, "ProgressNotification", "NotificationFromServer", same, _;
    m::ResourceListChangedNotification => u::NotificationFromServer, "ResourceListChangedNotification", "NotificationFromServer", same, _;
    m::ResourceUpdatedNotification => u::NotificationFromServer, "ResourceUpdatedNotification", "NotificationFromServer", same, _;
    m::PromptListChangedNotification => u::NotificationFromServer, "PromptListChangedNotification", "NotificationFromServer", same, _;
    m::ToolListChangedNotification => u::NotificationFromServer, "ToolListChangedNotification", "NotificationFromServer", same, _;
    m::LoggingMessageNotification => u::NotificationFromServer, "LoggingMessageNotification", "NotificationFromServer", same, _;
    m::CancelledNotification => u::ServerJsonrpcNotification, "CancelledNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::ProgressNotification => u::ServerJsonrpcNotification, "ProgressNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::ResourceListChangedNotification => u::ServerJsonrpcNotification, "ResourceListChangedNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::ResourceUpdatedNotification => u::ServerJsonrpcNotification, "ResourceUpdatedNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::PromptListChangedNotification => u::ServerJsonrpcNotification, "PromptListChangedNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::ToolListChangedNotification => u::ServerJsonrpcNotification, "ToolListChangedNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::LoggingMessageNotification => u::ServerJsonrpcNotification, "LoggingMessageNotification", "ServerJsonrpcNotification", jsonrpc, _;
    m::CancelledNotification => u::MessageFromServer, "CancelledNotification", "MessageFromServer", same, _;
    m::ProgressNotification => u::MessageFromServer, "ProgressNotification", "MessageFromServer", same, _;
    m::ResourceListChangedNotification => u::MessageFromServer, "ResourceListChangedNotification", "MessageFromServer", same, _;
    m::ResourceUpdatedNotification => u::MessageFromServer, "ResourceUpdatedNotification", "MessageFromServer", same, _;
    m::PromptListChangedNotification => u::MessageFromServer, "PromptListChangedNotification", "MessageFromServer", same, _;
    m::ToolListChangedNotification => u::MessageFromServer, "ToolListChangedNotification", "MessageFromServer", same, _;
    m::LoggingMessageNotification => u::MessageFromServer, "LoggingMessageNotification", "MessageFromServer", same, _;
    m::PingRequest => u::RequestFromServer, "PingRequest", "RequestFromServer", same, _;
    m::CreateMessageRequest => u::RequestFromServer, "CreateMessageRequest", "RequestFromServer", same, _;
    m::ListRootsRequest => u::RequestFromServer, "ListRootsRequest", "RequestFromServer", same, _;
    m::ElicitRequest => u::RequestFromServer, "ElicitRequest", "RequestFromServer", same, _;
    m::PingRequest => u::MessageFromServer, "PingRequest", "MessageFromServer", same, _;
    m::CreateMessageRequest => u::MessageFromServer, "CreateMessageRequest", "MessageFromServer", same, _;
    m::ListRootsRequest => u::MessageFromServer, "ListRootsRequest", "MessageFromServer", same, _;
    m::ElicitRequest => u::MessageFromServer, "ElicitRequest", "MessageFromServer", same, _;
    m::Result => u::ResultFromServer, "Result", "ResultFromServer", same, _;
    m::InitializeResult => u::ResultFromServer, "InitializeResult", "ResultFromServer", same, _;
    m::ListResourcesResult => u::ResultFromServer, "ListResourcesResult", "ResultFromServer", same, _;
    m::ListResourceTemplatesResult => u::ResultFromServer, "ListResourceTemplatesResult", "ResultFromServer", same, _;
    m::ReadResourceResult => u::ResultFromServer, "ReadResourceResult", "ResultFromServer", same, _;
    m::ListPromptsResult => u::ResultFromServer, "ListPromptsResult", "ResultFromServer", same, _;
    m::GetPromptResult => u::ResultFromServer, "GetPromptResult", "ResultFromServer", same, _;
    m::ListToolsResult => u::ResultFromServer, "ListToolsResult", "ResultFromServer", same, _;
    m::CallToolResult => u::ResultFromServer, "CallToolResult", "ResultFromServer", same, _;
    m::CompleteResult => u::ResultFromServer, "CompleteResult", "ResultFromServer", same, _;
    m::Result => u::MessageFromServer, "Result", "MessageFromServer", same, _;
    m::InitializeResult => u::MessageFromServer, "InitializeResult", "MessageFromServer", same, _;
    m::ListResourcesResult => u::MessageFromServer, "ListResourcesResult", "MessageFromServer", same, _;
    m::ListResourceTemplatesResult => u::MessageFromServer, "ListResourceTemplatesResult", "MessageFromServer", same, _;
    m::ReadResourceResult => u::MessageFromServer, "ReadResourceResult", "MessageFromServer", same, _;
    m::ListPromptsResult => u::MessageFromServer, "ListPromptsResult", "MessageFromServer", same, _;
    m::GetPromptResult => u::MessageFromServer, "GetPromptResult", "MessageFromServer", same, _;
    m::ListToolsResult => u::MessageFromServer, "ListToolsResult", "MessageFromServer", same, _;
    m::CallToolResult => u::MessageFromServer, "CallToolResult", "MessageFromServer", same, _;
    m::CompleteResult => u::MessageFromServer, "CompleteResult", "MessageFromServer", same, _
}
tries! {
    u::NotificationFromClient, "NotificationFromClient", m::CancelledNotification, "CancelledNotification", [m::ClientNotification, "ClientNotification"; m::CancelledNotification, "CancelledNotification"; m::InitializedNotification, "InitializedNotification"; m::ProgressNotification, "ProgressNotification"; m::RootsListChangedNotification, "RootsListChangedNotification"] |
    u::NotificationFromClient, "NotificationFromClient", m::InitializedNotification, "InitializedNotification", [m::ClientNotification, "ClientNotification"; m::CancelledNotification, "CancelledNotification"; m::InitializedNotification, "InitializedNotification"; m::ProgressNotification, "ProgressNotification"; m::RootsListChangedNotification, "RootsListChangedNotification"] |
    u::NotificationFromClient, "NotificationFromClient", m::ProgressNotification, "ProgressNotification", [m::ClientNotification, "ClientNotification"; m::CancelledNotification, "CancelledNotification"; m::InitializedNotification, "InitializedNotification"; m::ProgressNotification, "ProgressNotification"; m::RootsListChangedNotification, "RootsListChangedNotification"] |
    u::NotificationFromClient, "NotificationFromClient", m::RootsListChangedNotification, "RootsListChangedNotification", [m::ClientNotification, "ClientNotification"; m::CancelledNotification, "CancelledNotification"; m::InitializedNotification, "InitializedNotification"; m::ProgressNotification, "ProgressNotification"; m::RootsListChangedNotification, "RootsListChangedNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::CancelledNotification, "CancelledNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::ProgressNotification, "ProgressNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::ResourceListChangedNotification, "ResourceListChangedNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::ResourceUpdatedNotification, "ResourceUpdatedNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::PromptListChangedNotification, "PromptListChangedNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::ToolListChangedNotification, "ToolListChangedNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::NotificationFromServer, "NotificationFromServer", m::LoggingMessageNotification, "LoggingMessageNotification", [m::ServerNotification, "ServerNotification"; m::CancelledNotification, "CancelledNotification"; m::ProgressNotification, "ProgressNotification"; m::ResourceListChangedNotification, "ResourceListChangedNotification"; m::ResourceUpdatedNotification, "ResourceUpdatedNotification"; m::PromptListChangedNotification, "PromptListChangedNotification"; m::ToolListChangedNotification, "ToolListChangedNotification"; m::LoggingMessageNotification, "LoggingMessageNotification"] |
    u::RequestFromClient, "RequestFromClient", m::ClientRequest, "ClientRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::InitializeRequest, "InitializeRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::PingRequest, "PingRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::ListResourcesRequest, "ListResourcesRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::ReadResourceRequest, "ReadResourceRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::SubscribeRequest, "SubscribeRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::UnsubscribeRequest, "UnsubscribeRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::ListPromptsRequest, "ListPromptsRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::GetPromptRequest, "GetPromptRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::ListToolsRequest, "ListToolsRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::CallToolRequest, "CallToolRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::SetLevelRequest, "SetLevelRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromClient, "RequestFromClient", m::CompleteRequest, "CompleteRequest", [m::ClientRequest, "ClientRequest"; m::InitializeRequest, "InitializeRequest"; m::PingRequest, "PingRequest"; m::ListResourcesRequest, "ListResourcesRequest"; m::ListResourceTemplatesRequest, "ListResourceTemplatesRequest"; m::ReadResourceRequest, "ReadResourceRequest"; m::SubscribeRequest, "SubscribeRequest"; m::UnsubscribeRequest, "UnsubscribeRequest"; m::ListPromptsRequest, "ListPromptsRequest"; m::GetPromptRequest, "GetPromptRequest"; m::ListToolsRequest, "ListToolsRequest"; m::CallToolRequest, "CallToolRequest"; m::SetLevelRequest, "SetLevelRequest"; m::CompleteRequest, "CompleteRequest"] |
    u::RequestFromServer, "RequestFromServer", m::ServerRequest, "ServerRequest", [m::ServerRequest, "ServerRequest"; m::PingRequest, "PingRequest"; m::CreateMessageRequest, "CreateMessageRequest"; m::ListRootsRequest, "ListRootsRequest"; m::ElicitRequest, "ElicitRequest"] |
    u::RequestFromServer, "RequestFromServer", m::PingRequest, "PingRequest", [m::ServerRequest, "ServerRequest"; m::PingRequest, "PingRequest"; m::CreateMessageRequest, "CreateMessageRequest"; m::ListRootsRequest, "ListRootsRequest"; m::ElicitRequest, "ElicitRequest"] |
    u::RequestFromServer, "RequestFromServer", m::CreateMessageRequest, "CreateMessageRequest", [m::ServerRequest, "ServerRequest"; m::PingRequest, "PingRequest"; m::CreateMessageRequest, "CreateMessageRequest"; m::ListRootsRequest, "ListRootsRequest"; m::ElicitRequest, "ElicitRequest"] |
    u::RequestFromServer, "RequestFromServer", m::ListRootsRequest, "ListRootsRequest", [m::ServerRequest, "ServerRequest"; m::PingRequest, "PingRequest"; m::CreateMessageRequest, "CreateMessageRequest"; m::ListRootsRequest, "ListRootsRequest"; m::ElicitRequest, "ElicitRequest"] |
    u::RequestFromServer, "RequestFromServer", m::ElicitRequest, "ElicitRequest", [m::ServerRequest, "ServerRequest"; m::PingRequest, "PingRequest"; m::CreateMessageRequest, "CreateMessageRequest"; m::ListRootsRequest, "ListRootsRequest"; m::ElicitRequest, "ElicitRequest"] |
    u::ResultFromClient, "ResultFromClient", m::ClientResult, "ClientResult", [m::ClientResult, "ClientResult"; m::Result, "Result"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"] |
    u::ResultFromClient, "ResultFromClient", m::Result, "Result", [m::ClientResult, "ClientResult"; m::Result, "Result"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"] |
    u::ResultFromClient, "ResultFromClient", m::CreateMessageResult, "CreateMessageResult", [m::ClientResult, "ClientResult"; m::Result, "Result"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"] |
    u::ResultFromClient, "ResultFromClient", m::ListRootsResult, "ListRootsResult", [m::ClientResult, "ClientResult"; m::Result, "Result"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"] |
    u::ResultFromClient, "ResultFromClient", m::ElicitResult, "ElicitResult", [m::ClientResult, "ClientResult"; m::Result, "Result"; m::CreateMessageResult, "CreateMessageResult"; m::ListRootsResult, "ListRootsResult"; m::ElicitResult, "ElicitResult"] |
    u::ResultFromServer, "ResultFromServer", m::ServerResult, "ServerResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::Result, "Result", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::InitializeResult, "InitializeResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListResourcesResult, "ListResourcesResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListResourceTemplatesResult, "ListResourceTemplatesResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::ReadResourceResult, "ReadResourceResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListPromptsResult, "ListPromptsResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::GetPromptResult, "GetPromptResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::ListToolsResult, "ListToolsResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::CallToolResult, "CallToolResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"] |
    u::ResultFromServer, "ResultFromServer", m::CompleteResult, "CompleteResult", [m::ServerResult, "ServerResult"; m::Result, "Result"; m::InitializeResult, "InitializeResult"; m::ListResourcesResult, "ListResourcesResult"; m::ListResourceTemplatesResult, "ListResourceTemplatesResult"; m::ReadResourceResult, "ReadResourceResult"; m::ListPromptsResult, "ListPromptsResult"; m::GetPromptResult, "GetPromptResult"; m::ListToolsResult, "ListToolsResult"; m::CallToolResult, "CallToolResult"; m::CompleteResult, "CompleteResult"]
}
wraps! {
    InitializeRequest => ClientMessage,
    PingRequest => ClientMessage,
    ListResourcesRequest => ClientMessage,
    ListResourceTemplatesRequest => ClientMessage,
    ReadResourceRequest => ClientMessage,
    SubscribeRequest => ClientMessage,
    UnsubscribeRequest => ClientMessage,
    ListPromptsRequest => ClientMessage,
    GetPromptRequest => ClientMessage,
    ListToolsRequest => ClientMessage,
    CallToolRequest => ClientMessage,
    SetLevelRequest => ClientMessage,
    CompleteRequest => ClientMessage,
    Result => ClientMessage,
    CreateMessageResult => ClientMessage,
    ListRootsResult => ClientMessage,
    ElicitResult => ClientMessage,
    CancelledNotification => ClientMessage,
    InitializedNotification => ClientMessage,
    ProgressNotification => ClientMessage,
    RootsListChangedNotification => ClientMessage,
    PingRequest => ServerMessage,
    CreateMessageRequest => ServerMessage,
    ListRootsRequest => ServerMessage,
    ElicitRequest => ServerMessage,
    Result => ServerMessage,
    InitializeResult => ServerMessage,
    ListResourcesResult => ServerMessage,
    ListResourceTemplatesResult => ServerMessage,
    ReadResourceResult => ServerMessage,
    ListPromptsResult => ServerMessage,
    GetPromptResult => ServerMessage,
    ListToolsResult => ServerMessage,
    CallToolResult => ServerMessage,
    CompleteResult => ServerMessage,
    CancelledNotification => ServerMessage,
    ProgressNotification => ServerMessage,
    ResourceListChangedNotification => ServerMessage,
    ResourceUpdatedNotification => ServerMessage,
    PromptListChangedNotification => ServerMessage,
    ToolListChangedNotification => ServerMessage,
    LoggingMessageNotification => ServerMessage,
}

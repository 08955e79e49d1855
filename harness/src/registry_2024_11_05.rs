// generated by tools/gen_registry.py
reg! {
    Annotated,
    AnnotatedAnnotations,
    BlobResourceContents,
    CallToolRequest,
    CallToolRequestParams,
    CallToolResult,
    CallToolResultContentItem,
    CancelledNotification,
    CancelledNotificationParams,
    ClientCapabilities,
    ClientNotification,
    ClientRequest,
    ClientResult,
    ClientRoots,
    CompleteRequest,
    CompleteRequestArgument,
    CompleteRequestParams,
    CompleteRequestRef,
    CompleteResult,
    CompleteResultCompletion,
    CreateMessageRequest,
    CreateMessageRequestParams,
    CreateMessageResult,
    CreateMessageResultContent,
    Cursor,
    EmbeddedResource,
    EmbeddedResourceAnnotations,
    EmbeddedResourceResource,
    EmptyResult,
    GetPromptRequest,
    GetPromptRequestParams,
    GetPromptResult,
    ImageContent,
    ImageContentAnnotations,
    Implementation,
    IncludeContext,
    InitializeRequest,
    InitializeRequestParams,
    InitializeResult,
    InitializedNotification,
    InitializedNotificationParams,
    JsonrpcError,
    JsonrpcMessage,
    JsonrpcNotification,
    JsonrpcNotificationParams,
    JsonrpcRequest,
    JsonrpcRequestParams,
    JsonrpcRequestParamsMeta,
    JsonrpcResponse,
    ListPromptsRequest,
    ListPromptsRequestParams,
    ListPromptsResult,
    ListResourceTemplatesRequest,
    ListResourceTemplatesRequestParams,
    ListResourceTemplatesResult,
    ListResourcesRequest,
    ListResourcesRequestParams,
    ListResourcesResult,
    ListRootsRequest,
    ListRootsRequestParams,
    ListRootsRequestParamsMeta,
    ListRootsResult,
    ListToolsRequest,
    ListToolsRequestParams,
    ListToolsResult,
    LoggingLevel,
    LoggingMessageNotification,
    LoggingMessageNotificationParams,
    ModelHint,
    ModelPreferences,
    Notification,
    NotificationParams,
    PaginatedRequest,
    PaginatedRequestParams,
    PaginatedResult,
    PingRequest,
    PingRequestParams,
    PingRequestParamsMeta,
    ProgressNotification,
    ProgressNotificationParams,
    ProgressToken,
    Prompt,
    PromptArgument,
    PromptListChangedNotification,
    PromptListChangedNotificationParams,
    PromptMessage,
    PromptMessageContent,
    PromptReference,
    ReadResourceContent,
    ReadResourceRequest,
    ReadResourceRequestParams,
    ReadResourceResult,
    Request,
    RequestId,
    RequestParams,
    RequestParamsMeta,
    Resource,
    ResourceAnnotations,
    ResourceContents,
    ResourceListChangedNotification,
    ResourceListChangedNotificationParams,
    ResourceReference,
    ResourceTemplate,
    ResourceTemplateAnnotations,
    ResourceUpdatedNotification,
    ResourceUpdatedNotificationParams,
    Result,
    Role,
    Root,
    RootsListChangedNotification,
    RootsListChangedNotificationParams,
    RpcError,
    SamplingMessage,
    SamplingMessageContent,
    ServerCapabilities,
    ServerCapabilitiesPrompts,
    ServerCapabilitiesResources,
    ServerCapabilitiesTools,
    ServerNotification,
    ServerRequest,
    ServerResult,
    SetLevelRequest,
    SetLevelRequestParams,
    SubscribeRequest,
    SubscribeRequestParams,
    TextContent,
    TextContentAnnotations,
    TextResourceContents,
    Tool,
    ToolInputSchema,
    ToolListChangedNotification,
    ToolListChangedNotificationParams,
    UnsubscribeRequest,
    UnsubscribeRequestParams,
}

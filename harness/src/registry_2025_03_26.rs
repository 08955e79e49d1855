// generated by tools/gen_registry.py
reg! {
    Annotations,
    AudioContent,
    BlobResourceContents,
    CallToolRequest,
    CallToolRequestParams,
    CallToolResult,
    CallToolResultContentItem,
    CancelledNotification,
    CancelledNotificationParams,
    ClientCapabilities,
    ClientNotification,
    ClientRequest,
    ClientResult,
    ClientRoots,
    CompleteRequest,
    CompleteRequestArgument,
    CompleteRequestParams,
    CompleteRequestRef,
    CompleteResult,
    CompleteResultCompletion,
    CreateMessageContent,
    CreateMessageRequest,
    CreateMessageRequestParams,
    CreateMessageResult,
    Cursor,
    EmbeddedResource,
    EmbeddedResourceResource,
    EmptyResult,
    GetPromptRequest,
    GetPromptRequestParams,
    GetPromptResult,
    ImageContent,
    Implementation,
    IncludeContext,
    InitializeRequest,
    InitializeRequestParams,
    InitializeResult,
    InitializedNotification,
    InitializedNotificationParams,
    JsonrpcBatchRequest,
    JsonrpcBatchRequestItem,
    JsonrpcBatchResponse,
    JsonrpcBatchResponseItem,
    JsonrpcError,
    JsonrpcMessage,
    JsonrpcNotification,
    JsonrpcNotificationParams,
    JsonrpcRequest,
    JsonrpcRequestParams,
    JsonrpcRequestParamsMeta,
    JsonrpcResponse,
    ListPromptsRequest,
    ListPromptsRequestParams,
    ListPromptsResult,
    ListResourceTemplatesRequest,
    ListResourceTemplatesRequestParams,
    ListResourceTemplatesResult,
    ListResourcesRequest,
    ListResourcesRequestParams,
    ListResourcesResult,
    ListRootsRequest,
    ListRootsRequestParams,
    ListRootsRequestParamsMeta,
    ListRootsResult,
    ListToolsRequest,
    ListToolsRequestParams,
    ListToolsResult,
    LoggingLevel,
    LoggingMessageNotification,
    LoggingMessageNotificationParams,
    ModelHint,
    ModelPreferences,
    Notification,
    NotificationParams,
    PaginatedRequest,
    PaginatedRequestParams,
    PaginatedResult,
    PingRequest,
    PingRequestParams,
    PingRequestParamsMeta,
    ProgressNotification,
    ProgressNotificationParams,
    ProgressToken,
    Prompt,
    PromptArgument,
    PromptListChangedNotification,
    PromptListChangedNotificationParams,
    PromptMessage,
    PromptMessageContent,
    PromptReference,
    ReadResourceContent,
    ReadResourceRequest,
    ReadResourceRequestParams,
    ReadResourceResult,
    Request,
    RequestId,
    RequestParams,
    RequestParamsMeta,
    Resource,
    ResourceContents,
    ResourceListChangedNotification,
    ResourceListChangedNotificationParams,
    ResourceReference,
    ResourceTemplate,
    ResourceUpdatedNotification,
    ResourceUpdatedNotificationParams,
    Result,
    Role,
    Root,
    RootsListChangedNotification,
    RootsListChangedNotificationParams,
    RpcError,
    SamplingMessage,
    SamplingMessageContent,
    ServerCapabilities,
    ServerCapabilitiesPrompts,
    ServerCapabilitiesResources,
    ServerCapabilitiesTools,
    ServerNotification,
    ServerRequest,
    ServerResult,
    SetLevelRequest,
    SetLevelRequestParams,
    SubscribeRequest,
    SubscribeRequestParams,
    TextContent,
    TextResourceContents,
    Tool,
    ToolAnnotations,
    ToolInputSchema,
    ToolListChangedNotification,
    ToolListChangedNotificationParams,
    UnsubscribeRequest,
    UnsubscribeRequestParams,
}

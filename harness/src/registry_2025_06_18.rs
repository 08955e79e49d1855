// generated by tools/gen_registry.py
reg! {
    Annotations,
    AudioContent,
    BaseMetadata,
    BlobResourceContents,
    BooleanSchema,
    CallToolRequest,
    CallToolRequestParams,
    CallToolResult,
    CancelledNotification,
    CancelledNotificationParams,
    ClientCapabilities,
    ClientNotification,
    ClientRequest,
    ClientResult,
    ClientRoots,
    CompleteRequest,
    CompleteRequestArgument,
    CompleteRequestContext,
    CompleteRequestParams,
    CompleteRequestRef,
    CompleteResult,
    CompleteResultCompletion,
    ContentBlock,
    CreateMessageContent,
    CreateMessageRequest,
    CreateMessageRequestParams,
    CreateMessageResult,
    Cursor,
    ElicitRequest,
    ElicitRequestParams,
    ElicitRequestedSchema,
    ElicitResult,
    ElicitResultAction,
    ElicitResultContent,
    EmbeddedResource,
    EmbeddedResourceResource,
    EmptyResult,
    EnumSchema,
    GetPromptRequest,
    GetPromptRequestParams,
    GetPromptResult,
    ImageContent,
    Implementation,
    IncludeContext,
    InitializeRequest,
    InitializeRequestParams,
    InitializeResult,
    InitializedNotification,
    InitializedNotificationParams,
    JsonrpcError,
    JsonrpcMessage,
    JsonrpcNotification,
    JsonrpcNotificationParams,
    JsonrpcRequest,
    JsonrpcRequestParams,
    JsonrpcRequestParamsMeta,
    JsonrpcResponse,
    ListPromptsRequest,
    ListPromptsRequestParams,
    ListPromptsResult,
    ListResourceTemplatesRequest,
    ListResourceTemplatesRequestParams,
    ListResourceTemplatesResult,
    ListResourcesRequest,
    ListResourcesRequestParams,
    ListResourcesResult,
    ListRootsRequest,
    ListRootsRequestParams,
    ListRootsRequestParamsMeta,
    ListRootsResult,
    ListToolsRequest,
    ListToolsRequestParams,
    ListToolsResult,
    LoggingLevel,
    LoggingMessageNotification,
    LoggingMessageNotificationParams,
    ModelHint,
    ModelPreferences,
    Notification,
    NotificationParams,
    NumberSchema,
    NumberSchemaType,
    PaginatedRequest,
    PaginatedRequestParams,
    PaginatedResult,
    PingRequest,
    PingRequestParams,
    PingRequestParamsMeta,
    PrimitiveSchemaDefinition,
    ProgressNotification,
    ProgressNotificationParams,
    ProgressToken,
    Prompt,
    PromptArgument,
    PromptListChangedNotification,
    PromptListChangedNotificationParams,
    PromptMessage,
    PromptReference,
    ReadResourceContent,
    ReadResourceRequest,
    ReadResourceRequestParams,
    ReadResourceResult,
    Request,
    RequestId,
    RequestParams,
    RequestParamsMeta,
    Resource,
    ResourceContents,
    ResourceLink,
    ResourceListChangedNotification,
    ResourceListChangedNotificationParams,
    ResourceTemplate,
    ResourceTemplateReference,
    ResourceUpdatedNotification,
    ResourceUpdatedNotificationParams,
    Result,
    Role,
    Root,
    RootsListChangedNotification,
    RootsListChangedNotificationParams,
    RpcError,
    SamplingMessage,
    SamplingMessageContent,
    ServerCapabilities,
    ServerCapabilitiesPrompts,
    ServerCapabilitiesResources,
    ServerCapabilitiesTools,
    ServerNotification,
    ServerRequest,
    ServerResult,
    SetLevelRequest,
    SetLevelRequestParams,
    StringSchema,
    StringSchemaFormat,
    SubscribeRequest,
    SubscribeRequestParams,
    TextContent,
    TextResourceContents,
    Tool,
    ToolAnnotations,
    ToolInputSchema,
    ToolListChangedNotification,
    ToolListChangedNotificationParams,
    ToolOutputSchema,
    UnsubscribeRequest,
    UnsubscribeRequestParams,
}

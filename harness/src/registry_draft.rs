// generated by tools/gen_registry.py
reg! {
    Annotations,
    AudioContent,
    BaseMetadata,
    BlobResourceContents,
    BooleanSchema,
    CacheableResult,
    CacheableResultCacheScope,
    CallToolRequest,
    CallToolRequestParams,
    CallToolResult,
    CallToolResultResponse,
    CallToolResultResponseResult,
    CancelledNotification,
    CancelledNotificationParams,
    ClientCapabilities,
    ClientElicitation,
    ClientNotification,
    ClientRequest,
    ClientResult,
    ClientSampling,
    CompleteRequest,
    CompleteRequestArgument,
    CompleteRequestContext,
    CompleteRequestParams,
    CompleteRequestRef,
    CompleteResult,
    CompleteResultCompletion,
    CompleteResultResponse,
    ContentBlock,
    CreateMessageContent,
    CreateMessageRequest,
    CreateMessageRequestParams,
    CreateMessageResult,
    Cursor,
    DiscoverRequest,
    DiscoverResult,
    DiscoverResultCacheScope,
    DiscoverResultResponse,
    ElicitRequest,
    ElicitRequestFormParams,
    ElicitRequestFormParamsRequestedSchema,
    ElicitRequestParams,
    ElicitRequestUrlParams,
    ElicitResult,
    ElicitResultAction,
    ElicitResultContent,
    ElicitResultContentPrimitive,
    EmbeddedResource,
    EmbeddedResourceResource,
    EmptyResult,
    EnumSchema,
    GetPromptRequest,
    GetPromptRequestParams,
    GetPromptResult,
    GetPromptResultResponse,
    GetPromptResultResponseResult,
    HeaderMismatchError,
    Icon,
    IconTheme,
    Icons,
    ImageContent,
    Implementation,
    IncludeContext,
    InputRequest,
    InputRequests,
    InputRequiredResult,
    InputResponse,
    InputResponseRequestParams,
    InputResponses,
    InternalError,
    InvalidParamsError,
    InvalidRequestError,
    JsonArray,
    JsonObject,
    JsonValue,
    JsonValueVariant2,
    JsonrpcErrorResponse,
    JsonrpcMessage,
    JsonrpcNotification,
    JsonrpcRequest,
    JsonrpcResponse,
    JsonrpcResultResponse,
    LegacyTitledEnumSchema,
    ListPromptsRequest,
    ListPromptsResult,
    ListPromptsResultCacheScope,
    ListPromptsResultResponse,
    ListResourceTemplatesRequest,
    ListResourceTemplatesResult,
    ListResourceTemplatesResultCacheScope,
    ListResourceTemplatesResultResponse,
    ListResourcesRequest,
    ListResourcesResult,
    ListResourcesResultCacheScope,
    ListResourcesResultResponse,
    ListRootsRequest,
    ListRootsRequestParams,
    ListRootsResult,
    ListToolsRequest,
    ListToolsResult,
    ListToolsResultCacheScope,
    ListToolsResultResponse,
    LoggingLevel,
    LoggingMessageNotification,
    LoggingMessageNotificationParams,
    MetaObject,
    MethodNotFoundError,
    MissingRequiredClientCapabilityError,
    MissingRequiredClientCapabilityErrorError,
    MissingRequiredClientCapabilityErrorErrorData,
    ModelHint,
    ModelPreferences,
    MultiSelectEnumSchema,
    Notification,
    NotificationMetaObject,
    NotificationParams,
    NumberSchema,
    NumberSchemaType,
    PaginatedRequest,
    PaginatedRequestParams,
    PaginatedResult,
    ParseError,
    PrimitiveSchemaDefinition,
    ProgressNotification,
    ProgressNotificationParams,
    ProgressToken,
    Prompt,
    PromptArgument,
    PromptListChangedNotification,
    PromptMessage,
    PromptReference,
    ReadResourceContent,
    ReadResourceRequest,
    ReadResourceRequestParams,
    ReadResourceResult,
    ReadResourceResultCacheScope,
    ReadResourceResultResponse,
    ReadResourceResultResponseResult,
    Request,
    RequestId,
    RequestMetaObject,
    RequestParams,
    Resource,
    ResourceContents,
    ResourceLink,
    ResourceListChangedNotification,
    ResourceRequestParams,
    ResourceTemplate,
    ResourceTemplateReference,
    ResourceUpdatedNotification,
    ResourceUpdatedNotificationParams,
    Result,
    ResultMetaObject,
    ResultType,
    Role,
    Root,
    RpcError,
    SamplingMessage,
    SamplingMessageContent,
    SamplingMessageContentBlock,
    ServerCapabilities,
    ServerCapabilitiesPrompts,
    ServerCapabilitiesResources,
    ServerCapabilitiesTools,
    ServerNotification,
    ServerResult,
    SingleSelectEnumSchema,
    StringSchema,
    StringSchemaFormat,
    SubscriptionFilter,
    SubscriptionsAcknowledgedNotification,
    SubscriptionsAcknowledgedNotificationParams,
    SubscriptionsListenRequest,
    SubscriptionsListenRequestParams,
    SubscriptionsListenResult,
    SubscriptionsListenResultMetaObject,
    SubscriptionsListenResultResponse,
    TextContent,
    TextResourceContents,
    TitledMultiSelectEnumSchema,
    TitledMultiSelectEnumSchemaItems,
    TitledMultiSelectEnumSchemaItemsAnyOfItem,
    TitledSingleSelectEnumSchema,
    TitledSingleSelectEnumSchemaOneOfItem,
    Tool,
    ToolAnnotations,
    ToolChoice,
    ToolChoiceMode,
    ToolInputSchema,
    ToolListChangedNotification,
    ToolOutputSchema,
    ToolResultContent,
    ToolUseContent,
    UnsupportedProtocolVersionError,
    UnsupportedProtocolVersionErrorError,
    UnsupportedProtocolVersionErrorErrorData,
    UntitledMultiSelectEnumSchema,
    UntitledMultiSelectEnumSchemaItems,
    UntitledSingleSelectEnumSchema,
}

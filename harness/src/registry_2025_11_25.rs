// generated by tools/gen_registry.py
reg! {
    Annotations,
    AudioContent,
    BaseMetadata,
    BlobResourceContents,
    BooleanSchema,
    CallToolMeta,
    CallToolRequest,
    CallToolRequestParams,
    CallToolResult,
    CancelTaskParams,
    CancelTaskRequest,
    CancelTaskResult,
    CancelledNotification,
    CancelledNotificationParams,
    ClientCapabilities,
    ClientElicitation,
    ClientNotification,
    ClientRequest,
    ClientResult,
    ClientRoots,
    ClientSampling,
    ClientTaskElicitation,
    ClientTaskRequest,
    ClientTaskSampling,
    ClientTasks,
    CompleteRequest,
    CompleteRequestArgument,
    CompleteRequestContext,
    CompleteRequestMeta,
    CompleteRequestParams,
    CompleteRequestRef,
    CompleteResult,
    CompleteResultCompletion,
    ContentBlock,
    CreateMessageContent,
    CreateMessageRequest,
    CreateMessageRequestParams,
    CreateMessageResult,
    CreateTaskResult,
    Cursor,
    ElicitCompleteParams,
    ElicitFormMeta,
    ElicitFormSchema,
    ElicitRequest,
    ElicitRequestFormParams,
    ElicitRequestParams,
    ElicitRequestUrlParams,
    ElicitResult,
    ElicitResultAction,
    ElicitResultContent,
    ElicitResultContentPrimitive,
    ElicitUrlMeta,
    ElicitationCompleteNotification,
    EmbeddedResource,
    EmbeddedResourceResource,
    EmptyResult,
    EnumSchema,
    GetPromptMeta,
    GetPromptRequest,
    GetPromptRequestParams,
    GetPromptResult,
    GetTaskParams,
    GetTaskPayloadParams,
    GetTaskPayloadRequest,
    GetTaskPayloadResult,
    GetTaskRequest,
    GetTaskResult,
    Icon,
    IconTheme,
    Icons,
    ImageContent,
    Implementation,
    IncludeContext,
    InitializeMeta,
    InitializeRequest,
    InitializeRequestParams,
    InitializeResult,
    InitializedNotification,
    JsonrpcErrorResponse,
    JsonrpcMessage,
    JsonrpcNotification,
    JsonrpcRequest,
    JsonrpcResponse,
    JsonrpcResultResponse,
    LegacyTitledEnumSchema,
    ListPromptsRequest,
    ListPromptsResult,
    ListResourceTemplatesRequest,
    ListResourceTemplatesResult,
    ListResourcesRequest,
    ListResourcesResult,
    ListRootsRequest,
    ListRootsResult,
    ListTasksRequest,
    ListTasksResult,
    ListToolsRequest,
    ListToolsResult,
    LoggingLevel,
    LoggingMessageNotification,
    LoggingMessageNotificationParams,
    MessageMeta,
    ModelHint,
    ModelPreferences,
    MultiSelectEnumSchema,
    Notification,
    NotificationParams,
    NumberSchema,
    NumberSchemaType,
    PaginatedMeta,
    PaginatedRequest,
    PaginatedRequestParams,
    PaginatedResult,
    PingRequest,
    PrimitiveSchemaDefinition,
    ProgressNotification,
    ProgressNotificationParams,
    ProgressToken,
    Prompt,
    PromptArgument,
    PromptListChangedNotification,
    PromptMessage,
    PromptReference,
    ReadResourceContent,
    ReadResourceMeta,
    ReadResourceRequest,
    ReadResourceRequestParams,
    ReadResourceResult,
    RelatedTaskMetadata,
    Request,
    RequestId,
    RequestParams,
    RequestParamsMeta,
    Resource,
    ResourceContents,
    ResourceLink,
    ResourceListChangedNotification,
    ResourceMeta,
    ResourceRequestParams,
    ResourceTemplate,
    ResourceTemplateReference,
    ResourceUpdatedNotification,
    ResourceUpdatedNotificationParams,
    Result,
    Role,
    Root,
    RootsListChangedNotification,
    RpcError,
    SamplingMessage,
    SamplingMessageContent,
    SamplingMessageContentBlock,
    ServerCapabilities,
    ServerCapabilitiesPrompts,
    ServerCapabilitiesResources,
    ServerCapabilitiesTools,
    ServerNotification,
    ServerRequest,
    ServerResult,
    ServerTaskRequest,
    ServerTaskTools,
    ServerTasks,
    SetLevelMeta,
    SetLevelRequest,
    SetLevelRequestParams,
    SingleSelectEnumSchema,
    StringSchema,
    StringSchemaFormat,
    SubscribeMeta,
    SubscribeRequest,
    SubscribeRequestParams,
    Task,
    TaskAugmentedMeta,
    TaskAugmentedRequestParams,
    TaskMetadata,
    TaskStatus,
    TaskStatusNotification,
    TaskStatusNotificationParams,
    TextContent,
    TextResourceContents,
    TitledMultiSelectEnumSchema,
    TitledMultiSelectEnumSchemaItems,
    TitledMultiSelectEnumSchemaItemsAnyOfItem,
    TitledSingleSelectEnumSchema,
    TitledSingleSelectEnumSchemaOneOfItem,
    Tool,
    ToolAnnotations,
    ToolChoice,
    ToolChoiceMode,
    ToolExecution,
    ToolExecutionTaskSupport,
    ToolInputSchema,
    ToolListChangedNotification,
    ToolOutputSchema,
    ToolResultContent,
    ToolUseContent,
    UnsubscribeMeta,
    UnsubscribeRequest,
    UnsubscribeRequestParams,
    UntitledMultiSelectEnumSchema,
    UntitledMultiSelectEnumSchemaItems,
    UntitledSingleSelectEnumSchema,
    UrlElicitError,
    UrlElicitErrorData,
    UrlElicitationRequiredError,
}

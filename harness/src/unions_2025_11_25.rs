// generated by tools/gen_unions.py
unions! {
    ClientNotification { CancelledNotification(CancelledNotification), InitializedNotification(InitializedNotification), ProgressNotification(ProgressNotification), TaskStatusNotification(TaskStatusNotification), RootsListChangedNotification(RootsListChangedNotification) },
    ClientRequest { InitializeRequest(InitializeRequest), PingRequest(PingRequest), ListResourcesRequest(ListResourcesRequest), ListResourceTemplatesRequest(ListResourceTemplatesRequest), ReadResourceRequest(ReadResourceRequest), SubscribeRequest(SubscribeRequest), UnsubscribeRequest(UnsubscribeRequest), ListPromptsRequest(ListPromptsRequest), GetPromptRequest(GetPromptRequest), ListToolsRequest(ListToolsRequest), CallToolRequest(CallToolRequest), GetTaskRequest(GetTaskRequest), GetTaskPayloadRequest(GetTaskPayloadRequest), CancelTaskRequest(CancelTaskRequest), ListTasksRequest(ListTasksRequest), SetLevelRequest(SetLevelRequest), CompleteRequest(CompleteRequest) },
    ClientResult { GetTaskResult(GetTaskResult), CancelTaskResult(CancelTaskResult), ListTasksResult(ListTasksResult), CreateMessageResult(CreateMessageResult), ListRootsResult(ListRootsResult), ElicitResult(ElicitResult), Result(Result), GetTaskPayloadResult(GetTaskPayloadResult) },
    CompleteRequestRef { PromptReference(PromptReference), ResourceTemplateReference(ResourceTemplateReference) },
    ContentBlock { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ResourceLink(ResourceLink), EmbeddedResource(EmbeddedResource) },
    CreateMessageContent { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ToolUseContent(ToolUseContent), ToolResultContent(ToolResultContent) ; _ },
    ElicitRequestParams { UrlParams(ElicitRequestUrlParams), FormParams(ElicitRequestFormParams) },
    EmbeddedResourceResource { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    EnumSchema { LegacyTitledEnumSchema(LegacyTitledEnumSchema), UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema), TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema), UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema), TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema) },
    JsonrpcMessage { Request(JsonrpcRequest), Notification(JsonrpcNotification), ResultResponse(JsonrpcResultResponse), ErrorResponse(JsonrpcErrorResponse) },
    JsonrpcResponse { ResultResponse(JsonrpcResultResponse), ErrorResponse(JsonrpcErrorResponse) },
    MultiSelectEnumSchema { UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema), TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema) },
    PrimitiveSchemaDefinition { LegacyTitledEnumSchema(LegacyTitledEnumSchema), UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema), TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema), UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema), TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema), StringSchema(StringSchema), NumberSchema(NumberSchema), BooleanSchema(BooleanSchema) },
    ReadResourceContent { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    SamplingMessageContent { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ToolUseContent(ToolUseContent), ToolResultContent(ToolResultContent) ; _ },
    SamplingMessageContentBlock { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ToolUseContent(ToolUseContent), ToolResultContent(ToolResultContent) },
    ServerNotification { CancelledNotification(CancelledNotification), ProgressNotification(ProgressNotification), ResourceListChangedNotification(ResourceListChangedNotification), ResourceUpdatedNotification(ResourceUpdatedNotification), PromptListChangedNotification(PromptListChangedNotification), ToolListChangedNotification(ToolListChangedNotification), TaskStatusNotification(TaskStatusNotification), LoggingMessageNotification(LoggingMessageNotification), ElicitationCompleteNotification(ElicitationCompleteNotification) },
    ServerRequest { PingRequest(PingRequest), GetTaskRequest(GetTaskRequest), GetTaskPayloadRequest(GetTaskPayloadRequest), CancelTaskRequest(CancelTaskRequest), ListTasksRequest(ListTasksRequest), CreateMessageRequest(CreateMessageRequest), ListRootsRequest(ListRootsRequest), ElicitRequest(ElicitRequest) },
    ServerResult { InitializeResult(InitializeResult), ListResourcesResult(ListResourcesResult), ListResourceTemplatesResult(ListResourceTemplatesResult), ReadResourceResult(ReadResourceResult), ListPromptsResult(ListPromptsResult), GetPromptResult(GetPromptResult), ListToolsResult(ListToolsResult), CallToolResult(CallToolResult), GetTaskResult(GetTaskResult), CancelTaskResult(CancelTaskResult), ListTasksResult(ListTasksResult), CompleteResult(CompleteResult), Result(Result), GetTaskPayloadResult(GetTaskPayloadResult) },
    SingleSelectEnumSchema { UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema), TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema) }
}
